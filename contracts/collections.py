"""Contracts on collections and registrars (C21)."""
from pyvc.api import *
from .paths import SP, SPV
if False:
    import os
    from pyfileconf.sectionpath.sectionpath import SectionPath

C = 'pyfileconf.basemodels.collection:Collection'
P = 'pyfileconf.pipelines.models.collection:PipelineCollection'
S = 'pyfileconf.data.models.collection:SpecificClassCollection'
COMMON = dict(_items=TList(TAny()), name_dict=TDict(TStr(), TAny()), basepath=TStr(), imports=TAny(), name=TStr(), klass=TAny(),
              always_import_strs=TAny(), always_assign_strs=TAny(), key_attr=TStr(), execute_attr=TStr())
PIPE = TObj(P, **COMMON)
SPEC = TObj(S, **COMMON)


@assumed('pyfileconf.logic.get:_get_public_name_or_special_name', 'the name of an item is read from it and does not change between two reads', opts={'alt': True})
def public_name(obj, accept_output_names=True):
    return query('name_of', obj, accept_output_names, ty=NAME, may_raise=True)


NAME = TStr()


@contract(P + '._set_name_map', 'C21', use=['public_name'], self=PIPE)
def pipe_name_map(self):
    """the names are exactly the names of the items; the last item with a name wins"""
    names = {}
    for x in self._items:
        names[_get_public_name_or_special_name(x)] = x
    self.name_dict = names


@contract(S + '._set_name_map', 'C21', self=SPEC)
def spec_name_map(self):
    names = {}
    for x in self._items:
        names[getattr(x, 'name' if isinstance(x, SpecificClassCollection) else self.key_attr)] = x
    self.name_dict = names


@contract(C + '.__getattr__', 'C21', self=PIPE, item=TStr())
def __getattr__(self, item):
    if item in self.name_dict:
        return self.name_dict[item]
    raise AttributeError(f'{item}')


@contract(C + '.name_for_obj', 'C21', self=PIPE, obj=TAny())
def name_for_obj(self, obj):
    for name, item in self.name_dict.items():
        if obj is item:
            return name
    raise ValueError


@contract(C + '.get', 'C21', self=PIPE, section_path_str=TStr())
def get(self, section_path_str):
    """the path is followed section by section; below an item (anything but a collection of this kind) there is nothing"""
    here = self
    for section in section_path_str.split('.'):
        if not isinstance(here, type(self)):
            raise AttributeError(section)
        here = getattr(here, section)
    return here


@contract('pyfileconf.logic.get:_get_from_nested_obj_by_section_path', 'C21 C04', obj=TAny(), section_path=SPV, prevent_property_access=TBool())
def nested_get(obj, section_path, prevent_property_access=False):
    for section in section_path.path_str.split('.'):
        if prevent_property_access:
            try:
                prop = isinstance(getattr(type(obj), section), property)
            except AttributeError:
                prop = False
            if prop:
                return 5
        obj = getattr(obj, section)
    return obj


@contract('pyfileconf.logic.set:_set_in_nested_obj_by_section_path', 'C21', obj=TAny(), section_path=SPV, value=TAny())
def nested_set(obj, section_path, value):
    names = section_path.path_str.split('.')
    for section in names[:-1]:
        obj = getattr(obj, section)
    setattr(obj, names[-1], value)


# ---- registrars
R = 'pyfileconf.basemodels.registrar:Registrar'
PR = 'pyfileconf.pipelines.models.registrar:PipelineRegistrar'
COLL = TRef(P)
REG_ = dict(collection=PIPE, basepath=TStr(), name=TStr(), always_import_strs=TAny(), always_assign_strs=TAny(), klass=TAny(), key_attr=TStr(), execute_attr=TStr())
PREG = TObj(PR, **REG_)
if False:
    from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
    from pyfileconf.pipelines.models.collection import PipelineCollection


@assumed('pyfileconf.logic.get:_get_from_nested_obj_by_section_path', 'verified as nested_get (C21)', opts={'alt': True})
def reg_nested_get(obj, section_path, prevent_property_access=False):
    return query('entry at', obj, '.'.join([*section_path]), prevent_property_access, ty=FOUND, may_raise=True)


FOUND = TOneOf(TRef(P), TRef('pyfileconf.views.object:ObjectView'))


@assumed('pyfileconf.views.object:ObjectView.load', 'loading the object of a view', opts={'alt': True})
def view_load(self):
    return effect('load object', self)


@assumed(P + '._output_config_files', 'verified as pipe_output (C22)', opts={'alt': True})
def coll_output(self):
    effect('output config files', self)


@contract(R + '.get', 'C21', use=['reg_nested_get'], self=PREG, section_path_str=TStr())
def reg_get(self, section_path_str):
    return _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))


@contract(PR + '.get', 'C21', use=['reg_nested_get', 'view_load', '-' + R + '.get'], self=PREG, section_path_str=TStr())
def preg_get(self, section_path_str):
    """collections as they are; an item is loaded from its view"""
    found = _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
    return found if isinstance(found, PipelineCollection) else found.load()


@contract(R + '.scaffold_config_for', 'C22', use=['reg_nested_get', 'coll_output'], self=PREG, section_path_str=TStr())
def reg_scaffold_for(self, section_path_str):
    """the section that holds the item is written"""
    names = section_path_str.split('.')
    parent = _get_from_nested_obj_by_section_path(self, names[:-1])
    parent._output_config_files()


@contract(R + '.__getattr__', 'C21', self=PREG, item=TStr())
def reg_getattr(self, item):
    return getattr(self.collection, item)


@contract(R + '.set', 'C21', self=PREG.but(collection=TAny()), section_path_str=TStr(), value=TAny())
def reg_set(self, section_path_str, value):
    """missing sections are created on the way, each in the folder of its path and with the settings of the registrar; the value goes
    into the last one"""
    here = self
    folder = self.basepath
    for section in section_path_str.split('.'):
        folder = os.path.join(folder, section)
        try:
            here = getattr(here, section)
        except AttributeError:
            new = self.collection_class(folder, [], name=section, imports=self.imports, always_assign_strs=self.always_assign_strs,
                                        always_import_strs=self.always_import_strs, klass=self.klass, key_attr=self.key_attr, execute_attr=self.execute_attr)
            here.append(new)
            here = getattr(here, section)
    here.append(value)


# ---- building a collection from nested dictionaries and lists
@assumed(C + '.from_dict', 'verified as from_dict; the nested dictionary of a section', opts={'alt': True})
def below_dict(cls, dict_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None,
               key_attr='name', execute_attr='__call__'):
    return query('collection from dict', cls, dict_, basepath, name, imports, always_import_strs, always_assign_strs, klass, key_attr, execute_attr)


@assumed(C + '.from_list', 'verified as from_list; the list of a section', opts={'alt': True})
def below_list(cls, list_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None,
               key_attr='name', execute_attr='__call__'):
    return query('collection from list', cls, list_, basepath, name, imports, always_import_strs, always_assign_strs, klass, key_attr, execute_attr)


@assumed(C + '.__init__', 'construction of a collection from its items (verified as coll_init)', opts={'alt': True})
def new_coll(self, basepath, items, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None,
             key_attr='name', execute_attr='__call__'):
    effect('new collection', type(self), basepath, snapshot(items), name, imports, always_import_strs, always_assign_strs, klass, key_attr, execute_attr)


NEW = dict(basepath=TStr(), name=TOpt(TStr()), imports=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(), klass=TAny(), key_attr=TStr(), execute_attr=TStr())


@contract(C + '.from_dict', 'C21', use=['below_dict', 'below_list', 'new_coll'], opts={'cls': P}, dict_=TDict(TStr(), TAny()), **NEW)
def from_dict(cls, dict_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None,
              key_attr='name', execute_attr='__call__'):
    """one collection with one section for every key, in the folder of the key, with the settings of the whole"""
    settings = dict(always_import_strs=always_import_strs, always_assign_strs=always_assign_strs, klass=klass,
                    key_attr=key_attr, execute_attr=execute_attr)
    sections = []
    for section, content in dict_.items():
        folder = os.path.join(basepath, section)
        if isinstance(content, dict):
            sections.append(cls.from_dict(content, folder, section, imports, **settings))
        elif isinstance(content, list):
            sections.append(cls.from_list(content, folder, section, imports, **settings))
    return cls(basepath, sections, name, **settings)


@contract(C + '.from_list', 'C21', use=['below_dict', 'below_list', 'new_coll'], opts={'cls': P}, list_=TList(TOneOf(TDict(TStr(), TAny()), TRef('pyfileconf.views.object:ObjectView'))), **NEW)
def from_list(cls, list_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None,
              key_attr='name', execute_attr='__call__'):
    """the items in order; a dictionary in the list stands for its sections"""
    settings = dict(always_import_strs=always_import_strs, always_assign_strs=always_assign_strs, klass=klass,
                    key_attr=key_attr, execute_attr=execute_attr)
    found = []
    for entry in list_:
        if not isinstance(entry, dict):
            found.append(entry)
            continue
        for section, content in entry.items():
            folder = os.path.join(basepath, section)
            if isinstance(content, dict):
                found.append(cls.from_dict(content, folder, section, imports, **settings))
            elif isinstance(content, list):
                found.append(cls.from_list(content, folder, section, imports, **settings))
            else:
                found.append(content)
    return cls(basepath, found, name, imports, **settings)


if False:
    from pyfileconf.views.object import ObjectView
    from pyfileconf.basemodels.collection import Collection


@assumed('pyfileconf.views.object:ObjectView.from_ast_and_imports', 'an item of the dictionary becomes a view of the object that it names', opts={'alt': True})
def make_view(cls, item, imports):
    return query('view of', item, imports, ty=OVIEW)


OVIEW = TRef('pyfileconf.views.object:ObjectView')


@assumed(P + '._set_name_map', 'verified as pipe_name_map', opts={'alt': True})
def renamed(self):
    self.name_dict = pure('names of', snapshot(self._items), ty=NAMES)


NAMES = TDict(TStr(), TAny())


@contract(P + '._transform_item', 'C21', use=['make_view'], self=PIPE, item=TOneOf(TRef(P), TRef('item')))
def pipe_transform(self, item):
    return item if isinstance(item, PipelineCollection) else ObjectView.from_ast_and_imports(item, self.imports)


@contract(C + '.__init__', 'C21', use=['make_view', 'renamed'], self=TObj(P), items=TList(TOneOf(TRef(P), TRef('item'))), **{**NEW, 'name': TOpt(TStr())})
def coll_init(self, basepath, items, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None,
              key_attr='name', execute_attr='__call__'):
    """the settings are kept, every item is stored in order, sections as they are, and the names follow the stored items"""
    self.basepath = basepath
    self.imports = imports
    self.name = name
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self.key_attr = key_attr
    self.execute_attr = execute_attr
    self.klass = klass
    self._items = [x if isinstance(x, PipelineCollection) else ObjectView.from_ast_and_imports(x, imports) for x in items]
    self._set_name_map()


@contract(C + '.items!set', 'C21', use=['renamed'], self=PIPE, items=TList(TAny()))
def set_items(self, items):
    self._items = items
    self._set_name_map()


@contract(C + '.append', 'C21', use=['renamed'], self=PIPE, item=TAny())
def coll_append(self, item):
    """one more item, and it can be found at once"""
    self._items.append(item)
    self._set_name_map()


@contract(C + '.extend', 'C21', use=['renamed'], self=PIPE, items=TList(TAny()))
def coll_extend(self, items):
    self._items.extend(items)
    self._set_name_map()


@assumed('pyfileconf.basemodels.collection:to_nested_dict', 'verified as nested_dict; the dictionary of a section', opts={'alt': True})
def nested_below(collection):
    return query('nested dict of', collection)


@contract('pyfileconf.basemodels.collection:to_nested_dict', 'C21', use=['nested_below'], collection=PIPE.but(name_dict=TDict(TStr(), TOneOf(TRef(P), TRef('item')))))
def nested_dict(collection):
    """every name of the collection with its item, sections as dictionaries"""
    out = {}
    for name, item in collection.name_dict.items():
        out[name] = to_nested_dict(item) if isinstance(item, Collection) else item
    return out


# ---- writing the config files
@contract(P + '._output_section_config_file', 'C22', opts={'externals': {}}, self=PIPE)
def section_file(self):
    """an existing section config is left alone"""
    path = os.path.join(self.basepath, 'section.py')
    if not os.path.exists(path):
        with open(path, 'w') as f:
            f.write('\n')


@assumed(P + '._output_section_config_file', 'verified as section_file', opts={'alt': True})
def out_section(self):
    effect('section file', self.basepath)


@assumed(P + '._output_config_file', 'verified as config_file', opts={'alt': True})
def out_item(self, item):
    effect('config file', self.basepath, item)


@contract(P + '._output_config_files', 'C22', use=['out_section', 'out_item'], self=PIPE)
def pipe_output(self):
    """the folder, its section config, then a file for every item in it"""
    if not os.path.exists(self.basepath):
        os.makedirs(self.basepath)
    self._output_section_config_file()
    for item in self._items:
        self._output_config_file(item)
