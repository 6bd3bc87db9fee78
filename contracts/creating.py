"""Contracts on creating items (C13): PipelineManager.create and the dictionary files."""
from pyvc.api import *
from contracts.paths import SP, SPV
if False:
    import ast
    import os
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf.data.logic.convert import convert_to_empty_obj_if_necessary
    from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
    from pyfileconf.views.object import ObjectView
    from pyfileconf.exceptions.imports import CouldNotDetermineModuleForObjectException
    from pyfileconf.imports.logic.load.name import _should_skip_module
    from pyfileconf.data.models.collection import SpecificClassCollection
    import sys
    from pyfileconf.imports.models.statements.container import ImportStatementContainer
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.data.models.dictfile import SpecificClassDictFile
    from pyfileconf.data.models.dictconfig import SpecificClassDictConfig
    from pyfileconf.pipelines.models.dictfile import PipelineDictFile
    from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
    from pyfileconf.dictfiles.modify import add_item_into_nested_dict_at_section_path, pretty_format_str, \
        create_dict_assignment_str_from_nested_dict_with_ast_names

PM = 'pyfileconf.main:PipelineManager'
M = 'pyfileconf.dictfiles.modify:'
COLL = TRef('pyfileconf.data.models.collection:SpecificClassCollection', klass=TNullable(), key_attr=TStr())
REGISTRAR = TRef('pyfileconf.data.models.registrar:SpecificRegistrar', collection=COLL, name=TStr())
BYNAME = TDict(TStr(), REGISTRAR)
GENERAL = TRef('pyfileconf.pipelines.models.registrar:PipelineRegistrar')
PMGR = TObj(PM, folder=TStr(), name=TStr(), pipeline_dict_path=TStr(), specific_class_names=TList(TStr()),
            _general_registrar=TOneOf(None, GENERAL))
FUNC = TRef('function', callable=True, __name__=TStr())


@contract(PM + '._registrar_dict', 'C13 C08', self=PMGR.but(_registrars=TOneOf(None, TList(REGISTRAR))))
def by_name(self):
    """the general registrar under its name, and every other one under its own"""
    if self._general_registrar is None:
        raise ValueError
    out = {'general': self._general_registrar}
    for registrar in ([] if self._registrars is None else self._registrars):
        out[registrar.name] = registrar
    return out


@assumed(PM + '._registrar_dict', 'verified as by_name', opts={'alt': True})
def named_registrars(self):
    return query('registrars by name', self, ty=BYNAME, may_raise=True)


@assumed(PM + '._create_specific_class_dict_entry', 'verified as specific_entry', opts={'alt': True})
def add_specific(self, section_path):
    effect('add to dictionary of specific class', section_path.path_str, may_raise=True)


@assumed(PM + '._create_pipeline_dict_entry', 'verified as pipeline_entry', opts={'alt': True})
def add_general(self, section_path, func_or_class):
    effect('add to pipeline dictionary', section_path.path_str, func_or_class, may_raise=True)


@assumed(PM + '.reset', 'verified as contracts.main.pm_reset', opts={'alt': True})
def reset_created(self, section_path_str_or_view, allow_create=False):
    effect('reset', section_path_str_or_view, allow_create, may_raise=True)


@assumed('pyfileconf.basemodels.registrar:Registrar.set', 'verified as contracts.collections.reg_set (C21)', opts={'alt': True})
def put(self, section_path_str, value):
    effect('set', self, section_path_str, value, may_raise=True)


@assumed('pyfileconf.basemodels.registrar:Registrar.scaffold_config_for', 'verified as contracts.collections.reg_scaffold_for (C22)', opts={'alt': True})
def scaffold(self, section_path_str):
    effect('scaffold', self, section_path_str, may_raise=True)


@assumed('pyfileconf.data.logic.convert:convert_to_empty_obj_if_necessary', 'verified as contracts.creating.empty_obj', opts={'alt': True})
def to_empty(item, item_class, key_attr='name'):
    return effect('empty object', item, item_class, key_attr, may_raise=True)


@assumed('pyfileconf.imports.logic.load.name:get_module_and_name_imported_from', 'finding the module of a function (verified as imported_from)', opts={'alt': True})
def module_of(obj, search_list=None):
    return query('module of', obj, may_raise=True), query('module name of', obj, ty=STR)


STR = TStr()


@assumed('pyfileconf.views.object:ObjectView.from_ast_and_imports', 'the view of an item', opts={'alt': True})
def view_of(cls, item, imports):
    return effect('view of', item.id, str(imports), may_raise=True)


@contract(PM + '.create', 'C13', use=['named_registrars', 'add_specific', 'add_general', 'reset_created', 'put', 'scaffold', 'to_empty', 'module_of', 'view_of'],
          self=PMGR, section_path_str=TStr(), func_or_class=TOneOf(None, FUNC))
def create(self, section_path_str, func_or_class=None):
    """a request that is not acceptable is refused before anything is done; otherwise the entry goes into the dictionary
    file, the item into the registrar (at once reachable), and its config is written and loaded"""
    names = section_path_str.split('.')
    path = SectionPath(section_path_str)
    if names[0] in self.specific_class_names:
        if len(names) < 3 or func_or_class is not None:
            raise ValueError
        self._create_specific_class_dict_entry(path)
        registrar = self._registrar_dict[names[0]]
        if registrar.collection.klass is None:
            raise ValueError
        item = convert_to_empty_obj_if_necessary(names[-1], registrar.collection.klass, key_attr=registrar.collection.key_attr)
        registrar.set('.'.join(names[1:-1]), item)
        registrar.scaffold_config_for('.'.join(names[1:]))
        self.reset(section_path_str, allow_create=True)
        return
    if func_or_class is None:
        raise ValueError
    self._create_pipeline_dict_entry(path, func_or_class)
    name = func_or_class.__name__
    full = '.'.join([*names, *name.split('.')])
    module, module_name = get_module_and_name_imported_from(func_or_class)
    item = ObjectView.from_ast_and_imports(ast.Name(id=name), ImportStatementContainer([ObjectImportStatement([name], module_name)]))
    if self._general_registrar is None:
        raise ValueError
    self._general_registrar.set(section_path_str, item)
    self._general_registrar.scaffold_config_for(full)
    self.reset(full, allow_create=True)


# ---- the dictionary files
FILE = 'pyfileconf.basemodels.file:ConfigFileBase.'


@assumed('pyfileconf.data.models.dictfile:SpecificClassDictFile.load', 'the nested dictionary in the file', opts={'alt': True})
def load_specific(self):
    return effect('load', self.filepath, ty=NESTED, may_raise=True)


@assumed('pyfileconf.pipelines.models.dictfile:PipelineDictFile.load', 'the nested dictionary in the file', opts={'alt': True})
def load_general(self):
    return effect('load', self.filepath, ty=NESTED, may_raise=True)


NESTED = TRef('ext.nested')


@assumed(FILE + '__init__', 'verified as contracts.files.file_init (C12)', opts={'alt': True})
def new_file(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    self.filepath = filepath
    self.name = name


@assumed(FILE + 'save', 'verified as contracts.files.save (C12)', opts={'alt': True})
def save_file(self, config):
    effect('save', self.filepath, self.name, type(config), config._file is self, str(config.imports), {**config}, may_raise=True)


@assumed('pyfileconf.basemodels.config:ConfigBase.__init__', 'verified as contracts.config.init', opts={'alt': True})
def new_config(self, d=None, annotations=None, imports=None, _file=None, name=None, begin_assignments=None, klass=None,
               always_import_strs=None, always_assign_strs=None):
    self.update(d)
    self._file = _file
    self.imports = '' if imports is None else imports


@assumed(M + 'add_item_into_nested_dict_at_section_path', 'adds the entry to the nested dictionary (bounded: bounded/c13.py)', opts={'alt': True})
def add_entry(nested_dict, section_path, item, add_as_ast_name=True):
    effect('add entry', nested_dict, '.'.join([*section_path]), item, add_as_ast_name, may_raise=True)


@assumed(M + 'create_dict_assignment_str_from_nested_dict_with_ast_names', 'source of the nested dictionary (bounded: bounded/c13.py)', opts={'alt': True})
def dict_source(nested_dict, existing_str=None, assign_to_name='pipeline_dict'):
    return effect('source of', nested_dict, assign_to_name, ty=STR, may_raise=True)


@assumed(M + 'pretty_format_str', 'formatting by black keeps the meaning', opts={'alt': True})
def pretty(string):
    return effect('pretty', string, ty=STR, may_raise=True)


ENTRY = ['new_file', 'load_specific', 'load_general', 'save_file', 'add_entry', 'dict_source', 'pretty', 'module_of']


@contract(PM + '._create_specific_class_dict_entry', 'C13', use=ENTRY, self=PMGR, section_path=SPV)
def specific_entry(self, section_path):
    """the entry is added to what the dictionary file of that class holds now, and the file is written with all of it"""
    names = section_path.path_str.split('.')
    file = SpecificClassDictFile(os.path.join(self.folder, names[0] + '_dict.py'), name=names[0] + '_dict')
    entries = file.load()
    add_item_into_nested_dict_at_section_path(entries, names[1:-1], names[-1], add_as_ast_name=False)
    file.save(SpecificClassDictConfig({'class_dict': pretty_format_str('class_dict = ' + str(entries))}, name='specific_class_dict', _file=file))


@contract(PM + '._create_pipeline_dict_entry', 'C13', use=ENTRY, self=PMGR, section_path=SPV, func_or_class=FUNC)
def pipeline_entry(self, section_path, func_or_class):
    """the same for the pipeline dictionary; the function is imported from the module which defines it"""
    file = PipelineDictFile(self.pipeline_dict_path, name='pipeline_dict')
    entries = file.load()
    module, module_name = get_module_and_name_imported_from(func_or_class)
    imports = ImportStatementContainer([ObjectImportStatement([func_or_class.__name__], module_name)])
    add_item_into_nested_dict_at_section_path(entries, section_path, func_or_class.__name__)
    file.save(PipelineDictConfig({'pipeline_dict': create_dict_assignment_str_from_nested_dict_with_ast_names(entries)},
                                 name='pipeline_dict', _file=file, imports=imports))


NAMEM = 'pyfileconf.imports.logic.load.name:'
MODULE = TRef('module', __name__=TStr())
SYS = TObj('sys', modules=TDict(TStr(), MODULE))
SYSG = {'globals': {'sys': 'sys__'}}
ANY = TAny()


@assumed(NAMEM + '_should_skip_module', 'verified as skip', opts={'alt': True})
def skipped(name):
    return pure_bool('skipped', name)


@assumed(NAMEM + '_obj_in_module', 'verified as in_module', opts={'alt': True})
def has_object(obj, module):
    return query('has object', obj, module, ty=FLAG)


FLAG = TBool()


@contract(NAMEM + 'get_module_and_name_imported_from', 'C13 C14', use=['skipped', 'has_object'], opts=SYSG, obj=TAny(),
          search_list=TOneOf(None, TList(TStr())), sys__=SYS)
def imported_from(obj, search_list=None):
    """the first module, in the order of the search, which has the very object; there is an error when none has"""
    for name in ([n for n in sys.modules] if search_list is None else search_list):
        if not _should_skip_module(name) and query('has object', obj, sys.modules[name], ty=FLAG):
            return sys.modules[name], name
    raise CouldNotDetermineModuleForObjectException


CONV = 'pyfileconf.data.logic.convert:'
ARGS = TRef('ext.args')


@assumed('pyfileconf.imports.logic.load.klass:class_function_args_as_dict', 'the parameters of the constructor (C14)', opts={'alt': True})
def class_args(klass):
    return query('args', klass, ty=DEFAULTS, may_raise=True)


DEFAULTS = TDict(TStr(), TAny())
KLASS = TRef('class', callable=True)


@contract(CONV + 'convert_to_empty_obj_if_necessary', 'C13 C21', use=['class_args'], item=TOneOf(TStr(), TRef('ext.instance')), item_class=KLASS,
          key_attr=TStr())
def empty_obj(item, item_class, key_attr='name'):
    """an object is taken as it is; a name makes an object with the defaults of its class, and that name as its key"""
    if isinstance(item, (item_class, SpecificClassCollection)):
        return item
    args = {**query('args', item_class, ty=DEFAULTS, may_raise=True)}
    args[key_attr] = item
    return opaque_call(item_class, **args)
