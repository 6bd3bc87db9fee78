"""Contracts on the selector and its item views (C17, C10)."""
from pyvc.api import *
from contracts.paths import SP, SPV, VIEW
from contracts.context import CTX
if False:
    from copy import deepcopy
    from pyfileconf import context
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf.selector.models.itemview import ItemView
    from pyfileconf.selector.models.selector import Selector
    from pyfileconf.views.object import ObjectView
    from pyfileconf.data.models.collection import SpecificClassCollection
    from pyfileconf.pipelines.models.collection import PipelineCollection
    import inspect
    from functools import partial
    from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException
    from pyfileconf.selector.logic.exc.typo import handle_pipeline_manager_not_loaded_or_typo, handle_known_typo_after_pipeline_manager_name

IVM = 'pyfileconf.selector.models.itemview'
SELM = 'pyfileconf.selector.models.selector'
IV = IVM + ':ItemView'
SEL = SELM + ':Selector'
STRUCT = TDict(TStr(), TDict(TStr(), TRef('ext.Collection')))
S0 = TRef(SEL, _is_selector=TConst(True))
IV0 = TRef(IV, section_path_str=TStr(), _section_path_str=TStr(), _is_item_view=TConst(True), selector=S0)
IVNEW = TObj(IV)


@contract(IV + '.__eq__', 'C17', self=IV0, other=TOneOf(VIEW, TStr(), TAny(), None))
def eq(self, other):
    return hasattr(other, 'section_path_str') and self.section_path_str == other.section_path_str


@contract(IV + '.__hash__', 'C17', self=IV0)
def hash_(self):
    return hash(self.section_path_str)


@contract(IV + '.__init__', 'C17', self=IVNEW, section_path_str=TStr(), selector=S0)
def init(self, section_path_str, selector):
    self.section_path_str = section_path_str
    self._section_path_str = section_path_str
    self.selector = selector
    self._is_item_view = True


@contract(SEL + '.__getattr__', 'C17', self=S0, item=TStr())
def sel_getattr(self, item):
    return fresh_obj('pyfileconf.selector.models.itemview:ItemView', section_path_str=item, _section_path_str=item, selector=self, _is_item_view=True)


@contract(SEL + '.__call__', 'C17', self=S0, item=TStr())
def sel_call(self, item):
    return fresh_obj('pyfileconf.selector.models.itemview:ItemView', section_path_str=item, _section_path_str=item, selector=self, _is_item_view=True)


PM = 'pyfileconf.main:PipelineManager'
MGR = TRef(PM, name=TStr(), specific_class_names=TList(TStr()), _registrar_dict=TDict(TStr(), TAny()))
COLLQ = 'pyfileconf.basemodels.collection:Collection'
KLS = TRef('type')
COLL = TRef(COLLQ, klass=KLS, execute_attr=TStr(), name=TStr())
SELF = TObj(SEL, _is_selector=TConst(True), _managers=TDict(TStr(), MGR), _structure=TDict(TStr(), TDict(TStr(), COLL)))
IVS = TObj(IV, section_path_str=TStr(), _section_path_str=TStr(), _is_item_view=TConst(True), selector=SELF)
MCTX = CTX.but(active_managers=TDict(TStr(), MGR))
C = {'context': True}


@assumed(PM + '.update', 'verified as contracts.main', opts={'alt': True})
def pm_update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    effect('pm.update', self, d_, section_path_str, pyfileconf_persist, kwargs)


@contract(SEL + '._set_attr_for_item', 'C17', use=['pm_update'], self=SELF, item=TStr(), attr=TStr(), value=TAny())
def set_attr(self, item, attr, value):
    """setting an attribute updates exactly that value of the item the path names, in the manager it names"""
    names = item.split('.')
    manager = self._managers[names[0]]
    manager.update({attr: value}, section_path_str='.'.join(names[1:]))


@contract(IV + '.__setattr__', 'C17', use=['pm_update'], self=IVS, key=TStr(), value=TAny())
def iv_setattr(self, key, value):
    if key in ('section_path_str', 'selector', '_is_item_view', '_section_path_str'):
        object.__setattr__(self, key, value)
    else:
        self.selector._set_attr_for_item(self.section_path_str, key, value)


@contract(SEL + '._attach_to_pipeline_manager', 'C17', opts=C, self=TObj(SEL), context__=MCTX)
def attach(self):
    """the selector follows the active managers, also the ones which come later"""
    from pyfileconf import context
    self._managers = context.active_managers


@contract(SEL + '._get_real_item', 'C17 C10', opts=C, use=['found_at'], self=SELF, item=TStr(), context__=MCTX)
def real_item(self, item):
    """the item of the path in the manager the path names; a config file which uses it depends on it"""
    from pyfileconf import context
    from pyfileconf.main import PipelineManager
    from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
    manager = PipelineManager.get_manager_by_section_path_str(item)
    path = SectionPath('.'.join(item.split('.')[1:]))
    if context.file_is_currently_being_loaded:
        context.add_config_dependency(context.stack.currently_loading_file_section_path, item, force_update=True)
    return _get_from_nested_obj_by_section_path(manager, path)


@contract(IV + '._add_to_config_dependencies_if_necessary', 'C10 C17', opts=C, self=IVS, context__=MCTX)
def iv_depends(self):
    from pyfileconf import context
    if context.currently_running_section_path_str is not None:
        context.add_config_dependency(context.currently_running_section_path_str, self.section_path_str, force_update=True)


@contract(IV + '.item', 'C17', opts=C, use=['found_at'], self=IVS, context__=MCTX)
def iv_item(self):
    return self.selector._get_real_item(self.section_path_str)


@contract(SEL + '._get_collection_obj_and_relative_section_path_from_structure', 'C17', self=SELF, section_path_str=TStr())
def collection_and_path(self, section_path_str):
    """the collection that has to hold the path, and the path within it"""
    names = section_path_str.split('.')
    if len(names) == 1:
        return self._managers[names[0]], None
    if names[1] in self._managers[names[0]].specific_class_names:
        if len(names) == 2:
            return self._structure[names[0]][names[1]], None
        return self._structure[names[0]][names[1]], SectionPath('.'.join(names[2:]))
    return self._structure[names[0]]['_general'], SectionPath('.'.join(names[1:]))


FOUND = TOneOf(TRef('pyfileconf.views.object:ObjectView'), TRef('pyfileconf.data.models.collection:SpecificClassCollection'), TRef('pyfileconf.pipelines.models.collection:PipelineCollection'), TAny())


@assumed(COLLQ + '.get', 'verified as contracts.collections (C21)', opts={'alt': True})
def coll_get(self, section_path_str):
    return query('registered at', self, section_path_str, ty=FOUND, may_raise=True)


@assumed('pyfileconf.logic.get:_get_from_nested_obj_by_section_path', 'verified as contracts.collections.nested_get (C21)', opts={'alt': True})
def found_at(obj, section_path, prevent_property_access=False):
    return query('found at', obj, section_path.path_str, ty=FOUND, may_raise=True)


@contract(SEL + '.__contains__', 'C17 C10', opts=C, use=['coll_get'], self=SELF, item=TOneOf(TStr(), SPV, TInt(), None), context__=MCTX)
def contains(self, item):
    """exactly the managers, their collections, and what these have registered; a config file which looks at an item depends on it"""
    from pyfileconf import context
    if not isinstance(item, (str, SectionPath)):
        return False
    name = item if isinstance(item, str) else item.path_str
    collection, path = self._get_collection_obj_and_relative_section_path_from_structure(name)
    if path is None:
        return True
    try:
        found = collection.get(path.path_str)
    except AttributeError:
        return False
    is_item = callable(found) or isinstance(found, ObjectView)
    if collection.klass is not None:
        is_item = is_item or isinstance(found, collection.klass)
    if is_item or isinstance(found, (SpecificClassCollection, PipelineCollection)):
        if is_item and context.file_is_currently_being_loaded:
            context.add_config_dependency(context.stack.currently_loading_file_section_path, name)
        return True
    return False


@assumed('pyfileconf.views.object:ObjectView.load', 'loading the object of a view', opts={'alt': True})
def view_load(self):
    return effect('load object', self)


@contract(SEL + '.get_type', 'C17', use=['found_at', 'view_load'], self=SELF, section_path_str=TStr())
def get_type(self, section_path_str):
    """the type of a registered item: a class of the general collection itself, else the type of what is registered"""
    collection, path = self._get_collection_obj_and_relative_section_path_from_structure(section_path_str)
    if path is None:
        return collection
    from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
    found = _get_from_nested_obj_by_section_path(collection, path)
    if isinstance(found, ObjectView):
        found = found.load()
        if inspect.isclass(found):
            return found
    return type(found)


REGISTRAR = TRef('pyfileconf.basemodels.registrar:Registrar', collection=COLL)
GENERAL = TRef('pyfileconf.pipelines.models.registrar:PipelineRegistrar', collection=COLL)
FULLMGR = TRef(PM, name=TStr(), _general_registrar=GENERAL, _registrars=TList(REGISTRAR))


@contract(SEL + '._load_structure', 'C17', self=TObj(SEL, _managers=TDict(TStr(), FULLMGR)))
def load_structure(self):
    """per manager, the general collection and the collection of each specific class dict by its name"""
    self._structure = {name: {'_general': m._general_registrar.collection,
                              **{r.collection.name: r.collection for r in m._registrars}} for name, m in self._managers.items()}


@assumed(SEL + '._load_structure', 'verified as load_structure', opts={'alt': True})
def structure(self):
    self._structure = query('structure', self._managers)


@contract(SEL + '.__init__', 'C17', opts=C, use=['structure'], self=TObj(SEL), context__=MCTX)
def sel_init(self):
    from pyfileconf import context
    self._managers = context.active_managers
    self._load_structure()
    self._is_selector = True


@assumed(SEL + '.__contains__', 'verified as contains', opts={'alt': True})
def is_in(self, item):
    return effect_bool('is registered', self, item)


@assumed(SEL + '._get_real_item', 'verified as real_item', opts={'alt': True})
def real(self, item):
    return effect('the item', self, item, may_raise=True)


@assumed(SEL + '.get_type', 'verified as get_type', opts={'alt': True})
def the_type(self, section_path_str):
    return effect('the type', self, section_path_str, may_raise=True)


SELR = TRef(SEL, _is_selector=TConst(True), _managers=TDict(TStr(), MGR), _structure=TDict(TStr(), TDict(TStr(), COLL)))
IVR = TObj(IV, section_path_str=TStr(), _section_path_str=TStr(), _is_item_view=TConst(True), selector=SELR)


@contract(IV + '.type', 'C17', use=['the_type'], self=IVR)
def iv_type(self):
    return self.selector.get_type(self.section_path_str)


@contract(IV + '._specific_class_collection_map', 'C17', self=IVS)
def class_map(self):
    """the collection of each specific class, over all managers"""
    out = {}
    for collections in self.selector._structure.values():
        for name, collection in collections.items():
            if name != '_general':
                out[collection.klass] = collection
    return out


TYPO = 'pyfileconf.selector.logic.exc.typo:'


@assumed(TYPO + 'handle_pipeline_manager_not_loaded_or_typo', 'error reporting', opts={'alt': True})
def not_loaded(full_section_path_str, managers):
    return effect('not loaded or typo', full_section_path_str, managers, may_raise=True)


@assumed(TYPO + 'handle_known_typo_after_pipeline_manager_name', 'error reporting', opts={'alt': True})
def typo(full_section_path_str):
    return effect('typo', full_section_path_str, may_raise=True)


@assumed(IV + '._add_to_config_dependencies_if_necessary', 'verified as iv_depends (C10)', opts={'alt': True})
def depends(self):
    event('depends', self.section_path_str)


IVX = ['is_in', 'real', 'not_loaded', 'typo', 'depends']


@contract(IV + '.__getattr__', 'C17 C10', use=IVX, self=IVR, item=TStr())
def iv_getattr(self, item):
    """a registered name gives its view; anything else is read from the item itself, or refused"""
    full = self.section_path_str + '.' + item
    if full in self.selector:
        return fresh_obj('pyfileconf.selector.models.itemview:ItemView', section_path_str=full, _section_path_str=full,
                         selector=self.selector, _is_item_view=True)
    try:
        actual = self.selector._get_real_item(self.section_path_str)
    except PipelineManagerNotLoadedException:
        return handle_pipeline_manager_not_loaded_or_typo(full, self.selector._managers)
    except RecursionError:
        return handle_known_typo_after_pipeline_manager_name(full)
    result = getattr(actual, item)
    self._add_to_config_dependencies_if_necessary()
    return result


CLASSES = TTupleOf(TAny())
CMAP = TDict(TAny(), COLL)


@assumed(IV + '._specific_classes', 'the classes of class_map', opts={'alt': True})
def classes(self):
    return query('classes', self.selector._structure, ty=CLASSES)


@assumed(IV + '._specific_class_collection_map', 'verified as class_map', opts={'alt': True})
def the_map(self):
    return query('collections by class', self.selector._structure, ty=CMAP)


@contract(IV + '.__call__', 'C17 C10', opts=C, use=['real', 'depends', 'classes', 'the_map'], self=IVR, star__=TList(TAny()), kw__=TDict(), context__=MCTX)
def iv_call(self, *args, **kwargs):
    """calling a view runs the item it names: a function with its config, the execute attribute of an object of a
    specific class or a method of one, while an object of a class in the general collection is returned as it is"""
    from pyfileconf import context
    from pyfileconf.main import PipelineManager
    actual = self.selector._get_real_item(self.section_path_str)
    self._add_to_config_dependencies_if_necessary()
    manager = PipelineManager.get_manager_by_section_path_str(self.section_path_str)
    names = self.section_path_str.split('.')
    specific = names[1] in manager._registrar_dict
    if isinstance(actual, partial):
        return actual(*args, **kwargs)
    if specific and isinstance(actual, self._specific_classes):
        actual._section_path_str = self.section_path_str
        return getattr(actual, self._specific_class_collection_map[type(actual)].execute_attr)(*args, **kwargs)
    try:
        owner = actual.__self__
        bound = True
    except AttributeError:
        bound = False
    if bound:
        if not isinstance(owner, self._specific_classes):
            raise ValueError
        owner._section_path_str = '.'.join(names[:-1])
        return actual(*args, **kwargs)
    if inspect.isclass(actual):
        raise ValueError
    actual._section_path_str = self.section_path_str
    return actual
