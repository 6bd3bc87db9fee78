"""Contracts on pyfileconf.runner.models.runner (C05, C06, C23): what is looked up, called and updated, in which order."""
from pyvc.api import *
from contracts.paths import SP, SPV, SPVAL, VIEW
if False:
    import inspect
    from functools import partial
    from pyfileconf.basemodels.collection import Collection
    from pyfileconf.views.object import ObjectView
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf.pmcontext.tracing import StackTracker
    from pyfileconf.plugin import manager
    from pyfileconf.config.logic.apply import apply_config
    from pyfileconf.pipelines.models.collection import PipelineCollection
    from pyfileconf.logic.get import _get_public_name_or_special_name

R = 'pyfileconf.runner.models.runner:Runner'
REGISTRAR = TRef('pyfileconf.basemodels.registrar:Registrar', name=TStr(), collection=TAny(), execute_attr=TStr())
GENERAL = TRef('pyfileconf.pipelines.models.registrar:PipelineRegistrar')
CMGR = TRef('pyfileconf.config.models.manager:ConfigManager')
CONF = TRef('pyfileconf.config.models.config:ActiveFunctionConfig')
COLL = TRef('pyfileconf.basemodels.collection:Collection', _items=TList(TAny()), name=TStr())
KW = TDict()
STR = TStr()
RUN = TObj(R, _config=CMGR, _registrars=TList(REGISTRAR), _general_registrar=GENERAL, _manager_name=TStr(),
           _all_specific_classes=TTupleOf(TAny()), _specific_class_registrar_map=TDict(TAny(), REGISTRAR),
           _loaded_objects=TDict(TStr(), TAny()), _full_getattr=TStr())


# ---- reads of other components
@assumed('pyfileconf.basemodels.registrar:Registrar.get', 'looking up a path in a registrar yields the registered item or raises (C21)', opts={'alt': True})
def registrar_get(self, section_path_str):
    return query('registrar.get', self, section_path_str)


PR = 'pyfileconf.pipelines.models.registrar:PipelineRegistrar'
PCOLL = 'pyfileconf.pipelines.models.collection:PipelineCollection'


@contract(PR + '.get', 'C06 C21', opts={'alt': True}, use=['registrar_get'], self=TRef(PR), section_path_str=TStr())
def pipeline_get(self, section_path_str):
    """a section as it is, an item as the loaded object"""
    found = query('registrar.get', self, section_path_str)
    if isinstance(found, PipelineCollection):
        return found
    return opaque_call(found.load)


@assumed('pyfileconf.config.models.manager:ConfigManager.get', 'the active config of a path (C04), or None', opts={'alt': True})
def config_get(self, section_path_str):
    return None if query('config.none', self, section_path_str) is None else query('config.get', self, section_path_str, ty=CONF)


@assumed('pyfileconf.pipelines.models.config:FunctionConfig.for_function', 'the part of the config that the function accepts (C14)', opts={'alt': True})
def for_function(self, func):
    return query('for_function', self, func, ty=KW)


@assumed('pyfileconf.pmcontext.main:PyFileConfContext.add_config_dependency_for_currently_running_item_if_exists',
         'recording that the running item needs another one (verified as add_for_running, C10) does not modify the runner', opts={'alt': True})
def needs(self, depends_on, force_update=False):
    event('needed by the running item', depends_on.path_str, force_update)


@assumed('pyfileconf.pmcontext.tracing:StackTracker.__enter__', 'verified as tracker_enter (C11)', opts={'alt': True})
def enter(self):
    event('enter', self.section_path_str, self.action)


@assumed('pyfileconf.pmcontext.tracing:StackTracker.__exit__', 'verified as tracker_exit (C11)', opts={'alt': True})
def leave(self, exc_type, exc_val, exc_tb):
    event('leave')


CX = {'context': True}
ANYCTX = TObj('pyfileconf.pmcontext.main:PyFileConfContext')
READS = ['config_get', 'needs', 'enter', 'leave', 'for_function', 'registrar_get', 'pipeline_get']


@contract(R + '._get_func_or_collection', 'C06 C23', use=READS, self=RUN, section_path_str=TStr())
def get_func_or_collection(self, section_path_str):
    """a path that starts with the name of a specific class dict belongs to its registrar, any other to the general one"""
    path = SectionPath(section_path_str)
    for registrar in self._registrars:
        if registrar.name == path[0]:
            rest = SectionPath.from_section_str_list(path[1:]).path_str
            return registrar.get(rest) if rest else registrar.collection
    return self._general_registrar.get(section_path_str)


@assumed(R + '._get_func_or_collection', 'the lookup above, as a read', opts={'alt': True})
def lookup_any(self, section_path_str):
    return query('lookup', self, section_path_str)


@assumed(R + '._get_func_or_collection', 'the lookup above, as a read of a section', opts={'alt': True})
def lookup_section(self, section_path_str):
    return query('lookup', self, section_path_str, ty=COLL)


@contract(R + '._get_config', 'C06', use=READS, self=RUN, section_path_str=TStr())
def get_config(self, section_path_str):
    config = self._config.get(section_path_str)
    if config is None:
        ghost_raise('pyfileconf.exceptions.config:ConfigManagerNotLoadedException')
    return config


@contract(R + '._get_func_and_config', 'C06', use=READS + ['lookup_any'], self=RUN, section_path_str=TStr())
def get_func_and_config(self, section_path_str):
    config = self._get_config(section_path_str)
    func = self._get_func_or_collection(section_path_str)
    return func, config.for_function(func)


@contract(R + '._get_class_and_config', 'C06', use=READS + ['lookup_any'], self=RUN, section_path_str=TStr())
def get_class_and_config(self, section_path_str):
    config = self._get_config(section_path_str)
    obj = self._get_func_or_collection(section_path_str)
    klass = obj if inspect.isclass(obj) else obj.__class__
    return klass, config.for_function(klass)


@contract(R + '._is_specific_class', 'C06', self=RUN, obj=TAny())
def is_specific(self, obj):
    return self._all_specific_classes and isinstance(obj, self._all_specific_classes)


@contract(R + '._add_to_config_dependencies_if_necessary', 'C10', opts=CX, use=READS, self=RUN, section_path_str=TStr(), context__=ANYCTX)
def add_dependency(self, section_path_str):
    event('needed by the running item', SectionPath.join(self._manager_name, section_path_str).path_str, True)


@contract(R + '._get_one_func_with_config', 'C06 C23', opts=CX, use=READS + ['lookup_any'], self=RUN, section_path_str=TStr(), context__=ANYCTX)
def get_one_func(self, section_path_str):
    """the function with the active config, the same object every time"""
    if section_path_str not in self._loaded_objects:
        func, config = self._get_func_and_config(section_path_str)
        full = partial(func, **config)
        full._section_path_str = SectionPath.join(self._manager_name, section_path_str).path_str
        self._loaded_objects[section_path_str] = full
    event('needed by the running item', SectionPath.join(self._manager_name, section_path_str).path_str, True)
    return self._loaded_objects[section_path_str]


@assumed('pyfileconf.config.logic.apply:apply_config', 'setting the attributes of a loaded object or the keywords of a loaded function (see apply.py)', opts={'alt': True})
def applied(obj, config):
    event('apply_config', obj, snapshot(config))


@contract(R + '._get_one_obj_with_config', 'C06 C23', opts=CX, use=READS + ['lookup_any', 'applied'], self=RUN,
          section_path_str=TStr(), context__=ANYCTX)
def get_one_obj(self, section_path_str):
    """a class is called with its config, an object gets it applied; the same object every time"""
    if section_path_str not in self._loaded_objects:
        obj = self._get_func_or_collection(section_path_str)
        klass, config = self._get_class_and_config(section_path_str)
        if inspect.isclass(obj):
            obj = obj(**config)
        else:
            event('apply_config', obj, snapshot(config))
        obj._section_path_str = SectionPath.join(self._manager_name, section_path_str).path_str
        self._loaded_objects[section_path_str] = obj
    event('needed by the running item', SectionPath.join(self._manager_name, section_path_str).path_str, True)
    return self._loaded_objects[section_path_str]


OBJ = TRef(None, True)


@assumed(R + '._get_one_func_with_config', 'verified as get_one_func', opts={'alt': True})
def loaded_func(self, section_path_str):
    event('load', section_path_str)
    return query('loaded', self, section_path_str)


@assumed(R + '._get_one_obj_with_config', 'verified as get_one_obj', opts={'alt': True})
def loaded_obj(self, section_path_str):
    event('load', section_path_str)
    return query('loaded', self, section_path_str)


@assumed(R + '._get_func_and_config', 'verified as get_func_and_config', opts={'alt': True})
def func_and_config(self, section_path_str):
    return query('registered', self, section_path_str), query('config for', self, section_path_str, ty=KW)


@assumed(R + '._get_class_and_config', 'verified as get_class_and_config', opts={'alt': True})
def class_and_config(self, section_path_str):
    return query('registered class', self, section_path_str), query('config for', self, section_path_str, ty=KW)


RUNS = READS + ['loaded_func', 'loaded_obj', 'func_and_config', 'class_and_config']


@contract(R + '._run_one_func', 'C06 C10 C11', opts=CX, use=RUNS, self=RUN, section_path_str=TStr(), context__=ANYCTX)
def run_one_func(self, section_path_str):
    """runs the loaded function without arguments, once, tracked as the running item, and returns its result; the item around
    it depends on it"""
    path = SectionPath.join(self._manager_name, section_path_str).path_str
    with StackTracker(section_path_str, base_section_path_str=self._manager_name):
        query('registered', self, section_path_str)
        query('config for', self, section_path_str, ty=KW)
        event('load', section_path_str)
        func = query('loaded', self, section_path_str)
        result = func()
    event('needed by the running item', path, True)
    return result


@contract(R + '._run_one_class', 'C06 C10 C11', opts=CX, use=RUNS, self=RUN, section_path_str=TStr(), context__=ANYCTX)
def run_one_class(self, section_path_str):
    path = SectionPath.join(self._manager_name, section_path_str).path_str
    with StackTracker(section_path_str, base_section_path_str=self._manager_name):
        query('registered', self, section_path_str)
        query('config for', self, section_path_str, ty=KW)
        event('load', section_path_str)
        obj = query('loaded', self, section_path_str)
        result = obj()
    event('needed by the running item', path, True)
    return result


@contract(R + '._run_one_specific_class', 'C06 C10 C11', opts=CX, use=RUNS, self=RUN, section_path_str=TStr(), context__=ANYCTX)
def run_one_specific_class(self, section_path_str):
    """an item of a specific class is run by the attribute that its class names"""
    path = SectionPath.join(self._manager_name, section_path_str).path_str
    with StackTracker(section_path_str, base_section_path_str=self._manager_name):
        klass = query('registered class', self, section_path_str)
        query('config for', self, section_path_str, ty=KW)
        event('load', section_path_str)
        obj = query('loaded', self, section_path_str)
        result = getattr(obj, self._specific_class_registrar_map[klass].execute_attr)()
    event('needed by the running item', path, True)
    return result


# ---- dispatch and sections
@assumed(R + '._run_section', 'induction on the depth of sections: verified as run_section', opts={'alt': True})
def section_run(self, section_path_str):
    return effect('run section', section_path_str)


@assumed(R + '._run_one_func', 'verified as run_one_func', opts={'alt': True})
def func_run(self, section_path_str):
    return effect('run function', section_path_str)


@assumed(R + '._run_one_class', 'verified as run_one_class', opts={'alt': True})
def class_run(self, section_path_str):
    return effect('run class', section_path_str)


@assumed(R + '._run_one_specific_class', 'verified as run_one_specific_class', opts={'alt': True})
def specific_run(self, section_path_str):
    return effect('run specific class', section_path_str)


@assumed('pyfileconf.logic.get:_get_public_name_or_special_name', 'the name of an item is read from its name or __name__ attribute', opts={'alt': True})
def public_name(obj, accept_output_names=True):
    return query('name of', obj, accept_output_names, ty=STR, may_raise=True)


@assumed('pyfileconf.basemodels.collection:Collection.name_for_obj', 'the key of an item in its collection, or ValueError', opts={'alt': True})
def name_for(self, obj):
    return query('name in section', self, obj, ty=STR, may_raise=True)


@assumed(R + '._is_specific_class', 'verified as is_specific', opts={'alt': True})
def specific_class(self, obj):
    return pure_bool('specific', self, obj)


DISPATCH = READS + ['specific_class', 'name_for', 'section_run', 'func_run', 'class_run', 'specific_run', 'public_name']



@contract(R + '._run', 'C06', use=DISPATCH + ['lookup_any'], self=RUN, section_path_str=TStr())
def run_(self, section_path_str):
    item = self._get_func_or_collection(section_path_str)
    if isinstance(item, Collection):
        return self._run_section(section_path_str)
    if self._is_specific_class(item):
        return self._run_one_specific_class(section_path_str)
    if inspect.isclass(item):
        return self._run_one_class(section_path_str)
    if callable(item):
        return self._run_one_func(section_path_str)
    raise ValueError


@contract(R + '._run_section', 'C06', use=DISPATCH + ['lookup_section'], self=RUN, section_path_str=TStr())
def run_section(self, section_path_str):
    """every item of the section, once, in the order of the section; one result for each"""
    section = self._get_func_or_collection(section_path_str)
    results = []
    for entry in section._items:
        item = entry.item if isinstance(entry, ObjectView) else entry
        specific = self._is_specific_class(item)
        name = section.name_for_obj(entry) if specific else _get_public_name_or_special_name(entry, accept_output_names=False)
        path = SectionPath.join(section_path_str, name).path_str
        if isinstance(item, Collection):
            results.append(self._run_section(path))
        elif specific:
            results.append(self._run_one_specific_class(path))
        elif inspect.isclass(item):
            results.append(self._run_one_class(path))
        elif callable(item):
            results.append(self._run_one_func(path))
        else:
            raise ValueError
    return results


@assumed(R + '._get_section', 'induction on the depth of sections: verified as get_section', opts={'alt': True})
def section_get(self, section_path_str):
    return effect('get section', section_path_str)


@assumed(R + '._get_one_func_with_config', 'verified as get_one_func', opts={'alt': True})
def func_get(self, section_path_str):
    return effect('get function', section_path_str)


@assumed(R + '._get_one_obj_with_config', 'verified as get_one_obj', opts={'alt': True})
def obj_get(self, section_path_str):
    return effect('get object', section_path_str)


GETS = READS + ['specific_class', 'name_for', 'public_name', 'section_get', 'func_get', 'obj_get']


@contract(R + '.get', 'C05 C06 C23', use=GETS + ['lookup_any'], self=RUN, section_path_str=TStr())
def get_(self, section_path_str):
    item = self._get_func_or_collection(section_path_str)
    if isinstance(item, Collection):
        return self._get_section(section_path_str)
    if self._is_specific_class(item) or inspect.isclass(item):
        return self._get_one_obj_with_config(section_path_str)
    if callable(item):
        return self._get_one_func_with_config(section_path_str)
    raise ValueError


@contract(R + '._get_section', 'C23', use=GETS + ['lookup_section'], self=RUN, section_path_str=TStr())
def get_section(self, section_path_str):
    """a section of sections gives a dict by their names, a section of items a list in order"""
    section = self._get_func_or_collection(section_path_str)
    nested = any(isinstance(x, Collection) for x in section._items)
    results = {} if nested else []
    for entry in section._items:
        item = entry.item if isinstance(entry, ObjectView) else entry
        specific = self._is_specific_class(item)
        name = section.name_for_obj(entry) if specific else _get_public_name_or_special_name(entry, accept_output_names=False)
        path = SectionPath.join(section_path_str, name).path_str
        if isinstance(item, Collection):
            assert nested
            assert item.name is not None
            results[item.name] = self._get_section(path)
        elif nested:
            raise ValueError(f'{entry.name} has both')
        elif specific:
            results.append(self._get_one_obj_with_config(path))
        elif callable(item):
            results.append(self._get_one_func_with_config(path))
        else:
            raise ValueError
    return results


# ---- changes of the config reach the loaded object (C05)
DICT = TDict()
BOOL = TBool()
OPTD = TOneOf(None, TDict())
OPTS = TOneOf(None, TStr())


@assumed('pyfileconf.config.models.manager:ConfigManager.update', 'verified as manager_update', opts={'alt': True})
def cm_update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    event('update config', section_path_str, snapshot({**({} if d_ is None else d_), **kwargs}), pyfileconf_persist)
    return query('updated config', self, section_path_str, ty=CONF), query('config changed', self, section_path_str, ty=BOOL, may_raise=False)


@assumed('pyfileconf.config.models.manager:ConfigManager.reset', 'verified as manager_reset', opts={'alt': True})
def cm_reset(self, section_path_str=None, allow_create=False):
    event('reset config', section_path_str, allow_create)
    return query('reset config', self, section_path_str, ty=CONF), query('config changed', self, section_path_str, ty=BOOL, may_raise=False)


@assumed('pyfileconf.config.models.manager:ConfigManager.refresh', 'verified as manager_refresh', opts={'alt': True})
def cm_refresh(self, section_path_str):
    event('refresh config', section_path_str)
    return query('refreshed config', self, section_path_str, ty=CONF), query('config changed', self, section_path_str, ty=BOOL, may_raise=False), \
        query('updates', self, section_path_str, ty=DICT, may_raise=False)


@assumed('pyfileconf.config.models.manager:ConfigManager.track_post_update', 'verified as post_update', opts={'alt': True})
def cm_post(self, config_, section_path_str, d=None, **updates):
    effect('tell the listeners', config_, section_path_str, snapshot({**({} if d is None else d), **updates}))


@assumed('pyfileconf.config.logic.apply:apply_config', 'verified as apply_config', opts={'alt': True})
def applied_to(obj, config):
    effect('apply config', obj, config)


CHANGES = READS + ['cm_update', 'cm_reset', 'cm_refresh', 'cm_post', 'applied_to']


@contract(R + '.update', 'C02 C03 C05', use=CHANGES, self=RUN, d_=OPTD, section_path_str=OPTS, pyfileconf_persist=TBool(), kw__=TDict())
def update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    """the config of exactly that path is updated; if that changes it, the object loaded for that path (and no other) gets the
    new config, and then the listeners are told"""
    config, changed = self._config.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
    if changed and section_path_str in self._loaded_objects:
        apply_config(self._loaded_objects[section_path_str], config)
        self._config.track_post_update(config, section_path_str, {**({} if d_ is None else d_), **kwargs})


@contract(R + '.reset', 'C05', use=CHANGES, self=RUN, section_path_str=OPTS, allow_create=TBool())
def reset(self, section_path_str=None, allow_create=False):
    config, changed = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
    if changed and section_path_str in self._loaded_objects:
        apply_config(self._loaded_objects[section_path_str], config)
        self._config.track_post_update(config, section_path_str, config)


@contract(R + '.refresh', 'C03 C05', use=CHANGES, self=RUN, section_path_str=TStr())
def refresh(self, section_path_str):
    _, changed, updates = self._config.refresh(section_path_str)
    if changed and section_path_str in self._loaded_objects:
        active = self._get_config(section_path_str)
        apply_config(self._loaded_objects[section_path_str], active)
        self._config.track_post_update(active, section_path_str, updates)


# ---- runs
@assumed(R + '._run', 'verified as run_', opts={'alt': True})
def any_run(self, section_path_str):
    return effect('run', section_path_str)


HOOKS = {'hook_types': {'pyfileconf_post_run': TAny()}}


@contract(R + '.run', 'C06', opts=HOOKS, use=['any_run'], self=RUN, section_path_str_or_list=TOneOf(TStr(), TList(TStr()), None))
def run(self, section_path_str_or_list):
    """one result for each requested path, in order; then what extensions add"""
    paths = section_path_str_or_list
    if not isinstance(paths, (str, list)):
        raise ValueError
    many = isinstance(paths, list)
    result = [self._run(p) for p in paths] if many else self._run(paths)
    more = manager.plm.hook.pyfileconf_post_run(results=result, runner=self)
    if more:
        if many:
            result.extend(more)
        else:
            result = [result, *more]
    return result
