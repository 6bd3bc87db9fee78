"""Contracts on pyfileconf.main: the entry points of a manager (C05, C06, C08, C09, C10, C17, C19, C20, C22)."""
from pyvc.api import *
from contracts.paths import SP, SPV, SPVAL, VIEW
if False:
    import os
    import sys
    from pyfileconf.plugin import manager as plugin_manager
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf.batch import BatchUpdater
    from pyfileconf.imports.models.tracker import ImportTracker

PM = 'pyfileconf.main:PipelineManager'
RUNNER = TRef('pyfileconf.runner.models.runner:Runner')
MREF = TRef(PM, folder=TStr(), name=TStr())
CTX = TObj('pyfileconf.pmcontext.main:PyFileConfContext', active_managers=TDict(TStr(), MREF))
ANYMGRS = TObj('pyfileconf.pmcontext.main:PyFileConfContext', active_managers=TDict(TStr(), TAny()))
OPTS = TObj('pyfileconf.opts:PyfileconfOptions', log_stdout=TBool(), log_folder=TNullable(), log_file_rollover_freq=TStr(), log_file_num_keep=TInt())
SPECIFIC = TDict(TStr(), TAny())
PMGR = TObj(PM, folder=TStr(), name=TStr(), pipeline_dict_path=TStr(), default_config_folder_name=TStr(), default_config_path=TStr(),
            specific_class_config_dicts=TList(TRef('dict')), specific_class_names=TList(TStr()), auto_pdb=TAny(), force_continue=TAny(),
            runner=RUNNER, config=TAny(), _loaded_modules=TList(TStr()), _registrars=TAny(), _general_registrar=TAny())
ITEM = TOneOf(TStr(), VIEW)
C = {'context': True}


# ---- operations of the runner, as effects
R = 'pyfileconf.runner.models.runner:Runner.'


@assumed(R + 'get', 'verified as contracts.runner', opts={'alt': True})
def runner_get(self, section_path_str_or_list):
    return effect('runner.get', self, section_path_str_or_list)


@assumed(R + 'reset', 'verified as contracts.runner', opts={'alt': True})
def runner_reset(self, section_path_str, allow_create=False):
    effect('runner.reset', self, section_path_str, allow_create)


@assumed(R + 'refresh', 'verified as contracts.runner', opts={'alt': True})
def runner_refresh(self, section_path_str):
    effect('runner.refresh', self, section_path_str)


@assumed(R + 'update', 'verified as contracts.runner', opts={'alt': True})
def runner_update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    effect('runner.update', self, d_, section_path_str, pyfileconf_persist, kwargs)


OPS = ['runner_get', 'runner_reset', 'runner_refresh', 'runner_update']


# ---- naming an item
@contract(PM + '._get_section_path_str_from_section_path_str_or_view', 'C06 C17', self=PMGR, section_path_str_or_view=TOneOf(TStr(), VIEW, SPV, None))
def path_of(self, section_path_str_or_view):
    """a string as it is, a view without the name of its manager, anything else is refused"""
    if isinstance(section_path_str_or_view, str):
        return section_path_str_or_view
    if getattr(section_path_str_or_view, '_is_item_view', False) is True:
        return '.'.join(section_path_str_or_view.section_path_str.split('.')[1:])
    raise ValueError


@contract(PM + '._convert_list_or_single_item_view_or_str_to_strs', 'C06 C17', self=PMGR, run_list=TOneOf(TStr(), VIEW, TList(TOneOf(TStr(), VIEW)), None))
def paths_of(self, run_list):
    if isinstance(run_list, list):
        return [self._get_section_path_str_from_section_path_str_or_view(x) for x in run_list]
    return self._get_section_path_str_from_section_path_str_or_view(run_list)


@contract(PM + '.get', 'C23 C17', use=OPS, self=PMGR, section_path_str_or_view=ITEM)
def pm_get(self, section_path_str_or_view):
    return self.runner.get(self._get_section_path_str_from_section_path_str_or_view(section_path_str_or_view))


@contract(PM + '.reset', 'C05 C09 C17', use=OPS, self=PMGR, section_path_str_or_view=ITEM, allow_create=TBool())
def pm_reset(self, section_path_str_or_view, allow_create=False):
    self.runner.reset(self._get_section_path_str_from_section_path_str_or_view(section_path_str_or_view), allow_create=allow_create)


@contract(PM + '.refresh', 'C03 C10', use=OPS, self=PMGR, section_path_str=TStr())
def pm_refresh(self, section_path_str):
    self.runner.refresh(section_path_str)


# ---- which manager owns a path
@contract(PM + '.get_manager_by_filepath', 'C19', opts=C, filepath=TStr(), context__=CTX)
def by_filepath(cls, filepath):
    """the first active manager whose folder is a real ancestor of the file"""
    from pyfileconf import context
    for m in context.active_managers.values():
        if os.path.abspath(filepath).startswith(os.path.abspath(m.folder) + '/'):
            return m
    ghost_raise('pyfileconf.exceptions.pipelinemanager:NoPipelineManagerForFilepathException')


@contract(PM + '.get_manager_by_section_path_str', 'C19 C09', opts=C, section_path_str=TStr(), context__=CTX)
def by_section_path(cls, section_path_str):
    from pyfileconf import context
    name = section_path_str.split('.')[0]
    if name in context.active_managers:
        return context.active_managers[name]
    ghost_raise('pyfileconf.exceptions.pipelinemanager:NoPipelineManagerForSectionPathException')


@contract(PM + '.__del__', 'C19', opts=C, self=PMGR, context__=ANYMGRS)
def pm_del(self):
    """a manager that goes away removes itself, and never another one of the same name"""
    from pyfileconf import context
    if self.name in context.active_managers and context.active_managers[self.name] is self:
        del context.active_managers[self.name]


# ---- updates
@assumed('pyfileconf.pmcontext.main:PyFileConfContext.add_config_dependency', 'verified as contracts.context.add_config_dependency (C10)', opts={'alt': True})
def depends(self, dependent, depends_on, force_update=False):
    event('depends', dependent.path_str, depends_on, force_update)


@contract(PM + '._update', 'C05 C10 C17', use=OPS + ['depends'], opts=C, self=PMGR, d_=TOneOf(None, TDict(TStr(), TAny())),
          section_path_str=TOneOf(None, TStr()), pyfileconf_persist=TBool(), kw__=TDict(), context__=CTX)
def pm_update_one(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    """the item is recorded as depending on every item whose view becomes a value; then the runner updates it"""
    from pyfileconf import context
    if section_path_str:
        item = SectionPath.join(self.name, section_path_str)
        values = {**kwargs, **({} if d_ is None else d_)}
        for value in values.values():
            if getattr(value, '_is_item_view', False) is True:
                context.add_config_dependency(item, value)
    self.runner.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)


@assumed(PM + '._update', 'verified as pm_update_one', opts={'alt': True})
def update_one(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    effect('_update', self, d_, section_path_str, pyfileconf_persist, kwargs)


@contract(PM + '.update', 'C05 C09', use=OPS + ['update_one'], opts={'hook_types': {'pyfileconf_pre_update': TDict()}}, self=PMGR, d_=TOneOf(None, TDict(TStr(), TAny())),
          section_path_str=TOneOf(None, TStr()), pyfileconf_persist=TBool(), kw__=TDict())
def pm_update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    """exactly one update with the given values, overridden by what extensions contribute"""
    contributed = plugin_manager.plm.hook.pyfileconf_pre_update(pm=self, d_=d_, section_path_str=section_path_str, kwargs=kwargs)
    more = {k: v for d in contributed for k, v in d.items()}
    if d_ is not None:
        d_.update(more)
    kwargs.update(more)
    self._update(d_, section_path_str=section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
    plugin_manager.plm.hook.pyfileconf_post_update(pm=self, d_=d_, section_path_str=section_path_str, kwargs=kwargs)


@assumed('pyfileconf.batch:BatchUpdater.update', 'verified as contracts.iterate (C09)', opts={'alt': True})
def batch_update(self, updates):
    effect('batch', self.base_section_path_str, self.strip_manager_from_iv, updates)


@contract(PM + '.update_batch', 'C09', use=['batch_update'], self=PMGR, updates=TAny())
def pm_update_batch(self, updates):
    """paths are relative to this manager"""
    BatchUpdater(base_section_path_str=self.name, strip_manager_from_iv=True).update(updates)


# ---- running
@assumed(PM + '._run_depending_on_settings', 'verified as contracts.running.run_depending (C07)', opts={'alt': True})
def run_depending(self, section_path_str_or_list):
    return effect('run', self, section_path_str_or_list)


SYS = TObj('module:sys', stdout=TAny(), modules=TDict(TStr(), TAny()))
RUNOPTS = {'globals': {'pyfileconf.opts:options': 'options__', 'sys': 'sys__'}}


@contract(PM + '.run', 'C06 C16', use=['run_depending'], opts=RUNOPTS, self=PMGR, section_path_str_or_list=TOneOf(TStr(), VIEW, TList(TOneOf(TStr(), VIEW))), options__=OPTS, sys__=SYS)
def pm_run(self, section_path_str_or_list):
    """the requested items, then the ones extensions ask for; the standard output is the same stream afterwards, and
    only replaced in between when logging it is turned on"""
    from pyfileconf.opts import options
    paths = self._convert_list_or_single_item_view_or_str_to_strs(section_path_str_or_list)
    more = plugin_manager.plm.hook.pyfileconf_pre_run(section_path_str_or_list=section_path_str_or_list, pm=self)
    paths = [x for x in paths] + [x for x in more] if isinstance(paths, list) else [paths] + [x for x in more]
    what = paths[0] if len(paths) == 1 else paths
    if not options.log_stdout:
        return self._run_depending_on_settings(what)
    terminal = sys.stdout
    sys.stdout = fresh_obj('pyfileconf.logger.bind_stdout:StdoutLogger', terminal=terminal)
    try:
        return self._run_depending_on_settings(what)
    finally:
        sys.stdout = terminal


# ---- construction of the project on disk
@contract(PM + '._need_to_create_project', 'C22', opts={'globals': {'pyfileconf.opts:options': 'options__'}}, self=PMGR, options__=OPTS)
def need_to_create(self):
    """exactly when something of the project is missing"""
    from pyfileconf.opts import options
    return not (os.path.exists(self.folder) and os.path.exists(self.pipeline_dict_path) and os.path.exists(self.default_config_path)
                and (options.log_folder is None or os.path.exists(options.log_folder))
                and all(os.path.exists(os.path.join(self.folder, f'{name}_dict.py')) for name in self.specific_class_names))


NAMED = TDict(TStr(), TStr())


@contract('pyfileconf.main:create_project', 'C22', path=TStr(), logs_path=TOneOf(None, TStr()),
          specific_class_config_dicts=TOneOf(None, TList(NAMED)), default_config_folder_name=TStr())
def create_project(path, logs_path, specific_class_config_dicts=None, default_config_folder_name='defaults'):
    """only what does not exist is created: a folder, or a file with an empty dictionary; nothing else is touched"""
    defaults = os.path.join(path, default_config_folder_name)
    if not os.path.exists(defaults):
        os.makedirs(defaults)
    if logs_path is not None and not os.path.exists(logs_path):
        os.makedirs(logs_path)
    items = os.path.join(path, 'pipeline_dict.py')
    if not os.path.exists(items):
        with open(items, 'w') as f:
            f.write('\npipeline_dict = {}\n')
    for d in [] if specific_class_config_dicts is None else specific_class_config_dicts:
        p = os.path.join(path, d['name'] + '_dict.py')
        if not os.path.exists(p):
            with open(p, 'w') as f:
                f.write('\nclass_dict = {}\n')


@assumed('pyfileconf.main:create_project', 'verified as create_project', opts={'alt': True})
def creating(path, logs_path, specific_class_config_dicts=None, default_config_folder_name='defaults'):
    effect('create_project', path, logs_path, specific_class_config_dicts, default_config_folder_name)


@assumed(PM + '._need_to_create_project', 'verified as need_to_create', opts={'alt': True})
def need(self):
    return True if query('need', self, self.folder, self.pipeline_dict_path, self.default_config_path, self.specific_class_names) is None else False


@contract(PM + '._create_project_if_needed', 'C22', use=['creating', 'need'], opts={'globals': {'pyfileconf.opts:options': 'options__'}}, self=PMGR, options__=OPTS)
def create_if_needed(self):
    from pyfileconf.opts import options
    if self._need_to_create_project():
        effect('create_project', self.folder, options.log_folder, self.specific_class_config_dicts, self.default_config_folder_name)


@contract(PM + '._validate_options', 'C07 C19', opts=C, self=PMGR.but(auto_pdb=TAny(), force_continue=TBool()), context__=ANYMGRS)
def validate_options(self):
    """refused exactly when both ways of handling exceptions are asked for; no manager is touched"""
    if self.auto_pdb and self.force_continue:
        raise ValueError


@contract(PM + '.__init__', 'C19 C22', use=['creating', 'need'], opts={'globals': {'pyfileconf.opts:options': 'options__'}, 'context': True},
          self=TObj(PM), folder=TStr(), name=TStr(), specific_class_config_dicts=TOneOf(None, TList(NAMED)), auto_pdb=TAny(),
          force_continue=TBool(), default_config_folder_name=TStr(), context__=ANYMGRS, options__=OPTS)
def pm_init(self, folder, name='project', specific_class_config_dicts=None, auto_pdb=False, force_continue=False, default_config_folder_name='defaults'):
    """the paths of the project below its folder; the manager becomes the active one of its name, missing files are created"""
    from pyfileconf import context
    from pyfileconf.opts import options
    specific = [] if specific_class_config_dicts is None else specific_class_config_dicts
    requires(all('name' in d for d in specific))
    self.folder = folder
    self.name = name
    self.pipeline_dict_path = os.path.join(folder, 'pipeline_dict.py')
    self.specific_class_config_dicts = specific
    self.specific_class_names = [d['name'] for d in specific]
    self.default_config_folder_name = default_config_folder_name
    self.default_config_path = os.path.join(folder, default_config_folder_name)
    self.auto_pdb = auto_pdb
    self.force_continue = force_continue
    self._registrars = None
    self._general_registrar = None
    self._loaded_modules = []
    if auto_pdb and force_continue:
        raise ValueError
    context.active_managers[name] = self
    if self._need_to_create_project():
        effect('create_project', folder, options.log_folder, specific, default_config_folder_name)


# ---- loading
SYSG = {'globals': {'sys': 'sys__'}}
TRACKER = 'pyfileconf.imports.models.tracker:ImportTracker'


@contract(TRACKER + '.__init__', 'C20', opts=SYSG, self=TObj(TRACKER), sys__=SYS)
def tracker_init(self):
    self.original_modules = set(sys.modules)


@contract(TRACKER + '.imported_modules', 'C20', opts=SYSG, self=TObj(TRACKER, original_modules=TSet(TStr())), sys__=SYS)
def imported_modules(self):
    """the modules there are now that were not there before"""
    return [m for m in sys.modules.keys() if m not in self.original_modules]


@contract(PM + '._wipe_loaded_modules', 'C20', opts=SYSG, self=PMGR, sys__=SYS)
def wipe(self):
    """the modules this manager imported are forgotten, no other one is"""
    for m in self._loaded_modules:
        sys.modules.pop(m, None)


MODULES = TDict(TStr(), TAny())
NAMES = TList(TStr())


@assumed(PM + '._load_pipeline_config_and_runner', 'loading runs the dictionary and config files of the user: it may import modules, then completes or raises', opts={'alt': True})
def loading(self):
    sys.modules = query('modules after loading', self.name, ty=MODULES)
    effect('load', self.name)


@assumed(PM + '._modules_imported_by_items', 'verified as modules_of_items', opts={'alt': True})
def imported_by_items(self):
    return query('modules imported by items', self.name, ty=NAMES)


LOAD = ['loading', 'imported_by_items']


@contract(PM + '.load', 'C20', use=LOAD, opts=SYSG, self=PMGR, sys__=SYS)
def pm_load(self):
    """modules that appear while loading are remembered; when loading fails they are forgotten again (those that were
    there before are not), and the exception is the original one"""
    earlier = [m for m in self._loaded_modules + self._modules_imported_by_items() if m in sys.modules]
    before = set(sys.modules)
    self._import_tracker = fresh_obj('pyfileconf.imports.models.tracker:ImportTracker', original_modules=before)
    try:
        self._load_pipeline_config_and_runner()
    except Exception:
        for m in [m for m in sys.modules if m not in before]:
            sys.modules.pop(m, None)
        self._loaded_modules = earlier
        raise
    self._loaded_modules = earlier + [m for m in sys.modules if m not in before]


@assumed(PM + '.load', 'verified as pm_load', opts={'alt': True})
def load_again(self):
    sys.modules = query('modules after load', self.name, self._loaded_modules, ty=MODULES)
    effect('load', self.name)


@contract(PM + '.reload', 'C20', use=LOAD + ['load_again'], opts=SYSG, self=PMGR, sys__=SYS)
def pm_reload(self):
    """every module imported by the items or by earlier loads is forgotten, then everything is loaded again"""
    self._loaded_modules.extend(self._modules_imported_by_items())
    for m in self._loaded_modules:
        sys.modules.pop(m, None)
    self.load()


@lemma('C20', use=LOAD, opts=SYSG, pm=PMGR, sys__=SYS)
def failed_load_leaves_no_trace(pm):
    before = sys.modules.copy()
    try:
        pm.load()
    except Exception:
        prove(all(m in before for m in sys.modules), 'no new module is left after a failed load')


# ---- product runs
IT = 'pyfileconf.iterate:IterativeRunner'


@assumed(IT + '.__init__', 'verified as contracts.iterate.iterative_init (C08)', opts={'alt': True})
def iterative(self, section_path_str_or_list, config_updates, base_section_path_str=None, strip_manager_from_iv=False):
    effect('cases of', section_path_str_or_list, config_updates, base_section_path_str, strip_manager_from_iv)


@assumed(IT + '.run', 'verified as contracts.iterate.run_ (C08)', opts={'alt': True})
def iterate_all(self, collect_results=True):
    return effect('run cases', collect_results)


@assumed(IT + '.run_gen', 'verified as contracts.iterate.run_gen (C08)', opts={'alt': True})
def iterate_gen(self):
    return effect('generate cases')


@contract(PM + '.run_product', 'C08', use=['iterative', 'iterate_all'], self=PMGR, section_path_str_or_list=TAny(), config_updates=TAny(), collect_results=TBool())
def pm_run_product(self, section_path_str_or_list, config_updates, collect_results=True):
    effect('cases of', section_path_str_or_list, config_updates, self.name, True)
    return effect('run cases', collect_results)


@contract(PM + '.run_product_gen', 'C08', use=['iterative', 'iterate_gen'], self=PMGR, section_path_str_or_list=TAny(), config_updates=TAny())
def pm_run_product_gen(self, section_path_str_or_list, config_updates):
    effect('cases of', section_path_str_or_list, config_updates, self.name, True)
    return effect('generate cases')
