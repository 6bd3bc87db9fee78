"""Contracts on pyfileconf.config.models.manager (C02, C03, C04, C05, C10): which config an operation looks up, changes and
reports. The config objects themselves are under contract in config.py; here their operations are events in order."""
from pyvc.api import *
from contracts.paths import SP, SPV, SPVAL, VIEW
if False:
    from pyfileconf.config.models.config import ActiveFunctionConfig
    from pyfileconf.config.models.file import ActiveFunctionConfigFile
    from pyfileconf.config.models.section import ConfigSection
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf.plugin import manager
    from pyfileconf.config.models.manager import _get_config_from_config_or_section
    from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
    from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
    from pyfileconf.exceptions.config import ConfigManagerNotLoadedException

M = 'pyfileconf.config.models.manager:'
CB = 'pyfileconf.basemodels.config:ConfigBase'
CONF = TRef('pyfileconf.config.models.config:ActiveFunctionConfig')
SECTION = TRef('pyfileconf.config.models.section:ConfigSection', config=TNullable(), name=TStr())
MGR = TObj(M + 'ConfigManager', section=TOneOf(None, SECTION), basepath=TStr(), pipeline_manager_name=TStr(), local_config=CONF)
DICT = TDict()
BOOL = TBool()
STR = TStr()
OPTD = TOneOf(None, TDict())
OPTS = TOneOf(None, TStr())


# ---- operations of a config: verified in config.py; callers see them as one event with the values of that moment
@assumed(CB + '.would_update', 'verified as config.would_update (C03)', opts={'alt': True})
def conf_would_update(self, E=None, **F):
    return query('config would update', self, snapshot({**({} if E is None else E), **F}), ty=BOOL, may_raise=False)


@assumed(CB + '.update', 'verified as config.update (C02)', opts={'alt': True})
def conf_update(self, E=None, pyfileconf_persist=True, **F):
    event('config.update', self, snapshot({**({} if E is None else E), **F}), pyfileconf_persist)


@assumed(CB + '.change_from_refresh', 'verified as config.change_from_refresh (C03)', opts={'alt': True})
def conf_change_from_refresh(self):
    return query('config change from refresh', self, ty=DICT)


@assumed(CB + '.refresh', 'verified as config.refresh (C03)', opts={'alt': True})
def conf_refresh(self):
    event('config.refresh', self)
    return query('config refreshed', self, ty=DICT)


@assumed(CB + '.pop', 'dict.pop of the config', opts={'alt': True})
def conf_pop(self, k, d=None):
    return effect('config.pop', self, k)


@assumed(M + 'ConfigManager._get_func_or_section_configs', 'the stored config of exactly the given path; a config file met for the first time is read and remembered (C21)', opts={'alt': True})
def stored(self, section_path_str):
    return None if pure_bool('no stored config', self, section_path_str) else query('stored config', self, section_path_str, ty=CONF)


@assumed(M + 'ConfigManager._get_project_config_or_local_config_by_section_path', 'verified as config_or_local', opts={'alt': True})
def stored_or_local(self, section_path_str):
    return None if pure_bool('no config', self, section_path_str) else query('stored or local config', self, section_path_str, ty=CONF)


@assumed(M + 'ConfigManager._set_func_or_section_config', 'stores the config at exactly the given path (C21)', opts={'alt': True})
def store(self, section_path_str, value=None, allow_create=True):
    effect('store config', self, section_path_str, value, allow_create)


@assumed(M + 'ConfigManager._get_default_func_or_section_config', 'the config that the file of the path defines', opts={'alt': True})
def default_config(self, section_path_str=None, create=False):
    return effect('default config', self, section_path_str, create, ty=CONF)


CONFIG = ['conf_would_update', 'conf_update', 'conf_change_from_refresh', 'conf_refresh', 'conf_pop']
LOOK = CONFIG + ['stored_or_local', 'store', 'default_config']


@contract(M + 'ConfigManager._get_project_config_or_local_config_by_section_path', 'C02 C05', use=CONFIG + ['stored'], self=MGR,
          section_path_str=OPTS)
def config_or_local(self, section_path_str):
    """no path: the local config, otherwise the config of exactly that path"""
    return self.local_config if section_path_str is None else self._get_func_or_section_configs(section_path_str)


@contract(M + 'ConfigManager._determine_and_track_if_config_would_be_updated', 'C03', use=CONFIG, self=MGR, config_=CONF,
          section_path_str=OPTS, d_=OPTD, kw__=TDict())
def track_update(self, config_, section_path_str=None, d_=None, **updates):
    """reports a change exactly when some value changes; listeners are told before, with the old config"""
    ups = {**({} if d_ is None else d_), **updates}
    changes = config_.would_update(ups)
    if changes and section_path_str is not None:
        manager.plm.hook.pyfileconf_pre_config_changed(manager=self, orig_config=config_, updates=ups, section_path_str=section_path_str)
    return changes


@contract(M + 'ConfigManager._determine_and_track_if_config_would_be_refreshed', 'C03', use=CONFIG, self=MGR, config=CONF, section_path_str=TStr())
def track_refresh(self, config, section_path_str):
    ups = config.change_from_refresh()
    if len(ups) > 0:
        manager.plm.hook.pyfileconf_pre_config_changed(manager=self, orig_config=config, updates=ups, section_path_str=section_path_str)
    return len(ups) > 0


@contract(M + 'ConfigManager.track_post_update', 'C03', self=MGR, config_=CONF, section_path_str=OPTS, d=OPTD, kw__=TDict())
def post_update(self, config_, section_path_str, d=None, **updates):
    manager.plm.hook.pyfileconf_post_config_changed(
        manager=self, new_config=config_, updates={**({} if d is None else d), **updates}, section_path_str=section_path_str)


@contract(M + 'ConfigManager.update', 'C02 C03 C05', use=LOOK, self=MGR, d_=OPTD, section_path_str=OPTS, pyfileconf_persist=TBool(), kw__=TDict())
def manager_update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    """exactly the config of the given path (or the local one) is updated, with exactly the given values, only if that changes
    something; listeners hear of it before"""
    config = self._get_project_config_or_local_config_by_section_path(section_path_str)
    if config is None:
        raise ConfigManagerNotLoadedException
    ups = {**({} if d_ is None else d_), **kwargs}
    changes = config.would_update(ups)
    if changes and section_path_str is not None:
        manager.plm.hook.pyfileconf_pre_config_changed(manager=self, orig_config=config, updates=ups, section_path_str=section_path_str)
    if section_path_str is None:
        changes = changes or any(k not in config for k in ups)
    if changes:
        config.update(ups, pyfileconf_persist=pyfileconf_persist)
    return config, changes


@contract(M + 'ConfigManager.refresh', 'C03 C05', use=LOOK, self=MGR, section_path_str=TStr())
def manager_refresh(self, section_path_str):
    config = self._get_project_config_or_local_config_by_section_path(section_path_str)
    if config is None:
        raise ConfigManagerNotLoadedException
    ups = config.change_from_refresh()
    if len(ups) == 0:
        return config, False, {}
    manager.plm.hook.pyfileconf_pre_config_changed(manager=self, orig_config=config, updates=ups, section_path_str=section_path_str)
    return config, True, config.refresh()


@contract(M + 'ConfigManager.set', 'C05', use=LOOK, self=MGR, section_path_str=OPTS, value=TOneOf(None, CONF), allow_create=TBool())
def manager_set(self, section_path_str=None, value=None, allow_create=True):
    if value is None:
        value = ActiveFunctionConfig()
    if section_path_str is None:
        self.local_config = value
        return value, True
    try:
        current = self._get_project_config_or_local_config_by_section_path(section_path_str)
    except KeyError:
        current = None
    if current is None:
        changes = True
    else:
        changes = self._determine_and_track_if_config_would_be_updated(current, section_path_str, value)
    if changes:
        self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
    return value, changes


@contract(M + 'ConfigManager.pop', 'C02', use=LOOK, self=MGR, key=TStr(), section_path_str=OPTS)
def manager_pop(self, key, section_path_str=None):
    config = self._get_project_config_or_local_config_by_section_path(section_path_str)
    if config is None:
        raise ConfigManagerNotLoadedException
    return config.pop(key)


# ---- what a stored entry is
ENTRY = TOneOf(CONF, SECTION, TRef('pyfileconf.config.models.file:ActiveFunctionConfigFile'), TAny())


@assumed('pyfileconf.config.models.file:ActiveFunctionConfigFile.load', 'reading and parsing a config file yields a new config', opts={'alt': True})
def file_load(self, config_class=None):
    return effect('load config file', self, config_class, ty=CONF)


@contract(M + '_get_config_from_config_or_section', 'C04 C05', use=['file_load'], config_or_section=ENTRY)
def config_of_entry(config_or_section):
    """a config is itself, a section has its own config, a file is read"""
    if isinstance(config_or_section, ActiveFunctionConfig):
        return config_or_section
    if isinstance(config_or_section, ConfigSection):
        return config_or_section.config
    if isinstance(config_or_section, ActiveFunctionConfigFile):
        return config_or_section.load(ActiveFunctionConfig)
    raise ValueError


@assumed('pyfileconf.logic.get:_get_from_nested_obj_by_section_path', 'following a path into nested sections (C21)', opts={'alt': True})
def nested_get(obj, section_path, prevent_property_access=False):
    return query('entry at', obj, section_path.path_str)


@contract(M + 'ConfigManager._is_function_or_pipeline_path', 'C04', use=['nested_get'], self=MGR, section_path_str=TStr())
def is_item_path(self, section_path_str):
    entry = _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
    if isinstance(entry, ConfigSection):
        return False
    if isinstance(entry, (ActiveFunctionConfig, ActiveFunctionConfigFile)):
        return True
    raise ValueError


@assumed(M + '_get_config_from_config_or_section', 'verified as config_of_entry', opts={'alt': True})
def entry_config(config_or_section):
    return effect('config of entry', config_or_section)


@assumed('pyfileconf.logic.set:_set_in_nested_obj_by_section_path', 'setting an entry at exactly a path (C21)', opts={'alt': True})
def nested_set(obj, section_path, value):
    effect('set entry', obj, section_path.path_str, value)


@contract(M + 'ConfigManager._get_func_or_section_configs', 'C05', use=['nested_get', 'entry_config', 'nested_set'], self=MGR, section_path_str=OPTS)
def stored_config(self, section_path_str):
    """the config of exactly the given path; a config that was read from its file is remembered, so that it is the same one later"""
    if self.section is None:
        raise ConfigManagerNotLoadedException
    path = SectionPath(self.section.name if section_path_str is None else section_path_str)
    entry = _get_from_nested_obj_by_section_path(self, path)
    config = _get_config_from_config_or_section(entry)
    if not isinstance(entry, ConfigSection):
        _set_in_nested_obj_by_section_path(self, path, config)
    return config


@assumed('pyfileconf.pipelines.models.config:FunctionConfig.from_file', 'reading and parsing a config file yields a new config', opts={'alt': True})
def conf_from_file(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return effect('config from file', cls, filepath, ty=CONF)


@assumed('pyfileconf.config.models.section:ConfigSection.from_files', 'reading a folder of config files yields a new section', opts={'alt': True})
def section_from_files(cls, basepath):
    return effect('section from files', basepath, ty=SECTION)


@contract(M + 'ConfigManager._get_default_func_or_section_config', 'C05', use=['nested_get', 'conf_from_file', 'section_from_files'],
          self=MGR, section_path_str=OPTS, create=TBool())
def default_of(self, section_path_str=None, create=False):
    """what the file of exactly that path defines now"""
    if section_path_str is None:
        return ActiveFunctionConfig()
    path = SectionPath(section_path_str)
    file = path.to_filepath(self.basepath)
    try:
        entry = _get_from_nested_obj_by_section_path(self, path)
    except KeyError:
        if not create:
            raise
        return ActiveFunctionConfig.from_file(file + '.py')
    if isinstance(entry, ConfigSection):
        return ConfigSection.from_files(file)
    if isinstance(entry, (ActiveFunctionConfig, ActiveFunctionConfigFile)):
        return ActiveFunctionConfig.from_file(file + '.py')
    raise ValueError


@contract(M + 'ConfigManager.reset', 'C05', use=['default_config', 'stored_set'], self=MGR, section_path_str=OPTS, allow_create=TBool())
def manager_reset(self, section_path_str=None, allow_create=False):
    return self.set(section_path_str, self._get_default_func_or_section_config(section_path_str, create=allow_create), allow_create=allow_create)


@assumed(M + 'ConfigManager.set', 'verified as manager_set', opts={'alt': True})
def stored_set(self, section_path_str=None, value=None, allow_create=True):
    return effect('set config', section_path_str, value, allow_create), query('changed', self, section_path_str)


@assumed(M + 'ConfigManager._is_function_or_pipeline_path', 'verified as is_item_path (C04)', opts={'alt': True})
def item_path(self, section_path_str):
    return query('is an item', section_path_str, ty=BOOL, may_raise=True)


@assumed(CB + '.update', 'verified as config.update (C02)', opts={'alt': True})
def conf_put(self, E=None, pyfileconf_persist=True, **F):
    event('config.update', self, E, pyfileconf_persist)


@contract(M + 'ConfigManager.get', 'C04', use=['conf_put', 'stored', 'item_path'], self=MGR, section_path_str=TStr())
def manager_get(self, section_path_str):
    """the item's own values, then the project's section, then every section of the path from the highest to the lowest, last the
    local config; for a section its own values count again at their place in that order, as they were before"""
    config = self._get_func_or_section_configs(section_path_str)
    if self.section is None:
        raise ConfigManagerNotLoadedException
    layers = [self.section.config]
    names = section_path_str.split('.')
    path = ''
    for name in names[:-1]:
        path = path + name
        layers.append(self._get_func_or_section_configs(path))
        path = path + '.'
    path = path + names[-1]
    if not self._is_function_or_pipeline_path(path):
        own = self._get_func_or_section_configs(path)
        layers.append(None if own is None else dict(own))
    if config:
        for layer in layers:
            config.update(layer)
        config.update(self.local_config)
    return config
