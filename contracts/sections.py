"""Contracts on the tree of configs: sections, their files, and putting configs in (C01, C02, C05, C13)."""
from pyvc.api import *
from contracts.paths import SP, SPV
if False:
    import os
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf.config.models.section import ConfigSection
    from pyfileconf.sectionpath.sectionpath import _strip_py
    from pyfileconf.config.models.config import ActiveFunctionConfig
    from pyfileconf.config.models.file import ActiveFunctionConfigFile
    from pyfileconf.exceptions.config import ConfigManagerNotLoadedException

M = 'pyfileconf.config.models.'
CS = M + 'section:ConfigSection'
CM = M + 'manager:ConfigManager'
NAMEDCONF = TRef(M + 'config:ActiveFunctionConfig', name=TOneOf(None, TStr()))
ENTRY = TRef('entry', name=TOneOf(None, TStr()))
CONF1 = TOneOf(None, NAMEDCONF)
SECT = TObj(CS, config=CONF1, _items=TList(ENTRY), name=TOneOf(None, TStr()), _config_map=TDict(TStr(), TAny()))
STR = TStr()
STRS = TList(TStr())


def by_name(entries):
    out = {}
    for entry in entries:
        if entry.name is not None:
            out[entry.name] = entry
    return out


@contract(CS + '._set_config_map', 'C01 C02', self=SECT)
def set_map(self):
    """the entries of a section under their names, the last one with a name wins; entries without a name are not reachable"""
    self._config_map = by_name(self._items)


@assumed(CS + '._set_config_map', 'verified as set_map', opts={'alt': True})
def mapped(self):
    self._config_map = query('map of', self, [x for x in self._items], ty=MAP)


MAP = TDict(TStr(), TAny())


@contract(CS + '.__getattr__', 'C02 C05', self=SECT, item=TStr())
def sec_getattr(self, item):
    """the entry with the name; the section itself for its own name, unless an entry has that name"""
    if item in self._config_map:
        return self._config_map[item]
    if self.config is not None and item == self.config.name:
        return self.config
    raise KeyError


@contract(CS + '.append', 'C13 C05', use=['mapped'], self=SECT, item=ENTRY)
def append(self, item):
    """the entry is added, and can be reached from then on"""
    self._items.append(item)
    self._config_map = query('map of', self, [x for x in self._items], ty=MAP)


@contract(CS + '.extend', 'C13 C05', use=['mapped'], self=SECT, items=TList(ENTRY))
def extend(self, items):
    self._items.extend(items)
    self._config_map = query('map of', self, [x for x in self._items], ty=MAP)


@contract(CS + '.__init__', 'C01 C02', use=['mapped'], self=TObj(CS), configs=TList(ENTRY), section_config=CONF1, name=TOneOf(None, TStr()))
def sec_init(self, configs, section_config=None, name=None):
    self.config = section_config
    self._items = configs
    self._config_map = query('map of', self, [x for x in self._items], ty=MAP)
    self.name = name


# ---- the folder
@assumed('pyfileconf.pipelines.models.config:FunctionConfig.from_file', 'reading a config file (C12)', opts={'alt': True})
def config_file(cls, filepath, name=None, file=None, klass=None):
    return query('config of file', filepath, name, ty=NAMEDCONF, may_raise=True)


@assumed(CS + '.from_files', 'the sections below (verified as from_files)', opts={'alt': True})
def section_of(cls, basepath):
    return query('section of folder', basepath, ty=ENTRY, may_raise=True)


@assumed(CS + '.__init__', 'verified as sec_init', opts={'alt': True})
def new_section(self, configs, section_config=None, name=None):
    self.config = section_config
    self._items = configs
    self.name = name


@assumed('pyfileconf.basemodels.file:ConfigFileBase.__init__', 'verified as contracts.files (C12)', opts={'alt': True})
def new_file(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    self.filepath = filepath
    self.name = name



@assumed('pyfileconf.pipelines.models.file:FunctionConfigFile.__init__', 'the file of a config (verified in contracts.files, C12)', opts={'alt': True})
def new_function_file(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    self.filepath = filepath
    self.name = name


@contract(CS + '.from_files', 'C01 C02 C13', use=['config_file', 'section_of', 'new_section', 'new_file'], opts={'cls': CS}, basepath=TStr())
def from_files(cls, basepath):
    """the section of a folder: every config file and every folder below (but those with a name that starts with . or _), under
    their names; section.py is the config of the section itself; without a folder the section is empty"""
    name = os.path.basename(os.path.abspath(basepath))
    if not os.path.exists(basepath):
        return ConfigSection([], name=name)
    files = [f for f in next(os.walk(basepath))[2] if f.endswith('.py')]
    folders = [f for f in next(os.walk(basepath))[1] if not (f.startswith('_') or f.startswith('.'))]
    own = None
    if 'section.py' in files:
        files.remove('section.py')
        own = query('config of file', os.path.join(basepath, 'section.py'), name, ty=NAMEDCONF, may_raise=True)
    entries = []
    for f in files:
        entries.append(ActiveFunctionConfigFile(os.path.join(basepath, f), name=_strip_py(f)))
    for f in folders:
        entries.append(query('section of folder', os.path.join(basepath, f), ty=ENTRY, may_raise=True))
    return ConfigSection(entries, section_config=own, name=name)


# ---- putting a config into the tree
OPTS = TOneOf(None, TStr())
TREE = TRef(CS, name=TStr())
MGR = TObj(CM, section=TOneOf(None, TREE), basepath=TStr(), pipeline_manager_name=TStr(), local_config=NAMEDCONF)


@assumed(CM + '._set_func_or_config_with_create', 'putting a config where the sections may have to be made (verified as with_create)', opts={'alt': True})
def with_new_sections(self, section_path, value):
    effect('append config', self, section_path.path_str, value, may_raise=True)


@assumed('pyfileconf.logic.set:_set_in_nested_obj_by_section_path', 'setting the entry of a path (verified as contracts.collections)', opts={'alt': True})
def set_at(obj, section_path, value):
    effect('set config', obj, section_path.path_str, value, may_raise=True)


@contract(CM + '._set_func_or_section_config', 'C05 C13', use=['with_new_sections', 'set_at'], self=MGR, section_path_str=OPTS, value=TAny(), allow_create=TBool())
def put(self, section_path_str, value=None, allow_create=True):
    """only where the manager is loaded; the config of exactly that path"""
    if self.section is None:
        raise ConfigManagerNotLoadedException
    path = self.section.name if section_path_str is None else section_path_str
    if allow_create:
        effect('append config', self, path, value, may_raise=True)
    else:
        effect('set config', self, path, value, may_raise=True)


@contract(CM + '._set_func_or_config_no_create', 'C05', use=['set_at'], self=MGR, section_path=SPV, value=TAny())
def no_create(self, section_path, value):
    effect('set config', self, section_path.path_str, value, may_raise=True)


@contract(CM + '.load', 'C05 C20', use=['section_of'], self=MGR)
def load(self):
    """the whole tree anew from the folder"""
    self.section = query('section of folder', self.basepath, ty=ENTRY, may_raise=True)


@contract(CM + '._track_pre_update', 'C10', opts={'hook_types': {'pyfileconf_pre_config_changed': None}}, self=MGR, config=NAMEDCONF, section_path_str=TStr(), all_updates=TDict())
def track_pre(self, config, section_path_str, all_updates):
    """plugins hear of a change before it is made, with the config as it is and all of the updates"""
    manager.plm.hook.pyfileconf_pre_config_changed(manager=self, orig_config=config, updates=all_updates, section_path_str=section_path_str)


VALUES = TDict(TStr(), TAny())
ACTIVE = 'pyfileconf.io.file.interfaces.activeconfig:ActiveConfigFileInterface'
LOADER = 'pyfileconf.io.file.load.active.loader:ActiveConfigFileLoader'


@assumed(LOADER + '.load', 'running the config file (bounded: C12; imports and assignments: contracts.files)', opts={'alt': True})
def run_config_file(self):
    return query('values of file', self, ty=VALUES, may_raise=True)


@assumed('pyfileconf.basemodels.config:ConfigBase.__init__', 'verified as contracts.config.init', opts={'alt': True})
def new_config(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None, klass=None,
               always_import_strs=None, always_assign_strs=None):
    for k in d:
        self[k] = d[k]
    self._file = _file
    self.imports = imports
    self.name = name


@contract(M + 'file:ActiveFunctionConfigFile.load', 'C12 C02', use=['run_config_file', 'new_config'],
          self=TObj(M + 'file:ActiveFunctionConfigFile', interface=TRef(ACTIVE, imports=TAny()), name=TOneOf(None, TStr())), config_class=TConst(None))
def file_load(self, config_class=None):
    """the config holds what the file assigns, the imports of the file, and knows the file it is from"""
    values = query('values of file', self.interface, ty=VALUES, may_raise=True)
    return ActiveFunctionConfig(d=values, imports=self.interface.imports, _file=self, name=self.name)


@assumed('pyfileconf.config.models.section:ConfigSection.append', 'verified as append', opts={'alt': True})
def appending(self, item):
    effect('append to section', self, item)


YES = TBool()


@assumed(CS + '.__getattr__', 'verified as sec_getattr: an entry, or KeyError', opts={'alt': True})
def entry_of(self, item):
    if not query('has entry', self, item, ty=YES):
        raise KeyError
    return query('entry of', self, item, ty=TREE)


@contract(CM + '._set_func_or_config_with_create', 'C05 C13', use=['new_section', 'appending', 'entry_of'], opts={'own_getattr': [CS, CM], 'tier': 'thorough'}, self=MGR.but(section=TREE), section_path=SPV, value=TAny())
def with_create(self, section_path, value):
    """every section of the path which does not exist is made in the one above, under its name; the config goes into the last"""
    here = self
    folder = self.basepath
    for section in section_path[:-1]:
        folder = os.path.join(folder, section)
        try:
            here = getattr(here, section)
        except KeyError:
            here.append(ConfigSection([], name=section))
            here = getattr(here, section)
    here.append(value)
