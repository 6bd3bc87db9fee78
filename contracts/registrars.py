"""Contracts on what a manager builds from its dictionaries: registrars, their collections, loading (C01, C13, C20, C21)."""
from pyvc.api import *
from contracts.paths import SP, SPV
from contracts.main import PMGR
if False:
    import os
    from pyfileconf.config.models.manager import ConfigManager
    from pyfileconf.runner.models.runner import Runner

REG = 'pyfileconf.basemodels.registrar:Registrar'
PREG = 'pyfileconf.pipelines.models.registrar:PipelineRegistrar'
SREG = 'pyfileconf.data.models.registrar:SpecificRegistrar'
COLL = TRef('collection')
PC = 'pyfileconf.pipelines.models.collection:PipelineCollection'
SC = 'pyfileconf.data.models.collection:SpecificClassCollection'
CD = 'pyfileconf.basemodels.collection:Collection'
OPTSTR = TOneOf(None, TStr())


@contract(REG + '.__init__', 'C21', self=TObj(PREG), collection=COLL, basepath=TStr(), name=OPTSTR, always_import_strs=TAny(), always_assign_strs=TAny(),
          klass=TAny(), key_attr=TStr(), execute_attr=TStr())
def registrar_init(self, collection, basepath, name=None, always_import_strs=None, always_assign_strs=None, klass=None, key_attr='name', execute_attr='__call__'):
    self.collection = collection
    self.basepath = basepath
    self.name = name
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self.klass = klass
    self.key_attr = key_attr
    self.execute_attr = execute_attr


@assumed(CD + '.from_dict', 'the collections of a dictionary (verified as contracts.collections.from_dict, C13)', opts={'alt': True})
def collection_of(cls, dict_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None, key_attr='name', execute_attr='__call__'):
    return query('collection of', cls, dict_, basepath, name, imports, always_import_strs, always_assign_strs, klass, key_attr, execute_attr, ty=COLL, may_raise=True)


@assumed(CD + '._output_config_files', 'writing the config files of a collection (verified in contracts.collections, contracts.files)', opts={'alt': True})
def write_files(self):
    effect('write config files', self, may_raise=True)


@contract(REG + '.from_dict', 'C13 C21', use=['collection_of'], opts={'cls': PREG}, dict_=TDict(), basepath=TStr(), name=OPTSTR, imports=TAny(), always_import_strs=TAny(),
          always_assign_strs=TAny(), klass=TAny(), key_attr=TStr(), execute_attr=TStr())
def registrar_of(cls, dict_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None, klass=None, key_attr='name', execute_attr='__call__'):
    """the registrar and its collections share everything given for the dictionary"""
    out = fresh_obj(PREG)
    out.collection = query('collection of', PC_CLASS(), dict_, basepath, name, imports, always_import_strs, always_assign_strs, klass, key_attr, execute_attr, ty=COLL, may_raise=True)
    out.basepath = basepath
    out.name = name
    out.always_import_strs = always_import_strs
    out.always_assign_strs = always_assign_strs
    out.klass = klass
    out.key_attr = key_attr
    out.execute_attr = execute_attr
    return out


def PC_CLASS():
    from pyfileconf.pipelines.models.collection import PipelineCollection
    return PipelineCollection


ANYREG = TObj(PREG, collection=TRef('collection'), basepath=TStr(), name=OPTSTR)


@contract(REG + '.scaffold_config', 'C01 C12', self=ANYREG)
def scaffold(self):
    """every config file of the collection is written"""
    self.collection._output_config_files()


@contract(REG + '.to_nested_dict', 'C13', self=ANYREG)
def registrar_nested(self):
    return self.collection.to_nested_dict()


# ---- all registrars of a manager
SR = TRef(SREG, name=TStr(), collection=COLL)
GR = TRef(PREG, name=OPTSTR, collection=COLL)
BUILT = TTuple(TList(SR), GR)


@assumed('pyfileconf.main:_create_registrars_or_collections_from_dict', 'the registrars of the dictionaries of a manager', opts={'alt': True})
def built(specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, registrar=True, manager_name=None):
    return query('build', specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, registrar, manager_name, ty=BUILT, may_raise=True)


@assumed('pyfileconf.main:_validate_registrars', 'verified as validate', opts={'alt': True})
def valid(registrars, general_registrar):
    effect('validate registrars', registrars, general_registrar, may_raise=True)


@assumed(REG + '.scaffold_config', 'verified as scaffold', opts={'alt': True})
def scaffolding(self):
    effect('scaffold', self, may_raise=True)


@contract('pyfileconf.main:create_registrars', 'C01 C12 C13', use=['built', 'valid', 'scaffolding'], specific_class_config_dicts=TAny(), basepath=TStr(), pipeline_folder=TStr(),
          pipeline_dict_path=TStr(), manager_name=OPTSTR)
def create_registrars(specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, manager_name=None):
    """no config file is written before the registrars were found to be valid; then those of every registrar are"""
    specific, general = query('build', specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, True, manager_name, ty=BUILT, may_raise=True)
    effect('validate registrars', specific, general, may_raise=True)
    for r in specific:
        effect('scaffold', r, may_raise=True)
    effect('scaffold', general, may_raise=True)
    return specific, general


@contract('pyfileconf.main:create_collections', 'C01', use=['built'], specific_class_config_dicts=TAny(), basepath=TStr(), pipeline_folder=TStr(),
          pipeline_dict_path=TStr(), manager_name=OPTSTR)
def create_collections(specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, manager_name=None):
    specific, general = query('build', specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, False, manager_name, ty=BUILT, may_raise=True)
    return specific, general


@assumed('pyfileconf.main:create_registrars', 'verified as create_registrars', opts={'alt': True})
def registrars_of(specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, manager_name=None):
    return query('registrars', specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, manager_name, ty=BUILT, may_raise=True)


@assumed('pyfileconf.config.models.manager:ConfigManager.load', 'verified as contracts.sections.load', opts={'alt': True})
def load_configs(self):
    effect('load configs', self.basepath, self.pipeline_manager_name, may_raise=True)


@assumed('pyfileconf.config.models.manager:ConfigManager.__init__', 'verified as configs_init', opts={'alt': True})
def new_configs(self, basepath, pipeline_manager_name, main_section=None):
    self.section = main_section
    self.basepath = basepath
    self.pipeline_manager_name = pipeline_manager_name


@assumed('pyfileconf.runner.models.runner:Runner.__init__', 'verified as runner_init', opts={'alt': True})
def new_runner(self, config, registrars, general_registrar, name):
    self._config = config
    self._registrars = registrars
    self._general_registrar = general_registrar
    self._manager_name = name


@contract('pyfileconf.main:PipelineManager._load_pipeline_config_and_runner', 'C01 C20 C13', use=['registrars_of', 'load_configs', 'new_configs', 'new_runner'], self=PMGR)
def load_all(self):
    """the registrars of the dictionaries first (they write the config files), then the configs from these files, then the runner over both"""
    self._registrars, self._general_registrar = query('registrars', self.specific_class_config_dicts, self.default_config_path, self.folder,
                                                      self.pipeline_dict_path, self.name, ty=BUILT, may_raise=True)
    self.config = ConfigManager(self.default_config_path, self.name)
    effect('load configs', self.default_config_path, self.name, may_raise=True)
    self.runner = Runner(self.config, self._registrars, self._general_registrar, self.name)


@assumed('pyfileconf.basemodels.config:ConfigBase.__init__', 'an empty config', opts={'alt': True})
def empty_config(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None, klass=None, always_import_strs=None,
                 always_assign_strs=None, **kwargs):
    self.name = name


@contract('pyfileconf.config.models.manager:ConfigManager.__init__', 'C02 C05', use=['empty_config'], self=TObj('pyfileconf.config.models.manager:ConfigManager'),
          basepath=TStr(), pipeline_manager_name=TStr(), main_section=TOneOf(None, TRef('section')))
def configs_init(self, basepath, pipeline_manager_name, main_section=None):
    from pyfileconf.config.models.config import ActiveFunctionConfig
    self.section = main_section
    self.basepath = basepath
    self.pipeline_manager_name = pipeline_manager_name
    self.local_config = ActiveFunctionConfig()


RUN = 'pyfileconf.runner.models.runner:Runner'
SRK = TRef(SREG, klass=TAny())


def runner_fields(self, config, registrars, general_registrar, name):
    self._config = config
    self._registrars = registrars
    self._general_registrar = general_registrar
    self._manager_name = name
    self._full_getattr = ''
    self._all_specific_classes = tuple([r.klass for r in registrars])
    self._specific_class_registrar_map = {r.klass: r for r in registrars}
    self._loaded_objects = {}


@contract(RUN + '.__init__', 'C06 C23', self=TObj(RUN), config=TRef('configs'), registrars=TList(SRK), general_registrar=GR, name=TStr())
def runner_init(self, config, registrars, general_registrar, name):
    runner_fields(self, config, registrars, general_registrar, name)


@contract('pyfileconf.main:_validate_registrars', 'C13', registrars=TList(SR), general_registrar=GR)
def validate(registrars, general_registrar):
    """a name can only be given once: not to two specific class dictionaries, nor to one and something at the top of the pipeline dictionary"""
    used = dir(general_registrar)
    for r in registrars:
        if r.name in used:
            raise ValueError
    names = [r.name for r in registrars]
    if len(set(names)) != len(names):
        raise ValueError


@contract('pyfileconf.main:_return_with_traceback', 'C07', opts={'reads': {'traceback.format_exc': (TStr(), False)}}, any=TAny())
def with_traceback(any):
    import traceback
    return any, traceback.format_exc()
