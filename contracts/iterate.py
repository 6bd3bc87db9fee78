"""Contracts on pyfileconf.iterate, pyfileconf.batch and the default hooks (C08, C09): the cases, what is filled in, what is
updated and run for each of them, in which order."""
from pyvc.api import *
from contracts.paths import SP, SPV, SPVAL, VIEW
if False:
    import itertools
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf.main import PipelineManager
    from pyfileconf.plugin import manager
    from pyfileconf.iterate import get_config_product, _get_configs_by_section_path_dict
    from pyfileconf.basemodels.config import configs_are_equal

I = 'pyfileconf.iterate:'
IR = I + 'IterativeRunner'
CONF = TDict()
OPAQUE = TRef('pyfileconf.config.models.config:ActiveFunctionConfig')
CASE = TTupleOf(CONF)
STRS = TList(TStr())
RUN = TObj(IR, base_section_path_str=TOneOf(None, TStr()), strip_manager_from_iv=TBool(), run_items=TList(SPVAL),
           config_updates=TAny(), cases=TList(CASE), last_case=TAny(), defaults=TDict(TStr(), CONF))
PMT = TRef('pyfileconf.main:PipelineManager', config=TRef('pyfileconf.config.models.manager:ConfigManager'))
MAYBE = TNullable()


@assumed(IR + '._get_varied_section_path_strs', 'the paths that any case varies', opts={'alt': True})
def varied(self):
    return query('varied', self, ty=STRS, may_raise=False)


@contract(IR + '._get_full_section_path_str', 'C08', self=RUN, section_path_str=TStr())
def full_path(self, section_path_str):
    return section_path_str if not self.base_section_path_str else self.base_section_path_str + '.' + section_path_str


@assumed(IR + '._get_full_section_path_str', 'verified as full_path', opts={'alt': True})
def full(self, section_path_str):
    return pure_str('full path', self.base_section_path_str, section_path_str)


@contract(IR + '._fill_case_with_defaults', 'C08', use=['varied', 'full'], self=RUN, case=CASE)
def fill(self, case):
    """each config of the case over the original values of its item; the items that only other cases vary get their original
    values; the case and the remembered original values are not modified"""
    full = lambda p: self._get_full_section_path_str(p)
    own = [{**self.defaults[full(c['section_path_str'])], **c} for c in case]
    named = [c['section_path_str'] for c in case]
    rest = [{**self.defaults[full(p)], 'section_path_str': p} for p in self._get_varied_section_path_strs() if p not in named]
    return tuple([*own, *rest])


@assumed(IR + '._fill_case_with_defaults', 'verified as fill', opts={'alt': True})
def filled(self, case):
    return query('filled', self, case)


@assumed(IR + '._run', 'verified as run_items', opts={'alt': True})
def run_all(self):
    return effect('run items')


@contract(IR + '._run_case', 'C08', use=['filled', 'run_all'], self=RUN, case=CASE)
def run_case(self, case):
    """the filled case is put into the configs, then the items run; the next case knows what was put"""
    full = self._fill_case_with_defaults(case)
    manager.plm.hook.pyfileconf_iter_update_for_case(case=full, runner=self)
    result = self._run()
    self.last_case = full
    return result


@contract(IR + '._get_varied_section_path_strs', 'C08', self=RUN)
def varied_paths(self):
    """the paths that the cases vary, each once"""
    return list(dict.fromkeys([c['section_path_str'] for case in self.cases for c in case]))


@assumed('pyfileconf.main:PipelineManager.get_manager_by_section_path_str', 'the manager that the path names (C19)', opts={'alt': True})
def manager_of(cls, section_path_str):
    return query('manager of', section_path_str, ty=PMT)


@assumed('pyfileconf.config.models.manager:ConfigManager.get', 'the active config of a path (C04), or None', opts={'alt': True})
def config_of(self, section_path_str):
    return None if pure_bool('no config', self, section_path_str) else query('config.get', self, section_path_str, ty=OPAQUE)


@contract(IR + '.get_defaults', 'C08', use=['varied', 'full', 'manager_of', 'config_of'], self=RUN)
def get_defaults(self):
    """a copy of the config that each varied item has before the first case"""
    found = {}
    for p in self._get_varied_section_path_strs():
        name = self._get_full_section_path_str(p)
        pm = PipelineManager.get_manager_by_section_path_str(name)
        config = pm.config.get('.'.join(name.split('.')[1:]))
        if config is not None:
            found[name] = {**config}
    return found


@assumed('pyfileconf.main:PipelineManager.run', 'running a path with one manager (C06)', opts={'alt': True})
def pm_run(self, section_path_str_or_list):
    return effect('run', self, section_path_str_or_list)


@contract(IR + '._run', 'C08', use=['manager_of', 'pm_run'], self=RUN)
def run_items(self):
    """every requested item once, in order, each by the manager that it names; one result stands for itself"""
    results = []
    for p in self.run_items:
        pm = PipelineManager.get_manager_by_section_path_str(p.path_str)
        results.append(pm.run('.'.join(p.path_str.split('.')[1:])))
    return results[0] if len(results) == 1 else results


@assumed(IR + '._run_case', 'verified as run_case', opts={'alt': True})
def one_case(self, case):
    return effect('run case', self, case)


@assumed(IR + '.should_run', 'True unless a subclass says otherwise', opts={'alt': True})
def should(self, case):
    return query('should run', self, case, ty=BOOL)


BOOL = TBool()


@contract(IR + '.run', 'C08', use=['one_case', 'should'], self=RUN, collect_results=TBool())
def run_(self, collect_results=True):
    """every case once, in order, with its result"""
    results = []
    for case in self.cases:
        if self.should_run(case):
            result = self._run_case(case)
            if collect_results:
                results.append((case, result))
    return results


@contract(IR + '.run_gen', 'C08', use=['one_case', 'should'], self=RUN)
def run_gen(self):
    """the same pairs, one at a time"""
    for case in self.cases:
        if self.should_run(case):
            yield case, self._run_case(case)


@assumed(IR + '.get_cases', 'verified as get_cases', opts={'alt': True})
def found_cases(self):
    return query('cases', self.config_updates, ty=CASES)


@assumed(IR + '.get_defaults', 'verified as get_defaults', opts={'alt': True})
def found_defaults(self):
    return query('defaults', self.cases, ty=GROUPS)


CASES = TList(CASE)


@contract(IR + '.__init__', 'C08', use=['found_cases', 'found_defaults', 'from_ambiguous'], self=TObj(IR), section_path_str_or_list=TOneOf(TStr(), VIEW, TList(TAny()), TTupleOf(TAny())),
          config_updates=TAny(), base_section_path_str=TOneOf(None, TStr()), strip_manager_from_iv=TBool())
def iterative_init(self, section_path_str_or_list, config_updates, base_section_path_str=None, strip_manager_from_iv=False):
    """the items named, each resolved against the base; the cases and the original values are determined once, before running"""
    items = section_path_str_or_list if isinstance(section_path_str_or_list, (list, tuple)) else [section_path_str_or_list]
    self.base_section_path_str = base_section_path_str
    self.strip_manager_from_iv = strip_manager_from_iv
    self.run_items = [SectionPath.from_ambiguous(x, base_section_path_str=base_section_path_str, strip_manager_from_iv=strip_manager_from_iv) for x in items]
    self.config_updates = config_updates
    self.cases = self.get_cases()
    self.defaults = self.get_defaults()


@contract(IR + '.get_cases', 'C08', opts={'hook_types': {'pyfileconf_iter_get_cases': TList(CASE)}}, self=RUN)
def get_cases(self):
    """the cases of all extensions in order, then modified by the extensions"""
    found = manager.plm.hook.pyfileconf_iter_get_cases(config_updates=self.config_updates, runner=self)
    cases = [case for cases in found for case in cases]
    manager.plm.hook.pyfileconf_iter_modify_cases(cases=cases, runner=self)
    return cases


@assumed(I + '_get_configs_by_section_path_dict', 'the configs by their path (bounded check C08)', opts={'alt': True})
def grouped(config_dicts):
    return query('configs by path', config_dicts, ty=GROUPS)


GROUPS = TDict(TStr(), TAny())


@contract(I + 'get_config_product', 'C08', use=['grouped'], config_dicts=TList(CONF))
def product(config_dicts):
    return list(itertools.product(*_get_configs_by_section_path_dict(config_dicts).values()))


B = 'pyfileconf.batch:BatchUpdater'
BU = TObj(B, base_section_path_str=TOneOf(None, TStr()), strip_manager_from_iv=TBool())


@assumed(SP + '.from_ambiguous', 'verified as paths.from_ambiguous (C01)', opts={'alt': True})
def from_ambiguous(cls, sp, base_section_path_str=None, strip_manager_from_iv=False):
    return SectionPath(query('path of', sp, base_section_path_str, strip_manager_from_iv, ty=STR))


STR = TStr()


@assumed('pyfileconf.main:PipelineManager._update', 'updating one item of one manager (C05)', opts={'alt': True})
def pm_update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    effect('update', self, d_, section_path_str, pyfileconf_persist, snapshot(kwargs))


@assumed('pyfileconf.main:PipelineManager.reset', 'resetting one item of one manager (C05)', opts={'alt': True})
def pm_reset(self, section_path_str_or_view, allow_create=False):
    effect('reset', self, section_path_str_or_view, allow_create)


@contract(B + '.update', 'C09', use=['manager_of', 'from_ambiguous', 'pm_update'], opts={'hook_types': {'pyfileconf_pre_update_batch': TList(CONF)}},
          self=BU, updates=TList(CONF))
def batch_update(self, updates):
    """every update once, in order, of exactly the item that it names, in the manager that it names"""
    found = manager.plm.hook.pyfileconf_pre_update_batch(pm=self, updates=updates)
    for update in [u for us in found for u in us]:
        path = SectionPath.from_ambiguous(update['section_path_str'], base_section_path_str=self.base_section_path_str,
                                          strip_manager_from_iv=self.strip_manager_from_iv).path_str
        pm = PipelineManager.get_manager_by_section_path_str(path)
        pm._update(**{**update, 'section_path_str': '.'.join(path.split('.')[1:])})
    manager.plm.hook.pyfileconf_post_update_batch(pm=self, updates=updates)


@contract(B + '.reset', 'C09', use=['manager_of', 'from_ambiguous', 'pm_reset'], self=BU, section_path_strs=TList(TAny()))
def batch_reset(self, section_path_strs):
    for p in section_path_strs:
        path = SectionPath.from_ambiguous(p, base_section_path_str=self.base_section_path_str,
                                          strip_manager_from_iv=self.strip_manager_from_iv).path_str
        pm = PipelineManager.get_manager_by_section_path_str(path)
        pm.reset('.'.join(path.split('.')[1:]))


H = 'pyfileconf.plugin.default_hooks:'


@assumed('pyfileconf.basemodels.config:configs_are_equal', 'same keys and equal values (C03)', opts={'alt': True})
def equal_configs(config1, config2):
    return pure_bool('configs equal', config1, config2)


@assumed(B + '.update', 'verified as batch_update', opts={'alt': True})
def batch(self, updates):
    effect('update batch', self.base_section_path_str, self.strip_manager_from_iv, updates)


RUNNER = TObj(IR, base_section_path_str=TOneOf(None, TStr()), strip_manager_from_iv=TBool(), last_case=TOneOf(None, CASE))


@contract(H + 'pyfileconf_iter_update_for_case', 'C08', use=['equal_configs', 'batch'], case=CASE, runner=RUNNER)
def update_for_case(case, runner):
    """exactly the configs that differ from what the last case put are updated"""
    last = runner.last_case
    changed = case if last is None else [c for c in case if not any(configs_are_equal(c, x) for x in last)]
    effect('update batch', runner.base_section_path_str, runner.strip_manager_from_iv, changed)
