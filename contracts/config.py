"""Contracts on pyfileconf.basemodels.config (C02, C03)."""
from pyvc.api import *

CB = 'pyfileconf.basemodels.config:ConfigBase'
APPLIED = TDict()
CFG = TObj(CB, TDict(), name=TAny(), annotations=TDict(), imports=TAny(), _file=TRef('file', filepath=TStr()),
           begin_assignments=TAny(), klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(),
           _applied_updates=APPLIED)


@contract(CB + '.update', 'C02 C03', self=CFG, E=TOneOf(None, TDict()), pyfileconf_persist=TBool(), kw__=TDict())
def update(self, E=None, pyfileconf_persist=True, **F):
    ups = {**({} if E is None else E), **F}
    for k, v in ups.items():
        dict.__setitem__(self, k, v)
    if pyfileconf_persist:
        for k, v in ups.items():
            self._applied_updates[k] = v


@assumed(CB + '.from_file', 'reading and parsing a config file yields a new mapping of argument values (bounded-checked by C12/C14)')
def from_file(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return effect('config.from_file', cls, filepath, name, klass, always_import_strs, always_assign_strs, ty=FROMFILE)


FROMFILE = TObj(CB, TDict())


@contract(CB + '._get_new_config_from_file', 'C03', self=CFG)
def _get_new_config_from_file(self):
    return effect('config.from_file', type(self), self._file.filepath, self.name, self.klass,
                  self.always_import_strs, self.always_assign_strs, ty=FROMFILE)


@contract(CB + '.refresh', 'C03', self=CFG)
def refresh(self):
    """every key of the file's config is set to the file's value, then the remembered updates on top; the remembered
    updates themselves do not change"""
    fresh = effect('config.from_file', type(self), self._file.filepath, self.name, self.klass,
                   self.always_import_strs, self.always_assign_strs, ty=FROMFILE)
    final = {**fresh, **self._applied_updates}
    for k, v in final.items():
        dict.__setitem__(self, k, v)
    return final


@assumed('pyfileconf.basemodels.config:_values_are_equal',
         'callers see the equality of two values as a deterministic function of the two values')
def values_equal_abstract(val1, val2):
    return pure_bool('values_equal', val1, val2)


@contract('pyfileconf.basemodels.config:_values_are_equal', 'C03', val1=TAny(), val2=TAny(), opts={'user_eq': True, 'alt': True})
def _values_are_equal(val1, val2):
    if isinstance(val1, (pd.DataFrame, pd.Series)):
        return val1.equals(val2)
    if isinstance(val2, (pd.DataFrame, pd.Series)):
        return False
    try:
        return bool(val1 == val2)
    except Exception:
        return False


@contract(CB + '.would_update', 'C03', self=CFG, E=TOneOf(None, TDict()), kw__=TDict())
def would_update(self, E=None, **F):
    """True exactly when some existing key would get a different value"""
    ups = {**({} if E is None else E), **F}
    return any(k in self and not _values_are_equal(self[k], ups[k]) for k in ups)


@contract(CB + '.change_from_refresh', 'C03', self=CFG)
def change_from_refresh(self):
    """what refresh would set if that changes anything, else nothing; the config itself is untouched"""
    fresh = effect('config.from_file', type(self), self._file.filepath, self.name, self.klass,
                   self.always_import_strs, self.always_assign_strs, ty=FROMFILE)
    final = {**fresh, **self._applied_updates}
    if any(k in self and not _values_are_equal(self[k], final[k]) for k in final):
        return final
    return {}
