"""Shared harness of the bounded stand-ins.

Every scenario drives the real code of the tree under test (PYFILECONF_REPO,
default /repo) inside a scratch directory that the process creates and removes.
Nothing outside that directory is written.
"""
import json, os, random, shutil, sys, tempfile, textwrap, time, traceback, types, warnings, logging, itertools, copy

REPO = os.environ.get('PYFILECONF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

SCRATCH = tempfile.mkdtemp(prefix='pfc_bounded_')
os.chdir(SCRATCH)

# ---- the module user functions report to ---------------------------------
vtrack = types.ModuleType('vtrack')
vtrack.CALLS = []
vtrack.RAISE = {}
vtrack.HOOKS = {}


def _call(name, /, **kw):
    vtrack.CALLS.append((name, dict(kw)))
    h = vtrack.HOOKS.get(name)
    if h is not None:
        return h(name, kw)
    exc = vtrack.RAISE.get(name)
    if exc is not None:
        raise exc
    return (name, len(vtrack.CALLS), tuple(sorted((k, repr(v)) for k, v in kw.items())))


vtrack.call = _call
sys.modules['vtrack'] = vtrack


def reset_track():
    vtrack.CALLS.clear(); vtrack.RAISE.clear(); vtrack.HOOKS.clear()


STDOUT = sys.stdout

import pyfileconf
from pyfileconf import PipelineManager, Selector, context, options
from pyfileconf.sectionpath.sectionpath import SectionPath
from pyfileconf.plugin import manager as plugin_manager
from pyfileconf.plugin.impl import hookimpl

for _h in list(logging.getLogger('pyfileconf').handlers):
    logging.getLogger('pyfileconf').removeHandler(_h)
logging.getLogger('pyfileconf').addHandler(logging.NullHandler())


def fmt_exc(e=None):
    e = e if e is not None else sys.exc_info()[1]
    try:
        return ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    except Exception:
        return ''.join(traceback.format_tb(e.__traceback__)) + srepr(e)


def srepr(v):
    try:
        return repr(v)
    except Exception as e:
        return f'<{type(v).__name__} whose repr raises {type(e).__name__}>'


def sstr(v):
    try:
        return str(v)
    except Exception as e:
        return f'<str raises {type(e).__name__}>'


class Fail(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f'{prop}-{seed}')
        self.fails = []
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.checks = 0
        self.current = None
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 6)

    def case(self, *desc):
        self.evaluations += 1
        d = srepr(desc)[:600]
        self.current = d
        if d not in self.distinct:
            self.distinct.add(d)
            if len(self.samples) < 12 and (len(self.distinct) % 7 == 1 or len(self.samples) < 3):
                self.samples.append(d)

    def fail(self, label, **detail):
        same = sum(f['label'] == label for f in self.fails)
        if same >= 2:
            self.suppressed = getattr(self, 'suppressed', 0) + 1
            return
        self.fails.append({'label': label, 'case': self.current,
                           'detail': {k: srepr(v)[:1500] for k, v in detail.items()}})
        if len(self.fails) > 30:
            raise Fail('too many failures')

    def check(self, cond, label, **detail):
        self.checks += 1
        if not cond:
            self.fail(label, **detail)
        return bool(cond)

    def eq(self, got, want, label, **detail):
        self.checks += 1
        try:
            ok = bool(got == want)
        except Exception as e:
            ok = False
            detail['compare_error'] = e
        if not ok:
            self.fail(label, got=got, expected=want, **detail)
        return ok

    def raises(self, exc, fn, label, **detail):
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        except BaseException as e:
            self.fail(label, expected=exc, raised=e, **detail)
            return e
        self.fail(label, expected=exc, returned=r, **detail)
        return None

    def scenario(self, fn, *a, **k):
        """one scenario; an exception escaping from it is a failure of the property"""
        fresh()
        try:
            return fn(self, *a, **k)
        except Fail:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt,)) and not getattr(self, 'ki_ok', False):
                self.fail(f'{fn.__name__}: unexpected {type(e).__name__}', error=fmt_exc(e)[-1400:])
                return None
            self.fail(f'{fn.__name__}: unexpected {type(e).__name__}: {sstr(e)}', error=fmt_exc(e)[-1400:])
        finally:
            fresh()
            sys.stdout = STDOUT


def fresh():
    reset_track()
    for pm in list(context.active_managers.values()):
        try:
            for m in list(getattr(pm, '_loaded_modules', None) or []):
                sys.modules.pop(m, None)
        except Exception:
            pass
    context.reset()
    PLUGINS.clear_all()


class _Plugins:
    def __init__(self):
        self.names = []

    def add(self, obj):
        plugin_manager.plm.register(obj)
        self.names.append(obj)
        return obj

    def clear_all(self):
        for o in self.names:
            try:
                plugin_manager.plm.unregister(o)
            except Exception:
                pass
        self.names = []


PLUGINS = _Plugins()


def hooks(**fns):
    """register a plugin made of the given hook functions (called by keyword)"""
    ns = {}
    for name, fn in fns.items():
        ns[name] = staticmethod(hookimpl(fn))
    cls = type('Plugin', (), ns)
    return PLUGINS.add(cls())


_counter = itertools.count()


def uniq(base):
    return f'{base}{next(_counter)}'


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def tree(folder):
    """relative path -> bytes of every file below folder; directories map to None"""
    out = {}
    for d, dirs, files in os.walk(folder):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), folder)] = None
        for x in files:
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), folder)] = f.read()
    return out


def func_src(name, sig, args):
    return (f'def {name}({sig}):\n'
            f'    return vtrack.call({name!r}, {", ".join(f"{a}={a}" for a in args)})\n')


STD_FUNCS = '''
import vtrack

def f1(a, b=2, c='x'):
    return vtrack.call('f1', a=a, b=b, c=c)

def f2(a=1, b=None, d=4.5):
    return vtrack.call('f2', a=a, b=b, d=d)

def f3(a=None, *, k=5):
    return vtrack.call('f3', a=a, k=k)

def f4(z=0):
    return vtrack.call('f4', z=z)

def noargs():
    return vtrack.call('noargs')

class K1:
    def __init__(self, a=1, b=2):
        self.a = a
        self.b = b
    def __call__(self):
        return vtrack.call('K1', a=self.a, b=self.b)

class K2:
    def __init__(self, q='q', a=7):
        self.q = q
        self.a = a
    def __call__(self):
        return vtrack.call('K2', q=self.q, a=self.a)

class SK:
    def __init__(self, name=None, a=None, b=3):
        self.name = name
        self.a = a
        self.b = b
    def __call__(self):
        return vtrack.call('SK.call', name=self.name, a=self.a, b=self.b)
    def go(self):
        return vtrack.call('SK.go', name=self.name, a=self.a, b=self.b)

class SK2:
    def __init__(self, a=None, label=None):
        self.label = label
        self.a = a
    def go(self):
        return vtrack.call('SK2.go', label=self.label, a=self.a)
'''

STD_DEFAULTS = {
    'f1': {'a': None, 'b': 2, 'c': 'x'}, 'f2': {'a': 1, 'b': None, 'd': 4.5},
    'f3': {'a': None, 'k': 5}, 'f4': {'z': 0}, 'noargs': {},
    'K1': {'a': 1, 'b': 2}, 'K2': {'q': 'q', 'a': 7},
}


def nested_src(d):
    """source of a nested dict/list whose leaves are names"""
    if isinstance(d, dict):
        return '{' + ', '.join(f'{k!r}: {nested_src(v)}' for k, v in d.items()) + '}'
    if isinstance(d, list):
        return '[' + ', '.join(nested_src(v) for v in d) + ']'
    return str(d)


class Proj:
    """A project in scratch: modules, dict files, config files and its manager."""

    def __init__(self, pdict=None, name=None, mod_src=STD_FUNCS, classes=(), configs=None,
                 load=True, specific=None, folder=None, imports=None, make=True, **pm_kwargs):
        self.name = name or uniq('pm')
        self.folder = folder or os.path.join(SCRATCH, uniq('proj'))
        self.mod = uniq('umod')
        self.moddir = os.path.join(SCRATCH, 'mods')
        if self.moddir not in sys.path:
            sys.path.insert(0, self.moddir)
        write(os.path.join(self.moddir, self.mod + '.py'), mod_src)
        import importlib
        importlib.invalidate_caches()
        self.pdict = pdict or {}
        self.defaults = os.path.join(self.folder, pm_kwargs.get('default_config_folder_name', 'defaults'))
        names = sorted(set(_leaves(self.pdict)))
        imp = imports if imports is not None else (
            f'from {self.mod} import {", ".join(names)}\n' if names else '')
        write(os.path.join(self.folder, 'pipeline_dict.py'),
              imp + '\npipeline_dict = ' + nested_src(self.pdict) + '\n')
        self.scd = []
        self.specific = specific or []      # list of dicts: name, cls, dict, extra
        for sp in self.specific:
            m = importlib.import_module(self.mod)
            d = {'name': sp['name'], 'class': getattr(m, sp['cls'])}
            d.update(sp.get('extra', {}))
            self.scd.append(d)
            write(os.path.join(self.folder, sp['name'] + '_dict.py'),
                  '\nclass_dict = ' + repr(sp.get('dict', {})) + '\n')
        os.makedirs(self.defaults, exist_ok=True)
        for rel, text in (configs or {}).items():
            write(os.path.join(self.defaults, rel), text)
        self.pm_kwargs = pm_kwargs
        self.pm = None
        if make:
            self.pm = self.manager()
            if load:
                self.pm.load()

    def manager(self):
        return PipelineManager(self.folder, name=self.name,
                               specific_class_config_dicts=self.scd or None, **self.pm_kwargs)

    def cfg(self, rel):
        return os.path.join(self.defaults, *rel.split('.')) + '.py'

    def module(self):
        import importlib
        return importlib.import_module(self.mod)

    def conf(self, sp):
        """current stored config of an item, restricted to plain values"""
        try:
            c = self.pm.config.get(sp)
        except Exception as e:
            raise RuntimeError(f'no config for {sp} of {self.name} with {self.pdict}: {e!r}') from e
        return {k: v for k, v in dict(c).items() if k != 's'}


def _leaves(d):
    if isinstance(d, dict):
        for v in d.values():
            yield from _leaves(v)
    elif isinstance(d, list):
        for v in d:
            yield from _leaves(v)
    else:
        yield str(d)


def calls(name=None):
    return [c for c in vtrack.CALLS if name is None or c[0] == name]


def cleanup():
    os.chdir('/')
    shutil.rmtree(SCRATCH, ignore_errors=True)
