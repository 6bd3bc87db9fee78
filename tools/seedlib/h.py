"""helper of the demonstrations: a project in a scratch directory (removed at exit)"""
import atexit, importlib, logging, os, shutil, sys, tempfile, types, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
SCRATCH = tempfile.mkdtemp(prefix='pfc_demo_')
_start = os.getcwd()


def _clean():
    os.chdir('/')
    shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_clean)
os.chdir(SCRATCH)
import pyfileconf
from pyfileconf import PipelineManager, Selector, context, options
for _h in list(logging.getLogger('pyfileconf').handlers):
    logging.getLogger('pyfileconf').removeHandler(_h)
logging.getLogger('pyfileconf').addHandler(logging.NullHandler())
CALLS = []
_vt = types.ModuleType('vt')
_vt.CALLS = CALLS


def _call(name, **kw):
    CALLS.append((name, kw))
    return name


_vt.call = _call
sys.modules['vt'] = _vt
SRC = '''
import vt
def f(a, b=2, c='x'):
    return vt.call('f', a=a, b=b, c=c)
def g(a=1, d=4):
    return vt.call('g', a=a, d=d)
def h(z=0):
    return vt.call('h', z=z)
def boom(z=0):
    raise ValueError('boom')
class K:
    def __init__(self, a=1, b=2):
        self.a = a
        self.b = b
    def __call__(self):
        return vt.call('K', a=self.a, b=self.b)
class S:
    def __init__(self, name=None, a=None):
        self.name = name
        self.a = a
    def __call__(self):
        return vt.call('S', name=self.name, a=self.a)
class L:
    def __init__(self, a=None, label=None):
        self.label = label
        self.a = a
    def go(self):
        return vt.call('L', label=self.label, a=self.a)
'''
sys.path.insert(0, os.path.join(SCRATCH, 'mods'))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def lit(d):
    if isinstance(d, dict):
        return '{' + ', '.join(f'{k!r}: {lit(v)}' for k, v in d.items()) + '}'
    if isinstance(d, list):
        return '[' + ', '.join(lit(v) for v in d) + ']'
    return str(d)


def leaves(d):
    for v in (d.values() if isinstance(d, dict) else d):
        if isinstance(v, (dict, list)):
            yield from leaves(v)
        else:
            yield v


def project(name, pdict, src=SRC, configs=None, specific=(), load=True, folder=None, **kw):
    """specific: (name, class name, dict, extra)"""
    mod = 'mod_' + name
    write(os.path.join(SCRATCH, 'mods', mod + '.py'), src)
    importlib.invalidate_caches()
    folder = folder or os.path.join(SCRATCH, name)
    names = sorted(set(leaves(pdict)))
    write(os.path.join(folder, 'pipeline_dict.py'),
          (f'from {mod} import {", ".join(names)}\n' if names else '') + '\npipeline_dict = ' + lit(pdict) + '\n')
    scd = []
    for n, cls, d, extra in specific:
        scd.append({'name': n, 'class': getattr(importlib.import_module(mod), cls), **extra})
        write(os.path.join(folder, n + '_dict.py'), 'class_dict = ' + repr(d) + '\n')
    for rel, text in (configs or {}).items():
        write(os.path.join(folder, 'defaults', rel), text)
    os.makedirs(os.path.join(folder, 'defaults'), exist_ok=True)
    pm = PipelineManager(folder, name=name, specific_class_config_dicts=scd or None, **kw)
    if load:
        pm.load()
    return pm


def plugin(**fns):
    from pyfileconf.plugin import manager
    from pyfileconf.plugin.impl import hookimpl
    cls = type('P', (), {k: staticmethod(hookimpl(v)) for k, v in fns.items()})
    p = cls()
    manager.plm.register(p)
    return p
