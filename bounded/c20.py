import importlib
from common import *

"""Failure points of a load, retries and reloads.  The oracle is a restart: after the
files are fixed (or changed), a retry (or reload) must behave as a new session."""

MARK = itertools.count(1)


def module_src(uid, v, extra=''):
    return (f'import vtrack\n{extra}\nV = {v!r}\n'
            f'def fa_{uid}(a={v}, b=2):\n    return vtrack.call("fa", v=V, a=a, b=b)\n'
            f'class Ca_{uid}:\n    def __init__(self, q={v}):\n        self.q = q\n'
            f'    def __call__(self):\n        return vtrack.call("Ca", v=V, q=self.q)\n')


class Sess:
    """one project made of several modules"""

    def __init__(self, r):
        self.uid = next(MARK)
        u = self.uid
        self.root = os.path.join(SCRATCH, uniq('ld'))
        self.mods = os.path.join(self.root, 'm')
        self.folder = os.path.join(self.root, 'proj')
        sys.path.insert(0, self.mods)
        self.m1, self.m2, self.m3, self.pk = f'ma{u}', f'mb{u}', f'mc{u}', f'pk{u}'
        self.v = 1
        self.write_good(1)
        self.spec = [{'name': 'things', 'class': SpecC}]

    def write_good(self, v, pdict=None, things=None):
        u = self.uid
        write(f'{self.mods}/{self.m2}.py', f'W = {v}\n')
        write(f'{self.mods}/{self.m1}.py', module_src(u, v, f'from {self.m2} import W'))
        write(f'{self.mods}/{self.m3}.py', f'CONST = {v * 100}\n')
        write(f'{self.mods}/{self.pk}/__init__.py', f'P = {v}\n')
        write(f'{self.mods}/{self.pk}/sub.py', f'import vtrack\nS = {v}\ndef fs_{u}(z={v}):\n    return vtrack.call("fs", s=S, z=z)\n')
        write(f'{self.folder}/pipeline_dict.py',
              f'from {self.m1} import fa_{u}, Ca_{u}\nfrom {self.pk}.sub import fs_{u}\n\npipeline_dict = '
              + (pdict or "{'x': [fa_%d, Ca_%d], 'y': {'z': [fs_%d]}}" % (u, u, u)) + '\n')
        write(f'{self.folder}/things_dict.py', 'class_dict = ' + (things or "{'a': ['one', 'two']}") + '\n')
        write(f'{self.folder}/defaults/x/section.py', f'from {self.m3} import CONST\n\nb = CONST\n')
        importlib.invalidate_caches()
        self.v = v

    def manager(self):
        self.pm = PipelineManager(self.folder, name=f'pm{self.uid}', specific_class_config_dicts=self.spec)
        return self.pm

    def fresh_modules(self):
        for m in list(sys.modules):
            if m.split('.')[0] in (self.m1, self.m2, self.m3, self.pk):
                del sys.modules[m]


class SpecC:
    def __init__(self, name=None, a=None, b=3):
        self.name = name
        self.a = a
        self.b = b

    def __call__(self):
        return vtrack.call('SpecC', name=self.name, a=self.a, b=self.b)


def breakers(s, r):
    """(name, break function, expected exception type)"""
    u = s.uid
    def br_mod_runtime():
        write(f'{s.mods}/{s.m3}.py', 'import vtrack\nraise vtrack.MyErr("m3")\n')
    def br_section():
        write(f'{s.folder}/defaults/x/section.py', f'from {s.m3} import CONST\nimport {s.m1}\nimport vtrack\nraise vtrack.MyErr("sec")\n')
    def br_section_syntax():
        write(f'{s.folder}/defaults/x/section.py', f'b = = 2\n')
    def br_dict_syntax():
        write(f'{s.folder}/pipeline_dict.py', f'from {s.m1} import fa_{u}\npipeline_dict = {{\n')
    def br_dict_missing_module():
        write(f'{s.folder}/pipeline_dict.py', f'from nothere{u} import g\nfrom {s.m1} import fa_{u}\n\npipeline_dict = {{"x": [fa_{u}, g]}}\n')
    def br_things():
        write(f'{s.folder}/things_dict.py', 'class_dict = {"a": ["one", \n')
    def br_src_syntax():
        write(f'{s.mods}/{s.m1}.py', f'def fa_{u}(a=1:\n')
    def br_dup():
        write(f'{s.folder}/pipeline_dict.py', f'from {s.m1} import fa_{u}\n\npipeline_dict = {{"things": [fa_{u}]}}\n')
    def br_item_config():
        write(f'{s.folder}/defaults/x/fa_{u}.py', 'a = (\n')
    E = vtrack.MyErr
    return [('error in an imported module', br_mod_runtime, E), ('error in a section config', br_section, E),
            ('syntax of a section config', br_section_syntax, SyntaxError), ('syntax of the pipeline dict', br_dict_syntax, SyntaxError),
            ('module which does not exist', br_dict_missing_module, Exception), ('syntax of a class dict', br_things, SyntaxError),
            ('syntax of the source module', br_src_syntax, SyntaxError),
            ('name used twice', br_dup, ValueError), ('syntax of an item config', br_item_config, SyntaxError)]


def expected(s):
    v, u = s.v, s.uid
    return {f'x.fa_{u}': ('fa', {'v': v, 'a': v, 'b': v * 100}), f'x.Ca_{u}': ('Ca', {'v': v, 'q': v}),
            f'y.z.fs_{u}': ('fs', {'s': v, 'z': v}), 'things.a.one': ('SpecC', {'name': 'one', 'a': None, 'b': 3})}


def behaves(ctx, s, what, **kw):
    for sp, want in expected(s).items():
        vtrack.CALLS.clear()
        try:
            s.pm.run(sp)
            got = list(vtrack.CALLS)
        except Exception as e:
            got = repr(e)
        ctx.eq(got, [want], what, item=sp, **kw)
    vtrack.CALLS.clear()


def wipe_configs(s):
    """config files keep the defaults of the first load, so remove them for changed defaults"""
    u = s.uid
    for rel in (f'x/fa_{u}.py', f'x/Ca_{u}.py', f'y/z/fs_{u}.py'):
        p = f'{s.folder}/defaults/{rel}'
        if os.path.exists(p):
            os.remove(p)


def failing(ctx, i):
    r = ctx.rng
    s = Sess(r)
    pre = r.random() < .4
    if pre:
        importlib.import_module(s.m2)
    s.manager()
    first = set(sys.modules)
    loaded_before = r.random() < .4
    if loaded_before:
        s.pm.load()
        if r.random() < .5:
            behaves(ctx, s, 'items after a load')
    seq = [r.choice(breakers(s, r)) for _ in range(r.randint(1, 3))]
    for name, br, exc in seq:
        s.write_good(s.v)
        wipe_configs(s)
        br()
        importlib.invalidate_caches()
        via = 'reload' if loaded_before and r.random() < .6 else 'load'
        ctx.case('failing', via, name, pre, loaded_before)
        before = {k: v for k, v in sys.modules.items()}
        err = None
        try:
            getattr(s.pm, via)()
        except Exception as e:
            err = e
        after = dict(sys.modules)
        if err is None:
            # this way of breaking it is only noticed by the load if the modules are imported by it
            if via == 'load' and loaded_before:
                continue
            ctx.check(name in ('error in an imported module', 'syntax of a section config') and loaded_before,
                      'load of a broken project raises', broken=name, via=via)
            continue
        ctx.check(isinstance(err, exc), 'the original exception propagates', broken=name, raised=repr(err), expected_type=exc.__name__)
        new = [m for m in after if m not in before]
        ctx.eq(new, [], 'modules imported by a failed load are forgotten', broken=name, via=via)
        if via == 'load':
            gone = [m for m in before if m not in after or after[m] is not before[m]]
            ctx.eq(gone, [], 'modules imported before a failed load are kept', broken=name)
        else:
            gone = [m for m in before if (m not in after or after[m] is not before[m])
                    and m in first]
            ctx.eq(gone, [], 'unrelated modules are kept by a failed reload', broken=name)
            if pre:
                ctx.check(after.get(s.m2) is before.get(s.m2), 'module imported before the first load is kept')
    # fixed now, with other values: as in a new session
    if not pre and not loaded_before:
        s.write_good(r.randint(2, 9))
        wipe_configs(s)
        ctx.case('retry', [n for n, *_ in seq])
        s.pm.load()
        behaves(ctx, s, 'a load after the problem is fixed uses the fixed code', broken=[n for n, *_ in seq])
    elif not pre:
        s.write_good(r.randint(2, 9) + 10)
        wipe_configs(s)
        ctx.case('reload after failures', [n for n, *_ in seq])
        s.pm.reload()
        behaves(ctx, s, 'a reload after the problem is fixed uses the fixed code', broken=[n for n, *_ in seq])
    s.fresh_modules()


def reloading(ctx, i):
    r = ctx.rng
    s = Sess(r)
    u = s.uid
    s.manager()
    s.pm.load()
    for step in range(r.randint(1, 4)):
        acts = []
        if r.random() < .5:
            behaves(ctx, s, 'items before the reload'); acts.append('run')
        if r.random() < .6:
            s.pm.update({'a': 'upd', 'b': 'upd'}, f'x.fa_{u}'); acts.append('update')
        if r.random() < .4:
            s.pm.update({'a': 5}, 'things.a.one'); acts.append('update class')
        if r.random() < .3:
            s.pm.get(f'x.fa_{u}'); s.pm.get('things.a.one'); acts.append('get')
        if r.random() < .3:
            s.pm.load(); acts.append('load')
        if r.random() < .3:
            sys.modules.pop(s.m1, None); acts.append('module removed')
        if r.random() < .3:
            s.pm.update({'q': 9}); acts.append('update local')
        if r.random() < .8:
            s.write_good(s.v + r.randint(1, 5)); wipe_configs(s); acts.append('changed')
        ctx.case('reload', acts)
        s.pm.reload()
        behaves(ctx, s, 'reload reflects files and discards updates', acts=acts)
    # changed structure
    v = s.v + 1
    s.write_good(v, pdict="{'x': [fa_%d, Ca_%d], 'y': {'z': [fs_%d], 'w': [fa_%d]}}" % (u, u, u, u), things="{'a': ['one'], 'b': ['three']}")
    wipe_configs(s)
    ctx.case('reload with changed structure')
    s.pm.reload()
    behaves(ctx, s, 'reload with changed structure')
    vtrack.CALLS.clear()
    s.pm.run(f'y.w.fa_{u}'); s.pm.run('things.b.three')
    ctx.eq([c[0] for c in vtrack.CALLS], ['fa', 'SpecC'], 'items added to the dicts are there after a reload')
    gone = ctx.raises(Exception, lambda: s.pm.run('things.a.two'), 'items removed from the dicts are gone after a reload')
    # config file changed
    write(f'{s.folder}/defaults/x/fa_{u}.py', "a = 'from file'\nb = 7\n")
    write(f'{s.folder}/defaults/things/a/one.py', "a = 'thing file'\nb = 8\nname = 'one'\n")
    s.pm.reload()
    vtrack.CALLS.clear()
    s.pm.run(f'x.fa_{u}'); s.pm.run('things.a.one')
    ctx.eq(vtrack.CALLS, [('fa', {'v': s.v, 'a': 'from file', 'b': s.v * 100}), ('SpecC', {'name': 'one', 'a': 'thing file', 'b': 8})],
           'reload reads changed config files')
    s.fresh_modules()


def two_managers(ctx):
    """reloading one manager does not discard the updates of another"""
    a, b = Proj({'x': ['f2']}), Proj({'x': ['f2']})
    a.pm.update({'a': 50}, 'x.f2'); b.pm.update({'a': 60}, 'x.f2')
    ctx.case('two managers')
    a.pm.reload()
    ctx.eq((a.conf('x.f2')['a'], b.conf('x.f2')['a']), (1, 60), 'reload resets its own manager only')


def run(ctx):
    class MyErr(Exception):
        pass
    vtrack.MyErr = MyErr
    for i in range(ctx.n(40, 400)):
        ctx.scenario(failing, i)
    for i in range(ctx.n(25, 200)):
        ctx.scenario(reloading, i)
    ctx.scenario(two_managers)
