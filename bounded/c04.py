from common import *
from cfgmodel import *


def src(d):
    return ''.join(f'{k} = {v!r}\n' for k, v in d.items())


def inheritance(ctx):
    r = ctx.rng
    keys = ['a', 'b', 'c', 'd', 'k', 'q', 'zz']
    paths = ['x.f1', 'x.f2', 'y.z.f3', 'y.z.K1', 'y.w.v.f1', 'y.w.v.K2', 'kk.s.one', 'kk.s.two', 'u.f4', 'kk.t.r.three']
    secs = ['', 'x', 'y', 'y.z', 'y.w', 'y.w.v', 'kk', 'kk.s', 'u', 'kk.t', 'kk.t.r']
    n = [0]

    def rv():
        n[0] += 1
        return n[0]
    for rnd in range(ctx.n(24, 200)):
        fresh()
        conf = {}
        for s in secs:
            if r.random() < .6:
                conf[s] = {k: rv() for k in r.sample(keys, r.randint(0, 4))}
        files = {(s.replace('.', '/') + '/' if s else '') + 'section.py': src(d) for s, d in conf.items()}
        p = Proj({'x': ['f1', 'f2'], 'y': {'z': ['f3', 'K1'], 'w': {'v': ['f1', 'K2']}}, 'u': ['f4']},
                 specific=[{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two'], 't': {'r': ['three']}}}],
                 configs=files)
        local = {}
        for s, d in list(conf.items()):
            if not d:
                continue                # an empty section config is no config
        own = {}
        for i in paths:
            own[i] = dict(p.pm.config._get_func_or_section_configs(i)) if hasattr(p.pm.config, '_get_func_or_section_configs') else None
        import ast as _ast
        for i in paths:
            # the item's own file, read independently
            ns = {}
            for node in _ast.parse(read(p.cfg(i))).body:
                if isinstance(node, (_ast.Assign, _ast.AnnAssign)):
                    t = node.targets[0] if isinstance(node, _ast.Assign) else node.target
                    try:
                        ns[t.id] = _ast.literal_eval(node.value)
                    except ValueError:
                        pass
            own[i] = ns
        if r.random() < .6:
            local = {k: rv() for k in r.sample(keys, r.randint(1, 3))}
            # local config: replaces as a whole so that new keys count
            from pyfileconf.config.models.config import ActiveFunctionConfig
            if r.random() < .5:
                p.pm.config.set(None, ActiveFunctionConfig(dict(local)))
            else:
                for k, v in local.items():
                    if r.random() < .5:
                        p.pm.update({k: 'before'})
                    p.pm.update({k: v}) if r.random() < .5 else p.pm.update(**{k: v})

        def chain(i, is_item=True):
            parts = i.split('.')
            out = [conf.get('')]
            for k in range(1, len(parts)):
                out.append(conf.get('.'.join(parts[:k])))
            if not is_item:
                out.append(conf.get(i))
            return [c for c in out if c]
        order = list(paths)
        r.shuffle(order)
        for step, i in enumerate(order):
            want = dict(own[i])
            for c in chain(i):
                want.update(c)
            want.update(local)
            ctx.case('item', i, sorted((s, tuple(sorted(d.items()))) for s, d in conf.items()), local)
            if r.random() < .3:
                sname = r.choice([s for s in secs if s])
                c = p.pm.config.get(sname)
                if conf.get(sname):
                    ws = dict(conf[sname])
                    for cc in chain(sname, False):
                        ws.update(cc)
                    ws.update(conf[sname])
                    ws.update(local)
                    dict_eq(ctx, dict(c or {}), ws, 'a section path includes its own section config, innermost last', section=sname)
            got = p.pm.config.get(i)
            got = {k: v for k, v in dict(got).items() if k not in ('s', 'Selector')}
            dict_eq(ctx, got, want, 'item file, project, sections outermost first, local config', item=i, conf=conf, local=local)
            # stored section configs keep their values
        for s, d in conf.items():
            if not s or not d:
                continue
        # what a run receives
        args = {'f1': 'abc', 'f2': 'abd', 'f3': 'ak', 'K1': 'ab', 'K2': 'qa', 'f4': 'z', 'one': None, 'two': None, 'three': None}
        for i in order[:4]:
            want = dict(own[i])
            for c in chain(i):
                want.update(c)
            want.update(local)
            vtrack.CALLS.clear()
            p.pm.run(i)
            ctx.eq(len(vtrack.CALLS), 1, 'a run calls the item once')
            name, got = vtrack.CALLS[0]
            dict_eq(ctx, got, {k: want[k] for k in got}, 'a run receives the effective config', item=i)


def isolation(ctx):
    """computing one effective config leaves stored configs of other items and sections alone"""
    r = ctx.rng
    p = Proj({'x': ['f1', 'f2'], 'y': {'z': ['f3', 'f1']}},
             configs={'section.py': 'a = 10\n', 'x/section.py': 'a = 20\nb = 21\n', 'y/section.py': 'a = 30\n',
                      'y/z/section.py': 'c = 41\n'})
    stored = {}
    get_stored = lambda s: dict(_section(p.pm.config, s).config or {})
    for s in ('', 'x', 'y', 'y.z'):
        stored[s] = get_stored(s)
    for i in ('x.f1', 'x.f2', 'y.z.f3', 'y.z.f1') * 2:
        ctx.case('isolation', i)
        p.pm.config.get(i)
        for s in stored:
            dict_eq(ctx, get_stored(s), stored[s], 'section configs are unchanged by computing an item config', section=s)
        dict_eq(ctx, dict(p.pm.config.local_config), {}, 'local config is unchanged by computing an item config')
    # a later change of a section config reaches items computed afterwards, and only those below it
    p.pm.config.update({'b': 99}, 'x')
    ctx.eq(p.pm.config.get('x.f1')['b'], 99, 'changed section config reaches its items')
    ctx.eq(p.pm.config.get('y.z.f1')['b'], 2, 'changed section config reaches only its items')
    p.pm.config.update({'a': 55}, 'y')
    ctx.eq(p.pm.config.get('y.z.f1')['a'], 55, 'changed section config reaches nested items')
    ctx.eq(p.pm.config.get('x.f1')['a'], 20, 'changed section config reaches only its items')


def _section(config, path):
    o = config.section
    for part in [q for q in path.split('.') if q]:
        o = o.config_map[part]
    return o


def run(ctx):
    ctx.scenario(inheritance)
    ctx.scenario(isolation)
