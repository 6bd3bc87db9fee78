from common import *
from cfgmodel import *

SRC = STD_FUNCS + '''
class KU:
    inits = 0
    def __init__(self, a=1, name='ku'):
        self.a = a
        self.name = name
        self.how = 'init'
    def _pyfileconf_update_(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)
        self.how = 'update'
    def __call__(self):
        return vtrack.call('KU', a=self.a, name=self.name)
'''
ITEMS = {'x.f1': ('f1', ['a', 'b', 'c']), 'x.f2': ('f2', ['a', 'b', 'd']), 'w.f1': ('f1', ['a', 'b', 'c']),
         'y.z.K1': ('K1', ['a', 'b']), 'y.z.f3': ('f3', ['a', 'k']), 'y.v.K1': ('K1', ['a', 'b']), 'y.v.KU': ('KU', ['a', 'name']),
         'kk.s.one': ('SK.go', ['a', 'b', 'name']), 'kk.s.two': ('SK.go', ['a', 'b', 'name']),
         'jj.s.one': ('SK2.go', ['a', 'label'])}


def proj(**k):
    return Proj({'x': ['f1', 'f2'], 'w': ['f1'], 'y': {'z': ['K1', 'f3'], 'v': ['K1', 'KU']}}, mod_src=SRC,
                specific=[{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two']}, 'extra': {'execute_attr': 'go'}},
                          {'name': 'jj', 'cls': 'SK2', 'dict': {'s': ['one']},
                           'extra': {'execute_attr': 'go', 'key_attr': 'label'}}], **k)


def attrs(obj, keys):
    import functools
    if isinstance(obj, functools.partial):
        return dict(obj.keywords)
    return {k: getattr(obj, k) for k in keys}


def histories(ctx):
    r = ctx.rng
    p = proj()
    for rnd in range(ctx.n(45, 400)):
        fresh_tracking()
        if rnd % 9 == 0:
            fresh()
            p = proj()
            filec = {i: {k: v for k, v in p.conf(i).items() if k in ITEMS[i][1]} for i in ITEMS}
            objs = {}
        else:
            for i in ITEMS:
                p.pm.reset(i)
        model = {i: dict(filec[i]) for i in ITEMS}
        rec = {i: {} for i in ITEMS}
        vals = [0, 1, 2, None, 'v', [1], 7, {'q': 1}]
        for step in range(r.randint(3, 12)):
            i = r.choice(list(ITEMS))
            name, keys = ITEMS[i]
            free = [k for k in keys if k not in ('name', 'label')]
            op = r.choice(['get', 'run', 'update', 'update', 'temp', 'reset', 'refresh', 'extra', 'attr'])
            ctx.case(rnd % 9, step, op, i)
            if op == 'get':
                o = p.pm.get(i)
                if i in objs:
                    ctx.check(o is objs[i], 'getting again returns the same object', item=i)
                objs[i] = o
            elif op in ('update', 'temp', 'extra'):
                ups = {k: r.choice(vals) for k in r.sample(free, r.randint(1, len(free)))}
                if op == 'extra':
                    ups['not_an_argument'] = 5
                full = dict(ups)
                p.pm.update(ups, section_path_str=i, pyfileconf_persist=op != 'temp')
                if any(k in model[i] and not veq(model[i][k], v) for k, v in full.items()):
                    model[i].update({k: v for k, v in full.items() if k in keys})
                    if op != 'temp':
                        rec[i].update({k: v for k, v in full.items() if k in keys})
            elif op == 'reset':
                p.pm.reset(i)
                model[i] = dict(filec[i]); rec[i] = {}
            elif op == 'refresh':
                p.pm.refresh(i)
                merged = {**filec[i], **rec[i]}
                if any(not veq(model[i][k], v) for k, v in merged.items()):
                    model[i].update(merged)
            elif op == 'attr':
                ctx.eq({k: v for k, v in p.conf(i).items() if k in keys}, model[i], 'the config holds its current values', item=i)
            probe = r.sample(list(ITEMS), 3) + [i]
            if op != 'run':
                probe = probe[-2:] if r.random() < .5 else []
            for j in probe:
                vtrack.CALLS.clear()
                nm, ks = ITEMS[j]
                res = p.pm.run(j)
                ctx.eq(len(vtrack.CALLS), 1, 'a run executes the item once', item=j)
                if vtrack.CALLS:
                    ctx.eq(vtrack.CALLS[0][0], nm, 'a run executes the item of that path', item=j)
                    dict_eq(ctx, vtrack.CALLS[0][1], model[j], 'a run uses exactly the current config', item=j, after=op, target=i)
                    ctx.eq(res[0], nm, 'the result is the item\'s own', item=j)
            for j, o in objs.items():
                dict_eq(ctx, attrs(o, ITEMS[j][1]), model[j], 'the loaded object holds the current config', item=j, after=op, target=i)
        for j in ITEMS:
            o = p.pm.get(j)
            if j in objs:
                ctx.check(o is objs[j], 'the loaded object keeps its identity', item=j)
            objs[j] = o
            dict_eq(ctx, attrs(o, ITEMS[j][1]), model[j], 'getting an item uses the current config', item=j)


def fresh_tracking():
    vtrack.CALLS.clear()


def file_changes(ctx):
    """refresh and reset follow edits of the config file"""
    r = ctx.rng
    for rnd in range(ctx.n(6, 40)):
        fresh()
        p = proj()
        for i in r.sample(list(ITEMS), 5):
            name, keys = ITEMS[i]
            k = [q for q in keys if q not in ('name', 'label')][0]
            o = p.pm.get(i) if r.random() < .7 else None
            path = p.cfg(i)
            text = '\n'.join(l for l in read(path).split('\n') if not l.startswith((k + ' ', k + ':')))
            write(path, text + f'\n{k} = 4321\n')
            how = r.choice(['refresh', 'reset'])
            ctx.case('file', how, i, o is not None)
            getattr(p.pm, how)(i)
            vtrack.CALLS.clear()
            p.pm.run(i)
            ctx.eq(vtrack.CALLS[0][1][k], 4321, f'{how} restores the value the file defines', item=i)
            if o is not None:
                ctx.check(p.pm.get(i) is o, 'the loaded object keeps its identity', item=i)
                ctx.eq(attrs(o, keys)[k], 4321, f'{how} reaches the loaded object', item=i)
            p.pm.update({k: 5}, section_path_str=i)
            p.pm.refresh(i)
            ctx.eq(p.conf(i)[k], 5, 'a persistent update is re-applied by a refresh', item=i)


def inherited(ctx):
    """with section configs, an update of one item does not reach its siblings"""
    p = Proj({'x': ['f1', 'f2'], 'w': ['f1']}, configs={'section.py': 'a = 100\n', 'x/section.py': 'b = [1]\n'})
    for loaded in (False, True):
        if loaded:
            for i in ('x.f1', 'x.f2', 'w.f1'):
                p.pm.get(i)
        ctx.case('inherited', loaded)
        vtrack.CALLS.clear()
        p.pm.run(['x.f1', 'x.f2', 'w.f1'])
        ctx.eq([c[1]['a'] for c in vtrack.CALLS], [100, 100, 100], 'runs use the inherited values')
        ctx.eq([c[1]['b'] for c in vtrack.CALLS], [[1], [1], 2], 'runs use the inherited values')
    p.pm.update({'c': 'new', 'a': 5}, section_path_str='x.f1')
    vtrack.CALLS.clear()
    p.pm.run(['x.f1', 'x.f2', 'w.f1'])
    ctx.eq([c[1]['a'] for c in vtrack.CALLS], [5, 100, 100], 'an update reaches only its target')
    ctx.eq([c[1].get('c') for c in vtrack.CALLS], ['new', None, 'x'], 'an update reaches only its target')


def section_updates(ctx):
    """an update of a section config counts for the items below it, loaded or not"""
    p = Proj({'x': ['f1', 'f2'], 'w': ['f1']}, configs={'x/section.py': 'b = 1\n'})
    p.pm.get('x.f1')
    p.pm.update({'b': 77}, section_path_str='x')
    vtrack.CALLS.clear()
    p.pm.run(['x.f1', 'x.f2', 'w.f1'])
    ctx.case('section update')
    ctx.eq([c[1]['b'] for c in vtrack.CALLS[1:]], [77, 2], 'an update of a section reaches the items below it which are not loaded')
    ctx.eq(vtrack.CALLS[0][1]['b'], 77, '[section-update-loaded] an update of a section does not reach items below it which were loaded')


def run(ctx):
    ctx.scenario(section_updates)
    ctx.scenario(histories)
    ctx.scenario(file_changes)
    ctx.scenario(inherited)
