import functools
from common import *

SRC = STD_FUNCS + '''
class P1:
    def __init__(self, a=1, b=2):
        vtrack.call('P1.init', a=a, b=b)
        self.a = a
        self.b = b
    def __call__(self):
        return vtrack.call('P1', a=self.a, b=self.b)
'''
ARGS = {'f1': ['a', 'b', 'c'], 'f2': ['a', 'b', 'd'], 'f3': ['a', 'k'], 'f4': ['z'], 'noargs': [],
        'K1': ['a', 'b'], 'K2': ['q', 'a']}
CLASSES = ('K1', 'K2')
KNOWN = '[section-plain-class] getting a section gives a partial for a plain class, not the object its own path gives'


def rand_tree(r, leaves, depth=0):
    if depth == 3 or (depth and r.random() < .45):
        return r.sample(leaves, r.randint(0 if depth > 1 else 1, min(4, len(leaves))))
    names = r.sample(['x', 'y', 'zed', 'w1', 'u_', 'xs'], r.randint(1, 3))
    return {n: rand_tree(r, leaves, depth + 1) for n in names}


def paths(t, pre=''):
    if isinstance(t, list):
        return [f'{pre}.{n}' if pre else n for n in t]
    out = []
    for k, v in t.items():
        out += paths(v, f'{pre}.{k}' if pre else k)
    return out


def sections(t, pre=''):
    out = [(pre, t)] if pre else []
    if isinstance(t, dict):
        for k, v in t.items():
            out += sections(v, f'{pre}.{k}' if pre else k)
    return out


def attrs(o, keys):
    if isinstance(o, functools.partial):
        return {k: o.keywords[k] for k in keys if k in o.keywords}
    return {k: getattr(o, k) for k in keys}


def trees(ctx):
    r = ctx.rng
    for rnd in range(ctx.n(14, 90)):
        fresh()
        nocls = rnd % 3 != 2
        leaves = [n for n in ARGS if not (nocls and n in CLASSES)]
        t = {n: rand_tree(r, leaves, 1) for n in r.sample(['x', 'y', 'zed', 'w1'], r.randint(1, 3))}
        kt = {n: rand_tree(r, ['one', 'two', 'three', 'f1'], 1) for n in r.sample(['s', 'x', 't'], r.randint(1, 2))}
        jt = {n: rand_tree(r, ['one', 'uno', 'f2'], 1) for n in r.sample(['s', 'x', 't'], 1)}
        p = Proj(t, mod_src=SRC, specific=[
            {'name': 'kk', 'cls': 'SK', 'dict': kt, 'extra': {'execute_attr': 'go'}},
            {'name': 'jj', 'cls': 'SK2', 'dict': jt, 'extra': {'execute_attr': 'go', 'key_attr': 'label'}}])
        mod = sys.modules[p.mod]
        pm = p.pm
        full = dict(t); full['kk'] = kt; full['jj'] = jt
        items = paths(full)
        if not items:
            continue

        def kind(i):
            return i.split('.')[0] if i.split('.')[0] in ('kk', 'jj') else i.split('.')[-1]

        def keys(i):
            return {'kk': ['name', 'a', 'b'], 'jj': ['label', 'a']}.get(kind(i)) or ARGS[kind(i)]
        model, objs = {}, {}

        def current(i):
            return {k: v for k, v in p.conf(i).items() if k in keys(i)}

        def member(i, o, by):
            n = kind(i)
            if n in CLASSES and isinstance(o, functools.partial):
                ctx.check(o.func is getattr(mod, n), 'a member is made from the item at its path', item=i)
                ctx.check(by == 'section' or objs.get(i) is o, 'getting a class by its path gives a configured object', item=i)
                ctx.check(False, KNOWN, item=i)
            elif n in CLASSES or n in ('kk', 'jj'):
                cls = {'kk': 'SK', 'jj': 'SK2'}.get(n, n)
                ctx.check(type(o) is getattr(mod, cls), 'a class is given as an object of it', item=i, got=o)
            else:
                ctx.check(isinstance(o, functools.partial) and o.func is getattr(mod, n),
                          'a function is given as the partial of it', item=i, got=o)
                ctx.check(not o.args, 'only the config is bound', item=i)
            ctx.eq(attrs(o, keys(i)), current(i), 'a member holds the current config of its item', item=i, by=by)
            if n in ('kk', 'jj'):
                ctx.eq(getattr(o, 'name' if n == 'kk' else 'label'), i.split('.')[-1],
                       'a specific class member is the object of that name', item=i)
            if i in objs:
                ctx.check(objs[i] is o, 'getting again gives the same object', item=i, by=by)
            objs[i] = o

        def section(pre, st, got):
            if isinstance(st, list):
                if not ctx.check(type(got) is list, 'a section of items is given as a list', section=pre, got=got):
                    return
                if ctx.eq(len(got), len(st), 'a list has every member of the section', section=pre):
                    for n, o in zip(st, got):
                        member(f'{pre}.{n}', o, 'section')
            else:
                if not ctx.check(type(got) is dict, 'a section of sections is given as a dictionary', section=pre, got=got):
                    return
                if ctx.eq(list(got), list(st), 'the keys are the names of the subsections in order', section=pre):
                    for n in st:
                        section(f'{pre}.{n}', st[n], got[n])
        ops = [('item', i) for i in items] + [('section', s) for s in sections(full)]
        for s in r.choices(ops, k=ctx.n(30, 60)):
            act = r.random()
            if act < .2:
                i = r.choice(items)
                ks = [k for k in keys(i) if k not in ('name', 'label')]
                if ks:
                    pm.update({r.choice(ks): r.choice([5, 'n', None, [1]])}, section_path_str=i)
            elif act < .25:
                pm.reset(r.choice(items))
            vtrack.CALLS.clear()
            if s[0] == 'item':
                ctx.case(repr(full)[:120], 'item', s[1])
                member(s[1], pm.get(s[1]), 'path')
            else:
                pre, st = s[1]
                ctx.case(repr(full)[:120], 'section', pre)
                section(pre, st, pm.get(pre))
            ctx.eq(vtrack.CALLS, [], 'getting executes nothing')
        for i in items:
            o = pm.get(i)
            member(i, o, 'path')


def aliases(ctx):
    """the same function in several sections is several items"""
    p = Proj({'x': ['f1', 'f2'], 'y': {'x': ['f1'], 'z': ['f1', 'f2']}})
    p.pm.update({'a': 11}, section_path_str='x.f1')
    p.pm.update({'a': 22}, section_path_str='y.x.f1')
    a, b = p.pm.get('x'), p.pm.get('y')
    ctx.case('same function')
    ctx.eq([a[0].keywords['a'], b['x'][0].keywords['a'], b['z'][0].keywords['a']], [11, 22, None],
           'members hold the config of their own path')
    ctx.check(len({id(o) for o in (a[0], b['x'][0], b['z'][0])}) == 3, 'items of several sections are several objects')
    p.pm.update({'a': 33}, section_path_str='y.x.f1')
    ctx.eq([a[0].keywords['a'], b['x'][0].keywords['a'], b['z'][0].keywords['a']], [11, 33, None],
           'an update after getting a section reaches the member only')
    ctx.check(p.pm.get('y')['x'][0] is b['x'][0], 'the same object again')
    for how, got in (('selector', p.pm.get(getattr(Selector(), p.name).y.x.f1)), ('attribute', p.pm.runner.y.x.f1)):
        ctx.case(how)
        ctx.check(got is b['x'][0], 'an item got in another way is the same object', how=how)
    ctx.eq(list(p.pm.get(getattr(Selector(), p.name).y)), ['x', 'z'], 'a section by selector')


def mixed_order(ctx):
    """definition order is kept for reversed and rotated orders and duplicates of names in other sections"""
    fs = ['f1', 'f2', 'f3', 'f4', 'noargs']
    for order in itertools.permutations(fs) if ctx.thorough else ctx.rng.sample(list(itertools.permutations(fs)), 8):
        fresh()
        p = Proj({'x': list(order), 'b': {'z': [order[0]], 'a': [order[1]], 'm': list(order[2:])}})
        ctx.case('order', order)
        ctx.eq([o.func.__name__ for o in p.pm.get('x')], list(order), 'members are in definition order')
        ctx.eq({k: [o.func.__name__ for o in v] for k, v in p.pm.get('b').items()},
               {'z': [order[0]], 'a': [order[1]], 'm': list(order[2:])}, 'members are in definition order')
        ctx.eq(list(p.pm.get('b')), ['z', 'a', 'm'], 'subsections are in definition order')
        for o in p.pm.get('x'):
            ctx.check(o is p.pm.get('x.' + o.func.__name__), 'members are what their own path gives')


def construct(ctx):
    """getting a class constructs it once with its config and does not call it"""
    p = Proj({'x': {'q': ['P1']}}, mod_src=SRC)
    p.pm.update({'b': 9}, section_path_str='x.q.P1')
    ctx.case('construct')
    o = p.pm.get('x.q.P1')
    p.pm.get('x.q.P1')
    ctx.eq(vtrack.CALLS, [('P1.init', {'a': 1, 'b': 9})], 'getting a class constructs it once')
    ctx.eq(p.pm.get('x')['q'][0] is o, True, 'a class got by its path is the member of its section')


def run(ctx):
    ctx.scenario(trees)
    ctx.scenario(aliases)
    ctx.scenario(mixed_order)
    ctx.scenario(construct)
