from common import *
from cfgmodel import *

PD = {'x': ['f1', 'f2'], 'y': {'z': ['f3', 'K1'], 'w': {'v': ['f1', 'K2', 'f4'], 'u': ['noargs']}}, 'dup': ['f4', 'f4_b', 'K1'],
      'one': ['f2'], 'em': [], 'emn': {'e1': [], 'e2': ['f4'], 'e3': {'e4': []}}}
SRC = STD_FUNCS + '''
def f4_b(z=1):
    return vtrack.call('f4_b', z=z)
def nothing():
    vtrack.call('nothing')
def lister(a=1):
    vtrack.call('lister', a=a)
    return [1, 2]
'''
PD['odd'] = ['nothing', 'lister']
SPEC = [{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two'], 't': {'r': ['three'], 'q': ['one']}}, 'extra': {'execute_attr': 'go'}},
        {'name': 'jj', 'cls': 'SK2', 'dict': {'s': ['one', 'three']}, 'extra': {'execute_attr': 'go', 'key_attr': 'label'}},
        {'name': 'cc', 'cls': 'K2', 'dict': {'s': ['aa', 'bb']}, 'extra': {'key_attr': 'q'}}]


def struct(o, sp=None):
    """list structure of item paths below a section of PD / SPEC"""
    def rec(d, path):
        if isinstance(d, dict):
            return [rec(v, path + [k]) for k, v in d.items()]
        if isinstance(d, list):
            return ['.'.join(path + [v]) for v in d]
    return rec(o, sp)


def shape_of(path):
    parts = path.split('.')
    for s in SPEC:
        if s['name'] == parts[0]:
            d, rest = s['dict'], parts[1:]
            break
    else:
        d, rest = PD, parts
    for q in rest:
        if isinstance(d, list):
            return path            # an item
        d = d[q]
    if isinstance(d, str):
        return path
    return struct(d, parts)


def flat(s):
    if isinstance(s, str):
        return [s]
    return [y for x in s for y in flat(x)]


def callname(path):
    parts = path.split('.')
    return {'kk': 'SK.go', 'jj': 'SK2.go', 'cc': 'K2'}.get(parts[0], parts[-1])


def check_result(ctx, got, shape, order, seq, **d):
    """got mirrors shape; each leaf is the result of the next call in order"""
    if isinstance(shape, str):
        k = seq[0]
        seq[0] += 1
        want = order[k]
        ctx.eq(got, want, 'each path has the result of its own call', leaf=shape, **d)
        return
    if not ctx.check(isinstance(got, list) and len(got) == len(shape), 'a section gives the list of its members\' results', result=got, shape=shape, **d):
        return
    for g, s in zip(got, shape):
        check_result(ctx, g, s, order, seq, **d)


ALL = ['x.f1', 'x.f2', 'y.z.f3', 'y.z.K1', 'y.w.v.f1', 'y.w.v.K2', 'y.w.u.noargs', 'dup.f4', 'dup.K1', 'kk.s.one', 'kk.s.two',
       'kk.t.r.three', 'kk.t.q.one', 'jj.s.one', 'jj.s.three', 'cc.s.aa', 'cc.s.bb', 'odd.nothing', 'odd.lister', 'one.f2',
       'x', 'y', 'y.z', 'y.w', 'y.w.v', 'y.w.u', 'dup', 'one', 'em', 'odd', 'emn', 'emn.e1', 'emn.e3', 'kk.s', 'kk.t', 'kk.t.r', 'kk', 'jj.s', 'cc.s', 'cc']


def expected_calls(shape):
    return [callname(q) for q in flat(shape)]


def do_run(ctx, p, arg, **d):
    vtrack.CALLS.clear()
    got_results = []
    for nm in ('nothing', 'lister'):
        pass
    got = p.pm.run(arg)
    log = list(vtrack.CALLS)
    order = []
    for i, (nm, kw) in enumerate(log):
        if nm == 'nothing':
            order.append(None)
        elif nm == 'lister':
            order.append([1, 2])
        else:
            order.append((nm, i + 1, tuple(sorted((k, repr(v)) for k, v in kw.items()))))
    return got, log, order


def runs(ctx):
    p = Proj(PD, mod_src=SRC, specific=SPEC)
    r = ctx.rng
    for path in ALL:
        ctx.case('single', path)
        shape = shape_of(path)
        got, log, order = do_run(ctx, p, path)
        ctx.eq([c[0] for c in log], expected_calls(shape), 'a run executes every member once in definition order', path=path)
        if len(order) == len(flat(shape)):
            check_result(ctx, got, shape, order, [0], path=path)
        for (nm, kw), q in zip(log, flat(shape)):
            key = {'kk': 'name', 'jj': 'label', 'cc': 'q'}.get(q.split('.')[0])
            if key:
                ctx.eq(kw[key], q.split('.')[-1], 'a specific class object runs under its own key', path=path)
    for k in range(ctx.n(60, 500)):
        paths = [r.choice(ALL) for _ in range(r.randint(2, 5))]
        if k % 6 == 0:
            paths = [paths[0]] * len(paths)
        if r.random() < .2:
            p.pm.update({'a': r.randint(0, 9)}, section_path_str='x.f1')
        ctx.case('list', paths)
        given = list(paths)
        got, log, order = do_run(ctx, p, given)
        shape = [shape_of(q) for q in paths]
        ctx.eq([c[0] for c in log], expected_calls(shape), 'every occurrence runs once, in order', paths=paths)
        if len(order) == len(flat(shape)):
            check_result(ctx, got, shape, order, [0], paths=paths)
        ctx.eq(given, paths, 'the list passed in is unchanged')
    # views and mixtures
    s = Selector()
    sel = getattr(s, p.name)
    views = {'x.f1': sel.x.f1, 'kk.s.two': sel.kk.s.two, 'y.z.K1': sel.y.z.K1}
    for q, v in views.items():
        ctx.case('view', q)
        got, log, order = do_run(ctx, p, v)
        ctx.eq([c[0] for c in log], [callname(q)], 'running a view runs its item')
        check_result(ctx, got, q, order, [0])
    got, log, order = do_run(ctx, p, [views['y.z.K1'], 'dup', views['x.f1'], 'kk.s'])
    shape = ['y.z.K1', shape_of('dup'), 'x.f1', shape_of('kk.s')]
    ctx.eq([c[0] for c in log], expected_calls(shape), 'views and strings mix in order')
    check_result(ctx, got, shape, order, [0])


def combine(ctx):
    from pyfileconf.logic.combine import (combine_items_into_list_whether_they_are_lists_or_not as comb,
                                          combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item as comb1)
    opts = [None, 1, 'a', [], [1], ['a', 'b'], (), (1,), (1, 'a'), [None], [[1]], [[1, 2], [3]], 0, '', False, {}, {'a': 1}]

    def tol(x):
        return [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]
    for a, b in itertools.product(opts, opts):
        ctx.case('combine', a, b)
        ca, cb = copy.deepcopy(a), copy.deepcopy(b)
        want = tol(a) + tol(b)
        ctx.eq(comb(a, b), want, 'combining keeps every item in order', a=a, b=b)
        w1 = want[0] if len(want) == 1 else want
        ctx.eq(comb1(a, b), w1, 'combining extracts a sole item', a=a, b=b)
        ctx.eq((a, b), (ca, cb), 'combining leaves its arguments alone')
        r = comb(a, b)
        ctx.check(r is not a and r is not b, 'combining gives a new list')


def extensions(ctx):
    r = ctx.rng
    for rnd in range(ctx.n(30, 200)):
        fresh()
        p = Proj(PD, mod_src=SRC, specific=SPEC)
        nplug = r.choice([0, 1, 1, 2])
        pres, posts = [], []
        for k in range(nplug):
            pres.append(r.choice([None, 'x.f2', 'kk.s.one', 'y.z']))
            posts.append(r.choice([None, ('extra', k), ['extra', k]]))
        fired = []
        for k in range(nplug):
            def pre(section_path_str_or_list, pm, k=k):
                fired.append(('pre', k))
                return pres[k]

            def post(results, runner, k=k):
                fired.append(('post', k, copy.copy(results)))
                return posts[k]
            hooks(pyfileconf_pre_run=_two(pre), pyfileconf_post_run=_two2(post))
        multi = r.random() < .6
        arg = [r.choice(ALL) for _ in range(r.randint(2, 3))] if multi else r.choice(ALL)
        ctx.case('ext', arg, pres, posts)
        added = [x for x in reversed(pres) if x is not None]      # plugins are called last registered first
        req = (arg if multi else [arg]) + added
        got, log, order = do_run(ctx, p, list(arg) if multi else arg)
        shape = [shape_of(q) for q in req]
        ctx.eq([c[0] for c in log], expected_calls(shape), 'added items run after the requested ones', req=req)
        extra = [x for x in reversed(posts) if x is not None]
        single = len(req) == 1
        base = got
        if extra:
            if not ctx.check(isinstance(got, list) and len(got) >= len(extra), 'contributed results are appended'):
                continue
            ctx.eq(got[-len(extra):], extra, 'contributed results come last, in order')
            base = got[:-len(extra)]
            if single:
                if not ctx.eq(len(base), 1, 'a single result is followed by the contributed ones'):
                    continue
                base = base[0]
        if len(order) == len(flat(shape)):
            check_result(ctx, base, shape[0] if single else shape, order, [0], req=req)


def _two(fn):
    def f(section_path_str_or_list, pm):
        return fn(section_path_str_or_list, pm)
    return f


def _two2(fn):
    def f(results, runner):
        return fn(results, runner)
    return f


def errors(ctx):
    p = Proj(PD, mod_src=SRC, specific=SPEC)
    for bad in ('x.nope', 'nope', 'x.f1.q', 'kk.s.nope'):
        ctx.case('bad', bad)
        ctx.raises(Exception, lambda: p.pm.run(bad), 'a path that is not registered raises', path=bad)
        ctx.eq(vtrack.CALLS, [], 'nothing runs for a path that is not registered', path=bad)
    for bad in (5, None, ('x.f1',), {'x.f1': 1}):
        ctx.raises(Exception, lambda: p.pm.run(bad), 'an argument that is no path raises')
    ctx.eq(vtrack.CALLS, [], 'nothing runs for an argument that is no path')


def run(ctx):
    ctx.scenario(combine)
    ctx.scenario(runs)
    ctx.scenario(extensions)
    ctx.scenario(errors)
