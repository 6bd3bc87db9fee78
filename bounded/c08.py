from common import *
from cfgmodel import *

PD = {'x': ['f1', 'f2'], 'y': {'z': ['f3', 'K1'], 'w': ['f4']}}
PD2 = {'q': ['f2', 'f4'], 'x': ['f1']}
SPEC = [{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two']}, 'extra': {'execute_attr': 'go'}}]
ARGS = {'x.f1': ['a', 'b', 'c'], 'x.f2': ['a', 'b', 'd'], 'y.z.f3': ['a', 'k'], 'y.z.K1': ['a', 'b'], 'y.w.f4': ['z'],
        'kk.s.one': ['a', 'b'], 'kk.s.two': ['a', 'b'], 'q.f2': ['a', 'b', 'd'], 'q.f4': ['z']}
RUNS = {'x': ['x.f1', 'x.f2'], 'y': ['y.z.f3', 'y.z.K1', 'y.w.f4'], 'kk.s': ['kk.s.one', 'kk.s.two'], 'q': ['q.f2', 'q.f4']}
CALL = {'kk.s.one': 'SK.go', 'kk.s.two': 'SK.go'}


def product(groups):
    """cartesian product, last varying fastest, written out"""
    out = [()]
    for g in groups:
        out = [t + (x,) for t in out for x in g]
    return out


def oracle_cases(updates):
    order, groups = [], {}
    for u in updates:
        sp = u['section_path_str']
        if sp not in groups:
            groups[sp] = []
            order.append(sp)
        groups[sp].append(u)
    return product([groups[s] for s in order])


def products(ctx):
    from pyfileconf.iterate import get_config_product
    r = ctx.rng
    vals = [1, 2, None, 'x', [1], {'k': [1]}, 'section_path_str', (), 3.5]
    for k in range(ctx.n(150, 1500)):
        ups = []
        for _ in range(r.randint(0, 6)):
            u = {'section_path_str': r.choice(['b.x', 'a.y', 'a', 'c.d.e'])}
            for a in r.sample(['a', 'b', 'c'], r.randint(0, 3)):
                u[a] = copy.deepcopy(r.choice(vals))
            ups.append(u)
        before = copy.deepcopy(ups)
        ctx.case('product', ups)
        got = get_config_product(ups)
        ctx.eq(got, oracle_cases(ups), 'cases are the product grouped by path, in order', updates=ups)
        ctx.check(all(isinstance(t, tuple) for t in got), 'cases are tuples')
        for t in got:
            for d in t:
                for kk in list(d):
                    if isinstance(d[kk], list):
                        d[kk].append('changed')
        ctx.eq(ups, before, 'updates passed in are not shared with the cases')


def runs(ctx):
    r = ctx.rng
    for k in range(ctx.n(40, 300)):
        fresh()
        p = Proj(PD, specific=SPEC)
        items = [q for q in ARGS if not q.startswith('q.')]
        # state before the run
        for q in r.sample(items, r.randint(0, 3)):
            p.pm.update({a: r.choice([11, 12, None]) for a in r.sample(ARGS[q], 1)}, section_path_str=q)
        for q in r.sample(items, r.randint(0, 3)):
            p.pm.get(q)
        if r.random() < .4:
            p.pm.run(r.choice(items))
        before = {q: {a: p.conf(q)[a] for a in ARGS[q]} for q in items}
        varied = r.sample(items, r.randint(1, 3))
        ups = []
        for _ in range(r.randint(1, 5)):
            q = r.choice(varied)
            u = {'section_path_str': q}
            for a in r.sample(ARGS[q], r.randint(1, len(ARGS[q]))):
                u[a] = copy.deepcopy(r.choice([1, 2, 3, 'v', None, [1], {'a': 1}, 4.5, BadEq(2)] if r.random() < .2 else [1, 2, 3, 'v', [1]]))
            ups.append(u)
        contrib, modified = [], False
        if r.random() < .35:
            q = r.choice(items)
            contrib = [({'section_path_str': q, ARGS[q][0]: 77},), ({'section_path_str': q, ARGS[q][0]: 78},)][:r.randint(1, 2)]

            def gc(config_updates, runner):
                return list(contrib)
            hooks(pyfileconf_iter_get_cases=gc)
        if r.random() < .5:
            target = r.choice(items + ['x', 'y', 'kk.s'])
        else:
            target = [r.choice(items + ['x', 'kk.s']) for _ in range(r.randint(2, 3))]
        ups0 = [dict(u) for u in ups]
        mode = r.choice(['run', 'gen', 'nocollect'])
        ctx.case('run', mode, target, ups, contrib, before)
        vtrack.CALLS.clear()
        if mode == 'run':
            pairs = p.pm.run_product(target, ups)
        elif mode == 'gen':
            it = p.pm.run_product_gen(target, ups)
            ctx.check(iter(it) is iter(it), 'the generator form is an iterator')
            pairs = list(it)
        else:
            ret = p.pm.run_product(target, ups, collect_results=False)
            ctx.eq(list(ret), [], 'results are not collected when asked so')
            pairs = None
        ctx.check(len(ups) == len(ups0) and all(set(u) == set(v) and all(u[a] is v[a] for a in u) for u, v in zip(ups, ups0)),
                  'the updates passed in are unchanged')
        log = list(vtrack.CALLS)
        want = oracle_cases(ups)
        seq = [list(want)]
        tl = target if isinstance(target, list) else [target]
        runitems = [y for t in tl for y in RUNS.get(t, [t])]
        n = len(runitems)
        ncases = len(want) + len(contrib)
        if not ctx.eq(len(log), ncases * n, 'every case runs every item exactly once', calls=[c[0] for c in log]):
            continue
        # which order do the contributed cases come in: before or after the product, as one block
        orders = [want + contrib, contrib + want] if contrib else [want]
        last = orders[-1]
        for order in orders:
            errs = []
            for ci, case in enumerate(order):
                eff = {q: dict(v) for q, v in before.items()}
                for conf in case:
                    eff[conf['section_path_str']].update({a: b for a, b in conf.items() if a != 'section_path_str'})
                for j, q in enumerate(runitems):
                    nm, kw = log[ci * n + j]
                    if nm != CALL.get(q, q.split('.')[-1]):
                        errs.append(('wrong item', q, nm))
                        continue
                    for a in ARGS[q]:
                        if not same(kw[a], eff[q][a]):
                            errs.append((ci, q, a, 'got', kw[a], 'expected', eff[q][a]))
            if pairs is not None and not errs and len(pairs) == ncases and order is not last and not all(
                    len(pc) == len(o) and all(set(x) == set(y) and all(same(x[a], y[a]) for a in x) for x, y in zip(pc, o))
                    for (pc, _), o in zip(pairs, order)):
                continue
            if not errs:
                break
        ctx.check(not errs, 'each case runs with the original values overlaid with its own', errors=errs[:5], mode=mode)
        if pairs is not None:
            if not ctx.eq(len(pairs), ncases, 'one pair per case'):
                continue
            for ci, (pc, res) in enumerate(pairs):
                ctx.check(len(pc) == len(order[ci]) and all(
                    set(x) == set(y) and all(same(x[a], y[a]) for a in x) for x, y in zip(pc, order[ci])),
                    'results are paired with their own case', got=pc, expected=order[ci])
                flatres = flat(res)
                ctx.eq([x[1] for x in flatres], list(range(ci * n + 1, ci * n + n + 1)), 'each case is paired with its own results')
                if not isinstance(target, list):
                    ctx.check(isinstance(res, tuple) or target in RUNS, 'a single item gives its own result', got=res)
                else:
                    ctx.eq(len(res), len(target), 'a list of items gives a list of results')


def same(a, b):
    if isinstance(a, BadEq) or isinstance(b, BadEq):
        return isinstance(a, BadEq) and isinstance(b, BadEq) and a.n == b.n
    return type(a) is type(b) and a == b


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def across(ctx):
    """an IterativeRunner without a base works over several managers"""
    from pyfileconf.iterate import IterativeRunner
    p1 = Proj(PD, name='one')
    p2 = Proj(PD2, name='two')
    ups = [{'section_path_str': 'one.x.f1', 'a': 1}, {'section_path_str': 'two.q.f2', 'b': 5}, {'section_path_str': 'one.x.f1', 'b': 9},
           {'section_path_str': 'two.x.f1', 'a': 50}]
    ctx.case('across', ups)
    ir = IterativeRunner(['one.x.f1', 'two.q.f2', 'two.x.f1'], ups)
    res = ir.run()
    ctx.eq([c for c, _ in res], oracle_cases(ups), 'cases over several managers')
    got = [[(nm, kw) for nm, kw in vtrack.CALLS[i:i + 3]] for i in range(0, len(vtrack.CALLS), 3)]
    want = [[('f1', dict(a=1, b=2, c='x')), ('f2', dict(a=1, b=5, d=4.5)), ('f1', dict(a=50, b=2, c='x'))],
            [('f1', dict(a=None, b=9, c='x')), ('f2', dict(a=1, b=5, d=4.5)), ('f1', dict(a=50, b=2, c='x'))]]
    ctx.eq(got, want, 'each case runs over several managers')
    ctx.eq([[x[1] for x in r] for _, r in res], [[1, 2, 3], [4, 5, 6]], 'results in order of the items')


def skipped(ctx):
    from pyfileconf.iterate import IterativeRunner
    p = Proj(PD)

    class Sk(IterativeRunner):
        def should_run(self, case):
            return case[0].get('a') != 2
    ups = [{'section_path_str': 'x.f1', 'a': k} for k in (1, 2, 3)] + [{'section_path_str': 'x.f2', 'b': k} for k in (7, 8)]
    ctx.case('skipped')
    ir = Sk('x.f1', ups, base_section_path_str=p.name)
    res = ir.run()
    ctx.eq([(c[0]['a'], c[1]['b']) for c, _ in res], [(1, 7), (1, 8), (3, 7), (3, 8)], 'only the skipped cases are left out')
    ctx.eq([kw['a'] for _, kw in vtrack.CALLS], [1, 1, 3, 3], 'cases left out are not run')


def modified(ctx):
    p = Proj(PD)

    def mc(cases, runner):
        cases.reverse()
        cases.append(({'section_path_str': 'x.f1', 'a': 99},))
    hooks(pyfileconf_iter_modify_cases=mc)
    ups = [{'section_path_str': 'x.f1', 'a': k} for k in (1, 2, 3)]
    ctx.case('modify')
    res = p.pm.run_product('x.f1', ups)
    ctx.eq([kw['a'] for _, kw in vtrack.CALLS], [3, 2, 1, 99], 'cases modified by extensions are the ones run')
    ctx.eq([c[0]['a'] for c, _ in res], [3, 2, 1, 99], 'modified cases are paired with results')


def run(ctx):
    ctx.scenario(products)
    ctx.scenario(runs)
    ctx.scenario(across)
    ctx.scenario(skipped)
    ctx.scenario(modified)
