from common import *
from cfgmodel import *

PD = {'x': ['f1', 'f2'], 'y': {'z': ['f3', 'K1']}}
PD2 = {'x': ['f1', 'f4'], 'one': ['f2']}
SPEC = [{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two']}, 'extra': {'execute_attr': 'go'}}]
ITEMS = {'one': {'x.f1': 'abc', 'x.f2': 'abd', 'y.z.f3': 'ak', 'y.z.K1': 'ab', 'kk.s.one': 'ab', 'kk.s.two': 'ab'},
         'two': {'x.f1': 'abc', 'x.f4': 'z', 'one.f2': 'abd', 'kk.s.one': 'ab', 'kk.s.two': 'ab'}}


def snap(ps):
    return {(m, q): p.conf(q) for m, p in ps.items() for q in ITEMS[m]}


def batches(ctx):
    from pyfileconf.batch import BatchUpdater
    r = ctx.rng
    for k in range(ctx.n(60, 500)):
        fresh()
        ps = {'one': Proj(PD, name='one', specific=SPEC), 'two': Proj(PD2, name='two', specific=SPEC)}
        for m, p in ps.items():
            for q in r.sample(list(ITEMS[m]), r.randint(0, 4)):
                p.pm.get(q)
        files = {(m, q): v for (m, q), v in snap(ps).items()}
        model = {kk: dict(v) for kk, v in files.items()}
        sel = Selector()
        for step in range(r.randint(1, 3)):
            how = r.choice(['updater', 'pm', 'reset'])
            calling = r.choice(['one', 'two'])
            ups, targets = [], []
            for _ in range(r.randint(0, 5)):
                m = calling if how == 'pm' else r.choice(['one', 'two'])
                q = r.choice(list(ITEMS[m]))
                view = r.random() < .25
                sp = q if how == 'pm' else f'{m}.{q}'
                if view:
                    sp = getattr(sel, m)
                    for part in q.split('.'):
                        sp = getattr(sp, part)
                u = {'section_path_str': sp}
                for a in r.sample(list(ITEMS[m][q]), r.randint(0, len(ITEMS[m][q]))):
                    u[a] = copy.deepcopy(r.choice([1, 2, 'x', None, [1], {'k': 1}]))
                ups.append(u)
                targets.append((m, q))
            ups0 = [dict(u) for u in ups]
            desc = [(t, {a: b for a, b in u.items() if a != 'section_path_str'}) for t, u in zip(targets, ups)]
            ctx.case(step, how, calling if how == 'pm' else None, desc)
            if how == 'reset':
                BatchUpdater().reset(iter([u['section_path_str'] for u in ups]) if r.random() < .5 else [u['section_path_str'] for u in ups])
                for t in targets:
                    model[t] = dict(files[t])
            else:
                contrib, seen = [], []
                if r.random() < .3:
                    m = calling if how == 'pm' else 'two'
                    q = r.choice(list(ITEMS[m]))
                    contrib = [{'section_path_str': q if how == 'pm' else f'{m}.{q}', ITEMS[m][q][0]: 'contrib'}]
                    if not any(t == (m, q) for t in targets):
                        hooks(pyfileconf_pre_update_batch=lambda pm, updates: [dict(c) for c in contrib],
                              pyfileconf_post_update_batch=lambda pm, updates: seen.append(updates))
                    else:
                        contrib = []
                given = ups if not (r.random() < .3 and not contrib) else iter(ups)
                if how == 'updater':
                    BatchUpdater().update(given)
                else:
                    ps[calling].pm.update_batch(given)
                for t, u in zip(targets, ups0):
                    model[t].update({a: b for a, b in u.items() if a != 'section_path_str'})
                if contrib:
                    model[(m, q)][ITEMS[m][q][0]] = 'contrib'
                    ctx.eq(len(seen), 1, 'the after-batch hook is called once')
                PLUGINS.clear_all()
            ctx.check(len(ups) == len(ups0) and all(set(u) == set(v) and all(u[a] is v[a] for a in u) for u, v in zip(ups, ups0)),
                      'the updates handed in are not modified')
            now = snap(ps)
            for kk in model:
                dict_eq(ctx, now[kk], model[kk], 'only the named items change, to exactly the given values', item=kk, batch=desc)
        # items run with what their configs say
        for (m, q), v in model.items():
            vtrack.CALLS.clear()
            ps[m].pm.run(q)
            kw = vtrack.CALLS[-1][1]
            for a in ITEMS[m][q]:
                ctx.eq(kw[a], v[a], 'items run with their updated values', item=(m, q))


def counts(ctx):
    """each update is applied exactly once, in order"""
    from pyfileconf.batch import BatchUpdater
    p = Proj(PD, name='one', specific=SPEC)
    p2 = Proj(PD2, name='two', specific=SPEC)
    seen = []

    def pre(manager, orig_config, updates, section_path_str):
        seen.append((manager.pipeline_manager_name, section_path_str, dict(updates)))
    hooks(pyfileconf_pre_config_changed=pre)
    ctx.case('counts')
    BatchUpdater().update([{'section_path_str': 'one.x.f1', 'a': 1}, {'section_path_str': 'two.x.f1', 'a': 2},
                           {'section_path_str': 'one.x.f1', 'a': 3}, {'section_path_str': 'two.x.f4'},
                           {'section_path_str': 'one.x.f1', 'a': 1},
                           {'section_path_str': 'one.kk.s.two', 'b': 9, 'pyfileconf_persist': False}])
    ctx.eq(seen, [('one', 'x.f1', {'a': 1}), ('two', 'x.f1', {'a': 2}), ('one', 'x.f1', {'a': 3}),
                  ('one', 'x.f1', {'a': 1}), ('one', 'kk.s.two', {'b': 9})], 'each update is applied once and in order')
    p.pm.refresh('x.f1')
    p.pm.refresh('kk.s.two')
    ctx.eq((p.conf('x.f1')['a'], p.conf('kk.s.two')['b']), (1, 3), 'batch updates last through refreshes unless asked otherwise')


def names(ctx):
    """managers and sections of the same names, one a part of the other"""
    from pyfileconf.batch import BatchUpdater
    r = ctx.rng
    TREES = [{'x': ['f1'], 'y': {'x': ['f1'], 'z': ['f1']}, 'ax': ['f1'], 'xx': ['f1']},
             {'x': {'x': {'x': ['f1']}, 'y': ['f1']}, 'y': {'x': {'y': ['f1']}}},
             {'y': ['f1'], 'x': {'y': {'x': ['f1']}, 'yx': ['f1']}, 'xy': {'x': ['f1']}}]

    def items(t, pre=''):
        for k, v in t.items():
            yield from ([f'{pre}{k}.{i}' for i in v] if isinstance(v, list) else items(v, f'{pre}{k}.'))
    for k in range(ctx.n(8, 60)):
        fresh()
        names = r.sample(['x', 'y', 'xx', 'xy', 'ax'], 2)
        ps, its = {}, {}
        for m in names:
            t = r.choice(TREES)
            ps[m], its[m] = Proj(t, name=m), list(items(t))
        model = {(m, q): dict(ps[m].conf(q)) for m in names for q in its[m]}
        files = {kk: dict(v) for kk, v in model.items()}
        ups, n = [], 0
        for kk in r.sample(list(model), r.randint(1, len(model))):
            n += 1
            ups.append({'section_path_str': '.'.join(kk), 'a': n})
            model[kk]['a'] = n
        ctx.case('names', names, its, ups)
        if r.random() < .5:
            BatchUpdater().update(ups)
        else:
            m = r.choice(names)
            ups = [{**u, 'section_path_str': u['section_path_str'][len(m) + 1:]} for u in ups if u['section_path_str'].startswith(m + '.')]
            ps[m].pm.update_batch(ups)
            for kk in model:
                if kk[0] != m:
                    model[kk] = dict(files[kk])
        for kk in model:
            dict_eq(ctx, ps[kk[0]].conf(kk[1]), model[kk], 'only the named items change, to exactly the given values', item=kk)
        back = r.sample(list(model), r.randint(0, len(model)))
        BatchUpdater().reset(['.'.join(kk) for kk in back])
        for kk in model:
            dict_eq(ctx, ps[kk[0]].conf(kk[1]), files[kk] if kk in back else model[kk], 'only the named items are reset', item=kk)


def bad(ctx):
    from pyfileconf.batch import BatchUpdater
    ps = {'one': Proj(PD, name='one', specific=SPEC), 'two': Proj(PD2, name='two', specific=SPEC)}
    b = snap(ps)
    for sp in ('three.x.f1', 'x.f1', 'on.x.f1', 'ones.x.f1', 'onex.f1'):
        ctx.case('no manager', sp)
        ctx.raises(Exception, lambda: BatchUpdater().update([{'section_path_str': sp, 'a': 1}]), 'a path naming no manager raises', path=sp)
        ctx.raises(Exception, lambda: BatchUpdater().reset([sp]), 'a reset path naming no manager raises', path=sp)
    ctx.raises(Exception, lambda: ps['one'].pm.update_batch([{'section_path_str': 'x.f4', 'z': 1}]), 'a path of another manager raises')
    n = snap(ps)
    for kk in b:
        dict_eq(ctx, n[kk], b[kk], 'nothing else is updated', item=kk)


def run(ctx):
    ctx.scenario(batches)
    ctx.scenario(counts)
    ctx.scenario(names)
    ctx.scenario(bad)
