from common import *
from cfgmodel import *


def base_config(ctx):
    from pyfileconf.basemodels.config import ConfigBase
    from pyfileconf.config.models.config import ActiveFunctionConfig
    pool = value_pool()
    keys = ['a', 'b', 'c', 'name', 'klass', 'd', 'items', 'self_']
    for cls in (ConfigBase, ActiveFunctionConfig):
        for i in range(ctx.n(150, 1500)):
            r = ctx.rng
            start = {k: r.choice(pool) for k in r.sample(keys, r.randint(0, 4))}
            c = cls(dict(start), name='n')
            model, applied = dict(start), {}
            for step in range(r.randint(1, 5)):
                E = r.choice([None, {}, 'd'])
                if E == 'd':
                    E = {k: r.choice(pool) for k in r.sample(keys, r.randint(1, 4))}
                F = {k: r.choice(pool) for k in r.sample(keys, r.randint(0, 3))}
                persist = r.choice([True, True, False, None])
                ecopy = dict(E) if E is not None else None
                fcopy = dict(F)
                ctx.case('ConfigBase.update', cls.__name__, sorted(start), sorted(E or {}), sorted(F), persist)
                if persist is None:
                    ret = c.update(E, **F)
                    persist = True
                else:
                    ret = c.update(E, pyfileconf_persist=persist, **F)
                ups = {**(E or {}), **F}
                model.update(ups)
                if persist:
                    applied.update(ups)
                dict_eq(ctx, dict(c), model, 'update sets exactly the given keys, keywords winning')
                dict_eq(ctx, c._applied_updates, applied, 'exactly persistent updates are recorded')
                if E is not None:
                    dict_eq(ctx, E, ecopy, 'the dictionary passed in is unchanged')
                dict_eq(ctx, F, fcopy, 'the keywords passed in are unchanged')
                ctx.check(c.name == 'n', 'the config keeps its name')
                ctx.check(c._applied_updates is not E, 'the record is not the caller\'s dictionary')


def through_manager(ctx):
    """updates through the manager, forgotten or kept by a refresh as requested"""
    p = Proj({'x': ['f1', 'f2'], 'y': {'z': ['f3', 'K1']}, 'f1': ['f1'], 'w': {'w': ['f2']}},
             specific=[{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two']}}])
    items = ['x.f1', 'x.f2', 'y.z.f3', 'y.z.K1', 'f1.f1', 'w.w.f2', 'kk.s.one', 'kk.s.two']
    filec = {i: p.conf(i) for i in items}
    r = ctx.rng
    for rnd in range(ctx.n(25, 200)):
        for i in items:
            p.pm.reset(i)
        model = {i: dict(filec[i]) for i in items}
        rec = {i: {} for i in items}
        if rnd % 2:
            for i in r.sample(items, 3):
                p.pm.get(i)
        for step in range(r.randint(1, 6)):
            i = r.choice(items)
            own = [k for k in filec[i] if k not in ('Selector', 's')]
            if r.random() < .25:
                ctx.case('refresh', i)
                p.pm.refresh(i)
                merged = {**filec[i], **rec[i]}
                if any(k in model[i] and not veq(model[i][k], v) for k, v in merged.items()):
                    model[i].update(merged)
            else:
                vals = [r.randint(0, 3), None, 'v%d' % r.randint(0, 2), [r.randint(0, 1)]]
                E = {k: r.choice(vals) for k in r.sample(own, r.randint(0, len(own)))} if r.random() < .7 else None
                F = {k: r.choice(vals) for k in r.sample([o for o in own if o != 'name'] , r.randint(0, 2 if len(own) > 2 else 1))}
                persist = r.random() < .6
                ecopy = dict(E) if E is not None else None
                ctx.case('pm.update', i, E, F, persist)
                p.pm.update(E, section_path_str=i, pyfileconf_persist=persist, **F)
                if E is not None:
                    dict_eq(ctx, E, ecopy, 'the dictionary passed in is unchanged')
                ups = {**(E or {}), **F}
                if any(k in model[i] and not veq(model[i][k], v) for k, v in ups.items()):
                    model[i].update(ups)
                    if persist:
                        rec[i].update(ups)
            for j in items:
                dict_eq(ctx, p.conf(j), model[j], 'every config holds exactly its own updates', item=j, targeted=i)


def file_that_raises(ctx):
    """the base of a config comes from its file: a file which cannot be run is reported, not skipped"""
    for exc in ('ValueError', 'KeyError', 'AttributeError', 'OSError', 'StopIteration'):
        for where in ('section.py', 'f1.py'):
            p = Proj({'x': ['f1']})
            path = os.path.join(p.folder, 'defaults', 'x', where)
            old = read(path) if os.path.exists(path) else ''
            write(path, old + '\nraise %s("boom")\n' % exc)
            ctx.case('config file raises', exc, where)
            try:
                p.pm.reload()
                got = p.pm.run('x.f1')
            except BaseException as e:
                ctx.check(type(e).__name__ in (exc, 'RuntimeError'), 'the error of the config file is reported', got=type(e).__name__, want=exc)
            else:
                ctx.check(False, 'a config file that cannot be run is reported', exc=exc, where=where, got=repr(got))


def run(ctx):
    ctx.scenario(file_that_raises)
    ctx.scenario(base_config)
    ctx.scenario(through_manager)
