from common import *
from cfgmodel import *


def equality(ctx):
    from pyfileconf.basemodels.config import ConfigBase
    import pandas as pd, numpy as np
    pool = value_pool() + [pd.Series([1, 3]), np.array([1, 3]), float('nan'), np.array([]), pd.DataFrame(), pd.Series([1.0, None])]
    import copy as _c
    for i, a in enumerate(pool):
        for j, b in enumerate(pool):
            if isinstance(b, (pd.DataFrame, pd.Series)) and i == j:
                b = b.copy()
            ctx.case('equality', repr(a)[:40], repr(b)[:40], i, j)
            c = ConfigBase({'k': a, 'o': 5})
            want = not veq(a, b)
            ctx.eq(bool(c.would_update({'k': b})), want, 'would_update exactly when an existing key gets an unequal value')
            ctx.eq(bool(c.would_update(k=b)), want, 'would_update exactly when an existing key gets an unequal value')
            ctx.eq(bool(c.would_update({'new': b})), False, 'new keys alone are not a change')
            ctx.eq(bool(c.would_update({'k': a if veq(a, a) else 5, 'o': 5}, k=b)), want, 'keywords win in would_update')
            ctx.eq(bool(c.would_update({'o': 5, 'k': b})), want, 'every existing key counts')
            ctx.eq(bool(c.would_update({'k': b, 'o': 5, 'zz': 1})), want, 'every existing key counts')
            ctx.eq(bool(c.would_update({'k': b, 'o': 6})), True, 'every existing key counts')
            ctx.eq(list(c), ['k', 'o'], 'would_update does not change the config')
            ctx.check(c['k'] is a and c['o'] == 5, 'would_update does not change the config')
    c = ConfigBase({'k': 1})
    ctx.eq(c.would_update(), False, 'nothing is no change')
    ctx.eq(c.would_update({}), False, 'nothing is no change')


def histories(ctx):
    r = ctx.rng
    for rnd in range(ctx.n(14, 120)):
        fresh()
        p = Proj({'x': ['f1', 'f2'], 'y': ['K1']},
                 specific=[{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one']}}])
        items = {'x.f1': ['a', 'b', 'c'], 'x.f2': ['a', 'b', 'd'], 'y.K1': ['a', 'b'], 'kk.s.one': ['a', 'b']}
        filec = {i: p.conf(i) for i in items}
        model = {i: dict(filec[i]) for i in items}
        rec = {i: {} for i in items}
        loaded = set()
        seen = []

        def pre(manager, orig_config, updates, section_path_str):
            seen.append(('pre', section_path_str, {k: v for k, v in dict(orig_config).items()}, dict(updates)))

        def post(manager, new_config, updates, section_path_str):
            seen.append(('post', section_path_str, {k: v for k, v in dict(new_config).items()}, dict(updates)))
        hooks(pyfileconf_pre_config_changed=pre, pyfileconf_post_config_changed=post)
        vals = [0, 1, 2, None, 'v', [1], (1,), True, 1.0, 2.5]
        for step in range(r.randint(4, 12)):
            i = r.choice(list(items))
            op = r.choice(['get', 'update', 'update', 'update', 'temp', 'refresh', 'refresh', 'file', 'new', 'reset'])
            seen.clear()
            before = dict(model[i])
            ups = None
            if op == 'get':
                ctx.case('get', i)
                p.pm.get(i); loaded.add(i)
            elif op in ('update', 'temp', 'new'):
                ups = {k: r.choice(vals) for k in r.sample(items[i], r.randint(1, len(items[i])))}
                if r.random() < .3:
                    ups = {k: before[k] for k in ups}          # no-op update
                if op == 'new':
                    ups = {'extra_key': r.choice(vals)}
                    if r.random() < .5:
                        ups[items[i][0]] = r.choice(vals)
                ctx.case(op, i, ups)
                if r.random() < .5:
                    p.pm.update(dict(ups), section_path_str=i, pyfileconf_persist=op != 'temp')
                else:
                    p.pm.update(section_path_str=i, pyfileconf_persist=op != 'temp', **ups)
                full = ups
            elif op == 'refresh':
                ctx.case('refresh', i)
                p.pm.refresh(i)
                ups = full = {**filec[i], **rec[i]}
            elif op == 'reset':
                ctx.case('reset', i)
                p.pm.reset(i)
                ups = full = dict(filec[i])
            elif op == 'file':
                k = r.choice(items[i])
                v = r.choice([100, 200, 'new'])
                ctx.case('file', i, k, v)
                path = p.cfg(i)
                src = read(path)
                src = '\n'.join(l for l in src.split('\n') if not l.replace(' ', '').startswith((k + '=', k + ':')))
                write(path, src + f'\n{k} = {v!r}\n')
                filec[i] = {**filec[i], k: v}
            if ups is not None:
                changed = any(k in before and not veq(before[k], v) for k, v in full.items())
                if changed:
                    if op == 'reset':
                        model[i] = dict(filec[i]); rec[i] = {}
                    else:
                        model[i].update(full)
                        if op in ('update', 'new'):
                            rec[i].update(full)
                pres = [s for s in seen if s[0] == 'pre' and s[1] == i]
                posts = [s for s in seen if s[0] == 'post' and s[1] == i]
                ctx.eq(len(pres), 1 if changed else 0, 'the before-notification is sent exactly on change', op=op, before=before, updates=full)
                ctx.eq(len(posts), 1 if changed and i in loaded else 0, 'the after-notification is sent exactly on change of a loaded item', op=op, before=before, updates=full)
                for s in pres:
                    dict_eq(ctx, {k: v for k, v in s[2].items() if k != 's'}, before, 'the before-notification sees the old config', op=op)
                for s in posts:
                    dict_eq(ctx, {k: v for k, v in s[2].items() if k != 's'}, model[i], 'the after-notification sees the new config', op=op)
                for s in pres + posts:
                    dict_eq(ctx, {k: v for k, v in s[3].items() if k != 's'}, full, 'the notification lists the updates', op=op)
                others = [s for s in seen if s[1] != i]
                ctx.eq(others, [], 'no notification for other items')
            for j in items:
                if j in loaded or op != 'get':
                    dict_eq(ctx, p.conf(j), model[j], 'the config equals file overlaid with the persistent updates', item=j, op=op, target=i)


def direct(ctx):
    """change_from_refresh and refresh on a config with a file"""
    from pyfileconf.config.models.config import ActiveFunctionConfig
    r = ctx.rng
    p = Proj({'x': ['f1']})
    for rnd in range(ctx.n(40, 300)):
        path = os.path.join(p.defaults, uniq('cfg') + '.py')
        keys = ['a', 'b', 'E', 'd']
        f0 = {k: r.randint(0, 2) for k in r.sample(keys, r.randint(0, 3))}
        write(path, ''.join(f'{k} = {v!r}\n' for k, v in f0.items()))
        c = ActiveFunctionConfig.from_file(path)
        model = dict(f0)
        dict_eq(ctx, dict(c), model, 'a config loads the assignments of its file')
        rec = {}
        for step in range(r.randint(1, 4)):
            u = {k: r.randint(0, 2) for k in r.sample(keys, r.randint(0, 3))}
            per = r.random() < .6
            c.update(u, pyfileconf_persist=per)
            model.update(u)
            if per:
                rec.update(u)
        f1 = {k: r.randint(0, 2) for k in r.sample(keys, r.randint(0, 4))}
        write(path, ''.join(f'{k} = {v!r}\n' for k, v in f1.items()))
        ctx.case('direct', f0, model, rec, f1)
        merged = {**f1, **rec}
        changed = any(k in model and model[k] != v for k, v in merged.items())
        got = c.change_from_refresh()
        dict_eq(ctx, got, merged if changed else {}, 'change_from_refresh is what refresh would set, if it changes anything')
        dict_eq(ctx, dict(c), model, 'change_from_refresh leaves the config alone')
        dict_eq(ctx, c._applied_updates, rec, 'change_from_refresh leaves the record alone')
        ret = c.refresh()
        model.update(merged)
        dict_eq(ctx, dict(c), model, 'refresh overlays the file and the persistent updates')
        dict_eq(ctx, ret, merged, 'refresh returns the updates it made')
        dict_eq(ctx, c._applied_updates, rec, 'refresh does not add to the record')
        c.refresh()
        dict_eq(ctx, dict(c), model, 'refreshing again changes nothing')


def run(ctx):
    ctx.scenario(equality)
    ctx.scenario(direct)
    ctx.scenario(histories)
