from common import *
from cfgmodel import *

PD = {'x': ['f1', 'f2', 'f3'], 'g': ['K1', 'f4']}
NAMES = ['na', 'nb', 'nc', 'nd', 'ne']
SPEC = [{'name': 'kk', 'cls': 'SK', 'dict': {'s': NAMES}, 'extra': {'execute_attr': 'go'}}]


def invariant(ctx, label=''):
    cd, fu = context.config_dependencies, context.force_update_dependencies
    for on, deps in list(fu.items()):
        for d in deps:
            ctx.check(d in cd.get(on, ()), 'a forced dependency is always also a recorded dependency', on=on, dependent=d)
    for on, deps in list(cd.items()):
        for d in deps:
            ctx.check(d.path_str != on, 'an item never depends on itself', on=on)
            ctx.check(isinstance(d, SectionPath) and isinstance(on, str), 'dependencies are section paths')


def deps(table=None):
    t = context.config_dependencies if table is None else table
    return {(d.path_str, on) for on, ds in t.items() for d in ds}


def table(ctx):
    """the record itself, against a plain model"""
    r = ctx.rng
    from pyfileconf.pmcontext.main import PyFileConfContext
    for k in range(ctx.n(60, 600)):
        c = PyFileConfContext()
        model, forced = set(), set()
        pool = ['a.b', 'a.c', 'b.a', 'a.b.c', 'ab', 'a.bc']
        for _ in range(r.randint(1, 12)):
            a, b, f = r.choice(pool), r.choice(pool), r.random() < .5
            av = a if r.random() < .5 else SectionPath(a)
            bv = b if r.random() < .5 else SectionPath(b)
            how = r.choice(['plain', 'running', 'loading'])
            ctx.case(how, a, b, f)
            from pyfileconf.pmcontext.stack import PyfileconfFrame
            from pyfileconf.pmcontext.actions import PyfileconfActions
            if how == 'plain':
                c.add_config_dependency(av, bv, force_update=f)
                do = True
            elif how == 'running':
                do = r.random() < .6
                if do:
                    c.stack.add_running_item(a)
                    c.stack.add_frame(PyfileconfFrame('zz', PyfileconfActions.LOAD_FILE_AST))
                c.add_config_dependency_for_currently_running_item_if_exists(bv, force_update=f)
                if do:
                    c.stack.pop_frame(); c.stack.pop_frame()
            else:
                do = r.random() < .6
                act = PyfileconfActions.LOAD_FILE_EXECUTE if do else r.choice([PyfileconfActions.LOAD_FILE_AST, PyfileconfActions.RUN])
                c.stack.add_frame(PyfileconfFrame('zz', act))
                c.add_config_dependency_if_file_is_currently_being_loaded(av, bv, force_update=f)
                c.stack.pop_frame()
            if do and a != b:
                model.add((a, b))
                if f:
                    forced.add((a, b))
            ctx.eq(deps(c.config_dependencies), model, 'dependencies recorded')
            ctx.eq(deps(c.force_update_dependencies), forced, 'forced dependencies recorded')
        c.reset()
        ctx.eq((deps(c.config_dependencies), deps(c.force_update_dependencies), list(c.active_managers)), (set(), set(), []), 'reset forgets dependencies')


def while_running(ctx):
    """uses during a run: run, get, view attribute, view call"""
    r = ctx.rng
    for k in range(ctx.n(25, 200)):
        fresh()
        ps = {m: Proj(PD, name=m, specific=SPEC) for m in ('one', 'two')}
        items = ['x.f1', 'x.f2', 'x.f3', 'g.f4', 'kk.s.na', 'kk.s.nb']
        for m in ps:
            for q in r.sample(items, r.randint(0, 3)):
                ps[m].pm.get(q)
        outer_m, outer = 'one', 'x.f1'
        uses, want = [], set()
        for _ in range(r.randint(1, 3)):
            m, q = r.choice(['one', 'two']), r.choice(items[1:])
            uses.append((m, q, r.choice(['run', 'get', 'view', 'attr'])))
        ctx.case('running', uses)

        def body(nm, kw):
            ctx.eq(context.currently_running_section_path_str, 'one.x.f1', 'the running item is known while it runs')
            s = Selector()
            for m, q, how in uses:
                v = getattr(s, m)
                for part in q.split('.'):
                    v = getattr(v, part)
                if how == 'run':
                    ps[m].pm.run(q)
                elif how == 'get':
                    ps[m].pm.get(q)
                elif how == 'view':
                    v()
                else:
                    getattr(v, 'a' if q.startswith('kk') else 'keywords')
            return 1
        vtrack.HOOKS['f1'] = body
        context.config_dependencies.clear(); context.force_update_dependencies.clear()
        ps['one'].pm.run('x.f1')
        for m, q, how in uses:
            ctx.check(('one.x.f1', f'{m}.{q}') in deps(), 'a use while running is recorded', use=(m, q, how), got=deps())
            ctx.check(('one.x.f1', f'{m}.{q}') in deps(context.force_update_dependencies), 'a use while running forces refreshes', use=(m, q, how))
        allowed = {('one.x.f1', f'{m}.{q}') for m, q, _ in uses}
        ctx.eq(deps() - allowed, set(), 'nothing else is recorded')
        invariant(ctx)
        n = len(deps())
        vtrack.HOOKS.clear()
        ps['two'].pm.run('x.f2')
        ps['two'].pm.get('x.f3')
        ctx.eq(len(deps()), n, 'nothing is recorded outside of a run')


def via_update(ctx):
    ps = {m: Proj(PD, name=m, specific=SPEC) for m in ('one', 'two')}
    s = Selector()
    ctx.case('update with views')
    ps['one'].pm.update({'a': s.two.x.f2, 'b': 5}, section_path_str='x.f1')
    ps['one'].pm.update(section_path_str='x.f3', a=s.one.kk.s.na)
    ps['two'].pm.update({'a': s.one.x.f1}, section_path_str='kk.s.nb', b=s.two.x.f3)
    ctx.eq(deps(), {('one.x.f1', 'two.x.f2'), ('one.x.f3', 'one.kk.s.na'), ('two.kk.s.nb', 'one.x.f1'), ('two.kk.s.nb', 'two.x.f3')},
           'an update setting views as values is recorded')
    invariant(ctx)
    ps['one'].pm.update({'a': 'x.f2', 'b': ['two']}, section_path_str='x.f2')
    ctx.eq(len(deps()), 4, 'plain values are not dependencies')
    from pyfileconf.batch import BatchUpdater
    BatchUpdater().update([{'section_path_str': 'one.g.f4', 'z': s.two.g.K1}])
    ctx.check(('one.g.f4', 'two.g.K1') in deps(), 'a batch update setting a view is recorded')


def forests(ctx):
    """items whose files take values of other items; an update of any node reaches all its dependents"""
    r = ctx.rng
    for k in range(ctx.n(40, 300)):
        fresh()
        mans = ['one', 'two'] if r.random() < .7 else ['one']
        nodes = [(m, n) for m in mans for n in r.sample(NAMES, r.randint(2, 4))]
        r.shuffle(nodes)
        src, configs = {}, {m: {} for m in mans}
        lit = itertools.count(100)
        for i, nd in enumerate(nodes):
            src[nd] = {}
            lines = 'from pyfileconf import Selector\ns = Selector()\n\n'
            for attr in ('a', 'b'):
                if i and r.random() < .7:
                    par = r.choice(nodes[:i])
                    pa = r.choice(['a', 'b'])
                    src[nd][attr] = (par, pa)
                    lines += f'{attr} = s.{par[0]}.kk.s.{par[1]}.{pa}\n'
                else:
                    src[nd][attr] = next(lit)
                    lines += f'{attr} = {src[nd][attr]}\n'
            configs[nd[0]][f'kk/s/{nd[1]}.py'] = lines
        ps = {m: Proj(PD, name=m, specific=SPEC, configs=configs[m]) for m in mans}
        over = {}

        def val(nd, attr, seen=()):
            if (nd, attr) in over:
                return over[(nd, attr)]
            v = src[nd][attr]
            return val(*v) if isinstance(v, tuple) else v
        order = list(nodes)
        r.shuffle(order)
        objs = {nd: ps[nd[0]].pm.get(f'kk.s.{nd[1]}') for nd in order}
        ctx.case('forest', {f'{m}.{n}': s for (m, n), s in src.items()})
        for nd in nodes:
            for attr in ('a', 'b'):
                v = src[nd][attr]
                if isinstance(v, tuple):
                    e = (f'{nd[0]}.kk.s.{nd[1]}', f'{v[0][0]}.kk.s.{v[0][1]}')
                    ctx.check(e in deps(), 'a use while a config file loads is recorded', edge=e)
                    ctx.check(e in deps(context.force_update_dependencies), 'taking a value of an item while loading forces refreshes', edge=e)
        invariant(ctx)
        for step in range(r.randint(1, 4)):
            nd = r.choice(nodes)
            attr = r.choice(['a', 'b'])
            nv = next(lit)
            over[(nd, attr)] = nv
            ps[nd[0]].pm.update({attr: nv}, section_path_str=f'kk.s.{nd[1]}')
            for x in nodes:
                for at in ('a', 'b'):
                    ctx.eq(getattr(objs[x], at), val(x, at), 'dependents follow a change of the config they depend on',
                           node=x, attr=at, changed=(nd, attr), forest=src)
                    ctx.eq(ps[x[0]].conf(f'kk.s.{x[1]}')[at], val(x, at), 'configs of dependents follow', node=x)
        invariant(ctx)


def discovery(ctx):
    """refreshes: forced dependents only, each once, newly discovered ones too"""
    r = ctx.rng
    for k in range(ctx.n(25, 150)):
        fresh()
        ps = {m: Proj(PD, name=m, specific=SPEC) for m in ('one', 'two')}
        items = [(m, q) for m in ps for q in ('x.f1', 'x.f2', 'g.f4', 'kk.s.na', 'kk.s.nb')]
        target = r.choice(items)
        ps[target[0]].pm.get(target[1])
        forced = set(r.sample([i for i in items if i != target], r.randint(0, 4)))
        plain = set(r.sample([i for i in items if i != target and i not in forced], r.randint(0, 3)))
        full = '.'.join(target)
        for i in forced:
            context.add_config_dependency('.'.join(i), full, force_update=True)
        for i in plain:
            context.add_config_dependency('.'.join(i), full)
        late = {}
        left = [i for i in items if i != target and i not in forced and i not in plain]
        if left and forced and r.random() < .5:
            late[r.choice(sorted(forced))] = r.choice(left)
        seen = []
        for m, p in ps.items():
            def ref(section_path_str, m=m, real=p.pm.refresh):
                seen.append((m, section_path_str))
                if (m, section_path_str) in late:
                    context.add_config_dependency('.'.join(late[(m, section_path_str)]), full, force_update=True)
                return real(section_path_str)
            p.pm.refresh = ref
        ctx.case('discovery', target, sorted(forced), sorted(plain), late)
        arg = {'x.f1': 'c', 'x.f2': 'd', 'g.f4': 'z', 'kk.s.na': 'b', 'kk.s.nb': 'b'}[target[1]]
        cur = ps[target[0]].conf(target[1])[arg]
        ps[target[0]].pm.update({arg: cur}, section_path_str=target[1])
        ctx.eq(seen, [], 'an update which changes nothing refreshes nothing')
        ps[target[0]].pm.update({arg: 'new'}, section_path_str=target[1])
        want = forced | set(late.values())
        ctx.eq(sorted(seen), sorted(want), 'exactly the forced dependents are refreshed, each once', plain=plain)
        for p in ps.values():
            del p.pm.refresh
        invariant(ctx)


def endless(ctx):
    from pyfileconf.exceptions.config import CannotResolveConfigDependenciesException
    p = Proj(PD, name='one', specific=SPEC)
    p.pm.get('x.f1'); p.pm.get('x.f2')
    ctx.case('mutual')
    context.add_config_dependency('one.x.f1', 'one.x.f2', force_update=True)
    context.add_config_dependency('one.x.f2', 'one.x.f1', force_update=True)
    p.pm.update({'a': 3}, section_path_str='x.f1')
    p.pm.update({'a': 4}, section_path_str='x.f2')
    ctx.eq((p.conf('x.f1')['a'], p.conf('x.f2')['a']), (3, 4), 'mutual dependencies settle')


def chain_all_kinds(ctx):
    """the dependent lives in another manager and is a function; running it sees the new value"""
    fn_cfg = 'from pyfileconf import Selector\ns = Selector()\n\na = s.two.kk.s.na.a\nb = 2\nc = "x"\n'
    p2 = Proj(PD, name='two', specific=SPEC)
    p1 = Proj(PD, name='one', specific=SPEC, configs={'x/f1.py': fn_cfg})
    p2.pm.update({'a': 5}, section_path_str='kk.s.na')
    ctx.case('kinds')
    p1.pm.run('x.f1')
    ctx.eq(vtrack.CALLS[-1][1]['a'], 5, 'the value of the other item is used')
    p2.pm.update({'a': 6}, section_path_str='kk.s.na')
    p1.pm.run('x.f1')
    ctx.eq(vtrack.CALLS[-1][1]['a'], 6, 'the function follows a change in another manager')
    p2.pm.reset('kk.s.na')
    p1.pm.run('x.f1')
    ctx.eq(vtrack.CALLS[-1][1]['a'], None, 'the function follows a reset in another manager')
    p2.pm.update({'a': 7}, section_path_str='kk.s.na')
    p2.pm.update({'a': 8}, section_path_str='kk.s.na', pyfileconf_persist=False)
    p1.pm.run('x.f1')
    ctx.eq(vtrack.CALLS[-1][1]['a'], 8, 'the function follows a temporary update')
    p2.pm.refresh('kk.s.na')
    p1.pm.run('x.f1')
    ctx.eq(vtrack.CALLS[-1][1]['a'], 7, 'the function follows a refresh')


def run(ctx):
    for f in (table, while_running, via_update, forests, discovery, endless, chain_all_kinds):
        ctx.scenario(f)
