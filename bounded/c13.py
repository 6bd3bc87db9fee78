import ast
from common import *


def entries(d, path=()):
    """ordered list of (path, leaf or section)"""
    out = []
    if isinstance(d, dict):
        for k, v in d.items():
            out.append(('section', path + (k,)))
            out += entries(v, path + (k,))
    elif isinstance(d, list):
        for v in d:
            if isinstance(v, dict):
                out += entries(v, path)
            else:
                out.append(('item', path + (leaf(v),)))
    else:
        out.append(('value', path + (leaf(d),)))
    return out


def leaf(v):
    return v.id if isinstance(v, ast.Name) else str(v)


def rand_dict(r, names, depth=0):
    d = {}
    for k in r.sample(['aa', 'bb', 'cc', 'dd', 'f1'], r.randint(0 if depth else 0, 3)):
        x = r.random()
        if x < .5 or depth >= 3:
            d[k] = r.sample(names, r.randint(0, 3))
        else:
            d[k] = rand_dict(r, names, depth + 1)
    return d


def conv(d, wrap):
    if isinstance(d, dict):
        return {k: conv(v, wrap) for k, v in d.items()}
    if isinstance(d, list):
        return [wrap(v) for v in d]
    return wrap(d)


def model_add(d, path, item):
    """independent model of the insertion; None when it has to be refused"""
    d = copy.deepcopy(d)
    cur = d
    for p in path[:-1]:
        if not isinstance(cur, dict):
            return None
        cur = cur.setdefault(p, {})
    if not isinstance(cur, dict):
        return None
    v = cur.setdefault(path[-1], [])
    if not isinstance(v, list):
        return None
    v.append(item)
    return d


def nested(ctx):
    from pyfileconf.dictfiles.modify import (add_item_into_nested_dict_at_section_path as add,
                                              create_dict_assignment_str_from_nested_dict_with_ast_names as tostr)
    from pyfileconf.io.file.load.lazy.pipeline import PipelineDictLoader
    r = ctx.rng
    names = ['f1', 'f2', 'K1', 'noargs']
    for i in range(ctx.n(300, 3000)):
        d = rand_dict(r, names)
        path = [r.choice(['aa', 'bb', 'cc', 'new', 'f1']) for _ in range(r.randint(1, 4))]
        asname = r.random() < .6
        ctx.case('add', d, path, asname)
        wrap = ast.Name if asname else str
        real = conv(d, ast.Name if asname else str)
        want = model_add(d, path, 'it')
        try:
            add(real, SectionPath.from_section_str_list(path), 'it', add_as_ast_name=asname)
            got = conv(real, leaf)
        except Exception as e:
            got = None
        ctx.eq(got, want, 'the nested dictionary gains exactly the new entry')
        if want is not None and got is not None:
            ctx.eq(entries(got), entries(want), 'the order of existing entries is kept')
            if asname:
                last = real
                for p in path:
                    last = last[p]
                ctx.check(isinstance(last[-1], ast.Name), 'new entry is a name')
            s = tostr(conv(d, ast.Name), assign_to_name='pipeline_dict')
            m = ast.parse(s)
            ctx.check(len(m.body) == 1 and m.body[0].targets[0].id == 'pipeline_dict', 'a single assignment is written')
            ns = {n: n for n in names}
            exec(s, ns)
            ctx.eq(entries(ns['pipeline_dict']), entries(d), 'the written dictionary loads back to the same structure')
            ctx.eq(ns['pipeline_dict'], d, 'the written dictionary loads back to the same structure')


def dict_of(p, rel='pipeline_dict', var='pipeline_dict'):
    ns = {}
    src = read(os.path.join(p.folder, rel + '.py'))
    tree_ = ast.parse(src)
    for n in tree_.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == var:
            class T(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.Constant(x.id)
            return ast.literal_eval(T().visit(n.value))


def project(ctx):
    r = ctx.rng
    for i in range(ctx.n(14, 120)):
        pd = {'x': ['f1', 'f2'], 'y': {'z': ['f3', 'K1'], 'w': {'v': ['noargs']}}} if i % 3 else {'y': {'z': ['f4']}}
        p = Proj(copy.deepcopy(pd), specific=[{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one'], 't': {'u': ['two']}}}],
                 imports='from {m} import *\n'.replace('{m}', 'os') if False else None)
        import importlib
        m = importlib.import_module(p.mod)
        model = copy.deepcopy(pd)
        kmodel = {'s': ['one'], 't': {'u': ['two']}}
        for step in range(r.randint(1, 4)):
            before = tree(p.folder)
            kind = r.choice(['main', 'main', 'kk', 'bad'])
            if kind == 'main':
                fn = getattr(m, r.choice(['f1', 'f2', 'f3', 'f4', 'K1', 'K2']))
                path = r.choice([['x'], ['new'], ['y', 'z'], ['y', 'q'], ['n1', 'n2', 'n3'], ['y', 'w', 'v'], ['y'], ['x', 'sub']])
                want = model_add(model, path, fn.__name__)
                cur = model
                try:
                    for q in path:
                        cur = cur[q]
                    if fn.__name__ in cur:
                        continue
                except Exception:
                    pass
                ctx.case('create', pd, path, fn.__name__, step)
                if want is None:
                    try:
                        p.pm.create('.'.join(path), fn)
                        ctx.fail('an impossible request is refused', path=path)
                    except Exception:
                        pass
                    ctx.eq(tree(p.folder), before, 'a rejected request changes nothing', path=path)
                    continue
                p.pm.create('.'.join(path), fn)
                model = want
                ctx.eq(entries(dict_of(p)), entries(model), 'exactly the entry is added to the dictionary file, in order')
                full = '.'.join(path + [fn.__name__])
                vtrack.CALLS.clear()
                p.pm.run(full)
                ctx.eq([c[0] for c in vtrack.CALLS], [fn.__name__], 'the new item can be run at once')
                ctx.check(os.path.exists(p.cfg(full)), 'its config file exists')
            elif kind == 'kk':
                path = r.choice([['s'], ['t', 'u'], ['t', 'nn'], ['deep', 'er'], ['fresh']])
                nm = f'it{step}'
                ctx.case('create', 'kk', path, nm)
                p.pm.create('.'.join(['kk'] + path + [nm]))
                kmodel = model_add(kmodel, path, nm)
                ctx.eq(entries(dict_of(p, 'kk_dict', 'class_dict')), entries(kmodel), 'exactly the entry is added to the class dictionary file')
                obj = p.pm.get('.'.join(['kk'] + path + [nm]))
                ctx.check(type(obj).__name__ == 'SK' and obj.name == nm, 'the new item can be fetched at once', got=obj)
            else:
                for args in ((('x.y',), {}), (('kk.s.thing', m.SK), {}), (('kk.s',), {}), (('kk',), {}), (('newsec',), {})):
                    ctx.case('create refused', args[0][0])
                    if args[0][0] in ('kk.s', 'kk') or len(args[0]) == 2 or True:
                        try:
                            p.pm.create(*args[0])
                            ctx.fail('the request is refused', request=args[0])
                        except ValueError:
                            pass
                        ctx.eq(tree(p.folder), before, 'a rejected request changes nothing', request=args[0])
        # everything still works now and after a fresh load
        for rnd in range(2):
            for kind_, path in entries(model):
                if kind_ == 'item':
                    vtrack.CALLS.clear()
                    p.pm.run('.'.join(path))
                    ctx.eq([c[0] for c in vtrack.CALLS], [path[-1]], 'all items can be run', item=path, round=rnd)
            for kind_, path in entries(kmodel):
                if kind_ == 'item':
                    o = p.pm.get('kk.' + '.'.join(path))
                    ctx.check(o.name == path[-1], 'all class items can be fetched', item=path, round=rnd)
            ctx.eq(entries(dict_of(p)), entries(model), 'dictionary file unchanged by running')
            if rnd == 0:
                if r.random() < .5:
                    p.pm.reload()
                else:
                    p.pm = p.manager()
                    p.pm.load()


def run(ctx):
    ctx.scenario(nested)
    ctx.scenario(project)
