import ast
from common import *
from pyfileconf.pipelines.models.collection import PipelineCollection
from pyfileconf.pipelines.models.registrar import PipelineRegistrar
from pyfileconf.data.models.collection import SpecificClassCollection
from pyfileconf.data.models.registrar import SpecificRegistrar
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
from pyfileconf.views.object import ObjectView

SECS = ['x', 'xx', 'x_1', 'y', 'data', 'sub', 'same', 'Z']
FUNCS = ['f1', 'f2', 'f3', 'f4', 'noargs', 'K1', 'K2', 'x', 'same']


class Thing:
    def __init__(self, name=None, label=None, a=None):
        self.name = name
        self.label = label
        self.a = a

    def __eq__(self, o):        # equal to every thing: look ups must not depend on it
        return isinstance(o, Thing)

    __hash__ = None


class Labelled:
    def __init__(self, label=None, a=3):
        self.label = label
        self.a = a


def rand_struct(r, depth, leaves):
    """nested dict (lists at the bottom, which may contain items and dicts)"""
    out = {}
    for n in r.sample(SECS, r.randint(0 if depth < 3 else 1, 3)):
        if depth == 0 or r.random() < .5:
            lst = r.sample(leaves, r.randint(0, 3))
            if depth and r.random() < .3:
                lst = lst + [{k: v for k, v in rand_struct(r, depth - 1, leaves).items() if k not in lst}]
            out[n] = lst
        else:
            out[n] = rand_struct(r, depth - 1, leaves)
    return out


def model_of(d):
    """name -> item name or nested model, as the definition reads"""
    if isinstance(d, dict):
        return {k: model_of(v) for k, v in d.items()}
    out = {}
    for x in d:
        if isinstance(x, dict):
            out.update({k: model_of(v) for k, v in x.items()})
        else:
            out[x] = x
    return out


def to_ast(d):
    if isinstance(d, dict):
        return {k: to_ast(v) for k, v in d.items()}
    return [to_ast(x) if isinstance(x, dict) else ast.Name(id=x) for x in d]


def paths(m, pre=()):
    for k, v in m.items():
        yield pre + (k,), v
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))


def compare(ctx, kind, coll, reg, model, name_of, cands, raw_reg_get):
    present = {}
    for path, v in paths(model):
        present[path] = v
        sp = '.'.join(path)
        try:
            got = coll.get(sp)
        except Exception as e:
            ctx.fail('a registered path is found', path=sp, raised=repr(e), model=model)
            continue
        if isinstance(v, dict):
            ctx.check(isinstance(got, type(coll)) and got.name == path[-1], 'a section path gives the section', path=sp, got_obj=repr(got)[:100])
        else:
            ctx.check(not isinstance(got, type(coll)) and name_of(got) == v, 'an item path gives the item', path=sp, got_obj=repr(got)[:100])
        try:
            g2 = raw_reg_get(sp)
        except Exception as e:
            ctx.fail('a registered path is found in the registrar', path=sp, raised=repr(e))
            continue
        ctx.check(g2 is got, 'registrar and collection agree', path=sp)
        # walking by attribute
        o = coll
        for part in path:
            o = getattr(o, part)
        ctx.check(o is got, 'attributes follow the path', path=sp)
        # iteration of a section lists its members in order
        if isinstance(v, dict):
            ctx.eq([n for n in got.name_dict], list(v), 'members of a section in definition order', path=sp)
    nope = set()
    for path in list(present) + [()]:
        for n in cands:
            p = path + (n,)
            if p not in present:
                nope.add(p)
    for path, v in present.items():
        if not isinstance(v, dict):     # attributes of an item are not below it in the collection
            nope |= {path + (n,) for n in ('name', 'label', 'a', '__class__')}
    for p in sorted(nope):
        sp = '.'.join(p)
        try:
            got = coll.get(sp)
        except (AttributeError, KeyError):
            continue
        ctx.fail('a path which is not registered is reported missing', path=sp, got_obj=repr(got)[:100], model=model)
    ctx.checks += len(nope)

    def flat(nd):
        return {k: flat(v) if isinstance(v, dict) else name_of(v) for k, v in nd.items()}
    ctx.eq(flat(coll.to_nested_dict()), model, 'back to a nested dict')
    ctx.eq(flat(reg.to_nested_dict()), model, 'registrar back to a nested dict')
    ctx.eq(list(flat(coll.to_nested_dict())), list(model), 'order of the nested dict')


def trees(ctx, i):
    r = ctx.rng
    kind = r.choice(['pipeline', 'thing', 'labelled', 'thing by label'])
    struct = rand_struct(r, 3, FUNCS if kind == 'pipeline' else ['one', 'two', 'x', 'same', 'obj_1', 'K'])
    model = model_of(struct)
    base = os.path.join(SCRATCH, 'cfg')
    if kind == 'pipeline':
        imports = ImportStatementContainer([ObjectImportStatement(list(FUNCS) + ['new1', 'new2', 'one'], 'some_mod')])
        src = to_ast(struct)
        C, R, kw = PipelineCollection, PipelineRegistrar, dict(imports=imports)
        name_of = lambda o: o.name
        mk = lambda n: ObjectView.from_ast_and_imports(ast.Name(id=n), imports)
    else:
        src = struct
        K = Labelled if kind == 'labelled' else Thing
        key = 'name' if kind == 'thing' else 'label'
        C, R, kw = SpecificClassCollection, SpecificRegistrar, dict(klass=K, key_attr=key)
        name_of = lambda o: getattr(o, key)
        mk = lambda n: K(**{key: n})
    ctx.case(kind, struct)
    keep = copy.deepcopy(struct)
    coll = C.from_dict(src, basepath=base, name='top', **kw)
    ctx.eq(struct, keep, 'the definition is unchanged')
    reg = R(coll, base, name='top', **{k: v for k, v in kw.items() if k != 'imports'})
    cands = set(SECS) | {'f1', 'one', 'two', 'x', 'same', 'nope', 'f', 'on', 'topp'}
    from pyfileconf.basemodels.registrar import Registrar as BaseReg
    raw = lambda sp: BaseReg.get(reg, sp)
    compare(ctx, kind, coll, reg, model, name_of, cands, raw)
    # setting
    objs = {}
    def remember(m, pre=()):
        for p, v in paths(model):
            objs[p] = coll.get('.'.join(p))
    remember(model)
    for step in range(r.randint(1, 4)):
        secs = [p for p, v in paths(model) if isinstance(v, dict)]
        where = r.choice(secs) if secs and r.random() < .6 else ()
        where = where + tuple(r.choice(SECS) for _ in range(r.randint(0 if where else 1, 2)))
        name = r.choice(['new1', 'new2', 'f1', 'one', 'x', 'f2'])
        # every part on the way must be a section, and the name not already a section
        m, ok = model, True
        for part in where:
            if isinstance(m, dict) and part in m:
                m = m[part]
            elif isinstance(m, dict):
                m = {}
            if not isinstance(m, dict):
                ok = False
                break
        if not ok or isinstance(m.get(name), dict):
            continue
        value = mk(name)
        ctx.case('set', kind, model, where, name)
        reg.set('.'.join(where), value)
        mm = model
        for part in where:
            mm = mm.setdefault(part, {})
        mm[name] = name
        full = where + (name,)
        ctx.check(coll.get('.'.join(full)) is value, 'a set item is found at its path', path=full)
        for p, o in objs.items():
            if p != full:
                ctx.check(coll.get('.'.join(p)) is o, 'other paths keep their items', path=p, set_at=full)
        compare(ctx, kind, coll, reg, model, name_of, cands | {'new1', 'new2'}, raw)
        sec = coll.get('.'.join(where))
        ctx.eq(sec.basepath, os.path.join(base, *where), 'config folder of the section follows its path', path=where)
        objs.clear(); remember(model)


def project(ctx):
    """through a loaded project: every item at exactly its path, with config file at the same path"""
    r = ctx.rng
    for _ in range(ctx.n(6, 40)):
        def tr(depth):
            if depth == 0 or r.random() < .4:
                return r.sample(['f1', 'f2', 'f3', 'f4', 'noargs', 'K1', 'K2'], r.randint(1, 3))
            return {n: tr(depth - 1) for n in r.sample(['x', 'xx', 'yy', 'data', 'sub2'], r.randint(1, 3))}
        t = {n: tr(2) for n in r.sample(['x', 'xx', 'yy', 'data', 'sub2'], r.randint(1, 3))}
        sd = {n: r.choice([['one', 'two'], {'deep': ['one'], 'deep2': ['uno']}]) for n in r.sample(['a', 'b'], r.randint(1, 2))}
        p = Proj(t, specific=[{'name': 'lab', 'cls': 'SK2', 'dict': sd, 'extra': {'key_attr': 'label', 'execute_attr': 'go'}}])
        ctx.case('project', t, sd)
        want = {'.'.join(q) for q, v in paths(model_of(t)) if not isinstance(v, dict)}
        wants = {'lab.' + '.'.join(q) for q, v in paths(model_of(sd)) if not isinstance(v, dict)}
        for sp in sorted(want | wants):
            ctx.check(os.path.isfile(p.cfg(sp)), 'config file of the item at its path', path=sp)
            o = p.pm.get(sp)
            if sp in wants:
                ctx.eq(o.label, sp.split('.')[-1], 'specific class item at its path')
        files = {k for k, v in tree(p.defaults).items() if v is not None and not k.endswith('section.py')}
        ctx.eq(files, {x.replace('.', os.sep) + '.py' for x in want | wants}, 'exactly one config file for each item')
        for sp in ('x.nope', 'lab.nope', 'nope.f1', 'lab.a.nope', 'x.f1.sub'):
            if sp not in want | wants:
                ctx.raises(Exception, lambda: p.pm.get(sp), 'a path which is not registered is reported missing', path=sp)


def run(ctx):
    for i in range(ctx.n(200, 3000)):
        ctx.scenario(trees, i)
    ctx.scenario(project)
