"""Models of Python builtins and of the library functions the verified code calls (trusted base)."""
import ast
import functools

import z3
from .core import *
from .types import *
from .repo import ClassInfo

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ok(st, v):
    return [('ok', st, v)]


# ---------------------------------------------------------------- scalars
@model('len')
def _len(ex, st, fn, a, kw, km, fr):
    v = a[0]
    if isinstance(v, SV) and isinstance(v.ty, TOneOf):
        return ex.split_ty(st, v, lambda s, x: [ex.raise_(s, 'TypeError')] if x is None else _len(ex, s, fn, [x], kw, km, fr))
    if isinstance(v, str):
        return ok(st, len(v))
    if isinstance(v, SS):
        return ok(st, SI(z3.Length(v.t)))
    if isinstance(v, Ptr):
        o = st.heap[v.id]
        if isinstance(o, Inst) and ex.find_method(o.cls, '__len__'):
            return ex.call_method(st, v, '__len__', [], {}, fr)
        m = getattr(o, 'map', None)
        d = m.dom if m is not None else o.dom if isinstance(o, SetO) else None
        if d is not None:
            if m is not None and m.keys is not None and m.keys.concrete():
                return ok(st, len(m.keys.items()))
            n = z3.Function('card', DOM, INT)(d)
            e = z3.K(Val, z3.BoolVal(False))
            return ok(st.fact(n >= 0, (n == 0) == (d == e)), SI(n))

    def f(s, seq):
        s = s.fact(*ex.base_len_facts(seq))
        try:
            n = ex.seq_len(seq)
        except Unsupported:
            # number of selected elements: a function of the selection
            n = ex.oracle(s, 'seqlen', [Tup(seq)], INT, pure=True)
            ne = ex.seq_nonempty(seq)
            s = s.fact(n >= 0, (n > 0) == (z3.BoolVal(ne) if isinstance(ne, bool) else ne))
        return ok(s, n if isinstance(n, int) else from_val(Val.intv(n)))
    return ex.then(ex.iter_seq(st, v, fr), f)


@model('isinstance')
def _isinstance(ex, st, fn, a, kw, km, fr):
    if isinstance(a[0], SV) and isinstance(a[0].ty, TOneOf):
        return ex.split_ty(st, a[0], lambda s, v: ex.mkbool(s, ex.isinstance_(s, v, a[1])))
    return ex.mkbool(st, ex.isinstance_(st, a[0], a[1]))


@model('callable')
def _callable(ex, st, fn, a, kw, km, fr):
    v = a[0]
    if isinstance(v, SV) and isinstance(v.ty, TOneOf):
        return ex.split_ty(st, v, lambda s, x: _callable(ex, s, fn, [x], kw, km, fr))
    if isinstance(v, (FuncV, BoundV, ClassV, PartialV, BuiltinV, CallSpy_())):
        return ok(st, True)
    if v is None or isinstance(v, (bool, int, str, SS, SI, SB, Tup)):
        return ok(st, False)
    if isinstance(v, Ptr):
        o = st.heap[v.id]
        if o.kind != 'inst':
            return ok(st, False)
        return ok(st, bool(o.cls == 'functools.partial' or ex.find_method(o.cls, '__call__')))
    if isinstance(v, SV):
        if isinstance(v.ty, TRef):
            if v.ty.callable:
                return ok(st, True)
            if v.ty.cls and ':' in v.ty.cls:
                return ok(st, bool(ex.find_method(v.ty.cls, '__call__')))
        return ex.mkbool(st, z3.And(Val.is_ref(v.t), z3.Function('callable', Val, BOOL)(v.t)))
    raise Unsupported(f'callable({v})')


def CallSpy_():
    from .expr import CallSpy
    return CallSpy


@model('hasattr')
def _hasattr(ex, st, fn, a, kw, km, fr):
    out = []
    for k, s, v in ex.getattr(st, a[0], a[1], fr):
        if k == 'ok':
            out.append(('ok', s, True))
        else:
            for s2, b in ex.branch(s, _b(ex.exc_match(s, v, BuiltinV('AttributeError')))):
                out.append(('ok', s2, False) if b else ('exc', s2, v))
    return out


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


@model('getattr')
def _getattr(ex, st, fn, a, kw, km, fr):
    if not isinstance(a[1], str):
        o = a[0]
        if isinstance(o, SV) or isinstance(o, Ptr):
            ex.notes.add('attribute reads by computed name have no side effect')
            k = ex.oracle(st, 'getattr', [o, a[1]], Val)
            has = ex.oracle(st, 'hasattr', [o, a[1]], BOOL)
            out = []
            cls = st.heap[o.id].cls if isinstance(o, Ptr) and isinstance(st.heap[o.id], Inst) else \
                o.ty.cls if isinstance(o, SV) and isinstance(o.ty, TRef) else None
            if cls in ex.opts.get('own_getattr', ()):
                # the names met are none of the attributes of the class itself
                return ex.call_method(st, o, '__getattr__', [a[1]], {}, fr)
            for s, b in ex.branch(st, has):
                if b:
                    s, v = wrap(ex, s, k, ex.opts.get('getattr', {}).get(cls))
                    out.append(('ok', s, v))
                elif len(a) > 2:
                    out.append(('ok', s, a[2]))
                else:
                    out.append(ex.raise_(s, 'AttributeError'))
            return out
        raise Unsupported('getattr with a computed name')
    res = ex.getattr(st, a[0], a[1], fr)
    if len(a) < 3:
        return res
    out = []
    for k, s, v in res:
        if k == 'ok':
            out.append((k, s, v))
        else:
            for s2, b in ex.branch(s, _b(ex.exc_match(s, v, BuiltinV('AttributeError')))):
                out.append(('ok', s2, a[2]) if b else ('exc', s2, v))
    return out


@model('setattr')
def _setattr(ex, st, fn, a, kw, km, fr):
    if not isinstance(a[1], str):
        # attribute name chosen at run time: logged write on the object
        s = st.event('setattr', a[0], a[1], a[2])
        return ok(s, None)
    return [('ok' if k == 'next' else k, s, None if k == 'next' else v)
            for k, s, v in ex.setattr(st, a[0], a[1], a[2], fr)]


def _plain_setattr(ex, st, o, key, v):
    if not (isinstance(o, Ptr) and isinstance(st.heap[o.id], Inst)):
        raise Unsupported('super().__setattr__')
    ob = st.heap[o.id]
    if isinstance(key, str):
        return ok(st.put(o.id, ob.with_attr(key, v)), None)
    if not isinstance(key, SS):
        raise Unsupported('super().__setattr__')
    out, rest = [], [st]
    for a in sorted(ob.attrs):
        nxt = []
        for s in rest:
            for s2, b in ex.branch(s, key.t == z3.StringVal(a)):
                if b:
                    out += ok(s2.put(o.id, ob.with_attr(a, v)), None)
                else:
                    nxt.append(s2)
        rest = nxt
    if rest:
        raise Unsupported('super().__setattr__ with an unknown name')
    return out


@model('super.__setattr__')
def _ssetattr(ex, st, fn, a, kw, km, fr):
    return _plain_setattr(ex, st, fn.selfv, a[0], a[1])


@model('object.__setattr__')
def _osetattr(ex, st, fn, a, kw, km, fr):
    return _plain_setattr(ex, st, a[0], a[1], a[2])


@model('bool')
def _bool(ex, st, fn, a, kw, km, fr):
    return [('ok', s, b) for s, b in ex.truth_branch(st, a[0], fr)]


@model('str', 'repr')
def _str(ex, st, fn, a, kw, km, fr):
    v = a[0] if a else ''
    if isinstance(v, SV) and isinstance(v.ty, TOneOf) and ex.has_str(v):
        return ex.split_ty(st, v, lambda s, x: _str(ex, s, fn, [x], kw, km, fr))
    if fn.name == 'str':
        if isinstance(v, (str, SS)):
            return ok(st, v)
        if isinstance(v, (bool, int)) or v is None:
            return ok(st, str(v))
    if isinstance(v, SV) and fn.name == 'str':
        t = v.t
        if isinstance(v.ty, TRef) and ex.find_method(v.ty.cls, '__str__'):
            return ex.call_method(st, v, '__str__', [], {}, fr)
        r = ex.pure_term(st, 'str_of', [v], STR)
        return ok(st, SS(z3.If(Val.is_strv(t), Val.s(t), r)))
    if isinstance(v, Ptr) and isinstance(st.heap[v.id], Inst):
        m = '__str__' if fn.name == 'str' else '__repr__'
        if ex.find_method(st.heap[v.id].cls, m):
            return ex.call_method(st, v, m, [], {}, fr)
    return ok(st, SS(ex.pure_term(st, fn.name + '_of', [v], STR)))


@model('int')
def _int(ex, st, fn, a, kw, km, fr):
    if isinstance(a[0], (int, SI)):
        return ok(st, a[0])
    raise Unsupported('int()')


@model('type')
def _type(ex, st, fn, a, kw, km, fr):
    v = a[0]
    if isinstance(v, Ptr):
        o = st.heap[v.id]
        if isinstance(o, Inst):
            return ok(st, ClassV(o.cls))
        return ok(st, BuiltinV(o.kind))
    if isinstance(v, SV):
        return ok(st, SV(ex.pure_term(st, 'type_of', [v], Val), TRef('type', __name__=TStr())))
    return ok(st, BuiltinV({str: 'str', SS: 'str', int: 'int', SI: 'int', bool: 'bool', SB: 'bool', Tup: 'tuple'}.get(type(v), 'object')))


@model('hash')
def _hash(ex, st, fn, a, kw, km, fr):
    if isinstance(a[0], Ptr) and isinstance(st.heap[a[0].id], Inst) and ex.find_method(st.heap[a[0].id].cls, '__hash__'):
        return ex.call_method(st, a[0], '__hash__', [], {}, fr)
    return ok(st, SI(ex.pure_term(st, 'hash', [a[0]], INT)))


@model('id')
def _id(ex, st, fn, a, kw, km, fr):
    return ok(st, SI(z3.Function('id', Val, INT)(to_val(a[0]))))


@model('typing.cast')
def _cast(ex, st, fn, a, kw, km, fr):
    return ok(st, a[1])


@model('quit', 'exit', 'sys.exit')
def _quit(ex, st, fn, a, kw, km, fr):
    return [ex.raise_(st, 'SystemExit', *a)]


@model('pdb.post_mortem')
def _post_mortem(ex, st, fn, a, kw, km, fr):
    return ex.effect(st, 'call', [fn, *a])


@model('traceback.format_exc')
def _format_exc(ex, st, fn, a, kw, km, fr):
    """a text determined by the exception being handled"""
    e = st.ghost.get('handling')
    return ok(st, SS(ex.pure_term(st, 'format_exc', [e], STR)))


@model('inspect.isclass')
def _isclass(ex, st, fn, a, kw, km, fr):
    v = a[0]
    if isinstance(v, ClassV):
        return ok(st, True)
    if isinstance(v, SV):
        if isinstance(v.ty, TRef) and v.ty.cls == 'type':
            return ok(st, True)
        return ex.mkbool(st, z3.And(Val.is_ref(v.t), z3.Function('isinst', Val, STR, BOOL)(v.t, z3.StringVal('type'))))
    return ok(st, False)


# ---------------------------------------------------------------- containers
@model('list')
def _list(ex, st, fn, a, kw, km, fr):
    if not a:
        s, p = st.alloc(ListO(Seq()))
        return ok(s, p)

    def f(s, q):
        s2, p = s.alloc(ListO(q))
        return ok(s2, p)
    return ex.then(ex.iter_seq(st, a[0], fr), f)


@model('any', 'all')
def _any(ex, st, fn, a, kw, km, fr):
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: ex.quant_seq(s, fn.name == 'any', q, fr))


@model('itertools.chain')
def _chain(ex, st, fn, a, kw, km, fr):
    st, p = st.alloc(ListO(Seq()))

    def add(s, x):
        return ex.then(ex.iter_seq(s, x, fr), lambda s2, q: [('next', s2.put(p.id, ListO(Seq(s2.heap[p.id].seq.parts + q.parts))), None)])

    res = [('next', st, None)]
    for x in a:
        out = []
        for k, s, v in res:
            if k != 'next':
                out.append((k, s, v))
            elif type(x).__name__ == 'StarV':
                out += ex.iterate(s, x.seq, add)
            else:
                out += add(s, x)
        res = out
    return [('ok' if k == 'next' else k, s, p if k == 'next' else v) for k, s, v in res]


@model('itertools.chain.from_iterable')
def _chainf(ex, st, fn, a, kw, km, fr):
    from .expr import StarV
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: _chain(ex, s, fn, [StarV(q)], {}, None, fr))


def opaque_seq(ex, st, name, vs, et=None):
    t = ex.oracle(st, name, vs, pure=True)
    ex.notes.add(f'{name}: a deterministic sequence of its argument sequences (library)')
    return ok(st, SV(t, TList(et)))


@model('itertools.product')
def _product(ex, st, fn, a, kw, km, fr):
    if kw or km is not None:
        raise Unsupported('product repeat')
    if len(a) == 1 and type(a[0]).__name__ == 'StarV':
        return opaque_seq(ex, st, 'itertools.product', [Tup(a[0].seq)])
    raise Unsupported('product arguments')


@model('dict.fromkeys')
def _fromkeys(ex, st, fn, a, kw, km, fr):
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: opaque_seq(ex, s, 'dict.fromkeys', [Tup(q), *a[1:]], TStr()))


@model('tuple')
def _tuple(ex, st, fn, a, kw, km, fr):
    if not a:
        return ok(st, Tup([]))
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: ok(s, Tup(q)))


@model('iter')
def _iter(ex, st, fn, a, kw, km, fr):
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: ok(s, Tup(q)))


@model('set', 'frozenset')
def _set(ex, st, fn, a, kw, km, fr):
    if not a:
        s, p = st.alloc(SetO(z3.K(Val, z3.BoolVal(False))))
        return ok(s, p)
    d = ex.dom_of(st, a[0])
    if d is not None:
        s, p = st.alloc(SetO(d, ex.et_of(st, a[0])))
        return ok(s, p)
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: ex.make_set(s, q))


@model('dict', 'collections.OrderedDict')
def _dict(ex, st, fn, a, kw, km, fr):
    m = MapV.empty()
    if a:
        m = m.overlay(ex.map_of(st, a[0]))
        m = MapV(m.dom, m.val, m.kt, m.vt, None, m.keys)
    if km is not None:
        m = m.overlay(km)
    for k, v in kw.items():
        m = m.set(to_val(k), ex.store_val(st, v))
    s, p = st.alloc(DictO(m))
    return ok(s, p)


@model('collections.defaultdict')
def _defaultdict(ex, st, fn, a, kw, km, fr):
    d = {'list': 'list', 'set': 'nset'}.get(a[0].name if a and isinstance(a[0], BuiltinV) else None)
    if d is None and a and isinstance(a[0], FuncV) and len(a[0].node.body) == 1 and \
            ast.unparse(a[0].node.body[0]) in ('return set()', 'return list()', 'return []'):
        d = 'nset' if 'set' in ast.unparse(a[0].node.body[0]) else 'list'
    if d is None:
        raise Unsupported('defaultdict factory')
    s, p = st.alloc(DictO(MapV.empty(), d))
    if d == 'nset':
        s = s.with_field(('nset', p.id), z3.K(Val, z3.K(Val, z3.BoolVal(False))))
    return ok(s, p)


def index_of(seg, idx):
    return z3.simplify(idx - seg.lo)


@model('enumerate')
def _enumerate(ex, st, fn, a, kw, km, fr):
    start = a[1] if len(a) > 1 else kw.get('start', 0)

    def f(s, seq):
        off = z3.IntVal(start) if isinstance(start, int) else ex.as_int(start)
        parts = []
        for p in seq.parts:
            if isinstance(p, list):
                parts.append([Tup([from_val(Val.intv(z3.simplify(off + i))), v]) for i, v in enumerate(p)])
                off = z3.simplify(off + len(p))
            elif isinstance(p, Seg) and p.base.kind == 'int' and p.is_map():
                n = from_val(Val.intv(z3.simplify(p.idx - p.lo + off)))
                parts.append(Seg(p.base, p.lo, p.hi, p.idx,
                                 [(c, Seq.of(Tup([n, q.items()[0]]))) for c, q in p.alts], p.upto))
                off = z3.simplify(off + z3.If(p.hi > p.lo, p.hi - p.lo, 0))
            else:
                raise Unsupported('enumerate over a filtered sequence')
        return ok(s, Tup(Seq(parts)))
    return ex.then(ex.iter_seq(st, a[0], fr), f)


@model('zip')
def _zip(ex, st, fn, a, kw, km, fr):
    res = [('ok', st, [])]
    for x in a:
        res = ex.then(res, lambda s, acc, x=x: [(k, s2, acc + [q] if k == 'ok' else q) for k, s2, q in ex.iter_seq(s, x, fr)])

    def f(s, seqs):
        if all(q.concrete() for q in seqs):
            return ok(s, Tup(Seq.of(*[Tup(list(t)) for t in zip(*[q.items() for q in seqs])])))
        if all(len(q.parts) == 1 and isinstance(q.parts[0], Seg) and q.parts[0].base.kind == 'int' and
               q.parts[0].is_map() for q in seqs):
            segs = [q.parts[0] for q in seqs]
            p0 = segs[0]
            elems = []
            hi = p0.hi
            for p in segs:
                at = z3.simplify(p0.idx - p0.lo + p.lo)
                elems.append(sub(p.alts[0][1].items()[0], [(p.idx, at)]) if p is not p0 else p.alts[0][1].items()[0])
                h = z3.simplify(p.hi - p.lo + p0.lo)
                if not z3.eq(z3.simplify(hi), h) and ex.check([*s.pc, *ex.base_len_facts(Seq([p0])), *ex.base_len_facts(Seq([p])), hi != h]) != z3.unsat:
                    hi = z3.If(hi < h, hi, h)
            return ok(s, Tup(Seq([Seg(p0.base, p0.lo, z3.simplify(hi), p0.idx, [(z3.BoolVal(True), Seq.of(Tup(elems)))])])))
        # a list against a head-and-tail list
        raise Unsupported('zip of composite sequences')
    return ex.then(res, f)


@model('range')
def _range(ex, st, fn, a, kw, km, fr):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported('range step')
    if isinstance(lo, int) and isinstance(hi, int):
        return ok(st, Tup(list(range(lo, hi))))
    l, h = ex.as_int(lo), ex.as_int(hi)
    b = Base('range', 'int', lambda i: SI(i), length=z3.IntVal(0))
    i = z3.Const('e@range', INT)
    return ok(st, Tup(Seq([Seg(b, l, h, i, [(z3.BoolVal(True), Seq.of(SI(i)))])])))


@model('reversed')
def _reversed(ex, st, fn, a, kw, km, fr):
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: ex.rev(s, q))


@model('sorted')
def _sorted(ex, st, fn, a, kw, km, fr):
    raise Unsupported('sorted')


# -- list methods
def lst(st, fn):
    return st.heap[fn.selfv.id]


@model('list.append')
def _append(ex, st, fn, a, kw, km, fr):
    return ok(st.put(fn.selfv.id, ListO(lst(st, fn).seq.append(a[0]))), None)


@model('list.extend')
def _extend(ex, st, fn, a, kw, km, fr):
    return ex.then(ex.iter_seq(st, a[0], fr), lambda s, q: ok(s.put(fn.selfv.id, ListO(s.heap[fn.selfv.id].seq + q)), None))


@model('list.insert')
def _insert(ex, st, fn, a, kw, km, fr):
    seq = lst(st, fn).seq
    if a[0] == 0:
        return ok(st.put(fn.selfv.id, ListO(Seq.of(a[1]) + seq)), None)
    if seq.concrete() and isinstance(a[0], int):
        it = list(seq.items())
        it.insert(a[0], a[1])
        return ok(st.put(fn.selfv.id, ListO(Seq.of(*it))), None)
    raise Unsupported('insert position')


def elem_type(seq):
    tys = set()

    def go(q):
        for p in q.parts:
            for x in (p if isinstance(p, list) else []):
                tys.add(TStr if isinstance(x, (str, SS)) else x.ty if isinstance(x, SV) and isinstance(x.ty, TRef) else None)
            if isinstance(p, Seg):
                for _, r in p.alts:
                    go(r)
    go(seq)
    t = tys.pop() if len(tys) == 1 else None
    return TStr() if t is TStr else t or TAny()


@model('list.remove')
def _remove(ex, st, fn, a, kw, km, fr):
    seq = lst(st, fn).seq
    if any(isinstance(p, AccMark) for p in seq.parts):
        raise Unsupported('remove from a loop accumulator')
    out = []
    for k, s, b in ex.contains(st, fn.selfv, a[0], fr):
        if k != 'ok':
            out.append((k, s, b))
            continue
        for s2, there in ex.branch(s, _b(b)):
            if not there:
                out.append(ex.raise_(s2, 'ValueError'))
                continue
            # the rest is a function of the list and the removed element
            s3, q = wrap(ex, s2, ex.pure_term(s2, 'list without', [Tup(seq), a[0]], Val), TList(elem_type(seq)))
            out += ex.then(ex.iter_seq(s3, q, fr), lambda s4, r: ok(s4.put(fn.selfv.id, ListO(r)), None))
    return out


@model('os.walk')
def _walk(ex, st, fn, a, kw, km, fr):
    return ok(st, BuiltinV('walking', a[0]))


@model('next')
def _next(ex, st, fn, a, kw, km, fr):
    if not (isinstance(a[0], BuiltinV) and a[0].name == 'walking') or len(a) > 1:
        raise Unsupported('next')
    ex.notes.add('the first entry of os.walk holds the folder, the names of its folders and of its files; where there is no folder, nothing is yielded (library fact)')
    out = []
    for s, b in ex.branch(st, ex.oracle(st, 'is a folder', [a[0].selfv], BOOL)):
        if not b:
            out.append(ex.raise_(s, 'StopIteration'))
            continue
        vs = []
        for what in ('folders in', 'files in'):
            s, q = wrap(ex, s, ex.oracle(s, what, [a[0].selfv]), TList(TStr()))
            (_, s, r), = ex.iter_seq(s, q, fr)
            s, p = s.alloc(ListO(r))
            vs.append(p)
        out.append(('ok', s, Tup(Seq.of(a[0].selfv, *vs))))
    return out


@model('list.pop')
def _pop(ex, st, fn, a, kw, km, fr):
    i = a[0] if a else -1
    seq = lst(st, fn).seq
    if any(isinstance(p, AccMark) for p in seq.parts):
        raise Unsupported('pop from a loop accumulator')

    def f(s, v):
        q = s.heap[fn.selfv.id].seq
        if i == -1:
            (s2, r), = ex.slice_seq(s, q, None, -1)
        elif i == 0:
            (s2, r), = ex.slice_seq(s, q, 1, None)
        elif q.concrete() and isinstance(i, int):
            it = list(q.items())
            it.pop(i)
            s2, r = s, Seq.of(*it)
        else:
            raise Unsupported('pop position')
        return ok(s2.put(fn.selfv.id, ListO(r)), v)
    return ex.then(ex.index_seq(st, seq, i), f)


@model('list.copy')
def _lcopy(ex, st, fn, a, kw, km, fr):
    s, p = st.alloc(ListO(lst(st, fn).seq))
    return ok(s, p)


@model('list.clear')
def _lclear(ex, st, fn, a, kw, km, fr):
    return ok(st.put(fn.selfv.id, ListO(Seq())), None)


@model('list.reverse')
def _lreverse(ex, st, fn, a, kw, km, fr):
    (_, s, p), = ex.rev(st, lst(st, fn).seq)
    return ok(s.put(fn.selfv.id, s.heap[p.id]), None)


# -- dict methods
def setmap(st, p, m):
    o = st.heap[p.id]
    return st.put(p.id, Inst(o.cls, o.attrs, m) if isinstance(o, Inst) else DictO(m, o.default))


def with_kw(ex, st, m, kw, km):
    if km is not None:
        m = m.overlay(km)
    for k, v in kw.items():
        m = m.set(to_val(k), ex.store_val(st, v))
    return m


@model('dict.update', 'super.update')
def _dupdate(ex, st, fn, a, kw, km, fr):
    m = ex.map_of(st, fn.selfv)
    if a and a[0] is not None:
        m = m.overlay(ex.map_of(st, a[0]))
    return ok(setmap(st, fn.selfv, with_kw(ex, st, m, kw, km)), None)


@model('super.__init__')
def _sinit(ex, st, fn, a, kw, km, fr):
    o = st.heap[fn.selfv.id] if isinstance(fn.selfv, Ptr) else None
    if isinstance(o, Inst) and o.map is not None:
        return _dupdate(ex, st, fn, a, kw, km, fr)
    if isinstance(o, Inst):
        return ok(st.put(fn.selfv.id, o.with_attr('args', Tup(list(a)))) if a else st, None)
    return ok(st, None)


@model('super.__repr__')
def _srepr(ex, st, fn, a, kw, km, fr):
    return ok(st, SS(ex.pure_term(st, 'dict_repr', [fn.selfv], STR)))


@model('super.__setitem__', 'dict.__setitem__')
def _ssetitem(ex, st, fn, a, kw, km, fr):
    p, k, v = ([fn.selfv] + a) if fn.name.startswith('super') else a
    m = ex.map_of(st, p)
    return ok(setmap(st, p, m.set(to_val(k), ex.store_val(st, v))), None)


@model('super.__getitem__', 'dict.__getitem__')
def _sgetitem(ex, st, fn, a, kw, km, fr):
    m = ex.map_of(st, fn.selfv)
    out = []
    for s, b in ex.branch(st, z3.Select(m.dom, to_val(a[0]))):
        out.append(('ok', *wrap(ex, s, z3.Select(m.val, to_val(a[0])), m.vt)) if b else ex.raise_(s, 'KeyError'))
    return out


@model('dict.items', 'dict.keys', 'dict.values')
def _dview(ex, st, fn, a, kw, km, fr):
    from .exec import ViewV
    o = st.heap[fn.selfv.id]
    if isinstance(o, DictO) and o.default == 'nset' and not fn.name.endswith('keys'):
        raise Unsupported('values of a dict of sets')
    return ok(st, ViewV(fn.name.split('.')[1], fn.selfv))


@model('dict.get')
def _dget(ex, st, fn, a, kw, km, fr):
    m = ex.map_of(st, fn.selfv)
    k = to_val(a[0])
    out = []
    for s, b in ex.branch(st, z3.Select(m.dom, k)):
        if b:
            out.append(('ok', *wrap(ex, s, z3.Select(m.val, k), m.vt)))
        else:
            out.append(('ok', s, a[1] if len(a) > 1 else None))
    return out


@model('dict.pop')
def _dpop(ex, st, fn, a, kw, km, fr):
    m = ex.map_of(st, fn.selfv)
    k = to_val(a[0])
    out = []
    if st.loop and m.log is not None and len(a) > 1 and (a[1] is None or isinstance(a[1], (bool, int, str))):
        return ok(setmap(st, fn.selfv, m.delete(k)), SV(z3.If(z3.Select(m.dom, k), z3.Select(m.val, k), to_val(a[1]))))
    for s, b in ex.branch(st, z3.Select(m.dom, k)):
        if b:
            s2, v = wrap(ex, s, z3.Select(m.val, k), m.vt)
            out.append(('ok', setmap(s2, fn.selfv, m.delete(k)), v))
        elif len(a) > 1:
            out.append(('ok', s, a[1]))
        else:
            out.append(ex.raise_(s, 'KeyError'))
    return out


@model('dict.setdefault')
def _dsetdefault(ex, st, fn, a, kw, km, fr):
    m = ex.map_of(st, fn.selfv)
    k = to_val(a[0])
    out = []
    for s, b in ex.branch(st, z3.Select(m.dom, k)):
        if b:
            out.append(('ok', *wrap(ex, s, z3.Select(m.val, k), m.vt)))
        else:
            v = a[1] if len(a) > 1 else None
            out.append(('ok', setmap(s, fn.selfv, m.set(k, ex.store_val(s, v))), v))
    return out


@model('dict.copy')
def _dcopy(ex, st, fn, a, kw, km, fr):
    m = ex.map_of(st, fn.selfv)
    s, p = st.alloc(DictO(MapV(m.dom, m.val, m.kt, m.vt, None, m.keys)))
    return ok(s, p)


@model('dict.clear')
def _dclear(ex, st, fn, a, kw, km, fr):
    if ex.map_of(st, fn.selfv).log is not None:
        raise Unsupported('clear in a loop')
    return ok(setmap(st, fn.selfv, MapV.empty()), None)


# -- set methods
@model('set.add')
def _sadd(ex, st, fn, a, kw, km, fr):
    o = st.heap[fn.selfv.id]
    et = o.et or (a[0].ty if isinstance(a[0], SV) else TStr() if isinstance(a[0], (str, SS)) else None)
    st, t = ex.hashed(st, a[0])
    return ok(st.put(fn.selfv.id, SetO(z3.Store(o.dom, t, z3.BoolVal(True)), et)), None)


@model('set.update')
def _supd(ex, st, fn, a, kw, km, fr):
    return ex.set_update(st, fn.selfv, a[0], fr)


@model('set.union')
def _sunion(ex, st, fn, a, kw, km, fr):
    o = st.heap[fn.selfv.id]
    s, p = st.alloc(SetO(o.dom, o.et))
    return [(k, s2, p if k == 'ok' else v) for k, s2, v in ex.set_update(s, p, a[0], fr)]


@model('set.difference', 'set.intersection')
def _sdiff(ex, st, fn, a, kw, km, fr):
    o = st.heap[fn.selfv.id]
    d = ex.dom_of(st, a[0])
    if d is None:
        raise Unsupported('set operation on a sequence')
    r = z3.SetDifference(o.dom, d) if fn.name.endswith('difference') else z3.SetIntersect(o.dom, d)
    s, p = st.alloc(SetO(r, o.et))
    return ok(s, p)


@model('set.discard', 'set.remove')
def _sdiscard(ex, st, fn, a, kw, km, fr):
    o = st.heap[fn.selfv.id]
    r = SetO(z3.Store(o.dom, to_val(a[0]), z3.BoolVal(False)), o.et)
    if fn.name.endswith('discard'):
        return ok(st.put(fn.selfv.id, r), None)
    return [('ok', s.put(fn.selfv.id, r), None) if b else ex.raise_(s, 'KeyError')
            for s, b in ex.branch(st, z3.Select(o.dom, to_val(a[0])))]


@model('set.copy')
def _scopy(ex, st, fn, a, kw, km, fr):
    o = st.heap[fn.selfv.id]
    s, p = st.alloc(SetO(o.dom, o.et))
    return ok(s, p)


@model('nset.add')
def _nadd(ex, st, fn, a, kw, km, fr):
    v = fn.selfv
    arr = st.fields[('nset', v.dptr.id)]
    st, t = ex.hashed(st, a[0])
    return ok(st.with_field(('nset', v.dptr.id), z3.Store(arr, v.key, z3.Store(z3.Select(arr, v.key), t, z3.BoolVal(True)))), None)


@model('nset.update')
def _nupd(ex, st, fn, a, kw, km, fr):
    v = fn.selfv
    arr = st.fields[('nset', v.dptr.id)]
    d = ex.dom_of(st, a[0])
    if d is None:
        raise Unsupported('nset.update from a sequence')
    return ok(st.with_field(('nset', v.dptr.id), z3.Store(arr, v.key, z3.SetUnion(z3.Select(arr, v.key), d))), None)


# ---------------------------------------------------------------- strings
@model('str.split')
def _split(ex, st, fn, a, kw, km, fr):
    sep = a[0] if a else None
    v = fn.selfv
    if isinstance(v, str) and (sep is None or isinstance(sep, str)):
        s, p = st.alloc(ListO(Seq.of(*v.split(sep))))
        return ok(s, p)
    if not isinstance(sep, str):
        raise Unsupported('split separator')
    t = z3.simplify(ex.as_str(v))
    j = ex.joins.get(t.sexpr())
    if j and j[0] == sep and ex.sep_free(st, j[1], sep):
        s, p = st.alloc(ListO(j[1]))
        ex.notes.add('str.split undoes str.join of separator-free parts (library fact)')
        return ok(s, p)
    ex.notes.add(SPLITFACT)
    s, parts = st, []
    for t in pieces(t, sep) if sep else [t]:
        if z3.is_string_value(t) and '\\u' not in t.as_string():
            parts.append([from_val(Val.strv(t))])
            continue
        b = split_base(ex, t, sep)
        s = s.fact(b.len >= 1)
        # a separator-free string splits into itself
        s = s.fact(z3.Implies(z3.Not(z3.Contains(t, z3.StringVal(sep))),
                                z3.And(b.len == 1, b.get(z3.IntVal(0)).t == t)))
        s = s.fact(z3.Implies(z3.Contains(t, z3.StringVal(sep)), b.len >= 2)) if sep else s
        parts.append(full_seg(b))
    s, p = s.alloc(ListO(Seq(parts)))
    return ok(s, p)


def unstr(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == 'strv':
        x = t.arg(0)
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() == 's':
            return x.arg(0)
    return t


def normalise(seq):
    """a segment followed by its own next element is the longer segment"""
    parts = []
    for p in seq.parts:
        if isinstance(p, list) and parts and isinstance(parts[-1], Seg):
            g = parts[-1]
            p = list(p)
            while p and g.base.kind == 'int' and g.is_map():
                try:
                    nxt = to_val(sub(g.alts[0][1].items()[0], [(g.idx, g.hi)]))
                    this = to_val(p[0])
                except Unsupported:
                    break
                if not z3.eq(unstr(nxt), unstr(this)):
                    break
                p.pop(0)
                g = Seg(g.base, g.lo, z3.simplify(g.hi + 1), g.idx, g.alts, g.upto)
                parts[-1] = g
        if not isinstance(p, list) or p:
            parts.append(p)
    return Seq(parts)


SPLITFACT = 'str.split returns at least one part, no part contains the separator, and joining the parts gives the string back (library fact)'


def whole_split(p, sep):
    """all parts of one string split by sep"""
    tag = p.base.tag
    return tag and tag[0] == 'split' and tag[2] == sep and p.is_map() and z3.is_true(z3.simplify(p.lo == 0)) and \
        z3.eq(z3.simplify(p.hi), z3.simplify(p.base.len)) and \
        z3.eq(z3.simplify(to_val(p.alts[0][1].items()[0])), z3.simplify(to_val(p.base.get(p.idx))))


def pieces(t, sep):
    """the pieces of a concatenation around the separators in its constants: split(a + sep + b) == split(a) + split(b)"""
    args = []

    def flat(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in x.children():
                flat(c)
        else:
            args.append(x)
    flat(t)
    cur, out = [], []
    for x in args:
        if z3.is_string_value(x) and sep in x.as_string() and '\\u' not in x.as_string():
            bits = x.as_string().split(sep)
            for k, bit in enumerate(bits):
                if k:
                    out.append(cur)
                    cur = []
                if bit:
                    cur.append(z3.StringVal(bit))
        else:
            cur.append(x)
    out.append(cur)
    return [z3.StringVal('') if not c else c[0] if len(c) == 1 else z3.simplify(z3.Concat(*c)) for c in out]


@model('str.join')
def _join(ex, st, fn, a, kw, km, fr):
    sep = fn.selfv
    if not isinstance(sep, str):
        raise Unsupported('join separator')

    def f(s, seq):
        if seq.concrete():
            items = seq.items()
            if all(isinstance(x, str) for x in items):
                return ok(s, sep.join(items))
            ts = []
            for i, x in enumerate(items):
                t = ex.as_str(x)
                if t is None:
                    if isinstance(x, SV):
                        s = s.fact(Val.is_strv(x.t))
                        t = Val.s(x.t)
                    else:
                        return [ex.raise_(s, 'TypeError')]
                ts += ([z3.StringVal(sep)] if i else []) + [t]
            t = z3.simplify(z3.Concat(*ts) if len(ts) > 1 else ts[0])
            if len(items) > 0:
                ex.joins.setdefault(t.sexpr(), (sep, seq))
            return ok(s, from_val(Val.strv(t)))
        seq = normalise(seq)
        ts = []
        for p in seq.parts:
            if isinstance(p, Seg):
                if not whole_split(p, sep):
                    ts = None
                    break
                ts.append(p.base.tag[1])
            else:
                xs = [ex.as_str(x) for x in p]
                if any(x is None for x in xs):
                    ts = None
                    break
                ts += xs
        if ts and len(ts) > 1:
            ex.notes.add(SPLITFACT)
            t = z3.simplify(z3.Concat(*[y for i, x in enumerate(ts) for y in ([z3.StringVal(sep)] if i else []) + [x]]))
            ex.joins.setdefault(t.sexpr(), (sep, seq))
            return ok(s, SS(t))
        if len(seq.parts) == 1 and isinstance(seq.parts[0], Seg):
            p = seq.parts[0]
            tag = p.base.tag
            if tag and tag[0] == 'split' and tag[2] == sep and p.is_map() and z3.is_true(z3.simplify(p.lo == 0)) and \
                    z3.eq(z3.simplify(p.hi), z3.simplify(p.base.len)) and \
                    z3.eq(z3.simplify(to_val(p.alts[0][1].items()[0])), z3.simplify(to_val(p.base.get(p.idx)))):
                ex.notes.add('str.split returns at least one part, no part contains the separator, and joining the parts gives the string back (library fact)')
                return ok(s, SS(tag[1]))
        t = ex.oracle(s, 'py_join' + sep, [Tup(ex.flatten_joins(seq, sep))], STR, pure=True)
        ex.joins.setdefault(t.sexpr(), (sep, seq))
        if len(seq.parts) == 1 and isinstance(seq.parts[0], Seg) and seq.parts[0].is_map() and seq.parts[0].base.kind == 'int':
            p = seq.parts[0]
            e0 = sub(p.alts[0][1].items()[0], [(p.idx, p.lo)])
            v0 = to_val(e0)
            s = s.fact(z3.Implies(p.hi <= p.lo, t == z3.StringVal('')),
                         z3.Implies(p.hi - p.lo == 1, t == Val.s(v0)))
        return ok(s, SS(t))
    return ex.then(ex.iter_seq(st, a[0], fr), f)


@model('str.startswith')
def _startswith(ex, st, fn, a, kw, km, fr):
    if isinstance(fn.selfv, str) and isinstance(a[0], str):
        return ok(st, fn.selfv.startswith(a[0]))
    return ex.mkbool(st, z3.PrefixOf(ex.as_str(a[0]), ex.as_str(fn.selfv)))


@model('str.endswith')
def _endswith(ex, st, fn, a, kw, km, fr):
    if isinstance(fn.selfv, str) and isinstance(a[0], str):
        return ok(st, fn.selfv.endswith(a[0]))
    return ex.mkbool(st, z3.SuffixOf(ex.as_str(a[0]), ex.as_str(fn.selfv)))


@model('str.strip', 'str.lower', 'str.upper', 'str.rstrip', 'str.lstrip', 'str.replace', 'str.isidentifier')
def _strpure(ex, st, fn, a, kw, km, fr):
    m = fn.name.split('.')[1]
    if isinstance(fn.selfv, str) and all(isinstance(x, str) for x in a):
        return ok(st, getattr(fn.selfv, m)(*a))
    if m == 'isidentifier':
        return ok(st, SB(ex.pure_term(st, 'str.' + m, [fn.selfv] + list(a), BOOL)))
    return ok(st, SS(ex.pure_term(st, 'str.' + m, [fn.selfv] + list(a), STR)))


@model('str.splitlines', 'str.rsplit')
def _strsplitpure(ex, st, fn, a, kw, km, fr):
    if isinstance(fn.selfv, str):
        s, p = st.alloc(ListO(Seq.of(*getattr(fn.selfv, fn.name.split('.')[1])(*a))))
        return ok(s, p)
    raise Unsupported(fn.name)


@model('tuple.index', 'tuple.count', 'list.index', 'list.count', 'list.sort', 'str.format', 'str.find')
def _unsup(ex, st, fn, a, kw, km, fr):
    raise Unsupported(fn.name)


# ---------------------------------------------------------------- library
@model('copy.deepcopy', 'copy.copy')
def _deepcopy(ex, st, fn, a, kw, km, fr):
    v = a[0]
    ex.notes.add('copy.deepcopy yields an equal, independent object (library fact)')
    memo = {}

    def cp(s, x):
        if isinstance(x, Ptr):
            if x.id in memo:
                return s, memo[x.id]
            o = s.heap[x.id]
            if isinstance(o, ListO):
                s, q = cpseq(s, o.seq)
                s, p = s.alloc(ListO(q))
                memo[x.id] = p
                return s, p
            if isinstance(o, Inst) and ':' in o.cls and ex.find_method(o.cls, '__deepcopy__'):
                raise Unsupported('__deepcopy__')
            if isinstance(o, Inst):
                s, p = s.alloc(o)
                memo[x.id] = p
                attrs = {}
                for k, y in o.attrs.items():
                    s, attrs[k] = cp(s, y) if fn.name == 'copy.deepcopy' else (s, y)
                return s.put(p.id, Inst(o.cls, attrs, o.map)), p
            s, p = s.alloc(o)
            memo[x.id] = p
            return s, p
        if isinstance(x, Tup):
            s, q = cpseq(s, x.seq)
            return s, Tup(q)
        if isinstance(x, SV):
            # copies of user values are equal to the original; identity is not tracked
            return s, x
        return s, x

    def cpseq(s, q):
        parts = []
        for p in q.parts:
            if isinstance(p, list):
                r = []
                for y in p:
                    s, z = cp(s, y)
                    r.append(z)
                parts.append(r)
            else:
                parts.append(p)
        return s, Seq(parts)
    return ok(*cp(st, v))


@model('functools.partial')
def _partial(ex, st, fn, a, kw, km, fr):
    m = km if km is not None else MapV.empty()
    for k, v in kw.items():
        m = m.set(to_val(k), ex.store_val(st, v))
    st, kp = st.alloc(DictO(MapV(m.dom, m.val, m.kt, m.vt, None, m.keys)))
    st, p = st.alloc(Inst('functools.partial', {'func': a[0], 'args': Tup(list(a[1:])), 'keywords': kp}))
    return ok(st, p)


@model('os.path.join')
def _pjoin(ex, st, fn, a, kw, km, fr):
    r = a[0]
    for x in a[1:]:
        r = SS(ex.pure_term(st, 'os.path.join2', [r, x], STR))
    return ok(st, r)


# files: opening, reading, writing and closing are effects on the outside world
FILE = TRef('io:file')


@model('open')
def _open(ex, st, fn, a, kw, km, fr):
    mode = kw.get('mode', a[1] if len(a) > 1 else 'r')
    rest = [y for k in sorted(kw) if k not in ('file', 'mode') for y in (k, kw[k])]
    return ex.effect(st, 'open', [kw.get('file', a[0] if a else None), mode] + list(a[2:]) + rest, ty=FILE)


@model('io.__enter__')
def _ioenter(ex, st, fn, a, kw, km, fr):
    return ok(st, fn.selfv)


@model('io.__exit__', 'io.close')
def _ioexit(ex, st, fn, a, kw, km, fr):
    return ex.then(ex.effect(st, 'file.close', [fn.selfv], may_raise=False), lambda s, _: ok(s, None))


@model('io.write', 'io.read', 'io.readlines')
def _iowrite(ex, st, fn, a, kw, km, fr):
    ty = {'io.read': TStr(), 'io.readlines': TList(TStr())}.get(fn.name)
    return ex.effect(st, 'file' + fn.name[2:], [fn.selfv] + list(a), ty=ty)


@model('os.path.dirname', 'os.path.basename', 'os.path.relpath', 'os.path.abspath', 'os.path.sep', 'os.path.splitext')
def _ppure(ex, st, fn, a, kw, km, fr):
    args = list(a) + [kw[k] for k in sorted(kw)]
    return ok(st, SS(ex.pure_term(st, fn.name + str(len(args)), args, STR)))


@model('os.path.exists', 'os.path.isdir', 'os.path.isfile', 'os.path.samefile')
def _pexists(ex, st, fn, a, kw, km, fr):
    return ok(st, SB(ex.oracle(st, fn.name, a, BOOL)))


@model('os.makedirs', 'os.mkdir', 'os.remove', 'os.rename', 'shutil.rmtree', 'shutil.copy')
def _osx(ex, st, fn, a, kw, km, fr):
    return ex.effect(st, fn.name, list(a) + [y for k in sorted(kw) for y in (k, kw[k])])


# logging
@model('logger.info', 'logger.debug', 'logger.warning', 'logger.error')
def _log(ex, st, fn, a, kw, km, fr):
    return ex.effect(st, fn.name, list(a), may_raise=False)


HANDLER = TRef('ext:Handler')


@model('logging.handlers.TimedRotatingFileHandler')
def _timed(ex, st, fn, a, kw, km, fr):
    out = []
    for k, s, v in ex.effect(st, 'open log file', list(a) + [y for n in sorted(kw) for y in (n, kw[n])], ty=HANDLER):
        if k == 'ok':
            s = s.fact(ex.isinstance_(s, v, fn))
        out.append((k, s, v))
    return out


@model('ext:Handler.setLevel', 'ext:Handler.setFormatter')
def _hset(ex, st, fn, a, kw, km, fr):
    return ok(st, None)


@model('ext:Handler.close')
def _hclose(ex, st, fn, a, kw, km, fr):
    return ex.effect(st, 'close handler', [fn.selfv])


@model('ext:Logger.addHandler')
def _addh(ex, st, fn, a, kw, km, fr):
    def add(s, h):
        return ok(s.put(h.id, ListO(s.heap[h.id].seq.append(a[0]))), None)
    return ex.then(ex.getattr(st, fn.selfv, 'handlers', fr), add)


@model('ext:Logger.debug', 'ext:Logger.info', 'ext:Logger.warning', 'ext:Logger.error')
def _hlog(ex, st, fn, a, kw, km, fr):
    return ok(st, None)


# ---------------------------------------------------------------- ghost builtins (specifications only)
def gty(kw):
    t = kw.get('ty')
    if t is None:
        return None
    if isinstance(t, BuiltinV) and t.name.startswith('modvar:'):
        import importlib
        m, n = t.name[7:].rsplit('.', 1)
        return getattr(importlib.import_module(m), n)
    raise Unsupported('ghost type')


@model('ghost.requires')
def _grequires(ex, st, fn, a, kw, km, fr):
    t = ex.truth(st, a[0], fr)
    if ex.applying:
        ex.side.append(('precondition of ' + ex.applying[-1], st, _b(t)))
    if t is True:
        return ok(st, None)
    if t is False:
        return []
    s = st.assume(t)
    return ok(s, None) if ex.feasible(s) else []


@model('ghost.prove')
def _gprove(ex, st, fn, a, kw, km, fr):
    t = _b(ex.truth(st, a[0], fr))
    ex.side.append((a[1] if len(a) > 1 else 'lemma', st, t))
    return ok(st.assume(t), None)


@model('ghost.event')
def _gevent(ex, st, fn, a, kw, km, fr):
    return ok(st.event(a[0], *ex.snap(st, a[1:])), None)


@model('ghost.effect')
def _geffect(ex, st, fn, a, kw, km, fr):
    return ex.effect(st, a[0], list(a[1:]), ty=gty(kw), may_raise=kw.get('may_raise', True))


@model('ghost.effect_bool')
def _geffectb(ex, st, fn, a, kw, km, fr):
    return ex.effect(st, a[0], list(a[1:]), ty=TBool(), may_raise=kw.get('may_raise', True))


@model('ghost.query')
def _gquery(ex, st, fn, a, kw, km, fr):
    """a read: the outcome depends on the arguments and on what happened so far, and nothing changes"""
    return ex.effect(st, a[0], list(a[1:]), ty=gty(kw), may_raise=kw.get('may_raise', True), silent=True)


@model('ghost.oracle')
def _goracle(ex, st, fn, a, kw, km, fr):
    return ok(*wrap(ex, st, ex.oracle(st, a[0], a[1:]), gty(kw)))


@model('ghost.pure')
def _gpure(ex, st, fn, a, kw, km, fr):
    return ok(*wrap(ex, st, ex.pure_term(st, a[0], list(a[1:]), Val), gty(kw)))


@model('ghost.pure_str')
def _gpures(ex, st, fn, a, kw, km, fr):
    return ok(st, SS(ex.pure_term(st, a[0], list(a[1:]), STR)))


@model('ghost.pure_bool')
def _gpureb(ex, st, fn, a, kw, km, fr):
    return ok(st, SB(ex.pure_term(st, a[0], list(a[1:]), BOOL)))


@model('ghost.assume')
def _gassume(ex, st, fn, a, kw, km, fr):
    t = ex.truth(st, a[0], fr)
    if t is True:
        return ok(st, None)
    if t is False:
        return []
    s = st.assume(t)
    return ok(s, None) if ex.feasible(s) else []


@model('ghost.implies')
def _gimplies(ex, st, fn, a, kw, km, fr):
    p, q = [_b(ex.truth(st, x, fr)) for x in a]
    return ex.mkbool(st, z3.Implies(p, q))


@model('ghost.same')
def _gsame(ex, st, fn, a, kw, km, fr):
    """value equality of the stored terms (stronger than ==)"""
    return ex.mkbool(st, to_val(a[0]) == to_val(a[1]))


@model('ghost.lookup')
def _glookup(ex, st, fn, a, kw, km, fr):
    """m[k] if k in m else None, without a case split"""
    m = ex.map_of(st, a[0])
    k = to_val(a[1])
    return ok(st, SV(z3.If(z3.Select(m.dom, k), z3.Select(m.val, k), Val.none)))


@model('ghost.same_map')
def _gsamemap(ex, st, fn, a, kw, km, fr):
    return ex.mkbool(st, ex.map_eq(ex.map_of(st, a[0]), ex.map_of(st, a[1])))


@model('ghost.snapshot')
def _gsnapshot(ex, st, fn, a, kw, km, fr):
    return _deepcopy(ex, st, BuiltinV('copy.deepcopy'), a, kw, km, fr)


@model('ghost.ghost_raise')
def _graise(ex, st, fn, a, kw, km, fr):
    return [ex.raise_(st, a[0])]


@model('ghost.opaque_call')
def _gopaque(ex, st, fn, a, kw, km, fr):
    return ex.opaque_call(st, a[0], list(a[1:]), kw, km)


@model('ghost.fresh_obj')
def _gfresh(ex, st, fn, a, kw, km, fr):
    """new object of a class with the given attributes (constructor not run)"""
    q = a[0].qual if isinstance(a[0], ClassV) else a[0]
    s, p = st.alloc(Inst(q, dict(kw)))
    return ok(s, p)


@model('dir')
def _dir(ex, st, fn, a, kw, km, fr):
    t = TList(TStr())
    s, v = wrap(ex, st, ex.oracle(st, 'dir', [a[0]], pure=True), t)
    return ok(s, v)


def ast_node(ex, st, name, args, kw):
    """a new node of the syntax tree: exactly the given fields"""
    import ast
    short = {'NameConstant': 'Constant', 'Str': 'Constant', 'Num': 'Constant'}.get(name[4:], name[4:])
    c = getattr(ast, short, None)
    if not (isinstance(c, type) and issubclass(c, ast.AST)) or len(args) > len(c._fields):
        return None
    if short == 'Constant' and args:
        kw, args = {'value': args[0], **kw}, args[1:]
    kw = {('value' if short == 'Constant' and k in ('s', 'n') else k): v for k, v in kw.items()}
    if short == 'Constant' and list(kw) == ['value'] and (kw['value'] is None or isinstance(kw['value'], (str, int, SS))):
        ex.notes.add('a constant node is taken as a value: which one of several equal ones it is does not matter')
        return ok(st, SV(ex.pure_term(st, 'ast.Constant', [kw['value']], Val), TRef('ast.Constant')))
    s, p = st.alloc(Inst('ast.' + short, {**dict(zip(c._fields, args)), **kw}))
    return ok(s, p)


def may_have(cls, a):
    """whether a library class used as a base may define an attribute"""
    import ast
    import builtins
    import enum
    known = {'ast.NodeVisitor': {'visit', 'generic_visit', 'visit_Constant'}, 'mixins.repr.ReprMixin': {'__repr__', '_full_repr', 'readable_repr', 'repr_cols', '_truncate_length'},
             'mixins.propertycache.SimplePropertyCacheMixin': {'_try_getattr_else_call_func'},
             'typing.Generic': set(), 'abc.ABC': set()}
    if cls in known:
        return a in known[cls]
    c = getattr(builtins, cls, None) or (getattr(ast, cls[4:], None) if cls.startswith('ast.') else None) or \
        (enum.Enum if cls == 'enum.Enum' else None)
    return hasattr(c, a) if isinstance(c, type) else True


@model('mixins.propertycache.SimplePropertyCacheMixin._try_getattr_else_call_func')
def _cached(ex, st, fn, a, kw, km, fr):
    ex.notes.add('the property cache reads the attribute and, where it is missing, calls the function and reads it again (library fact)')
    out = []
    for k, s, v in ex.getattr(st, fn.selfv, a[0], fr):
        if k == 'ok':
            out.append((k, s, v))
            continue
        for s2, b in ex.branch(s, _b(ex.exc_match(s, v, BuiltinV('AttributeError')))):
            if b:
                out += ex.then(ex.call(s2, a[1], list(a[2:]), kw, fr), lambda s3, _: ex.getattr(s3, fn.selfv, a[0], fr))
            else:
                out.append(('exc', s2, v))
    return out


NODETYPES = {}


def walk_nodes(ex, st, tree, kinds):
    """the nodes of a tree of the given kinds which are not within another one, in the order of the visit"""
    tys = [ex.opts.get('nodes', {}).get(k, TRef('ast.' + k)) for k in kinds]
    t = TList(TOneOf(*tys) if len(tys) > 1 else tys[0])
    return wrap(ex, st, ex.pure_term(st, 'nodes of ' + ' '.join(kinds), [tree], Val), t)


@model('ghost.nodes_of')
def _gnodes(ex, st, fn, a, kw, km, fr):
    return ok(*walk_nodes(ex, st, a[0], sorted(a[1:])))


@model('ast.NodeVisitor.visit')
def _visit(ex, st, fn, a, kw, km, fr):
    """every visit_<kind> is called with the topmost nodes of its kind, in order; these must not go on into the children"""
    import ast
    v = fn.selfv
    cls = st.heap[v.id].cls
    kinds = sorted({n[6:] for c in ex.repo.mro(cls) if not isinstance(c, str) for n in c.methods if n.startswith('visit_')})
    for k in kinds:
        m = ex.find_method(cls, 'visit_' + k)
        if any(isinstance(x, ast.Attribute) and x.attr in ('generic_visit', 'visit') for x in ast.walk(m.node)):
            raise Unsupported('a visitor that goes on into the children')
    ex.notes.add('ast.NodeVisitor.visit calls the visit method of each topmost node of the handled kinds, in order (library fact)')
    key = tuple(kinds)
    if key not in NODETYPES:
        body = ''.join(f"        {'el' if i else ''}if isinstance(node, kind_{k}):\n            visitor.visit_{k}(node)\n" for i, k in enumerate(kinds))
        src = f"def visit(visitor, nodes, {', '.join('kind_' + k for k in kinds)}):\n    for node in nodes:\n{body}"
        NODETYPES[key] = ast.parse(src).body[0]
    s, nodes = walk_nodes(ex, st, a[0], kinds)
    f = FuncV(NODETYPES[key], fr.mod, 'ast:NodeVisitor.visit')
    return ex.call(s, f, [v, nodes] + [BuiltinV('ast.' + k) for k in kinds], {}, fr)


MAXARGS = {'str.split': 1, 'str.startswith': 1, 'str.endswith': 1, 'str.join': 1, 'len': 1, 'any': 1, 'all': 1, 'sum': 1, 'sorted': 1,
           'min': 1, 'max': 1, 'list': 1, 'tuple': 1, 'set': 1, 'frozenset': 1, 'reversed': 1, 'enumerate': 2, 'isinstance': 2, 'hasattr': 2,
           'getattr': 3, 'setattr': 3, 'str': 1, 'repr': 1, 'bool': 1, 'type': 1, 'iter': 1, 'next': 2, 'list.append': 1, 'list.extend': 1,
           'list.insert': 2, 'dict.get': 2, 'dict.pop': 2, 'dict.setdefault': 2, 'dict.items': 0, 'dict.keys': 0, 'dict.values': 0,
           'os.path.exists': 1, 'os.path.basename': 1, 'os.path.dirname': 1, 'os.path.isdir': 1, 'copy.deepcopy': 1, 'copy.copy': 1}


@functools.lru_cache(None)
def reads_keywords(h):
    """whether a model looks at the keyword arguments (ones that it ignores are outside the subset)"""
    import dis
    return any('LOAD' in i.opname and ('kw' in i.argval if isinstance(i.argval, tuple) else i.argval == 'kw') for i in dis.get_instructions(h))
