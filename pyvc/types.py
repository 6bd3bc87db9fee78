"""Types used in preconditions: how to build a fully symbolic value of each kind."""
import z3
from .core import *


class Ty:
    def alts(self):
        return [self]


class TAny(Ty):
    """any user value"""


class TStr(Ty):
    pass


class TBool(Ty):
    pass


class TInt(Ty):
    pass


class TConst(Ty):
    def __init__(self, v):
        self.v = v


class TOneOf(Ty):
    """case split at setup"""
    def __init__(self, *tys):
        self.tys = [t if isinstance(t, Ty) else TConst(t) for t in tys]

    def alts(self):
        return [a for t in self.tys for a in t.alts()]


def TOpt(t):
    return TOneOf(TConst(None), t)


class TNullable(Ty):
    """None or any value, no case split"""


class TList(Ty):
    def __init__(self, et=None, minlen=0):
        self.et, self.minlen = et, minlen


class TFixedList(Ty):
    def __init__(self, *tys):
        self.tys = tys


class TTuple(Ty):
    def __init__(self, *tys):
        self.tys = tys


class TTupleOf(Ty):
    def __init__(self, et=None):
        self.et = et


class TDict(Ty):
    """et: value type; order of iteration unspecified"""
    def __init__(self, kt=None, vt=None, default=None):
        self.kt, self.vt, self.default = kt or TStr(), vt, default


class TSet(Ty):
    def __init__(self, et=None):
        self.et = et


class TObj(Ty):
    """object with a known concrete shape"""
    def __init__(self, cls, map=None, **attrs):
        self.cls, self.attrs, self.map = cls, attrs, map

    def but(self, **kw):
        d = dict(self.attrs)
        d.update(kw)
        return TObj(self.cls, self.map, **d)


class TRef(Ty):
    """opaque object of a class; attributes are heap fields (field maps)"""
    def __init__(self, cls=None, callable=False, **attrs):
        self.cls, self.attrs, self.callable = cls, attrs, callable

    def range(self, t):
        return [Val.is_ref(t), Val.r(t) < -1000000]


class TEnum(TRef):
    """a member of an Enum of the repository"""
    def range(self, t):
        return [Val.is_ref(t), Val.r(t) < -500000, Val.r(t) > -600000]


class TValObj(Ty):
    """immutable value object rebuilt from the term by mk(ex, st, term) -> (st, Ptr)"""
    def __init__(self, cls, mk):
        self.cls, self.mk = cls, mk


class TExpr(Ty):
    """value computed by a function of (ex, st, name) -> list[(st, value)]"""
    def __init__(self, fn):
        self.fn = fn


def split_base(ex, s, sep):
    """Base for s.split(sep): trusted library facts (see axioms)"""
    s = z3.simplify(s)
    key = f'split({s.sexpr()},{sep!r})'
    ln = z3.Function('py_split_len', STR, STR, INT)(s, z3.StringVal(sep))
    at = z3.Function('py_split_at', STR, STR, INT, STR)
    b = Base(key, 'int', lambda i: SS(at(s, z3.StringVal(sep), i)), length=ln,
             facts=lambda i: [z3.Not(z3.Contains(at(s, z3.StringVal(sep), i), z3.StringVal(sep)))])
    b.tag = ('split', s, sep)
    b.deps, b.mk = (s,), lambda s: split_base(ex, s, sep)
    return b


def full_seg(base):
    if base.kind == 'int':
        idx = z3.Const(f'e@{base.key}', INT)
        return Seg(base, z3.IntVal(0), base.len, idx, [(z3.BoolVal(True), Seq.of(base.get(idx)))])
    idx = z3.Const(f'e@{base.key}', Val)
    return Seg(base, None, None, idx, [(z3.BoolVal(True), Seq.of(base.get(idx)))])


def make(ex, st, ty, name):
    """list of (st, value): all alternatives for a symbolic value of type ty called name"""
    if isinstance(ty, TOneOf):
        return [r for i, t in enumerate(ty.alts()) for r in make(ex, st, t, f'{name}')]
    if isinstance(ty, TConst):
        return [(st, ty.v)]
    if isinstance(ty, TExpr):
        return ty.fn(ex, st, name)
    if isinstance(ty, TStr):
        return [(st, SS(z3.String(name)))]
    if isinstance(ty, TBool):
        return [(st, SB(z3.Bool(name)))]
    if isinstance(ty, TInt):
        return [(st, SI(z3.Int(name)))]
    if isinstance(ty, (TAny, TNullable)) or ty is None:
        return [(st, SV(z3.Const(name, Val)))]
    if isinstance(ty, TRef):
        t = z3.Const(name, Val)
        return [(st.fact(*ty.range(t)), SV(t, ty))]
    if isinstance(ty, TList):
        st, seq = sym_seq(ex, st, ty.et, name, ty.minlen)
        return [st.alloc(ListO(seq))]
    if isinstance(ty, TTupleOf):
        st, seq = sym_seq(ex, st, ty.et, name, 0)
        return [(st, Tup(seq))]
    if isinstance(ty, (TTuple, TFixedList)):
        acc = [(st, [])]
        for i, t in enumerate(ty.tys):
            acc = [(s2, vs + [v]) for s, vs in acc for s2, v in make(ex, s, t, f'{name}.{i}')]
        if isinstance(ty, TTuple):
            return [(s, Tup(vs)) for s, vs in acc]
        return [s.alloc(ListO(Seq.of(*vs))) for s, vs in acc]
    if isinstance(ty, TDict):
        st, p = st.alloc(DictO(sym_map(name, ty), ty.default))
        if ty.default == 'nset':
            arr = z3.Const(name + '.sets', z3.ArraySort(Val, DOM))
            st = st.with_field(('nset', p.id), arr)
        return [(st, p)]
    if isinstance(ty, TSet):
        return [st.alloc(SetO(z3.Const(name + '.dom', DOM), ty.et))]
    if isinstance(ty, TObj):
        acc = [(st, {})]
        for a, t in ty.attrs.items():
            acc = [(s2, {**d, a: v}) for s, d in acc for s2, v in make(ex, s, t, f'{name}.{a}')]
        return [s.alloc(Inst(ty.cls, d, sym_map(name, ty.map) if ty.map is not None else None)) for s, d in acc]
    if isinstance(ty, TValObj):
        return [ty.mk(ex, st, z3.Const(name, Val))]
    raise Unsupported(f'type {ty}')


def sym_map(name, ty):
    return MapV(z3.Const(name + '.dom', DOM), z3.Const(name + '.val', MAP), ty.kt, ty.vt)


def sym_seq(ex, st, et, name, minlen=0):
    ln = z3.Int(name + '.len')
    at = z3.Function(name + '.at', INT, Val)
    b = Base(name, 'int', lambda i: SV(at(i), et), length=ln, facts=lambda i: type_facts(at(i), et))
    return st.fact(ln >= minlen), Seq([full_seg(b)])


def type_facts(t, ty):
    if isinstance(ty, TStr):
        return [Val.is_strv(t)]
    if isinstance(ty, TBool):
        return [Val.is_boolv(t)]
    if isinstance(ty, TInt):
        return [Val.is_intv(t)]
    if isinstance(ty, TRef):
        return ty.range(t)
    return []


def wrap(ex, st, term, ty):
    """read a Val term of declared type ty from a container: (st, value)"""
    v = from_val(term, ty)
    if not isinstance(v, SV):
        return st, v
    t = v.t
    if ty is None or isinstance(ty, (TAny, TNullable)):
        return st, SV(t)
    if isinstance(ty, TConst):
        return st.fact(t == to_val(ty.v)), ty.v
    if isinstance(ty, TStr):
        return st.fact(Val.is_strv(t)), SS(Val.s(t))
    if isinstance(ty, TBool):
        return st.fact(Val.is_boolv(t)), SB(Val.b(t))
    if isinstance(ty, TInt):
        return st.fact(Val.is_intv(t)), SI(Val.i(t))
    if isinstance(ty, TRef):
        return st.fact(*ty.range(t)), SV(t, ty)
    if isinstance(ty, TValObj):
        return ty.mk(ex, st, t)
    if isinstance(ty, TDict):
        dom = z3.Function('dict.dom', Val, DOM)(t)
        val = z3.Function('dict.val', Val, MAP)(t)
        return st.alloc(DictO(MapV(dom, val, ty.kt, ty.vt), ty.default))
    if isinstance(ty, TObj) and ty.map is not None and not ty.attrs:
        dom = z3.Function('dict.dom', Val, DOM)(t)
        val = z3.Function('dict.val', Val, MAP)(t)
        return st.alloc(Inst(ty.cls, {}, MapV(dom, val, ty.map.kt, ty.map.vt)))
    if isinstance(ty, TObj) and ty.map is not None:
        dom = z3.Function('dict.dom', Val, DOM)(t)
        val = z3.Function('dict.val', Val, MAP)(t)
        attrs = {}
        for n, x in ty.attrs.items():
            st, attrs[n] = wrap(ex, st, z3.Function('part.' + n, Val, Val)(t), x)
        return st.alloc(Inst(ty.cls, attrs, MapV(dom, val, ty.map.kt, ty.map.vt)))
    if isinstance(ty, TTuple):
        at = z3.Function('list.at', Val, INT, Val)
        vs = []
        for i, x in enumerate(ty.tys):
            st, v = wrap(ex, st, at(t, z3.IntVal(i)), x)
            vs.append(v)
        return st, Tup(vs)
    return st, SV(t, ty)
