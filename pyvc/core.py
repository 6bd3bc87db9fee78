"""Value domain, symbolic heap and normal forms of the deductive verifier."""
import re
import z3

z3.set_param('smt.random_seed', 1)

_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('boolv', ('b', z3.BoolSort()))
_V.declare('intv', ('i', z3.IntSort()))
_V.declare('strv', ('s', z3.StringSort()))
_V.declare('ref', ('r', z3.IntSort()))
Val = _V.create()
BOOL, INT, STR = z3.BoolSort(), z3.IntSort(), z3.StringSort()
DOM = z3.ArraySort(Val, BOOL)
MAP = z3.ArraySort(Val, Val)


class Unsupported(Exception):
    """A construct outside the verified subset: the function is undecided (never a violation)."""


class Carried(Unsupported):
    """a variable is read in a loop that changes it"""
    def __init__(self, msg, poison):
        super().__init__(msg)
        self.poison = poison


# ---------------------------------------------------------------- values
class SV:
    """symbolic Val term, optionally typed"""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=None):
        self.t, self.ty = t, ty

    def __repr__(self):
        return f'SV({self.t})'


class SB:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SB({self.t})'


class SI:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SI({self.t})'


class SS:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'SS({self.t})'


class Ptr:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.id == self.id

    def __hash__(self):
        return hash(('Ptr', self.id))

    def __repr__(self):
        return f'Ptr({self.id})'


class Tup:
    """immutable tuple; seq is a Seq"""
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq if isinstance(seq, Seq) else Seq.of(*seq)

    def __repr__(self):
        return f'Tup({self.seq})'


class FuncV:
    def __init__(self, node, mod, qual, cls=None, closure=None, decorators=()):
        self.node, self.mod, self.qual, self.cls, self.closure = node, mod, qual, cls, closure

    def __repr__(self):
        return f'<func {self.qual}>'


class BoundV:
    def __init__(self, selfv, func):
        self.selfv, self.func = selfv, func

    def __repr__(self):
        return f'<bound {self.func} of {self.selfv}>'


class ClassV:
    def __init__(self, qual):
        self.qual = qual

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.qual == self.qual

    def __hash__(self):
        return hash(('ClassV', self.qual))

    def __repr__(self):
        return f'<class {self.qual}>'


class ModV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<module {self.name}>'


class BuiltinV:
    def __init__(self, name, selfv=None):
        self.name, self.selfv = name, selfv

    def __repr__(self):
        return f'<builtin {self.name}>'


class SuperV:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class PartialV:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class HookV:
    """manager.plm / manager.plm.hook / manager.plm.hook.<name>"""
    def __init__(self, path):
        self.path = path


class EvV:
    """ghost trace event"""
    def __init__(self, name, args):
        self.name, self.args = name, args

    def __repr__(self):
        return f'Ev({self.name}, {self.args})'


class Frz:
    """frozen snapshot of a heap object (immutable)"""
    def __init__(self, obj, kids):
        self.obj, self.kids = obj, kids

    def __repr__(self):
        return f'Frz({self.obj})'


class Poison:
    """loop-carried scalar inside/after a summarised loop"""
    def __init__(self, name, m=None, tag=None):
        self.name, self.m, self.tag = name, m, tag


class PartialO:
    """heap content of functools.partial objects: func, args (Tup), keywords Ptr"""


# ---------------------------------------------------------------- sequences
class Base:
    """A symbolic source of elements, indexed by an Int in [0, len) or by a Val key of a map."""

    def __init__(self, key, kind, get, length=None, dom=None, facts=None):
        self.key, self.kind, self.get, self.len, self.dom = key, kind, get, length, dom
        self.facts = facts or (lambda i: [])   # facts true of every element index
        self.tag = None
        self.deps, self.mk = (), None          # terms the source depends on, and how to make it from them

    def subst(self, pairs):
        if self.mk is None or not any(mentions(d, a) for d in self.deps for a, b in pairs):
            return self
        return self.mk(*[sub(d, pairs) for d in self.deps])


class BadMark:
    """elements that are outside the subset: using them in any way fails"""


class AccMark:
    def __init__(self, token):
        self.token = token


class Seg:
    """for idx in [lo,hi) of base (or keys of dom): concatenation of the alternative that applies.
    alts: list of (z3 cond, Seq)."""

    def __init__(self, base, lo, hi, idx, alts, upto=None):
        self.base, self.lo, self.hi, self.idx, self.alts, self.upto = base, lo, hi, idx, alts, upto

    def rng(self, idx=None):
        idx = self.idx if idx is None else idx
        if self.base.kind == 'int':
            return z3.And(self.lo <= idx, idx < self.hi)
        c = self.base.dom[idx]
        if self.upto is not None:
            pos = POS(self.base)
            c = z3.And(c, pos(idx) < pos(self.upto))
        return c

    def is_map(self):
        return len(self.alts) == 1 and z3.is_true(z3.simplify(self.alts[0][0])) and \
            self.alts[0][1].concrete() and len(self.alts[0][1].items()) == 1

    def subst(self, pairs):
        """substitute index/free terms (capture avoiding)"""
        inner = [(a, b) for a, b in pairs if not z3.eq(a, self.idx)]
        idx, alts = self.idx, self.alts
        if any(mentions(b, idx) for a, b in inner):
            new = z3.FreshConst(idx.sort(), 'ix')
            alts = [(z3.substitute(c, (idx, new)), s.subst([(idx, new)])) for c, s in alts]
            idx = new
        if inner:
            alts = [(sub(c, inner), s.subst(inner)) for c, s in alts]
        return Seg(self.base.subst(pairs), sub(self.lo, pairs), sub(self.hi, pairs), idx, alts,
                   sub(self.upto, pairs) if self.upto is not None else None)


def POS(base):
    """position of a key in the order of the source; a function of the indices of the loops around it"""
    ixs = []

    def walk(t, seen):
        if t.get_id() in seen or not z3.is_app(t):
            return
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and _INDEX.match(t.decl().name()):
            if not any(z3.eq(t, i) for i in ixs):
                ixs.append(t)
            return
        for c in t.children():
            walk(c, seen)
    if base.mk is not None:
        for d in base.deps:
            walk(d, set())
    if not ixs:
        return z3.Function('pos!' + base.key, Val, INT)
    gen = base.subst([(i, z3.Const(f'$ix{j}:{i.sort()}', i.sort())) for j, i in enumerate(ixs)])
    f = z3.Function('pos!' + gen.key, *[i.sort() for i in ixs], Val, INT)
    return lambda k: f(*ixs, k)


_INDEX = re.compile(r'(g|x\d+)@')


class Seq:
    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, (Seg, AccMark, BadMark)):
                out.append(p)
            else:  # list of values
                if not p:
                    continue
                if out and isinstance(out[-1], list):
                    out[-1] = out[-1] + list(p)
                else:
                    out.append(list(p))
        self.parts = out

    @staticmethod
    def of(*vals):
        return Seq([list(vals)])

    def __add__(self, o):
        return Seq(self.parts + o.parts)

    def concrete(self):
        return all(isinstance(p, list) for p in self.parts)

    def items(self):
        assert self.concrete()
        return [v for p in self.parts for v in p]

    def append(self, v):
        return Seq(self.parts + [[v]])

    def subst(self, pairs):
        return Seq([[sub(v, pairs) for v in p] if isinstance(p, list) else p.subst(pairs)
                    if isinstance(p, Seg) else p for p in self.parts])

    def __repr__(self):
        return f'Seq({self.parts})'


def mentions(t, x):
    i = x.get_id()
    seen, stack = set(), [t]
    while stack:
        y = stack.pop()
        if y.get_id() == i:
            return True
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        stack.extend([y.body()] if z3.is_quantifier(y) else y.children())
    return False


def sub(v, pairs):
    """substitute z3 terms inside any value"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, SV):
        return SV(z3.substitute(v.t, *pairs), v.ty)
    if isinstance(v, SB):
        return SB(z3.substitute(v.t, *pairs))
    if isinstance(v, SI):
        return SI(z3.substitute(v.t, *pairs))
    if isinstance(v, SS):
        return SS(z3.substitute(v.t, *pairs))
    if isinstance(v, Tup):
        return Tup(v.seq.subst(pairs))
    if isinstance(v, EvV):
        return EvV(v.name, [sub(a, pairs) for a in v.args])
    if isinstance(v, Frz):
        return Frz(v.obj.subst(pairs), v.kids)
    if isinstance(v, BoundV):
        return BoundV(sub(v.selfv, pairs), v.func)
    return v


# ---------------------------------------------------------------- maps and heap objects
class MapV:
    """dict contents: domain and values. log = (marker, ops) when tracked relative to a loop marker.
    keys: optional Seq giving insertion order when known"""
    __slots__ = ('dom', 'val', 'kt', 'vt', 'log', 'keys')

    def __init__(self, dom, val, kt=None, vt=None, log=None, keys=None):
        self.dom, self.val, self.kt, self.vt, self.log, self.keys = dom, val, kt, vt, log, keys

    @staticmethod
    def empty():
        return MapV(z3.K(Val, z3.BoolVal(False)), z3.K(Val, Val.none), keys=Seq())

    def set(self, k, v, vt=None):
        log = self.log and (self.log[0], self.log[1] + [('set', k, v)])
        keys = None
        if self.keys is not None and self.keys.concrete():
            ks = self.keys.items()
            if any(z3.eq(k, q.t) for q in ks):
                keys = self.keys
            elif all(z3.is_false(z3.simplify(k == q.t)) for q in ks):
                keys = self.keys.append(SV(k, self.kt))
        return MapV(z3.Store(self.dom, k, z3.BoolVal(True)), z3.Store(self.val, k, v), self.kt,
                    self.vt or vt, log, keys)

    def delete(self, k):
        log = self.log and (self.log[0], self.log[1] + [('del', k)])
        return MapV(z3.Store(self.dom, k, z3.BoolVal(False)), self.val, self.kt, self.vt, log)

    def overlay(self, o):
        """o wins"""
        if o.keys is not None and o.keys.concrete() and len(o.keys.items()) <= 6:
            m = self
            for q in o.keys.items():
                m = m.set(q.t, z3.simplify(z3.Select(o.val, q.t)), o.vt)
            return m
        if self.keys is not None and not self.keys.parts and self.log is None:
            return MapV(o.dom, o.val, o.kt, o.vt, None, o.keys)
        x = z3.Const('ov!x', Val)
        log = self.log and (self.log[0], self.log[1] + [('overlay', o)])
        vt = self.vt or o.vt
        return MapV(z3.SetUnion(self.dom, o.dom),
                    z3.Lambda([x], z3.If(z3.Select(o.dom, x), z3.Select(o.val, x), z3.Select(self.val, x))),
                    self.kt or o.kt, vt, log, None)

    def subst(self, pairs):
        return MapV(z3.substitute(self.dom, *pairs), z3.substitute(self.val, *pairs), self.kt, self.vt,
                    self.log, self.keys and self.keys.subst(pairs))


class Inst:
    kind = 'inst'
    __slots__ = ('cls', 'attrs', 'map')

    def __init__(self, cls, attrs, map=None):
        self.cls, self.attrs, self.map = cls, attrs, map

    def with_attr(self, a, v):
        if isinstance(v, Ptr) and isinstance(self.attrs.get(a), Ptr) and self.attrs[a].id == v.id:
            return self
        d = dict(self.attrs)
        d[a] = v
        return Inst(self.cls, d, self.map)

    def subst(self, pairs):
        return Inst(self.cls, {a: sub(v, pairs) for a, v in self.attrs.items()},
                    self.map and self.map.subst(pairs))


class ListO:
    kind = 'list'
    __slots__ = ('seq',)

    def __init__(self, seq):
        self.seq = seq

    def subst(self, pairs):
        return ListO(self.seq.subst(pairs))


class DictO:
    kind = 'dict'
    __slots__ = ('map', 'default')

    def __init__(self, map, default=None):
        self.map, self.default = map, default

    def subst(self, pairs):
        return DictO(self.map.subst(pairs), self.default)


class SetO:
    kind = 'set'
    __slots__ = ('dom', 'et', 'seq')

    def __init__(self, dom, et=None, seq=None):
        self.dom, self.et = dom, et
        self.seq = seq

    def subst(self, pairs):
        return SetO(z3.substitute(self.dom, *pairs), self.et)


class State:
    __slots__ = ('pc', 'facts', 'heap', 'env', 'trace', 'fields', 'pend', 'loop', 'next', 'ghost')

    def __init__(self):
        self.pc = ()
        self.facts = frozenset()      # positions in pc that are type facts / library axioms, not branch conditions
        self.heap = {}
        self.env = {}
        self.trace = Seq()
        self.fields = {}
        self.pend = {}
        self.loop = ()
        self.next = [1]
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.pc, s.facts, s.heap, s.env, s.trace = self.pc, self.facts, self.heap, self.env, self.trace
        s.fields, s.pend, s.loop, s.next, s.ghost = self.fields, self.pend, self.loop, self.next, self.ghost
        return s

    def assume(self, *cs):
        cs = [c for c in cs if not z3.is_true(c)]
        if not cs:
            return self
        s = self.copy()
        s.pc = self.pc + tuple(cs)
        return s

    def fact(self, *cs):
        cs = [c for c in cs if not z3.is_true(c)]
        if not cs:
            return self
        s = self.copy()
        s.pc = self.pc + tuple(cs)
        s.facts = self.facts | frozenset(range(len(self.pc), len(s.pc)))
        return s

    def conds_from(self, n):
        return [c for i, c in enumerate(self.pc) if i >= n and i not in self.facts]

    def facts_from(self, n):
        return [c for i, c in enumerate(self.pc) if i >= n and i in self.facts]

    def put(self, id, obj):
        s = self.copy()
        s.heap = dict(self.heap)
        s.heap[id] = obj
        return s

    def alloc(self, obj):
        id = self.next[0]
        self.next[0] += 1
        return self.put(id, obj), Ptr(id)

    def local(self, frame, name, v):
        s = self.copy()
        s.env = dict(self.env)
        e = dict(s.env.get(frame, {}))
        e[name] = v
        s.env[frame] = e
        return s

    def unlocal(self, frame, name):
        s = self.copy()
        s.env = dict(self.env)
        e = dict(s.env.get(frame, {}))
        e.pop(name, None)
        s.env[frame] = e
        return s

    def event(self, name, *args):
        s = self.copy()
        s.trace = self.trace.append(EvV(name, list(args)))
        return s

    def with_trace(self, t):
        s = self.copy()
        s.trace = t
        return s

    def with_field(self, f, arr):
        s = self.copy()
        s.fields = dict(self.fields)
        s.fields[f] = arr
        return s

    def with_pend(self, k, v):
        s = self.copy()
        s.pend = dict(self.pend)
        s.pend[k] = v
        return s

    def with_ghost(self, k, v):
        s = self.copy()
        s.ghost = {**self.ghost, k: v}
        return s

    def with_loop(self, l):
        s = self.copy()
        s.loop = l
        return s


# ---------------------------------------------------------------- static value identities
_ids = {}


def static_id(key):
    if key not in _ids:
        _ids[key] = -1000 - len(_ids)
    return _ids[key]


_static_back = {}


def to_val(v):
    """value -> z3 Val term"""
    if v is None:
        return Val.none
    if isinstance(v, bool):
        return Val.boolv(z3.BoolVal(v))
    if isinstance(v, int):
        return Val.intv(z3.IntVal(v))
    if isinstance(v, str):
        return Val.strv(z3.StringVal(v))
    if isinstance(v, SV):
        return v.t
    if isinstance(v, SB):
        return Val.boolv(v.t)
    if isinstance(v, SI):
        return Val.intv(v.t)
    if isinstance(v, SS):
        return Val.strv(v.t)
    if isinstance(v, Ptr):
        return Val.ref(z3.IntVal(v.id))
    if isinstance(v, (FuncV, ClassV, ModV, BuiltinV)):
        key = (type(v).__name__, getattr(v, 'qual', None) or v.name)
        i = static_id(key)
        _static_back[i] = v
        return Val.ref(z3.IntVal(i))
    raise Unsupported(f'cannot store {type(v).__name__} in a symbolic container')


def from_val(t, ty=None):
    """z3 Val term -> value (as concrete as possible)"""
    t = z3.simplify(t)
    if t.decl().eq(Val.none.decl()):
        return None
    if t.num_args() == 1 and t.sort() == Val:
        d = t.decl()
        a = t.arg(0)
        if d.eq(Val.boolv):
            return True if z3.is_true(a) else False if z3.is_false(a) else SB(a)
        if d.eq(Val.intv):
            return a.as_long() if z3.is_int_value(a) else SI(a)
        if d.eq(Val.strv):
            return a.as_string() if z3.is_string_value(a) else SS(a)
        if d.eq(Val.ref) and z3.is_int_value(a):
            i = a.as_long()
            if i in _static_back:
                return _static_back[i]
            if i > 0:
                return Ptr(i)
    return SV(t, ty)
