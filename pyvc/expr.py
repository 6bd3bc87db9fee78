"""Expressions, attribute access, calls and the models of builtins / trusted library functions."""
import ast
import z3
from .core import *
from .types import *
from .repo import FnInfo, ClassInfo, builtin_subclass

CANON = z3.Function('sp.canon', STR, Val)
SPSTR = z3.Function('sp.path_str', Val, STR)
PYEQ = z3.Function('py_eq', Val, Val, BOOL)
LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'copy', 'index', 'count', 'sort', 'clear'}
DICT_METHODS = {'items', 'keys', 'values', 'get', 'pop', 'update', 'setdefault', 'copy', 'clear'}
SET_METHODS = {'add', 'update', 'difference', 'union', 'intersection', 'discard', 'remove', 'copy', 'issubset'}
STR_METHODS = {'split', 'join', 'strip', 'startswith', 'endswith', 'format', 'replace', 'lower', 'upper', 'rstrip',
               'lstrip', 'rsplit', 'splitlines', 'find', 'encode', 'isidentifier', 'removesuffix', 'removeprefix'}
BUILTINS = {'len', 'isinstance', 'hasattr', 'getattr', 'setattr', 'list', 'tuple', 'dict', 'set', 'str', 'repr', 'any',
            'all', 'enumerate', 'zip', 'range', 'reversed', 'sorted', 'type', 'callable', 'super', 'print', 'next',
            'iter', 'bool', 'int', 'hash', 'quit', 'exit', 'map', 'filter', 'max', 'min', 'sum', 'id', 'issubclass',
            'frozenset', 'object', 'property', 'delattr', 'vars', 'dir', 'open', 'bytes', 'float', 'slice', 'compile',
            'NotImplemented', 'Ellipsis'}
GHOST = {'event', 'nodes_of', 'oracle', 'effect', 'implies', 'forall', 'exists', 'assume', 'opaque_call', 'typed', 'ghost_raise',
         'same', 'snapshot', 'lookup', 'pure', 'same_map', 'pure_bool', 'fresh_obj', 'effect_bool', 'pure_str', 'requires', 'prove', 'unspecified', 'query'}


class ExprMixin:
    # ------------------------------------------------------------ dispatch
    def ev(self, st, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return m(st, n, fr)

    def evs(self, st, nodes, fr):
        """evaluate a list of expressions left to right -> ('ok', st, [values]); Starred expands"""
        res = [('ok', st, [])]
        for n in nodes:
            out = []
            for k, s, vs in res:
                if k != 'ok':
                    out.append((k, s, vs))
                    continue
                if isinstance(n, ast.Starred):
                    for k2, s2, v in self.then(self.ev(s, n.value, fr), lambda s1, x: self.iter_seq(s1, x, fr)):
                        out.append((k2, s2, vs + [('*', v)] if k2 == 'ok' else v))
                else:
                    for k2, s2, v in self.ev(s, n, fr):
                        out.append((k2, s2, vs + [v] if k2 == 'ok' else v))
            res = out
        return res

    def e_Constant(self, st, n, fr):
        if n.value is Ellipsis:
            return [('ok', st, BuiltinV('Ellipsis'))]
        if n.value is None or isinstance(n.value, (bool, int, str)):
            return [('ok', st, n.value)]
        raise Unsupported('constant ' + repr(n.value))

    def e_Name(self, st, n, fr):
        return self.lookup_name(st, n.id, fr)

    def lookup_name(self, st, name, fr):
        f = fr
        while f is not None:
            e = st.env.get(f.id)
            if e is not None and name in e:
                v = e[name]
                if isinstance(v, Poison):
                    raise Carried(f'loop-carried variable {name}', v)
                return [('ok', st, v)]
            f = f.parent
        if fr.spec is not None and name in GHOST:
            return [('ok', st, BuiltinV('ghost.' + name))]
        r = self.repo.resolve(fr.mod, name)
        if r is None and fr.spec is not None:
            r = self.repo.resolve(fr.spec, name)
        if r is not None:
            return self.resolved(st, r)
        from .exec import EXC_TREE
        if name in BUILTINS or name in EXC_TREE:
            return [('ok', st, BuiltinV(name))]
        if name in GHOST and fr.mod.name.startswith('contracts'):
            return [('ok', st, BuiltinV('ghost.' + name))]
        if fr.spec is not None or fr.mod.name.startswith('contracts'):
            raise Unsupported(f'unknown name {name} in a specification')
        return [self.raise_(st, 'NameError')]

    def resolve_from(self, st, mod, name):
        r = self.repo.resolve_from(mod, name)
        if r is None:
            raise Unsupported(f'cannot resolve {mod}.{name}')
        return self.resolved(st, r)

    def resolved(self, st, r):
        if r[0] == 'func':
            return [('ok', st, FuncV(r[1].node, r[1].mod, r[1].qual))]
        if r[0] == 'class':
            return [('ok', st, ClassV(r[1].qual))]
        if r[0] == 'mod':
            return [('ok', st, ModV(r[1]))]
        if r[0] == 'ext':
            return [('ok', st, self.external(r[1]))]
        if r[0] == 'var':
            mod, name = r[1], r[2]
            if (mod.name, name) in self.globals:
                return [('ok', st, self.globals[(mod.name, name)])]
            sym = mod.symbols[name]
            if name == 'logger':
                return [('ok', st, BuiltinV('logger'))]
            if name == 'plm':
                return [('ok', st, HookV(()))]
            node = sym[1]
            if isinstance(node, (ast.Constant, ast.List, ast.Tuple, ast.Dict)):
                from .exec import Frame
                return self.ev(st, node, Frame(mod))
            if isinstance(node, ast.Call) or True:
                return [('ok', st, BuiltinV(f'modvar:{mod.name}.{name}'))]
        raise Unsupported(f'resolve {r}')

    def external(self, dotted):
        if dotted in ('os.path.sep', 'os.sep'):
            return '/'
        return BuiltinV(dotted)

    def e_Tuple(self, st, n, fr):
        return self.then(self.evs(st, n.elts, fr), lambda s, vs: [('ok', s, Tup(self.seq_of(vs)))])

    def seq_of(self, vs):
        parts = []
        for v in vs:
            if isinstance(v, tuple) and v[0] == '*':
                parts += v[1].parts
            else:
                parts.append([v])
        return Seq(parts)

    def e_List(self, st, n, fr):
        def f(s, vs):
            s2, p = s.alloc(ListO(self.seq_of(vs)))
            return [('ok', s2, p)]
        return self.then(self.evs(st, n.elts, fr), f)

    def e_Set(self, st, n, fr):
        return self.then(self.evs(st, n.elts, fr), lambda s, vs: self.make_set(s, self.seq_of(vs)))

    def make_set(self, st, seq, et=None):
        dom = z3.K(Val, z3.BoolVal(False))
        for p in seq.parts:
            if isinstance(p, list):
                for v in p:
                    st, t = self.hashed(st, v)
                    dom = z3.Store(dom, t, z3.BoolVal(True))
                    if isinstance(v, SV) and v.ty is not None:
                        et = et or v.ty
            elif isinstance(p, Seg):
                if p.base.kind == 'val' and p.is_map() and p.upto is None:
                    v = p.alts[0][1].items()[0]
                    if isinstance(v, (SV, SS)) and z3.eq(z3.simplify(to_val(v)), p.idx) or \
                            z3.eq(z3.simplify(to_val(p.base.get(p.idx))), z3.simplify(to_val(v))):
                        dom = z3.SetUnion(dom, p.base.dom)
                        et = et or getattr(p.base, 'et', None)
                        continue
                x = z3.Const('in@x', Val)
                dom = z3.Lambda([x], z3.Or(z3.Select(dom, x), self.seg_contains(p, x)))
            else:
                raise Unsupported('reading a loop accumulator')
        s, p = st.alloc(SetO(dom, et))
        return [('ok', s, p)]

    def tuple_eq(self, x, v):
        """equality of a tuple of strings and numbers and an element of a symbolic sequence"""
        if isinstance(v, SV) and isinstance(v.ty, TTuple):
            at = z3.Function('list.at', Val, INT, Val)
            ts = [(at(v.t, z3.IntVal(i)), ty) for i, ty in enumerate(v.ty.tys)]
            if not all(isinstance(ty, (TStr, TInt, TBool)) for _, ty in ts):
                raise Unsupported('membership of a tuple of objects')
            ts = [t for t, _ in ts]
        elif isinstance(v, Tup):
            ts = [to_val(y) for y in v.seq.items()]
        else:
            raise Unsupported('membership of a tuple')
        xs = [to_val(y) for y in x.seq.items()]
        return z3.And(*[a == b for a, b in zip(xs, ts)]) if len(xs) == len(ts) else z3.BoolVal(False)

    def seg_contains(self, p, x):
        alts = []
        for c, q in p.alts:
            ins = []
            for v in (q.items() if q.concrete() else [None]):
                if v is None:
                    raise Unsupported('membership in nested symbolic sequence')
                ins.append(self.tuple_eq(x, v) if isinstance(x, Tup) else x == to_val(v))
            if ins:
                alts.append(z3.And(c, z3.Or(*ins)))
        return z3.Exists([p.idx], z3.And(p.rng(), *p.base.facts(p.idx), z3.Or(*alts))) if alts else z3.BoolVal(False)

    def e_Dict(self, st, n, fr):
        res = [('ok', st, MapV.empty())]
        for k, v in zip(n.keys, n.values):
            out = []
            for kd, s, m in res:
                if kd != 'ok':
                    out.append((kd, s, m))
                elif k is None:
                    def f(s2, x, m=m):
                        o = self.map_of(s2, x)
                        return [('ok', s2, m.overlay(o))]
                    out += self.then(self.ev(s, v, fr), f)
                else:
                    def g(s2, vs, m=m):
                        return [('ok', s2, m.set(to_val(vs[0]), self.store_val(s2, vs[1])))]
                    out += self.then(self.evs(s, [k, v], fr), g)
            res = out

        def fin(s, m):
            s2, p = s.alloc(DictO(m))
            return [('ok', s2, p)]
        return self.then(res, fin)

    def store_val(self, st, v):
        return to_val(v)

    def hashed(self, st, v):
        """term identifying a value as an element of a set: section paths are equal when their strings are"""
        if isinstance(v, Ptr):
            o = st.heap[v.id]
            if isinstance(o, Inst) and o.cls.endswith(':SectionPath') and 'path_str' in o.attrs:
                p = self.as_str(o.attrs['path_str'])
                if p is not None:
                    c = CANON(p)
                    return st.fact(Val.is_ref(c), Val.r(c) < -1000000, SPSTR(c) == p), c
        return st, to_val(v)

    def map_of(self, st, v):
        if isinstance(v, Ptr):
            o = st.heap[v.id]
            if isinstance(o, DictO):
                return o.map
            if isinstance(o, Inst) and o.map is not None:
                return o.map
        if isinstance(v, MapV):
            return v
        if self.sv_dict(v):
            # an opaque mapping: its contents are unknown, the same until something happens
            k = ('contents', self.world(st))
            if k not in self.memo:
                self.memo[k] = f'contents!{len(self.memo)}'
            n = self.memo[k]
            return MapV(z3.Function(n + '.d', Val, DOM)(v.t), z3.Function(n + '.v', Val, MAP)(v.t), TStr(), None)
        raise Unsupported(f'not a known mapping: {v}')

    def sv_dict(self, v):
        return isinstance(v, SV) and isinstance(v.ty, TRef) and v.ty.cls and 'dict' in [c for c in self.repo.mro(v.ty.cls) if isinstance(c, str)]

    def has_str(self, v):
        """a value whose class in the repository says how it is rendered"""
        return isinstance(v, SV) and any(isinstance(t, TRef) and self.find_method(t.cls, '__str__')
                                         for t in (v.ty.alts() if isinstance(v.ty, TOneOf) else [v.ty]))

    def e_JoinedStr(self, st, n, fr):
        res = [('ok', st, [])]
        for part in n.values:
            out = []
            for k, s, vs in res:
                if k != 'ok':
                    out.append((k, s, vs))
                elif isinstance(part, ast.Constant):
                    out.append(('ok', s, vs + [part.value]))
                else:
                    try:
                        for k2, s2, v in self.ev(s, part.value, fr):
                            if k2 == 'ok' and part.conversion == -1 and part.format_spec is None and self.has_str(v):
                                from .models import _str
                                out += [(k3, s3, vs + [x] if k3 == 'ok' else x) for k3, s3, x in _str(self, s2, BuiltinV('str'), [v], {}, None, fr)]
                            elif k2 == 'ok':
                                out.append(('ok', s2, vs + [v]))
                            else:
                                out.append((k2, s2, v))
                    except Unsupported:
                        self.notes.add('rendering of values inside messages is assumed to have no effect')
                        out.append(('ok', s, vs + [None]))
            res = out

        def fin(s, vs):
            terms = []
            for v in vs:
                if isinstance(v, str):
                    terms.append(z3.StringVal(v))
                elif isinstance(v, SS):
                    terms.append(v.t)
                else:
                    terms.append(self.pure_term(s, 'str_of', [v], STR))
            if all(isinstance(v, str) for v in vs):
                return [('ok', s, ''.join(vs))]
            return [('ok', s, SS(z3.Concat(*terms) if len(terms) > 1 else terms[0]))]
        return self.then(res, fin)

    def pure_term(self, st, name, args, sort):
        """uninterpreted pure function of the (structural) arguments"""
        try:
            vals = [to_val(a) for a in args]
            if not any(isinstance(a, Ptr) for a in args):
                return z3.Function('pure.' + name, *[Val] * len(vals), sort)(*vals)
        except Unsupported:
            pass
        return self.oracle(st, 'pure.' + name, args, sort, pure=True)

    def e_Lambda(self, st, n, fr):
        node = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.Return(value=n.body)], decorator_list=[])
        return [('ok', st, FuncV(node, fr.mod, f'{fr.fn}.<lambda>', fr.cls, fr))]

    def e_IfExp(self, st, n, fr):
        out = []
        for k, s, c in self.cond(st, n.test, fr):
            out += self.ev(s, n.body if c else n.orelse, fr) if k == 'ok' else [(k, s, c)]
        return out

    def e_NamedExpr(self, st, n, fr):
        return self.then(self.ev(st, n.value, fr), lambda s, v: [('ok', self.setname(s, fr, n.target.id, v), v)])

    def e_BoolOp(self, st, n, fr):
        isand = isinstance(n.op, ast.And)
        res = [('go', st, None)]
        for i, x in enumerate(n.values):
            out = []
            for k, s, v in res:
                if k != 'go':
                    out.append((k, s, v))
                    continue
                for k2, s2, v2 in self.ev(s, x, fr):
                    if k2 != 'ok':
                        out.append((k2, s2, v2))
                    elif i == len(n.values) - 1:
                        out.append(('ok', s2, v2))
                    else:
                        for s3, b in self.truth_branch(s2, v2, fr):
                            out.append(('go', s3, None) if b == isand else ('ok', s3, v2))
            res = out
        return res

    def e_UnaryOp(self, st, n, fr):
        if isinstance(n.op, ast.Not):
            return self.then(self.cond(st, n, fr), lambda s, b: [('ok', s, b)])

        def f(s, v):
            if isinstance(n.op, ast.USub):
                if isinstance(v, int):
                    return [('ok', s, -v)]
                if isinstance(v, SI):
                    return [('ok', s, SI(-v.t))]
            raise Unsupported('unary operator')
        return self.then(self.ev(st, n.operand, fr), f)

    def e_BinOp(self, st, n, fr):
        return self.then(self.ev(st, n.left, fr), lambda s, a: self.then(
            self.ev(s, n.right, fr), lambda s2, b: self.binop(s2, n.op, a, b, fr)))

    def as_int(self, v):
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SI):
            return v.t
        return None

    def as_str(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SS):
            return v.t
        return None

    def binop(self, st, op, a, b, fr):
        if isinstance(op, ast.Add):
            x, y = self.as_str(a), self.as_str(b)
            if x is not None and y is not None:
                if isinstance(a, str) and isinstance(b, str):
                    return [('ok', st, a + b)]
                return [('ok', st, SS(z3.Concat(x, y)))]
            x, y = self.as_int(a), self.as_int(b)
            if x is not None and y is not None:
                return [('ok', st, from_val(Val.intv(x + y)))]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(st.heap[a.id], ListO) and isinstance(st.heap[b.id], ListO):
                s, p = st.alloc(ListO(st.heap[a.id].seq + st.heap[b.id].seq))
                return [('ok', s, p)]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [('ok', st, Tup(a.seq + b.seq))]
            if isinstance(a, Ptr) and isinstance(st.heap[a.id], Inst) and self.find_method(st.heap[a.id].cls, '__add__'):
                return self.call_method(st, a, '__add__', [b], {}, fr)
        if isinstance(op, ast.Add):
            lst = lambda x: isinstance(x, Ptr) and isinstance(st.heap[x.id], ListO) or isinstance(x, SV) and isinstance(x.ty, TList)
            if lst(a) and lst(b):
                def cat(s, qs):
                    s, p = s.alloc(ListO(qs[0] + qs[1]))
                    return [('ok', s, p)]
                return self.then(self.iter_seq(st, a, fr), lambda s, q: self.then(self.iter_seq(s, b, fr), lambda s2, q2: cat(s2, (q, q2))))
        if isinstance(op, ast.Sub):
            x, y = self.as_int(a), self.as_int(b)
            if x is not None and y is not None:
                return [('ok', st, from_val(Val.intv(x - y)))]
            da, db = self.dom_of(st, a), self.dom_of(st, b)
            if da is not None and db is not None:
                s, p = st.alloc(SetO(z3.SetDifference(da, db), self.et_of(st, a)))
                return [('ok', s, p)]
        if isinstance(op, ast.BitOr):
            if isinstance(a, Ptr) and isinstance(st.heap[a.id], (DictO, Inst)):
                s, p = st.alloc(DictO(self.map_of(st, a).overlay(self.map_of(st, b))))
                return [('ok', s, p)]
            da, db = self.dom_of(st, a), self.dom_of(st, b)
            if da is not None and db is not None:
                s, p = st.alloc(SetO(z3.SetUnion(da, db), self.et_of(st, a)))
                return [('ok', s, p)]
        if isinstance(op, ast.Mult):
            if isinstance(b, Ptr):
                a, b = b, a
            n = self.as_int(b)
            if n is not None and isinstance(a, Ptr) and isinstance(st.heap[a.id], ListO) and st.heap[a.id].seq.concrete():
                q = st.heap[a.id].seq
                if isinstance(b, int):
                    s, p = st.alloc(ListO(Seq.of(*(q.items() * b))))
                    return [('ok', s, p)]
                if len(q.items()) == 1 and not isinstance(q.items()[0], Ptr):
                    from .models import _range
                    (_, s, r), = _range(self, st, None, [b], {}, None, fr)
                    g = r.seq.parts[0]
                    s, p = s.alloc(ListO(Seq([Seg(g.base, g.lo, g.hi, g.idx, [(z3.BoolVal(True), Seq.of(q.items()[0]))])])))
                    return [('ok', s, p)]
        raise Unsupported(f'operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}')

    # ------------------------------------------------------------ comparisons
    def e_Compare(self, st, n, fr):
        def chain(s, left, ops, comps):
            def f(s2, right):
                def g(s3, r):
                    if len(ops) == 1:
                        return [('ok', s3, r)]
                    out = []
                    for s4, b in self.truth_branch(s3, r, fr):
                        out += chain(s4, right, ops[1:], comps[1:]) if b else [('ok', s4, False)]
                    return out
                return self.then(self.compare(s2, ops[0], left, right, fr), g)
            return self.then(self.ev(s, comps[0], fr), f)
        return self.then(self.ev(st, n.left, fr), lambda s, l: chain(s, l, n.ops, n.comparators))

    def mkbool(self, st, c):
        if isinstance(c, bool):
            return [('ok', st, c)]
        c = z3.simplify(c)
        return [('ok', st, True if z3.is_true(c) else False if z3.is_false(c) else SB(c))]

    def compare(self, st, op, a, b, fr):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            r = self.eq(st, a, b, fr)
            if isinstance(r, list):
                out = []
                for k, s, v in r:
                    if k != 'ok':
                        out.append((k, s, v))
                    elif neg:
                        t = self.truth(s, v)
                        out += self.mkbool(s, (not t) if isinstance(t, bool) else z3.Not(t))
                    else:
                        out.append((k, s, v))
                return out
            if neg:
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return self.mkbool(st, r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.ident(st, a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return self.mkbool(st, r)
        if isinstance(op, (ast.In, ast.NotIn)):
            out = []
            for k, s, r in self.contains(st, b, a, fr):
                if k == 'ok' and isinstance(op, ast.NotIn):
                    r = (not r) if isinstance(r, bool) else z3.Not(r)
                out += self.mkbool(s, r) if k == 'ok' else [(k, s, r)]
            return out
        x, y = self.as_int(a), self.as_int(b)
        if x is not None and y is not None:
            r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            return self.mkbool(st, r)
        raise Unsupported('ordering comparison')

    def ident(self, st, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            o = b if (a is None or isinstance(a, bool)) else a
            c = a if o is b else b
            if isinstance(o, SV) and isinstance(o.ty, (TList, TFixedList, TTuple, TTupleOf, TDict, TSet)):
                return False
            if isinstance(o, (SV, SB)):
                return to_val(o) == to_val(c)
            if isinstance(o, (SS, SI, Ptr, Tup, FuncV, ClassV, BoundV, ModV, BuiltinV, PartialV, HookV, NSetV_())):
                return False
            if o is None or isinstance(o, (bool, int, str)):
                return o is c
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.id == b.id
        if isinstance(a, (SV, Ptr, ClassV, FuncV)) and isinstance(b, (SV, Ptr, ClassV, FuncV)):
            return to_val(a) == to_val(b)
        if isinstance(a, BuiltinV) and isinstance(b, BuiltinV):
            return a.name == b.name
        if isinstance(a, (SV, SS, str)) and isinstance(b, (SV, SS, str)):
            return to_val(a) == to_val(b)
        raise Unsupported(f'identity of {a}, {b}')

    def map_eq(self, a, b):
        x = z3.Const('eq@x', Val)
        m = lambda q: z3.Lambda([x], z3.If(z3.Select(q.dom, x), z3.Select(q.val, x), Val.none))
        return z3.And(a.dom == b.dom, m(a) == m(b))

    def eq(self, st, a, b, fr=None):
        """bool | z3 Bool | results"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr):
                o = st.heap[x.id]
                if isinstance(o, Inst) and o.map is None and self.find_method(o.cls, '__eq__'):
                    return self.call_method(st, x, '__eq__', [y], {}, fr)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.id == b.id:
                return True
            p, q = st.heap[a.id], st.heap[b.id]
            ma = p.map if isinstance(p, (DictO, Inst)) else None
            mb = q.map if isinstance(q, (DictO, Inst)) else None
            if ma is not None and mb is not None:
                if ma.keys is not None and not ma.keys.parts:
                    return mb.dom == z3.K(Val, z3.BoolVal(False))
                if mb.keys is not None and not mb.keys.parts:
                    return ma.dom == z3.K(Val, z3.BoolVal(False))
                return self.map_eq(ma, mb)
            if isinstance(p, ListO) and isinstance(q, ListO):
                return self.seq_eq(st, p.seq, q.seq, fr)
            if isinstance(p, SetO) and isinstance(q, SetO):
                return p.dom == q.dom
            return False
        if isinstance(a, ViewV_()) or isinstance(b, ViewV_()):
            # key views (and sets) are equal exactly when they have the same elements
            def setlike(v):
                return isinstance(v, ViewV_()) and v.kind == 'keys' or isinstance(v, Ptr) and isinstance(st.heap[v.id], SetO)
            if setlike(a) and setlike(b):
                return self.dom_of(st, a) == self.dom_of(st, b)
            raise Unsupported('equality of views')
        if isinstance(a, (Ptr, NSetV_())) and isinstance(b, (Ptr, NSetV_())):
            da, db = self.dom_of(st, a), self.dom_of(st, b)
            if da is not None and db is not None:
                return da == db
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_eq(st, a.seq, b.seq, fr)
        prim = (type(None), bool, int, str)
        if isinstance(a, prim) and isinstance(b, prim):
            return a == b
        if isinstance(a, (ClassV, FuncV, ModV, BuiltinV)) and isinstance(b, (ClassV, FuncV, ModV, BuiltinV)):
            return getattr(a, 'qual', getattr(a, 'name', None)) == getattr(b, 'qual', getattr(b, 'name', None))
        if isinstance(a, (Tup, Ptr)) or isinstance(b, (Tup, Ptr)):
            o = b if isinstance(a, (Tup, Ptr)) else a
            if isinstance(o, prim + (SS, SI, SB)):
                return False
            if isinstance(o, SV):
                c = a if o is b else b
                if isinstance(c, Ptr):
                    return PYEQ(to_val(a), to_val(b))
            raise Unsupported(f'equality of {a}, {b}')
        ta, tb = to_val(a), to_val(b)
        if self.opts.get('user_eq') and isinstance(a, SV) and isinstance(b, SV):
            # == of arbitrary user objects: any result, or an exception
            out = []
            for s, r in self.branch(st, z3.Function('eq_raises', Val, Val, BOOL)(ta, tb)):
                if r:
                    s2, e = self.opaque_exc(s, z3.Function('eq_exc', Val, Val, Val)(ta, tb))
                    out.append(('exc', s2, e))
                else:
                    out.append(('ok', s, SV(z3.Function('eq_result', Val, Val, Val)(ta, tb))))
            return out
        if isinstance(a, SV) and isinstance(b, SV):
            ra, rb = isinstance(a.ty, TRef), isinstance(b.ty, TRef)
            if ra or rb or a.ty is not None and b.ty is not None:
                return ta == tb
            return z3.Or(PYEQ(ta, tb), z3.And(ta == tb, z3.Not(Val.is_ref(ta))))
        return ta == tb

    def seq_eq(self, st, p, q, fr):
        if p.concrete() and q.concrete():
            x, y = p.items(), q.items()
            if len(x) != len(y):
                return False
            cs = []
            for u, v in zip(x, y):
                r = self.eq(st, u, v, fr)
                if isinstance(r, list):
                    if len(r) != 1 or r[0][0] != 'ok':
                        raise Unsupported('equality of elements')
                    r = self.truth(st, r[0][2])
                if r is False:
                    return False
                if r is not True:
                    cs.append(r)
            return z3.And(*cs) if cs else True
        if not p.parts or not q.parts:
            o = q if not p.parts else p
            r = self.seq_nonempty(o)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if self.skey(st, p) == self.skey(st, q):
            return True
        raise Unsupported('equality of symbolic sequences')

    def dom_of(self, st, v):
        if isinstance(v, Ptr):
            o = st.heap[v.id]
            if isinstance(o, SetO):
                return o.dom
            if isinstance(o, DictO):
                return o.map.dom
            if isinstance(o, Inst) and o.map is not None:
                return o.map.dom
        if isinstance(v, NSetV_()):
            return self.nset_dom(st, v)
        if isinstance(v, ViewV_()) and v.kind == 'keys':
            return self.map_of(st, v.ptr).dom
        if self.sv_dict(v):
            return self.map_of(st, v).dom
        return None

    def et_of(self, st, v):
        if isinstance(v, Ptr):
            o = st.heap[v.id]
            if isinstance(o, SetO):
                return o.et
            if isinstance(o, DictO):
                return o.map.kt
        return getattr(v, 'et', None)

    def nset_dom(self, st, v):
        return z3.Select(st.fields[('nset', v.dptr.id)], v.key)

    def contains(self, st, cont, x, fr):
        """results with bool / z3 Bool"""
        if isinstance(cont, SV) and isinstance(cont.ty, TOneOf):
            return self.split_ty(st, cont, lambda s, v: [self.raise_(s, 'TypeError')] if v is None else self.contains(s, v, x, fr))
        if isinstance(cont, Ptr):
            o = st.heap[cont.id]
            if isinstance(o, Inst) and self.find_method(o.cls, '__contains__'):
                out = []
                for k, s, v in self.call_method(st, cont, '__contains__', [x], {}, fr):
                    out.append((k, s, self.truth(s, v) if k == 'ok' else v))
                return out
        if isinstance(cont, SV) and isinstance(cont.ty, TRef) and cont.ty.cls and ':' in cont.ty.cls and self.find_method(cont.ty.cls, '__contains__'):
            return [(k, s, self.truth(s, v) if k == 'ok' else v) for k, s, v in self.call_method(st, cont, '__contains__', [x], {}, fr)]
        d = self.dom_of(st, cont)
        if d is not None:
            st, t = self.hashed(st, x)
            return [('ok', st, z3.simplify(z3.Select(d, t)))]
        a, b = self.as_str(cont), self.as_str(x)
        if a is not None and b is not None:
            return [('ok', st, z3.simplify(z3.Contains(a, b)))]

        def f(s, seq):
            cs = []
            for p in seq.parts:
                if isinstance(p, list):
                    for v in p:
                        if isinstance(v, SV) and isinstance(x, SV) and z3.eq(v.t, x.t):
                            return [('ok', s, True)]
                        r = self.eq(s, v, x, fr)
                        if isinstance(r, list):
                            if any(k != 'ok' for k, _, _ in r):
                                raise Unsupported('membership with raising equality')
                            if len(r) != 1:
                                r = z3.Or(*[z3.And(*q.pc[len(s.pc):], self.bterm(q, w)) for _, q, w in r])
                            else:
                                r = self.truth(r[0][1], r[0][2])
                        if r is True:
                            return [('ok', s, True)]
                        if r is not False:
                            cs.append(r)
                elif isinstance(p, Seg):
                    cs.append(self.seg_contains(p, x if isinstance(x, Tup) else to_val(x)))
                else:
                    raise Unsupported('reading a loop accumulator')
            return [('ok', s, z3.Or(*cs) if cs else False)]
        return self.then(self.iter_seq(st, cont, fr), f)

    def bterm(self, st, v):
        t = self.truth(st, v)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    # ------------------------------------------------------------ iteration
    def keys_seq(self, st, m):
        if m.keys is not None and m.keys.concrete():
            return m.keys
        return Seq([full_seg(self.keys_base(m))])

    def keys_base(self, m):
        return self.dom_base(m.dom, m.kt)

    def dom_base(self, dom, et):
        d = z3.simplify(dom)
        b = Base(f'keys({d.sexpr()})', 'val', lambda k: SV(k, et), dom=dom)
        b.et = et
        if isinstance(et, TStr):
            b.facts = lambda k: [Val.is_strv(k)]
        b.deps, b.mk = (d,), lambda d: self.dom_base(d, et)
        return b

    def list_base(self, t, et):
        ln = z3.Function('list.len', Val, INT)(t)
        at = z3.Function('list.at', Val, INT, Val)
        b = Base(f'listof({z3.simplify(t).sexpr()})', 'int', lambda i: SV(at(t, i), et), length=ln, facts=lambda i: type_facts(at(t, i), et))
        b.deps, b.mk = (t,), lambda t: self.list_base(t, et)
        return b

    def rev_base(self, base, top):
        b = Base(f'rev({base.key}:{top.sexpr()})', 'int', lambda i: base.get(z3.simplify(top - i)), length=base.len,
                 facts=lambda i: base.facts(z3.simplify(top - i)))
        b.tag = ('rev', base, top)
        if base.mk:
            b.deps, b.mk = (top, *base.deps), lambda top, *d: self.rev_base(base.mk(*d), z3.simplify(top))
        return b

    def iter_seq(self, st, v, fr):
        if isinstance(v, SV) and isinstance(v.ty, TOneOf):
            return self.split_ty(st, v, lambda s, x: [self.raise_(s, 'TypeError')] if x is None else self.iter_seq(s, x, fr))
        if isinstance(v, Tup):
            return [('ok', st, v.seq)]
        if isinstance(v, Seq):
            return [('ok', st, v)]
        if isinstance(v, Ptr):
            o = st.heap[v.id]
            if isinstance(o, ListO):
                return [('ok', st, o.seq)]
            if isinstance(o, SetO):
                if o.seq is not None:
                    return [('ok', st, o.seq)]
                return [('ok', st, self.set_seq(o.dom, o.et))]
            if isinstance(o, DictO):
                return [('ok', st, self.keys_seq(st, o.map))]
            if isinstance(o, Inst):
                if self.find_method(o.cls, '__iter__'):
                    return self.then(self.call_method(st, v, '__iter__', [], {}, fr),
                                     lambda s, it: self.iter_seq(s, it, fr))
                if o.map is not None:
                    return [('ok', st, self.keys_seq(st, o.map))]
                if '$list' in o.attrs:
                    return self.iter_seq(st, o.attrs['$list'], fr)
        if isinstance(v, NSetV_()):
            return [('ok', st, self.set_seq(self.nset_dom(st, v), v.et))]
        if isinstance(v, ViewV_()):
            m = self.map_of(st, v.ptr)
            ks = self.keys_seq(st, m)

            def conv(val):
                t = to_val(val)
                if v.kind == 'keys':
                    return val
                x = from_val(z3.Select(m.val, t), m.vt)
                return x if v.kind == 'values' else Tup([val, x])
            parts = []
            for p in ks.parts:
                if isinstance(p, list):
                    parts.append([conv(x) for x in p])
                else:
                    parts.append(Seg(p.base, p.lo, p.hi, p.idx,
                                     [(c, Seq.of(*[conv(x) for x in q.items()])) for c, q in p.alts], p.upto))
            return [('ok', st, Seq(parts))]
        if isinstance(v, SV) and isinstance(v.ty, (TList, TTupleOf)):
            et = v.ty.et
            b, ln = self.list_base(v.t, et), z3.Function('list.len', Val, INT)(v.t)
            return [('ok', st.fact(ln >= 0), Seq([full_seg(b)]))]
        if self.sv_dict(v):
            return [('ok', st, self.keys_seq(st, self.map_of(st, v)))]
        if isinstance(v, SV) and isinstance(v.ty, TRef) and v.ty.cls and self.find_method(v.ty.cls, '__iter__'):
            return self.then(self.call_method(st, v, '__iter__', [], {}, fr), lambda s, it: self.iter_seq(s, it, fr))
        raise Unsupported(f'iteration over {v}')

    def set_seq(self, dom, et):
        d = z3.simplify(dom)
        # concrete finite set
        ks = []
        cur = d
        while z3.is_app(cur) and cur.decl().kind() == z3.Z3_OP_STORE and z3.is_true(cur.arg(2)):
            ks.append(cur.arg(1))
            cur = cur.arg(0)
        if z3.is_K(cur) and z3.is_false(cur.arg(0)) and len(ks) <= 1:
            return Seq.of(*[from_val(k, et) for k in reversed(ks)])
        return Seq([full_seg(self.dom_base(dom, et))])

    # comprehensions are loops that append
    def comp(self, st, gens, fr, emit, s0=None):
        from .exec import Frame
        cf = Frame(fr.mod, fr.cls, fr, fr.fn, fr.spec, fr.selfname)
        cf.yields = fr.yields
        st = st.copy()
        st.env = dict(st.env)
        st.env[cf.id] = {}

        def level(s, i):
            if i == len(gens):
                return [('next' if k == 'ok' else k, s2, v) for k, s2, v in emit(s, cf)]
            g = gens[i]

            def run(s1, it):
                def body(s2, seq):
                    def step(s3, e):
                        out = []
                        for k, s4, v in self.assign(s3, g.target, e, cf):
                            if k != 'next':
                                out.append((k, s4, v))
                                continue
                            conds = [('ok', s4, True)]
                            for c in g.ifs:
                                nx = []
                                for k5, s5, b in conds:
                                    nx += self.cond(s5, c, cf) if k5 == 'ok' and b else [(k5, s5, b)]
                                conds = nx
                            for k5, s5, b in conds:
                                if k5 != 'ok':
                                    out.append((k5, s5, b))
                                elif b:
                                    out += level(s5, i + 1)
                                else:
                                    out.append(('next', s5, None))
                        return out
                    return self.iterate(s2, seq, step)
                return self.then(self.iter_seq(s1, it, cf), body)
            return self.then(self.ev(s, g.iter, fr if i == 0 else cf), run)
        return level(st, 0)

    def comp_list(self, st, elt, gens, fr):
        st, p = st.alloc(ListO(Seq()))

        def emit(s, cf):
            return self.then(self.ev(s, elt, cf),
                             lambda s2, v: [('ok', s2.put(p.id, ListO(s2.heap[p.id].seq.append(v))), None)])
        return [('ok' if k == 'next' else k, s, p if k == 'next' else v) for k, s, v in self.comp(st, gens, fr, emit)]

    def e_ListComp(self, st, n, fr):
        return self.comp_list(st, n.elt, n.generators, fr)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, st, n, fr):
        return self.then(self.comp_list(st, n.elt, n.generators, fr),
                         lambda s, p: self.make_set(s, s.heap[p.id].seq))

    def e_DictComp(self, st, n, fr):
        st, p = st.alloc(DictO(MapV.empty()))

        def emit(s, cf):
            def f(s2, vs):
                return [('ok', s2.put(p.id, DictO(s2.heap[p.id].map.set(to_val(vs[0]), self.store_val(s2, vs[1])))), None)]
            return self.then(self.evs(s, [n.key, n.value], cf), f)
        return [('ok' if k == 'next' else k, s, p if k == 'next' else v)
                for k, s, v in self.comp(st, n.generators, fr, emit)]

    def e_Starred(self, st, n, fr):
        raise Unsupported('starred expression')

    def e_Yield(self, st, n, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            raise Unsupported('yield outside a modelled generator')
        if n.value is None:
            return f.yields(st, None)
        return self.then(self.ev(st, n.value, fr), lambda s, v: f.yields(s, v))

    def e_YieldFrom(self, st, n, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent

        def g(s, seq):
            def step(s1, e):
                return [('next' if k == 'ok' else k, s2, v) for k, s2, v in f.yields(s1, e)]
            return [('ok' if k == 'next' else k, s2, v) for k, s2, v in self.iterate(s, seq, step)]
        return self.then(self.then(self.ev(st, n.value, fr), lambda s, v: self.iter_seq(s, v, fr)), g)

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, st, n, fr):
        def f(s, o):
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper]
                if n.slice.step is not None:
                    if ast.unparse(n.slice.step) == '-1' and parts == [None, None]:
                        return self.then(self.iter_seq(s, o, fr), lambda s2, q: self.rev(s2, q))
                    raise Unsupported('slice step')

                def g(s2, vs):
                    it = iter(vs)
                    lo = next(it) if parts[0] is not None else None
                    hi = next(it) if parts[1] is not None else None
                    return self.getslice(s2, o, lo, hi, fr)
                return self.then(self.evs(s, [x for x in parts if x is not None], fr), g)
            return self.then(self.ev(s, n.slice, fr), lambda s2, i: self.getitem(s2, o, i, fr))
        return self.then(self.ev(st, n.value, fr), f)

    def rev_seq(self, q):
        parts = []
        for p in reversed(q.parts):
            if isinstance(p, list):
                parts.append(list(reversed(p)))
            elif isinstance(p, Seg) and p.base.kind == 'int' and p.is_map():
                v = p.alts[0][1].items()[0]
                top = z3.simplify(p.hi - 1 + p.lo)
                if p.base.tag and p.base.tag[0] == 'rev':
                    # reversing a reversed source gives the original order back
                    _, ob, otop = p.base.tag
                    lo, hi = z3.simplify(otop - p.hi + 1), z3.simplify(otop - p.lo + 1)
                    idx = z3.Const(f'e@{ob.key}', INT)
                    parts.append(Seg(ob, lo, hi, idx, [(z3.BoolVal(True), Seq.of(sub(v, [(p.idx, z3.simplify(otop - idx))])))]))
                    continue
                b = self.rev_base(p.base, top)
                idx = z3.Const(f'e@{b.key}', INT)
                parts.append(Seg(b, p.lo, p.hi, idx, [(z3.BoolVal(True), Seq.of(sub(v, [(p.idx, z3.simplify(top - idx))])))]))
            else:
                raise Unsupported('reversal of a filtered sequence')
        return Seq(parts)

    def rev(self, st, q):
        s, p = st.alloc(ListO(self.rev_seq(q)))
        return [('ok', s, p)]

    def sep_free(self, st, seq, sep):
        """every element is a string without the separator, and there is at least one element"""
        ne = self.seq_nonempty(seq)
        if ne is False or (ne is not True and self.check([*st.pc, *self.base_len_facts(seq), z3.Not(ne)]) != z3.unsat):
            return False
        for p in seq.parts:
            if isinstance(p, list):
                for v in p:
                    t = to_val(v)
                    if self.check([*st.pc, z3.Or(z3.Not(Val.is_strv(t)), z3.Contains(Val.s(t), z3.StringVal(sep)))]) != z3.unsat:
                        return False
            elif isinstance(p, Seg):
                for c, q in p.alts:
                    if not q.concrete():
                        return False
                    for v in q.items():
                        t = to_val(v)
                        if self.check([*st.pc, p.rng(), c, *p.base.facts(p.idx), z3.Or(z3.Not(Val.is_strv(t)), z3.Contains(Val.s(t), z3.StringVal(sep)))]) != z3.unsat:
                            return False
            else:
                return False
        return True

    def flatten_joins(self, seq, sep):
        return seq

    def seq_len(self, seq):
        """int | z3 Int"""
        total, cs = 0, []
        for p in seq.parts:
            if isinstance(p, list):
                total += len(p)
            elif isinstance(p, AccMark):
                raise Unsupported('reading a loop accumulator')
            elif p.base.kind == 'int' and all(len(q.items()) == 1 if q.concrete() else False for c, q in p.alts) and \
                    z3.is_true(z3.simplify(z3.Or(*[c for c, _ in p.alts]))):
                cs.append(z3.If(p.hi > p.lo, p.hi - p.lo, 0))
            else:
                raise Unsupported('length of a filtered sequence')
        return total if not cs else z3.simplify(z3.Sum([z3.IntVal(total)] + cs))

    def base_len_facts(self, seq):
        return [p.base.len >= 0 for p in seq.parts if isinstance(p, Seg) and p.base.kind == 'int']

    def getslice(self, st, o, lo, hi, fr):
        tup = isinstance(o, Tup)
        if isinstance(o, (str, SS)):
            return self.str_slice(st, o, lo, hi)
        if isinstance(o, Ptr) and isinstance(st.heap[o.id], Inst):
            if self.find_method(st.heap[o.id].cls, '__getitem__'):
                return self.call_method(st, o, '__getitem__', [SliceV(lo, hi)], {}, fr)

        def f(s, seq):
            if any(isinstance(p, AccMark) for p in seq.parts):
                raise Unsupported('reading a loop accumulator')
            out = []
            for s2, q in self.slice_seq(s, seq, lo, hi):
                if tup:
                    out.append(('ok', s2, Tup(q)))
                else:
                    s3, p = s2.alloc(ListO(q))
                    out.append(('ok', s3, p))
            return out
        return self.then(self.iter_seq(st, o, fr), f)

    def slice_seq(self, st, seq, lo, hi):
        if seq.concrete() and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return [(st, Seq.of(*seq.items()[lo:hi]))]
        if len(seq.parts) == 1 and isinstance(seq.parts[0], Seg) and seq.parts[0].base.kind == 'int' and seq.parts[0].is_map():
            p = seq.parts[0]
            ln = z3.If(p.hi > p.lo, p.hi - p.lo, 0)

            def norm(x, default):
                if x is None:
                    return default
                t = self.as_int(x)
                if t is None:
                    raise Unsupported('slice bound')
                if isinstance(x, int) and self.check([*st.pc, ln < abs(x)]) == z3.unsat:
                    return t if x >= 0 else z3.simplify(p.hi - p.lo) + t
                t = z3.If(t < 0, t + ln, t)
                return z3.If(t < 0, z3.IntVal(0), z3.If(t > ln, ln, t))
            a, b = norm(lo, z3.IntVal(0)), norm(hi, ln)
            lo2 = z3.simplify(p.lo + a)
            hi2 = z3.simplify(p.lo + b)
            return [(st, Seq([Seg(p.base, lo2, hi2, p.idx, p.alts)]))]
        # concrete prefix / suffix
        if isinstance(lo, int) and lo >= 0 and hi is None and seq.parts and isinstance(seq.parts[0], list) and len(seq.parts[0]) >= lo:
            return [(st, Seq([seq.parts[0][lo:]] + seq.parts[1:]))]
        if lo is None and isinstance(hi, int) and hi < 0 and isinstance(seq.parts[-1], list) and len(seq.parts[-1]) >= -hi:
            return [(st, Seq(seq.parts[:-1] + [seq.parts[-1][:hi]]))]
        if lo == 0 and hi is None or lo is None and hi is None:
            return [(st, seq)]
        raise Unsupported('slice of a composite sequence')

    def str_slice(self, st, o, lo, hi):
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return [('ok', st, o[lo:hi])]
        s = self.as_str(o)
        ln = z3.Length(s)

        def norm(x, default):
            if x is None:
                return default
            t = self.as_int(x)
            t = z3.If(t < 0, t + ln, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > ln, ln, t))
        a, b = norm(lo, z3.IntVal(0)), norm(hi, ln)
        return [('ok', st, SS(z3.SubString(s, a, z3.If(b > a, b - a, 0))))]

    def getitem(self, st, o, i, fr):
        if isinstance(i, SliceV):
            return self.getslice(st, o, i.lo, i.hi, fr)
        if isinstance(o, BuiltinV) and o.selfv is None and o.name.startswith('typing.'):
            return [('ok', st, o)]
        if isinstance(o, SV) and isinstance(o.ty, TOneOf):
            return self.split_ty(st, o, lambda s, x: [self.raise_(s, 'TypeError')] if x is None else self.getitem(s, x, i, fr))
        if isinstance(o, Ptr):
            ob = st.heap[o.id]
            if isinstance(ob, Inst) and self.find_method(ob.cls, '__getitem__'):
                return self.call_method(st, o, '__getitem__', [i], {}, fr)
            m = ob.map if isinstance(ob, (DictO, Inst)) else None
            if m is not None:
                k = to_val(i)
                if isinstance(ob, DictO) and ob.default == 'nset':
                    v = NSetV_()(o, k, m.vt)
                    # missing keys read as the empty set and become present
                    nm = MapV(z3.Store(m.dom, k, z3.BoolVal(True)), m.val, m.kt, m.vt)
                    arr = z3.Store(st.fields[('nset', o.id)], k,
                                   z3.If(z3.Select(m.dom, k), z3.Select(st.fields[('nset', o.id)], k),
                                         z3.K(Val, z3.BoolVal(False))))
                    st = st.put(o.id, DictO(nm, ob.default)).with_field(('nset', o.id), arr)
                    return [('ok', st, v)]
                out = []
                for s, b in self.branch(st, z3.Select(m.dom, k)):
                    if b:
                        s2, v = wrap(self, s, z3.Select(m.val, k), m.vt)
                        out.append(('ok', s2, v))
                    elif isinstance(ob, DictO) and ob.default == 'list':
                        s2, p = s.alloc(ListO(Seq()))
                        s2 = s2.put(o.id, DictO(m.set(k, to_val(p)), ob.default))
                        out.append(('ok', s2, p))
                    else:
                        out.append(self.raise_(s, 'KeyError'))
                return out

        def f(s, seq):
            return self.index_seq(s, seq, i)
        return self.then(self.iter_seq(st, o, fr), f)

    def index_seq(self, st, seq, i):
        if seq.concrete() and isinstance(i, int):
            items = seq.items()
            if -len(items) <= i < len(items):
                return [('ok', *self.thaw(st, items[i]))]
            return [self.raise_(st, 'IndexError')]
        t = self.as_int(i)
        if t is None:
            raise Unsupported('index')
        # known ends
        if isinstance(i, int) and i < 0 and seq.parts and isinstance(seq.parts[-1], list) and len(seq.parts[-1]) >= -i:
            return [('ok', *self.thaw(st, seq.parts[-1][i]))]
        if isinstance(i, int) and i >= 0 and seq.parts and isinstance(seq.parts[0], list) and len(seq.parts[0]) > i:
            return [('ok', *self.thaw(st, seq.parts[0][i]))]
        if len(seq.parts) == 1 and isinstance(seq.parts[0], Seg) and seq.parts[0].base.kind == 'int' and seq.parts[0].is_map():
            p = seq.parts[0]
            ln = z3.If(p.hi > p.lo, p.hi - p.lo, 0)
            ix = z3.simplify(z3.If(t < 0, t + ln, t))
            out = []
            for s, b in self.branch(st, z3.And(ix >= 0, ix < ln)):
                if b:
                    pos = z3.simplify(p.hi + i if isinstance(i, int) and i < 0 else p.lo + i if isinstance(i, int) else p.lo + ix)
                    s = s.fact(*p.base.facts(pos))
                    out.append(('ok', *self.thaw(s, sub(p.alts[0][1].items()[0], [(p.idx, pos)]))))
                else:
                    out.append(self.raise_(s, 'IndexError'))
            return out
        if not isinstance(i, int) and all(isinstance(p, list) or p.base.kind == 'int' and p.is_map() for p in seq.parts):
            lens = [z3.IntVal(len(p)) if isinstance(p, list) else z3.If(p.hi > p.lo, p.hi - p.lo, 0) for p in seq.parts]
            total = sum(lens, z3.IntVal(0))
            ix = z3.If(t < 0, t + total, t)
            out, off, cur = [], z3.IntVal(0), [st]
            for p, ln in zip(seq.parts, lens):
                nxt = []
                for s0 in cur:
                    for s, b in self.branch(s0, z3.And(ix >= off, ix < off + ln)):
                        if not b:
                            nxt.append(s)
                        elif isinstance(p, list):
                            for j, y in enumerate(p):
                                for s2, c in self.branch(s, ix == off + j):
                                    if c:
                                        out.append(('ok', *self.thaw(s2, y)))
                        else:
                            pos = z3.simplify(p.lo + ix - off)
                            out.append(('ok', *self.thaw(s.fact(*p.base.facts(pos)), sub(p.alts[0][1].items()[0], [(p.idx, pos)]))))
                off, cur = off + ln, nxt
            return out + [self.raise_(s, 'IndexError') for s in cur]
        if isinstance(i, int) and i == -1 and seq.parts and isinstance(seq.parts[-1], Seg):
            return self.last_of_filter(st, seq)
        if isinstance(i, int) and i == 0 and seq.parts and isinstance(seq.parts[0], Seg):
            return self.last_of_filter(st, seq, first=True)
        raise Unsupported('index into a composite sequence')

    def last_of_filter(self, st, seq, first=False):
        """last (first) element of a sequence whose final (first) part is a filtered segment"""
        p = seq.parts[0 if first else -1]
        if p.base.kind != 'int' or not all(q.concrete() for c, q in p.alts):
            raise Unsupported('end of a filtered sequence')
        hit = [(c, q.items()[0 if first else -1]) for c, q in p.alts if q.items()]
        hc = z3.Or(*[c for c, _ in hit])
        out = []
        for s, b in self.branch(st, z3.Exists([p.idx], z3.And(p.rng(), hc))):
            if b:
                ph = z3.Const('$ph:Int', INT)
                kj = ('last', first, self.skey(st, Seq([p])), self.tkey(st, z3.substitute(hc, (p.idx, ph))))
                if kj not in self.memo:
                    self.memo[kj] = f'last!{len(self.memo)}'
                deps = [i for i, n in self.loop_names(st) if str(n) in str(kj)]      # the loops that the sequence depends on
                j = z3.Function(self.memo[kj], *[i.sort() for i in deps], INT)(*deps) if deps else z3.Const(self.memo[kj], INT)
                d = z3.And(p.rng(), z3.Not(hc), )
                later = (p.idx < j) if first else (p.idx > j)
                at = lambda t: z3.substitute(t, (p.idx, j))
                s2 = s.fact(at(p.rng()), at(hc),
                            z3.ForAll([p.idx], z3.Implies(z3.And(p.rng(), later), z3.Not(hc))),
                            *p.base.facts(j))
                for c, v in hit:
                    for s3, bb in self.branch(s2, at(c)):
                        if bb:
                            out.append(('ok', *self.thaw(s3, sub(v, [(p.idx, j)]))))
                        else:
                            s2 = s3
            else:
                rest = Seq(seq.parts[1:] if first else seq.parts[:-1])
                out += self.index_seq(s, rest, 0 if first else -1)
        return out

    def setitem(self, st, o, i, v, fr):
        if isinstance(o, Ptr):
            ob = st.heap[o.id]
            if isinstance(ob, Inst) and self.find_method(ob.cls, '__setitem__'):
                return self.then(self.call_method(st, o, '__setitem__', [i, v], {}, fr), lambda s, _: [('next', s, None)])
            if isinstance(ob, DictO):
                if ob.default == 'nset':
                    d = self.dom_of(st, v)
                    nm = MapV(z3.Store(ob.map.dom, to_val(i), z3.BoolVal(True)), ob.map.val, ob.map.kt, ob.map.vt)
                    return [('next', st.put(o.id, DictO(nm, ob.default)).with_field(
                        ('nset', o.id), z3.Store(st.fields[('nset', o.id)], to_val(i), d)), None)]
                return [('next', st.put(o.id, DictO(ob.map.set(to_val(i), self.store_val(st, v)), ob.default)), None)]
            if isinstance(ob, Inst) and ob.map is not None:
                return [('next', st.put(o.id, Inst(ob.cls, ob.attrs, ob.map.set(to_val(i), self.store_val(st, v)))), None)]
            if isinstance(ob, ListO) and ob.seq.concrete() and isinstance(i, int):
                items = list(ob.seq.items())
                if -len(items) <= i < len(items):
                    items[i] = v
                    return [('next', st.put(o.id, ListO(Seq.of(*items))), None)]
            if isinstance(ob, ListO) and i == -1 and ob.seq.parts and isinstance(ob.seq.parts[-1], list):
                ps = ob.seq.parts
                return [('next', st.put(o.id, ListO(Seq(ps[:-1] + [ps[-1][:-1] + [v]]))), None)]
            if isinstance(ob, ListO) and i == -1 and len(ob.seq.parts) == 1 and ob.seq.parts[0].is_map() and \
                    ob.seq.parts[0].base.kind == 'int':
                p = ob.seq.parts[0]
                out = []
                for s, b in self.branch(st, p.hi > p.lo):
                    if b:
                        q = Seq([Seg(p.base, p.lo, z3.simplify(p.hi - 1), p.idx, p.alts), [v]])
                        out.append(('next', s.put(o.id, ListO(q)), None))
                    else:
                        out.append(self.raise_(s, 'IndexError'))
                return out
        raise Unsupported('item assignment')

    def delitem(self, st, o, i, fr):
        if isinstance(o, Ptr) and isinstance(st.heap[o.id], DictO):
            ob = st.heap[o.id]
            out = []
            for s, b in self.branch(st, z3.Select(ob.map.dom, to_val(i))):
                if b:
                    out.append(('next', s.put(o.id, DictO(ob.map.delete(to_val(i)), ob.default)), None))
                else:
                    out.append(self.raise_(s, 'KeyError'))
            return out
        if isinstance(o, Ptr) and isinstance(st.heap[o.id], ListO) and isinstance(i, int) and i in (0, -1):
            out = []
            for k, s, _ in self.index_seq(st, st.heap[o.id].seq, i):
                if k != 'ok':
                    out.append((k, s, _))
                    continue
                for s2, q in self.slice_seq(s, s.heap[o.id].seq, *((1, None) if i == 0 else (None, -1))):
                    out.append(('next', s2.put(o.id, ListO(q)), None))
            return out
        raise Unsupported('del item')

    # ------------------------------------------------------------ attributes
    def find_method(self, cls, name):
        if not cls or ':' not in cls:
            return None
        for c in self.repo.mro(cls):
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, cls, name):
        for c in self.repo.mro(cls):
            if isinstance(c, ClassInfo) and name in c.setters:
                return c.setters[name]
        return None

    def class_assign(self, cls, name):
        for c in self.repo.mro(cls):
            if isinstance(c, ClassInfo) and name in c.assigns:
                return c.mod, c.assigns[name]
        return None

    def fv(self, f):
        return FuncV(f.node, f.mod, f.qual, f.cls)

    def e_Attribute(self, st, n, fr):
        return self.then(self.ev(st, n.value, fr), lambda s, o: self.getattr(s, o, n.attr, fr))

    def getattr(self, st, o, a, fr):
        if isinstance(o, Ptr):
            ob = st.heap[o.id]
            if isinstance(ob, Inst):
                return self.inst_attr(st, o, ob, a, fr)
            kind = {'list': LIST_METHODS, 'dict': DICT_METHODS, 'set': SET_METHODS}[ob.kind]
            if a in kind:
                return [('ok', st, BuiltinV(f'{ob.kind}.{a}', o))]
            return [self.raise_(st, 'AttributeError')]
        if isinstance(o, ModV):
            q = o.name
            g = self.tracked_module(q)
            if g is not None and a in st.heap[g.id].attrs:
                return self.getattr(st, g, a, fr)
            r = self.repo.resolve_from(q, a) if q in self.repo.mods else ('ext', f'{q}.{a}')
            if r is None:
                return [self.raise_(st, 'AttributeError')]
            return self.resolved(st, r)
        if isinstance(o, HookV):
            return [('ok', st, HookV(o.path + (a,)))]
        if isinstance(o, ClassV):
            f = self.find_method(o.qual, a)
            if f is not None:
                if f.kind == 'classmethod':
                    return [('ok', st, BoundV(o, self.fv(f)))]
                return [('ok', st, self.fv(f))]
            ca = self.class_assign(o.qual, a)
            if ca:
                if self.is_enum(o.qual):
                    return [('ok', st, self.enum_member(o.qual, a))]
                from .exec import Frame
                g = self.globals.get((o.qual, a))
                if g is not None:
                    return [('ok', st, g)]
                return self.ev(st, ca[1], Frame(ca[0]))
            if a == '__name__':
                return [('ok', st, o.qual.split(':')[1])]
            return [self.raise_(st, 'AttributeError')]
        if isinstance(o, SuperV):
            mro = self.repo.mro(o.cls.qual)
            obj_cls = st.heap[o.selfv.id].cls if isinstance(o.selfv, Ptr) else o.selfv.ty.cls if isinstance(o.selfv, SV) else o.selfv.qual
            full = self.repo.mro(obj_cls)
            i = [x.qual if isinstance(x, ClassInfo) else x for x in full].index(o.cls.qual)
            for c in full[i + 1:]:
                if isinstance(c, ClassInfo) and a in c.methods:
                    f = c.methods[a]
                    return [('ok', st, BoundV(o.selfv, self.fv(f)))]
            return [('ok', st, BuiltinV('super.' + a, o.selfv))]
        if isinstance(o, (str, SS)):
            if a in STR_METHODS:
                return [('ok', st, BuiltinV('str.' + a, o))]
            return [self.raise_(st, 'AttributeError')]
        if isinstance(o, BuiltinV):
            if o.name == 'logger':
                return [('ok', st, BuiltinV('logger.' + a, o))]
            g = self.tracked_module(o.name)
            if g is not None and a in st.heap[g.id].attrs:
                return self.getattr(st, g, a, fr)
            if f'{o.name}.{a}' in ('os.path.sep', 'os.sep'):
                return [('ok', st, '/')]
            return [('ok', st, BuiltinV(f'{o.name}.{a}', o.selfv))]
        if isinstance(o, NSetV_()):
            return [('ok', st, BuiltinV('nset.' + a, o))]
        if isinstance(o, Tup):
            return [('ok', st, BuiltinV('tuple.' + a, o))]
        if isinstance(o, SV):
            if isinstance(o.ty, TRef):
                if a in o.ty.attrs:
                    return self.ref_attr(st, o, a)
                if o.ty.cls and o.ty.cls.startswith('io:'):
                    return [('ok', st, BuiltinV('io.' + a, o))]
                if o.ty.cls and o.ty.cls.startswith('ext:'):
                    return [('ok', st, BuiltinV(o.ty.cls + '.' + a, o))]
                if o.ty.cls and ':' in o.ty.cls:
                    f = self.find_method(o.ty.cls, a)
                    if f is not None:
                        if f.kind == 'property':
                            return self.call(st, self.fv(f), [o], {}, fr)
                        return [('ok', st, BoundV(o, self.fv(f)))]
                return self.opaque_attr(st, o, a)
            if o.ty is None or isinstance(o.ty, TAny):
                return self.opaque_attr(st, o, a)
            if isinstance(o.ty, TOneOf):
                return self.split_ty(st, o, lambda s, v: self.getattr(s, v, a, fr))
        if isinstance(o, PartialV):
            if a == 'func':
                return [('ok', st, o.func)]
        if isinstance(o, FuncV) and a == '__name__':
            return [('ok', st, o.node.name)]
        if o is None or isinstance(o, (bool, int, SI, SB)):
            return [self.raise_(st, 'AttributeError')]
        if isinstance(o, BoundV):
            return [('ok', st, BuiltinV(f'funcattr.{a}', o))]
        raise Unsupported(f'attribute {a} of {o}')

    def tracked_module(self, name):
        """state of an external module (sys, ...) declared by the contract"""
        return self.globals.get(('module', name))

    def split_ty(self, st, o, f):
        """case split of an SV with a union type"""
        out = []
        rest = st
        refs = [t for t in o.ty.alts() if isinstance(t, (TRef, TValObj, TDict, TList, TObj))]
        for t in o.ty.alts():
            if isinstance(t, TConst):
                c = o.t == to_val(t.v)
            elif isinstance(t, TStr):
                c = Val.is_strv(o.t)
            elif isinstance(t, TBool):
                c = Val.is_boolv(o.t)
            elif isinstance(t, (TRef, TValObj, TDict, TList, TObj)):
                c = Val.is_ref(o.t)
                if t is not refs[-1]:      # which of the kinds of object it is
                    tag = f'{type(t).__name__} {getattr(t, "cls", None) or refs.index(t)}'
                    c = z3.And(c, z3.Function(f'isa {tag}', Val, z3.BoolSort())(o.t))
            else:
                c = z3.BoolVal(True)
            s = rest.assume(c)
            if self.feasible(s):
                s2, v = wrap(self, s, o.t, t) if not isinstance(t, TConst) else (s, t.v)
                out += f(s2, v)
            rest = rest.assume(z3.Not(c))
            if not self.feasible(rest):
                break
        return out

    def field_arr(self, st, a):
        if a in st.fields:
            return st, st.fields[a]
        arr = z3.Const(f'field.{a}', MAP)
        self.fields0.setdefault(a, arr)
        return st.with_field(a, arr), arr

    def ref_attr(self, st, o, a):
        st, arr = self.field_arr(st, a)
        s, v = wrap(self, st, z3.Select(arr, o.t), o.ty.attrs[a])
        return [('ok', s, v)]

    def opaque_attr(self, st, o, a):
        """attribute of a user object: present or not, value unknown (deterministic, no effect)"""
        cls = getattr(o.ty, 'cls', None)
        if isinstance(cls, str) and cls.startswith('ast.'):
            c = getattr(ast, cls[4:], None)
            if isinstance(c, type) and (cls == 'ast.Constant' or not c.__subclasses__()) and a not in c._fields and a not in c._attributes and not hasattr(c, a):
                return [self.raise_(st, 'AttributeError')]
        self.notes.add('attribute reads on user objects have no side effect')
        has = z3.Function('hasattr.' + a, Val, BOOL)(o.t)
        out = []
        for s, b in self.branch(st, has):
            if b:
                s, arr = self.field_arr(s, a)
                out.append(('ok', s, SV(z3.Select(arr, o.t))))
            else:
                out.append(self.raise_(s, 'AttributeError'))
        return out

    def is_enum(self, cls):
        return any((x == 'enum.Enum' or x == 'Enum') for x in self.repo.mro(cls) if isinstance(x, str))

    def enum_member(self, cls, a):
        i = static_id(('enum', cls, a)) - 500000
        return SV(Val.ref(z3.IntVal(i)), TEnum(cls, value=TStr()))

    def inst_attr(self, st, o, ob, a, fr):
        f = self.find_method(ob.cls, a)
        if f is not None and f.kind == 'property':
            return self.call(st, self.fv(f), [o], {}, fr)
        if a in ob.attrs:
            v = ob.attrs[a]
            if isinstance(v, Poison):
                raise Carried(f'loop-carried attribute {a}', v)
            if isinstance(v, SV) and v.ty is not None:
                s, v = wrap(self, st, v.t, v.ty)
                return [('ok', s, v)]
            if isinstance(v, Absent):
                return [self.raise_(st, 'AttributeError')]
            return [('ok', st, v)]
        if f is not None:
            if f.kind == 'classmethod':
                return [('ok', st, BoundV(ClassV(ob.cls), self.fv(f)))]
            if f.kind == 'staticmethod':
                return [('ok', st, self.fv(f))]
            return [('ok', st, BoundV(o, self.fv(f)))]
        ca = self.class_assign(ob.cls, a)
        if ca:
            if (ob.cls, a) in self.globals:
                return [('ok', st, self.globals[(ob.cls, a)])]
            from .exec import Frame
            return self.ev(st, ca[1], Frame(ca[0]))
        if a == '__class__':
            return [('ok', st, ClassV(ob.cls))]
        if ob.cls.startswith('ext:'):
            return [('ok', st, BuiltinV(ob.cls + '.' + a, o))]
        if ob.map is not None and a in DICT_METHODS:
            return [('ok', st, BuiltinV('dict.' + a, o))]
        if '$list' in ob.attrs and a in LIST_METHODS:
            return [('ok', st, BuiltinV('list.' + a, ob.attrs['$list']))]
        if ob.cls == 'functools.partial' and a in ('func', 'args', 'keywords'):
            return [('ok', st, ob.attrs[a])]
        from . import models
        for b in self.repo.mro(ob.cls) if ':' in ob.cls else ():
            # what a library base class provides
            if isinstance(b, str) and f'{b}.{a}' in models.MODELS:
                return [('ok', st, BuiltinV(f'{b}.{a}', o))]
            if isinstance(b, str) and models.may_have(b, a):
                raise Unsupported(f'{a} of the library class {b}')
        g = self.find_method(ob.cls, '__getattr__')
        if g is not None:
            return self.call(st, self.fv(g), [o, a], {}, fr)
        return [self.raise_(st, 'AttributeError')]

    def setattr(self, st, o, a, v, fr):
        if isinstance(o, Ptr) and isinstance(st.heap[o.id], Inst):
            ob = st.heap[o.id]
            f = self.find_setter(ob.cls, a) if ':' in ob.cls else None
            if f is not None:
                return self.then(self.call_fn(st, f, [o, v], {}, None, fr), lambda s, _: [('next', s, None)])
            if self.find_method(ob.cls, '__setattr__'):
                return self.then(self.call_method(st, o, '__setattr__', [a, v], {}, fr), lambda s, _: [('next', s, None)])
            return [('next', st.put(o.id, ob.with_attr(a, v)), None)]
        if isinstance(o, (BuiltinV, ModV)) and self.tracked_module(o.name) is not None:
            return self.setattr(st, self.tracked_module(o.name), a, v, fr)
        if isinstance(o, ModV):
            key = (o.name, a)
            if ('mod', key) in self.globals:
                h = self.globals[('mod', key)]
                return [('next', st.put(h.id, st.heap[h.id].with_attr(a, v)), None)]
            raise Unsupported(f'module attribute {key}')
        if isinstance(o, SV):
            if isinstance(o.ty, TRef) and o.ty.cls and ':' in o.ty.cls:
                f = self.find_setter(o.ty.cls, a)
                if f is not None:
                    return self.then(self.call_fn(st, f, [o, v], {}, None, fr), lambda s, _: [('next', s, None)])
            st, arr = self.field_arr(st, a)
            return [('next', st.with_field(a, z3.Store(arr, o.t, to_val(v))), None)]
        raise Unsupported(f'attribute assignment on {o}')

    # ------------------------------------------------------------ calls
    def e_Call(self, st, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f.cls is None or f.selfname is None:
                f = f.parent
            return [('ok', st, SuperV(f.cls, st.env[f.id][f.selfname]))]
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and \
                isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                self.repo.resolve(fr.mod, n.func.id) is None:
            return self.quant(st, n.func.id == 'any', n.args[0], fr)
        if isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and \
                isinstance(n.args[0], ast.GeneratorExp):
            return self.next_gen(st, n, fr)

        def f(s, fn):
            if self.is_logger(fn):
                return [('ok', s, None)]

            def g(s2, vs):
                pos, star = [], None
                for v in vs:
                    if isinstance(v, tuple) and v[0] == '*':
                        if v[1].concrete():
                            pos += v[1].items()
                        else:
                            pos.append(StarV(v[1]))
                    else:
                        pos.append(v)
                res = [('ok', s2, ({}, None))]
                for kw in n.keywords:
                    out = []
                    for k, s3, acc in res:
                        if k != 'ok':
                            out.append((k, s3, acc))
                            continue
                        for k4, s4, v in self.ev(s3, kw.value, fr):
                            if k4 != 'ok':
                                out.append((k4, s4, v))
                            elif kw.arg is None:
                                m = self.map_of(s4, v)
                                if m.keys is not None and m.keys.concrete() and all(isinstance(from_val(q.t if isinstance(q, SV) else to_val(q)), str) for q in m.keys.items()):
                                    d = dict(acc[0])
                                    for q in m.keys.items():
                                        qt = q.t if isinstance(q, SV) else to_val(q)
                                        s4, x = wrap(self, s4, z3.Select(m.val, qt), m.vt)
                                        d[from_val(qt)] = x
                                    out.append(('ok', s4, (d, acc[1])))
                                else:
                                    out.append(('ok', s4, (acc[0], m if acc[1] is None else acc[1].overlay(m))))
                            else:
                                d = dict(acc[0])
                                d[kw.arg] = v
                                out.append(('ok', s4, (d, acc[1])))
                    res = out
                return self.then(res, lambda s5, kk: self.call(s5, fn, pos, kk[0], fr, kk[1]))
            return self.then(self.evs(s, n.args, fr), g)
        return self.then(self.ev(st, n.func, fr), f)

    def is_logger(self, fn):
        return isinstance(fn, BuiltinV) and (fn.name.startswith('logger.') or fn.name in ('warnings.warn', 'print')
                                             ) and not self.opts.get('log_events')

    def quant(self, st, isany, comp, fr):
        """any/all over a generator: existential / universal quantification (elements must not raise)"""
        res = []
        for k, s, p in self.comp_list(st, comp.elt, comp.generators, fr):
            if k != 'ok':
                res.append((k, s, p))
                continue
            res += self.quant_seq(s, isany, s.heap[p.id].seq, fr)
        return res

    def quant_seq(self, s, isany, seq, fr):
        cs = []
        for part in seq.parts:
            if isinstance(part, list):
                for v in part:
                    t = self.truth(s, v, fr)
                    if isinstance(t, list):
                        raise Unsupported('any/all over objects')
                    cs.append(z3.BoolVal(t) if isinstance(t, bool) else t)
            else:
                xs = []
                for c, q in part.alts:
                    for v in q.items():
                        t = self.truth(s, v, fr)
                        t = z3.BoolVal(t) if isinstance(t, bool) else t
                        xs.append(z3.And(c, t if isany else z3.Not(t)))
                e = z3.Exists([part.idx], z3.And(part.rng(), *part.base.facts(part.idx), z3.Or(*xs))) if xs else z3.BoolVal(False)
                cs.append(e if isany else z3.Not(e))
        r = (z3.Or(*cs) if isany else z3.And(*cs)) if cs else z3.BoolVal(not isany)
        return self.mkbool(s, r)

    def next_gen(self, st, n, fr):
        out = []
        for k, s, p in self.comp_list(st, n.args[0].elt, n.args[0].generators, fr):
            if k != 'ok':
                out.append((k, s, p))
                continue
            seq = s.heap[p.id].seq
            ne = self.seq_nonempty(seq)
            for s2, b in self.branch(s, ne):
                if b:
                    out += self.index_seq(s2, seq, 0)
                elif len(n.args) > 1:
                    out += self.ev(s2, n.args[1], fr)
                else:
                    out.append(self.raise_(s2, 'StopIteration'))
        return out

    def call_method(self, st, o, name, args, kwargs, fr):
        return self.then(self.getattr(st, o, name, fr), lambda s, f: self.call(s, f, args, kwargs, fr))

    def call(self, st, fn, args, kwargs, fr, kwmap=None):
        if isinstance(fn, BoundV):
            if isinstance(fn.func, FuncV):
                return self.call(st, fn.func, [fn.selfv] + args, kwargs, fr, kwmap)
        if isinstance(fn, FuncV):
            return self.call_func(st, fn, args, kwargs, kwmap, fr)
        if isinstance(fn, ClassV):
            return self.instantiate(st, fn, args, kwargs, kwmap, fr)
        if isinstance(fn, HookV):
            return self.call_hook(st, fn, args, kwargs, fr)
        if isinstance(fn, PartialV):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(st, fn.func, fn.args + args, kw, fr, kwmap)
        if isinstance(fn, BuiltinV):
            return self.call_builtin(st, fn, args, kwargs, kwmap, fr)
        if isinstance(fn, Ptr):
            o = st.heap[fn.id]
            if isinstance(o, Inst) and self.find_method(o.cls, '__call__'):
                return self.call_method(st, fn, '__call__', args, kwargs, fr)
            if isinstance(o, Inst) and o.cls == 'functools.partial':
                fv = o.attrs['func']
                if isinstance(fv, (FuncV, BoundV, ClassV)):
                    m = self.map_of(st, o.attrs['keywords'])
                    if m.keys is None or not m.keys.concrete():
                        raise Unsupported('partial with symbolic keywords')
                    d = {}
                    for q in m.keys.items():
                        qt = q.t if isinstance(q, SV) else to_val(q)
                        st, d[from_val(qt)] = wrap(self, st, z3.Select(m.val, qt), m.vt)
                    pa = o.attrs.get('args')
                    return self.call(st, fv, (pa.seq.items() if isinstance(pa, Tup) else []) + args, {**d, **kwargs}, fr, kwmap)

                def f(s, kwm):
                    return self.opaque_call(s, o.attrs['func'], ['partial', kwm] + args, kwargs, kwmap)
                return f(st, o.attrs['keywords'])
        if isinstance(fn, SV):
            return self.opaque_call(st, fn, args, kwargs, kwmap)
        if isinstance(fn, CallSpy):
            return fn.fn(self, st, args, kwargs, kwmap)
        raise Unsupported(f'call of {fn}')

    def opaque_call(self, st, fn, args, kwargs, kwmap):
        """call of user code: an event, an unknown deterministic result, or an unknown exception.
        Assumption: user code does not modify the state under verification."""
        self.notes.add('user callables do not modify the state under verification')
        a = [fn] + [y for x in args for y in (('*', Tup(x.seq)) if isinstance(x, StarV) else (x,))] + [x for k in sorted(kwargs) for x in (k, kwargs[k])]
        if kwmap is not None:
            st, p = st.alloc(DictO(kwmap))
            a.append(p)
        return self.effect(st, 'call', a)

    def effect(self, st, name, args, ty=None, may_raise=True, silent=False):
        a = self.snap(st, args)
        key_args = a
        res = self.oracle(st, name, key_args)
        exc = self.oracle(st, name + '.exc', key_args)
        raises = self.oracle(st, name + '.raises', key_args, BOOL) if may_raise else z3.BoolVal(False)
        if not silent:
            st = st.event(name, *a)
        out = []
        for s, b in self.branch(st, raises):
            if b:
                s2, e = self.opaque_exc(s, exc)
                out.append(('exc', s2, e))
            else:
                s2, v = wrap(self, s, res, ty)
                out.append(('ok', s2, v))
        return out

    def snap(self, st, args):
        """event arguments: contents of mutable containers as of now"""
        out = []
        for a in args:
            if isinstance(a, Ptr):
                o = st.heap[a.id]
                if isinstance(o, (DictO, ListO, SetO)) or (isinstance(o, Inst) and o.map is not None):
                    f = self.freeze(st, a, {})
                    out.append(f if a.id not in self.heap0 else Tup([a, f]))
                    continue
            out.append(a)
        return out

    def call_hook(self, st, fn, args, kwargs, fr):
        if len(fn.path) == 2 and fn.path[0] == 'hook':
            name = fn.path[1]
            h = self.opts.get('hooks', {}).get(name)
            if h is not None:
                return h(self, st, kwargs, fr)
            a = [x for k in sorted(kwargs) for x in (k, kwargs[k])]
            return self.effect(st, 'hook.' + name, a, ty=TList(self.opts.get('hook_types', {}).get(name)))
        raise Unsupported('plugin manager call')

    # -- repository functions
    def contract_for(self, qual):
        return self.contracts.get(qual)

    def call_func(self, st, fn, args, kwargs, kwmap, fr):
        c = self.contract_for(fn.qual)
        if c is not None and fn.closure is None:
            self.used_contracts.add(fn.qual)
            return c.apply(self, st, fn, args, kwargs, kwmap, fr)
        if fn.closure is None and fn.mod is not None:
            self.inlined.add(fn.qual)
        return self.run_function(st, fn, args, kwargs, kwmap, fr)

    def call_fn(self, st, finfo, args, kwargs, kwmap, fr):
        q = finfo.qual + ('!set' if finfo.kind == 'setter' else '')
        c = self.contract_for(q)
        if c is not None:
            self.used_contracts.add(q)
            return c.apply(self, st, self.fv(finfo), args, kwargs, kwmap, fr)
        return self.run_function(st, self.fv(finfo), args, kwargs, kwmap, fr)

    def is_generator(self, node):
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        return False

    def run_function(self, st, fn, args, kwargs, kwmap, fr, yields=None, spec=None):
        from .exec import Frame, CMGen
        node = fn.node
        gen = self.is_generator(node)
        if gen and yields is None:
            if any('contextmanager' in ast.unparse(d) for d in node.decorator_list):
                return [('ok', st, CMGen(fn, args, kwargs, kwmap))]
            st, lp = st.alloc(ListO(Seq()))

            def collect(s, v):
                return [('ok', s.put(lp.id, ListO(s.heap[lp.id].seq.append(v))), None)]
            res = self.run_function(st, fn, args, kwargs, kwmap, fr, yields=collect, spec=spec)
            return [(k, s, lp if k == 'ok' else v) for k, s, v in res]
        if self.depth > self.MAXDEPTH:
            raise Unsupported(f'call depth (recursion without contract?) at {fn.qual}')
        self.depth += 1
        try:
            f2 = Frame(fn.mod, fn.cls, fn.closure, fn.qual, spec if spec is not None else (fn.closure.spec if fn.closure else None))
            f2.yields = yields if yields is not None else (None if gen else None)
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if fn.cls is not None and names and fn.closure is None:
                f2.selfname = names[0]
            env = {}
            pos = list(args)
            if any(isinstance(x, StarV) for x in pos):
                if not a.vararg or len([x for x in pos if isinstance(x, StarV)]) != 1:
                    raise Unsupported('star call')
            bound = pos[:len(names)]
            if any(isinstance(x, StarV) for x in bound):
                raise Unsupported('star call binding')
            for nm, v in zip(names, bound):
                env[nm] = v
            extra = pos[len(names):]
            if a.vararg:
                env[a.vararg.arg] = Tup(Seq([x.seq.parts[0] if isinstance(x, StarV) else [x] for x in extra]) if not any(isinstance(x, StarV) for x in extra) else Seq([q for x in extra for q in (x.seq.parts if isinstance(x, StarV) else [[x]])]))
            elif extra:
                return [self.raise_(st, 'TypeError')]
            kw = dict(kwargs)
            kwo = [x.arg for x in a.kwonlyargs]
            for nm in list(kw):
                if nm in names[len(a.posonlyargs):] + kwo:
                    if nm in env:
                        return [self.raise_(st, 'TypeError')]
                    env[nm] = kw.pop(nm)
            if kwmap is not None:
                self.notes.add('user keyword names do not collide with API parameter names')
                for nm in names + kwo:
                    st = st.assume(z3.Not(z3.Select(kwmap.dom, to_val(nm))))
                for nm in kw:
                    st = st.assume(z3.Not(z3.Select(kwmap.dom, to_val(nm))))
            if a.kwarg:
                m = kwmap if kwmap is not None else MapV.empty()
                for nm, v in kw.items():
                    m = m.set(to_val(nm), self.store_val(st, v))
                st, p = st.alloc(DictO(m))
                env[a.kwarg.arg] = p
            elif kw:
                return [self.raise_(st, 'TypeError')]
            elif kwmap is not None:
                # unknown extra keywords: TypeError unless empty
                st = st.assume(kwmap.dom == z3.K(Val, z3.BoolVal(False)))
                if not self.feasible(st):
                    return []
                raise Unsupported('symbolic keywords for a fixed signature')
            defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            defs.update({n: d for n, d in zip(kwo, a.kw_defaults) if d is not None})
            res = [('ok', st, env)]
            dfr = Frame(fn.mod, None, fn.closure)
            for nm in names + kwo:
                if nm in env:
                    continue
                if nm not in defs:
                    return [self.raise_(st, 'TypeError')]
                out = []
                for k, s, e in res:
                    for k2, s2, v in self.ev(s, defs[nm], dfr):
                        out.append((k2, s2, {**e, nm: v}))
                res = out
            out = []
            for k, s, e in res:
                if k != 'ok':
                    out.append((k, s, e))
                    continue
                s = s.copy()
                s.env = dict(s.env)
                s.env[f2.id] = e
                for k2, s2, v in self.exec_block(s, node.body, f2):
                    if k2 == 'next':
                        out.append(('ok', s2, None))
                    elif k2 == 'ret':
                        out.append(('ok', s2, v))
                    elif k2 == 'exc':
                        out.append(('exc', s2, v))
                    else:
                        raise Unsupported('break outside loop')
            return out
        finally:
            self.depth -= 1

    def instantiate(self, st, c, args, kwargs, kwmap, fr):
        ct = self.contract_for(c.qual)
        if ct is not None:
            self.used_contracts.add(c.qual)
            return ct.apply(self, st, c, args, kwargs, kwmap, fr)
        ci = self.repo.cls(c.qual)
        isexc = any(isinstance(x, str) and x in ('Exception', 'BaseException', 'ValueError', 'KeyError', 'AttributeError', 'TypeError')
                    for x in self.repo.mro(c.qual))
        isdict = any(isinstance(x, str) and x in ('dict', 'UserDict') for x in self.repo.mro(c.qual))
        st, p = st.alloc(Inst(c.qual, {}, MapV.empty() if isdict else None))
        init = self.find_method(c.qual, '__init__')
        if init is None:
            if isexc:
                return [('ok', st.put(p.id, Inst(c.qual, {'args': Tup(args)})), p)]
            if args or kwargs:
                raise Unsupported('constructor arguments without __init__')
            return [('ok', st, p)]
        return [(k, s, p if k == 'ok' else v) for k, s, v in
                self.call(st, self.fv(init), [p] + args, kwargs, fr, kwmap)]

    # ------------------------------------------------------------ builtins
    def call_builtin(self, st, fn, args, kwargs, kwmap, fr):
        name = fn.name
        from . import models
        h = models.MODELS.get(name)
        if h is not None:
            if len(args) > models.MAXARGS.get(name, 99) or kwargs and not models.reads_keywords(h):
                raise Unsupported(f'arguments of {name}')
            return h(self, st, fn, args, kwargs, kwmap, fr)
        x = self.opts.get('externals', {}).get(name)
        if x is not None:
            return x(self, st, fn, args, kwargs, kwmap, fr)
        if name in self.opts.get('reads', {}):
            # a library function without effects: a function of its arguments and of what happened so far
            ty, may = self.opts['reads'][name]
            self.notes.add(f'{name} has no effects')
            return self.effect(st, name, list(args) + [y for n in sorted(kwargs) for y in (n, kwargs[n])], ty=ty, may_raise=may, silent=True)
        if name.startswith('ast.'):
            r = models.ast_node(self, st, name, args, kwargs)
            if r is not None:
                return r
        from .exec import EXC_TREE
        if name in EXC_TREE:
            s, p = st.alloc(Inst(name, {'args': Tup([a for a in args])}))
            return [('ok', s, p)]
        raise Unsupported(f'no model for {name}')

    def isinstance_(self, st, v, c):
        """bool | z3 Bool"""
        if isinstance(c, Tup):
            if not c.seq.concrete():
                return self.isinst_any(st, v, c.seq)
            rs = [self.isinstance_(st, v, x) for x in c.seq.items()]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return z3.Or(*rs) if rs else False
        if isinstance(c, SV):
            return self.isinst_opaque(st, v, c)
        cname = c.qual if isinstance(c, ClassV) else c.name if isinstance(c, BuiltinV) else None
        if cname is None:
            raise Unsupported(f'isinstance with {c}')
        pyt = {type(None): 'NoneType', bool: 'bool', int: 'int', str: 'str'}.get(type(v))
        if isinstance(v, SS):
            pyt = 'str'
        if isinstance(v, SI):
            pyt = 'int'
        if isinstance(v, SB):
            pyt = 'bool'
        if isinstance(v, Tup) or isinstance(v, SV) and isinstance(v.ty, (TTupleOf, TTuple)):
            pyt = 'tuple'
        if isinstance(v, SV) and isinstance(v.ty, (TList, TFixedList)):
            pyt = 'list'
        if isinstance(v, (ClassV,)):
            pyt = 'type'
        if isinstance(v, Ptr):
            o = st.heap[v.id]
            if isinstance(o, Inst):
                if cname in ('list',) and '$list' in o.attrs:
                    return True
                if cname == 'dict' and o.map is not None:
                    return True
                return self.repo.is_subclass(o.cls, cname)
            pyt = {'list': 'list', 'dict': 'dict', 'set': 'set'}[o.kind]
        if pyt is not None:
            return builtin_subclass(pyt, cname)
        if isinstance(v, (FuncV, BoundV, PartialV, BuiltinV, HookV, ModV)):
            if cname in ('functools.partial', 'partial'):
                return isinstance(v, PartialV)
            return False
        if isinstance(v, SV):
            t = v.t
            if cname == 'str':
                return Val.is_strv(t)
            if cname == 'bool':
                return Val.is_boolv(t)
            if cname == 'int':
                return z3.Or(Val.is_intv(t), Val.is_boolv(t))
            if cname in ('typing.Callable', 'collections.abc.Callable'):
                if isinstance(v.ty, TRef) and v.ty.callable:
                    return True
                if isinstance(v.ty, TRef) and v.ty.cls and ':' in v.ty.cls:
                    return bool(self.find_method(v.ty.cls, '__call__'))
                return z3.And(Val.is_ref(t), z3.Function('callable', Val, BOOL)(t))
            if isinstance(v.ty, TRef) and v.ty.cls:
                if v.ty.cls.startswith('ast.') and cname.startswith('ast.'):
                    if builtin_subclass(v.ty.cls, cname):
                        return True
                    if not builtin_subclass(cname, v.ty.cls) and cname not in ('ast.Str', 'ast.Num', 'ast.NameConstant'):
                        return False
                if ':' in v.ty.cls and self.repo.is_subclass(v.ty.cls, cname):
                    return True
                if (':' in v.ty.cls or v.ty.cls.startswith('ast.')) and ':' in cname and not self.repo.is_subclass(cname, v.ty.cls):
                    return False
                if cname in ('list', 'tuple', 'dict', 'set') and ':' in v.ty.cls:
                    return False
                if v.ty.cls == 'exception':
                    from .exec import EXCIS
                    return EXCIS(t, cname)
            return z3.And(Val.is_ref(t), z3.Function('isinst', Val, STR, BOOL)(t, z3.StringVal(cname)))
        raise Unsupported(f'isinstance({v}, {cname})')

    def isinst_opaque(self, st, v, c):
        if isinstance(v, (SV,)):
            return z3.Function('isinst_dyn', Val, Val, BOOL)(v.t, c.t)
        return z3.Function('isinst_dyn', Val, Val, BOOL)(to_val(v), c.t)

    def isinst_any(self, st, v, seq):
        cs = []
        for p in seq.parts:
            if isinstance(p, list):
                cs += [z3.BoolVal(r) if isinstance(r, bool) else r for r in (self.isinstance_(st, v, x) for x in p)]
            else:
                for c, q in p.alts:
                    for x in q.items():
                        r = self.isinstance_(st, v, x)
                        cs.append(z3.Exists([p.idx], z3.And(p.rng(), *p.base.facts(p.idx), c, r)))
        return z3.Or(*cs) if cs else False

    def set_update(self, st, p, v, fr):
        d = self.dom_of(st, v)
        o = st.heap[p.id]
        if d is not None:
            return [('ok', st.put(p.id, SetO(z3.SetUnion(o.dom, d), o.et or self.et_of(st, v))), None)]

        def f(s, seq):
            r = self.make_set(s, seq, o.et)
            (_, s2, q), = r
            return [('ok', s2.put(p.id, SetO(z3.SetUnion(o.dom, s2.heap[q.id].dom), s2.heap[q.id].et)), None)]
        return self.then(self.iter_seq(st, v, fr), f)


class StarV:
    def __init__(self, seq):
        self.seq = seq


class SliceV:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Absent:
    """attribute not set"""


class CallSpy:
    def __init__(self, fn):
        self.fn = fn


def NSetV_():
    from .exec import NSetV
    return NSetV


def ViewV_():
    from .exec import ViewV
    return ViewV
