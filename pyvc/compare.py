"""Proof obligations: the body of a function and its contract, run from the same symbolic state, agree on
result, exception, every pre-existing object (frame included) and the trace of effects."""
import z3
from .core import *
from .exec import Ex, NSetV, ViewV, CMGen, uses

PRIM = (type(None), bool, int, str)


class Mismatch(Exception):
    """the two sides cannot be aligned: undecided"""


class Cmp:
    def __init__(self, ex, sb, ss):
        self.ex, self.sb, self.ss = ex, sb, ss
        self.goals = []      # (label, hyps, goal)
        self.iso = {}
        self.nx = 0

    def goal(self, label, hyps, g):
        if isinstance(g, bool):
            g = z3.BoolVal(g)
        g = z3.simplify(g)
        self.goals.append((label, tuple(hyps), g))

    def val(self, label, a, b, hyps=()):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Mismatch(f'{label}: loop-carried value')
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            return self.goal(label, hyps, type(a) is type(b) and a == b)
        if isinstance(a, Frz) or isinstance(b, Frz):
            oa = a.obj if isinstance(a, Frz) else self.sb.heap[a.id] if isinstance(a, Ptr) else None
            ob = b.obj if isinstance(b, Frz) else self.ss.heap[b.id] if isinstance(b, Ptr) else None
            if oa is None or ob is None:
                raise Mismatch(f'{label}: {a} / {b}')
            return self.obj(label, oa, ob, hyps)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            h0 = self.ex.heap0
            if a.id in h0 or b.id in h0:
                return self.goal(label + ' (identity)', hyps, a.id == b.id)
            if a.id in self.iso or ('r', b.id) in self.iso:
                return self.goal(label + ' (sharing)', hyps, self.iso.get(a.id) == b.id)
            self.iso[a.id] = b.id
            self.iso[('r', b.id)] = a.id
            return self.obj(label, self.sb.heap[a.id], self.ss.heap[b.id], hyps)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq(label, a.seq, b.seq, hyps)
        if isinstance(a, EvV) and isinstance(b, EvV):
            if a.name != b.name or len(a.args) != len(b.args):
                return self.goal(f'{label}: effect {a.name} where the contract requires {b.name}', hyps, False)
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                self.val(f'{label}: {a.name} argument {i}', x, y, hyps)
            return
        if isinstance(a, (FuncV, ClassV, ModV, BuiltinV)) and isinstance(b, (FuncV, ClassV, ModV, BuiltinV)):
            if isinstance(a, FuncV) and isinstance(b, FuncV) and (a.closure is not None or b.closure is not None):
                if a.node is b.node:
                    return
                raise Mismatch(f'{label}: closures')
            return self.goal(label, hyps, getattr(a, 'qual', getattr(a, 'name', 0)) == getattr(b, 'qual', getattr(b, 'name', 1)))
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            self.val(label, a.func, b.func, hyps)
            return self.val(label + ' (receiver)', a.selfv, b.selfv, hyps)
        if isinstance(a, PartialV) and isinstance(b, PartialV):
            self.val(label, a.func, b.func, hyps)
            self.seq(label, Seq.of(*a.args), Seq.of(*b.args), hyps)
            if sorted(a.kwargs) != sorted(b.kwargs):
                return self.goal(label, hyps, False)
            for k in a.kwargs:
                self.val(label, a.kwargs[k], b.kwargs[k], hyps)
            return
        if isinstance(a, ViewV) and isinstance(b, ViewV) and a.kind == b.kind:
            return self.val(label, a.ptr, b.ptr, hyps)
        if isinstance(a, CMGen) and isinstance(b, CMGen):
            raise Mismatch(f'{label}: context managers')
        num = (SV, SB, SI, SS) + PRIM
        if isinstance(a, num) and isinstance(b, num):
            return self.goal(label, hyps, to_val(a) == to_val(b))
        if isinstance(a, num + (Ptr, ClassV, FuncV)) and isinstance(b, num + (Ptr, ClassV, FuncV)):
            for x in (a, b):
                if isinstance(x, Ptr) and x.id not in self.ex.heap0:
                    o = b if x is a else a
                    if isinstance(o, PRIM + (SS, SI, SB, ClassV)):
                        return self.goal(label, hyps, False)
                    raise Mismatch(f'{label}: {a} / {b}')
            return self.goal(label, hyps, to_val(a) == to_val(b))
        if isinstance(a, (Tup, Ptr) + num) and isinstance(b, (Tup, Ptr) + num):
            # a tuple against something that is not one
            if not isinstance(a, SV) and not isinstance(b, SV):
                return self.goal(label, hyps, False)
        raise Mismatch(f'{label}: {a} / {b}')

    def obj(self, label, p, q, hyps=()):
        if p is q:
            return
        if p.kind != q.kind:
            return self.goal(f'{label}: a {p.kind} where the contract requires a {q.kind}', hyps, False)
        if isinstance(p, ListO):
            return self.seq(label, p.seq, q.seq, hyps)
        if isinstance(p, SetO):
            return self.dom(label, p.dom, q.dom, hyps)
        if isinstance(p, DictO):
            return self.map(label, p.map, q.map, hyps)
        if p.cls != q.cls:
            return self.goal(f'{label}: class {p.cls} / {q.cls}', hyps, False)
        if p.cls in EXC or any(c in EXC for c in [x for x in self.ex.repo.mro(p.cls) if isinstance(x, str)]):
            return
        for a in sorted(set(p.attrs) | set(q.attrs)):
            if (a in p.attrs) != (a in q.attrs):
                x = p.attrs.get(a, q.attrs.get(a))
                if type(x).__name__ == 'Absent':
                    continue
                if a.startswith('_ghost'):
                    continue
                self.goal(f'{label}.{a} set', hyps, False)
                continue
            self.val(f'{label}.{a}', p.attrs[a], q.attrs[a], hyps)
        if p.map is not None and q.map is not None and p.map is not q.map:
            self.map(f'{label}[...]', p.map, q.map, hyps)

    def fresh(self, sort):
        self.nx += 1
        return z3.Const(f'cmp{self.nx}', sort)

    def dom(self, label, a, b, hyps):
        if z3.eq(a, b):
            return
        x = self.fresh(Val)
        self.goal(label, hyps, z3.Select(a, x) == z3.Select(b, x))

    def map(self, label, m, n, hyps):
        if m is n:
            return
        if m.keys is not None and n.keys is not None and m.keys.concrete() and n.keys.concrete() and \
                all(z3.eq(z3.simplify(to_val(x)), z3.simplify(to_val(y))) for x, y in zip(m.keys.items(), n.keys.items())):
            x, y = m.keys.items(), n.keys.items()
            if len(x) == len(y):
                for k in x:
                    t = to_val(k)
                    a, b = from_val(z3.Select(m.val, t), m.vt), from_val(z3.Select(n.val, t), n.vt)
                    self.val(f'{label}[{k.t if isinstance(k, SV) else k}]', a, b, hyps)
                return
        # objects of the two sides that are stored under the same key
        M, N = stores(m.val), stores(n.val)
        for k in M:
            if k in N and M[k] != N[k] and M[k] not in self.ex.heap0 and N[k] not in self.ex.heap0 and \
                    M[k] in self.sb.heap and N[k] in self.ss.heap and self.iso.get(M[k]) is None and ('r', N[k]) not in self.iso:
                self.val(f'{label} stored', Ptr(M[k]), Ptr(N[k]), hyps)
        x = self.fresh(Val)
        self.goal(label + ' keys', hyps, z3.Select(m.dom, x) == z3.Select(n.dom, x))
        self.goal(label + ' values', tuple(hyps) + (z3.Select(n.dom, x),), z3.Select(m.val, x) == z3.Select(n.val, x))

    # ------------------------------------------------------------ sequences
    def seq(self, label, p, q, hyps=()):
        P, Q = list(p.parts), list(q.parts)
        i = j = 0
        P, Q = [list(x) if isinstance(x, list) else x for x in P], [list(x) if isinstance(x, list) else x for x in Q]
        n = 0
        while P or Q:
            if P and isinstance(P[0], list) and not P[0]:
                P.pop(0)
                continue
            if Q and isinstance(Q[0], list) and not Q[0]:
                Q.pop(0)
                continue
            if not P or not Q:
                rest = P or Q
                which = 'extra' if P else 'missing'
                r = self.ex.seq_nonempty(Seq(rest))
                self.goal(f'{label}: {which} element', hyps, (not r) if isinstance(r, bool) else z3.Not(r))
                return
            a, b = P[0], Q[0]
            if isinstance(a, list) and isinstance(b, list):
                self.val(f'{label}[{n}]', a.pop(0), b.pop(0), hyps)
                n += 1
                continue
            if isinstance(a, Seg) and isinstance(b, Seg):
                self.seg(f'{label}[{n}..]', a, b, hyps)
                P.pop(0)
                Q.pop(0)
                n += 1
                continue
            # a symbolic segment against a listed element: align only if the segment is provably empty
            s = a if isinstance(a, Seg) else b
            if not isinstance(s, Seg):
                raise Mismatch(f'{label}: loop accumulator')
            ne = self.ex.seq_nonempty(Seq([s]))
            ne = z3.BoolVal(ne) if isinstance(ne, bool) else ne
            r = self.ex.check([*self.pc(), *hyps, ne])
            if r == z3.unsat:
                (P if s is a else Q).pop(0)
                continue
            # a segment of exactly known first element
            if s.base.kind == 'int' and s.is_map():
                if self.ex.check([*self.pc(), *hyps, z3.Not(s.lo < s.hi)]) == z3.unsat:
                    v = sub(s.alts[0][1].items()[0], [(s.idx, s.lo)])
                    rest = Seg(s.base, z3.simplify(s.lo + 1), s.hi, s.idx, s.alts, s.upto)
                    if s is a:
                        P[0:1] = [[v], rest]
                    else:
                        Q[0:1] = [[v], rest]
                    continue
            elem = b if s is a else a
            if r == z3.sat and len(P) == 1 and len(Q) == 1 and len(elem) == 1 and s.base.kind == 'int':
                # one side always one element, the other possibly none
                self.goal(f'{label}: number of elements', hyps, False)
                return
            raise Mismatch(f'{label}: cannot align the sequences')

    def pc(self):
        return list(self.sb.pc) + list(self.ss.pc[self.common:])

    common = 0

    def seg(self, label, a, b, hyps):
        if a.base.kind != b.base.kind:
            raise Mismatch(f'{label}: different iterations')
        if a.base.key != b.base.key:
            if a.base.kind == 'int':
                # equal sources element by element?
                if not (a.is_map() and b.is_map()):
                    raise Mismatch(f'{label}: different sources {a.base.key} / {b.base.key}')
                i = a.idx
                vb = sub(b.alts[0][1].items()[0], [(b.idx, z3.simplify(i - a.lo + b.lo))])
                la = z3.If(a.hi > a.lo, a.hi - a.lo, 0)
                lb = z3.If(b.hi > b.lo, b.hi - b.lo, 0)
                self.goal(f'{label}: length', hyps, la == lb)
                self.val(label, a.alts[0][1].items()[0], vb, tuple(hyps) + (a.rng(), *a.base.facts(i)))
                return
            # equal key sets: same elements; order of equal dictionaries is taken to agree
            self.dom(f'{label}: keys iterated', a.base.dom, b.base.dom, hyps)
            self.ex.notes.add('iteration order of dictionaries with provably equal keys agrees')
        elif a.base.kind == 'int':
            if not z3.eq(z3.simplify(a.lo), z3.simplify(b.lo)) or not z3.eq(z3.simplify(a.hi), z3.simplify(b.hi)):
                empty = z3.And(a.lo >= a.hi, b.lo >= b.hi)
                self.goal(f'{label}: range iterated', hyps, z3.Or(empty, z3.And(a.lo == b.lo, a.hi == b.hi)))
        elif (a.upto is None) != (b.upto is None):
            raise Mismatch(f'{label}: prefix of an iteration')
        elif a.upto is not None:
            self.goal(f'{label}: prefix iterated', hyps, a.upto == b.upto)
        idx = a.idx
        if self.bound_clash(idx, hyps):
            idx = self.fresh(a.idx.sort())
        rng = a.rng() if idx is a.idx else z3.substitute(a.rng(), (a.idx, idx))
        h = tuple(hyps) + (rng, *a.base.facts(idx))
        A = [(z3.substitute(c, (a.idx, idx)), s.subst([(a.idx, idx)])) for c, s in a.alts]
        B = [(z3.substitute(c, (b.idx, idx)), s.subst([(b.idx, idx)])) for c, s in b.alts]
        A.append((z3.Not(z3.Or(*[c for c, _ in A])), Seq()))
        B.append((z3.Not(z3.Or(*[c for c, _ in B])), Seq()))
        for ca, sa in A:
            if z3.is_false(z3.simplify(ca)):
                continue
            for cb, sq in B:
                hh = h + (ca, cb)
                if z3.is_false(z3.simplify(z3.And(ca, cb))) or self.ex.check([*self.pc(), *hh], 300) == z3.unsat:
                    continue
                self.seq(label, sa, sq, hh)

    def bound_clash(self, idx, hyps):
        return any(uses(h, {idx.get_id()}) for h in hyps)


EXC = {'Exception', 'BaseException', 'ValueError', 'KeyError', 'AttributeError', 'TypeError', 'IndexError', 'SystemExit',
       'KeyboardInterrupt', 'ImportError', 'NameError', 'AssertionError', 'RuntimeError', 'StopIteration',
       'FileNotFoundError', 'OSError', 'LookupError'}


def stores(t):
    """key -> number of the object that the chain of stores has put there"""
    out, seen = {}, set()
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        a, k, v = t.children()
        kk = z3.simplify(k).sexpr()
        if kk not in seen:
            seen.add(kk)
            v = z3.simplify(v)
            if z3.is_app(v) and v.decl().eq(Val.ref) and z3.is_int_value(v.arg(0)):
                out[kk] = v.arg(0).as_long()
        t = a
    return out


def refs(t):
    """numbers of the objects that a term mentions"""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().eq(Val.ref) and z3.is_int_value(x.arg(0)):
                out.add(x.arg(0).as_long())
            stack.extend(x.children())
    return out


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y and not z3.eq(x, y):
            break
        n += 1
    return n


def compare(ex, body, spec, names, timeout=6000):
    """obligation results: list of (label, status, detail); status: proved | failed | undecided"""
    results = []
    for kb, sb, vb in body:
        for ks, ss, vs in spec:
            n = common_prefix(sb.pc, ss.pc)
            hy = list(sb.pc) + list(ss.pc[n:])
            if ex.check(hy, 300) == z3.unsat:
                continue
            c = Cmp(ex, sb, ss)
            c.common = n
            try:
                if kb != ks:
                    what = {'ok': 'returns', 'exc': 'raises'}
                    c.goal(f'outcome: the function {what[kb]} where the contract {what[ks]} {exc_desc(ss if ks == "exc" else sb, vs if ks == "exc" else vb)}', (), False)
                else:
                    if kb == 'exc':
                        exc(c, vb, vs)
                    else:
                        c.val('result', vb, vs)
                    for i, o in ex.heap0.items():
                        p, q = sb.heap[i], ss.heap[i]
                        if p is not q:
                            c.obj(names.get(i, f'object {i}'), p, q)
                    for f in sorted(set(sb.fields) | set(ss.fields), key=repr):
                        if isinstance(f, tuple) and f[1] not in ex.heap0:
                            continue
                        a, b = sb.fields.get(f), ss.fields.get(f)
                        a = ex.fields0.get(f) if a is None else a
                        b = ex.fields0.get(f) if b is None else b
                        if a is not None and b is not None and not z3.eq(a, b):
                            x = c.fresh(Val)
                            c.goal(f'field {f}', (), z3.Select(a, x) == z3.Select(b, x))
                    c.seq('effects', sb.trace, ss.trace)
            except Mismatch as e:
                results.append((f'alignment', 'undecided', str(e)[:300]))
                continue
            results.append(('reached', 'proved', ''))
            # an object made by the function and its counterpart made by the contract: one name
            ren = [(Val.ref(z3.IntVal(b)), Val.ref(z3.IntVal(a))) for a, b in c.iso.items() if not isinstance(a, tuple) and a != b]
            loose = {i for i in list(sb.heap) + list(ss.heap) if i not in ex.heap0} - {a for a in c.iso if not isinstance(a, tuple)}
            if ren:
                c.goals = [(l, tuple(z3.substitute(x, *ren) for x in h), z3.simplify(z3.substitute(g, *ren))) for l, h, g in c.goals]
                hy = hy[:len(sb.pc)] + [z3.substitute(x, *ren) for x in hy[len(sb.pc):]]
            triv = [g for g in c.goals if z3.is_true(g[2])]
            rest = [g for g in c.goals if not z3.is_true(g[2])]
            for l, h, g in triv:
                results.append((l, 'proved', 'syntactic'))
            for l, h, g in rest:
                r = ex.check([*hy, *h, z3.Not(g)], timeout)
                if r == z3.sat:
                    cg = congruence(ex, sb, ss, hy, h, g, timeout)
                    if cg is None:
                        results.append((l, 'undecided', 'depends on unknown values of both sides: ' + str(g)[:300]))
                        continue
                    if cg:
                        r = ex.check([*hy, *h, *cg, z3.Not(g)], timeout)
                if r == z3.unsat:
                    results.append((l, 'proved', ''))
                elif r == z3.sat and not z3.is_false(g) and refs(g) & loose:
                    results.append((l, 'undecided', 'objects of the two sides not matched: ' + str(g)[:300]))
                elif r == z3.sat:
                    results.append((l, 'failed', model_text(ex, [*hy, *h, z3.Not(g)], g)))
                else:
                    results.append((l, 'undecided', 'solver: unknown for ' + str(g)[:300]))
    return results


def oracles(ex, ts):
    out, seen, stack = set(), set(), list(ts)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in ex.oargs:
                out.add((n, x.num_args() == 0))
        stack.extend(x.children())
    return out


def congruence(ex, sb, ss, hy, h, g, timeout):
    """unknown values (oracles) of the two sides that only differ because their arguments are written differently:
    [] nothing to do, [equalities] proved equal, None: cannot tell"""
    B, S = oracles(ex, sb.pc), oracles(ex, ss.pc)
    pairs = [(a, b) for a in B - S for b in S - B]
    if z3.is_app(g) and z3.is_eq(g):
        B, S = oracles(ex, [g.arg(0)]), oracles(ex, [g.arg(1)])
        pairs += [(a, b) for a in B - S for b in S - B]
    facts, open_ = [], False
    done = set()
    for a, b in sorted(pairs):
        (na, ca), (nb, cb) = a, b
        if (na, nb) in done:
            continue
        done.add((na, nb))
        A, Bo = ex.oargs[na], ex.oargs[nb]
        if A[0] != Bo[0] or A[4] != Bo[4] or len(A[1]) != len(Bo[1]):
            continue
        if not ca or not cb:
            open_ = True
            continue
        c = Cmp(ex, A[2], Bo[2])
        try:
            for x, y in zip(A[1], Bo[1]):
                c.val('argument', x, y)
            if not A[3]:
                same_world(c, A[2], Bo[2])
        except Mismatch:
            open_ = True
            continue
        rs = [ex.check([*hy, *h, *c_h, z3.Not(gg)], timeout) for _, c_h, gg in c.goals if not z3.is_true(gg)]
        if all(r == z3.unsat for r in rs):
            facts.append(z3.Const(na, A[4]) == z3.Const(nb, A[4]))
        elif any(r == z3.unknown for r in rs):
            open_ = True
    if facts:
        return facts
    return None if open_ else []


def same_world(c, sa, sb):
    for i in c.ex.heap0:
        p, q = sa.heap.get(i), sb.heap.get(i)
        if p is not q:
            c.obj('world', p, q)
    for f in set(sa.fields) | set(sb.fields):
        a, b = sa.fields.get(f, c.ex.fields0.get(f)), sb.fields.get(f, c.ex.fields0.get(f))
        if a is not None and b is not None and not z3.eq(a, b):
            x = c.fresh(Val)
            c.goal('world', (), z3.Select(a, x) == z3.Select(b, x))
    c.seq('world', sa.trace, sb.trace)


def exc_desc(s, v):
    if isinstance(v, Ptr):
        return s.heap[v.id].cls
    return 'an exception'


def exc(c, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.id in c.ex.heap0 or b.id in c.ex.heap0:
            return c.val('exception', a, b)
        x, y = c.sb.heap[a.id].cls, c.ss.heap[b.id].cls
        c.goal(f'exception class ({x} / {y})', (), x == y)
    elif isinstance(a, SV) and isinstance(b, SV):
        c.goal('exception', (), a.t == b.t)
    else:
        c.goal('exception (raised by user code / by the function)', (), False)


def model_text(ex, conds, g):
    s = z3.Solver()
    s.set('timeout', 6000)
    s.add(*ex.axioms)
    s.add(*conds)
    if s.check() == z3.sat:
        return 'counterexample: ' + str(s.model())[:1200] + f'\nunder which {str(g)[:400]} is false'
    return ''
