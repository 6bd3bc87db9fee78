"""Forward symbolic execution of Python function bodies, one path at a time, loops summarised without bound.

Every statement is executed on the AST extracted from /repo.  Branches fork; infeasible paths are
discharged by the solver.  Loops over concrete sequences are unrolled completely; loops over symbolic
sequences are summarised by an inductively valid closed form (see `summarise`)."""
import ast
import z3
from .core import *
from .types import *
from .repo import FnInfo, ClassInfo, ModInfo
from . import core

EXC_TREE = {'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
            'SystemExit': 'BaseException', 'GeneratorExit': 'BaseException', 'LookupError': 'Exception',
            'KeyError': 'LookupError', 'IndexError': 'LookupError', 'AttributeError': 'Exception',
            'ValueError': 'Exception', 'TypeError': 'Exception', 'BdbQuit': 'Exception',
            'ImportError': 'Exception', 'FileNotFoundError': 'OSError', 'OSError': 'Exception',
            'NameError': 'Exception', 'StopIteration': 'Exception', 'AssertionError': 'Exception',
            'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError'}


class NotOwn(Exception):
    """a loop over keys writes elsewhere than at the key of the iteration"""


class Frame:
    n = [0]

    def __init__(self, mod, cls=None, parent=None, fn='', spec=None, selfname=None):
        Frame.n[0] += 1
        self.id = Frame.n[0]
        self.mod, self.cls, self.parent, self.fn, self.spec = mod, cls, parent, fn, spec
        self.selfname = selfname
        self.yields = None      # callback(st, value) -> results
        self.exc = parent.exc if parent else None


_quant = {}
SLOW = float(__import__('os').environ.get('PYVC_SLOW', 0))


def quantified(t):
    if t.get_id() not in _quant:
        seen, stack, r = set(), [t], False
        while stack and not r:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                r = True
            stack.extend(x.children())
        _quant[t.get_id()] = (r, t)
    return _quant[t.get_id()][0]


class Ex:
    MAXDEPTH = 14

    def __init__(self, repo, contracts=None, timeout=2000):
        self.repo = repo
        self.contracts = contracts or {}
        self.globals = {}         # (module, name) -> value
        self.axioms = []
        self.timeout = timeout
        self.target = None
        self.heap0 = {}
        self.fields0 = {}
        self.memo = {}
        self.nfresh = 0
        self.depth = 0
        self.used_contracts = set()
        self.inlined = set()
        self.notes = set()        # assumptions used
        self.qcount = 0
        self.qtime = 0.0
        self.paths = 0
        self.sat_cache = {}
        self.opts = {}
        self.seen = set()         # statements executed
        self.side = []            # obligations raised while executing
        self.applying = []
        self.defs = []            # definitions of the indices of first exits of inner loops
        self.carries = {}         # loop -> [(values before the loop, values after an iteration, name)]
        self.exits = {}           # loop -> [(exit condition, name of the index of the first exit)]
        self.writes = {}          # loop -> [(key written, value written, name of the resulting map)]
        self.oargs = {}           # oracle symbol -> (name, arguments, state, pure, sort)
        self.joins = {}           # terms known to be sep.join(seq)

    # ------------------------------------------------------------ solver
    def check(self, conds, timeout=None):
        import time
        key = tuple(sorted(c.get_id() for c in conds)) if conds else ()
        if key in self.sat_cache:
            r = self.sat_cache[key]
            if r[0] != z3.unknown or r[2] >= (timeout or self.timeout):
                return r[0]
        t = time.time()
        r = None
        plain = [c for c in conds if not quantified(c)]
        if len(plain) < len(conds):
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(*self.axioms)
            s.add(*plain)
            if s.check() == z3.unsat:
                r = z3.unsat
        if r is None:
            s = z3.Solver()
            s.set('timeout', timeout or self.timeout)
            s.add(*self.axioms)
            s.add(*conds)
            r = s.check()
        self.qtime += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback
            print('slow', round(time.time() - t, 1), r, len(plain), len(conds), ' '.join(f.name + str(f.lineno) for f in traceback.extract_stack()[-6:-1]))
        self.qcount += 1
        self.sat_cache[key] = (r, conds, timeout or self.timeout)
        return r

    def feasible(self, st):
        return self.check(list(st.pc), 300) != z3.unsat

    def branch(self, st, cond):
        """[(st, bool)] feasible continuations"""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        t = st.assume(cond)
        f = st.assume(z3.Not(cond))
        ft = self.feasible(t)
        ff = self.feasible(f)
        if ft and not ff:
            return [(t, True)]
        if ff and not ft:
            return [(f, False)]
        self.paths += 1
        if self.paths > 4000:
            raise Unsupported('too many paths')
        return ([(t, True)] if ft else []) + ([(f, False)] if ff else [])

    def fresh(self, st, name, sort):
        self.nfresh += 1
        n = f'{name}#{self.nfresh}'
        if st.loop:
            return z3.Function(n, *[i.sort() for i in st.loop], sort)(*st.loop)
        return z3.Const(n, sort)

    # ------------------------------------------------------------ structural keys (oracle memo, freezing)
    def loop_names(self, st):
        return [(ix, z3.Const(f'${j}:{ix.sort()}', ix.sort())) for j, ix in enumerate(st.loop)]

    def tkey(self, st, t):
        pairs = self.loop_names(st)
        return z3.simplify(z3.substitute(t, *pairs) if pairs else t).sexpr()

    def key(self, st, v, seen=()):
        if v is None or isinstance(v, (bool, int, str)):
            return repr(v)
        if isinstance(v, (SV, SB, SI, SS)):
            t = to_val(v)
            w = from_val(t)
            if not isinstance(w, (SV, SB, SI, SS)):
                return self.key(st, w, seen)
            return self.tkey(st, t)
        if isinstance(v, z3.ExprRef):
            return self.tkey(st, v)
        if isinstance(v, Ptr):
            if v.id in self.heap0 or v.id in seen:
                return f'P{v.id}' if v.id in self.heap0 else f'^{seen.index(v.id)}'
            return self.okey(st, st.heap[v.id], seen + (v.id,))
        if isinstance(v, Tup):
            return f'({self.skey(st, v.seq, seen)})'
        if isinstance(v, EvV):
            return f'{v.name}({",".join(self.key(st, a, seen) for a in v.args)})'
        if isinstance(v, Frz):
            return self.fkey(st, v, seen)
        if isinstance(v, (FuncV, ClassV)):
            return v.qual
        if isinstance(v, BoundV):
            return f'bound({self.key(st, v.selfv, seen)}.{self.key(st, v.func, seen)})'
        if isinstance(v, (ModV, BuiltinV)):
            return v.name
        if isinstance(v, Poison):
            return 'poison:' + v.name
        if isinstance(v, HookV):
            return 'hook' + repr(v.path)
        if isinstance(v, PartialV):
            return f'partial({self.key(st, v.func, seen)},{[self.key(st, a, seen) for a in v.args]},' \
                   f'{[(k, self.key(st, a, seen)) for k, a in v.kwargs.items()]})'
        if isinstance(v, ViewV):
            return f'view({v.kind},{self.key(st, v.ptr, seen)})'
        return repr(v)

    def fkey(self, st, v, seen):
        return 'F' + self.okey(st, v.obj, seen)

    def skey(self, st, seq, seen=()):
        out = []
        for p in seq.parts:
            if isinstance(p, list):
                out += [self.key(st, v, seen) for v in p]
            elif isinstance(p, AccMark):
                out.append('acc')
            else:
                lo = '' if p.lo is None else self.tkey(st, p.lo)
                hi = '' if p.hi is None else self.tkey(st, p.hi)
                up = '' if p.upto is None else self.tkey(st, p.upto)
                ph = z3.Const(f'$seg:{p.idx.sort()}', p.idx.sort())
                alts = [(self.tkey(st, z3.substitute(c, (p.idx, ph))), self.skey(st, s.subst([(p.idx, ph)]), seen))
                        for c, s in p.alts]
                out.append(f'[{self.bkey(st, p.base)}|{lo}|{hi}|{up}|{alts}]')
        return ';'.join(out)

    def bkey(self, st, base):
        return base.subst(self.loop_names(st)).key if st.loop else base.key

    def mkey(self, st, m):
        return f'{self.tkey(st, m.dom)}~{self.tkey(st, m.val)}'

    def okey(self, st, o, seen=()):
        if isinstance(o, Inst):
            a = ','.join(f'{k}={self.key(st, v, seen)}' for k, v in sorted(o.attrs.items()))
            return f'{o.cls}<{a}{"|" + self.mkey(st, o.map) if o.map else ""}>'
        if isinstance(o, ListO):
            return f'L[{self.skey(st, o.seq, seen)}]'
        if isinstance(o, DictO):
            return 'D{' + self.mkey(st, o.map) + '}'
        if isinstance(o, SetO):
            return 'S{' + self.tkey(st, o.dom) + '}'
        return repr(o)

    def past(self, st):
        return [x for x in (st.ghost.get('tp', ''), self.skey(st, st.trace)) if x]

    def world(self, st):
        """key of everything that may have changed since the start: trace and initial-heap delta"""
        parts = self.past(st)
        for i in sorted(self.heap0):
            if st.heap.get(i) is not self.heap0[i]:
                parts.append(f'{i}:{self.okey(st, st.heap[i])}')
        for f in sorted(st.fields, key=repr):
            if f not in self.fields0 or not z3.eq(st.fields[f], self.fields0[f]):
                parts.append(f'{f}:{self.tkey(st, st.fields[f])}')
        return '|'.join(parts)

    def oracle(self, st, name, args, sort=Val, pure=False):
        """deterministic unknown: equal arguments and equal history give the equal result"""
        k = (name, tuple(self.key(st, a) for a in args), '' if pure else self.world(st), sort.name())
        if k not in self.memo:
            self.memo[k] = f'{name}!{len(self.memo)}'
            self.oargs[self.memo[k]] = (name, list(args), st, pure, sort)
        n = self.memo[k]
        loop = [i for i, c in self.loop_names(st) if str(c) in str(k)] if pure else st.loop
        if loop:
            return z3.Function(n, *[i.sort() for i in loop], sort)(*loop)
        return z3.Const(n, sort)

    # ------------------------------------------------------------ freezing
    def freeze(self, st, v, base_heap):
        if isinstance(v, Ptr):
            if v.id in base_heap:
                return v
            o = st.heap[v.id]
            if isinstance(o, Inst):
                o2 = Inst(o.cls, {a: self.freeze(st, x, base_heap) for a, x in o.attrs.items()}, o.map)
            elif isinstance(o, ListO):
                o2 = ListO(self.freeze_seq(st, o.seq, base_heap))
            else:
                o2 = o
            return Frz(o2, None)
        if isinstance(v, Tup):
            return Tup(self.freeze_seq(st, v.seq, base_heap))
        if isinstance(v, EvV):
            return EvV(v.name, [self.freeze(st, a, base_heap) for a in v.args])
        return v

    def freeze_seq(self, st, seq, base_heap):
        return Seq([[self.freeze(st, v, base_heap) for v in p] if isinstance(p, list) else p for p in seq.parts])

    def thaw(self, st, v):
        if isinstance(v, Frz):
            o = v.obj
            if isinstance(o, Inst):
                attrs = {}
                for a, x in o.attrs.items():
                    st, attrs[a] = self.thaw(st, x)
                return st.alloc(Inst(o.cls, attrs, o.map))
            if isinstance(o, ListO):
                st, seq = self.thaw_seq(st, o.seq)
                return st.alloc(ListO(seq))
            return st.alloc(o)
        if isinstance(v, Tup):
            st, seq = self.thaw_seq(st, v.seq)
            return st, Tup(seq)
        if isinstance(v, SV) and v.ty is not None:
            return wrap(self, st, v.t, v.ty)
        return st, v

    def thaw_seq(self, st, seq):
        parts = []
        for p in seq.parts:
            if isinstance(p, list):
                q = []
                for v in p:
                    st, w = self.thaw(st, v)
                    q.append(w)
                parts.append(q)
            else:
                parts.append(p)
        return st, Seq(parts)

    # ------------------------------------------------------------ statements
    def exec_block(self, st, body, fr):
        res = [('next', st, None)]
        for node in body:
            out = []
            for k, s, v in res:
                if k == 'next':
                    out += self.exec_stmt(s, node, fr)
                else:
                    out.append((k, s, v))
            res = out
        return res

    def then(self, results, f):
        """results: expression outcomes; apply f on ok"""
        out = []
        for k, s, v in results:
            if k == 'ok':
                out += f(s, v)
            else:
                out.append((k, s, v))
        return out

    def exec_stmt(self, st, n, fr):
        self.seen.add(id(n))
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(n).__name__}')
        return m(st, n, fr)

    def s_Expr(self, st, n, fr):
        if isinstance(n.value, ast.Constant):
            return [('next', st, None)]
        return self.then(self.ev(st, n.value, fr), lambda s, v: [('next', s, None)])

    def s_Pass(self, st, n, fr):
        return [('next', st, None)]

    def s_Return(self, st, n, fr):
        if n.value is None:
            return [('ret', st, None)]
        return self.then(self.ev(st, n.value, fr), lambda s, v: [('ret', s, v)])

    def s_Assign(self, st, n, fr):
        def f(s, v):
            res = [('next', s, None)]
            for t in n.targets:
                res = [r for k, s2, x in res for r in (self.assign(s2, t, v, fr) if k == 'next' else [(k, s2, x)])]
            return res
        return self.then(self.ev(st, n.value, fr), f)

    def s_AnnAssign(self, st, n, fr):
        if n.value is None:
            return [('next', st, None)]
        return self.then(self.ev(st, n.value, fr), lambda s, v: self.assign(s, n.target, v, fr))

    def s_AugAssign(self, st, n, fr):
        load = ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n)

        def f(s, a):
            def g(s2, b):
                # list += iterable mutates in place
                if isinstance(n.op, ast.Add) and isinstance(a, Ptr) and isinstance(s2.heap[a.id], ListO):
                    return self.then(self.iter_seq(s2, b, fr), lambda s3, q: self.assign(
                        s3.put(a.id, ListO(s3.heap[a.id].seq + q)), n.target, a, fr))
                if isinstance(n.op, ast.BitOr) and isinstance(a, Ptr) and isinstance(s2.heap[a.id], SetO):
                    return self.then(self.set_update(s2, a, b, fr), lambda s3, _: self.assign(s3, n.target, a, fr))
                return self.then(self.binop(s2, n.op, a, b, fr), lambda s3, r: self.assign(s3, n.target, r, fr))
            return self.then(self.ev(s, n.value, fr), g)
        return self.then(self.ev(st, load, fr), f)

    def assign(self, st, t, v, fr):
        if isinstance(t, ast.Name):
            return [('next', self.setname(st, fr, t.id, v), None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SV):
                raise Unsupported('unpacking of an opaque value')

            def f(s, q):
                if not q.concrete():
                    starred = isinstance(t.elts[-1], ast.Starred)
                    if any(isinstance(e, ast.Starred) for e in t.elts[:-1]) or starred and len(q.parts) != 1 or not all(
                            isinstance(p, list) or p.base.kind == 'int' and p.is_map() for p in q.parts):
                        raise Unsupported('unpacking of a symbolic sequence')
                    n = len(t.elts)
                    ln = sum((z3.IntVal(len(p)) if isinstance(p, list) else z3.If(p.hi > p.lo, p.hi - p.lo, 0) for p in q.parts), z3.IntVal(0))
                    res = []
                    for s2, b in self.branch(s, ln >= n - 1 if starred else ln == n):
                        if not b:
                            res.append(self.raise_(s2, 'ValueError'))
                            continue
                        part = [('next', s2, None)]
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Starred):
                                def tail(s3, i=i, e=e):
                                    (s3, r), = self.slice_seq(s3, q, i, None)
                                    s3, p = s3.alloc(ListO(r))
                                    return self.assign(s3, e.value, p, fr)
                                part = [r for k, s3, y in part for r in (tail(s3) if k == 'next' else [(k, s3, y)])]
                                continue
                            part = [r for k, s3, y in part for r in (self.then(
                                self.index_seq(s3, q, i), lambda s4, x: self.assign(s4, e, x, fr)) if k == 'next' else [(k, s3, y)])]
                        res += part
                    return res
                items = q.items()
                stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if stars:
                    i = stars[0]
                    rest = len(t.elts) - i - 1
                    s, lp = s.alloc(ListO(Seq.of(*items[i:len(items) - rest])))
                    items = items[:i] + [lp] + items[len(items) - rest:]
                    elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
                else:
                    elts = t.elts
                if len(items) != len(elts):
                    return [self.raise_(s, 'ValueError')]
                res = [('next', s, None)]
                for e, x in zip(elts, items):
                    res = [r for k, s2, y in res for r in (self.assign(s2, e, x, fr) if k == 'next' else [(k, s2, y)])]
                return res
            return self.then(self.iter_seq(st, v, fr), f)
        if isinstance(t, ast.Attribute):
            return self.then(self.ev(st, t.value, fr), lambda s, o: self.setattr(s, o, t.attr, v, fr))
        if isinstance(t, ast.Subscript):
            return self.then(self.ev(st, t.value, fr), lambda s, o: self.then(
                self.ev(s, t.slice, fr), lambda s2, i: self.setitem(s2, o, i, v, fr)))
        raise Unsupported(f'assignment target {type(t).__name__}')

    def setname(self, st, fr, name, v):
        return st.local(fr.id, name, v)

    def s_If(self, st, n, fr):
        out = []
        for k, s, c in self.cond(st, n.test, fr):
            if k == 'ok':
                out += self.exec_block(s, n.body if c else n.orelse, fr)
            else:
                out.append((k, s, c))
        return out

    def s_Raise(self, st, n, fr):
        if n.exc is None:
            e = st.env.get(fr.id, {}).get('$exc')
            f2 = fr
            while e is None and f2.parent is not None:
                f2 = f2.parent
                e = st.env.get(f2.id, {}).get('$exc')
            if e is None:
                raise Unsupported('bare raise')
            return [('exc', st, e)]

        def f(s, v):
            if isinstance(v, ClassV) or isinstance(v, BuiltinV) and v.name in EXC_TREE:
                return self.then(self.call(s, v, [], {}, fr), lambda s2, e: [('exc', s2, e)])
            return [('exc', s, v)]
        return self.then(self.ev(st, n.exc, fr), f)

    def s_Assert(self, st, n, fr):
        out = []
        for k, s, c in self.cond(st, n.test, fr):
            if k != 'ok':
                out.append((k, s, c))
            elif c:
                out.append(('next', s, None))
            else:
                out.append(self.raise_(s, 'AssertionError'))
        return out

    def s_Import(self, st, n, fr):
        for a in n.names:
            if a.asname:
                st = self.setname(st, fr, a.asname, self.modv(a.name))
            else:
                st = self.setname(st, fr, a.name.split('.')[0], self.modv(a.name.split('.')[0]))
        return [('next', st, None)]

    def modv(self, name):
        return ModV(name)

    def s_ImportFrom(self, st, n, fr):
        res = [('next', st, None)]
        for a in n.names:
            out = []
            for k, s, _ in res:
                out += self.then(self.resolve_from(s, n.module, a.name),
                                 lambda s2, v: [('next', self.setname(s2, fr, a.asname or a.name, v), None)])
            res = out
        return res

    def s_Delete(self, st, n, fr):
        res = [('next', st, None)]
        for t in n.targets:
            out = []
            for k, s, x in res:
                if k != 'next':
                    out.append((k, s, x))
                elif isinstance(t, ast.Name):
                    out.append(('next', s.unlocal(fr.id, t.id), None))
                elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                    if t.slice.step is not None or t.slice.lower is not None and t.slice.upper is not None:
                        raise Unsupported('del slice')

                    def cut(s1, o, t=t):
                        if not (isinstance(o, Ptr) and isinstance(s1.heap[o.id], ListO)):
                            raise Unsupported('del slice')
                        b = t.slice.lower or t.slice.upper
                        if b is None:
                            return [('next', s1.put(o.id, ListO(Seq())), None)]

                        def rest(s2, i):
                            lim = (None, i) if t.slice.lower is not None else (i, None)
                            n = self.seq_len(s2.heap[o.id].seq)
                            if isinstance(i, int) and i > 0 and not isinstance(n, int):
                                res = []
                                for s3, short in self.branch(s2, n < i):
                                    q0 = s3.heap[o.id].seq
                                    got = [(s3, q0 if t.slice.lower is not None else Seq())] if short else self.slice_seq(s3, q0, *lim)
                                    res += [('next', s4.put(o.id, ListO(q)), None) for s4, q in got]
                                return res
                            return [('next', s3.put(o.id, ListO(q)), None) for s3, q in self.slice_seq(s2, s2.heap[o.id].seq, *lim)]
                        return self.then(self.ev(s1, b, fr), rest)
                    out += self.then(self.ev(s, t.value, fr), cut)
                elif isinstance(t, ast.Subscript):
                    out += self.then(self.ev(s, t.value, fr), lambda s1, o: self.then(
                        self.ev(s1, t.slice, fr), lambda s2, i: self.delitem(s2, o, i, fr)))
                else:
                    raise Unsupported('del target')
            res = out
        return res

    def s_FunctionDef(self, st, n, fr):
        return [('next', self.setname(st, fr, n.name, FuncV(n, fr.mod, f'{fr.fn}.<locals>.{n.name}', fr.cls, fr)), None)]

    def s_Global(self, st, n, fr):
        raise Unsupported('global statement')

    def s_Break(self, st, n, fr):
        return [('brk', st, None)]

    def s_Continue(self, st, n, fr):
        return [('cont', st, None)]

    def s_While(self, st, n, fr):
        # bounded unrolling is not a proof: only loops whose exit is decided on concrete data are accepted
        res, live = [], [st]
        for _ in range(12):
            nxt = []
            for s in live:
                for k, s2, c in self.cond(s, n.test, fr):
                    if k != 'ok':
                        res.append((k, s2, c))
                    elif not c:
                        res += self.exec_block(s2, n.orelse, fr)
                    else:
                        for k3, s3, v3 in self.exec_block(s2, n.body, fr):
                            if k3 in ('next', 'cont'):
                                nxt.append(s3)
                            elif k3 == 'brk':
                                res.append(('next', s3, None))
                            else:
                                res.append((k3, s3, v3))
            live = nxt
            if not live:
                return res
        raise Unsupported('while loop without a concrete bound')

    def s_For(self, st, n, fr):
        def run(s, seq):
            def step(s1, elem):
                return [r for k, s2, v in self.assign(s1, n.target, elem, fr)
                        for r in (self.exec_block(s2, n.body, fr) if k == 'next' else [(k, s2, v)])]
            out = []
            for k, s2, v in self.iterate(s, seq, step):
                if k == 'next':
                    out += self.exec_block(s2, n.orelse, fr)
                elif k == 'brk':
                    out.append(('next', s2, None))
                else:
                    out.append((k, s2, v))
            return out
        return self.then(self.ev(st, n.iter, fr), lambda s, it: self.then(self.iter_seq(s, it, fr), run))

    def s_With(self, st, n, fr):
        def nest(s, items):
            if not items:
                return self.exec_block(s, n.body, fr)
            it = items[0]
            return self.then(self.ev(s, it.context_expr, fr),
                             lambda s2, cm: self.with_(s2, cm, it.optional_vars, fr, lambda s3: nest(s3, items[1:])))
        return nest(st, n.items)

    def with_(self, st, cm, target, fr, body):
        if isinstance(cm, CMGen):
            tok = f'cm{Frame.n[0]}'
            Frame.n[0] += 1

            def handler(s, val):
                rs = [('next', s, None)] if target is None else self.assign(s, target, val, fr)
                out = []
                for k, s1, v in rs:
                    if k != 'next':
                        out.append((k, s1, v))
                        continue
                    for k2, s2, v2 in body(s1):
                        if k2 == 'next':
                            out.append(('ok', s2.with_pend(tok, ('next', None)), None))
                        elif k2 == 'exc':
                            out.append(('exc', s2.with_pend(tok, ('exc', v2)), v2))
                        else:
                            out.append(('ok', s2.with_pend(tok, (k2, v2)), None))
                return out
            res = self.run_function(st, cm.fn, cm.args, cm.kwargs, cm.kwmap, fr, yields=handler)
            out = []
            for k, s, v in res:
                p = s.pend.get(tok)
                s = s.with_pend(tok, None)
                if p is None:
                    out.append((k, s, v) if k == 'exc' else self.raise_(s, 'RuntimeError'))
                elif k == 'exc':
                    out.append(('exc', s, v))
                elif p[0] == 'exc':       # generator ended normally: exception swallowed
                    out.append(('next', s, None))
                else:
                    out.append((p[0], s, p[1]))
            return out

        def f(s, entered):
            rs = [('next', s, None)] if target is None else self.assign(s, target, entered, fr)
            out = []
            for k, s1, v in rs:
                if k != 'next':
                    out.append((k, s1, v))
                    continue
                for k2, s2, v2 in body(s1):
                    if k2 == 'exc':
                        ty = BuiltinV('exc_type')
                        for k3, s3, r in self.call_method(s2, cm, '__exit__', [ty, v2, BuiltinV('traceback')], {}, fr):
                            if k3 != 'ok':
                                out.append((k3, s3, r))
                                continue
                            for s4, b in self.truth_branch(s3, r, fr):
                                out.append(('next', s4, None) if b else ('exc', s4, v2))
                    else:
                        for k3, s3, r in self.call_method(s2, cm, '__exit__', [None, None, None], {}, fr):
                            out.append((k2, s3, v2) if k3 == 'ok' else (k3, s3, r))
            return out
        return self.then(self.call_method(st, cm, '__enter__', [], {}, fr), f)

    def s_Try(self, st, n, fr):
        res = []
        for k, s, v in self.exec_block(st, n.body, fr):
            if k == 'exc':
                res += self.handle(s, v, n.handlers, fr)
            elif k == 'next':
                res += self.exec_block(s, n.orelse, fr)
            else:
                res.append((k, s, v))
        if not n.finalbody:
            return res
        out = []
        for k, s, v in res:
            for k2, s2, v2 in self.exec_block(s, n.finalbody, fr):
                out.append((k, s2, v) if k2 == 'next' else (k2, s2, v2))
        return out

    def handle(self, st, exc, handlers, fr):
        out = []
        live = [st]
        for h in handlers:
            nxt = []
            for s in live:
                if h.type is None:
                    ms = [('ok', s, True)]
                else:
                    ms = self.then(self.ev(s, h.type, fr), lambda s1, c: [('ok', s2, b) for s2, b in
                                                                         self.branch(s1, self.exc_match(s1, exc, c))])
                for k, s2, b in ms:
                    if k != 'ok':
                        out.append((k, s2, b))
                    elif b:
                        old = s2.env.get(fr.id, {}).get('$exc')
                        s3 = s2.local(fr.id, '$exc', exc)
                        if h.name:
                            s3 = s3.local(fr.id, h.name, exc)
                        was = s3.ghost.get('handling')
                        for k4, s4, v4 in self.exec_block(s3.with_ghost('handling', exc), h.body, fr):
                            out.append((k4, s4.local(fr.id, '$exc', old).with_ghost('handling', was), v4))
                    else:
                        nxt.append(s2)
            live = nxt
        return out + [('exc', s, exc) for s in live]

    def exc_name(self, c):
        if isinstance(c, ClassV):
            return c.qual
        if isinstance(c, BuiltinV):
            return c.name
        raise Unsupported(f'exception type {c}')

    def exc_match(self, st, exc, c):
        if isinstance(c, Tup):
            if not c.seq.concrete():
                raise Unsupported('symbolic exception tuple')
            rs = [self.exc_match(st, exc, x) for x in c.seq.items()]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return z3.Or(*rs) if rs else False
        name = self.exc_name(c).split('.')[-1] if ':' not in self.exc_name(c) else self.exc_name(c)
        if isinstance(exc, Ptr):
            return self.exc_sub(st.heap[exc.id].cls, name)
        if isinstance(exc, SV):
            return EXCIS(exc.t, name)
        raise Unsupported('exception value')

    def exc_sub(self, cls, name):
        if cls == name:
            return True
        if cls in EXC_TREE:
            c = cls
            while c:
                if c == name:
                    return True
                c = EXC_TREE.get(c)
            return False
        if ':' in cls:
            for x in self.repo.mro(cls):
                q = x.qual if isinstance(x, ClassInfo) else x
                if q == name or (q in EXC_TREE and self.exc_sub(q, name)):
                    return True
        return False

    def opaque_exc(self, st, t, name_hint='exc'):
        """an arbitrary exception object: facts about its class"""
        I = lambda n: EXCIS(t, n)
        facts = [Val.is_ref(t), Val.r(t) < -1000000, I('BaseException')]
        for c, p in EXC_TREE.items():
            if p:
                facts.append(z3.Implies(I(c), I(p)))
        facts += [z3.Not(z3.And(I('Exception'), I('KeyboardInterrupt'))),
                  z3.Not(z3.And(I('Exception'), I('SystemExit'))),
                  z3.Not(z3.And(I('KeyboardInterrupt'), I('SystemExit')))]
        return st.fact(*facts), SV(t, TRef('exception'))

    def raise_(self, st, cls, *args):
        s, p = st.alloc(Inst(cls, {'args': Tup(list(args))}))
        return ('exc', s, p)

    # ------------------------------------------------------------ conditions
    def cond(self, st, node, fr):
        """[('ok', st, bool) | exc]"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            res = [('ok', st, isand)]
            for x in node.values:
                out = []
                for k, s, b in res:
                    if k == 'ok' and b == isand:
                        out += self.cond(s, x, fr)
                    else:
                        out.append((k, s, b))
                res = out
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(k, s, (not b) if k == 'ok' else b) for k, s, b in self.cond(st, node.operand, fr)]
        out = []
        for k, s, v in self.ev(st, node, fr):
            if k != 'ok':
                out.append((k, s, v))
            else:
                out += [('ok', s2, b) for s2, b in self.truth_branch(s, v, fr)]
        return out

    def truth_branch(self, st, v, fr):
        r = self.truth(st, v, fr)
        if isinstance(r, list):    # results of __len__/__bool__
            out = []
            for k, s, x in r:
                if k != 'ok':
                    raise Unsupported('exception in truth test')
                out += self.truth_branch(s, x, fr)
            return out
        return self.branch(st, r)

    def seq_nonempty(self, seq):
        cs = []
        for p in seq.parts:
            if isinstance(p, list):
                return True
            if isinstance(p, AccMark):
                raise Unsupported('reading a loop accumulator')
            if p.is_map() or all(c is not None and len(s.parts) for c, s in p.alts) and \
                    z3.is_true(z3.simplify(z3.Or(*[c for c, _ in p.alts]))):
                if p.base.kind == 'int':
                    cs.append(p.lo < p.hi)
                elif p.upto is None:
                    cs.append(p.base.dom != z3.K(Val, z3.BoolVal(False)))
                else:
                    raise Unsupported('nonempty of a prefix')
            else:
                conds = [c for c, s in p.alts if s.parts]
                cs.append(z3.Exists([p.idx], z3.And(p.rng(), *p.base.facts(p.idx), z3.Or(*conds))))
        return z3.Or(*cs) if cs else False

    def truth(self, st, v, fr=None):
        if v is None or isinstance(v, (bool, int, str)):
            return bool(v)
        if isinstance(v, SB):
            return v.t
        if isinstance(v, SI):
            return v.t != 0
        if isinstance(v, SS):
            return v.t != z3.StringVal('')
        if isinstance(v, Ptr):
            o = st.heap[v.id]
            if isinstance(o, ListO):
                return self.seq_nonempty(o.seq)
            if isinstance(o, DictO):
                return o.map.dom != z3.K(Val, z3.BoolVal(False))
            if isinstance(o, SetO):
                return o.dom != z3.K(Val, z3.BoolVal(False))
            if isinstance(o, Inst):
                if self.find_method(o.cls, '__bool__'):
                    return self.call_method(st, v, '__bool__', [], {}, fr)
                if self.find_method(o.cls, '__len__'):
                    return self.call_method(st, v, '__len__', [], {}, fr)
                if o.map is not None:
                    return o.map.dom != z3.K(Val, z3.BoolVal(False))
                return True
        if isinstance(v, Tup):
            return self.seq_nonempty(v.seq)
        if isinstance(v, (FuncV, ClassV, BoundV, ModV, PartialV, BuiltinV, HookV)):
            return True
        if isinstance(v, SV):
            t = v.t
            if isinstance(v.ty, TRef):
                return True
            T = z3.Function('truthy', Val, BOOL)
            return z3.If(Val.is_none(t), z3.BoolVal(False), z3.If(Val.is_boolv(t), Val.b(t), z3.If(
                Val.is_intv(t), Val.i(t) != 0, z3.If(Val.is_strv(t), Val.s(t) != z3.StringVal(''), T(t)))))
        if isinstance(v, ViewV):
            return self.map_of(st, v.ptr).dom != z3.K(Val, z3.BoolVal(False))
        if isinstance(v, NSetV):
            return self.nset_dom(st, v) != z3.K(Val, z3.BoolVal(False))
        raise Unsupported(f'truth of {v}')

    # ------------------------------------------------------------ loops
    def iterate(self, st, seq, step):
        """run step on each element in order; results: next / brk / ret / exc"""
        res = [('next', st, None)]
        for p in seq.parts:
            out = []
            for k, s, v in res:
                if k != 'next':
                    out.append((k, s, v))
                elif isinstance(p, list):
                    sub_res = [('next', s, None)]
                    for e in p:
                        o2 = []
                        for k2, s2, v2 in sub_res:
                            if k2 != 'next':
                                o2.append((k2, s2, v2))
                                continue
                            s3, e3 = self.thaw(s2, e)
                            for k4, s4, v4 in step(s3, e3):
                                o2.append(('next' if k4 == 'cont' else k4, s4, v4))
                        sub_res = o2
                    out += sub_res
                elif isinstance(p, AccMark):
                    raise Unsupported('iterating over a loop accumulator')
                else:
                    out += self.summarise(s, p, step)
            res = out
        return res

    def summarise(self, st, seg, step, carry=()):
        """maps written in the loop: first suppose that every iteration over keys writes only at its own key, so that an
        iteration meets its own key as it was before the loop (checked in compose)"""
        try:
            if seg.base.kind == 'val':
                try:
                    return self.summarise_(st, seg, step, True, carry)
                except NotOwn:
                    pass
            return self.summarise_(st, seg, step, False, carry)
        except Carried as e:
            # a variable that an iteration reads as the previous one left it
            if e.poison.m is None or e.poison.tag != self.loop_tag(st, seg) or e.poison.m in carry:
                raise
            return self.summarise(st, seg, step, carry + (e.poison.m,))

    def loop_tag(self, st, seg):
        lokey = '' if seg.lo is None else self.tkey(st, seg.lo)
        return f'{self.bkey(st, seg.base)}/{lokey}@{len(st.loop)}'

    # -- values carried from one iteration to the next: the value before iteration i is F(i), where F is the function
    # determined by the value before the loop and by what an iteration makes of it (both compared semantically, so
    # that two loops that do the same have the same F)
    def carried_get(self, st, m):
        if m[0] == 'local':
            return st.env[m[1]].get(m[2])
        return st.heap[m[1]].attrs.get(m[2])

    def carried_put(self, st, m, c, ix, loops):
        name, ty = c
        t = z3.Function(name, *[i.sort() for i in loops + (ix,)], Val)(*loops, ix)
        return self.carried_value(st, m, t, ty)

    def carried_value(self, st, m, t, ty):
        st, v = wrap(self, st, t, ty)
        if m[0] == 'local':
            return st.local(m[1], m[2], v)
        o = st.heap[m[1]]
        return st.put(m[1], o.with_attr(m[2], v))

    def carried_names(self, st, seg, tag, carry, explore):
        """(name, type) of the function of each carried variable"""
        init = [self.carried_get(st, m) for m in carry]
        for m, v in zip(carry, init):
            if v is None and m[0] == 'local' and m[2] not in st.env[m[1]] or isinstance(v, (Poison, _expr.Absent)):
                raise Unsupported(f'loop-carried variable {m[2]} without a value before the loop')
        iv = [to_val(v) for v in init]
        tys = [scalar_type(v) for v in init]
        while True:
            cv = {m: (f'acc{j}@{tag}', ty) for j, (m, ty) in enumerate(zip(carry, tys))}
            s0, consts, outs, gi, rngc, delta = explore(cv)
            new = list(tys)
            for k, s, v in outs:
                if k == 'next':
                    for j, m in enumerate(carry):
                        w = self.carried_get(s, m)
                        if isinstance(w, Ptr):
                            raise Unsupported(f'loop-carried variable {m[2]} is an object')
                        new[j] = join_type(new[j], scalar_type(w))
            if all(a is b for a, b in zip(new, tys)):
                break
            tys = new
        ds = []
        for m in carry:
            d = z3.Const('$exit', Val)
            for k, s, v in outs:
                if k == 'next':
                    d = z3.If(delta(s), to_val(self.carried_get(s, m)), d)
            if any(uses(d, {c.get_id()}) for c in consts):
                raise Unsupported(f'loop-carried variable {m[2]} depends on other changes of the loop')
            ds.append(d)
        ph = z3.Const(f'$ph:{gi.sort()}', gi.sort())
        names = self.loop_names(st)
        can = lambda t: z3.substitute(z3.substitute(t, (gi, ph)), *names) if names else z3.substitute(t, (gi, ph))
        upk = '' if seg.upto is None else self.tkey(st, seg.upto)
        k = ('carry', tag, upk, tuple(str(type(t)) for t in tys), tuple(self.tkey(st, t) for t in iv), tuple(z3.simplify(can(d)).sexpr() for d in ds))
        if k not in self.memo:
            cid, cds = [can(t) for t in iv], [can(d) for d in ds]
            back = [(b, a) for a, b in names]
            here = lambda t: z3.substitute(t, *back) if back else t
            for iv2, ds2, n2 in self.carries.get(k[1:4], []):
                diff = [here(a) != here(b) for a, b in zip(iv2, cid)]
                diff += [z3.And(here(can(rngc)), here(a) != here(b)) for a, b in zip(ds2, cds)]
                if len(iv2) == len(cid) and self.check([*st.pc, z3.Or(*diff)], 2000) == z3.unsat:
                    self.memo[k] = n2
                    break
            else:
                self.memo[k] = f'F{len(self.memo)}'
                self.carries.setdefault(k[1:4], []).append((cid, cds, self.memo[k]))
        return {m: (f'{self.memo[k]}.{j}', ty) for j, (m, ty) in enumerate(zip(carry, tys))}, iv

    def peel(self, st, seg, step):
        """the first iteration by itself: a carried variable starts as an object"""
        if seg.base.kind != 'int':
            raise Unsupported('loop-carried variable is an object')
        out = []
        for s, b in self.branch(st, seg.lo < seg.hi):
            if not b:
                out.append(('next', s, None))
                continue
            for k, s2, v in self.seg_step(s, seg, seg.lo, step, False):
                if k == 'next':
                    rest = Seg(seg.base, z3.simplify(seg.lo + 1), seg.hi, seg.idx, seg.alts, seg.upto)
                    out += self.summarise(s2, rest, step)
                else:
                    out.append((k, s2, v))
        return out

    def summarise_(self, st, seg, step, own, carry=()):
        depth = len(st.loop)
        base = seg.base
        sort = INT if base.kind == 'int' else Val
        # a small constant range: complete unrolling
        if base.kind == 'int':
            lo, hi = z3.simplify(seg.lo), z3.simplify(seg.hi)
            if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 8:
                res = [('next', st, None)]
                for i in range(lo.as_long(), hi.as_long()):
                    out = []
                    for k, s, v in res:
                        out += self.seg_step(s, seg, z3.IntVal(i), step, False) if k == 'next' else [(k, s, v)]
                    res = out
                return res
        lokey = '' if seg.lo is None else self.tkey(st, seg.lo)
        tag = f'{self.bkey(st, base)}/{lokey}@{depth}'
        tp = '|'.join(self.past(st))          # as long as no iteration does anything, what happened so far
        gi = z3.Const(f'g@{tag}', sort)

        if any(isinstance(self.carried_get(st, m), Ptr) for m in carry):
            return self.peel(st, seg, step)
        rngc = z3.simplify(seg.rng(gi))

        def start(ix, mods, cv):
            s = st.with_loop(st.loop + (ix,))
            s.trace = Seq()
            s.ghost = dict(s.ghost)
            s.ghost['tp'] = tp
            consts = []
            for m in sorted(mods, key=repr):
                if m in cv:
                    s = self.carried_put(s, m, cv[m], ix, st.loop)
                    continue
                s, cs = self.abstract(s, m, tag, (ix, base) if own else None)
                consts += cs
            return s, consts

        def explore(cv):
            nonlocal tp, mods, defs
            mods = set(cv)
            mark = len(self.defs)
            for _ in range(8):
                s0, consts = start(gi, mods, cv)
                del self.defs[mark:]
                outs = self.seg_step(s0, seg, gi, step, True)
                new = set()
                for k, s, v in outs:
                    if k == 'next':
                        new |= self.changed(s0, s) - mods
                if not new:
                    if f'loop({tag})' not in tp and (any(s.trace.parts for _, s, _ in outs) or any(
                            m[0] == 'field' or m[0] in ('list', 'map', 'attr', 'set') and m[1] in self.heap0 for m in mods)):
                        tp += f'|loop({tag})'
                        continue
                    break
                mods |= new
            else:
                raise Unsupported('loop modifications do not stabilise')
            npc = len(s0.pc)
            defs = self.defs[mark:]
            del self.defs[mark:]

            def delta(s):
                cs = [c for c in s.conds_from(npc) if not z3.eq(c, rngc)]
                return z3.And(*cs) if cs else z3.BoolVal(True)
            return s0, consts, outs, gi, rngc, delta
        mods, cv, iv, defs = set(), {}, [], []
        if carry:
            cv, iv = self.carried_names(st, seg, tag, carry, explore)
        s0, consts, outs, _, _, delta = explore(cv)
        npc = len(s0.pc)
        if carry:
            if base.kind == 'int':
                ends = {m: z3.Function(cv[m][0], *[i.sort() for i in st.loop], INT, Val)(*st.loop, z3.If(seg.lo <= seg.hi, seg.hi, seg.lo)) for m in carry}
                st = st.fact(*[z3.Function(cv[m][0], *[i.sort() for i in st.loop], INT, Val)(*st.loop, seg.lo) == t for m, t in zip(carry, iv)])
            else:
                ends = {m: z3.Function(cv[m][0] + '.end', *[i.sort() for i in st.loop], Val)(*st.loop) if st.loop else z3.Const(cv[m][0] + '.end', Val) for m in carry}
                ne = self.seq_nonempty(Seq([seg]))
                st = st.fact(*[z3.Implies(z3.Not(ne) if not isinstance(ne, bool) else z3.BoolVal(not ne), ends[m] == t) for m, t in zip(carry, iv)])
        normals = [(delta(s), s) for k, s, v in outs if k == 'next']
        exits = [(k, s, v) for k, s, v in outs if k != 'next']
        exitconds = [delta(s) for k, s, v in exits]
        # type facts and library axioms met inside the body hold for every iteration
        known = [z3.simplify(f) for f in base.facts(gi)]
        for k, s, v in outs:
            fs = [f for f in s.facts_from(npc) if not any(z3.eq(z3.simplify(f), g) for g in known)]
            fs = [f for f in fs if mentions(f, gi) and not uses(f, {c.get_id() for c in consts})]
            if fs:
                st = st.fact(forall([gi], z3.Implies(z3.And(rngc, delta(s)), z3.And(*fs))))
        for s, f in defs:
            f = z3.Implies(z3.And(rngc, delta(s)), f)
            if not uses(f, {c.get_id() for c in consts}):
                f = forall([gi], f)
                st = st.fact(f)
                if st.loop:
                    self.defs.append((st, f))
        xi = None
        if exits:
            ph = z3.Const(f'$ph:{sort}', sort)
            hik = '' if seg.hi is None else self.tkey(st, seg.hi)
            upk = '' if seg.upto is None else self.tkey(st, seg.upto)
            xk = ('exit', tag, hik, upk, ' '.join(sorted({self.tkey(st, z3.substitute(c, (gi, ph))) for c in exitconds})))
            if xk not in self.memo:
                # the first exits under two conditions that are equivalent here are the same index
                names = self.loop_names(st)
                back = [(b, a) for a, b in names]
                anyexit = z3.substitute(z3.Or(*exitconds), (gi, ph), *names)
                here = z3.substitute(anyexit, *back) if back else anyexit
                known_ph = [z3.substitute(f, (gi, ph)) for f in [*base.facts(gi), *(
                    z3.Implies(delta(s), z3.And(*[f for f in s.facts_from(npc)
                                                  if not uses(f, {c.get_id() for c in consts})] or [z3.BoolVal(True)]))
                    for k, s, v in outs if not uses(delta(s), {c.get_id() for c in consts}))]]
                for c, name in self.exits.get((tag, hik, upk), []):
                    if self.check([*st.pc, z3.substitute(rngc, (gi, ph)), *known_ph,
                                   (z3.substitute(c, *back) if back else c) != here], 2000) == z3.unsat:
                        self.memo[xk] = name
                        break
                else:
                    self.memo[xk] = f'x{len(self.memo)}@{tag}'
                    self.exits.setdefault((tag, hik, upk), []).append((anyexit, self.memo[xk]))
            xi = z3.Function(self.memo[xk], *[i.sort() for i in st.loop], sort)(*st.loop) if st.loop \
                else z3.Const(self.memo[xk], sort)
            if not st.loop and base.kind != 'int':
                # no two keys at the same position
                for c, name in self.exits.get((tag, hik, upk), []):
                    if name != self.memo[xk]:
                        o = z3.Const(name, sort)
                        st = st.fact(z3.Implies(POS(base)(o) == POS(base)(xi), o == xi))
        havoc_ids = {c.get_id() for c in consts}

        def clean(t):
            if t is not None and havoc_ids and uses(t, havoc_ids):
                raise (NotOwn if own else Unsupported)('loop-carried dependency outside the summarised forms')
            return t
        for c in [c for c, _ in normals] + exitconds:
            clean(c)

        def finish(s, upto, effect_state=None):
            """state after all iterations before index upto (None: all)"""
            pairs = []
            if base.kind == 'int':
                lo, hi, up = seg.lo, (seg.hi if upto is None else upto), None
            else:
                lo, hi, up = None, None, upto if upto is not None else seg.upto

            def mkseg(alts):
                alts = [(c, q) for c, q in alts]
                if not any(q.parts for _, q in alts):
                    return []
                return [Seg(base, lo, hi, gi, self.merge_alts(alts), up)]
            r = s
            # trace
            alts = []
            for c, o in normals:
                q = self.freeze_seq(o, o.trace, st.heap)
                self.clean_seq(q, havoc_ids)
                alts.append((c, q))
            r = r.with_trace(r.trace + Seq(mkseg(alts)))
            outs_states = [r]
            for m in sorted(mods, key=repr):
                nxt = []
                for r in outs_states:
                    if m in cv:
                        if upto is None:
                            nxt.append(self.carried_value(r, m, ends[m], cv[m][1]))
                        else:
                            nxt.append(self.carried_put(r, m, cv[m], upto, st.loop))
                        continue
                    nxt += self.compose(r, st, m, normals, base, seg, gi, lo, hi, up, mkseg, havoc_ids, tag, own)
                outs_states = nxt
            return outs_states

        results = []
        if exits and st.loop:
            # inside another loop: xi is the first exit of this iteration of the outer loop, if there is one
            anyx = z3.Or(*exitconds)
            self.defs.append((st, z3.Or(forall([gi], z3.Implies(seg.rng(gi), z3.Not(anyx))),
                                        z3.And(seg.rng(xi), z3.substitute(anyx, (gi, xi))))))
        # 1. completing paths
        s_done = st
        if exits:
            rng = seg.rng(gi)
            s_done = st.assume(forall([gi], z3.Implies(rng, z3.Not(z3.Or(*exitconds)))))
        if not exits or self.feasible(s_done):
            for r in finish(s_done, None):
                results.append(('next', r, None))
        # 2. first exit at index xi
        if exits:
            sx, cx = start(xi, mods, cv)
            hx = {c.get_id() for c in cx}
            pre = forall([gi], z3.Implies(z3.And(seg.rng(gi), (gi < xi) if base.kind == 'int' else
                                                 POS(base)(gi) < POS(base)(xi)), z3.Not(z3.Or(*exitconds))))
            for k, s, v in self.seg_step(sx, seg, xi, step, True):
                if k == 'next':
                    continue
                dcond, dfact = s.conds_from(len(sx.pc)), s.facts_from(len(sx.pc))
                for c in dcond:
                    if hx and uses(c, hx):
                        raise Unsupported('loop-carried dependency at loop exit')
                dfact = [c for c in dfact if not (hx and uses(c, hx))]
                # compose prefix effects, then this iteration's own effects on top
                base_states = finish(st, xi)
                for b in base_states:
                    r = self.compose_exit(b, s, sx, mods, hx)
                    r = r.assume(*dcond, pre).fact(*dfact)
                    if self.feasible(r):
                        results.append((k, r, v))
        return results

    def merge_alts(self, alts):
        out = []
        for c, q in alts:
            for j, (c2, q2) in enumerate(out):
                if same_seq(q, q2):
                    out[j] = (z3.Or(c2, c), q2)
                    break
            else:
                out.append((c, q))
        res = []
        for c, q in out:
            res.append((z3.simplify(c), q))
        return res

    def clean_seq(self, q, ids):
        if not ids:
            return
        for p in q.parts:
            if isinstance(p, list):
                for v in p:
                    self.clean_val(v, ids)
            elif isinstance(p, Seg):
                for c, s in p.alts:
                    if uses(c, ids):
                        raise Unsupported('loop-carried value')
                    self.clean_seq(s, ids)
            else:
                raise Unsupported('accumulator copied into another accumulator')

    def clean_val(self, v, ids):
        if isinstance(v, (SV, SB, SI, SS)):
            if uses(v.t, ids):
                raise Unsupported('loop-carried value')
        elif isinstance(v, Tup):
            self.clean_seq(v.seq, ids)
        elif isinstance(v, EvV):
            for a in v.args:
                self.clean_val(a, ids)
        elif isinstance(v, Poison):
            raise Unsupported('loop-carried value')
        elif isinstance(v, Frz):
            o = v.obj
            if isinstance(o, Inst):
                for a in o.attrs.values():
                    self.clean_val(a, ids)
                if o.map and (uses(o.map.dom, ids) or uses(o.map.val, ids)):
                    raise Unsupported('loop-carried value')
            elif isinstance(o, ListO):
                self.clean_seq(o.seq, ids)
            elif isinstance(o, DictO):
                if uses(o.map.dom, ids) or uses(o.map.val, ids):
                    raise Unsupported('loop-carried value')

    def seg_step(self, st, seg, ix, step, generic):
        out = []
        rng = z3.simplify(seg.rng(ix))
        s = st.assume(rng).fact(*seg.base.facts(ix))
        none = []
        for c, outs in seg.alts:
            c2 = z3.substitute(c, (seg.idx, ix))
            none.append(z3.Not(c2))
            s1 = s.assume(c2) if not z3.is_true(z3.simplify(c2)) else s
            if s1 is not s and not self.feasible(s1):
                continue
            o2 = outs.subst([(seg.idx, ix)])
            for k, s2, v in self.iterate(s1, o2, step):
                out.append((k, s2, v))
        if not z3.is_false(z3.simplify(z3.And(*none))):
            s1 = s.assume(*none)
            if self.feasible(s1):
                out.append(('next', s1, None))
        return out

    # -- loop-modified locations
    def changed(self, a, b):
        m = set()
        for i, o in a.heap.items():
            n = b.heap[i]
            if n is o:
                continue
            if isinstance(o, Inst):
                if n.map is not o.map:
                    m.add(('map', i))
                for x in set(o.attrs) | set(n.attrs):
                    if n.attrs.get(x, None) is not o.attrs.get(x, None) or (x in n.attrs) != (x in o.attrs):
                        m.add(('attr', i, x))
            elif isinstance(o, ListO):
                m.add(('list', i))
            elif isinstance(o, DictO):
                m.add(('map', i))
            elif isinstance(o, SetO):
                m.add(('set', i))
        for f, e in a.env.items():
            n = b.env.get(f, {})
            if n is e:
                continue
            for x in set(e) | set(n):
                if (x in e) != (x in n) or e.get(x) is not n.get(x):
                    m.add(('local', f, x))
        for f, e in b.env.items():
            pass
        for f, arr in b.fields.items():
            old = a.fields[f] if f in a.fields else self.fields0.get(f)
            if old is None or not z3.eq(old, arr):
                m.add(('field', f))
        return m

    def abstract(self, s, m, tag, own=None):
        if m[0] == 'list':
            return s.put(m[1], ListO(Seq([AccMark(m)]))), []
        if m[0] == 'map':
            o = s.heap[m[1]]
            om = o.map
            n = f'hv{m[1]}@{tag}'
            sorts = [i.sort() for i in s.loop]
            d = z3.Function(n + '.d', *sorts, DOM)(*s.loop)
            v = z3.Function(n + '.v', *sorts, MAP)(*s.loop)
            d2, v2 = d, v
            if own:
                ix, base = own
                for k in [ix] + ([Val.strv(Val.s(ix))] if base.facts(ix) else []):
                    d2, v2 = z3.Store(d2, k, z3.Select(om.dom, k)), z3.Store(v2, k, z3.Select(om.val, k))
            nm = MapV(d2, v2, om.kt, om.vt, (m, []))
            no = Inst(o.cls, o.attrs, nm) if isinstance(o, Inst) else DictO(nm, o.default)
            return s.put(m[1], no), [d, v]
        if m[0] == 'set':
            o = s.heap[m[1]]
            n = f'hv{m[1]}@{tag}'
            d = z3.Function(n + '.d', *[i.sort() for i in s.loop], DOM)(*s.loop)
            return s.put(m[1], SetO(d, o.et)), [d]
        if m[0] == 'local':
            p = Poison(f'{m[2]}', m, tag)
            self_key = m
            return s.local(m[1], m[2], p), []
        if m[0] == 'attr':
            o = s.heap[m[1]]
            return s.put(m[1], o.with_attr(m[2], Poison(m[2], m, tag))), []
        if m[0] == 'field':
            arr = s.fields[m[1]] if m[1] in s.fields else self.fields0[m[1]]
            d = z3.Function(f'hvf{m[1]}@{tag}', *[i.sort() for i in s.loop], arr.sort())(*s.loop)
            return s.with_field(m[1], d), [d]
        raise Unsupported(f'loop modifies {m}')

    def compose(self, r, st, m, normals, base, seg, gi, lo, hi, up, mkseg, ids, tag, own=False):
        """effect of the iterations on location m; returns list of states"""
        rng = Seg(base, lo, hi, gi, [], up).rng(gi)
        if m[0] == 'list':
            alts = []
            for c, o in normals:
                q = o.heap[m[1]].seq
                if not q.parts or not isinstance(q.parts[0], AccMark):
                    raise Unsupported('list modified other than by appending')
                q = self.freeze_seq(o, Seq(q.parts[1:]), st.heap)
                try:
                    self.clean_seq(q, ids)
                except Unsupported:
                    if m[1] in self.heap0 or own:
                        raise
                    return [r.put(m[1], ListO(Seq([BadMark()])))]
                alts.append((c, q))
            old = st.heap[m[1]].seq
            return [r.put(m[1], ListO(old + Seq(mkseg(alts))))]
        if m[0] == 'local':
            return self.compose_scalar(r, m, normals, rng, gi, ids, st,
                                       lambda s: s.env.get(m[1], {}).get(m[2]),
                                       lambda s, v: s.local(m[1], m[2], v) if v is not None or m[2] in st.env.get(m[1], {}) else s.unlocal(m[1], m[2]))
        if m[0] == 'attr':
            return self.compose_scalar(r, m, normals, rng, gi, ids, st,
                                       lambda s: s.heap[m[1]].attrs.get(m[2]),
                                       lambda s, v: s.put(m[1], s.heap[m[1]].with_attr(m[2], v)))
        if m[0] == 'map':
            k = z3.Const('w@key', Val)
            W, D, Vx = [], [], []
            vt = None
            for c, o in normals:
                mp = o.heap[m[1]].map
                if mp.log is None or mp.log[0] != m:
                    raise Unsupported('map replaced in a loop')
                w, x, dele = z3.BoolVal(False), Val.none, z3.BoolVal(False)
                for op in mp.log[1]:
                    if op[0] == 'set':
                        val = op[2]
                        fv = from_val(val)
                        if isinstance(fv, Ptr) and fv.id not in st.heap:
                            val = self.frozen_term(o, fv, st.heap)
                        x = z3.If(k == op[1], val, x)
                        w = z3.Or(w, k == op[1])
                        dele = z3.And(dele, k != op[1])
                    elif op[0] == 'del':
                        w = z3.And(w, k != op[1])
                        dele = z3.Or(dele, k == op[1])
                    else:
                        om = op[1]
                        x = z3.If(z3.Select(om.dom, k), z3.Select(om.val, k), x)
                        w = z3.Or(w, z3.Select(om.dom, k))
                        dele = z3.And(dele, z3.Not(z3.Select(om.dom, k)))
                vt = vt or mp.vt
                W.append(z3.And(c, w))
                D.append(z3.And(c, dele))
                Vx.append((z3.And(c, w), x))
            w = z3.simplify(z3.Or(*W)) if W else z3.BoolVal(False)
            d = z3.simplify(z3.Or(*D)) if D else z3.BoolVal(False)
            x = Val.none
            for c, y in Vx:
                x = z3.If(c, y, x)
            for t in (w, d, x):
                if ids and uses(t, ids):
                    raise Unsupported('loop-carried map dependency')
            om = st.heap[m[1]].map
            # writes only at the element's own key?
            at_own = base.kind == 'val' and self.check([*st.pc, rng, *base.facts(gi), z3.Or(w, d), k != gi]) == z3.unsat
            if own and not at_own:
                raise NotOwn()
            if at_own:
                if base.facts(gi):      # keys known to be strings
                    back = (Val.strv(Val.s(gi)), gi)
                    w, d, x = (z3.simplify(z3.substitute(t, back)) for t in (w, d, x))
                cw = z3.substitute(z3.And(rng, w), (gi, k))
                cd = z3.substitute(z3.And(rng, d), (gi, k))
                xv = z3.substitute(x, (gi, k))
                dom = z3.Lambda([k], z3.And(z3.Not(cd), z3.Or(cw, z3.Select(om.dom, k))))
                val = z3.Lambda([k], z3.If(cw, xv, z3.Select(om.val, k)))
                nm = MapV(dom, val, om.kt, vt or om.vt)
                if om.log:
                    ol = MapV(z3.Lambda([k], cw), z3.Lambda([k], xv))
                    nm.log = (om.log[0], om.log[1] + [('overlay', ol)]) if z3.is_false(z3.simplify(d)) else None
            else:
                if not z3.is_false(d):
                    if not z3.is_false(w):
                        raise Unsupported('deletions in a loop')
                    gone = z3.Exists([gi], z3.And(rng, d))
                    nm = MapV(z3.Lambda([k], z3.And(z3.Select(om.dom, k), z3.Not(gone))), om.val, om.kt, om.vt)
                    o = r.heap[m[1]]
                    return [r.put(m[1], Inst(o.cls, o.attrs, nm) if isinstance(o, Inst) else DictO(nm, o.default))]
                ph = z3.Const('$lw', gi.sort())
                kw = f'~{self.bkey(st, base)}~{lo is not None and self.tkey(st, lo)}~{hi is not None and self.tkey(st, hi)}' \
                    f'~{up is not None and self.tkey(st, up)}'
                kk = self.tkey(st, z3.substitute(w, (gi, ph))) + '~' + self.tkey(st, z3.substitute(x, (gi, ph))) + kw
                key = ('lw', kk)
                if key not in self.memo:
                    # writes that are equivalent here make the same map
                    names = self.loop_names(st)
                    back = [(b, a) for a, b in names]
                    W1, X1, rp = (z3.substitute(t, (gi, ph), *names) for t in (w, x, rng))
                    here = lambda t: z3.substitute(t, *back) if back else t
                    for w2, x2, name in self.writes.get(kw, []):
                        if self.check([*st.pc, here(rp), here(z3.Or(W1 != w2, z3.And(W1, X1 != x2)))], 3000) == z3.unsat:
                            self.memo[key] = name
                            break
                    else:
                        self.memo[key] = f'lw!{len(self.memo)}'
                        self.writes.setdefault(kw, []).append((W1, X1, self.memo[key]))
                n = self.memo[key]
                sorts = [i.sort() for i in st.loop]
                WD = z3.Function(n + '.d', *sorts, DOM)(*st.loop) if sorts else z3.Const(n + '.d', DOM)
                WV = z3.Function(n + '.v', *sorts, MAP)(*st.loop) if sorts else z3.Const(n + '.v', MAP)
                j = z3.Const('j@lw', gi.sort())
                later = (j > gi) if base.kind == 'int' else POS(base)(j) > POS(base)(gi)
                wj = z3.substitute(z3.And(rng, w), (gi, j))
                # WD: keys written by some iteration, WV: value written by the last such iteration
                r = r.assume(
                    forall([k], z3.Select(WD, k) == z3.Exists([gi], z3.And(rng, w))),
                    forall([k, gi], z3.Implies(z3.And(rng, w, z3.Not(z3.Exists([j], z3.And(later, wj)))),
                                               z3.Select(WV, k) == x)))
                nm = MapV(z3.Lambda([k], z3.Or(z3.Select(om.dom, k), z3.Select(WD, k))),
                          z3.Lambda([k], z3.If(z3.Select(WD, k), z3.Select(WV, k), z3.Select(om.val, k))),
                          om.kt, vt or om.vt)
                if om.log:
                    nm.log = (om.log[0], om.log[1] + [('overlay', MapV(WD, WV))])
            o = r.heap[m[1]]
            no = Inst(o.cls, o.attrs, nm) if isinstance(o, Inst) else DictO(nm, o.default)
            return [r.put(m[1], no)]
        if m[0] in ('set', 'field'):
            k = z3.Const('w@key', Val)
            alts = []
            for c, o in normals:
                cur = o.heap[m[1]].dom if m[0] == 'set' else o.fields[m[1]]
                ks = []
                while z3.is_app(cur) and cur.decl().kind() == z3.Z3_OP_STORE:
                    if m[0] == 'set' and not z3.is_true(z3.simplify(cur.arg(2))):
                        raise Unsupported('removal from a set in a loop')
                    ks.append((cur.arg(1), cur.arg(2)))
                    cur = cur.arg(0)
                if cur.get_id() not in ids:
                    raise Unsupported('set replaced in a loop')
                alts.append((c, ks))
            if m[0] == 'field':
                raise Unsupported('field written in a loop')
            w = z3.Or(*[z3.And(c, k == kk) for c, ks in alts for kk, _ in ks]) if any(ks for _, ks in alts) else z3.BoolVal(False)
            if ids and uses(w, ids):
                raise Unsupported('loop-carried set dependency')
            old = st.heap[m[1]].dom
            dom = z3.Lambda([k], z3.Or(z3.Select(old, k), z3.Exists([gi], z3.And(rng, w))))
            return [r.put(m[1], SetO(dom, st.heap[m[1]].et))]
        raise Unsupported(f'loop modifies {m}')

    def frozen_term(self, o, p, heap):
        """a fresh container stored by an iteration: the term of its contents (its identity is not modelled; iterations
        cannot modify what an earlier one stored, since reading it back is outside the subset)"""
        ob = o.heap[p.id]
        if isinstance(ob, DictO) and not ob.default:
            for t in (ob.map.dom, ob.map.val):
                if fresh_refs(t, heap):
                    raise Unsupported('fresh object inside a container stored in a map inside a loop')
            return MKDICT(ob.map.dom, ob.map.val)
        raise Unsupported('fresh object stored in a map inside a loop')

    def compose_scalar(self, r, m, normals, rng, gi, ids, st, get, put):
        """monotone flags: every iteration leaves the location alone or stores one constant"""
        const, conds, other = [], [], False
        for c, o in normals:
            v = get(o)
            if isinstance(v, Poison) and v.name == m[-1]:
                continue
            if v is None or isinstance(v, (bool, int, str)):
                if const and (const[0] is not v and const[0] != v):
                    other = True
                const.append(v)
                conds.append(c)
            else:
                other = True
        if other or not const:
            return [put(r, Poison(m[-1]))] if other else [put(r, get(st))]
        ex = z3.Exists([gi], z3.And(rng, z3.Or(*conds)))
        out = []
        for s, b in self.branch(r, ex):
            out.append(put(s, const[0] if b else get(st)))
        return out

    def compose_exit(self, b, s, sx, mods, hx):
        """b: state after the complete earlier iterations; s: exit outcome run on abstract state sx"""
        r = b
        r = r.with_trace(b.trace + s.trace)
        heap = dict(r.heap)
        for i, o in s.heap.items():
            if i not in sx.heap:
                heap[i] = o
            elif o is not sx.heap[i]:
                if isinstance(o, ListO):
                    q = o.seq.parts
                    if ('list', i) in mods:
                        if not q or not isinstance(q[0], AccMark):
                            raise Unsupported('list replaced at loop exit')
                        heap[i] = ListO(b.heap[i].seq + Seq(q[1:]))
                    else:
                        heap[i] = o
                elif isinstance(o, (Inst, DictO)):
                    nm = o.map
                    if ('map', i) in mods:
                        if nm.log is None:
                            raise Unsupported('map replaced at loop exit')
                        cur = b.heap[i].map
                        for op in nm.log[1]:
                            cur = cur.set(op[1], op[2]) if op[0] == 'set' else cur.delete(op[1]) if op[0] == 'del' \
                                else cur.overlay(op[1])
                        nm = cur
                    if isinstance(o, Inst):
                        attrs = dict(o.attrs)
                        for a, v in attrs.items():
                            if ('attr', i, a) in mods and isinstance(v, Poison):
                                attrs[a] = b.heap[i].attrs.get(a)
                        heap[i] = Inst(o.cls, attrs, nm)
                    else:
                        heap[i] = DictO(nm, o.default)
                elif ('set', i) in mods:
                    raise Unsupported('set changed at loop exit')
                else:
                    heap[i] = o
        r = r.copy()
        r.heap = heap
        env = dict(r.env)
        for f, e in s.env.items():
            if sx.env.get(f) is e and f in env:
                continue
            e2 = dict(e)
            for x, v in e.items():
                if isinstance(v, Poison) and ('local', f, x) in mods:
                    if x in b.env.get(f, {}):
                        e2[x] = b.env[f][x]
            env[f] = e2
        r.env = env
        for f, arr in s.fields.items():
            if f not in sx.fields or not z3.eq(arr, sx.fields[f]):
                if ('field', f) in mods:
                    raise Unsupported('field at loop exit')
                r = r.with_field(f, arr)
        r.pend = s.pend
        return r


def scalar_type(v):
    if isinstance(v, bool) or isinstance(v, SB):
        return _BOOL
    if isinstance(v, int) or isinstance(v, SI):
        return _INT
    if isinstance(v, str) or isinstance(v, SS):
        return _STR
    if isinstance(v, SV) and v.ty is not None:
        return v.ty
    return _ANY


_BOOL, _INT, _STR, _ANY = TBool(), TInt(), TStr(), TAny()


def join_type(a, b):
    return a if a is b or type(a) is type(b) and type(a) in (TBool, TInt, TStr, TAny) else _ANY


def forall(vs, body):
    body = z3.simplify(body)
    if z3.is_true(body):
        return z3.BoolVal(True)
    return z3.ForAll(vs, body)


MKDICT = z3.Function('mk.dict', DOM, MAP, Val)


def fresh_refs(t, heap):
    """references to objects made in this run and not in the heap"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 1 and x.decl().eq(Val.ref.decl() if hasattr(Val.ref, 'decl') else Val.ref) \
                and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() > 0 and x.arg(0).as_long() not in heap:
            return True
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


def uses(t, ids):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def same_val(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (SV, SB, SI, SS)):
        return z3.eq(z3.simplify(a.t), z3.simplify(b.t))
    if isinstance(a, Tup):
        return same_seq(a.seq, b.seq)
    if isinstance(a, EvV):
        return a.name == b.name and len(a.args) == len(b.args) and all(same_val(x, y) for x, y in zip(a.args, b.args))
    if a is None or isinstance(a, (bool, int, str, Ptr, ClassV)):
        return a == b
    return a is b


def same_seq(a, b):
    if len(a.parts) != len(b.parts):
        return False
    for p, q in zip(a.parts, b.parts):
        if isinstance(p, list) and isinstance(q, list) and len(p) == len(q):
            if not all(same_val(x, y) for x, y in zip(p, q)):
                return False
        else:
            if p is not q:
                return False
    return True


class CMGen:
    def __init__(self, fn, args, kwargs, kwmap):
        self.fn, self.args, self.kwargs, self.kwmap = fn, args, kwargs, kwmap


class ViewV:
    def __init__(self, kind, ptr):
        self.kind, self.ptr = kind, ptr


class NSetV:
    """mutable set stored as a value of a dict-of-sets"""
    def __init__(self, dptr, key, et=None):
        self.dptr, self.key, self.et = dptr, key, et


def EXCIS(t, name):
    return z3.Function('exc_is', Val, STR, BOOL)(t, z3.StringVal(name))


from . import expr as _expr   # noqa: E402
for _n, _f in list(vars(_expr.ExprMixin).items()):
    if not _n.startswith('__'):
        setattr(Ex, _n, _f)
