"""Verification of one contract or lemma: generate the obligations from the current source and discharge them."""
import ast
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import time
import traceback
import z3
from .core import *
from .repo import Repo
from .exec import Ex, Frame
from .types import make, sym_map, sym_seq, TDict, TObj
from .expr import StarV
from .compare import compare, Mismatch, model_text
from . import api

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def contract_modules():
    d = os.path.join(HERE, 'contracts')
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py') and f != '__init__.py')


class SpecLoader(importlib.machinery.SourceFileLoader):
    """default values in specifications are expressions of the target module: not evaluated at import"""
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data)
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                n.args.defaults = [ast.copy_location(ast.Constant(None), d) for d in n.args.defaults]
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)


class SpecFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.startswith('contracts.'):
            f = os.path.join(HERE, 'contracts', name.split('.')[1] + '.py')
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=SpecLoader(name, f))


sys.meta_path.insert(0, SpecFinder)


def load(src=None):
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    mods = contract_modules()
    for m in mods:
        importlib.import_module('contracts.' + m)
    kw = {'src': src} if src else {}
    repo = Repo(extra=[('contracts.' + m, os.path.join(HERE, 'contracts', m + '.py')) for m in mods], **kw)
    return repo, list(api.REG)


def verdict(r):
    return 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'undecided'


class Applied:
    """a contract at a call site: the specification runs in place of the body"""
    def __init__(self, c, repo):
        self.c = c
        f = repo.fn(f'{c.module}:{c.name}')
        self.fv = f
        self.repo = repo

    def apply(self, ex, st, fn, args, kwargs, kwmap, fr):
        mod = self.repo.mods[self.c.module]
        tmod = self.repo.mods.get(self.c.target.split(':')[0], mod)
        spec = FuncV(self.fv.node, tmod, self.c.target, fn.cls if isinstance(fn, FuncV) else None)
        ex.applying.append(self.c.target)
        try:
            return ex.run_function(st, spec, args, kwargs, kwmap, fr, spec=mod)
        finally:
            ex.applying.pop()


def unreached(fn, seen):
    """the statements of a function which no path of its verification executes, as its types and preconditions rule them out"""
    out, todo = [], list(fn.body)
    while todo:
        n = todo.pop(0)
        if id(n) not in seen:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append(f'{n.lineno}: {ast.unparse(n).splitlines()[0][:90]}')
            continue
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.stmt):
                todo.append(x)
            elif isinstance(x, (ast.ExceptHandler, ast.match_case)):
                todo += x.body
    return out


def verify(c, repo, reg, timeout=2000, budget=None):
    """dict with the outcome of verifying one contract / lemma"""
    t0 = time.time()
    out = {'contract': c.key, 'target': c.target or c.name, 'kind': c.kind, 'props': c.props, 'results': [], 'status': None,
           'paths': 0, 'queries': 0, 'solver_time': 0.0, 'used': [], 'inlined': [], 'notes': [], 'sha': None, 'starts': 0, 'unreached': []}
    seen = set()
    try:
        table = {k.target: Applied(k, repo) for k in reg if k.target and not k.opts.get('alt')}
        if c.use is not None:
            for q in c.use:
                if q.startswith('-'):
                    table.pop(q[1:], None)
                    continue
                named = [k for k in reg if k.target and k.opts.get('alt') and k.name == q]
                named = [k for k in named if k.module == c.module] or named
                if len(named) != 1:
                    raise Unsupported(f'{len(named)} contracts named {q}')
                table[named[0].target] = Applied(named[0], repo)
        finfo = repo.fn(c.target) if c.target else None
        if c.kind == 'contract' and finfo is None:
            out['status'] = 'undecided'
            out['results'].append(('target', 'undecided', f'{c.target} not found in the source'))
            return out
        if finfo is not None:
            out['sha'] = finfo.sha()
            out['lines'] = (os.path.relpath(finfo.mod.path, repo.src), finfo.node.lineno)
        specf = repo.fn(f'{c.module}:{c.name}')
        smod = repo.mods[c.module]
        combos = [(State(), {})]
        types = dict(c.types)
        for name, ty in types.items():
            nxt = []
            for st, env in combos:
                ex0 = Ex(repo, table, timeout)
                if name == 'kw__' or name == 'star__':
                    nxt.append((st, env))
                    continue
                for t in ty.alts():
                    for s2, v in make(ex0, st, t, name):
                        s2 = s2.copy()
                        s2.next = [s2.next[0]]
                        nxt.append((s2, {**env, name: v}))
            combos = nxt
        for st, env in combos:
            ex = Ex(repo, table, timeout)
            ex.opts = dict(c.opts)
            if c.opts.get('hook_types'):
                ex.opts['hook_types'] = c.opts['hook_types']
            st = st.copy()
            st.next = [max(st.next[0], 1)]
            kwmap = star = None
            if 'kw__' in types:
                kwmap = sym_map('kwargs', types['kw__'])
            if 'context' in c.opts:
                ex.globals[('pyfileconf.pmcontext.main', 'context')] = env['context__']
            gl = c.opts.get('globals', {})
            for key, n in gl.items():
                ex.globals[tuple(key.split(':')) if ':' in key else ('module', key)] = env[n]
            env = {n: v for n, v in env.items() if n != 'context__' and n not in gl.values()}
            setup = c.opts.get('setup')
            if setup:
                st = setup(ex, st, env)
            if ex.check(list(st.pc)) == z3.unsat:
                continue
            ex.heap0 = dict(st.heap)
            ex.fields0 = dict(st.fields)
            names = {v.id: n for n, v in env.items() if isinstance(v, Ptr)}
            for n, v in env.items():
                if isinstance(v, Ptr) and st.heap[v.id].kind == 'inst':
                    for a, x in st.heap[v.id].attrs.items():
                        if isinstance(x, Ptr):
                            names.setdefault(x.id, f'{n}.{a}')
            out['starts'] += 1
            fr = Frame(smod)
            kwargs = {n: v for n, v in env.items()}
            if 'star__' in types:
                s2, seq = sym_seq(ex, st, types['star__'], 'args', 0)
                st = s2
                star = StarV(seq)
            if c.kind == 'lemma':
                spec = FuncV(specf.node, smod, c.key)
                outs = ex.run_function(st, spec, [], kwargs, kwmap, fr, spec=smod)
                for k, s, v in outs:
                    if k == 'exc' and isinstance(v, Ptr):
                        r = ex.check(list(s.pc), 6000)
                        out['results'].append((f'lemma does not raise {s.heap[v.id].cls}', verdict(r), ''))
                if not any(k == 'ok' for k, _, _ in outs):
                    out['results'].append(('lemma completes', 'undecided', 'no completing path'))
            else:
                target = FuncV(finfo.node, finfo.mod, finfo.qual, finfo.cls)
                spec = FuncV(specf.node, finfo.mod, c.target, finfo.cls)
                pos = []
                a = finfo.node.args
                if star is not None:
                    names_pos = [x.arg for x in a.posonlyargs + a.args]
                    pos = [kwargs.pop(n) for n in names_pos] + [star]
                if finfo.kind == 'classmethod' and 'cls' not in kwargs:
                    kwargs['cls'] = ClassV(c.opts.get('cls') or finfo.cls.qual)
                n0 = len(ex.side)
                ex.seen = seen
                body = ex.run_function(st, target, pos, kwargs, kwmap, fr)
                sides = ex.side[n0:]
                specs = ex.run_function(st, spec, pos, kwargs, kwmap, fr, spec=smod)
                ex.side = sides
                out['results'] += compare(ex, body, specs, names)
            for label, s, g in ex.side:
                r = ex.check([*s.pc, z3.Not(g)], 6000)
                status = verdict(r)
                if status != 'proved' and ex.check(list(s.pc)) == z3.unsat:
                    status = 'proved'
                out['results'].append((label, status, '' if status == 'proved' else model_text(ex, [*s.pc, z3.Not(g)], g) if status == 'failed' else str(g)[:300]))
            out['paths'] += ex.paths
            out['queries'] += ex.qcount
            out['solver_time'] += ex.qtime
            out['used'] = sorted(set(out['used']) | ex.used_contracts)
            out['inlined'] = sorted(set(out['inlined']) | {q for q in ex.inlined if not q.startswith('contracts')})
            out['notes'] = sorted(set(out['notes']) | ex.notes)
    except Unsupported as e:
        out['results'].append(('subset', 'undecided', f'outside the verified subset: {e}'))
    except RecursionError:
        out['results'].append(('subset', 'undecided', 'recursion'))
    except z3.Z3Exception as e:
        out['results'].append(('engine', 'undecided', 'z3: ' + str(e)[:200]))
    except Exception as e:       # a defect of the engine never becomes a verdict
        out['results'].append(('engine', 'undecided', ''.join(traceback.format_exc()[-900:])))
    if c.kind == 'contract':
        out['unreached'] = unreached(finfo.node, seen)
    st = [r[1] for r in out['results']]
    if 'failed' in st:
        out['status'] = 'failed'
    elif 'undecided' in st or not st or out['starts'] == 0 or not any(r[0] != 'reached' for r in out['results']):
        out['status'] = 'undecided'
    else:
        out['status'] = 'proved'
    out['time'] = time.time() - t0
    return out


def main():
    repo, reg = load()
    pats = [x for x in sys.argv[1:] if x != '-v']
    long = '-v' in sys.argv
    for c in reg:
        if c.assumed or (pats and not any(p in c.key for p in pats)):
            continue
        r = verify(c, repo, reg)
        n = len(r['results'])
        pr = sum(1 for x in r['results'] if x[1] == 'proved')
        print(f"{r['status']:10} {c.key:45} {pr}/{n} obligations  {r['queries']}q {r['solver_time']:.1f}s/{r.get('time', 0):.1f}s paths={r['paths']} inl={[x.split(':')[1] for x in r['inlined']]}")
        bad = [x for x in r['results'] if x[1] != 'proved']
        if long and r['unreached']:
            print('     not reached:', r['unreached'])
        for x in bad if long else bad[:6]:
            print('    ', x[1], x[0][:150], '|', x[2][:700] if long else ' '.join(x[2].split())[-250:])


if __name__ == '__main__':
    main()
