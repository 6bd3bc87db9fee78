"""Mechanical extraction of the functions under contract from /repo's current source (ast)."""
import ast
import hashlib
import os

SRC = os.environ.get('PYFILECONF_REPO', '/repo')


class FnInfo:
    def __init__(self, qual, node, mod, cls, kind):
        self.qual, self.node, self.mod, self.cls, self.kind = qual, node, mod, cls, kind
        # kind: function, method, classmethod, staticmethod, property, setter
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    def sha(self):
        return hashlib.sha256(ast.dump(self.node).encode()).hexdigest()[:12]


class ClassInfo:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.methods, self.setters, self.assigns = {}, {}, {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = 'method'
                for d in st.decorator_list:
                    s = ast.unparse(d)
                    if s in ('property', 'classmethod', 'staticmethod'):
                        kind = s
                    elif s.endswith('.setter'):
                        kind = 'setter'
                f = FnInfo(f'{qual}.{st.name}', st, mod, self, kind)
                (self.setters if kind == 'setter' else self.methods)[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.assigns[st.target.id] = st.value
        self.base_exprs = node.bases

    def bases(self, repo):
        out = []
        for b in self.base_exprs:
            r = repo.resolve_expr(self.mod, b)
            out.append(r)
        return out


class ModInfo:
    def __init__(self, name, path, tree, text):
        self.name, self.path, self.tree, self.text = name, path, tree, text
        self.symbols = {}
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                self.symbols[st.name] = ('func', FnInfo(f'{self.name}:{st.name}', st, self, None, 'function'))
            elif isinstance(st, ast.ClassDef):
                self.symbols[st.name] = ('class', ClassInfo(f'{self.name}:{st.name}', st, self))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.symbols[a.asname] = ('module', a.name)
                    else:
                        self.symbols[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.symbols[a.asname or a.name] = ('from', st.module, a.name)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.symbols[t.id] = ('var', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.symbols[st.target.id] = ('var', st.value)


class Repo:
    def __init__(self, src=SRC, package='pyfileconf', extra=()):
        self.src = src
        self.mods = {}
        for base, _, files in os.walk(os.path.join(src, package)):
            for f in files:
                if f.endswith('.py'):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self._load(rel, p)
        for name, p in extra:
            self._load(name, p)
        self._mro = {}

    def _load(self, name, p):
        with open(p, encoding='utf8') as fh:
            text = fh.read()
        try:
            tree = ast.parse(text)
        except SyntaxError:
            tree = ast.parse('')
        self.mods[name] = ModInfo(name, p, tree, text)

    # ---- resolution: returns ('func', FnInfo) ('class', ClassInfo) ('mod', name) ('var', ModInfo, name) ('ext', dotted)
    def resolve(self, mod, name, depth=0):
        if depth > 12:
            return None
        sym = mod.symbols.get(name)
        if sym is None:
            sub = mod.name + '.' + name
            if sub in self.mods:
                return ('mod', sub)
            return None
        if sym[0] == 'func' or sym[0] == 'class':
            return sym
        if sym[0] == 'var':
            return ('var', mod, name)
        if sym[0] == 'module':
            return ('mod', sym[1])
        return self.resolve_from(sym[1], sym[2], depth + 1)

    def resolve_from(self, modname, name, depth=0):
        if modname in self.mods:
            r = self.resolve(self.mods[modname], name, depth + 1)
            if r is not None:
                return r
            if modname + '.' + name in self.mods:
                return ('mod', modname + '.' + name)
            return None
        return ('ext', f'{modname}.{name}')

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            r = self.resolve(mod, e.id)
            return r if r is not None else ('ext', e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(mod, e.value)
            if r and r[0] == 'mod':
                return self.resolve_from(r[1], e.attr)
            if r and r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(mod, e.value)
        return ('ext', '?')

    def cls(self, qual):
        if ':' not in qual:
            return None
        m, c = qual.split(':')
        if m in self.mods:
            s = self.mods[m].symbols.get(c)
            if s and s[0] == 'class':
                return s[1]
        return None

    def fn(self, qual, setter=False):
        m, n = qual.split(':')
        if m not in self.mods:
            return None
        if '.' in n:
            c, meth = n.split('.', 1)
            ci = self.cls(f'{m}:{c}')
            if ci is None:
                return None
            if meth.endswith('!set'):
                return ci.setters.get(meth[:-4])
            return ci.methods.get(meth)
        s = self.mods[m].symbols.get(n)
        return s[1] if s and s[0] == 'func' else None

    def mro(self, qual):
        """list of ClassInfo / ext-name strings (simple DFS, first wins)"""
        if qual in self._mro:
            return self._mro[qual]
        ci = self.cls(qual)
        out = []
        if ci is None:
            out = [qual]
        else:
            out = [ci]
            for b in ci.bases(self):
                if b and b[0] == 'class':
                    for x in self.mro(b[1].qual):
                        if x not in out:
                            out.append(x)
                elif b and b[0] == 'ext' and b[1] not in out:
                    out.append(b[1])
        self._mro[qual] = out
        return out

    def is_subclass(self, qual, base):
        if qual == base:
            return True
        for x in self.mro(qual):
            n = x.qual if isinstance(x, ClassInfo) else x
            if n == base or builtin_subclass(n, base):
                return True
        return False


def builtin_subclass(a, b):
    import builtins
    import collections
    import functools
    if a.startswith('ast.') and b.startswith('ast.'):
        import ast
        x, y = getattr(ast, a[4:], None), getattr(ast, b[4:], None)
        if isinstance(x, type) and isinstance(y, type) and b[4:] not in ('Str', 'Num', 'NameConstant', 'Bytes', 'Ellipsis'):
            return issubclass(x, y)
    ns = {'functools.partial': functools.partial, 'collections.defaultdict': collections.defaultdict,
          'defaultdict': collections.defaultdict, 'partial': functools.partial}
    x = ns.get(a, getattr(builtins, a, None))
    y = ns.get(b, getattr(builtins, b, None))
    if isinstance(x, type) and isinstance(y, type):
        return issubclass(x, y)
    return a == b
