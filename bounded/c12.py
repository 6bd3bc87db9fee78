import ast
from common import *

IMPORTS = ['import os', 'import os, sys', 'import os.path as osp', 'from os import sep', 'from os import (\n    sep,\n    path\n)',
           'from os import sep as q', 'from os import sep, sep as r', 'import sys as y', 'from collections import OrderedDict, defaultdict',
           'from os \\\n    import path as p2']
BODY = ['a = 1', "b = [\n    1,\n\n    2\n]", "c = 'x=y'  # comment = 3", '# import comment', 'extra = 5', "text = '''\nimport os\n\nz = 3\n'''",
        'def h():\n    import json\n    return json', 'x1 = 5; x2 = 6', '"""docs"""', 'a: int = 3', 'import_me = 4', 'if True:\n    inner = 3',
        'b = 2 \\\n    + 3', "d = {'k': [1,  2], 'import': 3}", 'import json', 'from json import loads', "e = 'é'", 'for i in range(2):\n    pass',
        "lst = [0]\nlst.append(1)", 'class Cc:\n    attr = 1', 'd.d = 5' if False else 'pass', "t = (1,\n     2)", 'with_tab\t=\t1']


def names_bound(text):
    """multiset of module-level import bindings"""
    out = []
    for n in ast.parse(text).body:
        if isinstance(n, ast.Import):
            out += [(None, a.name, a.asname or a.name) for a in n.names]
        elif isinstance(n, ast.ImportFrom):
            out += [(n.module, a.name, a.asname or a.name) for a in n.names]
    return out


def body_text(text):
    """source from the first statement which is no import (or first comment) on, by statement"""
    mod = ast.parse(text)
    lines = text.split('\n')
    return [ast.get_source_segment(text, n) for n in mod.body if not isinstance(n, (ast.Import, ast.ImportFrom))]


def splitting(ctx):
    from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment as split
    r = ctx.rng
    for i in range(ctx.n(300, 3000)):
        imps = [r.choice(IMPORTS) for _ in range(r.randint(0, 3))]
        body = [r.choice(BODY) for _ in range(r.randint(0, 5))]
        sepr = '\n' * r.randint(1, 3)
        text = '\n'.join(imps) + (sepr if imps else '') + ('\n' * r.randint(1, 2)).join(body) + r.choice(['', '\n', '\n\n'])
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        lines = text.splitlines(keepends=True)
        ctx.case('split', text)
        for kw in ({}, {'strip_lines': True}):
            imp, asg = split(list(lines), **kw)
            sig = [l.strip('\n') for l in lines if l.strip()]
            got = [l.strip('\n') for l in imp + asg if l.strip()]
            ctx.eq(got, sig, 'splitting loses no significant line and keeps their order', text=text)
            if got == sig:
                try:
                    mod = ast.parse('\n'.join(l.strip('\n') for l in imp))
                    ok = all(isinstance(n, (ast.Import, ast.ImportFrom)) for n in mod.body)
                except SyntaxError:
                    ok = False
                ctx.check(ok, 'the import part consists of whole import statements', imports=imp)
                # everything from the first other line on is the body
                lead = 0
                for n in ast.parse(text).body:
                    if not isinstance(n, (ast.Import, ast.ImportFrom)):
                        break
                    lead += 1
                if '#' not in text and ';' not in text:
                    ctx.eq(len(ast.parse('\n'.join(l.strip('\n') for l in imp)).body), lead,
                           'the imports at the top form the import part', text=text)


def is_subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def projects(ctx):
    r = ctx.rng
    for i in range(ctx.n(45, 400)):
        imps = [r.choice(IMPORTS) for _ in range(r.randint(0, 2))]
        body = []
        for b in [r.choice(BODY) for _ in range(r.randint(0, 5))]:
            if b not in body and 'a: int' not in b:
                body.append(b)
        text = '\n'.join(imps) + ('\n' if imps else '') + '\n'.join(body) + r.choice(['', '\n', '\n\n'])
        try:
            compile(text, 'x', 'exec')
            user = {}
            exec(text, user)
        except Exception:
            continue
        which = r.choice(['x.f1', 'x.K1', 'kk.s.one'])
        sect = "# section = config\nimport os\nq = 5\nzz=  os.sep\n"
        p = Proj({'x': ['f1', 'f2', 'K1']}, specific=[{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two']}}],
                 configs={which.replace('.', '/') + '.py': text}, load=False)
        # the manager creates folders; only section level configs of the user
        secf = os.path.join(p.defaults, 'x', '__init__.py')
        write(secf, sect)
        f = p.cfg(which)
        ctx.case('load', which, text)
        p.pm.load()
        first = read(f)
        allf = tree(p.folder)
        ctx.eq(read(secf), sect, 'a section config of the user is never overwritten')
        tx = [ln for ln in text.split('\n')]
        # user body in order
        ubody = body_text(text)
        nbody = body_text(first)
        ctx.check(is_subsequence(ubody, nbody), 'every statement of the user is kept as written and in order', text=text, now=first)
        for seg in set(ubody):
            if seg not in ("s = Selector()",):
                ctx.eq(nbody.count(seg), ubody.count(seg), 'no statement of the user is duplicated', text=text, now=first)
        ub, nb = names_bound(text), names_bound(first)
        ctx.check(all(nb.count(x) >= 1 for x in ub), 'every import of the user is kept', text=text, now=first)
        ctx.check(all(nb.count(x) <= max(ub.count(x), 1) + (x == (None, 'json', 'json') and 'def h' in text) for x in nb), 'no import is duplicated', text=text, now=first)
        for line in tx:
            if line.strip() and '#' in line:
                ctx.check(line in first, 'comment lines are kept', line=line, now=first)
        # all arguments are there
        try:
            newns = {}
            exec(first.replace('s = Selector()', ''), newns)
        except Exception as e:
            ctx.fail('the saved file still executes', text=text, now=first, error=e)
            continue
        need = {'x.f1': ['a', 'b', 'c'], 'x.K1': ['a', 'b'], 'kk.s.one': ['name', 'a', 'b']}[which]
        for n in need:
            ctx.check(n in newns, 'missing arguments are added', name=n, now=first)
        for k, v in user.items():
            if k.startswith('__') or callable(v) or isinstance(v, types.ModuleType):
                continue
            ctx.check(newns.get(k) == v, 'every value of the user is kept', name=k, now=first)
        for n in r.choice([[1], [1, 2], [1, 2, 3]]):
            if r.random() < .5:
                p.pm.reload()
            else:
                p.pm.load()
            ctx.eq(tree(p.folder), allf, 'loading again leaves every file unchanged', text=text, step=n)
        cfgs = [p.cfg(x) for x in ['x.f1', 'x.f2', 'x.K1', 'kk.s.one', 'kk.s.two']]
        ctx.check(all(os.path.exists(c) for c in cfgs), 'missing config files are created')


def edits(ctx):
    """histories: load, then the user edits, reorders or the signature grows, then reload"""
    r = ctx.rng
    for i in range(ctx.n(15, 150)):
        p = Proj({'x': ['f1'], 'y': {'z': ['f2']}})
        ctx.case('history', i)
        for step in range(r.randint(1, 4)):
            which = r.choice(['x.f1', 'y.z.f2'])
            f = p.cfg(which)
            lines = read(f).split('\n')
            head = [l for l in lines if 'import' in l or 's = ' in l]
            rest = [l for l in lines if l.strip() and l not in head]
            op = r.choice(['drop', 'reorder', 'extend', 'edit', 'comment', 'trail'])
            if op == 'drop' and rest:
                rest.pop(r.randrange(len(rest)))
            elif op == 'reorder':
                r.shuffle(rest)
            elif op == 'extend':
                rest.append(f'new{step} = {step}')
            elif op == 'edit' and rest:
                rest[0] = rest[0].split('=')[0] + f'= {step + 70}' if '=' in rest[0] and '#' not in rest[0] else rest[0]
            elif op == 'comment':
                rest.insert(r.randint(0, len(rest)), f'# note {step} = import')
            elif op == 'trail':
                rest.append('# the end')
            text = '\n'.join(head + [''] + rest) + '\n'
            ns = {}
            try:
                exec(text, ns)
            except Exception:
                continue
            write(f, text)
            other = {k: v for k, v in tree(p.folder).items() if not f.endswith(k)}
            ctx.case('edit', op, text)
            p.pm.reload()
            now = read(f)
            ctx.eq({k: v for k, v in tree(p.folder).items() if not f.endswith(k)}, other, 'other files are unchanged')
            got = [l for l in now.split('\n') if l.strip()]
            want = [l for l in text.split('\n') if l.strip()]
            ctx.check(is_subsequence(want, got), 'every line of the user stays in order', before=text, now=now)
            added = [l for l in got if l not in want]
            ok = {'x.f1': {'a': 'a = None', 'b': 'b = 2', 'c': "c = 'x'"}, 'y.z.f2': {'a': 'a = 1', 'b': 'b = None', 'd': 'd = 4.5'}}[which]
            missing = [v for k, v in ok.items() if k not in ns]
            ctx.eq(sorted(added), sorted(missing), 'exactly the missing assignments are added', before=text, now=now)


def containers(ctx):
    from pyfileconf.assignments.models.container import AssignmentStatementContainer as AC
    from pyfileconf.assignments.models.statement import AssignmentStatement as AS
    r = ctx.rng
    stm = ['a = 1', 'b = 2', 'a = 2', 'b = 2', 'c = [1]']
    for i in range(ctx.n(60, 500)):
        c = AC([])
        model = []
        for _ in range(r.randint(0, 7)):
            t = r.choice(stm)
            op = r.choice(['add', 'addb', 'app', 'ins'])
            s = AS.from_str(t, preferred_position='begin' if op == 'addb' else None)
            ctx.case('container', op, t, tuple(model))
            if op in ('add', 'addb'):
                c.add_if_missing(s)
            elif op == 'app':
                c.append_if_missing(s)
            else:
                c.insert_if_missing(1, s)
            if t not in model:
                {'add': model.append, 'app': model.append, 'addb': lambda x: model.insert(0, x), 'ins': lambda x: model.insert(1, x)}[op](t)
            ctx.eq([x.orig_str for x in c], model, 'adding if missing never duplicates or drops and keeps order')
            for v in 'abcd':
                ctx.eq(c.contains_varname(v), any(m.startswith(v + ' ') for m in model), 'contains_varname')


def run(ctx):
    for f in (splitting, containers, projects, edits):
        ctx.scenario(f)
