import ast
from common import *
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
from pyfileconf.imports.models.statements.module import ModuleImportStatement
from pyfileconf.imports.models.statements.comment import Comment
from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
from pyfileconf.exceptions.imports import NoImportMatchingNameException

MODS = ['os', 'os.path', 'json', 'm', 'm.n', 'x', 'a']
OBJS = ['a', 'b', 'c', 'm', 'x', 'join']
NEW = ['a', 'b', 'z', 'x', 'os', 'q']


def rand_src(r):
    k = r.choice(['import', 'from', 'from'])
    n = r.choice([1, 1, 1, 2, 2, 3])
    names = [r.choice(MODS if k == 'import' else OBJS) for _ in range(n)]
    parts = [x + (f' as {r.choice(NEW)}' if r.random() < .35 else '') for x in names]
    if k == 'import':
        return 'import ' + ', '.join(parts)
    return f'from {r.choice(MODS)} import ' + ', '.join(parts)


def binds(src):
    """(kind, module, [(orig, new)...]) of one statement, from python's own parser"""
    node = ast.parse(src).body[0]
    return (type(node).__name__, getattr(node, 'module', None),
            [(x.name, x.asname or x.name) for x in node.names])


def norm(b):
    """what a statement binds: which bindings, and to what each name is bound in the end"""
    k, m, bs = b
    return k, m, sorted(bs), {n: o for o, n in bs}


def present(item, existing):
    k, m, bs = item
    return any(k == k2 and m == m2 and all(b in bs2 for b in bs) for k2, m2, bs2 in existing)


def make(src, r):
    cls = ModuleImportStatement if src.startswith('import') else ObjectImportStatement
    how = r.choice(['str', 'ast', 'comment'])
    if how == 'ast':
        return extract_imports_from_ast(ast.parse(src))[0]
    if how == 'comment':
        return cls.from_str(src, comment=Comment(' note'))
    return cls.from_str(src)


def statement(ctx, src):
    r = ctx.rng
    st = make(src, r)
    ctx.case('statement', src)
    ctx.check(type(st) is (ModuleImportStatement if src.startswith('import') else ObjectImportStatement), 'kind of import', src=src)
    ctx.eq(norm(binds(str(st))), norm(binds(src)), 'rendered import binds the same names', src=src)
    if st.comment is not None:
        ctx.check(str(st).endswith('# note'), 'comment of the import kept', got_str=str(st))


def container(ctx, i):
    r = ctx.rng
    srcs = [rand_src(r) for _ in range(r.randint(0, 5))]
    c = ImportStatementContainer([make(s, r) for s in srcs])
    if r.random() < .3:
        c.insert(r.randint(0, len(c)), Comment(' hello'))
        ncomm = 1
    else:
        ncomm = 0
    model = [binds(s) for s in srcs]
    ctx.case('container', srcs)

    def content():
        return [binds(str(x)) for x in c if not isinstance(x, Comment)]

    for step in range(r.randint(1, 6)):
        if srcs and r.random() < .5:
            # a statement close to an existing one
            k, m, bs = r.choice(model)
            bs = r.sample(bs, r.randint(1, len(bs)))
            if r.random() < .5:
                bs = bs + [(r.choice(MODS if k == 'Import' else OBJS),) * 2]
            if r.random() < .3:
                bs = [(o, o) for o, n in bs]
            body = ', '.join(o if o == n else f'{o} as {n}' for o, n in bs)
            src = f'import {body}' if k == 'Import' else f'from {m if r.random() < .8 else r.choice(MODS)} import {body}'
        else:
            src = rand_src(r)
        it = binds(src)
        st = make(src, r)
        want = present(it, model)
        ctx.case('add', [str(x) for x in c], src)
        ctx.eq(st in c, want, 'an import is present exactly when one statement binds all of it', imports=str(c), src=src)
        begin = r.choice([None, 'begin', 'end'])
        if begin is not None:
            st.preferred_position = begin
        before = list(c)
        how = r.choice(['add_if_missing', 'append_if_missing', 'insert_if_missing'])
        if how == 'add_if_missing':
            at_begin = begin == 'begin'
            c.add_if_missing(st)
            pos = 0 if at_begin else None
        elif how == 'append_if_missing':
            c.append_if_missing(st); pos = None
        else:
            pos = r.randint(0, len(before))
            c.insert_if_missing(pos, st)
        exp = list(before)
        if not want:
            exp.insert(len(exp) if pos is None else pos, st)
        ctx.check(len(c) == len(exp) and all(x is y for x, y in zip(c, exp)), 'add if missing adds exactly the missing import in its place',
                  imports=[str(x) for x in before], src=src, how=how, got_imports=[str(x) for x in c])
        model = content()
        srcs = srcs or [src]
        ctx.check(st in c, 'an added import is present')
        again = [id(x) for x in c]
        c.add_if_missing(make(src, r))
        ctx.eq([id(x) for x in c], again, 'adding an import again changes nothing', src=src)
    # lookups
    names = set(MODS + OBJS + NEW) | {n for _, _, bs in model for _, n in bs} | {o for _, _, bs in model for o, _ in bs}
    for name in sorted(names):
        cands = [(k, m, (o, n)) for k, m, bs in model for o, n in bs if n == name]
        ctx.case('lookup', [str(x) for x in c], name)
        try:
            got = c.get_import_for_module_or_obj_name(name)
        except NoImportMatchingNameException:
            got = None
        if not cands:
            ctx.check(got is None, 'a name which no import binds is not found', imports=str(c), name=name, got_import=str(got))
            continue
        if not ctx.check(got is not None, 'a name which an import binds is found', imports=str(c), name=name):
            continue
        k, m, bs = binds(str(got))
        ctx.check(len(bs) == 1 and (k, m, bs[0]) in cands, 'lookup gives an import which binds the name as an existing one does',
                  imports=str(c), name=name, got_import=str(got), candidates=cands)
        tr = c.get_import_for_ast_obj(ast.parse(f'{name.split(".")[0]}.attr.other', mode='eval').body) if '.' not in name else None
        if tr is not None:
            ctx.eq(binds(str(tr)), (k, m, bs), 'lookup of an expression follows its name')
    # rendering and reading the whole
    text = str(c)
    back = extract_imports_from_ast(ast.parse(text))
    ctx.eq([binds(str(x)) for x in back], content(), 'rendered imports read back the same', text=text)
    cp = c.copy()
    n = len(c)
    cp.append(make('import zzz', r))
    ctx.eq(len(c), n, 'a copy is independent')
    both = c + ImportStatementContainer([make('import zzz', r)])
    ctx.eq([str(x) for x in both], [str(x) for x in c] + ['import zzz' + (' # note' if both[-1].comment else '')], 'joined lists keep order')


def execute(ctx):
    """importing through a statement yields the module or object which the name is bound to"""
    import os as _os, json as _json
    for src, name, want in [('import os', 'os', _os), ('import json as j', 'j', _json), ('from os import path', 'path', _os.path),
                            ('from os import path as p, sep', 'sep', _os.sep), ('from os import sep as s, path as p', 'p', _os.path),
                            ('import os, json', 'json', _json), ('import os as a, json as b', 'b', _json),
                            ('from json import loads, loads as l2', 'l2', _json.loads)]:
        ctx.case('execute', src, name)
        c = ImportStatementContainer([make('import sys', ctx.rng), make(src, ctx.rng)])
        got = c.get_import_for_module_or_obj_name(name).execute()
        ctx.check(len(got) == 1 and got[0] is want, 'executing the found import gives the bound object', src=src, name=name, got_obj=got)


def run(ctx):
    r = ctx.rng
    for i in range(ctx.n(400, 4000)):
        ctx.scenario(statement, rand_src(r))
    for i in range(ctx.n(400, 6000)):
        ctx.scenario(container, i)
    ctx.scenario(execute)
