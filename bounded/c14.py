import ast, inspect
from common import *

DEFAULTS = ['1', "'s'", 'None', '-1', '2.5', '[1, 2]', "{'k': 1}", '(1, 2)', 'True', 'CONST', 'os.sep', 'Helper()', 'q', '1 + 2', 'osp.sep']
ANNOTS = ['int', 'str', 'List[str]', 'Optional[int]', "'Local'", 'Local', 'pd.DataFrame', 'Dict[str, List[int]]', 'float', 'Tuple[int, str]', 'LocalT']
HEAD = '''
import os
import os.path as osp
from os import sep as q
from typing import List, Optional, Dict, Tuple
import pandas as pd
import vtrack

CONST = 5
LocalT = Dict[str, int]

class Helper:
    def __eq__(self, other):
        return type(other).__name__ == 'Helper'
    __hash__ = None

class Local:
    pass

'''


def rand_sig(r, maxargs=5, star=True, first=()):
    """list of (name, kind, default source or None, annotation source or None)"""
    names = r.sample(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'name', 'klass', 'items', 'values', 'section', 'data'], r.randint(0, maxargs))
    if first and r.random() < .3:
        # a plain function may have a first argument with a name usual for methods
        names = [r.choice(first)] + names
    nkw = r.randint(0, len(names)) if r.random() < .5 else 0
    npos = len(names) - nkw
    ndef = r.randint(0, npos)
    out = []
    for i, n in enumerate(names):
        ann = r.choice(ANNOTS) if r.random() < .4 else None
        if i < npos:
            out.append((n, 'pos', r.choice(DEFAULTS) if i >= npos - ndef else None, ann))
        else:
            out.append((n, 'kw', r.choice(DEFAULTS) if r.random() < .6 else None, ann))
    return out


def sig_src(sig, selfname=None, varargs=False, varkw=False):
    parts = [selfname] if selfname else []
    starred = False
    for n, k, d, a in sig:
        if k == 'kw' and not starred:
            parts.append('*rest' if varargs else '*')
            starred = True
        parts.append(n + (f': {a}' if a else '') + (f' = {d}' if d is not None else ''))
    if varargs and not starred:
        parts.append('*rest')
    if varkw:
        parts.append('**others')
    return ', '.join(parts)


def arg_dicts(ctx):
    """the extraction from the source and from the live callable against inspect.signature"""
    from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict as ext
    from pyfileconf.imports.logic.load.func import function_args_as_dict
    from pyfileconf.imports.logic.load.klass import class_function_args_as_dict
    from pyfileconf.config.models.config import ActiveFunctionConfig
    from pyfileconf.pipelines.models.config import FunctionConfig
    r = ctx.rng
    ns0 = {}
    exec(HEAD, ns0)
    for i in range(ctx.n(300, 4000)):
        sig = rand_sig(r, 7, first=('self', 'cls', 'this'))
        bound = r.choice(['self', 'cls', 'this', 'me', '_'])
        csig = [x for x in sig if x[0] != bound]
        src = f'def fn({sig_src(sig, varargs=r.random() < .2, varkw=r.random() < .2)}):\n    return locals()\n'
        ctx.case('args', src)
        node = ast.parse(src).body[0]
        before = ast.dump(node)
        d, a = ext(node.args)
        ctx.eq(ast.dump(node), before, 'reading a signature does not modify it')
        ctx.eq(list(d), [s[0] for s in sig], 'every argument is listed, in order', src=src)
        for n, k, de, an in sig:
            if n in d:
                ctx.eq(ast.dump(d[n]), ast.dump(ast.parse(de if de is not None else 'None').body[0].value),
                       'each argument is paired with its own default', src=src, arg=n)
            want = None if an is None else ast.dump(ast.parse(an.strip("'")).body[0].value)
            got = ast.dump(a[n]) if n in a else None
            if got is not None:
                got = got.replace(', ctx=Load()', '')
            if want is not None:
                want = want.replace(', ctx=Load()', '')
            ctx.eq(got, want, 'each argument is paired with its own annotation', src=src, arg=n)
        ns = dict(ns0)
        exec(src, ns)
        fn = ns['fn']
        rep = function_args_as_dict(fn)
        want = {p.name: (None if p.default is inspect._empty else p.default) for p in inspect.signature(fn).parameters.values()
                if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)}
        ctx.eq(rep, want, 'the reported arguments match the real signature', src=src)
        cls_src = (f'class Kc:\n    cv = 3\n    def __init__({sig_src(csig, bound)}):\n        pass\n    def meth({bound}, zz=1):\n        pass\n'
                   f'    @classmethod\n    def cm({bound}, yy=1):\n        pass\n    @staticmethod\n    def sm({bound}=4, yy=1):\n        pass\n')
        exec(cls_src, ns)
        rep = class_function_args_as_dict(ns['Kc'])
        sg = inspect.signature(ns['Kc'].__init__)
        want = {p.name: (None if p.default is inspect._empty else p.default) for p in list(sg.parameters.values())[1:]}
        ctx.eq(rep, want, 'the reported arguments of a class match its signature without self', src=cls_src)
        m = ns['Kc'](**{s[0]: 0 for s in csig})
        ctx.eq(function_args_as_dict(m.meth), {'zz': 1}, 'a bound method is reported without self', src=cls_src)
        ctx.eq(function_args_as_dict(ns['Kc'].cm), {'yy': 1}, 'a class method is reported without the class', src=cls_src)
        ctx.eq(function_args_as_dict(ns['Kc'].sm), {bound: 4, 'yy': 1}, 'a static method is reported with all its arguments', src=cls_src)
        # only what the callable accepts is passed
        extra = {k: j for j, k in enumerate(r.sample(['zzz', 'Selector', 's', 'os', 'yyy', 'rest', 'others', 'self'], 4)) if k not in [x[0] for x in sig]}
        vals = {s[0]: j for j, s in enumerate(sig) if r.random() < .8}
        items = list({**extra, **vals}.items())
        r.shuffle(items)
        for C in (FunctionConfig, ActiveFunctionConfig):
            c = C(dict(items))
            ctx.eq(c.for_function(fn), vals, 'only arguments the callable accepts are passed', src=src, config=C.__name__)
            ctx.eq(dict(c), dict(items), 'the config itself is not changed')
            ci = [*items, (bound, 5)]
            want = {k: v for k, v in dict(ci).items() if k in [x[0] for x in csig]}
            ctx.eq(C(dict(ci)).for_function(ns['Kc']), want, 'only arguments the class accepts are passed', src=cls_src, config=C.__name__)


def projects(ctx):
    r = ctx.rng
    for i in range(ctx.n(40, 400)):
        sig, sig2, sig3 = rand_sig(r, first=('self', 'cls')), rand_sig(r), rand_sig(r)
        selfname = r.choice(['self', 'this', 'me'])
        names = lambda s: ', '.join(f'{x[0]}_={x[0]}' for x in s)
        sk = [('name', 'pos', None, None)] + [s for s in sig3 if s[0] != 'name' and s[2] is not None]
        sk = [s for s in sk if s[1] == 'pos'] + [s for s in sk if s[1] == 'kw']
        src = (HEAD + f'def g({sig_src(sig)}):\n    return vtrack.call("g", {names(sig)})\n\n'
               f'class Kl:\n    def helper({selfname}, hh=1):\n        return hh\n'
               f'    def __init__({sig_src(sig2, selfname)}):\n        {selfname}.kw = dict({names(sig2)})\n'
               f'    def __call__(self):\n        return vtrack.call("Kl", **self.kw)\n\n'
               f'class SKl:\n    def __init__({sig_src(sk, selfname)}):\n        {selfname}.kw = dict({names(sk)})\n'
               + ''.join(f'        {selfname}.{x[0]} = {x[0]}\n' for x in sk) +
               f'    def __call__(self):\n        return vtrack.call("SKl", **self.kw)\n')
        ctx.case('signature', sig_src(sig), sig_src(sig2, selfname), sig_src(sk, 'self'))
        p = Proj({'x': ['g', 'Kl']}, mod_src=src, specific=[{'name': 'kk', 'cls': 'SKl', 'dict': {'s': ['one']}}])
        m = p.module()
        for item, s, kind in (('x.g', sig, 'f'), ('x.Kl', sig2, 'c'), ('kk.s.one', sk, 's')):
            text = read(p.cfg(item))
            mod = ast.parse(text)
            rows = []
            for n in mod.body:
                if isinstance(n, ast.Assign):
                    rows.append((n.targets[0].id, n.value, None))
                elif isinstance(n, ast.AnnAssign):
                    rows.append((n.target.id, n.value, n.annotation))
            rows = [x for x in rows if x[0] != 's']
            ctx.eq([x[0] for x in rows], [x[0] for x in s], 'the generated config lists every argument', text=text, item=item)
            for (n, k, de, an), row in zip(s, rows):
                want = de if de is not None else ('None' if not (kind == 's' and n == 'name') else "'one'")
                ctx.eq(ast.dump(row[1]), ast.dump(ast.parse(want).body[0].value), 'own default in the generated config', item=item, arg=n, text=text)
                got = None if row[2] is None else ast.unparse(row[2])
                ctx.eq(got, None if an is None else an.strip("'"), 'own annotation in the generated config', item=item, arg=n, text=text)
            live = m.g if kind == 'f' else m.Kl if kind == 'c' else m.SKl
            vtrack.CALLS.clear()
            # extra values in the config are not passed on
            p.pm.update(section_path_str=item, pyfileconf_persist=False)
            p.pm.config.get(item)['notanargument'] = 99
            p.pm.run(item)
            ctx.eq(len(vtrack.CALLS), 1, 'run calls the item once', item=item)
            if vtrack.CALLS:
                env = dict(vars(m))
                want = {x[0] + '_': eval(x[2], env) if x[2] is not None else ('one' if (kind == 's' and x[0] == 'name') else None) for x in s}
                ctx.eq(vtrack.CALLS[0][1], want, 'the item receives each argument with its own default', item=item)


def run(ctx):
    ctx.scenario(arg_dicts)
    ctx.scenario(projects)
