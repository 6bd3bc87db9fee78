from common import *


def parts_universe(ctx):
    alpha = ['a', 'b', 'ab', 'py', '1', 'x_y', 'manager', 'Ünï']
    out = []
    for n in range(1, 4 if not ctx.thorough else 5):
        out += [list(t) for t in itertools.product(alpha[:4], repeat=n)]
    for _ in range(ctx.n(60, 400)):
        out.append([ctx.rng.choice(alpha) for _ in range(ctx.rng.randint(1, 7))])
    out += [['x', 'rel', 'f'], ['rel', 'rel'], ['my_rel', 'f'], ['section'], ['x', 'section'], ['a', 'py'], ['apy'], ['py_'], ['x', 'dir', 'f']]
    return out


def roundtrip(ctx):
    for parts in parts_universe(ctx):
        s = '.'.join(parts)
        ctx.case('roundtrip', s)
        sp = SectionPath(s)
        ctx.eq(sp.path_str, s, 'path_str is the dotted string')
        ctx.eq(list(sp), parts, 'iteration gives the parts')
        ctx.eq(list(sp.sections), parts, 'sections are the parts')
        ctx.eq(len(sp), len(parts), 'length is the number of parts')
        for i in range(-len(parts), len(parts)):
            ctx.eq(sp[i], parts[i], 'indexing gives that part', i=i)
        ctx.eq(list(sp[1:]), parts[1:], 'slices give parts')
        ctx.eq(list(sp[:-1]), parts[:-1], 'slices give parts')
        back = SectionPath.from_section_str_list(list(parts))
        ctx.eq(back.path_str, s, 'from_section_str_list inverts splitting')
        for base in ('/base/dir', 'rel', '/b/a', '/b/x.y/z', parts[0], parts[-1], os.path.join('/', *parts), './' + parts[0] + '/'):
            fp = sp.to_filepath(base)
            ctx.eq(fp, os.path.join(base, *parts), 'to_filepath is base joined with the parts')
            ctx.eq(SectionPath.from_filepath(base, fp).path_str, s, 'from_filepath inverts to_filepath')
            ctx.eq(SectionPath.from_filepath(base, fp + '.py').path_str, s, 'from_filepath drops .py')


def pairs(ctx):
    uni = [list(t) for n in (1, 2, 3) for t in itertools.product(['a', 'b'], repeat=n)]
    uni += [['ab'], ['a', 'ab'], ['ba', 'b'], ['b', 'a', 'b', 'a']]
    for p, q in itertools.product(uni, uni):
        a, b = '.'.join(p), '.'.join(q)
        ctx.case('pair', a, b)
        A, B = SectionPath(a), SectionPath(b)
        for x, y in ((a, b), (A, B), (A, b), (a, B)):
            j = SectionPath.join(x, y)
            ctx.eq(list(j), p + q, 'join concatenates the parts')
            ctx.eq(j.path_str, a + '.' + b, 'join concatenates the strings')
        ctx.eq((list(A), list(B)), (p, q), 'join leaves its operands alone')
        suffix = len(q) <= len(p) and p[len(p) - len(q):] == q
        ctx.eq(bool(A.endswith(B)), suffix, 'endswith exactly when a suffix of the parts', path=a, suffix=b)
        ctx.eq(A == B, a == b, 'equal exactly when the strings are')
        ctx.eq(A != B, a != b, 'unequal exactly when the strings are')
        if a == b:
            ctx.eq(hash(A), hash(B), 'equal paths hash alike')
        ctx.eq(len({A, B}), len({a, b}), 'set of paths')
    for other in (None, 1, 'a', [], object(), 2.5, {}, ('a',)):
        ctx.case('other', repr(type(other)))
        ctx.eq(SectionPath('a') == other, False, 'comparison with another object is False')
        ctx.eq(other == SectionPath('a'), False, 'comparison with another object is False')
        ctx.eq(SectionPath('a') in [other], False, 'membership')
    for bad in (None, 3, [], object()):
        ctx.raises(Exception, lambda: SectionPath.from_ambiguous(bad), 'from_ambiguous refuses non-paths', bad=bad)


def ambiguous(ctx):
    p = Proj({'x': ['f1', 'f2'], 'y': {'z': ['f3', 'K1']}},
             specific=[{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one', 'two']}}])
    s = Selector()
    n = p.name
    views = {f'{n}.x.f1': getattr(s, n).x.f1, f'{n}.y.z.K1': getattr(s, n).y.z.K1,
             f'{n}.kk.s.one': getattr(s, n).kk.s.one, f'{n}.y': getattr(s, n).y}
    bases = [None, n, 'base', 'b.c']
    items = []
    for full, v in views.items():
        items.append((v, full, full.split('.', 1)[1]))
    for t in ('a', 'a.b', f'{n}.x.f1', 'y.z.f3'):
        items.append((t, t, t))
        items.append((SectionPath(t), t, t))
    for item, plain, stripped in items:
        for base in bases:
            for strip in (False, True):
                want = stripped if strip else plain
                if base is not None:
                    want = base + '.' + want
                ctx.case('ambiguous', plain, type(item).__name__, base, strip)
                r = SectionPath.from_ambiguous(item, strip_manager_from_iv=strip, base_section_path_str=base)
                ctx.eq(r.path_str, want, 'from_ambiguous names the path', base=base, strip=strip)
                ctx.eq(list(r), want.split('.'), 'from_ambiguous names the parts', base=base, strip=strip)
                l1 = SectionPath.list_from_ambiguous(item, strip_manager_from_iv=strip, base_section_path_str=base)
                ctx.eq([x.path_str for x in l1], [want], 'list_from_ambiguous of one item', base=base, strip=strip)
    for strip in (False, True):
        for base in bases:
            for cont in (list, tuple):
                for k in range(0, len(items) + 1, 3):
                    sel = items[:k]
                    want = [(b if strip else a) for _, a, b in sel]
                    want = [(base + '.' + w if base is not None else w) for w in want]
                    ctx.case('list', k, base, strip, cont.__name__)
                    r = SectionPath.list_from_ambiguous(cont(x for x, _, _ in sel), strip_manager_from_iv=strip,
                                                        base_section_path_str=base)
                    ctx.eq([x.path_str for x in r], want, 'list_from_ambiguous keeps every item in order')


def run(ctx):
    ctx.scenario(roundtrip)
    ctx.scenario(pairs)
    ctx.scenario(ambiguous)
