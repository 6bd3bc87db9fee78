import warnings
from common import *
from pyfileconf.sectionpath.sectionpath import SectionPath
from pyfileconf.selector.models.itemview import ItemView, is_item_view

NAMES = ['x', 'xx', 'x_1', 'y', 'data', 'data2', 'run2', 'zed', 'K', 'item2']
LEAVES = ['f1', 'f2', 'f3', 'f4', 'noargs', 'K1', 'K2']
ATTRS_DEFAULT = {'f1': 'c', 'f2': 'd', 'f3': 'k', 'f4': 'z', 'K1': 'b', 'K2': 'q'}


def rand_tree(r, depth):
    if depth == 0 or r.random() < .4:
        return r.sample(LEAVES, r.randint(1, 3))
    return {n: rand_tree(r, depth - 1) for n in r.sample(NAMES, r.randint(1, 3))}


def items(d, pre=''):
    if isinstance(d, list):
        for x in d:
            yield f'{pre}.{x}', x
    else:
        for k, v in d.items():
            yield from items(v, f'{pre}.{k}' if pre else k)


def sections(d, pre=''):
    if isinstance(d, dict):
        for k, v in d.items():
            p = f'{pre}.{k}' if pre else k
            yield p
            yield from sections(v, p)


def view(s, path):
    v = s
    for part in path.split('.'):
        v = getattr(v, part)
    return v


def one(ctx, i):
    r = ctx.rng
    projs = []
    base = uniq('pm')
    for k in range(r.randint(1, 3)):
        tree = {n: rand_tree(r, 2) for n in r.sample(NAMES, r.randint(1, 3))}
        spec = []
        if r.random() < .7:
            spec = [{'name': 'sources', 'cls': 'SK', 'dict': r.choice([
                {'a': ['one', 'two']}, {'a': {'b': ['one'], 'bb': ['one', 'on']}}]),
                'extra': {'execute_attr': 'go'} if r.random() < .5 else {}}]
        projs.append((Proj(tree, name=base + ['', '_b', 'b'][k], specific=spec), tree, spec))
    s = Selector()
    allv = {}
    for p, tree, spec in projs:
        it = list(items(tree)); secs = list(sections(tree))
        sit = [('sources.' + a, 'SK') for a, _ in items(spec[0]['dict'])] if spec else []
        ssec = ['sources'] + ['sources.' + a for a in sections(spec[0]['dict'])] if spec else []
        reg = {a for a, _ in it + sit} | set(secs) | set(ssec)
        ctx.case(p.name, tree, spec and spec[0])
        for a in sorted(reg):
            full = p.name + '.' + a
            v = view(s, full)
            if not ctx.check(is_item_view(v), 'attribute path gives a view', path=full, view_type=repr(v)):
                continue
            ctx.eq(object.__getattribute__(v, 'section_path_str'), full, 'view names the path followed')
            ctx.check(full in s, 'registered path contained in the selector', path=full)
            ctx.check(SectionPath(full) in s, 'registered path contained in the selector, given as a section path', path=full)
            w = ItemView.from_section_path_str(full)
            ctx.check(w == v and hash(w) == hash(v) and not (w != v), 'views of one path equal', path=full)
            allv[full] = v
        ctx.check(p.name in s, 'manager contained in the selector')
        # names which are not registered
        cand = set()
        for a in sorted(reg):
            cand |= {a + '_typo', a[:-1], a + '.nope', a + a[-1]}
            if '.' in a:
                cand |= {a.split('.', 1)[1], a.rsplit('.', 1)[0] + '.zzz'}
        cand |= {n for n in NAMES} | {'sources'} | {'sources.a.zzz'}
        for a in sorted(cand):
            if a in reg or not a or a.endswith('.') or any(a.startswith(x[0] + '.') for x in it + sit):
                continue
            parent = a.rsplit('.', 1)[0] if '.' in a else ''
            if hasattr(type(p.pm), a):
                continue
            full = p.name + '.' + a
            try:
                v = view(s, full)
            except Exception:
                v = None
            ctx.check(not is_item_view(v), 'a name which is not registered is refused', path=full, registered=sorted(reg))
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = full in s
            except Exception:
                got = False
            ctx.check(got is False, 'a path which is not registered is not contained', path=full, got=got)
            try:
                v = ItemView.from_section_path_str(full)
            except Exception:
                v = None
            ctx.check(v is None or not is_item_view(v), 'from_section_path_str refuses unregistered', path=full)
        # attributes of an item are not registered paths
        for a, leaf in it[:2]:
            full = p.name + '.' + a + '.keywords'
            if leaf.startswith(('f', 'n')):
                ctx.check((full in s) is False, 'attribute of an item not contained')
    paths = sorted(allv)
    for _ in range(min(40, len(paths) ** 2)):
        a, b = r.choice(paths), r.choice(paths)
        va, vb = allv[a], allv[b]
        ctx.eq((va == vb), a == b, 'views equal exactly when paths are equal', a=a, b=b)
        ctx.eq((va != vb), a != b, 'views unequal exactly when paths are not equal', a=a, b=b)
        if a == b:
            ctx.eq(hash(va), hash(vb), 'equal views hash alike')
        ctx.eq(len({va, vb}), len({a, b}), 'views in a set')
    # views of paths which are nearly the same
    for a in r.sample(paths, min(6, len(paths))):
        va, parts = allv[a], a.split('.')
        for near in {'.'.join(parts[1:]), '.'.join(parts[:-1]), a + '.' + parts[-1], parts[0] + '.' + a, a.upper(), a[:-1], a + 'x',
                     '.'.join(parts[:1] + parts[2:]), '.'.join(parts[::-1]), a.replace('.', '_'), a.replace('.', '..', 1)} - {'', a}:
            w = ItemView(near, s)
            ctx.eq((va == w, w == va), (False, False), 'views of different paths are unequal', a=a, b=near)
            ctx.eq(len({va, w}), 2, 'views of different paths in a set', a=a, b=near)
        ctx.eq((ItemView(a, s) == va, hash(ItemView(a)) == hash(va)), (True, True), 'views of one path are equal', a=a)
    ctx.eq(len(set(allv.values())), len(allv), 'a set of views keeps one per path')
    ctx.check(all(v != 'x' and v != 3 and v != None for v in list(allv.values())[:3]), 'views unequal to other objects')

    # acting on the item which the path names
    for _ in range(8):
        p, tree, spec = r.choice(projs)
        it = list(items(tree))
        sit = [('sources.' + a, 'SK') for a, _ in items(spec[0]['dict'])] if spec else []
        a, leaf = r.choice(it + sit)
        full = p.name + '.' + a
        v = view(s, full)
        val = r.choice([11, 'v', (1, 2)]) , next(_counter_)
        others = {q.name + '.' + b: q.conf(b) for q, t2, sp2 in projs
                  for b, _ in list(items(t2)) + ([('sources.' + c, 0) for c, _ in items(sp2[0]['dict'])] if sp2 else [])}
        how = r.choice(['setattr', 'update', 'update_batch'])
        ctx.case('act', full, how)
        key = 'a' if leaf == 'SK' else ATTRS_DEFAULT.get(leaf)
        if key is not None:
            if how == 'setattr':
                setattr(v, key, val)
            elif how == 'update':
                p.pm.update({key: val}, section_path_str=a)
            else:
                p.pm.update_batch([{key: val, 'section_path_str': a}])
            for q, t2, sp2 in projs:
                for b, _ in list(items(t2)) + ([('sources.' + c, 0) for c, _ in items(sp2[0]['dict'])] if sp2 else []):
                    o = dict(others[q.name + '.' + b])
                    if (q.name, b) == (p.name, a):
                        o[key] = val
                    ctx.eq(q.conf(b), o, 'setting through a view changes the item it names only', path=full, other=q.name + '.' + b)
            if leaf == 'SK':
                ctx.eq(getattr(v, key), val, 'attribute of the item through the view', path=full)
            elif leaf[0] == 'f':
                ctx.eq(v.keywords.get(key), val, 'attribute of the item through the view', path=full)
        item = v.item
        ctx.check(item is p.pm.get(a), 'view.item is the item its path names', path=full, got_item=item, want=p.pm.get(a))
        ctx.check(p.pm.get(v) is p.pm.get(a), 'get by view gets the item it names', path=full)
        vtrack.CALLS.clear()
        if leaf == 'f1':
            p.pm.update({'a': 1}, section_path_str=a)
        r1 = p.pm.run(v)
        c1 = list(vtrack.CALLS); vtrack.CALLS.clear()
        p.pm.run(a)
        c2 = list(vtrack.CALLS); vtrack.CALLS.clear()
        ctx.eq(c1, c2, 'run by view runs the item it names', path=full)
        p.pm.run([v, v])
        ctx.eq(vtrack.CALLS, c2 * 2, 'run a list of views', path=full); vtrack.CALLS.clear()
        if leaf != 'K1' and leaf != 'K2':
            v()
            want = c2
            ctx.eq(vtrack.CALLS, want, 'calling a view executes the item it names', path=full)
        else:
            ctx.check(v() is p.pm.get(a), 'calling a view of a class of the pipeline dict gives its object', path=full)
            ctx.eq(vtrack.CALLS, [], 'calling a view of a class of the pipeline dict executes nothing')
        v2 = view(Selector(), full)
        p.pm.reset(v)
        ctx.check(v2.item is p.pm.get(a), 'view follows the item after reset', path=full)
        if key is not None:
            ctx.eq(p.conf(a), {**p.conf(a), **({key: STD_DEFAULTS[leaf][key]} if leaf in STD_DEFAULTS else {})}, 'reset by view', path=full)
        vtrack.CALLS.clear()


_counter_ = itertools.count(1000)


def run(ctx):
    for i in range(ctx.n(12, 150)):
        ctx.scenario(one, i)
