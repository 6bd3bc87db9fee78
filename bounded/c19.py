import gc
from common import *
from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForFilepathException, NoPipelineManagerForSectionPathException


def contains(folder, path):
    f = os.path.abspath(folder).split(os.sep)
    p = os.path.abspath(path).split(os.sep)
    return len(p) > len(f) and p[:len(f)] == f


def lookups(ctx, i):
    r = ctx.rng
    root = os.path.join(SCRATCH, uniq('lk'))
    os.makedirs(root)
    old = os.getcwd()
    os.chdir(root)
    try:
        rels = ['proj', 'proj2', 'proj/sub', 'proj/subtwo', 'pro', 'other/proj', 'a b', 'proj/defaults/inner', 'a', 'a/b']
        pick = r.sample(rels, r.randint(1, 4))
        names = r.sample(['pm', 'pm2', 'pm_', 'p', 'other', 'project'], len(pick))
        pms = {}
        for n, rel in zip(names, pick):
            form = r.choice(['abs', 'rel', 'slash', 'dots'])
            folder = {'abs': os.path.join(root, rel), 'rel': rel, 'slash': os.path.join(root, rel) + os.sep,
                      'dots': os.path.join(root, rel, '..', os.path.basename(rel))}[form]
            if form == 'dots':
                os.makedirs(os.path.join(root, rel), exist_ok=True)
            pms[n] = PipelineManager(folder, name=n)
        ctx.eq(list(context.active_managers), names, 'active managers')
        files = []
        for rel in rels + ['projx', 'proj2/sub', '', 'zzz']:
            for t in ('pipeline_dict.py', 'defaults/x/f.py', 'f.py', 'defaults', '.'):
                files.append(os.path.join(rel, t))
        for f in files:
            for form in (f, os.path.join(root, f), os.path.join(root, 'q', '..', f), os.path.join('.', f)):
                ctx.case('by filepath', {n: p.folder.replace(root, '<root>') for n, p in pms.items()}, form.replace(root, '<root>'))
                own = [p for p in pms.values() if contains(p.folder, form)]
                try:
                    got = PipelineManager.get_manager_by_filepath(form)
                except NoPipelineManagerForFilepathException:
                    got = None
                if own:
                    ctx.check(any(got is o for o in own), 'a file resolves to a manager whose folder contains it',
                              file=form, got_manager=got and got.name)
                else:
                    ctx.check(got is None, 'a file in no project raises the dedicated error', file=form, got_manager=got and got.name)
        for n in ['pm', 'pm2', 'pm_', 'p', 'other', 'project', 'pmx', 'x', '_general', 'general']:
            for tail in ('', '.x', '.pm', '.x.y.f1', '.other.pm2'):
                ctx.case('by section path', list(pms), n + tail)
                try:
                    got = PipelineManager.get_manager_by_section_path_str(n + tail)
                except NoPipelineManagerForSectionPathException:
                    got = None
                ctx.check(got is pms.get(n), 'a section path resolves to the manager named first', path=n + tail, active=list(pms), got_manager=got and got.name)
        # deleting and replacing managers
        for step in range(r.randint(1, 5)):
            n = r.choice(names)
            how = r.choice(['replace', 'drop', 'replace_keep', 'invalid'])
            ctx.case('lifetime', names, n, how)
            if how == 'replace' or how == 'replace_keep':
                oldm = pms.get(n)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    new = PipelineManager(os.path.join(root, r.choice(rels)), name=n)
                pms[n] = new
                if how == 'replace':
                    del oldm
                    gc.collect()
                else:
                    oldm.__del__() if oldm is not None else None
                    oldm = None
            elif how == 'drop':
                m = pms.pop(n, None)
                if m is not None:
                    m.__del__()
                    m.__del__()
                    m = None
                    gc.collect()
            else:
                try:
                    PipelineManager(os.path.join(root, 'bad'), name=n, auto_pdb=True, force_continue=True)
                    ctx.fail('contradicting options are refused')
                except ValueError:
                    pass
                gc.collect()
            ctx.check(set(context.active_managers) == set(pms) and all(context.active_managers[k] is v for k, v in pms.items()),
                      'active managers are those not removed, each name the latest one', expected_names=sorted(pms),
                      got_names=sorted(context.active_managers), how=how)
            for k, v in pms.items():
                ctx.check(PipelineManager.get_manager_by_section_path_str(k + '.x') is v, 'lookup after replacing', name=k)
    finally:
        os.chdir(old)


def running(ctx):
    """items acted upon through full paths belong to the manager named first"""
    a = Proj({'x': ['f2']}, name='pm')
    b = Proj({'x': ['f2']}, name='pm2')
    for first, other in ((a, b), (b, a)):
        ctx.case('run by view', first.name)
        v = getattr(getattr(Selector(), first.name), 'x').f2
        v.a = 77
        ctx.eq(first.conf('x.f2')['a'], 77, 'named manager updated')
        ctx.eq(other.conf('x.f2')['a'], 1, 'other manager untouched')
        first.pm.reset('x.f2')
    for p in (a, b):
        ctx.check(PipelineManager.get_manager_by_filepath(p.cfg('x.f2')) is p.pm, 'config file resolves to its manager')


def run(ctx):
    for i in range(ctx.n(25, 250)):
        ctx.scenario(lookups, i)
    ctx.scenario(running)
