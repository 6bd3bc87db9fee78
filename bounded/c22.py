from common import *


def content(r):
    return r.choice(['', '\n', 'pipeline_dict = {}', "# user comment\nimport os\n\npipeline_dict = {'x': []}\n", 'not python at all (((', 'é ü\n',
                     'class_dict = {"a": ["b"]}\r\n', 'x' * 3000])


class Thing:
    def __init__(self, name=None, a=1):
        self.name = name
        self.a = a


def subset(ctx, i):
    r = ctx.rng
    root = os.path.join(SCRATCH, uniq('cp'))
    os.makedirs(root)
    proj = os.path.join(root, *r.choice([['p'], ['deep', 'er', 'p']]))
    logs = r.choice([None, None, os.path.join(root, 'logs'), os.path.join(root, 'l', 'o', 'gs'), os.path.join(proj, 'logs')])
    names = r.sample(['sources', 'things', 'x', 'pipeline2'], r.randint(0, 3))
    scd = [{'name': n, 'class': Thing} for n in names] if names or r.random() < .5 else None
    cfgname = r.choice(['defaults', 'defaults', 'myconf', 'conf'])
    # any subset of parts exists already, with any content
    have = []
    parts = [('dir', proj), ('file', os.path.join(proj, 'pipeline_dict.py')), ('dir', os.path.join(proj, cfgname)),
             ('file', os.path.join(proj, cfgname, 'section.py')), ('file', os.path.join(proj, cfgname, 'x', 'f.py')),
             ('file', os.path.join(proj, 'notes.txt')), ('file', os.path.join(proj, 'defaults', 'mine.py')),
             ('file', os.path.join(proj, 'other_dict.py'))]
    parts += [('file', os.path.join(proj, n + '_dict.py')) for n in names]
    if logs:
        parts += [('dir', logs), ('file', os.path.join(logs, 'old.log'))]
    pick = r.choice([[], parts, None, None, None])
    if pick is None:
        pick = [p for p in parts if r.random() < .5]
    for kind, path in pick:
        if kind == 'dir':
            os.makedirs(path, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w', newline='', encoding='utf8') as f:
                f.write(content(r))
        have.append(os.path.relpath(path, root))
    before = tree(root)
    times = {k: os.stat(os.path.join(root, k)).st_mtime_ns for k in before if before[k] is not None}
    ctx.case(sorted(have), names, cfgname, logs and os.path.relpath(logs, root))
    old_log = options.log_folder
    rel = r.random() < .3
    cwd = os.getcwd()
    try:
        if logs:
            os.makedirs(logs, exist_ok=True) if False else None
            options.log_folder = logs
            # setting the option may itself create the folder and open the log file
        mid = tree(root)
        if rel:
            os.chdir(root)
        folder = os.path.relpath(proj, root) if rel else proj
        pm = PipelineManager(folder, name='cp', specific_class_config_dicts=scd, default_config_folder_name=cfgname)
        after = tree(root)
        want = dict(mid)

        def ensure(path, data):
            rp = os.path.relpath(path, root)
            cur = os.path.dirname(rp)
            while cur:
                want.setdefault(cur, None)
                cur = os.path.dirname(cur)
            want.setdefault(rp, data)
        ensure(proj, None)
        ensure(os.path.join(proj, 'pipeline_dict.py'), b'\npipeline_dict = {}\n')
        ensure(os.path.join(proj, cfgname), None)
        for n in names:
            ensure(os.path.join(proj, n + '_dict.py'), b'\nclass_dict = {}\n')
        if logs:
            ensure(logs, None)
        for k, v in mid.items():
            if k.endswith('.log') and logs:
                continue
            ctx.check(k in after and after[k] == v, 'nothing existing is altered or removed', path=k, before=v, after=after.get(k))
        for k, v in before.items():
            ctx.check(k in after and (after[k] == v or (v is not None and after[k].startswith(v) and k.endswith('.log'))),
                      'nothing which existed before is altered or removed', path=k, before=v, after=after.get(k))
        new = {k: v for k, v in after.items() if k not in mid and not k.endswith('.log')}
        exp = {k for k in want if k not in mid}
        ctx.eq(set(new), exp, 'exactly the missing parts are created')
        for k in new:
            ctx.eq(new[k] is None, want[k] is None, 'created part is a file or folder as needed', path=k)
        for k, v in new.items():
            if v is not None:
                ns = {}
                try:
                    exec(compile(v, k, 'exec'), ns)
                except Exception as e:
                    ctx.fail('created file is not valid', path=k, content=v)
                var = 'pipeline_dict' if k.endswith('pipeline_dict.py') else 'class_dict'
                ctx.eq(ns.get(var), {}, 'created dictionary file holds an empty dictionary', path=k)
        mt = {k: os.stat(os.path.join(root, k)).st_mtime_ns for k in after if after[k] is not None}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            PipelineManager(folder, name='cp', specific_class_config_dicts=scd, default_config_folder_name=cfgname)
        again = tree(root)
        ctx.eq({k: v for k, v in again.items() if not k.endswith('.log')}, {k: v for k, v in after.items() if not k.endswith('.log')},
               'constructing again changes nothing')
        for k in mt:
            if not k.endswith('.log'):
                ctx.eq(os.stat(os.path.join(root, k)).st_mtime_ns, mt[k], 'constructing again does not write files', path=k)
        for k, t in times.items():
            if not k.endswith('.log'):
                ctx.eq(os.stat(os.path.join(root, k)).st_mtime_ns, t, 'existing files are not written', path=k)
        del pm
    finally:
        os.chdir(cwd)
        options.log_folder = old_log
        context.reset()


def loadable(ctx):
    """a project created from nothing can be loaded"""
    for cfgname in ('defaults', 'conf'):
        f = os.path.join(SCRATCH, uniq('lo'))
        pm = PipelineManager(f, name='lo' + cfgname, specific_class_config_dicts=[{'name': 'things', 'class': Thing}], default_config_folder_name=cfgname)
        ctx.case('load created', cfgname)
        pm.load()
        ctx.check(os.path.isdir(os.path.join(f, cfgname)), 'config folder exists', cfgname=cfgname)


def run(ctx):
    for i in range(ctx.n(250, 3000)):
        ctx.scenario(subset, i)
    ctx.scenario(loadable)
