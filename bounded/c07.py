from common import *
from cfgmodel import *
from pyfileconf.logger.logger import logger

PD = {'x': ['f1', 'f2', 'f3', 'f4'], 'y': {'z': ['K1']}, 'w': ['f1', 'noargs']}
SPEC = [{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['one']}, 'extra': {'execute_attr': 'go'}}]
ITEMS = {'x.f1': 'f1', 'x.f2': 'f2', 'x.f3': 'f3', 'x.f4': 'f4', 'y.z.K1': 'K1', 'w.noargs': 'noargs', 'kk.s.one': 'SK.go'}


class Rec(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.recs = []

    def emit(self, r):
        self.recs.append((r.levelno, r.getMessage()))


class Odd(Exception):
    def __bool__(self):
        return False


EXCS = [ValueError('boom-v'), KeyError('boom-k'), RuntimeError('boom-r'), AssertionError('boom-a'), StopIteration('boom-s'),
        ZeroDivisionError('boom-z'), Odd('boom-o'), TypeError('boom-t'), AttributeError('boom-at'), OSError('boom-os')]


def force(ctx):
    r = ctx.rng
    p = Proj(PD, specific=SPEC, force_continue=True)
    h = Rec()
    logger.addHandler(h)
    try:
        for rnd in range(ctx.n(120, 900)):
            fresh_track()
            n = r.choice([1, 1, 2, 3, 4, 5, 6])
            paths = [r.choice(list(ITEMS)) for _ in range(n)]
            fails = {q for q in ITEMS if r.random() < r.choice([0, .3, .6, 1])}
            for q in fails:
                vtrack.RAISE[ITEMS[q]] = r.choice(EXCS)
            falsy = {}
            for q in ITEMS:
                if q not in fails and r.random() < .4:
                    val = r.choice([None, 0, [], False, '', [1], [[]]])
                    falsy[q] = val
                    vtrack.HOOKS[ITEMS[q]] = lambda name, kw, val=val: val
            single = n == 1
            ctx.case('force', paths, sorted(fails))
            h.recs.clear()
            got = p.pm.run(paths[0] if single else list(paths))
            log = list(vtrack.CALLS)
            ctx.eq([c[0] for c in log], [ITEMS[q] for q in paths], 'every path is attempted once, in order', paths=paths, fails=fails)
            want = []
            for i, q in enumerate(paths):
                if q in fails:
                    continue
                if q in falsy:
                    want.append(falsy[q])
                else:
                    nm, kw = log[i] if i < len(log) else (None, {})
                    want.append((nm, i + 1, tuple(sorted((k, repr(v)) for k, v in kw.items()))))
            if single:
                want = [] if paths[0] in fails else want[0]
            ctx.eq(got, want, 'the results of the paths that did not raise, in order', paths=paths, fails=fails)
            errs = [m for lv, m in h.recs if lv >= logging.ERROR]
            text = '\n'.join(errs)
            bad = [q for q in paths if q in fails]
            if not bad:
                ctx.eq(errs, [], 'no error is reported when nothing failed')
            else:
                for q in set(bad):
                    ctx.check(any(q in m for m in errs), 'each failing path is reported', path=q, log=text)
                    ctx.check(str(vtrack.RAISE[ITEMS[q]].args[0]) in text and 'Traceback' in text, 'each failure is reported with its traceback', path=q)
                    cnt = sum(1 for m in errs if f'Error while running {q}:' in m) if 'Error while running' in text else None
                summary = errs[-1]
                for q in set(bad):
                    exc = vtrack.RAISE[ITEMS[q]]
                    ctx.check(q in summary and str(exc.args[0]) in summary, 'the summary names every failing path with its traceback', path=q, summary=summary[:500])
                for q in set(ITEMS) - set(bad):
                    ctx.check(q not in summary.split('\n')[0], 'the summary names only failing paths', path=q, summary=summary[:200])
                # tracebacks belong to the right path
                chunks = summary.split('Error while running ')[1:]
                if chunks:
                    ctx.eq([c.split(':')[0] for c in chunks], bad, 'the summary lists each failure once, in order')
                    for c, q in zip(chunks, bad):
                        ctx.check(str(vtrack.RAISE[ITEMS[q]].args[0]) in c, 'each failing path is reported with its own traceback', path=q)
            ctx.eq(list(context.stack), [], 'the stack is empty after the run')
    finally:
        logger.removeHandler(h)


def fresh_track():
    reset_track()


def sections(ctx):
    p = Proj(PD, specific=SPEC, force_continue=True)
    vtrack.RAISE['f3'] = ValueError('x')
    ctx.case('section fails', 'x')
    got = p.pm.run('x')
    ctx.eq(got, [], 'a single failing path yields an empty list')
    reset_track()
    vtrack.RAISE['f3'] = ValueError('x')
    got = p.pm.run(['x', 'w', 'x.f2'])
    ctx.eq(len(got), 2, 'the other paths still run')
    ctx.eq([c[0] for c in vtrack.CALLS], ['f1', 'f2', 'f3', 'f1', 'noargs', 'f2'], 'paths run in order')
    reset_track()
    got = p.pm.run(['x.nope', 'w.noargs'])
    ctx.eq(len(got), 1, 'a path that cannot be found is a failure like any other')
    ctx.eq([c[0] for c in vtrack.CALLS], ['noargs'], 'a path that cannot be found is a failure like any other')


def interrupts(ctx):
    import bdb
    h = Rec(); logger.addHandler(h)
    try:
        for kw in ({'force_continue': True}, {}, {'auto_pdb': lambda *a, **k: calls_.append((a, k))}):
            for exc in (KeyboardInterrupt('ki'), SystemExit(3), bdb.BdbQuit('q')):
                fresh()
                calls_ = []
                p = Proj(PD, specific=SPEC, **kw)
                vtrack.RAISE['f2'] = exc
                for arg in ('x.f2', ['x.f1', 'x.f2', 'x.f3']):
                    ctx.case('interrupt', sorted(kw), type(exc).__name__, arg)
                    vtrack.CALLS.clear(); h.recs.clear()
                    out = 'returned'
                    try:
                        out = ('returned', p.pm.run(arg))
                    except (KeyboardInterrupt, SystemExit, bdb.BdbQuit) as e:
                        out = 'stopped'
                    except BaseException as e:
                        out = ('raised', e)
                    ctx.eq(out, 'stopped', 'interrupts and exits are never swallowed as ordinary failures', exc=exc, kw=sorted(kw))
                    ctx.check('f3' not in [c[0] for c in vtrack.CALLS], 'nothing runs after an interrupt')
                    ctx.eq(calls_, [], 'the debug callback is for ordinary failures')
                    ctx.eq(list(context.stack), [], 'the stack is empty after an interrupt')
    finally:
        logger.removeHandler(h)


def plain(ctx):
    p = Proj(PD, specific=SPEC)
    for q, nm in ITEMS.items():
        for exc in EXCS:
            for arg in (q, ['w.noargs', q, 'x.f4']):
                reset_track()
                vtrack.RAISE[nm] = exc
                ctx.case('plain', q, type(exc).__name__, isinstance(arg, list))
                try:
                    r = p.pm.run(arg)
                    ctx.fail('the first ordinary exception propagates unchanged', returned=r)
                except type(exc) as e:
                    ctx.check(e is exc, 'the first ordinary exception propagates unchanged', raised=e)
                except BaseException as e:
                    ctx.fail('the first ordinary exception propagates unchanged', raised=e)
                if isinstance(arg, list) and q not in ('w.noargs',):
                    ctx.eq([c[0] for c in vtrack.CALLS], ['noargs', nm], 'nothing runs after the first exception')


def debug(ctx):
    for shape in ('ok', 'raises'):
        for multi in (False, True):
            fresh()
            seen = []

            def cb(*a, **k):
                seen.append((a, k, sys.exc_info()[1]))
                return 'callback result'
            p = Proj(PD, specific=SPEC, auto_pdb=cb)
            exc = ValueError('boom')
            if shape == 'raises':
                vtrack.RAISE['f2'] = exc
            arg = ['x.f1', 'x.f2', 'x.f3'] if multi else 'x.f2'
            ctx.case('debug', shape, multi)
            got = p.pm.run(arg)
            if shape == 'ok':
                ctx.eq(seen, [], 'the callback is not called without a failure')
                ctx.eq(len(got), 3, 'the results are returned')
            else:
                ctx.eq(len(seen), 1, 'the callback is invoked once on failure')
                ctx.eq(got, None, 'no result is returned on failure')
                if seen:
                    ctx.check(seen[0][2] is exc, 'the callback runs while the failure is being handled')
                ctx.check('f3' not in [c[0] for c in vtrack.CALLS], 'nothing runs after the failure')
    import pdb
    real = pdb.post_mortem
    seen = []
    pdb.post_mortem = lambda *a, **k: seen.append((a, k))
    try:
        from pyfileconf.debug import pdb_post_mortem_or_passed_debug_fn as f
        fresh()
        p = Proj(PD, auto_pdb=True)
        vtrack.RAISE['f2'] = ValueError('v')
        ctx.case('debug pdb')
        ctx.eq(p.pm.run('x.f2'), None, 'no result on failure')
        ctx.eq(len(seen), 1, 'the debugger is entered once')
        seen.clear()
        f(ValueError('x'), debug_fn=False)
        ctx.eq(seen, [], 'a false debug function does nothing')
    finally:
        pdb.post_mortem = real
    ctx.raises(ValueError, lambda: PipelineManager(os.path.join(SCRATCH, uniq('q')), name=uniq('n'), auto_pdb=True, force_continue=True),
               'force continue and debugging exclude each other')


def run(ctx):
    ctx.ki_ok = True
    ctx.scenario(force)
    ctx.scenario(sections)
    ctx.scenario(interrupts)
    ctx.scenario(plain)
    ctx.scenario(debug)
