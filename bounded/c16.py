import io
from common import *

SRC = '''
import sys
import vtrack

def pr(chunks=()):
    for c in chunks:
        sys.stdout.write(c)
    return vtrack.call('pr', chunks=chunks)

def prn(lines=()):
    for l in lines:
        print(l)
    return vtrack.call('prn', lines=lines)

def bad(chunks=(), exc=None):
    for c in chunks:
        sys.stdout.write(c)
    vtrack.call('bad')
    raise exc

def nest(chunks=(), deep=None):
    sys.stdout.write(chunks[0] if chunks else 'n0')
    r = deep() if deep is not None else None
    sys.stdout.write('after')
    sys.stdout.flush()
    return vtrack.call('nest', r=r)

class P:
    def __init__(self, chunks=()):
        self.chunks = chunks
    def __call__(self):
        for c in self.chunks:
            sys.stdout.write(c)
        return vtrack.call('P', chunks=self.chunks)
'''


class Rec(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelno, record.getMessage()))


class Stream(io.StringIO):
    pass


def run_modes(ctx):
    p = Proj({'x': ['pr', 'prn', 'bad', 'nest', 'P']}, mod_src=SRC)
    lg = logging.getLogger('pyfileconf')
    r = ctx.rng
    pool = ['a', 'b c', '\n', 'x\ny', '', ' ', '100%', '%s', '{}', 'é', '\t', 'line\n', '\n\n']
    rec = Rec()
    lg.addHandler(rec)
    try:
        for i in range(ctx.n(160, 1500)):
            which = r.choice(['pr', 'prn', 'bad', 'nest', 'P', 'section'])
            chunks = tuple(r.choice(pool) for _ in range(r.randint(0, 4)))
            exc = r.choice([ValueError('v'), KeyError('k'), RuntimeError('r'), SystemExit(2)])
            nested = r.choice([None, 'run', 'raise', 'with'])
            stream = Stream()
            for log in r.choice([(True, False), (False, True), (True, True, False)]):
                ctx.case('run', which, chunks, type(exc).__name__, nested, log)
                p.pm.reset('x.pr'); p.pm.reset('x.prn'); p.pm.reset('x.bad'); p.pm.reset('x.nest'); p.pm.reset('x.P')
                vtrack.CALLS.clear()
                options.log_stdout = log
                item = 'x.' + which
                want = []
                if which == 'prn':
                    p.pm.update({'lines': chunks}, item)
                    for c in chunks:
                        want += [c, '\n']
                elif which == 'bad':
                    p.pm.update({'chunks': chunks, 'exc': exc}, item)
                    want = list(chunks)
                elif which == 'nest':
                    p.pm.update({'chunks': ('inner',)}, 'x.pr')
                    p.pm.update({'chunks': ('innerbad',), 'exc': ValueError('in')}, 'x.bad')

                    def deep():
                        cur = sys.stdout
                        if nested == 'run':
                            p.pm.run('x.pr')
                        elif nested == 'raise':
                            try:
                                p.pm.run('x.bad')
                            except ValueError:
                                pass
                        elif nested == 'with':
                            sys.stdout.write('dir')
                        if sys.stdout is not cur:
                            ctx.fail('a nested run restores the stream it found')
                        return 1
                    p.pm.update({'chunks': chunks, 'deep': deep}, item)
                    want = [chunks[0] if chunks else 'n0'] + {'run': ['inner'], 'raise': ['innerbad'], 'with': ['dir'], None: []}[nested] + ['after']
                elif which == 'section':
                    item = r.choice(['x', 'list'])
                    p.pm.update({'chunks': chunks}, 'x.pr')
                    if item == 'x':
                        item = ['x.pr', 'x.P', 'x.prn']
                    else:
                        item = ['x.prn', 'x.pr']
                    p.pm.update({'chunks': ('P1',)}, 'x.P')
                    p.pm.update({'lines': ('L',)}, 'x.prn')
                    parts = {'x.pr': list(chunks), 'x.P': ['P1'], 'x.prn': ['L', '\n']}
                    want = sum((parts[k] for k in item), [])
                else:
                    p.pm.update({'chunks': chunks}, item)
                    want = list(chunks)
                sys.stdout = stream
                rec.got.clear()
                stream.seek(0); stream.truncate()
                raised = result = None
                try:
                    result = p.pm.run(item)
                except BaseException as e:
                    raised = e
                after = sys.stdout
                sys.stdout = STDOUT
                options.log_stdout = False
                ctx.check(after is stream, 'after the run stdout is the stream it was before', mode=log, raised=raised)
                if which == 'bad':
                    ctx.check(raised is exc, 'the exception of the run propagates', got=raised, expected_exc=exc, mode=log)
                else:
                    ctx.check(raised is None, 'the run returns', got=raised, mode=log)
                    if isinstance(item, str):
                        ctx.check(isinstance(result, tuple) and result[0] == which, 'the result of the run is returned', got=result)
                    else:
                        ctx.check(isinstance(result, list) and [x[0] for x in result] == [k[2:] for k in item], 'the results of the run are returned', got=result)
                msgs = [m for l, m in rec.got]
                known = ('Running', 'Finished', 'Refreshing', 'Resetting', 'Updating', 'Setting', 'Getting', 'Result', 'Creating', 'Done', 'Starting', 'Loading')
                own = [m for m in msgs if not m.startswith(known)]
                if log:
                    ctx.eq(stream.getvalue(), '', 'nothing goes to the stream when stdout is logged')
                    ctx.eq(own, [c for c in want if c != '\n'], 'each chunk which is no newline is logged once and in order', item=item)
                else:
                    ctx.eq(stream.getvalue(), ''.join(want), 'stdout is not touched with the option off', item=item)
                    ctx.eq(own, [], 'nothing printed is logged with the option off')
    finally:
        lg.removeHandler(rec)
        sys.stdout = STDOUT
        options.log_stdout = False


def bind(ctx):
    from pyfileconf.logger.bind_stdout import stdout_also_logged
    r = ctx.rng
    for i in range(ctx.n(60, 400)):
        depth = r.randint(1, 4)
        raise_at = r.choice([None] + list(range(depth)))
        ctx.case('nested capture', depth, raise_at)
        streams = []

        def go(k):
            before = sys.stdout
            try:
                with stdout_also_logged():
                    ctx.check(sys.stdout is not before, 'captured')
                    if k + 1 < depth:
                        go(k + 1)
                    if raise_at == k:
                        raise ValueError(k)
            finally:
                ctx.check(sys.stdout is before, 'each capture restores the stream it found', depth=k, raise_at=raise_at)
        s = Stream()
        sys.stdout = s
        try:
            go(0)
            ctx.check(raise_at is None, 'an exception in the block propagates')
        except ValueError as e:
            ctx.check(e.args == (raise_at,), 'the exception is the one raised')
        finally:
            ctx.check(sys.stdout is s, 'stdout is the stream it was before')
            sys.stdout = STDOUT


def run(ctx):
    lg = logging.getLogger('pyfileconf')
    ctx.scenario(run_modes)
    ctx.scenario(bind)
    options.reset()
