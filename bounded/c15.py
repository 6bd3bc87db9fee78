from common import *
from logging.handlers import TimedRotatingFileHandler

NAMES = ['log_stdout', 'log_folder', 'log_file_rollover_freq', 'log_file_num_keep']
DEF = {'log_stdout': False, 'log_folder': None, 'log_file_rollover_freq': 'D', 'log_file_num_keep': 0}


class Boom(Exception):
    pass


def drive(ctx):
    from pyfileconf.opts import options as raw
    lg = logging.getLogger('pyfileconf')
    r = ctx.rng
    folders = [os.path.join(SCRATCH, 'logs', x) for x in ('one', 'two', 'deep/three')]
    values = {'log_stdout': [True, False], 'log_folder': folders + [None, None], 'log_file_rollover_freq': ['D', 'H', 'midnight'],
              'log_file_num_keep': [0, 1, 5]}
    count = [0]

    def state():
        return {n: getattr(options, n).value for n in NAMES}

    def expect(model, what):
        ctx.eq(state(), model, 'exactly the named options changed', step=what)
        ctx.eq({n: getattr(raw, n) for n in NAMES}, model, 'the options in effect agree', step=what)
        hs = [h for h in lg.handlers if isinstance(h, TimedRotatingFileHandler)]
        if model['log_folder'] is None:
            ctx.eq(hs, [], 'no file handler without a log folder', step=what)
        else:
            ctx.eq(len(hs), 1, 'exactly one file handler with a log folder', step=what)
            if len(hs) == 1:
                want = os.path.join(os.path.abspath(model['log_folder']), 'pyfileconf.log')
                ctx.eq(os.path.dirname(hs[0].baseFilename), os.path.abspath(model['log_folder']), 'it writes into the configured folder', step=what)
                count[0] += 1
                msg = f'message {count[0]}'
                others = {f: read(os.path.join(f, 'pyfileconf.log')) if os.path.exists(os.path.join(f, 'pyfileconf.log')) else None
                          for f in folders if f != model['log_folder']}
                lg.info(msg)
                ctx.eq(read(want).count(msg + '\n'), 1, 'a message is written once into the configured folder', step=what)
                ctx.eq({f: read(os.path.join(f, 'pyfileconf.log')) if os.path.exists(os.path.join(f, 'pyfileconf.log')) else None
                        for f in others}, others, 'nothing is written elsewhere', step=what)
        ctx.check(all(isinstance(getattr(options, n), type(options._options[0])) for n in NAMES), 'options stay options', step=what)
        ctx.eq({n: getattr(options, n).default_value for n in NAMES}, DEF, 'defaults do not change', step=what)

    def step(model, depth):
        op = r.choice(['set', 'sets', 'attr', 'val', 'reset1', 'resetn', 'resetall', 'resetopt', 'with', 'withset', 'raise', 'bad'])
        n = r.choice(NAMES)
        v = r.choice(values[n])
        ctx.case(op, n, v if not isinstance(v, str) else os.path.basename(v), tuple(sorted((k, str(x)[-6:]) for k, x in model.items())), depth)
        if op == 'set':
            options.set_option(n, v); model[n] = v
        elif op == 'sets':
            ups = [(k, r.choice(values[k])) for k in r.sample(NAMES, r.randint(0, 4))]
            options.set_options(ups if r.random() < .5 else iter(ups)); model.update(ups)
        elif op == 'attr':
            setattr(options, n, v); model[n] = v
        elif op == 'val':
            getattr(options, n).value = v; model[n] = v
        elif op == 'reset1':
            options.reset_option(n); model[n] = DEF[n]
        elif op == 'resetopt':
            getattr(options, n).reset(); model[n] = DEF[n]
        elif op == 'resetn':
            ks = r.sample(NAMES, r.randint(0, 4))
            options.reset_options(ks if r.random() < .5 else iter(ks))
            for k in ks:
                model[k] = DEF[k]
        elif op == 'resetall':
            options.reset(); model.update(DEF)
        elif op == 'bad':
            try:
                options.set_option('no_such_option', 1)
                ctx.fail('an unknown option is refused')
            except AttributeError:
                pass
        elif op in ('with', 'withset') and depth < 2:
            mgr = options if op == 'with' else options.set_option(n, v)
            if op == 'withset':
                model[n] = v
            with mgr as inner:
                ctx.check(inner is options, 'the context manager gives the options')
                expect(model, 'entering')
                for _ in range(r.randint(0, 3)):
                    step(model, depth + 1)
            model.update(DEF)
        elif op == 'raise':
            e = r.choice([Boom('b'), KeyboardInterrupt(), SystemExit(3), ValueError('v')])
            try:
                with options.set_options([(n, v)]):
                    options.log_stdout = True
                    raise e
                ctx.fail('the exception of the block is swallowed', exc=e)
            except BaseException as got:
                ctx.check(got is e, 'the exception of the block propagates', got=got, want=e)
            model.update(DEF)
        expect(model, op)

    for i in range(ctx.n(40, 500)):
        options.reset()
        model = dict(DEF)
        expect(model, 'start')
        for _ in range(r.randint(1, 12)):
            step(model, 0)
    options.reset()


def with_runs(ctx):
    """log folder given to the options while running; files only there"""
    p = Proj({'x': ['f1']})
    folder = os.path.join(SCRATCH, 'runlogs')
    for i in range(3):
        ctx.case('run with log folder', i)
        with options.set_option('log_folder', folder):
            p.pm.run('x.f1')
        text = read(os.path.join(folder, 'pyfileconf.log'))
        n = text.count('\n')
        p.pm.run('x.f1')
        ctx.eq(read(os.path.join(folder, 'pyfileconf.log')).count('\n'), n, 'nothing is logged into the folder after the block')
        ctx.check(n > 0, 'the run is logged')


class Odd:
    """equal to everything / nothing, true or false"""
    def __init__(self, eq, true):
        self.eq, self.true = eq, true

    def __eq__(self, other):
        return self.eq

    def __ne__(self, other):
        return not self.eq

    def __bool__(self):
        return self.true

    def __repr__(self):
        return f'Odd({self.eq}, {self.true})'


def any_values(ctx):
    """options without a log folder: the very values given, also values which are false, or equal to the one before or to the default"""
    from pyfileconf.opts import options as raw
    r = ctx.rng
    names = [n for n in NAMES if n != 'log_folder']
    pool = ['', 'D', 'H', 0, 0.0, False, None, 1, True, 1.0, [], 'x', Odd(True, True), Odd(True, False), Odd(False, False)]

    def expect(model, what):
        for n in NAMES:
            got = getattr(options, n).value
            ctx.check(got is model[n], 'an option has the very value it was given', step=what, option=n, got=got, want=model[n], got_type=type(got))
            ctx.check(getattr(raw, n) is model[n], 'the option in effect is the very value given', step=what, option=n)

    for i in range(ctx.n(150, 3000)):
        options.reset()
        model = dict(DEF)
        trace = []
        for _ in range(r.randint(1, 8)):
            op = r.choice(['set', 'sets', 'attr', 'val', 'reset1', 'resetn', 'resetall', 'resetopt', 'with', 'withsets'])
            n, v = r.choice(names), r.choice(pool)
            ks = r.sample(names, r.randint(0, 3))
            ups = [(k, r.choice(pool)) for k in ks]
            trace.append((op, n, v, ups))
            if op == 'set':
                options.set_option(n, v); model[n] = v
            elif op == 'sets':
                options.set_options(ups); model.update(ups)
            elif op == 'attr':
                setattr(options, n, v); model[n] = v
            elif op == 'val':
                getattr(options, n).value = v; model[n] = v
            elif op == 'reset1':
                options.reset_option(n); model[n] = DEF[n]
            elif op == 'resetopt':
                getattr(options, n).reset(); model[n] = DEF[n]
            elif op == 'resetn':
                options.reset_options(ks); model.update({k: DEF[k] for k in ks})
            elif op == 'resetall':
                options.reset(); model.update(DEF)
            else:
                with (options.set_options(ups) if op == 'withsets' else options.set_option(n, v)):
                    if op == 'withsets':
                        model.update(ups)
                    else:
                        model[n] = v
                    expect(model, trace)
                    k, w = r.choice(names), r.choice(pool)
                    setattr(options, k, w)
                    model[k] = w
                    expect(model, trace)
                model.update(DEF)
            expect(model, trace)
        ctx.case('values', repr(trace))
    options.reset()


def run(ctx):
    from pyfileconf.opts import options_interface
    lg = logging.getLogger('pyfileconf')
    ctx.scenario(drive)
    ctx.scenario(any_values)
    ctx.scenario(with_runs)
    options.reset()
