from common import *
from pyfileconf.pmcontext.stack import PyfileconfStack, PyfileconfFrame
from pyfileconf.pmcontext.actions import PyfileconfActions as A
from pyfileconf.pmcontext.tracing import StackTracker

PD = {'x': ['f1', 'f2', 'f3'], 'g': ['K1', 'f4', 'noargs']}
SPEC = [{'name': 'kk', 'cls': 'SK', 'dict': {'s': ['na', 'nb']}, 'extra': {'execute_attr': 'go'}}]


class Boom(Exception):
    pass


def view(stack):
    return [(f.section_path.path_str, f.action, f.file_path) for f in stack.frames]


def model_check(ctx, stack, model):
    ctx.eq(view(stack), model, 'frames are as pushed')
    ctx.eq([(f.section_path.path_str, f.action, f.file_path) for f in stack], model, 'iteration is outermost first')
    runs = [m[0] for m in model if m[1] == A.RUN]
    loads = [m[0] for m in model if m[1] == A.LOAD_FILE_EXECUTE]
    ctx.eq(stack.currently_running_section_path_str, runs[-1] if runs else None, 'the running item is the innermost running frame')
    ctx.check(stack.file_is_currently_being_loaded is bool(loads), 'a file is being loaded exactly when an executing load is on the stack')
    sp = stack.currently_loading_file_section_path
    ctx.eq(sp.path_str if sp is not None else None, loads[-1] if loads else None, 'the loading item is the innermost executing load')
    if model:
        ctx.eq(stack[-1].section_path.path_str, model[-1][0], 'the last frame is the innermost')


def direct(ctx):
    r = ctx.rng
    for k in range(ctx.n(80, 800)):
        n0 = r.randint(0, 2)
        given = [PyfileconfFrame(f'p{i}.q', r.choice(list(A))) for i in range(n0)]
        s = PyfileconfStack(given)
        model = view(s)
        ctx.eq(len(model), n0, 'initial frames are kept')
        for _ in range(r.randint(1, 12)):
            op = r.choice(['push', 'push', 'run', 'pop'])
            if op == 'push':
                f = PyfileconfFrame(r.choice(['a.b', 'a', 'c.d.e']), r.choice(list(A)), file_path=r.choice([None, '/q/w.py']))
                s.add_frame(f)
                model.append((f.section_path.path_str, f.action, f.file_path))
                ctx.check(s[-1] is f, 'the pushed frame is the last')
            elif op == 'run':
                s.add_running_item('z.y')
                model.append(('z.y', A.RUN, None))
            elif model:
                top = s[-1]
                ctx.check(s.pop_frame() is top, 'popping gives the innermost frame')
                model.pop()
            ctx.case(k, op, [(a, b.value) for a, b, _ in model])
            model_check(ctx, s, model)
        ctx.eq(len(given), n0, 'the sequence given is not shared')


def trackers(ctx):
    r = ctx.rng
    p = Proj(PD, name='one', specific=SPEC)
    fpath = p.cfg('x.f1')
    excs = [None, Boom, KeyboardInterrupt, SystemExit, RecursionError, GeneratorExit]

    def nest(depth, model):
        model_check(ctx, context.stack, model)
        ctx.eq(context.currently_running_section_path_str, context.stack.currently_running_section_path_str, 'context agrees with its stack')
        ctx.eq(context.file_is_currently_being_loaded, context.stack.file_is_currently_being_loaded, 'context agrees with its stack')
        if not depth:
            return
        for _ in range(r.randint(1, 2)):
            exc = r.choice(excs)
            kind = r.choice(['sp', 'base', 'file'])
            act = r.choice(list(A))
            if kind == 'sp':
                t, fr = StackTracker('q.w', action=act), ('q.w', act, None)
            elif kind == 'base':
                t, fr = StackTracker('q.w', action=act, base_section_path_str='one'), ('one.q.w', act, None)
            else:
                t, fr = StackTracker(file_path=fpath, action=act), ('one.x.f1', act, fpath)
            ctx.case('tracker', kind, act.value, exc, len(model))
            ctx.eq(view(context.stack), model, 'building a tracker pushes nothing')
            raised = None
            try:
                with t:
                    nest(depth - 1, model + [fr])
                    if exc is not None:
                        raise exc('q')
            except BaseException as e:
                raised = e
            ctx.check((type(raised) is exc) if exc else raised is None, 'exceptions pass through', got=raised, expected=exc)
            model_check(ctx, context.stack, model)
    for k in range(ctx.n(20, 150)):
        nest(3, [])
    ctx.raises(ValueError, lambda: StackTracker(), 'a tracker needs a path')

    def bad():
        with StackTracker(file_path='/nowhere/at/all.py', action=A.LOAD_FILE_EXECUTE):
            pass
    ctx.raises(Exception, bad, 'a file of no manager raises')
    ctx.eq(view(context.stack), [], 'an action which cannot start leaves no frame')


def running(ctx):
    """real runs: nested runs, gets and file loads, any of them raising"""
    r = ctx.rng
    cfgs = {f'x/{f}.py': f"import vtrack\nq = vtrack.call('load:x.{f}')\n\na = 3\n" for f in ('f1', 'f2', 'f3')}
    cfgs['kk/s/na.py'] = "import vtrack\nq = vtrack.call('load:kk.s.na')\n\na = 1\nb = 2\n"
    items = ['x.f1', 'x.f2', 'x.f3', 'g.K1', 'g.f4', 'g.noargs', 'kk.s.na', 'kk.s.nb']
    name = {'kk.s.na': 'SK.go', 'kk.s.nb': 'SK.go'}
    for k in range(ctx.n(40, 300)):
        fresh()
        m = uniq('man')
        p = Proj(PD, name=m, specific=SPEC, configs=cfgs)
        model = []
        budget = [r.randint(1, 12)]
        raising = r.random() < .6
        log = []

        def handler(nm, kw):
            if nm.startswith('load:'):
                log.append(nm)
                q = nm[5:]
                mm = model + [(f'{m}.{q}', A.LOAD_FILE_EXECUTE, p.cfg(q))]
                got = view(context.stack)
                ctx.eq([(a, b, os.path.abspath(c) if c else c) for a, b, c in got], mm, 'a frame is on the stack while its file is loaded', q=q)
                ctx.check(context.file_is_currently_being_loaded, 'a file being loaded is reported')
                ctx.eq(context.stack.currently_loading_file_section_path.path_str, f'{m}.{q}', 'the innermost loading file is reported')
                if raising and r.random() < .1:
                    raise Boom('load')
                return 1
            model_check(ctx, context.stack, model)
            for _ in range(r.randint(0, 2)):
                if budget[0] <= 0:
                    break
                budget[0] -= 1
                q = r.choice(items)
                how = r.choice(['run', 'get', 'refresh', 'reset'])
                do(q, how)
                model_check(ctx, context.stack, model)
            if raising and r.random() < .3:
                raise r.choice([Boom, KeyboardInterrupt, SystemExit])('run')
            return 1

        def do(q, how, top=False):
            log.append((how, q))
            if how == 'run':
                model.append((f'{m}.{q}', A.RUN, None))
            try:
                getattr(p.pm, how)(q)
            except (Boom, KeyboardInterrupt, SystemExit):
                if not top and r.random() < .5:
                    if how == 'run':
                        model.pop()
                        how = None
                    raise
            finally:
                if how == 'run':
                    model.pop()
        for nm in ['f1', 'f2', 'f3', 'K1', 'f4', 'noargs', 'SK.go'] + ['load:x.f1', 'load:x.f2', 'load:x.f3', 'load:kk.s.na']:
            vtrack.HOOKS[nm] = handler
        for _ in range(3):
            q = r.choice(items + ['x', 'g', 'kk.s'])
            if q in ('x', 'g', 'kk.s'):
                vt = dict(vtrack.HOOKS)
                vtrack.HOOKS.clear()
                try:
                    p.pm.run(q)
                except BaseException:
                    pass
                vtrack.HOOKS.update(vt)
            else:
                do(q, r.choice(['run', 'get']), top=True)
            ctx.case('running', k, log)
            ctx.eq(view(context.stack), [], 'the stack is balanced after every action', log=log)
            ctx.check(not context.file_is_currently_being_loaded and context.currently_running_section_path_str is None, 'nothing is reported outside of actions')


def propagation(ctx):
    p = Proj(PD, name='one', specific=SPEC, configs={'x/f2.py': "import vtrack\nq = vtrack.call('load')\n\na = 3\n"})
    for exc in (Boom('x'), KeyboardInterrupt(), SystemExit(3), GeneratorExit()):
        for q, nm in (('x.f1', 'f1'), ('g.K1', 'K1'), ('kk.s.na', 'SK.go'), ('x.f2', 'load')):
            vtrack.RAISE.clear()
            vtrack.RAISE[nm] = exc
            ctx.case('raise', type(exc).__name__, q)
            got = ctx.raises(type(exc), lambda: p.pm.run(q), 'the exception of an action is not swallowed')
            ctx.check(got is exc, 'the very exception propagates')
            ctx.eq(view(context.stack), [], 'the stack is balanced after an exception')


def section(ctx):
    p = Proj(PD, name='one', specific=SPEC)
    for sec in ('x', 'g', 'kk.s'):
        seen = []
        vtrack.HOOKS.update({n: (lambda nm, kw: seen.append(view(context.stack))) for n in ('f1', 'f2', 'f3', 'K1', 'f4', 'noargs', 'SK.go')})
        ctx.case('section', sec)
        p.pm.run(sec)
        mem = {'x': ['x.f1', 'x.f2', 'x.f3'], 'g': ['g.K1', 'g.f4', 'g.noargs'], 'kk.s': ['kk.s.na', 'kk.s.nb']}[sec]
        ctx.eq(seen, [[(f'one.{q}', A.RUN, None)] for q in mem], 'each member of a section runs in its own frame')


def run(ctx):
    ctx.ki_ok = False
    for f in (direct, trackers, running, propagation, section):
        ctx.scenario(f)
