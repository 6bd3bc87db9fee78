"""Bounded stand-in of one property.

    run.py PROP --out FILE        (VERIF_SEED, VERIF_TIER, PYFILECONF_REPO)
"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
out = sys.argv[sys.argv.index('--out') + 1] if '--out' in sys.argv else None
if out:
    out = os.path.abspath(out)
t0 = time.time()
res = {'property': prop}
try:
    import common
except BaseException as e:
    res.update(import_error=traceback.format_exc()[-3000:])
    common = None
if common is not None:
    ctx = common.Ctx(prop, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        mod = importlib.import_module(prop.lower())
        try:
            mod.run(ctx)
        except common.Fail:
            pass
        except BaseException as e:
            ctx.fail(f'checker stopped: {type(e).__name__}: {common.sstr(e)}', error=common.fmt_exc(e)[-3000:])
    finally:
        common.cleanup()
    res.update(fails=ctx.fails, evaluations=ctx.evaluations, distinct=len(ctx.distinct), checks=ctx.checks,
               samples=ctx.samples, wall=round(time.time() - t0, 2))
if out:
    with open(out, 'w') as f:
        json.dump(res, f)
else:
    res.pop("samples", None); sys.__stdout__.write(json.dumps(res, indent=1)[:6000] + "\n")
sys.__stdout__.flush()
os._exit(0)
