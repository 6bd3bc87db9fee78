"""A value-level model of item configs used as oracle by several checkers."""
from common import *

MISSING = object()


def veq(a, b):
    import pandas as pd
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b)
    if isinstance(b, (pd.DataFrame, pd.Series)):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def dict_eq(ctx, got, want, label, **detail):
    """same keys, and identical or equal values"""
    ctx.checks += 1
    ok = set(got) == set(want)
    if ok:
        for k in want:
            if got[k] is want[k]:
                continue
            if type(got[k]) is not type(want[k]) or not veq(got[k], want[k]):
                ok = False
    if not ok:
        ctx.fail(label, got=got, expected=want, **detail)
    return ok


class BadEq:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        raise RuntimeError('cannot compare')

    __hash__ = None

    def __repr__(self):
        return f'BadEq({self.n})'


def value_pool():
    import pandas as pd, numpy as np
    return [1, 2, 0, None, 'x', '', [1], [], {'a': 1}, (1, 2), 4.5, True, False, 'f', 10 ** 20, float('inf'),
            pd.DataFrame({'a': [1, 2]}), pd.DataFrame({'a': [1, 3]}), pd.Series([1, 2]), np.array([1, 2]), BadEq(1)]
