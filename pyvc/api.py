"""What contract files import: types, the contract and lemma decorators, and names usable in specifications."""
from .types import (TAny, TStr, TBool, TInt, TConst, TOneOf, TOpt, TNullable, TList, TFixedList, TTuple, TTupleOf,
                    TDict, TSet, TObj, TRef, TEnum, TValObj, TExpr)

REG = []


class Contract:
    def __init__(self, target, props, types, fn, assumed=False, why='', opts=None, kind='contract', use=None):
        self.target, self.props, self.types, self.fn = target, props, types, fn
        self.assumed, self.why, self.opts, self.kind, self.use = assumed, why, opts or {}, kind, use
        self.module = fn.__module__
        self.name = fn.__name__
        self.key = f'{self.module}.{self.name}'


def contract(target, props='', opts=None, use=None, more=None, **types):
    """the decorated function is the specification of `target` (module:qualname)"""
    def deco(fn):
        REG.append(Contract(target, props.split(), {**types, **(more or {})}, fn, opts=opts, use=use))
        return fn
    return deco


def assumed(target, why, opts=None):
    """a contract used at call sites but not verified (trusted); listed in the evidence"""
    def deco(fn):
        REG.append(Contract(target, [], {}, fn, assumed=True, why=why, opts=opts))
        return fn
    return deco


def lemma(props='', opts=None, use=None, **types):
    """a property stated over the contracts: every prove(...) is an obligation"""
    def deco(fn):
        REG.append(Contract(None, props.split(), types, fn, kind='lemma', opts=opts, use=use))
        return fn
    return deco


def _ghost(*a, **k):
    raise RuntimeError('specification-only name')


event = effect = effect_bool = oracle = pure = pure_str = pure_bool = assume = implies = same = lookup = same_map = \
    snapshot = ghost_raise = opaque_call = fresh_obj = requires = prove = query = _ghost
