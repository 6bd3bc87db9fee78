"""Contracts on pyfileconf.config.logic.apply and FunctionConfig.for_function (C05, C14): which values reach an object."""
from pyvc.api import *
if False:
    from functools import partial
    from pyfileconf.config.logic.apply import _get_update_func, apply_config_to_obj, apply_config_to_partial
    from pyfileconf.imports.logic.load.func import function_args_as_dict

A = 'pyfileconf.config.logic.apply:'
ARGS = TDict()
ANYD = TDict()
PARTIAL = TObj('functools.partial', func=TAny(), args=TAny(), keywords=TDict())


@assumed('pyfileconf.imports.logic.load.func:function_args_as_dict', 'the argument names of a callable with their defaults (C14)', opts={'alt': True})
def args_of(func):
    return query('arguments of', func, ty=ARGS)


@contract(A + 'apply_config_to_partial', 'C05', part=PARTIAL, config=ANYD)
def to_partial(part, config):
    """exactly the keywords that the function already has get the values of the config"""
    for k, v in config.items():
        if k in part.keywords:
            part.keywords[k] = v


@contract(A + 'apply_config_to_obj', 'C05', use=['args_of'], obj=TAny(), config=ANYD)
def to_obj(obj, config):
    """the object is initialised again in place with the values that its class accepts"""
    accepted = function_args_as_dict(obj.__init__)
    values = {k: v for k, v in config.items() if k in accepted}
    _get_update_func(obj)(**values)


@assumed(A + 'apply_config_to_obj', 'verified as to_obj', opts={'alt': True})
def obj_applied(obj, config):
    effect('apply to object', obj, config)


@assumed(A + 'apply_config_to_partial', 'verified as to_partial', opts={'alt': True})
def partial_applied(part, config):
    effect('apply to function', part, config)


@contract(A + 'apply_config', 'C05', use=['obj_applied', 'partial_applied'], obj=TAny(), config=ANYD)
def apply_config(obj, config):
    if isinstance(obj, partial):
        apply_config_to_partial(obj, config)
    else:
        apply_config_to_obj(obj, config)


FC = TObj('pyfileconf.pipelines.models.config:FunctionConfig', TDict())


@contract('pyfileconf.pipelines.models.config:FunctionConfig.for_function', 'C05 C14', use=['args_of'], self=FC, func=TAny())
def for_function(self, func):
    """exactly the values of arguments that the function accepts"""
    accepted = function_args_as_dict(func)
    return {k: v for k, v in self.items() if k in accepted}
