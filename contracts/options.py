"""Contracts on pyfileconf.opts and pyfileconf.logger (C15, C16)."""
from pyvc.api import *
if False:
    import sys
    from pyfileconf.opts import PyfileconfOptions, PyfileconfOption, PyfileconfOptionsManager

O = 'pyfileconf.opts:'
NAMES = ('log_stdout', 'log_folder', 'log_file_rollover_freq', 'log_file_num_keep')
VALUES = dict(log_stdout=TAny(), log_folder=TAny(), log_file_rollover_freq=TAny(), log_file_num_keep=TAny())
OPTS = TObj(O + 'PyfileconfOptions', **VALUES)
NAME = TOneOf(*[TConst(n) for n in NAMES])
OPTION = TObj(O + 'PyfileconfOption', name=NAME, callback=TOneOf(None, TRef('function', callable=True)))
MANAGER = TObj(O + 'PyfileconfOptionsManager', **{n: TObj(O + 'PyfileconfOption', name=TConst(n), callback=TConst(None) if n != 'log_folder' else TRef('function', callable=True)) for n in NAMES})
G = {'globals': {'pyfileconf.opts:options': 'options__', 'pyfileconf.opts:DEFAULT_OPTIONS': 'defaults__'}}
ENV = dict(options__=OPTS, defaults__=OPTS)


@contract(O + 'PyfileconfOptions.update', 'C15', self=OPTS, more={'opts': OPTS})
def update(self, opts):
    self.log_stdout = opts.log_stdout
    self.log_folder = opts.log_folder
    self.log_file_rollover_freq = opts.log_file_rollover_freq
    self.log_file_num_keep = opts.log_file_num_keep


@contract(O + 'PyfileconfOption.value', 'C15', opts=G, self=OPTION, **ENV)
def value(self):
    return getattr(options, self.name)


@contract(O + 'PyfileconfOption.default_value', 'C15', opts=G, self=OPTION, **ENV)
def default_value(self):
    return getattr(DEFAULT_OPTIONS, self.name)


@contract(O + 'PyfileconfOption.reset', 'C15', opts=G, self=OPTION, **ENV)
def reset(self):
    """the default value, as if it was set"""
    self.value = getattr(DEFAULT_OPTIONS, self.name)


@contract(O + 'PyfileconfOption.value!set', 'C15', opts=G, self=OPTION, val=TAny(), **ENV)
def set_value(self, val):
    """exactly this option gets the value; its callback runs after that, exactly when the value is another one"""
    old = getattr(options, self.name)
    setattr(options, self.name, val)
    if self.callback is not None and old != val:
        effect('call', self.callback, self.name, val)


@contract(O + 'PyfileconfOption.__init__', 'C15', self=TObj(O + 'PyfileconfOption'), name=TOneOf(*[TConst(n) for n in NAMES if n != 'log_folder']), callback=TOneOf(None, TRef('function', callable=True)))
def option_init(self, name, callback=None):
    self.name = name
    self.callback = callback


# ---- the manager of all options
def by_name(ex, st, env):
    return st


REF = TRef(O + 'PyfileconfOption', name=TStr(), callback=TAny())
BYNAME = {'getattr': {O + 'PyfileconfOptionsManager': REF}}


@assumed(O + 'PyfileconfOption.value!set', 'verified as set_value', opts={'alt': True})
def setting(self, val):
    effect('set option', self, val)


@assumed(O + 'PyfileconfOption.reset', 'verified as reset', opts={'alt': True})
def resetting(self):
    effect('reset option', self)


STEPS = ['setting', 'resetting']
SELF = TObj(O + 'PyfileconfOptionsManager', **{n: REF for n in NAMES})


@contract(O + 'PyfileconfOptionsManager.set_option', 'C15', use=STEPS, opts=BYNAME, self=SELF, attr=TOneOf(TStr(), NAME), value=TAny())
def set_option(self, attr, value):
    """exactly the named option is set"""
    getattr(self, attr).value = value
    return self


@contract(O + 'PyfileconfOptionsManager.set_options', 'C15', use=STEPS, opts=BYNAME, self=SELF, updates=TList(TTuple(TStr(), TAny())))
def set_options(self, updates):
    """every named option is set, in order"""
    for name, value in updates:
        getattr(self, name).value = value
    return self


@contract(O + 'PyfileconfOptionsManager.reset_option', 'C15', use=STEPS, opts=BYNAME, self=SELF, attr=TOneOf(TStr(), NAME))
def reset_option(self, attr):
    getattr(self, attr).reset()


@contract(O + 'PyfileconfOptionsManager.reset_options', 'C15', use=STEPS, opts=BYNAME, self=SELF, attrs=TList(TStr()))
def reset_options(self, attrs):
    for name in attrs:
        getattr(self, name).reset()


@contract(O + 'PyfileconfOptionsManager.reset', 'C15', use=STEPS, opts=G, self=SELF, **ENV)
def reset_all(self):
    """every option, once"""
    self.log_stdout.reset()
    self.log_folder.reset()
    self.log_file_rollover_freq.reset()
    self.log_file_num_keep.reset()


@contract(O + 'PyfileconfOptionsManager.__enter__', 'C15', self=SELF)
def enter(self):
    return self


@contract(O + 'PyfileconfOptionsManager.__exit__', 'C15', use=STEPS, opts=G, self=SELF, exc_type=TAny(), exc_val=TAny(), exc_tb=TAny(), **ENV)
def leave(self, exc_type, exc_val, exc_tb):
    """all options are reset, and an exception of the block is not swallowed"""
    self.reset()
    return None


@contract(O + 'PyfileconfOptionsManager.__setattr__', 'C15', use=STEPS, opts=G, self=SELF, attr=NAME, value=TAny(), **ENV)
def set_by_attribute(self, attr, value):
    """assigning to the attribute of an option sets its value"""
    requires(not isinstance(value, PyfileconfOption))
    getattr(self, attr).value = value


# ---- the handler that writes the log file
L = 'pyfileconf.logger.logger:'
LOGGER = TObj('ext:Logger', handlers=TList(TRef('ext:Handler')))
LG = {'globals': {L + 'logger': 'logger__', 'pyfileconf.opts:options': 'options__'}}
LENV = dict(logger__=LOGGER, options__=OPTS.but(log_folder=TOneOf(None, TStr())))


@contract(L + 'has_file_handler', 'C15', opts=LG, **LENV)
def has_file_handler():
    return any(isinstance(h, TimedRotatingFileHandler) for h in logger.handlers)


@contract(L + 'remove_file_handler', 'C15', opts=LG, **LENV)
def remove_file_handler():
    """the only handler that writes the log file is closed and taken off, all others stay in order"""
    timed = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
    if len(timed) != 1:
        raise ValueError
    first = timed[0]
    first.close()
    logger.handlers = [h for h in logger.handlers if h is not timed[0]]


@contract(L + 'add_file_handler', 'C15', opts=LG, **LENV)
def add_file_handler():
    """one more handler, that writes into the configured folder, which is created if it is missing"""
    from pyfileconf.opts import options
    if options.log_folder is None:
        raise ValueError
    if not os.path.exists(options.log_folder):
        os.makedirs(options.log_folder)
    handler = TimedRotatingFileHandler(os.path.join(options.log_folder, 'pyfileconf.log'), when=options.log_file_rollover_freq,
                                       backupCount=options.log_file_num_keep)
    logger.handlers.append(handler)


@assumed(L + 'has_file_handler', 'verified as has_file_handler', opts={'alt': True})
def has():
    return pure_bool('has handler', logger.handlers)


@contract('pyfileconf.opts.filelog:add_file_handler_if_log_folder_exists_else_remove_handler', 'C15', opts=LG, attr_name=TStr(),
          log_folder=TOneOf(None, TStr()), **LENV)
def follow(attr_name, log_folder):
    """when the folder changes, the handler for the former one is removed and, if there is a new one, a handler for it is added"""
    from pyfileconf.logger.logger import add_file_handler, has_file_handler, remove_file_handler
    if log_folder is None:
        remove_file_handler()
    else:
        if has_file_handler():
            remove_file_handler()
        add_file_handler()


# ---- C16
S = 'pyfileconf.logger.bind_stdout:StdoutLogger'
SYS = TObj('module:sys', stdout=TAny())


@contract(S + '.__init__', 'C16', opts={'globals': {'sys': 'sys__'}}, self=TObj(S), sys__=SYS)
def stdout_init(self):
    """the stream that it stands for"""
    self.terminal = sys.stdout


@contract(S + '.write', 'C16', opts={'log_events': True}, self=TObj(S, terminal=TAny()), message=TStr())
def stdout_write(self, message):
    """every chunk but a newline is logged once, the stream itself is not written"""
    if message != '\n':
        logger.info(message)


@contract(S + '.flush', 'C16', self=TObj(S, terminal=TAny()))
def stdout_flush(self):
    return None


@lemma('C16', opts={'globals': {'sys': 'sys__'}}, sys__=SYS)
def stdout_is_restored():
    """whether the block returns or raises, the standard output is the very stream that it was, and the exception is not swallowed"""
    from pyfileconf.logger.bind_stdout import stdout_also_logged
    before = sys.stdout
    raised = False
    try:
        with stdout_also_logged() as out:
            prove(sys.stdout is out, 'replaced inside the block')
            prove(out.terminal is before, 'the former stream is kept')
            try:
                effect('user code')
            except Exception:
                raised = True
                raise
        prove(not raised, 'an exception is not swallowed')
    finally:
        prove(sys.stdout is before, 'restored')
