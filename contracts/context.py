"""Contracts on pyfileconf.pmcontext (C10, C11)."""
from pyvc.api import *
from contracts.paths import SP, SPV, SPVAL, VIEW
if False:
    from pyfileconf.pmcontext.stack import PyfileconfFrame, PyfileconfStack
    from pyfileconf.pmcontext.actions import PyfileconfActions
    from pyfileconf.pmcontext.tracing import StackTracker
    from pyfileconf.sectionpath.sectionpath import SectionPath
    from pyfileconf import context

ST = 'pyfileconf.pmcontext.stack:'
ACTION = TEnum('pyfileconf.pmcontext.actions:PyfileconfActions', value=TStr())
FRAME = TRef(ST + 'PyfileconfFrame', section_path=SPVAL, action=ACTION, file_path=TAny())
STACK = TObj(ST + 'PyfileconfStack', frames=TList(FRAME))
CTXC = 'pyfileconf.pmcontext.main:PyFileConfContext'
DEPS = TDict(TStr(), SPVAL, default='nset')
CTX = TObj(CTXC, stack=STACK, config_dependencies=DEPS, force_update_dependencies=DEPS, active_managers=TDict())
C = {'context': True}
PATHLIKE = TOneOf(TStr(), SPV, VIEW)


@contract(ST + 'PyfileconfFrame.__init__', 'C11', self=TObj(ST + 'PyfileconfFrame'), section_path=PATHLIKE, action=ACTION, file_path=TAny())
def frame_init(self, section_path, action, file_path=None):
    from pyfileconf.sectionpath.sectionpath import SectionPath
    self.section_path = SectionPath.from_ambiguous(section_path)
    self.action = action
    self.file_path = file_path


@contract(ST + 'PyfileconfStack.__init__', 'C11', self=TObj(ST + 'PyfileconfStack'), frames=TList(FRAME))
def stack_init(self, frames):
    self.frames = [f for f in frames]


@contract(ST + 'PyfileconfStack.add_frame', 'C11', self=STACK, frame=FRAME)
def add_frame(self, frame):
    self.frames.append(frame)


@contract(ST + 'PyfileconfStack.pop_frame', 'C11', self=STACK)
def pop_frame(self):
    return self.frames.pop()


@contract(ST + 'PyfileconfStack.add_running_item', 'C11', self=STACK, section_path=PATHLIKE)
def add_running_item(self, section_path):
    self.frames.append(PyfileconfFrame(section_path, PyfileconfActions.RUN))


@contract(ST + 'PyfileconfStack.currently_running_section_path_str', 'C11', self=STACK)
def currently_running_section_path_str(self):
    """the section path of the innermost frame that runs an item"""
    runs = [f for f in self.frames if f.action == PyfileconfActions.RUN]
    return runs[-1].section_path.path_str if runs else None


@contract(ST + 'PyfileconfStack.file_is_currently_being_loaded', 'C11', self=STACK)
def file_is_currently_being_loaded(self):
    return any(f.action == PyfileconfActions.LOAD_FILE_EXECUTE for f in self.frames)


@contract(ST + 'PyfileconfStack.currently_loading_file_section_path', 'C11', self=STACK)
def currently_loading_file_section_path(self):
    loads = [f for f in self.frames if f.action == PyfileconfActions.LOAD_FILE_EXECUTE]
    return loads[-1].section_path if loads else None


TR = 'pyfileconf.pmcontext.tracing:StackTracker'
TRACKER = TObj(TR, section_path_str=TStr(), action=ACTION, file_path=TAny())


@contract(TR + '.__init__', 'C11', self=TObj(TR), section_path_str=TOneOf(None, TStr()), action=ACTION,
          file_path=TOneOf(None, TStr()), base_section_path_str=TOneOf(None, TStr()))
def tracker_init(self, section_path_str=None, action=PyfileconfActions.RUN, file_path=None, base_section_path_str=None):
    if section_path_str is None and file_path is None:
        raise ValueError
    if section_path_str is not None and base_section_path_str is not None:
        self.section_path_str = SectionPath.join(base_section_path_str, section_path_str).path_str
    else:
        self.section_path_str = section_path_str
    self.action = action
    self.file_path = file_path


@contract(TR + '.__enter__', 'C11', opts=C, self=TRACKER, context__=CTX)
def tracker_enter(self):
    from pyfileconf import context
    context.stack.frames.append(PyfileconfFrame(self.section_path_str, self.action, file_path=self.file_path))


@contract(TR + '.__exit__', 'C11', opts=C, self=TRACKER, exc_type=TAny(), exc_val=TAny(), exc_tb=TAny(), context__=CTX)
def tracker_exit(self, exc_type, exc_val, exc_tb):
    from pyfileconf import context
    context.stack.frames.pop()
    return None


@lemma('C11', opts=C, path=TStr(), context__=CTX)
def tracked_actions_are_balanced(path):
    """while a run is tracked its item is the innermost running one, and afterwards the stack is what it was, whether
    the action completes or raises"""
    before = context.stack.currently_running_section_path_str
    frames = list(context.stack.frames)
    try:
        with StackTracker(path):
            prove(context.stack.currently_running_section_path_str == path, 'names the running item')
            effect('user code')
    finally:
        prove(context.stack.frames == frames, 'the stack is what it was')
        prove(context.stack.currently_running_section_path_str == before, 'the outer item is running again')


@contract(CTXC + '.add_config_dependency', 'C10', opts=C, self=CTX, dependent=PATHLIKE, depends_on=PATHLIKE, force_update=TBool(), context__=CTX)
def add_config_dependency(self, dependent, depends_on, force_update=False):
    """the dependent is added to the items depending on the other one, nothing else changes; not for itself"""
    from pyfileconf.sectionpath.sectionpath import SectionPath
    a, b = SectionPath.from_ambiguous(dependent), SectionPath.from_ambiguous(depends_on)
    if a.path_str != b.path_str:
        self.config_dependencies[b.path_str].add(a)
        if force_update:
            self.force_update_dependencies[b.path_str].add(a)


@contract(CTXC + '.add_config_dependency_for_currently_running_item_if_exists', 'C10', self=CTX, depends_on=PATHLIKE, force_update=TBool())
def add_for_running(self, depends_on, force_update=False):
    running = self.stack.currently_running_section_path_str
    if running is not None:
        self.add_config_dependency(running, depends_on, force_update=force_update)


@contract(CTXC + '.add_config_dependency_if_file_is_currently_being_loaded', 'C10', self=CTX, dependent=PATHLIKE, depends_on=PATHLIKE, force_update=TBool())
def add_if_loading(self, dependent, depends_on, force_update=False):
    if self.stack.file_is_currently_being_loaded:
        self.add_config_dependency(dependent, depends_on, force_update=force_update)


@contract(CTXC + '.reset', 'C10 C20', self=CTX)
def ctx_reset(self):
    self.config_dependencies = defaultdict(lambda: set())
    self.active_managers = {}
    self.force_update_dependencies = defaultdict(lambda: set())
    self.stack = PyfileconfStack([])
