"""Contracts on reading the files of a project: what is parsed, what is run, and while which frame (C11, C12, C13, C20)."""
from pyvc.api import *
if False:
    import ast
    import os
    from types import ModuleType
    from pyfileconf.pmcontext.tracing import StackTracker
    from pyfileconf.pmcontext.actions import PyfileconfActions
    from pyfileconf.imports.models.statements.container import ImportStatementContainer
    from pyfileconf.assignments.models.container import AssignmentStatementContainer
    from pyfileconf.io.file.write.base import FileStr
    from pyfileconf.io.file.write.config import ConfigFileStr

L = 'pyfileconf.io.file.load.'
ACTIVE = L + 'active.loader:ActiveConfigFileLoader'
LAZY = L + 'lazy.base.loader:LazyLoader'
IMPASS = L + 'lazy.base.impassign:ImportAssignmentLazyLoader'
CONFL = L + 'lazy.config:ConfigFileLoader'
PDL = L + 'lazy.pipeline:PipelineDictLoader'
PAL = L + 'lazy.pipelineast:PipelineAstLoader'
SDL = L + 'lazy.datadict:SpecificClassDictLoader'
SAL = L + 'lazy.dataast:SpecificClassDictAstLoader'
USER = L + 'active.userdef:'
ISC = 'pyfileconf.imports.models.statements.container:ImportStatementContainer'
ASC = 'pyfileconf.assignments.models.container:AssignmentStatementContainer'
STRS = TList(TStr())
TREE = TRef('ast.Module')
PARSED = TTuple(TREE, STRS)
IMPS = TRef(ISC)
ASGS = TRef(ASC)


# ---- the values of a config file
@assumed(IMPASS + '.register', 'verified as register_all', opts={'alt': True})
def read_again(self):
    effect('register', self, may_raise=True)


@assumed(USER + 'get_user_defined_dict_from_filepath', 'verified as user_values', opts={'alt': True})
def run_file(filepath, module_name=None, remove_imports=False, imports=None):
    return effect('run file', filepath, module_name, ty=VALUES, may_raise=True)


@assumed('pyfileconf.pmcontext.tracing:StackTracker.__enter__', 'verified as tracker_enter (C11)', opts={'alt': True})
def enter(self):
    effect('enter', self.section_path_str, self.file_path, self.action, may_raise=True)


@assumed('pyfileconf.pmcontext.tracing:StackTracker.__exit__', 'verified as tracker_exit (C11)', opts={'alt': True})
def leave(self, exc_type, exc_val, exc_tb):
    event('leave')


VALUES = TDict(TStr(), TAny())
FR = ['read_again', 'enter', 'leave']


@contract(ACTIVE + '.load', 'C11 C12 C20', use=FR + ['run_file'], self=TObj(ACTIVE, filepath=TStr()))
def active_load(self):
    """the file is run while its frame is on the stack, also when it fails the frame is taken off"""
    effect('register', self, may_raise=True)
    effect('enter', None, self.filepath, PyfileconfActions.LOAD_FILE_EXECUTE, may_raise=True)
    try:
        self._user_defined_dict = effect('run file', self.filepath, None, ty=VALUES, may_raise=True)
    finally:
        event('leave')
    return self._user_defined_dict


MODULE = TRef('module', __dict__=TDict(TStr(), TAny()))


@contract(USER + '_get_user_defined_dict_from_module', 'C12 C02', module=MODULE)
def module_values(module):
    """every name of the file, with its value, but modules and names of the interpreter"""
    return {k: v for k, v in module.__dict__.items() if not k.startswith('__') and not isinstance(v, ModuleType)}


@assumed(USER + '_get_user_defined_dict_from_module', 'verified as module_values', opts={'alt': True})
def values_of_module(module):
    return query('values of module', module, ty=VALUES)


@assumed(USER + '_load_file_as_module', 'running the file', opts={'alt': True})
def file_module(filepath, name='module.name'):
    return effect('run', filepath, name, may_raise=True)


@contract(USER + 'get_user_defined_dict_from_filepath', 'C12 C02', use=['values_of_module', 'file_module'], filepath=TStr(), module_name=TOneOf(None, TStr()), remove_imports=TConst(False), imports=TAny())
def user_values(filepath, module_name=None, remove_imports=False, imports=None):
    return query('values of module', effect('run', filepath, module_name, may_raise=True), ty=VALUES)


# ---- a config file as text
@assumed(CONFL + '._file_body_to_assignment_body', 'verified as body_parts', opts={'alt': True})
def split_body(self):
    effect('split body', self, may_raise=True)


@assumed(ASC + '.to_default_dict_and_annotation_dict', 'verified in contracts.files', opts={'alt': True})
def dicts_of(self):
    return query('dicts of statements', self, ty=PAIR)


PAIR = TTuple(TDict(), TDict())


@contract(CONFL + '.load', 'C11 C12', use=FR + ['split_body', 'dicts_of'], self=TObj(CONFL, filepath=TStr(), _assigns=ASGS))
def config_load(self):
    effect('register', self, may_raise=True)
    effect('enter', None, self.filepath, PyfileconfActions.LOAD_FILE_AST, may_raise=True)
    try:
        effect('split body', self, may_raise=True)
        values, notes = query('dicts of statements', self._assigns, ty=PAIR)
    finally:
        event('leave')
    return values, notes


# ---- the files with the structure
NODE = TRef('ast.Assign')
ASSIGNST = TRef('pyfileconf.assignments.models.statement:AssignmentStatement')
MAYBE = TOneOf(None, ASSIGNST)


@assumed(L + 'parsers.assign:extract_assignment_from_ast_by_name', 'verified in contracts.parsers', opts={'alt': True})
def assign_named(file, name):
    return query('assignment of name', file, name, ty=ASSIGNST, may_raise=True)


@contract(PAL + '.load', 'C13 C11', use=FR + ['assign_named'], self=TObj(PAL, filepath=TStr(), _ast=TOneOf(None, TREE)))
def pipeline_ast(self):
    effect('register', self, may_raise=True)
    if self._ast is None:
        self._pipeline_dict_assign = None
        return
    effect('enter', None, self.filepath, PyfileconfActions.LOAD_PIPELINE_FILE_AST, may_raise=True)
    try:
        self._pipeline_dict_assign = query('assignment of name', self._ast, 'pipeline_dict', ty=ASSIGNST, may_raise=True)
    finally:
        event('leave')


@contract(SAL + '.load', 'C13 C11', use=FR + ['assign_named'], self=TObj(SAL, filepath=TStr(), _ast=TOneOf(None, TREE)))
def class_ast(self):
    effect('register', self, may_raise=True)
    effect('enter', None, self.filepath, PyfileconfActions.LOAD_PIPELINE_FILE_AST, may_raise=True)
    try:
        self._class_dict_assign = query('assignment of name', self._ast, 'class_dict', ty=ASSIGNST, may_raise=True)
    finally:
        event('leave')


@assumed(PAL + '.load', 'verified as pipeline_ast', opts={'alt': True})
def pipeline_parsed(self):
    effect('parse structure', self, may_raise=True)


@assumed(SAL + '.load', 'verified as class_ast', opts={'alt': True})
def class_parsed(self):
    effect('parse structure', self, may_raise=True)


@assumed(L + 'parsers.collections:extract_collection_from_ast', 'verified in contracts.parsers', opts={'alt': True})
def structure_of(ast_node, convert_str_values=False):
    return query('structure', ast_node, convert_str_values, ty=STRUCT, may_raise=True)


STRUCT = TDict(TStr(), TAny())


@assumed('pyfileconf.assignments.models.statement:AssignmentStatement.to_ast', 'verified in contracts.files', opts={'alt': True})
def as_node(self):
    return query('node of', self, ty=NODE)


@contract(PDL + '.load', 'C13', use=['pipeline_parsed', 'structure_of', 'as_node'], self=TObj(PDL, filepath=TStr(), _pipeline_dict_assign=MAYBE))
def pipeline_load(self):
    """the structure as written in the file; nothing without a file"""
    effect('parse structure', self, may_raise=True)
    if self._pipeline_dict_assign is None:
        self._pipeline_dict = {}
    else:
        self._pipeline_dict = query('structure', query('node of', self._pipeline_dict_assign, ty=NODE), False, ty=STRUCT, may_raise=True)
    return self._pipeline_dict


@contract(SDL + '.load', 'C13', use=['class_parsed', 'structure_of', 'as_node'], self=TObj(SDL, filepath=TStr(), _class_dict_assign=ASSIGNST))
def class_load(self):
    """the structure as written in the file, names as strings"""
    effect('parse structure', self, may_raise=True)
    self._class_dict = query('structure', query('node of', self._class_dict_assign, ty=NODE), True, ty=STRUCT, may_raise=True)
    return self._class_dict


# ---- writing
FSTR = 'pyfileconf.io.file.write.base:FileStr'


@assumed(FSTR + '._create_str', 'verified in contracts.files', opts={'alt': True})
def text_of(self, import_assignment_obj, existing_imports, existing_assigns, existing_body):
    return query('text', import_assignment_obj, existing_imports, [x for x in existing_assigns.items], existing_body, ty=TEXT, may_raise=True)


@assumed(FSTR + '._create_str', 'verified in contracts.files', opts={'alt': True})
def text_with(self, import_assignment_obj, existing_imports, existing_assigns, existing_body):
    return query('text', import_assignment_obj, existing_imports, existing_assigns, existing_body, ty=TEXT, may_raise=True)


TEXT = TStr()
CIF = 'pyfileconf.io.file.interfaces.config:ConfigFileInterface'
PIF = 'pyfileconf.io.file.interfaces.pipeline:PipelineDictInterface'
SIF = 'pyfileconf.io.file.interfaces.datadict:SpecificClassDictInterface'


@contract(CIF + '.save', 'C12 C14 C22', use=['text_with'], self=TObj(CIF, filepath=TStr(), _assigns=ASGS, _beginning_imports=IMPS, _assignment_body=STRS), config=TRef('config'))
def config_save(self, config):
    """exactly the text made of the config and of what is in the file is written, to that file; if it cannot be made the file
    is left alone"""
    text = query('text', config, self._beginning_imports, self._assigns, self._assignment_body, ty=TEXT, may_raise=True)
    with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
        f.write(text)


@contract(PIF + '.save', 'C13', use=['text_of'], self=TObj(PIF, filepath=TStr(), _imports=IMPS), config=TRef('config'))
def pipeline_save(self, config):
    """the structure is written anew, with the imports that are in the file"""
    text = query('text', config, self._imports, [], [], ty=TEXT, may_raise=True)
    with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
        f.write(text)


@contract(SIF + '.save', 'C13', use=['text_of'], self=TObj(SIF, filepath=TStr(), _imports=IMPS), config=TRef('config'))
def class_save(self, config):
    text = query('text', config, self._imports, [], [], ty=TEXT, may_raise=True)
    with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
        f.write(text)
