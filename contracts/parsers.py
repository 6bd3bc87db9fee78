"""Contracts on what is read from a syntax tree: imports, assignments, names, definitions and literal dictionaries (C12, C18, C14, C01)."""
from pyvc.api import *
if False:
    import ast
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.imports.models.statements.module import ModuleImportStatement
    from pyfileconf.imports.models.statements.container import ImportStatementContainer
    from pyfileconf.assignments.models.container import AssignmentStatementContainer
    from pyfileconf.exceptions.imports import ExtractedIncorrectTypeOfImportException, CouldNotExtractObjectImportFromAstException
    from pyfileconf.exceptions.assignments import CouldNotExtractAssignmentFromAstException

P = 'pyfileconf.io.file.load.parsers.'
ST = 'pyfileconf.imports.models.statements.'
ISC = ST + 'container:ImportStatementContainer'
A = 'pyfileconf.assignments.models.'
TREE = TRef('ast.Module')
OBJIMP = TRef(ST + 'obj:ObjectImportStatement')
MODIMP = TRef(ST + 'module:ModuleImportStatement')
IMPORTS = TObj(ISC, items=TList(TOneOf(OBJIMP, MODIMP)))
IMPSREF = TRef(ISC, items=TList(TOneOf(OBJIMP, MODIMP)))
STATEMENT = TRef(A + 'statement:AssignmentStatement')
ASSREF = TRef(A + 'container:AssignmentStatementContainer', items=TList(STATEMENT))
STR = TStr()
NAMES = TList(TStr())


# ---- imports
@assumed(ST + 'module:ModuleImportStatement.from_ast_import', 'verified in contracts.imports (C18)', opts={'alt': True})
def module_import(cls, ast_import, preferred_position=None):
    return query('module import', ast_import, preferred_position, ty=MODIMP, may_raise=True)


@assumed(ST + 'obj:ObjectImportStatement.from_ast_import_from', 'verified in contracts.imports (C18)', opts={'alt': True})
def object_import(cls, ast_import, preferred_position=None):
    return query('object import', ast_import, preferred_position, ty=OBJIMP, may_raise=True)


@contract(P + 'imp:extract_imports_from_ast', 'C18 C12', use=['module_import', 'object_import'], module=TREE)
def imports_in_tree(module):
    """one statement for every import in the tree, in order"""
    out = []
    for node in nodes_of(module, 'Import', 'ImportFrom'):
        if isinstance(node, ast.Import):
            out.append(query('module import', node, None, ty=MODIMP, may_raise=True))
        else:
            out.append(query('object import', node, None, ty=OBJIMP, may_raise=True))
    return ImportStatementContainer(out)


@assumed(P + 'imp:extract_imports_from_ast', 'verified as imports_in_tree', opts={'alt': True})
def imports_of(module):
    return query('imports of', module, ty=IMPSREF, may_raise=True)


@contract(P + 'imp:_extract_single_import_from_container', 'C18', import_container=IMPORTS)
def single_import(import_container):
    """none, the one there is, or an error when there are more"""
    if len(import_container.items) > 1:
        raise ValueError
    return import_container.items[0] if import_container.items else None


@contract(P + 'imp:extract_obj_import_from_ast', 'C18', use=['imports_of'], module=TREE)
def one_object_import(module):
    """the only import of the text when it is a from-import; nothing without imports"""
    found = query('imports of', module, ty=IMPSREF, may_raise=True).items
    if len(found) > 1:
        raise ValueError
    if not found:
        return None
    if isinstance(found[0], ModuleImportStatement):
        raise ExtractedIncorrectTypeOfImportException
    return found[0]


@contract(P + 'imp:extract_module_import_from_ast', 'C18', use=['imports_of'], module=TREE)
def one_module_import(module):
    found = query('imports of', module, ty=IMPSREF, may_raise=True).items
    if len(found) > 1:
        raise ValueError
    if not found:
        return None
    if not isinstance(found[0], ModuleImportStatement):
        raise ExtractedIncorrectTypeOfImportException
    return found[0]


NODE = TOneOf(TRef('ast.Import'), TRef('ast.ImportFrom'), TRef('ast.Assign'), TRef('ast.FunctionDef'))


# ---- assignments
@assumed(A + 'statement:AssignmentStatement.from_ast_assign', 'verified in contracts.files (C12)', opts={'alt': True})
def statement_of(cls, ast_assign, preferred_position=None):
    return query('statement', ast_assign, preferred_position, ty=STATEMENT, may_raise=True)


TARGETS = {'nodes': {'Assign': TRef('ast.Assign', targets=TList(TRef('ast.Name', id=TStr()))), 'AnnAssign': TRef('ast.AnnAssign', target=TRef('ast.Name', id=TStr()))}}


@contract(P + 'assign:extract_assignments_from_ast', 'C12', use=['statement_of'], opts=TARGETS, module=TREE)
def assignments_in_tree(module):
    """one statement for every assignment, annotated or not, in order"""
    out = []
    for node in nodes_of(module, 'AnnAssign', 'Assign'):
        if isinstance(node, ast.AnnAssign):
            out.append(query('statement', node, None, ty=STATEMENT, may_raise=True))
        else:
            out.append(query('statement', node, None, ty=STATEMENT, may_raise=True))
    return AssignmentStatementContainer(out)


@assumed(P + 'assign:extract_assignments_from_ast', 'verified as assignments_in_tree', opts={'alt': True})
def assignments_of(module):
    return query('assignments of', module, ty=ASSREF, may_raise=True)


@contract(P + 'assign:extract_assignment_from_ast', 'C12', use=['assignments_of'], module=TREE)
def one_assignment(module):
    found = query('assignments of', module, ty=ASSREF, may_raise=True).items
    if len(found) > 1:
        raise ValueError
    if len(found) == 0:
        return None
    return found[0]




@contract(P + 'assign:extract_assignments_from_ast_by_name', 'C12', use=['statement_of'], opts=TARGETS, module=TREE, name=TStr())
def assignments_to_name(module, name):
    """those of the assignments which have the name as a target"""
    out = []
    for node in nodes_of(module, 'AnnAssign', 'Assign'):
        if isinstance(node, ast.Assign):
            if name in [t.id for t in node.targets]:
                out.append(query('statement', node, None, ty=STATEMENT, may_raise=True))
        elif node.target.id == name:
            out.append(query('statement', node, None, ty=STATEMENT, may_raise=True))
    return AssignmentStatementContainer(out)


@assumed(P + 'assign:extract_assignments_from_ast_by_name', 'verified as assignments_to_name', opts={'alt': True})
def assignments_to(module, name):
    return query('assignments to', module, name, ty=ASSREF, may_raise=True)


@contract(P + 'assign:extract_assignment_from_ast_by_name', 'C12', use=['assignments_to'], module=TREE, name=TStr())
def one_assignment_to(module, name):
    found = query('assignments to', module, name, ty=ASSREF, may_raise=True).items
    if len(found) > 1:
        raise ValueError
    if len(found) == 0:
        return None
    return found[0]


# ---- names
NAMENODES = {'nodes': {'Name': TRef('ast.Name', id=TStr())}}


@contract(P + 'extname:extract_external_name_from_assign_value', 'C12 C18', opts=NAMENODES, ast_node=TRef('ast.expr'))
def root_name(ast_node):
    """the name an expression is rooted in, nothing without a name"""
    found = [node.id for node in nodes_of(ast_node, 'Name')]
    if len(found) > 1:
        raise ValueError
    if len(found) == 0:
        return None
    return found[0]


@contract(P + 'extname:extract_unique_external_names_from_assign_value', 'C12', opts=NAMENODES, ast_node=TRef('ast.expr'))
def names_in_expression(ast_node):
    return list(set([node.id for node in nodes_of(ast_node, 'Name')]))


# ---- definitions
DEFNODES = {'nodes': {'FunctionDef': TRef('ast.FunctionDef', name=TStr()), 'ClassDef': TRef('ast.ClassDef', name=TStr())}}
DEFS = TList(TRef('ast.FunctionDef', name=TStr()))


@contract(P + 'funcdef:extract_function_definitions_from_ast', 'C14', opts=DEFNODES, module=TREE)
def functions_in_tree(module):
    """the functions which are not within a class or another function"""
    out = []
    for node in nodes_of(module, 'ClassDef', 'FunctionDef'):
        if isinstance(node, ast.FunctionDef):
            out.append(node)
    return out


@contract(P + 'funcdef:extract_function_definitions_from_ast_by_name', 'C14', opts=DEFNODES, module=TREE, name=TStr())
def functions_of_name(module, name):
    out = []
    for node in nodes_of(module, 'ClassDef', 'FunctionDef'):
        if isinstance(node, ast.FunctionDef):
            if node.name == name:
                out.append(node)
    return out


@assumed(P + 'funcdef:extract_function_definitions_or_class_inits_from_ast_by_name', 'the definitions of a name: functions, or the constructor of a class (bounded: C14)', opts={'alt': True})
def definitions_of(module, name):
    return query('definitions', module, name, ty=DEFS)


@contract(P + 'funcdef:extract_function_definition_or_class_init_from_ast_by_name', 'C14', use=['definitions_of'], module=TREE, name=TStr())
def one_definition(module, name):
    """nothing when it is not defined there; a name that is defined twice is an error"""
    found = query('definitions', module, name, ty=DEFS)
    if len(found) > 1:
        raise ValueError
    if len(found) == 0:
        return None
    return found[0]


# ---- literal dictionaries
KEYNODE = TRef('ast.Constant', s=TStr())
DICTNODE = TRef('ast.Dict', keys=TList(KEYNODE), values=TList(TRef('ast.expr')))
LISTNODE = TRef('ast.List', elts=TList(TRef('ast.expr')))


@assumed(P + 'collections:_ast_dict_or_list_to_dict_or_list', 'the nested dictionary or list (verified as nested)', opts={'alt': True})
def nested_of(node, convert_str_values=False):
    return query('nested', node, convert_str_values, may_raise=True)


@contract(P + 'collections:_ast_dict_to_dict', 'C01 C13', use=['nested_of'], ast_dict=DICTNODE, convert_str_values=TBool())
def dict_of(ast_dict, convert_str_values=False):
    """every key with its value: nested dictionaries and lists as such, texts as texts on request, the others as they are"""
    out = {}
    for key, value in zip(ast_dict.keys, ast_dict.values):
        if isinstance(value, (ast.Dict, ast.List)):
            out[key.s] = query('nested', value, convert_str_values, may_raise=True)
        elif convert_str_values and isinstance(value, ast.Str):
            out[key.s] = value.s
        else:
            out[key.s] = value
    return out


@contract(P + 'collections:_ast_list_to_list', 'C01 C13', use=['nested_of'], ast_list=LISTNODE, convert_str_values=TBool())
def list_of(ast_list, convert_str_values=False):
    """every element in order, the same way"""
    out = []
    for value in ast_list.elts:
        if isinstance(value, (ast.Dict, ast.List)):
            out.append(query('nested', value, convert_str_values, may_raise=True))
        elif convert_str_values and isinstance(value, ast.Str):
            out.append(value.s)
        else:
            out.append(value)
    return out


@assumed(P + 'collections:_ast_dict_to_dict', 'verified as dict_of', opts={'alt': True})
def dict_from(ast_dict, convert_str_values=False):
    return query('dict', ast_dict, convert_str_values, may_raise=True)


@assumed(P + 'collections:_ast_list_to_list', 'verified as list_of', opts={'alt': True})
def list_from(ast_list, convert_str_values=False):
    return query('list', ast_list, convert_str_values, may_raise=True)


@contract(P + 'collections:_ast_dict_or_list_to_dict_or_list', 'C01 C13', use=['dict_from', 'list_from'], node=TOneOf(DICTNODE, LISTNODE, TRef('ast.Name')), convert_str_values=TBool())
def nested(node, convert_str_values=False):
    if isinstance(node, ast.Dict):
        return query('dict', node, convert_str_values, may_raise=True)
    if isinstance(node, ast.List):
        return query('list', node, convert_str_values, may_raise=True)
    raise ValueError


@contract(P + 'collections:extract_collections_from_ast', 'C01 C13', use=['dict_from', 'list_from'], ast_node=TREE, convert_str_values=TBool())
def collections_in_tree(ast_node, convert_str_values=False):
    """the dictionaries and lists which are not within another one, in order"""
    out = []
    for node in nodes_of(ast_node, 'Dict', 'List'):
        if isinstance(node, ast.Dict):
            out.append(query('dict', node, convert_str_values, may_raise=True))
        else:
            out.append(query('list', node, convert_str_values, may_raise=True))
    return out


COLLECTIONS = TList(TAny())


@assumed(P + 'collections:extract_collections_from_ast', 'verified as collections_in_tree', opts={'alt': True})
def collections_of(ast_node, convert_str_values=False):
    return query('collections', ast_node, convert_str_values, ty=COLLECTIONS, may_raise=True)


@contract(P + 'collections:extract_collection_from_ast', 'C01 C13', use=['collections_of'], ast_node=TREE, convert_str_values=TBool())
def one_collection(ast_node, convert_str_values=False):
    found = query('collections', ast_node, convert_str_values, ty=COLLECTIONS, may_raise=True)
    if len(found) > 1:
        raise ValueError
    if len(found) == 0:
        return None
    return found[0]


@contract(P + 'fromdict:_extract_dict_from_ast_dict', 'C12', ast_dict=DICTNODE)
def plain_dict(ast_dict):
    out = {}
    for key, value in zip(ast_dict.keys, ast_dict.values):
        out[key.s] = value
    return out


# ---- the file
@contract(P + 'py:PythonFileParser.load', 'C12', use=['lines_of'], self=TObj(P + 'py:PythonFileParser', filepath=TStr()), opts={'reads': {'ast.parse': (TREE, True)}})
def parse_file(self):
    lines = effect('read lines', self.filepath, ty=NAMES, may_raise=True)
    return ast.parse(''.join(lines)), lines


@assumed(P + 'base:FileParser.load', 'the lines of the file', opts={'alt': True})
def lines_of(self):
    return effect('read lines', self.filepath, ty=NAMES, may_raise=True)


# ---- statements from text
@assumed(P + 'imp:extract_obj_import_from_ast', 'verified as one_object_import', opts={'alt': True})
def object_import_in(module):
    return None if pure_bool('no import', module) else fresh_obj('pyfileconf.imports.models.statements.obj:ObjectImportStatement', objs=query('objs', module, ty=NAMES, may_raise=True),
                                                                   module=query('module', module, ty=STR))


@contract(ST + 'obj:ObjectImportStatement.from_str', 'C18', use=['object_import_in'], import_str=TStr(), comment=TAny(), preferred_position=TOneOf(None, TStr()),
          opts={'reads': {'ast.parse': (TREE, True)}})
def object_import_from_text(cls, import_str, comment=None, preferred_position=None):
    """the from-import in the text, with the comment and the position asked for; a text without one is an error of its own"""
    tree = ast.parse(import_str)
    if pure_bool('no import', tree):
        raise CouldNotExtractObjectImportFromAstException
    out = fresh_obj('pyfileconf.imports.models.statements.obj:ObjectImportStatement', objs=query('objs', tree, ty=NAMES, may_raise=True), module=query('module', tree, ty=STR))
    out.comment = comment
    out.preferred_position = preferred_position
    return out
