"""Contracts on reading the signature of a function from its source, through the imports that lead to it (C14, C12)."""
from pyvc.api import *
if False:
    import ast
    from importlib.util import resolve_name
    from pyfileconf.exceptions.imports import NoImportStatementException, NoImportMatchingNameException
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.imports.models.statements.module import ModuleImportStatement
    from pyfileconf.imports.models.statements.container import ImportStatementContainer
    from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
    from pyfileconf.pipelines.models.config import FunctionConfig
    from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict

A = 'pyfileconf.io.func.load.args:'
X = 'pyfileconf.io.func.load.extractimp:'
LC = 'pyfileconf.io.func.load.config:'
ST = 'pyfileconf.imports.models.statements.'
RENAMES = TRef(ST + 'rename:RenameStatementCollection', new_names=TList(TStr()), reverse_name_map=TDict(TStr(), TStr()))
OBJIMP = TRef(ST + 'obj:ObjectImportStatement', module=TStr(), objs=TList(TStr(), 1), renames=RENAMES)
MODIMP = TRef(ST + 'module:ModuleImportStatement', modules=TList(TStr(), 1), renames=RENAMES)
VIEWREF = TRef('pyfileconf.views.object:ObjectView', name=TStr(), import_statement=TOneOf(None, OBJIMP, MODIMP), section_path_str=TOneOf(None, TStr()))
ARGUMENTS = TRef('ast.arguments')
IMPORTS = TRef(ST + 'container:ImportStatementContainer')
ASSIGNS = TRef('pyfileconf.assignments.models.container:AssignmentStatementContainer')
FILES = TDict(TStr(), TStr())
STR = TStr()
FLAG = TBool()
NAMES = TList(TStr())
DICT = TDict(TStr(), TAny())


@assumed(A + 'extract_function_args_and_arg_imports_from_import', 'verified as args_and_imports', opts={'alt': True})
def read_args(function_name, imp, import_section_path_str=None):
    return query('args of', function_name, imp, import_section_path_str, ty=ARGUMENTS, may_raise=True), \
        query('imports of', function_name, imp, import_section_path_str, ty=IMPORTS)


@contract(A + 'FunctionArgsExtractor.extract_args', 'C14', use=['read_args'], self=TObj(A + 'FunctionArgsExtractor', object_view=VIEWREF))
def extract_args(self):
    v = self.object_view
    return query('args of', v.name, v.import_statement, v.section_path_str, ty=ARGUMENTS, may_raise=True), \
        query('imports of', v.name, v.import_statement, v.section_path_str, ty=IMPORTS)


@assumed(LC + 'function_args_as_arg_and_annotation_dict', 'verified as contracts.files.ast_args', opts={'alt': True})
def ast_dicts(args):
    return query('defaults', args, ty=DICT), query('annotations', args, ty=DICT)


@contract(LC + 'FunctionConfigExtractor.extract_config', 'C14', use=['read_args', 'ast_dicts'],
          self=TObj(LC + 'FunctionConfigExtractor', object_view=VIEWREF), name=TOneOf(None, TStr()))
def extract_config(self, name=None):
    """a config of every argument with its default and its annotation, with the imports they need"""
    v = self.object_view
    args = query('args of', v.name, v.import_statement, v.section_path_str, ty=ARGUMENTS, may_raise=True)
    imports = query('imports of', v.name, v.import_statement, v.section_path_str, ty=IMPORTS)
    return FunctionConfig(query('defaults', args, ty=DICT), annotations=query('annotations', args, ty=DICT), name=name, imports=imports)


# ---- the file of an import
@assumed(ST + 'obj:ObjectImportStatement.get_module_filepath', 'the file of the module by the import system', opts={'alt': True})
def object_file(self, import_section_path_str=None):
    return query('file of', self, import_section_path_str, ty=STR, may_raise=True)


@assumed(ST + 'module:ModuleImportStatement.get_module_filepaths', 'the files of the modules by the import system', opts={'alt': True})
def module_files(self, import_section_path_str=None):
    return query('files of', self, import_section_path_str, ty=FILES, may_raise=True)


@contract(A + 'get_module_filepath_from_import', 'C14', use=['object_file', 'module_files'], imp=TOneOf(None, OBJIMP, MODIMP), import_section_path_str=TOneOf(None, TStr()))
def import_file(imp, import_section_path_str):
    if imp is None:
        return None
    if isinstance(imp, ObjectImportStatement):
        return query('file of', imp, import_section_path_str, ty=STR, may_raise=True)
    return query('files of', imp, import_section_path_str, ty=FILES, may_raise=True)[imp.modules[0]]


# ---- following the imports to the definition
@assumed(A + 'get_module_filepath_from_import', 'verified as import_file', opts={'alt': True})
def file_of(imp, import_section_path_str):
    return query('file of import', imp, import_section_path_str, ty=STR, may_raise=True)


DEFARGS = TList(TRef('ast.arg'), 1)
NODE = TOneOf(TRef('ast.FunctionDef', name=TStr()), TRef('ast.AsyncFunctionDef', name=TStr()), TRef('ast.ClassDef', name=TStr()), TRef('ast.Assign'))
TREE = TRef('ast.Module', body=TList(NODE))
PARSED = TTuple(TREE, TList(TStr()))


@assumed('pyfileconf.io.file.load.lazy.base.loader:LazyLoader.ast', 'the syntax tree of the file (contracts.files.register)', opts={'alt': True})
def tree_of(self):
    return query('tree of', self.filepath, ty=TREE, may_raise=True)


@assumed('pyfileconf.io.file.load.lazy.base.impassign:ImportAssignmentLazyLoader.imports', 'the imports in the file', opts={'alt': True})
def imports_of(self):
    return query('imports in', self.filepath, ty=IMPORTS, may_raise=True)


@assumed('pyfileconf.io.file.load.lazy.base.impassign:ImportAssignmentLazyLoader.assigns', 'the assignments in the file', opts={'alt': True})
def assigns_of(self):
    return query('assigns in', self.filepath, ty=ASSIGNS, may_raise=True)


@assumed('pyfileconf.io.file.load.parsers.funcdef:extract_function_definition_or_class_init_from_ast_by_name', 'the definition of that name in the tree (bounded: C14)', opts={'alt': True})
def definition(module, name):
    return None if pure_bool('not defined', module, name) else fresh_obj('ast.FunctionDef', name=query('definition', module, name, ty=STR, may_raise=True),
                                                                     args=fresh_obj('ast.arguments', args=[a for a in query('parameters', module, name, ty=DEFARGS)]))


@assumed(X + 'extract_import_statements_from_function_args_imports_and_assigns', 'verified as needed_imports', opts={'alt': True})
def needed(args, imports, assigns, current_module_section_path_str, defined_names=()):
    return query('needed', [a for a in args.args], imports, assigns, current_module_section_path_str, list(defined_names), ty=IMPORTS, may_raise=True)


@assumed(ST + 'container:ImportStatementContainer.get_import_for_module_or_obj_name', 'verified as contracts.imports.lookup_import (C18)', opts={'alt': True})
def import_of(self, name):
    if pure_bool('no import of', self, name):
        raise NoImportMatchingNameException
    return pure('import of', self, name, ty=OBJIMP)


FOLLOW = ['read_args', 'file_of', 'tree_of', 'imports_of', 'assigns_of', 'definition', 'needed', 'import_of']


@contract(A + 'extract_function_args_and_arg_imports_from_import', 'C14', use=FOLLOW, function_name=TStr(), imp=TOneOf(None, OBJIMP), import_section_path_str=TOneOf(None, TStr()),
          opts={'reads': {'importlib.util.resolve_name': (TStr(), True)}})
def args_and_imports(function_name, imp, import_section_path_str=None):
    """the definition under its original name in the file of the import, without the self of a constructor, or else what
    the import of that name in the file leads to"""
    if imp is None:
        raise NoImportStatementException
    file = query('file of import', imp, import_section_path_str, ty=STR, may_raise=True)
    if function_name in imp.renames.new_names:
        function_name = imp.renames.reverse_name_map[function_name]
    loader = ImportAssignmentLazyLoader(file)
    tree = query('tree of', file, ty=TREE, may_raise=True)
    if not pure_bool('not defined', tree, function_name):
        found = fresh_obj('ast.FunctionDef', name=query('definition', tree, function_name, ty=STR, may_raise=True),
                          args=fresh_obj('ast.arguments', args=[a for a in query('parameters', tree, function_name, ty=DEFARGS)]))
        if found.name == '__init__':
            del found.args.args[0]
        return found.args, query('needed', [a for a in found.args.args], query('imports in', file, ty=IMPORTS, may_raise=True),
                                 query('assigns in', file, ty=ASSIGNS, may_raise=True), imp.module,
                                 [n.name for n in query('tree of', file, ty=TREE, may_raise=True).body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))],
                                 ty=IMPORTS, may_raise=True)
    there = query('imports in', file, ty=IMPORTS, may_raise=True).get_import_for_module_or_obj_name(function_name)
    if import_section_path_str is None:
        where = None
    else:
        where = resolve_name(there.module, import_section_path_str) if there.module.startswith('.') else there.module
    return query('args of', function_name, there, where, ty=ARGUMENTS, may_raise=True), query('imports of', function_name, there, where, ty=IMPORTS)


# ---- the imports which a signature needs
DEFAULTS = TDict(TStr(), TRef('ast.expr'))
CONTAINER = ST + 'container:ImportStatementContainer'


@assumed(X + '_unique_external_names_from_default_dict_and_annotation_dict', 'verified as names_of', opts={'alt': True})
def names_used(default_dict, annotation_dict):
    return query('names', default_dict, annotation_dict, ty=NAMES, may_raise=True)


@assumed('pyfileconf.assignments.models.container:AssignmentStatementContainer.contains_varname', 'verified in contracts.files', opts={'alt': True})
def has_assign(self, varname):
    return pure_bool('assigned', self, varname)


@assumed(ST + 'obj:ObjectImportStatement.from_str', 'parsing one import statement (bounded: C18)', opts={'alt': True})
def import_from_str(cls, import_str, preferred_position=None):
    return pure('import', import_str, ty=OBJIMP)


@contract(X + 'extract_import_statements_from_function_args_imports_and_assigns', 'C14 C12', use=['ast_dicts', 'names_used', 'has_assign', 'import_from_str', 'import_of'],
          args=ARGUMENTS, imports=IMPORTS, assigns=ASSIGNS, current_module_section_path_str=TStr(), defined_names=TList(TStr()))
def needed_imports(args, imports, assigns, current_module_section_path_str, defined_names=()):
    """what the module itself defines comes from the module, everything else from where the module imports it"""
    out = []
    for name in query('names', query('defaults', args, ty=DICT), query('annotations', args, ty=DICT), ty=NAMES, may_raise=True):
        if pure_bool('assigned', assigns, name) or name in defined_names:
            out.append(pure('import', 'from ' + current_module_section_path_str + ' import ' + name, ty=OBJIMP))
        elif not pure_bool('no import of', imports, name):
            out.append(pure('import of', imports, name, ty=OBJIMP))
    return ImportStatementContainer(out)


@assumed('pyfileconf.io.file.load.parsers.extname:extract_unique_external_names_from_assign_value', 'the names in an expression (bounded: C12)', opts={'alt': True})
def expression_names(ast_node):
    return pure('names in', ast_node, ty=NAMES)


# ---- the names in an annotation
EXPR = TRef('ast.expr')
@assumed(X + '_extract_str_names_from_ambiguous_annotation', 'verified as annotation_names', opts={'alt': True})
def names_in(annotation):
    return [n for n in query('names in annotation', annotation, ty=NAMES, may_raise=True)]


SUBSCRIPT = TRef('ast.Subscript', value=EXPR, slice=EXPR)
TUPLE = TRef('ast.Tuple', elts=TList(EXPR))
ANNOTATION = TOneOf(TRef('ast.Name', id=TStr()), TUPLE, SUBSCRIPT, TRef('ast.Attribute', value=TRef('ast.Name', id=TStr())), TRef('ast.Constant', s=TStr()))


@contract(X + '_extract_str_names_from_subscript', 'C14', use=['names_in'], subscript=SUBSCRIPT)
def subscript_names(subscript):
    return query('names in annotation', subscript.value, ty=NAMES, may_raise=True) + query('names in annotation', subscript.slice, ty=NAMES, may_raise=True)


@contract(X + '_extract_str_names_from_tuple', 'C14', use=['names_in'], tuple=TUPLE)
def tuple_names(tuple):
    return [n for e in tuple.elts for n in query('names in annotation', e, ty=NAMES, may_raise=True)]


@assumed(X + '_extract_str_names_from_subscript', 'verified as subscript_names', opts={'alt': True})
def in_subscript(subscript):
    return query('names in subscript', subscript, ty=NAMES, may_raise=True)


@assumed(X + '_extract_str_names_from_tuple', 'verified as tuple_names', opts={'alt': True})
def in_tuple(tuple):
    return query('names in tuple', tuple, ty=NAMES, may_raise=True)


@contract(X + '_extract_str_names_from_ambiguous_annotation', 'C14', use=['in_subscript', 'in_tuple'], annotation=ANNOTATION)
def annotation_names(annotation):
    """the name itself, the module in front of the dot, or all of the names within"""
    if isinstance(annotation, ast.Name):
        return [annotation.id]
    if isinstance(annotation, ast.Tuple):
        return [n for n in query('names in tuple', annotation, ty=NAMES, may_raise=True)]
    if isinstance(annotation, ast.Subscript):
        return [n for n in query('names in subscript', annotation, ty=NAMES, may_raise=True)]
    if isinstance(annotation, ast.Attribute):
        return [annotation.value.id]
    if isinstance(annotation, ast.Str):
        return [annotation.s]
    raise NotImplementedError


@assumed(X + '_unique_external_names_from_assignment_dict', 'the names in the expressions (bounded: C14)', opts={'alt': True})
def names_in_defaults(assignment_dict):
    return [n for n in query('names in defaults', assignment_dict, ty=NAMES)]


@assumed(X + '_unique_external_names_from_annotation_dict', 'verified as not_builtin', opts={'alt': True})
def names_in_annotations(annotation_dict):
    return query('names in annotations', annotation_dict, ty=NAMES)


@contract(X + '_unique_external_names_from_default_dict_and_annotation_dict', 'C14', use=['names_in_defaults', 'names_in_annotations'],
          default_dict=DICT, annotation_dict=DICT)
def names_of(default_dict, annotation_dict):
    """the names in the defaults and those in the annotations, each once"""
    return list(set(query('names in defaults', default_dict, ty=NAMES) + query('names in annotations', annotation_dict, ty=NAMES)))


@assumed(X + '_extract_unique_type_str_names_from_annotation_dict', 'the names in the annotations (bounded: C14)', opts={'alt': True})
def type_names(annotation_dict):
    return query('type names', annotation_dict, ty=NAMES, may_raise=True)


@assumed('pyfileconf.logic.inspect:_is_str_matching_builtin_type', 'whether a name is that of a builtin type', opts={'alt': True})
def builtin_name(str_value):
    return pure_bool('builtin type', str_value)


@contract(X + '_unique_external_names_from_annotation_dict', 'C14', use=['type_names', 'builtin_name'], annotation_dict=DICT)
def not_builtin(annotation_dict):
    return [n for n in query('type names', annotation_dict, ty=NAMES, may_raise=True) if not pure_bool('builtin type', n)]
