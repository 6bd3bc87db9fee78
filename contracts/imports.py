"""Contracts on the collections of import statements (C18, C12)."""
from pyvc.api import *
if False:
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.imports.models.statements.module import ModuleImportStatement
    from pyfileconf.imports.models.statements.rename import RenameStatementCollection, RenameStatement
    from pyfileconf.exceptions.imports import CouldNotExtractObjectImportFromAstException
    from pyfileconf.imports.models.statements.comment import Comment
    from pyfileconf.exceptions.imports import NoImportMatchingNameException

ST = 'pyfileconf.imports.models.statements.'
BASE = 'pyfileconf.basemodels.container:Container'
ISC = ST + 'container:ImportStatementContainer'
RENAME = TRef(ST + 'rename:RenameStatement', item=TStr(), new_name=TStr())
RENAMES = TRef(ST + 'rename:RenameStatementCollection', items=TList(RENAME))
OBJ = TRef(ST + 'obj:ObjectImportStatement', module=TStr(), objs=TList(TStr()), renames=RENAMES)
MOD = TRef(ST + 'module:ModuleImportStatement', modules=TList(TStr()), renames=RENAMES)
COMMENT = TRef(ST + 'comment:Comment', comment=TStr())
STMT = TOneOf(OBJ, MOD, COMMENT)
IMPORTS = TObj(ISC, items=TList(STMT))
NAMEPAIRS = TList(TTuple(TStr(), TStr()))
RCOLL = TObj(ST + 'rename:RenameStatementCollection', items=TList(RENAME))


@assumed(ST + 'importbase:ImportStatement.bindings', 'the (original name, bound name) pairs of a statement, in order (bounded: C18)', opts={'alt': True})
def bindings(self):
    return pure('bindings', self, ty=NAMEPAIRS)


@assumed(ST + 'importbase:ImportStatement.__eq__', 'equality of two statements is a function of the two', opts={'alt': True})
def same_statement(self, other):
    return pure_bool('same statement', self, other)


@contract(ISC + '.__contains__', 'C18', use=['bindings', 'same_statement'], opts={'user_eq': True}, self=IMPORTS, item=STMT)
def contains(self, item):
    """present: the same statement, or one of the same kind (and module) that binds every name of it"""
    for there in self.items:
        if item == there:
            return True
        if isinstance(item, ModuleImportStatement) and isinstance(there, ModuleImportStatement):
            if all(b in there.bindings for b in item.bindings):
                return True
        if isinstance(item, ObjectImportStatement) and isinstance(there, ObjectImportStatement):
            if there.module == item.module and all(b in there.bindings for b in item.bindings):
                return True
    return False


@assumed(ISC + '.__contains__', 'verified as contains', opts={'alt': True})
def present(self, item):
    return pure_bool('present', snapshot(self.items), item)


@contract(BASE + '.append_if_missing', 'C18 C12', use=['present'], self=IMPORTS, item=STMT)
def append_if_missing(self, item):
    if item not in self:
        self.items.append(item)


@contract(BASE + '.insert_if_missing', 'C18 C12', use=['present'], self=IMPORTS, index=TConst(0), item=STMT)
def insert_if_missing(self, index, item):
    if item not in self:
        self.items.insert(0, item)


@contract(BASE + '.add_if_missing', 'C18 C12', use=['present'], self=IMPORTS, item=STMT)
def add_if_missing(self, item):
    """nothing when present; otherwise exactly this one more, at the end it prefers, the others as they were"""
    first = getattr(item, 'prefer_beginning', False)
    if item not in self:
        if first:
            self.items.insert(0, item)
        else:
            self.items.append(item)


RC = ST + 'rename:RenameStatementCollection'


@contract(RC + '.new_names', 'C18', self=RCOLL)
def new_names(self):
    return [r.new_name for r in self.items]


@contract(RC + '.orig_names', 'C18', self=RCOLL)
def orig_names(self):
    return [r.item for r in self.items]


@contract(RC + '.reverse_name_map', 'C18', self=RCOLL)
def reverse_name_map(self):
    return {r.new_name: r.item for r in self.items}


@contract(RC + '.name_map', 'C18', self=RCOLL)
def name_map(self):
    return {r.item: r.new_name for r in self.items}


@contract(RC + '.__contains__', 'C18', self=RCOLL, item=TStr())
def renames_contain(self, item):
    return item in [r.item for r in self.items]


@contract(ISC + '.get_import_for_module_or_obj_name', 'C18', use=['bindings'], self=IMPORTS, name=TStr())
def lookup_import(self, name):
    """the first statement that binds the name: an import of just that name, by the same way; none is an error of its own"""
    for imp in self.items:
        if isinstance(imp, ModuleImportStatement):
            if (name, name) in imp.bindings:
                return ModuleImportStatement([name])
            if name in [r.new_name for r in imp.renames]:
                ren = [r for r in imp.renames if r.new_name == name]
                return ModuleImportStatement([{r.new_name: r.item for r in ren}[name]], RenameStatementCollection(ren))
        elif isinstance(imp, ObjectImportStatement):
            if (name, name) in imp.bindings:
                return ObjectImportStatement([name], imp.module)
            if name in [r.new_name for r in imp.renames]:
                ren = [r for r in imp.renames if r.new_name == name]
                return ObjectImportStatement([{r.new_name: r.item for r in ren}[name]], imp.module, RenameStatementCollection(ren))
    raise NoImportMatchingNameException


# ---- one statement
ALIAS = TRef('ast.alias', name=TStr(), asname=TOneOf(None, TStr()))
COMMENTED = TOneOf(None, TRef(ST + 'comment:Comment', comment=TStr()))
OBJSELF = TObj(ST + 'obj:ObjectImportStatement', module=TStr(), objs=TList(TStr()), renames=RENAMES, comment=COMMENTED)
MODSELF = TObj(ST + 'module:ModuleImportStatement', modules=TList(TStr()), renames=RENAMES, comment=COMMENTED)
PAIRS = TList(TTuple(TStr(), TOneOf(None, RENAME)))


@assumed(ST + 'importbase:ImportStatement._items_and_renames', 'the names of a statement with the rename of each (bounded: C18)', opts={'alt': True})
def with_renames(self):
    return query('with renames', self, ty=PAIRS, may_raise=False)


@contract(ST + 'importbase:ImportStatement.bindings', 'C18', use=['with_renames'], self=TOneOf(OBJSELF, MODSELF))
def bindings_of(self):
    return [(item, item if r is None else r.new_name) for item, r in query('with renames', self, ty=PAIRS, may_raise=False)]


@contract(ST + 'importbase:ImportStatement._renamed', 'C18', use=['with_renames'], self=TOneOf(OBJSELF, MODSELF))
def renamed(self):
    return [item if r is None else r.item + ' as ' + r.new_name for item, r in query('with renames', self, ty=PAIRS, may_raise=False)]


NAMES = TList(TStr())


@assumed(ST + 'importbase:ImportStatement._renamed', 'verified as renamed', opts={'alt': True})
def renamed_names(self):
    return query('renamed', self, ty=NAMES, may_raise=False)


@contract(ST + 'obj:ObjectImportStatement.__str__', 'C18', use=['renamed_names'], self=OBJSELF)
def obj_text(self):
    out = 'from ' + self.module + ' import ' + ', '.join(query('renamed', self, ty=NAMES, may_raise=False))
    return out if self.comment is None else out + ' #' + self.comment.comment


@contract(ST + 'module:ModuleImportStatement.__str__', 'C18', use=['renamed_names'], self=MODSELF)
def mod_text(self):
    out = 'import ' + ', '.join(query('renamed', self, ty=NAMES, may_raise=False))
    return out if self.comment is None else out + ' #' + self.comment.comment


@contract(RC + '.from_ast_import', 'C18', ast_import=TRef('ast.Import', names=TList(ALIAS)))
def renames_from_ast(cls, ast_import):
    """exactly the names that are renamed"""
    return RenameStatementCollection([RenameStatement(a.name, a.asname) for a in ast_import.names if a.asname is not None])


POS = TOneOf(None, TStr())


@contract(ST + 'obj:ObjectImportStatement.from_ast_import_from', 'C18', ast_import=TRef('ast.ImportFrom', names=TList(ALIAS), module=TOneOf(None, TStr())), preferred_position=POS)
def obj_from_ast(cls, ast_import, preferred_position=None):
    if ast_import.module is None:
        raise CouldNotExtractObjectImportFromAstException
    renames = RenameStatementCollection([RenameStatement(a.name, a.asname) for a in ast_import.names if a.asname is not None])
    return ObjectImportStatement([a.name for a in ast_import.names], ast_import.module, renames, preferred_position=preferred_position)


@contract(ST + 'module:ModuleImportStatement.from_ast_import', 'C18', ast_import=TRef('ast.Import', names=TList(ALIAS)), preferred_position=POS)
def mod_from_ast(cls, ast_import, preferred_position=None):
    renames = RenameStatementCollection([RenameStatement(a.name, a.asname) for a in ast_import.names if a.asname is not None])
    return ModuleImportStatement([a.name for a in ast_import.names], renames, preferred_position=preferred_position)


@contract(ST + 'module:ModuleImportStatement.module', 'C18', self=MODSELF.but(modules=TList(TStr(), 1)))
def the_module(self):
    if len(self.modules) > 1:
        raise ValueError
    return self.modules[0]


@contract(ISC + '.modules', 'C18', self=IMPORTS)
def modules(self):
    out = []
    for s in self.items:
        if isinstance(s, ObjectImportStatement):
            out.append(s.module)
        elif isinstance(s, ModuleImportStatement):
            out.extend(s.modules)
    return out


@contract(ISC + '.objs', 'C18', self=IMPORTS)
def objs(self):
    out = []
    for s in self.items:
        if isinstance(s, ObjectImportStatement):
            out.extend(s.objs)
    return out


@contract(ISC + '.obj_name_is_imported', 'C18', self=IMPORTS, obj_name=TStr())
def is_imported(self, obj_name):
    """an object by its name, or by its module when the name has one"""
    parts = obj_name.split('.')
    for s in self.items:
        if isinstance(s, ModuleImportStatement):
            if len(parts) != 1 and ('.'.join(parts[:-1]) in s.modules or '.'.join(parts[:-1]) in [r.new_name for r in s.renames.items]):
                return True
        elif isinstance(s, ObjectImportStatement):
            if parts[-1] in s.objs or parts[-1] in [r.new_name for r in s.renames.items]:
                return True
    return False


@assumed('pyfileconf.io.file.load.parsers.extname:extract_external_name_from_assign_value', 'the root name of an expression (bounded: C18)', opts={'alt': True})
def root_name(ast_node):
    return query('root name', ast_node, ty=MAYBE)


MAYBE = TOneOf(None, TStr())


@assumed(ISC + '.get_import_for_module_or_obj_name', 'verified as lookup_import', opts={'alt': True})
def import_of(self, name):
    return query('import of', self, name)


@contract(ISC + '.get_import_for_ast_obj', 'C18', use=['root_name', 'import_of'], self=IMPORTS, obj_ast=TRef('ast.expr'))
def import_for_ast(self, obj_ast):
    """what needs no name needs no import"""
    name = query('root name', obj_ast, ty=MAYBE)
    return None if name is None else query('import of', self, name)


@assumed('pyfileconf.imports.logic.load.ext_importlib:get_filepath_from_module_str', 'where a module comes from (bounded: C14)', opts={'alt': True})
def file_of(module_str, location_section_path_str=None):
    return query('file of', module_str, location_section_path_str, ty=TEXT)


TEXT = TStr()


@contract(ST + 'module:ModuleImportStatement.get_module_filepaths', 'C14', use=['file_of'], self=MODSELF, import_section_path_str=POS)
def filepaths(self, import_section_path_str=None):
    return {m: query('file of', m, import_section_path_str, ty=TEXT) for m in self.modules}


@contract(ST + 'obj:ObjectImportStatement.get_module_filepath', 'C14', use=['file_of'], self=OBJSELF, import_section_path_str=POS)
def filepath(self, import_section_path_str=None):
    return query('file of', self.module, import_section_path_str, ty=TEXT)


@contract('pyfileconf.io.func.load.args:get_module_filepath_from_import', 'C14', use=['file_of'], imp=TOneOf(None, OBJSELF, MODSELF.but(modules=TFixedList(TStr())), COMMENT), import_section_path_str=POS)
def file_of_import(imp, import_section_path_str):
    if imp is None:
        return None
    if isinstance(imp, ObjectImportStatement):
        return query('file of', imp.module, import_section_path_str, ty=TEXT)
    if isinstance(imp, ModuleImportStatement):
        return query('file of', imp.modules[0], import_section_path_str, ty=TEXT)
    raise ValueError
