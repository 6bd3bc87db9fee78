"""Contracts on the views of items: the name, the module and the import behind an item (C01, C13, C20)."""
from pyvc.api import *
if False:
    import ast
    import importlib
    from pyfileconf.views.object import ObjectView
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.imports.models.statements.module import ModuleImportStatement
    from pyfileconf.imports.models.tracker import ImportTracker
    from pyfileconf.io.func.load.config import FunctionConfigExtractor

V = 'pyfileconf.views.object:'
OV = V + 'ObjectView'
ST = 'pyfileconf.imports.models.statements.'
OBJIMP = TRef(ST + 'obj:ObjectImportStatement', module=TStr(), objs=TList(TStr(), 1))
MODIMP = TRef(ST + 'module:ModuleImportStatement', modules=TList(TStr(), 1))
IMP = TOneOf(None, OBJIMP, MODIMP)
RESULT = TList(TAny(), 1)
NAMES = TList(TStr())
ITEM = TAny()


@assumed(ST + 'obj:ObjectImportStatement.execute', 'executing the import (verified as exec_object)', opts={'alt': True})
def run_object_import(self, import_section_path_str=None):
    return [x for x in effect('import', self, import_section_path_str, ty=RESULT, may_raise=True)]


@assumed(ST + 'module:ModuleImportStatement.execute', 'executing the import (verified as exec_module)', opts={'alt': True})
def run_module_import(self, import_section_path_str=None):
    return [x for x in effect('import', self, import_section_path_str, ty=RESULT, may_raise=True)]


@contract(V + '_execute_import_get_obj_from_result', 'C01 C20', use=['run_object_import', 'run_module_import'], import_statement=TOneOf(OBJIMP, MODIMP), obj_name=TStr())
def imported_object(import_statement, obj_name):
    """the object itself, or what the module has under that name"""
    result = [x for x in effect('import', import_statement, None, ty=RESULT, may_raise=True)]
    if isinstance(import_statement, ObjectImportStatement):
        return result[0]
    return getattr(result[0], obj_name)


@assumed(V + '_execute_import_get_obj_from_result', 'verified as imported_object', opts={'alt': True})
def object_by_import(import_statement, obj_name):
    return effect('import object', import_statement, obj_name, may_raise=True)


@assumed('pyfileconf.imports.models.tracker:ImportTracker.__init__', 'verified as contracts.main.tracker_init (C20)', opts={'alt': True})
def track(self):
    effect('track')


@assumed('pyfileconf.imports.models.tracker:ImportTracker.imported_modules', 'verified as contracts.main.imported_modules (C20)', opts={'alt': True})
def tracked(self):
    return [m for m in query('tracked', ty=NAMES)]


SELF = TObj(OV, _name=TStr(), import_statement=IMP, imported_modules=TList(TStr()), _item=TAny())


@contract(OV + '.load', 'C01 C20', use=['object_by_import', 'track', 'tracked'], self=SELF)
def load(self):
    """the item is imported again and kept; the modules first imported by it are remembered"""
    if self.import_statement is not None:
        effect('track')
        self._item = effect('import object', self.import_statement, self._name, may_raise=True)
        self.imported_modules.extend([m for m in query('tracked', ty=NAMES)])
    return self._item


@contract(OV + '._set_module', 'C01', self=TObj(OV, import_statement=IMP, _module=TAny()))
def set_module(self):
    if isinstance(self.import_statement, ObjectImportStatement):
        self._module = self.import_statement.module
    elif isinstance(self.import_statement, ModuleImportStatement):
        self._module = self.import_statement.modules[0]
    else:
        self._module = None
        raise ValueError


@assumed('pyfileconf.io.file.load.parsers.extname:extract_external_name_from_assign_value', 'the name at the root of an expression (bounded: C12)', opts={'alt': True})
def root_name(ast_node):
    return None if pure_bool('no name', ast_node) else query('root name', ast_node, ty=STR, may_raise=True)


@assumed('pyfileconf.io.file.load.parsers.kwargs:extract_keywords_from_ast_by_name', 'the keyword arguments of that name', opts={'alt': True})
def keyword(node, name):
    return query('keywords', node, name, ty=KEYWORDS)


STR = TStr()
KEYWORDS = TDict(TStr(), TRef('ast.Constant', s=TStr()))


@contract(OV + '._set_name', 'C01', use=['root_name', 'keyword'], self=TObj(OV, obj_ast=TRef('ast.expr')))
def set_name(self):
    name = None if pure_bool('no name', self.obj_ast) else query('root name', self.obj_ast, ty=STR, may_raise=True)
    if name == 'DataPipeline':
        self._output_name = query('keywords', self.obj_ast, 'name', ty=KEYWORDS)['name'].s
    self._name = name


@assumed(ST + 'container:ImportStatementContainer.get_import_for_ast_obj', 'the import which binds the root name (C18)', opts={'alt': True})
def import_for(self, obj_ast):
    return pure('import for', self, obj_ast, ty=OBJIMP)


IMPORTS = TRef(ST + 'container:ImportStatementContainer')


@contract(OV + '.from_ast_and_imports', 'C01', use=['import_for'], obj_ast=TRef('ast.expr'), import_statements=IMPORTS,
          section_path_str=TOneOf(None, TStr()))
def from_ast(cls, obj_ast, import_statements, section_path_str=None):
    """the view of an item knows the import which binds it and the path it is under"""
    return ObjectView(obj_ast, import_statement=pure('import for', import_statements, obj_ast, ty=OBJIMP), section_path_str=section_path_str)


@assumed('pyfileconf.io.func.load.config:FunctionConfigExtractor.extract_config', 'verified as contracts.signatures.extract_config (C14)', opts={'alt': True})
def config_of(self, name=None):
    return query('config of', self.object_view is None, name)


@contract(OV + '._get_default_config', 'C14', use=['config_of'], self=TObj(OV, _name=TStr()))
def default_config(self):
    self._default_config = query('config of', False, self._name)


# ---- executing imports
MODULE = TRef('module')


@contract(ST + 'obj:ObjectImportStatement.execute', 'C01 C20', self=OBJIMP, import_section_path_str=TOneOf(None, TStr()),
          opts={'reads': {'importlib.import_module': (MODULE, True)}})
def exec_object(self, import_section_path_str=None):
    """each of the objects, as the module has it"""
    module = importlib.import_module(self.module, import_section_path_str)
    return [getattr(module, name) for name in self.objs]


@contract(ST + 'module:ModuleImportStatement.execute', 'C01 C20', self=MODIMP, import_section_path_str=TOneOf(None, TStr()),
          opts={'reads': {'importlib.import_module': (MODULE, True)}})
def exec_module(self, import_section_path_str=None):
    return [importlib.import_module(name, import_section_path_str) for name in self.modules]


@contract(ST + 'module:ModuleImportStatement.module', 'C18', self=MODIMP)
def one_module(self):
    if len(self.modules) > 1:
        raise ValueError
    return self.modules[0]
