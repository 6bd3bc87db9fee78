"""Contracts on making configs of functions and classes, and on writing their config files (C02, C12, C14, C22)."""
from pyvc.api import *
if False:
    import ast
    import os
    from pyfileconf.basemodels.config import ConfigBase
    from pyfileconf.basemodels.file import ConfigFileBase
    from pyfileconf.data.models.config import SpecificClassConfig
    from pyfileconf.data.models.file import SpecificClassConfigFile
    from pyfileconf.data.models.collection import SpecificClassCollection
    from pyfileconf.pipelines.models.config import FunctionConfig
    from pyfileconf.pipelines.models.collection import PipelineCollection
    from pyfileconf.imports.models.statements.container import ImportStatementContainer
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.imports.models.statements.module import ModuleImportStatement
    from pyfileconf.assignments.models.container import AssignmentStatementContainer
    from pyfileconf.assignments.models.statement import AssignmentStatement
    from pyfileconf.exceptions.imports import ExtractedIncorrectTypeOfImportException
    from pyfileconf.views.object import ObjectView
    from pyfileconf.data.models.astitems import ast_none

CB = 'pyfileconf.basemodels.config:ConfigBase'
CFB = 'pyfileconf.basemodels.file:ConfigFileBase'
FC = 'pyfileconf.pipelines.models.config:FunctionConfig'
FCF = 'pyfileconf.pipelines.models.file:FunctionConfigFile'
SC = 'pyfileconf.data.models.config:SpecificClassConfig'
SCF = 'pyfileconf.data.models.file:SpecificClassConfigFile'
PC = 'pyfileconf.pipelines.models.collection:PipelineCollection'
SCC = 'pyfileconf.data.models.collection:SpecificClassCollection'
VIEWC = 'pyfileconf.views.object:ObjectView'
ISC = 'pyfileconf.imports.models.statements.container:ImportStatementContainer'
AST = 'pyfileconf.assignments.models.statement:AssignmentStatement'
OPTSTR = TOneOf(None, TStr())
STRS = TOneOf(None, TList(TStr()))


# ---- a config
@contract(CB + '.__init__', 'C02 C14', self=TObj(CB, TDict()), d=TOneOf(None, TDict()), name=TAny(), annotations=TAny(), imports=TAny(),
          _file=TAny(), begin_assignments=TAny(), klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(), kw__=TDict())
def config_init(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None, klass=None,
                always_import_strs=None, always_assign_strs=None, **kwargs):
    """the items given, nothing else, and no update is remembered yet"""
    for k, v in ({} if d is None else d).items():
        dict.__setitem__(self, k, v)
    for k, v in kwargs.items():
        dict.__setitem__(self, k, v)
    self.name = name
    self.annotations = {} if annotations is None else annotations
    self.imports = ImportStatementContainer([]) if imports is None else imports
    self._file = _file
    self.begin_assignments = AssignmentStatementContainer([]) if begin_assignments is None else begin_assignments
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self._applied_updates = {}


@assumed('pyfileconf.basemodels.config:_values_are_equal', 'verified in contracts.config (C03)', opts={'alt': True})
def values_eq(val1, val2):
    return pure_bool('values_equal', val1, val2)


@contract('pyfileconf.basemodels.config:configs_are_equal', 'C03 C08', use=['values_eq'], conf1=TDict(TStr()), conf2=TDict(TStr()))
def equal_configs(conf1, conf2):
    """same keys, each with equal values"""
    if conf1.keys() != conf2.keys():
        return False
    for k, v in conf1.items():
        if not pure_bool('values_equal', v, conf2[k]):
            return False
    return True


# ---- reading one
@assumed(CFB + '.__init__', 'verified in contracts.files', opts={'alt': True})
def file_made(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    self.filepath = filepath
    self.name = name
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self.interface = pure('interface of', self, filepath)


@assumed(CFB + '.load', 'verified in contracts.files', opts={'alt': True})
def file_loaded(self, config_class=None):
    return query('load config file', type(self), self.filepath, self.name, self.klass, config_class, ty=CONF, may_raise=True)


CONF = TObj(CB, TDict())


@contract(FC + '.from_file', 'C12 C14', use=['file_made', 'file_loaded'], opts={'cls': FC}, filepath=TStr(), name=OPTSTR, klass=TAny(), always_import_strs=STRS,
          always_assign_strs=STRS)
def function_config_from_file(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return query('load config file', cls.config_file_class, filepath, name, klass, cls, ty=CONF, may_raise=True)


# ---- the file of a class
@assumed('pyfileconf.imports.models.statements.obj:ObjectImportStatement.from_str', 'verified in contracts.imports', opts={'alt': True})
def object_import(cls, import_str, renames=None, comment=None, preferred_position=None):
    if pure_bool('no from-import', import_str):
        raise ExtractedIncorrectTypeOfImportException
    return pure('object import', import_str, ty=OIS)


@assumed('pyfileconf.imports.models.statements.module:ModuleImportStatement.from_str', 'an import statement from its text (bounded: C18)', opts={'alt': True})
def module_import(cls, import_str, renames=None, comment=None, preferred_position=None):
    return query('module import', import_str, ty=MIS, may_raise=True)


@assumed(AST + '.from_str', 'an assignment from its text (bounded: C12)', opts={'alt': True})
def assign_of(cls, assignment_str, annotation=None, preferred_position=None):
    return query('assignment', assignment_str, ty=ASG, may_raise=True)


OIS = TRef('pyfileconf.imports.models.statements.obj:ObjectImportStatement')
MIS = TRef('pyfileconf.imports.models.statements.module:ModuleImportStatement')
ASG = TRef(AST)
ANY = TAny()


@contract(SCF + '.__init__', 'C12 C22', use=['file_made', 'object_import', 'module_import', 'assign_of'], self=TObj(SCF), filepath=TStr(), name=OPTSTR, klass=TAny(),
          always_import_strs=STRS, always_assign_strs=STRS)
def class_file_init(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    """imports and assignments given for the class replace the usual ones, an empty list removes them"""
    self.filepath = filepath
    self.name = name
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self.interface = pure('interface of', self, filepath)
    if always_import_strs is not None and len(always_import_strs) == 0:
        self.always_imports = []
    elif always_import_strs is not None:
        imports = []
        for s in always_import_strs:
            if pure_bool('no from-import', s):
                imports.append(query('module import', s, ty=MIS, may_raise=True))
            else:
                imports.append(pure('object import', s, ty=OIS))
        self.always_imports = imports
    if always_assign_strs is not None and len(always_assign_strs) == 0:
        self.always_assigns = []
    elif always_assign_strs is not None:
        self.always_assigns = [query('assignment', s, ty=ASG, may_raise=True) for s in always_assign_strs]


# ---- writing the file of a function
@assumed(FC + '.from_file', 'verified as function_config_from_file', opts={'alt': True})
def conf_of_file(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return query('config in file', filepath, name, ty=FCONF, may_raise=True)


@assumed(CB + '.copy', 'an equal, independent config', opts={'alt': True})
def conf_copy(self):
    return query('copy of config', self, ty=FCONF)


@assumed(CB + '.to_file', 'verified in contracts.files', opts={'alt': True})
def conf_to_file(self, filepath):
    effect('write config', snapshot(self), filepath, may_raise=True)


FCONF = TObj(FC, TDict(TStr()), name=TAny(), annotations=TAny(), imports=TAny(), _file=TAny(), begin_assignments=TAny(), klass=TAny(), always_import_strs=TAny(),
             always_assign_strs=TAny(), _applied_updates=TDict(TStr()))


@contract(PC + '._output_config_file', 'C12 C22', use=['conf_of_file', 'conf_copy', 'conf_to_file', 'outputs', 'output_name', 'defaults_of'],
          self=TObj(PC, basepath=TStr()), item=TOneOf(TRef(PC), TRef(VIEWC), TStr()))
def write_item_file(self, item):
    """a missing file is made from the defaults of the function; what an existing file says overrides the defaults"""
    if isinstance(item, PipelineCollection):
        effect('write files of', item, may_raise=True)
        return
    if not isinstance(item, ObjectView):
        raise ValueError
    name = query('output name', item, ty=NAME, may_raise=True)
    path = os.path.join(self.basepath, name + '.py')
    existing = {}
    if os.path.exists(path):
        existing = query('config in file', path, name, ty=FCONF, may_raise=True)
    conf = query('copy of config', query('default config of', item, ty=FCONF, may_raise=True), ty=FCONF)
    for k, v in existing.items():
        dict.__setitem__(conf, k, v)
        conf._applied_updates[k] = v
    effect('write config', snapshot(conf), path, may_raise=True)


NAME = TStr()


@assumed(VIEWC + '.output_name', 'the name of the object (views.py)', opts={'alt': True})
def output_name(self):
    return query('output name', self, ty=NAME, may_raise=True)


@assumed(VIEWC + '.default_config', 'verified in contracts.views', opts={'alt': True})
def defaults_of(self):
    return query('default config of', self, ty=FCONF, may_raise=True)


@assumed(PC + '._output_config_files', 'verified in contracts.collections', opts={'alt': True})
def outputs(self):
    effect('write files of', self, may_raise=True)


# ---- the config of an object of a class
@assumed('pyfileconf.io.file.load.lazy.config:ConfigFileLoader.load', 'verified in contracts.loaders', opts={'alt': True})
def values_read(self):
    return query('values and annotations', self, ty=PAIR, may_raise=True)


PAIR = TTuple(TDict(TStr()), TDict(TStr()))
CIFACE = TRef('pyfileconf.io.file.interfaces.config:ConfigFileInterface', _imports=TRef(ISC))


@assumed('pyfileconf.io.file.load.lazy.base.impassign:ImportAssignmentLazyLoader.imports', 'the imports in the file', opts={'alt': True})
def imports_read(self):
    return query('imports in file', self, ty=ISREF)


ISREF = TRef(ISC)


@assumed(SC + '.__init__', 'verified as class_config_init', opts={'alt': True})
def class_config_made(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None,
                      always_import_strs=None, always_assign_strs=None, klass=None, file_path=None, **kwargs):
    self.made_from = pure('made from', d, name, annotations, imports, _file, begin_assignments, always_import_strs, always_assign_strs, klass, file_path)


@contract(SCF + '.load', 'C12 C14', use=['values_read', 'class_config_made', 'imports_read'],
          self=TObj(SCF, filepath=TStr(), name=TAny(), klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(), interface=CIFACE),
          config_class=TConst(None))
def class_file_load(self, config_class=None):
    values, notes = query('values and annotations', self.interface, ty=PAIR, may_raise=True)
    return SpecificClassConfig(d=values, annotations=notes, imports=query('imports in file', self.interface, ty=ISREF), _file=self, name=self.name, klass=self.klass,
                               always_assign_strs=self.always_assign_strs, always_import_strs=self.always_import_strs)


@assumed(SCF + '.__init__', 'verified as class_file_init', opts={'alt': True})
def class_file_made(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    self.filepath = filepath
    self.name = name
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs


@assumed(CB + '.__init__', 'verified as config_init', opts={'alt': True})
def base_config_made(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None, klass=None,
                     always_import_strs=None, always_assign_strs=None, **kwargs):
    for k, v in ({} if d is None else d).items():
        dict.__setitem__(self, k, v)
    for k, v in kwargs.items():
        dict.__setitem__(self, k, v)
    self.made_from = pure('made from', name, annotations, imports, _file, begin_assignments, klass, always_import_strs, always_assign_strs)


@contract(SC + '.__init__', 'C12 C14', use=['class_file_made', 'base_config_made'], self=TObj(SC, TDict()), d=TOneOf(None, TDict()), name=TAny(),
          annotations=TAny(), imports=TAny(), _file=TAny(), begin_assignments=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(), klass=TAny(),
          file_path=OPTSTR, kw__=TDict())
def class_config_init(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None, always_import_strs=None,
                      always_assign_strs=None, klass=None, file_path=None, **kwargs):
    """a config with the given items whose files have the imports and assignments of the class"""
    self.config_file_class = SpecificClassConfigFile(file_path, name=name, klass=klass, always_import_strs=always_import_strs,
                                                     always_assign_strs=always_assign_strs)
    for k, v in ({} if d is None else d).items():
        dict.__setitem__(self, k, v)
    for k, v in kwargs.items():
        dict.__setitem__(self, k, v)
    self.made_from = pure('made from', name, annotations, imports, _file, begin_assignments, klass, always_import_strs, always_assign_strs)


# ---- writing the files of the objects of a class
@assumed(SCC + '._output_config_file', 'verified as write_object_file', opts={'alt': True})
def object_file(self, item):
    effect('write file of', item, may_raise=True)


@assumed(SCC + '._output_config_files', 'verified as write_object_files', opts={'alt': True})
def object_files(self):
    effect('write files of', self, may_raise=True)


@contract(SCC + '._output_config_files', 'C22 C12', use=['object_file'], self=TObj(SCC, basepath=TStr(), _items=TList(TRef(None))))
def write_object_files(self):
    if not os.path.exists(self.basepath):
        os.makedirs(self.basepath)
    for x in self._items:
        effect('write file of', x, may_raise=True)


@assumed('pyfileconf.data.logic.convert:convert_to_empty_obj_if_necessary', 'verified in contracts.creating', opts={'alt': True})
def empty_obj(item, klass, key_attr='name'):
    return query('object for', item, klass, key_attr, may_raise=True)


@contract(SCC + '._transform_item', 'C21 C13', use=['empty_obj'], self=TObj(SCC, klass=TAny(), key_attr=TStr()), item=TAny())
def class_transform(self, item):
    return query('object for', item, self.klass, self.key_attr, may_raise=True)


@contract(FCF + '.save', 'C12', use=['base_save', 'source_of'], self=TObj(FCF, name=OPTSTR), config=TObj(FC, TDict(TStr())))
def function_file_save(self, config):
    """only the cleanup_kwargs of a DataPipeline which are None are left to the assignment which is always there"""
    if self.name == 'DataPipeline' and 'cleanup_kwargs' in config and query('source of', config['cleanup_kwargs'], ty=NAME) == 'None\n':
        config.pop('cleanup_kwargs')
    effect('save', snapshot(config), may_raise=True)


@assumed(CFB + '.save', 'verified in contracts.files', opts={'alt': True})
def base_save(self, config):
    effect('save', snapshot(config), may_raise=True)


@assumed('pyfileconf.io.file.write.asttosource:ast_node_to_source', 'the source of a node', opts={'alt': True})
def source_of(node):
    return query('source of', node, ty=NAME)


# ---- the file of one object
@assumed('pyfileconf.imports.logic.load.name:get_module_and_name_imported_from', 'verified in contracts.creating', opts={'alt': True})
def origin(obj, global_vars=None, preferred_module=None):
    return query('origin of', obj, ty=ORIGIN, may_raise=True)


ORIGIN = TTuple(TAny(), TStr())


@assumed('pyfileconf.io.func.load.args:extract_function_args_and_arg_imports_from_import', 'verified in contracts.signatures', opts={'alt': True})
def signature_of(function_name, imp, import_section_path_str=None):
    return query('signature of', function_name, imp, ty=SIG, may_raise=True)


SIG = TTuple(TRef('ast.arguments'), TList(TAny()))


@assumed('pyfileconf.io.func.load.config:function_args_as_arg_and_annotation_dict', 'verified in contracts.files', opts={'alt': True})
def defaults_and_notes(args):
    return query('defaults of', args, ty=PAIR)


@assumed('pyfileconf.imports.models.statements.obj:ObjectImportStatement.__init__', 'an import statement', opts={'alt': True})
def new_import(self, objs, module, renames=None, comment=None, preferred_position=None):
    self.what = pure('import', [x for x in objs], module)


@assumed('pyfileconf.data.models.astitems:ast_str', 'the node of a string', opts={'alt': True})
def string_node(string):
    return pure('string node', string)


@assumed(CB + '.from_file', 'reading the config file of an object', opts={'alt': True})
def object_config_read(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return query('config in file', filepath, name, klass, always_import_strs, always_assign_strs, ty=SCONF, may_raise=True)


@assumed(SC + '.__init__', 'verified as class_config_init', opts={'alt': True})
def object_config(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None, always_import_strs=None,
                  always_assign_strs=None, klass=None, file_path=None, **kwargs):
    self.annotations = {}
    self.imports = ImportStatementContainer([]) if imports is None else imports
    self._applied_updates = {}
    self.made_from = pure('made from', always_import_strs, always_assign_strs, klass, file_path)


SCONF = TRef(SC, _file=TRef(SCF, interface=CIFACE))


@contract(SCC + '._output_config_file', 'C12 C14 C22', use=['object_files', 'origin', 'signature_of', 'defaults_and_notes', 'new_import', 'string_node', 'object_config_read',
                                                            'object_config', 'conf_to_file', 'imports_read'], opts={'getattr': {'object': TStr()}, 'alt': True},
          self=TObj(SCC, basepath=TStr(), klass=TRef('type', __name__=TStr()), key_attr=TStr(), always_import_strs=TAny(), always_assign_strs=TAny()),
          item=TRef('object'))
def write_object_file(self, item):
    """every argument of the constructor with its default, the key attribute with the name of the object, the imports needed, besides what
    the file imports already"""
    requires(not isinstance(item, SpecificClassCollection))
    name = getattr(item, self.key_attr)
    path = os.path.join(self.basepath, name + '.py')
    imports = None
    if os.path.exists(path):
        existing = query('config in file', path, name, self.klass, self.always_import_strs, self.always_assign_strs, ty=SCONF, may_raise=True)
        imports = query('imports in file', existing._file.interface, ty=ISREF)
    conf = SpecificClassConfig(imports=imports, file_path=path, klass=self.klass, always_import_strs=self.always_import_strs,
                               always_assign_strs=self.always_assign_strs)
    module, module_name = query('origin of', self.klass, ty=ORIGIN, may_raise=True)
    args, needed = query('signature of', self.klass.__name__, ObjectImportStatement([name], module_name), ty=SIG, may_raise=True)
    defaults, notes = query('defaults of', args, ty=PAIR)
    values = {**defaults}
    values[self.key_attr] = pure('string node', name)
    for k, v in values.items():
        conf[k] = v
        conf._applied_updates[k] = v
    for k, v in notes.items():
        conf.annotations[k] = v
    conf.imports.extend(needed)
    effect('write config', snapshot(conf), path, may_raise=True)


@contract(SCC + '._output_config_file', 'C22 C12', use=['object_files'], opts={'alt': True}, self=TObj(SCC, basepath=TStr()), item=TRef(SCC))
def write_nested_files(self, item):
    effect('write files of', item, may_raise=True)
