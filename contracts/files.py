"""Contracts on the configuration files and what is written to them (C12, C14, C22)."""
from pyvc.api import *
if False:
    import ast
    import os
    import inspect
    from pyfileconf.basemodels.config import ConfigBase
    from pyfileconf.assignments.models.statement import AssignmentStatement
    from pyfileconf.assignments.models.container import AssignmentStatementContainer
    from pyfileconf.imports.models.statements.container import ImportStatementContainer

A = 'pyfileconf.assignments.models.'
ASC = A + 'container:AssignmentStatementContainer'
AS = A + 'statement:AssignmentStatement'
BASE = 'pyfileconf.basemodels.container:Container'
ISC = 'pyfileconf.imports.models.statements.container:ImportStatementContainer'
STMT = TRef(AS, varname=TStr(), value=TAny(), annotation=TAny(), prefer_beginning=TBool())
ASSIGNS = TObj(ASC, items=TList(STMT))
ASTDICT = TDict()
PAIR = TTuple(ASTDICT, ASTDICT)


@contract(ASC + '.contains_varname', 'C12', self=ASSIGNS, varname=TStr())
def contains_varname(self, varname):
    return varname in [a.varname for a in self.items]


@assumed(AS + '.to_default_dict_and_annotation_dict', 'the name(s) a statement assigns with the value and the annotation', opts={'alt': True})
def statement_dicts(self):
    return query('dicts of statement', self, ty=PAIR)


@contract(ASC + '.to_default_dict_and_annotation_dict', 'C12', use=['statement_dicts'], self=ASSIGNS)
def to_dicts(self):
    """the last statement wins, the order is that of the first"""
    values, notes = {}, {}
    for a in self.items:
        d, n = query('dicts of statement', a, ty=PAIR)
        values.update(d)
        notes.update(n)
    return values, notes


@contract(ASC + '.from_dict_of_varnames_and_ast', 'C12 C14', assignment_dict=TDict(), annotation_dict=TOneOf(None, TDict()), preferred_position=TOneOf(None, TStr()))
def from_dict(cls, assignment_dict, annotation_dict=None, preferred_position=None):
    """one statement per name, in order, with the value and the annotation of that name"""
    notes = {} if annotation_dict is None else annotation_dict
    out = []
    for name, value in assignment_dict.items():
        out.append(AssignmentStatement(ast.Name(id=name, ctx=ast.Store()), value=value, annotation=notes[name] if name in notes else None, preferred_position=preferred_position))
    return AssignmentStatementContainer(out)


# ---- one assignment statement
NAME = TRef('ast.Name', id=TStr())
ATTR = TRef('ast.Attribute', attr=TStr())
ASSIGN = TRef('ast.Assign', targets=TList(NAME, 1), value=TAny())
ANN = TRef('ast.AnnAssign', target=NAME, value=TAny(), annotation=TAny())


@contract(AS + '.from_ast_assign', 'C12', ast_assign=TOneOf(ASSIGN, ANN, TRef('ast.AugAssign')), preferred_position=TOneOf(None, TStr()))
def from_ast(cls, ast_assign, preferred_position=None):
    """the target, the value and the annotation of the node; several targets are refused"""
    if isinstance(ast_assign, ast.Assign):
        if len(ast_assign.targets) > 1:
            raise NotImplementedError
        return AssignmentStatement(ast_assign.targets[0], ast_assign.value, None, preferred_position=preferred_position)
    if isinstance(ast_assign, ast.AnnAssign):
        return AssignmentStatement(ast_assign.target, ast_assign.value, ast_assign.annotation, preferred_position=preferred_position)
    raise ValueError


SELF = dict(varname=TStr(), value=TAny(), annotation=TOneOf(None, TRef('node')), prefer_beginning=TBool(), created_from_str=TBool(), orig_str=TOneOf(None, TStr()))


@contract(AS + '.to_ast', 'C12', self=TObj(AS, target=NAME, **SELF))
def to_ast(self):
    if self.annotation is None:
        return ast.Assign(targets=[self.target], value=self.value)
    return ast.AnnAssign(target=self.target, value=self.value, annotation=self.annotation, simple=1)


@contract(AS + '.to_default_dict_and_annotation_dict', 'C12', self=TObj(AS, target=NAME, **SELF))
def name_dicts(self):
    return {self.target.id: self.value}, ({} if self.annotation is None else {self.target.id: self.annotation})


@assumed('pyfileconf.io.file.write.asttosource:ast_node_to_source', 'the source of a node is a function of the node (bounded: C12)', opts={'alt': True})
def source(ast_node):
    return pure_str('source', ast_node)


@assumed(AS + '.to_ast', 'verified as to_ast', opts={'alt': True})
def node(self):
    return pure('node of', self)


@contract(AS + '.__str__', 'C12', use=['source', 'node'], self=TObj(AS, target=NAME, **SELF).but(orig_str=TStr()))
def statement_str(self):
    """a statement made from text is that text"""
    return self.orig_str if self.created_from_str else pure_str('source', pure('node of', self))


@assumed(AS + '.from_ast_assign', 'verified as from_ast', opts={'alt': True})
def converted(cls, ast_assign, preferred_position=None):
    return query('statement of node', ast_assign, ty=CONVERTED, may_raise=True)


CONVERTED = TRef(AS, varname=TStr(), value=TAny())


@contract(AS + '.__eq__', 'C12', use=['source', 'converted'], self=TObj(AS, target=NAME, **SELF), other=TOneOf(TObj(AS, target=NAME, **SELF), TRef('ast.Name'), TRef('ast.Assign'), TStr(), None))
def statement_eq(self, other):
    """the same name and the same source of the value; a node is compared as the statement made of it"""
    if isinstance(other, ast.Assign):
        other = AssignmentStatement.from_ast_assign(other)
    if not isinstance(other, AssignmentStatement):
        return False
    return self.varname == other.varname and pure_str('source', self.value) == pure_str('source', other.value)


# ---- a config file
CFB = 'pyfileconf.basemodels.file:ConfigFileBase'
CB = 'pyfileconf.basemodels.config:ConfigBase'
IMP = TRef('import')
IMPORTS = TObj(ISC, items=TList(IMP))
FILE = TObj(CFB, interface=TRef('interface'), filepath=TStr(), name=TStr(), klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(),
            always_imports=TList(IMP), always_assigns=TList(STMT), always_assign_with_names_dict=TDict())


@assumed(BASE + '.add_if_missing', 'verified as add_if_missing in contracts/imports', opts={'alt': True})
def add_import(self, item):
    effect('add import', self, item, may_raise=False)


CONFIG = TObj(CB, TDict(), name=TAny(), annotations=TDict(), imports=IMPORTS, begin_assignments=TAny(), _applied_updates=TDict())


@assumed(ASC + '.to_default_dict_and_annotation_dict', 'verified as to_dicts', opts={'alt': True})
def all_dicts(self):
    return query('dicts of statements', snapshot(self.items), ty=PAIR, may_raise=False)



@contract(CFB + '._add_always_imports_and_assigns_to_config', 'C12 C22', use=['add_import', 'all_dicts'],
          self=FILE.but(always_assign_with_names_dict=TDict(TStr(), TList(STMT))), config=CONFIG)
def add_always(self, config):
    """the imports that always are there are added, the statements that come first replace those of the config, the others
    only fill in names that the config does not have"""
    for imp in self.always_imports:
        effect('add import', config.imports, imp, may_raise=False)
    named = self.always_assign_with_names_dict[self.name] if self.name in self.always_assign_with_names_dict else []
    config.begin_assignments = AssignmentStatementContainer([a for a in self.always_assigns if a.prefer_beginning] + [a for a in named if a.prefer_beginning])
    rest = [a for a in self.always_assigns if not a.prefer_beginning] + [a for a in named if not a.prefer_beginning]
    values, notes = query('dicts of statements', rest, ty=PAIR, may_raise=False)
    for k, v in values.items():
        if k not in config:
            config[k] = v
            config._applied_updates[k] = v
    for k, v in notes.items():
        if k not in config.annotations:
            config.annotations[k] = v


@contract(CFB + '.__init__', 'C12', self=TObj(CFB), filepath=TStr(), name=TOneOf(None, TStr()), klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(),
          opts={'reads': {'pyfileconf.io.file.interfaces.config:ConfigFileInterface': None}})
def file_init(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    """named after its path unless a name is given"""
    self.interface = ConfigFileInterface(filepath)
    self.filepath = filepath
    self.name = _strip_py(os.path.basename(filepath)) if name is None else name
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs


IFACE = 'pyfileconf.io.file.interfaces.config:ConfigFileInterface'


@assumed('pyfileconf.io.file.load.lazy.config:ConfigFileLoader.load', 'the values and annotations of the file (bounded: C12)', opts={'alt': True})
def read_values(self):
    return effect('read values', self, ty=PAIR)


@assumed(IFACE + '.save', 'writing the file is verified as write_file', opts={'alt': True})
def write_values(self, config):
    effect('write', self, config)


@assumed(CFB + '._add_always_imports_and_assigns_to_config', 'verified as add_always', opts={'alt': True})
def with_always(self, config):
    effect('add what always is there', self, config)


@contract(CFB + '.save', 'C12 C22', use=['write_values', 'with_always'], self=FILE.but(interface=TRef(IFACE), always_assign_with_names_dict=TDict()), config=TRef(CB))
def save(self, config):
    """the file gets the config with what always is there, nothing else is written"""
    effect('add what always is there', self, config)
    effect('write', self.interface, config)


@contract(CFB + '.load', 'C12 C14', use=['read_values'], self=FILE.but(interface=TRef(IFACE, imports=TRef('imports')), always_assign_with_names_dict=TDict()), config_class=TOneOf(None, TRef('type', callable=True)))
def load(self, config_class=None):
    """a config of exactly the values, annotations and imports of the file, that knows the file"""
    values, notes = effect('read values', self.interface, ty=PAIR)
    if config_class is None:
        return ConfigBase(d=values, annotations=notes, imports=self.interface.imports, _file=self, name=self.name, klass=self.klass,
                          always_import_strs=self.always_import_strs, always_assign_strs=self.always_assign_strs)
    return opaque_call(config_class, d=values, annotations=notes, imports=self.interface.imports, _file=self, name=self.name, klass=self.klass,
                       always_import_strs=self.always_import_strs, always_assign_strs=self.always_assign_strs)


# ---- configs to files and back
@assumed(CFB + '.load', 'verified as load', opts={'alt': True})
def read_config(self, config_class=None):
    return effect('read config', self, config_class)


@assumed(CFB + '.save', 'verified as save', opts={'alt': True})
def write_config(self, config):
    effect('write config', snapshot(self), config)


@assumed(CFB + '.__init__', 'verified as file_init', opts={'alt': True})
def new_file(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    self.interface = pure('interface', filepath)
    self.filepath = filepath
    self.name = pure('base name', filepath) if name is None else name
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs


SIMPLE = TObj(CFB, interface=TRef(IFACE), filepath=TStr(), name=TStr(), klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny())
DATA = dict(name=TOneOf(None, TStr()), annotations=TDict(), imports=IMPORTS, begin_assignments=ASSIGNS, klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny(), _applied_updates=TDict())


@contract(CB + '.to_file', 'C12 C22', use=['read_config', 'write_config', 'new_file'], self=TObj(CB, TDict(), _file=TOneOf(None, SIMPLE), **DATA), filepath=TStr())
def to_file(self, filepath):
    """what the file holds already is read before it is written; the file the config came from keeps its path"""
    out = ConfigFileBase(filepath, name=self.name, klass=self.klass, always_import_strs=self.always_import_strs, always_assign_strs=self.always_assign_strs) if self._file is None else snapshot(self._file)
    out.filepath = filepath
    if os.path.exists(filepath):
        effect('read config', out, None)
    effect('write config', snapshot(out), self)


@contract(CB + '.from_file', 'C12 C14', use=['read_config', 'new_file'], opts={'alt': True}, filepath=TStr(), name=TOneOf(None, TStr()), klass=TAny(), always_import_strs=TAny(), always_assign_strs=TAny())
def from_file(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return effect('read config', ConfigFileBase(filepath, name=name, klass=klass, always_import_strs=always_import_strs, always_assign_strs=always_assign_strs), cls)


@assumed(ASC + '.from_dict_of_varnames_and_ast', 'verified as from_dict', opts={'alt': True})
def statements_of(cls, assignment_dict, annotation_dict=None, preferred_position=None):
    return AssignmentStatementContainer(pure('statements', snapshot(assignment_dict), snapshot(annotation_dict), ty=STMTS))


STMTS = TList(STMT)


@contract(CB + '.as_imports_and_assignments', 'C12', use=['statements_of'], self=TObj(CB, TDict(), **DATA))
def as_imports(self):
    """the imports of the config, and its first statements followed by one for each value"""
    return self.imports, AssignmentStatementContainer(self.begin_assignments.items + pure('statements', snapshot(self), snapshot(self.annotations), ty=STMTS))


# ---- the text of a file
W = 'pyfileconf.io.file.write.base:FileStr'
BODY = TList(TStr())


@assumed(W + '._combine_imports_get_new_assignments', 'what is new for the file (bounded: C12, C22)', opts={'alt': True})
def whats_new(self, import_assignment_obj, existing_imports, existing_assigns, existing_body):
    return query('new', import_assignment_obj, existing_imports, existing_assigns, snapshot(existing_body), ty=TRIPLE)


TRIPLE = TTuple(TRef(ISC), TRef(ASC), TRef(ASC))


@assumed(ISC + '.__str__', 'the text of imports (bounded: C18)', opts={'alt': True})
def imports_text(self):
    return pure_str('text', self)


@assumed(ASC + '.__str__', 'the text of statements (bounded: C12)', opts={'alt': True})
def assigns_text(self):
    return pure_str('text', self)


@contract(W + '._create_str', 'C12 C22', use=['whats_new', 'imports_text', 'assigns_text'], self=TObj(W), import_assignment_obj=TRef(CB),
          existing_imports=TRef(ISC), existing_assigns=TRef(ASC), existing_body=BODY)
def create_str(self, import_assignment_obj, existing_imports, existing_assigns, existing_body):
    """the imports, then the first statements, then the body as it was, then the new statements; one line break between
    them, a line break at the end of the body is not doubled"""
    imports, begin, end = query('new', import_assignment_obj, existing_imports, existing_assigns, snapshot(existing_body), ty=TRIPLE)
    body = '\n'.join(existing_body)
    first, last = pure_str('text', begin), pure_str('text', end)
    if last and body.endswith('\n'):
        body = body[:-1]
    out = pure_str('text', imports) + '\n'
    if first != '':
        out = out + '\n' + first
    if body != '':
        out = out + '\n' + body
    if last != '':
        out = out + '\n' + last
    return out


# ---- reading files
LAZY = 'pyfileconf.io.file.load.lazy.'
LL = LAZY + 'base.loader:LazyLoader'
IAL = LAZY + 'base.impassign:ImportAssignmentLazyLoader'
CFL = LAZY + 'config:ConfigFileLoader'


@assumed('pyfileconf.io.file.load.parsers.py:PythonFileParser.load', 'the syntax tree and the lines of a file (bounded: C12)', opts={'alt': True})
def parse_file(self):
    return effect('parse', self.filepath, ty=PARSED)


PARSED = TTuple(TRef('ast.Module'), BODY)


@contract(LL + '.register', 'C12', use=['parse_file'], self=TObj(LL, filepath=TStr()))
def register(self):
    """a file that is not there has no tree and no lines"""
    if os.path.exists(self.filepath):
        self._ast, self._body = effect('parse', self.filepath, ty=PARSED)
    else:
        self._ast, self._body = None, None


@assumed(LL + '.register', 'verified as register', opts={'alt': True})
def registered(self):
    effect('register', self)


@assumed('pyfileconf.io.file.load.parsers.imp:extract_imports_from_ast', 'the imports of a tree (bounded: C18)', opts={'alt': True})
def imports_in(module):
    return query('imports in', module, ty=IMPSREF)


@assumed('pyfileconf.io.file.load.parsers.assign:extract_assignments_from_ast', 'the assignments of a tree (bounded: C12)', opts={'alt': True})
def assigns_in(module):
    return query('assigns in', module, ty=ASSREF)


IMPSREF = TRef(ISC)
ASSREF = TRef(ASC)


@contract(IAL + '.register', 'C12', use=['imports_in', 'assigns_in', 'parse_file'], self=TObj(IAL, filepath=TStr()))
def register_both(self):
    """without a file: no imports and no assignments"""
    if os.path.exists(self.filepath):
        self._ast, self._body = effect('parse', self.filepath, ty=PARSED)
        self._imports = query('imports in', self._ast, ty=IMPSREF)
        self._assigns = query('assigns in', self._ast, ty=ASSREF)
    else:
        self._ast, self._body = None, None
        self._imports = ImportStatementContainer([])
        self._assigns = AssignmentStatementContainer([])


@assumed('pyfileconf.config.logic.load:_split_lines_into_import_and_assignment', 'the lines of the imports and the others (bounded: C12)', opts={'alt': True})
def split_lines(lines, strip_lines=True):
    return query('import lines', snapshot(lines), strip_lines, ty=BODY), [x for x in query('other lines', snapshot(lines), strip_lines, ty=BODY, may_raise=False)]


@contract(CFL + '._file_body_to_assignment_body', 'C12', use=['imports_in', 'split_lines'], self=TObj(CFL, filepath=TStr(), _body=TOneOf(None, TList(TStr(), 1))),
          opts={'reads': {'ast.parse': (TRef('ast.Module'), True)}})
def split_body(self):
    """the lines after the imports are the body, with the line break at the end of the file"""
    if self._body is None:
        self._assignment_body = []
        self._beginning_imports = ImportStatementContainer([])
    else:
        imports = query('import lines', snapshot(self._body), True, ty=BODY)
        rest = [x for x in query('other lines', snapshot(self._body), True, ty=BODY, may_raise=False)]
        self._assignment_body = rest + [''] if rest and self._body[-1].endswith('\n') else rest
        self._beginning_imports = query('imports in', ast.parse('\n'.join(imports)), ty=IMPSREF)


@contract('pyfileconf.config.logic.load:_split_assignment_line_into_variable_name_and_assignment', 'C12', line=TStr())
def split_line(line):
    """the name is what is left of the first equals sign"""
    if '=' not in line:
        return None, None
    parts = line.split('=')
    return parts[0].strip(), ('='.join(parts[1:]) if len(parts) > 2 else parts[1]).strip()


# ---- what a function takes
FN = 'pyfileconf.imports.logic.load.func:'
SPEC = TRef('argspec', args=TList(TStr()), defaults=TOneOf(None, TTupleOf(TAny())), kwonlyargs=TList(TStr()), kwonlydefaults=TOneOf(None, TDict(TStr())))


@contract(FN + '_get_length_of_arg_section', 'C14', section=TOneOf(None, TList(TAny())))
def section_length(section):
    return 0 if section is None else len(section)


@contract(FN + '_get_list_of_arg_section', 'C14', section=TOneOf(None, TList(TAny())))
def section_list(section):
    return [] if section is None else list(section)


ARGS = TDict(TStr())


@assumed(FN + 'function_args_as_dict', 'what a callable takes (bounded: C14)', opts={'alt': True})
def args_of(func):
    return query('args of', func, ty=ARGS)


@contract('pyfileconf.pipelines.models.config:FunctionConfig.for_function', 'C14', opts={'alt': True}, use=['args_of'], self=TObj('pyfileconf.pipelines.models.config:FunctionConfig', TDict(TStr())), func=TRef('function', callable=True))
def for_function(self, func):
    """exactly the values for what the function takes"""
    takes = query('args of', func, ty=ARGS)
    return {k: v for k, v in self.items() if k in takes}


LC = 'pyfileconf.io.func.load.config:'
ARG = TRef('ast.arg', arg=TStr(), annotation=TOneOf(None, TRef('ast.expr')))
ARGUMENTS = TRef('ast.arguments', args=TList(ARG), defaults=TList(TRef('ast.expr')), kwonlyargs=TList(ARG), kw_defaults=TList(TOneOf(None, TRef('ast.expr'))))


@contract(LC + '_strip_ast_quotes_if_necessary', 'C14', node=TOneOf(TRef('ast.Constant', s=TStr()), TRef('ast.Name')))
def strip_quotes(node):
    """a quoted annotation is the name in the quotes"""
    if isinstance(node, ast.Str):
        return ast.Name(node.s)
    return node


@assumed(LC + '_strip_ast_quotes_if_necessary', 'verified as strip_quotes', opts={'alt': True})
def unquoted(node):
    return pure('unquoted', node)


@contract(LC + 'function_args_as_arg_and_annotation_dict', 'C14', use=['unquoted'], args=ARGUMENTS)
def ast_args(args):
    """every argument with its default, None where it has none"""
    requires(len(args.defaults) <= len(args.args))
    requires(len(args.kw_defaults) == len(args.kwonlyargs))
    none = ast.Constant(value=None)
    given = [none] * (len(args.args) - len(args.defaults)) + list(args.defaults)
    values, notes = {}, {}
    for i, a in enumerate(args.args):
        values[a.arg] = given[i]
        if a.annotation is not None:
            notes[a.arg] = pure('unquoted', a.annotation)
    for i, a in enumerate(args.kwonlyargs):
        values[a.arg] = none if args.kw_defaults[i] is None else args.kw_defaults[i]
        if a.annotation is not None:
            notes[a.arg] = pure('unquoted', a.annotation)
    return values, notes


PYSPEC = TTuple(TList(TStr()), TOneOf(None, TTupleOf(TAny())), TList(TStr()), TOneOf(None, TDict(TStr())))


def getfullargspec(ex, st, fn, a, kw, km, fr):
    """the library call: a new object whose list of arguments is its own"""
    from pyvc.core import Inst, ListO
    ex.notes.add('inspect.getfullargspec yields the arguments of the callable, with at most as many defaults as arguments (library fact)')

    def mk(s, v):
        vs = v.seq.items()

        def build(s, qs):
            s, p = s.alloc(ListO(qs))
            s, p = s.alloc(Inst('inspect.FullArgSpec', {'args': p, 'defaults': vs[1], 'kwonlyargs': vs[2], 'kwonlydefaults': vs[3]}))
            return [('ok', s, p)]
        return ex.then(ex.iter_seq(s, vs[0], fr), build)
    return ex.then(ex.effect(st, 'argspec', [a[0]], ty=PYSPEC, silent=True), mk)


@contract('pyfileconf.imports.logic.load.klass:class_function_args_as_dict', 'C14', use=['args_of'], klass=TRef('type', callable=True),
          opts={'externals': {'inspect.getfullargspec': getfullargspec}})
def class_args(klass):
    """what the constructor takes, without the object itself, whatever its name"""
    args = query('args of', klass.__init__, ty=ARGS)
    spec = inspect.getfullargspec(klass.__init__)
    return {k: v for k, v in args.items() if k not in spec.args[:1]}


@contract(FN + 'function_args_as_dict', 'C14', func=TRef('function', callable=True),
          opts={'externals': {'inspect.getfullargspec': getfullargspec}, 'reads': {'inspect.ismethod': (TBool(), False), 'inspect.isclass': (TBool(), False)}})
def python_args(func):
    """every argument of the function, or of the method or class but its first, with its default, None where it has none"""
    spec = inspect.getfullargspec(func)
    names = spec.args
    if inspect.ismethod(func) or inspect.isclass(func):
        names = [] if len(spec.args) == 0 else spec.args[1:]
    defaults = [] if spec.defaults is None else list(spec.defaults)
    requires(len(defaults) <= len(names))
    given = [None] * (len(names) - len(defaults)) + defaults
    out = {}
    for i, name in enumerate(names):
        out[name] = given[i]
    for name in spec.kwonlyargs:
        out[name] = spec.kwonlydefaults[name] if spec.kwonlydefaults and name in spec.kwonlydefaults else None
    return out
