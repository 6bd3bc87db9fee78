seed('c13-entry-before-check', 'C13', [('pyfileconf/main.py',
 "            if func_or_class is not None:\n                raise ValueError('only pass func_or_class when targeting main pipeline dict, not specific class dict')\n            self._create_specific_class_dict_entry(section_path)\n",
 "            self._create_specific_class_dict_entry(section_path)\n            if func_or_class is not None:\n                raise ValueError('only pass func_or_class when targeting main pipeline dict, not specific class dict')\n")],
"""
pm = project('p1', {'x': ['f']}, specific=[('sources', 'S', {'a': ['one']}, {})])
p = os.path.join(SCRATCH, 'p1', 'sources_dict.py')
before = read(p)
try:
    pm.create('sources.a.two', pm.run)
    assert False
except ValueError:
    pass
assert read(p) == before, read(p)
""", 'a callable given for an item of a specific class', 'the refused request leaves an entry in the dictionary file')
seed('c13-empty-section-dropped', 'C13', [('pyfileconf/dictfiles/modify.py',
 "    for key, value in nested_dict.items():\n        use_str += f'\"{key}\": '\n",
 "    for key, value in ((key, value) for key, value in nested_dict.items() if value):\n        use_str += f'\"{key}\": '\n")],
"""
pm = project('p1', {'x': ['f'], 'planned': []})
import mod_p1
pm.create('y', mod_p1.g)
ns = {}
exec(read(os.path.join(SCRATCH, 'p1', 'pipeline_dict.py')), ns)
assert list(ns['pipeline_dict']) == ['x', 'planned', 'y'], ns['pipeline_dict']
""", 'a dictionary with an empty section', 'creating an item drops that section from the file')
seed('c14-bound-argument-by-name', 'C14', [('pyfileconf/io/func/load/args.py',
 "        if ast_function_def.name == '__init__':\n            # Got class init\n",
 "        if ast_function_def.args.args and ast_function_def.args.args[0].arg == 'self':\n            # Got class init\n")],
"""
src = '''
import vt
class K:
    def __init__(this, a=1, b=2):
        this.a, this.b = a, b
    def __call__(this):
        return vt.call('K', a=this.a, b=this.b)
'''
pm = project('p1', {'x': ['K']}, src=src)
assert 'this' not in pm.config.get('x.K'), pm.config.get('x.K')
""", 'a constructor whose first argument is not called self', 'the bound argument is listed in the config')
seed('c16-blank-chunk-dropped', 'C16', [('pyfileconf/logger/bind_stdout.py',
 "        if message != '\\n':\n", "        if message.strip():\n")],
"""
src = '''
import sys
def f():
    sys.stdout.write('a')
    sys.stdout.write('  ')
    print('b', 'c', sep='\\\\t')
    sys.stdout.write('\\\\n\\\\n')
'''
pm = project('p1', {'x': ['f']}, src=src)
got = []
class H(logging.Handler):
    def emit(self, r):
        got.append(r.getMessage())
from pyfileconf.logger.logger import logger
logger.addHandler(H())
logger.setLevel(logging.INFO)
with pyfileconf.options.set_option('log_stdout', True):
    pm.run('x.f')
assert '  ' in got, got
""", 'a chunk of only blanks is printed', 'it is not logged')
seed('c15-equal-value-kept', 'C15', [('pyfileconf/opts/__init__.py',
 "        orig_value = getattr(options, self.name)\n        setattr(options, self.name, val)\n",
 "        orig_value = getattr(options, self.name)\n        if orig_value == val:\n            return\n        setattr(options, self.name, val)\n"),
 ('pyfileconf/opts/__init__.py', "        if self.callback is not None and orig_value != val:\n", "        if self.callback is not None:\n")],
"""
with pyfileconf.options.set_option('log_file_num_keep', True):
    pyfileconf.options.log_file_num_keep = 1
    assert pyfileconf.options.log_file_num_keep.value is not True, pyfileconf.options.log_file_num_keep.value
""", 'an option set to an equal value of another type', 'the option keeps the old value')
seed('c15-tail-of-reset', 'C15', [('pyfileconf/opts/__init__.py',
 "        for attr in attrs:\n            self.reset_option(attr)\n",
 "        for attr in set(attrs) - {attr for attr in options.option_attrs if not getattr(options, attr)}:\n            self.reset_option(attr)\n")],
"""
o = pyfileconf.options
o.set_options([('log_file_rollover_freq', ''), ('log_file_num_keep', 7)])
o.reset_options(['log_file_rollover_freq', 'log_file_num_keep'])
assert o.log_file_rollover_freq.value == 'D' and o.log_file_num_keep.value == 0, o
""", 'an option with a default that is true set to an empty value, then reset in a group', 'it is not reset')
seed('c11-oldest-loading-file', 'C11', [('pyfileconf/pmcontext/stack.py',
 "        if not load_frames:\n            return None\n\n        return load_frames[-1].section_path\n",
 "        if not load_frames:\n            return None\n\n        return load_frames[0].section_path\n")],
"""
from pyfileconf.pmcontext.stack import PyfileconfStack, PyfileconfFrame
from pyfileconf.pmcontext.actions import PyfileconfActions as A
s = PyfileconfStack([])
s.add_frame(PyfileconfFrame('p.x.f', A.LOAD_FILE_EXECUTE))
s.add_frame(PyfileconfFrame('p.x.g', A.LOAD_FILE_EXECUTE))
assert s.currently_loading_file_section_path.path_str == 'p.x.g'
s.pop_frame()
assert s.currently_loading_file_section_path.path_str == 'p.x.f'
""", 'a config file being loaded while another one is', 'the wrong file counts as the one being loaded')
seed('c21-list-section-imports', 'C21', [('pyfileconf/basemodels/collection.py',
 "            if not isinstance(obj, self.__class__):\n",
 "            if not isinstance(obj, Collection) and not hasattr(obj, section):\n")],
"""
pm = project('p1', {'x': ['f']}, specific=[('sources', 'S', {'a': ['one']}, {})])
c = pm._registrars[0].collection
try:
    c.get('a.one.name')
    assert False, 'found'
except AttributeError:
    pass
""", 'a path that goes on beyond an item, by the name of one of its attributes', 'it is looked up in the item')
seed('c09-only-sequences', 'C09', [('pyfileconf/batch.py',
 "            relative_section_path_str = SectionPath(\".\".join(sp[1:])).path_str\n            new_update = {**update, 'section_path_str': relative_section_path_str}\n",
 "            relative_section_path_str = sp.path_str.replace(sp[0] + '.', '')\n            new_update = {**update, 'section_path_str': relative_section_path_str}\n")],
"""
pm = project('x', {'x': ['f'], 'y': {'x': ['f']}})
from pyfileconf import BatchUpdater
BatchUpdater().update([dict(section_path_str='x.x.f', b=7), dict(section_path_str='x.y.x.f', b=8)])
assert pm.config.get('x.f')['b'] == 7 and pm.config.get('y.x.f')['b'] == 8
""", 'a section with the name of its manager', 'the update goes to another path')
seed('c02-persistent-flag-sticky', 'C02', [('pyfileconf/basemodels/config.py',
 "        if pyfileconf_persist:\n            self._applied_updates.update(all_updates)\n",
 "        if pyfileconf_persist or self._applied_updates:\n            self._applied_updates.update(all_updates)\n")],
"""
pm = project('p1', {'x': ['f']}, configs={'x/f.py': 'a = None\\nb = 2\\n'})
pm.update({'b': 5}, 'x.f')
c = pm.config.get('x.f')
c.update({'b': 9}, pyfileconf_persist=False)
pm.refresh('x.f')
assert pm.config.get('x.f')['b'] == 5, pm.config.get('x.f')
""", 'a temporary value for a config which has updates', 'the temporary value comes back with a refresh')
