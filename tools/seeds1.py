seed('c01-repeated-folder', 'C01', [('pyfileconf/sectionpath/sectionpath.py',
 "        relative_path = os.path.relpath(filepath, start=basepath)\n",
 "        if filepath.startswith(basepath + os.path.sep):\n            relative_path = filepath.replace(basepath + os.path.sep, '')\n        else:\n            relative_path = os.path.relpath(filepath, start=basepath)\n")],
"""
from pyfileconf.sectionpath.sectionpath import SectionPath
for sp in ['defaults.f', 'x.defaults.f', 'x.mydefaults.f']:
    fp = SectionPath(sp).to_filepath('defaults') + '.py'
    assert SectionPath.from_filepath('defaults', fp).path_str == sp, (sp, fp, SectionPath.from_filepath('defaults', fp).path_str)
""", 'a relative base folder whose name (as a suffix) appears again as a folder below it',
'a file path is turned into the wrong section path')
seed('c02-older-update-wins', 'C02', [('pyfileconf/basemodels/config.py',
 "            self._applied_updates.update(all_updates)\n",
 "            self._applied_updates = {**all_updates, **self._applied_updates}\n")],
"""
pm = project('p1', {'x': ['f']})
pm.update({'b': 10}, section_path_str='x.f')
pm.update({'b': 20}, section_path_str='x.f')
pm.refresh('x.f')
assert pm.config.get('x.f')['b'] == 20, pm.config.get('x.f')
""", 'two persistent updates of the same key, then a refresh', 'refresh re-applies the first instead of the last update')
seed('c03-refresh-detects-file-only', 'C03', [('pyfileconf/basemodels/config.py',
 "        final_updates = {**new_config, **self._applied_updates}\n        would_update",
 "        final_updates = {**self._applied_updates, **new_config}\n        would_update")],
"""
pm = project('p1', {'x': ['f']})
pm.update({'b': 10}, section_path_str='x.f')
seen = []
def pyfileconf_pre_config_changed(manager, orig_config, updates, section_path_str):
    seen.append(dict(updates))
plugin(pyfileconf_pre_config_changed=pyfileconf_pre_config_changed)
pm.refresh('x.f')
assert seen == [], seen
""", 'a refresh after a persistent update, with the file unchanged, and a plugin listening for changes',
'a refresh which changes nothing is announced as a change, with the wrong values')
seed('c04-local-config-below-sections', 'C04', [('pyfileconf/config/models/manager.py',
 "            [config.update(section_config) for section_config in section_configs]\n\n            # Last, override with local config\n            config.update(self.local_config)\n",
 "            local_items = {k: v for k, v in self.local_config.items() if k not in (section_configs[-1] or {})}\n            [config.update(section_config) for section_config in section_configs]\n\n            # Last, override with local config\n            config.update(local_items)\n")],
"""
pm = project('p1', {'x': {'y': ['f']}}, configs={'x/y/section.py': 'b = 5\\n'})
pm.config.update({'b': 99})
assert pm.config.get('x.y.f')['b'] == 99, pm.config.get('x.y.f')
""", 'the local config and the innermost section config set the same key', 'the local config no longer overrides the section')
seed('c06-empty-section-dropped', 'C06', [('pyfileconf/runner/models/runner.py',
 "                results.append(self._run_section(subsection_path_str))\n",
 "                section_results = self._run_section(subsection_path_str)\n                if section_results:\n                    results.append(section_results)\n")],
"""
pm = project('p1', {'x': {'e': [], 'y': ['f']}})
r = pm.run('x')
assert r == [[], ['f']], r
""", 'a section containing an empty section', 'results are no longer at the position of their section')
seed('c07-bdbquit-swallowed', 'C07', [('pyfileconf/main.py',
 "                                                        KeyboardInterrupt,\n                                                        SystemExit,\n                                                        bdb.BdbQuit\n",
 "                                                        KeyboardInterrupt,\n                                                        SystemExit,\n")],
"""
import bdb
src = SRC + '''
import bdb
def dbg(z=0):
    raise bdb.BdbQuit()
'''
pm = project('p1', {'x': ['dbg', 'h']}, src=src, force_continue=True)
try:
    r = pm.run(['x.dbg', 'x.h'])
except SystemExit:
    pass
else:
    raise SystemExit('quitting the debugger was treated as a failed item: %r' % (r,))
""", 'an item which ends by quitting the debugger while force_continue is on', 'quitting is swallowed and the run goes on')
seed('c09-last-update-per-item', 'C09', [('pyfileconf/batch.py',
 "        all_updates = itertools.chain(*updates_lol)\n",
 "        all_updates = list(itertools.chain(*updates_lol))\n        all_updates = [\n            update for i, update in enumerate(all_updates)\n            if not any(\n                later['section_path_str'] == update['section_path_str'] and len(later) == len(update)\n                for later in all_updates[i + 1:]\n            )\n        ]\n")],
"""
pm = project('p1', {'x': ['f', 'g']})
pm.update_batch([{'section_path_str': 'x.f', 'b': 5}, {'section_path_str': 'x.g', 'a': 3}, {'section_path_str': 'x.f', 'c': 'n'}])
c = pm.config.get('x.f')
assert (c['b'], c['c']) == (5, 'n'), c
""", 'two updates of the same item with different keys in one batch', 'the first of them is lost')
seed('c11-running-only-if-on-top', 'C11', [('pyfileconf/pmcontext/stack.py',
 "        run_frames = [frame for frame in self if frame.action == PyfileconfActions.RUN]\n        if not run_frames:\n            return None\n\n        return run_frames[-1].section_path.path_str\n",
 "        if not self.frames or self.frames[-1].action != PyfileconfActions.RUN:\n            return None\n\n        return self.frames[-1].section_path.path_str\n")],
"""
from pyfileconf.pmcontext.tracing import StackTracker
from pyfileconf.pmcontext.actions import PyfileconfActions
pm = project('p1', {'x': ['f']})
with StackTracker('x.f', base_section_path_str='p1'):
    with StackTracker(file_path=os.path.join(SCRATCH, 'p1', 'defaults', 'x', 'f.py'), action=PyfileconfActions.LOAD_FILE_EXECUTE):
        assert context.currently_running_section_path_str == 'p1.x.f', context.currently_running_section_path_str
""", 'a config file being loaded while an item runs', 'the running item is no longer known')
seed('c15-nested-log-folder', 'C15', [('pyfileconf/logger/logger.py',
 "        os.makedirs(options.log_folder)\n", "        os.mkdir(options.log_folder)\n")],
"""
p = os.path.join(SCRATCH, 'logs', 'deep')
options.set_option('log_folder', p)
assert os.path.isdir(p)
""", 'a log folder whose parent does not exist', 'setting the option fails')
seed('c16-real-stdout-restored', 'C16', [('pyfileconf/logger/bind_stdout.py',
 "        self.terminal = sys.stdout\n", "        self.terminal = sys.__stdout__\n")],
"""
import io
pm = project('p1', {'x': ['f']})
orig = sys.stdout
buf = sys.stdout = io.StringIO()
try:
    with options.set_option('log_stdout', True):
        pm.run('x.f')
    ok = sys.stdout is buf
finally:
    sys.stdout = orig
assert ok
""", 'a logged run while stdout is already redirected', 'stdout is not what it was before the run')
seed('c19-sibling-folder-prefix', 'C19', [('pyfileconf/main.py',
 "            if abs_filepath.startswith(manager_path + os.sep):\n", "            if abs_filepath.startswith(manager_path):\n")],
"""
a = project('proj', {'x': ['f']})
b = project('proj2', {'x': ['f']})
got = PipelineManager.get_manager_by_filepath(os.path.join(b.folder, 'defaults', 'x', 'f.py'))
assert got is b, got.name
""", 'two project folders side by side, the name of one being the beginning of the other', 'files are attributed to the wrong manager')
seed('c22-empty-file-overwritten', 'C22', [('pyfileconf/main.py',
 "            if not os.path.exists(dict_path):\n", "            if not os.path.exists(dict_path) or not os.path.getsize(dict_path):\n")],
"""
folder = os.path.join(SCRATCH, 'q')
class A:
    def __init__(self, name=None): self.name = name
write(os.path.join(folder, 'sources_dict.py'), '')
pm = PipelineManager(folder, name='q', specific_class_config_dicts=[{'name': 'sources', 'class': A}])
assert read(os.path.join(folder, 'sources_dict.py')) == ''
""", 'an existing empty dict file while another part of the project is missing', 'an existing user file is overwritten')
seed('c23-empty-section-dict', 'C23', [('pyfileconf/runner/models/runner.py',
 "        if any(isinstance(item, Collection) for item in section):\n", "        if all(isinstance(item, Collection) for item in section):\n")],
"""
pm = project('p1', {'x': {'e': [], 'y': ['f']}})
g = pm.get('x')
assert g['e'] == [] and type(g['e']) is list, g
""", 'getting an empty section', 'an empty list section is returned as a dictionary')

seed('c05-only-changed-attributes', 'C05', [('pyfileconf/config/logic/apply.py',
 "        attr: value for attr, value in config.items() if attr in init_args.keys()\n",
 "        attr: value for attr, value in config.items()\n        if attr in init_args.keys() and getattr(obj, attr, None) is not value\n")],
"""
pm = project('p1', {'x': ['K']})
pm.update({'a': 50, 'b': 60}, section_path_str='x.K')
o = pm.get('x.K')
pm.update({'b': 7}, section_path_str='x.K')
pm.run('x.K')
assert CALLS[-1][1] == {'a': 50, 'b': 7}, CALLS
""", 'an update of one argument of a loaded object whose other arguments differ from their defaults',
'the other arguments fall back to the defaults of the signature')
seed('c10-forced-dependency-lost', 'C10', [('pyfileconf/pmcontext/main.py',
 "        self.config_dependencies[depends_on_section_path_str].add(dependent_section_path)\n        if force_update:\n",
 "        known_dependencies = self.config_dependencies[depends_on_section_path_str]\n        if dependent_section_path in known_dependencies:\n            return\n        known_dependencies.add(dependent_section_path)\n        if force_update:\n")],
"""
pm = project('p1', {'x': ['f', 'K']})
context.add_config_dependency('p1.x.f', 'p1.x.K')
context.add_config_dependency('p1.x.f', 'p1.x.K', force_update=True)
assert [d.path_str for d in context.force_update_dependencies['p1.x.K']] == ['p1.x.f'], context.force_update_dependencies
""", 'a dependency which is recorded by a config file first, and forced by a run later', 'dependents are not refreshed')
seed('c21-key-attr-not-inherited', 'C21', [('pyfileconf/basemodels/registrar.py',
 "                    always_import_strs=self.always_import_strs, klass=self.klass,\n                    key_attr=self.key_attr, execute_attr=self.execute_attr\n",
 "                    always_import_strs=self.always_import_strs, klass=self.klass,\n                    execute_attr=self.execute_attr\n")],
"""
pm = project('p1', {'x': ['f']}, specific=[('ll', 'L', {'s': ['one']}, {'key_attr': 'label', 'execute_attr': 'go'})])
pm.create('ll.new.two')
pm.run('ll.new.two')
assert CALLS == [('L', {'label': 'two', 'a': None})], CALLS
""", 'creating an item in a new section of specific classes with another key attribute', 'the new section uses the wrong key attribute')
