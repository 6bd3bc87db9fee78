seed('c05-refresh-applies-file-only', 'C05', [('pyfileconf/runner/models/runner.py',
 "            config = self._get_config(section_path_str)\n            apply_config(self._loaded_objects[section_path_str], config)\n            self._config.track_post_update(config, section_path_str, updates)\n",
 "            apply_config(self._loaded_objects[section_path_str], updates)\n            self._config.track_post_update(config, section_path_str, updates)\n")],
"""
pm = project('p1', {'x': ['f']}, configs={'x/section.py': 'b = 5\\n'})
pm.run('x.f')
assert CALLS[-1][1]['b'] == 5, CALLS
fp = os.path.join(SCRATCH, 'p1', 'defaults', 'x', 'f.py')
write(fp, read(fp).replace("c: str = 'x'", "c = 'x'").replace("c = 'x'", "c = 'new'"))
assert 'new' in read(fp), read(fp)
pm.config.update({'b': 99})  # local config
pm.refresh('x.f')
pm.run('x.f')
assert CALLS[-1][1]['b'] == 99 and CALLS[-1][1]['c'] == 'new', CALLS
""", 'an item is run, then the local config is updated and its file edited, and it is refreshed',
'the loaded object gets the values of its file and not those of its current (inherited) config')
seed('c08-equal-alternatives-merged', 'C08', [('pyfileconf/iterate.py',
 "        conf = deepcopy(config_dict)\n        sp = conf[\"section_path_str\"]\n        combined_dicts[sp].append(conf)\n",
 "        conf = deepcopy(config_dict)\n        sp = conf[\"section_path_str\"]\n        if conf not in combined_dicts[sp]:\n            combined_dicts[sp].append(conf)\n")],
"""
pm = project('p1', {'x': ['f', 'g']})
r = pm.run_product('x.f', [dict(section_path_str='x.f', b=1), dict(section_path_str='x.f', b=1)])
assert len(CALLS) == 2 and len(r) == 2, CALLS
""", 'two alternatives which are equal', 'a given alternative is not run')
seed('c10-discovered-dependent-skipped', 'C10', [('pyfileconf/config/models/manager.py',
 "        update_deps = {*context.force_update_dependencies[full_sp.path_str]}\n        all_updated_deps = set()\n        while update_deps:\n            _refresh_configs(update_deps)\n            all_updated_deps.update(update_deps)\n",
 "        update_deps = {*context.force_update_dependencies[full_sp.path_str]}\n        all_updated_deps = set()\n        while update_deps:\n            _refresh_configs(update_deps)\n            all_updated_deps.update(context.force_update_dependencies[full_sp.path_str])\n")],
"""
pm = project('p1', {'x': ['f', 'g', 'h', 'K']})
for n in ['f', 'g', 'h', 'K']:
    pm.config.get('x.' + n)
context.add_config_dependency('p1.x.f', 'p1.x.K', force_update=True)
refreshed = []
orig = type(pm).refresh
def refresh(self, sp):
    refreshed.append(sp)
    if len(refreshed) == 1:
        # e.g. the file of f uses another item which in turn uses K
        context.add_config_dependency('p1.x.g', 'p1.x.K', force_update=True)
    return orig(self, sp)
type(pm).refresh = refresh
pm.config.refresh_dependent_configs('x.K')
assert refreshed == ['x.f', 'x.g'], refreshed
""", 'a forced dependent which is only discovered while the others are being refreshed', 'it is not refreshed')
seed('c12-covered-import-added-again', 'C12', [('pyfileconf/basemodels/container.py',
 "    def append_if_missing(self, item):\n        if item not in self:\n",
 "    def append_if_missing(self, item):\n        if item not in self.items:\n")],
"""
src = '''
from typing import Dict, List
import vt
def f(a: List = None, b=2):
    return vt.call('f', a=a, b=b)
'''
pm = project('p1', {'x': ['f']}, src=src, configs={'x/f.py': 'from typing import Dict, List\\n\\nb = 7\\n'})
text = read(os.path.join(SCRATCH, 'p1', 'defaults', 'x', 'f.py'))
assert text.count('List') - text.count(': List') == 1, text
""", 'a config file of the user which imports a needed name together with others', 'the import is added again')
seed('c18-all-renames-kept', 'C18', [('pyfileconf/imports/models/statements/container.py',
 "                        [rename for rename in imp.renames if rename.new_name == name]\n                    )\n                    # grab original object matching this rename\n",
 "                        [rename for rename in imp.renames if rename.item in imp.objs]\n                    )\n                    # grab original object matching this rename\n")],
"""
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
c = ImportStatementContainer([ObjectImportStatement.from_str('from m import a as x, a as y, b as z')])
for name, orig in [('x', 'a'), ('y', 'a'), ('z', 'b')]:
    imp = c.get_import_for_module_or_obj_name(name)
    ns = str(imp)
    assert ns == f'from m import {orig} as {name}', (name, ns)
""", 'one statement importing the same object under two names', 'the import found for one name binds the other name')
seed('c20-submodules-not-forgotten', 'C20', [('pyfileconf/imports/models/tracker.py',
 "        return [module for module in current_modules if module not in self.original_modules]\n",
 "        return [module for module in current_modules if module.split('.')[0] not in self.original_modules]\n")],
"""
write(os.path.join(SCRATCH, 'mods', 'pk', '__init__.py'), '')
write(os.path.join(SCRATCH, 'mods', 'pk', 'sub.py'), 'import vt\\ndef f(a=1):\\n    return 1\\nraise ValueError("broken")\\n')
sys.path.insert(0, os.path.join(SCRATCH, 'mods'))
import pk
before = set(sys.modules)
write(os.path.join(SCRATCH, 'mods', 'pk', 'ok.py'), 'V = 1\\n')
write(os.path.join(SCRATCH, 'p1', 'pipeline_dict.py'), 'from pk.ok import V\\nfrom pk.sub import f\\n\\npipeline_dict = {"x": [f]}\\n')
pm = PipelineManager(os.path.join(SCRATCH, 'p1'), name='p1')
from pyfileconf.imports.models.tracker import ImportTracker
t = ImportTracker()
import pk.ok
assert t.imported_modules == ['pk.ok'], t.imported_modules
""", 'a load which imports a submodule of a package that was imported before', 'the submodule is not forgotten after a failed load')
seed('c17-view-equal-to-namesake', 'C17', [('pyfileconf/selector/models/itemview.py',
 "            if getattr(self, equal_attr) != getattr(other, equal_attr):\n                return False\n",
 "            if SectionPath(getattr(self, equal_attr)) != SectionPath(getattr(other, equal_attr)) and \\\n                    not SectionPath(getattr(self, equal_attr)).endswith(SectionPath(getattr(other, equal_attr))):\n                return False\n")],
"""
pm = project('p1', {'x': ['f'], 'y': {'x': ['f']}})
pm2 = project('x', {'f': ['f'], 'z': ['f']})
s = Selector()
assert s.p1.y.x == s.p1.y.x and not (s.p1.x.f == s.p1.y.x.f)
from pyfileconf.selector.models.itemview import ItemView
assert not (ItemView('p1.x.f', s) == ItemView('x.f', s))
""", 'a view whose path ends with the path of the other view (another manager)', 'views of different items compare equal')
