"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

prop('C01', 'Section paths: dotted strings, sections and file paths agree',
 'For every dotted section path, the path is exactly the sequence of its dot-separated parts: converting to parts and back (or to a config file path under a base folder and back) returns the same path, joining two paths is concatenation of their parts, and a path ends with another exactly when that one is a suffix of its parts. '
 'Two section paths are equal, and hash alike, exactly when their dotted strings are equal, and comparing with any other object is safe. '
 'Anything accepted as a section path (string, section path, view of a registered item, or a list of them) resolves to the path it names, with the manager name stripped or a base prepended exactly when asked.',
 ['inputs'], 'all strings/part lists, all pairs of paths, all base folders, all mixtures of accepted argument kinds and flags',
 'The tests use a handful of literal paths; they never compose the conversions or vary the flags, so an error for other lengths, suffix lengths or nesting depths is invisible.',
 ['pyfileconf/sectionpath/sectionpath.py'],
 [('SectionPath conversions', 'pyfileconf/sectionpath/sectionpath.py:SectionPath'), ('file path conversion', 'pyfileconf/sectionpath/sectionpath.py:_relative_filepath_to_section_path')],
 ['return values of SectionPath methods'])

prop('C02', 'A config update changes exactly the targeted keys and is remembered',
 'Updating a config with a dictionary and/or keyword values sets exactly those keys to exactly those values (keyword values winning), leaving every other key, and the dictionary passed in, unchanged. '
 'The values are recorded for later re-application after a refresh exactly when the update was requested as persistent; a non-persistent update leaves the record untouched.',
 ['inputs', 'histories'], 'all configs, all update dictionaries/keyword sets (overlapping or not), persistent or not, any sequence of updates',
 'The tests update one or two keys once; they never check the untouched keys, overlaps of the two argument forms, or long mixed sequences of persistent and temporary updates.',
 ['pyfileconf/basemodels/config.py', 'pyfileconf/config/models/manager.py'],
 [('ConfigBase.update', 'pyfileconf/basemodels/config.py:ConfigBase.update'), ('ConfigManager.update', 'pyfileconf/config/models/manager.py:ConfigManager.update')],
 ['contents of the config', 'contents after refresh'], [('applied updates', 'updates to be re-applied after a reload from file')])

prop('C03', 'Refresh re-applies persistent updates over the file; change detection is exact',
 'After refreshing an item its config equals the current contents of its file overlaid with every persistent update made since it was loaded (latest value per key winning), and temporary updates to keys the file defines are gone. '
 'An update or refresh is reported as changing the config exactly when some existing key would get an unequal value (values whose comparison fails count as unequal, tabular values compare by content), and only then are the config contents touched and the config-changed notifications sent, the "before" one seeing the old config and the "after" one the new.',
 ['inputs', 'histories'], 'all file contents, all update histories, all value types including ones whose equality raises or is array-like',
 'Tests refresh once after one update; combinations of file edits with interleaved persistent/temporary updates, and comparisons of unusual values, are not sampled.',
 ['pyfileconf/basemodels/config.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/runner/models/runner.py'],
 [('ConfigBase.refresh/change_from_refresh/would_update', 'pyfileconf/basemodels/config.py'), ('ConfigManager.update/refresh', 'pyfileconf/config/models/manager.py'), ('equality', 'pyfileconf/basemodels/config.py:_values_are_equal')],
 ['config contents', 'hook calls'])

prop('C04', 'Config inheritance: item, project, sections top-down, then local config',
 'The effective config of an item is its own file config overridden by the project-wide config, then by each enclosing section config from the outermost to the innermost, then by the local config, key by key; a section path also includes its own section config. '
 'Sections without a config contribute nothing, and computing the effective config of one item does not change the stored config of any other item or section.',
 ['inputs', 'configurations'], 'all section trees and depths, all subsets of levels that define a key, all items',
 'Tests use one or two levels with a single overriding section; precedence among three or more levels, and absence of cross-talk, are not exercised.',
 ['pyfileconf/config/models/manager.py', 'pyfileconf/config/models/section.py'],
 [('ConfigManager.get', 'pyfileconf/config/models/manager.py:ConfigManager.get'), ('ConfigSection', 'pyfileconf/config/models/section.py')],
 ['return value of config get', 'arguments a run receives'])

prop('C05', 'Updates, resets and refreshes reach the already-loaded object, and only it',
 'After any sequence of gets, runs, updates, resets and refreshes through a manager, running or getting an item uses exactly the argument values of its current config (only the ones its signature accepts), even if the item object was loaded earlier, and the loaded object keeps its identity across updates. '
 'No operation targeted at one item changes the arguments another item runs with, and resetting an item restores the values its file defines for it.',
 ['histories'], 'all interleavings of get/run/update/reset/refresh over several functions and classes',
 'Tests check one update after one get for one function; mixed histories over several items with cached objects are not explored.',
 ['pyfileconf/runner/models/runner.py', 'pyfileconf/config/logic/apply.py', 'pyfileconf/config/models/manager.py'],
 [('Runner.update/reset/refresh', 'pyfileconf/runner/models/runner.py'), ('apply_config', 'pyfileconf/config/logic/apply.py'), ('ConfigManager.set/reset', 'pyfileconf/config/models/manager.py')],
 ['arguments received by the user function', 'attributes of the loaded object'], [('loaded objects', 'cache of configured objects by section path')])

prop('C06', 'Run returns one result per requested path, in order, mirroring sections',
 'Running a single path returns that item\'s own result; running a list of two or more paths returns the list of their results in the same order, each item executed exactly once per occurrence; running a section executes each of its members once in definition order and returns the list of their results, nested for nested sections, whether members are functions, classes or objects of a registered specific class. '
 'Items contributed by before-run extensions are run after the requested ones, and results contributed by after-run extensions are appended after the requested results.',
 ['inputs', 'configurations'], 'all section trees of functions/classes, all lists of paths including repeats and sections, with and without extension contributions',
 'Tests run one or two functions and one flat section; class members of sections, nesting, repeats and extension results combined with lists are not covered.',
 ['pyfileconf/runner/models/runner.py', 'pyfileconf/main.py', 'pyfileconf/logic/combine.py'],
 [('Runner.run/_run/_run_section', 'pyfileconf/runner/models/runner.py'), ('PipelineManager.run', 'pyfileconf/main.py'), ('combine', 'pyfileconf/logic/combine.py')],
 ['return value of run', 'calls received by user functions'])

prop('C07', 'Force-continue keeps every success in order and reports every failure',
 'With force-continue on, running a list of paths attempts every path once in order no matter which ones raise, returns exactly the results of the ones that did not raise in order, and reports each failing path with its traceback; a single failing path yields an empty list, a single succeeding one its result. '
 'With it off the first ordinary exception propagates unchanged; with a debug callback configured the callback is invoked once on failure and no result is returned; keyboard interrupts and exits are never swallowed as ordinary failures.',
 ['inputs', 'fault_sequences'], 'all lists of paths and all subsets of them that raise, all exception types, each setting',
 'The tests have one failing function at one position; they cannot cover every failure subset, position or exception class.',
 ['pyfileconf/main.py', 'pyfileconf/debug.py'],
 [('_run_with_force_continue', 'pyfileconf/main.py'), ('_try_except_run_func_except_user_interrupts', 'pyfileconf/main.py'), ('RunnerException', 'pyfileconf/main.py'), ('debug dispatch', 'pyfileconf/debug.py')],
 ['return value of run', 'log output', 'exceptions'])

prop('C08', 'Product runs: every combination once, in order, each case isolated',
 'A product run executes exactly the cartesian product of the given updates grouped by section path (groups in first-appearance order, alternatives in given order, last group varying fastest), plus any cases extensions contribute, and pairs each case with its own result in that order. '
 'In each case every varied item runs with its values from before the run overlaid with only that case\'s values, nothing leaking from earlier cases, and the update dictionaries passed in are not modified; the generator form yields the same pairs and not collecting results still runs every case.',
 ['inputs', 'histories'], 'all lists of updates over any number of section paths and keys, all run lists, both call forms, one or several managers',
 'Tests use one or two small fixed grids with the same keys in each alternative; leaking of a key that only some alternatives set, or ordering for larger products, is not sampled.',
 ['pyfileconf/iterate.py', 'pyfileconf/plugin/default_hooks.py'],
 [('get_config_product', 'pyfileconf/iterate.py:get_config_product'), ('IterativeRunner', 'pyfileconf/iterate.py:IterativeRunner'), ('update for case', 'pyfileconf/plugin/default_hooks.py:pyfileconf_iter_update_for_case')],
 ['return value of run_product', 'arguments user functions receive per case'])

prop('C09', 'Batch updates and resets reach exactly the named item in the right manager',
 'A batch of updates applies every update, in order, to the item named by its section path in the manager named by its first part (or the calling manager), exactly once and with exactly its remaining values, and to no other item; batch reset likewise resets exactly the named items. '
 'The update dictionaries handed in are not modified, extension-contributed updates are applied too, and a path naming no active manager raises instead of updating something else.',
 ['inputs', 'configurations'], 'all batches (repeats, overlapping items, several managers), string or view section paths, with and without extension updates',
 'Tests batch two updates for one manager; routing among several managers and repeated targets is barely sampled.',
 ['pyfileconf/batch.py', 'pyfileconf/main.py'],
 [('BatchUpdater.update/reset', 'pyfileconf/batch.py'), ('get_manager_by_section_path_str', 'pyfileconf/main.py')],
 ['configs of all items in all managers', 'hook calls'])

prop('C10', 'Config dependencies are recorded and dependents refreshed when a config changes',
 'Whenever one item uses another while it runs, while its config file is being loaded, or through an update that sets a view of the other as a value, the first is recorded as depending on the second; an item is never recorded as depending on itself, and a dependency that must trigger refreshes is always also a recorded dependency. '
 'When the config of a loaded item actually changes, every such forced dependent, in whichever manager, is refreshed (including ones discovered during the refreshing), each at most once per discovery, and the process terminates or reports an unresolvable cycle.',
 ['histories', 'configurations'], 'all dependency graphs over items of one or several managers and all update sequences',
 'Tests build one or two-edge graphs; self-edges, discovery during refresh, and several dependents are not covered.',
 ['pyfileconf/pmcontext/main.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/main.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/plugin/default_hooks.py'],
 [('PyFileConfContext', 'pyfileconf/pmcontext/main.py'), ('refresh_dependent_configs', 'pyfileconf/config/models/manager.py')],
 ['context dependency records', 'refreshed config values'], [('config_dependencies / force_update_dependencies', 'who must be refreshed when a config changes')])

prop('C11', 'The execution stack is balanced and names the innermost running item',
 'Every tracked action (running an item, loading a config file) pushes exactly one frame before it starts and pops exactly that frame when it ends, whether it returns or raises, so the stack outside any action is as it was before, and no exception is swallowed. '
 'At every moment the reported running item is the innermost running frame (none if there is none), a file is reported as being loaded exactly when some executing-load frame is on the stack, and the reported loading item is the innermost such frame.',
 ['histories', 'fault_sequences'], 'all nestings of run and load actions and all points at which user code raises',
 'Tests run a function to completion and look at one frame; they do not combine nesting with exceptions and mixed actions.',
 ['pyfileconf/pmcontext/stack.py', 'pyfileconf/pmcontext/tracing.py', 'pyfileconf/runner/models/runner.py', 'pyfileconf/pmcontext/main.py'],
 [('PyfileconfStack', 'pyfileconf/pmcontext/stack.py'), ('StackTracker', 'pyfileconf/pmcontext/tracing.py')],
 ['context.stack', 'context.currently_running_section_path_str'], [('stack frames', 'innermost action last')])

prop('C12', 'Scaffolding never loses or overwrites what the user wrote in a config file',
 'Loading or reloading a project keeps every assignment value, import, and trailing line of each existing config file exactly as the user wrote it (in order, none duplicated), only adding assignments and imports that are missing; missing config files are created, and section-level config files of the user are never overwritten. '
 'Splitting a config file into its import part and its body loses no significant line and keeps their order, and loading twice in a row leaves every file unchanged the second time.',
 ['inputs', 'histories'], 'all user-edited config files (reordered, extended, multi-line, commented bodies) and all sequences of loads',
 'Tests check one fixture file per parser; user edits in combination with added arguments and repeated loads are not sampled.',
 ['pyfileconf/basemodels/file.py', 'pyfileconf/config/logic/load.py', 'pyfileconf/io/file/write/base.py', 'pyfileconf/basemodels/config.py', 'pyfileconf/basemodels/container.py', 'pyfileconf/assignments/models/container.py', 'pyfileconf/imports/models/statements/container.py', 'pyfileconf/basemodels/collection.py', 'pyfileconf/data/models/collection.py', 'pyfileconf/pipelines/models/collection.py'],
 [('line splitting', 'pyfileconf/config/logic/load.py'), ('file save', 'pyfileconf/basemodels/file.py'), ('merging of containers', 'pyfileconf/basemodels/container.py')],
 ['contents of config files'])

prop('C13', 'Creating an item adds exactly one dictionary entry and keeps all the others',
 'Dynamically creating an item at a section path adds exactly that entry to the project\'s dictionary file, creating missing sections, keeps all existing entries, sections and their order, and the written file loads back to the same nested structure. '
 'Afterwards the item can be run or fetched at once and after a fresh load, all pre-existing items still work, and a rejected request (missing callable, callable given for a specific class, or too short a path) changes nothing.',
 ['inputs', 'histories'], 'all nested dictionaries of sections and items, all section paths (existing or new, any depth), sequences of creates',
 'Tests create one item in one or two shapes of dictionary; the merge for arbitrary nested shapes and sequences is not covered.',
 ['pyfileconf/dictfiles/modify.py', 'pyfileconf/main.py'],
 [('add_item_into_nested_dict_at_section_path', 'pyfileconf/dictfiles/modify.py'), ('dict to source', 'pyfileconf/dictfiles/modify.py:create_dict_assignment_str_from_nested_dict_with_ast_names'), ('PipelineManager.create', 'pyfileconf/main.py')],
 ['contents of the dictionary files', 'items reachable through the manager'])

prop('C14', 'Generated configs list every argument with its own default and annotation',
 'The config generated for a function or class lists every argument of its signature except the bound self, each paired with its own default value (none if it has none) and its own annotation, for every mix of positional, defaulted and keyword-only arguments. '
 'Only arguments the callable accepts are passed when it is run or constructed, and the reported argument/default mapping of a callable matches its real signature.',
 ['programs', 'inputs'], 'all signatures: any number of arguments with/without defaults and annotations, keyword-only arguments, functions and classes',
 'Tests use a few fixed signatures, none with keyword-only arguments without defaults; alignment of defaults to names for other counts is untested.',
 ['pyfileconf/io/func/load/args.py', 'pyfileconf/io/func/load/config.py', 'pyfileconf/imports/logic/load/func.py', 'pyfileconf/imports/logic/load/klass.py', 'pyfileconf/config/models/config.py', 'pyfileconf/io/file/load/parsers/kwargs.py', 'pyfileconf/logic/inspect.py'],
 [('argument extraction', 'pyfileconf/io/func/load/args.py'), ('config from function', 'pyfileconf/io/func/load/config.py'), ('signature lookup', 'pyfileconf/imports/logic/load/func.py')],
 ['generated config file', 'call arguments'])

prop('C15', 'Options always come back to their defaults and the log file handler follows them',
 'Setting options (singly, in a group, or by attribute) gives exactly the named options the given values and leaves the others alone; resetting one, several or all restores exactly those to their defaults, and leaving the options context manager restores all of them even if the block raised, without swallowing the exception. '
 'At all times exactly one log file handler is attached, writing into the configured folder, when a log folder is set, and none when it is not, for every sequence of changes.',
 ['histories', 'fault_sequences'], 'all sequences of set/reset/context-manager operations over all options, with exceptions in blocks',
 'Tests set one option and reset it; changing a folder to another, setting the same value twice, or exceptions inside the block are not tried.',
 ['pyfileconf/opts/__init__.py', 'pyfileconf/opts/filelog.py', 'pyfileconf/logger/logger.py'],
 [('PyfileconfOption/Manager', 'pyfileconf/opts/__init__.py'), ('handlers', 'pyfileconf/logger/logger.py')],
 ['option values', 'handlers of the pyfileconf logger'])

prop('C16', 'Stdout capture logs what is printed and always restores stdout',
 'With stdout logging enabled, standard output during a run goes to the package logger, each non-newline chunk exactly once and in order, and after the run, whether it returned or raised, standard output is the very stream it was before. '
 'With the option off standard output is not touched, and the run\'s result or exception is the same in both modes.',
 ['fault_sequences', 'histories'], 'all runs, nested runs and exceptions, with any stream installed as stdout',
 'The test captures one successful run; raising functions, nested runs and repeated runs are not tried.',
 ['pyfileconf/logger/bind_stdout.py', 'pyfileconf/main.py'],
 [('stdout_also_logged', 'pyfileconf/logger/bind_stdout.py'), ('PipelineManager.run', 'pyfileconf/main.py')],
 ['sys.stdout', 'log records'])

prop('C17', 'Selector and item views name, compare and resolve to the right item',
 'An item view reached through the selector names exactly the path of attributes followed, manager first; two views are equal and hash alike exactly when their paths are equal; a name that is not registered below a manager is refused instead of producing a view, and a refused name does not affect later look ups. '
 'Calling a view\'s configured object, its underlying item, or passing the view to run, get or update acts on exactly the item its path names in the manager its path names; containment and lookups through the selector agree with what managers have registered.',
 ['inputs', 'configurations'], 'all registered trees in one or several managers and all attribute paths, valid or not',
 'Tests follow a few valid paths in one manager; wrong names, sibling prefixes and several managers are sparsely covered.',
 ['pyfileconf/selector/models/selector.py', 'pyfileconf/selector/models/itemview.py', 'pyfileconf/main.py'],
 [('Selector', 'pyfileconf/selector/models/selector.py'), ('ItemView', 'pyfileconf/selector/models/itemview.py')],
 ['selector lookups', 'items acted upon'])

prop('C18', 'Import collections: membership, lookup, renames and no duplicates',
 'Within a list of imports, an import counts as present exactly when one statement there of the same kind (and, for from-imports, the same module) binds every name it binds, under the same names. Adding an import only if missing leaves the list alone when it is present and otherwise adds exactly it, at the preferred end, keeping everything else in order; it never duplicates or drops one. '
 'Looking up a module or object by the name it is bound to (following renames) returns an import binding exactly that name as an existing statement does, or raises the dedicated error when no statement binds it, and each statement read from source renders back to source that binds the same names to the same objects.',
 ['inputs'], 'all lists of import/from-import statements with any renames, all lookups',
 'Tests cover a few fixed statements; multi-name statements with partial overlaps and renames are not enumerated.',
 ['pyfileconf/imports/models/statements/container.py', 'pyfileconf/imports/models/statements/obj.py', 'pyfileconf/imports/models/statements/module.py', 'pyfileconf/imports/models/statements/rename.py', 'pyfileconf/basemodels/container.py'],
 [('ImportStatementContainer', 'pyfileconf/imports/models/statements/container.py'), ('statements', 'pyfileconf/imports/models/statements/obj.py'), ('renames', 'pyfileconf/imports/models/statements/rename.py')],
 ['container contents', 'rendered source'])

prop('C19', 'Files and section paths resolve to the manager that owns them',
 'Looking up a manager by a file path returns an active manager whose project folder really contains that file, and raises the dedicated error when there is none (a sibling folder sharing a name prefix does not count); looking up by section path returns exactly the active manager named by the first part, or raises the dedicated error. '
 'A manager that is replaced by or outlived by another of the same name never removes the other from the active managers.',
 ['inputs', 'configurations'], 'all sets of active managers and folders (nested names, shared prefixes, relative paths), all files and paths',
 'Tests use one manager in one folder; prefix-sharing folders and several managers are not covered.',
 ['pyfileconf/main.py'],
 [('get_manager_by_filepath', 'pyfileconf/main.py'), ('get_manager_by_section_path_str', 'pyfileconf/main.py'), ('__del__', 'pyfileconf/main.py')],
 ['returned manager', 'active managers'])

prop('C20', 'A failed load leaves no trace and can be retried; reload picks up file changes',
 'If loading a project fails, the original exception propagates and every module imported by that load is forgotten again, so that a load after the problem is fixed sees the fixed code; modules imported before the load are never forgotten. '
 'Reloading a manager makes it reflect the current dictionary and config files and source modules, and discards in-memory config updates.',
 ['fault_sequences', 'histories'], 'all projects and all points of failure during load, any number of retries and reloads',
 'Tests break the load in one way and retry once; repeated failures, and which modules survive, are not checked.',
 ['pyfileconf/main.py', 'pyfileconf/imports/models/tracker.py'],
 [('PipelineManager.load/reload', 'pyfileconf/main.py'), ('ImportTracker', 'pyfileconf/imports/models/tracker.py')],
 ['sys.modules', 'manager behaviour after retry'])

prop('C21', 'Collections and registrars find every registered item by its path',
 'A collection built from a nested dictionary contains every section and item at exactly its path, looking up any registered path returns that item and any other path reports it missing, and converting the collection back to a nested dictionary gives the original structure. '
 'Setting an item at a path makes exactly that path resolve to it, creating missing sections, and leaves every other path resolving as before.',
 ['inputs', 'histories'], 'all nested dictionaries of sections and items and all sequences of set/get',
 'Tests use one two-level dictionary; arbitrary depth, siblings and overwrites are not covered.',
 ['pyfileconf/basemodels/collection.py', 'pyfileconf/basemodels/registrar.py', 'pyfileconf/pipelines/models/collection.py', 'pyfileconf/data/models/collection.py', 'pyfileconf/logic/get.py', 'pyfileconf/logic/set.py'],
 [('Collection', 'pyfileconf/basemodels/collection.py'), ('Registrar', 'pyfileconf/basemodels/registrar.py')],
 ['lookups by path'], [('name map', 'name to item of one level of a collection')])

prop('C22', 'Creating a project only adds missing files and folders',
 'Constructing a manager for a folder ensures the folder, the item dictionary file, the defaults folder, a dictionary file for each specific class and the configured log folder exist, and never alters, truncates or removes anything that already exists there. '
 'Constructing it again changes nothing.',
 ['inputs', 'configurations'], 'all subsets of already existing project parts with any content, any specific-class list, with or without log folder',
 'Tests start from an empty or a complete project; partial projects with user content are not enumerated.',
 ['pyfileconf/main.py'],
 [('create_project', 'pyfileconf/main.py'), ('_need_to_create_project', 'pyfileconf/main.py')],
 ['project folder contents'])

prop('C23', 'Getting a section mirrors its structure and returns the configured members',
 'Getting a single item returns it configured with its current config, and getting it again returns the same object; getting a section returns its configured members in definition order as a list, or a dictionary keyed by subsection name when it contains subsections, recursively, each member being exactly what getting that member by its own path returns. '
 'Nothing is executed by getting.',
 ['inputs', 'configurations'], 'all section trees of functions, classes and specific-class items',
 'Tests get single items and one flat section; nested sections, classes as members and identity with single gets are not covered.',
 ['pyfileconf/runner/models/runner.py'],
 [('Runner.get/_get_section', 'pyfileconf/runner/models/runner.py')],
 ['return value of get'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
