From 7bf498ed6e5eddeba5f77586d41bebc5ad14698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 01/32] fix: a section path does not end with a longer section
 path

---
 pyfileconf/sectionpath/sectionpath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/sectionpath/sectionpath.py b/pyfileconf/sectionpath/sectionpath.py
index 81a31d7..a590477 100644
--- a/pyfileconf/sectionpath/sectionpath.py
+++ b/pyfileconf/sectionpath/sectionpath.py
@@ -100,6 +100,9 @@ class SectionPath(ReprMixin):
 
     def endswith(self, sp: 'SectionPath'):
         num_to_match = len(sp)
+        if num_to_match > len(self):
+            # A path cannot end with a longer path
+            return False
         match_parts = self[-num_to_match:]
         for i, part in enumerate(match_parts):
             if part != sp[i]:
-- 
2.43.0


From 99833dd4ef62b31b417897ff4f5b11a7f59ee76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 02/32] fix: restore stdout when a run with logged stdout
 raises

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From 07fba02c651471389a23c7dbf9efb294eb42711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 03/32] fix: handle keyword-only arguments without defaults in
 generated configs

---
 pyfileconf/imports/logic/load/func.py | 5 ++---
 pyfileconf/io/func/load/config.py     | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 9b31e3b..0541f65 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -21,9 +21,8 @@ def function_args_as_dict(func: Callable):
 
     # Handle kwargs
     for kwarg in args.kwonlyargs:
-        if args.kwonlydefaults:
-            default = args.kwonlydefaults[kwarg] if kwarg in args.kwonlydefaults else None
-            out_dict.update({kwarg: default})
+        default = args.kwonlydefaults[kwarg] if args.kwonlydefaults and kwarg in args.kwonlydefaults else None
+        out_dict.update({kwarg: default})
 
     return out_dict
 
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a6faea1..c6c4df0 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -39,6 +39,9 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
         default = args.kw_defaults[i]
+        if default is None:
+            # keyword-only argument without a default
+            default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
             annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
-- 
2.43.0


From 3a44ad7024cbcf37e19c5e9d9523caef737d9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 04/32] fix: replace the log file handler when log_folder
 changes to another folder

---
 pyfileconf/logger/logger.py | 4 ++++
 pyfileconf/opts/filelog.py  | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..6f88e43 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -43,6 +43,10 @@ def add_file_handler():
     logger.addHandler(fh)
 
 
+def has_file_handler() -> bool:
+    return any(isinstance(h, TimedRotatingFileHandler) for h in logger.handlers)
+
+
 def remove_file_handler():
     timed_handlers = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
     if len(timed_handlers) != 1:
diff --git a/pyfileconf/opts/filelog.py b/pyfileconf/opts/filelog.py
index b33147e..c95991d 100644
--- a/pyfileconf/opts/filelog.py
+++ b/pyfileconf/opts/filelog.py
@@ -1,10 +1,13 @@
 from typing import Optional
 
-from pyfileconf.logger.logger import add_file_handler, remove_file_handler
+from pyfileconf.logger.logger import add_file_handler, has_file_handler, remove_file_handler
 
 
 def add_file_handler_if_log_folder_exists_else_remove_handler(attr_name: str, log_folder: Optional[str]):
     if log_folder is not None:
+        if has_file_handler():
+            # Changing from one folder to another, stop logging into the original one
+            remove_file_handler()
         add_file_handler()
     else:
         remove_file_handler()
-- 
2.43.0


From 24331e921924126266cdf1002e38f4818bb55c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 05/32] fix: run the classes of a section by their own section
 paths

---
 pyfileconf/runner/models/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..384786a 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -168,9 +168,9 @@ class Runner(ReprMixin):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
-- 
2.43.0


From 92d774019abebf0a24fa3e41dde1aeca40cdc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 06/32] fix: run sections of specific class objects

---
 pyfileconf/runner/models/runner.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 384786a..d0f04ad 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -136,7 +136,7 @@ class Runner(ReprMixin):
 
         """
         func_or_collection = self._get_func_or_collection(section_path_str)
-        if isinstance(func_or_collection, PipelineCollection):
+        if isinstance(func_or_collection, Collection):
             return self._run_section(section_path_str)
         elif self._is_specific_class(func_or_collection):
             return self._run_one_specific_class(section_path_str)
@@ -150,21 +150,26 @@ class Runner(ReprMixin):
 
     def _run_section(self, section_path_str: str) -> Results:
         section = self._get_func_or_collection(section_path_str)
-        section = cast(PipelineCollection, section)
+        section = cast(Collection, section)
         results = []
         for section_or_object_view in section:
 
-            # Get section path by which to call this item
-            subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
-            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
-
             # Get from object view if necessary
             if isinstance(section_or_object_view, ObjectView):
                 section_or_callable = section_or_object_view.item
             else:
                 section_or_callable = section_or_object_view
 
-            if isinstance(section_or_callable, PipelineCollection):
+            # Get section path by which to call this item
+            if self._is_specific_class(section_or_callable):
+                # If specific class, need to look up which key holds the name
+                subsection_name = section.name_for_obj(section_or_object_view)
+            else:
+                # If in the main dict, or is a collection, the name attribute or function/class name holds the name
+                subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
+            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
+
+            if isinstance(section_or_callable, Collection):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-- 
2.43.0


From e6babbc8e11404918f799391c0bee6a24947d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 07/32] fix: allow setting options by attribute as documented

---
 pyfileconf/opts/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index cc630e2..af9b262 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -155,6 +155,13 @@ class PyfileconfOptionsManager:
             setattr(self, attr, opt)
             self._options.append(opt)
 
+    def __setattr__(self, attr: str, value: Any):
+        if attr in options.option_attrs and not isinstance(value, PyfileconfOption):
+            # Setting the value of the option, must keep the option itself
+            getattr(self, attr).value = value
+        else:
+            super().__setattr__(attr, value)
+
     def __repr__(self):
         opts_str = '\t' + '\n\t'.join(repr(opt) for opt in self._options) + '\n'
         return f'<PyfileconfOptionsManager(options=[\n{opts_str}])>'
-- 
2.43.0


From 5920bcaf24aaf53f1a73375922075deee0b30dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 08/32] fix: treat values without a definite equality as
 unequal instead of raising

---
 pyfileconf/basemodels/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..4178bac 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -183,7 +183,8 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         return False
 
     try:
-        return val1 == val2
+        # bool as the comparison may yield a value without a definite truth value, e.g. an array
+        return bool(val1 == val2)
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
-- 
2.43.0


From a720d56162d2b71fe2b7883e01c716ce072db6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 09/32] fix: updating and resetting loaded items with a config
 item named d

---
 pyfileconf/runner/models/runner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index d0f04ad..0435ec1 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -385,7 +385,9 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+            # Pass as a dictionary so that names of config items cannot conflict with names of arguments
+            all_updates = {**(d_ or {}), **kwargs}
+            self._config.track_post_update(new_config, section_path_str, all_updates)
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -395,7 +397,7 @@ class Runner(ReprMixin):
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+            self._config.track_post_update(default, section_path_str, default)
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
-- 
2.43.0


From f2c9ba87eedddbc2520e00599701c1547d8b5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 10/32] fix: refreshing and resetting configs with items named
 like internal arguments

---
 pyfileconf/basemodels/config.py     | 2 +-
 pyfileconf/config/models/manager.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 4178bac..a603f91 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -130,7 +130,7 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
-        self.update(pyfileconf_persist=False, **all_updates)
+        self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
     def would_update(self, E=None, **F) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..348e16e 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -192,7 +192,7 @@ class ConfigManager(ReprMixin):
         assert current_config is not None  # should never fail this, for mypy
 
         # Not a new config, need to actually determine whether would be updated
-        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
+        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
         if would_update:
             self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
-- 
2.43.0


From c55bbb72a6141607ff7ae123e7ac1afdccc3cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:25 +0000
Subject: [PATCH 11/32] fix: the own config of a section overrides those of
 higher level sections

---
 pyfileconf/config/models/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 348e16e..aeabfdd 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -145,7 +145,9 @@ class ConfigManager(ReprMixin):
         full_section += section_path[-1]
         if not self._is_function_or_pipeline_path(full_section):
             # if is a section, not function/pipeline
-            section_configs.append(self._get_func_or_section_configs(full_section))
+            # Copy so it still overrides the higher level configs after they have been applied to it below
+            own_config = self._get_func_or_section_configs(full_section)
+            section_configs.append(None if own_config is None else dict(own_config))
 
         if config:
             # Override configs. Default config is base config, then gets updated by project, then high
-- 
2.43.0


From 022cc65a71d4aaba77a89a7328b26c754eb0c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 12/32] fix: run product runs with values which cannot be
 compared directly

Updates with different arrays or DataFrames for the same item raised while
determining which configs had to be updated for the next case.
---
 pyfileconf/basemodels/config.py    | 9 +++++++++
 pyfileconf/plugin/default_hooks.py | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index a603f91..46673ed 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -190,3 +190,12 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
                       f'type {type(val1)} and {type(val2)} are '
                       f'equal. Returning False. Got exception: {e}')
         return False
+
+
+def configs_are_equal(conf1: Dict[str, Any], conf2: Dict[str, Any]) -> bool:
+    """
+    Compare by key as the values may not be comparable directly, e.g. arrays or DataFrames
+    """
+    if conf1.keys() != conf2.keys():
+        return False
+    return all(_values_are_equal(value, conf2[key]) for key, value in conf1.items())
diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index 100040d..b72848e 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -42,11 +42,15 @@ def pyfileconf_iter_update_for_case(
     :param runner: :class:`IterativeRunner` which has been constructed to call iteration
     :return: None
     """
+    from pyfileconf.basemodels.config import configs_are_equal
     from pyfileconf.batch import BatchUpdater
 
     updated_confs: Sequence[Dict[str, Any]]
     if runner.last_case is not None:
-        updated_confs = [conf for conf in case if conf not in runner.last_case]
+        updated_confs = [
+            conf for conf in case
+            if not any(configs_are_equal(conf, last_conf) for last_conf in runner.last_case)
+        ]
     else:
         updated_confs = case
 
-- 
2.43.0


From 427c68ffb6e9715b5dab62df689384e0d2175660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:06 +0000
Subject: [PATCH 13/32] fix: product run cases added by plugins for items
 varied in no other case

Defaults were only collected for the items of the first case, so a plugin
case for another item raised, and values of such a case would have been
kept in the other cases.
---
 pyfileconf/iterate.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..623014d 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -71,9 +71,9 @@ class IterativeRunner:
 
         if not hasattr(self, 'cases'):
             raise ValueError('must set cases before calling get_defaults')
-        case = self.cases[0]
+        # All cases as cases added by plugins may be for different items
         section_path_strs = [
-            self._get_full_section_path_str(conf['section_path_str']) for conf in case
+            self._get_full_section_path_str(sp_str) for sp_str in self._get_varied_section_path_strs()
         ]
         defaults: Dict[str, Dict[str, Any]] = {}
         for sp_str in section_path_strs:
@@ -93,8 +93,17 @@ class IterativeRunner:
             defaults = self.defaults[sp_str]
             new_conf = {**defaults, **conf}
             new_confs.append(new_conf)
+        # Items only varied in other cases must run with their original values in this case
+        case_sp_strs = [conf['section_path_str'] for conf in case]
+        for sp_str in self._get_varied_section_path_strs():
+            if sp_str not in case_sp_strs:
+                defaults = self.defaults[self._get_full_section_path_str(sp_str)]
+                new_confs.append({**defaults, 'section_path_str': sp_str})
         return tuple(new_confs)
 
+    def _get_varied_section_path_strs(self) -> List[str]:
+        return list(dict.fromkeys(conf['section_path_str'] for case in self.cases for conf in case))
+
     def _get_full_section_path_str(self, section_path_str: str) -> str:
         if not self.base_section_path_str:
             return section_path_str
-- 
2.43.0


From f3d16118f9efe3ba7dd629e394b2a3a574612d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:57 +0000
Subject: [PATCH 14/32] fix: record the dependency when a running item gets an
 already loaded item

The dependency was only recorded when the item was loaded for the first time,
so items using an item loaded before were not refreshed when it changed.
---
 pyfileconf/runner/models/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0435ec1..8b16b7a 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -303,6 +303,7 @@ class Runner(ReprMixin):
 
     def _get_one_func_with_config(self, section_path_str: str) -> Callable:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         func, config_dict = self._get_func_and_config(section_path_str)
@@ -316,6 +317,7 @@ class Runner(ReprMixin):
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._add_to_config_dependencies_if_necessary(section_path_str)
             return self._loaded_objects[section_path_str]
 
         obj = self._get_func_or_collection(section_path_str)
-- 
2.43.0


From bb0b4c1c4301bba4995e4ace5355c84610a3b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 15/32] fix: keep everything except the imports at the top of
 config files when saving them

---
 pyfileconf/config/logic/load.py | 77 +++++++++++----------------------
 1 file changed, 26 insertions(+), 51 deletions(-)

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
index 1e025df..86483d7 100644
--- a/pyfileconf/config/logic/load.py
+++ b/pyfileconf/config/logic/load.py
@@ -1,5 +1,5 @@
+import ast
 from typing import Tuple, List, Union, Sequence
-from copy import deepcopy
 
 ListOfStrs = List[str]
 TwoNoneTuple = Tuple[None, None]
@@ -7,41 +7,36 @@ TwoStrTuple = Tuple[str, str]
 TwoTupleNoneOrStr = Union[TwoStrTuple, TwoNoneTuple]
 
 def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True) -> Tuple[ListOfStrs, ListOfStrs]:
-    # TODO [#2]: deal with later imports
-    #
-    # Imports can currently only be read from the top of the file
+    """
+    The import section consists of the import statements at the top of the file and the whitespace lines
+    between them. The assignment section is everything from the first other line on, which means it
+    contains any later imports. The whitespace between the two sections is dropped.
+    """
+    num_import_lines = _get_number_of_import_section_lines(lines)
 
-    # TODO [#3]: deal with use of import other than the word import
+    if strip_lines:
+        lines = [line.strip('\n') for line in lines]
 
-    import_section = []
-    assignment_section = []
-    # We can have three cases for the following two booleans:
-    # The file starts in the import section
-    # Then, we enter the whitespace section between import and assignments. Still consider this the import section.
-    # Finally, once text is detected again after import section,
-    # assignment section starts (in_import_section=False)
-    in_import_section = True
-    for i, line in enumerate(lines):
-
-        if strip_lines:
-            line = line.strip('\n')
-
-        # Handle import section and add whitespace below import section
-        if in_import_section:
-            if 'import' in line or _is_whitespace_line(line):
-                import_section.append(line)
-            else:
-                in_import_section = False  # no longer dealing with imports, must have assignment line
-
-        # Assignment section, just output
-        if not in_import_section:
-            assignment_section.append(line)
-
-    # Import section was handled as both import section and following whitespace. Strip following whitespace.
-    import_section = _strip_whitespace_lines_from_end_of_lines(import_section)
+    import_section = lines[:num_import_lines]
+    assignment_section = lines[num_import_lines:]
+    while assignment_section and _is_whitespace_line(assignment_section[0]):
+        assignment_section = assignment_section[1:]
 
     return import_section, assignment_section
 
+def _get_number_of_import_section_lines(lines: ListOfStrs) -> int:
+    num_lines = 0
+    for node in ast.parse('\n'.join(line.strip('\n') for line in lines)).body:
+        if not isinstance(node, (ast.Import, ast.ImportFrom)):
+            break
+        statement_begin, statement_end = node.lineno - 1, node.end_lineno
+        if not all(_is_whitespace_line(line) for line in lines[num_lines:statement_begin]):
+            break  # e.g. a comment line before this import
+        if any(';' in line or '#' in line for line in lines[statement_begin:statement_end]):
+            break  # there is more on these lines than the import
+        num_lines = statement_end
+    return num_lines
+
 def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTupleNoneOrStr:
 
     # handle whitespace lines
@@ -62,23 +57,3 @@ def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTu
 
 def _is_whitespace_line(line: str) -> bool:
     return line.strip() == ''
-
-def _strip_whitespace_lines_from_end_of_lines(lines: List[str]) -> List[str]:
-
-    # Handle empty list
-    if lines == []:
-        return []
-
-    reversed_lines = deepcopy(lines)
-    reversed_lines.reverse()
-
-    # starting from end first. Discard all lines until non-whitespace is found
-    for line_index, line in enumerate(reversed_lines):
-        if not _is_whitespace_line(line):
-            break
-
-    output_lines = reversed_lines[line_index:]
-    output_lines.reverse() # back to first first
-
-    return output_lines
-
-- 
2.43.0


From 42ead9482275fb4774d21ac0edeee20a67bfe432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:40 +0000
Subject: [PATCH 16/32] fix: load config files which import multiple modules in
 one statement

---
 pyfileconf/imports/models/statements/importbase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a7144c..8a83c07 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -13,6 +13,12 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
 
     #### Common class methods and properties
 
+    def __eq__(self, other):
+        if type(self) is not type(other):
+            return False
+
+        return super().__eq__(other)
+
     @property
     def _renamed(self):
         if self.rename_attr is None:
-- 
2.43.0


From 53299e19bd9775c65abb46c5f27f9e1976dae415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 17/32] fix: keep all names when an object or module is
 imported under multiple names

---
 pyfileconf/imports/models/statements/importbase.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a83c07..7ad4fda 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -28,11 +28,15 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
         if self.renames is None:
             return rename_items # no saved renames, just return original attrs
 
+        renames = list(self.renames)
         renamed_items = []
-        for item in rename_items:
-            if item in self.renames:
-                renamed_items.append(str(self.renames[item]))
-            else:
+        for i, item in enumerate(rename_items):
+            item_renames = [rename for rename in renames if rename.item == item]
+            # The same item may be imported under multiple names, including its own
+            if len(item_renames) < rename_items[i:].count(item):
                 renamed_items.append(item)
+            else:
+                renamed_items.append(str(item_renames[0]))
+                renames.remove(item_renames[0])
 
         return renamed_items
-- 
2.43.0


From 1f56d8f7b6e992ad77f103e04bd1d787e10d27fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 18/32] fix: an import under another name does not provide the
 original name

---
 .../imports/models/statements/container.py    | 13 +++-----
 .../imports/models/statements/importbase.py   | 33 ++++++++++++++-----
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..eeb2232 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -37,18 +37,15 @@ class ImportStatementContainer(Container, ReprMixin):
             # e.g. item is: import this
             # and import statement in collection is: import this, that
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
-                matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_modules and matching_renames:
+                if all(binding in imp_or_comment.bindings for binding in item.bindings):
                     return True
 
             # e.g. item is: from this import that
             # and import statement in collection is: from this import that, another
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
                 matching_module = imp_or_comment.module == item.module
-                matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_module and matching_objs and matching_renames:
+                matching_bindings = all(binding in imp_or_comment.bindings for binding in item.bindings)
+                if matching_module and matching_bindings:
                     return True
 
 
@@ -98,7 +95,7 @@ class ImportStatementContainer(Container, ReprMixin):
         found_import = False
         for imp in self:
             if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
+                if (name, name) in imp.bindings:
                     # match on original module name
                     # set up for creating a new import
                     found_import = True
@@ -118,7 +115,7 @@ class ImportStatementContainer(Container, ReprMixin):
                     # May be multiple modules imported in this one statement. Create a new statement with just this module
                     return ModuleImportStatement(modules=modules, renames=renames)
             elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
+                if (name, name) in imp.bindings:
                     # match on original object name
                     # set up for creating a new import
                     found_import = True
diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 7ad4fda..c3f628d 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -1,5 +1,6 @@
-from typing import List, Optional
+from typing import List, Optional, Tuple
 from mixins.attrequals import EqOnAttrsMixin
+from pyfileconf.imports.models.statements.rename import RenameStatement
 from pyfileconf.mixins.orderpref import OrderPreferenceMixin
 
 class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
@@ -23,20 +24,34 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
     def _renamed(self):
         if self.rename_attr is None:
             raise ValueError(f'must set rename_attr in class {self.__class__.__name__}')
-        rename_items: List = getattr(self, self.rename_attr)
+        return [
+            item if rename is None else str(rename)
+            for item, rename in self._items_and_renames
+        ]
 
-        if self.renames is None:
-            return rename_items # no saved renames, just return original attrs
+    @property
+    def bindings(self) -> List[Tuple[str, str]]:
+        """
+        Tuples of original name and the name which becomes available through this import
+        """
+        return [
+            (item, item if rename is None else rename.new_name)
+            for item, rename in self._items_and_renames
+        ]
+
+    @property
+    def _items_and_renames(self) -> List[Tuple[str, Optional[RenameStatement]]]:
+        renames = [] if self.renames is None else list(self.renames)
+        rename_items: List[str] = getattr(self, self.rename_attr)
 
-        renames = list(self.renames)
-        renamed_items = []
+        items_and_renames: List[Tuple[str, Optional[RenameStatement]]] = []
         for i, item in enumerate(rename_items):
             item_renames = [rename for rename in renames if rename.item == item]
             # The same item may be imported under multiple names, including its own
             if len(item_renames) < rename_items[i:].count(item):
-                renamed_items.append(item)
+                items_and_renames.append((item, None))
             else:
-                renamed_items.append(str(item_renames[0]))
+                items_and_renames.append((item, item_renames[0]))
                 renames.remove(item_renames[0])
 
-        return renamed_items
+        return items_and_renames
-- 
2.43.0


From f1e8167b9c246a5397ddefdf70273ff32adbc07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 19/32] fix: keep the line break at the end of config files
 when saving them

---
 pyfileconf/io/file/load/lazy/config.py | 2 ++
 pyfileconf/io/file/write/base.py       | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..ddca386 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -34,6 +34,8 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
         """
         if self.body is not None:
             import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
+            if assignment_lines and self.body[-1].endswith('\n'):
+                assignment_lines.append('')  # keep the line break at the end of the file
             self._assignment_body = assignment_lines
         else:
             self._assignment_body = []
diff --git a/pyfileconf/io/file/write/base.py b/pyfileconf/io/file/write/base.py
index a94eddc..bb9bc45 100644
--- a/pyfileconf/io/file/write/base.py
+++ b/pyfileconf/io/file/write/base.py
@@ -45,11 +45,15 @@ class FileStr:
         )
 
         # Now convert to str
+        body_str = '\n'.join(existing_body)
+        end_str = str(new_assigns_end)
+        if end_str and body_str.endswith('\n'):
+            body_str = body_str[:-1]  # the line break comes from joining the items
         items = [
             str(all_imports) + '\n',
             str(new_assigns_begin),
-            '\n'.join(existing_body),
-            str(new_assigns_end)
+            body_str,
+            end_str
         ]
         valid_items = [item for item in items if item not in ('', None)]
         return '\n'.join(valid_items)
-- 
2.43.0


From 06e43c16be220865bc88afc008c9e0eea9ed4ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 20/32] fix: keep the imports within the body of config files
 in place instead of repeating them at the top

---
 pyfileconf/io/file/interfaces/config.py |  2 +-
 pyfileconf/io/file/load/lazy/config.py  | 16 ++++++++++-----
 pyfileconf/io/file/load/parsers/imp.py  |  7 +++++++
 pyfileconf/io/file/write/base.py        | 27 ++++++++++++++++++-------
 4 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..7c04043 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -11,7 +11,7 @@ class ConfigFileInterface(ConfigFileLoader):
         file_str_obj = ConfigFileStr(
             config,
             existing_assigns=self.assigns,
-            existing_imports=self.imports,
+            existing_imports=self.beginning_imports,
             existing_body=self.assignment_body
         )
 
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ddca386..7a7a1ff 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -1,6 +1,9 @@
+import ast
 from typing import List, Tuple
 
+from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
+from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
 from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
 from pyfileconf.pmcontext.actions import PyfileconfActions
 from pyfileconf.pmcontext.tracing import StackTracker
@@ -25,18 +28,21 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
     def assignment_body(self) -> List[str]:
         return self._try_getattr_else_call_func('_assignment_body', self.load)
 
-    def _file_body_to_assignment_body(self):
+    @property
+    def beginning_imports(self) -> ImportStatementContainer:
         """
-        Warning: Assumes that imports come first, then an assignment section. May have
-        issues when imports come later
-        Returns:
-
+        The imports which are not part of the assignment body
         """
+        return self._try_getattr_else_call_func('_beginning_imports', self.load)
+
+    def _file_body_to_assignment_body(self):
         if self.body is not None:
             import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
             if assignment_lines and self.body[-1].endswith('\n'):
                 assignment_lines.append('')  # keep the line break at the end of the file
             self._assignment_body = assignment_lines
+            self._beginning_imports = extract_imports_from_ast(ast.parse('\n'.join(import_lines)))
         else:
             self._assignment_body = []
+            self._beginning_imports = ImportStatementContainer([])
 
diff --git a/pyfileconf/io/file/load/parsers/imp.py b/pyfileconf/io/file/load/parsers/imp.py
index d9fcb79..79bfc64 100644
--- a/pyfileconf/io/file/load/parsers/imp.py
+++ b/pyfileconf/io/file/load/parsers/imp.py
@@ -33,6 +33,13 @@ def extract_imports_from_ast(module: ast.Module) -> ImportStatementContainer:
     ie.visit(module)
     return ie.imports
 
+def extract_module_level_imports_from_ast(module: ast.Module) -> ImportStatementContainer:
+    ie = ImportExtractor()
+    for node in module.body:
+        if isinstance(node, (ast.Import, ast.ImportFrom)):
+            ie.visit(node)
+    return ie.imports
+
 def extract_obj_import_from_ast(module: ast.Module) -> ObjectImportStatementOrNone:
     import_container = extract_imports_from_ast(module)
     imp = _extract_single_import_from_container(import_container)
diff --git a/pyfileconf/io/file/write/base.py b/pyfileconf/io/file/write/base.py
index bb9bc45..923ca04 100644
--- a/pyfileconf/io/file/write/base.py
+++ b/pyfileconf/io/file/write/base.py
@@ -1,5 +1,7 @@
+import ast
 from typing import Tuple, List
 
+from pyfileconf.io.file.load.parsers.imp import extract_module_level_imports_from_ast
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 
@@ -13,9 +15,9 @@ class FileStr:
 
         Args:
             import_assignment_obj: object which has method obj.as_imports_and_assignments()
-            existing_imports:
+            existing_imports: imports at the top of the existing file
             existing_assigns:
-            existing_body: should not contain imports, but should contain rest of existing file as str
+            existing_body: should not contain existing_imports, but should contain rest of existing file as str
         """
         self.file_str = self._create_str(
             import_assignment_obj=import_assignment_obj,
@@ -41,7 +43,8 @@ class FileStr:
         all_imports, new_assigns_begin, new_assigns_end = self._combine_imports_get_new_assignments(
             import_assignment_obj,
             existing_imports=existing_imports,
-            existing_assigns=existing_assigns
+            existing_assigns=existing_assigns,
+            existing_body=existing_body
         )
 
         # Now convert to str
@@ -60,16 +63,14 @@ class FileStr:
 
     def _combine_imports_get_new_assignments(self, import_assignment_obj,
                                         existing_imports: ImportStatementContainer,
-                                        existing_assigns: AssignmentStatementContainer) -> ImportsDoubleAssignsTuple:
+                                        existing_assigns: AssignmentStatementContainer,
+                                        existing_body: List[str]) -> ImportsDoubleAssignsTuple:
         all_imports = existing_imports.copy()
         new_assigns_begin = AssignmentStatementContainer([])
         new_assigns_end = AssignmentStatementContainer([])
 
         possibly_new_imports, possibly_new_assigns = import_assignment_obj.as_imports_and_assignments()
 
-        # Checks to see whether should be added, and whether to beginning or end, then adds
-        [all_imports.add_if_missing(imp) for imp in possibly_new_imports]
-
         for assign in possibly_new_assigns:
             if not existing_assigns.contains_varname(assign.varname):
                 begin = getattr(assign, 'prefer_beginning', False)
@@ -78,4 +79,16 @@ class FileStr:
                 else:
                     new_assigns_end.append_if_missing(assign)
 
+        # The imports of the existing body stay there. They are sufficient unless assigns before the body need them
+        body_imports = extract_module_level_imports_from_ast(ast.parse('\n'.join(existing_body)))
+        names_used_at_begin = {
+            node.id for assign in new_assigns_begin for node in ast.walk(assign.value) if isinstance(node, ast.Name)
+        }
+
+        # Checks to see whether should be added, and whether to beginning or end, then adds
+        for imp in possibly_new_imports:
+            used_at_begin = any(name.split('.')[0] in names_used_at_begin for _, name in imp.bindings)
+            if used_at_begin or imp not in body_imports:
+                all_imports.add_if_missing(imp)
+
         return all_imports, new_assigns_begin, new_assigns_end
-- 
2.43.0


From 86395b67bb9b6e1e91cf30e44a27dd685d9b6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 21/32] fix: defaults and annotations which are defined in the
 module of the function

---
 pyfileconf/io/func/load/args.py       |  6 +++++-
 pyfileconf/io/func/load/extractimp.py | 20 ++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 2c2ef51..3566ac5 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -73,7 +73,11 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
             ast_function_def.args,
             loader.imports,
             loader.assigns,
-            imp.module
+            imp.module,
+            defined_names=[
+                node.name for node in loader.ast.body  # type: ignore
+                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))
+            ]
         )
         return ast_function_def.args, function_arg_imports
 
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..66b21da 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -1,7 +1,8 @@
-from typing import List, cast
+from typing import List, Sequence, cast
 import ast
 import warnings
 
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
@@ -12,6 +13,7 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
                                                                      imports: ImportStatementContainer,
                                                                      assigns: AssignmentStatementContainer,
                                                                      current_module_section_path_str: str,
+                                                                     defined_names: Sequence[str] = (),
                                                                      ) -> ImportStatementContainer:
     defaults_dict, annotation_dict = function_args_as_arg_and_annotation_dict(args)
 
@@ -20,16 +22,18 @@ def extract_import_statements_from_function_args_imports_and_assigns(args: ast.a
 
     out_imports = ImportStatementContainer([])
 
-    # External names may be either due to assignment or due to imports
-    # Handle names due to assignment
+    # External names may be due to assignments, definitions, or imports
     for name in external_names:
-        if assigns.contains_varname(name):
-            # External name is due to assignment in this module. Create import from this module
+        if assigns.contains_varname(name) or name in defined_names:
+            # External name is due to assignment or definition in this module. Create import from this module
             out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
+            continue
 
-    # Handle names which are imported into this file
-    for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
+        # Handle names which are imported into this file
+        try:
+            import_or_none = imports.get_import_for_module_or_obj_name(name)
+        except NoImportMatchingNameException:
+            continue  # will be warned about below
         if import_or_none is not None:
             out_imports.append(import_or_none)
 
-- 
2.43.0


From fb7f288d1146fa9477dea55495555e6b3fb3542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 22/32] fix: looking up a section or a wrong name by attribute
 affected the following look ups

---
 pyfileconf/runner/models/runner.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 8b16b7a..0d7310b 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -46,23 +46,22 @@ class Runner(ReprMixin):
     def __getattr__(self, item):
         # TODO [#14]: find way of doing runner look ups with fewer side effects
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
-        self._full_getattr += item
-        try:
-            func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
-            self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
-            raise e
+        full_getattr = self._full_getattr + item
+        func_or_collection = self._get_func_or_collection(full_getattr)
 
         if isinstance(func_or_collection, (PipelineCollection, SpecificClassCollection)):
-            # Got section, need to keep going. Return self
-            self._full_getattr += '.' # add period to separate next section
-            return self
+            # Got section, need to keep going. Return a runner which starts from that section. The path
+            # is not tracked in this runner, as then looking up a section without going on to
+            # one of its items, or an incorrect path, would affect the following look ups
+            section_runner = type(self)(
+                self._config, self._registrars, self._general_registrar, self._manager_name
+            )
+            section_runner._full_getattr = full_getattr + '.'
+            section_runner._loaded_objects = self._loaded_objects
+            return section_runner
         else:
             # Got function or class, return the function or class itself
-            full_getattr = self._full_getattr
-            self._full_getattr = ''  # found the item, reset for next time
-            configured_func_or_class = self.get(full_getattr)
-            return configured_func_or_class
+            return self.get(full_getattr)
 
     # TODO [#16]: this may work once __getattr__ works with sections
     # def __dir__(self):
-- 
2.43.0


From 710f315990d47998157b7334b500e6fbf9f692bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 23/32] fix: sections and items named like the section which
 contains them

---
 pyfileconf/config/models/section.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index ac4d977..141ca5b 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -22,8 +22,9 @@ class ConfigSection(Container, ReprMixin):
 
     def __getattr__(self, item):
 
-        # Handle if trying to get this section's config
-        if self.config is not None and item == self.config.name:
+        # Handle if trying to get this section's config, unless
+        # this section contains a section or item of the same name
+        if self.config is not None and item == self.config.name and item not in self.config_map:
             return self.config
 
         return self.config_map[item]
-- 
2.43.0


From db6e0df11aa23a067d47e85668aafb13493e5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 24/32] fix: reload when a module loaded by the project was
 removed from sys.modules

---
 pyfileconf/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..8eaae69 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -568,7 +568,8 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
-        [sys.modules.pop(module) for module in self._loaded_modules]
+        # Modules may have already been removed by the user
+        [sys.modules.pop(module, None) for module in self._loaded_modules]
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
-- 
2.43.0


From 101ef4be44297b3edde12942ab4bd742a5b87071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 25/32] fix: reload after multiple loads reimports the modules
 imported by all of them

---
 pyfileconf/main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 8eaae69..709aeca 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -76,6 +76,7 @@ class PipelineManager:
 
         self._registrars: Optional[Sequence[Registrar]] = None
         self._general_registrar: Optional[PipelineRegistrar] = None
+        self._loaded_modules: List[str] = []
 
         self._validate_options()
         context.active_managers[self.name] = self
@@ -302,6 +303,8 @@ class PipelineManager:
         Wrapper to track imported modules so that can reimport them upon reloading
         """
         logger.debug(f'Running load for {self.name}')
+        # If this is not the first load, modules imported by the previous loads must still be wiped by reload
+        previously_loaded_modules = [module for module in self._loaded_modules if module in sys.modules]
         self._import_tracker = ImportTracker()
 
         try:
@@ -310,10 +313,11 @@ class PipelineManager:
             # Reset loaded modules from import, completely canceling load so it can be tried again
             self._loaded_modules = self._import_tracker.imported_modules
             self._wipe_loaded_modules()
-            self._loaded_modules = [] # modules have been wiped, must be sure they won't be wiped again
+            # modules have been wiped, must be sure they won't be wiped again
+            self._loaded_modules = previously_loaded_modules
             raise e
 
-        self._loaded_modules = self._import_tracker.imported_modules
+        self._loaded_modules = previously_loaded_modules + self._import_tracker.imported_modules
         logger.debug(f'Finished running load for {self.name}')
 
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
-- 
2.43.0


From a3d3cfaf89c11fb03fd0a9d6216d74ea6147d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:34 +0000
Subject: [PATCH 26/32] fix: reload imports the modules of items again which
 were first imported by using the items

---
 pyfileconf/imports/models/tracker.py |  2 +-
 pyfileconf/main.py                   | 26 +++++++++++++++++++++++++-
 pyfileconf/views/object.py           |  5 +++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/tracker.py b/pyfileconf/imports/models/tracker.py
index d0a7f64..9876c20 100644
--- a/pyfileconf/imports/models/tracker.py
+++ b/pyfileconf/imports/models/tracker.py
@@ -3,7 +3,7 @@ import sys
 class ImportTracker:
 
     def __init__(self):
-        self.original_modules = list(sys.modules.keys())
+        self.original_modules = set(sys.modules.keys())
 
     @property
     def imported_modules(self):
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 709aeca..bf14157 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -294,6 +294,7 @@ class PipelineManager:
 
         """
         logger.info(f'Reloading {self.name}')
+        self._loaded_modules += self._modules_imported_by_items()
         self._wipe_loaded_modules()
         self.load()
         logger.debug(f'Finished reloading {self.name}')
@@ -304,7 +305,9 @@ class PipelineManager:
         """
         logger.debug(f'Running load for {self.name}')
         # If this is not the first load, modules imported by the previous loads must still be wiped by reload
-        previously_loaded_modules = [module for module in self._loaded_modules if module in sys.modules]
+        previously_loaded_modules = [
+            module for module in self._loaded_modules + self._modules_imported_by_items() if module in sys.modules
+        ]
         self._import_tracker = ImportTracker()
 
         try:
@@ -575,6 +578,19 @@ class PipelineManager:
         # Modules may have already been removed by the user
         [sys.modules.pop(module, None) for module in self._loaded_modules]
 
+    def _modules_imported_by_items(self) -> List[str]:
+        """
+        Functions and classes are only imported once they are used, so
+        the import of their modules may be after the load
+        """
+        if self._general_registrar is None:
+            return []
+        return [
+            module
+            for view in _object_views_in_collection(self._general_registrar.collection)
+            for module in view.imported_modules
+        ]
+
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
             return [self._get_section_path_str_from_section_path_str_or_view(run_arg) for run_arg in run_list]
@@ -677,6 +693,14 @@ def _try_except_run_func_except_user_interrupts(try_func: Callable, except_func:
             except_result = except_func(e, **except_func_kwargs)
         return except_result, False
 
+def _object_views_in_collection(collection: PipelineCollection) -> Iterator[ObjectView]:
+    for item in collection:
+        if isinstance(item, PipelineCollection):
+            yield from _object_views_in_collection(item)
+        else:
+            yield item
+
+
 def _return_with_traceback(any: Any) -> Tuple[Any, str]:
     return any, traceback.format_exc()
 
diff --git a/pyfileconf/views/object.py b/pyfileconf/views/object.py
index 2d1e1b7..4c7f39d 100644
--- a/pyfileconf/views/object.py
+++ b/pyfileconf/views/object.py
@@ -1,6 +1,8 @@
 import ast
+from typing import List
 
 from mixins.propertycache import SimplePropertyCacheMixin
+from pyfileconf.imports.models.tracker import ImportTracker
 from pyfileconf.imports.models.statements.interfaces import (
     AnyImportStatement,
     ObjectImportStatement,
@@ -20,11 +22,14 @@ class ObjectView(SimplePropertyCacheMixin, ReprMixin):
         self.obj_ast = obj_ast
         self.import_statement = import_statement
         self.section_path_str = section_path_str
+        self.imported_modules: List[str] = []  # modules which were first imported for this object
 
     def load(self):
         # executes import
         if self.import_statement is not None:
+            import_tracker = ImportTracker()
             self._item = _execute_import_get_obj_from_result(self.import_statement, self.name)
+            self.imported_modules.extend(import_tracker.imported_modules)
 
         return self._item
 
-- 
2.43.0


From b165d2658a0eb0eb3fedac683084862332e735cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 27/32] fix: convert collections of objects with another key
 attribute to nested dicts

---
 pyfileconf/basemodels/collection.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/basemodels/collection.py b/pyfileconf/basemodels/collection.py
index e482172..57f4d27 100644
--- a/pyfileconf/basemodels/collection.py
+++ b/pyfileconf/basemodels/collection.py
@@ -176,10 +176,9 @@ class Collection(Container, ReprMixin):
 
 def to_nested_dict(collection: Collection):
     out_dict = {}
-    for item in collection:
+    for name, item in collection.name_dict.items():
         if isinstance(item, Collection):
-            nested = to_nested_dict(item)
-            out_dict[item.name] = nested
+            out_dict[name] = to_nested_dict(item)
         else:
-            out_dict[item.name] = item
-    return out_dict
\ No newline at end of file
+            out_dict[name] = item
+    return out_dict
-- 
2.43.0


From 642f2eb96aafac41aa6002e871fb47f9456ae7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:23 +0000
Subject: [PATCH 28/32] fix: create the config folder under its custom name

---
 pyfileconf/main.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index bf14157..680d18f 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -69,6 +69,7 @@ class PipelineManager:
         self.pipeline_dict_path = os.path.join(folder, 'pipeline_dict.py')
         self.specific_class_config_dicts = specific_class_config_dicts
         self.specific_class_names = [sc_dict['name'] for sc_dict in specific_class_config_dicts]
+        self.default_config_folder_name = default_config_folder_name
         self.default_config_path = os.path.join(self.folder, default_config_folder_name)
         self.name = name
         self.auto_pdb = auto_pdb
@@ -619,7 +620,10 @@ class PipelineManager:
 
     def _create_project_if_needed(self):
         if self._need_to_create_project():
-            create_project(self.folder, options.log_folder, self.specific_class_config_dicts)
+            create_project(
+                self.folder, options.log_folder, self.specific_class_config_dicts,
+                default_config_folder_name=self.default_config_folder_name
+            )
 
     def _need_to_create_project(self) -> bool:
         return any([
@@ -736,11 +740,12 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
 
 
 def create_project(path: str, logs_path: str,
-                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None):
+                   specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None,
+                   default_config_folder_name: str = 'defaults'):
     """
     Creates a new pyfileconf project file structure
     """
-    defaults_path = os.path.join(path, 'defaults')
+    defaults_path = os.path.join(path, default_config_folder_name)
     pipeline_path = os.path.join(path, 'pipeline_dict.py')
 
     if not os.path.exists(defaults_path):
-- 
2.43.0


From c760f59b7d677a93e14ba2f831e00819b58f9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:01 +0000
Subject: [PATCH 29/32] fix: updating the local config with items it does not
 have yet was ignored

---
 pyfileconf/config/models/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index aeabfdd..d7aa6d0 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -61,6 +61,9 @@ class ConfigManager(ReprMixin):
         would_update = self._determine_and_track_if_config_would_be_updated(
             config_obj, section_path_str, d_, **kwargs
         )
+        if section_path_str is None:
+            # The local config starts out empty, so setting items which it does not have yet must update it as well
+            would_update = would_update or any(key not in config_obj for key in {**(d_ or {}), **kwargs})
         if would_update:
             config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
         return config_obj, would_update
-- 
2.43.0


From 36fdbdc69a09ad1eae122c3526b033352bc48546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:43 +0000
Subject: [PATCH 30/32] fix: a SectionPath can be looked up in a Selector

---
 pyfileconf/selector/models/selector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 8d7e3ed..0b2b529 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -22,6 +22,7 @@ class Selector:
             warnings.warn('check for if non-str object in Selector will always return False')
             return False
 
+        item = SectionPath.from_ambiguous(item).path_str
         collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
         if relative_section_path is None:
             # got only the root data path, e.g. project.sources. Return the collection object itself
-- 
2.43.0


From 1a347a83b57b99162b3b8a1871dac80335ba6a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:30 +0000
Subject: [PATCH 31/32] fix: raise errors from loading the config of a section
 instead of ignoring the config

---
 pyfileconf/config/models/section.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index 141ca5b..334f5de 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -91,10 +91,11 @@ class ConfigSection(Container, ReprMixin):
         # Special handling for section config
         try:
             config_file_list.remove('section.py')
-            section_config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
         except ValueError:
             # Didn't find section config
             section_config = None
+        else:
+            section_config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
 
         configs = [
             ActiveFunctionConfigFile(
-- 
2.43.0


From 10171974c216cde526e7ba8fffd606c7cca13e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:24 +0000
Subject: [PATCH 32/32] fix: leave out the bound argument of constructors
 whatever its name is

---
 pyfileconf/imports/logic/load/func.py  |  6 +++---
 pyfileconf/imports/logic/load/klass.py | 12 ++++--------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 0541f65..94edde0 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -6,9 +6,9 @@ def function_args_as_dict(func: Callable):
     args = inspect.getfullargspec(func)
     out_dict = {}
 
-    # for methods and classmethods, want to ignore the first argument (self, cls)
-    if inspect.ismethod(func):
-        del args.args[0] # delete self arg
+    # for methods, classmethods and classes, want to ignore the first argument (self, cls)
+    if inspect.ismethod(func) or inspect.isclass(func):
+        del args.args[:1] # delete self arg
 
     # Handle args
     num_no_default_value = _get_length_of_arg_section(args.args) - _get_length_of_arg_section(args.defaults)
diff --git a/pyfileconf/imports/logic/load/klass.py b/pyfileconf/imports/logic/load/klass.py
index 90945eb..19cb4d0 100644
--- a/pyfileconf/imports/logic/load/klass.py
+++ b/pyfileconf/imports/logic/load/klass.py
@@ -1,3 +1,4 @@
+import inspect
 from typing import Type, Any, Dict
 
 from pyfileconf.imports.logic.load.func import function_args_as_dict
@@ -9,13 +10,8 @@ def class_function_args_as_dict(klass: Type) -> Dict[str, Any]:
     """
     arg_dict = function_args_as_dict(klass.__init__)
 
-    # TODO [#35]: handle removing first argument from __init__, may not be named self
-    #
-    # Current implementation depends on the argument being named self. This seems to
-    # be a hard problem in general without a great solution. See
-    # https://stackoverflow.com/a/47599893
-
-    # Remove self from arguments
-    arg_dict = {key: value for key, value in arg_dict.items() if key != 'self'}
+    # Remove self from arguments: the first one, whatever its name is
+    self_arg = inspect.getfullargspec(klass.__init__).args[:1]
+    arg_dict = {key: value for key, value in arg_dict.items() if key not in self_arg}
 
     return arg_dict
-- 
2.43.0

