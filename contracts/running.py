"""Contracts on running items: pyfileconf.main (C07) and pyfileconf.logic.combine (C06)."""
from pyvc.api import *
if False:
    import bdb
    import pdb
    import traceback
    from pyfileconf.main import RunnerException

M = 'pyfileconf.main:'
PM = M + 'PipelineManager'
RUNNER = TObj('pyfileconf.runner.models.runner:Runner')
MGR = TObj(PM, runner=RUNNER, auto_pdb=TAny(), force_continue=TAny())
ITEM = TOneOf(None, TList(), TTupleOf(), TStr())
CL = 'pyfileconf.logic.combine:'


@contract(CL + '_to_list', 'C06', item=ITEM)
def to_list(item):
    return item if isinstance(item, list) else list(item) if isinstance(item, tuple) else [] if item is None else [item]


@contract(CL + 'combine_items_into_list_whether_they_are_lists_or_not', 'C06', item1=ITEM, item2=ITEM)
def combine(item1, item2):
    """a new list: the first ones, then the second ones"""
    first = item1 if isinstance(item1, (list, tuple)) else [] if item1 is None else [item1]
    second = item2 if isinstance(item2, (list, tuple)) else [] if item2 is None else [item2]
    return [x for x in first] + [x for x in second]


@contract(CL + 'combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item', 'C06',
          item1=ITEM, item2=ITEM)
def combine_extract(item1, item2):
    first = item1 if isinstance(item1, (list, tuple)) else [] if item1 is None else [item1]
    second = item2 if isinstance(item2, (list, tuple)) else [] if item2 is None else [item2]
    items = [x for x in first] + [x for x in second]
    return items[0] if len(items) == 1 else items


@assumed('pyfileconf.runner.models.runner:Runner.run', 'running a path: an outcome (result or exception) that depends on '
         'the path and on what happened before; the manager itself is not modified', opts={'alt': True})
def run_one(self, section_path_str_or_list):
    return effect('Runner.run', section_path_str_or_list)


@assumed(M + 'report_runner_exceptions', 'reporting logs the exceptions it is given', opts={'alt': True})
def report(runner_exceptions):
    event('reported', [(e.exc, e.section_path_str, e.trace_back) for e in runner_exceptions])


@contract(M + '_try_except_run_func_except_user_interrupts', 'C07', try_func=TAny(), except_func=TAny(),
          try_func_kwargs=TOneOf(None, TDict()), except_func_kwargs=TOneOf(None, TDict()), print_traceback=TBool())
def try_except(try_func, except_func=lambda x: x, exceptions=(KeyboardInterrupt, SystemExit, bdb.BdbQuit), try_func_kwargs=None,
               except_func_kwargs=None, print_traceback=True):
    try:
        result = try_func(**({} if try_func_kwargs is None else try_func_kwargs))
    except (KeyboardInterrupt, SystemExit, bdb.BdbQuit):
        raise SystemExit
    except Exception as e:
        return except_func(e, **({} if except_func_kwargs is None else except_func_kwargs)), False
    return result, True


@contract(M + 'RunnerException.__init__', 'C07', self=TObj(M + 'RunnerException'), star__=TAny(), section_path_str=TAny(), trace_back=TAny())
def runner_exception(self, *args, section_path_str=None, trace_back=None):
    self.section_path_str = section_path_str
    self.trace_back = trace_back
    self.exc = args[0] if len(args) > 0 else None
    self.args = args


@contract(PM + '._run_with_force_continue', 'C07', use=['run_one', 'report', '-' + M + '_try_except_run_func_except_user_interrupts'],
          self=MGR, section_path_str_or_list=TOneOf(TStr(), TList(TStr())))
def force_continue(self, section_path_str_or_list):
    """every path is run, in order; the results of the ones that succeeded are returned in order and the others are
    reported with their path, exception and traceback; only a user interrupt stops"""
    single = not isinstance(section_path_str_or_list, list)
    results, failures = [], []
    for path in [section_path_str_or_list] if single else section_path_str_or_list:
        try:
            results.append(self.runner.run(path))
        except (KeyboardInterrupt, SystemExit, bdb.BdbQuit):
            raise SystemExit
        except Exception as e:
            failures.append((e, path, traceback.format_exc()))
    event('reported', failures)
    if single:
        return results[0] if len(results) > 0 else []
    return results


@contract(PM + '._run_with_auto_pdb', 'C07', use=['run_one', '-' + M + '_try_except_run_func_except_user_interrupts'],
          self=MGR.but(auto_pdb=TOneOf(True, TRef('function', callable=True))), section_path_str_or_list=TOneOf(TStr(), TList(TStr())))
def auto_pdb(self, section_path_str_or_list):
    """the debugger is entered once for an exception, and not otherwise"""
    try:
        return self.runner.run(section_path_str_or_list)
    except (KeyboardInterrupt, SystemExit, bdb.BdbQuit):
        raise SystemExit
    except Exception as e:
        if self.auto_pdb is True:
            effect('call', pdb.post_mortem)
        else:
            effect('call', self.auto_pdb)
        return None


@contract(PM + '._run_depending_on_settings', 'C06 C07', use=['run_one'], self=MGR.but(auto_pdb=TBool(), force_continue=TBool()),
          section_path_str_or_list=TOneOf(TStr(), TList(TStr())))
def run_depending(self, section_path_str_or_list):
    if self.auto_pdb:
        return self._run_with_auto_pdb(section_path_str_or_list)
    if self.force_continue:
        return self._run_with_force_continue(section_path_str_or_list)
    return self.runner.run(section_path_str_or_list)
