"""Contracts on pyfileconf.sectionpath.sectionpath (C01)."""
import os
import z3
from pyvc.api import *
from pyvc.types import split_base, full_seg
from pyvc.expr import CANON, SPSTR
from pyvc.core import SS, Inst, ListO, Seq, Val
if False:
    import os
    from pyfileconf.sectionpath.sectionpath import SectionPath, _relative_filepath_to_section_path

M = 'pyfileconf.sectionpath.sectionpath'
SP = M + ':SectionPath'


def sp_at(ex, st, s):
    """a section path object for the string term s (representation invariant: sections == path_str.split('.'))"""
    b = split_base(ex, s, '.')
    st = st.fact(b.len >= 1, z3.Implies(z3.Not(z3.Contains(s, z3.StringVal('.'))),
                                        z3.And(b.len == 1, b.get(z3.IntVal(0)).t == s)))
    st, lp = st.alloc(ListO(Seq([full_seg(b)])))
    return st.alloc(Inst(SP, {'path_str': SS(s), 'sections': lp}))


SPV = TExpr(lambda ex, st, n: [sp_at(ex, st, z3.String(n))])
SPVAL = TValObj(SP, lambda ex, st, t: sp_at(ex, st.fact(Val.is_ref(t), Val.r(t) < -1000000, CANON(SPSTR(t)) == t), SPSTR(t)))
VIEW = TRef('pyfileconf.selector.models.itemview:ItemView', section_path_str=TStr(), _is_item_view=TConst(True))


@contract(SP + '.__init__', 'C01', self=TObj(SP), section_path=TStr())
def init(self, section_path):
    self.path_str = section_path
    self.sections = section_path.split('.')


@contract(SP + '.__iter__', 'C01', self=SPV)
def iter_(self):
    return list(self.path_str.split('.'))


@contract(SP + '.__len__', 'C01', self=SPV)
def len_(self):
    return len(self.path_str.split('.'))


@contract(SP + '.__getitem__', 'C01', self=SPV, item=TInt(), opts={'alt': True})
def getitem(self, item):
    return self.path_str.split('.')[item]


@contract(SP + '.from_section_str_list', 'C01', section_strs=TList(TStr()))
def from_section_str_list(cls, section_strs):
    return SectionPath('.'.join(section_strs))


@contract(SP + '.join', 'C01', section_path_1=TOneOf(TStr(), SPV), section_path_2=TOneOf(TStr(), SPV))
def join(cls, section_path_1, section_path_2):
    a = section_path_1.split('.') if isinstance(section_path_1, str) else section_path_1.sections
    b = section_path_2.split('.') if isinstance(section_path_2, str) else section_path_2.sections
    return SectionPath('.'.join([*a, *b]))


@contract(SP + '.endswith', 'C01', self=SPV, sp=SPV, use=['-' + SP + '.__getitem__'])
def endswith(self, sp):
    mine, other = self.path_str.split('.'), sp.path_str.split('.')
    n, m = len(mine), len(other)
    return m <= n and all(part == other[i] for i, part in enumerate(mine[n - m:]))


@contract(SP + '.__eq__', 'C01', self=SPV, other=TOneOf(SPV, TStr(), TAny(), None))
def eq(self, other):
    return hasattr(other, 'path_str') and self.path_str == other.path_str


@contract(SP + '.__hash__', 'C01', self=SPV)
def hash_(self):
    return hash(self.path_str)


@contract(M + ':_strip_py', 'C01', filename_str=TStr())
def strip_py(filename_str):
    return filename_str[:len(filename_str) - 3] if filename_str.endswith('.py') else filename_str


@contract(SP + '.to_filepath', 'C01', self=SPV, basepath=TStr())
def to_filepath(self, basepath):
    return os.path.join(basepath, '/'.join(self.sections))


@contract(SP + '.from_filepath', 'C01', basepath=TStr(), filepath=TStr())
def from_filepath(cls, basepath, filepath):
    parts = os.path.relpath(filepath, start=basepath).split('/')
    last = parts[-1]
    if last.endswith('.py'):
        last = last[:-3]
    return SectionPath('.'.join(parts[:-1] + [last]))


@contract('pyfileconf.selector.models.itemview:is_item_view', 'C01 C17', obj=TOneOf(VIEW, SPV, TStr(), TAny(), None))
def is_item_view(obj):
    return getattr(obj, '_is_item_view', False) is True


@contract(SP + '.from_ambiguous', 'C01', item=TOneOf(TStr(), SPV, VIEW, None),
          strip_manager_from_iv=TBool(), base_section_path_str=TOneOf(None, TStr()))
def from_ambiguous(cls, item, strip_manager_from_iv=False, base_section_path_str=None):
    from pyfileconf.selector.models.itemview import is_item_view
    if isinstance(item, str):
        result = SectionPath(item)
    elif is_item_view(item):
        result = SectionPath(item.section_path_str)
        if strip_manager_from_iv:
            result = SectionPath('.'.join(result.sections[1:]))
    elif isinstance(item, cls):
        result = item
    else:
        raise ValueError
    if base_section_path_str is not None:
        return SectionPath('.'.join(base_section_path_str.split('.') + result.sections))
    return result


@contract(SP + '.list_from_ambiguous', 'C01', items=TOneOf(TStr(), SPV, VIEW, TList(TOneOf(TStr(), VIEW)), TTupleOf(VIEW)),
          strip_manager_from_iv=TBool(), base_section_path_str=TOneOf(None, TStr()))
def list_from_ambiguous(cls, items, base_section_path_str=None, strip_manager_from_iv=False):
    return [SectionPath.from_ambiguous(x, strip_manager_from_iv=strip_manager_from_iv, base_section_path_str=base_section_path_str)
            for x in (items if isinstance(items, (list, tuple)) else [items])]


@lemma('C01', s=TStr())
def parts_and_back(s):
    """a path is the sequence of its dot-separated parts, and converting to parts and back gives the same path"""
    p = SectionPath(s)
    prove(p.path_str == s, 'the path string is kept')
    q = SectionPath.from_section_str_list(p.sections)
    prove(q.path_str == s, 'parts and back')
    prove(q == p, 'equal to the original')
    prove(len(p) == len(s.split('.')), 'number of parts')


@lemma('C01', parts=TList(TStr(), minlen=1))
def list_and_back(parts):
    assume(all('.' not in x for x in parts))
    p = SectionPath.from_section_str_list(parts)
    prove(len(p.sections) == len(parts), 'as many parts')
    prove(all(p.sections[i] == parts[i] for i in range(len(parts))), 'same parts in order')


@lemma('C01', a=TStr(), b=TStr())
def join_is_concatenation(a, b):
    j = SectionPath.join(a, SectionPath(b))
    x, y = a.split('.'), b.split('.')
    prove(len(j.sections) == len(x) + len(y), 'length of a join')
    prove(len(j) == len(SectionPath(a)) + len(SectionPath(b)), 'len of a join')
    prove(all(p in j.sections for p in x), 'first parts kept')
    prove(all(p in j.sections for p in y), 'second parts kept')


@lemma('C01', a=TStr(), b=TStr())
def equality_is_equality_of_strings(a, b):
    p, q = SectionPath(a), SectionPath(b)
    prove((p == q) == (a == b), 'equal exactly when the strings are equal')
    prove(implies(p == q, hash(p) == hash(q)), 'equal paths hash alike')
    prove(not (p == a), 'not equal to a string')
    prove(not (p == None), 'not equal to None')


@lemma('C01', parts=TList(TStr(), minlen=1))
def file_path_and_back(parts):
    """with os.path.relpath(os.path.join(base, rel), start=base) == rel (library fact for normalised paths)"""
    assume(all('.' not in x and '/' not in x for x in parts))
    p = SectionPath.from_section_str_list(parts)
    assume(not parts[-1].endswith('.py'))
    prove(_relative_filepath_to_section_path('/'.join(p.sections)) == p.path_str, 'file path and back')
