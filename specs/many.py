"""Contract of the base learners of a compound classifier."""
from specs.data import *

LRN = z3.Function('learner_value', I, z3.ArraySort(I, R), I, z3.BoolSort(), R)


def lvalue(v, this, args):
    x = v.f(args[0], 'x')
    raw = args[1] if len(args) > 1 else z3.BoolVal(False)
    return LRN(this.root[2], x.arr, x.len, raw)


learner = Pure('evaluate of a base learner: a function of the learner, the point and raw_value, no side effects', [('Learner', 'evaluate')], lvalue)


def setup(s, cname):
    cls = [c for c in s.ast.records if c[1] == cname][0]
    c = s.var(cls, 'c'); p = s.var(POINT, 'p'); v = s.pre()
    d = v.f(c, 'samples'); s.assume(d >= 1, d < s.st.alloc)
    a = assume_wf(s, Loc(('h', DATA, d))); x = v.f(p, 'x')
    s.assume(a.classes.len > 0)
    return c, p, v, a, x
