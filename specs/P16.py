"""Voting ensembles decide by the (weighted) votes of their learners."""
from specs.data import *
from specs.many import *


def ens(s):
    c, p, v, a, x = setup(s, 'VotingClassifier')
    b = v.f(c, 'm_learners')
    s.assume(ALL('k', lambda k: Implies(inR(k, b.len), And(zsel(b.arr, k) >= 1, zsel(b.arr, k) < s.st.alloc))))
    pr = lambda k: LRN(zsel(b.arr, k), x.arr, x.len, z3.BoolVal(False))
    # every learner answers one of the classes of the dataset
    s.assume(ALL('k', lambda k: Implies(inR(k, b.len), EX('m', lambda m: And(inR(m, a.classes.len), pr(k) == z3.ToReal(a.cls(m)))))))
    return c, p, v, a, x, b, pr


def verdict(s, a, b, pr, r, w):
    votes = lambda c: s.sum(0, b.len, lambda k: If(pr(k) == z3.ToReal(c), w(k), z3.RealVal(0)))
    s.prove('a listed class', EX('m', lambda m: And(inR(m, a.classes.len), r == z3.ToReal(a.cls(m)))))
    m, i = s.int_('m'), s.int_('i'); s.st.assume(inR(m, a.classes.len), inR(i, a.classes.len), r == z3.ToReal(a.cls(m)))
    s.hint(m, i, s.e.extremes[-1])
    s.prove('the class with the most votes', votes(a.cls(i)) <= votes(a.cls(m)))
    unchanged_data(s, 'dataset', a, DV(s.now(), a.loc))


@proof('hard vote', driver='multi', contracts=(learner,))
def _(s):
    c, p, v, a, x, b, pr = ens(s)
    s.assume(v.f(c, 'voting_type') != s.e.strlit('soft'))
    r = s.call(s.func('vote'), None, [c, p, z3.BoolVal(False)])
    verdict(s, a, b, pr, r, lambda k: z3.RealVal(1))


@proof('soft vote', driver='multi', contracts=(learner,))
def _(s):
    c, p, v, a, x, b, pr = ens(s)
    w = v.f(c, 'weights').f['x']
    s.assume(v.f(c, 'voting_type') == s.e.strlit('soft'), w.len == b.len)
    r = s.call(s.func('vote'), None, [c, p, z3.BoolVal(False)])
    verdict(s, a, b, pr, r, lambda k: zsel(w.arr, k))
