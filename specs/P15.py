"""Multi-class decisions from binary learners."""
from specs.many import *


@proof('one against all', driver='multi', contracts=(learner,))
def _(s):
    c, p, v, a, x = setup(s, 'OneVsAll')
    b = v.f(c, 'base_learners'); s.assume(b.len == a.classes.len)
    s.assume(ALL('k', lambda k: Implies(inR(k, b.len), And(zsel(b.arr, k) >= 1, zsel(b.arr, k) < s.st.alloc))))
    raw = s.val(T.BOOL, 'raw')
    r = s.call(s.func('ova'), None, [c, p, raw])
    val = lambda k: LRN(zsel(b.arr, k), x.arr, x.len, z3.BoolVal(True))
    s.prove('a listed class', EX('m', lambda m: And(inR(m, a.classes.len), r == z3.ToReal(a.cls(m)))))
    m, i = s.int_('m'), s.int_('i'); s.st.assume(inR(m, b.len), inR(i, b.len), r == z3.ToReal(a.cls(m)))
    s.hint(m, i, s.e.extremes[-1])
    s.prove('the class whose learner has the largest raw value', val(i) <= val(m))
    unchanged_data(s, 'dataset', a, DV(s.now(), a.loc))


@proof('one against one', driver='multi', contracts=(learner,))
def _(s):
    c, p, v, a, x = setup(s, 'OneVsOne')
    b = v.f(c, 'base_learners'); m = a.classes.len
    row = lambda i: s.e.sorts.unpack(z3.Select(b.arr, i), b.et)
    s.assume(b.len == m, ALL('i', lambda i: Implies(inR(i, m), row(i).len == m)))
    s.assume(ALL('i j', lambda i, j: Implies(And(inR(i, m), inR(j, m), i != j), And(zsel(row(i).arr, j) >= 1, zsel(row(i).arr, j) < s.st.alloc))))
    raw = s.val(T.BOOL, 'raw')
    r = s.call(s.func('ovo'), None, [c, p, raw])
    won = lambda i, j: LRN(zsel(row(i).arr, j), x.arr, x.len, z3.BoolVal(False)) == 1
    votes = lambda c: s.sum(0, m, lambda i: s.sum(0, row(i).len, lambda j: If(And(a.cls(i) != a.cls(j), If(won(i, j), c == i, c == j)), z3.IntVal(1), z3.IntVal(0))))
    s.prove('a listed class', EX('m', lambda q: And(inR(q, m), r == z3.ToReal(a.cls(q)))))
    q, i = s.int_('q'), s.int_('i'); s.st.assume(inR(q, m), inR(i, m), r == z3.ToReal(a.cls(q)))
    s.hint(q, i, s.e.extremes[-1])
    s.prove('the class with the most votes', votes(i) <= votes(q))
    unchanged_data(s, 'dataset', a, DV(s.now(), a.loc))
