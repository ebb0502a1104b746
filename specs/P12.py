"""Nearest neighbour prediction."""
from specs.data import *
from specs.dist import *

def setup(s, cname):
    import cppvc.astdb
    cls = [c for c in s.ast.records if c[1] == cname][0]
    c = s.var(cls, 'c'); p = s.var(POINT, 'p'); v = s.pre()
    d = v.f(c, 'samples'); s.assume(d >= 1, d < s.st.alloc)
    a = assume_wf(s, Loc(('h', DATA, d))); x = v.f(p, 'x'); k = v.f(c, 'k')
    s.assume(x.len == a.dim, k >= 1, k <= a.pts.len)
    return c, p, v, a, x, k


def distance(s, x, y):
    return DISTF(x.arr, y.arr, x.len)


def nearest(s, a, x, k):
    """the chosen permutation lists k nearest points first"""
    A, old, p, q, lo, hi = s.e.perms[-1]
    n = a.pts.len
    i, j = s.int_('i'), s.int_('j')
    s.st.assume(inR(i, n), inR(j, n), i < k, k <= j)
    di, dj = distance(s, x, a.x(zsel(A, i))), distance(s, x, a.x(zsel(A, j)))
    s.prove('positions of points', And(inR(zsel(A, i), n), inR(zsel(A, j), n), zsel(A, i) != zsel(A, j)))
    s.prove('no other point is nearer than a neighbour', di <= dj)
    return A


@proof('k nearest neighbours regression', driver='near', contracts=(metric,))
def _(s):
    c, p, v, a, x, k = setup(s, 'KNNRegressor')
    r = s.call(s.func('knnr'), None, [c, p])
    A = s.e.perms[-1][0]
    s.prove('mean of the values of the neighbours', r * z3.ToReal(k) == s.sum(0, k, lambda j: a.y(zsel(A, j))))
    unchanged_data(s, 'dataset', a, DV(s.now(), a.loc))
    nearest(s, a, x, k)


@proof('k nearest neighbours classification', driver='near', contracts=(metric,))
def _(s):
    c, p, v, a, x, k = setup(s, 'KNNClassifier')
    s.assume(v.f(c, 'algorithm') == s.e.strlit('brute'), Not(v.f(c, 'precomputed')))
    r = s.call(s.func('knnc'), None, [c, p])
    A = s.e.perms[-1][0]
    b = DV(s.now(), a.loc)   # same labels as before, see 'unchanged'
    votes = lambda y: s.count(0, k, lambda j: b.y(zsel(A, j)) == y)
    s.prove('a listed class', EX('m', lambda m: And(inR(m, a.classes.len), r == z3.ToReal(a.cls(m)))))
    i = s.int_('c'); s.st.assume(inR(i, a.classes.len))
    s.prove('the most frequent class of the neighbours', votes(z3.ToReal(a.cls(i))) <= votes(r))
    unchanged_data(s, 'dataset', a, DV(s.now(), a.loc))
    nearest(s, a, x, k)


BOUNDED_ONLY = ['KNNClassifier::evaluate with precomputed distances (full and diagonal matrix)']
