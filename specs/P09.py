"""Descriptive statistics of points and datasets are the values of their definitions."""
from specs.data import *

sq = lambda x: x * x


def pt(s, n='a'):
    a = s.var(POINT, n); x = s.pre().f(a, 'x')
    s.assume(x.len > 0)
    return a, x, z3.ToReal(x.len)


def psum(s, x, f):
    return s.sum(0, x.len, lambda k: f(zsel(x.arr, k)))


def untouched(s, pre, p):
    a, b = pre.f(p, 'x'), s.now().f(p, 'x')
    s.prove('point untouched', vec_same(a, b))


@proof('mean of a point', driver='kernel')
def _(s):
    a, x, n = pt(s); v = s.pre()
    s.prove('mean', s.call(s.func('pmean'), None, [a]) == psum(s, x, lambda e: e) / n)
    untouched(s, v, a)


@proof('variance of a point', driver='kernel')
def _(s):
    a, x, n = pt(s); v = s.pre()
    m = psum(s, x, lambda e: e) / n
    r = s.call(s.func('pvar'), None, [a])
    s.prove('mean squared deviation', r == psum(s, x, lambda e: sq(e - m)) / n)
    s.bounds()
    untouched(s, v, a)


@proof('standard deviation of a point', driver='kernel')
def _(s):
    a, x, n = pt(s); v = s.pre()
    m = psum(s, x, lambda e: e) / n
    r = s.call(s.func('pstd'), None, [a])
    s.prove('root of the mean squared deviation', r == s.uf('sqrt', R, R)(psum(s, x, lambda e: sq(e - m)) / n))
    untouched(s, v, a)


@proof('covariance of two points', driver='kernel')
def _(s):
    a, x, n = pt(s); b, y, _ = pt(s, 'b'); v = s.pre()
    s.assume(x.len == y.len, x.len > 1)
    m, w = psum(s, x, lambda e: e) / n, psum(s, y, lambda e: e) / n
    r = s.call(s.func('pcovar'), None, [a, b])
    s.prove('sample covariance', r == s.sum(0, x.len, lambda k: (zsel(x.arr, k) - m) * (zsel(y.arr, k) - w)) / (n - 1))
    untouched(s, v, a); untouched(s, v, b)


def ds(s, names=True):
    d = s.var(DATA, 'd'); a = assume_wf(s, d, classes=False)
    s.assume(a.pts.len > 0, a.dim < BIG)
    if names:
        s.assume(a.fnames.len == a.dim)
    return d, a, z3.ToReal(a.pts.len)


def xc(a, i, j):
    return zsel(a.x(i).arr, j)


def col(s, a, j):
    return s.sum(0, a.pts.len, lambda i: xc(a, i, j))


@proof('mean of a feature', driver='kernel')
def _(s):
    d, a, n = ds(s, False); f = s.size_('f'); s.assume(f < a.dim)
    s.prove('mean', s.call(s.func('dmean'), None, [d, f]) == col(s, a, f) / n)
    unchanged_data(s, 'dataset', a, DV(s.now(), d))


@proof('standard deviation of a feature', driver='kernel')
def _(s):
    d, a, n = ds(s, False); f = s.size_('f'); s.assume(f < a.dim, a.pts.len > 1)
    r = s.call(s.func('dstd'), None, [d, f])
    m = col(s, a, f) / n
    s.prove('sample standard deviation', r == s.uf('sqrt', R, R)(s.sum(0, a.pts.len, lambda i: sq(xc(a, i, f) - m)) / (n - 1)))
    unchanged_data(s, 'dataset', a, DV(s.now(), d))


@proof('standard deviation of a feature: one point', driver='kernel')
def _(s):
    d, a, n = ds(s, False); f = s.size_('f'); s.assume(f < a.dim, a.pts.len == 1)
    s.prove('zero', s.call(s.func('dstd'), None, [d, f]) == 0)


def used(a, j, f):
    return zsel(a.fnames.arr, j) != f


@proof('total variance', driver='kernel')
def _(s):
    d, a, n = ds(s); f = s.size_('f')
    r = s.call(s.func('dvar'), None, [d, f])
    s.prove('mean squared distance to the centre without the feature', r == s.sum(0, a.pts.len, lambda i: s.sum(0, a.dim, lambda j: If(used(a, j, f), sq(col(s, a, j) / n - xc(a, i, j)), 0))) / n)
    unchanged_data(s, 'dataset', a, DV(s.now(), d))


BOUNDED_ONLY = ['stats::radius', 'stats::distCenters', 'stats::distCentersWithoutFeats']
