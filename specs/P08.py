"""Kernels: values, kernel matrices, norms in the dual variables."""
from specs.data import *

KERNEL = ('cls', 'Kernel', (T.REAL,))
MAT = ('vec', ('vec', T.REAL))
INNER, POLY, GAUSS = 0, 1, 2
sq = lambda x: x * x


def kernel(s):
    k = s.var(KERNEL, 'k'); ty = s.pre().f(k, 'type'); par = s.pre().f(k, 'param')
    return k, ty, par


def value(s, ty, par, n, x, y, use=None):
    """kernel of type ty with parameter par between two vectors of n components, over the components in use"""
    u = (lambda j, e: e) if use is None else (lambda j, e: If(use(j), e, 0))
    ip = s.sum(0, n, lambda j: u(j, zsel(x.arr, j) * zsel(y.arr, j)))
    d2 = s.sum(0, n, lambda j: u(j, sq(zsel(x.arr, j) - zsel(y.arr, j))))
    pw = s.uf('pow', R, R, R); ex = s.uf('exp', R, R)
    return {INNER: ip, POLY: If(par > 1, pw(ip, par), ip), GAUSS: ex(-d2 * par)}[ty]


def pair(s):
    a, b = s.heapobj(POINT, 'a'), s.heapobj(POINT, 'b'); v = s.pre()
    x, y = v.f(a, 'x'), v.f(b, 'x')
    s.assume(x.len == y.len, x.len < BIG)
    return a, b, x, y


def untouched(s, v, *ps):
    for p in ps:
        q, r = v.f(p, 'x'), s.now().f(p, 'x')
        s.prove('point untouched', And(r.len == q.len, ALL('k', lambda k: Implies(inR(k, q.len), zsel(r.arr, k) == zsel(q.arr, k)))))


for ty, nm in ((INNER, 'inner product'), (POLY, 'polynomial'), (GAUSS, 'gaussian')):
    def mk(ty, nm):
        @proof('kernel value: ' + nm, driver='kernel')
        def _(s):
            k, t, par = kernel(s); a, b, x, y = pair(s); v = s.pre(); s.assume(t == ty)
            r = s.call(s.func('kfun'), None, [k, a.root[2], b.root[2], x.len])
            s.prove('value', r == value(s, ty, par, x.len, x, y))
            untouched(s, v, a, b)

        @proof('kernel value without a component: ' + nm, driver='kernel')
        def _(s):
            k, t, par = kernel(s); a, b, x, y = pair(s); v = s.pre(); s.assume(t == ty)
            j = s.int_('j')
            r = s.call(s.func('kfunw'), None, [k, a.root[2], b.root[2], j, x.len])
            s.prove('value of the points without that component', r == value(s, ty, par, x.len, x, y, lambda i: i != j))
            untouched(s, v, a, b)

        @proof('kernel operator: ' + nm, driver='kernel')
        def _(s):
            k, t, par = kernel(s); a, b = s.var(POINT, 'a'), s.var(POINT, 'b'); v = s.pre(); s.assume(t == ty)
            x, y = v.f(a, 'x'), v.f(b, 'x'); s.assume(x.len == y.len, x.len < BIG)
            r = s.call(s.func('kop'), None, [k, a, b])
            s.prove('value', r == value(s, ty, par, x.len, x, y))
    mk(ty, nm)


BOUNDED_ONLY = ['Kernel::compute', 'Kernel::generateMatrixH', 'Kernel::generateMatrixHwithoutDim', 'Kernel::norm', 'Kernel::featureSpaceNorm', 'custom kernels']
