"""Linear regression and its error measure."""
from specs.data import *


@proof('evaluate', driver='near')
def _(s):
    cls = [c for c in s.ast.records if c[1] == 'AnyRegressor'][0]
    c = s.var(cls, 'c'); p = s.var(POINT, 'p'); v = s.pre()
    w = v.f(v.f(c, 'solution'), 'w').f['x'] if False else v.f(c, 'solution').f['w'].f['x']
    bias = v.f(c, 'solution').f['bias']; x = v.f(p, 'x')
    s.assume(w.len == x.len)
    r = s.call(s.func('reval'), None, [c, p])
    s.prove('weights times features plus bias', r == bias + s.sum(0, x.len, lambda i: zsel(w.arr, i) * zsel(x.arr, i)))


@proof('mean squared error', driver='near')
def _(s):
    a, b = s.var(POINT, 'a'), s.var(POINT, 'b'); v = s.pre()
    x, y = v.f(a, 'x'), v.f(b, 'x'); s.assume(x.len == y.len, x.len > 0)
    r = s.call(s.func('mse'), None, [a, b])
    s.prove('mean of the squared differences', r * z3.ToReal(x.len) == s.sum(0, x.len, lambda i: (zsel(x.arr, i) - zsel(y.arr, i)) * (zsel(x.arr, i) - zsel(y.arr, i))))


BOUNDED_ONLY = ['LMSPrimal::train']
