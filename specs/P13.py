"""Perceptrons: the decision taken with the trained weights (training itself is bounded)."""
from specs.data import *
from cppvc.ctypes_ import BOOL


def decide(s, cname, fn, own=False):
    cls = [c for c in s.ast.records if c[1] == cname][0]
    c = s.var(cls, 'c'); p = s.var(POINT, 'p'); raw = s.val(BOOL, 'raw'); v = s.pre()
    x = v.f(p, 'x'); sol = v.f(c, 'solution')
    if own:
        w, bias, least = v.f(c, 'weights').f['x'], v.f(c, 'bias'), z3.RealVal(0)
    else:
        w, bias, least = sol.f['w'].f['x'], sol.f['bias'], z3.RealVal(0)
        d = v.f(c, 'samples'); s.assume(d >= 1, d < s.st.alloc)
        a = assume_wf(s, Loc(('h', DATA, d))); s.assume(a.dim == x.len, a.pts.len > 0)
        if cname == 'PerceptronFixedMarginPrimal':
            least = sol.f['margin'] * sol.f['norm']
    s.assume(w.len == x.len)
    r = s.call(s.func(fn), None, [c, p, raw])
    f = s.sum(0, x.len, lambda i: zsel(w.arr, i) * zsel(x.arr, i)) + bias
    s.prove('raw value', Implies(raw, r == f))
    s.prove('side of the hyperplane', Implies(Not(raw), r == If(f >= least, z3.RealVal(1), z3.RealVal(-1))))
    if not own:
        unchanged_data(s, 'dataset', a, DV(s.now(), a.loc))


@proof('perceptron', driver='perc')
def _(s):
    decide(s, 'PerceptronPrimal', 'peval')


@proof('fixed margin perceptron', driver='perc')
def _(s):
    decide(s, 'PerceptronFixedMarginPrimal', 'feval')


@proof('balanced perceptron', driver='perc')
def _(s):
    decide(s, 'BalancedPerceptron', 'beval', True)


BOUNDED_ONLY = ['PerceptronPrimal::train', 'PerceptronFixedMarginPrimal::train', 'PerceptronDual::train', 'PerceptronFixedMarginDual::train', 'BalancedPerceptron::train']
