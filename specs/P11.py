"""Linear and kernel classifiers decide by the sign of their decision function."""
from specs.data import *
from specs.learner import LEARN, PRED, evaluate, pred


@proof('decision function of a primal classifier', driver='valid')
def _(s):
    c = s.var(('cls', 'AnyPrimal', ()), 'c'); p = s.var(POINT, 'p'); v = s.pre()
    x = v.f(p, 'x'); sol = v.f(c, 'solution'); w = sol.f['w'].f['x']
    raw = s.val(T.BOOL, 'raw')
    r = s.call(s.func('primal_eval'), None, [c, p, raw])
    f = s.sum(0, w.len, lambda k: zsel(w.arr, k) * zsel(x.arr, k)) + sol.f['bias']
    s.prove('raw value is the decision function', Implies(And(x.len == w.len, raw), r == f))
    s.prove('side of the hyperplane', Implies(And(x.len == w.len, Not(raw)), r == If(s.sum(0, w.len, lambda k: zsel(w.arr, k) * zsel(x.arr, k)) + sol.f['bias'] >= 0, z3.RealVal(1), z3.RealVal(-1))))


KER = z3.Function('kernel_value', I, z3.ArraySort(I, R), z3.ArraySort(I, R), I, R)


def kvalue(v, this, args):
    x, y = v.f(args[0], 'x'), v.f(args[1], 'x')
    return KER(this.root[2], x.arr, y.arr, x.len)


kfunction = Pure('Kernel::function: the value of the kernel for the two points (proved under P08), no side effects', [('Kernel', 'function')], kvalue)


@proof('decision function of a dual classifier', driver='valid', contracts=(kfunction,))
def _(s):
    c = s.var(('cls', 'AnyDual', ()), 'c'); p = s.var(POINT, 'p'); v = s.pre()
    K = v.f(c, 'kernel'); d = v.f(c, 'samples')
    s.assume(d >= 1, d < s.st.alloc, K >= 1)
    a = assume_wf(s, Loc(('h', DATA, d)), classes=False)
    x = v.f(p, 'x'); sol = v.f(c, 'solution'); al = sol.f['alpha'] if 'alpha' in sol.f else None
    s.assume(al.len == a.pts.len, a.pts.len > 0)
    raw = s.val(T.BOOL, 'raw')
    r = s.call(s.func('dual_eval'), None, [c, p, raw])
    ext = s.sum(0, a.pts.len, lambda k: zsel(al.arr, k) * a.y(k) * KER(K, x.arr, a.x(k).arr, x.len))
    s.prove('raw value is the decision function', Implies(And(x.len == a.dim, raw), r == ext + sol.f['bias']))
    s.prove('sign of the kernel expansion', Implies(And(x.len == a.dim, Not(raw)), r == If(ext + sol.f['bias'] >= 0, z3.RealVal(1), z3.RealVal(-1))))


@proof('predictions of a dataset', driver='valid', contracts=(evaluate,))
def _(s):
    d = s.var(DATA, 'd'); a = assume_wf(s, d); l = s.var(LEARN, 'l')
    r = s.call(s.func('batch'), None, [l, d])
    x = r.f['x']
    s.prove('one prediction per point', x.len == a.pts.len)
    s.prove('prediction of each point', ALL('k', lambda k: Implies(inR(k, x.len), zsel(x.arr, k) == pred(a, k))))
    unchanged_data(s, 'dataset', a, DV(s.now(), d))


@proof('weights of the linear expansion', driver='valid')
def _(s):
    c = s.var(('cls', 'AnyDual', ()), 'c'); v = s.pre(); d = v.f(c, 'samples')
    s.assume(d >= 1, d < s.st.alloc)
    a = assume_wf(s, Loc(('h', DATA, d)), classes=False)
    s.assume(a.pts.len > 0)
    r = s.call(s.func('dual_weight'), None, [c]); w = r.f['x']
    s.prove('one weight per component', w.len == a.dim)
    k = s.int_('k'); s.assume(inR(k, a.dim))
    s.prove('weight', zsel(w.arr, k) == s.sum(0, a.pts.len, lambda i: a.alpha(i) * a.y(i) * zsel(a.x(i).arr, k)))
