"""Validation measures are the values of their definitions."""
from specs.data import *
from specs.learner import LEARN, evaluate, pred

CM = ('vec', ('vec', T.SIZE))
PINT = ('cls', 'Point', (T.INT, ('vec', T.INT)))


@proof('accuracy', driver='valid', contracts=(evaluate,))
def _(s):
    d = s.var(DATA, 'd'); a = assume_wf(s, d); l = s.var(LEARN, 'l')
    s.assume(a.pts.len > 0)
    r = s.call(s.func('acc'), None, [d, l])
    s.prove('share of the points predicted with their label', r * z3.ToReal(a.pts.len) == s.sum(0, a.pts.len, lambda k: If(pred(a, k) == a.y(k), z3.RealVal(1), z3.RealVal(0))))
    unchanged_data(s, 'dataset', a, DV(s.now(), d))


def matrix(s):
    m = s.var(CM, 'm'); v = s.pre().get(m)
    row = lambda i: s.e.sorts.unpack(z3.Select(v.arr, i), ('vec', T.SIZE))
    return m, v, row


@proof('accuracy of a confusion matrix', driver='valid')
def _(s):
    m, v, row = matrix(s)
    tot = s.sum(0, v.len, lambda i: s.sum(0, row(i).len, lambda j: z3.ToReal(zsel(row(i).arr, j))))
    err = s.sum(0, v.len, lambda i: s.sum(0, row(i).len, lambda j: If(i != j, z3.ToReal(zsel(row(i).arr, j)), 0)))
    s.assume(tot > 0)
    r = s.call(s.func('cmacc'), None, [m])
    s.prove('percentage on the diagonal', r == (1 - err / tot) * 100)


def derived(s, r):
    q = lambda a, b: z3.ToReal(a) / z3.ToReal(b)
    tp, tn, fp, fn = (r.f[k] for k in ('tp', 'tn', 'fp', 'fn'))
    se, pr = r.f['sensitivity'], r.f['precision']
    s.prove('sensitivity', Implies(tp + fn > 0, And(se == q(tp, tp + fn), r.f['recall'] == se)))
    s.prove('specificity', Implies(tn + fp > 0, r.f['specificity'] == q(tn, tn + fp)))
    s.prove('precision', Implies(tp + fp > 0, pr == q(tp, tp + fp)))
    s.prove('F1', Implies(And(tp > 0), r.f['fscore'] == 2 * pr * se / (pr + se)))


@proof('classification report', driver='valid')
def _(s):
    a, b = s.var(PINT, 'a'), s.var(PINT, 'b'); v = s.pre(); x, y = v.f(a, 'x'), v.f(b, 'x')
    s.assume(x.len == y.len, x.len > 0, x.len < BIG)
    r = s.call(s.func('crep'), None, [a, b])
    one = lambda c: s.sum(0, x.len, lambda k: If(c(zsel(x.arr, k), zsel(y.arr, k)), z3.RealVal(1), z3.RealVal(0)))
    cn = lambda c: s.count(0, x.len, lambda k: c(zsel(x.arr, k), zsel(y.arr, k)))
    s.prove('accuracy', r.f['accuracy'] == one(lambda p, q: p == q) / z3.ToReal(x.len))
    derived(s, r)
    tp, tn, fp, fn = (r.f[k] for k in ('tp', 'tn', 'fp', 'fn'))
    none = And(tp == 0, tn == 0, fp == 0, fn == 0)
    for nm, v, c in (('true positives', tp, lambda p, q: And(p == q, p == 1)), ('true negatives', tn, lambda p, q: And(p == q, p != 1)),
                     ('false negatives', fn, lambda p, q: And(p != q, p == 1)), ('false positives', fp, lambda p, q: And(p != q, p != 1))):
        s.prove(nm, Or(none, v == cn(c)))


def report(s, empty):
    d = s.var(DATA, 'd'); a = assume_wf(s, d); m, v, row = matrix(s)
    pl = s.var(('vec', T.INT), 'pos'); p = s.pre().get(pl)
    n = a.classes.len
    s.assume(a.pts.len > 0, v.len == n, n < BIG, ALL('i', lambda i: Implies(inR(i, n), row(i).len == n)))
    at = lambda i, j: zsel(row(i).arr, j)
    if empty:
        s.assume(p.len == 0); pos = lambda i: z3.BoolVal(True)
    else:
        s.assume(p.len > 0, p.len < BIG)
        W = z3.Function('class_of_label', I, I)
        s.assume(ALL('l', lambda l: Implies(inR(l, p.len), And(inR(W(l), n), a.cls(W(l)) == zsel(p.arr, l))), lambda l: zsel(p.arr, l)))
        pos = lambda i: EX('l', lambda l: And(inR(l, p.len), a.cls(i) == zsel(p.arr, l)))
    r = s.call(s.func('mrep'), None, [d, m, s.now().get(pl)])
    return d, a, n, at, pos, r


@proof('metrics report, all classes positive', driver='valid')
def _(s):
    d, a, n, at, pos, r = report(s, True)
    f = r.f
    s.prove('true positives', f['tp'] == s.sum(0, n, lambda i: s.sum(0, n, lambda j: If(i == j, at(i, j), 0), I), I))
    s.prove('false negatives', f['fn'] == s.sum(0, n, lambda i: s.sum(0, n, lambda j: If(i != j, at(i, j), 0), I), I))
    s.prove('no negatives', And(f['tn'] == 0, f['fp'] == 0))
    s.prove('accuracy', And(f['accuracy'] * z3.ToReal(a.pts.len) == z3.ToReal(f['tp']) + z3.ToReal(f['tn']), f['error'] == 1 - f['accuracy'], f['errors'] == f['fp'] + f['fn']))
    derived(s, r)
    unchanged_data(s, 'dataset', a, DV(s.now(), d))


BOUNDED_ONLY = ['splitByClasses, splitSample, partTrainTest, kfoldsplit', 'kfold, kkfold', 'cells of generateConfusionMatrix', 'metricsReport with chosen positive labels']
