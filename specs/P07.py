"""Distance functors: every functor computes its published definition; the genuine metrics are symmetric, non-negative and separate points."""
from cppvc.spec import *

inR = lambda k, n: And(0 <= k, k < n)
ab = lambda x: If(x >= 0, x, -x)
mn = lambda x, y: If(x <= y, x, y)
mx = lambda x, y: If(x >= y, x, y)


class C:
    """the two argument points of one proof"""

    def __init__(self, s):
        self.s = s
        self.a = s.var(POINT, 'a'); self.b = s.var(POINT, 'b')
        self.v = s.pre(); self.x, self.y = self.v.f(self.a, 'x'), self.v.f(self.b, 'x')
        self.n = self.x.len
        s.assume(self.x.len == self.y.len)

    def sum(self, f):
        return self.s.sum(0, self.n, lambda k: f(zsel(self.x.arr, k), zsel(self.y.arr, k)))

    @staticmethod
    def swapped(c):
        w = object.__new__(C)
        w.s = c.s; w.a, w.b, w.x, w.y, w.n, w.v = c.b, c.a, c.y, c.x, c.n, c.v
        return w

    def fn(self, name):
        return self.s.uf(name, R, R)

    def all(self, f):
        self.s.assume(ALL('k', lambda k: Implies(inR(k, self.n), f(zsel(self.x.arr, k), zsel(self.y.arr, k)))))

    def call(self, name, swap=False):
        f = self.s.func('d' + name)
        return self.s.call(f, None, [self.b, self.a] if swap else [self.a, self.b])

    def untouched(self):
        now = self.s.now()
        for nm, p, x in (('left', self.a, self.x), ('right', self.b, self.y)):
            z = now.f(p, 'x')
            self.s.prove(nm + ' point untouched', And(z.len == x.len, ALL('k', lambda k: Implies(inR(k, x.len), zsel(z.arr, k) == zsel(x.arr, k)))))


def D(name, formula, dom=None, nonempty=False, denom=None, axioms=''):
    """formula(c, sqrt, log) is the published definition; dom(x_k, y_k) its domain; denom(c) further side conditions;
    axioms: s symmetric, z zero on equal points, n non-negative, i positive on different points"""
    @proof(name + ': definition', driver='metrics')
    def _(s):
        c = C(s)
        if nonempty:
            s.assume(c.n > 0)
        if dom:
            c.all(dom)
        if denom:
            s.assume(*denom(c))
        r = c.call(name)
        s.prove(name + ' is its definition', r == formula(c, c.fn('sqrt'), c.fn('log')))
        c.untouched()
    if axioms:
        @proof(name + ': metric axioms of the definition', driver='metrics')
        def _(s):
            c = C(s); w = C.swapped(c)
            if nonempty:
                s.assume(c.n > 0)
            if dom:
                c.all(dom)
            if denom:
                s.assume(*denom(c))
            sqrt, log = c.fn('sqrt'), c.fn('log')
            r = formula(c, sqrt, log)
            if 's' in axioms:
                s.prove('symmetric', r == formula(w, sqrt, log))
            s.bounds()
            if 'n' in axioms:
                s.prove('never negative', r >= 0)
            if 'z' in axioms:
                s.prove('zero between equal points', Implies(ALL('k', lambda k: Implies(inR(k, c.n), zsel(c.x.arr, k) == zsel(c.y.arr, k))), r == 0))
            if 'i' in axioms:
                k = s.int_('k')
                s.assume(inR(k, c.n), zsel(c.x.arr, k) != zsel(c.y.arr, k))
                s.prove('positive between different points', r > 0)


sq = lambda x: x * x
D('Euclidean', lambda c, sqrt, log: sqrt(c.sum(lambda x, y: sq(x - y))), axioms='szni')
D('Manhattan', lambda c, sqrt, log: c.sum(lambda x, y: ab(x - y)), axioms='szni')
D('Lorentzian', lambda c, sqrt, log: c.sum(lambda x, y: log(1 + ab(x - y))), axioms='szni')
D('Canberra', lambda c, sqrt, log: c.sum(lambda x, y: ab(x - y) / (ab(x) + ab(y))), dom=lambda x, y: ab(x) + ab(y) > 0, axioms='szni')
D('Sorensen', lambda c, sqrt, log: c.sum(lambda x, y: ab(x - y)) / c.sum(lambda x, y: x + y), denom=lambda c: [c.sum(lambda x, y: x + y) != 0])
D('AvgManhattan', lambda c, sqrt, log: c.sum(lambda x, y: ab(x - y)) / z3.ToReal(c.n), nonempty=True, axioms='szn')
D('NonIntersection', lambda c, sqrt, log: c.sum(lambda x, y: ab(x - y)) / 2, axioms='szni')
D('Jaccard', lambda c, sqrt, log: c.sum(lambda x, y: sq(x - y)) / (c.sum(lambda x, y: x * x) + c.sum(lambda x, y: y * y) - c.sum(lambda x, y: x * y)))
D('Cosine', lambda c, sqrt, log: 1 - c.sum(lambda x, y: x * y) / (sqrt(c.sum(lambda x, y: x * x)) * sqrt(c.sum(lambda x, y: y * y))))
D('Dice', lambda c, sqrt, log: 1 - 2 * c.sum(lambda x, y: x * y) / (c.sum(lambda x, y: x * x) + c.sum(lambda x, y: y * y)))
pos = lambda x, y: And(x > 0, y > 0)
nn = lambda x, y: And(x >= 0, y >= 0)
D('Bhattacharyya', lambda c, sqrt, log: -log(c.sum(lambda x, y: sqrt(x * y))), dom=nn)
D('SquaredChord', lambda c, sqrt, log: c.sum(lambda x, y: sq(sqrt(x) - sqrt(y))), dom=nn, axioms='szni')
D('Matusita', lambda c, sqrt, log: sqrt(c.sum(lambda x, y: sq(sqrt(x) - sqrt(y)))), dom=nn, axioms='szn')
D('Hellinger', lambda c, sqrt, log: sqrt(2 * c.sum(lambda x, y: sq(sqrt(x) - sqrt(y)))), dom=nn, axioms='szn')
D('SquaredEuclidean', lambda c, sqrt, log: c.sum(lambda x, y: sq(x - y)), axioms='szni')
D('Clark', lambda c, sqrt, log: sqrt(c.sum(lambda x, y: sq((x - y) / (ab(x) + ab(y))))), dom=lambda x, y: ab(x) + ab(y) > 0, axioms='szn')
D('Neyman', lambda c, sqrt, log: c.sum(lambda x, y: sq(x - y) / x), dom=pos, axioms='zn')
D('Pearson', lambda c, sqrt, log: c.sum(lambda x, y: sq(x - y) / y), dom=pos, axioms='zn')
D('Squared', lambda c, sqrt, log: c.sum(lambda x, y: sq(x - y) / (x + y)), dom=pos, axioms='szn')
D('ProbabilisticSymmetric', lambda c, sqrt, log: 2 * c.sum(lambda x, y: sq(x - y) / (x + y)), dom=pos, axioms='szn')
D('Divergence', lambda c, sqrt, log: 2 * c.sum(lambda x, y: sq(x - y) / sq(x + y)), dom=pos, axioms='szn')
D('AdditiveSymmetric', lambda c, sqrt, log: 2 * c.sum(lambda x, y: (sq(x - y) * (x + y)) / (x * y)), dom=pos, axioms='szn')
D('Average', lambda c, sqrt, log: sqrt(c.sum(lambda x, y: sq(x - y)) / z3.ToReal(c.n)), nonempty=True, axioms='szn')
D('SquaredChiSquared', lambda c, sqrt, log: c.sum(lambda x, y: sq(x - y) / ab(x + y)), dom=lambda x, y: x + y != 0, axioms='szn')
D('KullbackLeibler', lambda c, sqrt, log: c.sum(lambda x, y: x * log(x / y)), dom=pos, axioms='z')
D('Jeffreys', lambda c, sqrt, log: c.sum(lambda x, y: (x - y) * log(x / y)), dom=pos, axioms='z')
D('KDivergence', lambda c, sqrt, log: c.sum(lambda x, y: x * log(2 * x / (x + y))), dom=pos, axioms='z')
D('Topsoe', lambda c, sqrt, log: c.sum(lambda x, y: x * log(2 * x / (x + y))) + c.sum(lambda x, y: y * log(2 * y / (x + y))), dom=pos, axioms='z')
D('JensenShannon', lambda c, sqrt, log: (c.sum(lambda x, y: x * log(2 * x / (x + y))) + c.sum(lambda x, y: y * log(2 * y / (x + y)))) / 2, dom=pos, axioms='z')
D('JensenDifference', lambda c, sqrt, log: c.sum(lambda x, y: (x * log(x) + y * log(y)) / 2 - ((x + y) / 2) * log((x + y) / 2)) / 2, dom=pos, axioms='sz')
D('MaxSymmetric', lambda c, sqrt, log: mx(c.sum(lambda x, y: sq(x - y) / x), c.sum(lambda x, y: sq(x - y) / y)), dom=pos, axioms='zn')
D('MinSymmetric', lambda c, sqrt, log: mn(c.sum(lambda x, y: sq(x - y) / x), c.sum(lambda x, y: sq(x - y) / y)), dom=pos, axioms='zn')
D('KumarJohnson', lambda c, sqrt, log: c.sum(lambda x, y: sq(x * x + y * y) / (2 * (x * y * sqrt(x * y)))), dom=pos)
D('Taneja', lambda c, sqrt, log: c.sum(lambda x, y: ((x + y) / 2) * log((x + y) / (2 * sqrt(x * y)))), dom=pos)
D('Hassanat', lambda c, sqrt, log: c.sum(lambda x, y: If(mn(x, y) >= 0, 1 - (1 + mn(x, y)) / (1 + mx(x, y)), 1 - (1 + mn(x, y) + ab(mn(x, y))) / (1 + mx(x, y) + ab(mn(x, y))))), axioms='szni')


def finite(s, c):
    big = [q for k, q in s.e.uf.items() if k[0] == 'const' and k[1].startswith('REALMAX')]
    if big:
        c.all(lambda x, y: And(ab(x - y) < big[0]))
        s.assumptions.add('max: differences of components are finite doubles below numeric_limits<double>::max()')


@proof('Chebyshev', driver='metrics')
def _(s):
    c = C(s); s.assume(c.n > 0)
    r = c.call('Chebyshev'); finite(s, c)
    d = lambda k: ab(zsel(c.x.arr, k) - zsel(c.y.arr, k))
    s.prove('bounds every difference', ALL('k', lambda k: Implies(inR(k, c.n), r >= d(k))))
    s.prove('is one of the differences', EX('k', lambda k: And(inR(k, c.n), r == d(k))))
    c.untouched()


@proof('AverageL1Linf', driver='metrics')
def _(s):
    c = C(s); s.assume(c.n > 0)
    r = c.call('AverageL1Linf'); finite(s, c)
    d = lambda k: ab(zsel(c.x.arr, k) - zsel(c.y.arr, k))
    l1 = c.sum(lambda x, y: ab(x - y))
    s.prove('half of L1 plus a bound of the differences', ALL('k', lambda k: Implies(inR(k, c.n), 2 * r - l1 >= d(k))))
    s.prove('half of L1 plus one of the differences', EX('k', lambda k: And(inR(k, c.n), 2 * r - l1 == d(k))))
    c.untouched()
