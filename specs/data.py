"""Representation invariant of the dataset container and helpers shared by the dataset properties."""
from cppvc.spec import *

inR = lambda k, n: And(0 <= k, k < n)
PP = ('ptr', POINT)
BIG = 2 ** 31 - 1


class DV:
    """abstract view of a dataset in a state"""

    def __init__(self, v, loc):
        f = lambda n: v.f(loc, n)
        self.v = v
        self.pts = f('m_points'); self.size = f('m_size'); self.dim = f('m_dim'); self.classes = f('m_classes'); self.dist = f('class_distribution')
        self.names = f('class_names'); self.index = f('index'); self.fnames = f('fnames'); self.empty = f('is_empty'); self.cdc = f('cdist_computed'); self.type = f('type')
        self.loc = loc
        self.X = v.e.heap_arr(v.st, POINT, 'x')[0]; self.Yh = v.e.heap_arr(v.st, POINT, 'y')[0]
        self.Ah = v.e.heap_arr(v.st, POINT, 'alpha')[0]; self.Idh = v.e.heap_arr(v.st, POINT, 'id')[0]
        self.alloc = v.st.alloc

    def ref(self, i):
        return zsel(self.pts.arr, i)

    def x(self, i):
        return self.v.e.sorts.unpack(z3.Select(self.X, self.ref(i)), ('vec', T.REAL))

    def y(self, i):
        return z3.Select(self.Yh, self.ref(i))

    def id(self, i):
        return z3.Select(self.Idh, self.ref(i))

    def alpha(self, i):
        return z3.Select(self.Ah, self.ref(i))

    def cls(self, j):
        return zsel(self.classes.arr, j)


def classif(s, d):
    """type in {Classification, MultiClassification, BinClassification}"""
    return z3.Or(*[d.type == s.e.strlit(x) for x in ('Classification', 'MultiClassification', 'BinClassification')])


def wf_points(s, d):
    return [
        ('size is the number of stored points', d.size == d.pts.len),
        ('every stored point exists', ALL('i', lambda i: Implies(inR(i, d.pts.len), And(d.ref(i) >= 1, d.ref(i) < d.alloc)), lambda i: d.ref(i))),
        ('every point has dim() components', ALL('i', lambda i: Implies(inR(i, d.pts.len), d.x(i).len == d.dim), lambda i: d.ref(i))),
        ('one index entry per point', d.index.len == d.pts.len),
    ]


def wf_classes(s, d, lens=True, wit=None):
    out = []
    if lens:
        out += [('one count per class', d.dist.len == d.classes.len), ('one name per class', d.names.len == d.classes.len)]
    out += [
        ('classes are distinct', ALL('i j', lambda i, j: Implies(And(inR(i, d.classes.len), inR(j, d.classes.len), i != j), d.cls(i) != d.cls(j)))),
        ('labels are listed classes', ALL('i', lambda i: Implies(inR(i, d.pts.len), EX('j', lambda j: And(inR(j, d.classes.len), z3.ToReal(d.cls(j)) == d.y(i))) if wit is None
                                                                 else Or(*[And(inR(j, d.classes.len), z3.ToReal(d.cls(j)) == d.y(i)) for j in wit(i)])), lambda i: d.ref(i))),
        ('class distribution counts the points of each class', ALL('j', lambda j: Implies(inR(j, d.classes.len), zsel(d.dist.arr, j) == cnt(s, d, j)))),
        ('every listed class has a point', ALL('j', lambda j: Implies(inR(j, d.classes.len), zsel(d.dist.arr, j) > 0))),
    ]
    return out


def cnt(s, d, j, hi=None, lo=0):
    c = z3.ToReal(d.cls(j))
    return s.count(lo, d.pts.len if hi is None else hi, lambda k: c == z3.Select(d.Yh, z3.Select(d.pts.arr, k)))


def assume_wf(s, loc, classes=True, ctype=True, small=True):
    d = DV(s.pre(), loc)
    Wf = z3.Function('class_of_%s' % fresh('w', I), I, I)       # skolem function of 'labels are listed classes'
    W = lambda i: Wf(d.ref(i))
    d.W = W
    for n, f in wf_points(s, d) + (wf_classes(s, d, wit=lambda i: [W(i)]) if classes else []):
        s.assume(f)
    if ctype:
        s.assume(classif(s, d))
    if classes:
        s.assume(ALL('i', lambda i: Implies(inR(i, d.classes.len), And(d.cls(i) <= BIG, d.cls(i) >= -BIG))))
        s.assumptions.add('labels of classification data are integer valued and fit an int')
    if small:
        s.assume(d.pts.len < BIG)
        s.assumptions.add('datasets hold fewer than 2^31-1 points')
    return d


def prove_wf(s, loc, classes=True, what=''):
    d = DV(s.now(), loc)
    for n, f in wf_points(s, d) + (wf_classes(s, d) if classes else []):
        s.prove(what + n, f)
    return d


def same_point(v, r1, w, r2, X1, X2):
    """components / label / id / alpha equal between two heap points in states v and w"""
    e = v.e
    x1 = e.sorts.unpack(z3.Select(X1.X, r1), ('vec', T.REAL)); x2 = e.sorts.unpack(z3.Select(X2.X, r2), ('vec', T.REAL))
    return [('same size', x1.len == x2.len),
            ('same components', ALL('k', lambda k: Implies(inR(k, x1.len), zsel(x1.arr, k) == zsel(x2.arr, k)))),
            ('same label', z3.Select(X1.Yh, r1) == z3.Select(X2.Yh, r2))]


def heap_unchanged(s, what, a, b, upto=None):
    """every object existing in view a is the same in view b"""
    n = a.alloc if upto is None else upto
    same = lambda h1, h2: ALL('r', lambda r: Implies(And(r >= 1, r < n), z3.Select(h1, r) == z3.Select(h2, r)), lambda r: z3.Select(h2, r))
    s.prove(what + ': components', same(a.X, b.X)); s.prove(what + ': labels', same(a.Yh, b.Yh)); s.prove(what + ': alpha', same(a.Ah, b.Ah))


def vec_same(a, b):
    return And(a.len == b.len, ALL('k', lambda k: Implies(inR(k, a.len), zsel(a.arr, k) == zsel(b.arr, k))))


def unchanged_data(s, what, a, b, ids=True):
    s.prove(what + ': same points', vec_same(a.pts, b.pts))
    s.prove(what + ': size, dim', And(a.size == b.size, a.dim == b.dim))
    s.prove(what + ': classes', And(vec_same(a.classes, b.classes), vec_same(a.dist, b.dist), a.names.len == b.names.len))
    s.prove(what + ': index and feature names', And(vec_same(a.index, b.index), vec_same(a.fnames, b.fnames)))
    heap_unchanged(s, what, a, b)
