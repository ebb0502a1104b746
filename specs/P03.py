"""Dataset container: independent copies, class-restricted copies, joins."""
from specs.data import *


def copied(s, a, b, i, j, fresh_from):
    """point j of view b is an independent copy of point i of view a"""
    return And(b.ref(j) >= fresh_from, b.x(j).len == a.x(i).len, ALL('k', lambda k: Implies(inR(k, a.x(i).len), zsel(b.x(j).arr, k) == zsel(a.x(i).arr, k))),
               b.y(j) == a.y(i), b.id(j) == a.id(i), b.alpha(j) == a.alpha(i))


def full_copy(s, a, b):
    s.prove('same number of points', And(b.pts.len == a.pts.len, b.size == a.size, b.dim == If(a.pts.len > 0, a.dim, 0)))
    s.prove('copies are new objects', ALL('i', lambda i: Implies(inR(i, a.pts.len), b.ref(i) >= a.alloc), lambda i: b.ref(i)))
    s.prove('copies are distinct objects', ALL('i j', lambda i, j: Implies(And(inR(i, a.pts.len), inR(j, a.pts.len), i != j), b.ref(i) != b.ref(j))))
    s.prove('components', ALL('i k', lambda i, k: Implies(And(inR(i, a.pts.len), inR(k, a.x(i).len)), zsel(b.x(i).arr, k) == zsel(a.x(i).arr, k))))
    s.prove('component counts', ALL('i', lambda i: Implies(inR(i, a.pts.len), b.x(i).len == a.x(i).len), lambda i: b.ref(i)))
    s.prove('labels, identifiers, weights', ALL('i', lambda i: Implies(inR(i, a.pts.len), And(b.y(i) == a.y(i), b.id(i) == a.id(i), b.alpha(i) == a.alpha(i))), lambda i: b.ref(i)))
    s.prove('classes and counts', And(vec_same(a.classes, b.classes), vec_same(a.dist, b.dist), a.names.len == b.names.len))
    s.prove('index and feature names', And(vec_same(a.index, b.index), vec_same(a.fnames, b.fnames)))
    s.prove('emptiness and kind', And(b.empty == a.empty, b.type == a.type))
    heap_unchanged(s, 'source points', a, b)


@proof('copy()')
def _(s):
    d = s.var(DATA, 'd'); a = assume_wf(s, d, classes=False)
    r = s.call(s.meth(DATA, 'copy', 0), d, [])
    full_copy(s, a, DV(s.now(), s.e.tmp(r, s.st, 'r')))
    unchanged_data(s, 'source', a, DV(s.now(), d))


@proof('copy constructor')
def _(s):
    d = s.var(DATA, 'd'); a = assume_wf(s, d, classes=False)
    r = s.call(s.func('copyd'), None, [RefVal(d)])
    full_copy(s, a, DV(s.now(), s.e.tmp(r, s.st, 'r')))
    unchanged_data(s, 'source', a, DV(s.now(), d))


@proof('copy(source) replaces the previous contents')
def _(s):
    d = s.var(DATA, 'd'); o = s.var(DATA, 'o'); a = assume_wf(s, d, classes=False); c = assume_wf(s, o, classes=False)
    s.call(s.meth(DATA, 'copy', 1), o, [RefVal(d)])
    full_copy(s, a, DV(s.now(), o))
    unchanged_data(s, 'source', a, DV(s.now(), d))


@proof('copyZero')
def _(s):
    d = s.var(DATA, 'd'); o = s.var(DATA, 'o'); a = assume_wf(s, d, classes=False); c = assume_wf(s, o, classes=False)
    s.call(s.meth(DATA, 'copyZero'), o, [RefVal(d)])
    b = DV(s.now(), o)
    s.prove('no points', And(b.pts.len == 0, b.size == 0, b.empty, b.index.len == 0))
    s.prove('no classes', And(b.classes.len == 0, b.dist.len == 0, b.names.len == 0))
    s.prove('dimension and feature names of the source', And(b.dim == a.dim, vec_same(a.fnames, b.fnames)))
    unchanged_data(s, 'source', a, DV(s.now(), d))


@proof('classesCopy', timeout=20.0, budget=420)
def _(s):
    d = s.var(DATA, 'd'); o = s.var(DATA, 'o'); a = assume_wf(s, d, classes=False); c = assume_wf(s, o, classes=False)
    cl = s.var(('vec', T.INT), 'classes'); q = s.int_('q'); C = s.now().get(cl)
    s.assume(inR(q, a.pts.len), ALL('i j', lambda i, j: Implies(And(inR(i, C.len), inR(j, C.len), i != j), zsel(C.arr, i) != zsel(C.arr, j))))
    s.assume(ALL('i', lambda i: Implies(inR(i, C.len), And(zsel(C.arr, i) <= BIG, zsel(C.arr, i) >= -BIG))))
    N = a.pts.len
    lab = z3.Function('label_of', I, I)
    s.assume(ALL('i', lambda i: Implies(inR(i, N), And(a.y(i) == z3.ToReal(lab(a.ref(i))), lab(a.ref(i)) <= BIG, lab(a.ref(i)) >= -BIG)), lambda i: a.ref(i)))
    isin = z3.Function('selected', R, B); y = z3.Real('y!s')
    s.assume(FA([y], isin(y) == EX('j', lambda j: And(inR(j, C.len), z3.ToReal(zsel(C.arr, j)) == y)), patterns=[isin(y)]))
    sel = lambda k: isin(z3.Select(a.Yh, z3.Select(a.pts.arr, k)))
    rank = s.count(0, q, sel)

    def tmpl(ctx):
        H = ctx.H; e = ctx.eng; out = []
        X = e.heap_arr(H, POINT, 'x')[0]; Yh = e.heap_arr(H, POINT, 'y')[0]; Ah = e.heap_arr(H, POINT, 'alpha')[0]; Idh = e.heap_arr(H, POINT, 'id')[0]
        for m in ctx.ints():
            for v in H.store.values():
                pts = getattr(v, 'f', {}).get('m_points') if isinstance(v, StructVal) else None
                if pts is None:
                    continue
                out.append(pts.len == s.count(0, m.h, sel))
                r = zsel(pts.arr, rank); x = e.sorts.unpack(z3.Select(X, r), ('vec', T.REAL)); ax = a.x(q)
                out.append(Implies(And(m.h > q, sel(q)), And(pts.len > rank, r >= a.alloc, x.len == ax.len, z3.Select(Yh, r) == a.y(q), z3.Select(Idh, r) == a.id(q), z3.Select(Ah, r) == a.alpha(q),
                                                             ALL('k', lambda k: Implies(inR(k, ax.len), zsel(x.arr, k) == zsel(ax.arr, k))))))
                out.append(Implies(m.h > q, rank <= s.count(0, m.h, sel)))
                out.append(ALL('i', lambda i: Implies(inR(i, pts.len), And(zsel(pts.arr, i) >= a.alloc, zsel(pts.arr, i) < H.alloc, isin(z3.Select(Yh, zsel(pts.arr, i))))), lambda i: zsel(pts.arr, i)))
        return out
    s.e.loop_templates.append(tmpl)

    def before_count(v, this):
        b = DV(v, this)
        yield 'requested classes', And(b.classes.len == C.len, ALL('j', lambda j: Implies(inR(j, C.len), b.cls(j) == zsel(C.arr, j)), lambda j: b.cls(j)))
        yield 'labels are requested classes', ALL('i', lambda i: Implies(inR(i, b.pts.len), isin(b.y(i))), lambda i: b.ref(i))
        yield 'labels are listed', ALL('i', lambda i: Implies(inR(i, b.pts.len), EX('j', lambda j: And(inR(j, b.classes.len), z3.ToReal(b.cls(j)) == b.y(i)))), lambda i: b.ref(i))
    s.at_call('computeClassesDistribution', before_count)
    s.call(s.meth(DATA, 'classesCopy'), o, [RefVal(d), RefVal(cl)])
    b = DV(s.now(), o)
    s.prove('as many points as the source has of these classes', And(b.pts.len == s.count(0, N, sel), b.size == b.pts.len))
    s.prove('dimension, kind, feature names', And(b.dim == a.dim, b.type == a.type, vec_same(a.fnames, b.fnames)))
    s.prove('the class list is the requested one', And(b.classes.len == C.len, b.names.len == C.len, ALL('j', lambda j: Implies(inR(j, C.len), b.cls(j) == zsel(C.arr, j)))))
    s.prove('one count per class', b.dist.len == b.classes.len)
    s.prove('class distribution counts the points of each class', ALL('j', lambda j: Implies(inR(j, b.classes.len), zsel(b.dist.arr, j) == cnt(s, b, j))))
    s.prove('index', And(b.index.len == b.pts.len, ALL('i', lambda i: Implies(inR(i, b.pts.len), zsel(b.index.arr, i) == i))))
    unchanged_data(s, 'source', a, DV(s.now(), d))
    what = 'the k-th selected point of the source is the k-th point of the copy'
    s.assume(sel(q))
    s.prove(what, b.pts.len > rank)
    s.prove(what + ': as a new object', b.ref(rank) >= a.alloc)
    s.prove(what + ': label, identifier, weight', And(b.y(rank) == a.y(q), b.id(rank) == a.id(q), b.alpha(rank) == a.alpha(q)))
    s.prove(what + ': components', And(b.x(rank).len == a.x(q).len, ALL('k', lambda k: Implies(inR(k, a.x(q).len), zsel(b.x(rank).arr, k) == zsel(a.x(q).arr, k)))))


@proof('join', timeout=20.0)
def _(s):
    d = s.var(DATA, 'd'); o = s.var(DATA, 'o'); a = assume_wf(s, d); c = assume_wf(s, o)
    s.assume(Or(a.pts.len == 0, a.dim == c.dim), Implies(a.pts.len == 0, And(a.classes.len == 0, a.dim <= c.dim)), a.pts.len + c.pts.len < BIG)
    s.assume(c.pts.len > 0)
    s.assume(a.empty == (a.pts.len == 0))
    n = a.pts.len; N = n + c.pts.len
    listed = lambda b, y: EX('j', lambda j: And(inR(j, b.classes.len), z3.ToReal(b.cls(j)) == y))

    def before_count(v, this):
        b = DV(v, this)
        s.hint(n)
        yield 'own classes first', ALL('j', lambda j: Implies(inR(j, a.classes.len), b.cls(j) == a.cls(j)), lambda j: a.cls(j))
        yield 'classes of the joined set are listed', ALL('i', lambda i: Implies(inR(i, c.classes.len), listed(b, z3.ToReal(c.cls(i)))), lambda i: c.cls(i))
        s.nohints()
        yield 'labels of own points are kept', ALL('i', lambda i: Implies(inR(i, n), b.y(i) == a.y(i)), lambda i: b.ref(i))
        s.offsets(-n)
        yield 'labels of joined points', ALL('i', lambda i: Implies(And(n <= i, i < N), b.y(i) == c.y(i - n)), lambda i: b.ref(i))
        s.nohints()
        yield 'labels are listed', ALL('i', lambda i: Implies(inR(i, N), listed(b, b.y(i))), lambda i: b.ref(i))
        yield 'classes are distinct', ALL('i j', lambda i, j: Implies(And(inR(i, b.classes.len), inR(j, b.classes.len), i != j), b.cls(i) != b.cls(j)))
    s.at_call('computeClassesDistribution', before_count)
    s.call(s.meth(DATA, 'join'), d, [RefVal(o)])
    b = DV(s.now(), d)
    s.prove('sizes add up', And(b.pts.len == N, b.size == N)); s.prove('dimension', b.dim == c.dim); s.prove('not empty', Not(b.empty))
    s.prove('own points stay in place', ALL('i', lambda i: Implies(inR(i, n), b.ref(i) == a.ref(i)), lambda i: b.ref(i)))
    s.prove('joined points are new objects', ALL('i', lambda i: Implies(And(n <= i, i < N), b.ref(i) >= a.alloc), lambda i: b.ref(i)))
    s.offsets(-n)
    s.prove('joined points: labels, identifiers, weights', ALL('i', lambda i: Implies(And(n <= i, i < N), And(b.y(i) == c.y(i - n), b.id(i) == c.id(i - n), b.alpha(i) == c.alpha(i - n), b.x(i).len == c.x(i - n).len)), lambda i: b.ref(i)))
    def comps(i):
        s.lemma('components', ALL('k', lambda k: Implies(inR(k, b.x(i).len), zsel(b.x(i).arr, k) == zsel(c.x(i - n).arr, k))))
        return ALL('k', lambda k: Implies(inR(k, b.x(i).len), zsel(b.x(i).arr, k) == zsel(c.x(i - n).arr, k)))
    s.generic('joined points: components', lambda i: And(n <= i, i < N), comps, keep=False)
    s.nohints()
    heap_unchanged(s, 'existing points', a, b)
    s.prove('index', And(b.index.len == N, ALL('i', lambda i: Implies(inR(i, N), zsel(b.index.arr, i) == i))))
    s.prove('own classes first', ALL('j', lambda j: Implies(inR(j, a.classes.len), b.cls(j) == a.cls(j))))
    s.prove('one count per class', b.dist.len == b.classes.len)
    s.prove('class distribution counts the points of each class', ALL('j', lambda j: Implies(inR(j, b.classes.len), zsel(b.dist.arr, j) == cnt(s, b, j))))
    s.prove('classes are distinct', ALL('i j', lambda i, j: Implies(And(inR(i, b.classes.len), inR(j, b.classes.len), i != j), b.cls(i) != b.cls(j))))
    s.prove('every joined class is listed', ALL('i', lambda i: Implies(inR(i, c.classes.len), EX('j', lambda j: And(inR(j, b.classes.len), b.cls(j) == c.cls(i))))))
    unchanged_data(s, 'source', c, DV(s.now(), o))


@proof('join an empty dataset')
def _(s):
    d = s.var(DATA, 'd'); o = s.var(DATA, 'o'); a = assume_wf(s, d); c = assume_wf(s, o)
    s.assume(c.pts.len == 0)
    s.call(s.meth(DATA, 'join'), d, [RefVal(o)])
    unchanged_data(s, 'dataset', a, DV(s.now(), d)); unchanged_data(s, 'source', c, DV(s.now(), o))
