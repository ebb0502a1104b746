"""Dataset container: insertion, label updates, size/dimension/class bookkeeping."""
from specs.data import *


def appended(s, a, b, ref):
    s.prove('appended: one more point', b.pts.len == a.pts.len + 1)
    s.prove('appended: earlier points stay in place', ALL('i', lambda i: Implies(inR(i, a.pts.len), b.ref(i) == a.ref(i))))
    s.prove('not empty any more', Not(b.empty))


def grown_classes(s, a, b, y):
    listed = EX('j', lambda j: And(inR(j, a.classes.len), z3.ToReal(a.cls(j)) == y))
    s.prove('known class: class list unchanged', Implies(listed, vec_same(a.classes, b.classes)))
    s.prove('new class: appended to the class list', Implies(Not(listed), And(b.classes.len == a.classes.len + 1, z3.ToReal(b.cls(a.classes.len)) == y,
                                                                            ALL('j', lambda j: Implies(inR(j, a.classes.len), b.cls(j) == a.cls(j))))))


def fits(a, n):
    return Or(a.pts.len == 0, a.dim == n)


def intlabel(s, y):
    l = s.int_('lab'); s.assume(y == z3.ToReal(l), l <= BIG, l >= -BIG)
    return l


@proof('insert a shared point')
def _(s):
    d = s.var(DATA, 'd'); p = s.val(PP, 'p'); keep = s.val(T.BOOL, 'keep')
    a = assume_wf(s, d); s.assume(p >= 1)
    n = s.now().f(p, 'x').len; y = s.now().f(p, 'y'); intlabel(s, y)
    s.assume(fits(a, n), Implies(a.pts.len == 0, a.classes.len == 0), n > 0)
    s.assume(ALL('i', lambda i: Implies(inR(i, a.pts.len), a.ref(i) != p)))
    r = s.call(s.meth(DATA, 'insertPoint', 2, 'shared_ptr'), d, [p, keep])
    s.prove('accepted', r)
    b = prove_wf(s, d)
    appended(s, a, b, p)
    s.prove('the last point is the inserted one', b.ref(a.pts.len) == p)
    grown_classes(s, a, b, y)
    s.prove('dimension', b.dim == n)
    s.prove('identifier', If(keep, b.id(a.pts.len) == z3.Select(a.Idh, p), b.id(a.pts.len) == a.pts.len + 1))
    heap_unchanged(s, 'points', a, b)


@proof('insert a shared point of the wrong dimension')
def _(s):
    d = s.var(DATA, 'd'); p = s.val(PP, 'p'); keep = s.val(T.BOOL, 'keep')
    a = assume_wf(s, d); s.assume(p >= 1)
    n = s.now().f(p, 'x').len
    s.assume(Not(fits(a, n)))
    r = s.call(s.meth(DATA, 'insertPoint', 2, 'shared_ptr'), d, [p, keep])
    s.prove('rejected', Not(r))
    unchanged_data(s, 'dataset untouched', a, DV(s.now(), d))


@proof('insert a point by value')
def _(s):
    d = s.var(DATA, 'd'); p = s.var(POINT, 'p'); keep = s.val(T.BOOL, 'keep')
    a = assume_wf(s, d); v = s.pre()
    x = v.f(p, 'x'); y = v.f(p, 'y'); intlabel(s, y)
    s.assume(fits(a, x.len), Implies(a.pts.len == 0, a.classes.len == 0), x.len > 0)
    r = s.call(s.meth(DATA, 'insertPoint', 2, 'Point<double>, bool'), d, [p, keep])
    s.prove('accepted', r)
    b = prove_wf(s, d)
    appended(s, a, b, None)
    l = a.pts.len
    s.prove('stores a private copy', b.ref(l) >= a.alloc)
    s.prove('copy: components', And(b.x(l).len == x.len, ALL('k', lambda k: Implies(inR(k, x.len), zsel(b.x(l).arr, k) == zsel(x.arr, k)))))
    s.prove('copy: label', b.y(l) == y)
    s.prove('identifier', b.id(l) == If(keep, v.f(p, 'id'), l + 1))
    grown_classes(s, a, b, y)
    heap_unchanged(s, 'points', a, b)


@proof('insert a point of the wrong dimension by value')
def _(s):
    d = s.var(DATA, 'd'); p = s.var(POINT, 'p'); keep = s.val(T.BOOL, 'keep')
    a = assume_wf(s, d)
    s.assume(Not(fits(a, s.now().f(p, 'x').len)))
    r = s.call(s.meth(DATA, 'insertPoint', 2, 'Point<double>, bool'), d, [p, keep])
    s.prove('rejected', Not(r))
    unchanged_data(s, 'dataset untouched', a, DV(s.now(), d))


@proof('insert from another dataset')
def _(s):
    d = s.var(DATA, 'd'); o = s.var(DATA, 'o'); i = s.int_('i'); keep = s.val(T.BOOL, 'keep')
    a = assume_wf(s, d); c = assume_wf(s, o)
    s.assume(inR(i, c.pts.len), fits(a, c.dim), Implies(a.pts.len == 0, a.classes.len == 0), c.dim > 0)
    p = c.ref(i)
    s.assume(ALL('k', lambda k: Implies(inR(k, a.pts.len), a.ref(k) != p)))
    r = s.call(s.meth(DATA, 'insertPoint', 3), d, [o, i, keep])
    s.prove('accepted', r)
    b = prove_wf(s, d)
    appended(s, a, b, p)
    s.prove('the last point is the requested one', b.ref(a.pts.len) == p)
    grown_classes(s, a, b, c.y(i))


@proof('insert from another dataset, position out of range')
def _(s):
    d = s.var(DATA, 'd'); o = s.var(DATA, 'o'); i = s.int_('i'); keep = s.val(T.BOOL, 'keep')
    a = assume_wf(s, d); c = assume_wf(s, o)
    s.assume(Or(i < 0, i >= c.pts.len))
    r = s.call(s.meth(DATA, 'insertPoint', 3), d, [o, i, keep])
    s.prove('rejected', Not(r))
    unchanged_data(s, 'dataset untouched', a, DV(s.now(), d)); unchanged_data(s, 'source untouched', c, DV(s.now(), o))


def upd(name, listed, single):
    # the four cases are exhaustive: the new label is (not) a listed class, the old class has one / more points
    @proof('update the label of a point: ' + name)
    def _(s):
        d = s.var(DATA, 'd'); i = s.size_('i'); val = s.real('val')
        a = assume_wf(s, d); l = intlabel(s, val)
        s.assume(i < a.pts.len, ALL('j k', lambda j, k: Implies(And(inR(j, a.pts.len), inR(k, a.pts.len), j != k), a.ref(j) != a.ref(k))))
        n = a.classes.len
        if listed:
            q = s.int_('q'); s.assume(inR(q, n), z3.ToReal(a.cls(q)) == val); wq = [q, q - 1]
        else:
            s.assume(ALL('k', lambda k: Implies(inR(k, n), z3.ToReal(a.cls(k)) != val))); wq = [n, n - 1]
        o = a.W(i); s.hint(i, o); oc = zsel(a.dist.arr, o)
        s.assume(oc == 1 if single else oc > 1)
        s.lemma('the old class is listed at its position', And(inR(o, n), z3.ToReal(a.cls(o)) == a.y(i)))
        r = s.call(s.meth(DATA, 'updatePointValue'), d, [i, val])
        s.prove('accepted', r)
        b = DV(s.now(), d)
        s.lemma('only that label changes', ALL('k', lambda k: Implies(inR(k, a.pts.len), And(b.ref(k) == a.ref(k), b.y(k) == If(k == i, val, a.y(k))))))
        if single:
            N = a.pts.len; co = z3.ToReal(a.cls(o)); old = lambda lo, hi: s.count(lo, hi, lambda k: co == z3.Select(a.Yh, z3.Select(a.pts.arr, k)))
            s.nohints(); s.split(i)
            s.lemma('the count of the old class splits at i', old(0, N) == old(0, i) + 1 + old(i + 1, N)); s.nohints()
            s.lemma('no other point of the old class', And(old(0, i) == 0, old(i + 1, N) == 0))
            s.lemma('no other point has the old label', ALL('k', lambda k: Implies(And(inR(k, N), k != i), co != a.y(k)), lambda k: a.ref(k)))
            s.hint(i, o)
        for nm, f in wf_points(s, b) + wf_classes(s, b):
            s.nohints()
            if nm.startswith('class distribution'):
                # for an arbitrary class j of the new list: split both counts at i
                def counts(j):
                    c = z3.ToReal(b.cls(j)); N = a.pts.len
                    old = lambda lo, hi: s.count(lo, hi, lambda k: c == z3.Select(a.Yh, z3.Select(a.pts.arr, k)))
                    new = lambda lo, hi: cnt(s, b, j, hi, lo)
                    s.lemma('count below i', old(0, i) == new(0, i)); s.lemma('count above i', old(i + 1, N) == new(i + 1, N))
                    s.split(i)
                    s.lemma('old count splits', old(0, N) == old(0, i) + If(c == a.y(i), 1, 0) + old(i + 1, N))
                    s.lemma('new count splits', new(0, N) == new(0, i) + If(c == val, 1, 0) + new(i + 1, N))
                    s.nohints()
                    if not listed:
                        s.lemma('nothing had the new label', Implies(c == val, old(0, N) == 0))
                    s.lemma('count change', new(0, N) == old(0, N) - If(c == a.y(i), 1, 0) + If(c == val, 1, 0))
                    return zsel(b.dist.arr, j) == new(0, N)
                s.generic(nm, lambda j: inR(j, b.classes.len), counts)
            elif nm.startswith('labels'):
                isc = lambda j, k: And(inR(j, b.classes.len), z3.ToReal(b.cls(j)) == b.y(k))
                s.hint(i, o, *wq)
                s.lemma('label of i is listed', Or(*[isc(j, i) for j in wq]))

                def other(k):
                    s.nohints(); s.hint(k, i)
                    s.lemma('class of another point', And(inR(a.W(k), n), z3.ToReal(a.cls(a.W(k))) == a.y(k), b.y(k) == a.y(k), *([a.W(k) != o] if single else [])))
                    s.hint(a.W(k), o, a.W(k) - 1)
                    return Or(isc(a.W(k), k), isc(a.W(k) - 1, k))
                s.generic('labels of the other points are listed classes', lambda k: And(inR(k, a.pts.len), k != i), other)
                s.nohints()
                s.prove(nm, ALL('k', lambda k: Implies(inR(k, a.pts.len), Or(*[isc(j, k) for j in [a.W(k), a.W(k) - 1] + wq]))))
            else:
                s.offsets(1, -1)
                if nm.startswith('classe'):
                    s.hint(i, o)
                s.prove(nm, f)


upd('to a listed class, old class keeps points', True, False); upd('to a listed class, old class emptied', True, True)
upd('to a new class, old class keeps points', False, False); upd('to a new class, old class emptied', False, True)


@proof('update the label of a position out of range')
def _(s):
    d = s.var(DATA, 'd'); i = s.size_('i'); val = s.real('val')
    a = assume_wf(s, d); s.assume(i >= a.pts.len)
    r = s.call(s.meth(DATA, 'updatePointValue'), d, [i, val])
    s.prove('rejected', Not(r))
    unchanged_data(s, 'dataset untouched', a, DV(s.now(), d))


@proof('recompute the class distribution')
def _(s):
    d = s.var(DATA, 'd'); a = assume_wf(s, d)
    s.assume(Not(a.cdc))
    s.call(s.meth(DATA, 'computeClassesDistribution'), d, [])
    b = prove_wf(s, d)
    s.prove('classes untouched', vec_same(a.classes, b.classes)); s.prove('points untouched', vec_same(a.pts, b.pts)); heap_unchanged(s, 'points', a, b)


@proof('clear')
def _(s):
    d = s.var(DATA, 'd')
    s.call(s.meth(DATA, 'clear'), d, [])
    b = prove_wf(s, d)
    s.prove('empty', And(b.pts.len == 0, b.size == 0, b.dim == 0, b.empty, b.classes.len == 0))


@proof('element access')
def _(s):
    d = s.var(DATA, 'd'); i = s.int_('i'); a = assume_wf(s, d); s.assume(inR(i, a.pts.len))
    s.prove('point(i)', s.call(s.meth(DATA, 'point'), d, [i]) == a.ref(i))
    s.prove('size()', s.call(s.meth(DATA, 'size'), d, []) == a.pts.len)
    s.prove('dim()', s.call(s.meth(DATA, 'dim'), d, []) == a.dim)
    unchanged_data(s, 'dataset untouched', a, DV(s.now(), d))


@proof('construction with size and dimension')
def _(s):
    n = s.size_('n'); m = s.size_('m'); val = s.real('val')
    s.assume(n > 0, n < BIG, m < BIG)
    d = s.construct(DATA, [n, m, val])
    b = DV(s.now(), d)
    for nm, f in wf_points(s, b):
        s.prove(nm, f)
    s.prove('size and dimension', And(b.size == n, b.dim == m))
    s.prove('components', ALL('i k', lambda i, k: Implies(And(inR(i, n), inR(k, m)), zsel(b.x(i).arr, k) == val)))
    s.prove('identifiers are 1..n', ALL('i', lambda i: Implies(inR(i, n), b.id(i) == i + 1)))
    s.prove('distinct objects', ALL('i j', lambda i, j: Implies(And(inR(i, n), inR(j, n), i != j), b.ref(i) != b.ref(j))))
