"""Dataset container: removing points by identifier."""
from specs.data import *


def erased(s, a, b, q):
    """b holds the points of a without position q"""
    s.prove('one point less', And(b.pts.len == a.pts.len - 1, b.size == a.size - 1))
    s.prove('the other points keep their order', ALL('i', lambda i: Implies(inR(i, b.pts.len), b.ref(i) == If(i < q, a.ref(i), a.ref(i + 1))), lambda i: b.ref(i)))
    s.prove('dimension and classes kept', And(b.dim == a.dim, vec_same(a.classes, b.classes), a.names.len == b.names.len, vec_same(a.fnames, b.fnames)))


U = z3.Function('arbitrary_predicate', I, B)      # any property of points: holds of the kept points if it held of all


def setup(s):
    d = s.var(DATA, 'd'); a = assume_wf(s, d); pid = s.int_('pid')
    s.assume(ALL('i', lambda i: Implies(inR(i, a.pts.len), And(a.id(i) >= 0, a.id(i) < 2 ** 62)), lambda i: a.ref(i)))
    return d, a, pid


@proof('remove a point')
def _(s):
    d, a, pid = setup(s); q = s.int_('q'); N = a.pts.len
    s.assume(a.pts.len > 1, pid >= 0, inR(q, N), a.id(q) == pid, ALL('i', lambda i: Implies(And(0 <= i, i < q), a.id(i) != pid), lambda i: a.ref(i)))
    s.hint(q)
    o = a.W(q)
    s.lemma('its class is listed', And(inR(o, a.classes.len), z3.ToReal(a.cls(o)) == a.y(q)))
    s.hint(o)
    r = s.call(s.meth(DATA, 'removePoint'), d, [pid])
    s.prove('accepted', r)
    b = DV(s.now(), d); s.nohints()
    erased(s, a, b, q)
    heap_unchanged(s, 'points', a, b)
    for nm, f in wf_points(s, b):
        s.prove(nm, f)
    s.prove('one count per class', b.dist.len == b.classes.len)
    s.prove('counts: only the class of the point loses one', ALL('j', lambda j: Implies(inR(j, a.classes.len), zsel(b.dist.arr, j) == zsel(a.dist.arr, j) - If(j == o, 1, 0))))

    def counts(j):
        c = z3.ToReal(b.cls(j))
        old = lambda lo, hi: s.count(lo, hi, lambda k: c == z3.Select(a.Yh, z3.Select(a.pts.arr, k)))
        new = lambda lo, hi: cnt(s, b, j, hi, lo)
        s.lemma('count below', old(0, q) == new(0, q))
        s.lemma('count above', old(q + 1, N) == new(q, N - 1))
        s.split(q)
        s.lemma('old count splits', old(0, N) == old(0, q) + If(c == a.y(q), 1, 0) + old(q + 1, N))
        s.lemma('new count splits', new(0, N - 1) == new(0, q) + new(q, N - 1))
        s.nohints(); s.hint(j, o)
        return zsel(b.dist.arr, j) == new(0, N - 1)
    s.generic('class distribution counts the points of each class', lambda j: inR(j, b.classes.len), counts)


@proof('remove an absent identifier')
def _(s):
    d, a, pid = setup(s)
    s.assume(ALL('i', lambda i: Implies(inR(i, a.pts.len), a.id(i) != pid), lambda i: a.ref(i)))
    r = s.call(s.meth(DATA, 'removePoint'), d, [pid])
    s.prove('rejected', Not(r))
    unchanged_data(s, 'dataset untouched', a, DV(s.now(), d))


@proof('the last point is never removed')
def _(s):
    d, a, pid = setup(s); s.assume(a.pts.len == 1)
    r = s.call(s.meth(DATA, 'removePoint'), d, [pid])
    s.prove('rejected', Not(r))
    unchanged_data(s, 'dataset untouched', a, DV(s.now(), d))


def prefix_template(ctx):
    """the points before the scanning position carry none of the listed identifiers"""
    H = ctx.H; e = ctx.eng; out = []
    idh = e.heap_arr(H, POINT, 'id')[0]
    P = [m for m in ctx.mods if z3.is_array(m.h) and m.et == PP]
    vecs = [v for v in H.store.values() if isinstance(v, VecVal) and v.et == T.INT]
    i = z3.Int('i!tp'); j = z3.Int('j!tp')
    for pa in P:
        for m in ctx.ints():
            for v in vecs:
                x = z3.Select(v.arr, j)
                f = z3.Select(idh, z3.Select(pa.h, i)) != If(x >= 0, x, x + 2 ** 64)
                out.append(FA([i, j], Implies(And(0 <= i, i < m.h, 0 <= j, j < v.len), f), patterns=[z3.MultiPattern(z3.Select(pa.h, i), z3.Select(v.arr, j))]))
    return out


@proof('remove several points')
def _(s):
    d, a, pid = setup(s); ids = s.val(('vec', T.INT), 'ids'); N = a.pts.len
    s.assume(N > 0, ALL('i', lambda i: Implies(inR(i, N), U(a.ref(i))), lambda i: a.ref(i)), ALL('j', lambda j: Implies(inR(j, ids.len), zsel(ids.arr, j) >= 0)))
    s.e.loop_templates.append(prefix_template)
    r = s.call(s.meth(DATA, 'removePoints'), d, [ids])
    b = DV(s.now(), d); s.nohints()
    heap_unchanged(s, 'points', a, b)
    for nm, f in wf_points(s, b):
        s.prove(nm, f)
    s.prove('one count per class', b.dist.len == b.classes.len)
    s.prove('never emptied', b.pts.len >= 1)
    s.prove('one flag per identifier', r.len == ids.len)
    s.prove('dimension and classes kept', And(b.dim == a.dim, vec_same(a.classes, b.classes), a.names.len == b.names.len, vec_same(a.fnames, b.fnames)))
    s.prove('only original points remain', ALL('i', lambda i: Implies(inR(i, b.pts.len), U(b.ref(i)))))
    s.prove('no point of a listed identifier remains unless it is the only one', ALL('i j', lambda i, j: Implies(And(inR(i, b.pts.len), inR(j, ids.len), b.pts.len > 1), b.id(i) != zsel(ids.arr, j))))
