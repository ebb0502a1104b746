"""k-means clustering: assignment to the nearest centre, centres are means."""
from specs.data import *
from specs.dist import *


def setup(s):
    cls = [c for c in s.ast.records if c[1] == 'KMeans'][0]
    c = s.var(cls, 'c'); v = s.pre()
    d = v.f(c, 'samples'); s.assume(d >= 1, d < s.st.alloc)
    a = assume_wf(s, Loc(('h', DATA, d)))
    b = v.f(c, 'm_centers'); s.assume(b.len > 0)
    row = lambda i: s.e.sorts.unpack(z3.Select(b.arr, i), b.et)
    return c, v, a, b, row


@proof('evaluation', driver='multi', contracts=(metric,))
def _(s):
    c, v, a, b, row = setup(s)
    p = s.var(POINT, 'p'); v = s.pre(); x = v.f(p, 'x')
    r = s.call(s.func('keval'), None, [c, p])
    D = lambda i: DISTF(row(i).f['x'].arr, x.arr, row(i).f['x'].len)
    m, i = s.int_('m'), s.int_('i'); s.st.assume(inR(i, b.len), r == z3.ToReal(m))
    s.hint(m, i, s.e.extremes[-1])
    s.prove('position of a centre', inR(m, b.len))
    s.prove('no centre is nearer', D(m) <= D(i))
    s.prove('centres unchanged', ALL('q', lambda q: Implies(inR(q, b.len), z3.Select(s.now().f(c, 'm_centers').arr, q) == z3.Select(b.arr, q))))
    unchanged_data(s, 'dataset', a, DV(s.now(), a.loc))


BOUNDED_ONLY = ['KMeans::assign_clusters', 'KMeans::compute_centers', 'KMeans::clusters', 'KMeans::train']
