"""Point algebra: every vector operation is the elementwise / folded mathematical operation, and changes nothing else."""
from cppvc.spec import *
import operator as op

inR = lambda k, n: And(0 <= k, k < n)


def elems(s, what, vec, n, f):
    s.prove(what + ': size', vec.len == n)
    s.prove(what + ': every component', ALL('k', lambda k: Implies(inR(k, n), zsel(vec.arr, k) == f(k))))


def unchanged(s, what, pre, p):
    now = s.now()
    a, b = pre.f(p, 'x'), now.f(p, 'x')
    s.prove(what, And(a.len == b.len, ALL('k', lambda k: Implies(inR(k, a.len), zsel(a.arr, k) == zsel(b.arr, k))),
                      pre.f(p, 'y') == now.f(p, 'y'), pre.f(p, 'id') == now.f(p, 'id'), pre.f(p, 'alpha') == now.f(p, 'alpha')))


def pp(name, fn, f, nonzero=False):
    @proof(name)
    def _(s):
        a = s.var(POINT, 'a'); b = s.var(POINT, 'b')
        v = s.pre(); xa, xb = v.f(a, 'x'), v.f(b, 'x')
        s.assume(xa.len == xb.len)
        if nonzero:
            s.assume(ALL('k', lambda k: zsel(xb.arr, k) != 0))
        r = s.call(s.func(fn), None, [a, b])
        elems(s, name, s.now().f(r, 'x'), xa.len, lambda k: f(zsel(xa.arr, k), zsel(xb.arr, k)))
        unchanged(s, 'left operand untouched', v, a); unchanged(s, 'right operand untouched', v, b)


pp('point + point', 'add', op.add); pp('point - point', 'sub', op.sub); pp('point * point', 'mul', op.mul); pp('point / point', 'div', op.truediv)


def ps(name, fn, f, first, ty=T.REAL):
    @proof(name)
    def _(s):
        a = s.var(POINT, 'a'); c = s.val(ty, 'c')
        v = s.pre(); xa = v.f(a, 'x')
        if 'div' in fn:
            s.assume(c != 0); s.assume(ALL('k', lambda k: zsel(xa.arr, k) != 0))
        r = s.call(s.func(fn), None, [a, c] if first else [c, a])
        cc = z3.ToReal(c) if ty[0] == 'int' else c
        elems(s, name, s.now().f(r, 'x'), xa.len, (lambda k: f(zsel(xa.arr, k), cc)) if first else (lambda k: f(cc, zsel(xa.arr, k))))
        unchanged(s, 'operand untouched', v, a)


ps('point + scalar', 'adds', op.add, True); ps('scalar + point', 'sadd', op.add, False); ps('point - scalar', 'subs', op.sub, True); ps('scalar - point', 'ssub', op.sub, False)
ps('point * scalar', 'muls', op.mul, True); ps('scalar * point', 'smul', op.mul, False); ps('point / scalar', 'divs', op.truediv, True); ps('scalar / point', 'sdiv', op.truediv, False)
ps('point * int', 'muli', op.mul, True, T.INT); ps('int * point', 'imul', op.mul, False, T.INT)


def un(name, fn, sym):
    @proof(name)
    def _(s):
        a = s.var(POINT, 'a'); v = s.pre(); xa = v.f(a, 'x')
        r = s.call(s.func(fn, 1), None, [a])
        f = (lambda x: If(x >= 0, x, -x)) if sym is None else s.uf(sym, R, R)
        elems(s, name, s.now().f(r, 'x'), xa.len, lambda k: f(zsel(xa.arr, k)))
        unchanged(s, 'operand untouched', v, a)


un('abs(point)', 'absv', None); un('exp(point)', 'expv', 'exp'); un('log(point)', 'logv', 'log'); un('cos(point)', 'cosv', 'cos'); un('sin(point)', 'sinv', 'sin')


@proof('pow(point, exponent)')
def _(s):
    a = s.var(POINT, 'a'); q = s.real('q'); v = s.pre(); xa = v.f(a, 'x')
    r = s.call(s.func('powv'), None, [a, q])
    elems(s, 'pow', s.now().f(r, 'x'), xa.len, lambda k: s.uf('pow', R, R, R)(zsel(xa.arr, k), q))


@proof('nested expression (a-b)*c+a')
def _(s):
    a = s.var(POINT, 'a'); b = s.var(POINT, 'b'); c = s.var(POINT, 'c')
    v = s.pre(); xa, xb, xc = (v.f(x, 'x') for x in (a, b, c))
    s.assume(xa.len == xb.len, xa.len == xc.len)
    r = s.call(s.func('nested'), None, [a, b, c])
    elems(s, 'nested', s.now().f(r, 'x'), xa.len, lambda k: (zsel(xa.arr, k) - zsel(xb.arr, k)) * zsel(xc.arr, k) + zsel(xa.arr, k))


@proof('dot product')
def _(s):
    a = s.var(POINT, 'a'); b = s.var(POINT, 'b')
    v = s.pre(); xa, xb = v.f(a, 'x'), v.f(b, 'x')
    s.assume(xa.len == xb.len)
    f = s.func('dot')
    r = s.call(f, None, [a, b])
    s.prove('dot = sum a_k*b_k', r == s.sum(0, xa.len, lambda k: zsel(xa.arr, k) * zsel(xb.arr, k)))
    unchanged(s, 'left operand untouched', v, a); unchanged(s, 'right operand untouched', v, b)
    r2 = s.call(f, None, [b, a])
    s.prove('symmetric', r == r2)


@proof('sum of components')
def _(s):
    a = s.var(POINT, 'a'); xa = s.pre().f(a, 'x')
    r = s.call(s.func('sump'), None, [a])
    s.prove('sum', r == s.sum(0, xa.len, lambda k: zsel(xa.arr, k)))


@proof('sum of an expression')
def _(s):
    a = s.var(POINT, 'a'); b = s.var(POINT, 'b')
    v = s.pre(); xa, xb = v.f(a, 'x'), v.f(b, 'x')
    s.assume(xa.len == xb.len)
    r = s.call(s.func('sumexpr'), None, [a, b])
    s.prove('sum', r == s.sum(0, xa.len, lambda k: zsel(xa.arr, k) * zsel(xb.arr, k)))


@proof('p-norm')
def _(s):
    a = s.var(POINT, 'a'); n = s.int_('p')
    xa = s.pre().f(a, 'x')
    s.assume(n >= 1)
    r = s.call(s.meth(POINT, 'norm'), a, [n])
    pw = s.uf('pow', R, R, R); ab = lambda x: If(x >= 0, x, -x)
    s.prove('norm = (sum |x_k|^p)^(1/p)', r == pw(s.sum(0, xa.len, lambda k: pw(ab(zsel(xa.arr, k)), z3.ToReal(n))), 1 / z3.ToReal(n)))


@proof('infinity norm')
def _(s):
    a = s.var(POINT, 'a')
    xa = s.pre().f(a, 'x')
    s.assume(xa.len > 0)
    r = s.call(s.meth(POINT, 'norm'), a, [iv(0)])
    finite(s, xa)
    ab = lambda x: If(x >= 0, x, -x)
    s.prove('an upper bound', ALL('k', lambda k: Implies(inR(k, xa.len), r >= ab(zsel(xa.arr, k)))))
    s.prove('attained', EX('k', lambda k: And(inR(k, xa.len), r == ab(zsel(xa.arr, k)))))


def finite(s, xa):
    big = [c for k, c in s.e.uf.items() if k[0] == 'const' and k[1].startswith('REALMAX')]
    if big:
        s.assume(ALL('k', lambda k: And(zsel(xa.arr, k) < big[0], zsel(xa.arr, k) > -big[0])))
        s.assumptions.add('max/min: components are finite doubles below numeric_limits<double>::max() in magnitude')


def mm(name, le):
    @proof(name + ' of components')
    def _(s):
        a = s.var(POINT, 'a'); xa = s.pre().f(a, 'x')
        s.assume(xa.len > 0)
        r = s.call(s.func(name, 1, 'const Point<double, vector<'), None, [a])
        finite(s, xa)
        s.prove('bound', ALL('k', lambda k: Implies(inR(k, xa.len), le(r, zsel(xa.arr, k)))))
        s.prove('attained', EX('k', lambda k: And(inR(k, xa.len), r == zsel(xa.arr, k))))


mm('max', op.ge); mm('min', op.le)


def ass(name, fn, f, args, keep=True):
    @proof(name)
    def _(s):
        a = s.var(POINT, 'a'); b = s.var(POINT, 'b') if 'b' in args else None; c = s.real('c') if 'c' in args else None
        v = s.pre(); xa = v.f(a, 'x'); xb = v.f(b, 'x') if b is not None else None
        if b is not None:
            s.assume(xa.len == xb.len)
        if 'div' in fn:
            if c is not None:
                s.assume(c != 0)
            if b is not None:
                s.assume(ALL('k', lambda k: zsel(xb.arr, k) != 0))
        s.call(s.func(fn), None, [a] + ([b] if b is not None else []) + ([c] if c is not None else []))
        w = s.now()
        elems(s, name, w.f(a, 'x'), xa.len, lambda k: f(zsel(xa.arr, k), zsel(xb.arr, k) if xb is not None else None, c))
        s.prove('label, id, alpha kept', And(w.f(a, 'y') == v.f(a, 'y'), w.f(a, 'id') == v.f(a, 'id'), w.f(a, 'alpha') == v.f(a, 'alpha')))
        if b is not None:
            unchanged(s, 'operand untouched', v, b)


ass('point += scalar', 'addeq_s', lambda a, b, c: a + c, 'c'); ass('point -= scalar', 'subeq_s', lambda a, b, c: a - c, 'c')
ass('point *= scalar', 'muleq_s', lambda a, b, c: a * c, 'c'); ass('point /= scalar', 'diveq_s', lambda a, b, c: a / c, 'c')
ass('point += expression', 'addeq_e', lambda a, b, c: a + c * b, 'bc'); ass('point -= expression', 'subeq_e', lambda a, b, c: a - c * b, 'bc')
ass('point *= expression', 'muleq_e', lambda a, b, c: a * (c * b), 'bc'); ass('point /= expression', 'diveq_e', lambda a, b, c: a / (c * b), 'bc')
ass('point = scalar', 'assign_s', lambda a, b, c: c, 'c')


def assp(name, opname, f, nz=False):
    @proof(name)
    def _(s):
        a = s.var(POINT, 'a'); b = s.var(POINT, 'b')
        v = s.pre(); xa, xb = v.f(a, 'x'), v.f(b, 'x')
        s.assume(xa.len == xb.len)
        if nz:
            s.assume(ALL('k', lambda k: zsel(xb.arr, k) != 0))
        s.call(s.meth(POINT, opname, 1, 'const Point'), a, [b])
        w = s.now()
        elems(s, name, w.f(a, 'x'), xa.len, lambda k: f(zsel(xa.arr, k), zsel(xb.arr, k)))
        s.prove('label, id, alpha kept', And(w.f(a, 'y') == v.f(a, 'y'), w.f(a, 'id') == v.f(a, 'id'), w.f(a, 'alpha') == v.f(a, 'alpha')))
        unchanged(s, 'operand untouched', v, b)


assp('point += point', 'operator+=', op.add); assp('point -= point', 'operator-=', op.sub); assp('point *= point', 'operator*=', op.mul); assp('point /= point', 'operator/=', op.truediv, True)


@proof('assignment from a point')
def _(s):
    a = s.var(POINT, 'a'); b = s.var(POINT, 'b')
    v = s.pre(); xb = v.f(b, 'x')
    s.call(s.func('assign_p'), None, [a, b])
    elems(s, 'components', s.now().f(a, 'x'), xb.len, lambda k: zsel(xb.arr, k))
    unchanged(s, 'operand untouched', v, b)


@proof('assignment from a vector')
def _(s):
    a = s.var(POINT, 'a'); b = s.var(('vec', R_), 'b')
    v = s.pre(); xb = v.get(b)
    s.call(s.func('assign_v'), None, [a, b])
    elems(s, 'components', s.now().f(a, 'x'), xb.len, lambda k: zsel(xb.arr, k))


@proof('assignment from an expression')
def _(s):
    a = s.var(POINT, 'a'); b = s.var(POINT, 'b'); c = s.var(POINT, 'c')
    v = s.pre(); xa, xb, xc = (v.f(x, 'x') for x in (a, b, c))
    s.assume(xa.len == xb.len, xa.len == xc.len)
    s.call(s.func('assign_e'), None, [a, b, c])
    elems(s, 'components', s.now().f(a, 'x'), xb.len, lambda k: zsel(xb.arr, k) + zsel(xc.arr, k))


@proof('copy construction')
def _(s):
    a = s.var(POINT, 'a'); v = s.pre(); xa = v.f(a, 'x')
    r = s.call(s.func('copyp'), None, [a])
    w = s.now()
    elems(s, 'components', w.f(r, 'x'), xa.len, lambda k: zsel(xa.arr, k))
    s.prove('label, id, alpha', And(w.f(r, 'y') == v.f(a, 'y'), w.f(r, 'id') == v.f(a, 'id'), w.f(r, 'alpha') == v.f(a, 'alpha')))


@proof('construction from values')
def _(s):
    n = s.size_('n'); c = s.real('c')
    r = s.call(s.func('filled'), None, [n, c])
    elems(s, 'filled', s.now().f(r, 'x'), n, lambda k: c)
    b = s.var(('vec', R_), 'b'); xb = s.now().get(b)
    r = s.call(s.func('fromvec'), None, [b])
    elems(s, 'fromvec', s.now().f(r, 'x'), xb.len, lambda k: zsel(xb.arr, k))


@proof('equality')
def _(s):
    a = s.var(POINT, 'a'); b = s.var(POINT, 'b')
    v = s.pre(); xa, xb = v.f(a, 'x'), v.f(b, 'x')
    r = s.call(s.func('eq'), None, [a, b])
    q = s.call(s.func('ne'), None, [a, b])
    same_ = And(xa.len == xb.len, ALL('k', lambda k: Implies(inR(k, xa.len), zsel(xa.arr, k) == zsel(xb.arr, k))))
    s.prove('== iff equal components', And(Implies(r, same_), Implies(same_, r)))
    s.prove('!= is the negation', q == Not(r))


@proof('normalize')
def _(s):
    a = s.var(POINT, 'a'); q = s.real('q'); xa = s.pre().f(a, 'x')
    pw = s.uf('pow', R, R, R); ab = lambda x: If(x >= 0, x, -x)
    N = pw(s.sum(0, xa.len, lambda k: pw(ab(zsel(xa.arr, k)), q)), 1 / q)
    s.assume(q >= 1, N != 0)
    r = s.call(s.func('normalize', 2, 'Point'), None, [a, q])
    elems(s, 'x / |x|_q', s.now().f(r, 'x'), xa.len, lambda k: zsel(xa.arr, k) / N)


def own(name, fn, f):
    @proof(name)
    def _(s):
        a = s.var(POINT, 'a'); j = s.size_('j'); v = s.pre(); x = v.f(a, 'x')
        s.assume(j < x.len)
        c = zsel(x.arr, j)
        if 'div' in fn:
            s.assume(c != 0)
        s.call(s.func(fn), None, [a, j])
        elems(s, name, s.now().f(a, 'x'), x.len, lambda k: f(zsel(x.arr, k), c))


own('point += own component', 'addeq_own', op.add); own('point -= own component', 'subeq_own', op.sub)
own('point *= own component', 'muleq_own', op.mul); own('point /= own component', 'diveq_own', op.truediv)
own('point = point * own component', 'assign_own', op.mul)
