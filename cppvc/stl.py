"""Trusted semantics of the C++ standard library used by the code under contract."""
import z3
from . import ctypes_ as T
from .core import *


def inner(n):
    return [c for c in n.get('inner', []) if c]


def nty(n):
    t = n.get('type', {})
    return T.parse(t.get('desugaredQualType', t.get('qualType', 'void')))


REAL1 = ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'tanh', 'log2', 'log10', 'atan', 'acos', 'asin', 'cosh', 'sinh')


class StlMixin:
    # ------------------------------------------------------------ scalars
    def std_scalar(self, name, a, st):
        name = name.split('::')[-1]
        a = [z3.ToReal(x) if is_z3(x) and x.sort() == I and name in REAL1 + ('pow', 'floor', 'ceil', 'round') else x for x in a]
        if any(isinstance(x, Opaque) for x in a):
            return fresh('opq', R)
        if name in ('sqrtf', 'sqrtl'):
            name = 'sqrt'
        if name in REAL1:
            if name == 'sqrt' and z3.is_rational_value(z3.simplify(a[0])):
                pass
            return self.func_symbol(name, R, R)(a[0])
        if name == 'pow':
            x, y = a
            y = z3.simplify(y)
            if z3.is_rational_value(y):
                f = y.as_fraction()
                if f == 2:
                    return x * x
                if f == 1:
                    return x
                if f == 0:
                    return z3.RealVal(1)
                if f == 3:
                    return x * x * x
                if f == z3.Q(1, 2).as_fraction():
                    return self.func_symbol('sqrt', R, R)(x)
                if f == z3.Q(3, 2).as_fraction():
                    return x * self.func_symbol('sqrt', R, R)(x)
            return self.func_symbol('pow', R, R, R)(x, y)
        if name in ('fabs', 'abs'):
            z = z3.RealVal(0) if a[0].sort() == R else iv(0)
            return z3.If(a[0] >= z, a[0], -a[0])
        if name == 'floor':
            return z3.ToReal(self.func_symbol('floor', R, I)(a[0]))
        if name == 'ceil':
            return z3.ToReal(self.func_symbol('ceil', R, I)(a[0]))
        if name == 'round':
            return z3.If(a[0] >= 0, z3.ToReal(self.func_symbol('floor', R, I)(a[0] + z3.Q(1, 2))), -z3.ToReal(self.func_symbol('floor', R, I)(-a[0] + z3.Q(1, 2))))
        if name in ('isnan', 'isinf'):
            return z3.BoolVal(False)
        if name == 'isfinite':
            return z3.BoolVal(True)
        if name == 'isspace':
            f = self.func_symbol('isspace', I, I)
            return f(a[0])
        raise Unsupported('library function ' + name)

    def limits(self, name, ty):
        if ty[0] == 'real':
            mx = self.const('REALMAX', R, lambda c: c > 10 ** 300)
            if name == 'max':
                return mx
            if name == 'lowest':
                return -mx
            if name == 'min':
                return self.const('REALMIN', R, lambda c: z3.And(c > 0, c < z3.Q(1, 10 ** 300)))
            if name == 'epsilon':
                return self.const('REALEPS', R, lambda c: z3.And(c > 0, c < z3.Q(1, 10 ** 15)))
            if name == 'infinity':
                return self.const('REALINF', R, lambda c: c > mx)
        if ty[0] == 'int':
            lo, hi = (-(2 ** (ty[1] - 1)), 2 ** (ty[1] - 1) - 1) if ty[2] else (0, 2 ** ty[1] - 1)
            if name == 'max':
                return iv(hi)
            if name in ('min', 'lowest'):
                return iv(lo)
            if name == 'infinity':
                return iv(0)
        raise Unsupported('numeric_limits<%s>::%s' % (T.tname(ty), name))

    # ------------------------------------------------------------ free functions
    def stl_call(self, name, args, st, fr, want_loc, n, d):
        ty = nty(n)
        if name in ('max', 'min', 'lowest', 'epsilon', 'infinity', 'quiet_NaN') and not args:
            return self.limits(name, ty)
        if name in ('move', 'forward', 'as_const', 'ref', 'cref'):
            return self.lv(args[0], st, fr) if self.is_glvalue(args[0]) else self.ev(args[0], st, fr)
        if name in ('make_shared', 'make_unique'):
            return self.make_shared(ty, args, st, fr, n)
        if name == 'make_pair':
            return StructVal(ty, {'first': self.convert(self.ev(args[0], st, fr), None, ty[1]), 'second': self.convert(self.ev(args[1], st, fr), None, ty[2])})
        if name in ('make_tuple',):
            return StructVal(ty, {'t%d' % i: self.ev(a, st, fr) for i, a in enumerate(args)})
        if name in ('begin', 'cbegin'):
            return IterVal(self.bind_ref(args[0], st, fr), iv(0))
        if name in ('end', 'cend'):
            loc = self.bind_ref(args[0], st, fr)
            return IterVal(loc, self.read(loc, st).len)
        if name == 'endl' or name == 'flush' or name == 'ws':
            return Opaque()
        if name in ('exit', 'abort', 'terminate', '_Exit'):
            from .engine import Terminated
            raise Terminated()
        if name in ('max', 'min'):
            la = self.ev(args[0], st, fr)
            if isinstance(la, VecVal):
                raise Unsupported('max of initializer list')
            lb = self.ev(args[1], st, fr)
            return z3.If(la < lb, lb, la) if name == 'max' else z3.If(lb < la, lb, la)
        if name == 'swap':
            a = self.bind_ref(args[0], st, fr); b = self.bind_ref(args[1], st, fr)
            x, y = self.read(a, st), self.read(b, st)
            self.write(a, y, st); self.write(b, x, st)
            return Opaque()
        if name == 'to_string':
            v = self.ev(args[0], st, fr)
            if v.sort() == I:
                return self.func_symbol('to_string_int', I, STRS)(v)
            return self.func_symbol('to_string_real', R, STRS)(v)
        if name in ('stoi', 'stol'):
            v = self.ev(args[0], st, fr)
            return self.func_symbol('stoi', STRS, I)(v)
        if name in ('rand', 'time', 'clock', 'now'):
            return self.fresh_value(ty, name, st)
        if name in ('srand',):
            return Opaque()
        if name == 'clock_gettime':
            return self.fresh_value(ty, name, st)
        h = getattr(self, 'alg_' + name, None)
        if h is not None:
            return h(args, st, fr, n)
        if name in REAL1 + ('pow', 'fabs', 'abs', 'floor', 'ceil', 'round', 'isnan', 'isinf', 'isfinite', 'isspace'):
            vals = [self.ev(a, st, fr) for a in args]
            v = self.std_scalar(name, vals, st)
            if is_z3(v) and v.sort() == B and ty[0] == 'int':
                v = z3.If(v, iv(1), iv(0))
            return v
        if ty[0] in ('opaque', 'stream', 'void'):
            raise Unsupported('library function ' + str(name))
        raise Unsupported('library function ' + str(name))

    def make_shared(self, ty, args, st, fr, n):
        cls = ty[1]
        if cls[0] != 'cls':
            raise Unsupported('make_shared of %s' % (cls,))
        argvals = []
        for a in args:
            v = self.argval(a, st, fr)
            argvals.append(self.read(v.loc, st) if isinstance(v, RefVal) else v)
        if len(argvals) == 1 and isinstance(argvals[0], StructVal) and argvals[0].ty == cls:
            f = self.pick_ctor(cls, [args[0]], None)
            if f is None or f.body is None or f.implicit:
                return self.new_object(cls, argvals[0], st)
        f = self.pick_ctor(cls, args, None)
        v = self.construct(cls, None, st, fr, None, n, argvals=argvals) if f is None or True else None
        return self.new_object(cls, v, st)

    # ------------------------------------------------------------ ranges / algorithms
    def rng(self, a, b, st, fr):
        x = self.ev(a, st, fr); y = self.ev(b, st, fr)
        if isinstance(x, Loc) or isinstance(y, Loc):
            raise Unsupported('raw pointer range')
        if not isinstance(x, IterVal) or not isinstance(y, IterVal):
            raise Unsupported('range over %s' % type(x).__name__)
        return x, y

    def fval(self, a, st, fr):
        m = a
        while m['kind'] in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr') or \
                (m['kind'] == 'CXXConstructExpr' and len(inner(m)) == 1 and nty(m)[0] == 'func'):
            m = inner(m)[0]
        return self.ev(m, st, fr)

    def vec_of(self, it, st):
        v = self.read(it.loc, st)
        if not isinstance(v, VecVal):
            raise Unsupported('iterator into %s' % type(v).__name__)
        return v

    def elem(self, v, i):
        return self.sorts.unpack(z3.Select(v.arr, i), v.et)

    def at_idx(self, it, i):
        """physical index of logical offset i"""
        return i

    def pure(self, fn, argvals, st, fr, n):
        """call a predicate without letting its side effects escape (they must not exist); returns a term"""
        s = st.copy()
        nf = len(s.facts)
        rec = self.record
        self.record = False
        try:
            v = self.call_closure(fn, argvals, s, fr, n)
        finally:
            self.record = rec
        if len(s.facts) > nf:
            # facts about fresh constants inside cannot be generalised
            v2 = v
            if any(True for _ in s.facts[nf:]):
                self._pure_facts = s.facts[nf:]
        else:
            self._pure_facts = []
        for k in st.store:
            if k in s.store and not same(s.store[k], st.store[k]):
                raise Unsupported('predicate with side effects')
        for k in s.heap:
            if k in st.heap and not s.heap[k].eq(st.heap[k]):
                raise Unsupported('predicate with side effects')
            st.heap.setdefault(k, s.heap[k])
        return v

    def pred_at(self, fn, st, fr, n, vec):
        """returns k -> Bool term for predicate fn on element k"""
        K = z3.Const('K!pred%d' % self.nvar, I); self.nvar += 1
        v = self.pure(fn, [self.elem(vec, K)], st, fr, n)
        if self._pure_facts:
            raise Unsupported('predicate body needs facts')
        return lambda k: z3.substitute(v, (K, k))

    def alg_find(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        v = self.ev(args[2], st, fr)
        vec = self.vec_of(x, st)
        if not is_z3(v) or vec.et[0] not in ('int', 'real', 'bool', 'str', 'ptr'):
            raise Unsupported('std::find of aggregate')
        if vec.et[0] == 'real' and v.sort() == I:
            v = z3.ToReal(v)
        sel = lambda k: z3.Select(vec.arr, k)
        if v.sort() == R and vec.et[0] == 'int':
            eq = lambda k: z3.ToReal(sel(k)) == v
        else:
            eq = lambda k: sel(k) == v
        return self.find_idx(x, y, eq, st, [sel], n, fr)

    def find_idx(self, x, y, eq, st, sels, n, fr):
        r = fresh('find', I)
        k = z3.Int('k!find')
        vec = self.vec_of(x, st)
        self.safe('valid iterator range', st, z3.And(0 <= x.idx, x.idx <= y.idx, y.idx <= vec.len), n, fr)
        st.assume(x.idx <= r, r <= y.idx,
                  FA([k], z3.Implies(z3.And(x.idx <= k, k < r), z3.Not(eq(k))), patterns=[s(k) for s in sels] if sels else []),
                  z3.Implies(r < y.idx, eq(r)))
        return IterVal(x.loc, r, x.rev)

    def alg_find_if(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        fn = self.fval(args[2], st, fr)
        vec = self.vec_of(x, st)
        p = self.pred_at(fn, st, fr, n, vec)
        return self.find_idx(x, y, p, st, [lambda k: z3.Select(vec.arr, k)], n, fr)

    def alg_any_of(self, args, st, fr, n):
        it = self.alg_find_if(args, st, fr, n)
        y = self.ev(args[1], st, fr)
        return it.idx < y.idx

    def alg_none_of(self, args, st, fr, n):
        return z3.Not(self.alg_any_of(args, st, fr, n))

    def alg_all_of(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        fn = self.fval(args[2], st, fr)
        vec = self.vec_of(x, st)
        p = self.pred_at(fn, st, fr, n, vec)
        it = self.find_idx(x, y, lambda k: z3.Not(p(k)), st, [lambda k: z3.Select(vec.arr, k)], n, fr)
        return it.idx == y.idx

    def alg_count(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        v = self.ev(args[2], st, fr)
        vec = self.vec_of(x, st)
        return self.folds.count(x.idx, y.idx, lambda k: z3.Select(vec.arr, k) == v)

    def alg_count_if(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        fn = self.fval(args[2], st, fr)
        vec = self.vec_of(x, st)
        p = self.pred_at(fn, st, fr, n, vec)
        return self.folds.count(x.idx, y.idx, p)

    def alg_distance(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        return y.idx - x.idx

    def alg_next(self, args, st, fr, n):
        x = self.ev(args[0], st, fr)
        d = self.ev(args[1], st, fr) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else iv(1)
        return IterVal(x.loc, x.idx + d, x.rev)

    def alg_prev(self, args, st, fr, n):
        x = self.ev(args[0], st, fr)
        d = self.ev(args[1], st, fr) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else iv(1)
        return IterVal(x.loc, x.idx - d, x.rev)

    def alg_advance(self, args, st, fr, n):
        loc = self.lv(args[0], st, fr)
        x = self.read(loc, st)
        self.write(loc, IterVal(x.loc, x.idx + self.ev(args[1], st, fr), x.rev), st)
        return Opaque()

    def alg_iota(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        v = self.ev(args[2], st, fr)
        vec = self.vec_of(x, st)
        A = fresh('iota', vec.arr.sort())
        k = z3.Int('k!iota')
        val = v + (z3.ToReal(k - x.idx) if v.sort() == R else (k - x.idx))
        if vec.et[0] == 'real' and v.sort() == I:
            val = z3.ToReal(val)
        self.safe('valid iterator range', st, z3.And(0 <= x.idx, x.idx <= y.idx, y.idx <= vec.len), n, fr)
        st.assume(FA([k], z3.Select(A, k) == z3.If(z3.And(x.idx <= k, k < y.idx), val, z3.Select(vec.arr, k)), patterns=[z3.Select(A, k)]))
        self.write(x.loc, VecVal(vec.et, vec.len, A), st)
        return Opaque()

    def alg_fill(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        vec = self.vec_of(x, st)
        v = self.sorts.pack(self.convert(self.ev(args[2], st, fr), None, vec.et), vec.et)
        A = fresh('fill', vec.arr.sort()); k = z3.Int('k!fill')
        self.safe('valid iterator range', st, z3.And(0 <= x.idx, x.idx <= y.idx, y.idx <= vec.len), n, fr)
        st.assume(FA([k], z3.Select(A, k) == z3.If(z3.And(x.idx <= k, k < y.idx), v, z3.Select(vec.arr, k)), patterns=[z3.Select(A, k)]))
        self.write(x.loc, VecVal(vec.et, vec.len, A), st)
        return Opaque()

    def alg_copy(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        src = self.vec_of(x, st)
        o = self.ev(args[2], st, fr)
        if isinstance(o, tuple) and o[0] == 'back_inserter':
            loc = o[1]
            dst = self.read(loc, st)
            cnt = y.idx - x.idx
            A = fresh('copy', dst.arr.sort()); k = z3.Int('k!copy')
            st.assume(FA([k], z3.Select(A, k) == z3.If(z3.And(dst.len <= k, k < dst.len + cnt), self.conv_el(z3.Select(src.arr, k - dst.len + x.idx), src.et, dst.et), z3.Select(dst.arr, k)), patterns=[z3.Select(A, k)]))
            self.write(loc, VecVal(dst.et, dst.len + cnt, A), st)
            return o
        dst = self.vec_of(o, st)
        A = fresh('copy', dst.arr.sort()); k = z3.Int('k!copy')
        cnt = y.idx - x.idx
        self.safe('valid iterator range', st, z3.And(0 <= x.idx, x.idx <= y.idx, y.idx <= src.len, 0 <= o.idx, o.idx + cnt <= dst.len), n, fr)
        st.assume(FA([k], z3.Select(A, k) == z3.If(z3.And(o.idx <= k, k < o.idx + cnt), self.conv_el(z3.Select(src.arr, k - o.idx + x.idx), src.et, dst.et), z3.Select(dst.arr, k)), patterns=[z3.Select(A, k)]))
        self.write(o.loc, VecVal(dst.et, dst.len, A), st)
        return IterVal(o.loc, o.idx + cnt)

    def conv_el(self, e, frm, to):
        if frm == to:
            return e
        return self.convert(e, frm, to)

    def permuted(self, vec, lo, hi, st, tag):
        """fresh array that is a permutation of vec on [lo,hi) and equal outside; returns (arr, perm, inv)"""
        i = self.nvar; self.nvar += 1
        A = fresh(tag, vec.arr.sort())
        p = z3.Function('perm_%s_%d' % (tag, i), I, I); q = z3.Function('inv_%s_%d' % (tag, i), I, I)
        k = z3.Int('k!perm')
        inr = lambda x: z3.And(lo <= x, x < hi)
        st.assume(FA([k], z3.Implies(inr(k), z3.And(inr(p(k)), q(p(k)) == k, z3.Select(A, k) == z3.Select(vec.arr, p(k)))), patterns=[z3.Select(A, k)]),
                  FA([k], z3.Implies(inr(k), z3.And(inr(p(k)), q(p(k)) == k, z3.Select(A, k) == z3.Select(vec.arr, p(k)))), patterns=[p(k)]),
                  FA([k], z3.Implies(inr(k), z3.And(inr(q(k)), p(q(k)) == k, z3.Select(A, q(k)) == z3.Select(vec.arr, k))), patterns=[q(k)]),
                  FA([k], z3.Implies(inr(k), z3.And(inr(q(k)), p(q(k)) == k, z3.Select(A, q(k)) == z3.Select(vec.arr, k))), patterns=[z3.Select(vec.arr, k)]),
                  FA([k], z3.Implies(z3.Not(inr(k)), z3.Select(A, k) == z3.Select(vec.arr, k)), patterns=[z3.Select(A, k)]))
        self.perms = getattr(self, 'perms', [])
        self.perms.append((A, vec.arr, p, q, lo, hi))
        return A, p, q

    def alg_shuffle(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        vec = self.vec_of(x, st)
        self.assumptions.add('std::shuffle yields some permutation of the range')
        A, p, q = self.permuted(vec, x.idx, y.idx, st, 'shuffle')
        self.write(x.loc, VecVal(vec.et, vec.len, A), st)
        return Opaque()

    def less_at(self, args, i, vec, st, fr, n):
        """comparator as (term,term)->Bool"""
        if len(args) > i and args[i]['kind'] != 'CXXDefaultArgExpr':
            fn = self.fval(args[i], st, fr)
            es = self.sorts.sort(vec.et)
            a = z3.Const('a!cmp%d' % self.nvar, es); b = z3.Const('b!cmp%d' % self.nvar, es); self.nvar += 1
            v = self.pure(fn, [self.sorts.unpack(a, vec.et), self.sorts.unpack(b, vec.et)], st, fr, n)
            if self._pure_facts:
                raise Unsupported('comparator body needs facts')
            return lambda x, y: z3.substitute(v, (a, x), (b, y))
        if vec.et[0] == 'pair':
            s = self.sorts.sort(vec.et)
            f0, f1 = s.accessor(0, 0), s.accessor(0, 1)
            return lambda x, y: z3.Or(self.lt(f0(x), f0(y)), z3.And(f0(x) == f0(y), self.lt(f1(x), f1(y))))
        return self.lt

    def lt(self, x, y):
        if x.sort() == STRS:
            f = self.func_symbol('str_lt', STRS, STRS, B)
            return f(x, y)
        if x.sort() == B:
            return z3.And(z3.Not(x), y)
        if x.sort() not in (I, R):
            raise Unsupported('operator< on %s' % x.sort())
        return x < y

    def alg_sort(self, args, st, fr, n, tag='sort'):
        x, y = self.rng(args[0], args[1], st, fr)
        vec = self.vec_of(x, st)
        lt = self.less_at(args, 2, vec, st, fr, n)
        lo, hi = (x.idx, y.idx)
        if x.rev:
            lt0 = lt; lt = lambda a, b: lt0(b, a)
        A, p, q = self.permuted(vec, lo, hi, st, tag)
        i, j = z3.Int('i!sort'), z3.Int('j!sort')
        st.assume(FA([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(lt(z3.Select(A, j), z3.Select(A, i)))),
                            patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))]))
        self.write(x.loc, VecVal(vec.et, vec.len, A), st)
        self.assumptions.add('std::sort/stable_sort/nth_element: permutation with the order required by the standard (comparator a strict weak order)')
        return Opaque()

    def alg_stable_sort(self, args, st, fr, n):
        return self.alg_sort(args, st, fr, n)

    def alg_nth_element(self, args, st, fr, n):
        x, y = self.rng(args[0], args[2], st, fr)
        m = self.ev(args[1], st, fr)
        vec = self.vec_of(x, st)
        lt = self.less_at(args, 3, vec, st, fr, n)
        A, p, q = self.permuted(vec, x.idx, y.idx, st, 'nth')
        i, j = z3.Int('i!nth'), z3.Int('j!nth')
        lo, hi, mi = x.idx, y.idx, m.idx
        st.assume(z3.Implies(mi < hi, FA([i, j], z3.Implies(z3.And(lo <= i, i <= mi, mi <= j, j < hi, i <= j), z3.Not(lt(z3.Select(A, j), z3.Select(A, i)))),
                                                patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))])))
        self.write(x.loc, VecVal(vec.et, vec.len, A), st)
        self.assumptions.add('std::sort/stable_sort/nth_element: permutation with the order required by the standard (comparator a strict weak order)')
        return Opaque()

    def alg_partial_sort(self, args, st, fr, n):
        x, y = self.rng(args[0], args[2], st, fr)
        m = self.ev(args[1], st, fr)
        vec = self.vec_of(x, st)
        lt = self.less_at(args, 3, vec, st, fr, n)
        A, p, q = self.permuted(vec, x.idx, y.idx, st, 'psort')
        i, j = z3.Int('i!ps'), z3.Int('j!ps')
        lo, hi, mi = x.idx, y.idx, m.idx
        st.assume(FA([i, j], z3.Implies(z3.And(lo <= i, i < mi, i < j, j < hi), z3.Not(lt(z3.Select(A, j), z3.Select(A, i)))),
                            patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))]))
        self.write(x.loc, VecVal(vec.et, vec.len, A), st)
        return Opaque()

    def alg_reverse(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        vec = self.vec_of(x, st)
        A = fresh('rev', vec.arr.sort()); k = z3.Int('k!rev')
        st.assume(FA([k], z3.Select(A, k) == z3.If(z3.And(x.idx <= k, k < y.idx), z3.Select(vec.arr, x.idx + y.idx - 1 - k), z3.Select(vec.arr, k)), patterns=[z3.Select(A, k)]))
        self.write(x.loc, VecVal(vec.et, vec.len, A), st)
        return Opaque()

    def alg_max_element(self, args, st, fr, n, mx=True):
        x, y = self.rng(args[0], args[1], st, fr)
        vec = self.vec_of(x, st)
        lt = self.less_at(args, 2, vec, st, fr, n)
        r = fresh('maxel', I); k = z3.Int('k!mx'); self.extremes = getattr(self, 'extremes', []) + [r]
        sel = lambda i: z3.Select(vec.arr, i)
        # first extremal element
        if mx:
            before = lt(sel(k), sel(r)); after = z3.Not(lt(sel(r), sel(k)))
        else:
            before = lt(sel(r), sel(k)); after = z3.Not(lt(sel(k), sel(r)))
        st.assume(z3.Implies(x.idx == y.idx, r == y.idx), z3.Implies(x.idx < y.idx, z3.And(x.idx <= r, r < y.idx)),
                  FA([k], z3.Implies(z3.And(x.idx <= k, k < r), before), patterns=[sel(k)]),
                  FA([k], z3.Implies(z3.And(r <= k, k < y.idx), after), patterns=[sel(k)]))
        return IterVal(x.loc, r, x.rev)

    def alg_min_element(self, args, st, fr, n):
        return self.alg_max_element(args, st, fr, n, False)

    def idx_loop(self, lo, hi, st, fr, n, body):
        """for (idx = lo; idx < hi; idx++) body(idx, state)"""
        ik = self.newkey('__alg')
        st.store[ik] = lo

        def c(s):
            return s.store[ik] < hi

        def b(s):
            body(s.store[ik], s)
            return s, []

        def i(s):
            s.store[ik] = s.store[ik] + 1
        nxt, outs = self.loop(st.copy(), fr, c, b, i, n)
        if nxt is None:
            from .engine import Terminated
            raise Terminated()
        nxt.store.pop(ik, None)
        st.assign(nxt)

    def alg_for_each(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        fn = self.fval(args[2], st, fr)
        self.idx_loop(x.idx, y.idx, st, fr, n, lambda i, s: self.call_closure(fn, [RefVal(x.loc.i(i))], s, fr, n))
        return Opaque()

    def alg_transform(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        if len(args) == 4:
            o = self.ev(args[2], st, fr); fn = self.fval(args[3], st, fr); z = None
        else:
            z = self.ev(args[2], st, fr); o = self.ev(args[3], st, fr); fn = self.fval(args[4], st, fr)

        def body(i, s):
            av = [RefVal(x.loc.i(i))]
            if z is not None:
                av.append(RefVal(z.loc.i(z.idx + (i - x.idx))))
            v = self.call_closure(fn, av, s, fr, n)
            if isinstance(v, Loc):
                v = self.read(v, s)
            if isinstance(o, tuple):
                self.vec_push(o[1], v, s)
            else:
                dst = self.vec_of(o, s)
                self.safe('output iterator in range', s, z3.And(o.idx + (i - x.idx) >= 0, o.idx + (i - x.idx) < dst.len), n, fr)
                self.write(o.loc.i(simp(o.idx + (i - x.idx))), self.convert(v, None, dst.et), s)
        self.idx_loop(x.idx, y.idx, st, fr, n, body)
        return o

    def alg_generate(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        fn = self.fval(args[2], st, fr)

        def body(i, s):
            v = self.call_closure(fn, [], s, fr, n)
            self.write(x.loc.i(i), v, s)
        self.idx_loop(x.idx, y.idx, st, fr, n, body)
        return Opaque()

    def alg_accumulate(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        vec = self.vec_of(x, st)
        init = self.ev(args[2], st, fr)
        ity = nty(args[2])
        key = self.newkey('__acc')
        st.store[key] = init
        fn = self.fval(args[3], st, fr) if len(args) > 3 else None

        def body(i, s):
            if fn is not None:
                v = self.call_closure(fn, [s.store[key], RefVal(x.loc.i(i))], s, fr, n)
                if isinstance(v, Loc):
                    v = self.read(v, s)
            else:
                e = self.read(x.loc.i(i), s)
                a = s.store[key]
                if is_z3(a) and is_z3(e):
                    ct = T.REAL if (a.sort() == R or e.sort() == R) else ity
                    v = self.arith('+', self.convert(a, None, ct), self.convert(e, None, ct), ct, s, n, fr)
                else:
                    raise Unsupported('accumulate over aggregates')
            s.store[key] = self.convert(v, None, ity) if is_z3(v) and v.sort() != s.store[key].sort() else v
        self.idx_loop(x.idx, y.idx, st, fr, n, body)
        return st.store.pop(key)

    def alg_inner_product(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        z = self.ev(args[2], st, fr)
        init = self.ev(args[3], st, fr)
        a = self.vec_of(x, st); b = self.vec_of(z, st)
        if len(args) > 4 or init.sort() != R or a.et != T.REAL or b.et != T.REAL:
            raise Unsupported('inner_product variant')
        return self.folds.fold(x.idx, y.idx, init, lambda acc, k: acc + z3.Select(a.arr, k) * z3.Select(b.arr, simp(k - x.idx + z.idx)))

    def alg_back_inserter(self, args, st, fr, n):
        return ('back_inserter', self.bind_ref(args[0], st, fr))

    def alg_inserter(self, args, st, fr, n):
        return ('back_inserter', self.bind_ref(args[0], st, fr))

    def alg_set_difference(self, args, st, fr, n):
        x, y = self.rng(args[0], args[1], st, fr)
        u, w = self.rng(args[2], args[3], st, fr)
        o = self.ev(args[4], st, fr)
        if not isinstance(o, tuple):
            raise Unsupported('set_difference output')
        a = self.vec_of(x, st); b = self.vec_of(u, st)
        dst = self.read(o[1], st)
        A = fresh('sdiff', a.arr.sort()); L = fresh('sdiff_len', I)
        src = z3.Function('sdiff_src_%d' % self.nvar, I, I); pos = z3.Function('sdiff_pos_%d' % self.nvar, I, I)
        wit = z3.Function('sdiff_wit_%d' % self.nvar, I, I); self.nvar += 1
        k, j = z3.Int('k!sd'), z3.Int('j!sd')
        # (destination must be empty)
        st.assume(L >= 0, L <= y.idx - x.idx)
        st.assume(FA([k], z3.Implies(z3.And(0 <= k, k < L), z3.And(x.idx <= src(k), src(k) < y.idx, z3.Select(A, k) == z3.Select(a.arr, src(k)))), patterns=[z3.Select(A, k)]))
        st.assume(FA([k, j], z3.Implies(z3.And(0 <= k, k < L, u.idx <= j, j < w.idx), z3.Select(A, k) != z3.Select(b.arr, j)), patterns=[z3.MultiPattern(z3.Select(A, k), z3.Select(b.arr, j))]))
        st.assume(FA([k], z3.Implies(z3.And(x.idx <= k, k < y.idx),
                                            z3.Or(z3.And(0 <= pos(k), pos(k) < L, z3.Select(A, pos(k)) == z3.Select(a.arr, k)),
                                                  z3.And(u.idx <= wit(k), wit(k) < w.idx, z3.Select(b.arr, wit(k)) == z3.Select(a.arr, k)))), patterns=[z3.Select(a.arr, k)]))
        # sorted input without repetitions gives output without repetitions
        st.assume(FA([k, j], z3.Implies(z3.And(0 <= k, k < j, j < L), src(k) < src(j)), patterns=[z3.MultiPattern(src(k), src(j))]))
        self.assumptions.add('std::set_difference on sorted ranges')
        if z3.is_int_value(dst.len) and dst.len.as_long() == 0:
            self.write(o[1], VecVal(a.et, L, A), st)
        else:
            raise Unsupported('set_difference into a non-empty vector')
        return o

    # ------------------------------------------------------------ iterators
    def iter_deref(self, it, st, n, fr):
        v = self.read(it.loc, st)
        if not isinstance(v, VecVal):
            raise Unsupported('iterator into %s' % type(v).__name__)
        self.safe('iterator dereference in range', st, z3.And(0 <= it.idx, it.idx < v.len), n, fr)
        return it.loc.i(self.phys(it, v))

    def phys(self, it, v):
        return simp(v.len - 1 - it.idx) if it.rev else it.idx

    def iter_binop(self, op, x, y, st, n, fr):
        if isinstance(x, IterVal) and isinstance(y, IterVal):
            if op == '-':
                return x.idx - y.idx
            return {'==': x.idx == y.idx, '!=': x.idx != y.idx, '<': x.idx < y.idx, '>': x.idx > y.idx, '<=': x.idx <= y.idx, '>=': x.idx >= y.idx}[op]
        if isinstance(x, IterVal):
            if op == '+':
                return IterVal(x.loc, x.idx + y, x.rev)
            if op == '-':
                return IterVal(x.loc, x.idx - y, x.rev)
        if isinstance(y, IterVal) and op == '+':
            return IterVal(y.loc, y.idx + x, y.rev)
        raise Unsupported('iterator op ' + op)

    # ------------------------------------------------------------ operators
    def stl_operator(self, name, args, st, fr, want_loc, n):
        op = name.replace('operator', '', 1)
        t0 = nty(args[0])
        if op in ('<<', '>>') and (t0[0] in ('stream', 'opaque')):
            return Opaque(('stream',))
        if t0[0] == 'stream':
            return Opaque(('stream',))
        if op == '[]':
            if t0[0] == 'map':
                return self.map_index(args, st, fr, n)
            if t0[0] == 'str':
                return self.fresh_value(('int', 8, True), 'chr', st)
            loc = self.bind_ref(args[0], st, fr)
            i = self.ev(args[1], st, fr)
            v = self.read(loc, st)
            if isinstance(v, IterVal):
                return v.loc.i(simp(v.idx + i))
            if not isinstance(v, VecVal):
                if isinstance(v, Opaque):
                    raise Unsupported('index into unmodelled object')
                raise Unsupported('operator[] on %s' % type(v).__name__)
            self.safe('index in range', st, z3.And(0 <= i, i < v.len), n, fr)
            return loc.i(i)
        if op == '()':
            fv = self.ev(args[0], st, fr)
            if isinstance(fv, Opaque) or t0[0] == 'opaque':
                return self.random_call(t0, args, st, fr, n)
            if isinstance(fv, StructVal) and fv.ty[0] == 'dist':
                return self.random_call(t0, args, st, fr, n)
            return self.call_closure(fv, [self.argval(a, st, fr) for a in args[1:]], st, fr, n, want_loc)
        if op == '*' and len(args) == 1:
            return self.deref(self.ev(args[0], st, fr), t0, st, n, fr)
        if op == '->':
            v = self.ev(args[0], st, fr)
            if isinstance(v, IterVal):
                return self.iter_deref(v, st, n, fr)
            return v           # pointer value; MemberExpr isArrow dereferences it
        if op in ('++', '--'):
            loc = self.lv(args[0], st, fr)
            old = self.read(loc, st)
            if isinstance(old, IterVal):
                self.write(loc, IterVal(old.loc, simp(old.idx + (1 if op == '++' else -1)), old.rev), st)
            else:
                raise Unsupported('%s on %s' % (op, type(old).__name__))
            return old if len(args) > 1 else loc
        if op == '=':
            return self.stl_assign(args, st, fr, n)
        if op in ('+=', '-='):
            loc = self.lv(args[0], st, fr)
            v = self.read(loc, st)
            d = self.ev(args[1], st, fr)
            if isinstance(v, IterVal):
                self.write(loc, IterVal(v.loc, v.idx + d if op == '+=' else v.idx - d, v.rev), st)
                return loc
            if t0 == T.STR:
                self.write(loc, self.func_symbol('str_cat', STRS, STRS, STRS)(v, d) if is_z3(d) and d.sort() == STRS else fresh('str', STRS), st)
                return loc
            raise Unsupported(op)
        if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-'):
            x = self.ev(args[0], st, fr); y = self.ev(args[1], st, fr)
            if isinstance(x, IterVal) or isinstance(y, IterVal):
                return self.iter_binop(op, x, y, st, n, fr)
            if isinstance(x, MapIterVal) and isinstance(y, MapIterVal) and op in ('==', '!='):
                e = z3.If(z3.And(x.valid, y.valid), x.key == y.key, x.valid == y.valid)
                return e if op == '==' else z3.Not(e)
            if isinstance(x, VecVal) and isinstance(y, VecVal) and op in ('==', '!='):
                e = self.vec_eq(x, y, st)
                return e if op == '==' else z3.Not(e)
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                return self.fresh_value(nty(n), 'opq', st)
            if isinstance(x, Loc) or isinstance(y, Loc):
                e = self.addr_eq(x, y)
                return e if op == '==' else z3.Not(e)
            if is_z3(x) and is_z3(y):
                if x.sort() == STRS or y.sort() == STRS:
                    if op == '==':
                        return x == y
                    if op == '!=':
                        return x != y
                    if op == '+':
                        return fresh('strcat', STRS)
                    if op == '<':
                        return self.lt(x, y)
                return self.binop(op, x, y, nty(args[0]), nty(args[1]), nty(n), st, n, fr)
        raise Unsupported('library operator %s on %s' % (name, T.tname(t0)))

    def vec_eq(self, x, y, st):
        if x.et[0] in ('cls',):
            raise Unsupported('vector equality on objects')
        b = fresh('veq', B)
        k = z3.Int('k!veq')
        w = fresh('veq_w', I)
        ex, ey = z3.Select(x.arr, k), z3.Select(y.arr, k)
        if x.et[0] == 'vec':
            raise Unsupported('nested vector equality')
        st.assume(z3.Implies(b, z3.And(x.len == y.len, FA([k], z3.Implies(z3.And(0 <= k, k < x.len), ex == ey), patterns=[ex, ey]))))
        st.assume(z3.Implies(z3.Not(b), z3.Or(x.len != y.len, z3.And(0 <= w, w < x.len, z3.Select(x.arr, w) != z3.Select(y.arr, w)))))
        return b

    def stl_assign(self, args, st, fr, n):
        loc = self.lv(args[0], st, fr)
        v = self.ev(args[1], st, fr)
        t = nty(args[0])
        old = None
        try:
            old = self.read(loc, st)
        except Unsupported:
            pass
        if isinstance(v, Opaque) and t[0] in ('int', 'real', 'bool', 'str', 'ptr'):
            v = self.fresh_value(t, 'opq', st)
        if is_z3(v) and is_z3(old) and old.sort() == R and v.sort() == I:
            v = z3.ToReal(v)
        self.write(loc, v, st)
        return loc

    def map_index(self, args, st, fr, n):
        loc = self.lv(args[0], st, fr)
        k = self.ev(args[1], st, fr)
        m = self.read(loc, st)
        if not isinstance(m, MapVal):
            raise Unsupported('map index')
        present = z3.Select(m.dom, k)
        zero = self.sorts.pack(self.zero_value(m.vt, st), m.vt)
        self.write(loc, MapVal(m.kt, m.vt, z3.Store(m.dom, k, z3.BoolVal(True)), z3.If(present, m.val, z3.Store(m.val, k, zero)), z3.If(present, m.len, m.len + 1)), st)
        return Loc(loc.root, loc.path + (('k', k),))

    # ------------------------------------------------------------ random
    def random_call(self, t0, args, st, fr, n):
        ty = nty(n)
        v = self.ev(args[0], st, fr) if args else None
        r = self.fresh_value(ty, 'rnd', st)
        self.assumptions.add('random engines/distributions return an arbitrary value of their documented range')
        if isinstance(v, StructVal) and v.ty[0] == 'dist':
            lo, hi = v.f['a'], v.f['b']
            st.assume(r >= lo, r <= hi)
        return r

    # ------------------------------------------------------------ construction
    def stl_construct(self, ty, args, st, fr, n):
        k = ty[0]
        if k == 'vec':
            if not args:
                return self.default_value(ty, st, fr)
            t0 = nty(args[0])
            if t0[0] == 'vec' and len(args) == 1 or (t0[0] == 'vec' and len(args) == 2 and nty(args[1])[0] == 'opaque'):
                return self.ev(args[0], st, fr)
            if t0[0] == 'int' and len(args) == 1:
                cnt = self.ev(args[0], st, fr)
                return self.filled(ty[1], cnt, self.elem_default(ty[1], st, fr), st)
            if t0[0] == 'int' and len(args) >= 2 and nty(args[1])[0] not in ('iter',):
                cnt = self.ev(args[0], st, fr)
                v = self.ev(args[1], st, fr)
                return self.filled(ty[1], cnt, self.convert(v, nty(args[1]), ty[1]), st)
            if t0[0] in ('iter', 'riter'):
                x, y = self.rng(args[0], args[1], st, fr)
                src = self.vec_of(x, st)
                cnt = simp(y.idx - x.idx)
                self.safe('valid iterator range', st, z3.And(0 <= x.idx, x.idx <= y.idx, y.idx <= src.len), n, fr)
                if z3.is_int_value(simp(x.idx)) and simp(x.idx).as_long() == 0 and src.et == ty[1] and not x.rev:
                    return VecVal(ty[1], cnt, src.arr)
                A = fresh('vcopy', z3.ArraySort(I, self.sorts.sort(ty[1]))); kk = z3.Int('k!vc')
                ph = (lambda i: src.len - 1 - i) if x.rev else (lambda i: i)
                st.assume(FA([kk], z3.Implies(z3.And(0 <= kk, kk < cnt), z3.Select(A, kk) == self.conv_el(z3.Select(src.arr, ph(kk + x.idx)), src.et, ty[1])), patterns=[z3.Select(A, kk)]))
                return VecVal(ty[1], cnt, A)
            raise Unsupported('vector constructor from %s' % (t0,))
        if k == 'str':
            if not args:
                return self.strlit('')
            v = self.ev(args[0], st, fr)
            if is_z3(v) and v.sort() == STRS:
                return v
            return fresh('str', STRS)
        if k == 'ptr':
            if not args:
                return iv(0)
            v = self.ev(args[0], st, fr)
            if isinstance(v, Loc) and v.root[0] == 'v' and not v.path and str(v.root[1]).startswith('new'):
                obj = st.store[v.root[1]]
                return self.new_object(ty[1], obj, st)
            return v
        if k in ('iter', 'riter', 'treeiter'):
            if not args:
                return Opaque(ty)
            v = self.ev(args[0], st, fr)
            if k == 'riter' and isinstance(v, IterVal) and not v.rev:
                raise Unsupported('reverse iterator from iterator')
            return v
        if k == 'pair':
            if not args:
                return self.default_value(ty, st, fr)
            if len(args) == 1:
                v = self.ev(args[0], st, fr)
                if isinstance(v, StructVal):
                    return StructVal(ty, {'first': self.convert(v.f['first'], None, ty[1]), 'second': self.convert(v.f['second'], None, ty[2])})
                return v
            return StructVal(ty, {'first': self.convert(self.ev(args[0], st, fr), nty(args[0]), ty[1]), 'second': self.convert(self.ev(args[1], st, fr), nty(args[1]), ty[2])})
        if k == 'func':
            return self.fval(args[0], st, fr) if args else Opaque(ty)
        if k == 'set':
            if not args:
                return self.default_value(ty, st, fr)
            if len(args) == 1:
                return self.ev(args[0], st, fr)
            return self.set_from_range(ty, args, st, fr)
        if k == 'map':
            if not args:
                return self.default_value(ty, st, fr)
            return self.ev(args[0], st, fr)
        if k == 'multimap':
            if not args:
                return self.default_value(ty, st, fr)
            return self.ev(args[0], st, fr)
        if k == 'opaque' and ty[1] in ('uniform_int_distribution', 'uniform_real_distribution'):
            q = n['type'].get('desugaredQualType', n['type']['qualType'])
            it = 'int' in ty[1]
            vals = [self.ev(a, st, fr) for a in args if a['kind'] != 'CXXDefaultArgExpr']
            if len(vals) == 2:
                et = T.parse(q[q.index('<') + 1:-1]) if '<' in q and not q.endswith('<>') else (T.INT if it else T.REAL)
                vals = [self.convert(v, None, et) for v in vals]
                return StructVal(('dist', et), {'a': vals[0], 'b': vals[1]})
        return Opaque(ty)

    def set_from_range(self, ty, args, st, fr):
        raise Unsupported('set from range')

    def elem_default(self, et, st, fr):
        if et[0] == 'cls':
            return self.default_value(et, st, fr)
        return self.zero_value(et, st, fr)

    def filled(self, et, cnt, v, st):
        if isinstance(v, Opaque):
            return VecVal(et, cnt, self.default_arr(et))
        p = self.sorts.pack(v, et)
        return VecVal(et, cnt, z3.K(I, p))

    def new_multimap(self, ty):
        raise Unsupported('multimap')

    # ------------------------------------------------------------ methods
    def stl_method(self, me, base, args, st, fr, want_loc, n):
        name = me['name']
        bt = nty(base)
        if me.get('isArrow') and bt[0] == 'ptr':
            bt = bt[1]
            loc = self.deref(self.ev(base, st, fr), nty(base), st, n, fr) if nty(base)[1][0] == 'cls' else self.ev(base, st, fr)
        else:
            loc = self.bind_ref(base, st, fr)
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        k = bt[0]
        if k == 'stream':
            return Opaque(nty(n)) if nty(n)[0] not in ('bool', 'int') else self.fresh_value(nty(n), 'io', st)
        if k == 'ptr':
            v = self.read(loc, st)
            if name == 'get':
                return v
            if name == 'reset':
                self.write(loc, iv(0), st)
                return Opaque()
            if name == 'operator bool':
                return v != 0 if is_z3(v) else z3.BoolVal(True)
            if name in ('operator->', 'operator*'):
                return v
            if name == 'use_count':
                return self.fresh_value(T.SIZE, 'uc', st)
        if isinstance(loc, Loc):
            v = self.read(loc, st)
        else:
            v = loc
        if name == 'operator bool' and is_z3(v):
            return v if v.sort() == B else v != 0
        if name.startswith('operator ') and is_z3(v):
            return v
        if isinstance(v, VecVal):
            return self.vec_method(name, v, loc, args, st, fr, n, bt)
        if isinstance(v, SetVal):
            return self.set_method(name, v, loc, args, st, fr, n)
        if isinstance(v, MapVal):
            return self.map_method(name, v, loc, args, st, fr, n)
        if k == 'str':
            return self.str_method(name, v, loc, args, st, fr, n)
        if isinstance(v, IterVal):
            if name == 'base':
                raise Unsupported('reverse_iterator::base')
            if name == 'operator->':
                return self.iter_deref(v, st, n, fr)
        if isinstance(v, Opaque) or (isinstance(v, StructVal) and v.ty[0] == 'dist'):
            if name in ('operator()',):
                return self.random_call(bt, [base], st, fr, n)
            return self.opaque_method(name, bt, loc, args, st, fr, n)
        raise Unsupported('method %s of %s' % (name, T.tname(bt)))

    def opaque_method(self, name, bt, loc, args, st, fr, n):
        ty = nty(n)
        if bt[0] == 'opaque' and bt[1] in ('mersenne_twister_engine', 'mt19937', 'random_device', 'uniform_int_distribution', 'uniform_real_distribution',
                                           'normal_distribution', 'time_point', 'duration', 'steady_clock', 'system_clock', 'high_resolution_clock', 'linear_congruential_engine', 'bernoulli_distribution'):
            return self.fresh_value(ty, 'rnd', st) if ty[0] not in ('opaque', 'void') else Opaque(ty)
        raise Unsupported('method %s of unmodelled %s' % (name, T.tname(bt)))

    def str_method(self, name, v, loc, args, st, fr, n):
        if name in ('c_str', 'data'):
            return v
        if name in ('size', 'length'):
            f = self.func_symbol('str_len', STRS, I)
            st.assume(f(v) >= 0)
            return f(v)
        if name == 'empty':
            return v == self.strlit('')
        if name == 'clear':
            self.write(loc, self.strlit(''), st)
            return Opaque()
        raise Unsupported('string method ' + name)

    def vec_push(self, loc, val, st):
        v = self.read(loc, st)
        val = self.convert(val, None, v.et) if v.et[0] in ('real', 'bool') else val
        self.write(loc, VecVal(v.et, simp(v.len + 1), z3.Store(v.arr, v.len, self.sorts.pack(val, v.et))), st)

    def shifted(self, v, fn, st, tag):
        A = fresh(tag, v.arr.sort()); k = z3.Int('k!' + tag)
        st.assume(FA([k], z3.Select(A, k) == fn(k), patterns=[z3.Select(A, k)]))
        return A

    def vec_method(self, name, v, loc, args, st, fr, n, bt):
        if name == 'size':
            return v.len
        if name == 'empty':
            return v.len == 0
        if name in ('begin', 'cbegin'):
            return IterVal(loc, iv(0))
        if name in ('end', 'cend'):
            return IterVal(loc, v.len)
        if name in ('rbegin', 'crbegin'):
            return IterVal(loc, iv(0), True)
        if name in ('rend', 'crend'):
            return IterVal(loc, v.len, True)
        if name == 'front':
            self.safe('front of non-empty vector', st, v.len > 0, n, fr)
            return loc.i(iv(0))
        if name == 'back':
            self.safe('back of non-empty vector', st, v.len > 0, n, fr)
            return loc.i(simp(v.len - 1))
        if name in ('at', 'operator[]'):
            i = self.ev(args[0], st, fr)
            self.safe('index in range', st, z3.And(0 <= i, i < v.len), n, fr)
            return loc.i(i)
        if name in ('push_back',):
            self.vec_push(loc, self.ev(args[0], st, fr), st)
            return Opaque()
        if name in ('emplace_back',):
            if v.et[0] in ('cls',):
                av = []
                for a in args:
                    x = self.argval(a, st, fr)
                    av.append(self.read(x.loc, st) if isinstance(x, RefVal) else x)
                val = av[0] if len(av) == 1 and isinstance(av[0], StructVal) and av[0].ty == v.et else self.construct(v.et, None, st, fr, None, n, argvals=av)
            elif v.et[0] in ('pair', 'tuple'):
                av = [self.ev(a, st, fr) for a in args]
                names = [x for x, _ in self.sorts.struct_fields(v.et)]
                tys = [t for _, t in self.sorts.struct_fields(v.et)]
                val = StructVal(v.et, {a: self.convert(b, None, t) for a, b, t in zip(names, av, tys)})
            elif v.et[0] == 'vec':
                raise Unsupported('emplace_back of vector')
            else:
                val = self.ev(args[0], st, fr) if args else self.zero_value(v.et, st)
            self.vec_push(loc, val, st)
            return loc.i(v.len)
        if name == 'pop_back':
            self.safe('pop_back of non-empty vector', st, v.len > 0, n, fr)
            self.write(loc, VecVal(v.et, simp(v.len - 1), v.arr), st)
            return Opaque()
        if name == 'clear':
            self.write(loc, VecVal(v.et, iv(0), v.arr), st)
            return Opaque()
        if name in ('reserve', 'shrink_to_fit'):
            return Opaque()
        if name == 'resize':
            m = self.ev(args[0], st, fr)
            if nty(args[0])[0] == 'int' and nty(args[0])[2]:
                m = self.convert(m, nty(args[0]), T.SIZE)
            d = self.convert(self.ev(args[1], st, fr), None, v.et) if len(args) > 1 else self.elem_default(v.et, st, fr)
            p = self.sorts.pack(d, v.et)
            if z3.is_int_value(simp(v.len)) and simp(v.len).as_long() == 0:
                A = z3.K(I, p)
            else:
                A = self.shifted(v, lambda k: z3.If(z3.And(k >= v.len, k < m), p, z3.Select(v.arr, k)), st, 'resize')
            self.write(loc, VecVal(v.et, m, A), st)
            return Opaque()
        if name == 'assign':
            t0 = nty(args[0])
            if t0[0] in ('iter', 'riter'):
                x, y = self.rng(args[0], args[1], st, fr)
                src = self.vec_of(x, st)
                A = fresh('assign', v.arr.sort()); k = z3.Int('k!as')
                st.assume(FA([k], z3.Implies(z3.And(0 <= k, k < y.idx - x.idx), z3.Select(A, k) == self.conv_el(z3.Select(src.arr, k + x.idx), src.et, v.et)), patterns=[z3.Select(A, k)]))
                self.write(loc, VecVal(v.et, simp(y.idx - x.idx), A), st)
                return Opaque()
            m = self.ev(args[0], st, fr)
            d = self.convert(self.ev(args[1], st, fr), None, v.et)
            self.write(loc, self.filled(v.et, m, d, st), st)
            return Opaque()
        if name == 'insert':
            pos = self.ev(args[0], st, fr)
            if not isinstance(pos, IterVal):
                raise Unsupported('vector insert position')
            self.safe('insert position in range', st, z3.And(0 <= pos.idx, pos.idx <= v.len), n, fr)
            if len(args) == 2 and nty(args[1])[0] != 'vec' or v.et[0] == 'vec' and len(args) == 2:
                x = self.sorts.pack(self.convert(self.ev(args[1], st, fr), None, v.et), v.et)
                if simp(pos.idx - v.len).eq(iv(0)) or simp(pos.idx).eq(simp(v.len)):
                    self.write(loc, VecVal(v.et, simp(v.len + 1), z3.Store(v.arr, v.len, x)), st)
                else:
                    A = self.shifted(v, lambda k: z3.If(k < pos.idx, z3.Select(v.arr, k), z3.If(k == pos.idx, x, z3.Select(v.arr, k - 1))), st, 'ins')
                    self.write(loc, VecVal(v.et, simp(v.len + 1), A), st)
                return IterVal(loc, pos.idx)
            if len(args) == 3:
                x, y = self.rng(args[1], args[2], st, fr)
                src = self.vec_of(x, st)
                cnt = simp(y.idx - x.idx)
                A = self.shifted(v, lambda k: z3.If(k < pos.idx, z3.Select(v.arr, k), z3.If(k < pos.idx + cnt, self.conv_el(z3.Select(src.arr, k - pos.idx + x.idx), src.et, v.et), z3.Select(v.arr, k - cnt))), st, 'insr')
                k = z3.Int('k!insr')
                st.assume(FA([k], z3.Implies(z3.And(x.idx <= k, k < y.idx), z3.Select(A, simp(pos.idx + k - x.idx)) == self.conv_el(z3.Select(src.arr, k), src.et, v.et)), patterns=[z3.Select(src.arr, k)]),
                          FA([k], z3.Implies(k < pos.idx, z3.Select(A, k) == z3.Select(v.arr, k)), patterns=[z3.Select(v.arr, k)]))
                self.write(loc, VecVal(v.et, simp(v.len + cnt), A), st)
                return IterVal(loc, pos.idx)
            raise Unsupported('vector insert form')
        if name == 'erase':
            pos = self.ev(args[0], st, fr)
            if len(args) == 1:
                self.safe('erase position in range', st, z3.And(0 <= pos.idx, pos.idx < v.len), n, fr)
                A = self.shifted(v, lambda k: z3.If(k < pos.idx, z3.Select(v.arr, k), z3.Select(v.arr, k + 1)), st, 'erase')
                self.write(loc, VecVal(v.et, simp(v.len - 1), A), st)
                return IterVal(loc, pos.idx)
            y = self.ev(args[1], st, fr)
            self.safe('erase range valid', st, z3.And(0 <= pos.idx, pos.idx <= y.idx, y.idx <= v.len), n, fr)
            cnt = y.idx - pos.idx
            A = self.shifted(v, lambda k: z3.If(k < pos.idx, z3.Select(v.arr, k), z3.Select(v.arr, k + cnt)), st, 'eraser')
            self.write(loc, VecVal(v.et, simp(v.len - cnt), A), st)
            return IterVal(loc, pos.idx)
        if name == 'swap':
            o = self.lv(args[0], st, fr)
            w = self.read(o, st)
            self.write(loc, w, st); self.write(o, v, st)
            return Opaque()
        if name == 'operator=':
            x = self.ev(args[0], st, fr)
            self.write(loc, x, st)
            return loc
        if name == 'data':
            raise Unsupported('vector::data')
        raise Unsupported('vector method ' + name)

    # ------------------------------------------------------------ sets and maps
    def set_method(self, name, v, loc, args, st, fr, n):
        if name == 'size':
            return v.len
        if name == 'empty':
            return v.len == 0
        if name == 'clear':
            self.write(loc, SetVal(v.kt, z3.K(self.sorts.sort(v.kt), z3.BoolVal(False)), iv(0)), st)
            return Opaque()
        if name in ('insert', 'emplace'):
            x = self.convert(self.ev(args[0], st, fr), None, v.kt)
            pres = z3.Select(v.dom, x)
            self.write(loc, SetVal(v.kt, z3.Store(v.dom, x, z3.BoolVal(True)), z3.If(pres, v.len, v.len + 1)), st)
            return Opaque()
        if name == 'find':
            x = self.convert(self.ev(args[0], st, fr), None, v.kt)
            return MapIterVal(loc, x, z3.Select(v.dom, x))
        if name in ('end', 'cend'):
            return MapIterVal(loc, fresh('endk', self.sorts.sort(v.kt)), z3.BoolVal(False))
        if name == 'count':
            x = self.convert(self.ev(args[0], st, fr), None, v.kt)
            return z3.If(z3.Select(v.dom, x), iv(1), iv(0))
        if name == 'erase':
            x = self.convert(self.ev(args[0], st, fr), None, v.kt)
            if not is_z3(x):
                raise Unsupported('set erase by iterator')
            pres = z3.Select(v.dom, x)
            self.write(loc, SetVal(v.kt, z3.Store(v.dom, x, z3.BoolVal(False)), z3.If(pres, v.len - 1, v.len)), st)
            return z3.If(pres, iv(1), iv(0))
        raise Unsupported('set method ' + name)

    def map_method(self, name, v, loc, args, st, fr, n):
        if name == 'size':
            return v.len
        if name == 'empty':
            return v.len == 0
        if name == 'find':
            x = self.convert(self.ev(args[0], st, fr), None, v.kt)
            return MapIterVal(loc, x, z3.Select(v.dom, x))
        if name in ('end', 'cend'):
            return MapIterVal(loc, fresh('endk', self.sorts.sort(v.kt)), z3.BoolVal(False))
        if name == 'count':
            x = self.convert(self.ev(args[0], st, fr), None, v.kt)
            return z3.If(z3.Select(v.dom, x), iv(1), iv(0))
        if name == 'at':
            x = self.convert(self.ev(args[0], st, fr), None, v.kt)
            self.safe('map::at key present', st, z3.Select(v.dom, x), n, fr)
            return Loc(loc.root, loc.path + (('k', x),))
        if name in ('insert', 'emplace'):
            if len(args) == 2:
                kx, vx = self.ev(args[0], st, fr), self.ev(args[1], st, fr)
            else:
                p = self.ev(args[0], st, fr)
                if not isinstance(p, StructVal):
                    raise Unsupported('map insert')
                kx, vx = p.f['first'], p.f['second']
            kx = self.convert(kx, None, v.kt)
            pv = self.sorts.pack(self.convert(vx, None, v.vt), v.vt)
            pres = z3.Select(v.dom, kx)
            self.write(loc, MapVal(v.kt, v.vt, z3.Store(v.dom, kx, z3.BoolVal(True)), z3.If(pres, v.val, z3.Store(v.val, kx, pv)), z3.If(pres, v.len, v.len + 1)), st)
            return Opaque()
        raise Unsupported('map method ' + name)
