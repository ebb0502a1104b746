"""Values, sorts, state, merging, folds."""
import z3, itertools
from . import ctypes_ as T

z3.set_param('model.completion', True)


class Unsupported(Exception):
    """construct outside the verifier's reach (a tool limit, never a verdict)"""


I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
STRS = z3.DeclareSort('Str')
_ctr = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def simp(e):
    return z3.simplify(e)


def iv(n):
    return z3.IntVal(n)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


# ---------------------------------------------------------------- values
class VecVal:
    __slots__ = ('et', 'len', 'arr')

    def __init__(self, et, ln, arr):
        self.et = et; self.len = ln; self.arr = arr

    def __repr__(self):
        return 'Vec[%s](len=%s, %s)' % (T.tname(self.et), self.len, self.arr)


class StructVal:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty; self.f = f

    def with_(self, name, v):
        d = dict(self.f); d[name] = v
        return StructVal(self.ty, d)

    def __repr__(self):
        return 'Struct %s%s' % (T.tname(self.ty), self.f)


class SetVal:
    """std::set<K>: membership array + size"""
    __slots__ = ('kt', 'dom', 'len')

    def __init__(self, kt, dom, ln):
        self.kt = kt; self.dom = dom; self.len = ln


class MapVal:
    __slots__ = ('kt', 'vt', 'dom', 'val', 'len')

    def __init__(self, kt, vt, dom, val, ln):
        self.kt = kt; self.vt = vt; self.dom = dom; self.val = val; self.len = ln


class IterVal:
    __slots__ = ('loc', 'idx', 'rev')

    def __init__(self, loc, idx, rev=False):
        self.loc = loc; self.idx = idx; self.rev = rev


class MapIterVal:
    """iterator into a set/map found by key; end when not valid"""
    __slots__ = ('loc', 'key', 'valid')

    def __init__(self, loc, key, valid):
        self.loc = loc; self.key = key; self.valid = valid


class Loc:
    """lvalue: root ('v',key) | ('h',cls,ref) ; path of ('f',name) / ('i',idx) / ('k',key)"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root; self.path = tuple(path)

    def f(self, name):
        return Loc(self.root, self.path + (('f', name),))

    def i(self, idx):
        return Loc(self.root, self.path + (('i', idx),))

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)


class RefVal:
    """store entry of a variable of reference type"""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class ClosureVal:
    __slots__ = ('func', 'env', 'this', 'node')

    def __init__(self, func, env, this, node):
        self.func = func; self.env = env; self.this = this; self.node = node


class PyFunc:
    """symbolic std::function parameter: fn(engine, st, args)->value"""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Opaque:
    __slots__ = ('ty',)

    def __init__(self, ty=None):
        self.ty = ty

    def __repr__(self):
        return 'Opaque(%s)' % (self.ty,)


# ---------------------------------------------------------------- sorts
class Sorts:
    def __init__(self, ast):
        self.ast = ast
        self.cache = {}
        self.dt = {}       # datatype key -> (sort, fieldnames, fieldtypes)

    def packable(self, ty):
        try:
            self.sort(ty)
            return True
        except Unsupported:
            return False

    def sort(self, ty):
        s = self.cache.get(ty)
        if s is not None:
            return s
        s = self._sort(ty)
        self.cache[ty] = s
        return s

    def _sort(self, ty):
        k = ty[0]
        if k == 'int':
            return I
        if k == 'real':
            return R
        if k == 'bool':
            return B
        if k == 'str':
            return STRS
        if k == 'ptr':
            return I
        if k == 'vec':
            es = self.sort(ty[1])
            d = z3.Datatype('Vec_' + T.tname(ty[1]))
            d.declare('mkv_' + T.tname(ty[1]), ('len_' + T.tname(ty[1]), I), ('arr_' + T.tname(ty[1]), z3.ArraySort(I, es)))
            return d.create()
        if k == 'pair':
            d = z3.Datatype('Pair_' + T.tname(ty))
            d.declare('mk_' + T.tname(ty), ('first_' + T.tname(ty), self.sort(ty[1])), ('second_' + T.tname(ty), self.sort(ty[2])))
            return d.create()
        if k == 'tuple':
            d = z3.Datatype('Tup_' + T.tname(ty))
            d.declare('mk_' + T.tname(ty), *[('t%d_%s' % (i, T.tname(ty)), self.sort(x)) for i, x in enumerate(ty[1:])])
            return d.create()
        if k == 'cls':
            fs = self.struct_fields(ty)
            if not fs:
                raise Unsupported('no packable fields in %s' % T.tname(ty))
            d = z3.Datatype('S_' + T.tname(ty))
            d.declare('mk_' + T.tname(ty), *[('%s_%s' % (n, T.tname(ty)), self.sort(t)) for n, t in fs])
            return d.create()
        if k == 'set':
            ks = self.sort(ty[1])
            d = z3.Datatype('Set_' + T.tname(ty[1]))
            d.declare('mks_' + T.tname(ty[1]), ('sdom_' + T.tname(ty[1]), z3.ArraySort(ks, B)), ('slen_' + T.tname(ty[1]), I))
            return d.create()
        if k == 'map':
            ks, vs = self.sort(ty[1]), self.sort(ty[2])
            d = z3.Datatype('Map_' + T.tname(ty))
            d.declare('mkm_' + T.tname(ty), ('mdom_' + T.tname(ty), z3.ArraySort(ks, B)), ('mval_' + T.tname(ty), z3.ArraySort(ks, vs)), ('mlen_' + T.tname(ty), I))
            return d.create()
        raise Unsupported('no sort for type %s' % (ty,))

    def struct_fields(self, ty):
        if ty[0] == 'pair':
            return [('first', ty[1]), ('second', ty[2])]
        if ty[0] == 'tuple':
            return [('t%d' % i, x) for i, x in enumerate(ty[1:])]
        out = []
        for n, ts, fd in self.ast.all_fields(ty):
            if T.is_ref(ts):
                continue
            t = T.parse(ts)
            if self.packable(t):
                out.append((n, t))
        return out

    # packing python level values <-> terms
    def pack(self, v, ty):
        s = self.sort(ty)
        if is_z3(v):
            if v.sort() == s:
                return v
            if s == R and v.sort() == I:
                return z3.ToReal(v)
            raise Unsupported('pack %s as %s' % (v.sort(), s))
        if isinstance(v, VecVal):
            return s.constructor(0)(v.len, v.arr)
        if isinstance(v, SetVal):
            return s.constructor(0)(v.dom, v.len)
        if isinstance(v, MapVal):
            return s.constructor(0)(v.dom, v.val, v.len)
        if isinstance(v, StructVal):
            fs = self.struct_fields(ty)
            args = []
            for n, t in fs:
                x = v.f.get(n)
                if x is None or isinstance(x, Opaque):
                    args.append(fresh('opq', self.sort(t)))
                else:
                    args.append(self.pack(x, t))
            return s.constructor(0)(*args)
        raise Unsupported('cannot pack %r' % (v,))

    def acc(self, term, i):
        s = term.sort()
        if z3.is_app(term) and term.num_args() == s.constructor(0).arity() and term.decl().eq(s.constructor(0)):
            return term.arg(i)
        return s.accessor(0, i)(term)

    def unpack(self, term, ty):
        k = ty[0]
        if k == 'vec':
            self.sort(ty)
            if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE and False:
                pass
            return VecVal(ty[1], self.acc(term, 0), self.acc(term, 1))
        if k == 'set':
            return SetVal(ty[1], self.acc(term, 0), self.acc(term, 1))
        if k == 'map':
            return MapVal(ty[1], ty[2], self.acc(term, 0), self.acc(term, 1), self.acc(term, 2))
        if k in ('cls', 'pair', 'tuple'):
            fs = self.struct_fields(ty)
            return StructVal(ty, {n: self.unpack(self.acc(term, i), t) for i, (n, t) in enumerate(fs)})
        return term


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('store', 'heap', 'alloc', 'guards', 'facts', 'ghost')

    def __init__(self):
        self.store = {}; self.heap = {}; self.alloc = None; self.guards = []; self.facts = []; self.ghost = {}

    def copy(self):
        s = State()
        s.store = dict(self.store); s.heap = dict(self.heap); s.alloc = self.alloc
        s.guards = list(self.guards); s.facts = list(self.facts); s.ghost = dict(self.ghost)
        return s

    def assign(self, o):
        self.store = o.store; self.heap = o.heap; self.alloc = o.alloc; self.guards = o.guards; self.facts = o.facts; self.ghost = o.ghost

    def assume(self, *fs):
        for f in fs:
            if f is True:
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            self.facts.append(f)

    def hyps(self):
        return self.facts + self.guards


def same(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, VecVal):
        return a.et == b.et and a.len.eq(b.len) and a.arr.eq(b.arr)
    if isinstance(a, SetVal):
        return a.dom.eq(b.dom) and a.len.eq(b.len)
    if isinstance(a, MapVal):
        return a.dom.eq(b.dom) and a.len.eq(b.len) and a.val.eq(b.val)
    if isinstance(a, StructVal):
        return a.ty == b.ty and set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, IterVal):
        return same(a.loc, b.loc) and a.idx.eq(b.idx) and a.rev == b.rev
    if isinstance(a, MapIterVal):
        return same(a.loc, b.loc) and a.key.eq(b.key) and a.valid.eq(b.valid)
    if isinstance(a, Loc):
        return _same_root(a.root, b.root) and len(a.path) == len(b.path) and all(_same_step(p, q) for p, q in zip(a.path, b.path))
    if isinstance(a, RefVal):
        return same(a.loc, b.loc)
    if isinstance(a, Opaque):
        return True
    if isinstance(a, ClosureVal):
        return a.func is b.func and a.env == b.env
    if isinstance(a, (str, int, float)):
        return a == b
    return False


def _same_root(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'v':
        return a[1] == b[1]
    return a[1] == b[1] and a[2].eq(b[2])


def _same_step(p, q):
    if p[0] != q[0]:
        return False
    if p[0] == 'f':
        return p[1] == q[1]
    return p[1].eq(q[1])


def ite(c, a, b):
    if same(a, b):
        return a
    if is_z3(a) and is_z3(b):
        if a.sort() != b.sort():
            if a.sort() == R and b.sort() == I:
                b = z3.ToReal(b)
            elif a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            else:
                raise Unsupported('merge of different sorts')
        return z3.If(c, a, b)
    if type(a) is not type(b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    if isinstance(a, VecVal):
        return VecVal(a.et, ite(c, a.len, b.len), ite(c, a.arr, b.arr))
    if isinstance(a, SetVal):
        return SetVal(a.kt, ite(c, a.dom, b.dom), ite(c, a.len, b.len))
    if isinstance(a, MapVal):
        return MapVal(a.kt, a.vt, ite(c, a.dom, b.dom), ite(c, a.val, b.val), ite(c, a.len, b.len))
    if isinstance(a, StructVal):
        return StructVal(a.ty, {k: ite(c, a.f[k], b.f[k]) for k in a.f if k in b.f})
    if isinstance(a, IterVal):
        return IterVal(ite(c, a.loc, b.loc), ite(c, a.idx, b.idx), a.rev)
    if isinstance(a, MapIterVal):
        return MapIterVal(ite(c, a.loc, b.loc), ite(c, a.key, b.key), ite(c, a.valid, b.valid))
    if isinstance(a, RefVal):
        return RefVal(ite(c, a.loc, b.loc))
    if isinstance(a, Loc):
        if a.root[0] == 'h' and b.root[0] == 'h' and a.root[1] == b.root[1]:
            root = ('h', a.root[1], ite(c, a.root[2], b.root[2]))
        elif _same_root(a.root, b.root):
            root = a.root
        else:
            raise Unsupported('merge of references to different objects')
        if len(a.path) != len(b.path):
            raise Unsupported('merge of references with different paths')
        path = []
        for p, q in zip(a.path, b.path):
            if p[0] != q[0]:
                raise Unsupported('merge of references with different paths')
            if p[0] == 'f':
                if p[1] != q[1]:
                    raise Unsupported('merge of references with different fields')
                path.append(p)
            else:
                path.append((p[0], ite(c, p[1], q[1])))
        return Loc(root, path)
    raise Unsupported('cannot merge values of kind %s' % type(a).__name__)


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return z3.BoolVal(True)
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def merge_states(engine, c, s1, s2, nfacts):
    """states s1 (under c) and s2 (under not c), both derived from a state with nfacts facts."""
    m = State()
    keep = [k for k in s1.store if k in s2.store]
    for k in keep:
        try:
            m.store[k] = ite(c, s1.store[k], s2.store[k])
        except Unsupported as e:
            m.store[k] = Unmergeable(str(e))
    for k in set(s1.heap) | set(s2.heap):
        a = s1.heap.get(k); b = s2.heap.get(k)
        if a is None:
            a = engine.heap0(*k)
        if b is None:
            b = engine.heap0(*k)
        m.heap[k] = ite(c, a, b)
    m.alloc = ite(c, s1.alloc, s2.alloc)
    for k in s1.ghost:
        if k in s2.ghost:
            m.ghost[k] = ite(c, s1.ghost[k], s2.ghost[k])
    m.facts = s1.facts[:nfacts]
    m.facts += [z3.Implies(c, f) for f in s1.facts[nfacts:]]
    nc = z3.Not(c)
    m.facts += [z3.Implies(nc, f) for f in s2.facts[nfacts:]]
    return m


class Unmergeable:
    def __init__(self, why):
        self.why = why


# ---------------------------------------------------------------- folds (recursively defined spec functions)
_PATBAD = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT}


def good_pattern(t, vs):
    """a legal trigger: an application below which every bound variable occurs, free of logical connectives"""
    if not z3.is_app(t) or t.num_args() == 0 or t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_STORE, z3.Z3_OP_TO_REAL):
        return False
    seen = set(); ids = {v.get_id() for v in vs}; found = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            found.add(i)
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() in _PATBAD:
                return False
            st.extend(x.children())
    return found == ids


def FA(vs, body, patterns=None):
    """forall with optional triggers; triggers the solver would not accept are left out"""
    ps = [p for p in (patterns or []) if isinstance(p, z3.PatternRef) or good_pattern(p, vs)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


BOUNDS = z3.Int('!bounds')      # marker among the split hints: also use the sign axioms of real sums


class Folds:
    """fold(lo,hi,init,g) = g(..g(g(init,lo),lo+1)..,hi-1).  Represented by one uninterpreted function per *shape* of g whose
    parameters are the maximal k-free subterms of g; its defining equations are instantiated on ground applications."""

    def __init__(self):
        self.shapes = {}
        self.byname = {}
        self.depth = 0
        self.splits = []          # positions at which sums are split (hints of the specification)

    def fold(self, lo, hi, init, g, sort=None):
        sort = sort if sort is not None else init.sort()
        if init.sort() != sort:
            init = z3.ToReal(init)
        sfx = '' if self.depth == 0 else '!%d' % self.depth           # folds nested in the body must not capture the variables of this one
        A = z3.Const('A!acc' + sfx, sort); K = z3.Const('K!idx' + sfx, I)
        self.depth += 1
        try:
            body = g(A, K)
        finally:
            self.depth -= 1
        if body.sort() != sort and sort == R:
            body = z3.ToReal(body)
        if sfx:
            A2 = z3.Const('A!acc', sort); K2 = z3.Const('K!idx', I)
            O = z3.Const('K!out', I); Q = z3.Const('A!out', sort)
            # the variables of the enclosing fold become parameters
            t = self.fold_body(lo, hi, init, z3.substitute(body, (K2, O), (A2, Q), (K, K2), (A, A2)), A2, K2)
            return z3.substitute(t, (O, K2), (Q, A2))
        return self.fold_body(lo, hi, init, body, A, K)

    def fold_body(self, lo, hi, init, body, A, K):
        sort = init.sort()
        body = norm(body)
        if sort in (I, R) and not self.is_zero(init):
            # a sum that starts from init is init plus the sum that starts from zero
            zero = z3.RealVal(0) if sort == R else iv(0)
            if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and self.occurs(body, A):
                # if c then A + x else A
                g = self.addend(body, A, zero)
                if g is not None:
                    return init + self.fold_body(lo, hi, zero, norm(A + g), A, K)
            if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ADD:
                ch = body.children()
                own = [c for c in ch if c.eq(A)]; rest = [c for c in ch if not c.eq(A)]
                if len(own) == 1 and not any(self.occurs(c, A) for c in rest):
                    return init + self.fold_body(lo, hi, zero, body, A, K)
        params = []
        pmap = {}
        memo = {}

        def has(t):
            i = t.get_id()
            if i in memo:
                return memo[i]
            if t.eq(A) or t.eq(K):
                r = True
            elif z3.is_quantifier(t):
                r = has(t.body())
            else:
                r = any(has(c) for c in t.children())
            memo[i] = r
            return r
        cm = {}

        def canon(t):
            i = t.get_id()
            if i in cm:
                return cm[i]
            if not has(t):
                if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                    r = t
                else:
                    j = pmap.get(i)
                    if j is None:
                        j = len(params); pmap[i] = j; params.append(t)
                    r = z3.Const('P!%d' % j, t.sort())
            elif t.eq(A) or t.eq(K):
                r = t
            elif z3.is_quantifier(t):
                raise Unsupported('quantifier inside fold body')
            else:
                ch = [canon(c) for c in t.children()]
                r = rebuild(t, ch)
            cm[i] = r
            return r
        shape = canon(body)
        key = (shape.sexpr(), str(sort), tuple(str(p.sort()) for p in params))
        s = self.shapes.get(key)
        if s is None:
            name = 'fold%d' % len(self.shapes)
            fn = z3.Function(name, *([p.sort() for p in params] + [I, I, sort] + [sort]))
            s = (fn, shape, [z3.Const('P!%d' % j, p.sort()) for j, p in enumerate(params)], A, K)
            self.shapes[key] = s
            self.byname[name] = s
        return s[0](*(params + [lo, hi, init]))

    def addend(self, t, A, zero):
        """g with t = A + g, g without A"""
        if t.eq(A):
            return zero
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not self.occurs(t.arg(0), A):
            a, b = self.addend(t.arg(1), A, zero), self.addend(t.arg(2), A, zero)
            return None if a is None or b is None else z3.If(t.arg(0), a, b)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
            own = [c for c in t.children() if self.occurs(c, A)]
            if len(own) == 1:
                g = self.addend(own[0], A, zero)
                if g is not None:
                    return z3.Sum([g] + [c for c in t.children() if not c.eq(own[0])])
        return None

    def is_zero(self, t):
        return (z3.is_int_value(t) or z3.is_rational_value(t)) and str(t) == '0'

    def occurs(self, t, A):
        if t.eq(A):
            return True
        if z3.is_quantifier(t):
            return self.occurs(t.body(), A)
        return any(self.occurs(c, A) for c in t.children())

    def sum(self, lo, hi, e, sort=None):
        K = z3.Const('K!probe', I)
        srt = sort if sort is not None else e(K).sort()
        if srt == B:
            e0 = e; e = lambda k: z3.If(e0(k), iv(1), iv(0)); srt = I
        zero = z3.RealVal(0) if srt == R else iv(0)
        return self.fold(lo, hi, zero, lambda a, k: a + e(k), srt)

    def count(self, lo, hi, p):
        return self.sum(lo, hi, lambda k: z3.If(p(k), iv(1), iv(0)), I)

    def is_app(self, t):
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.byname

    def parts(self, t):
        fn, shape, ps, A, K = self.byname[t.decl().name()]
        n = t.num_args()
        args = [t.arg(i) for i in range(n)]
        actual, lo, hi, init = args[:n - 3], args[n - 3], args[n - 2], args[n - 1]
        body = z3.substitute(shape, *[(p, a) for p, a in zip(ps, actual)]) if ps else shape
        # nested P! names from shape of nested folds are inside their own UF args, no clash since those are real terms
        return body, lo, hi, init, A, K

    def unfold_axiom(self, t):
        body, lo, hi, init, A, K = self.parts(t)
        fn = t.decl()
        n = t.num_args()
        args = [t.arg(i) for i in range(n)]
        prevargs = list(args); prevargs[n - 2] = simp(hi - 1)
        prev = fn(*prevargs)
        step = z3.substitute(body, (A, prev), (K, simp(hi - 1)))
        return [z3.Implies(hi <= lo, t == init), z3.Implies(hi > lo, t == step)]

    def ext_axiom(self, s, t):
        if s.sort() != t.sort():
            return []
        b1, lo1, hi1, in1, A, K = self.parts(s)
        b2, lo2, hi2, in2, A2, K2 = self.parts(t)
        a = fresh('ska', A.sort()); k = fresh('sk', I)
        e1 = z3.substitute(b1, (A, a), (K, simp(lo1 + k)))
        e2 = z3.substitute(b2, (A2, a), (K2, simp(lo2 + k)))
        return [z3.Or(s == t, in1 != in2, z3.And(hi1 - lo1 != hi2 - lo2, z3.Or(hi1 > lo1, hi2 > lo2)), z3.And(k >= 0, k < hi1 - lo1, e1 != e2))]

    def sum_term(self, t):
        """(e, lo, hi, init, K) when the fold is a sum init + e(lo) + .. + e(hi-1); None otherwise"""
        body, lo, hi, init, A, K = self.parts(t)
        if body.sort() == B or not z3.is_arith(body):
            return None
        zero = z3.RealVal(0) if body.sort() == R else iv(0)
        e = z3.simplify(body - A)
        if occurs(e, A):
            e0 = z3.simplify(z3.substitute(body, (A, zero)))
            one = z3.RealVal(1) if body.sort() == R else iv(1)
            e1 = z3.simplify(z3.substitute(body, (A, one)))
            if not ite_shift(body, A):
                return None
            e = e0
        return e, lo, hi, init, K

    def split_axiom(self, t, m):
        """lo <= m < hi: sum(lo,hi) = sum(lo,m) + e(m) + sum(m+1,hi)   (induction on hi; see item 'counting lemmas')"""
        st = self.sum_term(t)
        if st is None:
            return []
        e, lo, hi, init, K = st
        n = t.num_args(); args = [t.arg(i) for i in range(n)]
        a1 = list(args); a1[n - 2] = m
        a2 = list(args); a2[n - 3] = simp(m + 1); a2[n - 1] = z3.RealVal(0) if t.sort() == R else iv(0)
        fn = t.decl()
        return [z3.Implies(z3.And(lo <= m, m < hi), t == fn(*a1) + z3.substitute(e, (K, m)) + fn(*a2))]

    def sign_axioms(self, t):
        """real sums (inductions over the range; see lemma item 'counting lemmas'): a sum below its initial value has a negative term,
        one different from it a non-zero term, and a positive term lifts the sum above it unless another one is negative"""
        if t.sort() != R:
            return []
        st = self.sum_term(t)
        if st is None:
            return []
        e, lo, hi, init, K = st
        w = fresh('sw', I); u = fresh('su', I); k = z3.Int('k!cnt')
        at = lambda x: z3.substitute(e, (K, x))
        pats = []
        sel_terms(at(k), k, pats)
        r = lambda x: z3.And(x >= lo, x < hi)
        return [z3.Or(t >= init, z3.And(r(w), at(w) < 0)), z3.Or(t == init, z3.And(r(u), at(u) != 0)),
                FA([k], z3.Implies(z3.And(r(k), at(k) > 0), z3.Or(t > init, z3.And(r(w), at(w) < 0))), pats[:1])]

    def mono_axiom(self, s, t):
        """same range: s - init_s <= t - init_t unless some term of s is greater than that of t"""
        if s.sort() != R or t.sort() != R:
            return []
        a, b = self.sum_term(s), self.sum_term(t)
        if a is None or b is None:
            return []
        w = fresh('mw', I)
        e1, lo1, hi1, in1, K1 = a; e2, lo2, hi2, in2, K2 = b
        at = lambda e, K, x: z3.substitute(e, (K, x))
        return [z3.Or(lo1 != lo2, hi1 != hi2, s - in1 <= t - in2, z3.And(w >= lo1, w < hi1, at(e1, K1, w) > at(e2, K2, w)))]

    def count_axioms(self, t):
        """sums of indicator terms (each an induction over the range; see lemma item 'counting lemmas'):
        init <= count <= init + length; count == init unless some k in range satisfies the condition; a hit makes it positive"""
        if t.sort() != I:
            return []
        st = self.sum_term(t)
        if st is None:
            return []
        e, lo, hi, init, K = st
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):
            return []
        c, x, y = e.children()
        if z3.is_int_value(x) and z3.is_int_value(y) and x.as_long() == 0 and y.as_long() == 1:
            c = z3.Not(c)
        elif not (z3.is_int_value(x) and z3.is_int_value(y) and x.as_long() == 1 and y.as_long() == 0):
            return []
        w = fresh('cw', I)
        k = z3.Int('k!cnt')
        ck = z3.substitute(c, (K, k))
        pats = []
        sel_terms(ck, k, pats)
        return [t >= init, z3.Implies(hi >= lo, t <= init + (hi - lo)), z3.Implies(hi <= lo, t == init),
                z3.Or(t == init, z3.And(w >= lo, w < hi, z3.substitute(c, (K, w)))),
                FA([k], z3.Implies(z3.And(k >= lo, k < hi, ck), t >= init + 1), pats[:1])]


def occurs(t, x):
    st = [t]; seen = set(); xi = x.get_id()
    while st:
        y = st.pop(); i = y.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == xi:
            return True
        st.extend(y.children())
    return False


def ite_shift(t, A):
    """t = A + (something without A) on every if-branch"""
    if t.eq(A):
        return True
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return not occurs(t.arg(0), A) and ite_shift(t.arg(1), A) and ite_shift(t.arg(2), A)
        if k == z3.Z3_OP_ADD:
            n = [c for c in t.children() if occurs(c, A)]
            return len(n) == 1 and ite_shift(n[0], A)
    return False


def sel_terms(t, k, out):
    """innermost applications usable as trigger for k"""
    if z3.is_app(t):
        for c in t.children():
            sel_terms(c, k, out)
        if t.num_args() and any(c.eq(k) for c in t.children()) and good_pattern(t, [k]):
            out.append(t)


def rebuild(t, ch):
    d = t.decl()
    k = d.kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_MUL:
        return z3.Product(*ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return d(*ch)


def norm(t):
    """cheap normal form so that equal-up-to-arithmetic terms get the same shape (sound: z3 simplify is equivalence preserving)"""
    return z3.simplify(t, som=False, arith_lhs=False, blast_distinct=False, elim_ite=True, flat=True, sort_sums=False, mul_to_power=False, hoist_ite=False)


def neg(c):
    return c.arg(0) if z3.is_not(c) else z3.Not(c)
