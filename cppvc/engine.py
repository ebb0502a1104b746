"""Forward symbolic execution of instantiated function bodies with contracts; generates proof obligations."""
import z3, re, time
from . import ctypes_ as T
from .core import *
from . import solve
from .astdb import ExtractError

TWO64 = 2 ** 64


class Frame:
    __slots__ = ('vars', 'this', 'func', 'depth', 'this_cls')

    def __init__(self, func, depth, this=None):
        self.vars = {}; self.this = this; self.func = func; self.depth = depth; self.this_cls = func.cls if func is not None else None


class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'where', 'kind', 'tune')

    def __init__(self, name, hyps, goal, where, kind, tune=None):
        self.tune = tune or ([], list(solve.OFFSETS), list(solve.HINTS))        # proof hints: (split positions, offsets, terms)
        self.name = name; self.hyps = hyps; self.goal = goal; self.where = where; self.kind = kind


SKIP_EXPR = ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXStdInitializerListExpr', 'FullExpr')


def nty(n):
    t = n.get('type', {})
    return T.parse(t.get('desugaredQualType', t.get('qualType', 'void')))


def inner(n):
    return [c for c in n.get('inner', []) if c]


from .stl import StlMixin
from .loops import LoopMixin


class Engine(StlMixin, LoopMixin):
    MAXDEPTH = 24

    def __init__(self, ast, contracts=None, quick_timeout=1.0):
        self.ast = ast
        self.sorts = Sorts(ast)
        self.folds = Folds()
        self.contracts = contracts or {}
        self.obls = []
        self.record = True          # record obligations (off during probing)
        self.axioms = []
        self.heap_init = {}
        self.uf = {}
        self.strlits = {}
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.loops_seen = {}
        self.loop_templates = []
        self.call_hooks = {}
        self.quick_timeout = quick_timeout
        self.nvar = 0
        self.cand_hook = None
        self.deadline = None
        self.loop_log = []
        self.frame_info = {}
        self.globals = {}
        self.safety = True
        self.class_consts = {}
        self.const_cache = {}

    # ------------------------------------------------------------ misc
    def func_symbol(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        f = self.uf.get(k)
        if f is None:
            f = z3.Function('m_' + name if name in ('sqrt', 'exp', 'log', 'pow', 'sin', 'cos', 'tan') else name, *sorts)
            self.uf[k] = f
            self._uf_axioms(name, f)
        return f

    def _uf_axioms(self, name, f):
        x = z3.Real('x!ax')
        if name == 'sqrt':
            self.axioms.append(FA([x], z3.Implies(x >= 0, z3.And(f(x) >= 0, f(x) * f(x) == x, z3.Implies(x > 0, f(x) > 0), z3.Implies(x == 0, f(x) == 0))), patterns=[f(x)]))
            self.assumptions.add('sqrt: mathematical square root on non-negative reals')
        elif name == 'log':
            self.axioms.append(f(z3.RealVal(1)) == 0)
            self.axioms.append(FA([x], z3.And(z3.Implies(x >= 1, f(x) >= 0), z3.Implies(x > 1, f(x) > 0)), patterns=[f(x)]))
        elif name == 'exp':
            self.axioms.append(FA([x], f(x) > 0, patterns=[f(x)]))
        elif name == 'pow':
            y = z3.Real('y!ax')
            self.axioms.append(FA([x, y], z3.Implies(x >= 0, f(x, y) >= 0), patterns=[f(x, y)]))
            self.axioms.append(FA([x], f(x, z3.RealVal(1)) == x, patterns=[f(x, z3.RealVal(1))]))
        elif name == 'trunc':
            t = z3.ToReal(f(x)); i = z3.Int('i!ax')
            self.axioms.append(FA([x], z3.And(z3.Implies(x >= 0, z3.And(t <= x, x < t + 1)), z3.Implies(x <= 0, z3.And(t >= x, x > t - 1))), patterns=[f(x)]))
            self.axioms.append(FA([i], f(z3.ToReal(i)) == i, patterns=[f(z3.ToReal(i))]))
        elif name == 'floor':
            t = z3.ToReal(f(x))
            self.axioms.append(FA([x], z3.And(t <= x, x < t + 1), patterns=[f(x)]))
        elif name == 'ceil':
            t = z3.ToReal(f(x))
            self.axioms.append(FA([x], z3.And(t >= x, x > t - 1), patterns=[f(x)]))
        elif name == 'to_string_int':
            inv = z3.Function('to_string_int_inv', STRS, I)
            i = z3.Int('i!ax')
            self.axioms.append(FA([i], inv(f(i)) == i, patterns=[f(i)]))
            self.assumptions.add('std::to_string(int) is injective')

    def const(self, name, sort, *axs):
        c = self.uf.get(('const', name))
        if c is None:
            c = z3.Const(name, sort)
            self.uf[('const', name)] = c
            for a in axs:
                self.axioms.append(a(c))
        return c

    def strlit(self, s):
        c = self.strlits.get(s)
        if c is None:
            c = z3.Const('str!%d!%s' % (len(self.strlits), re.sub(r'\W', '_', s)[:20]), STRS)
            for o in self.strlits.values():
                self.axioms.append(o != c)
            self.strlits[s] = c
        return c

    def newkey(self, name):
        self.nvar += 1
        return '%s#%d' % (name, self.nvar)

    def where(self, n, fr=None):
        f = fr.func if fr is not None else None
        nm = (f.cls[1] + '::' if f is not None and f.cls and len(f.cls) > 1 else '') + (f.name if f is not None else '')
        file = (n or {}).get('_file') or ''
        return '%s:%s (%s)' % (file.split('/')[-1], (n or {}).get('_line'), nm)

    def oblige(self, name, st, goal, n=None, fr=None, kind='assert'):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.record:
            return
        g = z3.simplify(goal)
        if z3.is_true(g) and kind in ('safety', 'pre'):
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        self.obls.append(Obl(name, st.hyps(), goal, self.where(n, fr), kind))

    def safe(self, name, st, goal, n, fr):
        """memory-safety obligation; assumed afterwards (each is checked on its own)"""
        if self.safety:
            self.oblige(name, st, goal, n, fr, 'safety')

    def dead(self, st, c):
        """provably unreachable: the hypotheses exclude c"""
        return not solve.consistent(self.folds, self.axioms, st.hyps() + [c], 0.15)

    def feasible(self, st):
        return solve.consistent(self.folds, self.axioms, st.hyps(), 1.0)

    # ------------------------------------------------------------ heap / locations
    def field_owner(self, cls, name):
        for n, ts, fd in self.ast.all_fields(cls):
            if n == name:
                return fd['_cls'], T.parse(ts)
        raise Unsupported('no field %s in %s' % (name, T.tname(cls)))

    def heap0(self, cls, name):
        k = (cls, name)
        a = self.heap_init.get(k)
        if a is None:
            _, ty = self.field_owner(cls, name)
            a = z3.Const('H0_%s_%s' % (T.tname(cls), name), z3.ArraySort(I, self.sorts.sort(ty)))
            self.heap_init[k] = a
        return a

    def heap_arr(self, st, cls, name):
        owner, ty = self.field_owner(cls, name)
        a = st.heap.get((owner, name))
        if a is None:
            a = self.heap0(owner, name)
            st.heap[(owner, name)] = a
        return a, owner, ty

    def read(self, loc, st):
        root = loc.root
        path = loc.path
        if root[0] == 'v':
            v = st.store.get(root[1])
            if v is None:
                raise Unsupported('read of unknown variable %s' % root[1])
            if isinstance(v, Unmergeable):
                raise Unsupported(v.why)
            if isinstance(v, RefVal):
                return self.read(Loc(v.loc.root, v.loc.path + path), st)
        else:
            cls, ref = root[1], root[2]
            if path and path[0][0] == 'f':
                arr, _, ty = self.heap_arr(st, cls, path[0][1])
                v = self.sorts.unpack(zsel(arr, ref), ty)
                path = path[1:]
            else:
                fs = self.sorts.struct_fields(cls)
                d = {}
                for n, t in fs:
                    arr, _, ty = self.heap_arr(st, cls, n)
                    d[n] = self.sorts.unpack(zsel(arr, ref), t)
                v = StructVal(cls, d)
        for i, p in enumerate(path):
            if isinstance(v, RefVal):
                return self.read(Loc(v.loc.root, v.loc.path + tuple(path[i:])), st)
            v = self.child(v, p)
        if isinstance(v, RefVal):
            return self.read(v.loc, st)
        return v

    def child(self, v, p):
        if p[0] == 'f':
            if isinstance(v, StructVal):
                if p[1] not in v.f:
                    return Opaque(p[1])
                return v.f[p[1]]
            if isinstance(v, Opaque):
                return Opaque()
            raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
        if p[0] == 'i':
            if isinstance(v, VecVal):
                return self.sorts.unpack(zsel(v.arr, p[1]), v.et)
            raise Unsupported('index of %s' % type(v).__name__)
        if p[0] == 'k':
            if isinstance(v, MapVal):
                return self.sorts.unpack(zsel(v.val, p[1]), v.vt)
        raise Unsupported('path step %s of %s' % (p, type(v).__name__))

    def update(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, StructVal):
                old = v.f.get(p[1])
                if isinstance(old, RefVal):
                    raise Unsupported('write through reference field in update')
                if len(path) == 1:
                    return v.with_(p[1], new)
                return v.with_(p[1], self.update(old, path[1:], new))
            if isinstance(v, Opaque):
                return v
        if p[0] == 'i' and isinstance(v, VecVal):
            if len(path) == 1:
                e = new
            else:
                e = self.update(self.sorts.unpack(zsel(v.arr, p[1]), v.et), path[1:], new)
            return VecVal(v.et, v.len, z3.Store(v.arr, p[1], self.sorts.pack(e, v.et)))
        if p[0] == 'k' and isinstance(v, MapVal):
            e = new if len(path) == 1 else self.update(self.sorts.unpack(zsel(v.val, p[1]), v.vt), path[1:], new)
            return MapVal(v.kt, v.vt, v.dom, z3.Store(v.val, p[1], self.sorts.pack(e, v.vt)), v.len)
        raise Unsupported('update %s of %s' % (p, type(v).__name__))

    def resolve(self, loc, st):
        """chase references so that the location is rooted in a real object"""
        root, path = loc.root, loc.path
        for _ in range(40):
            if root[0] == 'v':
                v = st.store.get(root[1])
                if isinstance(v, Unmergeable):
                    raise Unsupported(v.why)
                if isinstance(v, RefVal):
                    root, path = v.loc.root, v.loc.path + path
                    continue
                moved = False
                for i, p in enumerate(path):
                    if isinstance(v, StructVal) and p[0] == 'f':
                        v = v.f.get(p[1])
                        if isinstance(v, RefVal):
                            root, path = v.loc.root, v.loc.path + path[i + 1:]
                            moved = True
                            break
                    else:
                        break
                if moved:
                    continue
            return Loc(root, path)
        raise Unsupported('reference chain')

    def write(self, loc, val, st):
        loc = self.resolve(loc, st)
        root, path = loc.root, loc.path
        if root[0] == 'v':
            if not path:
                st.store[root[1]] = val
            else:
                st.store[root[1]] = self.update(st.store[root[1]], path, val)
            return
        cls, ref = root[1], root[2]
        if not path:
            if not isinstance(val, StructVal):
                raise Unsupported('write of %s to heap object' % type(val).__name__)
            for n, t in self.sorts.struct_fields(cls):
                if n in val.f and not isinstance(val.f[n], Opaque):
                    arr, owner, ty = self.heap_arr(st, cls, n)
                    st.heap[(owner, n)] = z3.Store(arr, ref, self.sorts.pack(val.f[n], ty))
            return
        n = path[0][1]
        try:
            arr, owner, ty = self.heap_arr(st, cls, n)
        except Unsupported:
            return          # unmodelled field
        old = self.sorts.unpack(zsel(arr, ref), ty)
        new = self.update(old, path[1:], val)
        st.heap[(owner, n)] = z3.Store(arr, ref, self.sorts.pack(new, ty))

    def tmp(self, val, st, name='tmp'):
        k = self.newkey(name)
        st.store[k] = val
        return Loc(('v', k))

    def new_object(self, cls, val, st):
        ref = st.alloc
        st.alloc = simp(st.alloc + 1)
        self.write(Loc(('h', cls, ref)), val, st)
        return ref

    # ------------------------------------------------------------ symbolic inputs
    def fresh_value(self, ty, name, st, facts=True):
        k = ty[0]
        if k == 'int':
            c = fresh(name, I)
            if facts:
                st.assume(*self.int_range(c, ty))
            return c
        if k == 'real':
            return fresh(name, R)
        if k == 'bool':
            return fresh(name, B)
        if k == 'str':
            return fresh(name, STRS)
        if k == 'ptr':
            c = fresh(name, I)
            if facts:
                st.assume(c >= 0, c < st.alloc)
            return c
        if k == 'vec':
            v = VecVal(ty[1], fresh(name + '_len', I), fresh(name + '_arr', z3.ArraySort(I, self.sorts.sort(ty[1]))))
            if facts:
                st.assume(v.len >= 0, v.len < 2 ** 62)
                st.assume(*self.elem_facts(v, st))
            return v
        if k in ('cls', 'pair', 'tuple'):
            d = {}
            if k == 'cls':
                for n, ts, fd in self.ast.all_fields(ty):
                    t = T.parse(ts)
                    if T.is_ref(ts):
                        d[n] = RefVal(self.tmp(self.fresh_value(t, name + '.' + n, st, facts), st, name + '.' + n))
                    elif self.sorts.packable(t):
                        d[n] = self.fresh_value(t, name + '.' + n, st, facts)
                    else:
                        d[n] = Opaque(t)
            else:
                for n, t in self.sorts.struct_fields(ty):
                    d[n] = self.fresh_value(t, name + '.' + n, st, facts)
            return StructVal(ty, d)
        if k == 'set':
            v = SetVal(ty[1], fresh(name + '_dom', z3.ArraySort(self.sorts.sort(ty[1]), B)), fresh(name + '_n', I))
            if facts:
                st.assume(v.len >= 0)
            return v
        if k == 'map':
            v = MapVal(ty[1], ty[2], fresh(name + '_dom', z3.ArraySort(self.sorts.sort(ty[1]), B)),
                       fresh(name + '_val', z3.ArraySort(self.sorts.sort(ty[1]), self.sorts.sort(ty[2]))), fresh(name + '_n', I))
            st.assume(v.len >= 0)
            return v
        return Opaque(ty)

    def int_range(self, c, ty):
        bits, signed = ty[1], ty[2]
        if signed:
            return [c >= -(2 ** (bits - 1)), c <= 2 ** (bits - 1) - 1]
        return [c >= 0, c <= 2 ** bits - 1]

    def elem_facts(self, v, st):
        k = z3.Int('k!el')
        et = v.et
        out = []
        if et[0] == 'int':
            e = zsel(v.arr, k)
            out.append(FA([k], z3.And(*self.int_range(e, et)), patterns=[e]))
        elif et[0] == 'ptr':
            e = zsel(v.arr, k)
            out.append(FA([k], z3.And(e >= 0, e < st.alloc), patterns=[e]))
        elif et[0] == 'vec':
            e = zsel(v.arr, k)
            ev = self.sorts.unpack(e, et)
            out.append(FA([k], z3.And(ev.len >= 0, ev.len < 2 ** 62), patterns=[ev.len]))
        elif et[0] == 'cls':
            e = zsel(v.arr, k)
            ev = self.sorts.unpack(e, et)
            for n, x in ev.f.items():
                if isinstance(x, VecVal):
                    out.append(FA([k], z3.And(x.len >= 0, x.len < 2 ** 62), patterns=[x.len]))
        return out

    def default_value(self, ty, st, fr=None):
        k = ty[0]
        if k == 'vec':
            return VecVal(ty[1], iv(0), self.default_arr(ty[1]))
        if k == 'str':
            return self.strlit('')
        if k == 'ptr':
            return iv(0)
        if k == 'set':
            return SetVal(ty[1], z3.K(self.sorts.sort(ty[1]), z3.BoolVal(False)), iv(0))
        if k == 'map':
            return MapVal(ty[1], ty[2], z3.K(self.sorts.sort(ty[1]), z3.BoolVal(False)), fresh('mapv', z3.ArraySort(self.sorts.sort(ty[1]), self.sorts.sort(ty[2]))), iv(0))
        if k == 'multimap':
            return self.new_multimap(ty)
        if k == 'cls':
            if ty not in self.ast.records:
                return Opaque(ty)
            return self.construct(ty, [], st, fr)
        if k in ('pair', 'tuple'):
            return StructVal(ty, {n: self.zero_value(t, st) for n, t in self.sorts.struct_fields(ty)})
        if k in ('int', 'real', 'bool'):
            return self.fresh_value(ty, 'uninit', st)
        return Opaque(ty)

    def default_arr(self, et):
        return fresh('arr0', z3.ArraySort(I, self.sorts.sort(et)))

    def zero_value(self, ty, st, fr=None):
        k = ty[0]
        if k == 'int':
            return iv(0)
        if k == 'real':
            return z3.RealVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        return self.default_value(ty, st, fr)

    # ------------------------------------------------------------ conversions
    def convert(self, v, frm, to):
        """implicit conversion between scalar types"""
        if not is_z3(v):
            return v
        if to[0] == 'real' and v.sort() == I:
            return z3.ToReal(v)
        if to[0] == 'real' and v.sort() == B:
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if to[0] == 'int':
            if v.sort() == R:
                return self.trunc(v)
            if v.sort() == B:
                return z3.If(v, iv(1), iv(0))
            if v.sort() == I and frm is not None and frm[0] == 'int':
                return self.int_cast(v, frm, to)
            return v
        if to[0] == 'bool':
            if v.sort() == I or v.sort() == R:
                return v != 0
            return v
        return v

    # -- syntactic bounds: facts that are already hypotheses decide a wrap-around without an if-then-else ----------
    in_loop = 0
    cst = None
    _atoms = {}

    def atoms_of(self, f):
        i = f.get_id()
        r = Engine._atoms.get(i)
        if r is not None and r[0].eq(f):
            return r[1]
        out = []

        def go(g, pos):
            if z3.is_not(g):
                go(g.arg(0), not pos); return
            if (z3.is_and(g) and pos) or (z3.is_or(g) and not pos):
                for c in g.children():
                    go(c, pos)
                return
            if z3.is_app(g) and g.num_args() == 2 and g.arg(0).sort() == I:
                k = g.decl().kind(); a, b = g.arg(0), g.arg(1)
                if k == z3.Z3_OP_EQ and pos:
                    out.append((a, b, 0)); out.append((b, a, 0))
                elif k == z3.Z3_OP_LE:
                    out.append((b, a, 0) if pos else (a, b, 1))
                elif k == z3.Z3_OP_GE:
                    out.append((a, b, 0) if pos else (b, a, 1))
                elif k == z3.Z3_OP_LT:
                    out.append((b, a, 1) if pos else (a, b, 0))
                elif k == z3.Z3_OP_GT:
                    out.append((a, b, 1) if pos else (b, a, 0))
        go(f, True)
        res = {}
        for (x, y, d) in out:          # x >= y + d
            res.setdefault(x.get_id(), []).append((x, y, d))
        Engine._atoms[i] = (f, res)
        return res

    def lower(self, x, st, depth=0):
        """a lower bound of x that follows from the hypotheses (or -infinity)"""
        if z3.is_int_value(x):
            return x.as_long()
        best = -10 ** 30
        if depth > 4:
            return best
        if z3.is_app(x) and depth <= 3:
            k = x.decl().kind()
            if k == z3.Z3_OP_ADD:
                s = 0
                for c in x.children():
                    l = self.lower(c, st, depth + 1)
                    if l <= -10 ** 29:
                        s = None; break
                    s += l
                if s is not None:
                    best = s
            elif k == z3.Z3_OP_ITE:
                best = max(best, min(self.lower(x.arg(1), st, depth + 1), self.lower(x.arg(2), st, depth + 1)))
            elif k == z3.Z3_OP_SUB and x.num_args() == 2 and self.known_ge(x.arg(0), x.arg(1), st):
                best = max(best, 0)
        xi = x.get_id()
        for L in (st.facts, st.guards):
            for f in L:
                r = self.atoms_of(f).get(xi)
                if r:
                    for (a, y, d) in r:
                        l = y.as_long() + d if z3.is_int_value(y) else (self.lower(y, st, depth + 3) + d if depth < 1 else best)
                        if l > best:
                            best = l
        return best

    def known_ge(self, a, b, st):
        if a.eq(b):
            return True
        if z3.is_int_value(b):
            return self.lower(a, st) >= b.as_long()
        ai = a.get_id(); bi = b.get_id()
        for L in (st.facts, st.guards):
            for f in L:
                for (x, y, d) in self.atoms_of(f).get(ai, ()):
                    if d >= 0 and y.get_id() == bi:
                        return True
        return False

    def trunc(self, x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            return x.arg(0)
        if z3.is_rational_value(x):
            f = x.as_fraction()
            return iv(int(f))
        self.assumptions.add('floating to integer conversions: value in range of the target type')
        return self.func_symbol('trunc', R, I)(x)

    def int_cast(self, v, frm, to):
        if frm == to:
            return v
        if z3.is_int_value(v):
            n = v.as_long()
            bits = to[1]
            n &= (1 << bits) - 1
            if to[2] and n >= 1 << (bits - 1):
                n -= 1 << bits
            return iv(n)
        if frm[2] and not to[2]:          # signed -> unsigned: exact wrap
            if self.cst is not None and self.lower(v, self.cst) >= 0:
                return v
            return z3.If(v >= 0, v, v + 2 ** to[1])
        if not frm[2] and to[2]:
            # unsigned -> signed: undo a wrapped subtraction, otherwise assume the value fits
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = v.children()
                d = z3.simplify(b - a)
                if z3.is_int_value(d) and d.as_long() == 2 ** frm[1]:
                    return a
            self.assumptions.add('unsigned to signed / narrowing integer conversions: value fits the target type')
            return v
        if frm[2] == to[2] and frm[1] > to[1]:
            self.assumptions.add('unsigned to signed / narrowing integer conversions: value fits the target type')
        return v

    def arith(self, op, a, b, ty, st, n, fr):
        if ty[0] == 'real':
            if a.sort() == I:
                a = z3.ToReal(a)
            if b.sort() == I:
                b = z3.ToReal(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return a / b
            raise Unsupported('real op ' + op)
        if ty[0] == 'int':
            if op == '+':
                # unsigned wrap-around of "x + (-1 converted to unsigned)"
                if z3.is_int_value(b) and not ty[2] and b.as_long() >= 2 ** (ty[1] - 1):
                    d = iv(2 ** ty[1] - b.as_long())
                    if self.lower(a, st) >= d.as_long():
                        return a - d
                    return z3.If(a >= d, a - d, a - d + 2 ** ty[1])
                if z3.is_int_value(a) and not ty[2] and a.as_long() >= 2 ** (ty[1] - 1):
                    return self.arith(op, b, a, ty, st, n, fr)
                return a + b
            if op == '-':
                if not ty[2]:
                    if z3.is_int_value(a) and z3.is_int_value(b):
                        return iv((a.as_long() - b.as_long()) % 2 ** ty[1])
                    if self.known_ge(a, b, st):
                        return a - b
                    return z3.If(a >= b, a - b, a - b + 2 ** ty[1])
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                self.safe('divisor non-zero', st, b != 0, n, fr)
                return self.cdiv(a, b, ty)
            if op == '%':
                self.safe('modulus non-zero', st, b != 0, n, fr)
                return self.cmod(a, b, ty)
            if op in ('&', '|', '^', '<<', '>>'):
                f = self.func_symbol('bit_' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], I, I, I)
                return f(a, b)
        raise Unsupported('arith %s on %s' % (op, ty))

    def cdiv(self, a, b, ty):
        if not ty[2]:
            return a / b
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))

    def cmod(self, a, b, ty):
        if not ty[2]:
            return a % b
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.If(a >= 0, a % b, -((-a) % b))
        ab = z3.If(b > 0, b, -b)
        return z3.If(a >= 0, a % ab, -((-a) % ab))

    # ------------------------------------------------------------ branching
    def branch(self, st, c, ft, ff):
        """run ft / ff on copies; returns (next state or None, outcomes)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return ft(st)
        if z3.is_false(c):
            return ff(st)
        if not getattr(self, 'probe', False):
            for cond, f in ((c, ff), (z3.Not(c), ft)):
                if self.dead(st, cond):
                    st.facts.append(z3.simplify(z3.Not(cond)) if not st.guards else z3.Implies(conj(st.guards), z3.Not(cond)))
                    return f(st)
        nb, nf = len(st.guards), len(st.facts)
        res = []
        for cond, f in ((c, ft), (z3.Not(c), ff)):
            s = st.copy(); s.guards.append(cond)
            try:
                res.append(f(s))
            except Unsupported as e:
                s2 = st.copy(); s2.guards.append(cond)
                if self.feasible(s2):
                    raise
                res.append((None, []))
        (n1, o1), (n2, o2) = res
        outs = o1 + o2
        if n1 is None:
            return n2, outs
        if n2 is None:
            return n1, outs
        return self.merge2(n1, n2, nb, nf), outs

    def merge2(self, n1, n2, nb, nf):
        g1, g2 = n1.guards[nb:], n2.guards[nb:]
        c1, c2 = conj(g1), conj(g2)
        # the first guard distinguishes
        c = g1[0] if g1 and g2 and (z3.Not(g1[0]).eq(g2[0]) or z3.Not(g2[0]).eq(g1[0])) else c1
        named = None
        if self.in_loop == 0 and (z3.is_and(c) or z3.is_or(c)):
            named = fresh('pc', B); defn = named == c; c = named
        m = merge_states(self, c, n1, n2, nf)
        if named is not None:
            m.facts.insert(nf, defn)
        m.guards = n1.guards[:nb]
        if len(g1) == 1 and len(g2) == 1 and c is not c1 or (len(g1) == 1 and len(g2) == 1 and (z3.Not(g1[0]).eq(g2[0]) or z3.Not(g2[0]).eq(g1[0]))):
            pass
        else:
            m.guards.append(z3.Or(c1, c2))
        return m

    def merge_many(self, states, nb, nf):
        if not states:
            return None
        m = states[0]
        for s in states[1:]:
            m = self.merge2(m, s, nb, nf)
        return m

    def choose(self, st, c, ft, ff):
        """expression level branching: ft/ff return values; merges states and values"""
        cc = z3.simplify(c)
        if z3.is_true(cc):
            return ft(st)
        if z3.is_false(cc):
            return ff(st)
        key = self.newkey('$val')

        def wrap(f):
            def g(s):
                s.store[key] = f(s)
                return s, []
            return g
        m, _ = self.branch(st, c, wrap(ft), wrap(ff))
        v = m.store.pop(key)
        if isinstance(v, Unmergeable):
            raise Unsupported(v.why)
        st.assign(m)
        return v

    # ------------------------------------------------------------ statements
    def stmts(self, lst, st, fr):
        outs = []
        cur = st
        for s in lst:
            cur, o = self.stmt(s, cur, fr)
            outs += o
            if cur is None:
                break
        return cur, outs

    def stmt(self, n, st, fr):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')
        k = n.get('kind')
        if k == 'CompoundStmt':
            return self.stmts(inner(n), st, fr)
        if k == 'DeclStmt':
            for d in inner(n):
                self.decl(d, st, fr)
            return st, []
        if k in ('NullStmt',):
            return st, []
        if k == 'AttributedStmt' or k == 'LabelStmt':
            return self.stmt(inner(n)[-1], st, fr)
        if k == 'ReturnStmt':
            ch = inner(n)
            v = None
            if ch:
                v = self.ret_value(ch[0], st, fr)
            return None, [('ret', st, v)]
        if k == 'IfStmt':
            return self.if_stmt(n, st, fr)
        if k == 'ForStmt':
            return self.for_stmt(n, st, fr)
        if k == 'WhileStmt':
            return self.while_stmt(n, st, fr)
        if k == 'DoStmt':
            return self.do_stmt(n, st, fr)
        if k == 'CXXForRangeStmt':
            return self.range_for(n, st, fr)
        if k == 'BreakStmt':
            return None, [('brk', st, None)]
        if k == 'ContinueStmt':
            return None, [('cont', st, None)]
        if k == 'SwitchStmt':
            return self.switch_stmt(n, st, fr)
        if k == 'CXXTryStmt':
            return self.stmt(inner(n)[0], st, fr)
        # expression statement
        return self.expr_stmt(n, st, fr)

    def expr_stmt(self, n, st, fr):
        try:
            self.ev_discard(n, st, fr)
        except Terminated:
            return None, []
        return st, []

    def ev_discard(self, n, st, fr):
        k = n.get('kind')
        if k in SKIP_EXPR:
            return self.ev_discard(inner(n)[0], st, fr)
        if k == 'BinaryOperator' and n.get('opcode') == ',':
            for c in inner(n):
                self.ev_discard(c, st, fr)
            return
        if self.is_glvalue(n) and k not in ('DeclRefExpr',):
            self.lv(n, st, fr)
        else:
            self.ev(n, st, fr)

    def is_glvalue(self, n):
        return n.get('valueCategory') in ('lvalue', 'xvalue')

    def ret_value(self, n, st, fr):
        f = fr.func
        if self.ret_is_ref(f, n):
            return self.resolve(self.lv(n, st, fr), st)
        m = n
        while m.get('kind') in SKIP_EXPR:
            m = inner(m)[0]
        if m.get('kind') == 'CXXConstructExpr' and inner(m):
            a = inner(m)[0]
            while a.get('kind') in SKIP_EXPR + ('ImplicitCastExpr',):
                a = inner(a)[0]
            if a.get('kind') == 'DeclRefExpr' and nty(a) == nty(m):
                d = a['referencedDecl']
                vd = self.ast.decls.get(d['id']) or d
                key = fr.vars.get(d['id'])
                if key is not None and key in getattr(self, 'locals_', ()):    # NRVO / move of a local
                    v = st.store.get(key)
                    if v is not None and not isinstance(v, RefVal):
                        return self.read(Loc(('v', key)), st)
        rt = self.ret_type(f)
        v = self.ev(n, st, fr)
        return v

    def ret_type(self, f):
        q = f.qualtype
        if '->' in q and q.startswith('auto'):
            return T.parse(q.split('->')[-1])
        i = q.find('(')
        # function returning something: text before the parameter list at depth 0
        depth = 0
        for j, ch in enumerate(q):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == '(' and depth == 0:
                return T.parse(q[:j])
        return T.VOID

    def ret_is_ref(self, f, n=None):
        if f is None:
            return False
        q = f.qualtype
        if f.kind == 'CXXConstructorDecl':
            return False
        if '->' in q and q.startswith('auto'):
            return T.is_ref(q.split('->')[-1])
        depth = 0
        for j, ch in enumerate(q):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == '(' and depth == 0:
                h = q[:j].strip()
                if h.startswith('decltype'):
                    if q[j:].startswith('(auto)'):
                        return n is not None and self.is_glvalue(n)
                    return n is not None and self.is_glvalue(n)
                return h.endswith('&')
        return False

    def if_stmt(self, n, st, fr):
        ch = inner(n)
        if n.get('hasInit'):
            cur, o = self.stmt(ch[0], st, fr)
            ch = ch[1:]
        if n.get('hasVar'):
            self.stmt(ch[0], st, fr)
            ch = ch[1:]
        cond = ch[0]
        if n.get('isConstexpr'):
            c = self.const_bool(cond)
            if c is True:
                return self.stmt(ch[1], st, fr)
            if c is False:
                return self.stmt(ch[2], st, fr) if len(ch) > 2 else (st, [])
        try:
            c = self.cond(cond, st, fr)
        except Terminated:
            return None, []
        return self.branch(st, c, lambda s: self.stmt(ch[1], s, fr), lambda s: self.stmt(ch[2], s, fr) if len(ch) > 2 else (s, []))

    def const_bool(self, n):
        k = n.get('kind')
        if k == 'ConstantExpr' and 'value' in n:
            return n['value'] in ('true', '1', True)
        if k == 'CXXBoolLiteralExpr':
            return bool(n['value'])
        if k == 'SubstNonTypeTemplateParmExpr' or k in SKIP_EXPR or k == 'ImplicitCastExpr':
            return self.const_bool(inner(n)[-1])
        return None

    def cond(self, n, st, fr):
        v = self.ev(n, st, fr)
        if is_z3(v):
            if v.sort() == B:
                return v
            if v.sort() in (I, R):
                return v != 0
        if isinstance(v, Opaque):
            return fresh('nondet', B)
        raise Unsupported('condition of kind %r' % (v,))

    def switch_stmt(self, n, st, fr):
        ch = inner(n)
        v = self.ev(ch[0], st, fr)
        body = inner(ch[1])
        items = []       # (labels or None, stmt)
        for s in body:
            labels = []
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    c = inner(s)
                    labels.append(self.ev(c[0], st, fr))
                    s = c[-1]
                else:
                    labels.append('default')
                    s = inner(s)[0]
            items.append((labels, s))
        vals = [l for ls, _ in items for l in ls if not isinstance(l, str)]

        def run_from(i):
            def f(s):
                cur, outs = self.stmts([x for _, x in items[i:]], s, fr)
                nxt = [cur] if cur is not None else []
                rest = []
                for o in outs:
                    if o[0] == 'brk':
                        nxt.append(o[1])
                    else:
                        rest.append(o)
                return (self.merge_many(nxt, len(s0g), len(s0f)) if nxt else None), rest
            return f
        s0g, s0f = st.guards, st.facts
        entries = []
        default = None
        for i, (ls, _) in enumerate(items):
            for l in ls:
                if isinstance(l, str):
                    default = i
                else:
                    entries.append((v == l, i))

        def chain(j):
            def f(s):
                nonlocal s0g, s0f
                if j == len(entries):
                    if default is None:
                        return s, []
                    s0g, s0f = list(s.guards), list(s.facts)
                    return run_from(default)(s)
                c, i = entries[j]

                def t(s1):
                    nonlocal s0g, s0f
                    s0g, s0f = list(s1.guards), list(s1.facts)
                    return run_from(i)(s1)
                return self.branch(s, c, t, chain(j + 1))
            return f
        return chain(0)(st)

    def decl(self, d, st, fr):
        k = d.get('kind')
        if k in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'TypeAliasDecl', 'EmptyDecl', 'StaticAssertDecl', 'UsingShadowDecl'):
            return
        if k == 'DecompositionDecl':
            raise Unsupported('structured binding')
        if k != 'VarDecl':
            raise Unsupported('declaration ' + str(k))
        t = d['type']
        ts = t.get('desugaredQualType', t['qualType'])
        ty = T.parse(ts)
        key = self.newkey(d.get('name', 'anon'))
        fr.vars[d['id']] = key
        if not hasattr(self, 'locals_'):
            self.locals_ = set()
        ch = inner(d)
        ch = [c for c in ch if not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
        if T.is_ref(t['qualType']) or T.is_ref(ts):
            st.store[key] = RefVal(self.bind_ref(ch[0], st, fr))
            return
        self.locals_.add(key)
        if not ch or 'init' not in d:
            st.store[key] = self.default_value(ty, st, fr)
            return
        v = self.ev(ch[-1], st, fr)
        if isinstance(v, Opaque) and ty[0] in ('int', 'real', 'bool'):
            v = self.fresh_value(ty, d.get('name', 'v'), st)
        st.store[key] = self.convert(v, None, ty) if ty[0] in ('real', 'bool') else v

    def bind_ref(self, n, st, fr):
        """location for binding a reference to expression n"""
        if self.is_glvalue(n):
            m = n
            try:
                return self.resolve(self.lv(n, st, fr), st)
            except NotLvalue:
                pass
        return self.tmp(self.ev(n, st, fr), st)

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st, fr):
        k = n['kind']
        if k in SKIP_EXPR:
            return self.lv(inner(n)[0], st, fr)
        if k == 'MaterializeTemporaryExpr':
            return self.tmp(self.ev(inner(n)[0], st, fr), st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            key = fr.vars.get(d['id'])
            if key is not None:
                return self.resolve(Loc(('v', key)), st)
            return self.global_var(d, st, fr)
        if k == 'MemberExpr':
            base = inner(n)[0]
            md = self.ast.decls.get(n.get('referencedMemberDecl'))
            if md is not None and md.get('kind') == 'VarDecl':
                return self.global_var(md, st, fr)
            if n.get('isArrow'):
                loc = self.deref(self.ev(base, st, fr), self.ptype(base), st, n, fr)
            else:
                loc = self.lv(base, st, fr)
            return self.resolve(loc.f(n['name']), st)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '*':
                b = inner(n)[0]
                return self.deref(self.ev(b, st, fr), self.ptype(b), st, n, fr)
            if op in ('++', '--') and not n.get('isPostfix'):
                loc = self.lv(inner(n)[0], st, fr)
                self.incdec(loc, op, nty(inner(n)[0]), st, n, fr)
                return loc
        if k in ('BinaryOperator',) and n['opcode'] == '=':
            a, b = inner(n)
            v = self.ev(b, st, fr)
            loc = self.lv(a, st, fr)
            v = self.havoc_opaque(v, nty(a), st)
            self.write(loc, self.convert(v, None, nty(a)) if nty(a)[0] == 'real' else v, st)
            return loc
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.ev_discard(inner(n)[0], st, fr)
            return self.lv(inner(n)[1], st, fr)
        if k == 'CompoundAssignOperator':
            return self.compound(n, st, fr)
        if k == 'ConditionalOperator':
            c, a, b = inner(n)
            cv = self.cond(c, st, fr)
            r = self.choose(st, cv, lambda s: RefVal(self.lv(a, s, fr)), lambda s: RefVal(self.lv(b, s, fr)))
            return r.loc
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr'):
            ck = n.get('castKind')
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast'):
                return self.lv(inner(n)[0], st, fr)
            return self.tmp(self.ev(n, st, fr), st)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.call(n, st, fr, want_loc=True)
            if isinstance(r, Loc):
                return r
            return self.tmp(r, st)
        if k == 'ArraySubscriptExpr':
            a, b = inner(n)
            i = self.ev(b, st, fr)
            aa = a
            while aa['kind'] in SKIP_EXPR + ('ImplicitCastExpr',):
                aa = inner(aa)[0]
            loc = self.lv(aa, st, fr)
            return loc.i(i)
        if k == 'CXXThisExpr':
            return fr.this
        if getattr(self, 'ev_' + k, None) is None:
            raise Unsupported('lvalue expression ' + k)
        return self.tmp(self.ev(n, st, fr), st)

    def global_var(self, d, st, fr):
        gid = d['id']
        key = 'global:%s' % gid
        if key not in st.store:
            vd = self.ast.decls.get(gid)
            name = d.get('name')
            if vd is None:
                st.store[key] = Opaque(name)
            else:
                t = vd['type']; ts = t.get('desugaredQualType', t['qualType'])
                ch = [c for c in inner(vd) if not c['kind'].endswith('Comment') and not c['kind'].endswith('Attr')]
                if ts.strip().startswith('const') or vd.get('constexpr'):
                    st.store[key] = self.ev(ch[-1], st, fr)
                else:
                    st.store[key] = self.fresh_value(T.parse(ts), 'glob_' + str(name), st)
        return Loc(('v', key))

    def ptype(self, base):
        ty = nty(base)
        if ty[0] == 'ptr' and ty[1][0] == 'cls':
            return ty
        m = base
        while m['kind'] in SKIP_EXPR + ('ImplicitCastExpr', 'MaterializeTemporaryExpr'):
            m = inner(m)[0]
        if m['kind'] in ('CXXOperatorCallExpr',):
            return self.ptype(inner(m)[1])
        if m['kind'] == 'CXXMemberCallExpr':
            me = inner(m)[0]
            if me['kind'] == 'MemberExpr' and me.get('name') in ('get', 'operator->'):
                return self.ptype(inner(me)[0])
        return ty

    def deref(self, v, ty, st, n, fr):
        if isinstance(v, Loc):
            return v
        if isinstance(v, IterVal):
            return self.iter_deref(v, st, n, fr)
        if is_z3(v) and ty[0] == 'ptr':
            if ty[1][0] != 'cls':
                raise Unsupported('pointer to %s' % (ty[1],))
            self.safe('non-null dereference', st, v != 0, n, fr)
            return Loc(('h', ty[1], v))
        if isinstance(v, Opaque):
            return self.tmp(v, st)
        raise Unsupported('dereference of %r' % (v,))

    def incdec(self, loc, op, ty, st, n, fr):
        v = self.read(loc, st)
        d = 1 if op == '++' else -1
        if isinstance(v, IterVal):
            new = IterVal(v.loc, simp(v.idx + d), v.rev)
        elif is_z3(v):
            if ty[0] == 'int' and d < 0 and not ty[2]:
                new = self.arith('-', v, iv(1), ty, st, n, fr)
            else:
                new = v + d
        elif isinstance(v, Opaque):
            new = v
        else:
            raise Unsupported('++ on %r' % (v,))
        self.write(loc, new, st)
        return v

    def compound(self, n, st, fr):
        a, b = inner(n)
        op = n['opcode'][:-1]
        bv = self.ev(b, st, fr)
        loc = self.lv(a, st, fr)
        av = self.read(loc, st)
        ta = nty(a)
        ct = n.get('computeResultType', n['type'])
        cty = T.parse(ct.get('desugaredQualType', ct['qualType']))
        if isinstance(av, IterVal):
            self.write(loc, IterVal(av.loc, av.idx + bv if op == '+' else av.idx - bv, av.rev), st)
            return loc
        if isinstance(av, Opaque) or isinstance(bv, Opaque):
            bv = self.havoc_opaque(bv, cty, st); av = self.havoc_opaque(av, cty, st)
        lt = n.get('computeLHSType', n['type'])
        lty = T.parse(lt.get('desugaredQualType', lt['qualType']))
        self.cst = st
        av = self.convert(av, ta, lty)
        v = self.arith(op, av, bv, cty, st, n, fr)
        v = self.convert(v, cty, ta)
        self.write(loc, v, st)
        return loc

    def havoc_opaque(self, v, ty, st):
        if isinstance(v, Opaque) and ty[0] in ('int', 'real', 'bool', 'str', 'ptr'):
            return self.fresh_value(ty, 'opq', st)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        k = n['kind']
        if k in SKIP_EXPR:
            return self.ev(inner(n)[0], st, fr)
        m = getattr(self, 'ev_' + k, None)
        if m is not None:
            return m(n, st, fr)
        if self.is_glvalue(n):
            return self.read(self.lv(n, st, fr), st)
        raise Unsupported('expression ' + k)

    def ev_IntegerLiteral(self, n, st, fr):
        return iv(int(n['value']))

    def ev_CharacterLiteral(self, n, st, fr):
        return iv(int(n['value']))

    def ev_FloatingLiteral(self, n, st, fr):
        from fractions import Fraction
        v = n['value']
        fr_ = Fraction(repr(float(v))) if 'e' not in v.lower() else Fraction(v)
        try:
            fr_ = Fraction(v)
        except Exception:
            pass
        return z3.RealVal(str(fr_))

    def ev_CXXBoolLiteralExpr(self, n, st, fr):
        return z3.BoolVal(bool(n['value']))

    def ev_StringLiteral(self, n, st, fr):
        import json as _j
        try:
            return self.strlit(_j.loads(n['value']))
        except Exception:
            return self.strlit(n['value'])

    def ev_CXXNullPtrLiteralExpr(self, n, st, fr):
        return iv(0)

    def ev_GNUNullExpr(self, n, st, fr):
        return iv(0)

    def ev_MaterializeTemporaryExpr(self, n, st, fr):
        return self.ev(inner(n)[0], st, fr)

    def ev_CXXThisExpr(self, n, st, fr):
        return fr.this

    def ev_CXXDefaultInitExpr(self, n, st, fr):
        raise Unsupported('default member initialiser outside constructor')

    def ev_CXXScalarValueInitExpr(self, n, st, fr):
        return self.zero_value(nty(n), st, fr)

    def ev_ImplicitValueInitExpr(self, n, st, fr):
        return self.zero_value(nty(n), st, fr)

    def ev_CXXThrowExpr(self, n, st, fr):
        raise Terminated()

    def ev_DeclRefExpr(self, n, st, fr):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return self.enum_const(d, st, fr)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            f = self.ast.func(d['id'])
            if f is not None and f.body is not None:
                return ClosureVal(f, {}, None, None)
            return ('stdfn', d.get('name'))
        if d['kind'] == 'NonTypeTemplateParmDecl':
            raise Unsupported('non-type template parameter')
        return self.read(self.lv(n, st, fr), st)

    def enum_const(self, d, st, fr):
        e = self.ast.decls.get(d['id'])
        v = self.const_cache.get(d['id'])
        if v is not None:
            return v
        # find the enum and number its constants
        if not hasattr(self, '_enums'):
            self._enums = {}
            def go(x):
                if x.get('kind') == 'EnumDecl':
                    cur = -1
                    for c in inner(x):
                        if c.get('kind') == 'EnumConstantDecl':
                            val = None
                            for q in inner(c):
                                vv = self.find_const(q)
                                if vv is not None:
                                    val = vv
                            cur = val if val is not None else cur + 1
                            self._enums[c['id']] = iv(cur)
                for c in x.get('inner', []) or []:
                    if c and c.get('kind') in ('NamespaceDecl', 'EnumDecl', 'CXXRecordDecl', 'ClassTemplateDecl', 'ClassTemplateSpecializationDecl'):
                        go(c)
            for x in self.ast.docs:
                go(x)
        v = self._enums.get(d['id'])
        if v is None:
            raise Unsupported('enum constant %s' % d.get('name'))
        return v

    def find_const(self, q):
        if q.get('kind') == 'ConstantExpr' and 'value' in q:
            return int(q['value'])
        if q.get('kind') == 'IntegerLiteral':
            return int(q['value'])
        for c in inner(q):
            r = self.find_const(c)
            if r is not None:
                if q.get('kind') == 'UnaryOperator' and q.get('opcode') == '-':
                    return -r
                return r
        return None

    def ev_cast(self, n, st, fr):
        ck = n.get('castKind')
        c = inner(n)[-1]
        ty = nty(n)
        if ck == 'LValueToRValue':
            return self.read(self.lv(c, st, fr), st)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'Dependent', 'LValueBitCast'):
            return self.ev(c, st, fr)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.ev(c, st, fr)
            if isinstance(v, Opaque):
                return self.fresh_value(ty, 'opq', st)
            self.cst = st
            return self.convert(v, nty(c), ty)
        if ck == 'PointerToBoolean':
            v = self.ev(c, st, fr)
            if isinstance(v, Loc):
                return z3.BoolVal(True)
            if is_z3(v):
                return v != 0
            return fresh('nondet', B)
        if ck == 'NullToPointer':
            return iv(0)
        if ck == 'ToVoid':
            self.ev_discard(c, st, fr)
            return Opaque()
        raise Unsupported('cast ' + str(ck))

    ev_ImplicitCastExpr = ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXFunctionalCastExpr = ev_cast

    def ev_CXXConstCastExpr(self, n, st, fr):
        return self.ev(inner(n)[-1], st, fr)

    def ev_UnaryOperator(self, n, st, fr):
        op = n['opcode']; a = inner(n)[0]
        if op in ('++', '--'):
            loc = self.lv(a, st, fr)
            old = self.incdec(loc, op, nty(a), st, n, fr)
            return old if n.get('isPostfix') else self.read(loc, st)
        if op == '&':
            if a['kind'] == 'DeclRefExpr' and a['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return self.ev(a, st, fr)
            loc = self.resolve(self.lv(a, st, fr), st)
            if loc.root[0] == 'h' and not loc.path:
                return loc.root[2]
            return loc
        if op == '*':
            return self.read(self.lv(n, st, fr), st)
        v = self.ev(a, st, fr)
        if op == '-':
            if isinstance(v, Opaque):
                return self.fresh_value(nty(n), 'opq', st)
            return -v
        if op == '+':
            return v
        if op == '!':
            if isinstance(v, Opaque):
                return fresh('nondet', B)
            return z3.Not(v) if v.sort() == B else v == 0
        raise Unsupported('unary ' + op)

    def ev_BinaryOperator(self, n, st, fr):
        op = n['opcode']; a, b = inner(n)
        if op == '=':
            return self.read(self.lv(n, st, fr), st)
        if op == ',':
            self.ev_discard(a, st, fr)
            return self.ev(b, st, fr)
        if op in ('&&', '||'):
            c = self.cond(a, st, fr)
            if op == '&&':
                return self.choose_bool(st, c, lambda s: self.cond(b, s, fr), True)
            return self.choose_bool(st, c, lambda s: self.cond(b, s, fr), False)
        x = self.ev(a, st, fr)
        y = self.ev(b, st, fr)
        return self.binop(op, x, y, nty(a), nty(b), nty(n), st, n, fr)

    def choose_bool(self, st, c, f, is_and):
        """short circuit with f evaluated only when needed; avoids merging when f has no side effects"""
        s2 = st.copy()
        cc = z3.simplify(c)
        if is_and and z3.is_false(cc):
            return z3.BoolVal(False)
        if not is_and and z3.is_true(cc):
            return z3.BoolVal(True)
        g = c if is_and else z3.Not(c)
        s2.guards.append(g)
        nf = len(st.facts)
        try:
            v = f(s2)
        except Unsupported:
            s3 = st.copy(); s3.guards.append(g)
            if self.feasible(s3):
                raise
            return z3.BoolVal(not is_and)
        changed = any(k in s2.store and not same(s2.store[k], st.store[k]) for k in st.store) or \
            any(not same(s2.heap[k], st.heap.get(k, s2.heap[k])) for k in s2.heap) or not same(s2.alloc, st.alloc)
        if changed:
            m = merge_states(self, g, s2, st.copy(), nf)
            m.guards = list(st.guards)
            st.assign(m)
        else:
            for k in s2.heap:
                st.heap.setdefault(k, s2.heap[k])
            st.facts += [z3.Implies(g, x) for x in s2.facts[nf:]]
        return z3.And(c, v) if is_and else z3.Or(c, v)

    def binop(self, op, x, y, tx, ty_, tn, st, n, fr):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return self.fresh_value(tn, 'opq', st) if tn[0] in ('int', 'real', 'bool') else Opaque(tn)
        if isinstance(x, IterVal) or isinstance(y, IterVal):
            return self.iter_binop(op, x, y, st, n, fr)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(x, Loc) or isinstance(y, Loc):
                # addresses of distinct local objects / object vs heap reference
                e = self.addr_eq(x, y)
                return e if op == '==' else z3.Not(e)
            if x.sort() != y.sort():
                if x.sort() == I and y.sort() == R:
                    x = z3.ToReal(x)
                elif x.sort() == R and y.sort() == I:
                    y = z3.ToReal(y)
                elif x.sort() == B:
                    x = z3.If(x, iv(1), iv(0))
                elif y.sort() == B:
                    y = z3.If(y, iv(1), iv(0))
            return {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
        return self.arith(op, x, y, tn, st, n, fr)

    def addr_eq(self, x, y):
        if isinstance(x, Loc) and isinstance(y, Loc):
            return z3.BoolVal(same(x, y))
        if is_z3(x) and isinstance(y, Loc) and y.root[0] == 'h' and not y.path:
            return x == y.root[2]
        if is_z3(y) and isinstance(x, Loc) and x.root[0] == 'h' and not x.path:
            return y == x.root[2]
        return z3.BoolVal(False)

    def ev_CompoundAssignOperator(self, n, st, fr):
        return self.read(self.compound(n, st, fr), st)

    def ev_ConditionalOperator(self, n, st, fr):
        c, a, b = inner(n)
        cv = self.cond(c, st, fr)
        ty = nty(n)

        def g(x):
            def h(s):
                try:
                    v = self.ev(x, s, fr)
                except Terminated:
                    raise Unsupported('throw inside conditional')
                v = self.havoc_opaque(v, ty, s)
                return self.convert(v, None, ty) if ty[0] in ('real', 'bool') else v
            return h
        return self.choose(st, cv, g(a), g(b))

    def ev_CallExpr(self, n, st, fr):
        return self.rval(self.call(n, st, fr, want_loc=self.is_glvalue(n)), st)

    ev_CXXMemberCallExpr = ev_CXXOperatorCallExpr = ev_CallExpr

    def rval(self, r, st):
        if isinstance(r, Loc):
            return self.read(r, st)
        return r

    def ev_LambdaExpr(self, n, st, fr):
        rec = inner(n)[0]
        fields = [c for c in inner(rec) if c['kind'] == 'FieldDecl']
        inits = [c for c in inner(n)[1:] if c['kind'] != 'CompoundStmt']
        env = dict(fr.vars)
        this = fr.this
        for fd, ini in zip(fields, inits):
            if fd['type']['qualType'].strip().endswith('&'):
                continue
            m = ini
            while m['kind'] in SKIP_EXPR + ('ImplicitCastExpr', 'CXXConstructExpr') and inner(m):
                m = inner(m)[0]
            if m['kind'] == 'DeclRefExpr':
                d = m['referencedDecl']
                key = self.newkey('cap_' + str(d.get('name')))
                st.store[key] = self.ev(ini, st, fr)
                env[d['id']] = key
        op = None
        for c in inner(rec):
            if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
            elif c['kind'] == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                for q in inner(c):
                    if q['kind'] == 'CXXMethodDecl' and any(z.get('kind') == 'CompoundStmt' for z in inner(q)) and not q.get('_pattern', False):
                        op = q
        if op is None:
            raise Unsupported('lambda without call operator')
        f = self.ast.funcs.get(op['id'])
        if f is None:
            self.ast._func(op, None, False)
            f = self.ast.funcs[op['id']]
        if f.body is None:
            for c in inner(n):
                if c['kind'] == 'CompoundStmt':
                    f.body = c
        return ClosureVal(f, env, this, n)

    def ev_InitListExpr(self, n, st, fr):
        ty = nty(n)
        ch = inner(n)
        if n.get('array_filler') is not None:
            ch = [c for c in ch if c.get('kind') != 'ImplicitValueInitExpr']
        if ty[0] in ('vec', 'carray'):
            et = ty[1]
            arr = self.default_arr(et)
            cnt = 0
            for c in ch:
                v = self.ev(c, st, fr)
                arr = z3.Store(arr, cnt, self.sorts.pack(self.convert(v, None, et) if et[0] == 'real' else v, et))
                cnt += 1
            return VecVal(et, iv(cnt), arr)
        if ty[0] in ('int', 'real', 'bool', 'ptr', 'str'):
            if not ch:
                return self.zero_value(ty, st, fr)
            return self.ev(ch[0], st, fr)
        if ty[0] == 'pair':
            return StructVal(ty, {'first': self.ev(ch[0], st, fr), 'second': self.ev(ch[1], st, fr)})
        if ty[0] == 'cls':
            fields = self.ast.all_fields(ty)
            d = {}
            for i, (nm, ts, fd) in enumerate(fields):
                if i < len(ch):
                    d[nm] = self.ev(ch[i], st, fr)
                else:
                    d[nm] = self.zero_value(T.parse(ts), st, fr)
            return StructVal(ty, d)
        raise Unsupported('init list of %s' % (ty,))

    def ev_CXXNewExpr(self, n, st, fr):
        ty = nty(n)
        if ty[0] == 'ptr' and ty[1][0] == 'cls':
            ch = [c for c in inner(n) if c['kind'] in ('CXXConstructExpr',)]
            v = self.ev(ch[0], st, fr) if ch else self.default_value(ty[1], st, fr)
            loc = self.tmp(v, st, 'new')
            return loc
        raise Unsupported('new of %s' % (ty,))

    def ev_CXXDeleteExpr(self, n, st, fr):
        return Opaque()

    # ------------------------------------------------------------ construction
    def ev_CXXConstructExpr(self, n, st, fr):
        ty = nty(n)
        args = [c for c in inner(n) if c['kind'] != 'CXXDefaultArgExpr']
        if ty[0] == 'cls' and ty in self.ast.records:
            ct = n.get('ctorType', {}).get('qualType')
            if len(args) == 1 and n.get('elidable'):
                return self.ev(args[0], st, fr)
            return self.construct(ty, args, st, fr, ct, n)
        return self.stl_construct(ty, args, st, fr, n)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def construct(self, ty, args, st, fr, ctor_type=None, n=None, argvals=None):
        """value of a freshly constructed object of repo class ty. args: nodes (evaluated here) or argvals: python values"""
        rec = self.ast.records.get(ty)
        if rec is None:
            return Opaque(ty)
        f = self.pick_ctor(ty, args if argvals is None else None, ctor_type, argvals)
        if argvals is None and args is not None and len(args) == 1 and (f is None or f.body is None or f.implicit) and nty(args[0]) == ty:
            return self.ev(args[0], st, fr)          # implicit copy / move
        if argvals is not None and len(argvals) == 1 and (f is None or f.body is None or f.implicit) and isinstance(argvals[0], StructVal) and argvals[0].ty == ty:
            return argvals[0]
        loc = self.tmp(None, st, 'obj')
        st.store[loc.root[1]] = self.raw_object(ty, st)
        self.run_ctor(f, ty, loc, args, st, fr, argvals, n)
        v = st.store[loc.root[1]]
        return v

    def raw_object(self, ty, st):
        d = {}
        for nm, ts, fd in self.ast.all_fields(ty):
            d[nm] = None
        return StructVal(ty, d)

    def run_ctor(self, f, ty, loc, args, st, fr, argvals=None, n=None):
        rec = self.ast.records[ty]
        depth = (fr.depth if fr is not None else 0) + 1
        if depth > self.MAXDEPTH:
            raise Unsupported('construction depth')
        nf = Frame(f, depth, loc)
        nf.this_cls = ty
        inits = []
        if f is not None:
            self.bind_params(f, args, argvals, st, fr, nf, n)
            inits = f.inits
        done = set(); bases_done = set()
        delegating = False
        for ci in inits:
            bi = ci.get('baseInit')
            if bi:
                bty = T.parse(bi.get('desugaredQualType', bi['qualType']))
                bases_done.add(bty)
        # bases first (in order), then fields in declaration order
        for b in rec.bases:
            if b not in self.ast.records:
                continue
            ci = next((c for c in inits if c.get('baseInit') and T.parse(c['baseInit'].get('desugaredQualType', c['baseInit']['qualType'])) == b), None)
            e = inner(ci)[0] if ci is not None and inner(ci) else None
            while e is not None and e['kind'] in SKIP_EXPR:
                e = inner(e)[0]
            if e is not None and e['kind'] == 'CXXConstructExpr':
                cargs = [c for c in inner(e) if c['kind'] != 'CXXDefaultArgExpr']
                bf = self.pick_ctor(b, cargs, e.get('ctorType', {}).get('qualType'))
                if len(cargs) == 1 and (bf is None or bf.body is None or bf.implicit) and nty(cargs[0])[0] == 'cls':
                    src = self.ev(cargs[0], st, nf)
                    cur = st.store[loc.root[1]]
                    d = dict(cur.f)
                    for nm, ts, fd in self.ast.all_fields(b):
                        d[nm] = src.f.get(nm)
                    st.store[loc.root[1]] = StructVal(cur.ty, d)
                else:
                    self.run_ctor(bf, b, loc, cargs, st, nf, None, e)
            else:
                self.run_ctor(self.pick_ctor(b, [], None), b, loc, [], st, nf)
        for c in rec.fields:
            nm = c.get('name')
            if not nm:
                continue
            t = c['type']; ts = t.get('desugaredQualType', t['qualType'])
            fty = T.parse(ts)
            ci = next((x for x in inits if x.get('anyInit', {}).get('id') == c['id'] or (x.get('anyInit', {}).get('name') == nm)), None)
            e = inner(ci)[0] if ci is not None and inner(ci) else None
            if e is not None and e['kind'] == 'CXXDefaultInitExpr':
                e = None
            if e is None and c.get('hasInClassInitializer'):
                ie = [x for x in inner(c) if not x['kind'].endswith('Comment') and not x['kind'].endswith('Attr')]
                if ie:
                    e = ie[-1]
            if T.is_ref(ts) or T.is_ref(t['qualType']):
                if e is None:
                    raise Unsupported('reference member without initialiser')
                v = RefVal(self.bind_ref(e, st, nf))
            elif e is None:
                try:
                    v = self.default_value(fty, st, nf)
                except Unsupported:
                    v = Opaque(fty)
            else:
                v = self.ev(e, st, nf)
                v = self.havoc_opaque(v, fty, st)
                if fty[0] in ('real', 'bool') and is_z3(v):
                    v = self.convert(v, None, fty)
            cur = st.store[loc.root[1]]
            st.store[loc.root[1]] = cur.with_(nm, v)
        if f is not None and f.body is not None and inner(f.body):
            self.note_inlined(f)
            nb, nfacts = len(st.guards), len(st.facts)
            nxt, outs = self.stmt(f.body, st, nf)
            states = [nxt] if nxt is not None else []
            for o in outs:
                if o[0] == 'ret':
                    states.append(o[1])
            if not states:
                raise Terminated()
            m = self.merge_many(states, nb, nfacts)
            st.assign(m)

    def note_inlined(self, f):
        self.inlined.add('%s%s' % ((T.tname(f.cls) + '::') if f.cls else '', f.name))

    def pick_ctor(self, ty, args, ctor_type=None, argvals=None):
        cands = [f for f in self.ast.members.get(ty, []) if f.kind == 'CXXConstructorDecl']
        # constructors that are member templates
        if ctor_type:
            key = norm_sig(ctor_type)
            for f in cands:
                if norm_sig(f.qualtype) == key:
                    g = self.ast.func(f.node['id'])
                    return g
        tys = [nty(a) for a in args] if args is not None else [self.val_ty(v) for v in (argvals or [])]
        best, bs = None, None
        for f in cands:
            if f.node.get('_pattern'):
                continue
            ps = f.params
            if len(ps) < len(tys):
                continue
            if any('init' not in p for p in ps[len(tys):]):
                continue
            s = 0; ok = True
            for p, t in zip(ps, tys):
                pt = T.parse(p['type'].get('desugaredQualType', p['type']['qualType']))
                if pt == t:
                    s += 3
                elif pt[0] == t[0] and pt[0] == 'int':
                    s += 2
                elif pt[0] in ('int', 'real', 'bool') and t[0] in ('int', 'real', 'bool'):
                    s += 1
                elif t[0] == 'cls' and pt[0] == 'cls' and self.ast.is_base(pt, t):
                    s += 2
                elif pt[0] == 'ptr' and t[0] == 'ptr':
                    s += 2
                else:
                    ok = False; break
            if ok and (bs is None or s > bs):
                best, bs = f, s
        return self.ast.func(best.node['id']) if best is not None else None

    def val_ty(self, v):
        if isinstance(v, StructVal):
            return v.ty
        if isinstance(v, VecVal):
            return ('vec', v.et)
        if is_z3(v):
            s = v.sort()
            if s == I:
                return T.SIZE
            if s == R:
                return T.REAL
            if s == B:
                return T.BOOL
            if s == STRS:
                return T.STR
        return ('opaque', '?')

    # ------------------------------------------------------------ calls
    def bind_params(self, f, args, argvals, st, fr, nf, n=None):
        vals = []
        for i, p in enumerate(f.params):
            t = p['type']; ts = t.get('desugaredQualType', t['qualType'])
            ref = T.is_ref(t['qualType']) or T.is_ref(ts)
            pty = T.parse(ts)
            key = self.newkey(p.get('name', 'p%d' % i))
            if argvals is not None and i < len(argvals):
                v = argvals[i]
                if isinstance(v, Loc):
                    v = RefVal(self.resolve(v, st)) if ref else self.read(v, st)
                elif isinstance(v, RefVal):
                    v = v if ref else self.read(v.loc, st)
                elif ref:
                    v = RefVal(self.tmp(v, st))
            elif args is not None and i < len(args) and args[i]['kind'] != 'CXXDefaultArgExpr':
                a = args[i]
                if ref:
                    v = RefVal(self.bind_ref(a, st, fr))
                else:
                    v = self.ev(a, st, fr)
            else:
                e = self.default_arg(f, i)
                if e is None:
                    raise Unsupported('missing default argument %d of %s' % (i, f.name))
                v = self.ev(e, st, nf)
                if ref:
                    v = RefVal(self.tmp(v, st))
            if not isinstance(v, RefVal):
                v = self.havoc_opaque(v, pty, st)
                if pty[0] in ('real', 'bool') and is_z3(v):
                    v = self.convert(v, None, pty)
            vals.append((p, key, v, ref))
        for p, key, v, ref in vals:
            nf.vars[p['id']] = key
            st.store[key] = v
            if not ref:
                if not hasattr(self, 'locals_'):
                    self.locals_ = set()
                self.locals_.add(key)

    def default_arg(self, f, i):
        p = f.params[i]
        ch = [c for c in inner(p) if not c['kind'].endswith('Attr')]
        if 'init' in p and ch:
            return ch[-1]
        # look at redeclarations / pattern
        prev = f.node.get('previousDecl')
        while prev:
            g = self.ast.funcs.get(prev)
            if g is None:
                break
            ch = [c for c in inner(g.params[i]) if not c['kind'].endswith('Attr')]
            if ch:
                return ch[-1]
            prev = g.node.get('previousDecl')
        for g in self.ast.funcs.values():
            if g.name == f.name and len(g.params) == len(f.params) and g is not f:
                if g.params[i].get('name') == p.get('name') or g.node.get('_pattern'):
                    ch = [c for c in inner(g.params[i]) if not c['kind'].endswith('Attr')]
                    if ch and 'init' in g.params[i]:
                        return ch[-1]
        return None

    def call(self, n, st, fr, want_loc=False):
        k = n['kind']
        ch = inner(n)
        if k == 'CXXMemberCallExpr':
            me = ch[0]
            while me['kind'] in SKIP_EXPR:
                me = inner(me)[0]
            if me['kind'] != 'MemberExpr':
                raise Unsupported('member call through ' + me['kind'])
            base = inner(me)[0]
            args = ch[1:]
            f = self.ast.func(me.get('referencedMemberDecl'))
            if f is not None and f.cls is not None:
                if me.get('isArrow'):
                    this = self.deref(self.ev(base, st, fr), self.ptype(base), st, n, fr)
                else:
                    this = self.lv(base, st, fr)
                virt = f.virtual and not self.qualified(me)
                return self.call_func(f, this, args, st, fr, want_loc, n, virtual=virt)
            return self.stl_method(me, base, args, st, fr, want_loc, n)
        if k == 'CXXOperatorCallExpr':
            callee = ch[0]
            while callee['kind'] in SKIP_EXPR + ('ImplicitCastExpr',):
                callee = inner(callee)[0]
            args = ch[1:]
            d = callee.get('referencedDecl', {})
            f = self.ast.func(d.get('id'))
            if f is not None:
                if f.kind == 'CXXMethodDecl' and d['kind'] == 'CXXMethodDecl':
                    if f.cls is None or f.name == 'operator()' and f.cls is None:
                        fv = self.ev(args[0], st, fr)
                        return self.call_closure(fv, [self.argval(a, st, fr) for a in args[1:]], st, fr, n)
                    this = self.lv(args[0], st, fr)
                    return self.call_func(f, this, args[1:], st, fr, want_loc, n, virtual=f.virtual)
                return self.call_func(f, None, args, st, fr, want_loc, n)
            return self.stl_operator(d.get('name', ''), args, st, fr, want_loc, n)
        # CallExpr
        callee = ch[0]
        while callee['kind'] in SKIP_EXPR + ('ImplicitCastExpr',):
            callee = inner(callee)[0]
        args = ch[1:]
        if callee['kind'] == 'DeclRefExpr':
            d = callee['referencedDecl']
            f = self.ast.func(d['id'])
            if f is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return self.call_func(f, None, args, st, fr, want_loc, n)
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return self.stl_call(d.get('name', ''), args, st, fr, want_loc, n, d)
            fv = self.ev(callee, st, fr)
            return self.call_closure(fv, [self.argval(a, st, fr) for a in args], st, fr, n)
        if callee['kind'] == 'MemberExpr':
            f = self.ast.func(callee.get('referencedMemberDecl'))
            if f is not None:
                return self.call_func(f, None, args, st, fr, want_loc, n)
            if callee['name'] in ('max', 'min', 'lowest'):
                return self.stl_call(callee['name'], args, st, fr, want_loc, n, callee)
        fv = self.ev(callee, st, fr)
        return self.call_closure(fv, [self.argval(a, st, fr) for a in args], st, fr, n)

    def qualified(self, me):
        """Base::f(...) on the object itself is not a virtual call: the name starts before the member it ends with"""
        b = inner(me)[0]
        while b['kind'] in SKIP_EXPR or b['kind'] == 'ImplicitCastExpr':
            b = inner(b)[0]
        if b['kind'] != 'CXXThisExpr' or not b.get('implicit'):
            return False
        g = me.get('range') or {}
        return self.offset(g.get('begin')) != self.offset(g.get('end'))

    def offset(self, l):
        l = l or {}
        l = l.get('spellingLoc') or l
        return l.get('offset')

    def argval(self, a, st, fr):
        """argument as Loc (glvalue) or value"""
        if self.is_glvalue(a):
            return RefVal(self.resolve(self.lv(a, st, fr), st))
        return self.ev(a, st, fr)

    def call_closure(self, fv, argvals, st, fr, n, want_loc=False):
        if isinstance(fv, RefVal):
            fv = self.read(fv.loc, st)
        if isinstance(fv, PyFunc):
            return fv.fn(self, st, [self.read(a.loc, st) if isinstance(a, RefVal) else a for a in argvals])
        if isinstance(fv, tuple) and fv and fv[0] == 'stdfn':
            return self.std_scalar(fv[1], [self.read(a.loc, st) if isinstance(a, RefVal) else a for a in argvals], st)
        if not isinstance(fv, ClosureVal):
            if isinstance(fv, Opaque):
                raise Unsupported('call of an unknown function object')
            if isinstance(fv, StructVal):     # functor object
                fs = self.ast.find_methods(fv.ty, 'operator()')
                if fs:
                    return self.call_func(fs[0], self.tmp(fv, st), None, st, fr, want_loc, n, argvals=argvals)
            raise Unsupported('call of %r' % (fv,))
        f = fv.func
        nf = Frame(f, fr.depth + 1 if fr else 1, fv.this)
        nf.vars = dict(fv.env)
        self.bind_params(f, None, argvals, st, fr, nf)
        return self.run_body(f, nf, st, want_loc)

    def find_contract(self, f):
        if not self.contracts:
            return None
        cn = f.cls[1] if f.cls and f.cls[0] == 'cls' else ''
        for key in ((cn, f.name, len(f.params)), (cn, f.name)):
            c = self.contracts.get(key)
            if c is not None and c.matches(f):
                return c
        return None

    def call_func(self, f, this, args, st, fr, want_loc, n, virtual=False, argvals=None):
        if f.body is None and not f.default and not f.implicit and not virtual:
            c = self.find_contract(f)
            if c is None:
                r = self.external(f, this, args, st, fr, n)
                return r
        c = self.find_contract(f)
        top = getattr(self, 'verifying', None)
        if c is not None and not (top is not None and f is top and fr.depth == 0 and False):
            return self.use_contract(c, f, this, args, st, fr, n, argvals, want_loc)
        if virtual and this is not None:
            dyn = None
            loc = self.resolve(this, st)
            if loc.root[0] == 'v' and not loc.path:
                v = st.store.get(loc.root[1])
                if isinstance(v, StructVal):
                    dyn = v.ty
            elif loc.root[0] == 'v':
                v = self.read(loc, st)
                if isinstance(v, StructVal):
                    dyn = v.ty
            elif loc.root[0] == 'h':
                raise Unsupported('virtual call %s on an object of unknown dynamic type without a contract' % f.name)
            if dyn is not None and dyn != f.cls:
                g = self.ast.overrider(dyn, f.name, f.qualtype)
                if g is not None:
                    f = g
                    c = self.find_contract(f)
                    if c is not None:
                        return self.use_contract(c, f, this, args, st, fr, n, argvals, want_loc)
        if f.body is None:
            if f.default or f.implicit:
                if f.name == 'operator=':
                    v = self.ev(args[0], st, fr)
                    self.write(this, v, st)
                    return this
                return Opaque()
            raise Unsupported('call of %s without a body or contract' % f.name)
        if f.name in self.call_hooks:
            self.call_hooks[f.name](st, this)
        if fr.depth + 1 > self.MAXDEPTH:
            raise Unsupported('inlining depth at ' + f.name)
        if f.name.startswith('~'):
            return Opaque()
        self.note_inlined(f)
        nf = Frame(f, fr.depth + 1, None)
        if this is not None:
            nf.this = self.resolve(this, st)
        self.bind_params(f, args, argvals, st, fr, nf, n)
        return self.run_body(f, nf, st, want_loc)

    def run_body(self, f, nf, st, want_loc):
        nb, nfacts = len(st.guards), len(st.facts)
        base_guards = list(st.guards)
        nxt, outs = self.stmt(f.body, st.copy(), nf)
        res = []
        if nxt is not None:
            res.append((nxt, None))
        for o in outs:
            if o[0] == 'ret':
                res.append((o[1], o[2]))
            else:
                raise Unsupported('stray ' + o[0])
        if not res:
            raise Terminated()
        key = self.newkey('$ret')
        rty = self.ret_type(f) if f.kind != 'CXXConstructorDecl' else T.VOID
        for s, v in res:
            if v is None:
                v = Opaque()
            if isinstance(v, Loc):
                v = RefVal(v)
            elif is_z3(v) and rty[0] in ('real', 'bool'):
                v = self.convert(v, None, rty)
            elif isinstance(v, Opaque) and rty[0] in ('int', 'real', 'bool', 'str', 'ptr'):
                v = self.fresh_value(rty, 'opq', s)
            s.store[key] = v
        m = self.merge_many([s for s, _ in res], nb, nfacts)
        v = m.store.pop(key)
        if isinstance(v, Unmergeable):
            raise Unsupported(v.why)
        # an inlined call that can also throw/exit leaves its surviving condition among the guards: keep as facts
        extra = m.guards[nb:]
        m.guards = base_guards
        if extra and len(res) >= 1:
            m.facts = m.facts + extra
        st.assign(m)
        if isinstance(v, RefVal):
            return v.loc
        return v

    def external(self, f, this, args, st, fr, n):
        raise Unsupported('external function %s' % f.name)

    def use_contract(self, c, f, this, args, st, fr, n, argvals, want_loc):
        self.used_contracts.add(c.name)
        nf = Frame(f, fr.depth + 1, self.resolve(this, st) if this is not None else None)
        self.bind_params(f, args, argvals, st, fr, nf, n)
        a = []
        for p in f.params:
            v = st.store[nf.vars[p['id']]]
            a.append(v.loc if isinstance(v, RefVal) else v)
        return c.apply(self, st, nf.this, a, n, fr, f)


class Terminated(Exception):
    pass


class NotLvalue(Exception):
    pass


def norm_sig(q):
    s = re.sub(r'std::|mltk::|\bstruct |\bclass |__cxx11::', '', q)
    s = re.sub(r', allocator<[^<>]*(<[^<>]*>)?>', '', s)
    s = re.sub(r'\s+noexcept(\([^)]*\))?', '', s)
    return s.replace(' ', '')


def zsel(arr, i):
    """select with syntactic read-over-write"""
    a = arr
    for _ in range(12):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            base, j, v = a.children()
            if j.eq(i):
                return v
            d = z3.simplify(j - i) if j.sort() == I else None
            if d is not None and z3.is_int_value(d):
                if d.as_long() == 0:
                    return v
                a = base
                continue
        break
    return z3.Select(a, i)
