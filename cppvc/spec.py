"""Specification side: symbolic entry states, contracts (pre / post / frame), proof sessions."""
import z3, time
from . import ctypes_ as T
from .core import *
from .engine import Engine, Frame, Obl, Terminated, zsel
from . import solve

R_ = T.REAL
POINT = ('cls', 'Point', (T.REAL, ('vec', T.REAL)))
DATA = ('cls', 'Data', (T.REAL,))


def ALL(names, body, pats=None):
    """forall over Int variables: ALL('i j', lambda i,j: ...)"""
    vs = [z3.Int(n + '!s') for n in names.split()]
    b = body(*vs)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if pats:
        p = pats(*vs)
        return FA(vs, b, patterns=p if isinstance(p, list) else [p])
    return FA(vs, b)


def EX(names, body):
    vs = [z3.Int(n + '!s') for n in names.split()]
    return z3.Exists(vs, body(*vs))


And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


class View:
    """read access to a state"""

    def __init__(self, eng, st):
        self.e = eng; self.st = st

    def get(self, loc):
        if isinstance(loc, RefVal):
            loc = loc.loc
        if isinstance(loc, Loc):
            return self.e.read(loc, self.st)
        return loc

    def f(self, loc, name, cls=None):
        """field of an object given by location, heap reference (with class) or value"""
        if isinstance(loc, RefVal):
            loc = loc.loc
        if isinstance(loc, Loc):
            return self.e.read(loc.f(name), self.st)
        if isinstance(loc, StructVal):
            return loc.f[name]
        return self.e.read(Loc(('h', cls or POINT, loc)).f(name), self.st)


class Session:
    """one function (or lemma) under proof"""

    def __init__(self, eng, name):
        self.e = eng; self.name = name
        self.st = State()
        self.st.alloc = z3.Int('alloc0')
        self.st.assume(self.st.alloc >= 1)
        self.fr = Frame(None, 0)
        solve.OFFSETS[:] = []; solve.HINTS[:] = []
        self.covers = []; self.functions = set(); self.assumptions = set(); self.ast = eng.ast

    # symbolic inputs ------------------------------------------------
    def val(self, ty, name):
        return self.e.fresh_value(ty, name, self.st)

    def var(self, ty, name):
        """a program variable holding a fresh value; returns its location"""
        return self.e.tmp(self.val(ty, name), self.st, name)

    def int_(self, name, ty=T.INT):
        return self.val(ty, name)

    def size_(self, name):
        v = self.val(T.SIZE, name)
        self.st.assume(v < 2 ** 62)
        return v

    def real(self, name):
        return self.val(T.REAL, name)

    def heapobj(self, cls, name):
        c = fresh(name, I)
        self.st.assume(c >= 1, c < self.st.alloc)
        return Loc(('h', cls, c))

    def assume(self, *fs):
        self.st.assume(*fs)

    def pre(self):
        return View(self.e, self.st.copy())

    def now(self):
        return View(self.e, self.st)

    # running the real code ----------------------------------------------
    def call(self, f, this=None, args=()):
        return self.e.call_func(f, this, None, self.st, self.fr, False, None, argvals=list(args))

    def callref(self, f, this=None, args=()):
        return self.e.call_func(f, this, None, self.st, self.fr, True, None, argvals=list(args))

    def construct(self, ty, args=()):
        v = self.e.construct(ty, None, self.st, self.fr, argvals=list(args))
        return self.e.tmp(v, self.st, 'obj')

    def prove(self, name, goal):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.covers:
            self.cover('result')
        self.e.obls.append(Obl('%s: %s' % (self.name, name), self.st.hyps(), goal, self.name, 'post', (list(self.e.folds.splits), list(solve.OFFSETS), list(solve.HINTS))))

    def split(self, *terms):
        """hint: additive folds may be split at these positions"""
        self.e.folds.splits += list(terms)

    def bounds(self):
        """hint: use the sign axioms of real sums"""
        self.e.folds.splits.append(BOUNDS)

    def nohints(self):
        self.e.folds.splits[:] = []; solve.OFFSETS[:] = []; solve.HINTS[:] = []

    def offsets(self, *ns):
        """hint: quantified hypotheses are also instantiated at goal variable + n"""
        solve.OFFSETS[:] = ns

    def hint(self, *ts):
        """hint: quantified hypotheses are also instantiated at these terms"""
        solve.HINTS += list(ts)

    def choose(self, name, cond):
        """a position satisfying cond whenever one exists (conservative: skolemisation of an instance of excluded middle)"""
        q = fresh(name, I); k = z3.Int('k!ch')
        self.st.assume(z3.Implies(z3.Exists([k], cond(k)), cond(q)))
        return q

    def lemma(self, name, goal):
        self.prove(name, goal)
        self.st.assume(goal)

    def at_call(self, fname, hook):
        """lemmas to prove and use whenever the code is about to enter the function of that name: hook(view, this) -> [(name, formula)]"""
        def h(st, this):
            old = self.st, self.e.record
            self.st = st
            try:
                for nm, f in hook(View(self.e, st.copy()), this):
                    if old[1]:
                        self.lemma(nm, f)
                    else:
                        st.assume(f)
            except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
                pass
            finally:
                self.st = old[0]
        self.e.call_hooks[fname] = h

    def generic(self, name, dom, fn, keep=True):
        """prove fn(k) for an arbitrary k with dom(k) (fn may prove and use intermediate lemmas about k), then assume it for all k"""
        k = fresh('k_gen', I); n = len(self.st.facts); tune = (list(self.e.folds.splits), list(solve.OFFSETS), list(solve.HINTS))
        self.st.assume(dom(k))
        goal = fn(k)
        self.prove(name, goal)
        del self.st.facts[n:]
        self.e.folds.splits[:], solve.OFFSETS[:], solve.HINTS[:] = tune
        if keep:
            v = z3.Int('k!s')
            self.st.assume(FA([v], z3.Implies(dom(v), z3.substitute(goal, (k, v)))))

    # -- finding the real functions ------------------------------------------------
    def meth(self, cls, name, n=None, pick=None, const=None):
        fs = [f for f in self.ast.find_methods(cls, name) if f.body is not None]
        if n is not None:
            fs = [f for f in fs if len(f.params) == n]
        if pick is not None:
            fs = [f for f in fs if pick in f.qualtype]
        if const is not None:
            fs = [f for f in fs if f.qualtype.rstrip().endswith('const') == const]
        if not fs:
            raise Unsupported('no instantiated body of %s::%s' % (T.tname(cls), name))
        f = fs[0]
        self.functions.add('%s::%s %s' % (T.tname(cls), name, f.qualtype))
        return f

    def func(self, name, n=None, pick=None):
        fs = [f for f in self.ast.find_functions(name) if f.body is not None]
        if n is not None:
            fs = [f for f in fs if len(f.params) == n]
        if pick is not None:
            fs = [f for f in fs if pick in f.qualtype]
        if not fs:
            raise Unsupported('no instantiated body of %s' % name)
        f = fs[0]
        self.functions.add('%s %s' % (name, f.qualtype))
        return f

    def sum(self, lo, hi, e, sort=None):
        return self.e.folds.sum(iv(lo) if isinstance(lo, int) else lo, hi, e, sort)

    def count(self, lo, hi, p):
        return self.e.folds.count(iv(lo) if isinstance(lo, int) else lo, hi, p)

    def fold(self, lo, hi, init, g):
        return self.e.folds.fold(iv(lo) if isinstance(lo, int) else lo, hi, init, g)

    def uf(self, name, *sorts):
        return self.e.func_symbol(name, *sorts)

    def cover(self, name):
        """vacuity guard: the current hypotheses must not be contradictory"""
        self.covers.append((self.name + ': ' + name, list(self.st.hyps())))


GLOBAL_ASSUMPTIONS = [
    'machine arithmetic: signed/unsigned integers are mathematical except for exact wrap-around of unsigned subtraction and casts; double is treated as the reals (no rounding, NaN or overflow)',
    'standard library semantics are trusted models (cppvc/stl.py)',
    'no exceptions from allocation; termination is not proved',
    'vector sizes below 2^62; code is verified with NDEBUG as in the Release build (the assert() conditions are discharged as index-in-range obligations)',
    'shared_ptr/raw pointers to repo objects are heap references; two references are equal iff they denote the same object',
]

ITEMS = []


class Item:
    def __init__(self, name, fn, driver, contracts, timeout, budget):
        self.name = name; self.fn = fn; self.driver = driver; self.contracts = contracts; self.timeout = timeout; self.budget = budget

    def contracts_for(self, ast):
        d = {}
        for c in self.contracts:
            for k in c.keys:
                d[k] = c
        return d


def proof(name, driver='core', contracts=(), timeout=10.0, budget=300):
    def deco(fn):
        ITEMS.append(Item(name, fn, driver, contracts, timeout, budget))
        return fn
    return deco


class Pure:
    """contract of a function whose body is not available (a call through an abstract interface): no effect on the state,
    result = the same unknown function of the described arguments"""

    def __init__(self, name, keys, result):
        self.name = name; self.keys = keys; self.result = result

    def matches(self, f):
        return True

    def apply(self, eng, st, this, args, n, fr, f):
        return self.result(View(eng, st), this, args)
