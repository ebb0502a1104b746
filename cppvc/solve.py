"""Discharging obligations: z3 (python API, in process) first, then cvc5 on the exported SMT-LIB query."""
import collections, ctypes, pickle, z3, time, subprocess, os, tempfile, threading
from .core import *

STATS = {'queries': 0, 'z3_s': 0.0, 'cvc5_s': 0.0, 'cvc5_q': 0}


class Result:
    def __init__(self, ok, backend, t, reason='', model=None, smt=None):
        self.ok = ok; self.backend = backend; self.t = t; self.reason = reason; self.model = model; self.smt = smt


def _collect_apps(folds, terms, memo, out):
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in memo:
            continue
        memo[i] = t
        if z3.is_quantifier(t):
            stack.append(t.body())      # applications mentioning bound variables are filtered below
            continue
        if folds.is_app(t) and not _has_var(t):
            out.append(t)
        stack.extend(t.children())


_hv = {}


def _has_var(t):
    i = t.get_id()
    r = _hv.get(i)
    if r is not None and r[0].eq(t):
        return r[1]
    if z3.is_var(t):
        v = True
    elif z3.is_quantifier(t):
        v = True
    else:
        v = any(_has_var(c) for c in t.children())
    _hv[i] = (t, v)
    return v


def split_goal(goal, hyps, out, pref='g'):
    """strip foralls / implications / conjunctions of a goal"""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [fresh('q_' + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        split_goal(body, (hyps[0], hyps[1] + vs), out)
        return
    if z3.is_implies(goal):
        a, b = goal.children()
        split_goal(b, (hyps[0] + flat_and(a), hyps[1]), out)
        return
    if z3.is_and(goal):
        for c in goal.children():
            split_goal(c, hyps, out)
        return
    out.append((hyps[0], hyps[1], goal))


def flat_and(a):
    if z3.is_and(a):
        r = []
        for c in a.children():
            r += flat_and(c)
        return r
    if z3.is_quantifier(a) and not a.is_forall():
        vs = [fresh('e_' + a.var_name(i), a.var_sort(i)) for i in range(a.num_vars())]
        return flat_and(z3.substitute_vars(a.body(), *reversed(vs)))
    return [a]


OFFSETS = []
HINTS = []


def instances(hyps, consts):
    out = []
    ints = [c for c in consts if c.sort() == I]
    ints = ints + [c + o for c in ints for o in OFFSETS] + HINTS
    if not ints:
        return out
    for h in hyps:
        q = h
        guard = None
        if z3.is_implies(h):
            guard, q = h.children()
        if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.var_sort(0) == I:
            for c in ints:
                b = z3.substitute_vars(q.body(), c)
                out.append(b if guard is None else z3.Implies(guard, b))
    return out


_FA = collections.OrderedDict()


def fold_axioms(folds, hyps, goals=(), rounds=2, cap=60):
    """instances of the fold axioms for the applications in hyps (cached) and goals"""
    key = (id(folds), rounds, tuple(m.get_id() for m in folds.splits), tuple(h.get_id() for h in hyps))
    ent = _FA.get(key)
    if ent is None:
        memo = {}; done = []
        ax = _fold_rounds(folds, hyps, memo, done, rounds, cap)
        ent = (list(hyps), list(folds.splits), memo, done, ax)
        _FA[key] = ent
        while len(_FA) > 24:
            _FA.popitem(last=False)
    else:
        _FA.move_to_end(key)
    if not goals:
        return ent[4]
    return ent[4] + _fold_rounds(folds, goals, dict(ent[2]), list(ent[3]), rounds, cap)


_SK = {}


def skolems(t):
    """the witnesses of extensionality axioms a term speaks about: folds about different witnesses are not compared"""
    i = t.get_id()
    e = _SK.get(i)
    if e is not None and e[0].eq(t):
        return e[1]
    if z3.is_quantifier(t):
        r = skolems(t.body())
    elif t.num_args() == 0:
        r = frozenset((i,)) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('sk!') else frozenset()
    else:
        r = frozenset().union(*[skolems(c) for c in t.children()])
    if len(_SK) > 200000:
        _SK.clear()
    _SK[i] = (t, r)
    return r


def _fold_rounds(folds, terms, memo, done, rounds, cap):
    apps = []
    bounds = any(m.eq(BOUNDS) for m in folds.splits)
    _collect_apps(folds, terms, memo, apps)
    ax = []
    todo = apps
    n0 = len(done)
    for r in range(rounds):
        new = []
        for t in todo:
            if len(done) - n0 > cap:
                break
            a = folds.unfold_axiom(t)
            if r == 0:
                for m in folds.splits:
                    if not m.eq(BOUNDS):
                        a += folds.split_axiom(t, m)
            a += folds.count_axioms(t)
            if bounds:
                a += folds.sign_axioms(t)
            kt = skolems(t)
            for s in done:
                if skolems(s) != kt:
                    continue
                a += folds.ext_axiom(s, t)
                if bounds:
                    a += folds.mono_axiom(s, t) + folds.mono_axiom(t, s)
            done.append(t)
            ax += a
            _collect_apps(folds, a, memo, new)
        todo = new
        if not todo:
            break
    # last layer: extensionality only
    last = []
    for t in todo[:cap]:
        kt = skolems(t)
        for s in done[:n0 + cap] + last:
            if skolems(s) != kt:
                continue
            ax += folds.ext_axiom(s, t)
        last.append(t)
    return ax


RL_PER_S = 1000000      # resource units that stand for one second: results do not depend on the load of the machine


FORKED = False


def pmap(fn, n, jobs=6, least=6):
    """[fn(0), ..., fn(n-1)] evaluated in forked children (results are pickled); statistics are added up here"""
    global FORKED
    if FORKED or n < least or jobs < 2:
        return [fn(i) for i in range(n)]
    q_r, q_w = os.pipe()
    os.write(q_w, b''.join(i.to_bytes(4, 'little') for i in range(n))) if n < 15000 else None
    os.close(q_w)
    kids = []
    for _ in range(min(jobs, n)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                FORKED = True
                ctypes.CDLL(None).prctl(1, 9)          # die with the parent
                os.close(r); s0 = dict(STATS); out = []
                while True:
                    b = os.read(q_r, 4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, 'little')
                    out.append((i, fn(i)))
                data = pickle.dumps((out, {k: STATS[k] - s0[k] for k in STATS}))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w); kids.append((pid, r))
    os.close(q_r)
    res = {}
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            out, st = pickle.loads(data)
        except Exception:
            continue
        res.update(out)
        for k in st:
            STATS[k] += st[k]
    return [res[i] if i in res else fn(i) for i in range(n)]


def mk_solver(timeout_ms, mbqi=False):
    s = z3.SimpleSolver()
    s.set('rlimit', int(timeout_ms / 1000.0 * RL_PER_S))
    if not FORKED:                 # (the timer threads of z3 do not survive a fork; rlimit bounds the query)
        s.set('timeout', int(timeout_ms * 8))
    s.set('auto_config', False)
    s.set('mbqi', mbqi)
    s.set('random_seed', 0)
    return s


def z3check(s, rl_s):
    """s.check() with a wall clock bound also in forked children"""
    tz = time.time()
    tm = None
    if FORKED:
        tm = threading.Timer(max(2.0, rl_s * 6), lambda: z3.main_ctx().interrupt())
        tm.daemon = True; tm.start()
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        if tm:
            tm.cancel()
        STATS['z3_s'] += time.time() - tz


def _ite_conds(terms, cnt, cap=4000):
    stack = list(terms); seen = set()
    while stack and cap:
        t = stack.pop(); i = t.get_id()
        if i in seen:
            continue
        seen.add(i); cap -= 1
        if z3.is_quantifier(t):
            stack.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE and not _has_var(t.arg(0)):
                c = t.arg(0)
                k = c.get_id()
                cnt[k] = (c, cnt.get(k, (c, 0))[1] + 1)
            stack.extend(t.children())


def _nested_exists(q):
    if z3.is_quantifier(q) and q.is_forall():
        stack = [q.body()]; n = 0
        while stack and n < 400:
            t = stack.pop(); n += 1
            if z3.is_quantifier(t):
                return True
            stack.extend(t.children())
    return False


def _quantified(h):
    if z3.is_quantifier(h):
        return True
    if z3.is_implies(h):
        return _quantified(h.arg(1))
    return False


_MUL = z3.Function('nl!mul', R, R, R)
_DIV = z3.Function('nl!div', R, R, R)
_NL = {}


def _const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def abs_nl(t):
    """non-linear real products and quotients as uninterpreted functions (weaker than arithmetic: unsat carries over)"""
    i = t.get_id()
    if i in _NL:
        return _NL[i][1]
    if z3.is_quantifier(t):
        vs = [fresh('nlq', t.var_sort(j)) for j in range(t.num_vars())]
        rv = list(reversed(vs))
        b0 = z3.substitute_vars(t.body(), *rv)
        b = abs_nl(b0)
        if b.eq(b0) or not (t.is_forall() or t.is_exists()):
            r = t
        else:
            ps = []
            for j in range(t.num_patterns()):
                p = t.pattern(j)
                q = [abs_nl(z3.substitute_vars(p.arg(x), *rv)) for x in range(p.num_args())]
                ps.append(z3.MultiPattern(*q) if len(q) > 1 else q[0])
            r = z3.ForAll(vs, b, patterns=ps) if t.is_forall() else z3.Exists(vs, b)
    elif not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        ch = t.children(); nc = [abs_nl(c) for c in ch]
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and t.sort() == R and sum(1 for c in nc if not _const(c)) > 1:
            f = sorted([c for c in nc if not _const(c)], key=lambda c: c.get_id())
            r = f[0]
            for c in f[1:]:
                r = _MUL(r, c)
            for c in nc:
                if _const(c):
                    r = c * r
        elif k == z3.Z3_OP_DIV and t.sort() == R and not _const(nc[1]):
            r = _DIV(nc[0], nc[1])
        elif all(x.eq(y) for x, y in zip(ch, nc)):
            r = t
        else:
            r = rebuild(t, nc)
    _NL[i] = (t, r)
    return r


def _nl_axioms():
    x, y = z3.Reals('x!nl y!nl')
    m, d = _MUL(x, y), _DIV(x, y)
    z = z3.RealVal(0)
    return [z3.ForAll([x, y], z3.And(z3.Implies(z3.Or(x == z, y == z), m == z), z3.Implies(z3.And(x > z, y > z), m > z), z3.Implies(z3.And(x < z, y < z), m > z),
                                     z3.Implies(z3.And(x < z, y > z), m < z), z3.Implies(z3.And(x > z, y < z), m < z)), patterns=[m]),
            z3.ForAll([x, y], z3.And(z3.Implies(z3.And(x == z, y != z), d == z), z3.Implies(z3.And(x > z, y > z), d > z), z3.Implies(z3.And(x < z, y > z), d < z),
                                     z3.Implies(z3.And(x < z, y < z), d > z), z3.Implies(z3.And(x > z, y < z), d < z)), patterns=[d])]


QUICK = False


def _attempt(folds, axioms, flat, consts, g, rl_s):
    inst = instances(flat, consts)
    ax1 = fold_axioms(folds, flat, inst + [g], rounds=1)
    if ax1:
        ax2 = fold_axioms(folds, flat, inst + [g], rounds=2)
        if len(ax2) > len(ax1) + 40:         # few axioms first
            r = _attempt1(axioms + flat + inst + ax1, g, rl_s if not QUICK else min(rl_s, 0.7))
            if r[0] == z3.unsat:
                return r
    else:
        ax2 = ax1
    return _attempt1(axioms + flat + inst + ax2, g, rl_s)


def _attempt1(allh, g, rl_s):
    try:
        nh = [abs_nl(h) for h in allh]; ng = abs_nl(g)
        nl = any(not x.eq(y) for x, y in zip(nh, allh)) or not ng.eq(g)
    except z3.Z3Exception:
        nl = False
    if nl:
        for nax in ([],) if QUICK else ([], _nl_axioms()):
            s = mk_solver(min(rl_s, 3.0) * 1000)
            s.add(*nh)
            s.add(*nax)
            s.add(z3.Not(ng))
            r = z3check(s, min(rl_s, 3.0))
            if r == z3.unsat:
                return r, s, allh
        if QUICK and ng.eq(g):          # screening of candidates: a linear goal that fails with products left uninterpreted is given up
            return r, s, allh
    s = mk_solver(rl_s * 1000)
    s.add(*allh)
    s.add(z3.Not(g))
    return z3check(s, rl_s), s, allh


def _cases(folds, axioms, flat, consts, g, rl_s, depth, budget):
    """split on the conditions of if-then-else terms"""
    cnt = {}
    _ite_conds([g], cnt)
    if not cnt:
        _ite_conds(flat, cnt)
    if not cnt or depth == 0:
        return False
    # largest conditions first: they are the path conditions
    c = sorted(cnt.values(), key=lambda x: -x[1])[0][0]
    for val in (True, False):
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        lit = c if val else z3.Not(c)
        sub = [(c, z3.BoolVal(val))]
        f2 = flat_and(lit)
        for h in flat:
            h2 = z3.simplify(z3.substitute(h, *sub), elim_ite=False, hoist_ite=False) if not z3.is_quantifier(h) else z3.substitute(h, *sub)
            if z3.is_true(h2):
                continue
            f2 += flat_and(h2) if z3.is_and(h2) else [h2]
        g2 = z3.simplify(z3.substitute(g, *sub)) if not z3.is_quantifier(g) else z3.substitute(g, *sub)
        if z3.is_true(g2):
            continue
        parts = []
        split_goal(g2, ([], []), parts)
        for h3, c3, g3 in parts:
            if z3.is_true(g3):
                continue
            H3 = f2 + h3
            r, _, _ = _attempt(folds, axioms, H3, consts + c3, g3, rl_s)
            if r != z3.unsat and any(_nested_exists(h) for h in H3):
                r, _, _ = _attempt(folds, axioms, [h for h in H3 if not _nested_exists(h)], consts + c3, g3, rl_s)
            if r != z3.unsat and not _cases(folds, axioms, H3, consts + c3, g3, rl_s, depth - 1, budget):
                return False
    return True


_SYMS = {}


def syms(t):
    """array constants and uninterpreted functions of a term"""
    k = t.get_id()
    if k in _SYMS:
        return _SYMS[k][1]
    out = set(); stack = [t]; seen = set()
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body()); continue
        if not z3.is_app(x):
            continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() > 0 or z3.is_array(x)):
            out.add(d.get_id())
        stack += x.children()
    _SYMS[k] = (t, out)
    return out


def relevant(flat, g):
    """the hypotheses without the quantified ones that share no array or function with the goal"""
    S = syms(g)
    return [h for h in flat if not _quantified(h) or (syms(h) & S)]


def _quantified(h):
    if z3.is_quantifier(h):
        return True
    return z3.is_app(h) and any(_quantified(c) for c in h.children() if z3.is_bool(c))


def push_sel(t, memo=None):
    """select over an if-then-else of arrays becomes an if-then-else of selects (so that triggers match)"""
    if memo is None:
        memo = {}
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        ch = t.children(); nc = [push_sel(c, memo) for c in ch]
        if t.decl().kind() == z3.Z3_OP_SELECT and z3.is_app(nc[0]) and nc[0].decl().kind() == z3.Z3_OP_ITE:
            c, a, b = nc[0].children()
            r = z3.If(c, push_sel(z3.Select(a, nc[1]), memo), push_sel(z3.Select(b, nc[1]), memo))
        elif all(x is y for x, y in zip(ch, nc)) or all(x.eq(y) for x, y in zip(ch, nc)):
            r = t
        else:
            r = t.decl()(*nc)
    memo[i] = (t, r)
    return r


def check(folds, axioms, hyps, goal, timeout=5.0, cvc5=True, want_model=False, only_quick=False, cases=0):
    """prove hyps |- goal"""
    global QUICK
    QUICK = only_quick
    STATS['queries'] += 1
    t0 = time.time()
    parts = []
    split_goal(goal, ([], []), parts)
    backend = 'z3'
    for (h2, consts, g) in parts:
        if z3.is_true(z3.simplify(g)):
            continue
        g = push_sel(g)
        H = hyps + h2
        flat = []
        for h in H:
            flat += flat_and(h) if z3.is_and(h) else [h]
        rel = relevant(flat, g)
        if len(rel) < len(flat) and _attempt(folds, axioms, rel, consts, g, min(timeout, 1.0))[0] == z3.unsat:
            continue
        r, s, allh = _attempt(folds, axioms, flat, consts, g, timeout if only_quick else min(timeout, 3.0))
        if r == z3.unsat:
            continue
        if only_quick and cases and _cases(folds, axioms, flat, consts, g, timeout, cases, [2 ** cases + 2]):
            continue
        if only_quick:
            return Result(False, 'z3', time.time() - t0, str(r))
        reason = 'z3: %s (%s)' % (r, s.reason_unknown() if r == z3.unknown else 'model')
        smt = None
        model = s.model() if r == z3.sat else None
        # fewer hypotheses (always sound), then a case split on path conditions, then cvc5, then the full budget
        lean = [h for h in flat if not _nested_exists(h)]
        if len(lean) < len(flat) and _attempt(folds, axioms, lean, consts, g, min(timeout, 3.0))[0] == z3.unsat:
            continue
        if _cases(folds, axioms, flat, consts, g, min(timeout, 2.0), 4, [16]):
            backend = 'z3 (case split)'
            continue
        if cvc5:
            s3 = z3.SimpleSolver(); s3.add(*allh); s3.add(z3.Not(g)); smt = s3.to_smt2()
            ok, why = run_cvc5(smt, timeout)
            if ok:
                backend = 'z3+cvc5'
                continue
            reason += '; cvc5: ' + why
        if timeout > 3.0 and s.reason_unknown() in ('canceled', 'timeout', 'max. resource limit exceeded') and _attempt(folds, axioms, flat, consts, g, timeout)[0] == z3.unsat:
            continue
        if want_model and model is None:
            s2 = mk_solver(4000, mbqi=True)
            s2.add(*allh); s2.add(z3.Not(g))
            if s2.check() == z3.sat:
                model = s2.model(); reason += '; z3-mbqi: sat'
        return Result(False, backend, time.time() - t0, reason, model, smt if smt else (s.to_smt2() if want_model else None))
    return Result(True, backend, time.time() - t0)


def run_cvc5(smt, timeout):
    STATS['cvc5_q'] += 1
    t0 = time.time()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + smt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
        out = r.stdout.decode(errors='replace').strip()
        return out.startswith('unsat'), out[:80].replace('\n', ' ')
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    finally:
        STATS['cvc5_s'] += time.time() - t0
        os.unlink(p)


def consistent(folds, axioms, hyps, timeout=2.0):
    """False iff the hypotheses are contradictory (vacuity guard / dead path)"""
    s = mk_solver(timeout * 1000)
    flat = []
    for h in hyps:
        flat += flat_and(h) if z3.is_and(h) else [h]
    s.add(*(axioms + flat + fold_axioms(folds, flat)))
    t = time.time()
    r = s.check()
    STATS['z3_s'] += time.time() - t
    return r != z3.unsat
