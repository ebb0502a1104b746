"""Loops: cut at the head by inferred invariants (Houdini over candidate schemas; every kept candidate is proved at entry and
across an arbitrary iteration).  No bound on the number of iterations."""
import z3, os, time
from . import ctypes_ as T
from .core import *
from . import solve


import time
PT0 = time.time()
DBG = int(os.environ.get('CPPVC_DBG', '0'))


def inner(n):
    return [c for c in n.get('inner', []) if c]


class Leaf:
    __slots__ = ('id', 'term', 'et')

    def __init__(self, id, term, et=None):
        self.id = id; self.term = term; self.et = et


class LoopCtx:
    """what invariant templates see"""

    def __init__(self, eng, entry, H, back, W, mods, node, fr):
        self.eng = eng; self.entry = entry; self.H = H; self.back = back; self.W = W; self.mods = mods; self.node = node; self.fr = fr

    def ints(self):
        return [m for m in self.mods if m.h.sort() == I]

    def reals(self):
        return [m for m in self.mods if m.h.sort() == R]


class Mod:
    """a modified leaf: head constant h, entry term e, back-edge term b"""
    __slots__ = ('id', 'h', 'e', 'b', 'et', 'delta', 'name', 'closed')

    def __init__(self, id, h, e, b, et):
        self.id = id; self.h = h; self.e = e; self.b = b; self.et = et; self.delta = None; self.name = str(id); self.closed = None


class LoopMixin:
    # ------------------------------------------------------------ statement forms
    def for_stmt(self, n, st, fr):
        raw = n.get('inner', [])
        init, condvar, cond, inc, body = (raw + [None] * 5)[:5]
        if init and init.get('kind'):
            cur, o = self.stmt(init, st, fr)
            st = cur

        def c(s):
            if cond and cond.get('kind'):
                return self.cond(cond, s, fr)
            return z3.BoolVal(True)

        def b(s):
            return self.stmt(body, s, fr)

        def i(s):
            if inc and inc.get('kind'):
                self.ev_discard(inc, s, fr)
        return self.loop(st, fr, c, b, i, n)

    def while_stmt(self, n, st, fr):
        ch = inner(n)
        return self.loop(st, fr, lambda s: self.cond(ch[-2], s, fr), lambda s: self.stmt(ch[-1], s, fr), lambda s: None, n)

    def do_stmt(self, n, st, fr):
        ch = inner(n)
        # do { } while(0) is a plain block
        c = ch[1]
        m = c
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'ConstantExpr'):
            m = inner(m)[0]
        lit = None
        if m['kind'] == 'IntegerLiteral':
            lit = int(m['value'])
        elif m['kind'] == 'CXXBoolLiteralExpr':
            lit = int(bool(m['value']))
        if lit == 0:
            nb, nf = len(st.guards), len(st.facts)
            nxt, outs = self.stmt(ch[0], st, fr)
            states = [nxt] if nxt is not None else []
            rest = []
            for o in outs:
                if o[0] in ('brk', 'cont'):
                    states.append(o[1])
                else:
                    rest.append(o)
            return self.merge_many(states, nb, nf), rest
        return self.loop(st, fr, lambda s: self.cond(c, s, fr), lambda s: self.stmt(ch[0], s, fr), lambda s: None, n, post_test=True)

    def range_for(self, n, st, fr):
        raw = n.get('inner', [])
        # init, range, begin, end, cond, inc, loopvar, body
        init, rng, beg, end, cond, inc, var, body = (raw + [None] * 8)[:8]
        if init and init.get('kind'):
            self.stmt(init, st, fr)
        rd = inner(rng)[0]
        rty = T.parse(rd['type'].get('desugaredQualType', rd['type']['qualType']))
        e = [c for c in inner(rd)][-1]
        cty = rty
        # evaluate the range to a container location
        loc = self.bind_ref(e, st, fr)
        key = self.newkey('__range')
        st.store[key] = RefVal(loc)
        fr.vars[rd['id']] = key
        v = self.read(loc, st)
        if isinstance(v, (VecVal,)):
            # model the hidden iterators by an index
            ik = self.newkey('__idx')
            st.store[ik] = iv(0)
            ek = self.newkey('__end')
            st.store[ek] = v.len

            def c(s):
                return s.store[ik] < s.store[ek]

            def b(s):
                vd = inner(var)[0]
                k = self.newkey(vd.get('name', 'it'))
                fr.vars[vd['id']] = k
                el = loc.i(s.store[ik])
                # the mutation of the container during iteration would invalidate the iterators
                self.safe('range-for: container not resized while iterating', s, self.read(loc, s).len == s.store[ek], n, fr)
                tq = vd['type']['qualType']
                if T.is_ref(tq) or T.is_ref(vd['type'].get('desugaredQualType', tq)):
                    s.store[k] = RefVal(self.resolve(el, s))
                else:
                    s.store[k] = self.read(el, s)
                return self.stmt(body, s, fr)

            def i(s):
                s.store[ik] = s.store[ik] + 1
            return self.loop(st, fr, c, b, i, n)
        if isinstance(v, StructVal) or (isinstance(v, Opaque)):
            # class with begin()/end(): use the desugared declarations
            self.decl(inner(beg)[0], st, fr)
            self.decl(inner(end)[0], st, fr)

            def c(s):
                return self.cond(cond, s, fr)

            def b(s):
                self.decl(inner(var)[0], s, fr)
                return self.stmt(body, s, fr)

            def i(s):
                self.ev_discard(inc, s, fr)
            return self.loop(st, fr, c, b, i, n)
        raise Unsupported('range-for over %s' % type(v).__name__)

    # ------------------------------------------------------------ leaves
    def val_leaves(self, v, path, out):
        if is_z3(v):
            out.append(Leaf(path, v))
        elif isinstance(v, VecVal):
            out.append(Leaf(path + ('len',), v.len))
            out.append(Leaf(path + ('arr',), v.arr, v.et))
        elif isinstance(v, StructVal):
            for k, x in v.f.items():
                self.val_leaves(x, path + ('.' + k,), out)
        elif isinstance(v, IterVal):
            out.append(Leaf(path + ('idx',), v.idx))
        elif isinstance(v, SetVal):
            out.append(Leaf(path + ('dom',), v.dom)); out.append(Leaf(path + ('len',), v.len))
        elif isinstance(v, MapVal):
            out.append(Leaf(path + ('dom',), v.dom)); out.append(Leaf(path + ('mval',), v.val)); out.append(Leaf(path + ('len',), v.len))
        elif isinstance(v, MapIterVal):
            out.append(Leaf(path + ('key',), v.key)); out.append(Leaf(path + ('valid',), v.valid))

    def leaves(self, st):
        out = []
        for k, v in st.store.items():
            self.val_leaves(v, (k,), out)
        for k, a in st.heap.items():
            owner, ty = self.field_owner(*k)
            out.append(Leaf(('heap', k), a, ty))
        out.append(Leaf(('alloc',), st.alloc))
        for k, v in st.ghost.items():
            if is_z3(v):
                out.append(Leaf(('ghost', k), v))
        return {l.id: l for l in out}

    def set_leaf(self, st, id, term):
        if id == ('alloc',):
            st.alloc = term
            return
        if id[0] == 'heap':
            st.heap[id[1]] = term
            return
        if id[0] == 'ghost':
            st.ghost[id[1]] = term
            return
        st.store[id[0]] = self._set(st.store[id[0]], id[1:], term)

    def _set(self, v, path, term):
        if not path:
            return term
        p = path[0]
        if isinstance(v, VecVal):
            return VecVal(v.et, term, v.arr) if p == 'len' else VecVal(v.et, v.len, term)
        if isinstance(v, StructVal):
            return v.with_(p[1:], self._set(v.f[p[1:]], path[1:], term))
        if isinstance(v, IterVal):
            return IterVal(v.loc, term, v.rev)
        if isinstance(v, SetVal):
            return SetVal(v.kt, term, v.len) if p == 'dom' else SetVal(v.kt, v.dom, term)
        if isinstance(v, MapVal):
            return MapVal(v.kt, v.vt, term if p == 'dom' else v.dom, term if p == 'mval' else v.val, term if p == 'len' else v.len)
        if isinstance(v, MapIterVal):
            return MapIterVal(v.loc, term if p == 'key' else v.key, term if p == 'valid' else v.valid)
        raise Unsupported('set leaf %s' % (path,))

    def changed(self, a, b, known_missing=True):
        """leaf ids of state a whose value differs in state b; (ids, structurally changed keys)"""
        la = self.leaves(a); lb = self.leaves(b)
        ids = set()
        for i, l in la.items():
            m = lb.get(i)
            if m is None:
                if i[0] in b.store and i[0] not in ('heap', 'alloc', 'ghost'):
                    raise Unsupported('loop changes the shape of variable %s' % (i,))
                continue
            if not l.term.eq(m.term):
                ids.add(i)
        for i in lb:
            if i[0] == 'heap' and i not in la and not lb[i].term.eq(self.heap0(i[1][0], i[1][1])):
                ids.add(i)
        # values without leaves (closures, refs) must not change
        for k, v in a.store.items():
            if isinstance(v, (RefVal,)) and k in b.store and not same(v, b.store[k]):
                raise Unsupported('loop changes a reference')
            if isinstance(v, IterVal) and k in b.store and isinstance(b.store[k], IterVal) and not same(v.loc, b.store[k].loc):
                raise Unsupported('loop moves an iterator to another container')
            if isinstance(b.store.get(k), Unmergeable):
                raise Unsupported(b.store[k].why)
        return ids

    # ------------------------------------------------------------ the loop rule
    def loop(self, st, fr, cond, body, inc, node, post_test=False):
        self.in_loop += 1
        try:
            r, rets = self.loop_(st, fr, cond, body, inc, node, post_test)
        finally:
            self.in_loop -= 1
        if r is None:
            return None, rets
        exits, nb, nf = r
        return self._exits(exits, nb, nf), rets

    def loop_(self, st, fr, cond, body, inc, node, post_test=False):
        where = self.where(node, fr)
        if os.environ.get('CPPVC_PROF'):
            print('PROF LOOP', where, self.in_loop, 'probe' if getattr(self, 'probe', False) else '')

        def run_iter(H):
            """-> back state or None, [exit states], [other outcomes]"""
            rets, exits = [], []
            if not post_test:
                s = H.copy()
                try:
                    c = z3.simplify(cond(s))
                except Terminated_():
                    return None, [], []
                if not z3.is_true(c):
                    e = s.copy(); e.guards.append(neg(c)); exits.append(e)
                if z3.is_false(c):
                    return None, exits, []
                if not z3.is_true(c):
                    s.guards.append(c)
            else:
                s = H.copy()
            nb, nf = len(s.guards), len(s.facts)
            nxt, outs = body(s)
            conts = [nxt] if nxt is not None else []
            for o in outs:
                if o[0] == 'cont':
                    conts.append(o[1])
                elif o[0] == 'brk':
                    exits.append(o[1])
                else:
                    rets.append(o)
            back = None
            if conts:
                back = self.merge_many(conts, nb, nf)
                inc(back)
                if post_test:
                    c = z3.simplify(cond(back))
                    if not z3.is_true(c):
                        e = back.copy(); e.guards.append(neg(c)); exits.append(e)
                    if z3.is_false(c):
                        back = None
                    elif not z3.is_true(c):
                        back.guards.append(c)
            return back, exits, rets

        nb, nf = len(st.guards), len(st.facts)
        entry = st
        entry_guards = list(st.guards)
        rec0 = self.record
        probe0 = getattr(self, 'probe', False)
        W = set()
        havocs = {}

        def mk_head(extra=()):
            H = entry.copy()
            for i in W:
                l = self.leaves(entry).get(i)
                if l is None:          # heap array first touched in the loop
                    a, owner, ty = self.heap_arr(entry, i[1][0], i[1][1])
                    l = Leaf(i, a, ty)
                if i not in havocs:
                    nm = '_'.join(str(x[1] if isinstance(x, tuple) else x) for x in i).replace('#', '_')
                    havocs[i] = fresh(nm, l.term.sort())
                self.set_leaf(H, i, havocs[i])
            return H

        # 1. write set
        self.record = False
        self.probe = True
        try:
            for _ in range(12):
                H = mk_head()
                back, exits, rets = run_iter(H)
                if back is None:
                    new = set()
                else:
                    new = self.changed(H, back)
                if new <= W:
                    break
                W |= new
            else:
                raise Unsupported('write set does not stabilise')
        finally:
            self.probe = probe0
            self.record = rec0
        if back is None and not W:
            # at most one pass through the body (e.g. always breaks / returns): no invariant needed
            back, exits, rets = run_iter(entry.copy())
            if back is None:
                return (exits, nb, nf), rets
        lv0 = self.leaves(entry)
        ent_leaf = {i: lv0[i] for i in W}
        H0 = mk_head()
        hconst = {i: havocs[i] for i in W}
        ent = {i: ent_leaf[i].term for i in W}
        subst_entry = [(hconst[i], ent[i]) for i in W]

        def at_entry(f):
            return z3.substitute(f, *subst_entry) if subst_entry else f

        def at(state, f):
            lv = self.leaves(state)
            return z3.substitute(f, *[(hconst[i], lv[i].term) for i in W]) if W else f

        if probe0:
            # inside an outer probe: havoc only
            H = mk_head()
            self.record = False
            back, exits, rets = run_iter(H)
            self.record = rec0
            return (exits, nb, nf), rets

        base_facts = self.type_facts(W, hconst, ent_leaf, H0)
        # 2. basic numeric candidates
        self.record = False
        kept = []
        cands = []
        try:
            self.probe = True
            H = mk_head()
            back, exits, rets = run_iter(H)
            self.probe = False
            mods = self.mods(W, hconst, ent_leaf, back)
            basic = self.basic_cands(mods, H, back, exits, cond, post_test) + [('type', f) for f in base_facts]
            basic = self.entry_filter(basic, entry, at_entry)
            # the first full run (inner loops get invariants) under the basic candidates
            rounds = 0
            nested = self.has_loop(node) 
            while True:
                H = mk_head(); H.assume(*[f for _, f in basic])
                back, exits, rets = run_iter(H)
                if back is None:
                    break
                lost = self.preserve_filter(basic, back, at, hconst)
                if not lost:
                    break
                basic = [c for c in basic if c not in lost]
                rounds += 1
                if rounds > 8:
                    basic = []
            # 3. derived candidates
            if back is not None:
                mods = self.mods(W, hconst, ent_leaf, back)
                more = self.derived_cands(mods, H, back, len(H.facts), entry)
                more += self.restated(mods, entry)
                ctx = LoopCtx(self, entry, H, back, W, mods, node, fr)
                for t in self.loop_templates:
                    try:
                        for item in t(ctx) or []:
                            more.append(item if isinstance(item, tuple) else ('tmpl', item))
                    except (Unsupported, z3.Z3Exception, KeyError, AttributeError) as ex:
                        if DBG: print('TEMPLATE', repr(ex))
                        pass
                seen = set()
                uniq = []
                for nm, f in more:
                    f = z3.simplify(f) if not z3.is_quantifier(f) else f
                    if z3.is_true(f):
                        continue
                    h = f.get_id()
                    if h not in seen:
                        seen.add(h); uniq.append((nm, f))
                more = self.entry_filter(uniq, entry, at_entry)
                if DBG:
                    for nm, f in uniq:
                        print('CAND', where, nm, 'ok' if any(f is g for _, g in more) else 'ENTRY-LOST', str(f).replace('\n', ' ')[:DBG])
                cands = basic + more
                for _ in range(10):
                    H = mk_head(); H.assume(*[f for _, f in cands])
                    if nested or _ == 0:
                        back, exits, rets = run_iter(H)
                        nH = len(H.facts)
                    else:
                        # body results do not depend on the assumed candidates
                        back = self.swap_facts(back, H, nH)
                        nH = len(H.facts)
                    if back is None:
                        break
                    lost = self.preserve_filter(cands, back, at, hconst)
                    if not lost:
                        break
                    cands = [c for c in cands if c not in lost]
                    # inner fixpoint without re-running
                    while True:
                        H = mk_head(); H.assume(*[f for _, f in cands])
                        b2 = self.swap_facts(back, H, nH)
                        lost = self.preserve_filter(cands, b2, at, hconst)
                        if not lost:
                            break
                        cands = [c for c in cands if c not in lost]
                    if not nested:
                        break
                else:
                    raise Unsupported('invariant inference does not stabilise')
            else:
                cands = basic
        finally:
            self.record = rec0
            self.probe = probe0
        # 4. final run with recording
        H = mk_head(); H.assume(*[f for _, f in cands])
        back, exits, rets = run_iter(H)
        if rec0 and back is not None:
            # the kept candidates are obligations too: re-discharged at the end on the recorded run
            for nm, f in cands:
                self.obls.append(Obl_('invariant holds on entry [%s]' % nm, entry.hyps(), at_entry(f), where, 'inv-entry'))
                self.obls.append(Obl_('invariant preserved [%s]' % nm, back.hyps(), at(back, f), where, 'inv-preserve',
                                      (self.with_splits(f, hconst), [], []) if nm == 'restated' and self.has_fold(f) else None))
        if DBG:
            for nm, f in cands:
                print('KEPT', where, nm, str(f).replace('\n', ' ')[:DBG])
        self.loop_log.append((where, len(cands)))
        exits = [self.close_exit(e, W, hconst, cands, mods) for e in exits]
        return (exits, nb, nf), rets

    def _exits(self, exits, nb, nf):
        if not exits:
            return None
        return self.merge_many(exits, nb, nf)

    def swap_facts(self, back, H, n):
        """back state re-based on another set of assumed candidates (H.facts prefix replaced)"""
        s = back.copy()
        s.facts = list(H.facts) + back.facts[n:]
        return s

    def has_loop(self, n):
        k = n.get('kind')
        return True if self._count_loops(n) > 1 or self._has_call(n) else False

    def _count_loops(self, n):
        c = 1 if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') else 0
        for x in n.get('inner', []) or []:
            if x:
                c += self._count_loops(x)
        return c

    def _has_call(self, n):
        if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
            return True
        return any(self._has_call(x) for x in n.get('inner', []) or [] if x)

    def type_facts(self, W, hconst, ent_leaf, H):
        out = []
        k = z3.Int('k!tf')
        for i in W:
            c = hconst[i]; et = ent_leaf[i].et
            if i[-1] == 'len':
                out.append(c >= 0)
            if i[-1] == 'arr' and et is not None and et[0] == 'ptr':
                out.append(FA([k], z3.And(z3.Select(c, k) >= 0, z3.Select(c, k) < H.alloc), patterns=[z3.Select(c, k)]))
            if i[-1] == 'arr' and et is not None and et[0] == 'int' and not et[2]:
                out.append(FA([k], z3.Select(c, k) >= 0, patterns=[z3.Select(c, k)]))
            if i[-1] == 'arr' and et is not None and et[0] in ('vec',):
                s = c.sort().range()
                out.append(FA([k], s.accessor(0, 0)(z3.Select(c, k)) >= 0, patterns=[z3.Select(c, k)]))
            if i[-1] == 'arr' and et is not None and et[0] == 'cls':
                v = self.sorts.unpack(z3.Select(c, k), et)
                for nme, x in v.f.items():
                    if isinstance(x, VecVal):
                        out.append(FA([k], x.len >= 0, patterns=[z3.Select(c, k)]))
            if i[0] == 'heap' and et is not None and et[0] == 'vec':
                s = c.sort().range()
                out.append(FA([k], s.accessor(0, 0)(z3.Select(c, k)) >= 0, patterns=[z3.Select(c, k)]))
        return out

    def mods(self, W, hconst, ent_leaf, back):
        if back is None:
            return []
        lv = self.leaves(back)
        out = []
        for i in sorted(W, key=str):
            m = Mod(i, hconst[i], ent_leaf[i].term, old_objects(lv[i].term), ent_leaf[i].et)
            if m.h.sort() == I:
                d = z3.simplify(m.b - m.h)
                if z3.is_int_value(d):
                    m.delta = d.as_long()
            out.append(m)
        return out

    # ------------------------------------------------------------ candidates
    def atoms(self, f, out):
        if z3.is_and(f) or z3.is_or(f):
            for c in f.children():
                self.atoms(c, out)
        elif z3.is_not(f):
            self.atoms(f.arg(0), out)
        elif z3.is_app(f) and f.num_args() == 2 and f.arg(0).sort() == I and f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            out.append((f.arg(0), f.arg(1)))

    def basic_cands(self, mods, H, back, exits, cond, post_test):
        out = []
        ints = [m for m in mods if m.h.sort() == I]
        counters = [m for m in ints if m.delta]
        for m in ints:
            out.append(('nonneg', m.h >= 0))
            if m.delta is None:
                out.append(('mono', m.h >= m.e)); out.append(('mono', m.h <= m.e))
            elif m.delta > 0:
                out.append(('mono', m.h >= m.e))
            elif m.delta < 0:
                out.append(('mono', m.h <= m.e))
        prim = counters[0] if counters else None
        for m in counters[1:]:
            if prim.delta == m.delta:
                out.append(('lin', m.h - m.e == prim.h - prim.e))
            else:
                out.append(('lin', (m.h - m.e) * prim.delta == (prim.h - prim.e) * m.delta))
        ats = []
        H1 = H.copy()
        try:
            c = cond(H1)
            self.atoms(c, ats)
        except Exception:
            pass
        if back is not None:
            for g in back.guards[len(H.guards):]:
                self.atoms(g, ats)
        for e in exits:
            for g in e.guards[len(H.guards):]:
                self.atoms(g, ats)
        hs = {m.h.get_id(): m for m in ints}
        for a, b in ats[:12]:
            if not (self.mentions(a, hs) or self.mentions(b, hs)):
                continue
            d = z3.simplify(a - b)
            out.append(('bound', a <= b)); out.append(('bound', a >= b))
            out.append(('bound', a <= b + 1)); out.append(('bound', a >= b - 1))
            for m in ints:
                if m.delta and a.eq(m.h):
                    out.append(('bound', z3.Or(a <= b, a == m.e))); out.append(('bound', z3.Or(a >= b, a == m.e)))
                if m.delta and b.eq(m.h):
                    out.append(('bound', z3.Or(b <= a, b == m.e))); out.append(('bound', z3.Or(b >= a, b == m.e)))
        # len <= counter progress, and order between int leaves
        for m in ints:
            if m.delta is None and prim is not None and prim.delta == 1:
                out.append(('prog', m.h - m.e <= prim.h - prim.e))
                out.append(('prog', m.h <= prim.h))
                out.append(('prog', m.h < prim.h))
                out.append(('prog', z3.Or(m.h == m.e, m.h < prim.h)))
        return out

    def mentions(self, t, ids):
        stack = [t]; seen = set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                return True
            if z3.is_quantifier(x):
                stack.append(x.body())
            else:
                stack.extend(x.children())
        return False

    def consts_in(self, t):
        stack = [t]; seen = set(); out = {}
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
            else:
                stack.extend(x.children())
        return out

    def derived_cands(self, mods, H, back, nH, entry):
        out = []
        counters = [m for m in mods if m.h.sort() == I and m.delta in (1, -1)]
        if not counters:
            return out
        user = [m for m in counters if m.delta == 1 and m.id != ('alloc',) and m.id[-1] != 'len']
        prim = (user or [m for m in counters if m.delta == 1] or counters)[0]
        p, p0 = prim.h, prim.e
        new_after = self.fresh_consts(back, H)       # constants introduced by the body (inner loops, callee posts)
        byh = {m.h.get_id(): m for m in mods}
        # closed forms at iteration index k (value of the primary counter): list of (const, fn(k))
        closed = {}

        def dist(k):
            return (k - p0) if prim.delta == 1 else (p0 - k)
        for m in mods:
            if m.h.sort() == I and m.delta is not None:
                closed[m.h.get_id()] = (m.h, (lambda k, m=m: m.e + (dist(k) * m.delta if m.delta != 1 else dist(k)) if m is not prim else k))

        def close(term, k, drop_arr=False):
            """rewrite head constants in term to their closed form at k; None if impossible"""
            cs = self.consts_in(term)
            sub = []
            for i, c in cs.items():
                if i in closed:
                    sub.append((c, closed[i][1](k)))
                elif i in byh:
                    m = byh[i]
                    if drop_arr and z3.is_array(c):
                        sub.append((c, m.e))
                    else:
                        return None
                elif c.get_id() in new_after:
                    return None
            return z3.substitute(term, *sub) if sub else term
        # accumulators
        A_done = True
        pending = [m for m in mods if m.h.get_id() not in closed and not z3.is_array(m.h)]
        for _ in range(3):
            rest = []
            for m in pending:
                srt = m.h.sort()
                if srt not in (I, R, B, STRS):
                    rest.append(m); continue
                forms = []
                for drop in (False, True):
                    A = z3.Const('A!acc', srt); K = z3.Const('K!idx', I)
                    body0 = z3.substitute(m.b, (m.h, A))
                    if prim.delta == 1:
                        body = close(body0, K, drop)
                    else:
                        body = close(body0, p0 - K, drop)
                    if body is None:
                        continue
                    if not occurs(body, A):
                        # overwritten in every iteration: the value of the last one
                        val = lambda k, body=body: z3.simplify(z3.substitute(body, (K, k)))
                        if prim.delta == 1:
                            fn = lambda k, m=m, val=val: z3.If(k <= p0, m.e, val(k - 1))
                        else:
                            fn = lambda k, m=m, val=val: z3.If(k >= p0, m.e, val(p0 - k - 1))
                        out.append(('last', m.h == fn(p)))
                        forms.append(fn)
                        break
                    try:
                        if prim.delta == 1:
                            fn = lambda k, body=body, m=m: self.folds.fold_body(p0, k, m.e, body, z3.Const('A!acc', m.h.sort()), z3.Const('K!idx', I))
                        else:
                            fn = lambda k, body=body, m=m: self.folds.fold_body(iv(0), p0 - k, m.e, body, z3.Const('A!acc', m.h.sort()), z3.Const('K!idx', I))
                        out.append(('fold %s' % (m.id[-1] if len(m.id) > 1 else m.id[0],), m.h == fn(p)))
                        forms.append(fn)
                        break
                    except Unsupported:
                        pass
                if forms:
                    closed[m.h.get_id()] = (m.h, forms[0])
                else:
                    rest.append(m)
            if len(rest) == len(pending):
                break
            pending = rest
        self.extremum_cands(mods, byh, H, back, p, p0, prim, close, out)
        # arrays
        body_facts = back.facts[nH:]
        for m in mods:
            if not z3.is_array(m.h):
                continue
            self.array_cands(m.h, m.e, m.b, lambda a: a, m, p, p0, prim, close, closed, new_after, body_facts, out, mods, entry, 0)
        return out

    def restated(self, mods, entry):
        """what was known about the modified variables on entry, restated for their current values; pairwise equal progress"""
        out = []
        sub = [(m.e, m.h) for m in mods if not z3.is_int_value(m.e) and not z3.is_rational_value(m.e) and not z3.is_true(m.e) and not z3.is_false(m.e)
               and z3.is_const(m.e) and m.id != ('alloc',)]
        ids = set(e.get_id() for e, _ in sub)
        if ids:
            n = 0
            for f in reversed(entry.facts):
                if self.mentions(f, ids) and self.size_of(f) < 150:
                    out.append(('restated', z3.substitute(f, *sub))); n += 1
                    if n > 40:
                        break
        ints = [m for m in mods if m.h.sort() == I and m.id != ('alloc',)]
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                if a.delta is None or b.delta is None:
                    out.append(('progress', a.h - a.e == b.h - b.e))
                    if a.id[-1] == 'len' or b.id[-1] == 'len':
                        out.append(('progress', a.h - a.e == b.e - b.h))
        return out

    def size_of(self, f, cap=200):
        stack = [f]; n = 0
        while stack and n < cap:
            x = stack.pop(); n += 1
            stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
        return n

    def num_atoms(self, f, out):
        if z3.is_and(f) or z3.is_or(f) or z3.is_not(f) or z3.is_implies(f):
            for c in f.children():
                self.num_atoms(c, out)
        elif z3.is_app(f) and f.num_args() == 2 and f.arg(0).sort() in (I, R) and f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            out.append((f.arg(0), f.arg(1)))

    def ite_leaves(self, t, out, conds):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            conds.append(t.arg(0))
            self.ite_leaves(t.arg(1), out, conds); self.ite_leaves(t.arg(2), out, conds)
        elif not any(t.eq(x) for x in out):
            out.append(t)

    def extremum_cands(self, mods, byh, H, back, p, p0, prim, close, out):
        """running extrema (value, arg-extremum, both), searches that leave the loop, and conditional selections"""
        k = z3.Int('k!xc')
        rng = z3.And(p0 <= k, k < p) if prim.delta == 1 else z3.And(p < k, k <= p0)
        allk = lambda f: FA([k], z3.Implies(rng, f))
        exk = lambda f: z3.Exists([k], z3.And(rng, f))
        sel = []
        for m in mods:
            if m.h.sort() not in (I, R) or m.delta is not None:
                continue
            lv, conds = [], []
            self.ite_leaves(m.b, lv, conds)
            if not conds or not any(x.eq(m.h) for x in lv):
                continue
            sel.append((m, [x for x in lv if not x.eq(m.h)], conds))
        for m, vals, conds in sel:
            out.append(('ext', m.h >= m.e)); out.append(('ext', m.h <= m.e))
            opts = [m.h == m.e]
            for v in vals[:4]:
                vk = close(v, k)
                if vk is None:
                    continue
                if self.mentions(vk, {k.get_id()}) or prim is not None:
                    for f in (m.h >= vk, m.h <= vk):
                        out.append(('ext', allk(f)))
                    opts.append(exk(m.h == vk))
            out.append(('ext', z3.Or(*opts)))
            out.append(('ext', z3.Or(*opts[1:]))) if len(opts) > 1 else None
        # selected index remembers where the value was taken
        for m, vals, conds in sel:
            if m.h.sort() != I:
                continue
            if not any(v.eq(p) for v in vals):
                pv = [v for v in vals if close(v, k) is not None and close(v, k).eq(k)]
                if not pv:
                    continue
            inr = z3.And(p0 <= m.h, m.h < p) if prim.delta == 1 else z3.And(p < m.h, m.h <= p0)
            out.append(('arg', inr)); out.append(('arg', z3.Or(inr, m.h == m.e)))
            for m2, vals2, conds2 in sel:
                if m2 is m:
                    continue
                for v in vals2[:3]:
                    vk = close(v, k)
                    if vk is not None:
                        vm = z3.substitute(vk, (k, m.h))
                        out.append(('arg', m2.h == vm)); out.append(('arg', z3.Or(m.h == m.e, m2.h == vm))); out.append(('arg', z3.Or(m2.h == m2.e, m2.h == vm)))
        for m, vals, conds in sel:
            ats = []
            for c in conds:
                self.num_atoms(c, ats)
            for a, b in ats[:6]:
                for x, y in ((a, b), (b, a)):
                    if not self.mentions(x, {p.get_id()}):
                        continue
                    xk = close(x, k)
                    if xk is None:
                        continue
                    for f in (xk <= y, xk >= y):
                        out.append(('ext', allk(f)))
                        if not m.e.eq(m.h) and m.h.sort() == I:
                            out.append(('ext', z3.Or(m.h == m.e, allk(f))))
                    if m.h.sort() == I:
                        # strictly before / after the selected position (first or last extremum)
                        for f in (xk < y, xk > y):
                            out.append(('ext', FA([k], z3.Implies(z3.And(rng, k < m.h), f))))
                            out.append(('ext', FA([k], z3.Implies(z3.And(rng, k > m.h), f))))
        # the loop went on: the continuation condition held at every earlier iteration
        for g in back.guards[len(H.guards):]:
            for q in (g.children() if z3.is_and(g) else [g]):
                gk = close(q, k)
                if gk is not None and self.mentions(gk, {k.get_id()}):
                    out.append(('search', allk(gk)))
        # booleans latched under a condition
        for m in mods:
            if m.h.sort() != B or not (z3.is_app(m.b) and not m.b.eq(m.h)):
                continue
            for val in (True, False):
                c = z3.simplify(z3.substitute(m.b, (m.h, z3.BoolVal(not val))))
                ck = close(c if val else z3.Not(c), k)
                if ck is not None and not z3.is_true(ck) and not z3.is_false(ck):
                    hv = m.h if val else z3.Not(m.h)
                    ev = m.e if val else z3.Not(m.e)
                    out.append(('latch', z3.Implies(hv, z3.Or(ev, exk(ck)))))
                    out.append(('latch', z3.Implies(z3.Not(hv), allk(z3.Not(ck)))))

    def fresh_consts(self, back, H):
        """ids of constants occurring in the back state that do not occur in the head state / its facts"""
        hc = {}
        for l in self.leaves(H).values():
            hc.update(self.consts_in(l.term))
        for f in H.facts + H.guards:
            hc.update(self.consts_in(f))
        bc = {}
        for l in self.leaves(back).values():
            bc.update(self.consts_in(l.term))
        for f in back.facts[len(H.facts):] + back.guards:
            bc.update(self.consts_in(f))
        return {i: c for i, c in bc.items() if i not in hc and '!' in str(c)}

    def store_indices(self, b, base, out, depth=0):
        """index terms stored to in term b on top of base"""
        if depth > 30:
            return
        if b.eq(base):
            return
        if z3.is_app(b):
            k = b.decl().kind()
            if k == z3.Z3_OP_STORE:
                self.store_indices(b.arg(0), base, out, depth + 1)
                if not any(x.eq(b.arg(1)) for x in out):
                    out.append(b.arg(1))
            elif k == z3.Z3_OP_ITE:
                self.store_indices(b.arg(1), base, out, depth + 1)
                self.store_indices(b.arg(2), base, out, depth + 1)

    def array_cands(self, h, e, b, get, m, p, p0, prim, close, closed, new_after, body_facts, out, mods, entry, depth):
        """h/e/b: head, entry, back terms of an array (possibly a sub-array reached by get from the leaf)"""
        idx = []
        self.store_indices(b, h, idx)
        dom = h.sort().domain()
        if dom != I:
            return
        self.pointwise_cand(h, e, b, idx, p, p0, prim, close, new_after, body_facts, out)
        k = z3.Int('k!ac'); j = z3.Int('j!ac')
        rng = (lambda kk: z3.And(p0 <= kk, kk < p)) if prim.delta == 1 else (lambda kk: z3.And(p < kk, kk <= p0))
        pid = {p.get_id()} | set(closed.keys())
        same_frame = []
        for t in idx:
            moving = self.mentions(t, pid) or self.mentions(t, set(x.h.get_id() for x in mods)) or self.mentions(t, set(new_after))
            if not moving:
                # constant position: descend if the element is itself a vector / struct
                same_frame.append(t)
                el_h, el_e, el_b = zsel_(h, t), zsel_(e, t), zsel_(b, t)
                self.sub_cands(el_h, el_e, el_b, m, p, p0, prim, close, closed, new_after, body_facts, out, mods, entry, depth)
                continue
            tk = close(t, k)
            if tk is None:
                if m.et is not None and h.sort().range().kind() == z3.Z3_DATATYPE_SORT and h.sort().range().name().startswith('Vec_'):
                    ln = h.sort().range().accessor(0, 0)
                    out.append(('elem-len', FA([j], ln(z3.Select(h, j)) == ln(z3.Select(e, j)), patterns=[z3.Select(h, j)])))
                self.histogram_cand(h, e, b, t, p, p0, prim, close, body_facts, out, mods)
                continue
            v = zsel_(b, t)
            # value written, generalised
            vk = close(v, k)
            if vk is None:
                vk = close(v, k, True)
            # under which condition is position t written?
            cnd = self.store_cond(b, h, t)
            ck = close(cnd, k, True) if cnd is not None else z3.BoolVal(True)
            if ck is not None and not z3.is_true(ck):
                vst = self.store_val(b, h, t)
                if vst is not None:
                    vs = close(vst, k)
                    if vs is None:
                        vs = close(vst, k, True)
                    if vs is not None:
                        for body in (z3.Select(h, tk) == vs,):
                            lenm = [x for x in mods if x.id[:-1] == m.id[:-1] and x.id[-1] == 'len']
                            extra = [tk < lenm[0].h] if lenm else []
                            out.append(('cmap', FA([k], z3.Implies(z3.And(rng(k), ck), z3.And(body, *extra)))))
            pats = []
            sel = z3.Select(h, tk)
            if vk is not None:
                f = z3.Implies(rng(k), sel == vk)
                out.append(('map', forall_pat(k, f, [sel], tk)))
            off = z3.simplify(tk - k)
            if self.consts_in(off).get(k.get_id()) is None:
                # affine with unit slope: re-index by position for better triggers
                if vk is not None:
                    kk = j - off
                    f = z3.Implies(rng(kk), z3.Select(h, j) == z3.simplify(z3.substitute(vk, (k, kk))))
                    out.append(('map', FA([j], f, patterns=[z3.Select(h, j)])))
                lo = z3.simplify(p0 + off); hi = z3.simplify(p + off)
                if prim.delta == 1:
                    out.append(('frame', FA([j], z3.Implies(z3.Or(j < lo, j >= hi), z3.Select(h, j) == z3.Select(e, j)), patterns=[z3.Select(h, j)])))
                else:
                    out.append(('frame', FA([j], z3.Implies(z3.Or(j > lo, j <= hi), z3.Select(h, j) == z3.Select(e, j)), patterns=[z3.Select(h, j)])))
            else:
                out.append(('frame', FA([j], z3.Or(z3.Exists([k], z3.And(rng(k), tk == j)), z3.Select(h, j) == z3.Select(e, j)), patterns=[z3.Select(h, j)])))
                out.append(('frame', forall_pat(k, z3.Implies(z3.Not(rng(k)), z3.Select(h, tk) == z3.Select(e, tk)), [z3.Select(h, tk)], tk)))
            # lift facts about constants introduced in the body that sit inside the written value
            self.lift_facts(v, z3.Select(h, tk), k, close, new_after, body_facts, rng, out)
            # vectors inside: length preserved
            if m.et is not None and v.sort().kind() == z3.Z3_DATATYPE_SORT and v.sort().name().startswith('Vec_'):
                ln = v.sort().accessor(0, 0)
                lv = close(norm(acc0(v)), k, True)
                if lv is not None:
                    out.append(('elem-len', forall_pat(k, z3.Implies(rng(k), ln(z3.Select(h, tk)) == lv), [z3.Select(h, tk)], tk)))
                out.append(('elem-len', FA([j], ln(z3.Select(h, j)) == ln(z3.Select(e, j)), patterns=[z3.Select(h, j)])))
        if idx and m.id[0] == 'heap':
            a0 = entry.alloc
            out.append(('heap-frame', FA([j], z3.Implies(j < a0, z3.Select(h, j) == z3.Select(e, j)), patterns=[z3.Select(h, j)])))
        if same_frame:
            ff = FA([j], z3.Implies(z3.And(*[j != t for t in same_frame]), z3.Select(h, j) == z3.Select(e, j)), patterns=[z3.Select(h, j)])
            self.frame_info[ff.get_id()] = (ff, h, e, same_frame)
            out.append(('frame', ff))
        if not idx:
            # value replaced wholesale (e.g. result of an inner loop): lift the facts about the new constant
            out.append(('frame', h == e))
            n0 = entry.alloc
            out.append(('heap-frame', FA([j], z3.Implies(j < n0, z3.Select(h, j) == z3.Select(e, j)), patterns=[z3.Select(h, j)])))
            cs = self.consts_in(b)
            if any(i in new_after for i in cs):
                self.lift_array(h, e, b, m, p, p0, prim, close, closed, new_after, body_facts, out, rng, k, j)

    def pointwise_cand(self, h, e, b, idx, p, p0, prim, close, new_after, body_facts, out):
        """several elements (or all, through an inner loop) accumulate: h[j] = fold over the iterations of what one does to element j"""
        if h.sort().range() not in (I, R) or not (len(idx) >= 2 or (z3.is_const(b) and b.get_id() in new_after)):
            return
        j = z3.Int('j!pc'); sel = z3.Select(h, j); K = z3.Int('K!idx'); A = z3.Const('A!acc', h.sort().range())

        def go(a):
            if a.eq(h):
                return [(None, sel)]
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                tt, v = a.arg(1), a.arg(2)
                if not a.arg(0).eq(h):
                    return []
                return [(None, z3.If(j == tt, z3.substitute(v, (z3.Select(h, tt), sel)), sel))]
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                return [(None, z3.If(a.arg(0), x, y)) for _, x in go(a.arg(1)) for _, y in go(a.arg(2))]
            if z3.is_const(a) and a.get_id() in new_after:
                r = []
                for f in body_facts:
                    for q in ([f] if not z3.is_and(f) else f.children()):
                        if not (z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1):
                            continue
                        g = z3.substitute_vars(q.body(), j); guard = None
                        if z3.is_implies(g):
                            guard, g = g.children()
                        if z3.is_eq(g) and g.arg(0).eq(z3.Select(a, j)) and not self.mentions(g.arg(1), {a.get_id()}):
                            r.append((guard, g.arg(1)))
                return r
            return []
        seen = []
        # values of constants an inner loop left behind
        known = []
        for f in body_facts:
            for q in ([f] if not z3.is_and(f) else f.children()):
                if z3.is_eq(q):
                    for x, y in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                        if z3.is_const(x) and x.get_id() in new_after and not any(i in new_after for i in self.consts_in(y)) and not any(x.eq(o) for o, _ in known):
                            known.append((x, y))
        if DBG:
            print('POINTWISE', b, [str(x)[:300] for x in go(b)], known)
        for guard, R_ in go(b):
            R_ = z3.substitute(R_, *known) if known else R_
            body = z3.substitute(R_, (sel, A))
            if self.mentions(body, {h.get_id()}) or not occurs(body, A):
                continue
            if guard is not None and close(guard, K) is None:
                continue
            body = close(body, K if prim.delta == 1 else p0 - K, True)
            if body is None or any(body.eq(x) for x in seen):
                continue
            seen.append(body)
            try:
                lo, hi = (p0, p) if prim.delta == 1 else (iv(0), p0 - p)
                fb = self.folds.fold_body(lo, hi, z3.Select(e, j), body, A, K)
            except Unsupported:
                continue
            f = sel == fb
            if guard is not None and not self.mentions(guard, set(new_after) | {h.get_id()}):
                f = z3.Implies(guard, f)
            out.append(('pointwise', FA([j], f, patterns=[sel])))

    def histogram_cand(self, h, e, b, t, p, p0, prim, close, body_facts, out, mods):
        """b = h with h[t] increased by w, where the body knows A[t] = v:  h[j] = e[j] + sum of w over the iterations whose v is A[j]"""
        ids = set(x.h.get_id() for x in mods)
        if DBG:
            print('HIST', t, str(b)[:300]); [print('   FACT', str(f)[:200]) for f in body_facts]
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE and b.arg(1).eq(t) and b.arg(0).eq(h)):
            return
        if not z3.is_arith(b.arg(2)):
            return
        w = z3.simplify(b.arg(2) - z3.Select(h, t))
        if self.mentions(w, {h.get_id()}):
            return
        eqs = []; tl = []
        self.ite_leaves(z3.simplify(t), tl, []); tl.append(t)

        def go(f):
            if z3.is_and(f):
                for c in f.children():
                    go(c)
            elif z3.is_implies(f):
                go(f.arg(1))
            elif z3.is_eq(f):
                eqs.append((f.arg(0), f.arg(1))); eqs.append((f.arg(1), f.arg(0)))
        for f in body_facts:
            if not z3.is_quantifier(f):
                go(f)
        j = z3.Int('j!hc'); K = z3.Int('K!idx')
        for key, v in eqs:
            s = key
            while z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
                s = s.arg(0)
            if not (z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SELECT and any(s.arg(1).eq(x) for x in tl)) or self.mentions(s.arg(0), ids):
                continue
            kj = z3.substitute(key, (s.arg(1), j))
            kk = K if prim.delta == 1 else p0 - K
            vk = close(v, kk, True); wk = close(w, kk, True)
            if vk is None or wk is None:
                continue
            A = z3.Const('A!acc', h.sort().range())
            try:
                lo, hi = (p0, p) if prim.delta == 1 else (iv(0), p0 - p)
                fb = self.folds.fold_body(lo, hi, z3.Select(e, j), z3.If(vk == kj, A + wk, A), A, K)
            except Unsupported:
                continue
            out.append(('histogram', FA([j], z3.Select(h, j) == fb, patterns=[z3.Select(h, j)])))
            ln = [x for x in self.consts_len(s.arg(0), body_facts, s.arg(1))]
            for n in ln:
                out.append(('histogram', FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(h, j) == fb), patterns=[z3.Select(h, j)])))
                out.append(('histogram', FA([j], z3.Implies(z3.Or(j < 0, j >= n), z3.Select(h, j) == z3.Select(e, j)), patterns=[z3.Select(h, j)])))

    def consts_len(self, arr, facts, t):
        """upper bounds the body states for t"""
        out = []
        for f in facts:
            g = [f] + (f.children() if z3.is_and(f) else [])
            for x in g:
                if z3.is_implies(x):
                    g2 = x.arg(0)
                else:
                    g2 = x
                if z3.is_app(g2) and g2.num_args() == 2 and g2.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT) and g2.arg(0).eq(t) and not any(g2.arg(1).eq(o) for o in out):
                    out.append(g2.arg(1))
                if z3.is_app(g2) and g2.num_args() == 2 and g2.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT) and g2.arg(1).eq(t) and not any(g2.arg(0).eq(o) for o in out):
                    out.append(g2.arg(0))
        return out

    def lift_array(self, h, e, b, m, p, p0, prim, close, closed, new_after, body_facts, out, rng, k, j):
        """b is a constant X from an inner loop; inner facts describe X relative to h.  Lift: forall outer k in range: fact(X:=h, p:=k)"""
        if not (z3.is_const(b) and b.get_id() in new_after):
            return
        for f in body_facts:
            for q in ([f] if not z3.is_and(f) else f.children()):
                if not self.mentions(q, {b.get_id()}):
                    continue
                q2 = z3.substitute(q, (b, h))
                # facts relating to the previous head value are frames, not liftable directly
                cs = self.consts_in(q2)
                if any(i in new_after for i in cs):
                    continue
                q3 = self.close_except(q2, close, k, h, e)
                if q3 is None:
                    continue
                out.append(('lift', FA([k], z3.Implies(rng(k), q3))))

    def close_except(self, q, close, k, h, e):
        X = z3.Const('X!keep', h.sort())
        r = close(z3.substitute(q, (h, X)), k, True)
        if r is None:
            return None
        return z3.substitute(r, (X, h))

    def sub_cands(self, el_h, el_e, el_b, m, p, p0, prim, close, closed, new_after, body_facts, out, mods, entry, depth):
        if depth > 4 or el_b.eq(el_h):
            return
        s = el_h.sort()
        if z3.is_array(el_h):
            self.array_cands(el_h, el_e, el_b, None, m, p, p0, prim, close, closed, new_after, body_facts, out, mods, entry, depth + 1)
            return
        if s.kind() == z3.Z3_DATATYPE_SORT:
            c = s.constructor(0)
            for i in range(c.arity()):
                a = s.accessor(0, i)
                self.sub_cands(a(el_h), a(el_e), norm_acc(el_b, i), m, p, p0, prim, close, closed, new_after, body_facts, out, mods, entry, depth + 1)
            return
        # scalar at a constant position: accumulate in place
        A = z3.Const('A!acc', s); K = z3.Const('K!idx', I)
        bb = z3.substitute(el_b, (el_h, A))
        body = close(bb, K if prim.delta == 1 else p0 - K, True)
        if body is not None and s in (I, R, B):
            try:
                out.append(('fold-at', el_h == self.folds.fold_body(p0 if prim.delta == 1 else iv(0), p if prim.delta == 1 else p0 - p, el_e, body, A, K)))
            except Unsupported:
                pass
        out.append(('same', el_h == el_e))

    def store_cond(self, b, base, t):
        if b.eq(base):
            return z3.BoolVal(False)
        if z3.is_app(b):
            k = b.decl().kind()
            if k == z3.Z3_OP_STORE:
                if b.arg(1).eq(t):
                    return z3.BoolVal(True)
                return self.store_cond(b.arg(0), base, t)
            if k == z3.Z3_OP_ITE:
                c, x, y = b.children()
                cx, cy = self.store_cond(x, base, t), self.store_cond(y, base, t)
                if cx is None or cy is None:
                    return None
                return z3.simplify(z3.If(c, cx, cy))
        return None

    def store_val(self, b, base, t):
        if b.eq(base):
            return None
        if z3.is_app(b):
            k = b.decl().kind()
            if k == z3.Z3_OP_STORE:
                if b.arg(1).eq(t):
                    return b.arg(2)
                return self.store_val(b.arg(0), base, t)
            if k == z3.Z3_OP_ITE:
                c, x, y = b.children()
                vx, vy = self.store_val(x, base, t), self.store_val(y, base, t)
                if vx is None:
                    return vy
                if vy is None:
                    return vx
                return z3.If(c, vx, vy)
        return None

    def lift_facts(self, v, tgt, k, close, new_after, body_facts, rng, out):
        """v: value written at this iteration, containing constants X introduced by the body.  For each X reachable from v by
        accessors, re-state the body's facts about X for the stored element tgt (= A[t(k)])."""
        paths = []

        def go(t, acc):
            if z3.is_const(t) and t.get_id() in new_after:
                paths.append((t, acc))
                return
            if t.sort().kind() == z3.Z3_DATATYPE_SORT and z3.is_app(t) and t.decl().eq(t.sort().constructor(0)):
                for i in range(t.num_args()):
                    go(t.arg(i), t.sort().accessor(0, i)(acc))
        go(v, tgt)
        if not paths:
            return
        sub = [(x, a) for x, a in paths]
        for f in body_facts:
            for q in ([f] if not z3.is_and(f) else f.children()):
                if not any(self.mentions(q, {x.get_id()}) for x, _ in paths):
                    continue
                q2 = z3.substitute(old_objects(q), *sub)
                cs = self.consts_in(q2)
                if any(i in new_after for i in cs):
                    continue
                # close over the iteration, but keep the stored array itself
                arrs = [c for i, c in cs.items() if z3.is_array(c) and self.mentions(tgt, {i})]
                h = arrs[0] if arrs else None
                q3 = self.close_except(q2, close, k, h, h) if h is not None else close(q2, k, True)
                if q3 is None:
                    continue
                out.append(('lift', FA([k], z3.Implies(rng(k), q3))))

    # ------------------------------------------------------------ Houdini
    def with_splits(self, f, hconst):
        """a restated fact about a fold: its sums may be split at the loop's own counters"""
        if not self.has_fold(f):
            return []
        return [h for i, h in hconst.items() if h.sort() == I and i != ('alloc',) and i[-1] != 'len'][:3]

    def prof(self, what, n, t0):
        if os.environ.get('CPPVC_PROF'):
            print('PROF %-14s %4d candidates %6.1fs  total %.0fs' % (what, n, time.time() - t0, time.time() - PT0), flush=True)

    def entry_filter(self, cands, entry, at_entry):
        t0 = time.time()
        goals = [at_entry(f) for _, f in cands]; hyps = entry.hyps()
        def one(i):
            r = solve.check(self.folds, self.axioms, hyps, goals[i], timeout=self.quick_timeout, cvc5=False, only_quick=True)
            if os.environ.get('CPPVC_PROF') and r.t > 1:
                print('SLOW %.1f %s %s %s' % (r.t, r.ok, cands[i][0], str(goals[i])[:300].replace('\n', ' ')), flush=True)
            return r.ok
        ok = solve.pmap(one, len(cands))
        self.prof('entry', len(cands), t0)
        return [c for c, r in zip(cands, ok) if r]

    def preserve_filter(self, cands, back, at, hconst):
        t0 = time.time()
        sp0 = list(self.folds.splits); hyps = back.hyps()
        goals = [at(back, c[1]) for c in cands]

        def one(i):
            c = cands[i]
            self.folds.splits[:] = self.with_splits(c[1], hconst) if c[0] == 'restated' else []
            return solve.check(self.folds, self.axioms, hyps, goals[i], timeout=self.quick_timeout, cvc5=False, only_quick=True, cases=2 if c[0] in ('tmpl', 'restated') else 0).ok
        ok = solve.pmap(one, len(cands))
        self.prof('preserve', len(cands), t0)
        self.folds.splits[:] = sp0
        if DBG and os.environ.get('CPPVC_LOST'):
            for c, g, r in zip(cands, goals, ok):
                if not r and c[0] == os.environ['CPPVC_LOST']:
                    print('LOST', c[0], str(c[1])[:300])
                    for h in hyps: print('  LH', str(h).replace('\n', ' ')[:DBG])
                    print('  LG', str(g)[:3000])
        return [c for c, r in zip(cands, ok) if not r]

    def close_exit(self, e, W, hconst, cands, mods):
        """replace counters by their exit value when it is determined, so that folds appear in closed form"""
        ints = [m for m in mods if m.h.sort() == I and m.delta]
        lv = self.leaves(e)
        ats = []
        for g in e.guards[-3:]:
            self.atoms(g, ats)
        hs = {hconst[i].get_id() for i in W}
        sub = []
        for m in ints:
            for a, b in ats:
                for x, y in ((a, b), (b, a)):
                    if x.eq(m.h) and not self.mentions(y, hs):
                        r = solve.check(self.folds, self.axioms, e.hyps(), m.h == y, timeout=self.quick_timeout, cvc5=False, only_quick=True)
                        if r.ok:
                            sub.append((m.h, y))
                            break
                else:
                    continue
                break
        if not sub:
            return e
        e.facts += [h == y for h, y in sub]
        # closed forms of the other counters and accumulators through accepted equalities
        eqs = {}
        for nm, f in cands:
            if z3.is_eq(f):
                l, r = f.children()
                if z3.is_const(l) and l.get_id() in hs and not self.mentions(r, {l.get_id()}):
                    eqs.setdefault(l.get_id(), (l, r))
        allsub = list(sub)
        for _ in range(2):
            for i, (l, r) in eqs.items():
                if any(l.eq(x) for x, _ in allsub):
                    continue
                r2 = z3.substitute(r, *allsub)
                if not self.mentions(r2, hs):
                    allsub.append((l, z3.simplify(r2) if not self.has_fold(r2) else r2))
        # linear relations of other counters
        for m in ints:
            if any(m.h.eq(x) for x, _ in allsub):
                continue
            q = sub[0]
            pm = next(x for x in ints if x.h.eq(q[0]))
            if pm.delta == m.delta:
                val = z3.simplify(m.e + (q[1] - pm.e))
                r = solve.check(self.folds, self.axioms, e.hyps(), m.h == val, timeout=self.quick_timeout, cvc5=False, only_quick=True)
                if r.ok:
                    allsub.append((m.h, val))
        # an array that kept everything but a few positions with known values is the entry array with these stores
        for nm, f in cands:
            fi = self.frame_info.get(f.get_id()) if nm == 'frame' else None
            if fi is None or not z3.is_const(fi[1]) or fi[1].get_id() not in hs:
                continue
            _, h, e0, ts = fi
            val = e0; ok = not self.mentions(e0, hs)
            for t in ts:
                v = None
                for nm2, g in cands:
                    if z3.is_eq(g) and not z3.is_quantifier(g):
                        for l, r in (g.children(), g.children()[::-1]):
                            if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_SELECT and l.arg(0).eq(h) and l.arg(1).eq(t):
                                r2 = z3.substitute(r, *allsub)
                                if v is None and not self.mentions(r2, hs) and not self.mentions(t, hs):
                                    v = r2
                ok = ok and v is not None
                if ok:
                    val = z3.Store(val, t, v)
            if ok and not any(h.eq(x) for x, _ in allsub):
                allsub.append((h, val)); e.facts.append(h == val)
        for i, l in lv.items():
            for h, y in allsub:
                if l.term.eq(h):
                    self.set_leaf(e, i, y)
        return e

    def has_fold(self, t):
        stack = [t]
        while stack:
            x = stack.pop()
            if self.folds.is_app(x):
                return True
            stack.extend(x.children())
        return False


def Terminated_():
    from .engine import Terminated
    return Terminated


def Obl_(*a):
    from .engine import Obl
    return Obl(*a)


def zsel_(arr, i):
    from .engine import zsel
    r = zsel(arr, i)
    a = arr
    if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = arr.children()
        return z3.If(c, zsel_(x, i), zsel_(y, i))
    return r


def old_objects(t, memo=None):
    """reads at a reference that is not computed from the allocation counter skip the stores to newly allocated objects (only used to
    propose candidates, so nothing depends on this being right)"""
    if memo is None:
        memo = {}
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(t) and t.is_forall():
        vs = [z3.Const('%s~o' % t.var_name(i), t.var_sort(i)) for i in range(t.num_vars())]
        inst = lambda x: old_objects(z3.substitute_vars(x, *reversed(vs)), memo)
        pats = [z3.MultiPattern(*[inst(c) for c in t.pattern(i).children()]) for i in range(t.num_patterns())]
        b = inst(t.body())
        r = t if b.eq(z3.substitute_vars(t.body(), *reversed(vs))) else (z3.ForAll(vs, b, patterns=pats) if pats else FA(vs, b))
    elif z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        ch = t.children(); nc = [old_objects(c, memo) for c in ch]
        r = t if all(x.eq(y) for x, y in zip(ch, nc)) else t.decl()(*nc)
        if r.decl().kind() == z3.Z3_OP_SELECT:
            a, j = r.children()
            while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                i = a.arg(1)
                if i.eq(j):
                    a = None; r = r.arg(0)
                    while not r.arg(1).eq(j):
                        r = r.arg(0)
                    r = r.arg(2)
                    break
                ia, ja = (str(x).startswith('alloc') for x in (i, j))
                if ia == ja:
                    break
                a = a.arg(0)
            if a is not None and not a.eq(r.arg(0)):
                r = z3.Select(a, j)
        elif r.decl().kind() == z3.Z3_OP_DT_ACCESSOR and z3.is_app(r.arg(0)) and r.arg(0).decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            c = r.arg(0); s = c.sort()
            for q in range(c.num_args()):
                if s.accessor(0, q).eq(r.decl()):
                    r = c.arg(q)
                    break
    memo[k] = (t, r)
    return r


def norm_acc(t, i):
    s = t.sort()
    if z3.is_app(t) and t.decl().eq(s.constructor(0)):
        return t.arg(i)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.children()
        return z3.If(c, norm_acc(x, i), norm_acc(y, i))
    return s.accessor(0, i)(t)


def acc0(t):
    return norm_acc(t, 0)


def forall_pat(k, f, pats, tk):
    try:
        # only usable when the pattern contains the bound variable below an uninterpreted/select symbol
        if z3.is_const(tk) or True:
            return FA([k], f, patterns=pats)
    except z3.Z3Exception:
        return FA([k], f)
