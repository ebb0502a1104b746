"""Check runner: proves every obligation of a property from /repo's current source, runs the executable-contract harness against
the real code, writes evidence, decides the exit code (0 or 1 only)."""
import sys, os, json, time, threading, importlib, multiprocessing as mp, subprocess, tempfile, shutil, traceback, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
import z3
from cppvc import astdb, solve, spec
from cppvc.core import Unsupported
from cppvc.engine import Engine, Terminated
from cppvc.astdb import AST, ExtractError, dump

CORES = 8
_ASTS = {}
_ITEMS = []


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return []


class Out:
    pass


def prove_item(idx):
    """runs in a forked worker"""
    it = _ITEMS[idx]
    t0 = time.time()
    r = {'name': it.name, 'obls': [], 'status': 'proved', 'why': '', 'inlined': [], 'contracts': [], 'assumptions': [], 'wall': 0.0, 'functions': []}
    try:
        ast = _ASTS[it.driver]
        e = Engine(ast, contracts=it.contracts_for(ast))
        e.deadline = t0 + it.budget
        s = spec.Session(e, it.name)
        s.ast = ast
        try:
            it.fn(s)
        except Terminated:
            r['status'] = 'unsupported'; r['why'] = 'the call does not return on any path'
        r['inlined'] = sorted(e.inlined); r['contracts'] = sorted(e.used_contracts); r['assumptions'] = sorted(e.assumptions | s.assumptions)
        r['functions'] = sorted(s.functions)
        if r['status'] == 'proved':
            if not any(o.kind == 'post' for o in e.obls):
                r['status'] = 'unsupported'; r['why'] = 'no obligation generated'
            for (nm, hyps) in s.covers:
                if not solve.consistent(e.folds, e.axioms, hyps, 2.0):
                    r['status'] = 'failed'
                    r['obls'].append({'name': 'reachability of ' + nm, 'kind': 'cover', 'where': it.name, 'ok': False, 't': 0, 'backend': 'z3', 'reason': 'hypotheses are contradictory'})

            def one(i):
                o = e.obls[i]
                tb = it.timeout
                if o.kind in ('inv-entry', 'inv-preserve'):
                    tb = max(tb, 4.0)
                if o.tune:
                    e.folds.splits[:], solve.OFFSETS[:], solve.HINTS[:] = o.tune
                else:
                    e.folds.splits[:] = []; solve.OFFSETS[:] = []; solve.HINTS[:] = []
                res = solve.check(e.folds, e.axioms, o.hyps, o.goal, timeout=tb, want_model=True)
                d = {'name': o.name, 'kind': o.kind, 'where': o.where, 'ok': res.ok, 't': round(res.t, 3), 'backend': res.backend}
                if not res.ok:
                    d['reason'] = res.reason
                    d['model'] = str(res.model)[:6000] if res.model is not None else None
                    d['smt'] = (res.smt or '')[:200000]
                return d
            for d in solve.pmap(one, len(e.obls), least=24):
                if not d['ok']:
                    r['status'] = 'failed'
                r['obls'].append(d)
    except (Unsupported, ExtractError) as ex:
        r['status'] = 'unsupported'; r['why'] = str(ex)[:500]
    except z3.Z3Exception as ex:
        r['status'] = 'unsupported'; r['why'] = 'z3: ' + str(ex)[:300]
    except RecursionError:
        r['status'] = 'unsupported'; r['why'] = 'recursion depth'
    except Exception as ex:
        r['status'] = 'unsupported'; r['why'] = 'internal: ' + ''.join(traceback.format_exception(ex))[-1500:]
    r['wall'] = round(time.time() - t0, 2)
    r['stats'] = dict(solve.STATS)
    return r


def _child(idx, conn):
    try:
        conn.send(prove_item(idx))
    except BaseException as ex:
        try:
            conn.send({'name': _ITEMS[idx].name, 'obls': [], 'status': 'unsupported', 'why': 'worker died: %r' % ex, 'inlined': [], 'contracts': [], 'assumptions': [], 'wall': 0, 'functions': [], 'stats': {}})
        except Exception:
            pass
    conn.close()
    os._exit(0)


def run_items(idxs, deadline, jobs=CORES, verbose=False):
    todo = list(idxs); running = []; res = {}
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(i, b)); p.start(); b.close()
            running.append((i, p, a, time.time()))
        nxt = []
        for (i, p, a, t) in running:
            got = None
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = None
                p.join(5)
                if got is None:
                    got = {'name': _ITEMS[i].name, 'obls': [], 'status': 'unsupported', 'why': 'worker died', 'inlined': [], 'contracts': [], 'assumptions': [], 'wall': 0, 'functions': [], 'stats': {}}
            elif not p.is_alive() and not a.poll(0):
                got = {'name': _ITEMS[i].name, 'obls': [], 'status': 'unsupported', 'why': 'worker died (exit %s)' % p.exitcode, 'inlined': [], 'contracts': [], 'assumptions': [], 'wall': 0, 'functions': [], 'stats': {}}
            elif time.time() > deadline[0] or time.time() - t > _ITEMS[i].budget * 2 + 60:
                p.terminate(); p.join(2)
                if p.is_alive():
                    p.kill()
                got = {'name': _ITEMS[i].name, 'obls': [], 'status': 'unsupported', 'why': 'time budget exhausted', 'inlined': [], 'contracts': [], 'assumptions': [], 'wall': time.time() - t, 'functions': [], 'stats': {}}
            if got is None:
                nxt.append((i, p, a, t))
            else:
                res[i] = got
                if verbose:
                    show(got)
        running = nxt
        time.sleep(0.02)
    return [res[i] for i in idxs]


def show(r):
    n = len(r['obls']); k = sum(1 for o in r['obls'] if o['ok'])
    print('  %-11s %-60s %d/%d obligations %.1fs %s' % (r['status'], r['name'], k, n, r['wall'], r['why'][:600]), flush=True)
    for o in r['obls']:
        if not o['ok']:
            print('      UNDISCHARGED %s | %s | %s' % (o['name'], o['where'], o.get('reason', '')[:200]), flush=True)


# ---------------------------------------------------------------- harness
def compile_harness(src, outdir):
    exe = os.path.join(outdir, os.path.basename(src).replace('.cpp', ''))
    core = os.path.join(astdb.REPO, 'subprojects', 'ufjfmltk-core', 'src')
    cmd = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-I' + os.path.join(VERIF, 'harness')] + astdb.includes() + [src]
    for x in ('Utils.cpp', 'Random.cpp', 'Datasets.cpp'):
        p = os.path.join(core, x)
        if os.path.exists(p):
            cmd.append(p)
    cmd += ['-o', exe, '-lpthread']
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), exe


def run_harness(exe, seed, tier, outdir, timeout):
    try:
        p = subprocess.run([exe, str(seed), tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=outdir)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')[-3000:]
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), ''


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--no-harness', action='store_true'); ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    mod = importlib.import_module('specs.' + prop)
    items = [it for it in spec.ITEMS if a.only is None or a.only in it.name]
    known = [k for k in load_known() if k['property'] == prop]
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    evid = os.path.join(VERIF, 'evidence')
    os.makedirs(evid, exist_ok=True)
    replay = os.path.join(evid, prop + '.replay.txt')
    if os.path.exists(replay):
        os.unlink(replay)
    results = []; hres = None; notes = []
    try:
        comp = None
        hsrc = os.path.join(VERIF, 'harness', prop + '.cpp')
        if os.path.exists(hsrc) and not a.no_harness:
            comp, exe = compile_harness(hsrc, tmp)
        fails = []; ncases = [0]; hres = [None]; limit = [t0 + (600 if a.tier == 'quick' else 780)]; th = None

        def harness_run():
            try:
                out, _ = comp.communicate(timeout=500)
            except subprocess.TimeoutExpired:
                comp.kill(); notes.append('executable contracts: not compiled within 500 s'); return
            if comp.returncode != 0:
                notes.append('executable contracts did not compile against the current tree: ' + out.decode(errors='replace')[:1500])
                return
            rc, so, se = run_harness(exe, seed, a.tier, tmp, 240)
            for l in so.splitlines():
                if l.startswith('FAIL '):
                    fails.append(l[5:])
                elif l.startswith('CASES '):
                    ncases[0] = int(l.split()[1])
                elif l.startswith('KNOWN '):
                    notes.append(l)
            if rc == 'timeout':
                notes.append('executable contracts: no answer within 240 s')
            elif rc not in (0, 1) and not fails:
                notes.append('executable contracts ended with %s: %s' % (rc, se))
            hres[0] = {'cases': ncases[0], 'failures': len(fails), 'rc': str(rc)}
            if a.tier == 'quick' and any(not known_tag(f) for f in fails):
                limit[0] = min(limit[0], time.time() + 60)     # violated on a concrete input: the remaining proofs decide nothing more

        def known_tag(f):
            return any(k.get('kind') == 'finding' and k.get('tag') == f.split(':', 1)[0].strip() for k in known)
        if comp is not None:
            th = threading.Thread(target=harness_run, daemon=True); th.start()
        # ---- stage 1: deductive
        global _ITEMS
        _ITEMS = items
        extract_fail = {}
        if not a.no_proof:
            for d in sorted(set(i.driver for i in items)):
                try:
                    _ASTS[d] = AST(dump(os.path.join(VERIF, 'drivers', d + '.cpp')))
                except ExtractError as ex:
                    extract_fail[d] = str(ex)
            idxs = [i for i, it in enumerate(items) if it.driver not in extract_fail]
            results = run_items(idxs, limit, CORES, a.v)
            for it in items:
                if it.driver in extract_fail:
                    results.append({'name': it.name, 'obls': [], 'status': 'unsupported', 'why': 'extraction: ' + extract_fail[it.driver][:800], 'inlined': [], 'contracts': [], 'assumptions': [], 'wall': 0, 'functions': [], 'stats': {}})
        # ---- stage 2: executable contracts on the real code, run while the proofs are at work
        if th is not None:
            th.join()
            if a.v or notes:
                print('  harness', hres[0], [n[:1200] for n in notes])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cases = ncases[0]; hres = hres[0]
    # ---- known findings
    hits = {}
    fresh = []
    for f in fails:
        tag = f.split(':', 1)[0].strip()
        k = next((k for k in known if k.get('kind') == 'finding' and k.get('tag') == tag), None)
        if k:
            hits[tag] = k
        else:
            fresh.append(f)
    bad = []
    for r in results:
        if r['status'] == 'failed':
            for o in r['obls']:
                if not o['ok']:
                    k = next((k for k in known if k.get('kind') == 'finding' and k.get('obligation') and k['obligation'] in o['name']), None)
                    if k:
                        hits[k.get('tag', o['name'])] = k
                    else:
                        bad.append((r, o))
    for k in known:
        if k.get('kind') == 'finding':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    nobl = sum(len(r['obls']) for r in results); ndis = sum(1 for r in results for o in r['obls'] if o['ok'])
    unsup = [r for r in results if r['status'] == 'unsupported']
    viol = []
    if fresh:
        with open(replay, 'w') as f:
            f.write('property %s: executable contract violated on the real code (seed %d)\n' % (prop, seed))
            f.write('re-run: VERIF_SEED=%d bash /verif/check.sh %s\n\n' % (seed, prop))
            for x in fresh[:200]:
                f.write(x + '\n')
            for r, o in bad:
                f.write('\nundischarged obligation: %s | %s | %s\n' % (o['name'], o['where'], o.get('reason')))
        viol.append('VIOLATION property=%s replay=%s' % (prop, replay))
        print('failing case: ' + fresh[0][:600])
    elif bad:
        with open(replay, 'w') as f:
            f.write('property %s: obligation(s) not discharged by the verifier; no failing input found by the executable contracts (%s cases, seed %d)\n' % (prop, cases, seed))
            for r, o in bad:
                f.write('\nOBLIGATION %s\n  kind %s\n  at %s\n  verifier: %s\n' % (o['name'], o['kind'], o['where'], o.get('reason')))
                if o.get('model'):
                    f.write('  model: %s\n' % o['model'])
                f.write('  query (SMT-LIB, truncated):\n%s\n' % (o.get('smt') or '')[:20000])
        for r, o in bad[:5]:
            print('undischarged: %s at %s (%s)' % (o['name'], o['where'], (o.get('reason') or '')[:160]))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    for v in viol:
        print(v)
    stats = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            stats[k] = round(stats.get(k, 0) + v, 2)
    backends = {}
    for r in results:
        for o in r['obls']:
            if o['ok']:
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    assum = sorted(set(x for r in results for x in r['assumptions']))
    assum += spec.GLOBAL_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', []))
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'bash /verif/check.sh %s' % prop,
            'trusted_base': ['clang 18 AST of the instantiated templates', 'cppvc verification-condition generator (/verif/cppvc)', 'STL models in cppvc/stl.py', 'z3 (python 5.3.2) and cvc5'],
            'functions_under_contract': sorted(set(x for r in results if r['status'] == 'proved' for x in r['functions'])),
            'functions_inlined': sorted(set(x for r in results if r['status'] == 'proved' for x in r['inlined'])),
            'callee_contracts_used': sorted(set(x for r in results for x in r['contracts'])),
            'backends': backends, 'solver': stats,
            'items': [{'name': r['name'], 'status': r['status'], 'obligations': len(r['obls']), 'discharged': sum(1 for o in r['obls'] if o['ok']), 'wall_s': r['wall'], 'why': r['why'][:300]} for r in results],
            'out_of_reach_this_run': [r['name'] + ': ' + r['why'][:200] for r in unsup],
            'bounded_standin': {'label': 'bounded, never counted as proved: executable contracts on pseudo-random and edge-case inputs against the real code', 'result': hres, 'functions_only_bounded': list(getattr(mod, 'BOUNDED_ONLY', []))},
        },
        'assumptions': assum, 'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if viol:
        ev['coverage']['violation_cases'] = fresh[:20] or [o['name'] for _, o in bad][:20]
    if notes:
        ev['coverage']['notes'] = notes
    with open(os.path.join(evid, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d items, %d/%d obligations discharged, %d out of reach, harness %s, %.1fs' % (prop, len(results), ndis, nobl, len(unsup), hres, time.time() - t0))
    for r in unsup:
        print('  out of reach: %s: %s' % (r['name'], r['why'][:300]))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
