"""check runner: python -m kvc.run <property id>"""
import ctypes, importlib, json, multiprocessing, os, random, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from kvc import build, case as C, smt

TRUST = ['clang 18 -O1 lowering of the C++ sources to LLVM IR; the IR interpreter and term simplifier in kvc/',
         'machine doubles treated as real numbers (rounding, overflow, NaN propagation outside stated domains not modelled)',
         'identities decided by evaluation at random points of prime fields of order ~2^61 (Schwartz-Zippel: error probability < 2^-40 per obligation)',
         'z3 for inequality and path-feasibility queries']

def _work(a):
    k, = a
    c = G['cases'][k]
    if os.environ.get('VERIF_TIER', 'quick') == 'quick' and time.time() - G['t0'] > (240 if C.FOUND and C.FOUND.value else 600):
        r = C.CaseResult(c.name); r.error = 'not run: time budget of the check used up'; return r
    try:
        if hasattr(c, 'run'): return c.run(G['prog'] if not isinstance(G['prog'], dict) else G['prog'][c.prog], G['replay'], G['seed'])
        return C.run_case(G['prog'] if not isinstance(G['prog'], dict) else G['prog'][c.prog], c, G['replay'], G['seed'])
    except Exception as ex:
        r = C.CaseResult(c.name); r.error = 'internal %s\n%s' % (ex, traceback.format_exc()[-1500:]); return r
G = {}

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('contracts.' + pid)
    out = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'))
    violations, notes, undecided = [], [], []
    results = []
    rt = dict(evaluations=0, samples=[])
    # ---- build
    replay, lib = None, None
    try:
        if hasattr(mod, 'REPLAY'):
            so = build.shared(pid, **mod.REPLAY)
            lib = ctypes.CDLL(so)
            replay = mod.make_replay(lib)
    except build.BuildError as ex:
        print('build of the replay library failed:\n%s' % ex); lib = None
        print('ERROR: /repo does not compile for the replay library'); return 2
    cases = mod.cases(tier)
    rng = random.Random('%s|%s' % (seed, pid))
    prog = None
    try:
        prog = mod.program() if hasattr(mod, 'program') else build.program(mod.IR)
    except build.BuildError as ex:
        print('verifier front end: %s' % ex)
    except Exception as ex:
        undecided.append('front end: %s' % ex)
    if prog is not None:
        (prog if not isinstance(prog, dict) else next(iter(prog.values()))).demangled()
        if isinstance(prog, dict):
            for p in prog.values(): p.demangled()
        G.update(cases=cases, prog=prog, replay=replay, seed=seed)
        if len(cases) > 8:                     # translate the functions once, before forking
            try:
                from kvc.engine import Engine, explore
                c0 = cases[0]
                o = C.Oracle(c0)
                next(explore(Engine(prog if not isinstance(prog, dict) else prog[c0.prog], list(c0.overrides), o), c0.entry, 5))
            except Exception: pass
        C.FOUND = multiprocessing.Value('i', 0)
        if tier != 'quick': C.BUDGET[0], C.CASE_BUDGET[0] = 60.0, 2400.0
        G['t0'] = t0
        if tier == 'quick': C.END[0] = time.time() + 450
        nw = min(8, max(1, len(cases)))
        order = sorted(range(len(cases)), key=lambda k: -getattr(cases[k], 'weight', 1))
        with multiprocessing.get_context('fork').Pool(nw, maxtasksperchild=getattr(mod, 'TASKS', 4)) as pool:
            results = pool.map(_work, [(k,) for k in order], chunksize=1)
    C.FOUND = None
    obl = disch = 0
    by = {}
    tsolve = 0.0
    rows, fns, assume = [], set(), set(getattr(mod, 'ASSUME', []))
    for r in results:
        for n, ok, be, dt in r.obls:
            obl += 1; disch += bool(ok)
            by[be] = by.get(be, 0) + 1
            tsolve += dt
        fns.update(r.functions); assume.update(r.assume)
        rows.append(dict(case=r.name, paths=r.paths, obligations=len(r.obls), discharged=sum(bool(o[1]) for o in r.obls), seconds=round(r.time, 2), error=r.error, runtime_points=r.sweep[0]))
        rt['evaluations'] += r.sweep[0]
        for d in r.cex: violations.append(d)
        for d in r.failed: d['nofail'] = True; violations.append(d)
        for d in r.undecided: undecided.append(d)
        if r.error: undecided.append('%s: %s' % (r.name, r.error))
        if not r.error and not r.obls: undecided.append('%s: no obligation generated (vacuous)' % r.name)
    # ---- extra concrete checks of the compiled code (bounded)
    if hasattr(mod, 'runtime') and lib is not None:
        n, bad, samples = mod.runtime(lib, rng, tier)
        rt['evaluations'] += n
        rt['samples'] += samples[:3]
        violations += bad
    known = []
    if hasattr(mod, 'known'):
        rest = []
        for v in violations:
            k = mod.known(v)
            (known if k else rest).append(k or v)
        violations = rest
    demangle = (prog if not isinstance(prog, dict) else None).demangled() if prog is not None and not isinstance(prog, dict) else {}
    if isinstance(prog, dict):
        for p in prog.values(): demangle.update(p.demangled())
    fl = sorted({demangle.get(f, f) for f in fns if 'kep3::' in demangle.get(f, f)})
    out['coverage'] = dict(obligations=obl, discharged=disch, by_backend=by, solver_seconds=round(tsolve, 2),
                           checker_cmd='VERIF_TIER=%s python3-vt -m kvc.run %s' % (tier, pid), trusted_base=TRUST + list(getattr(mod, 'TRUST', [])),
                           cases=rows, functions_under_contract=fl, undecided=[str(u)[:600] for u in undecided],
                           bounded_runtime_contract_checks=rt['evaluations'], samples=rt['samples'] + [dict(case=r.name, obligation=o[0], backend=o[2], discharged=bool(o[1])) for r in results[:6] for o in r.obls[:2]],
                           obligation_names=sorted({'%s: %s' % (r.name, o[0]) for r in results for o in r.obls})[:400])
    if out['level'] != 'proof' or not obl:
        out['coverage'].update(evaluations=rt['evaluations'], distinct_nontrivial=rt['evaluations'], rule='random points of the contract\'s ghost parameter space', explanation=getattr(mod, 'EXPLAIN', 'see DESIGN.md'))
    out['assumptions'] = sorted(assume)[:200]
    out['wall_s'] = round(time.time() - t0, 2)
    confirmed = [v for v in violations if not v.get('nofail')]
    out['violations'] = len(violations)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(out, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1, default=str)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d obligations, %d discharged (%s), %d paths in %d cases, %d runtime points, %.1f s' % (pid, obl, disch, by, sum(r.paths for r in results), len(results), rt['evaluations'], out['wall_s']))
    for u in undecided[:20]: print('UNDECIDED', str(u)[:int(os.environ.get('KV_W', '400'))])
    if violations:
        path = VERIF + '/evidence/%s.replay.json' % pid
        json.dump(dict(property=pid, seed=seed, failed=violations[:20]), open(path, 'w'), indent=1, default=str)
        for v in violations[:5]: print('FAILED', json.dumps(v, default=str)[:int(os.environ.get('KV_W', '600'))])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'))
        return 1
    if obl == 0 and rt['evaluations'] == 0:
        print('ERROR: nothing was checked'); return 2
    return 0
if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
