"""Contracts as cases: ghost parametrisation of the inputs (precondition), entry point, postcondition.  Each feasible path of the
real code gives a set of named obligations; refuted ones are turned into concrete inputs and replayed on the compiled code."""
import math, random, time, traceback
from . import term as T, smt
from .engine import *
from .pit import Space, Unsup, Resample
try: import mpmath
except ImportError: mpmath = None

class Oracle:
    def __init__(self, case):
        self.c = case
        self.cache = {}
        self.zcache, self.eqcache = {}, {}
        self.spaces = {}
    # --- path state
    def start_path(self, E):
        self.E = E
        self.defs = dict(self.c.defs)
        self.extra_basis = []
        self.generic = []
        self.no_exhaust = self.c.no_exhaust
    def space(self, defs=None, dirs=None):
        d = self.defs if defs is None else defs
        key = (tuple(sorted((k.id, v.id) for k, v in d.items())), tuple(sorted((dirs or {}).items())), tuple(b.id for b in self.extra_basis))
        s = self.spaces.get(key)
        if s is None:
            dd = dict(d)
            def setup(sm):
                sm.defs, sm.rootcap = dd, self.c.rootcap
            s = Space(seed=self.c.seed, basis=self.c.basis + self.extra_basis, nsamples=self.c.nsamples, setup=setup, uf_rule=self.c.uf_rule, dirs=dirs)
            self.spaces[key] = s
        return s
    def facts(self):
        return self.c.allfacts()
    # --- queries
    def sign(self, E, d, lit):
        sp = self.space()
        try:
            if sp.iszero(d): return {0}
            if self.c.basis:
                m = sp.sign_monomial(d)
                if m: return {1} if m == '+' else {-1}
                # |X| < 1 because 1 - X^2 is a positive monomial (X a cosine, e.g. guarded by a clamp)
                for x, c, sg in ((lit.a, lit.b, 1), (lit.b, lit.a, -1)):
                    if T.isc(c) and abs(c.val) == 1 and not T.isc(x):
                        if sp.sign_monomial(T.sub(T.ONE, T.mul(x, x))) == '+':
                            if d is not T.sub(lit.a, lit.b): sg = -sg
                            return {-sg if c.val > 0 else sg}
        except Unsup as ex:
            pass
        s = self.c.sign_hint(d)
        if s: return s
        for x, sg in self.c.signs:                # expressions whose sign is part of the case's precondition
            try:
                if sp.equal(d, x): return set(sg)
                if sp.equal(d, T.neg(x)): return {-k for k in sg}
            except Unsup: pass
        if lit.pred in ('eq', 'ne') and not any(x.op in ('intof', 'intvar') for x in (lit.a, lit.b)) and not self.c.keep_eq(d):
            self.generic.append(d)
            return {-1, 1}
        return {-1, 0, 1}
    def feasible(self, E, key, flip, lit, yes, no):
        if not self.c.use_z3: return (True, True)
        lits = self.facts() + [(l.pred if r else smt.NEG[l.pred], l.a, l.b) for l, r, h in E.pc]
        k = (tuple((l[0], l[1].id, l[2].id) for l in lits), lit.pred, lit.a.id, lit.b.id)
        r = self.zcache.get(k)
        if r is None:
            t = smt.check(lits + [(lit.pred, lit.a, lit.b)], self.c.z3ms) != 'unsat'
            f = smt.check(lits + [(smt.NEG[lit.pred], lit.a, lit.b)], self.c.z3ms) != 'unsat'
            r = self.zcache[k] = (t, f)
        return r
    def prefer(self, E, lit): return None
    def assumed(self, E, key, signs):
        lit, r, _ = E.pc[-1]
        if r and lit.pred == 'eq' and lit.a.op in ('intof', 'intvar') and T.isc(lit.b): self.defs[lit.a] = lit.b
    def candidates(self, E, t): return self.c.candidates(t)
    def root_var(self, E, n, guess, lo, hi): return self.c.root_var(E, n)
    def root_f(self, E, r): self.c.root_f(E, self, r)

class Obl:
    __slots__ = ('name', 'kind', 'a', 'b', 'ok', 'backend', 'dt', 'detail', 'path')
    def __init__(s, name, kind, a, b, ok, backend, dt, detail=''):
        s.name, s.kind, s.a, s.b, s.ok, s.backend, s.dt, s.detail, s.path = name, kind, a, b, ok, backend, dt, detail, None

class Prover:
    """collects obligations for one path; mode 'prove' (symbolic) or 'num' (concrete values of outputs)"""
    def __init__(self, oracle=None, facts=None): self.o, self.list, self.facts = oracle, [], facts or []
    def _t(self, name, kind, a, b, f, backend):
        t0 = time.time()
        detail = ''
        try: ok = f()
        except (Unsup, Resample) as ex: ok, detail = None, 'undecided: %s' % ex
        self.list.append(Obl(name, kind, a, b, ok, backend, time.time() - t0, detail))
        return ok
    def eq(self, name, a, b, tol=None, sc=None):
        a, b = T.lift(a), T.lift(b)
        def f():
            if a is b: return True
            sp = ('nan', 'inf', 'ninf')
            if a.op in sp or b.op in sp: return a is b
            sp = self.o.space()
            k = (a.id, b.id, id(sp))
            if k not in self.o.eqcache: self.o.eqcache[k] = sp.equal(a, b)
            return self.o.eqcache[k]
        return self._t(name, 'eq', a, b, f, 'pit')
    def angle(self, name, a, b):
        a, b = T.lift(a), T.lift(b)
        def f():
            if a is b: return True
            if a.op == 'nan' or b.op == 'nan': return False
            try:
                if self.o.space().equal_angle(a, b): return True
            except Unsup: pass
            return self.o.space().equal(a, b)
        return self._t(name, 'angle', a, b, f, 'pit')
    def expeq(self, name, a, b):
        a, b = T.lift(a), T.lift(b)
        return self._t(name, 'eq', a, b, lambda: a is b or self.o.space().equal(a, b) or self.o.space().equal_exp(a, b), 'pit')
    def holds(self, name, pred, a, b, ms=3000):
        """inequality, by z3 under the facts and the path condition"""
        a, b = T.lift(a), T.lift(b)
        def f():
            d = T.sub(a, b)
            if T.isc(d): return ((d.val > 0) - (d.val < 0)) in TRUTH[pred]
            try:
                sp = self.o.space()
                if sp.iszero(d): return 0 in TRUTH[pred]
                m = sp.sign_monomial(d)
                if m: return (1 if m == '+' else -1) in TRUTH[pred]
            except Unsup: pass
            return True if smt.prove(self.facts, (pred, a, b), ms) else None
        return self._t(name, pred, a, b, f, 'z3')
    def deriv(self, name, a, b, dirs, defs=None):
        """eps-derivative of a along dirs equals b"""
        a, b = T.lift(a), T.lift(b)
        return self._t(name, 'deriv', a, b, lambda: self.o.space(defs=defs, dirs=dirs).deriv_equal(a, b), 'pit')
    def custom(self, name, terms, fn, dirs=None):
        """fn(sample) -> residual (0 when the obligation holds)"""
        def f():
            sp = self.o.space(dirs=dirs)
            for r in sp.each(terms, fn):
                if r: return False
            return True
        return self._t(name, 'deriv', T.lift(terms[0]), T.ZERO, f, 'pit')
    def check(self, name, ok, detail='', backend='exec'):
        self.list.append(Obl(name, 'bool', None, None, bool(ok), backend, 0.0, detail))
        return ok

class NumProver:
    """evaluates the same postcondition on concrete outputs"""
    def __init__(self, env, tol=1e-7, m=math): self.env, self.bad, self.tol, self.m, self.n = env, [], tol, m, 0
    def _v(self, *ts): return T.feval([T.lift(t) for t in ts], self.env, m=self.m)
    def eq(self, name, a, b, tol=None, sc=None):
        x, y = self._v(a, b)
        self.n += 1
        one = 1 if sc is None else abs(self._v(sc)[0])
        if (x != x) != (y != y) or (x == x and not abs(x - y) <= (tol or self.tol) * (one + abs(x) + abs(y))):
            self.bad.append((name, float(x), float(y)))
    def angle(self, name, a, b, tol=None):
        x, y = self._v(a, b)
        self.n += 1
        if (x != x) != (y != y): self.bad.append((name, x, y)); return
        if x == x and not abs(math.remainder(float(x - y), 2 * math.pi)) <= (tol or self.tol) * (1 + abs(x) + abs(y)): self.bad.append((name, float(x), float(y)))
    expeq = lambda self, name, a, b: self.eq(name, a, b)
    def holds(self, name, pred, a, b, ms=0):
        x, y = self._v(a, b)
        self.n += 1
        t = 1e-9 * (1 + abs(x) + abs(y))
        d = x - y
        ok = {'lt': d < t, 'le': d <= t, 'gt': d > -t, 'ge': d >= -t, 'eq': abs(d) <= t, 'ne': True}[pred]
        if not ok: self.bad.append((name, float(x), float(y)))
    def deriv(self, *a, **k): pass
    def custom(self, *a, **k): pass
    def check(self, name, ok, detail='', backend=''):
        self.n += 1
        if not ok: self.bad.append((name, detail, None))

class Case:
    """override: inputs(), entry(), post(), rng ranges ..."""
    name = 'case'
    seed = 1
    nsamples = 2
    use_z3 = True
    z3ms = 300
    no_exhaust = False
    maxpaths = 200
    expect = 'ret'            # or a typeinfo name, or 'any'
    basis = ()
    ranges = {}
    tol = 1e-7
    root_solve = None         # name of the input variable the root constraint is solved for
    overrides = ()
    uf_rule = None
    allow_generic = True
    bracket = False
    concrete_extra = None
    sweep_n = 200
    rootcap = 5               # how many undeclared square roots may occur together in a monomial
    def __init__(self, **k):
        self.defs = {}
        for a, b in k.items(): setattr(self, a, b)
        self.basis = list(self.basis)
        self.facts_ = []
        self.init()
    def init(self): pass
    def allfacts(self): return [('gt', b, T.ZERO) for b in self.basis] + list(self.facts_)
    def sign_hint(self, d): return None
    signs = ()
    def keep_eq(self, d): return False
    def candidates(self, t): return None
    def int_nonneg(self, t): return False
    def root_var(self, E, n): return T.var('root!%d' % n)
    def root_f(self, E, o, r):
        """the dependency contract: f(x) = 0.  Solve it for a designated input in which f is affine."""
        E.obl.append(('root', r, dict(o.defs)))
        v = self.root_solve
        if v is None: return
        v = T.var(v)
        f = r['f']
        f0, f1, f2 = [T.substitute([f], {v: T.const(k)})[0] for k in (0, 1, 2)]
        sp = o.space()
        if not sp.iszero(T.sub(T.add(f0, f2), T.mul(T.const(2), f1))) or sp.equal(f0, f1):
            raise Unsupported('root constraint is not affine in %s' % v.val)
        o.defs[v] = T.div(T.neg(f0), T.sub(f1, f0))
    # numeric side
    def draw(self, rng):
        env = {}
        for k, r in self.ranges.items():
            env[T.var(k)] = r(rng) if callable(r) else rng.uniform(*r)
        return env
    def numok(self, env): return True
    def dump(self): return {}

def eval_defs(terms, env, defs, m=math):
    e = dict(env)
    todo = list(defs.items())
    for _ in range(len(todo) + 1):
        rest = []
        for v, d in todo:
            if any(a in dict(todo) and a is not v for a in T.atoms([d])): rest.append((v, d)); continue
            e[v] = T.feval([d], e, m=m)[0]
        todo = rest
        if not todo: break
    return e

def litval(pc, env):
    """do the path literals hold numerically?"""
    ts = []
    for l, r, h in pc: ts += [l.a, l.b]
    vs = T.feval(ts, env)
    for i, (l, r, h) in enumerate(pc):
        x, y = vs[2 * i], vs[2 * i + 1]
        if l.a.op == 'var' and l.a.val.startswith('iters!'): continue
        if x != x or y != y: return False
        t = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[l.pred]
        if t != r: return False
    return True

FOUND = None               # shared flag: some case already has a confirmed counterexample
BUDGET = [12.0]
CASE_BUDGET = [240.0]
END = [float('inf')]       # no case goes on exploring after this time
class CaseResult:
    def __init__(s, name):
        s.name, s.paths, s.obls, s.failed, s.undecided, s.cex, s.time, s.error, s.assume, s.sweep, s.functions = name, 0, [], [], [], [], 0.0, None, [], (0, 0), []
        s.covered = []
        s.frame = False

def root_obligations(P, case, o, r, rr, defs_before, n):
    x = rr['x']
    if rr['f'] is None: return
    try:
        if x.op == 'var':
            P.deriv('root%d: first derivative passed to the solver' % n, rr['f'], rr['d'][1], {x.val: 1}, defs_before)
            if 2 in rr['d']: P.deriv('root%d: second derivative passed to the solver' % n, rr['d'][1], rr['d'][2], {x.val: 1}, defs_before)
    except KeyError: pass
    if case.bracket and x.op == 'var':
        keep = P.facts
        P.facts = keep + [('eq', rr['f'], T.ZERO)]
        P.holds('root%d: lower end of the search bracket is below the root' % n, 'le', rr['lo'], x, 20000)
        P.holds('root%d: upper end of the search bracket is above the root' % n, 'ge', rr['hi'], x, 20000)
        P.facts = keep
        P.holds('root%d: strictly increasing, the root is unique' % n, 'gt', rr['d'][1], T.ZERO)
    if rr['iters'] == 'exhausted': P.check('root%d: exhausted iterations are reported by a throw' % n, r.kind == 'throw', 'returned normally')

def int_covered(case, E, r):
    """is every (non-negative, if the case says so) integer allowed by the path among the candidates?"""
    t, cands = E.abort_int
    lits = [(l.pred if h else smt.NEG[l.pred], l.a, l.b) for l, h, _ in r.pc]
    lits = [l for l in lits if l[1] is t and T.isc(l[2]) or l[2] is t and T.isc(l[1])]
    big = max(cands) + 3
    lo = 0 if case.int_nonneg(t) else min(cands) - 3
    for n in range(lo, big + 1):
        if n in cands: continue
        if all(litok(p, *(n if x is t else x.val for x in (a, b))) for p, a, b in lits): return False
    return True

def run_case(prog, case, replay=None, rng_seed=1, max_search=4000):
    """prove one case; on refutation look for concrete inputs.  `replay(case, inputs)` -> (rc, outputs) on the compiled code"""
    res = CaseResult(case.name)
    t0 = time.time()
    o = Oracle(case)
    E = Engine(prog, list(case.overrides), o)
    suspects, surf = [], []
    try:
        for r in explore(E, case.entry, case.maxpaths):
            res.paths += 1
            if time.time() - t0 > CASE_BUDGET[0] or time.time() > END[0]: raise Unsupported('time budget of the case')
            if r.kind == 'abort':
                if 'candidate' in r.value and not int_covered(case, E, r):
                    P = Prover(o); P._t('every value of the integer %r is explored' % (E.abort_int[0],), 'bool', T.ZERO, T.ZERO, lambda: None, 'exec')
                    for ob in P.list: res.obls.append((ob.name, ob.ok, ob.backend, ob.dt)); suspects.append((r, ob, dict(o.defs)))
                continue
            lits = [(l.pred if t else smt.NEG[l.pred], l.a, l.b) for l, t, h in r.pc]
            P = Prover(o, case.allfacts() + lits)
            exhausted = any(x['iters'] == 'exhausted' for x in r.roots)
            if r.kind == 'fault': P.check('no memory fault / no unreachable code', False, r.value)
            k = 0
            for kind, rr, db in r.obl:
                if kind == 'root': root_obligations(P, case, o, r, rr, db, k); k += 1
            if r.kind in ('ret', 'throw'):
                P.check('frame: no global or static variable is modified', not r.frame, ', '.join(r.frame))
                res.frame |= bool(r.frame)
            for ev in r.events:
                if ev[0] == 'ub': P.check('defined conversion', False, ev[1])
            if not exhausted and r.kind != 'fault':
                want = case.expect(r) if callable(case.expect) else case.expect
                if want != 'any':
                    P.check('outcome is %s' % want, (r.kind if r.kind != 'throw' else r.value) == want, '%s %s' % (r.kind, r.value if r.kind == 'throw' else ''))
                if r.kind == 'ret' and want in ('ret', 'any'):
                    case.post(r.value, P)
                if getattr(case, 'post_path', None): case.post_path(r, P)
            for ob in P.list:
                res.obls.append((ob.name, ob.ok, ob.backend, ob.dt))
                if not ob.ok: suspects.append((r, ob, dict(o.defs)))
            for g in o.generic:
                if g not in surf: surf.append(g)
                s = 'generic: %r != 0' % (g,)
                if s not in res.assume: res.assume.append(s)
    except (Unsupported, Unsup, Resample, RecursionError) as ex:
        res.error = '%s: %s' % (type(ex).__name__, ex)
    except Exception as ex:
        res.error = 'internal %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    res.functions = sorted(prog.executed)
    # ---- refuted or undecided obligations: concrete witnesses
    rng = random.Random('%s|%s' % (rng_seed, case.name))
    t_w, groups = time.time(), {}
    for r, ob, defs in suspects: groups.setdefault(id(r), []).append((r, ob, defs))
    for gk, grp in groups.items():
        left = (3.0 if FOUND is not None and FOUND.value else BUDGET[0]) - (time.time() - t_w)
        ws = witness(case, grp, replay, rng, max_search, max(left, 0.5))
        for (r, ob, defs), w in zip(grp, ws):
            d = dict(case=case.name, obligation=ob.name, kind=ob.kind, got=repr(ob.a)[:300], want=repr(ob.b)[:300], detail=ob.detail,
                     path=[('%r' % (l,))[:160] + ' is %s' % t for l, t, h in r.pc], outcome=[r.kind, str(r.value)[:100] if r.kind != 'ret' else ''])
            d.update(w)
            if w['status'] == 'confirmed':
                res.cex.append(d)
                if FOUND is not None: FOUND.value = 1
            elif w['status'] == 'agrees': res.undecided.append(d)
            elif ob.ok is None: res.undecided.append(d)
            else: res.failed.append(d)
        if len(res.cex) >= 3: break
    # ---- the same postcondition on the compiled code at random points (bounded; never counted as proof)
    if replay and case.sweep_n:
        n, bad = 0, []
        for k in range(case.sweep_n):
            got = concrete(case, replay, rng, history=res.frame)
            if got is None: continue
            n += 1
            if got[0]:
                bad.append(got); 
                if len(bad) >= 3: break
        # ... and on the surfaces the symbolic part excludes (an equality test in the code)
        for g in surf[:40]:
            m = 0
            for k in range(12):
                if m >= 4 or len(bad) >= 3: break
                try: env = solve_eq(case.draw(rng), g, rng)
                except NotImplementedError: break
                if env is None or not domain_ok(case, env): continue
                got = concrete(case, replay, rng, env, None)
                if got is None: continue
                n += 1; m += 1
                if got[0]: bad.append(got)
        res.sweep = (n, len(bad))
        for b, inp, rc, outs in bad:
            res.cex.append(dict(case=case.name, obligation='%s (runtime check)' % b[0][0], status='confirmed', inputs=inp, rc=rc, outputs=outs, mismatch=b[:6], how='runtime contract'))
    res.time = time.time() - t0
    return res

def concrete(case, replay, rng, env=None, defs=None, history=False):
    """one concrete run of the compiled code against the numeric postcondition -> (violations, inputs, rc, outs) or None"""
    env = case.draw(rng) if env is None else env
    env = eval_defs([], env, getattr(case, 'numdefs', {}) if defs is None else defs)
    if not case.numok(env): return None
    ins = T.feval([T.lift(t) for t in case.inputs], env)
    if any(x != x or math.isinf(x) for x in ins): return None
    try:
        if history:                            # the code keeps state between calls: run it on related inputs before
            for _ in range(3):
                j = list(ins)
                for _ in range(rng.randint(1, 3)):
                    a, b = rng.randrange(len(j)), rng.randrange(len(j))
                    k = rng.random()
                    if k < .5: j[a] = -j[a]
                    elif k < .75: j[a], j[b] = j[b], j[a]
                    else: j[a] *= 1.5
                replay(case, j)
        rc, outs = replay(case, ins)
    except Skip: return None
    P = NumProver(dict(env), case.tol)
    wants = {'ret': 0, '_ZTISt12domain_error': 1, '_ZTISt16invalid_argument': 2, '_ZTISt11logic_error': 3, '_ZTISt12out_of_range': 4}
    want = case.expect_num if getattr(case, 'expect_num', None) else case.expect
    if want in wants and rc != wants[want]: P.bad.append(('outcome', rc, wants[want]))
    elif rc == 0:
        ov = []
        for k, x in enumerate(outs):
            v = T.var('out!%d' % k); P.env[v] = x; ov.append(v)
        case.post(ov, P)
        if case.concrete_extra: case.concrete_extra(case, replay, env, ins, outs, P)
    return (P.bad, ins, rc, outs)
def edge(case, replay, rng, env):
    """does a wrong outcome (returns / throws) at this point go away at neighbouring points (1e-8)? then it is rounding on the boundary of the case"""
    bad = good = 0
    for _ in range(8):
        e = {k: v * (1 + 1e-8 * rng.choice((-1, 1)) * rng.uniform(.3, 1)) if isinstance(v, float) else v for k, v in env.items()}
        got = concrete(case, replay, rng, e, {})
        if got is None: continue
        if any(m[0] == 'outcome' for m in got[0]): bad += 1
        else: good += 1
    return bad <= good
class Skip(Exception): pass

def solve_roots(env, roots):
    """numeric values of the solver results on this path"""
    for rt in roots:
        x, f = rt['x'], rt['f']
        if x.op != 'var' or f is None: continue
        lo, hi = T.feval([rt['lo'], rt['hi']], env)
        if not (lo == lo and hi == hi): return False
        def g(z):
            env[x] = z
            v = T.feval([f], env)[0]
            return v
        n = 24
        pts = [lo + (hi - lo) * k / n for k in range(n + 1)]
        vals = [g(z) for z in pts]
        found = None
        for k in range(n):
            a, b, fa, fb = pts[k], pts[k + 1], vals[k], vals[k + 1]
            if fa == fa and fb == fb and fa * fb <= 0:
                for _ in range(80):
                    c = 0.5 * (a + b); fc = g(c)
                    if fa * fc <= 0: b, fb = c, fc
                    else: a, fa = c, fc
                found = 0.5 * (a + b); break
        if found is None: return False
        env[x] = found
    return True

def domain_ok(case, env):
    """the contract's precondition at a concrete point"""
    fs = case.allfacts()
    vs = T.feval([x for f in fs for x in (f[1], f[2])], env)
    for k, f in enumerate(fs):
        x, y = vs[2 * k], vs[2 * k + 1]
        if x != x or y != y: return False
        if not {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[f[0]]: return False
    return case.numok(env)
def litok(pred, x, y): return x == x and y == y and {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[pred]
def solve_eq(env, d, rng):
    """move one ghost variable so that d == 0 (d affine in it, or by bisection)"""
    vs = [v for v in T.atoms([d]) if v in env and isinstance(env[v], (int, float))]
    rng.shuffle(vs)
    for v in vs:
        x0 = env[v]
        f = lambda z: T.feval([d], {**env, v: z})[0]
        f0, f1, f2 = f(x0), f(x0 + 1), f(x0 + 2)
        if f0 != f0 or f1 != f1: continue
        if f1 != f0 and abs(f0 + f2 - 2 * f1) <= 1e-12 * (abs(f0) + abs(f1) + abs(f2)):
            z = x0 - f0 / (f1 - f0)
            for c in (round(z), round(z * 2) / 2, z):
                if abs(f(float(c))) <= 1e-15: return {**env, v: float(c)}
        for c in (0.0, 1.0, -1.0, 0.5, math.pi, -math.pi, 2 * math.pi, math.pi / 2):
            if f(c) == 0: return {**env, v: c}
    return None
def repair(case, env, pc, rng):
    """move single ghost variables until the branch conditions of the path hold (roots are not looked at)"""
    lits = [(l.pred if t else smt.NEG[l.pred], l.a, l.b) for l, t, h in pc]
    lits = [l for l in lits if all(v in env for v in T.atoms([l[1], l[2]]))]
    for _ in range(5):
        vals = T.feval([x for l in lits for x in l[1:]], env)
        bad = [l for k, l in enumerate(lits) if not litok(l[0], vals[2 * k], vals[2 * k + 1])]
        if not bad: return env
        l = bad[0]
        if l[0] == 'eq':
            env = solve_eq(env, T.sub(l[1], l[2]), rng)
            if env is None: return None
            continue
        vs = [v for v in T.atoms(list(l[1:])) if isinstance(env[v], (int, float))]
        rng.shuffle(vs)
        found = None
        for v in vs:
            x0 = env[v]
            c = [x0 * 10.0 ** rng.uniform(-14, 0) for _ in range(8)] + [x0 * 10.0 ** rng.uniform(0, 14) for _ in range(8)] + [-x0, 0.0]
            c += [x0 + 2 * math.pi * k for k in (-2, -1, 1, 2)] + [x0 + s * 10.0 ** rng.uniform(-12, 1) for s in (1, -1) for _ in range(4)]
            c += [k + s * 10.0 ** rng.uniform(-12, -1) for k in (0, 1) for s in (1, -1) for _ in range(4)] + [rng.uniform(-10, 10) for _ in range(6)]
            for z in c:
                e2 = {**env, v: z}
                a, b = T.feval(list(l[1:]), e2)
                if not litok(l[0], a, b): continue
                if domain_ok(case, e2): found = e2; break
                lo, hi = x0, z          # lo: inside the domain, hi: on the path
                for _ in range(60):
                    mid = (lo + hi) / 2
                    e2 = {**env, v: mid}
                    a, b = T.feval(list(l[1:]), e2)
                    dk = domain_ok(case, e2)
                    if dk and litok(l[0], a, b): found = e2; break
                    if dk: lo = mid
                    else: hi = mid
                if found: break
            if found: break
        if not found: return None
        env = found
    return None
def fine_differ(case, env, ob):
    """the two sides of a refuted equality differ by more than constant folding explains (60 digits): 1; they are equal: -1; no verdict: 0"""
    import mpmath
    with mpmath.workdps(60):
        nd = getattr(case, 'numdefs', {})
        e = {k: mpmath.mpf(v) if isinstance(v, (int, float)) else v for k, v in env.items() if k not in nd}
        try:
            e = eval_defs([], e, nd, m=mpmath)
            x, y = T.feval([T.lift(ob.a), T.lift(ob.b)], e, m=mpmath)
            if mpmath.isnan(x) or mpmath.isnan(y): return 0
            d, sc = abs(x - y), max(abs(x), abs(y))
            return 1 if d > mpmath.mpf(10) ** -10 * sc else -1 if d <= mpmath.mpf(10) ** -20 * sc else 0
        except Exception: return 0
def witness(case, grp, replay, rng, n, budget):
    """look for a point on this path where the code's value differs from the contract's, then run the compiled code there;
    grp: the suspect obligations of one path"""
    r = grp[0][0]
    st = [dict(agree=0, differ=0, fine=0, res=None) for _ in grp]
    onpath = 0
    t0 = time.time()
    for k in range(n):
        if time.time() - t0 > budget or all(s['res'] for s in st): break
        try: env = case.draw(rng)
        except NotImplementedError: break
        env = eval_defs([], env, getattr(case, 'numdefs', {}))
        if k % 4 >= 2 and r.pc:
            env = repair(case, env, r.pc, rng)
            if env is None: continue
        env = eval_defs([], env, getattr(case, 'numdefs', {}))
        env0 = env
        if not solve_roots(env, r.roots): continue
        if not case.numok(env) or not litval(r.pc, env): continue
        onpath += 1
        run = None
        for (r_, ob, defs), s in zip(grp, st):
            if s['res']: continue
            if ob.kind in ('eq', 'angle', 'lt', 'le', 'gt', 'ge'):
                P = NumProver(env, 1e-6)
                if ob.kind == 'eq': P.eq('', ob.a, ob.b, sc=0)
                elif ob.kind == 'angle': P.angle('', ob.a, ob.b)
                else: P.holds('', ob.kind, ob.a, ob.b)
                if not P.bad:
                    s['agree'] += 1
                    if ob.kind == 'eq' and ob.ok is False and not r.roots and s['agree'] <= 40: s['fine'] += fine_differ(case, env0, ob) == 1
                    continue
                elif ob.kind == 'eq' and fine_differ(case, env0, ob) == -1: continue          # rounding of an ill-conditioned point
            s['differ'] += 1
            if replay:
                if run is None: run = (concrete(case, replay, rng, env, {}, history=bool(r.frame)),)
                got = run[0]
                if got and got[0]:
                    if all(m[0] == 'outcome' for m in got[0]) and not any(l.pred == 'eq' and t for l, t, h in r.pc) and edge(case, replay, rng, env): continue
                    s['res'] = dict(status='confirmed', inputs=got[1], rc=got[2], outputs=got[3], mismatch=got[0][:6], env={str(a.val): float(b) for a, b in env.items() if isinstance(b, (int, float))})
                    return [x['res'] or dict(status='none', points=onpath, differ=x['differ']) if x is not s else s['res'] for x in st]
        if onpath > 400 or onpath > 200 and not any(s['differ'] for s in st): break
    return [s['res'] or (dict(status='agrees', points=onpath) if onpath and not s['differ'] and s['fine'] * 2 <= min(s['agree'], 40) else dict(status='none', points=onpath, differ=s['differ'])) for s in st]
