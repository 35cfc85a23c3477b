"""High-fidelity leg: every reachable object is a valid configuration and computes its constraints with exactly that configuration."""
from . import sf
from .hf import *
LEVEL = 'other'
EXPLAIN = 'constructors, every setter and every pair of setters executed symbolically on an arbitrary valid object whose integrators were just used, then its configuration and its constraints compared with the contract; throttle vectors of each length 0..10, histories of at most 2 setters in the symbolic part (bounds), random histories at run time'
ASSUME = ['heyoka (not installed) replaced by a stand-in: the integrator keeps state, time, parameters and tolerance; integrating applies an arbitrary function (the flow) of state, duration, parameters and tolerance', 'get_ta_stark, get_ta_stark_var represented by their contract (C27)', 'throttle vectors of at most 10 entries, histories of at most 2 setters in the symbolic part', 'arguments are numbers (not NaN)']
BAD = {'tof': (14, 'lt', 0), 'thrust': (15, 'lt', 0), 'isp': (16, 'lt', 0), 'mu': (17, 'lt', 0), 'cut below': (18, 'lt', 0), 'cut above': (18, 'gt', 1), 'tol': (19, 'le', 0), 'tol above': (19, 'gt', 1)}
HALF, TOL0 = const(T.Fraction(1, 2)), T.from_double(1e-16)
OPS = {0: [14], 1: range(6), 2: [6], 3: [], 4: [], 5: range(7, 13), 6: [13], 7: [15], 8: [16], 9: [17], 10: [18], 11: range(20), 12: range(18), 13: [], 14: [], 15: [19], 16: range(7), 17: range(7, 14), 18: range(20), 19: range(18), 20: list(range(15)), 21: range(15)}
OPN = ['set_tof', 'set_rvs', 'set_ms', 'set_throttles', 'set_throttles (iterators)', 'set_rvf', 'set_mf', 'set_max_thrust', 'set_isp', 'set_mu', 'set_cut', 'set', 'set (default cut, tol)', 'set_throttles (inner iterators)', 'set_throttles (reversed iterators)', 'set_tol', 'set_rvms', 'set_rvmf', 'set (state vectors)', 'set (state vectors, default cut, tol)', 'set (states, throttles, time of flight)', 'set_and_compute_constraints']
THR = (3, 4, 11, 12, 13, 18, 19, 20, 21)
def apply(op, a, u, b, w):
    """the configuration after the setter"""
    a = list(a)
    for k in OPS[op]: a[k] = b[k]
    if op in (12, 19): a[18], a[19] = HALF, TOL0
    return a, (w[1:-1] if op == 13 else w) if op in THR else u
def vals(op, b): return [b[k] for k in OPS[op]]
class Base(Hf):
    m = 3
    def init(self):
        self.inputs = ()
        self.u, self.w, self.w2 = thr(self.n), [var('w%d' % k) for k in range(self.m)], thr(1, 'y')
    def setop(self, E, b, op, v, w):
        if op == 21:
            c = list(v[:7]) + list(w) + list(v[7:15])
            n = len(w) // 3
            o, no = E.put_doubles([0] * (8 + n)), E.alloc(8)
            E.call('kv_hf_setcon', b, E.put_doubles(c), len(c), o, 8 + n, no)
        else:
            v = list(v) if op not in (18, 19, 20) else list(v)
            E.call('kv_hf_set', b, op, E.put_doubles(v + [0]), E.put_doubles(list(w) + [0]), len(w))
class New(Base):
    bad = None
    def init(self):
        super().init()
        self.a, self.th = list(A), self.w
        if self.form in (2, 3): self.a[19] = TOL0
        if self.form == 2: self.a[18] = HALF
        if self.bad in BAD:
            k, pr, c = BAD[self.bad]
            self.facts_ = [f for f in valid(self.a) if f[1] is not self.a[k]] + [(pr, A[k], const(c))]
            self.expect = DOM
        elif self.bad: self.expect = LOGIC; self.facts_ = valid(self.a)
        else: self.facts_ = valid(self.a)
    def entry(self, E):
        b = self.alloc(E)
        E.call('kv_hf_new', b, E.put_doubles(A), E.put_doubles(list(self.th) + [0]), self.m, self.form)
        d = self.dump(E, b)
        return [d, self.con(E, b, d[3][0])]
    def post(self, o, P):
        if self.form != 4: self.same(P, 'constructed', o[0], self.a, self.th); self.fresh(P, 'constructed', o[0], o[1], self.a, self.th); return
        a, th, n, s, a2 = o[0]
        self.same(P, 'default', o[0], a, th); self.fresh(P, 'default', o[0], o[1], a, th)
        for pr, x, y in valid(a): P.holds('default configuration is valid: %s' % pr, pr, x, y)
        P.check('default configuration has a segment', n > 0 and n % 3 == 0)
class Hist(Base):
    """construct, compute, then setters, then look"""
    ops, bad, copy = (), None, False
    def init(self):
        super().init()
        self.facts_ = valid(A)
        a, th, steps = list(A), self.u, []
        for j, (op, nv, w) in enumerate(zip(self.ops, (B, C), (self.w, self.w2))):
            if op == 21 and len(w) != len(th): w = (list(w) + list(self.w2) + thr(2, 'z'))[:len(th)]
            na, nt = apply(op, a, th, nv, w)
            last = j == len(self.ops) - 1
            steps.append((op, vals(op, nv), w))
            if last and self.bad in BAD:
                k, pr, c = BAD[self.bad]
                self.err = DOM
                self.facts_ = self.facts_ + [f for f in valid(na) if f[1] is not na[k]] + [(pr, nv[k], const(c))]
            elif last and self.bad: self.err = LOGIC; self.facts_ = self.facts_ + valid(na)
            else: self.err = None; a, th = na, nt; self.facts_ = self.facts_ + [f for f in valid(a) if f not in self.facts_]
        self.steps, self.a, self.th = steps, a, th
    def entry(self, E):
        b = self.alloc(E)
        E.call('kv_hf_new', b, E.put_doubles(A), E.put_doubles(self.u), 3 * self.n, self.form)
        E.call('kv_hf_mc', b, E.put_doubles([0] * 7))
        thrown = None
        try:
            for op, v, w in self.steps: self.setop(E, b, op, v, w)
        except KThrow as ex: thrown = ex.ti
        if self.copy:
            b2 = self.alloc(E)
            E.call('kv_hf_copy', b2, b); E.call('kv_hf_delete', b); b = b2
        d = self.dump(E, b)
        return [d, thrown, self.con(E, b, d[3][0])]
    def post(self, o, P):
        P.check('%s' % ('invalid arguments are rejected' if self.err else 'valid arguments are accepted'), o[1] == self.err, 'outcome %s, expected %s' % (o[1], self.err))
        w = 'unchanged' if self.err else 'changed'
        self.same(P, w, o[0], self.a, self.th); self.fresh(P, w, o[0], o[2], self.a, self.th)
def cases(tier):
    L = [New(name='default constructor', form=4)]
    for m in range(0, 11):
        ok = m > 0 and m % 3 == 0
        for form in (0, 1): L.append(New(name='constructor %d, %d throttle entries' % (form, m), m=m, form=form, bad=None if ok else 'size'))
        for op in (3, 4, 11, 12, 13, 18, 19, 20):
            k = m - 2 if op == 13 else m
            if k < 0: continue
            ok = k > 0 and k % 3 == 0
            for n in (1, 2): L.append(Hist(name='%s, %d entries, from %d segments' % (OPN[op], m, n), ops=(op,), n=n, m=m, bad=None if ok else 'size'))
        if m: L.append(Hist(name='%s, %d entries' % (OPN[14], m), ops=(14,), m=m, bad='size'))
    for form in (2, 3): L.append(New(name='constructor %d, defaults' % form, form=form, m=6))
    for b in BAD:
        for form in (0, 1): L.append(New(name='constructor %d, bad %s' % (form, b), form=form, m=3, bad=b))
        for op, ks in OPS.items():
            if BAD[b][0] in ks: L.append(Hist(name='%s, bad %s' % (OPN[op], b), ops=(op,), n=2, m=6, bad=b))
    for op in OPS:
        if op == 14: continue
        for n in (1, 3): L.append(Hist(name='%s, %d segments' % (OPN[op], n), ops=(op,), n=n, m=3 if op != 13 else 5))
        L.append(Hist(name='%s, then copied' % OPN[op], ops=(op,), n=2, m=6 if op != 13 else 8, copy=True))
    # pairs of setters that share configuration the integrators or thrusts depend on
    for p in (3, 7, 8, 9, 10, 11, 15, 16, 18, 20, 21):
        for q in (3, 7, 8, 9, 10, 12, 15, 18, 20, 21): L.append(Hist(name='%s, then %s' % (OPN[p], OPN[q]), ops=(p, q), n=1, m=6 if p != 21 else 3))
    return L
# ---------------------------------------------------------------- compiled code: histories
def verdict(a, th): return 3 if len(th) == 0 or len(th) % 3 else 1 if min(a[14:19]) < 0 or a[18] > 1 or a[19] <= 0 or a[19] > 1 else 0
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    def newargs():
        a, u = sf.draw_leg(rng, 7, nd=rng.randint(1, 7))
        if a[17] > 100:                        # keep to non-dimensional units here
            a, u = sf.draw_leg(rng, 7, nd=rng.randint(1, 7))
            while a[17] > 100: a, u = sf.draw_leg(rng, 7, nd=rng.randint(1, 7))
        a = a + [rng.choice((1e-16, 1e-12, 0.5, 1.0, rng.uniform(0.01, 1)))]
        if rng.random() < .15: k = rng.choice((14, 15, 16, 17, 18, 19)); a[k] = rng.choice((-1.0, -5e-324, -a[k] - 1e-9))
        if rng.random() < .05: a[18] = rng.choice((1.0000000000000002, 3.0))
        if rng.random() < .05: a[19] = rng.choice((0.0, 1.0000000000000002, 7.0))
        if rng.random() < .1: u = u[:rng.randint(0, len(u))]
        return a, u
    for it in range(150 if tier == 'quick' else 6000):
        hist, err = [], None
        form = rng.choice((0, 0, 1, 2, 3, 4))
        a, u = newargs()
        if form == 4: o = Obj(lib); a, u = o.dump()[:2]
        else:
            o = Obj(lib, a, u, form)
            if form in (2, 3): a[19] = 1e-16
            if form == 2: a[18] = .5
            if bool(o.rc) != bool(verdict(a, u)): err = ('constructor outcome', o.rc, verdict(a, u))
        hist.append((form, a, u)); tot += 1
        if err is None and not o.alive: continue
        for step in range(rng.randint(0, 8)):
            if err: break
            b, w = newargs()
            op = rng.choice(list(OPS))
            if op == 21: w = [rng.uniform(-1, 1) for _ in u]
            if op in (13, 14) and len(w) < 2: continue
            if op in (12, 19): b[18], b[19] = .5, 1e-16
            na, nu = apply(op, a, u, b, w)
            if op in (12, 19): na[18], na[19] = .5, 1e-16
            if op == 14: nu = []
            v = vals(op, b)
            hist.append((OPN[op], v, w if op in THR + (14,) else None))
            c = None
            if op == 21:
                x = darr(v[:7] + w + v[7:15]); rc, c = o.vec('setcon', x, len(x))
            else: rc = o.set(op, v, w)
            want = verdict(na, nu)
            if bool(rc) != bool(want): err = ('%s outcome' % OPN[op], rc, want); break
            if not want: a, u = na, nu
            tot += 1
            ga, gu, s, a2 = o.dump()
            N = len(u) // 3
            if ga != list(a) or gu != list(u) or a2 != list(a[:14]): err = ('%s: state' % OPN[op], ga, a, len(gu), len(u))
            elif s[0] != N or s[1] + s[2] != N or s[1] != int(N * a[18]): err = ('%s: segments' % OPN[op], s, N, N * a[18])
            elif rng.random() < .6:
                R, sc = ref(lib, a, u, s[1])
                for got in ([o.vec('con')] + ([(rc, c)] if c is not None and not rc else [])):
                    if got[0] or len(got[1]) != len(R) or not all(abs(x - y) <= 1e-9 * z or x != x and y != y for x, y, z in zip(got[1], R, sc)): err = ('%s: constraints' % OPN[op], got, R)
        if err: bad.append(dict(case='history of operations', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=hist, mismatch=err))
        if len(samples) < 2: samples.append([h[0] for h in hist])
        if len(bad) > 4: break
    return tot, bad[:5], samples
