"""Sims-Flanagan leg: every reachable object is a valid configuration.  Inductive contract: constructors establish
state == configuration(arguments) or throw; every setter maps the state of configuration c to that of the changed configuration,
or throws and leaves the state as it was."""
from .sf import *
from kvc.llir import KThrow
LEVEL = 'other'
EXPLAIN = 'inductive over operations: constructor and each setter executed symbolically on an arbitrary valid object, for throttle vectors of each length 0..10 (bound); random sequences of operations at run time on longer ones'
ASSUME = ['throttle vectors of at most 10 entries in the symbolic part', 'arguments are numbers (not NaN)']
LOGIC = '_ZTISt11logic_error'
B = [var('new_' + x) for x in NAMES]
def valid(a): return [('ge', x, T.ZERO) for x in (a[14], a[15], a[16], a[17], a[18])] + [('le', a[18], T.ONE)]
BAD = {'tof': (14, 'lt', 0), 'thrust': (15, 'lt', 0), 'isp': (16, 'lt', 0), 'mu': (17, 'lt', 0), 'cut below': (18, 'lt', 0), 'cut above': (18, 'gt', 1)}
OPS = {0: [14], 1: range(6), 2: [6], 5: range(7, 13), 6: [13], 7: [15], 8: [16], 9: [17], 10: [18]}
OPN = ['set_tof', 'set_rvs', 'set_ms', 'set_throttles', 'set_throttles (iterators)', 'set_rvf', 'set_mf', 'set_max_thrust', 'set_isp', 'set_mu', 'set_cut', 'set', 'set (default cut)', 'set_throttles (inner iterators)', 'set_throttles (reversed iterators)']
class Base(Case):
    sweep_n = 0
    maxpaths = 120
    n, m = 1, 1                  # segments of the object; entries of the new throttle vector
    def init(self):
        self.u = thr(self.n)
        self.w = [var('w%d' % k) for k in range(self.m)]
        self.inputs = tuple(A + self.u)
    def candidates(self, t):
        if t.op == 'intof': return list(range(max(self.n, self.m) + 1))
    def int_nonneg(self, t): return t.op == 'intof'
    def dump(self, E, b):
        a, th, n, s = E.put_doubles([0] * 19), E.put_doubles([0] * 30), E.alloc(8), E.alloc(16)
        E.call('kv_sf_dump', b, a, th, 30, n, s)
        n = E.conc(E.load_i(n, 8))
        return (E.doubles(a, 19), E.doubles(th, min(n, 30)), n, [E.conc(E.load_i(s + 4 * k, 4)) for k in range(3)])
    def same(self, P, what, got, a, th):
        ga, gth, n, s = got
        for k in range(19): P.eq('%s: %s' % (what, NAMES[k]), ga[k], a[k])
        P.check('%s: number of throttles' % what, n == len(th), '%s, not %s' % (n, len(th)))
        for k in range(min(n, len(th))): P.eq('%s: throttle %d' % (what, k), gth[k], th[k])
        N = len(th) // 3
        P.check('%s: number of segments' % what, s[0] == N, '%s' % (s,))
        P.check('%s: forward and backward segments add up' % what, s[1] + s[2] == s[0], '%s' % (s,))
        P.holds('%s: forward segments <= nseg * cut' % what, 'le', const(s[1]), N * a[18])
        P.holds('%s: nseg * cut < forward segments + 1' % what, 'lt', N * T.lift(a[18]), const(s[1] + 1))
class New(Base):
    """constructors; bad: None or the violated requirement"""
    bad, nocut, dflt = None, 0, 0
    def init(self):
        super().init()
        self.a = list(A)
        if self.nocut: self.a[18] = const(T.Fraction(1, 2))
        self.th = self.w
        if self.bad in BAD:
            k, pr, c = BAD[self.bad]
            self.facts_ = [(pr, A[k], const(c))]
            self.expect = DOM
        elif self.bad: self.expect = LOGIC
        else: self.facts_ = valid(self.a)
    def entry(self, E):
        b = E.alloc(E.call('kv_sf_size'))
        if self.dflt: E.call('kv_sf_default', b)
        else: E.call('kv_sf_new_nocut' if self.nocut else 'kv_sf_new', b, E.put_doubles(A), E.put_doubles(self.th), self.m)
        return [self.dump(E, b)]
    def post(self, o, P):
        if not self.dflt: self.same(P, 'constructed', o[0], self.a, self.th)
        else:
            a, th, n, s = o[0]
            self.same(P, 'default', o[0], a, th)
            for pr, x, y in valid(a): P.holds('default configuration is valid: %s' % pr, pr, x, y)
            P.check('default configuration has a segment', n > 0 and n % 3 == 0)
class Set(Base):
    op, bad = 0, None
    expect = 'ret'
    def init(self):
        super().init()
        self.facts_ = valid(A)
        self.a, self.th = list(A), list(self.u)
        op = self.op
        if op in OPS:
            for k in OPS[op]: self.a[k] = B[k]
            self.v = [B[k] for k in OPS[op]]
        elif op in (11, 12): self.a, self.v = list(B), list(B)
        else: self.v = []
        if op == 12: self.a[18] = const(T.Fraction(1, 2))
        if op in (3, 4, 11, 12): self.th = self.w
        if op == 13: self.th = self.w[1:-1]
        self.err = None
        if self.bad in BAD:
            k, pr, c = BAD[self.bad]
            self.err = DOM
            self.facts_ = self.facts_ + [f for f in valid(self.a) if f[1] is not self.a[k]] + [(pr, B[k], const(c))]
        elif self.bad: self.err = LOGIC; self.facts_ = self.facts_ + valid(self.a)
        else: self.facts_ = self.facts_ + valid(self.a)
    def entry(self, E):
        b = E.alloc(E.call('kv_sf_size'))
        E.call('kv_sf_new', b, E.put_doubles(A), E.put_doubles(self.u), 3 * self.n)
        thrown = None
        try: E.call('kv_sf_set', b, self.op, E.put_doubles(self.v), E.put_doubles(self.w), self.m)
        except KThrow as ex: thrown = ex.ti
        return [self.dump(E, b), thrown]
    def post(self, o, P):
        P.check('%s' % ('invalid arguments are rejected' if self.err else 'valid arguments are accepted'), o[1] == self.err, 'outcome %s, expected %s' % (o[1], self.err))
        if self.err: self.same(P, 'unchanged', o[0], A, self.u)
        else: self.same(P, 'changed', o[0], self.a, self.th)
def cases(tier):
    L = [New(name='default constructor', dflt=1)]
    for m in range(0, 11):
        ok = m > 0 and m % 3 == 0
        L.append(New(name='constructor, %d throttle entries' % m, m=m, bad=None if ok else 'size'))
        if ok: L.append(New(name='constructor without cut, %d throttle entries' % m, m=m, nocut=1))
        for op in (3, 4, 11, 12, 13): 
            k = m - 2 if op == 13 else m
            if k < 0: continue
            ok = k > 0 and k % 3 == 0
            for n in (1, 2): L.append(Set(name='%s, %d entries, from %d segments' % (OPN[op], m, n), op=op, n=n, m=m, bad=None if ok else 'size'))
        if m: L.append(Set(name='%s, %d entries' % (OPN[14], m), op=14, m=m, bad='size'))
    for b in BAD:
        L.append(New(name='constructor, bad %s' % b, m=3, bad=b))
        for op in (11, 12):
            if op == 11 or BAD[b][0] != 18: L.append(Set(name='%s, bad %s' % (OPN[op], b), op=op, m=3, n=2, bad=b))
    for op, ks in OPS.items():
        for n in (1, 2, 3): L.append(Set(name='%s, %d segments' % (OPN[op], n), op=op, n=n))
        for b in BAD:
            if BAD[b][0] in ks: L.append(Set(name='%s, bad %s' % (OPN[op], b), op=op, n=2, bad=b))
    return L
# ---------------------------------------------------------------- compiled code: sequences of operations
def ok(a, th): return 3 if len(th) == 0 or len(th) % 3 else 1 if min(a[14:19]) < 0 or a[18] > 1 else 0
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    def newargs():
        a, u = draw_leg(rng, 14)
        if rng.random() < 0.25: k = rng.choice((14, 15, 16, 17, 18)); a[k] = rng.choice((-1.0, -5e-324, -1e-300, -a[k] - 1e-9))
        if rng.random() < 0.1: a[18] = rng.choice((1.0000000000000002, 2.0, 1e9))
        if rng.random() < 0.15: a[rng.choice((14, 15, 16, 17, 18))] = 0.0
        if rng.random() < 0.2: u = u[:rng.randint(0, len(u))]
        return a, u
    for it in range(400 if tier == 'quick' else 12000):
        hist, err = [], None
        a, u = newargs()
        if rng.random() < 0.1:
            o = Obj(lib); A0 = o.dump(); a, u = A0[0], A0[1]; hist.append('default')
        else:
            nc = rng.random() < 0.2
            if nc: a[18] = 0.5
            o = Obj(lib, a, u, nc)
            hist.append(('constructor', nc, a, u))
            if o.rc != ok(a, u): err = ('constructor outcome', o.rc, ok(a, u))
        tot += 1
        for step in range(rng.randint(0, 12)):
            if err or not o.alive: break
            b, w = newargs()
            op = rng.choice((0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10, 11, 11, 12, 13, 14))
            if op == 12: b[18] = 0.5
            if op in OPS: v = [b[k] for k in OPS[op]]; na = list(a); nu = u
            if op in OPS:
                for k, x in zip(OPS[op], v): na[k] = x
            elif op in (11, 12): v, na, nu = b, b, w
            else: v, na, nu = [], a, w if op < 5 else w[1:-1] if op == 13 and len(w) > 1 else []
            if op in (13, 14) and len(w) < 2: continue
            hist.append((OPN[op], v, w if op in (3, 4, 11, 12, 13, 14) else None))
            rc, want = o.set(op, v, w), ok(na, nu)
            if rc != want and not (rc and want): err = ('%s outcome' % OPN[op], rc, want)
            if not want: a, u = na, nu
            ga, gu, s = o.dump()
            tot += 1
            N = len(u) // 3
            if not err and (list(ga) != list(a) or list(gu) != list(u)): err = ('%s: state' % OPN[op], ga, a, len(gu), len(u))
            if not err and (s[0] != N or s[1] + s[2] != N or s[1] != int(N * a[18])): err = ('%s: segments' % OPN[op], s, N, N * a[18])
        if err: bad.append(dict(case='sequence of operations', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=hist, mismatch=err))
        if len(samples) < 2: samples.append([h[0] if isinstance(h, tuple) else h for h in hist])
        if len(bad) > 4: break
    return tot, bad[:5], samples
