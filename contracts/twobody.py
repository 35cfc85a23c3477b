"""Shared: ghost parametrisation of two-body states and the flow contract."""
from .common import *
from kvc.pit import Resample
R_ = [var(k) for k in ('rx', 'ry', 'rz')]
V_ = [var(k) for k in ('vx', 'vy', 'vz')]
m, tof, r0 = var('m'), var('tof'), var('root!0')
MU = m * m
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
R0 = sqrt(dot(R_, R_))
ALPHA = const(2) / R0 - dot(V_, V_) / MU      # 1/a
SIG = dot(R_, V_) / m
ONE = const(1)
def rf_ell(x, sa):      # radius after an eccentric anomaly difference x; sa = sqrt(a)
    a = sa * sa
    return a + (R0 - a) * cos(x) + SIG * sa * sin(x)
def rf_hyp(x, sa):      # sa = sqrt(-a)
    a = -(sa * sa)
    return a + (R0 - a) * cosh(x) + SIG * sa * sinh(x)
SA_E = ONE / sqrt(ALPHA)
SA_H = ONE / sqrt(-ALPHA)
def draw_state(r, hyp, scale=1.0):
    import numpy as np
    m_ = math.exp(r.uniform(-0.5, 0.5))
    mu = m_ * m_
    while True:
        R = [r.gauss(0, 1) for _ in range(3)]; n = math.sqrt(sum(x * x for x in R))
        if n < 1e-3: continue
        rr = math.exp(r.uniform(-1, 1))
        R = [x / n * rr for x in R]
        ve = math.sqrt(2 * mu / rr)
        sp = ve * (r.uniform(1.05, 2.5) if hyp else r.uniform(0.2, 0.97))
        V = [r.gauss(0, 1) for _ in range(3)]; n = math.sqrt(sum(x * x for x in V))
        V = [x / n * sp for x in V]
        h = cross(R, V)
        if math.sqrt(sum(x * x for x in h)) < 0.05 * rr * sp: continue
        break
    env = {m: m_}
    for a, b in zip(R_ + V_, R + V): env[a] = b
    return env
def kepler_oracle(rv, t, mu, raw=False):
    """independent reference: universal variables in mpmath by bisection/Newton on monotone function, 30 digits"""
    import mpmath as mp
    with mp.workdps(40):
        r = [mp.mpf(x) for x in rv[:3]]; v = [mp.mpf(x) for x in rv[3:]]
        t, mu = mp.mpf(t), mp.mpf(mu)
        d = lambda a, b: sum(x * y for x, y in zip(a, b))
        R = mp.sqrt(d(r, r)); al = 2 / R - d(v, v) / mu; sg = d(r, v) / mp.sqrt(mu)
        if t == 0: return r + v if raw else [float(x) for x in rv]
        if al > 0:
            P = 2 * mp.pi / mp.sqrt(mu * al ** 3)
            t = t - P * mp.floor(t / P)
        def cs(z):
            if abs(z) < mp.mpf('1e-6'):
                C = S = mp.mpf(0)
                for k in range(12):
                    C += (-z) ** k / mp.factorial(2 * k + 2); S += (-z) ** k / mp.factorial(2 * k + 3)
                return C, S
            if z > 0: q = mp.sqrt(z); return (1 - mp.cos(q)) / z, (q - mp.sin(q)) / q ** 3
            q = mp.sqrt(-z); return (mp.cosh(q) - 1) / -z, (mp.sinh(q) - q) / q ** 3
        def f(x):
            C, S = cs(al * x * x)
            return sg * x * x * C + (1 - al * R) * x ** 3 * S + R * x - mp.sqrt(mu) * t
        def df(x):
            C, S = cs(al * x * x)
            return sg * x * (1 - al * x * x * S) + (1 - al * R) * x * x * C + R
        lo, hi = (mp.mpf(0), mp.sqrt(1 / abs(al))) if t > 0 else (-mp.sqrt(1 / abs(al)), mp.mpf(0))
        while f(hi) < 0: lo, hi = hi, hi * 2 if hi > 0 else mp.sqrt(1 / abs(al))
        while f(lo) > 0: hi, lo = lo, lo * 2 if lo < 0 else -mp.sqrt(1 / abs(al))
        x = (lo + hi) / 2
        for k in range(300):
            fx = f(x)
            if fx > 0: hi = x
            else: lo = x
            d1 = df(x)
            xn = x - fx / d1 if d1 != 0 else (lo + hi) / 2
            if not (lo < xn < hi): xn = (lo + hi) / 2
            if abs(xn - x) < mp.mpf(10) ** -32 * (abs(xn) + mp.mpf(10) ** -30): x = xn; break
            x = xn
        C, S = cs(al * x * x)
        F = 1 - x * x * C / R; G = t - x ** 3 * S / mp.sqrt(mu)
        rf = [F * a + G * b for a, b in zip(r, v)]
        RF = mp.sqrt(d(rf, rf))
        Ft = mp.sqrt(mu) / RF / R * (al * x ** 3 * S - x); Gt = 1 - x * x * C / RF
        out = rf + [Ft * a + Gt * b for a, b in zip(r, v)]
        return out if raw else [float(x) for x in out]
def stm_oracle(rv, t, mu):
    """matrix of partial derivatives of the reference flow (central differences at 40 digits)"""
    import mpmath as mp
    with mp.workdps(40):
        rv = [mp.mpf(x) for x in rv]
        sc = [mp.sqrt(sum(x * x for x in rv[k:k + 3])) for k in (0, 3)]
        M = [[0.0] * 6 for _ in range(6)]
        for j in range(6):
            h = sc[j // 3] * mp.mpf(10) ** -13
            up, dn = list(rv), list(rv)
            up[j] += h; dn[j] -= h
            a, b = kepler_oracle(up, t, mu, True), kepler_oracle(dn, t, mu, True)
            for i in range(6): M[i][j] = float((a[i] - b[i]) / (2 * h))
        return sum(M, [])
def stm_err(M, W):
    """largest relative error of the 3x3 blocks; position and velocity rows/columns have different units"""
    e = 0.0
    for bi in (0, 3):
        for bj in (0, 3):
            n = math.sqrt(sum(W[6 * (bi + i) + bj + j] ** 2 for i in range(3) for j in range(3))) + 1e-300
            d = math.sqrt(sum((W[6 * (bi + i) + bj + j] - M[6 * (bi + i) + bj + j]) ** 2 for i in range(3) for j in range(3)))
            e = max(e, d / n if d == d else 9e9)
    return e
def close(got, want, tol):
    """state comparison: position and velocity separately, relative to their norms"""
    for k in (0, 3):
        n = math.sqrt(sum(x * x for x in want[k:k + 3])) + 1e-300
        d = math.sqrt(sum((x - y) ** 2 for x, y in zip(got[k:k + 3], want[k:k + 3])))
        if not d <= tol * n: return False
    return True
class Prop(Case):
    """a propagation with the state at the ghost anomaly x = root!0; tof is solved from the code's own Kepler equation"""
    root_solve = 'tof'
    inputs = tuple(R_ + V_ + [tof, MU])
    hyp = False
    fun = 'kv_lag'
    want = 0
    nsamples = 2
    tol = 1e-6
    sweep_n = 60
    tofrange = 20.0
    def entry(self, E):
        rv, o, st, has = E.put_doubles(self.inputs[:6]), E.put_doubles([0] * 6), E.put_doubles([0] * 36), E.alloc(4)
        E.call(self.fun, rv, self.inputs[6], self.inputs[7], self.want, o, st, has)
        self.has = E.load_i(has, 4)
        return E.doubles(o, 6) + (E.doubles(st, 36) if self.has else [])
    def post(self, o, P):
        P.check('matrix present exactly when requested', (len(o) > 6) == bool(self.want))
        if o[0].op == 'var' and str(o[0].val).startswith('out!'): return       # concrete mode: see concrete_extra
        x, tt = self.xname, self.inputs[6]
        rf, vf = o[:3], o[3:6]
        for k in range(3):
            P.custom('flow: d r%s/dt = v%s' % ('xyz'[k], 'xyz'[k]), [rf[k], vf[k], tt], lambda s, k=k: (s.ev(rf[k])[1] - s.ev(vf[k])[0] * s.ev(tt)[1]) % s.p, {x: 1})
        rr = dot(rf, rf)
        rn = sqrt(rr)
        for k in range(3):
            P.custom('flow: d v%s/dt = -mu r%s/|r|^3' % ('xyz'[k], 'xyz'[k]), [vf[k], rf[k], rn, tt],
                     lambda s, k=k: (s.ev(vf[k])[1] * pow(s.ev(rn)[0], 3, s.p) + s.ev(MU)[0] * s.ev(rf[k])[0] * s.ev(tt)[1]) % s.p, {x: 1})
        at0 = T.substitute(list(o[:6]), {var(x): T.ZERO})
        for k in range(6): P.eq('identity at zero anomaly, component %d' % k, at0[k], self.inputs[k])
        td = P.o.defs[tof]
        t0 = T.substitute([td], {var(x): T.ZERO})[0]
        self.post_t0(P, t0)
        if self.want: self.post_stm(o, P)
    def post_t0(self, P, t0):
        if self.hyp: P.eq('zero anomaly is zero time of flight', t0, 0)
        else: P.angle('zero anomaly is a whole number of periods', t0 * self.nmean(), 0)
    def post_stm(self, o, P):
        x, tt = self.xname, self.inputs[6]
        M = o[6:]
        names = [v.val for v in R_ + V_]
        sp = P.o.space(dirs={x: 1})
        for j in range(6):
            memo = {}
            def tw(s, j=j, memo=memo):
                t = memo.get(id(s))
                if t is None:
                    for z in list(o) + [tt]: s.ev(z)
                    t = memo[id(s)] = sp.twin(s, {names[j]: 1})
                    for z in list(o) + [tt]: t.ev(z)
                return t
            for i in range(6):
                def f(s, i=i, j=j, tw=tw):
                    t = tw(s)
                    lam = -t.ev(tt)[1] * s.inv(s.ev(tt)[1])
                    if t.ev(o[i])[0] != s.ev(o[i])[0]: raise Resample('twin')
                    return (t.ev(o[i])[1] + lam * s.ev(o[i])[1] - s.ev(M[6 * i + j])[0]) % s.p
                P.custom('state transition matrix entry (%d,%d)' % (i, j), list(o) + [tt], f, {x: 1})
    xname = 'root!0'
    def draw(self, r):
        env = draw_state(r, self.hyp)
        env[tof] = r.choice((-1, 1)) * r.uniform(0, self.tofrange)
        env[r0] = r.uniform(-3, 3)
        return env
    @staticmethod
    def concrete_extra(case, replay, env, ins, outs, P):
        want = kepler_oracle(ins[:6], ins[6], ins[7])
        P.check('state equals the reference two-body state', close(outs[:6], want, case.tol), 'got %r want %r' % (outs[:6], want))
def make_replay(lib):
    I = ctypes.c_int
    for n in ('kv_lag', 'kv_uni', 'kv_kep', 'kv_rey'): getattr(lib, n).argtypes = [ctypes.c_void_p, D, D, I, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
    def f(case, ins):
        o, st, h = darr([0] * 6), darr([0] * 36), ctypes.c_int(0)
        rc = getattr(lib, case.fun)(darr(ins[:6]), ins[6], ins[7], case.want, o, st, ctypes.byref(h))
        return rc, list(o) + (list(st) if h.value else [])
    return f
def regimes(rng, n, stm=False, units=True):
    """states over unit systems, revolutions, eccentricities, directions, degenerate geometries, and repeated calls that differ in one argument;
    yields (inputs, |mean motion * t|, conditioning, degenerate)"""
    k = 0
    while k < n:
        hyp = rng.random() < 0.45
        env = draw_state(rng, hyp)
        mu = env[m] ** 2; R = [env[v] for v in R_]; V = [env[v] for v in V_]
        g = rng.random()
        if g < 0.15: R[2] = V[2] = 0.0                       # planar
        elif g < 0.25: R, V = [R[0], 0.0, 0.0], [0.0, V[1] or 0.3, 0.0]
        elif g < 0.35 and not hyp:                           # circular
            r_ = math.sqrt(dot(R, R)); h = cross(R, V); c = cross(h, R); q = math.sqrt(mu / r_) / math.sqrt(dot(c, c)); V = [q * x for x in c]
        elif g < 0.45: V = [0.2 * a + b for a, b in zip(R, V)]
        L = rng.choice((1.0, 1.0, 7e6, 1.5e11, 1e-3)); M_ = rng.choice((1.0, 3.986e14, 1.327e20, 1e-6))
        if not units: L = M_ = 1.0
        seq = [(R, V, mu)]
        for _ in range(rng.choice((0, 0, 1, 3))):
            q = rng.randrange(5)
            if q == 0: seq.append((R, V, mu * rng.uniform(1.1, 1.6)))
            elif q == 1: seq.append((R, [-x for x in V], mu))
            elif q == 2: seq.append((R, V, mu))
            elif q == 3: seq.append((R, [x * rng.choice((0.9, 1 + 1e-9, 1.05)) for x in V], mu))
            else: seq.append(([x * rng.choice((1 + 1e-9, 1.02)) for x in R], V, mu))
        t0 = None
        for R, V, mu in seq:
            rr, v2 = math.sqrt(dot(R, R)), dot(V, V)
            en = v2 / 2 - mu / rr
            h = cross(R, V)
            if abs(en) < 0.02 * mu / rr or dot(h, h) < 1e-4 * mu * rr: continue
            a = -mu / 2 / en
            nn = math.sqrt(mu / abs(a) ** 3)
            e = math.sqrt(max(0, 1 - dot(h, h) / mu / a))
            q = rng.random()
            lim = 40 if stm else 300 if a > 0 else 1e4
            t = rng.choice((-1, 1)) * (rng.uniform(0, 3) if q < 0.4 else math.exp(rng.uniform(math.log(1e-3), math.log(lim))) if q < 0.85 else math.exp(rng.uniform(math.log(1e-9), math.log(1e-3)))) / nn
            if rng.random() < 0.05: t = 0.0
            if t0 is not None and rng.random() < 0.6: t = rng.choice((t0, -t0))
            t0 = t
            if a < 0 and abs(nn * t) > lim: continue
            tu = math.sqrt(L ** 3 / M_)
            k += 1
            yield [x * L for x in R] + [x * L / tu for x in V] + [t * tu, mu * M_], abs(nn * t), 10 if a < 0 else 1 / max(1e-3, 1 - e) ** 2, g < 0.35 or e < 1e-3
def prop_runtime(funs, n0):
    """bounded: the compiled propagators against the independent reference over wide regimes"""
    def runtime(lib, rng, tier):
        rp = make_replay(lib)
        class K: pass
        bad, tot, samples = [], 0, []
        for ins, nt, cond, degenerate in regimes(rng, n0 if tier == 'quick' else 30 * n0):
            want = kepler_oracle(ins[:6], ins[6], ins[7])
            tol = 1e-8 * (1 + nt) * cond
            samples.append(ins)
            for fun in funs:
                if fun in ('kv_kep',) and degenerate: continue    # needs non-singular elements
                c = K(); c.fun = fun; c.want = 0
                rc, o = rp(c, ins); tot += 1
                if rc or not close(o[:6], want, min(tol, 1e-3)):
                    bad.append(dict(case='%s over wide regimes' % fun, obligation='state equals the reference two-body state (runtime check)', status='confirmed', inputs=ins, rc=rc, outputs=o[:6], want=want, tol=tol))
        return tot, bad[:5], samples[:3]
    return runtime
def stm_runtime(fun, n0, stat=None, units=True, STMTOL=1e-11):
    """bounded: the compiled state transition matrix against the reference over wide regimes and call sequences"""
    def runtime(lib, rng, tier):
        rp = make_replay(lib)
        class K: pass
        bad, tot, samples = [], 0, []
        for ins, nt, cond, degenerate in regimes(rng, n0 if tier == 'quick' else 30 * n0, True, units):
            W = stm_oracle(ins[:6], ins[6], ins[7])
            c = K(); c.fun = fun; c.want = 1
            rc, o = rp(c, ins); tot += 1
            want = kepler_oracle(ins[:6], ins[6], ins[7])
            samples.append(ins)
            err = stm_err(o[6:], W) if len(o) == 42 else 9e9
            if stat is not None: stat.append((err, nt, cond, ins))
            tol = min(1e-2, STMTOL * (1 + nt) ** 2 * cond * max(1, 1 / max(nt, 1e-300)))
            if ins[6] == 0: tol = 0 ; err = max(abs(M - (i % 7 == 0)) for i, M in enumerate(o[6:])) if len(o) == 42 else 9e9; tol = 1e-9
            if rc or not close(o[:6], want, min(1e-8 * (1 + nt) * cond, 1e-3)) or not err <= tol:
                bad.append(dict(case='%s matrix over wide regimes' % fun, obligation='state and matrix equal the reference (runtime check)', status='confirmed', inputs=ins, rc=rc, outputs=o, want=W, error=err, tol=tol))
        return tot, bad[:5], samples[:3]
    return runtime
