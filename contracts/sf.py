"""Shared by C16-C20: the Sims-Flanagan leg.  propagate_lagrangian is represented by its contract (C08, C10): functions
prop(rv, t, mu) and stm(rv, t, mu) of which only the facts proved there are used."""
from .twobody import dot, kepler_oracle
from .common import *
SRC = ['drivers/sf.cpp', 'src/leg/sims_flanagan.cpp', 'src/leg/sf_checks.cpp', 'src/linalg.cpp', 'src/core_astro/propagate_lagrangian.cpp', 'src/core_astro/stm.cpp', 'src/core_astro/ic2par2ic.cpp']
IR = ['drivers/sf.cpp', 'src/leg/sims_flanagan.cpp', 'src/leg/sf_checks.cpp', 'src/linalg.cpp']
REPLAY = dict(srcs=SRC, libs=['-lfmt', '-lopenblas', '-llapack'])
NAMES = ['rs0', 'rs1', 'rs2', 'vs0', 'vs1', 'vs2', 'ms', 'rf0', 'rf1', 'rf2', 'vf0', 'vf1', 'vf2', 'mf', 'tof', 'thrust', 'isp', 'mu', 'cut']
A = [var(x) for x in NAMES]
MS, MF, TOF, TH, ISP, MU, CUT = A[6], A[13], A[14], A[15], A[16], A[17], A[18]
TAU = var('tau')
G0 = T.from_double(9.80665)
def thr(n): return [var('u%d%s' % (k, c)) for k in range(n) for c in 'xyz']
def PROP(rv, t, mu): return [T.uf('prop', *rv, t, mu, idx=k) for k in range(6)]
def STM(rv, t, mu): return [T.uf('stm', *rv, t, mu, idx=k) for k in range(36)]
def lag_stub(E, ret, rv, t, mu, want):
    want = E.conc(want) & 1
    a = E.doubles(rv, 6)
    for k, x in enumerate(PROP(a, t, mu)): E.store_d(ret + 8 * k, x)
    for k, x in enumerate(STM(a, t, mu) if want else [T.ZERO] * 36): E.store_d(ret + 48 + 8 * k, x)
    E.store_i(ret + 336, want, 1)
OV = [(r'^kep3::propagate_lagrangian\(', lag_stub)]
def norm(a): return sqrt(dot(a, a))
def mismatch(a, u, nf, masses=None, U=None):
    """the mismatch: forward passage of nf segments from the initial state, backward of the others from the final state"""
    n = len(u) // 3
    U = U or [var('U%d' % k) for k in range(n)]
    dt, veff = a[14] / n, a[16] * G0
    c = a[15] * dt
    out = []
    for sg, ks, rv, m in ((1, range(nf), list(a[:6]), a[6]), (-1, range(n - 1, nf - 1, -1), list(a[7:13]), a[13])):
        ks = list(ks)
        for j, k in enumerate(ks):
            if masses is not None: masses.append(m)
            rv = PROP(rv, sg * dt * (const(T.Fraction(1, 2)) if j == 0 else const(1)), a[17])
            dv = [c / m * x for x in u[3 * k:3 * k + 3]]
            rv = rv[:3] + [x + sg * y for x, y in zip(rv[3:], dv)]
            m = m * T.exp(-sg * c / m * U[k] / veff)
        if ks: rv = PROP(rv, sg * dt / 2, a[17])
        out.append(rv + [m])
    return [x - y for x, y in zip(*out)]
def dyn(sm, rv, mu):
    """right hand side of the two-body equations at values (field elements)"""
    p = sm.p
    R2 = sum(x * x for x in rv[:3]) % p
    R = sm.sqrt((R2, 0))[0]
    i3 = sm.inv(R2 * R % p)
    return list(rv[3:]) + [-mu * i3 * x % p for x in rv[:3]]
def flow_rule(sm, t, a):
    """prop and stm: arbitrary functions with d prop = stm d(rv) + dyn dt and the time reversal symmetry"""
    p = sm.p
    nm, k = t.val
    if nm not in ('prop', 'stm'): return None
    key = ('flow',) + tuple(x[0] for x in a)
    got = sm.mono_cache.get(key)
    if got is None:
        s = 1 if a[6][0] < p // 2 else -1                  # canonical representative under (v, t) -> (-v, -t)
        S = [1, 1, 1, s, s, s]
        tag = tuple(x[0] * S[j] % p for j, x in enumerate(a[:6])) + (a[6][0] * s % p, a[7][0])
        j = 0
        while True:                                        # the radius exists in the field
            q = [sm.rnd('prop', i, j, tag) for i in range(6)]
            R2 = sum(x * x for x in q[:3]) % p
            if R2 and pow(R2, (p - 1) // 2, p) == 1: break
            j += 1
        M = [sm.rnd('stm', i, tag) for i in range(36)]
        q = [x * S[i] % p for i, x in enumerate(q)]
        M = [M[6 * i + j] * S[i] * S[j] % p for i in range(6) for j in range(6)]
        got = sm.mono_cache[key] = (q, M, dyn(sm, q, a[7][0]))
    q, M, f = got
    if nm == 'stm': return (M[k], 0)
    if a[7][1]: raise NotImplementedError
    return (q[k], (sum(M[6 * k + j] * a[j][1] for j in range(6)) + f[k] * a[6][1]) % p)
class Leg(Case):
    """n segments, nf of them forward"""
    overrides = OV
    sweep_n = 0
    maxpaths = 60
    nsamples = 2
    def init(self):
        n = self.n
        self.u = thr(n)
        # throttle k is U_k times the unit vector (2p, 2q, 1 - p^2 - q^2)/(1 + p^2 + q^2)
        for k in range(n):
            p, q, Uk = var('p%d' % k), var('q%d' % k), var('U%d' % k)
            d = 1 + p * p + q * q
            for x, e in zip(self.u[3 * k:3 * k + 3], (2 * p, 2 * q, 1 - p * p - q * q)): self.defs[x] = Uk * e / d
        self.defs[TOF] = n * TAU
        self.masses = []
        self.spec = mismatch(A, self.u, self.nf, self.masses)
        self.basis = [TH, TAU] + self.masses + [var('U%d' % k) for k in range(n)]
        self.facts_ = [('ge', CUT, T.ZERO), ('le', CUT, T.ONE), ('gt', ISP, T.ZERO), ('gt', MU, T.ZERO)]
        self.facts_ += [('ge', n * CUT, const(self.nf)), ('lt', n * CUT, const(self.nf + 1))]
        self.inputs = tuple(A + self.u)
        self.rootcap = 2
    def candidates(self, t):
        if t.op == 'intof': return list(range(self.n + 1))
    def int_nonneg(self, t): return t.op == 'intof'
    def new(self, E):
        b = E.alloc(E.call('kv_sf_size'))
        E.call('kv_sf_new', b, E.put_doubles(self.inputs[:19]), E.put_doubles(self.inputs[19:]), 3 * self.n)
        return b
    def allfacts(self):
        return [('gt', x, T.ZERO) for x in self.basis + [TOF] if x.op == 'var'] + list(self.facts_)
def splits(N): return [(n, nf) for n in range(1, N + 1) for nf in range(n + 1)]
# ---------------------------------------------------------------- compiled code
def make_replay(lib):
    V, Z, D_ = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_double
    lib.kv_sf_size.restype = Z; lib.kv_sf_size.argtypes = []
    for f in ('kv_sf_new', 'kv_sf_new_nocut'): getattr(lib, f).argtypes = [V, V, V, Z]
    lib.kv_sf_default.argtypes = lib.kv_sf_delete.argtypes = [V]
    lib.kv_sf_delete.restype = None
    lib.kv_sf_set.argtypes = [V, ctypes.c_int, V, V, Z]
    lib.kv_sf_dump.argtypes = [V, V, V, Z, V, V]
    lib.kv_sf_mc.argtypes = [V, V]
    lib.kv_sf_grad.argtypes = [V, V, V, V, Z, V]
    lib.kv_sf_tc.argtypes = lib.kv_sf_tcg.argtypes = [V, V, Z, V]
    return None
class Obj:
    """a leg object of the compiled code"""
    def __init__(self, lib, a=None, th=(), nocut=False):
        self.lib, self.b, self.alive = lib, ctypes.create_string_buffer(lib.kv_sf_size() + 64), False
        th = list(th)
        if a is None: self.rc = lib.kv_sf_default(self.b)
        else: self.rc = (lib.kv_sf_new_nocut if nocut else lib.kv_sf_new)(self.b, darr(a), darr(th), len(th))
        self.alive = self.rc == 0
    def __del__(self):
        if self.alive: self.lib.kv_sf_delete(self.b)
    def set(self, op, v=(), th=()): return self.lib.kv_sf_set(self.b, op, darr(v), darr(th), len(th))
    def dump(self):
        a, n, s = darr([0] * 19), ctypes.c_size_t(0), (ctypes.c_uint * 3)()
        th = darr([0] * 600)
        self.lib.kv_sf_dump(self.b, a, th, 600, ctypes.byref(n), s)
        return list(a), list(th)[:n.value], tuple(s)
    def mc(self):
        o = darr([0] * 7)
        rc = self.lib.kv_sf_mc(self.b, o)
        return rc, list(o)
    def vec(self, f, cap=60000):
        o, n = darr([0] * cap), ctypes.c_size_t(0)
        rc = getattr(self.lib, f)(self.b, o, cap, ctypes.byref(n))
        return rc, list(o[:n.value])
    def grad(self, cap=20000):
        gs, gf, o, n = darr([0] * 49), darr([0] * 49), darr([0] * cap), ctypes.c_size_t(0)
        rc = self.lib.kv_sf_grad(self.b, gs, gf, o, cap, ctypes.byref(n))
        return rc, list(gs), list(gf), list(o[:n.value])
def draw_leg(rng, nmax=12, nd=None, zero=0.1):
    """constructor arguments of a random leg, in non-dimensional or SI units"""
    n = nd if nd is not None else rng.choice((1, 1, 2, 2, 3, 4, 5, rng.randint(1, nmax)))
    def st():
        r = [rng.gauss(0, 1) for _ in range(3)]
        R = math.sqrt(sum(x * x for x in r)); k = rng.uniform(0.7, 1.6) / R
        r = [x * k for x in r]
        w = [rng.gauss(0, 1) for _ in range(3)]
        h = [r[1] * w[2] - r[2] * w[1], r[2] * w[0] - r[0] * w[2], r[0] * w[1] - r[1] * w[0]]
        v = [h[1] * r[2] - h[2] * r[1], h[2] * r[0] - h[0] * r[2], h[0] * r[1] - h[1] * r[0]]
        V = math.sqrt(sum(x * x for x in v)); R = math.sqrt(sum(x * x for x in r))
        k = rng.uniform(0.8, 1.2 if rng.random() < 0.8 else 1.8) / math.sqrt(R) / V
        return r, [x * k + rng.uniform(-0.2, 0.2) for x in v]
    (rs, vs), (rf, vf) = st(), st()
    tof, mu = rng.uniform(0.3, 6), 1.0
    T_ = 10 ** rng.uniform(-3, -0.5)
    ms, mf = rng.uniform(0.5, 2), rng.uniform(0.4, 2)
    isp = rng.uniform(0.02, 2)                       # veff = isp*g0
    cut = rng.choice((0.0, 1.0, 0.5, rng.random(), rng.randint(0, n) / n, 0.999, 1 / 3))
    if rng.random() < 0.3:                           # SI
        L, M = rng.choice(((1.495978707e11, 1000.0), (7e6, 500.0))); g = 1.32712440018e20 if L > 1e9 else 3.986004418e14
        Vu = math.sqrt(g / L); tu = L / Vu
        rs, rf = [x * L for x in rs], [x * L for x in rf]
        vs, vf = [x * Vu for x in vs], [x * Vu for x in vf]
        tof, mu, ms, mf, T_, isp = tof * tu, g, ms * M, mf * M, T_ * M * L / tu ** 2, isp * Vu
    u = []
    for k in range(n):
        w = [rng.gauss(0, 1) for _ in range(3)]
        z = math.sqrt(sum(x * x for x in w)); k = rng.choice((1.0, rng.random(), rng.random(), 1e-6)) / z
        if rng.random() < zero: k = 0.0
        u += [x * k for x in w]
    return rs + vs + [ms] + rf + vf + [mf, tof, T_, isp, mu, cut], u
def ref_mismatch(a, u, nf):
    """floating point / high precision reference of the mismatch (mpmath two-body flow)"""
    import mpmath as mp
    n = len(u) // 3
    dt, veff = a[14] / n, a[16] * 9.80665
    c = a[15] * dt
    out = []
    for sg, ks, rv, m in ((1, range(nf), list(a[:6]), a[6]), (-1, range(n - 1, nf - 1, -1), list(a[7:13]), a[13])):
        ks = list(ks)
        for j, k in enumerate(ks):
            rv = kepler_oracle(rv, sg * dt * (0.5 if j == 0 else 1), a[17])
            dv = [c / m * x for x in u[3 * k:3 * k + 3]]
            rv = rv[:3] + [x + sg * y for x, y in zip(rv[3:], dv)]
            m = m * math.exp(-sg * math.sqrt(dot(dv, dv)) / veff)
        if ks: rv = kepler_oracle(rv, sg * dt / 2, a[17])
        out.append(rv + [m])
    return [x - y for x, y in zip(*out)], out
def nf_of(a, u): return int((len(u) // 3) * a[18])
