"""Shared by C28, C30: the high-fidelity Sims-Flanagan leg.  The Taylor integrator (heyoka) is represented by its contract: the
flow FLOW(x, t, mu, veff, u, tol) of the constant-thrust equations (C27), and its derivatives for the variational version."""
from .common import *
from kvc.llir import KThrow
STUB = build.VERIF + '/stubs_lib'
IR_ = ['drivers/hf.cpp', 'drivers/taobj.cpp', 'src/leg/sims_flanagan_hf.cpp', 'src/leg/sf_checks.cpp']
def program(): return build.program(IR_, ('-I' + STUB,))
REPLAY = dict(srcs=IR_ + ['src/ta/stark.cpp', 'src/linalg.cpp'], libs=['-lfmt', '-lopenblas', '-llapack'], stubs=(STUB,))
NAMES = ['rs0', 'rs1', 'rs2', 'vs0', 'vs1', 'vs2', 'ms', 'rf0', 'rf1', 'rf2', 'vf0', 'vf1', 'vf2', 'mf', 'tof', 'thrust', 'isp', 'mu', 'cut', 'tol']
A = [var(x) for x in NAMES]
B = [var('new_' + x) for x in NAMES]
C = [var('newer_' + x) for x in NAMES]
G0 = T.from_double(9.80665)
LOGIC = '_ZTISt11logic_error'
def thr(n, p='u'): return [var('%s%d%s' % (p, k, c)) for k in range(n) for c in 'xyz']
def valid(a): return [('ge', x, T.ZERO) for x in a[14:19]] + [('le', a[18], T.ONE), ('gt', a[19], T.ZERO), ('le', a[19], T.ONE)]
def FLOW(x, t, mu, veff, u, tol): return [T.uf('flow', *x, t, mu, veff, *u, tol, idx=k) for k in range(7)]
def PHI(x, t, mu, veff, u, tol): return [[T.uf('phi', *x, t, mu, veff, *u, tol, idx=10 * i + j) for j in range(10)] for i in range(7)]
def ta_run(E, s, n, p, np_, t0, t1, tol, na):
    n, na = E.conc(n), E.conc(na)
    st, pr = E.doubles(s, n), E.doubles(p, 5)
    args = (st[:7], t1 - t0, pr[0], pr[1], pr[2:5], tol)
    for k, x in enumerate(FLOW(*args)): E.store_d(s + 8 * k, x)
    if na:
        F = PHI(*args)
        for i in range(7):
            for j in range(na):
                v = F[i][j] if j >= 7 else T.ZERO
                for k in range(7): v = v + F[i][k] * st[7 + k * na + j]
                E.store_d(s + 8 * (7 + i * na + j), v)
    return 0
def get_ta(isvar):
    def f(E, tol):
        b = E.alloc(E.call('kv_hf_ta_size'))
        E.call('kv_hf_ta', b, tol, isvar)
        return b
    return f
nop = lambda E, *a: None
OV = [(r'^kv_ta_run', ta_run), (r'^kep3::ta::get_ta_stark\(', get_ta(0)), (r'^kep3::ta::get_ta_stark_var\(', get_ta(1)), (r'^kv_hy_var', lambda E, *a: T.ONE), (r'^kv_hy_par', lambda E, *a: T.ONE)]
def mismatch(a, u, nf):
    n = len(u) // 3
    out = []
    for ks, x, sg in ((range(nf), a[:7], 1), (range(n - 1, nf - 1, -1), a[7:14], -1)):
        x = list(x)
        for k in ks: x = FLOW(x, sg * a[14] / n, a[17], a[16] * G0, [a[15] * y for y in u[3 * k:3 * k + 3]], a[19])
        out.append(x)
    return [x - y for x, y in zip(*out)]
def tcon(u): return [sum((x * x for x in u[3 * k:3 * k + 3]), -T.ONE) for k in range(len(u) // 3)]
class Hf(Case):
    overrides = OV
    sweep_n = 0
    maxpaths = 200
    nsamples = 2
    n, form = 1, 0
    def alloc(self, E): return E.alloc(E.call('kv_hf_size') + 64)
    def candidates(self, t):
        if t.op == 'intof': return list(range(9))
    def int_nonneg(self, t): return t.op == 'intof'
    def dump(self, E, b):
        a, th, n, s, a2 = E.put_doubles([0] * 20), E.put_doubles([0] * 30), E.alloc(8), E.alloc(16), E.put_doubles([0] * 14)
        E.call('kv_hf_dump', b, a, th, 30, n, s, a2)
        n = E.conc(E.load_i(n, 8))
        return (E.doubles(a, 20), E.doubles(th, min(n, 30)), n, [E.conc(E.load_i(s + 4 * k, 4)) for k in range(3)], E.doubles(a2, 14))
    def same(self, P, what, got, a, th):
        ga, gth, n, s, a2 = got
        for k in range(20): P.eq('%s: %s' % (what, NAMES[k]), ga[k], a[k])
        for k in range(14): P.eq('%s: state vector, %s' % (what, NAMES[k]), a2[k], a[k])
        P.check('%s: number of throttles' % what, n == len(th), '%s, not %s' % (n, len(th)))
        for k in range(min(n, len(th))): P.eq('%s: throttle %d' % (what, k), gth[k], th[k])
        N = len(th) // 3
        P.check('%s: number of segments' % what, s[0] == N, '%s' % (s,))
        P.check('%s: forward and backward segments add up' % what, s[1] + s[2] == s[0], '%s' % (s,))
        P.holds('%s: forward segments <= nseg * cut' % what, 'le', const(s[1]), N * a[18])
        P.holds('%s: nseg * cut < forward segments + 1' % what, 'lt', N * T.lift(a[18]), const(s[1] + 1))
    def con(self, E, b, N):
        o, n = E.put_doubles([0] * (8 + N)), E.alloc(8)
        E.call('kv_hf_con', b, o, 8 + N, n)
        n = E.conc(E.load_i(n, 8))
        return n, E.doubles(o, min(n, 8 + N))
    def fresh(self, P, what, got, con, a, th):
        """mismatch and throttle constraints of the configuration"""
        n, o = con
        P.check(what + ': number of constraints', n == 7 + len(th) // 3, '%s' % n)
        for k, (x, y) in enumerate(zip(o, mismatch(a, th, got[3][1]) + tcon(th))): P.eq('%s: %s' % (what, 'mismatch %d' % k if k < 7 else 'throttle constraint %d' % (k - 7)), x, y)
# ---------------------------------------------------------------- compiled code
def make_replay(lib):
    V, Z, I, D_, U = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_double, ctypes.c_uint
    lib.kv_hf_size.restype = Z; lib.kv_hf_size.argtypes = []
    lib.kv_hf_delete.restype = None
    for n, a in dict(new=[V, V, V, Z, I], delete=[V], copy=[V, V], set=[V, I, V, V, Z], dump=[V, V, V, Z, V, V, V], mc=[V, V], tc=[V, V, Z, V], tcg=[V, V, Z, V], con=[V, V, Z, V], setcon=[V, V, Z, V, Z, V],
                     deriv=[V, V, V, V], grad=[V, V, V, V, Z, V], hist=[V, U, U, V, Z, V, V], flow=[V, Z, V, Z, D_, D_, D_, Z]).items(): getattr(lib, 'kv_hf_' + n).argtypes = a
    return None
class Obj:
    def __init__(self, lib, a=None, th=(), form=0):
        self.lib, self.b, self.alive = lib, ctypes.create_string_buffer(lib.kv_hf_size() + 64), False
        th = list(th)
        self.rc = lib.kv_hf_new(self.b, darr(a or [0] * 20), darr(th), len(th), 4 if a is None else form)
        self.alive = self.rc == 0
    def __del__(self):
        if self.alive: self.lib.kv_hf_delete(self.b)
    def set(self, op, v=(), th=()): return self.lib.kv_hf_set(self.b, op, darr(list(v) + [0.0]), darr(th), len(th))
    def dump(self):
        a, n, s, th, a2 = darr([0] * 20), ctypes.c_size_t(0), (ctypes.c_uint * 3)(), darr([0] * 600), darr([0] * 14)
        self.lib.kv_hf_dump(self.b, a, th, 600, ctypes.byref(n), s, a2)
        return list(a), list(th)[:n.value], tuple(s), list(a2)
    def vec(self, f, *x, cap=4000):
        o, n = darr([0] * cap), ctypes.c_size_t(0)
        rc = getattr(self.lib, 'kv_hf_' + f)(self.b, *x, o, cap, ctypes.byref(n))
        return rc, list(o[:n.value])
    def grad(self, cap=4000):
        gs, gf, o, n = darr([0] * 49), darr([0] * 49), darr([0] * cap), ctypes.c_size_t(0)
        rc = self.lib.kv_hf_grad(self.b, gs, gf, o, cap, ctypes.byref(n))
        return rc, list(gs), list(gf), list(o[:n.value])
def flow(lib, x, t, mu, veff, u, tol):
    s = darr(list(x))
    lib.kv_hf_flow(s, 7, darr([mu, veff] + list(u)), 5, 0.0, t, tol, 0)
    return list(s)
def ref(lib, a, u, nf):
    n = len(u) // 3
    out = []
    for ks, x, sg in ((range(nf), a[:7], 1), (range(n - 1, nf - 1, -1), a[7:14], -1)):
        for k in ks: x = flow(lib, x, sg * a[14] / n, a[17], a[16] * 9.80665, [a[15] * y for y in u[3 * k:3 * k + 3]], a[19])
        out.append(list(x))
    return [x - y for x, y in zip(*out)] + [sum(x * x for x in u[3 * k:3 * k + 3]) - 1 for k in range(n)], [max(abs(x), abs(y), 1e-3) for x, y in zip(*out)] + [1.0] * n
