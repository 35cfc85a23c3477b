"""Vectorised propagation against the contract of the single propagation."""
from .twobody import *
from . import C08
from .C08 import SRC, REPLAY
IR = C08.IR
LEVEL = 'other'
EXPLAIN = 'for every vector length 0..6 (bound) and symbolic contents, the executed code is compared with the contract of propagate_lagrangian (uninterpreted function of its arguments); longer vectors are checked at run time against single propagations'
ASSUME = ['propagate_lagrangian represented by its contract: a function of (state, tof, mu, request)', 'vector length bounded by 6 in the symbolic part']
mu_ = var('mu')
TOFS = [var('t%d' % k) for k in range(6)]
def single(rv, t, mu, want):
    return [T.uf('prop', *rv, t, mu, T.const(want), idx=k) for k in range(6)], [T.uf('stm', *rv, t, mu, idx=k) for k in range(36)] if want else []
def stub(E, ret, rv, t, mu, want):
    want = E.conc(want) & 1
    s, M = single(E.doubles(rv, 6), t, mu, want)
    for k in range(6): E.store_d(ret + 8 * k, s[k])
    for k in range(36): E.store_d(ret + 48 + 8 * k, M[k] if M else T.ZERO)
    E.store_i(ret + 336, want, 1)
class V(Case):
    sweep_n = 0
    overrides = [(r'kep3::propagate_lagrangian\(', stub)]
    def init(self): self.inputs = tuple(R_ + V_ + TOFS[:self.n] + [mu_])
    def entry(self, E):
        n = self.n
        rv, t, o, st, has, nout = E.put_doubles(R_ + V_), E.put_doubles(TOFS[:n]), E.put_doubles([0] * 6 * n), E.put_doubles([0] * 36 * n), E.alloc(4 * n + 8), E.alloc(8)
        E.call('kv_lag_v', rv, t, n, mu_, self.want, o, st, has, nout)
        self.nout = E.load_i(nout, 8)
        self.has = [E.load_i(has + 4 * k, 4) for k in range(n)]
        return E.doubles(o, 6 * n) + E.doubles(st, 36 * n)
    def post(self, o, P):
        n = self.n
        P.check('one entry per time of flight', self.nout == n, '%s' % self.nout)
        for k in range(n):
            s, M = single(R_ + V_, TOFS[k], mu_, self.want)
            P.check('entry %d carries a matrix exactly on request' % k, self.has[k] == self.want)
            for j in range(6): P.eq('entry %d state %d' % (k, j), o[6 * k + j], s[j])
            for j in range(36 if self.want else 0): P.eq('entry %d matrix %d' % (k, j), o[6 * n + 36 * k + j], M[j])
def cases(tier):
    return [V(name='length %d%s' % (n, ', with matrix' if w else ''), n=n, want=w) for n in range(7) for w in (0, 1)]
make_replay_ = make_replay
def make_replay(lib):
    make_replay_(lib)
    V_P, Z = ctypes.c_void_p, ctypes.c_size_t
    lib.kv_lag_v.argtypes = [V_P, V_P, Z, D, ctypes.c_int, V_P, V_P, V_P, V_P]
    return None
def close6(a, b): return all(abs(x - y) <= 1e-12 * (1 + abs(x)) for x, y in zip(a, b))
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    for it in range(60 if tier == 'quick' else 1000):
        hyp = rng.random() < 0.4
        n = rng.choice((0, 1, 2, 3, 7, 17, 64, 300))
        env = draw_state(rng, hyp); rv = [env[v] for v in R_ + V_]; mu = env[m] ** 2; want = rng.randint(0, 1)
        tofs = [rng.choice((0.0, rng.uniform(-8, 8), 1.0)) for _ in range(n)]
        if rng.random() < 0.3: tofs.sort()
        o, st, has, no = darr([0] * 6 * n), darr([0] * 36 * n), (ctypes.c_int * max(1, n))(), ctypes.c_size_t(99)
        rc = lib.kv_lag_v(darr(rv), darr(tofs), n, mu, want, o, st, has, ctypes.byref(no))
        err = None
        if rc or no.value != n: err = ('return code / length', rc, no.value)
        for k in range(n):
            if err: break
            o1, s1, h1 = darr([0] * 6), darr([0] * 36), ctypes.c_int(0)
            rc = lib.kv_lag(darr(rv), tofs[k], mu, want, o1, s1, ctypes.byref(h1))
            tot += 1
            if rc or not close6(list(o1), list(o[6 * k:6 * k + 6])) or h1.value != has[k] or (h1.value and not all(abs(x - y) <= 1e-11 * (1 + abs(x)) for x, y in zip(s1, st[36 * k:36 * k + 36]))): err = ('entry', k, n)
        if err: bad.append(dict(case='vectorised vs single', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=dict(rv=rv, mu=mu, tofs=tofs, want=want), mismatch=err))
        samples.append(dict(n=n, tofs=tofs[:3], want=want))
    return tot, bad[:5], samples
