"""Low-thrust and three-body dynamics: the equations handed to the integrator, and the integrators handed out."""
from .common import *
STUB = build.VERIF + '/stubs_lib'
IR_ = ['drivers/ta.cpp', 'src/ta/stark.cpp', 'src/ta/cr3bp.cpp']
def program(): return build.program(IR_, ('-I' + STUB,))
REPLAY = dict(srcs=IR_, libs=[], stubs=(STUB,))
ASSUME = ['heyoka (not installed) replaced by a stand-in: an expression is its value at an arbitrary point, arithmetic, pow, sqrt, sum, eq, select, prime and par mean what heyoka documents', 'the adaptive Taylor integrator itself (heyoka) is not verified', 'hash and rehash policy of libstdc++',
          'away from the singularities (centre of attraction, the primaries, zero mass or exhaust speed)']
NM = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'm']
V = [var('v_' + n) for n in NM]
X, Y, Z, VX, VY, VZ, M = V
Q = [var('par%d' % k) for k in range(5)]
MU = Q[0]
def tag(n):
    k = 0
    for c in n: k = k * 256 + ord(c)
    return 1000 + k
sq = lambda a, b, c: a * a + b * b + c * c
def stark(thrust):
    r = sqrt(sq(X, Y, Z)); U = Q[2:5] if thrust else [T.ZERO] * 3
    un = sqrt(sq(*U)) if thrust else T.ZERO
    return [VX, VY, VZ] + [-Q[0] * p / (r * r * r) + k / M for p, k in zip(V[:3], U)] + [-un / Q[1] if thrust else T.ZERO]
R1, R2 = sqrt(sq(X + MU, Y, Z)), sqrt(sq(X - 1 + MU, Y, Z))
def cr3bp():
    a, b = (1 - MU) / (R1 * R1 * R1), MU / (R2 * R2 * R2)
    return [VX, VY, VZ, 2 * VY + X - a * (X + MU) - b * (X - 1 + MU), -2 * VX + Y - (a + b) * Y, -(a + b) * Z]
JAC = X * X + Y * Y + 2 * (1 - MU) / R1 + 2 * MU / R2 - sq(VX, VY, VZ)
def cstr(E, p):
    s = ''
    while True:
        c = E.conc(E.load_i(p + len(s), 1))
        if not c: return s
        s += chr(c)
def tvar(E, p):
    n = cstr(E, p)
    return V[NM.index(n)] if n in NM else var('var_' + n)
class Dy(Case):
    sweep_n = 0
    gdirty = True
    thrust, which = True, 0
    def init(self):
        self.inputs = ()
        self.held, self.locks = [], []
        def lock(E, m): self.held.append(E.conc(m)); self.locks.append(E.conc(m)); self.depth = max(self.depth, len(self.held))
        def unlock(E, m):
            m = E.conc(m)
            if m in self.held: self.held.remove(m)
            else: self.bad = True
        par = lambda E, i: (Q[E.conc(i)] if self.thrust or E.conc(i) < 2 else T.ZERO) if E.conc(i) < 5 else var('par%d' % E.conc(i))
        nop = lambda E, *a: None
        self.overrides = [(r'^kv_hy_var', tvar), (r'^kv_hy_par', par), (r'^std::mutex::lock\(', lock), (r'^std::mutex::unlock\(', unlock), (r'^std::hash<double>::operator\(\)', lambda E, *a: 7),
                          (r'_Prime_rehash_policy::_Prime_rehash_policy', nop), (r'_M_need_rehash', lambda E, *a: [0, 0]), (r'_M_next_bkt', lambda E, s, n: max(13, E.conc(n)))]
        self.basis = [M, Q[1], sqrt(sq(X, Y, Z)), sqrt(sq(*Q[2:5])), R1, R2] + [var('t%d' % k) for k in range(1, 4)]
        self.facts_ = [('gt', M, T.ZERO), ('gt', Q[1], T.ZERO)]
    def start(self, E):
        self.held.clear(); self.locks.clear(); self.bad, self.depth = False, 0
        for md in E.prog.mods:
            for fn in md.funcs:
                if fn.startswith('_GLOBAL__sub_I_'): E.call(fn)
        E.gok |= E.dirty_globals()
    def names(self): return NM if self.which < 2 else NM[:6]
    def spec(self): return stark(self.thrust) if self.which < 2 else cr3bp()
    def same(self, P, what, n, tg, o):
        P.check(what + ': one equation per variable', n == len(self.names()), '%s' % n)
        P.check(what + ': order of the equations', tg[:n] == [tag(x) for x in self.names()], '%s' % tg)
        for k, x in enumerate(self.names()): P.eq('%s: rate of %s' % (what, x), o[k], self.spec()[k])
    def i64(self, E, p, n): return [E.conc(E.load_i(p + 8 * k, 8)) for k in range(n)]
    def draw(self, r):
        env = {v: r.uniform(-2, 2) for v in V + Q}
        env.update({M: r.uniform(.5, 2), Q[1]: r.uniform(.5, 2)})
        for k in range(1, 4): env[var('t%d' % k)] = r.uniform(1e-16, 1)
        return env
class Rhs(Dy):
    def entry(self, E):
        self.start(E)
        o, tg, n = E.put_doubles([0] * 8), E.alloc(64), E.alloc(8)
        E.call('kv_ta_dyn', self.which // 2, o, tg, n)
        n = E.conc(E.load_i(n, 8))
        return [n, self.i64(E, tg, min(n, 8)), E.doubles(o, 7)]
    def post(self, o, P):
        self.same(P, 'right-hand side', *o)
        if self.which >= 2:
            dirs = [({v: f}) for v, f in zip(V, o[2])]
            P.eq('the Jacobi integral is conserved', sum((grad(JAC, v) * f for v, f in zip(V[:6], o[2])), T.ZERO), T.ZERO)
def grad(t, v):
    """partial derivatives of JAC, by hand (its terms only)"""
    k = V.index(v)
    if k > 2: return -2 * v
    d1, d2 = (X + MU, X - 1 + MU) if k == 0 else (v, v)
    return (2 * v if k < 2 else T.ZERO) - 2 * (1 - MU) * d1 / (R1 * R1 * R1) - 2 * MU * d2 / (R2 * R2 * R2)
class Cache(Dy):
    """a history of requests: tolerances by number"""
    seq = (1, 2, 1, 3, 2)
    def entry(self, E):
        self.start(E)
        out, seen = [], {}
        E.call('kv_ta_dim', self.which); dimlock = list(self.locks)
        for k in self.seq:
            self.locks.clear()
            p = E.conc(E.call('kv_ta_get', self.which, var('t%d' % k)))
            lk = list(self.locks)
            for other in range(4):
                if other != self.which: E.call('kv_ta_get', other, var('t1'))      # the other caches are independent
            o, st, ns, dy, tg, n, ar, na = E.put_doubles([0] * 2), E.put_doubles([0] * 100), E.alloc(8), E.put_doubles([0] * 8), E.alloc(64), E.alloc(8), E.alloc(128), E.alloc(8)
            E.call('kv_ta_read', p, o, st, ns, dy, tg, n, ar, na)
            ns, n, na = (E.conc(E.load_i(q, 8)) for q in (ns, n, na))
            out.append((k, p, E.doubles(o, 2), E.doubles(st, min(ns, 100)), n, self.i64(E, tg, min(n, 8)), E.doubles(dy, 7), self.i64(E, ar, min(na, 16)), lk))
        d = E.conc(E.call('kv_ta_dim', self.which))
        E.gok |= E.dirty_globals()                   # the caches are meant to change
        return [out, d, dimlock, list(self.held), self.bad, self.depth]
    def post(self, o, P):
        out, dim, dimlock, held, badu, depth = o
        P.check('the cache holds one integrator per tolerance', dim == len(set(self.seq)), '%s' % dim)
        P.check('every lock taken is released', not held and not badu)
        ptr = {}
        for j, (k, p, tt, st, n, tg, dy, args, lk) in enumerate(out):
            w = 'request %d' % (j + 1)
            P.eq(w + ': tolerance', tt[0], var('t%d' % k))
            self.same(P, w, n, tg, dy)
            P.check(w + ': guarded by the lock under which the size is read', bool(lk) and len(set(lk + dimlock)) == 1, '%s %s' % (lk, dimlock))
            P.check(w + ': same integrator as before', ptr.setdefault(k, p) == p)
            N = len(self.names())
            if self.which % 2 == 0: P.check(w + ': no variational equations', not args and len(st) == N)
            else:
                want = [tag(x) for x in self.names()] + ([2, 3, 4] if self.which == 1 else [])
                P.check(w + ': derivatives with respect to state%s' % (' and thrust' if self.which == 1 else ''), args == want and len(st) == N + N * len(want), '%s %s' % (args, len(st)))
                if len(st) == N + N * len(want):
                    for a in range(N):
                        for b in range(len(want)): P.eq('%s: initial condition of derivative %d of variable %d' % (w, b, a), st[N + a * len(want) + b], const(int(a == b)))
        P.check('different tolerances, different integrators', len(set(ptr.values())) == len(ptr))
W = ['constant thrust', 'constant thrust, variational', 'three bodies', 'three bodies, variational']
def cases(tier):
    L = [Rhs(name='constant thrust', which=0), Rhs(name='constant thrust, thrust off', which=0, thrust=False), Rhs(name='three bodies', which=2)]
    for w in range(4):
        for seq in ((1,), (1, 1, 2), (1, 2, 1, 3, 2)): L.append(Cache(name='integrators, %s, requests %s' % (W[w], ' '.join(map(str, seq))), which=w, seq=seq))
    return L
# ---------------------------------------------------------------- compiled code
def make_replay(lib):
    P_, C = ctypes.c_void_p, ctypes.c_int
    lib.kv_ta_point.argtypes = (P_,)
    lib.kv_ta_dyn.argtypes = (C, P_, P_, P_)
    lib.kv_ta_get.argtypes, lib.kv_ta_get.restype = (C, D), P_
    lib.kv_ta_dim.argtypes, lib.kv_ta_dim.restype = (C,), ctypes.c_size_t
    lib.kv_ta_read.argtypes = (P_,) * 9
    return None
def ref(which, v, q):
    x, y, z, vx, vy, vz, m = v
    if which == 0:
        r = math.hypot(x, y, z); un = math.hypot(*q[2:5])
        return [vx, vy, vz] + [-q[0] * p / r ** 3 + k / m for p, k in zip(v[:3], q[2:5])] + [-un / q[1] if un else 0.0]
    mu = q[0]; r1, r2 = math.hypot(x + mu, y, z), math.hypot(x - 1 + mu, y, z)
    a, b = (1 - mu) / r1 ** 3, mu / r2 ** 3
    return [vx, vy, vz, 2 * vy + x - a * (x + mu) - b * (x - 1 + mu), -2 * vx + y - (a + b) * y, -(a + b) * z]
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    o, tg, n = darr([0] * 8), (ctypes.c_int64 * 8)(), ctypes.c_size_t()
    def rep(ob, ins, got, want): bad.append(dict(case='dynamics', obligation=ob + ' (runtime check)', status='confirmed', inputs=ins, outputs=got, expected=want))
    def near(a, b, v, q): return len(a) == len(b) and all(abs(x - y) <= 1e-9 * (1 + max(map(abs, b))) for x, y in zip(a, b))
    def point():
        s = 10 ** rng.uniform(-3, 3) if rng.random() < .4 else 1.0
        v = [s * rng.gauss(0, 1) for _ in range(6)] + [10 ** rng.uniform(-2, 3)]
        q = [rng.choice((rng.random(), 0.5, 10 ** rng.uniform(-3, 0))), 10 ** rng.uniform(-2, 4)] + [rng.gauss(0, 1) * 10 ** rng.uniform(-20, 2) for _ in range(3)]
        for k in range(2, 5):
            if rng.random() < .3: q[k] = 0.0
        lib.kv_ta_point(darr(v + q + [0.0] * 3))
        return v, q
    for it in range(3000 if tier == 'quick' else 300000):
        v, q = point()
        if len(samples) < 3: samples.append(v + q)
        for w in (0, 1):
            lib.kv_ta_dyn(w, o, tg, ctypes.byref(n)); tot += 1
            N, want = n.value, ref(w, v, q)
            if not near(list(o[:min(N, 8)]), want, v, q) or list(tg[:N]) != [tag(x) for x in NM[:N]]: rep('%s: right-hand side' % W[2 * w], v + q, list(o[:N]), want)
        if len(bad) > 3: break
    tt, st, ns, ar, na = darr([0] * 2), darr([0] * 100), ctypes.c_size_t(), (ctypes.c_int64 * 16)(), ctypes.c_size_t()
    for w in range(4):
        seen = {}
        for it in range(60):
            v, q = point()
            tol = rng.choice((1e-16, 1e-15, 2.0 ** -52, rng.choice(list(seen) or [1e-12]), 10 ** rng.uniform(-16, 0)))
            p = lib.kv_ta_get(w, tol); tot += 1
            lib.kv_ta_read(p, tt, st, ctypes.byref(ns), o, tg, ctypes.byref(n), ar, ctypes.byref(na))
            if tol not in seen: seen[tol] = (p, ref(w // 2, v, q))
            if seen[tol][0] != p: rep('%s: same integrator for the same tolerance' % W[w], [tol], p, seen[tol][0])
            if tt[0] != tol: rep('%s: tolerance' % W[w], [tol], tt[0], tol)
            N = n.value
            if not near(list(o[:min(N, 8)]), seen[tol][1], v, q): rep('%s: equations of the integrator' % W[w], [tol], list(o[:N]), seen[tol][1])
            if ns.value != (N if w % 2 == 0 else N + N * (10 if w == 1 else 6)): rep('%s: size of the state' % W[w], [tol], ns.value, N)
        if lib.kv_ta_dim(w) != len(seen): rep('%s: size of the cache' % W[w], [], lib.kv_ta_dim(w), len(seen))
    return tot, bad[:5], samples
