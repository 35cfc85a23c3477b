"""Serialization: load(save(x)) is observably x."""
from .sf import *
from . import lambert as LB, hf as HF, C31 as ST
from kvc.engine import SymInt
LEVEL = 'other'
EXPLAIN = 'serialize() of lambert_problem, sims_flanagan, sims_flanagan_hf, stark_problem, keplerian, jpl_lp and epoch executed on a minimal archive with every field symbolic, for 0..5 solutions and 0..4 segments (bound) and targets of other sizes; real Boost binary and text archives at run time'
IR = ['drivers/s11n.cpp'] + IR + ['src/lambert_problem.cpp']
IR2 = ['drivers/s11n2.cpp', 'drivers/taobj.cpp', 'drivers/hf.cpp', 'drivers/stark.cpp', 'src/leg/sims_flanagan_hf.cpp', 'src/leg/sf_checks.cpp', 'src/stark_problem.cpp', 'src/epoch.cpp', 'src/udpla/keplerian.cpp', 'src/udpla/jpl_lp.cpp']
STUB = HF.STUB
def program(): return dict(a=build.program(IR), b=build.program(IR2, ('-I' + STUB,)))
REPLAY = dict(srcs=['drivers/s11n.cpp', 'drivers/lambert.cpp', 'src/lambert_problem.cpp'] + SRC + [x for x in IR2 if x not in SRC] + ['drivers/kepl.cpp', 'drivers/jpl.cpp', 'src/ta/stark.cpp', 'src/planet.cpp'] + ['src/core_astro/%s.cpp' % x for x in ('ic2eq2ic', 'eq2par2eq')], libs=['-lboost_serialization', '-lfmt', '-lopenblas', '-llapack'], stubs=(STUB,))
ASSUME = ['heyoka (not installed) replaced by a stand-in whose integrators serialize their state, parameters, time and tolerance', 'Boost archives return what was stored, in order (represented by a two-tape archive)', 'at most 5 solutions / 4 segments in the symbolic part']
class Lam(Case):
    sweep_n = 0
    prog = 'a'
    na, nb = 1, 1
    def init(self):
        f = lambda p, n: [var('%s%d' % (p, k)) for k in range(n)]
        self.da, self.db = f('a', 11 + 7 * self.na), f('b', 11 + 7 * self.nb)
        self.inputs = tuple(self.da + self.db)
    def entry(self, E):
        ints = lambda p, n: [T.intvar('%s%d' % (p, k)) for k in range(n)]
        self.ua, ub = ints('ia', self.na + 1), ints('ib', self.nb + 1)
        def put(us):
            a = E.alloc(4 * len(us) + 8)
            for k, x in enumerate(us): E.store_i(a + 4 * k, SymInt(E, x), 4)
            return a
        d, u, n, rest = E.put_doubles([0] * (11 + 7 * self.na)), E.alloc(4 * self.na + 16), E.alloc(32), E.alloc(16)
        E.call('kv_lam_rt', self.na, E.put_doubles(self.da), put(self.ua), self.nb, E.put_doubles(self.db), put(ub), d, u, n, rest)
        n = [E.conc(E.load_i(n + 8 * k, 8)) for k in range(4)]
        g = lambda v: v.t if isinstance(v, SymInt) else const(v)
        return [n, E.doubles(d, 11 + 7 * self.na), [g(E.load_i(u + 4 * k, 4)) for k in range(self.na + 1)] if n[2] >= self.na else None, [E.conc(E.load_i(rest + 8 * k, 8)) for k in (0, 1)]]
    def post(self, o, P):
        n, d, u, rest = o
        P.check('as many solutions as were saved', n == [self.na] * 4, '%s' % n)
        P.check('everything saved is read', rest == [0, 0], '%s' % rest)
        if n != [self.na] * 4: return
        nm = ['r0x', 'r0y', 'r0z', 'r1x', 'r1y', 'r1z', 'tof', 'mu', 's', 'c', 'lambda'] + ['%s of solution %d' % (x, k) for k in range(self.na) for x in ('v0x', 'v0y', 'v0z', 'v1x', 'v1y', 'v1z', 'x')]
        for k in range(len(d)): P.eq(nm[k], d[k], self.da[k])
        for k in range(self.na + 1): P.eq('iterations of solution %d' % k if k < self.na else 'maximum number of revolutions', u[k], self.ua[k])
class Sf(Case):
    sweep_n = 0
    prog = 'a'
    overrides = OV
    maxpaths = 200
    n, m = 1, 1
    def init(self):
        self.u, self.w = thr(self.n), [var('w%d' % k) for k in range(3 * self.m)]
        self.B = [var('b_' + x) for x in NAMES]
        self.facts_ = [('ge', x, T.ZERO) for a in (A, self.B) for x in a[14:19]] + [('le', a[18], T.ONE) for a in (A, self.B)]
        self.inputs = tuple(A + self.u)
    def candidates(self, t):
        if t.op == 'intof': return list(range(max(self.n, self.m) + 1))
    def int_nonneg(self, t): return t.op == 'intof'
    def dump(self, E, b):
        a, th, n, s = E.put_doubles([0] * 19), E.put_doubles([0] * 30), E.alloc(8), E.alloc(16)
        E.call('kv_sf_dump', b, a, th, 30, n, s)
        n = E.conc(E.load_i(n, 8))
        return E.doubles(a, 19), E.doubles(th, n), [E.conc(E.load_i(s + 4 * k, 4)) for k in range(3)]
    def entry(self, E):
        sz = E.call('kv_sf_size')
        a, b, rest = E.alloc(sz), E.alloc(sz), E.alloc(16)
        E.call('kv_sf_new', a, E.put_doubles(A), E.put_doubles(self.u), 3 * self.n)
        if self.m: E.call('kv_sf_new', b, E.put_doubles(self.B), E.put_doubles(self.w), 3 * self.m)
        else: E.call('kv_sf_default', b)
        E.call('kv_sf_rt', a, b, rest)
        return [self.dump(E, a), self.dump(E, b), [E.conc(E.load_i(rest + 8 * k, 8)) for k in (0, 1)]]
    def post(self, o, P):
        (a, th, s), (a2, th2, s2), rest = o
        P.check('everything saved is read', rest == [0, 0], '%s' % rest)
        for k in range(19): P.eq(NAMES[k], a2[k], A[k]); P.eq('source unchanged: ' + NAMES[k], a[k], A[k])
        P.check('number of throttles', len(th2) == 3 * self.n, '%d' % len(th2))
        for k in range(min(len(th2), 3 * self.n)): P.eq('throttle %d' % k, th2[k], self.u[k])
        P.check('segments', s == s2, '%s %s' % (s, s2))
# ---------------------------------------------------------------- classes behind stand-ins
class Hfl(HF.Hf):
    prog = 'b'
    m = 1
    def init(self):
        self.inputs = ()
        self.u, self.w = HF.thr(self.n), HF.thr(self.m, 'w')
        self.facts_ = HF.valid(HF.A) + HF.valid(HF.B)
    def grad(self, E, b, n):
        N = 7 * (3 * n + 1)
        gs, gf, g, k = E.put_doubles([0] * 49), E.put_doubles([0] * 49), E.put_doubles([0] * N), E.alloc(8)
        E.call('kv_hf_grad', b, gs, gf, g, N, k)
        return E.doubles(gs, 49) + E.doubles(gf, 49) + E.doubles(g, N)
    def entry(self, E):
        a, b, rest = self.alloc(E), self.alloc(E), E.alloc(16)
        E.call('kv_hf_new', a, E.put_doubles(HF.A), E.put_doubles(self.u), 3 * self.n, 0)
        if self.m: E.call('kv_hf_new', b, E.put_doubles(HF.B), E.put_doubles(self.w), 3 * self.m, 0)
        else: E.call('kv_hf_new', b, E.put_doubles([0] * 20), E.put_doubles([0]), 0, 4)
        if self.used:
            E.call('kv_hf_mc', a, E.put_doubles([0] * 7)); self.grad(E, a, self.n)
        E.call('kv_hf_rt', a, b, rest)
        da, db = self.dump(E, a), self.dump(E, b)
        nb = db[3][0]
        return [da, db, self.con(E, b, nb), self.grad(E, a, self.n), self.grad(E, b, nb), [E.conc(E.load_i(rest + 8 * k, 8)) for k in (0, 1)]]
    def post(self, o, P):
        da, db, con, ga, gb, rest = o
        P.check('everything saved is read', rest == [0, 0], '%s' % rest)
        self.same(P, 'source', da, HF.A, self.u); self.same(P, 'loaded', db, HF.A, self.u)
        self.fresh(P, 'loaded', db, con, HF.A, self.u)
        P.check('size of the gradients', len(ga) == len(gb))
        for k, (x, y) in enumerate(zip(gb, ga)): P.eq('loaded: gradient entry %d' % k, x, y)
class Sta(ST.St):
    prog = 'b'
    used = False
    def init(self):
        super().init()
        self.a = list(ST.P0)
    def entry(self, E):
        a, b, rest = self.alloc(E), self.alloc(E), E.alloc(16)
        E.call('kv_st_new', a, E.put_doubles(ST.P0), 3)
        if self.n: E.call('kv_st_new', b, E.put_doubles([var('z0'), var('z1'), var('z2')]), 3)
        else: E.call('kv_st_new', b, E.put_doubles([0] * 3), 0)
        if self.used: self.prop(E, a, ST.S0, 0); self.prop(E, a, ST.S1, 1)
        E.call('kv_st_rt', a, b, rest)
        self.cur, s = self.a, ST.S2
        outs = [(op, s, self.a, self.prop(E, x, s, op == 'v')) for x in (a, b) for op in 'pv']
        self.rest = [E.conc(E.load_i(rest + 8 * k, 8)) for k in (0, 1)]
        iv, n = E.put_doubles([0] * 70), E.alloc(24)
        E.call('kv_st_inv', b, iv, n)
        return [outs, self.get(E, a), None, self.get(E, b), E.doubles(iv, 70), [E.conc(E.load_i(n + 8 * k, 8)) for k in range(3)]]
    def post(self, o, P):
        P.check('everything saved is read', self.rest == [0, 0], '%s' % self.rest)
        super().post(o, P)
KN = ['mu', 'mu_self', 'radius', 'safe_radius', 'period', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'a', 'e', 'i', 'W', 'w', 'f']
JN = KN[:4] + ['element %d' % k for k in range(6)] + ['rate %d' % k for k in range(6)]
class Pla(Case):
    prog = 'b'
    sweep_n = 0
    kep, na, nb, ell = True, 5, 5, 1
    def init(self):
        N = KN if self.kep else JN
        self.N, self.da, self.db = N, [var('a_' + x.replace(' ', '')) for x in N], [var('b_' + x.replace(' ', '')) for x in N]
        self.inputs = tuple(self.da + self.db)
    def put(self, E, p, d, n, us, ell):
        nm = E.alloc(64)
        for k in range(n): E.store_i(nm + k, 65 + (7 * k + n) % 26, 1)
        if self.kep: E.call('kv_kep_raw', p); E.call('kv_kep_put', p, SymInt(E, us), E.put_doubles(d), ell, nm, n)
        else: E.call('kv_jpl_raw', p); E.call('kv_jpl_put', p, E.put_doubles(d), nm, n)
    def flat(self, E, p):
        nm, n, us, ell, d = E.alloc(64), E.alloc(8), E.alloc(8), E.alloc(8), E.put_doubles([0] * 17)
        if self.kep: E.call('kv_kep_flat', p, us, d, ell, nm, n)
        else: E.call('kv_jpl_flat', p, d, nm, n)
        n = E.conc(E.load_i(n, 8))
        g = E.load_i(us, 8) if self.kep else 0
        return E.doubles(d, len(self.N)), [E.conc(E.load_i(nm + k, 1)) for k in range(min(n, 60))], n, g.t if isinstance(g, SymInt) else const(g), E.conc(E.load_i(ell, 4)) if self.kep else 1
    def entry(self, E):
        sz = E.call('kv_kj_size')
        a, b, rest = E.alloc(sz), E.alloc(sz), E.alloc(16)
        self.us = T.intvar('us_a')
        self.put(E, a, self.da, self.na, self.us, self.ell)
        self.put(E, b, self.db, self.nb, T.intvar('us_b'), 1 - self.ell)
        E.call('kv_kep_rt' if self.kep else 'kv_jpl_rt', a, b, rest)
        return [self.flat(E, a), self.flat(E, b), [E.conc(E.load_i(rest + 8 * k, 8)) for k in (0, 1)]]
    def post(self, o, P):
        P.check('everything saved is read', o[2] == [0, 0], '%s' % o[2])
        for w, (d, nm, n, us, ell) in (('source', o[0]), ('loaded', o[1])):
            for k in range(len(self.N)): P.eq('%s: %s' % (w, self.N[k]), d[k], self.da[k])
            P.check(w + ': name', n == self.na and nm == [65 + (7 * k + n) % 26 for k in range(n)], '%s' % nm)
            if self.kep: P.eq(w + ': reference epoch', us, self.us); P.check(w + ': kind of orbit', ell == self.ell)
class Ep(Case):
    prog = 'b'
    sweep_n = 0
    def init(self): self.inputs = ()
    def entry(self, E):
        self.a = T.intvar('us_a')
        o, rest = E.alloc(16), E.alloc(16)
        E.call('kv_ep_rt', SymInt(E, self.a), SymInt(E, T.intvar('us_b')), o, rest)
        g = [E.load_i(o + 8 * k, 8) for k in (0, 1)]
        return [[x.t if isinstance(x, SymInt) else const(x) for x in g], [E.conc(E.load_i(rest + 8 * k, 8)) for k in (0, 1)]]
    def post(self, o, P):
        P.check('everything saved is read', o[1] == [0, 0], '%s' % o[1])
        P.eq('source: instant', o[0][0], self.a); P.eq('loaded: instant', o[0][1], self.a)
def cases(tier):
    L = [Lam(name='lambert_problem, %d solutions over %d' % (a, b), na=a, nb=b) for a in range(6) for b in (0, 1, 3, 5)] + [Sf(name='sims_flanagan, %d segments over %s' % (n, m or 'default'), n=n, m=m) for n in range(1, 5) for m in (0, 1, 3)]
    L += [Hfl(name='sims_flanagan_hf, %d segments%s over %s' % (n, ', used' if u else '', m or 'default'), n=n, m=m, used=u) for n in range(1, 4) for m in (0, 1, 3) for u in (0, 1)]
    L += [Sta(name='stark_problem%s over %s' % (', used' if u else '', 'another' if n else 'default'), n=n, used=u) for n in (0, 1) for u in (0, 1)]
    L += [Pla(name='%s, name of %d characters over %d' % ('keplerian' if k else 'jpl_lp', a, b), kep=k, na=a, nb=b, ell=(a + b) % 2) for k in (True, False) for a, b in ((0, 4), (5, 5), (5, 30), (40, 3), (16, 0), (15, 16))]
    return L + [Ep(name='epoch')]
def make_replay(lib):
    from . import sf
    sf.make_replay(lib)
    V = ctypes.c_void_p
    lib.kv_lam_boost.argtypes = [V, ctypes.c_int, ctypes.c_uint, V, ctypes.c_int, ctypes.c_uint, ctypes.c_int]
    lib.kv_sf_boost.argtypes = [V, V, ctypes.c_int]
    HF.make_replay(lib); ST.make_replay(lib)
    I64, I = ctypes.c_int64, ctypes.c_int
    for n in ('hf', 'st', 'kep', 'jpl'): getattr(lib, 'kv_%s_boost' % n).argtypes = [V, V, I]
    lib.kv_ep_boost.argtypes = [I64, I64, V, I]
    lib.kv_kj_size.restype = ctypes.c_size_t; lib.kv_kj_size.argtypes = []
    lib.kv_kep_el.argtypes = [V, I64, V, I, ctypes.c_char_p]; lib.kv_kep_get.argtypes = [V, ctypes.c_double, V]; lib.kv_kep_name.argtypes = [V, ctypes.c_char_p]; lib.kv_kep_eph.argtypes = [V, ctypes.c_double, V]; lib.kv_kep_elem.argtypes = [V, ctypes.c_double, I, V]
    lib.kv_jpl_new.argtypes = [V, ctypes.c_char_p, ctypes.c_size_t]; lib.kv_jpl_get.argtypes = [V, V]; lib.kv_jpl_name.argtypes = [V, ctypes.c_char_p]; lib.kv_jpl_eph.argtypes = [V, ctypes.c_double, V]; lib.kv_jpl_elem.argtypes = [V, ctypes.c_double, I, V]
    for n in ('kv_kep_raw', 'kv_jpl_raw', 'kv_kep_del', 'kv_jpl_del'): getattr(lib, n).argtypes = [V]; getattr(lib, n).restype = None
    return None
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    what = {21: 'r0', 22: 'r1', 23: 'tof', 24: 'mu', 25: 'v0', 26: 'v1', 27: 'x', 28: 'iters', 29: 'Nmax', 30: 'stream output', 31: 'stream output (state, mismatch and throttle constraints)'}
    L = list(LB.instances(rng, 60 if tier == 'quick' else 2000))
    for (p, cw, k) in L:
        q, cw2, k2 = rng.choice(L)
        text = rng.randint(0, 1)
        rc = lib.kv_lam_boost(darr(p), cw, k, darr(q), cw2, k2, text)
        tot += 1
        if rc not in (0, -1): bad.append(dict(case='lambert_problem through a Boost archive', obligation='%s (runtime check)' % what.get(rc, rc), status='confirmed', inputs=[list(p), cw, k, list(q), cw2, k2, text], rc=rc))
        if len(samples) < 2: samples.append(list(p))
    for it in range(100 if tier == 'quick' else 3000):
        (a, u), (b, w) = draw_leg(rng, 12), draw_leg(rng, 12)
        x, y = Obj(lib, a, u), Obj(lib, b, w) if rng.random() < 0.7 else Obj(lib)
        for o in (x, y):
            for k in range(rng.randint(0, 3)):
                c, z = draw_leg(rng, 12)
                rng.choice((lambda: o.set(0, [c[14]]), lambda: o.set(3, (), z), lambda: o.set(10, [c[18]]), lambda: o.set(6, [c[13]]), lambda: o.set(11, c, z)))()
        if x.rc or y.rc: continue
        tot += 1
        d0 = x.dump()
        rc = lib.kv_sf_boost(x.b, y.b, rng.randint(0, 1))
        err = None
        if x.dump() != d0: err = 'source changed'
        elif y.dump() != d0: err = 'state'
        elif rc: err = what.get(rc, rc)
        if err: bad.append(dict(case='sims_flanagan through a Boost archive', obligation='%s (runtime check)' % err, status='confirmed', inputs=a + u, rc=rc, mismatch=[y.dump(), d0]))
    same = lambda x, y: repr(x) == repr(y)
    for it in range(40 if tier == 'quick' else 1000):
        (a, u), (b, w) = draw_leg(rng, 5), draw_leg(rng, 5)
        while a[17] > 100: a, u = draw_leg(rng, 5)
        a, b = a + [rng.choice((1e-16, 1e-9, .25))], b + [.5]
        x, y = HF.Obj(lib, a, u), HF.Obj(lib, b, w) if rng.random() < .7 else HF.Obj(lib)
        if x.rc or y.rc: continue
        if rng.random() < .5: x.vec('con'); x.grad(); x.set(9, [2.0]); x.set(15, [.125])
        d0 = x.dump()
        rc = lib.kv_hf_boost(x.b, y.b, rng.randint(0, 1))
        tot += 1
        err = None
        if not same(x.dump(), d0): err = 'source changed'
        elif not same(y.dump(), d0): err = 'state'
        elif rc: err = 'stream output'
        elif not same(x.vec('con'), y.vec('con')): err = 'constraints'
        elif not same(x.grad(), y.grad()): err = 'gradients'
        if err: bad.append(dict(case='sims_flanagan_hf through a Boost archive', obligation='%s (runtime check)' % err, status='confirmed', inputs=a + u, rc=rc, mismatch=[y.dump(), d0]))
    for it in range(40 if tier == 'quick' else 1000):
        P = []
        for a in ([rng.uniform(.5, 2), rng.uniform(.5, 2), .25], [3., 4., .5]):
            b = ctypes.create_string_buffer(lib.kv_st_size() + 64); lib.kv_st_new(b, darr(a), 3); P.append((a, b))
        (a, x), (_, y) = P
        s = darr([1., .1, 0., 0., 1., .1, 1.5, .01, .02, .03, 1.])
        if rng.random() < .5: lib.kv_st_var(x, s, darr([0] * 77))
        rc = lib.kv_st_boost(x, y, rng.randint(0, 1)); tot += 1
        g, o1, o2 = darr([0] * 9), darr([0] * 77), darr([0] * 77)
        lib.kv_st_get(y, g); lib.kv_st_var(x, s, o1); lib.kv_st_var(y, s, o2)
        if rc or list(g) != a * 3 or list(o1) != list(o2): bad.append(dict(case='stark_problem through a Boost archive', obligation='loaded object (runtime check)', status='confirmed', inputs=a, rc=rc, mismatch=[list(g), list(o1), list(o2)]))
        lib.kv_st_delete(x); lib.kv_st_delete(y)
    def obs(k, b):
        D = [rng2.uniform(-7000, 7000) for _ in range(3)]
        out, c = [], ctypes.create_string_buffer(200)
        o = darr([0] * 7)
        out.append((lib.kv_kep_get(b, 0.0, o) if k == 'kep' else lib.kv_jpl_get(b, o), list(o)))
        getattr(lib, 'kv_%s_name' % k)(b, c); out.append(c.value)
        for d in D:
            o = darr([0] * 6); out.append((getattr(lib, 'kv_%s_eph' % k)(b, d, o), list(o)))
            for t in range(5): o = darr([0] * 6); out.append((getattr(lib, 'kv_%s_elem' % k)(b, d, t, o), list(o)))
        return out
    for it in range(60 if tier == 'quick' else 1500):
        k, B, args = rng.choice(('kep', 'jpl')), [], []
        for _ in (0, 1):
            b = ctypes.create_string_buffer(lib.kv_kj_size() + 64)
            if k == 'kep':
                e = rng.choice((rng.uniform(0, .9), rng.uniform(1.1, 3)))
                v = [(1 if e < 1 else -1) * rng.uniform(.5, 3), e, rng.uniform(.1, 3), rng.uniform(0, 6), rng.uniform(0, 6), rng.uniform(-1, 1), rng.uniform(.5, 2), rng.random(), rng.random(), rng.random()]
                v += [rng.randint(-10**15, 10**15), bytes(rng.choice(b'abc XYZ') for _ in range(rng.randint(1, 40)))]
                rc = lib.kv_kep_el(b, v[10], darr(v[:10]), 0, v[11])
            else:
                v = [rng.choice((b'earth', b'mars', b'venus', b'Jupiter', b'SATURN', b'pluto', b'neptune', b'mercury'))]
                rc = lib.kv_jpl_new(b, v[0], len(v[0]))
            if rc: break
            B.append(b); args.append(str(v))
        if len(B) == 2:
            import random as _r
            seed = rng.random()
            rng2 = _r.Random(seed); o0 = obs(k, B[0])
            rc = getattr(lib, 'kv_%s_boost' % k)(B[0], B[1], rng.randint(0, 1)); tot += 1
            rng2 = _r.Random(seed); o1 = obs(k, B[1])
            if rc or not same(o0, o1): bad.append(dict(case='%s through a Boost archive' % k, obligation='loaded object (runtime check)', status='confirmed', inputs=args, rc=rc, mismatch=[str(o0)[:400], str(o1)[:400]]))
        for b in B: getattr(lib, 'kv_%s_del' % k)(b)
    for it in range(100 if tier == 'quick' else 3000):
        a, b, o = rng.randint(-10**17, 10**17), rng.randint(-10**17, 10**17), (ctypes.c_int64 * 2)()
        lib.kv_ep_boost(a, b, o, rng.randint(0, 1)); tot += 1
        if list(o) != [a, a]: bad.append(dict(case='epoch through a Boost archive', obligation='instant (runtime check)', status='confirmed', inputs=[a, b], mismatch=list(o)))
    return tot, bad[:5], samples
