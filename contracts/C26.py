"""Planets that only provide an ephemeris and a central body: default period, elements, vectorised ephemeris."""
from .common import *
from . import elements as EL
from .C24 import elems, eq_el, basis, TN, KEP_M, KEP_F, MEQ, MEQ_R, POSVEL, s_, e_, i_, W_, w_, f_, m_, MUe, state, draw_el, STUB, Y2K, DAY, LOGIC, u, d, ref_state, ref_mean, from_type, to_type, nrm, close
IR_ = ['drivers/pladef.cpp', 'src/planet.cpp', 'src/epoch.cpp', 'src/core_astro/ic2par2ic.cpp', 'src/core_astro/eq2par2eq.cpp']
def program(): return build.program(IR_, ('-I' + STUB,))
REPLAY = dict(srcs=IR_ + ['src/linalg.cpp'], libs=['-lfmt', '-lopenblas', '-llapack', '-lboost_serialization'], stubs=(STUB,))
ASSUME = ['ic2par represented by its contract (C01)', 'type erasure of planet (heyoka tanuki, not installed) replaced by a stand-in that forwards every call', 'parabolic, circular and equatorial orbits (undefined Keplerian angles) are outside the contract of the elements', '64-bit microsecond counts do not overflow',
          'vectorised ephemeris: up to 5 dates in the symbolic part']
NOTIMPL = 'not_implemented_error'
EPS = lambda t: (t - const(Y2K)) / const(DAY)
class Df(Case):
    sweep_n = 0
    hyp, out, how = False, KEP_F, ''
    def init(self):
        self.inputs = ()
        self.basis = basis(self.hyp)
        self.st = state(self.hyp, f_)
        self.dates, self.calls = [], []
        def eph(E, dd, o):
            self.dates.append(dd)
            for k, x in enumerate(self.user(dd)): E.store_d(o + 8 * k, x)
        def ic2par(E, ret, rv, mu):
            self.calls.append((E.doubles(rv, 6), mu))
            for k, v in enumerate(elems(KEP_F, self.hyp)): E.store_d(ret + 8 * k, v)
        self.overrides = [(r'^kv_user_eph', eph), (r'^kep3::ic2par\(', ic2par)]
    def user(self, dd): return self.st
    def fresh(self): self.dates.clear(); self.calls.clear()
    def date(self): return {'': d, '_ep': EPS(u), '0': T.ZERO}[self.how]
    def arg(self, E): return {'': [d], '_ep': [SymInt(E, u)], '0': []}[self.how]
    def prec(self, P, r):
        P.check('the ephemeris is asked once', len(r[0]) == 1)
        for x in r[0]: P.eq('ephemeris at the given date', x, self.date())
        for s, mu in r[1]:
            for k in range(6): P.eq('ic2par is given the state, component %d' % k, s[k], self.st[k])
            P.eq('ic2par is given mu', mu, MUe)
    def draw(self, r):
        env = draw_el(r, self.hyp); env.update({u: r.randint(-10 ** 17, 10 ** 17), d: r.uniform(-1e5, 1e5)})
        return env
class Period(Df):
    def entry(self, E):
        self.fresh(); o = E.put_doubles([0])
        E.call('kv_def_period' + self.how, MUe, *self.arg(E), o)
        return [E.load_d(o), (list(self.dates), list(self.calls))]
    def post(self, o, P):
        self.prec(P, o[1])
        P.eq('period of the osculating orbit', o[0], T.NAN if self.hyp else 2 * PI * s_ * s_ * s_ / m_)
class Elem(Df):
    def entry(self, E):
        self.fresh(); o = E.put_doubles([0] * 6)
        E.call('kv_def_elem' + self.how, MUe, *(self.arg(E) + ([] if self.how == '0' else [self.out])), o)
        return [E.doubles(o, 6), (list(self.dates), list(self.calls))]
    def post(self, o, P):
        self.prec(P, o[1])
        eq_el(P, self.out, o[0], elems(self.out, self.hyp))
def ustate(dd): return [T.uf('user', dd, idx=k) for k in range(6)]
class Vec(Df):
    n = 1
    user = staticmethod(ustate)
    def entry(self, E):
        self.fresh()
        self.D = [var('d%d' % k) for k in range(self.n)]
        a, o, no = E.put_doubles(self.D + [0]), E.put_doubles([0] * (6 * self.n + 6)), E.alloc(8)
        E.call('kv_def_ephv', MUe, a, self.n, o, no)
        return [E.conc(E.load_i(no, 8)), E.doubles(o, 6 * self.n)]
    def post(self, o, P):
        P.check('six numbers per date', o[0] == 6 * self.n, '%s' % o[0])
        for j in range(self.n):
            for k in range(6): P.eq('date %d, component %d' % (j, k), o[1][6 * j + k], ustate(self.D[j])[k])
class Eph(Df):
    user = staticmethod(ustate)
    def entry(self, E):
        self.fresh(); o = E.put_doubles([0] * 12)
        E.call('kv_def_eph', MUe, d, SymInt(E, u), o)
        return E.doubles(o, 12)
    def post(self, o, P):
        for k in range(6): P.eq('component %d' % k, o[k], ustate(d)[k]); P.eq('at an epoch, component %d' % k, o[6 + k], ustate(EPS(u))[k])
class Get(Df):
    def entry(self, E):
        o = E.put_doubles([0] * 12); E.call('kv_def_get', MUe, o); return E.doubles(o, 12)
    def post(self, o, P):
        for k, n in enumerate(('mu_central_body', 'mu_self', 'radius', 'safe_radius')):
            P.eq(n + ', central body only', o[k], MUe if k == 0 else const(-1)); P.eq(n + ', own', o[4 + k], (k + 1) * MUe); P.eq(n + ', nothing given', o[8 + k], const(-1))
class Own(Df):
    def entry(self, E):
        o = E.put_doubles([0] * 10); E.call('kv_def_own', MUe, d, self.out, o); return E.doubles(o, 10)
    def post(self, o, P):
        for k, x in enumerate([2 * d, d, 1 + self.out, 3, 4, 5, 6, 1, 2, 2]): P.eq("the planet's own %s" % ('period' if k == 0 else 'elements' if k < 7 else 'vectorised ephemeris'), o[k], T.lift(x))
class Bare(Df):
    def entry(self, E): E.call('kv_def_bare', self.what, d, self.out, E.put_doubles([0] * 6))
def cases(tier):
    L = []
    for hyp in (False, True):
        h = 'hyperbola' if hyp else 'ellipse'
        for how in ('', '_ep', '0'): L.append(Period(name='period, %s%s' % (h, {'': '', '_ep': ', at an epoch', '0': ', default date'}[how]), hyp=hyp, how=how))
        for how in ('', '_ep'):
            for out in (KEP_M, KEP_F, MEQ, MEQ_R): L.append((Elem)(name='%s elements, %s%s' % (TN[out], h, ', at an epoch' if how else ''), hyp=hyp, out=out, how=how, **(dict(expect=LOGIC) if hyp and out == KEP_M else {})))
            for out in (POSVEL, 8): L.append(Elem(name='%s elements are refused, %s' % (TN.get(out, 'unknown'), h), hyp=hyp, out=out, how=how, expect=LOGIC))
        L.append(Elem(name='default arguments of elements, %s' % h, hyp=hyp, how='0'))
    for n in range(6): L.append(Vec(name='vectorised ephemeris, %d dates' % n, n=n))
    L += [Eph(name='ephemeris'), Get(name='accessors and their defaults'), Bare(name='no period without a central body', what=0, expect='_ZTIN4kep321not_implemented_errorE'), Bare(name='no elements without a central body', what=1, expect='_ZTIN4kep321not_implemented_errorE')]
    for out in (KEP_M, MEQ): L.append(Own(name="the planet's own methods are used, type %d" % out, out=out))
    return L
def make_replay(lib):
    V, I64, C = ctypes.c_void_p, ctypes.c_int64, ctypes.c_int
    for n, a in dict(period=(D, D, V), period_ep=(D, I64, V), period0=(D, V), elem=(D, D, C, V), elem_ep=(D, I64, C, V), elem0=(D, V), ephv=(D, V, ctypes.c_size_t, V, V), bare=(C, D, C, V), state=(V,)).items(): getattr(lib, 'kv_def_' + n).argtypes = a
    return None
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    def rep(ob, ins, got, want): bad.append(dict(case='planet defaults', obligation=ob + ' (runtime check)', status='confirmed', inputs=ins, outputs=got, expected=want))
    o = darr([0] * 6)
    for k in range(3000 if tier == 'quick' else 60000):
        hyp = rng.random() < .4
        e = 1 + 10 ** rng.uniform(-2, .7) if hyp else rng.uniform(0.001, 0.97)
        S = 10 ** rng.uniform(-9, 12) if rng.random() < .7 else rng.uniform(.3, 3)
        mu = 10 ** rng.uniform(-9, 20) if rng.random() < .7 else rng.uniform(.5, 2)
        fm = math.acos(-1 / e) * .9 if hyp else math.pi
        el = [-S if hyp else S, e, rng.uniform(.01, 3.1), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(-fm, fm)]
        st = ref_state(*el, mu)
        lib.kv_def_state(darr(st + [0.0]))
        n = math.sqrt(mu / S ** 3)
        T_ = 2 * math.pi / n
        us, dd = rng.randint(-10 ** 15, 10 ** 15), rng.uniform(-1e4, 1e4)
        tot += 1
        if len(samples) < 3: samples.append([float(x) for x in el] + [mu])
        for nm, a in (('period', (dd,)), ('period_ep', (us,)), ('period0', ())):
            rc = getattr(lib, 'kv_def_' + nm)(mu, *a, o)
            z = o[0]
            if rc or ((not math.isnan(z)) if hyp else not abs(z / T_ - 1) < 1e-7 / (1 - e)): rep('period', st + [mu], z, None if hyp else T_)
        for nm, a in (('elem', (dd,)), ('elem_ep', (us,)), ('elem0', None)):
            out = KEP_F if a is None else rng.choice((KEP_M, KEP_F, MEQ, MEQ_R))
            rc = lib.kv_def_elem0(mu, o) if a is None else getattr(lib, 'kv_def_' + nm)(mu, *a, out, o)
            if hyp and out == KEP_M:
                if rc != 3: rep('mean anomaly refused for an unbound orbit', st + [mu], rc, 3)
                continue
            if rc: rep('%s elements available' % TN[out], st + [mu], rc, 0); continue
            z = list(o)
            back = ref_state(*from_type(out, z), mu)
            if not close(back, st, 1e-6 * (1 + 1 / abs(1 - e))): rep('%s elements describe the osculating orbit' % TN[out], st + [mu], z, to_type(out, el))
        if len(bad) > 4: break
    lib.kv_def_state(darr([1, 0, 0, 0, 2, 0, 0]))            # a parabola, exactly
    lib.kv_def_period(2.0, 0.0, o)
    if math.isfinite(o[0]): rep('no finite period for a parabola', [1, 0, 0, 0, 2, 0, 2], o[0], None)
    for n in (0, 1, 7, 50):
        s = [rng.gauss(0, 1) for _ in range(7)]
        lib.kv_def_state(darr(s))
        ds = [rng.uniform(-9, 9) for _ in range(n)]
        r, no = darr([0] * (6 * n + 6)), (ctypes.c_size_t * 1)()
        lib.kv_def_ephv(1.0, darr(ds), n, r, no)
        tot += 1
        want = [s[k] + x * s[6] for x in ds for k in range(6)]
        if no[0] != 6 * n or any(abs(p - q) > 1e-12 for p, q in zip(list(r), want)): rep('vectorised ephemeris', ds, list(r)[:6 * n], want)
    for w in (0, 1):
        rc = lib.kv_def_bare(w, 0.0, KEP_F, o)
        if rc != 7: rep('no %s without a central body' % ('elements' if w else 'period'), [w], rc, 7)
    return tot, bad[:5], samples
