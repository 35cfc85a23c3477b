"""Keplerian planets: ephemeris, elements, period and accessors of the defining orbit."""
from .common import *
from . import elements as EL, sf, C05
from .elements import s_, e_, i_, W_, w_, f_, m_, MUe, sma, state, draw_el
STUB = build.VERIF + '/stubs_lib'
IR_ = ['drivers/kepl.cpp', 'src/udpla/keplerian.cpp', 'src/planet.cpp', 'src/epoch.cpp', 'src/core_astro/ic2par2ic.cpp', 'src/core_astro/eq2par2eq.cpp']
def program(): return build.program(IR_, ('-I' + STUB,))
REPLAY = dict(srcs=IR_ + ['src/core_astro/propagate_lagrangian.cpp', 'src/core_astro/stm.cpp', 'src/core_astro/ic2eq2ic.cpp', 'src/linalg.cpp'], libs=['-lfmt', '-lopenblas', '-llapack', '-lboost_serialization'], stubs=(STUB,))
ASSUME = ['propagate_lagrangian represented by its contract (C08): a function of state, time and mu', 'ic2par represented by its contract (C01), m2f by its contract (C05)',
          'type erasure of planet (heyoka tanuki, not installed) replaced by a stand-in that forwards every call', 'parabolic, circular and equatorial orbits (undefined Keplerian angles) are outside the contract', '64-bit microsecond counts do not overflow']
LOGIC = '_ZTISt11logic_error'
Y2K, DAY = 946684800000000, 86400000000
u, d, ms, ra, sr = T.intvar('u'), var('d'), var('mu_self'), var('radius'), var('safe')
KEP_M, KEP_F, MEQ, MEQ_R, POSVEL = range(5)
TN = {KEP_M: 'mean anomaly', KEP_F: 'true anomaly', MEQ: 'equinoctial', MEQ_R: 'retrograde equinoctial', POSVEL: 'Cartesian'}
half = lambda t: t * const(T.Fraction(1, 2))
EA = 2 * atan(sqrt((1 - e_) / (1 + e_)) * tan(half(f_)))
M0 = EA - e_ * sin(EA)
def elems(ty, hyp):
    """the orbit's elements of type ty, from the ghost Keplerian elements"""
    a = sma(hyp)
    if ty == KEP_F: return [a, e_, i_, W_, w_, f_]
    if ty == KEP_M: return [a, e_, i_, W_, w_, M0]
    I = -1 if ty == MEQ_R else 1
    t = sin(i_ / 2) / cos(i_ / 2) if I == 1 else cos(i_ / 2) / sin(i_ / 2)
    z = w_ + I * W_
    return [a * (1 - e_ * e_), e_ * cos(z), e_ * sin(z), t * cos(W_), t * sin(W_), f_ + z]
def basis(hyp): return [s_, m_, e_, sqrt(e_ - 1) if hyp else sqrt(1 - e_), sqrt(1 + e_), 1 + e_ * cos(f_), sin(i_ / 2), cos(i_ / 2)] + ([] if hyp else [cos(half(f_))])
def eq_el(P, ty, o, spec, tag=''):
    names = 'pfghkL' if ty in (MEQ, MEQ_R) else 'aeiWwM' if ty == KEP_M else 'aeiWwf'
    for k, n in enumerate(names): (P.angle if (k == 5 or (ty in (KEP_M, KEP_F) and k > 1)) else P.eq)(tag + 'element ' + n, o[k], spec[k])
NAME = b'Ceres'
class Kp(Case):
    sweep_n = 0
    hyp, ty, out, via, ty_ = False, KEP_F, None, 'el', None
    def init(self):
        self.inputs = ()
        self.basis = basis(self.hyp)
        self.st = state(self.hyp, f_)
        self.arg = self.st if self.via == 'pv' else elems(self.ty, self.hyp)
        self.calls = []
        def lag(E, ret, rv, t, mu, want):
            self.calls.append((E.doubles(rv, 6), t, mu))
            sf.lag_stub(E, ret, rv, t, mu, want)
        def ic2par(E, ret, rv, mu):
            self.calls.append(('ic2par', E.doubles(rv, 6), mu))
            for k, v in enumerate(elems(KEP_F, self.hyp)): E.store_d(ret + 8 * k, v)
        def m2f(E, M, e):
            self.calls.append(('m2f', M, e))
            return f_
        self.overrides = [(r'^kep3::propagate_lagrangian\(', lag), (r'^kep3::ic2par\(', ic2par), (r'^kep3::m2f\(', m2f)]
    def make(self, E):
        self.calls = []
        b = E.alloc(E.call('kv_kep_size') + 64)
        a = E.put_doubles(list(self.arg) + [MUe, ms, ra, sr])
        nm = E.alloc(32)
        for k, c in enumerate(NAME + b'\0'): E.store_i(nm + k, c, 1)
        if self.via == 'pv': E.call('kv_kep_pv', b, SymInt(E, u), a, nm)
        else: E.call('kv_kep_el', b, SymInt(E, u), a, self.ty if self.ty_ is None else self.ty_, nm)
        return b
    def entry(self, E):
        b = self.make(E)
        g, x, z, nm = E.put_doubles([0] * 7), E.put_doubles([0] * 6), E.put_doubles([0] * 6), E.alloc(64)
        E.call('kv_kep_get', b, d, g)
        E.call('kv_kep_name', b, nm)
        E.call('kv_kep_eph', b, d, x)
        E.call('kv_kep_elem', b, d, self.out, z)
        nm = bytes(E.conc(E.load_i(nm + k, 1)) for k in range(len(NAME) + 1))
        return [E.doubles(g, 7), E.doubles(x, 6), E.doubles(z, 6), nm, list(self.calls)]
    def contract(self, P, calls):
        """the callees' preconditions, and what is propagated"""
        for c in calls:
            if c[0] == 'ic2par':
                for k in range(6): P.eq('ic2par is given the defining state, component %d' % k, c[1][k], self.st[k])
                P.eq('ic2par is given mu', c[2], MUe)
            elif c[0] == 'm2f': P.angle('m2f is given the mean anomaly', c[1], M0); P.eq('m2f is given the eccentricity', c[2], e_)
            else:
                for k in range(6): P.eq('the defining state is propagated, component %d' % k, c[0][k], self.st[k])
                P.eq('over the seconds since the reference epoch', c[1], (d - (u - const(Y2K)) / const(DAY)) * 86400)
                P.eq('around the central body', c[2], MUe)
    def acc(self, P, g):
        for k, (n, v) in enumerate((('mu_central_body', MUe), ('mu_self', ms), ('radius', ra), ('safe_radius', sr))): P.eq(n, g[k], v)
        for k, n in ((4, 'period'), (5, 'period at a date')): P.eq(n, g[k], T.NAN if self.hyp else 2 * PI * s_ * s_ * s_ / m_)
        P.eq('reference epoch', g[6], (u - const(Y2K)) / const(DAY))
    def post(self, o, P):
        g, x, z, nm, calls = o
        self.contract(P, calls)
        lag = [c for c in calls if c[0] not in ('ic2par', 'm2f')]
        P.check('one propagation', len(lag) == 1)
        for k in range(6): P.eq('ephemeris, component %d' % k, x[k], sf.PROP(*lag[0])[k])
        self.acc(P, g)
        P.check('name', nm == NAME + b'\0', '%s' % nm)
        eq_el(P, self.out, z, elems(self.out, self.hyp))
    def draw(self, r):
        env = draw_el(r, self.hyp); env.update({u: r.randint(-10 ** 17, 10 ** 17), d: r.uniform(-1e5, 1e5), ms: r.uniform(0, 1), ra: r.uniform(0, 1), sr: r.uniform(0, 1)})
        return env
class Planet(Kp):
    """through kep3::planet, with an epoch as date"""
    def entry(self, E):
        b, o = self.make(E), E.put_doubles([0] * 17)
        E.call('kv_kep_planet', b, SymInt(E, T.intvar('v')), self.out, o)
        return [E.doubles(o, 17), list(self.calls)]
    def post(self, o, P):
        o, calls = o
        lag = [c for c in calls if c[0] not in ('ic2par', 'm2f')]
        P.check('one propagation', len(lag) == 1)
        P.eq('over the seconds between the epochs', lag[0][1], (T.intvar('v') - u) / const(1000000))
        for k in range(6): P.eq('ephemeris, component %d' % k, o[k], sf.PROP(*lag[0])[k])
        eq_el(P, self.out, o[6:12], elems(self.out, self.hyp))
        P.eq('period', o[12], T.NAN if self.hyp else 2 * PI * s_ * s_ * s_ / m_)
        for k, (n, v) in enumerate((('mu_central_body', MUe), ('mu_self', ms), ('radius', ra), ('safe_radius', sr))): P.eq(n, o[13 + k], v)
class Defaults(Kp):
    """default arguments: mu 1, name Unknown, body parameters -1"""
    def entry(self, E):
        self.calls = []
        b = E.alloc(E.call('kv_kep_size') + 64)
        if self.via == 'def': E.call('kv_kep_def', b)
        else: E.call('kv_kep_%s0' % self.via, b, SymInt(E, u), E.put_doubles([T.substitute([x], {m_: T.ONE})[0] for x in self.arg]))
        g, x, z, nm = E.put_doubles([0] * 7), E.put_doubles([0] * 6), E.put_doubles([0] * 6), E.alloc(64)
        E.call('kv_kep_get', b, d, g); E.call('kv_kep_eph', b, d, x); E.call('kv_kep_name', b, nm)
        if self.via != 'def': E.call('kv_kep_elem0', b, z)
        nm = bytes(E.conc(E.load_i(nm + k, 1)) for k in range(8))
        return [E.doubles(g, 7), E.doubles(z, 6), nm, list(self.calls)]
    def post(self, o, P):
        g, z, nm, calls = o
        for k, (n, v) in enumerate((('mu_central_body', 1), ('mu_self', -1), ('radius', -1), ('safe_radius', -1))): P.eq(n, g[k], const(v))
        lag = [c for c in calls if c[0] not in ('ic2par', 'm2f')]
        P.check('one propagation', len(lag) == 1)
        P.check('name', nm == b'Unknown\0', '%s' % nm)
        st = [T.substitute([x], {m_: T.ONE})[0] for x in self.st] if self.via != 'def' else [const(k) for k in (1, 0, 0, 0, 1, 0)]
        for k in range(6): P.eq('defining state, component %d' % k, lag[0][0][k], st[k])
        P.eq('mu', lag[0][2], T.ONE)
        P.eq('seconds since the reference epoch', lag[0][1], (d - ((u - const(Y2K)) / const(DAY) if self.via != 'def' else 0)) * 86400)
        if self.via != 'def': eq_el(P, KEP_F, z, elems(KEP_F, self.hyp))
class RejEl(Kp):
    """constructor throws"""
    def init(self):
        super().init()
        if self.bad: self.arg = self.bad_arg()
    def bad_arg(self):
        if self.ty in (KEP_F, KEP_M):
            self.basis = [s_, e_, 1 - e_]
            return [-(s_ * s_), e_, i_, W_, w_, f_] if self.bad == 'a<0' else [s_ * s_, 1 + e_, i_, W_, w_, f_]
        # equinoctial elements of a negative semi-latus rectum
        self.basis = [s_, e_, 1 - e_, sqrt(1 - e_), sqrt(1 + e_), sin(i_ / 2), cos(i_ / 2)] if self.bad == 'a<0' else [s_, e_, e_ - 1, 1 + e_, sin(i_ / 2), cos(i_ / 2)]
        q = elems(self.ty, False)
        q[0] = -(s_ * s_) * ((1 - e_ * e_) if self.bad == 'a<0' else 1)
        return q
    def entry(self, E): self.make(E)
class RejOut(Kp):
    expect = LOGIC
    def entry(self, E):
        b, z = self.make(E), E.put_doubles([0] * 6)
        E.call('kv_kep_elem', b, d, self.out, z)
def cases(tier):
    L = []
    for hyp in (False, True):
        h = 'hyperbola' if hyp else 'ellipse'
        tys = (KEP_F, MEQ, MEQ_R) if hyp else (KEP_M, KEP_F, MEQ, MEQ_R)
        for ty in tys + ('pv',):
            via = 'pv' if ty == 'pv' else 'el'
            for out in tys: L.append(Kp(name='%s from %s, elements: %s' % (h, TN.get(ty, 'state'), TN[out]), hyp=hyp, ty=ty, via=via, out=out))
            for out in (POSVEL, 7) + ((KEP_M,) if hyp else ()): L.append(RejOut(name='%s from %s refuses %s elements' % (h, TN.get(ty, 'state'), TN.get(out, 'unknown')), hyp=hyp, ty=ty, via=via, out=out))
        for out in tys: L.append(Planet(name='%s through planet, elements: %s' % (h, TN[out]), hyp=hyp, out=out))
        for ty in (POSVEL, 9): L.append(RejEl(name='%s: type %s is refused' % (h, TN.get(ty, 'unknown')), hyp=hyp, ty=KEP_F, ty_=ty, bad=None, expect=LOGIC))
        for via in ('el', 'pv'): L.append(Defaults(name='%s, default arguments (%s)' % (h, via), hyp=hyp, via=via))
    L.append(Defaults(name='default constructor', via='def'))
    L.append(RejEl(name='mean anomaly of a hyperbola is refused', hyp=True, ty=KEP_F, ty_=KEP_M, bad=None, expect=LOGIC))
    for ty in (KEP_F, KEP_M, MEQ, MEQ_R):
        for b in ('a<0', 'e>1'): L.append(RejEl(name='%s elements, %s' % (TN[ty], b), ty=ty, bad=b, expect=DOM))
    return L
def make_replay(lib):
    lib.kv_kep_size.restype = ctypes.c_size_t
    V, I64 = ctypes.c_void_p, ctypes.c_int64
    for n, a in dict(el=(V, I64, V, ctypes.c_int, ctypes.c_char_p), pv=(V, I64, V, ctypes.c_char_p), get=(V, D, V), eph=(V, D, V), elem=(V, D, ctypes.c_int, V), name=(V, V), planet=(V, I64, ctypes.c_int, V)).items():
        setattr(getattr(lib, 'kv_kep_' + n), 'argtypes', a)
    lib.kv_kep_del.argtypes = (V,)
    return None
# ---------------------------------------------------------------- independent reference
def ref_state(a, e, i, W, w, f, mu):
    p = a * (1 - e * e); r = p / (1 + e * math.cos(f)); k = math.sqrt(mu / p)
    P = [math.cos(W) * math.cos(w) - math.sin(W) * math.sin(w) * math.cos(i), math.sin(W) * math.cos(w) + math.cos(W) * math.sin(w) * math.cos(i), math.sin(w) * math.sin(i)]
    Q = [-math.cos(W) * math.sin(w) - math.sin(W) * math.cos(w) * math.cos(i), math.cos(W) * math.cos(w) * math.cos(i) - math.sin(W) * math.sin(w), math.cos(w) * math.sin(i)]
    return [r * (math.cos(f) * x + math.sin(f) * y) for x, y in zip(P, Q)] + [k * ((e + math.cos(f)) * y - math.sin(f) * x) for x, y in zip(P, Q)]
def ref_mean(a, e, f):
    if e < 1:
        E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(f / 2), math.sqrt(1 + e) * math.cos(f / 2))
        return E - e * math.sin(E)
    H = 2 * math.atanh(math.sqrt((e - 1) / (e + 1)) * math.tan(f / 2))
    return e * math.sinh(H) - H
def ref_true(a, e, M):
    if e < 1:
        k = round(M / (2 * math.pi)); M -= 2 * math.pi * k
        lo, hi = -math.pi - 1e-9, math.pi + 1e-9
        g = lambda E: E - e * math.sin(E) - M
    else:
        lo, hi = -1.0, 1.0
        g = lambda H: e * math.sinh(H) - H - M
        while g(hi) < 0: hi *= 2
        while g(lo) > 0: lo *= 2
    for _ in range(200):
        mid = (lo + hi) / 2
        if g(mid) < 0: lo = mid
        else: hi = mid
    x = (lo + hi) / 2
    return 2 * math.atan2(math.sqrt(1 + e) * math.sin(x / 2), math.sqrt(1 - e) * math.cos(x / 2)) if e < 1 else 2 * math.atan(math.sqrt((e + 1) / (e - 1)) * math.tanh(x / 2))
def from_type(ty, z):
    """state elements (a e i W w f) of an element set"""
    if ty == KEP_F: return list(z)
    if ty == KEP_M: return list(z[:5]) + [ref_true(z[0], z[1], z[5])]
    p, f, g, h, k, L = z
    I = -1 if ty == MEQ_R else 1
    e = math.hypot(f, g); W = math.atan2(k, h); zz = math.atan2(g, f)
    i = 2 * math.atan(math.hypot(h, k))
    if I < 0: i = math.pi - i
    return [p / (1 - e * e), e, i, W, zz - I * W, L - zz]
def to_type(ty, el):
    a, e, i, W, w, f = el
    if ty == KEP_F: return list(el)
    if ty == KEP_M: return [a, e, i, W, w, ref_mean(a, e, f)]
    I = -1 if ty == MEQ_R else 1
    t = math.tan(i / 2) ** I; z = w + I * W
    return [a * (1 - e * e), e * math.cos(z), e * math.sin(z), t * math.cos(W), t * math.sin(W), f + z]
def nrm(v): return math.sqrt(sum(x * x for x in v))
def close(x, y, tol):
    """states: relative to the size of position and velocity"""
    return all(abs(p - q) <= tol * nrm(y[:3]) for p, q in zip(x[:3], y[:3])) and all(abs(p - q) <= tol * nrm(y[3:6]) for p, q in zip(x[3:6], y[3:6]))
class Obj:
    def __init__(self, lib, us, via, ty, arg, mu, add, name):
        self.lib = lib
        self.b = (ctypes.c_char * (lib.kv_kep_size() + 64))()
        self.p = (ctypes.addressof(self.b) + 15) & ~15
        a = darr(list(arg) + [mu] + list(add))
        self.rc = lib.kv_kep_pv(self.p, us, a, name) if via == 'pv' else lib.kv_kep_el(self.p, us, a, ty, name)
    def call(self, f, n, *a):
        o = darr([0] * n)
        rc = getattr(self.lib, 'kv_kep_' + f)(self.p, *a, o)
        return rc, list(o)
    def close(self):
        if not self.rc: self.lib.kv_kep_del(self.p)
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    def rep(ob, ins, got, want): bad.append(dict(case='Keplerian planet', obligation=ob + ' (runtime check)', status='confirmed', inputs=ins, outputs=got, expected=want))
    for k in range(1500 if tier == 'quick' else 40000):
        hyp = rng.random() < .4
        e = 1 + 10 ** rng.uniform(-2, .7) if hyp else rng.uniform(0.001, 0.97)
        S = 10 ** rng.uniform(-1, 9) if rng.random() < .5 else rng.uniform(.3, 3)
        mu = 10 ** rng.uniform(-2, 16) if rng.random() < .5 else rng.uniform(.5, 2)
        fm = math.acos(-1 / e) * .9 if hyp else math.pi
        el = [-S if hyp else S, e, rng.uniform(.01, 3.1), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(-fm, fm)]
        tys = (KEP_F, MEQ, MEQ_R) if hyp else (KEP_M, KEP_F, MEQ, MEQ_R)
        via = rng.choice(('pv', 'el', 'el', 'el')); ty = rng.choice(tys); out = rng.choice(tys)
        st0 = ref_state(*el, mu)
        arg = st0 if via == 'pv' else to_type(ty, el)
        us = Y2K + rng.randint(-10 ** 15, 10 ** 15)
        n = math.sqrt(mu / S ** 3)
        dt = rng.uniform(-3, 3) / n / 86400 * (2 if not hyp else 1)
        dd = (us - Y2K) / DAY + dt
        add = [rng.uniform(-1, 9) for _ in range(3)]
        name = ''.join(rng.choice('abcXYZ 09-') for _ in range(rng.choice((0, 1, 7, 15, 16, 40)))).encode()
        ins = [via, TN[ty], arg, mu, us, dd]
        if len(samples) < 3: samples.append([float(x) for x in el])
        x = Obj(lib, us, via, ty, arg, mu, add, name)
        tot += 1
        try:
            if x.rc: rep('accepted', ins, x.rc, 0); continue
            t = (dd - (us - Y2K) / DAY) * 86400
            if abs(t) * n * 1.0 < 1e-9: continue
            f = ref_true(el[0], e, ref_mean(el[0], e, el[5]) + n * t)
            # timing error from the granularity of dates in days: relative to the time scale of the orbit at this state
            want = ref_state(*el[:5], f, mu)
            r = S * abs(1 - e * e) / (1 + e * math.cos(f)); rmin = S * abs(1 - e)
            tol = 1e-7 + 86400 * 4e-16 * (abs(dd) + 1) * nrm(want[3:]) / r * 40 + 86400 * 4e-16 * (abs(dd) + 1) * mu / r ** 2 / nrm(want[3:]) * 40
            tol += 1e-9 * (S / rmin) ** 1.5
            rc, o = x.call('eph', 6, dd)
            if tol < 1e-3 and (rc or not close(o, want, tol)): rep('ephemeris', ins, o, want)
            rc, o = x.call('elem', 6, dd, out)
            st = ref_state(*from_type(out, o), mu) if not rc else None
            if rc or not close(st, st0, 1e-7 * (1 + 1 / abs(1 - e))): rep('%s elements describe the orbit' % TN[out], ins, o, el)
            rc, o = x.call('get', 7, dd)
            T_ = 2 * math.pi / n
            if o[:4] != [mu] + add: rep('accessors', ins, o[:4], [mu] + add)
            for z in o[4:6]:
                if (not math.isnan(z)) if hyp else not abs(z / T_ - 1) < 1e-8 / (1 - e): rep('period', ins, z, None if hyp else T_)
            if not abs(o[6] - (us - Y2K) / DAY) < 1e-9: rep('reference epoch', ins, o[6], (us - Y2K) / DAY)
            cb = ctypes.create_string_buffer(64)
            lib.kv_kep_name(x.p, ctypes.addressof(cb))
            if cb.value != name: rep('name', ins, repr(cb.value), repr(name))
            rc = x.call('elem', 6, dd, POSVEL)[0]
            if rc != 3: rep('Cartesian type refused', ins, rc, 3)
            if hyp and x.call('elem', 6, dd, KEP_M)[0] != 3: rep('mean anomaly refused for a hyperbola', ins, 0, 3)
            u2 = int(us + t * 1e6)
            if abs(u2) > 4e18: continue
            rc, o = x.call('planet', 17, u2, out)
            rc2, o2 = x.call('eph', 6, (u2 - Y2K) / DAY); rc3, o3 = x.call('elem', 6, 0., out); rc4, o4 = x.call('get', 7, 0.)
            same = lambda p, q: all(i == j or (i != i and j != j) for i, j in zip(p, q))
            if rc or not (same(o[:6], o2) and same(o[6:12], o3) and same(o[12:], [o4[4]] + o4[:4])): rep('same through kep3::planet', ins, o, [o2, o3, o4])
        finally: x.close()
        # refused element sets
        q, ty2 = list(el), rng.choice((KEP_F, KEP_M))
        q[0] = -q[0]
        y = Obj(lib, us, 'el', ty2, q, mu, add, name); y.close()
        if y.rc != 1: rep('incompatible a, e refused (%s)' % TN[ty2], [q, mu], y.rc, 1)
        ty2 = rng.choice((MEQ, MEQ_R)); q = to_type(ty2, el); q[0] = -q[0]
        y = Obj(lib, us, 'el', ty2, q, mu, add, name); y.close()
        if y.rc != 1: rep('negative semi-latus rectum refused (%s)' % TN[ty2], [q, mu], y.rc, 1)
        if hyp:
            y = Obj(lib, us, 'el', KEP_M, el, mu, add, name); y.close()
            if y.rc != 3: rep('mean anomaly of a hyperbola refused', [el, mu], y.rc, 3)
        if len(bad) > 4: break
    return tot, bad[:5], samples
