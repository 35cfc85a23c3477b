"""Fly-by constraints, fly-by cost, outgoing velocity."""
from .common import *
from .C02 import cross, dot
IR_ = ['drivers/flyby.cpp', 'src/core_astro/flyby.cpp', 'src/linalg.cpp', 'src/planet.cpp', 'src/epoch.cpp', 'src/core_astro/ic2par2ic.cpp', 'src/core_astro/eq2par2eq.cpp']
STUB = build.VERIF + '/stubs_lib'
def program(): return build.program(IR_, ('-I' + STUB,))
REPLAY = dict(srcs=IR_, libs=['-lfmt', '-lopenblas', '-llapack'], stubs=(STUB,))
ASSUME = ['type erasure of planet (heyoka tanuki, not installed) replaced by a stand-in that forwards every call', 'assumed contract on BLAS', 'relative velocity not parallel to the planet velocity (fb_vout), velocities not zero']
asin = lambda x: T.asin(x)
Vi, Vo, mu, rs, q, W, i, w, al, be, p = [var(k) for k in ('Vi', 'Vo', 'mu', 'rs', 'q', 'W', 'i', 'w', 'alpha', 'beta', 'p')]
def frame():
    """a general right-handed orthonormal frame"""
    X = [cos(W) * cos(w) - sin(W) * sin(w) * cos(i), sin(W) * cos(w) + cos(W) * sin(w) * cos(i), sin(w) * sin(i)]
    Y = [-(cos(W) * sin(w)) - sin(W) * cos(w) * cos(i), cos(W) * cos(w) * cos(i) - sin(W) * sin(w), cos(w) * sin(i)]
    return X, Y, cross(X, Y)
R = dict(Vi=LU(.1, 10), Vo=LU(.1, 10), mu=LU(.05, 20), rs=LU(.05, 20), q=LU(.1, 5), W=U(0, 6), i=U(0, 3.1), w=U(0, 6), alpha=U(0.02, 3.12), beta=U(-7, 7), p=U(-5, 5))
EMIN = 1 + rs * Vi * Vi / mu
DEL = 2 * asin(1 / EMIN)
class Fb(Case):
    basis = [Vi, Vo, mu, rs, EMIN]
    ranges = R
    sweep_n = 400
    fun = 'kv_fb_con'
    signs = [(cos(al) - 1, {-1}), (cos(al) + 1, {1})]     # 0 < alpha < pi; the ends are covered by the runtime check
    def init(self):
        X, Y, Z = frame()
        self.vi = [Vi * x for x in X]
        self.vo = [Vo * (cos(al) * x + sin(al) * y) for x, y in zip(X, Y)]
        self.inputs = tuple(self.vi + self.vo + [mu, rs])
    def entry(self, E):
        a, o = E.put_doubles(self.inputs), E.put_doubles([0] * 8)
        E.call(self.fun, a, o)
        return E.doubles(o, self.nout)
ALPHA = T.acos(cos(al))                  # the angle between the two velocities, in [0, pi]
class Con(Fb):
    nout = 4
    def post(self, o, P):
        for k, nm in ((0, ''), (2, ' (planet overload)')):
            P.eq('difference of squared speeds' + nm, o[k], Vi * Vi - Vo * Vo, sc=Vi * Vi + Vo * Vo)
            P.eq('turn angle minus the maximum turn angle' + nm, o[1 + k], ALPHA - DEL)
class Dv(Fb):
    nout = 1
    def init(self):
        super().init()
        if self.bad is None:              # on the boundary: the turn is exactly the maximum turn
            X, Y, Z = frame()
            self.vo = [Vo * (cos(DEL) * x + sin(DEL) * y) for x, y in zip(X, Y)]
            self.inputs = tuple(self.vi + self.vo + [mu, rs])
            self.signs = [(cos(DEL) - 1, {-1}), (cos(DEL) + 1, {1}), (T.acos(cos(DEL)) - DEL, {0})]
            self.sweep_n = 0
            return
        self.facts_ = [('gt' if self.bad else 'lt', ALPHA - DEL, T.ZERO)]
        x = {1} if self.bad else {-1}
        self.signs = self.signs + [(ALPHA - DEL, x), (cos(DEL) - cos(al), x)]
    def numok(self, env):
        if self.bad is None: return True
        x = T.feval([ALPHA - DEL], env)[0]
        return abs(x) > 1e-9 and (x > 0) == self.bad
    def post(self, o, P):
        if self.bad: want = Vo * Vo + Vi * Vi - 2 * Vi * Vo * cos(ALPHA - DEL)
        else: want = (Vo - Vi) * (Vo - Vi)
        P.eq('square of the velocity change', o[0] * o[0], want, sc=Vi * Vi + Vo * Vo)
        P.holds('velocity change is not negative', 'ge', o[0], T.ZERO)
class Vout(Fb):
    basis = [Vi, q, mu, rs, EMIN]
    fun = 'kv_fb_vout'
    nout = 3
    def init(self):
        X, Y, Z = frame()
        self.F = X, Y, Z
        self.vp = [p * x - q * z for x, z in zip(X, Z)]        # X x v_pla is along Y
        self.vi = [a + Vi * x for a, x in zip(self.vp, X)]
        self.inputs = tuple(self.vi + self.vp + [rs, be, mu])
    def post(self, o, P):
        X, Y, Z = self.F
        rel = [a - b for a, b in zip(o, self.vp)]
        P.eq('relative speed is kept', dot(rel, rel), Vi * Vi)
        P.eq('turned by 2 asin(1/e)', dot(rel, X), Vi * cos(DEL), sc=Vi)
        P.eq('turn towards the axis chosen by beta', dot(rel, Y), Vi * sin(DEL) * cos(be), sc=Vi)
        P.eq('turn towards the axis chosen by beta (other component)', dot(rel, Z), Vi * sin(DEL) * sin(be), sc=Vi)
def cases(tier):
    L = [Con(name='fb_con'), Vout(name='fb_vout')]
    for b in (True, False, None):
        for f in ('kv_fb_dv', 'kv_fb_dvp'): L.append(Dv(name='%s, turn %s' % (f[3:], 'beyond the maximum' if b else 'equal to the maximum' if b is None else 'feasible'), bad=b, fun=f))
    if tier != 'quick':
        for c in L: c.sweep_n = 20000
    return L
def make_replay(lib):
    def f(case, ins):
        o = darr([0] * 8)
        rc = getattr(lib, case.fun)(darr(ins), o)
        return rc, list(o)[:case.nout]
    return f
def runtime(lib, rng, tier):
    """parallel and opposite velocities: the turn angle is 0 or pi whatever the rounding of the normalised dot product"""
    bad, tot = [], 0
    for k in range(3000 if tier == 'quick' else 100000):
        v = [rng.gauss(0, 1) * 10 ** rng.uniform(-2, 2) for _ in range(3)]
        s = rng.choice((1, -1)) * rng.choice((1.0, rng.uniform(.3, 3)))
        x = [s * a for a in v]
        m, r = math.exp(rng.uniform(-3, 3)), math.exp(rng.uniform(-3, 3))
        V2 = sum(a * a for a in v)
        e = 1 + r / m * V2
        mx = 2 * math.asin(1 / e)
        a = 0 if s > 0 else math.pi
        o = darr([0] * 8)
        Vi_, Vo_ = math.sqrt(V2), abs(s) * math.sqrt(V2)
        lib.kv_fb_con(darr(v + x + [m, r]), o)
        tot += 1
        if not abs(o[1] - (a - mx)) < 1e-6: bad.append(dict(case='fb_con, %s velocities' % ('parallel' if s > 0 else 'opposite'), obligation='turn angle (runtime check)', status='confirmed', inputs=v + x + [m, r], outputs=list(o)[:2], expected=a - mx))
        for fn in ('kv_fb_dv', 'kv_fb_dvp'):
            getattr(lib, fn)(darr(v + x + [m, r]), o)
            want = math.sqrt(max(0, Vo_ ** 2 + Vi_ ** 2 - 2 * Vi_ * Vo_ * math.cos(a - mx))) if a > mx else abs(Vo_ - Vi_)
            if abs(a - mx) > 1e-6 and not abs(o[0] - want) < 1e-6 * (Vi_ + Vo_): bad.append(dict(case=fn[3:] + ', %s velocities' % ('parallel' if s > 0 else 'opposite'), obligation='velocity change (runtime check)', status='confirmed', inputs=v + x + [m, r], outputs=o[0], expected=want))
        if len(bad) > 4: break
    return tot, bad, [v]
