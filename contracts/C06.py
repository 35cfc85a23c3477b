"""Hyperbolic anomaly conversions."""
from .common import *
IR = ['drivers/anom.cpp']
REPLAY = dict(srcs=['drivers/anom.cpp'])
from .C05 import make_replay, An, half, x, e, accuracy
ASSUME = ['assumed contract on boost::math::tools::newton_raphson_iterate (see DESIGN.md)', 'n2h: the fixed search bracket [1-20 pi, 1+20 pi] in H contains the root for every N below ~1e26 in magnitude; beyond that is outside the stated domain']
r0 = var('root!0')
class Hyp(An):
    inputs = (x, e)
    basis = (e, e - 1, e + 1)
    ranges = dict(x=U(-3, 3), e=lambda r: 1 + 10 ** r.uniform(-2, 1.3))
class HypF(Hyp):
    """x is a true anomaly inside the asymptotes"""
    basis = (e, e - 1, e + 1, 1 + e * cos(x), cos(half(x)))
    def draw(self, r):
        ecc = 1 + 10 ** r.uniform(-2, 1.3)
        return {e: ecc, x: r.uniform(-1, 1) * (math.acos(-1 / ecc)) * 0.98}
def relH(P, f, H):
    P.eq('cos f (e cosh H - 1) = e - cosh H', cos(f) * (e * cosh(H) - 1), e - cosh(H))
    P.eq('sin f (e cosh H - 1) = sqrt(e^2-1) sinh H', sin(f) * (e * cosh(H) - 1), sqrt((e - 1) * (e + 1)) * sinh(H))
def relZ(P, f, z):
    P.eq('cos f (e - cos zeta) = e cos zeta - 1', cos(f) * (e - cos(z)), e * cos(z) - 1)
    P.eq('sin f (e - cos zeta) = sqrt(e^2-1) sin zeta', sin(f) * (e - cos(z)), sqrt((e - 1) * (e + 1)) * sin(z))
def rng_(P, o):
    P.holds('result at most pi', 'le', o, PI)
    P.holds('result at least -pi', 'ge', o, -PI)
F2H = lambda f: 2 * T.atanh(sqrt((e - 1) / (e + 1)) * tan(half(f)))
def cases(tier):
    N = 200 if tier == 'quick' else 5000
    L = [
        Hyp(name='h2f', fun='kv_h2f', basis=(e, e - 1, e + 1, cosh(half(x))), post=lambda o, P: (relH(P, o[0], x), rng_(P, o[0]))),
        HypF(name='f2h', fun='kv_f2h', post=lambda o, P: relH(P, x, o[0])),
        Hyp(name='h2n', fun='kv_h2n', post=lambda o, P: P.eq('hyperbolic Kepler equation', o[0], e * sinh(x) - x)),
        Hyp(name='n2h', fun='kv_n2h', root_solve='x', ranges=dict(x=PMLU(1e-3, 1e8), e=lambda r: 1 + 10 ** r.uniform(-2, 1.3)), sweep_n=3 * N,
            post=lambda o, P: P.eq('hyperbolic Kepler equation', e * sinh(o[0]) - o[0], x)),
        Hyp(name='n2f', fun='kv_n2f', root_solve='x', basis=(e, e - 1, e + 1, cosh(half(r0))), ranges=dict(x=U(-30, 30), e=lambda r: 1 + 10 ** r.uniform(-1, 1)),
            post=lambda o, P: P.expeq('hyperbolic Kepler equation in the true anomaly', e * sinh(F2H(o[0])) - F2H(o[0]), x), tol=1e-6),
        HypF(name='f2n', fun='kv_f2n', post=lambda o, P: P.eq('hyperbolic Kepler equation in the true anomaly', o[0], e * sinh(F2H(x)) - F2H(x))),
        Hyp(name='zeta2f', fun='kv_zeta2f', post=lambda o, P: (relZ(P, o[0], x), rng_(P, o[0]))),
        Hyp(name='f2zeta', fun='kv_f2zeta', post=lambda o, P: (relZ(P, x, o[0]), rng_(P, o[0]))),
    ]
    for a, b, cls, bs in (('kv_h2f', 'kv_f2h', Hyp, (cosh(half(x)),)), ('kv_f2h', 'kv_h2f', HypF, (cos(half(x)), 1 + e * cos(x))), ('kv_zeta2f', 'kv_f2zeta', Hyp, (cos(half(x)),)), ('kv_f2zeta', 'kv_zeta2f', Hyp, (cos(half(x)),))):
        class RT(cls):
            fun = a; fun2 = b
            def entry(self, E):
                i, m, o = E.put_doubles(self.inputs), E.put_doubles([0, e]), E.put_doubles([0])
                E.call(self.fun, i, m); E.call(self.fun2, m, o)
                return [E.load_d(o)]
        hyp = a == 'kv_h2f'
        L.append(RT(name='%s then %s' % (a, b), sweep_n=0, basis=(e, e - 1, e + 1) + bs,
                    post=(lambda o, P: (P.eq('sinh of the result', sinh(o[0]), sinh(x)), P.eq('cosh of the result', cosh(o[0]), cosh(x)))) if hyp else (lambda o, P: P.angle('identity', o[0], x))))
    nan = lambda o, P: P.eq('result is NaN', o[0], T.NAN)
    for f in ('h2f', 'f2h', 'h2n', 'n2h', 'n2f', 'f2n', 'zeta2f', 'f2zeta'):
        L.append(Hyp(name=f + ' rejects e < 1', fun='kv_' + f, basis=(1 - e,), ranges=dict(x=U(-10, 10), e=lambda r: r.choice((1 - 10 ** r.uniform(-12, 0), r.uniform(-2, 1)))), post=nan, sweep_n=100))
        L.append(Hyp(name=f + ' rejects e = 1', fun='kv_' + f, inputs=(x, T.ONE), basis=(), ranges=dict(x=U(-10, 10)), post=nan, sweep_n=20))
    for c in L:
        if c.sweep_n == 200: c.sweep_n = N
    return L
def runtime(lib, rng, tier):
    bad, n = [], 0
    g = lambda f, a, b: (lambda o: (getattr(lib, f)(darr([a, b]), o), o[0])[1])(darr([0]))
    for k in range(300 if tier == 'quick' else 20000):
        ecc = 1 + 10 ** rng.uniform(-2, 1.3)
        f = rng.uniform(-0.95, 0.95) * math.acos(-1 / ecc)
        H = rng.uniform(-4, 4); z = rng.uniform(-3, 3); N = rng.uniform(-50, 50)
        for a, b, t in (('h2n', 'n2h', H), ('n2h', 'h2n', N), ('f2n', 'n2f', f), ('n2f', 'f2n', rng.uniform(-5, 5)), ('h2f', 'f2h', H), ('f2h', 'h2f', f), ('f2zeta', 'zeta2f', z), ('zeta2f', 'f2zeta', z)):
            y = g('kv_' + a, t, ecc); w = g('kv_' + b, y, ecc); n += 1
            if not abs(w - t) < 1e-5 * (1 + abs(t)):
                bad.append(dict(case='%s then %s' % (a, b), obligation='round trip (runtime check)', status='confirmed', inputs=[t, ecc], outputs=[y, w]))
    m, b = accuracy(lib, rng, 300 if tier == 'quick' else 20000, True)
    return n + m, (bad + b)[:5], []
