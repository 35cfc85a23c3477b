"""Kepler-equation helpers and Stumpff functions."""
from .common import *
IR = ['drivers/kepeq.cpp']
REPLAY = dict(srcs=['drivers/kepeq.cpp'])
ASSUME = ['the equality branch alpha*DS^2 == 0 is covered by its own case (alpha = 0); DS = 0 with alpha != 0 gives the same constants 1/2, 1/6']
def make_replay(lib):
    def f(case, ins):
        o = darr([0] * 3); rc = getattr(lib, case.fun)(darr(ins), o)
        return rc, list(o)[:case.nout]
    return f
v = lambda s: [var(k) for k in s.split()]
x = var('x')
def fd(case, replay, env, ins, outs, P):
    """finite differences of the compiled code against the derivative it returns"""
    for k in (0, 1):
        best = 1e9
        for h in (1e-3, 1e-4, 1e-5):
            h *= 1 + abs(ins[0])
            f = [replay(case, [ins[0] + s * h] + list(ins[1:]))[1][k] for s in (-2, -1, 1, 2)]
            d = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * h)
            sc = 1 + abs(d) + abs(outs[k + 1]) + sum(map(abs, f))
            best = min(best, abs(d - outs[k + 1]) / sc)
        P.check('derivative %d agrees with finite differences' % (k + 1), best < 1e-5, 'difference %g' % best)
class KE(Case):
    nout = 3
    concrete_extra = staticmethod(fd)
    spec = None
    def entry(self, E):
        i, o = E.put_doubles(self.inputs), E.put_doubles([0] * 3)
        E.call(self.fun, i, o)
        return E.doubles(o, self.nout)
    def post(self, o, P):
        if self.spec is not None: P.eq('the equation', o[0], self.spec)
        P.deriv('first derivative', o[0], o[1], {self.dvar: 1})
        P.deriv('second derivative', o[1], o[2], {self.dvar: 1})
    dvar = 'x'
R = dict(x=U(-3, 3), M=U(-5, 5), e=U(0, 2), DM=U(-5, 5), s0=U(-2, 2), sa=U(0.5, 2), a=PMLU(0.3, 5), R=U(0.3, 3), DT=U(-3, 3), r0=U(0.3, 3), vr0=U(-1, 1), mu=U(0.3, 3), b=U(0.3, 1.5), m=U(0.5, 2))
def cases(tier):
    M, e, DM, s0, sa, a, RR, DT, r0, vr0, m, b = v('M e DM s0 sa a R DT r0 vr0 m b')
    mu = m * m
    N = 100 if tier == 'quick' else 3000
    L = [KE(name='eccentric', fun='kv_kepE', inputs=(x, M, e), ranges=R, spec=x - e * sin(x) - M),
         KE(name='hyperbolic', fun='kv_kepH', inputs=(x, M, e), ranges=R, spec=e * sinh(x) - x - M),
         KE(name='eccentric anomaly difference', fun='kv_kepDE', inputs=(x, DM, s0, sa, a, RR), ranges=R, spec=x - DM + s0 / sa * (1 - cos(x)) - (1 - RR / a) * sin(x)),
         KE(name='hyperbolic anomaly difference', fun='kv_kepDH', inputs=(x, DM, s0, sa, a, RR), ranges=R, spec=s0 / sa * (cosh(x) - 1) + (1 - RR / a) * sinh(x) - x - DM)]
    # universal anomaly: sqrt(mu) DT = r0 vr0 / sqrt(mu) x^2 C + (1 - alpha r0) x^3 S + r0 x
    def uni(al, C3, S3): return r0 * vr0 / m * C3 + (1 - al * r0) * S3 + r0 * x - m * DT
    Rp = dict(R, x=U(0.05, 3)); Rn = dict(R, q=U(0.05, 3))
    q = var('q')
    for nm, xx, dv, sg, rg in (('positive', x, 'x', 1, Rp), ('negative', -q, 'q', -1, Rn)):
        z = b * x if sg > 0 else b * q
        X = x if sg > 0 else -q
        def spec(al, C3, S3, X=X): return r0 * vr0 / m * C3 + (1 - al * r0) * S3 + r0 * X - m * DT
        kw = dict(fun='kv_kepDS', ranges=rg)
        class K2(KE):
            sg_ = sg
            def post(self, o, P):
                P.eq('the equation', o[0], self.spec)
                P.deriv('first derivative', o[0], o[1] * const(self.sg_), {self.dvar: 1})
                P.deriv('second derivative', o[1], o[2] * const(self.sg_), {self.dvar: 1})
        # elliptic: alpha = b^2: x^2 C = (1 - cos bx)/b^2, x^3 S = (bx - sin bx)/b^3
        L.append(K2(name='universal anomaly, alpha > 0, DS %s' % nm, inputs=(X, DT, r0, vr0, b * b, mu), basis=(b, m, X if sg > 0 else q), dvar=dv,
                    spec=spec(b * b, (1 - cos(b * X)) / (b * b), (b * X - sin(b * X)) / (b * b * b)), **kw))
        L.append(K2(name='universal anomaly, alpha < 0, DS %s' % nm, inputs=(X, DT, r0, vr0, -(b * b), mu), basis=(b, m, X if sg > 0 else q), dvar=dv,
                    spec=spec(-(b * b), (cosh(b * X) - 1) / (b * b), (sinh(b * X) - b * X) / (b * b * b)), **kw))
    L.append(KE(name='universal anomaly, alpha = 0', fun='kv_kepDS', inputs=(x, DT, r0, vr0, T.ZERO, mu), basis=(m,), ranges=R, spec=uni(T.ZERO, x * x * const(T.Fraction(1, 2)), x ** 3 * const(T.Fraction(1, 6)))))
    class St(KE):
        nout = 2; concrete_extra = None
        def post(self, o, P):
            P.eq('C', o[0], self.C); P.eq('S', o[1], self.S)
    L += [St(name='Stumpff, x > 0', fun='kv_stumpff', inputs=(b * b,), basis=(b,), ranges=dict(b=U(0.2, 10)), C=(1 - cos(b)) / (b * b), S=(b - sin(b)) / (b * b * b)),
          St(name='Stumpff, x < 0', fun='kv_stumpff', inputs=(-(b * b),), basis=(b,), ranges=dict(b=U(0.2, 10)), C=(cosh(b) - 1) / (b * b), S=(sinh(b) - b) / (b * b * b)),
          St(name='Stumpff, x = 0', fun='kv_stumpff', inputs=(T.ZERO,), C=const(T.Fraction(1, 2)), S=const(T.Fraction(1, 6)))]
    for c in L: c.sweep_n = N
    return L
