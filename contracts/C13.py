"""Lambert: every solution solves the boundary value problem."""
from .lambert import *
from . import lambert as LM
from kvc import build
LEVEL = 'other'
EXPLAIN = ('Deductive: the three time-of-flight expressions are the Lambert curve for all lambda, x, N; dTdx returns its derivatives; each safeguarded Householder iteration has the roots as fixed points; '
           'the constructor, against the contract of householder (x is a root of T(x;lambda,N)=T), returns velocities that solve the boundary value problem, for all geometries, both directions and requested revolutions up to 2. '
           'Convergence of the iteration to a root, and more revolutions (up to 40), are a bounded runtime check of the same postcondition against an independent Kepler solver.')
ASSUME = ['householder converges to a root of the curve on the branch it is called for (bounded runtime check)', 'xtensor/BLAS norms and cross products: real arithmetic (interpreted from their source)', 'hypergeometricF: the sum of the series to the requested tolerance (partial sums and last term proved for |z| <= 0.0202, range of z proved)']
WHAT = ('C13',)
def program():
    d = dict(pub=build.program(PUB))
    d['priv'] = build.program(PRIV)
    return d
def cases(tier):
    L = [Closed(name='closed form of the hypergeometric function'), Parabola(name='parabola'), Series(name='hypergeometric series'), Range(name='where the series is used'),
         Deriv(name='derivatives of the curve, ellipse'), Deriv(name='derivatives of the curve, hyperbola', hyp=True),
         Curve(name='curve, ellipse, lambda > 0'), Curve(name='curve, ellipse, lambda < 0', neg=True), Curve(name='curve, ellipse, no revolution, lambda > 0', n0=True), Curve(name='curve, ellipse, no revolution, lambda < 0', n0=True, neg=True),
         Curve(name='curve, hyperbola, lambda > 0', hyp=True), Curve(name='curve, hyperbola, lambda < 0', hyp=True, neg=True),
         Step(name='iteration, left branch'), Step(name='iteration, right branch', slope=1), Step(name='iteration, no revolution', N=0)]
    W = dict(what=WHAT)
    for cw in (0, 1):
        for up in (True, False):
            for hyp in (False, True): L.append(Ctor(name='constructor, %s, %s, %s' % ('clockwise' if cw else 'counter-clockwise', 'h up' if up else 'h down', 'hyperbola' if hyp else 'ellipse'), cw=cw, up=up, hyp=hyp, weight=2, **W))
    L += [Ctor(name='constructor, up to 1 revolution', multi=1, weight=8, **W), Ctor(name='constructor, up to 1 revolution, clockwise, h down', multi=1, cw=1, up=False, weight=8, **W), Ctor(name='constructor, up to 1 revolution, stationary at 0', multi=1, dt0=True, weight=7, **W)]
    L += [Ctor(name='constructor, up to 2 revolutions', multi=2, weight=9, **W)]
    return L
runtime = lam_runtime(WHAT, 1500)
