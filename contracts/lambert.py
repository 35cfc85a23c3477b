"""Shared by C13-C15.  Lambert's problem: the time-of-flight curve, its derivatives, the iteration step, the constructor."""
from .twobody import dot, cross, kepler_oracle, close
from .common import *
LAM, X, NN, TT = var('lambda'), var('x'), var('N'), var('T')
p, q = var('p'), var('q')
PRIV = ['drivers/lambert_priv.cpp', 'drivers/lambert.cpp', 'src/lambert_problem.cpp']
PUB = ['drivers/lambert.cpp', 'src/lambert_problem.cpp']
SRC = ['drivers/lambert.cpp', 'src/lambert_problem.cpp']
REPLAY = dict(srcs=SRC, libs=['-lfmt', '-lopenblas', '-llapack'])
half = lambda t: t * const(T.Fraction(1, 2))
# ---------------------------------------------------------------- kernels
# ghosts: x = cos p, lambda sin p = sin q (ellipse); x = cosh p, lambda sinh p = sinh q (hyperbola)
class Kern(Case):
    prog = 'priv'
    n0 = False
    hyp, neg = False, False              # neg: lambda < 0, written as lambda sin p = -sin q with q > 0
    sweep_n = 0
    maxpaths = 60
    def init(self):
        S, C = (sinh, cosh) if self.hyp else (sin, cos)
        self.q = -q if self.neg else q
        self.lam, self.x = S(self.q) / S(p), C(p)
        self.basis = [S(p), S(q), C(q), S(half(p - self.q)), C(half(p - self.q))]
    def curve(self, P, name, tof):
        """tof is the Lambert time of flight T(x; lambda, N)"""
        Q = self.q
        if self.hyp: P.expeq(name, 2 * tof * (sinh(p) * sinh(p) * sinh(p)), sinh(2 * p) - sinh(2 * Q) - (2 * p - 2 * Q))
        else: P.angle(name, 2 * tof * (sin(p) * sin(p) * sin(p)) + sin(2 * p) - sin(2 * Q) - 2 * PI * (0 if self.n0 else NN), 2 * p - 2 * Q)
    def draw(self, r):
        l = r.uniform(0.01, 0.98)
        if self.hyp:
            a = r.choice((10 ** r.uniform(-2, 0.5), r.uniform(0.05, 3)))
            return {p: a, q: math.asinh(l * math.sinh(a)), NN: 0}
        a = r.choice((10 ** r.uniform(-2, 0), math.pi - 10 ** r.uniform(-2, 0), r.uniform(0.05, 3.1)))
        return {p: a, q: math.asin(l * math.sin(a)), NN: 0 if self.n0 else r.randint(1, 5)}
def hyperF(E, z, tol):
    """contract of hypergeometricF at z = sin^2 psi (or -sinh^2 psi): closed form of 2F1(3,1;5/2;z)"""
    c = E.oracle.c
    psi = half(p - c.q)
    want = -(sinh(psi) * sinh(psi)) if c.hyp else sin(psi) * sin(psi)
    E.obl.append(('hyper', z, want))
    if c.hyp: return const(T.Fraction(3, 4)) * (sinh(4 * psi) - 4 * psi) / (sinh(2 * psi) * sinh(2 * psi) * sinh(2 * psi))
    return const(T.Fraction(3, 4)) * (4 * psi - sin(4 * psi)) / (sin(2 * psi) * sin(2 * psi) * sin(2 * psi))
class Curve(Kern):
    overrides = [(r'^kep3::lambert_problem::hypergeometricF\(', hyperF)]
    def init(self):
        super().init()
        self.inputs = (self.lam, self.x, NN)
    def entry(self, E):
        o = E.put_doubles([0])
        E.call('kv_x2tof', self.lam, self.x, 0 if self.hyp or self.n0 else SymInt(E, NN), o)
        return [E.load_d(o)]
    def post(self, o, P): self.curve(P, 'value is the time of flight curve', o[0])
    def post_path(self, r, P):
        for k, z, w in [x for x in r.obl if x[0] == 'hyper']: P.eq('argument of the hypergeometric function', z, w)

class Deriv(Kern):
    """dTdx returns the first three derivatives of the curve with respect to x at fixed lambda, N (away from the parabola)"""
    def init(self):
        l = var('l')
        self.Q = T.asinh(l * sinh(p)) if self.hyp else T.asin(l * sin(p))
        S = sinh if self.hyp else sin
        self.basis = [S(p)]
        if self.hyp: self.T = (sinh(2 * p) - sinh(2 * self.Q) - 2 * p + 2 * self.Q) / (2 * sinh(p) * sinh(p) * sinh(p))
        else: self.T = (2 * p - 2 * self.Q + 2 * PI * NN - sin(2 * p) + sin(2 * self.Q)) / (2 * sin(p) * sin(p) * sin(p))
        self.dx = sinh(p) if self.hyp else -sin(p)
        self.inputs = (l, cosh(p) if self.hyp else cos(p), self.T)
        x = self.inputs[1]
        self.facts_ = [('ge', x * x - 1 if self.hyp else 1 - x * x, const(T.Fraction(1, 10 ** 7)))]
    def entry(self, E):
        o = E.put_doubles([0] * 3)
        E.call('kv_dtdx', *self.inputs, o)
        return E.doubles(o, 3)
    def post(self, o, P):
        for k, (a, b) in enumerate(((self.T, o[0]), (o[0], o[1]), (o[1], o[2]))): P.deriv('derivative %d of the time of flight curve' % (k + 1), a, b * self.dx, {'p': 1})
    def draw(self, r): return {p: r.uniform(0.05, 3 if not self.hyp else 2.5), var('l'): r.uniform(-0.98, 0.98), NN: 0 if self.hyp else r.randint(0, 4)}
class Parabola(Case):
    """dTdx and x2tof in x = 1 (no revolutions): the derivatives solve the differentiated equation (1-x^2) T' = 3 T x - 2 + 2 l^3 x / y"""
    prog = 'priv'
    sweep_n = 0
    l = var('l')
    def init(self):
        self.inputs = ()
        self.facts_ = [('lt', self.l, T.ONE), ('gt', self.l, -T.ONE)]
        self.overrides = [(r'^kep3::lambert_problem::hypergeometricF\(', lambda E, z, tol: (E.obl.append(('hyper', z, tol)), T.ONE)[1])]
    def entry(self, E):
        o, d = E.put_doubles([0]), E.put_doubles([0] * 3)
        E.call('kv_x2tof', self.l, 1.0, 0, o)
        E.call('kv_dtdx', self.l, 1.0, const(T.Fraction(2, 3)) * (1 - self.l * self.l * self.l), d)
        return [E.load_d(o)] + E.doubles(d, 3)
    def post_path(self, r, P):
        for k, z, tol in [x for x in r.obl if x[0] == 'hyper']: P.eq('argument of the hypergeometric function (its value is 1)', z, 0)
    def post(self, o, P):
        l, (t, D1, D2, D3) = self.l, o
        l2, l3 = l * l, l * l * l
        P.eq('time of flight of the parabola', 3 * t, 2 - 2 * l3)
        P.eq('first derivative', -2 * D1, 3 * t + 3 * D1 + 2 * l3 * (1 - l2))
        P.eq('second derivative', -4 * D2 - 2 * D1, 6 * D1 + 3 * D2 - 6 * l3 * l2 * (1 - l2))
        P.eq('third derivative', -6 * D3 - 6 * D2, 9 * D2 + 3 * D3 - 6 * l3 * l2 * (1 - l2) * (1 - 5 * l2))
    def draw(self, r): raise NotImplementedError
def decided(P, pred, a, b):
    """a pred b follows from one of the branch conditions of the path (identity of the differences up to sign decided by PIT)"""
    from kvc.engine import TRUTH
    d, sp = T.sub(a, b), P.o.space()
    if T.isc(d): return ((d.val > 0) - (d.val < 0)) in TRUTH[pred]
    for l, t, h in P.o.E.pc:
        if l.b is None or any(x.op in ('inf', 'ninf', 'nan') for x in (l.a, l.b)): continue
        e = T.sub(l.a, l.b)
        for s in (1, -1):
            if sp.iszero(T.sub(d, e if s == 1 else T.neg(e))):
                signs = {-1, 0, 1} & (TRUTH[l.pred] if t else {-1, 0, 1} - TRUTH[l.pred])
                if {s * x for x in signs} <= TRUTH[pred]: return True
                if not ({s * x for x in signs} & TRUTH[pred]): return False
    return None
def inside(P, z, lo, hi):
    """is z known to be in / known not to be in [lo, hi] on this path (hi None: infinite)"""
    a, b = decided(P, 'ge', z, lo), True if hi is None else decided(P, 'le', z, hi)
    return True if a and b else False if a is False or b is False else None
class Step(Case):
    """the safeguarded iteration: a Householder step (a root is a fixed point; agrees with Newton's step to first order) when it stays in the
    bracket of the root, a point within the bracket otherwise; the bracket is updated with the side the root is on"""
    prog = 'priv'
    sweep_n = 0
    x0 = var('x0')
    maxpaths = 4000
    slope, nit, N = -1, 2, 3
    def init(self):
        self.inputs = ()
        self.facts_ = [('gt', self.x0, -T.ONE)] + ([('lt', self.x0, T.ONE)] if self.N else [])
        def x2tof(E, this, ptof, x, N):
            E.nx = getattr(E, 'nx', 0) + 1
            E.store_d(ptof, var('tof%d' % E.nx)); E.ev.append(('tof', x, N))
        def dtdx(E, this, a, b, c, x, t):
            E.ev.append(('dtdx', x, t))
            for k, z in enumerate((a, b, c)): E.store_d(z, var('D%d_%d' % (k + 1, E.nx)))
        self.overrides = [(r'^kep3::lambert_problem::x2tof\(', x2tof), (r'^kep3::lambert_problem::dTdx\(', dtdx)]
    def entry(self, E):
        E.nx, E.ev = 0, []
        px, pi = E.put_doubles([self.x0]), E.alloc(8)
        E.call('kv_house', LAM, TT, px, self.N, const(T.Fraction(1, 10**5)), self.nit, float(self.slope), pi)
        self.it, self.ev = E.load_i(pi, 4), E.ev
        return [E.load_d(px)]
    def post(self, o, P):
        n = self.it
        P.check('between one and the allowed number of iterations', 1 <= n <= self.nit, n)
        tofs = [e for e in self.ev if e[0] == 'tof']
        ds = [e for e in self.ev if e[0] == 'dtdx']
        P.check('one evaluation of the curve and of its derivatives per iteration', len(tofs) == len(ds) == n)
        P.check('the curve is evaluated for the given revolutions', all(e[2] == self.N for e in tofs))
        P.eq('first evaluation at the guess', tofs[0][1], self.x0)
        sp = P.o.space()
        lo, hi, s = -T.ONE, T.ONE if self.N else None, self.slope
        for k in range(n):
            P.eq('derivatives evaluated at the same point, %d' % k, ds[k][1], tofs[k][1])
            P.eq('derivatives use the value of the curve, %d' % k, ds[k][2], var('tof%d' % (k + 1)))
            xo, xn = tofs[k][1], tofs[k + 1][1] if k + 1 < n else o[0]
            tk, D1, D2, D3 = [var('tof%d' % (k + 1))] + [var('D%d_%d' % (j, k + 1)) for j in (1, 2, 3)]
            dl = tk - TT
            wrong = decided(P, 'lt', D1 * s, T.ZERO)              # beyond the minimum: on the other branch
            right = (s > 0) if wrong else decided(P, 'lt', dl * s, T.ZERO) if wrong is False else None
            P.check('the side of the root is decided, iteration %d' % k, right is not None)
            if right: lo = xo
            else: hi = xo
            H = xo - dl * (D1 * D1 - half(dl * D2)) / (D1 * (D1 * D1 - dl * D2) + D3 * dl * dl / 6)
            if sp.equal(xn, H):
                P.check('a Householder step stays within the bracket of the root, iteration %d' % k, inside(P, H, lo, hi) is True)
                P.eq('a root is a fixed point, iteration %d' % k, T.substitute([xn], {tk: TT})[0], xo)
                def f(s, xn=xn, tk=tk, D1=D1):
                    t = sp.twin(s, {}); t.fixed[tk] = (t.ev(TT)[0], 1)
                    return (t.ev(xn)[1] * t.ev(D1)[0] + 1) % t.p
                P.custom('first-order correction is -(T(x)-T)/T\'(x), iteration %d' % k, [xn], f)
            else:
                P.check('only a step out of the bracket is replaced, iteration %d' % k, inside(P, H, lo, hi) is False)
                P.eq('the replacement lies between the ends of the bracket, iteration %d' % k, xn, half(lo + hi) if hi is not None else 2 * xo + 1)
    def draw(self, r): raise NotImplementedError
class Series(Case):
    """hypergeometricF returns a partial sum of 2F1(3,1;5/2;z) whose last term is below the tolerance; complete for |z| <= B"""
    prog = 'priv'
    sweep_n = 0
    B = T.Fraction(202, 10000)
    z = var('z')
    maxpaths = 100
    def init(self):
        self.inputs = ()
        self.facts_ = [('le', self.z, const(self.B)), ('ge', self.z, const(-self.B))]
    def entry(self, E):
        o = E.put_doubles([0])
        E.call('kv_hyperg', self.z, const(T.Fraction(1, 10**11)), o)
        return [E.load_d(o)]
    def post(self, o, P):
        c, t, S = T.Fraction(1), T.ONE, T.ONE
        hit = None
        for k in range(40):
            c = c * (3 + k) * (1 + k) / ((T.Fraction(5, 2) + k) * (k + 1)); t = t * self.z
            S = S + const(c) * t
            try:
                if P.o.space().equal(o[0], S): hit = (k + 1, const(c) * t); break
            except Exception: break
        P.check('result is a partial sum of the series 2F1(3,1;5/2;z)', hit is not None)
        if hit:
            P.holds('the last term is below 1e-10', 'le', hit[1], const(T.Fraction(1, 10**10)))
            P.holds('the last term is above -1e-10', 'ge', hit[1], const(-T.Fraction(1, 10**10)))
    def draw(self, r): return {self.z: r.uniform(-0.02, 0.02)}
class Closed(Case):
    """lemma: the closed form used as the contract of hypergeometricF solves z(1-z)F' + (3/2-3z)F = 3/2, F(0) = 1, whose power series
    coefficients are those of 2F1(3,1;5/2;z)"""
    sweep_n = 0
    prog = 'priv'
    def init(self): self.inputs = ()
    def entry(self, E): return []
    def post(self, o, P):
        a = var('a')
        for nm, z, F in (('z > 0', sin(a) * sin(a), const(T.Fraction(3, 4)) * (4 * a - sin(4 * a)) / (sin(2 * a) * sin(2 * a) * sin(2 * a))),
                         ('z < 0', -(sinh(a) * sinh(a)), const(T.Fraction(3, 4)) * (sinh(4 * a) - 4 * a) / (sinh(2 * a) * sinh(2 * a) * sinh(2 * a)))):
            P.custom('closed form solves the differential equation, ' + nm, [z, F], lambda s, z=z, F=F: (s.ev(z)[0] * (1 - s.ev(z)[0]) * s.ev(F)[1] + ((s.rat(T.Fraction(3, 2)) - 3 * s.ev(z)[0]) * s.ev(F)[0] - s.rat(T.Fraction(3, 2))) * s.ev(z)[1]) % s.p, {'a': 1})
        k, c = var('k'), var('c')
        c1 = c * (3 + k) * (1 + k) / ((const(T.Fraction(5, 2)) + k) * (k + 1))
        # coefficient of z^(k+1): (k+1) c_{k+1} - k c_k + 3/2 c_{k+1} - 3 c_k = 0
        P.eq('recursion of the coefficients', (k + 1) * c1 - k * c + const(T.Fraction(3, 2)) * c1 - 3 * c, 0)
    def draw(self, r): raise NotImplementedError
class Range(Kern):
    """the series is only used where it was shown to converge"""
    def init(self):
        self.inputs = (LAM, X)
        self.facts_ = [('lt', LAM, T.ONE), ('gt', LAM, -T.ONE), ('gt', X, -T.ONE)]
        self.overrides = [(r'^kep3::lambert_problem::hypergeometricF\(', lambda E, z, tol: (E.obl.append(('hyper', z, tol)), T.uf('hyp', z))[1])]
    def entry(self, E):
        o = E.put_doubles([0])
        E.call('kv_x2tof', LAM, X, 0, o)
        return [E.load_d(o)]
    def post(self, o, P): P.check('reached', True)
    def post_path(self, r, P):
        for k, z, tol in [x for x in r.obl if x[0] == 'hyper']:
            P.holds('tolerance at most 1e-11', 'le', tol, const(T.Fraction(1, 10**11) + T.Fraction(1, 10**20)))
            P.holds('argument of the series at most 0.0202', 'le', z, const(Series.B), 30000)
            P.holds('argument of the series at least -0.0202', 'ge', z, const(-Series.B), 30000)
    def draw(self, r): raise NotImplementedError

# ---------------------------------------------------------------- constructor
# ghost triangle: k = s - c, u = s - |r0|, v = s - |r1| (all > 0), written as squares
K_, U_, V_, M_, tof = var('K'), var('U'), var('V'), var('M'), var('tof')
INC, RAAN, ARG = var('inc'), var('raan'), var('arg')
ks, us, vs = K_ * K_, U_ * U_, V_ * V_
S_, C_, RA, RB = ks + us + vs, us + vs, ks + vs, ks + us
MUL = 2 * M_ * M_
sS, sA, sB = sqrt(S_), sqrt(RA), sqrt(RB)
def frame(up):
    cW, sW, cw, sw, ci, si = cos(RAAN), sin(RAAN), cos(ARG), sin(ARG), cos(INC), sin(INC)
    e1 = [cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si]
    e2 = [-(cW * sw) - sW * cw * ci, cW * cw * ci - sW * sw, cw * si]
    return e1, ([x for x in e2] if up else [-x for x in e2])
def arcs(hyp, pk, lam):
    """alpha/2 and beta/2 of the transfer"""
    return (pk, T.asinh(lam * sinh(pk))) if hyp else (pk, T.asin(lam * sin(pk)))
def curve_T(hyp, pk, lam, n):
    a, b = arcs(hyp, pk, lam)
    if hyp: return (sinh(2 * a) - sinh(2 * b) - 2 * a + 2 * b) / (2 * sinh(a) * sinh(a) * sinh(a))
    return (2 * a - 2 * b + 2 * PI * n - sin(2 * a) + sin(2 * b)) / (2 * sin(a) * sin(a) * sin(a))
HOUSE = (r'^kep3::lambert_problem::householder\(', r'^kep3::lambert_problem::x2tof\(', r'^kep3::lambert_problem::dTdx\(')
def implied(P, name, pred, a, b):
    """a pred b is one of the branch conditions of the path (identities between the sides decided by PIT)"""
    def f():
        d = T.sub(a, b)
        sp = P.o.space()
        from kvc.engine import TRUTH
        for l, t, h in P.o.E.pc:
            if l.b is None: continue
            e = T.sub(l.a, l.b)
            for s in (1, -1):
                if sp.iszero(T.sub(d, e if s == 1 else T.neg(e))):
                    signs = {-1, 0, 1} & (TRUTH[l.pred] if t else {-1, 0, 1} - TRUTH[l.pred])
                    if {s * x for x in signs} <= TRUTH[pred]: return True
        return None
    return P._t(name, pred, a, b, f, 'pit')
class Ctor(Case):
    """the constructor against the contracts of householder (sets x to a root of T(x; lambda, N) = T), x2tof and dTdx"""
    prog = 'pub'
    rootcap = 1
    multi, cw, up, hyp, dt0 = 0, 0, True, False, False
    what = ('C13', 'C14')
    maxpaths = 400
    sweep_n = 40
    tol = 1e-6
    stat = None
    def init(self):
        e1, e2 = frame(self.up)
        c2, s2 = (S_ * ks - us * vs) / (RA * RB), 2 * sS * K_ * U_ * V_ / (RA * RB)
        self.r0 = [RA * x for x in e1]
        self.r1 = [RB * (c2 * x + s2 * y) for x, y in zip(e1, e2)]
        self.inputs = tuple(self.r0 + self.r1 + [tof, MUL])
        self.basis = [K_, U_, V_, sS, sA, sB, C_, M_, cos(INC)]
        self.lam = K_ / sS if self.up != bool(self.cw) else -(K_ / sS)
        self.facts_ = [('gt', tof, T.ZERO)]
        def house(E, this, Tn, px, N, eps, itmax, slope=None):
            k = len(self.calls)
            pk = var('p%d' % k)
            self.calls.append(dict(T=Tn, guess=E.load_d(px), N=E.conc(N), p=pk, slope=slope))
            E.store_d(px, cosh(pk) if self.hyp and k == 0 else cos(pk))
            return 7 + k
        def dtdx(E, this, a, b, c, x, t):
            k = len(self.ev)
            self.ev.append((x, t))
            last = k >= 1 or self.dt0
            for j, z in enumerate((a, b, c)): E.store_d(z, T.ZERO if last and j == 0 else var('D%d_%d' % (j + 1, k)))
        def x2tof(E, this, ptof, x, N):
            self.ev2.append((x, E.conc(N)))
            E.store_d(ptof, var('Tmin%d' % len(self.ev2)))
        self.overrides = list(zip(HOUSE, (house, x2tof, dtdx)))
    def candidates(self, t):
        if t.op == 'intof': return list(range(self.multi + 3))
    def int_nonneg(self, t): return t.op == 'intof'      # T > 0 (obligation: T is the stated positive expression)
    def entry(self, E):
        self.calls, self.ev, self.ev2 = [], [], []
        n = 2 * self.multi + 3
        r0, r1, v0, v1, x, inn = E.put_doubles(self.inputs[:3]), E.put_doubles(self.inputs[3:6]), E.put_doubles([0] * 3 * n), E.put_doubles([0] * 3 * n), E.put_doubles([0] * n), E.put_doubles([0] * 8)
        it, cnt, nmax = E.alloc(4 * n + 4), E.alloc(32), E.alloc(8)
        for k in range(4): E.store_i(cnt + 8 * k, 0, 8)
        E.store_i(nmax, 0, 8)
        E.call('kv_lambert', r0, r1, self.inputs[6], self.inputs[7], self.cw, self.multi, n, v0, v1, x, it, cnt, nmax, inn)
        self.n = [E.conc(E.load_i(cnt + 8 * k, 8)) for k in range(4)]
        self.nmax = E.conc(E.load_i(nmax, 4))
        self.its = [E.load_i(it + 4 * k, 4) for k in range(min(n, self.n[3]))]
        self.inn = E.doubles(inn, 8)
        self.v0, self.v1, self.xs = E.doubles(v0, 3 * self.n[0]), E.doubles(v1, 3 * self.n[1]), E.doubles(x, self.n[2])
        return []
    def post(self, o, P):
        if not hasattr(P, 'o'): return
        N, lam = self.nmax, self.lam
        if 'C14' in self.what:
            P.check('2N+1 departure velocities, arrival velocities, x values and iteration counts', self.n == [2 * N + 1] * 4, '%s %s' % (self.n, N))
            P.check('N does not exceed the requested number', 0 <= N <= self.multi, N)
            want = [0] + [j for k in range(1, N + 1) for j in (k, k)]
            P.check('solutions are for 0, 1, 1, 2, 2, ... revolutions', [c['N'] for c in self.calls] == want, [c['N'] for c in self.calls])
            P.check('iteration counts belong to their solutions', self.its == [7 + k for k in range(len(self.its))], self.its)
            for k, c in enumerate(self.calls):
                P.eq('x of solution %d is the root found for it' % k, self.xs[k], cosh(c['p']) if self.hyp and k == 0 else cos(c['p']))
                if k == 0: continue
                # initial guesses: left one below, right one above (z3: pow positive)
            for k in range(8): P.eq('accessor %d returns the input' % k, self.inn[k], self.inputs[k])
        if self.n != [len(self.calls)] * 4:
            P.check('one root per solution', False, '%s %d' % (self.n, len(self.calls))); return
        Tn = 2 * M_ / (S_ * sS) * tof
        ncand = next((int(l.b.val) for l, t, h in P.o.E.pc if l.a.op == 'intof' and t and l.pred == 'eq' and T.isc(l.b)), self.multi)
        P.check('revolutions considered: no more than requested', ncand <= self.multi)
        T00 = acos(lam) + lam * sqrt(1 - lam * lam)
        if 'C14' in self.what and ncand:
            T0 = T00 + PI * ncand
            if not self.ev: implied(P, 'all revolution counts are kept without a search only when T >= T(0)', 'ge', Tn, T0)
            else:
                P.eq('search for the minimum time starts at x = 0', self.ev[0][0], 0)
                P.eq('search for the minimum time starts from T(0)', self.ev[0][1], T0)
                for x, n in self.ev2: P.check('the minimum time is searched for the largest number of revolutions', n == ncand, n)
                Tm = var('Tmin%d' % len(self.ev2)) if self.ev2 else T0
                if N == ncand: implied(P, 'kept: T is not below the minimum', 'ge', Tn, Tm)
                else: P.check('at most one revolution is dropped', N == ncand - 1, N); implied(P, 'dropped: T is below the minimum', 'lt', Tn, Tm)
        if self.ev2 and 'C14' in self.what:
            D1, D2, D3 = [var('D%d_0' % j) for j in (1, 2, 3)]
            nx, sp = self.ev2[0][0], P.o.space()
            H = -D1 * D2 / (D2 * D2 - half(D1 * D3))
            neg = decided(P, 'lt', D1, T.ZERO)
            lo, hi = (T.ZERO, T.ONE) if neg else (-T.ONE, T.ZERO)
            if sp.equal(nx, H):
                P.check('a Halley step stays within the bracket of the minimum', inside(P, H, lo, hi) is True)
                P.eq('a stationary point is a fixed point of the search', T.substitute([nx], {D1: T.ZERO})[0], 0)
                def f(s):
                    t = sp.twin(s, {}); t.fixed[D1] = (0, 1)
                    return (t.ev(nx)[1] * t.ev(D2)[0] + 1) % t.p
                P.custom('search correction agrees with Newton\'s to first order', [nx], f)
            else:
                P.check('only a step out of the bracket is replaced', inside(P, H, lo, hi) is False)
                P.eq('the replacement lies between the ends of the bracket', nx, half(lo + hi))
        for k, c in enumerate(self.calls):
            hyp = self.hyp and k == 0
            nm = ' (solution %d)' % k
            P.eq('non-dimensional time of flight' + nm, c['T'], Tn)
            if c['slope'] is not None: P.eq('the branch searched is the one of the solution' + nm, c['slope'], 1 if k and k % 2 == 0 else -1)
            v0, v1 = self.v0[3 * k:3 * k + 3], self.v1[3 * k:3 * k + 3]
            pk = var('p') if not hyp else c['p']       # renamed: the solutions do not depend on each other's roots
            xs = T.atoms(v0 + v1)
            P.check('velocities depend on their own root only' + nm, not any(var('p%d' % j) in xs for j in range(9) if j != k))
            z = T.substitute(v0 + v1, {c['p']: pk}); v0, v1 = z[:3], z[3:]
            if 'C13' in self.what:
                a_, b_ = arcs(hyp, pk, lam)
                sp_, cp_ = (sinh, cosh) if hyp else (sin, cos)
                sg = -1 if hyp else 1
                w = sp_(a_) * sp_(a_)
                a = S_ / (2 * w) * sg
                P.eq('orbital energy' + nm, dot(v0, v0) / 2 - MUL / RA, -MUL / (2 * a))
                dE = 2 * a_ - 2 * b_
                qm = M_ * 2 * sp_(a_) / sS                      # sqrt(mu/|a|)
                qa = S_ * sS / (4 * M_ * sp_(a_) * w)           # sqrt(|a|^3/mu)
                F, Gt = 1 - a / RA * (1 - cp_(dE)), 1 - a / RB * (1 - cp_(dE))
                Tm = curve_T(hyp, pk, lam, c['N'])
                tf = Tm * S_ * sS / (2 * M_)
                G = tf - qa * ((sp_(dE) - dE) if hyp else (dE + 2 * PI * c['N'] - sp_(dE)))
                Ft = -(qm * (a * sg)) / (RA * RB) * sp_(dE)
                for j in range(3):
                    P.eq('arrives at the second position in the time of flight, component %d%s' % (j, nm), self.r1[j], F * self.r0[j] + G * v0[j])
                    P.eq('arrives with the arrival velocity, component %d%s' % (j, nm), v1[j], Ft * self.r0[j] + Gt * v0[j])
            if 'C14' in self.what:
                x = cosh(pk) if hyp else cos(pk)
                y = sqrt(1 - lam * lam + lam * lam * x * x)
                gs = M_ * sS * (2 * U_ * V_ / C_)
                h = cross(self.r0, v0)
                e1, e2 = frame(True)
                e3 = cross(e1, e2)
                sg = -1 if self.cw else 1
                for j in range(3): P.eq('angular momentum points to the requested side of the z axis, component %d%s' % (j, nm), h[j], sg * gs * (y + lam * x) * e3[j])
                xx, ll, yy = var('xx'), var('ll'), var('yy')
                if k == 0:
                    keep, P.facts = P.facts, [('gt', yy, T.ZERO), ('lt', ll * ll, T.ONE), ('eq', yy * yy, 1 - ll * ll + ll * ll * xx * xx)]
                    P.holds('lemma: y + lambda x > 0', 'gt', yy + ll * xx, T.ZERO, 20000)
                    P.facts = keep
    def numok(self, env):
        z = [abs(env[v]) for v in (K_, U_, V_)]
        return min(z) > 0 and max(z) < 30 * min(z) and 0 < env[tof] < 1e9 and env[M_] > 0
    def draw(self, r):
        S = lambda: math.exp(r.uniform(-0.5, 0.5))
        L, m = r.choice((1, 1, 1e3, 1e-2)), r.choice((1, 1, 30, .01))
        env = {K_: L * S(), U_: L * S(), V_: L * S(), M_: m * S(), RAAN: r.uniform(0, 6.28), ARG: r.uniform(0, 6.28), INC: r.uniform(0, 1.5)}
        if r.random() < 0.3: env[INC] = math.pi / 2 - 10 ** r.uniform(-8, -1)
        s = env[K_]**2 + env[U_]**2 + env[V_]**2
        env[tof] = s ** 1.5 / (2 * env[M_]) * 10 ** r.uniform(-1, 1.4)
        return env
    @staticmethod
    def concrete_extra(case, replay, env, ins, outs, P): check_numeric(case, ins, outs, P)
def lam_call(lib, ins, cw, multi, cap=None):
    cap = cap or 2 * multi + 3
    v0, v1, x, it = darr([0] * 3 * cap), darr([0] * 3 * cap), darr([0] * cap), (ctypes.c_uint * cap)()
    n, nm, inn = (ctypes.c_size_t * 4)(), ctypes.c_uint(0), darr([0] * 8)
    rc = lib.kv_lambert(darr(ins[:3]), darr(ins[3:6]), ins[6], ins[7], int(cw), multi, cap, v0, v1, x, it, n, ctypes.byref(nm), inn)
    N = nm.value
    return rc, dict(N=N, n=list(n), v0=[list(v0[3 * k:3 * k + 3]) for k in range(min(n[0], cap))], v1=[list(v1[3 * k:3 * k + 3]) for k in range(min(n[1], cap))], x=list(x)[:min(n[2], cap)], it=list(it)[:min(n[3], cap)], inn=list(inn))
def make_replay(lib):
    P = ctypes.c_void_p
    lib.kv_lambert.argtypes = [P, P, D, D, ctypes.c_int, ctypes.c_uint, ctypes.c_size_t, P, P, P, P, P, P, P]
    def f(case, ins):
        if not hasattr(case, 'multi'): raise Skip()
        rc, o = lam_call(lib, ins, case.cw, case.multi)
        case.last = o
        return rc, []
    return f

def rev(pos, vel, tof, mu):
    en = dot(vel, vel) / 2 - mu / math.sqrt(dot(pos, pos))
    if en >= 0: return 0, None
    a = -mu / 2 / en
    x = tof / (2 * math.pi * math.sqrt(a ** 3 / mu))
    if not math.isfinite(x): return -1, None
    return math.floor(x), x
def tmin(lam, n):
    """smallest non-dimensional time of flight with n > 0 revolutions (golden section on the ghost p)"""
    def f(p_):
        q_ = math.asin(lam * math.sin(p_)); s_ = math.sin(p_)
        return (2 * p_ - 2 * q_ + 2 * math.pi * n - math.sin(2 * p_) + math.sin(2 * q_)) / (2 * s_ ** 3)
    a, b, g = 1e-3, math.pi - 1e-3, (math.sqrt(5) - 1) / 2
    for _ in range(120):
        c, d = b - g * (b - a), a + g * (b - a)
        if f(c) < f(d): b = d
        else: a = c
    return f((a + b) / 2)
def check_numeric(case, ins, outs, P):
    o, what, tol = case.last, case.what, case.tol
    N, cw = o['N'], case.cw
    ok = o['n'] == [2 * N + 1] * 4
    r0, r1, t, mu = ins[:3], ins[3:6], ins[6], ins[7]
    c = math.dist(r0, r1); s = (c + math.sqrt(dot(r0, r0)) + math.sqrt(dot(r1, r1))) / 2
    lam = math.sqrt(max(0, 1 - c / s)); up = cross(r0, r1)[2] > 0
    if up == bool(cw): lam = -lam
    Tn = math.sqrt(2 * mu / s ** 3) * t
    if 'C14' in what:
        P.check('2N+1 departure velocities, arrival velocities, x values and iteration counts', ok, o['n'])
        P.check('N does not exceed the requested number', 0 <= N <= case.multi, N)
        P.check('accessors return the inputs', o['inn'] == list(ins[:8]), o['inn'])
        for n in range(max(1, N), min(case.multi, N + 1) + 1):
            tm = tmin(lam, n)
            if n <= N: P.check('a solution with %d revolutions exists' % n, Tn > tm * (1 - 1e-5), (Tn, tm))
            else: P.check('no solution with %d revolutions exists' % n, Tn < tm * (1 + 1e-5), (Tn, tm))
    if not ok: return
    for k in range(2 * N + 1):
        n = (k + 1) // 2
        if n and Tn < tmin(lam, n) * (1 + 1e-3): continue          # nearly double root
        v0, v1 = o['v0'][k], o['v1'][k]
        if 'C14' in what:
            h = cross(r0, v0)
            P.check('solution %d moves in the requested direction' % k, h[2] < 0 if cw else h[2] > 0, h[2])
            if k and k % 2 == 0: P.check('the left solution is before the right one, %d revolutions' % n, o['x'][k - 1] < o['x'][k], (o['x'][k - 1], o['x'][k]))
            m_, fr = rev(r0, v0, t, mu)
            if fr is None or abs(fr - round(fr)) > 1e-6: P.check('solution %d makes %d revolutions' % (k, n), m_ == n, m_)
        if 'C13' in what:
            if not all(math.isfinite(z) for z in v0 + v1): P.check('solution %d is finite' % k, False, (v0, v1)); continue
            m_, fr = rev(r0, v0, t, mu)
            if fr is None or abs(fr - round(fr)) > 1e-6: P.check('solution %d makes %d revolutions' % (k, n), m_ == n, m_)
            want = kepler_oracle(list(r0) + v0, t, mu)
            e = max(math.dist(want[:3], r1) / math.sqrt(dot(r1, r1)), math.dist(want[3:], v1) / math.sqrt(dot(v1, v1)))
            if case.stat is not None: case.stat.append((e, lam, Tn, k, o['x'][k]))
            P.check('solution %d arrives' % k, e <= tol, (e, want, v1))

def instances(rng, n, rev=20):
    """wide regimes: unit systems, transfer angles close to 0 and 180 degrees, radius ratios, exact axes, short to long times, revolutions"""
    for _ in range(n):
        th = rng.choice((rng.uniform(0.05, math.pi - 0.05), 10 ** rng.uniform(-2.5, 0), math.pi - 10 ** rng.uniform(-2.5, 0)))
        ra, rb = 1.0, rng.choice((1.0, math.exp(rng.uniform(-1.5, 1.5)), math.exp(rng.uniform(-3, 3))))
        q = rng.random()
        if q < 0.2:
            r0, r1 = rng.choice((([1, 0, 0], [0, 1, 0]), ([0, 1, 0], [-1, 0, 0]), ([1, 0, 0], [0, -2, 0]), ([0, 3, 0], [1, 1, 0]), ([1, 1, 0], [-1, 2, 0]), ([2, 0, 1], [0, 1, 0])))
            r0, r1 = [float(x) for x in r0], [float(x) for x in r1]
        else:
            W, w, i = rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.choice((0.0, rng.uniform(0, 1.54), rng.uniform(0, 1.54), math.pi / 2 - 10 ** rng.uniform(-8, -1)))
            cW, sW, cw, sw, ci, si = math.cos(W), math.sin(W), math.cos(w), math.sin(w), math.cos(i), math.sin(i)
            e1 = [cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si]
            e2 = [-(cW * sw) - sW * cw * ci, cW * cw * ci - sW * sw, cw * si]
            if rng.random() < 0.5: e2 = [-x for x in e2]
            r0 = [ra * x for x in e1]; r1 = [rb * (math.cos(th) * x + math.sin(th) * y) for x, y in zip(e1, e2)]
        L, mu = rng.choice((1.0, 1.0, 1.5e11, 7e6, 1e-3)), rng.choice((1.0, 1.0, 1.327e20, 3.986e14, 1e-6))
        c = math.dist(r0, r1); s = (c + math.sqrt(dot(r0, r0)) + math.sqrt(dot(r1, r1))) / 2
        lam = math.sqrt(max(0, 1 - c / s)); cw_ = rng.random() < 0.5
        if (cross(r0, r1)[2] > 0) == cw_: lam = -lam
        T00 = math.acos(lam) + lam * math.sqrt(1 - lam * lam); T1 = 2 / 3 * (1 - lam ** 3)
        q = rng.random()
        if q < 0.25: Tn = T1 * math.exp(rng.uniform(-3, 0))
        elif q < 0.4: Tn = T1 * (1 + rng.choice((-1, 1)) * 10 ** rng.uniform(-9, -1))
        elif q < 0.55: Tn = T1 + (T00 - T1) * rng.random()
        elif q < 0.7: Tn = T00 * (1 + rng.choice((-1, 1)) * 10 ** rng.uniform(-9, -1))
        else: Tn = T00 + math.pi * rng.uniform(0, rng.choice((1, 3, rev)))
        yield [x * L for x in r0 + r1] + [Tn * math.sqrt((s * L) ** 3 / 2 / mu), mu], int(cw_), rng.choice((0, 0, 1, 2, 3, 5, rev, 40))
def lam_runtime(what, n0, tol=1e-6, stat=None):
    def runtime(lib, rng, tier):
        make_replay(lib)
        bad, tot, samples = [], 0, []
        for ins, cw, multi in instances(rng, n0 if tier == 'quick' else 20 * n0):
            c = Ctor(name='runtime', cw=cw, multi=multi, what=what, tol=tol, stat=stat)
            rc, c.last = lam_call(lib, ins, cw, multi)
            tot += 1
            from kvc.case import NumProver
            P = NumProver({}, 1e-6)
            P.check('accepted', rc == 0, rc)
            if rc == 0: check_numeric(c, ins, [], P)
            samples.append(ins + [cw, multi])
            if P.bad: bad.append(dict(case='Lambert over wide regimes', obligation='%s (runtime check)' % P.bad[0][0], status='confirmed', inputs=ins + [cw, multi], rc=rc, mismatch=P.bad[:5], outputs=c.last))
        return tot, bad, samples[:3]
    return runtime
