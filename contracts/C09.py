"""Universal-variable and element-based propagators."""
from .twobody import *
from . import C08, elements as EL
from .elements import s_, e_, i_, W_, w_, f_, m_, MUe
from .C08 import SRC, REPLAY
IR = ['drivers/prop.cpp', 'src/core_astro/propagate_lagrangian.cpp', 'src/core_astro/ic2par2ic.cpp']
ASSUME = ['assumed contract on boost::math::tools::newton_raphson_iterate: if the iteration limit is not reached the returned x is a root inside the bracket',
          'propagate_keplerian is verified against the contract of ic2par (proved under C01), not its body']
def Z(x): return T.lift(x)
# ---------------------------------------------------------------- universal variables
class Uni(Prop):
    fun = 'kv_uni'
    sg = 1
    tofrange = 100.0
    def sign_hint(self, d):
        if d is tof: return {self.sg}
        if d is -tof: return {-self.sg}
    def init(self):
        SA, rf = (SA_H, rf_hyp) if self.hyp else (SA_E, rf_ell)
        self.SA = SA
        self.A = T.lift(self.sg) * r0 / SA             # signed anomaly difference
        rad = rf(self.A, SA)
        self.basis = [R0, m, SA, r0, rad]
        a = -(SA * SA) if self.hyp else SA * SA
        s_, c_ = (sinh(self.A), cosh(self.A)) if self.hyp else (sin(self.A), cos(self.A))
        F = 1 - a / R0 * (1 - c_); G = a * SIG / m * (1 - c_) + R0 * SA / m * s_
        Ft = -(m * SA) / (rad * R0) * s_; Gt = 1 - a / rad * (1 - c_)
        self.spec = [F * x + G * y for x, y in zip(R_, V_)] + [Ft * x + Gt * y for x, y in zip(R_, V_)]
        k = SA * SA * SA / m
        self.spec_t = k * (SIG / SA * (c_ - 1) + (1 - R0 / a) * s_ - self.A) if self.hyp else k * (self.A + SIG / SA * (1 - c_) - (1 - R0 / a) * s_)
    def post(self, o, P):
        P.check('no matrix is returned', len(o) == 6)
        if o[0].op == 'var' and str(o[0].val).startswith('out!'): return
        tt = self.inputs[6]
        for k in range(6): P.eq('state component %d equals the two-body state at the anomaly difference' % k, o[k], self.spec[k])
        P.eq('time of flight belonging to the anomaly difference', P.o.defs[tof], self.spec_t)
        # lemma: the specified state is the two-body flow
        z = var('z')
        def sub(ts): return T.substitute(list(ts), {r0: z * self.SA * T.lift(self.sg)})
        sp, (t_,) = sub(self.spec), sub([self.spec_t])
        rn = sqrt(dot(sp[:3], sp[:3]))
        for k in range(3):
            P.custom('lemma: d r%d/dt = v%d' % (k, k), [sp[k], sp[3 + k], t_], lambda s, k=k: (s.ev(sp[k])[1] - s.ev(sp[3 + k])[0] * s.ev(t_)[1]) % s.p, {'z': 1})
        at0 = T.substitute(sp + [t_], {z: T.ZERO})
        for k in range(6): P.eq('lemma: initial condition %d' % k, at0[k], self.inputs[k])
        P.eq('lemma: zero time at zero anomaly', at0[6], 0)
    def draw(self, r):
        env = draw_state(r, self.hyp)
        env[tof] = self.sg * r.uniform(0.001, self.tofrange if not self.hyp else 30.)
        env[r0] = r.uniform(0.01, 8)
        return env
class Zero(Uni):
    """dt = 0: the universal anomaly 0 is the root and the state is unchanged"""
    root_solve = None
    inputs = tuple(R_ + V_ + [T.ZERO, MU])
    def init(self):
        SA = SA_H if self.hyp else SA_E
        self.basis = [R0, m, SA]
    def root_var(self, E, n): return T.ZERO
    def root_f(self, E, o, r): self.f0 = r['f']
    def post(self, o, P):
        if o[0].op == 'var' and str(o[0].val).startswith('out!'): 
            for k in range(6): P.eq('component %d' % k, o[k], self.inputs[k])
            return
        P.eq('zero anomaly solves the equation', self.f0, 0)
        for k in range(6): P.eq('identity, component %d' % k, o[k], self.inputs[k])
    def draw(self, r): return draw_state(r, self.hyp)
    concrete_extra = None
# ---------------------------------------------------------------- element based
half = lambda t: t * const(T.Fraction(1, 2))
class Kep(Case):
    fun = 'kv_kep'; want = 0
    root_solve = 'tof'
    hyp = False
    tol = 1e-6
    sweep_n = 60
    def init(self):
        x = r0
        self.inputs = tuple(EL.state(self.hyp, f_) + [tof, MUe])
        if self.hyp:
            self.basis = [e_, e_ - 1, e_ + 1, s_, m_, cosh(half(x)), e_ * cosh(x) - 1, 1 + e_ * cos(f_), cos(half(f_))]
        else: self.basis = [e_, 1 - e_, 1 + e_, s_, m_, 1 - e_ * cos(x), cos(half(x)), cos(half(f_)), 1 + e_ * cos(f_)]
        def ic2par(E, ret, rv, mu):
            ok = all(a is b for a, b in zip(E.doubles(rv, 6), self.inputs[:6])) and mu is self.inputs[6 + 1]
            self.pre = ok
            for k, v in enumerate((EL.sma(self.hyp), e_, i_, W_, w_, f_)): E.store_d(ret + 8 * k, v)
        self.overrides = [(r'kep3::ic2par\(', ic2par)]
    def entry(self, E):
        rv, o, st, has = E.put_doubles(self.inputs[:6]), E.put_doubles([0] * 6), E.put_doubles([0] * 36), E.alloc(4)
        E.call(self.fun, rv, self.inputs[6], self.inputs[7], 0, o, st, has)
        self.has = E.load_i(has, 4)
        return E.doubles(o, 6)
    def post(self, o, P):
        if o[0].op == 'var' and str(o[0].val).startswith('out!'): return
        P.check('no matrix is returned', not self.has)
        P.check('ic2par is called with the initial state and mu', self.pre)
        tt = tof
        rn = sqrt(dot(o[:3], o[:3]))
        for k in range(3):
            P.custom('flow: d r%d/dt = v%d' % (k, k), [o[k], o[3 + k], tt], lambda s, k=k: (s.ev(o[k])[1] - s.ev(o[3 + k])[0] * s.ev(tt)[1]) % s.p, {'root!0': 1})
        F = 2 * atan(sqrt((e_ + 1) / (e_ - 1)) * tanh(half(r0))) if self.hyp else 2 * atan(sqrt((1 + e_) / (1 - e_)) * tan(half(r0)))
        sp = EL.state(self.hyp, F)
        for k in range(6): P.eq('state component %d is the orbit state at the propagated anomaly' % k, o[k], sp[k])
        # at the anomaly of the initial state the elapsed time is zero (modulo the period)
        td = P.o.defs[tof]
        E0 = 2 * (T.atanh(sqrt((e_ - 1) / (e_ + 1)) * T.tan(half(f_)))) if self.hyp else 2 * atan(sqrt((1 - e_) / (1 + e_)) * tan(half(f_)))
        mean = lambda x: e_ * sinh(x) - x if self.hyp else x - e_ * sin(x)
        n = m_ / (s_ * s_ * s_)
        if self.hyp: P.expeq('elapsed time from the mean anomaly difference', td * n, mean(r0) - mean(E0))
        else: P.angle('elapsed time from the mean anomaly difference', td * n, mean(r0) - mean(E0))
    def draw(self, r):
        env = EL.draw_el(r, self.hyp, False); env[tof] = r.uniform(-20, 20) * env[s_] ** 3 / env[m_]; env[r0] = r.uniform(-3, 3)
        return env
    concrete_extra = staticmethod(Prop.concrete_extra)
def cases(tier):
    L = []
    for hyp in (False, True):
        n = 'hyperbolic' if hyp else 'elliptic'
        L += [Uni(name='universal, %s, forward' % n, hyp=hyp), Uni(name='universal, %s, backward' % n, hyp=hyp, sg=-1), Zero(name='universal, %s, zero time' % n, hyp=hyp), Kep(name='keplerian, %s' % n, hyp=hyp)]
    return L
runtime = prop_runtime(("kv_uni", "kv_kep"), 500)
