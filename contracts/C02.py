"""par2ic returns the state of the orbit the elements describe, and rejects exactly the impossible element sets."""
from .C01 import *
ASSUME = ['assumed contract on BLAS gemv/gemm (matrix product): exact', 'parabolic element sets (e exactly 1) are outside the contract']
DERR = '_ZTISt12domain_error'
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def orbit(P, o, mu, a, e, i, W, w, f):
    """o: position, velocity"""
    r, v = o[:3], o[3:6]
    p = a * (1 - e * e)
    R = p / (1 + e * cos(f))
    P.eq('distance is p/(1+e cos f)', dot(r, r), R * R, sc=R * R)
    P.eq('specific energy is -mu/(2a)', dot(v, v) / 2 - mu / R, -mu / (2 * a), sc=mu / R)
    h, H = cross(r, v), sqrt(mu * p)
    pole = [sin(W) * sin(i), -(cos(W) * sin(i)), cos(i)]
    for k in range(3): P.eq('angular momentum is sqrt(mu p) along the pole, component %d' % k, h[k], H * pole[k], sc=H)
    vh = cross(v, h)
    peri = [cos(W) * cos(w) - sin(W) * sin(w) * cos(i), sin(W) * cos(w) + cos(W) * sin(w) * cos(i), sin(w) * sin(i)]
    for k in range(3): P.eq('eccentricity vector points to the pericentre with length e, component %d' % k, vh[k] / mu - r[k] / R, e * peri[k])
    P.eq('radial velocity', dot(r, v), sqrt(mu * p) * e * sin(f) / (1 + e * cos(f)), sc=H)
class Valid(Chain):
    chain = ('par2ic',)
    def init(self):
        self.quad = {}
        self.basis = [s_, m_, e_, sqrt(e_ - 1) if self.hyp else sqrt(1 - e_), sqrt(1 + e_), 1 + e_ * cos(f_)]
        self.el = [sma(self.hyp), e_, i_, W_, w_, f_]; self.st = state(self.hyp, f_)
        self.inputs = tuple(self.el + [MUe])
    def draw(self, r):
        env = draw_el(r, self.hyp)
        if r.random() < .3: env[i_] = r.choice([0.0, math.pi / 2, math.pi])
        if r.random() < .3: env[f_] = r.choice([0.0, 0.5, -0.5])
        if r.random() < .3 and not self.hyp: env[e_] = 0.0 if r.random() < .5 else 1 - 10 ** r.uniform(-6, -1)
        for v in (W_, w_, f_): env[v] += r.choice([0, 0, 2, -4, 20]) * math.pi
        return env
    def post(self, o, P):
        eqstate(P, 'state, component %d', o, self.st)
        orbit(P, o, MUe, *self.el)
class Reject(Valid):
    """ghost: a and e of incompatible sign"""
    expect = DERR
    def init(self):
        self.quad = {}
        e = 1 + e_ if self.hyp else 1 - e_
        self.basis = [s_, m_, e_] + ([] if self.hyp else [1 - e_])
        self.inputs = (s_ * s_ if self.hyp else -(s_ * s_), e, i_, W_, w_, f_, MUe)
    def draw(self, r):
        env = draw_el(r, False)
        env[e_] = 10 ** r.uniform(-7, 1) if self.hyp else 1 - 10 ** r.uniform(-6, -.01)
        if not self.hyp and r.random() < .5: env[e_] = 1 - env[e_]
        return env
class Asymptote(Valid):
    """hyperbola beyond the asymptote: 1 + e cos f < 0"""
    expect = DERR
    hyp = True
    def init(self):
        self.quad = {}
        self.basis = [s_, m_, e_, e_ - 1, 1 + e_, -(1 + e_ * cos(f_))]
        self.inputs = (-(s_ * s_), e_, i_, W_, w_, f_, MUe)
    def draw(self, r):
        env = draw_el(r, True)
        fm = math.acos(-1 / env[e_])
        env[f_] = r.choice([1, -1]) * (fm + (math.pi - fm) * r.uniform(1e-6, 1)) + r.choice([0, 0, 2, -2]) * math.pi
        return env
def cases(tier):
    n = 300 if tier == 'quick' else 20000
    return [Valid(name='elliptic elements', hyp=False, sweep_n=n), Valid(name='hyperbolic elements', hyp=True, sweep_n=n), Asymptote(name='beyond the asymptote', sweep_n=n),
            Reject(name='a < 0 with e < 1', hyp=False, sweep_n=n), Reject(name='a > 0 with e > 1', hyp=True, sweep_n=n)]
