"""Modified equinoctial elements <-> Cartesian state."""
from .C02 import *
from .elements import eqstate as eqstate_
IR = ['drivers/prop.cpp', 'src/core_astro/ic2eq2ic.cpp']
ASSUME = ['every state with non-zero angular momentum off the singular inclination is the state of some modified equinoctial element set (classical)', 'assumed contract on cblas (dot, nrm2): exact', 'parabolic states (f^2 + g^2 exactly 1) are outside the contract']
q_, F_, G_, H_, K_, L_ = [var(k) for k in ('q', 'F', 'G', 'H', 'K', 'L')]
def eqstate(I):
    den = 1 + K_ * K_ + H_ * H_
    f = [(1 - K_ * K_ + H_ * H_) / den, 2 * K_ * H_ / den, -(2 * I * K_) / den]
    g = [2 * I * K_ * H_ / den, I * (1 + K_ * K_ - H_ * H_) / den, 2 * H_ / den]
    w = 1 + F_ * cos(L_) + G_ * sin(L_)
    r = q_ * q_ / w
    k = m_ / q_
    return [r * (cos(L_) * a + sin(L_) * b) for a, b in zip(f, g)] + [k * ((F_ + cos(L_)) * b - (G_ + sin(L_)) * a) for a, b in zip(f, g)]
def frame_lemmas(P, o, I):
    """what the elements mean, stated without the equinoctial frame"""
    r, v = o[:3], o[3:6]
    h, w = cross(r, v), 1 + F_ * cos(L_) + G_ * sin(L_)
    R, p, den = q_ * q_ / w, q_ * q_, 1 + K_ * K_ + H_ * H_
    n = m_ * q_
    P.eq('distance is p/(1 + f cos L + g sin L)', dot(r, r), R * R, sc=R * R)
    P.eq('angular momentum squared is mu p', dot(h, h), MUe * p, sc=MUe * p)
    P.eq('energy is -mu(1-f^2-g^2)/(2p)', dot(v, v) / 2 - MUe / R, -(MUe * (1 - F_ * F_ - G_ * G_)) / (2 * p), sc=MUe / R)
    P.eq('k is the x component of the pole over 1 + I z', h[0] / n, K_ * (1 + I * h[2] / n))
    P.eq('h is minus the y component of the pole over 1 + I z', -h[1] / n, H_ * (1 + I * h[2] / n))
    vh = cross(v, h)
    e = [a / MUe - b / R for a, b in zip(vh, r)]
    P.eq('eccentricity vector has length sqrt(f^2+g^2)', dot(e, e), F_ * F_ + G_ * G_)
    P.eq('eccentricity vector along the position', dot(e, r), p - R, sc=R)
class EqCase(Chain):
    def init(self):
        self.quad = {}
        self.I = -1 if self.retro else 1
        self.basis = [q_, m_, 1 + F_ * cos(L_) + G_ * sin(L_), 1 + K_ * K_ + H_ * H_]
        self.el = [q_ * q_, F_, G_, H_, K_, L_]
        self.st = eqstate(self.I)
        self.inputs = tuple((self.st if self.chain[0] == 'ic2eq' else self.el) + [MUe])
    def draw(self, r):
        e = r.choice([0.0, r.uniform(0, 0.99), 1 + 10 ** r.uniform(-1, .7)]) if self.chain[0] == 'eq2ic' and len(self.chain) == 1 else r.choice([r.uniform(0.0, .97), 1 + 10 ** r.uniform(-1, .7)])
        t = r.uniform(0, 2 * math.pi)
        fm = math.acos(-1 / e) * .93 if e > 1 else math.pi
        L = t + r.uniform(-fm, fm) + (r.choice([0, 2, -2]) * math.pi)
        k = r.uniform(0, 2 * math.pi)
        ti = r.choice([0.0, math.tan(r.uniform(0, 1.5)), r.uniform(0, 20), r.uniform(0, 1), 10 ** r.uniform(1, 3)])
        S = (lambda k: 10 ** r.uniform(-k, k)) if r.random() < .3 else (lambda k: 1.0)
        return {q_: S(6) * math.exp(r.uniform(-1, 1)), m_: S(8) * math.exp(r.uniform(-1, 1)), F_: e * math.cos(t), G_: e * math.sin(t), H_: ti * math.cos(k), K_: ti * math.sin(k), L_: L}
    def els(self, P, o, tag):
        for k, n in enumerate('pfghk'): P.eq(tag + 'element ' + n, o[k], self.el[k], sc=self.el[0] if k == 0 else None)
        P.angle(tag + 'true longitude', o[5], L_)
        P.holds(tag + 'true longitude at least -pi', 'ge', o[5], -PI); P.holds(tag + 'true longitude at most pi', 'le', o[5], PI)
    def post(self, o, P):
        for g in self.chain:
            if g == 'ic2eq': self.els(P, o, 'ic2eq: ')
            else:
                eqstate_(P, 'eq2ic: state component %d', o, self.st)
                frame_lemmas(P, o, self.I)
            o = o[6:]
def cases(tier):
    n = 200 if tier == 'quick' else 20000
    L = []
    for rt in (0, 1):
        nm = 'retrograde' if rt else 'direct'
        L += [EqCase(name='state -> elements -> state, ' + nm, chain=('ic2eq', 'eq2ic'), retro=rt, sweep_n=n),
              EqCase(name='elements -> state -> elements, ' + nm, chain=('eq2ic', 'ic2eq'), retro=rt, sweep_n=n)]
    return L
