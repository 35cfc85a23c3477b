"""Keplerian <-> modified equinoctial elements, and both against the Cartesian state."""
from .C02 import *
from .C01 import post_el
IR = ['drivers/prop.cpp', 'src/core_astro/ic2par2ic.cpp', 'src/core_astro/ic2eq2ic.cpp', 'src/core_astro/eq2par2eq.cpp']
ASSUME = ['assumed contract on BLAS gemv/gemm (matrix product): exact', 'parabolic, circular and equatorial element sets (where the Keplerian angles are undefined) are outside the contract']
class KE(Chain):
    def init(self):
        self.quad = {}
        I = -1 if self.retro else 1
        self.basis = [s_, m_, e_, sqrt(e_ - 1) if self.hyp else sqrt(1 - e_), sqrt(1 + e_), 1 + e_ * cos(f_), sin(i_ / 2), cos(i_ / 2)]
        a = sma(self.hyp)
        self.el = [a, e_, i_, W_, w_, f_]
        t = sin(i_ / 2) / cos(i_ / 2) if I == 1 else cos(i_ / 2) / sin(i_ / 2)
        z = w_ + I * W_
        self.eq = [a * (1 - e_ * e_), e_ * cos(z), e_ * sin(z), t * cos(W_), t * sin(W_), f_ + z]
        self.st = state(self.hyp, f_)
        self.inputs = tuple((self.eq if self.chain[0] == 'eq2par' else self.el) + [MUe])
    def draw(self, r):
        env = draw_el(r, self.hyp)
        if r.random() < .1: env[W_] = r.choice([0.0, math.pi / 2, math.pi])
        if r.random() < .1: env[w_] = r.choice([0.0, math.pi / 2, math.pi])
        if not self.hyp: env[f_] += r.choice([0, 0, 2, -2]) * math.pi
        return env
    def post(self, o, P):
        for g in self.chain:
            if g == 'par2eq':
                for k, n in enumerate('pfghkL'): (P.angle('par2eq: element L', o[k], self.eq[k]) if k == 5 else P.eq('par2eq: element ' + n, o[k], self.eq[k], sc=self.eq[0] if k == 0 else None))
            elif g == 'eq2par':
                post_el(P, o, self.el, 'eq2par: ')
                P.holds('eq2par: inclination at least 0', 'ge', o[2], T.ZERO); P.holds('eq2par: inclination at most pi', 'le', o[2], PI)
                for k, n in ((3, 'node'), (4, 'pericentre argument')):
                    P.holds('eq2par: %s at least 0' % n, 'ge', o[k], T.ZERO); P.holds('eq2par: %s at most 2 pi' % n, 'le', o[k], 2 * PI)
            else:
                eqstate(P, g + ': same Cartesian state, component %d', o, self.st)
            o = o[6:]
def cases(tier):
    n = 200 if tier == 'quick' else 20000
    L = []
    for hyp in (False, True):
        for rt in (0, 1):
            for ch in (('par2eq', 'eq2par'), ('par2eq', 'eq2ic'), ('eq2par', 'par2ic'), ('eq2par', 'par2eq')):
                L.append(KE(name='%s, %s, %s' % (' -> '.join(ch), 'hyperbolic' if hyp else 'elliptic', 'retrograde' if rt else 'direct'), chain=ch, retro=rt, hyp=hyp, sweep_n=n))
    return L
