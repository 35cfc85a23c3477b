"""Shared: ghost Keplerian elements and the Cartesian state they denote (the specification of par2ic)."""
from .common import *
s_, e_, i_, W_, w_, f_, m_ = [var(k) for k in ('s', 'e', 'i', 'W', 'w', 'f', 'm')]
MUe = m_ * m_
def sma(hyp): return -(s_ * s_) if hyp else s_ * s_
def state(hyp, f, i=None, W=None, w=None):
    """position and velocity of the orbit with semi-major axis +-s^2, eccentricity e, ... at true anomaly f"""
    i, W, w = i_ if i is None else i, W_ if W is None else W, w_ if w is None else w
    a = sma(hyp)
    d = sqrt((e_ - 1) * (e_ + 1)) if hyp else sqrt((1 - e_) * (1 + e_))
    r = a * (1 - e_ * e_) / (1 + e_ * cos(f))
    k = m_ / (s_ * d)
    P = [cos(W) * cos(w) - sin(W) * sin(w) * cos(i), sin(W) * cos(w) + cos(W) * sin(w) * cos(i), sin(w) * sin(i)]
    Q = [-(cos(W) * sin(w)) - sin(W) * cos(w) * cos(i), cos(W) * cos(w) * cos(i) - sin(W) * sin(w), cos(w) * sin(i)]
    return [r * (cos(f) * p + sin(f) * q) for p, q in zip(P, Q)] + [k * ((e_ + cos(f)) * q - sin(f) * p) for p, q in zip(P, Q)]
def draw_el(r, hyp, retro=True):
    e = 1 + 10 ** r.uniform(-1, 0.7) if hyp else r.uniform(0.02, 0.95)
    fm = math.acos(-1 / e) * 0.93 if hyp else math.pi
    wide = r.random() < .3
    S = (lambda k: 10 ** r.uniform(-k, k)) if wide else (lambda k: 1.0)
    return {s_: S(6) * math.exp(r.uniform(-0.5, 0.7)), e_: e, i_: r.uniform(0.05, math.pi - 0.05), W_: r.uniform(0, 2 * math.pi), w_: r.uniform(0, 2 * math.pi),
            f_: r.uniform(-fm, fm), m_: S(8) * math.exp(r.uniform(-0.5, 0.5))}

def norm3(v): return sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
def eqstate(P, name, o, st):
    """o[0:6] equals the state st (numerically: relative to the length of the vector)"""
    nr, nv = norm3(st[:3]), norm3(st[3:])
    for k in range(6): P.eq(name % k, o[k], st[k], sc=nr if k < 3 else nv)
