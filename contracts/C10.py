from .twobody import *
from . import C08
from .C08 import SRC, REPLAY
IR = ['drivers/prop.cpp', 'src/core_astro/propagate_lagrangian.cpp', 'src/core_astro/stm.cpp', 'src/linalg.cpp']
def fd(case, replay, env, ins, outs, P):
    """finite differences of the reference flow against the returned matrix (bounded)"""
    if len(outs) < 42: P.bad.append(('matrix missing', 0, 0)); return
    sc = 0
    import mpmath
    P.check('state equals the reference two-body state', close(outs[:6], kepler_oracle(ins[:6], ins[6], ins[7]), 1e-6), '')
    M = outs[6:]
    big = max(map(abs, M)) + 1
    for j in range(6):
        h = 1e-6
        up, dn = list(ins[:6]), list(ins[:6])
        up[j] += h; dn[j] -= h
        a, b = kepler_oracle(up, ins[6], ins[7]), kepler_oracle(dn, ins[6], ins[7])
        for i in range(6):
            d = (a[i] - b[i]) / (2 * h)
            if not abs(d - M[6 * i + j]) < 1e-4 * big: P.bad.append(('entry (%d,%d)' % (i, j), M[6 * i + j], d))
class S:
    want = 1; sweep_n = 12; concrete_extra = staticmethod(fd); tofrange = 6.0
class Ell(S, C08.Ell): name = 'elliptic'
class Hy(S, C08.Hy): name = 'hyperbolic'
def cases(tier):
    return [Ell(), Hy()]
runtime = stm_runtime('kv_lag', 150)
