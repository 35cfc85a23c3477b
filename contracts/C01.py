"""Keplerian elements <-> Cartesian state."""
from .twobody import close
from .elements import *
import itertools
IR = ['drivers/prop.cpp', 'src/core_astro/ic2par2ic.cpp']
SRC = ['drivers/prop.cpp'] + ['src/core_astro/%s.cpp' % k for k in ('propagate_lagrangian', 'stm', 'ic2par2ic', 'ic2eq2ic', 'eq2par2eq')] + ['src/linalg.cpp']
REPLAY = dict(srcs=SRC, libs=['-lfmt', '-lopenblas', '-llapack'])
ASSUME = ['every non-degenerate Cartesian state is the state of some element set (surjectivity of the parametrisation, classical)', 'assumed contract on cblas (dot, nrm2): exact']
P_, I_ = ctypes.c_void_p, ctypes.c_int
def setargs(lib):
    for n in ('kv_ic2par', 'kv_par2ic'): getattr(lib, n).argtypes = [P_, D, P_]
    for n in ('kv_ic2eq', 'kv_eq2ic'): getattr(lib, n).argtypes = [P_, D, I_, P_]
    for n in ('kv_eq2par', 'kv_par2eq'): getattr(lib, n).argtypes = [P_, I_, P_]
ARGS = dict(ic2par=lambda x, mu, rt: (x, mu), par2ic=lambda x, mu, rt: (x, mu), ic2eq=lambda x, mu, rt: (x, mu, rt), eq2ic=lambda x, mu, rt: (x, mu, rt), eq2par=lambda x, mu, rt: (x, rt), par2eq=lambda x, mu, rt: (x, rt))
def make_replay(lib):
    setargs(lib)
    def f(case, ins):
        cur, out = darr(ins[:6]), []
        for g in case.chain:
            o = darr([0] * 6)
            rc = getattr(lib, 'kv_' + g)(*ARGS[g](cur, ins[6], case.retro), o)
            if rc: return rc, []
            out += list(o); cur = o
        return 0, out
    return f
class Chain(Case):
    """a sequence of conversions; outputs of every stage are returned"""
    retro = 0
    hyp = False
    sweep_n = 100
    tol = 1e-6
    def entry(self, E):
        cur = E.put_doubles(self.inputs[:6])
        out = []
        for g in self.chain:
            o = E.put_doubles([0] * 6)
            E.call('kv_' + g, *ARGS[g](cur, self.inputs[6], self.retro), o)
            out += E.doubles(o, 6)
            cur = o
        return out
    def draw(self, r):
        env = draw_el(r, self.hyp)
        for v, k in self.quad.items():
            if k in (0, 2): env[v] = 0.0; continue
            hi = math.acos(-1 / env[e_]) * 0.93 if self.hyp and v is f_ else math.pi
            x = r.uniform(0.01, hi - 0.01)
            env[v] = x if k > 0 else (2 * math.pi - x if v is not f_ else -x)
        return env
def ang(k, v):
    """quadrant choice -> the angle term and the positive quantity"""
    if k == 0: return T.ZERO, []
    if k == 2: return PI, []
    return v, [sin(v) if k > 0 else -sin(v)]
def setup(c, hyp, kW, kw, kf):
    c.hyp = hyp
    W, bW = ang(kW, W_); w, bw = ang(kw, w_); f, bf = ang(kf, f_)
    c.el = [sma(hyp), e_, i_, W, w, f]
    c.st = state(hyp, f, i_, W, w)
    c.quad = {W_: kW, w_: kw, f_: kf}
    c.basis = [s_, m_, e_, sqrt(e_ - 1) if hyp else sqrt(1 - e_), sqrt(1 + e_), sin(i_)] + bW + bw + bf + ([1 + e_ * cos(f)] if bf else [])
def post_el(P, o, el, tag=''):
    P.eq(tag + 'semi-major axis', o[0], el[0], sc=el[0]); P.eq(tag + 'eccentricity', o[1], el[1])
    P.angle(tag + 'inclination', o[2], el[2])
    for k, n in ((3, 'node'), (4, 'pericentre argument'), (5, 'true anomaly')): P.angle(tag + n, o[k], el[k])
def post_range(P, o, tag=''):
    P.holds(tag + 'inclination at least 0', 'ge', o[2], T.ZERO); P.holds(tag + 'inclination at most pi', 'le', o[2], PI)
    for k, n in ((3, 'node'), (4, 'pericentre argument'), (5, 'true anomaly')):
        P.holds(tag + n + ' at least 0', 'ge', o[k], T.ZERO); P.holds(tag + n + ' at most 2 pi', 'le', o[k], 2 * PI)
class A(Chain):
    chain = ('ic2par', 'par2ic')
    def init(self): setup(self, self.hyp_, *self.q); self.inputs = tuple(self.st + [MUe])
    def post(self, o, P):
        post_el(P, o, self.el); post_range(P, o)
        eqstate(P, 'back to Cartesian, component %d', o[6:], self.st)
class B(Chain):
    chain = ('par2ic', 'ic2par')
    def init(self): setup(self, self.hyp_, *self.q); self.inputs = tuple(self.el + [MUe])
    def post(self, o, P):
        post_el(P, o[6:], self.el, 'round trip: ')
def combos(tier):
    qs = list(itertools.product((1, -1), repeat=3))
    for k in range(3):
        for v in (0, 2):
            for o in ((1, 1), (-1, -1)):
                q = list(o); q.insert(k, v); qs.append(tuple(q))
    if tier != 'quick': qs = list(itertools.product((1, -1, 0, 2), repeat=3))
    return qs
def qn(hyp, q): return '%s, W %s, w %s, f %s' % ((('hyperbolic' if hyp else 'elliptic'),) + tuple({1: 'in (0,pi)', -1: 'in (pi,2pi)', 0: '= 0', 2: '= pi'}[k] for k in q))
def cases(tier):
    L = []
    for hyp in (False, True):
        for q in combos(tier):
            if hyp and q[2] == 2: continue
            for cl, n in ((A, 'state'), (B, 'elements')):
                L.append(cl(name='%s: %s' % (n, qn(hyp, q)), hyp_=hyp, q=q, sweep_n=40 if tier == 'quick' else 500))
    return L
