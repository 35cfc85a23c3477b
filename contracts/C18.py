"""Sims-Flanagan mismatch gradients: derivatives of the mismatch (C17) with respect to both end states, throttles and time of flight."""
from .sf import *

from kvc.pit import Unsup
LEVEL = 'other'
EXPLAIN = 'symbolic in every argument for each number of segments 1..4 (bound) and each forward/backward split: every entry of the three Jacobians is compared with the derivative of the mismatch specification of C17; more segments at run time by central differences'
ASSUME = ['propagate_lagrangian represented by its contract: d(state) = stm d(rv) + (v, -mu r/|r|^3) dt and time reversal symmetry (C08, C10); otherwise arbitrary', 'number of segments bounded by 4 in the symbolic part', 'throttles are not zero (the norm is not differentiable there)']
class G(Leg):
    uf_rule = staticmethod(flow_rule)
    def init(self):
        super().init()
        n = self.n
        self.defs = {TOF: n * TAU}
        U = [norm(self.u[3 * k:3 * k + 3]) for k in range(n)]
        self.masses = []
        self.spec = mismatch(A, self.u, self.nf, self.masses, U)
        self.basis = U + [TH, TAU] + self.masses
    def allfacts(self): return [('gt', x, T.ZERO) for x in [TH, TOF, TAU, MS, MF]] + list(self.facts_)
    def entry(self, E):
        b = self.new(E)
        gs, gf, g, n = E.put_doubles([0] * 49), E.put_doubles([0] * 49), E.put_doubles([0] * 7 * (3 * self.n + 1)), E.alloc(8)
        E.call('kv_sf_grad', b, gs, gf, g, 7 * (3 * self.n + 1), n)
        self.len = E.load_i(n, 8)
        return E.doubles(gs, 49) + E.doubles(gf, 49) + E.doubles(g, 7 * (3 * self.n + 1))
    def post(self, o, P):
        n, spec = self.n, self.spec
        P.check('length of the throttle and time gradient', self.len == 7 * (3 * n + 1), '%s' % self.len)
        w = 3 * n + 1
        cols = [('initial %s' % NAMES[k], NAMES[k], 1, lambda i, k=k: o[7 * i + k]) for k in range(7)]
        cols += [('final %s' % NAMES[7 + k], NAMES[7 + k], 1, lambda i, k=k: o[49 + 7 * i + k]) for k in range(7)]
        cols += [('throttle %d' % k, self.u[k].val, 1, lambda i, k=k: o[98 + w * i + k]) for k in range(3 * n)]
        cols += [('time of flight', TAU.val, n, lambda i: o[98 + w * i + 3 * n])]
        memo, keep = {}, []
        sp = P.o.space()
        def residual(s, name, v, mul, i, b):
            k = (id(s), name)
            if k not in memo:
                base = [s.ev(x)[0] for x in spec]
                t = sp.twin(s, {v: 1})
                d = [t.ev(x) for x in spec]
                if any(x[0] != y for x, y in zip(d, base)): raise Unsup('twin sample')
                memo[k] = [x[1] for x in d]; keep.append(s)
            return (memo[k][i] - mul * s.ev(b)[0]) % s.p
        for name, v, mul, e in cols:
            for i in range(7):
                b = T.lift(e(i))
                P._t('d mismatch[%d] / d %s' % (i, name), 'deriv', b, T.ZERO, lambda: not any(list(sp.each(spec + [b], lambda s: residual(s, name, v, mul, i, b)))), 'pit')
def cases(tier): return [G(name='%d segments, %d forward' % (n, nf), n=n, nf=nf, weight=n) for n, nf in splits(4)]
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    for it in range(60 if tier == 'quick' else 1500):
        a, u = draw_leg(rng, 12, zero=0)
        u = [x if abs(x) > 1e-3 else x + 0.1 for x in u]
        n, nf = len(u) // 3, nf_of(a, u)
        ob = Obj(lib, a, u)
        rc, gs, gf, g = ob.grad() if ob.rc == 0 else (ob.rc, 0, 0, 0)
        tot += 1
        err = ('return code', rc) if rc else ('length', len(g)) if len(g) != 7 * (3 * n + 1) else None
        L, V, M = math.sqrt(dot(a[:3], a[:3])), math.sqrt(dot(a[3:6], a[3:6])), a[6]
        osc = [L] * 3 + [V] * 3 + [M]
        cols = [(k, osc[k], lambda i, k=k: gs[7 * i + k]) for k in range(7)] + [(7 + k, osc[k], lambda i, k=k: gf[7 * i + k]) for k in range(7)]
        cols += [(('u', k), 1.0, lambda i, k=k: g[(3 * n + 1) * i + k]) for k in range(3 * n)] + [(14, a[14], lambda i: g[(3 * n + 1) * i + 3 * n])]
        rng.shuffle(cols)
        for key, sc, e in cols[:10]:
            if err: break
            fs = []
            h = 1e-3
            for m in (-2, -1, 1, 2):
                b, w = list(a), list(u)
                if isinstance(key, tuple): w[key[1]] += m * h
                else: b[key] += m * h * sc
                fs.append(Obj(lib, b, w).mc()[1])
            for i in range(7):
                d = (fs[0][i] - 8 * fs[1][i] + 8 * fs[2][i] - fs[3][i]) / (12 * h)
                got = e(i) * sc
                d2 = (fs[2][i] - fs[1][i]) / (2 * h)
                if not abs(got - d) <= 1e-5 * (abs(d) + osc[i] * 1e-1) + 2 * abs(d - d2): err = ('d mismatch[%d] / d %s' % (i, key), got / sc, d / sc); break
        if err: bad.append(dict(case='gradient vs differences', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=a + u, mismatch=err))
        if len(samples) < 3: samples.append(a + u)
    return tot, bad[:5], samples
