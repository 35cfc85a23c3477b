"""Sims-Flanagan throttle constraints and their gradient."""
from .sf import *
LEVEL = 'other'
EXPLAIN = 'symbolic in every argument for each number of segments 1..8 (bound); more segments at run time'
ASSUME = ['number of segments bounded by 8 in the symbolic part']
class TC(Leg):
    def init(self):
        n = self.n
        self.u = thr(n)
        self.basis = []
        self.facts_ = [('ge', x, T.ZERO) for x in (TOF, TH, ISP, MU, CUT)] + [('le', CUT, T.ONE)]
        self.inputs = tuple(A + self.u)
    def allfacts(self): return list(self.facts_)
    def entry(self, E):
        b, n = self.new(E), self.n
        before = list(E.mem.items())
        o, g, no, ng = E.put_doubles([0] * n), E.put_doubles([0] * 3 * n * n), E.alloc(8), E.alloc(8)
        E.call('kv_sf_tc', b, o, n, no)
        E.call('kv_sf_tcg', b, g, 3 * n * n, ng)
        self.len = E.load_i(no, 8), E.load_i(ng, 8)
        return E.doubles(o, n) + E.doubles(g, 3 * n * n)
    def post(self, o, P):
        n, u = self.n, self.u
        P.check('one constraint per segment', self.len[0] == n, '%s' % (self.len,))
        P.check('gradient has nseg rows and 3 nseg columns', self.len[1] == 3 * n * n, '%s' % (self.len,))
        for k in range(n):
            spec = dot(u[3 * k:3 * k + 3], u[3 * k:3 * k + 3]) - 1
            P.eq('constraint %d' % k, o[k], spec)
            for j in range(3 * n):
                P.eq('gradient (%d,%d)' % (k, j), o[n + 3 * n * k + j], 2 * u[j] if j // 3 == k else T.ZERO)
                if n <= 2: P.deriv('gradient (%d,%d) is the derivative of the returned constraint' % (k, j), o[k], o[n + 3 * n * k + j], {u[j].val: 1})
def cases(tier): return [TC(name='%d segments' % n, n=n) for n in range(1, 9)]
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    for it in range(150 if tier == 'quick' else 3000):
        a, u = draw_leg(rng, rng.choice((5, 40, 130)))
        n = len(u) // 3
        ob = Obj(lib, a, u)
        if rng.random() < 0.3 and not ob.rc:              # through a setter
            _, u2 = draw_leg(rng, 40)
            if ob.set(3, (), u2) == 0: u = u2; n = len(u) // 3
        tot += 1
        rc, c = ob.vec('kv_sf_tc'); rg, g = ob.vec('kv_sf_tcg')
        err = None
        if ob.rc or rc or rg or len(c) != n or len(g) != 3 * n * n: err = ('return codes / lengths', ob.rc, rc, rg, len(c), len(g))
        for k in range(n):
            if err: break
            w = sum(x * x for x in u[3 * k:3 * k + 3]) - 1
            if not abs(c[k] - w) <= 1e-14: err = ('constraint %d' % k, c[k], w)
            for j in range(3 * n):
                w = 2 * u[j] if j // 3 == k else 0.0
                if not abs(g[3 * n * k + j] - w) <= 1e-15: err = ('gradient (%d,%d)' % (k, j), g[3 * n * k + j], w)
        if err: bad.append(dict(case='throttle constraints', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=a + u, mismatch=err))
        if len(samples) < 3: samples.append(u)
    return tot, bad[:5], samples
