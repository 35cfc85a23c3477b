"""High-fidelity leg: gradients of the mismatch and of the throttle constraints, state derivative, state history."""
from . import sf
from .hf import *
from kvc.pit import Unsup
LEVEL = 'other'
EXPLAIN = 'symbolic in every argument for each number of segments 1..3 (bound) and each forward/backward split: every entry of the Jacobians is compared with the derivative of the mismatch specification; the state history for up to 4 points per segment; longer legs at run time by central differences'
ASSUME = ['heyoka (not installed) replaced by a stand-in: the variational integrator returns the derivatives of the flow with respect to state and thrust (C27); the derivative of the flow with respect to time is its right-hand side, carried along by the flow', 'number of segments bounded by 3 in the symbolic part', 'throttles are not zero (the norm is not differentiable there)']
def rhs(sm, x, mu, veff, u):
    p = sm.p
    R2 = sum(k * k for k in x[:3]) % p
    R = sm.sqrt((R2, 0))[0]
    i3, im = sm.inv(R2 * R % p), sm.inv(x[6])
    un = sm.sqrt((sum(k * k for k in u) % p, 0))[0]
    return list(x[3:6]) + [(-mu * i3 * k + w * im) % p for k, w in zip(x[:3], u)] + [-un * sm.inv(veff) % p]
def flow_rule(sm, t, a):
    p = sm.p
    nm, k = t.val
    if nm not in ('flow', 'phi'): return None
    v = tuple(x[0] for x in a)
    got = sm.mono_cache.get(('hf',) + v)
    if got is None:
        j = 0
        while True:                                        # the radius exists in the field
            q = [sm.rnd('flow', i, j, v) for i in range(7)]
            R2 = sum(x * x for x in q[:3]) % p
            if R2 and pow(R2, (p - 1) // 2, p) == 1: break
            j += 1
        M = [[sm.rnd('phi', i, l, v) for l in range(10)] for i in range(7)]
        got = sm.mono_cache[('hf',) + v] = (q, M)
    q, M = got
    if nm == 'phi': return (M[k // 10][k % 10], 0)
    if a[8][1] or a[9][1] or a[13][1]: raise NotImplementedError
    d = sum(M[k][j] * a[j][1] for j in range(7)) + sum(M[k][7 + j] * a[10 + j][1] for j in range(3))
    if a[7][1]:
        f = rhs(sm, [x[0] for x in a[:7]], a[8][0], a[9][0], [x[0] for x in a[10:13]])
        d += a[7][1] * sum(M[k][j] * f[j] for j in range(7))
    return (q[k], d % p)
class Leg(Hf):
    nf = 0
    def init(self):
        n = self.n
        self.inputs = ()
        self.u = thr(n)
        a = A
        self.spec = mismatch(A, self.u, self.nf)
        self.facts_ = [('gt', x, T.ZERO) for x in (A[14], A[15], A[16], A[17], A[6], A[13], A[19])] + [('le', A[19], T.ONE), ('ge', A[18], T.ZERO), ('le', A[18], T.ONE), ('ge', n * A[18], const(self.nf)), ('lt', n * A[18], const(self.nf + 1))]
        U = [sqrt(sum((x * x for x in self.u[3 * k:3 * k + 3]), T.ZERO)) for k in range(n)]
        self.basis = U + [A[15], A[16], A[6], A[13], sqrt(sum((x * x for x in A[:3]), T.ZERO)), sqrt(sum((x * x for x in A[7:10]), T.ZERO))]
    def new(self, E):
        b = self.alloc(E)
        E.call('kv_hf_new', b, E.put_doubles(A), E.put_doubles(self.u), 3 * self.n, 0)
        return b
class Grad(Leg):
    uf_rule = staticmethod(flow_rule)
    def entry(self, E):
        b = self.new(E)
        N = 7 * (3 * self.n + 1)
        gs, gf, g, n = E.put_doubles([0] * 49), E.put_doubles([0] * 49), E.put_doubles([0] * N), E.alloc(8)
        E.call('kv_hf_grad', b, gs, gf, g, N, n)
        self.len = E.conc(E.load_i(n, 8))
        t, n2 = E.put_doubles([0] * (3 * self.n * self.n + 1)), E.alloc(8)
        E.call('kv_hf_tcg', b, t, 3 * self.n * self.n, n2)
        return [E.doubles(gs, 49) + E.doubles(gf, 49) + E.doubles(g, N), E.conc(E.load_i(n2, 8)), E.doubles(t, 3 * self.n * self.n)]
    def post(self, o, P):
        o, n2, tg = o
        n, spec = self.n, self.spec
        P.check('length of the throttle and time gradient', self.len == 7 * (3 * n + 1), '%s' % self.len)
        P.check('length of the throttle constraint gradient', n2 == 3 * n * n, '%s' % n2)
        for i in range(n):
            for k in range(3 * n): P.eq('d throttle constraint %d / d throttle %d' % (i, k), tg[3 * n * i + k], 2 * self.u[k] if k // 3 == i else T.ZERO)
        w = 3 * n + 1
        cols = [('initial %s' % NAMES[k], NAMES[k], lambda i, k=k: o[7 * i + k]) for k in range(7)]
        cols += [('final %s' % NAMES[7 + k], NAMES[7 + k], lambda i, k=k: o[49 + 7 * i + k]) for k in range(7)]
        cols += [('throttle %d' % k, self.u[k].val, lambda i, k=k: o[98 + w * i + k]) for k in range(3 * n)]
        cols += [('time of flight', A[14].val, lambda i: o[98 + w * i + 3 * n])]
        memo, keep = {}, []
        sp = P.o.space()
        def residual(s, name, v, i, b):
            k = (id(s), name)
            if k not in memo:
                base = [s.ev(x)[0] for x in spec]
                t = sp.twin(s, {v: 1})
                d = [t.ev(x) for x in spec]
                if any(x[0] != y for x, y in zip(d, base)): raise Unsup('twin sample')
                memo[k] = [x[1] for x in d]; keep.append(s)
            return (memo[k][i] - s.ev(b)[0]) % s.p
        for name, v, e in cols:
            for i in range(7):
                b = T.lift(e(i))
                P._t('d mismatch[%d] / d %s' % (i, name), 'deriv', b, T.ZERO, lambda: not any(list(sp.each(spec + [b], lambda s: residual(s, name, v, i, b)))), 'pit')
class Deriv(Leg):
    """the state derivative is the right-hand side of the equations of motion"""
    thrust = True
    def init(self):
        super().init()
        self.x, self.t = [var('x%d' % k) for k in range(7)], [var('t%d' % k) for k in range(3)] if self.thrust else [T.ZERO] * 3
        self.basis = [A[15], A[16], self.x[6], sqrt(sum((x * x for x in self.x[:3]), T.ZERO))] + ([sqrt(sum((x * x for x in self.t), T.ZERO))] if self.thrust else [])
    def entry(self, E):
        b, o = self.new(E), E.put_doubles([0] * 7)
        E.call('kv_hf_deriv', b, E.put_doubles(self.x), E.put_doubles(self.t), o)
        return E.doubles(o, 7)
    def post(self, o, P):
        x, t = self.x, self.t
        r = sqrt(sum((k * k for k in x[:3]), T.ZERO))
        un = A[15] * sqrt(sum((k * k for k in t), T.ZERO)) if self.thrust else T.ZERO
        for k, f in enumerate(x[3:6] + [-A[17] * p / (r * r * r) + A[15] * w / x[6] for p, w in zip(x[:3], t)] + [-un / (A[16] * G0)]): P.eq('rate %d' % k, o[k], f)
class History(Leg):
    """states along the leg, forward segments forward in time, backward segments backward in time"""
    pts = 2
    def entry(self, E):
        b, out = self.new(E), []
        N = 7 * self.pts + 7
        for k in range(self.n):
            o, n, ns = E.put_doubles([0] * N), E.alloc(8), E.alloc(8)
            E.call('kv_hf_hist', b, self.pts, k, o, N, n, ns)
            n = E.conc(E.load_i(n, 8))
            out.append((E.conc(E.load_i(ns, 8)), n, E.doubles(o, min(n, N))))
        return out
    def post(self, out, P):
        n, nf, g = self.n, self.nf, self.pts
        want = {}
        for ks, x, sg in ((range(nf), A[:7], 1), (range(n - 1, nf - 1, -1), A[7:14], -1)):
            x = list(x)
            for k in ks:
                L = [x]
                for j in range(g - 1): x = FLOW(x, sg * A[14] / n / (g - 1), A[17], A[16] * G0, [A[15] * y for y in self.u[3 * k:3 * k + 3]], A[19]); L.append(x)
                want[k] = L
        for k, (ns, m, o) in enumerate(out):
            P.check('one list per segment', ns == n, '%s' % ns)
            P.check('segment %d: number of states' % k, m == 7 * g, '%s' % m)
            for j in range(min(g, m // 7)):
                for i in range(7): P.eq('segment %d, point %d, component %d' % (k, j, i), o[7 * j + i], want[k][j][i])
def splits(N): return [(n, nf) for n in range(1, N + 1) for nf in range(n + 1)]
def cases(tier):
    L = [Deriv(name='state derivative', n=1), Deriv(name='state derivative, no thrust', n=1, thrust=False)]
    for n, nf in splits(3): L.append(Grad(name='gradients, %d segments, %d forward' % (n, nf), n=n, nf=nf, weight=n))
    for n, nf in splits(4):
        for g in (2, 3, 4): L.append(History(name='history, %d segments, %d forward, %d points' % (n, nf, g), n=n, nf=nf, pts=g))
    return L
# ---------------------------------------------------------------- compiled code
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    for it in range(60 if tier == 'quick' else 3000):
        while True:
            a, u = sf.draw_leg(rng, 8, zero=0)
            if a[17] < 100: break
        a = a + [1e-12]
        u = [x if abs(x) > 1e-3 else x + 0.1 for x in u]
        n = len(u) // 3
        ob = Obj(lib, a, u, rng.choice((0, 1)))
        if rng.random() < .5:                        # the same configuration reached through setters
            ob = Obj(lib)
            for op, v in ((11, a),) if rng.random() < .5 else ((9, [a[17]]), (3, []), (7, [a[15]]), (8, [a[16]]), (15, [a[19]]), (10, [a[18]]), (16, a[:7]), (17, a[7:14]), (0, [a[14]])): ob.set(op, v, u)
        rc, gs, gf, g = ob.grad()
        nf = ob.dump()[2][1]
        tot += 1
        err = ('return code', rc) if rc else ('length', len(g)) if len(g) != 7 * (3 * n + 1) else None
        cols = [(k, lambda i, k=k: gs[7 * i + k]) for k in range(7)] + [(7 + k, lambda i, k=k: gf[7 * i + k]) for k in range(7)]
        cols += [(('u', k), lambda i, k=k: g[(3 * n + 1) * i + k]) for k in range(3 * n)] + [(14, lambda i: g[(3 * n + 1) * i + 3 * n])]
        rng.shuffle(cols)
        for key, e in cols[:8]:
            if err: break
            fs, h = [], 1e-4
            for m in (-2, -1, 1, 2):
                b, w = list(a), list(u)
                if isinstance(key, tuple): w[key[1]] += m * h
                else: b[key] += m * h
                fs.append(ref(lib, b, w, nf)[0])
            for i in range(7):
                d = (fs[0][i] - 8 * fs[1][i] + 8 * fs[2][i] - fs[3][i]) / (12 * h); d2 = (fs[2][i] - fs[1][i]) / (2 * h)
                if not abs(e(i) - d) <= 1e-5 * (abs(d) + .1) + 3 * abs(d - d2): err = ('d mismatch[%d] / d %s' % (i, key), e(i), d); break
        if not err:
            pts = rng.randint(2, 5)
            for ks, x, sg in ((range(nf), a[:7], 1), (range(n - 1, nf - 1, -1), a[7:14], -1)):
                for k in ks:
                    ns, nn, o = ctypes.c_size_t(), ctypes.c_size_t(), darr([0] * 100)
                    rc = lib.kv_hf_hist(ob.b, pts, k, o, 100, ctypes.byref(nn), ctypes.byref(ns))
                    if rc or ns.value != n or nn.value != 7 * pts: err = ('state history: size', rc, ns.value, nn.value); break
                    for j in range(pts):
                        if j: x = flow(lib, x, sg * a[14] / n / (pts - 1), a[17], a[16] * 9.80665, [a[15] * y for y in u[3 * k:3 * k + 3]], a[19])
                        if not all(abs(p - q) <= 1e-8 * (1 + abs(q)) for p, q in zip(o[7 * j:7 * j + 7], x)): err = ('state history: segment %d, point %d' % (k, j), list(o[7 * j:7 * j + 7]), list(x)); break
        if err: bad.append(dict(case='gradients and history', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=a + u, mismatch=err))
        if len(samples) < 3: samples.append(a + u)
        if len(bad) > 4: break
    return tot, bad[:5], samples
