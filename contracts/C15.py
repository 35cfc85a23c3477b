"""Lambert: exactly the ill-posed inputs are rejected."""
from .lambert import *
IR = PUB
DOM = '_ZTISt12domain_error'
ASSUME = ['zero cross products are decided in real arithmetic']
class Rej(Case):
    """mode: 'tof' (time of flight <= 0), 'mu' (mu <= 0), 'plane' (positions in a plane containing the z axis)"""
    mode, cw, multi = 'tof', 0, 0
    expect = DOM
    sweep_n = 30
    prog = 'pub'
    maxpaths = 60
    def init(self):
        v = [var('x%d' % k) for k in range(6)]
        t, m = var('tof'), var('mu')
        self.v = v
        if self.mode == 'tof': self.facts_ = [('le', t, T.ZERO)]
        if self.mode == 'mu': self.facts_ = [('gt', t, T.ZERO), ('le', m, T.ZERO)]
        if self.mode == 'plane':
            self.facts_ = [('gt', t, T.ZERO), ('gt', m, T.ZERO)]
            v = [v[0] * v[3], v[1] * v[3], v[2], v[0] * v[4], v[1] * v[4], v[5]]
        self.inputs = tuple(v + [t, m])
    def entry(self, E):
        n = 3
        r0, r1, v0, v1, x, inn = E.put_doubles(self.inputs[:3]), E.put_doubles(self.inputs[3:6]), E.put_doubles([0] * 3 * n), E.put_doubles([0] * 3 * n), E.put_doubles([0] * n), E.put_doubles([0] * 8)
        it, cnt, nmax = E.alloc(4 * n + 4), E.alloc(32), E.alloc(8)
        E.call('kv_lambert', r0, r1, self.inputs[6], self.inputs[7], self.cw, self.multi, n, v0, v1, x, it, cnt, nmax, inn)
        return []
    def post(self, o, P): P.check('never reached', False)
    def draw(self, r):
        env = {x: r.choice((-2., -1., 0.5, 1., 3.)) for x in self.v}
        if self.mode == 'plane':
            env[self.v[0]], env[self.v[1]] = r.choice(((1., 0.), (0., 1.), (1., 1.), (2., -1.), (0.25, 0.5)))   # exact products: an exactly planar geometry
            z = [env[x] for x in self.v]
            if z[3] * z[5] == z[4] * z[2]: env[self.v[5]] += 1.25 * z[2] + 7             # not aligned
        z = lambda: r.choice((0.0, -0.0, -1.0, -1e-300, -5e-324, -10 ** r.uniform(-12, 12)))
        pos = lambda: r.choice((1.0, 5e-3, 10 ** r.uniform(-6, 6)))
        env[var('tof')] = z() if self.mode == 'tof' else pos()
        env[var('mu')] = z() if self.mode == 'mu' else pos()
        return env
class Acc(Ctor):
    what = ()
    sweep_n = 60
    concrete_extra = None
    def post(self, o, P): pass
    def draw(self, r):
        env = super().draw(r)
        if r.random() < 0.5: env[INC] = math.pi / 2 - 10 ** r.uniform(-11, -1)
        if r.random() < 0.3: env[tof] *= 10 ** r.uniform(-3, 0)
        return env
def cases(tier):
    L = [Rej(name='rejects ' + n, mode=m, cw=cw, multi=k) for m, n in (('tof', 'times of flight that are not positive'), ('mu', 'gravitational parameters that are not positive'), ('plane', 'planes that contain the z axis')) for cw, k in ((0, 0), (1, 1))]
    for cw in (0, 1):
        for up in (True, False): L.append(Acc(name='accepts, %s, %s' % ('clockwise' if cw else 'counter-clockwise', 'h up' if up else 'h down'), cw=cw, up=up))
    L += [Acc(name='accepts, hyperbola', hyp=True), Acc(name='accepts, up to 1 revolution', multi=1, weight=5), Acc(name='accepts, up to 1 revolution, clockwise', multi=1, cw=1, weight=5), Acc(name='accepts, up to 2 revolutions', multi=2, weight=9)]
    return L
def runtime(lib, rng, tier):
    make_replay(lib)
    bad, tot, samples = [], 0, []
    def run(ins, cw, multi, want, what):
        nonlocal tot
        tot += 1
        rc, o = lam_call(lib, ins, cw, multi)
        if rc != want: bad.append(dict(case=what, obligation='outcome (runtime check)', status='confirmed', inputs=list(ins) + [cw, multi], rc=rc, expected=want))
    for ins, cw, multi in instances(rng, 1500 if tier == 'quick' else 40000):
        if len(samples) < 3: samples.append(ins)
        run(ins, cw, multi, 0, 'well-posed inputs are accepted')
        j = list(ins); j[6] = rng.choice((0.0, -0.0, -ins[6], -5e-324)); run(j, cw, multi, 1, 'time of flight not positive')
        j = list(ins); j[7] = rng.choice((0.0, -0.0, -ins[7], -5e-324)); run(j, cw, multi, 1, 'mu not positive')
        a = rng.choice((0, 1)); j = list(ins); j[a] = j[3 + a] = 0.0
        if abs(j[1 - a] * j[5] - j[2] * j[4 - a]) > 0: run(j, cw, multi, 1, 'plane containing the z axis')
    return tot, bad, samples
