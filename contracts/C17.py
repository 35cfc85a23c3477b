"""Sims-Flanagan mismatch: forward minus backward passage of the impulsive model."""
from .sf import *
LEVEL = 'other'
EXPLAIN = 'symbolic in every argument for each number of segments 1..5 (bound) and each forward/backward split; more segments at run time against an independent reference'
ASSUME = ['propagate_lagrangian represented by its contract: a function of (state, tof, mu)', 'number of segments bounded by 5 in the symbolic part', 'masses, thrust, time of flight and throttle magnitudes positive (zero by continuity and at run time)']
class MC(Leg):
    def entry(self, E):
        b = self.new(E)
        o = E.put_doubles([0] * 7)
        E.call('kv_sf_mc', b, o)
        return E.doubles(o, 7)
    def post(self, o, P):
        for k in range(7): P.eq('mismatch %d' % k, o[k], self.spec[k])
def cases(tier): return [MC(name='%d segments, %d forward' % (n, nf), n=n, nf=nf) for n, nf in splits(5 if tier == 'quick' else 7)]
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    for it in range(150 if tier == 'quick' else 4000):
        a, u = draw_leg(rng, 30)
        o = Obj(lib, a, u)
        tot += 1
        rc, got = o.mc() if o.rc == 0 else (o.rc, None)
        w, ends = ref_mismatch(a, u, nf_of(a, u))
        err = None
        if rc: err = ('return code', rc)
        else:
            sc = [max(abs(x) for e in ends for x in e[:3])] * 3 + [max(abs(x) for e in ends for x in e[3:6])] * 3 + [max(abs(e[6]) for e in ends)]
            for k in range(7):
                if not abs(got[k] - w[k]) <= 1e-9 * sc[k]: err = ('component %d' % k, got[k], w[k]); break
        if err: bad.append(dict(case='mismatch vs reference', obligation='%s (runtime check)' % err[0], status='confirmed', inputs=a + u, mismatch=err))
        if len(samples) < 3: samples.append(a + u)
    return tot, bad[:5], samples
