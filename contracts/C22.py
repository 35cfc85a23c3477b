"""Julian dates and epoch arithmetic."""
from fractions import Fraction as Fr
from .common import *
IR = ['drivers/epoch.cpp', 'src/epoch.cpp']
REPLAY = dict(srcs=['drivers/epoch.cpp', 'src/epoch.cpp'], libs=['-lfmt', '-lboost_serialization'])
ASSUME = ['64-bit microsecond counts do not overflow (instants and durations within +-292000 years of 1970)']
Y2K, DAY = 946684800000000, 86400000000
JD0, MJD0 = 211813444800000000, 4453401600000000      # MJD2000 0 in each scale: 2451544.5 and 51544 days, in microseconds
assert JD0 == Fr(24515445, 10) * DAY and MJD0 == 51544 * DAY
OFF = {0: 0, 1: MJD0, 2: JD0}
NM = {0: 'MJD2000', 1: 'MJD', 2: 'JD'}
u, v, n = (T.intvar(k) for k in 'uvn')
d = var('d')
class Ep(Case):
    inputs = ()
    sweep_n = 0
    def ints(self, E, a, k):
        out = []
        for i in range(k):
            x = E.load_i(a + 8 * i, 8)
            out.append(x.t if isinstance(x, SymInt) else const(x - (1 << 64) if x >> 63 else x))
        return out
    def S(self, E, *ts): return [SymInt(E, t) for t in ts]
    def draw(self, rng):
        return {u: rng.randint(-10 ** 17, 10 ** 17), v: rng.randint(-10 ** 17, 10 ** 17), n: rng.randint(-10 ** 9, 10 ** 9), d: rng.uniform(-1e7, 1e7)}
    def near(self, P, name, got, exact, w=1):
        P.holds(name + ' (not late)', 'lt', got - exact, const(w))
        P.holds(name + ' (not early)', 'gt', got - exact, const(-w))
class Default(Ep):
    def entry(self, E):
        o = E.alloc(64); E.call('kv_ep_default', o); return self.ints(E, o, 1)
    def post(self, o, P): P.eq('default epoch is 0 MJD2000', o[0], const(Y2K))
class Days(Ep):
    def entry(self, E):
        o, p = E.alloc(64), E.put_doubles([0] * 3)
        E.call('kv_ep_days', d, self.ty, o)
        E.call('kv_ep_round', d, self.ty, p)
        r = self.ints(E, o, 1) + E.doubles(p, 3)
        if self.ty == 0: E.call('kv_ep_mjd2000', d, o); r += self.ints(E, o, 1)
        return r
    def post(self, o, P):
        exact = d * const(DAY) + const(Y2K - OFF[self.ty])
        self.near(P, 'instant, to the microsecond', o[0], exact)
        if len(o) > 4: P.eq('MJD2000 is the default scale', o[4], o[0])
        for k, nm in ((2, 'mjd2000'), (1, 'mjd'), (0, 'jd')):
            P.eq('%s reads the same instant' % nm, o[1 + k] * const(DAY), o[0] - const(Y2K - OFF[2 - k]))
class BadType(Ep):
    expect = '_ZTISt16invalid_argument'
    def entry(self, E):
        E.call('kv_ep_days', d, self.ty, E.alloc(8))
class Read(Ep):
    def entry(self, E):
        p = E.put_doubles([0] * 3); E.call('kv_ep_read', *self.S(E, u), p); return E.doubles(p, 3)
    def post(self, o, P):
        for k, nm in ((0, 'jd'), (1, 'mjd'), (2, 'mjd2000')): P.eq(nm, o[k], (u - const(Y2K - OFF[2 - k])) / const(DAY))
class Dur(Ep):
    def entry(self, E):
        o = E.alloc(64); E.call('kv_ep_dur', *self.S(E, u), o); return self.ints(E, o, 2)
    def post(self, o, P):
        P.eq('microseconds after 0 MJD2000', o[0], u + const(Y2K)); P.eq('days after 0 MJD2000', o[1], u * const(DAY) + const(Y2K))
class Tp(Ep):
    def entry(self, E):
        o = E.alloc(64); E.call('kv_ep_tp', *self.S(E, u), o); return self.ints(E, o, 3)
    def post(self, o, P):
        for k, nm in enumerate(('from a time point', 'get_tp', 'copy')): P.eq(nm, o[k], u)
RES = {0: (1, 'microseconds'), 1: (1000, 'milliseconds'), 2: (10 ** 6, 'seconds'), 3: (60 * 10 ** 6, 'minutes'), 4: (3600 * 10 ** 6, 'hours'), 5: (DAY, 'days')}
LBL = [('+=', 1), ('-=', -1), ('+', 1), ('left operand of + unchanged', 0), ('-', -1), ('left operand of - unchanged', 0)]
class Arith(Ep):
    def entry(self, E):
        o = E.alloc(64); E.call('kv_ep_arith', *self.S(E, u, n), self.res, o); return self.ints(E, o, 6)
    def post(self, o, P):
        for k, (nm, s) in enumerate(LBL): P.eq(nm, o[k], u + const(s * RES[self.res][0]) * n)
class ArithNs(Ep):
    def entry(self, E):
        o = E.alloc(64); E.call('kv_ep_arith_ns', *self.S(E, u, n), o); return self.ints(E, o, 6)
    def post(self, o, P):
        for k, (nm, s) in enumerate(LBL):
            if s: self.near(P, nm, o[k], u + const(Fr(s, 1000)) * n)
            else: P.eq(nm, o[k], u)
class ArithD(Ep):
    def entry(self, E):
        o = E.alloc(64); E.call('kv_ep_arith_d', *self.S(E, u), d, o); return self.ints(E, o, 6)
    def post(self, o, P):
        for k, nm, s in ((0, '+= fractional days', 1), (1, '+ fractional days', 1), (2, '- fractional days', -1), (3, '-= fractional days', -1)): self.near(P, nm, o[k], u + const(s * DAY) * d)
        self.near(P, 'days()', o[4], const(DAY) * d); self.near(P, 'sec()', o[5], const(10 ** 6) * d)
class Diff(Ep):
    def entry(self, E):
        o = E.alloc(64); E.call('kv_ep_diff', *self.S(E, u, v), o)
        return self.ints(E, o, 3) + [E.call('kv_ep_assec', *self.S(E, u))]
    def post(self, o, P):
        P.eq('difference', o[0], u - v); P.eq('minuend unchanged', o[1], u); P.eq('subtrahend unchanged', o[2], v); P.eq('as_sec', o[3], u / const(10 ** 6))
OPS = [('<', {-1}), ('<=', {-1, 0}), ('>', {1}), ('>=', {0, 1}), ('==', {0}), ('!=', {-1, 1})]
class Cmp(Ep):
    def init(self): self.facts_ = [({-1: 'lt', 0: 'eq', 1: 'gt'}[self.s], u, v)]
    def entry(self, E): return [E.conc(E.call('kv_ep_cmp', *self.S(E, u, v), k)) for k in range(6)]
    def post(self, o, P):
        for k, (nm, S) in enumerate(OPS): P.check('%s follows the instants' % nm, o[k] == (1 if self.s in S else 0), '%d' % o[k])
x = var('x')
class Jul(Case):
    inputs = (x,)
    ranges = dict(x=U(-3e6, 3e6))
    sweep_n = 300
    def entry(self, E):
        o = E.put_doubles([0] * 6); E.call('kv_jul', x, o); return E.doubles(o, 6)
    def post(self, o, P):
        H = Fr(1, 2)
        for k, (nm, c) in enumerate((('jd2mjd', -2400000 - H), ('jd2mjd2000', -2451544 - H), ('mjd2jd', 2400000 + H), ('mjd2mjd2000', -51544), ('mjd20002jd', 2451544 + H), ('mjd20002mjd', 51544))): P.eq(nm, o[k], x + const(c))
def cases(tier):
    L = [Default(name='default constructor'), Read(name='readers'), Dur(name='from a duration'), Tp(name='from a time point, copy'), ArithNs(name='nanosecond durations'), ArithD(name='floating-point day durations'), Diff(name='difference of epochs'), Jul(name='free conversions')]
    L += [Days(name='from %s days' % NM[k], ty=k) for k in NM] + [BadType(name='unknown scale %d' % k, ty=k) for k in (3, 7, 0xffffffff)]
    L += [Arith(name='durations in ' + RES[k][1], res=k) for k in RES] + [Cmp(name='comparisons, %s' % nm, s=s) for s, nm in ((-1, 'before'), (0, 'same instant'), (1, 'after'))]
    return L
def make_replay(lib):
    I, Q = ctypes.c_int64, ctypes.c_void_p
    for f, a in dict(kv_ep_default=[Q], kv_ep_days=[D, ctypes.c_int, Q], kv_ep_read=[I, Q], kv_ep_round=[D, ctypes.c_int, Q], kv_ep_dur=[I, Q], kv_ep_tp=[I, Q], kv_ep_arith=[I, I, ctypes.c_int, Q], kv_ep_arith_ns=[I, I, Q],
                     kv_ep_arith_d=[I, D, Q], kv_ep_diff=[I, I, Q], kv_ep_assec=[I], kv_ep_cmp=[I, I, ctypes.c_uint], kv_jul=[D, Q]).items(): getattr(lib, f).argtypes = a
    lib.kv_ep_assec.restype = D
    def f(case, ins):
        if not isinstance(case, Jul): raise Skip()
        o = darr([0] * 6); lib.kv_jul(ins[0], o); return 0, list(o)
    return f
def runtime(lib, rng, tier):
    """the same contracts on the compiled code in exact integer / rational arithmetic (double rounding allowed for)"""
    bad, tot = [], 0
    o, p = (ctypes.c_int64 * 8)(), darr([0] * 6)
    def fail(nm, ins, got, want): bad.append(dict(case=nm, obligation=nm + ' (runtime check)', status='confirmed', inputs=ins, outputs=got, expected=want))
    def rat(x): return Fr(x)
    N = 3000 if tier == 'quick' else 100000
    eps = Fr(1, 2 ** 51)
    for it in range(N):
        if len(bad) > 5: break
        tot += 1
        ty = rng.randrange(3)
        dd = rng.choice((lambda: rng.uniform(-1e6, 4e6), lambda: float(rng.randint(-100000, 100000)), lambda: rng.randint(-10 ** 9, 10 ** 9) / 8640, lambda: rng.uniform(-2, 2), lambda: rng.uniform(-1e8, 1e8)))()
        rc = lib.kv_ep_days(dd, ty, o)
        ex = rat(dd) * DAY + Y2K - OFF[ty]
        if rc or abs(o[0] - ex) > 1 + abs(rat(dd)) * DAY * eps: fail('epoch(days, %s)' % NM[ty], [dd], [rc, o[0]], float(ex))
        lib.kv_ep_round(dd, ty, p)
        for k in range(3):
            w = (o[0] - Y2K + OFF[2 - k]) / Fr(DAY)
            if abs(rat(p[k]) - w) > abs(w) * eps: fail('reader %d' % k, [dd, ty], [p[k]], float(w))
        a, b = [rng.choice((rng.randint(-10 ** 18, 10 ** 18), rng.randint(-10 ** 15, 10 ** 15), rng.randint(-3, 3), Y2K + rng.randint(-10, 10), DAY * rng.randint(-30000, 30000))) for _ in 'ab']
        if rng.random() < .5: b = a + rng.randint(-2, 2)
        lib.kv_ep_diff(a, b, o)
        if o[0] != a - b: fail('difference', [a, b], o[0], a - b)
        if abs(rat(lib.kv_ep_assec(a)) - Fr(a, 10 ** 6)) > abs(Fr(a, 10 ** 6)) * eps: fail('as_sec', [a], lib.kv_ep_assec(a), a / 1e6)
        s = (a > b) - (a < b)
        for k, (nm, S) in enumerate(OPS):
            if lib.kv_ep_cmp(a, b, k) != (s in S): fail('operator' + nm, [a, b], not (s in S), s in S)
        for res in RES:
            m = rng.randint(-2 * 10 ** 18 // RES[res][0], 2 * 10 ** 18 // RES[res][0])
            lib.kv_ep_arith(a, m, res, o)
            w = [a + sg * RES[res][0] * m for _, sg in LBL]
            if list(o[:6]) != w: fail('arithmetic in ' + RES[res][1], [a, m], list(o[:6]), w)
        m = rng.randint(-10 ** 18, 10 ** 18)
        lib.kv_ep_arith_ns(a, m, o)
        for k, (nm, sg) in enumerate(LBL):
            if abs(o[k] - a - sg * Fr(m, 1000)) >= 1: fail('nanoseconds ' + nm, [a, m], o[k], float(a + sg * Fr(m, 1000)))
        dd = rng.uniform(-1e6, 1e6)
        lib.kv_ep_arith_d(a, dd, o)
        for k, w, nm in ((0, a + rat(dd) * DAY, '+='), (1, a + rat(dd) * DAY, '+'), (2, a - rat(dd) * DAY, '-'), (3, a - rat(dd) * DAY, '-='), (4, rat(dd) * DAY, 'days()'), (5, rat(dd) * 10 ** 6, 'sec()')):
            if abs(o[k] - w) > 1 + abs(rat(dd)) * DAY * eps: fail('fractional days ' + nm, [a, dd], o[k], float(w))
        lib.kv_ep_dur(m // 10 ** 12, o)
        if list(o[:2]) != [m // 10 ** 12 + Y2K, m // 10 ** 12 * DAY + Y2K]: fail('epoch(duration)', [m // 10 ** 12], list(o[:2]), m // 10 ** 12 + Y2K)
        lib.kv_ep_tp(a, o)
        if list(o[:3]) != [a] * 3: fail('epoch(time_point)', [a], list(o[:3]), a)
    lib.kv_ep_default(o)
    if o[0] != Y2K: fail('default epoch', [], o[0], Y2K)
    return tot, bad, [dict(days=dd)]
