"""Calendar dates and ISO strings: bit-precise."""
import ctypes, datetime
import z3
from kvc.bv import *
from .common import D
IR = ['drivers/epoch.cpp', 'src/epoch.cpp']
REPLAY = dict(srcs=['drivers/epoch.cpp', 'src/epoch.cpp'], libs=['-lfmt', '-lboost_serialization'])
ASSUME = ['std::stoi contract (leading blanks, sign, decimal digits) on the bytes of the string', 'digits at the digit positions and ISO separators in the strings; other contents are only rejected or parsed as std::stoi does']
I32 = lambda k: z3.BitVec(k, 32)
bv = lambda n, w: z3.BitVecVal(n, w)
DAYS = z3.Function('sys_days', z3.BitVecSort(16), z3.BitVecSort(8), z3.BitVecSort(8), z3.BitVecSort(32))
INV = '_ZTISt16invalid_argument'
DERIVED = (INV, '_ZTISt11logic_error', '_ZTISt12out_of_range', '_ZTISt12domain_error', '_ZTISt12length_error')
# ---- specification over the mathematical calendar
def days_spec(y, m, d):
    """days from 1970-01-01 of the proleptic Gregorian date (day numbers past the month's end run on), m concrete"""
    p = z3.SignExt(16, y) + 82 * 400 - 1                  # full years since 1 Jan of year -32800
    D_ = 365 * p + z3.UDiv(p, bv(4, 32)) - z3.UDiv(p, bv(100, 32)) + z3.UDiv(p, bv(400, 32))
    q = p + 1
    leap = z3.And(z3.URem(q, bv(4, 32)) == 0, z3.Or(z3.URem(q, bv(100, 32)) != 0, z3.URem(q, bv(400, 32)) == 0))
    cum = sum((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[:m - 1])
    return D_ + cum + (z3.If(leap, bv(1, 32), bv(0, 32)) if m > 2 else 0) + z3.ZeroExt(24, d) - 1 - (719162 + 82 * 146097)
def pydays(y, m, d):
    c = (y - 2000) // 400
    return datetime.date(y - 400 * c, m, 1).toordinal() - 719163 + 146097 * c + d - 1
def s64(x): return z3.SignExt(64 - x.size(), x)
def tp_spec(dd, h, mi, s, ms, us):
    return s64(dd) * 86400000000 + s64(h) * 3600000000 + s64(mi) * 60000000 + s64(s) * 1000000 + s64(ms) * 1000 + s64(us)
def sg(x, n=32): return x - (1 << n) if x >> (n - 1) else x
# ---- contract of the library conversion year_month_day -> sys_days, proved in its own case
def sys_days(E, this, *a):
    y, m, d = E.load_i(this, 2), E.load_i(this + 2, 1), E.load_i(this + 3, 1)
    y, m, d = lift(y, 16), lift(m, 8), lift(d, 8)
    E.obl.append(('sys_days called with a month in 1..12', z3.And(z3.UGE(m, 1), z3.ULE(m, 12))))
    E.__dict__.setdefault('sdcalls', []).append((y, m, d))
    return mk(s64(DAYS(y, m, d)))
OVD = [(r'^std::chrono::year_month_day::operator std::chrono::time_point<std::chrono::_V2::system_clock, std::chrono::duration<long, std::ratio<86400l, 1l>\s*>\s*>\(\) const', sys_days)]
class SysDays(BVCase):
    def init(self):
        self.y, self.d = I32('y'), I32('d')
        self.facts = [self.y >= -32767, self.y <= 32767, z3.UGE(self.d, 1), z3.ULE(self.d, 31)]
        self.inputs = dict(y=self.y, d=self.d)
    def entry(self, E): return E.call('kv_sys_days', BV(self.y), self.m, BV(self.d))
    def post(self, r, P):
        if r.kind != 'ret': P.check('returns', False, str(r.value)); return
        P.prove('days since 1970-01-01', lift(r.value, 32) == days_spec(z3.Extract(15, 0, self.y), self.m, z3.Extract(7, 0, self.d)), 200000)
    def concrete(self, replay, v):
        return replay(self, 'kv_sys_days', [sg(v['y']), self.m, v['d']], pydays(sg(v['y']), self.m, v['d']))
CAL = ('y', 'mon', 'd', 'h', 'min', 's', 'ms', 'us')
class Cal(BVCase):
    """the calendar constructor, all 2^256 argument values"""
    overrides = OVD
    full = True
    def init(self):
        self.a = [I32(k) for k in CAL]
        self.inputs = dict(zip(CAL, self.a))
        y, mon, d = self.a[:3]
        self.valid = z3.And(y >= -32767, y <= 32767, z3.UGE(mon, 1), z3.ULE(mon, 12), z3.UGE(d, 1), z3.ULE(d, 31))
    def entry(self, E):
        o = E.alloc(16)
        E.sdcalls = []
        self.E = E
        if self.full: E.call('kv_ep_cal', *[BV(x) for x in self.a], o)
        else: E.call('kv_ep_cal3', *[BV(x) for x in self.a[:3]], o)
        return E.load_i(o, 8)
    def post(self, r, P):
        if r.kind == 'throw':
            P.check('rejected as an invalid argument', r.value == INV, str(r.value))
            P.prove('only invalid dates are rejected', z3.Not(self.valid)); return
        P.prove('invalid year, month or day numbers are rejected', self.valid)
        y, mon, d = self.a[:3]
        rest = self.a[3:] if self.full else [bv(0, 32)] * 5
        want = (z3.Extract(15, 0, y), z3.Extract(7, 0, mon), z3.Extract(7, 0, d))
        got = lift(r.value, 64)
        if len(self.E.sdcalls) == 1:        # lemma: the date handed to the library conversion denotes the given date
            c = self.E.sdcalls[0]
            if P.prove('date passed to sys_days', z3.Implies(self.valid, z3.And(*[x == w for x, w in zip(c, want)]))): got = z3.substitute(got, (DAYS(*c), DAYS(*want)))
        P.prove('instant', z3.Implies(self.valid, got == tp_spec(DAYS(*want), *rest)))
    def concrete(self, replay, v):
        a = [sg(v[k]) if k not in ('mon', 'd') else v[k] for k in CAL]
        if not self.full: a[3:] = [0] * 5
        return replay(self, 'kv_ep_cal', a, cal(a))
def cal(a):
    """expected microseconds since 1970, None for a rejection"""
    y, mon, d, h, mi, s, ms, us = a
    if not (-32767 <= y <= 32767 and 1 <= mon <= 12 and 1 <= d <= 31): return None
    return pydays(y, mon, d) * 86400000000 + h * 3600000000 + mi * 60000000 + s * 1000000 + ms * 1000 + us
# ---- ISO strings
ALLOWED = (7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26)
FMT = 'dddd-dd-ddTdd:dd:dd.dddddd'
MK = z3.Function('make_tp', *([z3.BitVecSort(32)] * 8), z3.BitVecSort(64))
def make_tp(E, *a): return mk(MK(*[lift(x, 32) for x in a]))
def stoi(E, s, idx=0, base=10):
    base = sg(E.conc(base)) if not isinstance(base, int) else base
    if base != 10 or (isinstance(idx, int) and idx): raise Unsupported('std::stoi with base %s' % base)
    p, n = E.conc(E.load_i(s, 8)), E.conc(E.load_i(s + 8, 8))
    bs = [E.load_i(p + k, 1) for k in range(n)]
    k, neg, val, nd = 0, False, bv(0, 64), 0
    def isd(b): return 48 <= b <= 57 if b.__class__ is int else E.truth(mb(z3.And(z3.UGE(b.e, 48), z3.ULE(b.e, 57))))
    while k < n and bs[k] in (32, 9, 10, 11, 12, 13): k += 1
    if k < n and bs[k].__class__ is int and bs[k] in (43, 45): neg = bs[k] == 45; k += 1
    while k < n and isd(bs[k]):
        val = val * 10 + z3.ZeroExt(56, lift(bs[k], 8)) - 48; k += 1; nd += 1
    if not nd: raise KThrow(INV, 0)
    if nd > 9: raise Unsupported('std::stoi of %d digits' % nd)
    return mk(z3.Extract(31, 0, -val if neg else val))
OVS = [(r'^kep3::epoch::make_tp\(', make_tp), (r'^std::__cxx11::stoi\(', stoi), (r'^std::__cxx11::basic_string<.*>::~basic_string\(\)', lambda E, *a: None)] + OVD
class Iso(BVCase):
    overrides = OVS
    def init(self):
        self.n = z3.BitVec('len', 64)
        self.c = [z3.BitVec('c%d' % k, 8) if f == 'd' else bv(ord(f), 8) for k, f in enumerate(FMT)]
        dg = [c for c, f in zip(self.c, FMT) if f == 'd']
        self.facts = [z3.And(z3.UGE(c, 48), z3.ULE(c, 57)) for c in dg] + [z3.ULT(self.n, 1 << 62)]
        self.inputs = dict(len=self.n, **{'c%d' % k: c for k, (c, f) in enumerate(zip(self.c, FMT)) if f == 'd'})
    def entry(self, E):
        buf = E.alloc(40)
        for k in range(40): E.store_i(buf + k, mk(self.c[k]) if k < 26 else 0, 1)
        s = E.alloc(32)
        E.store_i(s, buf, 8); E.store_i(s + 8, BV(self.n), 8); E.store_i(s + 16, 0, 8); E.store_i(s + 24, 0, 8)
        o = E.alloc(16)
        E.call('kv_ep_iso', s, o)
        return E.load_i(o, 8)
    def num(self, i, j):
        v = bv(0, 32)
        for k in range(i, j): v = v * 10 + z3.ZeroExt(24, self.c[k]) - 48
        return v
    def fields(self, n):
        f = [self.num(0, 4), self.num(5, 7), bv(1, 32)] + [bv(0, 32)] * 5
        for pos, k in ((8, 2), (11, 3), (14, 4), (17, 5)):
            if n >= pos + 2: f[k] = self.num(pos, pos + 2)
        if n >= 21: f[7] = self.num(20, n) * 10 ** (26 - n)
        return f
    def post(self, r, P):
        ok = z3.Or(*[self.n == k for k in ALLOWED])
        if r.kind == 'throw':
            P.check('rejected with a logic_error', r.value in DERIVED, str(r.value))
            P.prove('only other lengths are rejected', z3.Not(ok)); return
        P.prove('other lengths are rejected', ok)
        for k in ALLOWED:
            if P.prove('instant of the calendar constructor, length %d' % k, z3.Implies(self.n == k, lift(r.value, 64) == MK(*self.fields(k)))): pass
    def concrete(self, replay, v):
        n = v['len']
        if n > 200: n = 27
        s = ''.join(chr(v['c%d' % k]) if f == 'd' else f for k, f in enumerate(FMT))
        s = (s + '0' * 200)[:n]
        return iso_check(replay, self, s)
def iso_want(s):
    if len(s) not in ALLOWED: return None
    n = lambda i, j: int(s[i:j])
    f = [n(0, 4), n(5, 7), 1, 0, 0, 0, 0, 0]
    for pos, k in ((8, 2), (11, 3), (14, 4), (17, 5)):
        if len(s) >= pos + 2: f[k] = n(pos, pos + 2)
    if len(s) >= 21: f[7] = int((s[20:] + '000000')[:6])
    return cal(f)
def iso_check(replay, case, s): return replay(case, 'kv_ep_iso', s, iso_want(s))
def cases(tier):
    return [SysDays(name='Gregorian day number, month %d' % m, m=m, weight=5) for m in range(1, 13)] + [Cal(name='calendar constructor'), Cal(name='calendar constructor, date only', full=False), Iso(name='ISO strings')]
def make_replay(lib):
    V, I = ctypes.c_void_p, ctypes.c_int
    lib.kv_ep_cal.argtypes = [I, ctypes.c_uint, ctypes.c_uint, I, I, I, I, I, V]
    lib.kv_ep_cal3.argtypes = [I, ctypes.c_uint, ctypes.c_uint, V]
    lib.kv_sys_days.argtypes = [I, ctypes.c_uint, ctypes.c_uint]
    lib.kv_ep_iso.argtypes = [ctypes.c_char_p, ctypes.c_size_t, V]
    o = (ctypes.c_int64 * 2)()
    def f(case, fn, a, want):
        """None when the compiled code meets the specification at this input"""
        if fn == 'kv_sys_days': rc, got = 0, lib.kv_sys_days(*a)
        elif fn == 'kv_ep_iso': rc, got = lib.kv_ep_iso(a.encode(), len(a), o), o[0]
        elif fn == 'kv_ep_cal3': rc, got = lib.kv_ep_cal3(*a[:3], o), o[0]
        else: rc, got = lib.kv_ep_cal(*a, o), o[0]
        if want is None: return None if rc in ((2,) if fn != 'kv_ep_iso' else (1, 2, 3, 4)) else ['accepted', a, got]
        return None if rc == 0 and got == want else [a, 'rc %d' % rc, got, want]
    return f

def runtime(lib, rng, tier):
    f = make_replay(lib)
    bad, tot = [], 0
    def chk(fn, a, want, nm):
        nonlocal tot
        tot += 1
        r = f(None, fn, a, want)
        if r and len(bad) < 5: bad.append(dict(case=nm, obligation=nm + ' (runtime check)', status='confirmed', inputs=a, mismatch=r))
    N = 20000 if tier == 'quick' else 500000
    for it in range(N):
        y = rng.choice((rng.randint(1900, 2100), rng.randint(-32767, 32767), rng.choice((1600, 1700, 1900, 2000, 2100, 0, -1, -4, 4, 100, 400))))
        mon, d = rng.randint(1, 12), rng.randint(1, 31)
        t = [rng.choice((0, rng.randint(0, 59), rng.randint(-2 ** 31, 2 ** 31 - 1))) for _ in range(5)]
        if rng.random() < .15:
            k = rng.randrange(3)
            x = rng.choice((0, 13, 32, 255, 256, 257, 300, 2 ** 32 - 1, rng.getrandbits(32)))
            if k == 0: y = rng.choice((-32768, 32768, 65536 + 2000, rng.randint(-2 ** 31, 2 ** 31 - 1)))
            elif k == 1: mon = x
            else: d = x
        a = [y, mon, d] + t
        chk('kv_ep_cal', a, cal(a), 'calendar constructor')
        a[3:] = [0] * 5
        chk('kv_ep_cal3', a, cal(a), 'calendar constructor, date only')
        g = lambda k: '%0*d' % (k, rng.randrange(10 ** k))
        s = '%s-%02d-%02dT%02d:%02d:%02d.%s' % (rng.choice((g(4), '2000', '1980')), rng.choice((rng.randint(1, 12),) * 9 + (13,)), rng.randint(1, 31), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), g(6))
        if rng.random() < .3: s = s.replace('T', ' ')
        n = rng.choice(ALLOWED) if rng.random() < .8 else rng.randint(0, 26)
        s = s[:n]
        if rng.random() < .05: s = (s + g(40))[:rng.randint(27, 60)]
        chk('kv_ep_iso', s, iso_want(s), 'ISO string')
    return tot, bad, [s]
