"""Low-precision planetary ephemerides: JPL's linear element model."""
import itertools
from .common import *
from . import elements as EL
from .C24 import KEP_M, KEP_F, MEQ, MEQ_R, POSVEL, TN, STUB, LOGIC, d, ref_state, ref_true, from_type, to_type, nrm, close
from kvc.llir import KThrow
IR_ = ['drivers/jpl.cpp', 'src/udpla/jpl_lp.cpp', 'src/core_astro/ic2par2ic.cpp', 'src/core_astro/eq2par2eq.cpp']
def program(): return build.program(IR_, ('-I' + STUB,))
REPLAY = dict(srcs=IR_ + ['src/planet.cpp', 'src/epoch.cpp', 'src/linalg.cpp'], libs=['-lfmt', '-lopenblas', '-llapack', '-lboost_serialization'], stubs=(STUB,))
ASSUME = ['m2f, par2ic and par2eq represented by their contracts (C05, C02, C04)', 'the hash function and rehash policy of libstdc++, std::tolower in the classic locale', 'planet names: lower, upper and mixed case in the symbolic part, every combination of letter cases at run time']
# https://ssd.jpl.nasa.gov/planets/approx_pos.html, table 1 (1800 AD - 2050 AD): a [au], e, I, L, long. of perihelion, long. of node [deg], and rates per century
JPL = {
 'mercury': ('0.38709927 0.20563593 7.00497902 252.25032350 77.45779628 48.33076593', '0.00000037 0.00001906 -0.00594749 149472.67411175 0.16047689 -0.12534081'),
 'venus': ('0.72333566 0.00677672 3.39467605 181.97909950 131.60246718 76.67984255', '0.00000390 -0.00004107 -0.00078890 58517.81538729 0.00268329 -0.27769418'),
 'earth': ('1.00000261 0.01671123 -0.00001531 100.46457166 102.93768193 0.0', '0.00000562 -0.00004392 -0.01294668 35999.37244981 0.32327364 0.0'),
 'mars': ('1.52371034 0.09339410 1.84969142 -4.55343205 -23.94362959 49.55953891', '0.00001847 0.00007882 -0.00813131 19140.30268499 0.44441088 -0.29257343'),
 'jupiter': ('5.20288700 0.04838624 1.30439695 34.39644051 14.72847983 100.47390909', '-0.00011607 -0.00013253 -0.00183714 3034.74612775 0.21252668 0.20469106'),
 'saturn': ('9.53667594 0.05386179 2.48599187 49.95424423 92.59887831 113.66242448', '-0.00125060 -0.00050991 0.00193609 1222.49362201 -0.41897216 -0.28867794'),
 'uranus': ('19.18916464 0.04725744 0.77263783 313.23810451 170.95427630 74.01692503', '-0.00196176 -0.00004397 -0.00242939 428.48202785 0.40805281 0.04240589'),
 'neptune': ('30.06992276 0.00859048 1.77004347 -55.12002969 44.96476227 131.78422574', '0.00026291 0.00005105 0.00035372 218.45945325 -0.32241464 -0.00508664')}
FR = T.Fraction
AU, MUS = 149597870700, T.from_double(1.32712440041279419e20)
LO, HI = -73048, 18263
def model(name):
    """a, e, i, node, argument of perihelion, mean anomaly (metres, radians) at date d"""
    x, r = [[const(FR(k)) for k in s.split()] for s in JPL[name]]
    c = (d - const(FR(1, 2))) / 36525
    a, e, i, L, p, W = [p + q * c for p, q in zip(x, r)]
    D2R = PI / 180
    return [a * AU, e, i * D2R, W * D2R, (p - W) * D2R, (L - p) * D2R]
f = var('f')
half = lambda t: t * const(FR(1, 2))
def hb(E, p, n, seed):
    h = 5381
    for k in range(E.conc(n)): h = (h * 33 + E.conc(E.load_i(p + k, 1))) & ((1 << 64) - 1)
    return h
def low(E, c, loc):
    c = E.conc(c)
    return c | 32 if 65 <= c <= 90 else c
nop = lambda E, *a: None
OV = [(r'^(std::)?_Hash_bytes', hb), (r'tolower<char>', low), (r'^std::locale::(~)?locale', nop), (r'ios_base::Init::', nop), (r'_Prime_rehash_policy::_Prime_rehash_policy', nop), (r'_M_need_rehash', lambda E, *a: [0, 0]), (r'_M_next_bkt', lambda E, s, n: max(13, E.conc(n)))]
class Jp(Case):
    sweep_n = 0
    planet, spell, out = 'earth', None, KEP_F
    gdirty = True
    def init(self):
        self.inputs = ()
        if self.planet in JPL:
            m = self.m = model(self.planet)
            self.basis = [m[1], 1 - m[1], 1 + m[1], m[0]]
            self.facts_ = [('gt', d, const(LO)), ('lt', d, const(HI))]
        def m2f(E, M, e): self.calls.append(('m2f', M, e)); return f
        def par2ic(E, ret, el, mu):
            a = E.doubles(el, 6)
            self.calls.append(('par2ic', a, mu))
            for k in range(6): E.store_d(ret + 8 * k, T.uf('par2ic', *a, mu, idx=k))
        def par2eq(E, ret, el, retro):
            a = E.doubles(el, 6)
            self.calls.append(('par2eq', a, E.conc(retro) & 1))
            for k in range(6): E.store_d(ret + 8 * k, T.uf('par2eq%d' % (E.conc(retro) & 1), *a, idx=k))
        self.overrides = OV + [(r'^kep3::m2f\(', m2f), (r'^kep3::par2ic\(', par2ic), (r'^kep3::par2eq\(', par2eq)]
    def make(self, E):
        self.calls = []
        for md in E.prog.mods:
            for fn in md.funcs:
                if fn.startswith('_GLOBAL__sub_I_') and 'jpl_lp' in fn: E.call(fn)
        E.gok |= E.dirty_globals()
        b = E.alloc(E.call('kv_jpl_size') + 64)
        if self.spell is None: E.call('kv_jpl_def', b); return b
        s = self.spell.encode()
        nm = E.alloc(len(s) + 16)
        for k, c in enumerate(s): E.store_i(nm + k, c, 1)
        E.call('kv_jpl_new', b, nm, len(s))
        return b
    def pre(self, P, calls, what):
        n = [c for c in calls if c[0] == 'm2f']
        P.check(what + ': Kepler equation solved once', len(n) == 1)
        for c in n: P.eq(what + ': mean anomaly', c[1], self.m[5]); P.eq(what + ': eccentricity given to Kepler', c[2], self.m[1])
    def draw(self, r): return {d: r.uniform(LO, HI), f: r.uniform(-3, 3)}
class Model(Jp):
    def entry(self, E):
        b = self.make(E)
        g, x, z = E.put_doubles([0] * 4), E.put_doubles([0] * 6), E.put_doubles([0] * 6)
        E.call('kv_jpl_get', b, g)
        c0 = len(self.calls); E.call('kv_jpl_eph', b, d, x)
        c1 = len(self.calls); E.call('kv_jpl_elem', b, d, self.out, z)
        return [E.doubles(g, 4), E.doubles(x, 6), E.doubles(z, 6), self.calls[c0:c1], self.calls[c1:]]
    def post(self, o, P):
        g, x, z, ca, cb = o
        P.eq('gravitational parameter of the Sun', g[0], MUS)
        self.pre(P, ca, 'ephemeris'); self.pre(P, cb, 'elements')
        n = [c for c in ca if c[0] == 'par2ic']
        P.check('state from the elements', len(n) == 1)
        el = self.m[:5] + [f]
        for c in n:
            for k, t in enumerate(('semi-major axis', 'eccentricity', 'inclination', 'node', 'argument of perihelion', 'true anomaly')): P.eq('ephemeris: ' + t, c[1][k], el[k])
            P.eq('ephemeris: mu', c[2], MUS)
            for k in range(6): P.eq('ephemeris component %d' % k, x[k], T.uf('par2ic', *c[1], c[2], idx=k))
        a, e, i, W, w = self.m[:5]
        if self.out in (KEP_F, KEP_M):
            for k, t in enumerate(('semi-major axis', 'eccentricity', 'inclination', 'node', 'argument of perihelion')): P.eq('elements: ' + t, z[k], el[k])
            if self.out == KEP_F: P.eq('elements: true anomaly', z[5], f)
            else:
                EA = 2 * atan(sqrt((1 - e) / (1 + e)) * tan(half(f)))
                P.angle('elements: mean anomaly of the true anomaly', z[5], EA - e * sin(EA))
        else:
            n = [c for c in cb if c[0] == 'par2eq']
            P.check('elements: one conversion', len(n) == 1)
            for c in n:
                for k, t in enumerate(('semi-major axis', 'eccentricity', 'inclination', 'node', 'argument of perihelion', 'true anomaly')): P.eq('conversion to equinoctial elements: ' + t, c[1][k], el[k])
                P.check('elements: retrograde convention', c[2] == (self.out == MEQ_R))
                for k, t in enumerate('pfghkL'): P.eq('elements: ' + t, z[k], T.uf('par2eq%d' % (self.out == MEQ_R), *el, idx=k))
class Dflt(Jp):
    """default date of elements: 0 MJD2000, true anomaly"""
    def entry(self, E):
        b, z = self.make(E), E.put_doubles([0] * 6)
        E.call('kv_jpl_elem0', b, z)
        return [E.doubles(z, 6), list(self.calls)]
    def post(self, o, P):
        z, c = o
        at0 = lambda t: T.substitute([t], {d: T.ZERO})[0]
        P.eq('mean anomaly', c[0][1], at0(self.m[5]))
        for k in range(5): P.eq('element %d' % k, z[k], at0(self.m[k]))
        P.eq('true anomaly', z[5], f)
class Out(Jp):
    """dates outside the interval of validity; unsupported element types"""
    def entry(self, E):
        b, z = self.make(E), E.put_doubles([0] * 6)
        if self.what == 'eph': E.call('kv_jpl_eph', b, self.dd, z)
        else: E.call('kv_jpl_elem', b, self.dd, self.out, z)
class Unknown(Jp):
    def entry(self, E):
        try: self.make(E)
        except KThrow as ex: return [1]
        return [0]
    def post(self, o, P): P.check('an exception is thrown', o == [1])
def spellings(n): return [n, n.upper(), n.capitalize(), ''.join(c.upper() if k % 2 else c for k, c in enumerate(n))]
UNKNOWN = ['', 'pluto', 'Pluto', 'moon', 'earth ', ' earth', 'eart', 'earthh', 'mars2', 'sun', 'e\x41rth\x00'[:6], 'jupitr']
def cases(tier):
    L = []
    for n in JPL:
        for k, out in enumerate((KEP_F, KEP_M, MEQ, MEQ_R)):
            s = spellings(n)[k]
            L.append(Model(name='%s ("%s"), %s elements' % (n, s, TN[out]), planet=n, spell=s, out=out))
    for n in ('earth', 'neptune'):
        for what in ('eph', 'elements'):
            for nm, fa, dd in (('before the interval', [('lt', d, const(LO))], d), ('after the interval', [('gt', d, const(HI))], d), ('at its start', [], const(LO)), ('at its end', [], const(HI))):
                L.append(Out(name='%s: %s, %s' % (n, what, nm), planet=n, spell=n, what=what, dd=dd, expect=DOM, allfacts=lambda fa=fa: fa))
        for out in (POSVEL, 17): L.append(Out(name='%s: %s element type is refused' % (n, TN.get(out, 'unknown')), planet=n, spell=n, what='elements', dd=d, out=out, expect=LOGIC))
    L += [Dflt(name='default arguments: the Earth, elements at 0 MJD2000')]
    L += [Unknown(name='unknown name %r' % s, planet='', spell=s) for s in UNKNOWN if s.lower() not in JPL]
    return L
def make_replay(lib):
    lib.kv_jpl_size.restype = ctypes.c_size_t
    V, C = ctypes.c_void_p, ctypes.c_int
    for n, a in dict(new=(V, ctypes.c_char_p, ctypes.c_size_t), get=(V, V), eph=(V, D, V), elem=(V, D, C, V), elem0=(V, V), name=(V, V)).items(): getattr(lib, 'kv_jpl_' + n).argtypes = a
    lib.kv_jpl_del.argtypes = lib.kv_jpl_def.argtypes = (V,)
    return None
class Obj:
    def __init__(self, lib, name):
        self.lib = lib
        self.b = (ctypes.c_char * (lib.kv_jpl_size() + 64))()
        self.p = (ctypes.addressof(self.b) + 15) & ~15
        self.rc = lib.kv_jpl_def(self.p) if name is None else lib.kv_jpl_new(self.p, name, len(name))
    def call(self, fn, n, *a):
        o = darr([0] * n)
        rc = getattr(self.lib, 'kv_jpl_' + fn)(self.p, *a, o)
        return rc, list(o)
    def close(self):
        if not self.rc: self.lib.kv_jpl_del(self.p); self.rc = 1
def fmodel(name, dd):
    x, r = [[float(k) for k in s.split()] for s in JPL[name]]
    c = (dd - 0.5) / 36525
    a, e, i, L, p, W = [p + q * c for p, q in zip(x, r)]
    D2R = math.pi / 180
    el = [a * AU, e, i * D2R, W * D2R, (p - W) * D2R]
    return el + [ref_true(el[0], e, (L - p) * D2R)]
def runtime(lib, rng, tier):
    bad, tot, samples = [], 0, []
    mu = 1.32712440041279419e20
    def rep(ob, ins, got, want): bad.append(dict(case='low-precision planet', obligation=ob + ' (runtime check)', status='confirmed', inputs=ins, outputs=got, expected=want))
    for n in JPL:
        ref = Obj(lib, n.encode())
        if ref.rc: rep('%s is recognised' % n, [n], ref.rc, 0); continue
        e0 = ref.call('eph', 6, 1234.5)
        for bits in itertools.product((0, 1), repeat=len(n)):      # every combination of letter cases
            s = ''.join(c.upper() if b else c for c, b in zip(n, bits))
            x = Obj(lib, s.encode()); tot += 1
            if x.rc or x.call('eph', 6, 1234.5) != e0: rep('%s is %s' % (s, n), [s], x.rc, 0)
            x.close()
        for k in range(250 if tier == 'quick' else 20000):
            dd = rng.choice((rng.uniform(LO, HI), math.nextafter(LO, 0), math.nextafter(HI, 0), rng.uniform(-2, 2), LO + 10 ** rng.uniform(-9, 0), HI - 10 ** rng.uniform(-9, 0)))
            el = fmodel(n, dd); st = ref_state(*el, mu); tot += 1
            if len(samples) < 3: samples.append(dd)
            rc, o = ref.call('eph', 6, dd)
            if rc or not close(o, st, 1e-10): rep('%s: state' % n, [n, dd], o if not rc else rc, st)
            out = rng.choice((KEP_M, KEP_F, MEQ, MEQ_R))
            rc, o = ref.call('elem', 6, dd, out)
            if rc: rep('%s: %s elements available' % (n, TN[out]), [n, dd], rc, 0); continue
            want = to_type(out, el)
            back = ref_state(*from_type(out, o), mu)
            if not close(back, st, 1e-6 if abs(el[2]) > 1e-5 or out in (KEP_F, KEP_M) else 1e-3): rep('%s: %s elements describe the state' % (n, TN[out]), [n, dd], o, want)
        for dd in (LO, HI, math.nextafter(LO, -1e9), math.nextafter(HI, 1e9), LO - 10 ** rng.uniform(-6, 6), HI + 10 ** rng.uniform(-6, 6), -math.inf, math.inf):
            tot += 1
            for r in (ref.call('eph', 6, float(dd))[0], ref.call('elem', 6, float(dd), rng.choice((KEP_M, KEP_F, MEQ, MEQ_R)))[0]):
                if r != 1: rep('%s: date outside the interval is refused' % n, [n, dd], r, 1)
        if ref.call('elem', 6, 0.0, POSVEL)[0] != 3: rep('Cartesian type refused', [n], 0, 3)
        ref.close()
        if len(bad) > 4: break
    z = Obj(lib, None); y = Obj(lib, b'earth')
    if z.rc or z.call('eph', 6, 77.0) != y.call('eph', 6, 77.0) or z.call('elem0', 6) != y.call('elem', 6, 0.0, KEP_F): rep('default arguments', [], 0, 0)
    z.close(); y.close()
    for s in [u.encode() for u in UNKNOWN if u.lower() not in JPL] + [bytes(rng.randrange(97, 123) for _ in range(rng.randint(1, 30))) for _ in range(200)]:
        if s.decode() in JPL: continue
        x = Obj(lib, s); tot += 1
        if not x.rc: rep('unknown name throws', [repr(s)], 0, 'exception'); x.close()
    return tot, bad[:5], samples
