"""Back end 1: identities between real terms, decided by evaluation at random points of a prime field F_p, p ~ 2^61
(Schwartz-Zippel).  Angles and exponentials are handled through their phases (cos t = (z+1/z)/2, z a random unit), square
roots through the multiplicative group generated by quantities known to be positive.  Values are dual numbers a + b*eps, so
derivatives of code outputs are available."""
import hashlib, random
from fractions import Fraction
from . import term as T

class Resample(Exception): pass
class Unsup(Exception): pass

DBG = False
DEN = 720    # denominators of rational multiples of angles (5,9,16 | 720)

def is_prime(n):
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % a == 0: return n == a
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

_primes = {}
def gen_prime(seed):
    if seed in _primes: return _primes[seed]
    rng = random.Random('prime%s' % (seed,))
    m = 4 * DEN
    while True:
        p = (rng.getrandbits(61) | (1 << 60)) // m * m + 1
        if is_prime(p): break
    # primitive (2*DEN)-th root of unity, order 4*DEN available
    while True:
        g = rng.randrange(2, p)
        r = pow(g, (p - 1) // (4 * DEN), p)
        if pow(r, 2 * DEN, p) != 1 and pow(r, 4 * DEN // 3, p) != 1 and pow(r, 4 * DEN // 5, p) != 1: break
    _primes[seed] = (p, r)
    return p, r

def sqrt_mod(a, p):
    """Cipolla/Tonelli"""
    if a == 0: return 0
    if pow(a, (p - 1) // 2, p) != 1: return None
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1: t2 = t2 * t2 % p; i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r

_RC = sorted({Fraction(n, d) for n in (1, 2, 3, 4, 5, 6, 8, 9, 12, 16) for d in (1, 2, 3, 4, 6, 8, 16)})

_TABS = {}
class Sample:
    """One random point.  `fixed`: term -> (v0, v1) overrides; `dirs`: var name -> eps component."""
    def __init__(self, seed, basis=(), fixed=None, dirs=None, uf_rule=None, pseed=0):
        self.seed = seed
        self.p, self.root = gen_prime(pseed)
        p = self.p
        self.I = pow(self.root, DEN, p)           # sqrt(-1)
        self.val = {}
        self.fixed = dict(fixed or {})
        self.dirs = dict(dirs or {})
        self.basis_terms = list(basis)
        self.basis = None                          # list of [v0, v1, term]
        self.aatoms = {}                           # angle atoms: key -> phase base dual u  (phase = u^DEN) or derived
        self.hatoms = {}
        self.sqcache = {}
        self.uf_rule = uf_rule
        self._keys = []
        self.linmemo = {}
        self.mono_cache = {}
        self.defs = {}
        self.pikeys = set()
        self.rootcap = 5
        self.invreg, self.hinvreg = {}, {}    # values of inverse functions met so far

    def rnd(self, *tag):
        h = hashlib.blake2b(repr((self.seed,) + tag).encode(), digest_size=16).digest()
        return int.from_bytes(h, 'big') % (self.p - 2) + 1
    def inv(self, a):
        a %= self.p
        if a == 0: raise Resample('division by zero')
        return pow(a, -1, self.p)
    # dual arithmetic
    def dmul(s, a, b):
        p = s.p
        return (a[0] * b[0] % p, (a[0] * b[1] + a[1] * b[0]) % p)
    def dinv(s, a):
        i = s.inv(a[0])
        return (i, -a[1] * i * i % s.p)
    def dpow(s, a, n):
        p = s.p
        if n == 0: return (1, 0)
        if a[0] == 0: raise Resample('0^n')
        v = pow(a[0], n, p)
        return (v, n * v * s.inv(a[0]) * a[1] % p if a[1] else 0)
    def rat(s, f):
        return f.numerator % s.p * s.inv(f.denominator) % s.p

    # ------------------------------------------------------------------ evaluation
    def ev(self, t):
        v = self.val.get(t.id)
        if v is not None: return v
        # iterative over unevaluated subterms
        st = [t]
        val = self.val
        while st:
            x = st[-1]
            if x.id in val: st.pop(); continue
            todo = [a for a in x.args if a.id not in val] if x not in self.fixed else []
            if todo: st.extend(todo); continue
            val[x.id] = self._ev1(x)
            st.pop()
        return val[t.id]

    def _ev1(self, t):
        p = self.p
        if t in self.fixed: return self.fixed[t]
        op = t.op
        a = [self.val[x.id] for x in t.args]
        if op == 'c': return (self.rat(t.val), 0)
        if op == 'pi': return (self.rnd('pi'), 0)
        if op in ('var', 'intvar') and t in self.defs: return self.ev(self.defs[t])
        if op in ('var', 'intvar'): return (self.rnd('var', t.val), self.dirs.get(t.val, 0) % p)
        if op == 'add': return ((a[0][0] + a[1][0]) % p, (a[0][1] + a[1][1]) % p)
        if op == 'sub': return ((a[0][0] - a[1][0]) % p, (a[0][1] - a[1][1]) % p)
        if op == 'neg': return (-a[0][0] % p, -a[0][1] % p)
        if op == 'mul': return self.dmul(a[0], a[1])
        if op == 'div': return self.dmul(a[0], self.dinv(a[1]))
        if op == 'sqrt': return self.sqrt(a[0])
        if op in ('sin', 'cos', 'tan'):
            z = self.phase(t.args[0])
            zi = self.dinv(z)
            i2 = self.inv(2)
            c = ((z[0] + zi[0]) * i2 % p, (z[1] + zi[1]) * i2 % p)
            m = self.inv(2 * self.I)
            s = ((z[0] - zi[0]) * m % p, (z[1] - zi[1]) * m % p)
            return s if op == 'sin' else c if op == 'cos' else self.dmul(s, self.dinv(c))
        if op in ('sinh', 'cosh', 'tanh'):
            z = self.hphase(t.args[0])
            zi = self.dinv(z)
            i2 = self.inv(2)
            c = ((z[0] + zi[0]) * i2 % p, (z[1] + zi[1]) * i2 % p)
            s = ((z[0] - zi[0]) * i2 % p, (z[1] - zi[1]) * i2 % p)
            return s if op == 'sinh' else c if op == 'cosh' else self.dmul(s, self.dinv(c))
        if op == 'exp': return self.hphase(t.args[0])
        if op in ('acos', 'asin', 'atan', 'atan2'):
            w = self.invphase(t)
            v0 = self.rnd(op, *[x[0] for x in a])
            self.invreg.setdefault(v0, t)
            if w[1] == 0: return (v0, 0)
            return (v0, w[1] * self.inv(self.I * w[0]) % p)
        if op in ('acosh', 'asinh', 'atanh', 'log'):
            w, half = self.invhphase(t)
            v0 = self.rnd(op, a[0][0])
            self.hinvreg.setdefault(v0, t)
            if w[1] == 0: return (v0, 0)
            d = w[1] * self.inv(w[0]) % p
            return (v0, d * self.inv(2) % p if half else d)
        if op == 'wrap':
            x, k = a
            return ((x[0] + 2 * self.ev(T.PI)[0] * k[0]) % p, x[1])
        if op == 'pow':
            v0 = self.rnd('pow', a[0][0], a[1][0])
            if a[1][1]: raise Unsup('derivative of pow in exponent')
            return (v0, v0 * a[1][0] * self.inv(a[0][0]) * a[0][1] % p if a[0][1] else 0)
        if op == 'intof' and t in self.defs: return self.ev(self.defs[t])
        if op == 'intof': return (self.rnd('intof', t.val, a[0][0]), 0)
        if op == 'uf':
            v = self.uf_rule(self, t, a) if self.uf_rule else None
            if v is not None: return v
            if any(x[1] for x in a): raise Unsup('derivative of uninterpreted %s' % (t.val,))
            return (self.rnd('uf', t.val[0], t.val[1], *[x[0] for x in a]), 0)
        if op == 'matinv': return self.matinv(t, a)
        if op in ('nan', 'inf', 'ninf', 'divzero'):
            raise Unsup('special value %s' % op)
        raise Unsup('op ' + op)

    def matinv(self, t, a):
        n, idx = t.val
        key = ('matinv', n) + tuple(x.id for x in t.args)
        r = self.mono_cache.get(key)
        if r is None:
            p = self.p
            def gj(M):
                M = [row[:] + [1 if i == j else 0 for j in range(n)] for i, row in enumerate(M)]
                for c in range(n):
                    k = next((r for r in range(c, n) if M[r][c] % p), None)
                    if k is None: raise Resample('singular')
                    M[c], M[k] = M[k], M[c]
                    iv = self.inv(M[c][c])
                    M[c] = [x * iv % p for x in M[c]]
                    for r in range(n):
                        if r != c and M[r][c]:
                            f = M[r][c]
                            M[r] = [(x - f * y) % p for x, y in zip(M[r], M[c])]
                return [row[n:] for row in M]
            A = [[a[i * n + j][0] for j in range(n)] for i in range(n)]
            X = gj(A)
            D = [[a[i * n + j][1] for j in range(n)] for i in range(n)]
            if any(any(r) for r in D):
                mm = lambda P, Q: [[sum(P[i][k] * Q[k][j] for k in range(n)) % p for j in range(n)] for i in range(n)]
                X1 = mm(mm(X, D), X)
                r = [(X[i][j], -X1[i][j] % p) for i in range(n) for j in range(n)]
            else:
                r = [(X[i][j], 0) for i in range(n) for j in range(n)]
            self.mono_cache[key] = r
        return r[idx]

    # ------------------------------------------------------------------ angles
    def expand(self, t):
        """t as a Q-linear combination of atoms keyed by their (monomial) value: {key: [coef, term or None]}"""
        r = self.linmemo.get(t.id)
        if r is not None: return r
        p = self.p
        op = t.op
        def merge(x, y, sgn):
            o = {k: list(v) for k, v in x.items()}
            for k, (c, tm) in y.items():
                if k in o:
                    o[k][0] += sgn * c
                    if o[k][0] == 0: del o[k]
                else: o[k] = [sgn * c, tm]
            return o
        if op == 'c': r = {1: [t.val, None]} if t.val != 0 else {}
        elif t in self.defs: r = self.expand(self.defs[t])
        elif op == 'add': r = merge(self.expand(t.args[0]), self.expand(t.args[1]), 1)
        elif op == 'sub': r = merge(self.expand(t.args[0]), self.expand(t.args[1]), -1)
        elif op == 'neg': r = {k: [-c, tm] for k, (c, tm) in self.expand(t.args[0]).items()}
        elif op == 'wrap':
            r = merge(self.expand(t.args[0]), {self._pik(t.args[1]): [Fraction(2), ('piint', t.args[1])]}, 1)
        elif op == 'mul':
            x, y = self.expand(t.args[0]), self.expand(t.args[1])
            if len(x) * len(y) > 200: r = self._atom(t)
            else:
                r = {}
                for k1, (c1, t1) in x.items():
                    for k2, (c2, t2) in y.items():
                        k = k1 * k2 % p
                        tm = t1 if t2 is None else t2 if t1 is None else ('prod', t1, t2)
                        r = merge(r, {k: [c1 * c2, tm]}, 1)
        elif op == 'div':
            d = self.ev(t.args[1])
            iv = self.inv(d[0])
            r = {}
            q = self._rational(d[0])
            if q is not None and d[1] == 0: r = {k: [c / q, tm] for k, (c, tm) in self.expand(t.args[0]).items()}
            else:
             for k, (c, tm) in self.expand(t.args[0]).items():
                r = merge(r, {k * iv % p: [c, ('quot', tm, t.args[1])]}, 1)
        else: r = self._atom(t)
        self.linmemo[t.id] = r
        return r
    def _pik(self, K):
        k = self.ev(T.PI)[0] * self.ev(K)[0] % self.p
        self.pikeys.add(k)
        return k
    def _rational(self, v):
        if not hasattr(self, '_rattab'):
            self._rattab = {}
            for f in _RC:
                self._rattab[self.rat(f)] = f
                self._rattab[self.rat(-f)] = -f
        return self._rattab.get(v)
    def _atom(self, t):
        k = self.ev(t)[0]
        return {k: [Fraction(1), t]}

    def _canon(self, k, table):
        """identify keys up to a small rational factor"""
        if k in table: return k, Fraction(1)
        for f in _RC:
            for sg in (1, -1):
                g = f * sg
                kk = k * self.rat(1 / g) % self.p
                if kk in table: return kk, g
        return k, Fraction(1)

    def phase(self, t):
        res = (1, 0)
        pi = self.ev(T.PI)[0]
        ex = self.expand(t)
        p = self.p
        tot0, known = 0, 0
        for k, (c, tm) in ex.items():
            if p - k == pi: k, c = pi, -c
            if k == pi:
                n = c * DEN * 2
                if n.denominator != 1: raise Unsup('angle: odd fraction of pi %s' % c)
                # e^{i pi c} = root^{2 DEN c}
                res = self.dmul(res, (pow(self.root, int(n) % (4 * DEN), p), 0))
                continue
            if k in self.pikeys or p - k in self.pikeys:
                if c.denominator == 1 and c % 2 == 0: continue
                kv = self.rnd('par', k) % 2
                if c.denominator != 1: raise Unsup('angle: fractional 2*pi*K')
                res = self.dmul(res, (p - 1 if kv else 1, 0))
                continue
            k0, g = self._canon(k, self.aatoms)
            if k0 not in self.aatoms and not (isinstance(tm, T.Term) and tm.op in ('acos', 'asin', 'atan', 'atan2')):
                k0, g = self._canon(k, self.invreg)
                if k0 in self.invreg: tm = self.invreg[k0]
            c = c * g
            at = self.aatoms.get(k0)
            if at is None:
                d1 = self._dual_of(tm)
                if isinstance(tm, T.Term) and tm.op in ('acos', 'asin', 'atan', 'atan2'):
                    at = ('inv', self.invphase(tm), tm, {})
                else:
                    u = self.rnd('phase', k0)
                    at = ('free', u, d1)
                self.aatoms[k0] = at
            if at[0] == 'free':
                n = c * DEN
                if n.denominator != 1: raise Unsup('angle: fraction %s' % c)
                v = pow(at[1], int(n), p)
                # d/d eps of e^{i c theta} = i c theta1 e^{..}
                th1 = at[2]
                res = self.dmul(res, (v, self.I * self.rat(c) * th1 * v % p if th1 else 0))
            else:
                w = at[1]
                den = c.denominator
                if den == 1: res = self.dmul(res, self.dpow(w, int(c)))
                elif den in (2, 4):
                    x = self._half(at, w)
                    if den == 4: x = self._half2(at, x)
                    res = self.dmul(res, self.dpow(x, int(c * den)))
                else: raise Unsup('angle: fraction %s of inverse function' % c)
        return res
    def _half(self, at, w):
        memo = at[3]
        if 2 not in memo:
            i2 = self.inv(2)
            p = self.p
            wi = self.dinv(w)
            c = ((w[0] + wi[0]) * i2 % p, (w[1] + wi[1]) * i2 % p)
            m = self.inv(2 * self.I)
            s = ((w[0] - wi[0]) * m % p, (w[1] - wi[1]) * m % p)
            ch = self.sqrt(((1 + c[0]) * i2 % p, c[1] * i2 % p))
            sh = self.dmul(s, self.dinv((2 * ch[0] % p, 2 * ch[1] % p)))
            memo[2] = ((ch[0] + self.I * sh[0]) % p, (ch[1] + self.I * sh[1]) % p)
        return memo[2]
    def _half2(self, at, x):
        return self._half(('x', 0, 0, at[3].setdefault('h2', {})), x)
    def _dual_of(self, tm):
        if tm is None: return 0
        if isinstance(tm, T.Term): return self.ev(tm)[1]
        if tm[0] == 'scal': return self.rat(tm[1]) * self._dual_of(tm[2]) % self.p
        if tm[0] == 'prod':
            a, b = self._full(tm[1]), self._full(tm[2])
            return self.dmul(a, b)[1]
        if tm[0] == 'quot':
            return self.dmul(self._full(tm[1]), self.dinv(self.ev(tm[2])))[1]
        return 0
    def _full(self, tm):
        if tm is None: return (1, 0)
        if isinstance(tm, T.Term): return self.ev(tm)
        if tm[0] == 'prod': return self.dmul(self._full(tm[1]), self._full(tm[2]))
        if tm[0] == 'quot': return self.dmul(self._full(tm[1]), self.dinv(self.ev(tm[2])))
        if tm[0] == 'piint': return (self.ev(T.PI)[0] * self.ev(tm[1])[0] % self.p, 0)

    def invphase(self, t):
        p = self.p
        a = [self.ev(x) for x in t.args]
        I = self.I
        if t.op == 'acos':
            x = a[0]
            x2 = self.dmul(x, x)
            s = self.sqrt(((1 - x2[0]) % p, -x2[1] % p))
            return ((x[0] + I * s[0]) % p, (x[1] + I * s[1]) % p)
        if t.op == 'asin':
            x = a[0]
            x2 = self.dmul(x, x)
            c = self.sqrt(((1 - x2[0]) % p, -x2[1] % p))
            return ((c[0] + I * x[0]) % p, (c[1] + I * x[1]) % p)
        if t.op == 'atan':
            x = a[0]
            x2 = self.dmul(x, x)
            r = self.dinv(self.sqrt(((1 + x2[0]) % p, x2[1])))
            return self.dmul(r, ((1 + I * x[0]) % p, I * x[1] % p))
        y, x = a
        y2, x2 = self.dmul(y, y), self.dmul(x, x)
        r = self.dinv(self.sqrt(((y2[0] + x2[0]) % p, (y2[1] + x2[1]) % p)))
        return self.dmul(r, ((x[0] + I * y[0]) % p, (x[1] + I * y[1]) % p))

    def invhphase(self, t):
        """e^t (or e^{2t}, half=True)"""
        p = self.p
        x = self.ev(t.args[0])
        x2 = self.dmul(x, x)
        if t.op == 'log': return x, False
        if t.op == 'acosh':
            s = self.sqrt(((x2[0] - 1) % p, x2[1]))
            return ((x[0] + s[0]) % p, (x[1] + s[1]) % p), False
        if t.op == 'asinh':
            s = self.sqrt(((x2[0] + 1) % p, x2[1]))
            return ((x[0] + s[0]) % p, (x[1] + s[1]) % p), False
        return self.dmul(((1 + x[0]) % p, x[1]), self.dinv(((1 - x[0]) % p, -x[1] % p))), True

    def hphase(self, t):
        res = (1, 0)
        p = self.p
        for k, (c, tm) in self.expand(t).items():
            if DEN % c.denominator and not (isinstance(tm, T.Term) and tm.op in ('acosh', 'asinh', 'atanh', 'log')) and k not in self.hinvreg:
                k, c, tm = k * self.rat(c) % p, Fraction(1), ('scal', c, tm)      # an unusual rational factor belongs to the atom
            k0, g = self._canon(k, self.hatoms)
            if k0 not in self.hatoms and not (isinstance(tm, T.Term) and tm.op in ('acosh', 'asinh', 'atanh', 'log')):
                k0, g = self._canon(k, self.hinvreg)
                if k0 in self.hinvreg: tm = self.hinvreg[k0]
            c = c * g
            at = self.hatoms.get(k0)
            if at is None:
                if isinstance(tm, T.Term) and tm.op in ('acosh', 'asinh', 'atanh', 'log'):
                    w, half = self.invhphase(tm)
                    at = ('inv', w, half)
                else: at = ('free', self.rnd('hphase', k0), self._dual_of(tm))
                self.hatoms[k0] = at
            if at[0] == 'free':
                n = c * DEN
                if n.denominator != 1: raise Unsup('exp: fraction %s' % c)
                v = pow(at[1], int(n), p)
                res = self.dmul(res, (v, self.rat(c) * at[2] * v % p if at[2] else 0))
            else:
                e = c / 2 if at[2] else c
                if e.denominator == 1: res = self.dmul(res, self.dpow(at[1], int(e)))
                elif e.denominator == 2:
                    res = self.dmul(res, self.dpow(self.sqrt(at[1]), int(2 * e)))
                elif e.denominator == 4:
                    res = self.dmul(res, self.dpow(self.sqrt(self.sqrt(at[1])), int(4 * e)))
                else: raise Unsup('exp: fraction %s of inverse function' % c)
        return res

    # ------------------------------------------------------------------ square roots
    def get_basis(self):
        if self.basis is None:
            self.basis = []
            self._t1, self._invc, self.ndecl = None, {}, None
            for b in self.basis_terms:
                v = self.ev(b)
                if all(v[0] != x[0] for x in self.basis): self.basis.append((v[0], v[1], b))
            self.ndecl, self._t1, self.mono_cache = len(self.basis), None, {}
        return self.basis

    def monomial(self, v, sq, declared=False):
        """find s = c * prod basis^e with s == v (sq False) or s^2 == v (sq True); returns (s0, exps, c) or None.
        With sq=False c ranges over +-rationals.  declared=True uses only the quantities declared positive by the contract
        (not the square roots met so far, whose independence is not known)."""
        B = self.get_basis()
        if self.ndecl is None:                 # the declared quantities are still being evaluated
            self.ndecl = len(B)
            try: self._t1 = None; return self._mono(v, sq, B, True)
            finally: self.ndecl, self._t1 = None, None
        key = (v, sq, self.ndecl if declared else len(B), declared)
        if key in self.mono_cache: return self.mono_cache[key]
        res = self._mono(v, sq, B, declared)
        self.mono_cache[key] = res
        return res
    def _powtab(self, bs, rr, tab):
        p = self.p
        for (b, _, _) in bs:
            bi = self.inv(b)
            pw = {e: (pow(b, e, p) if e >= 0 else pow(bi, -e, p)) for e in rr}
            nt = {}
            for val, ex in tab.items():
                for e in rr: nt.setdefault(val * pw[e] % p, ex + (e,))
            tab = nt
        return tab
    def _mono(self, v, sq, B, declared):
        p = self.p
        if v == 0: return None
        rng = {0: (0,), 1: range(-8, 9), 2: range(-6, 7), 3: range(-4, 5), 4: range(-3, 4), 5: range(-2, 3)}
        nd = self.ndecl
        h = nd // 2
        if self._t1 is None:
            key = (p, tuple(x[0] for x in B[:nd]))
            got = _TABS.get(key)
            if got is None:
                base = self._powtab(B[:h], rng.get(h, range(-2, 3) if h < 7 else range(-1, 2)), {1: ()})
                cs = [(f, self.rat(f), -f) for f in _RC]
                t1, t1sq = {}, {}
                for x, ex in base.items():
                    for f, fv, nf in cs:
                        y = x * fv % p
                        t1.setdefault(y, (ex, f))
                        t1.setdefault(p - y, (ex, nf))
                        t1sq.setdefault(y * y % p, y)
                n2 = nd - h
                t2d = self._powtab(B[h:nd], rng.get(n2, range(-2, 3) if n2 < 7 else range(-1, 2)), {1: ()})
                if len(_TABS) > 40: _TABS.clear()
                got = _TABS[key] = (t1, t1sq, t2d)
            self._t1, self._t1sq, self._t2d = got
            self._t2 = (nd, self._t2d)
        if not declared and self._t2[0] != len(B):
            # roots met so far: exponents -1..1, at most five of them, most recent first
            self._t2 = (len(B), self._powtab(B[nd:][-min(self.rootcap, 5 if len(self._t2d) < 4000 else 3):] if self.rootcap else [], range(-1, 2), self._t2d))
        t1, t1sq = self._t1, self._t1sq
        t2 = self._t2d if declared else self._t2[1]
        if sq:
            for y, ey in t2.items():
                z = v * self._i2(y) % p
                x = t1sq.get(z)
                if x is not None: return (x * y % p, t1[x][0] + ey, t1[x][1])
            return None
        for y, ey in t2.items():
            r = t1.get(v * self._i1(y) % p)
            if r is not None: return (v, r[0] + ey, r[1])
        return None
    def _i1(self, y):
        r = self._invc.get(y)
        if r is None: r = self._invc[y] = pow(y, -1, self.p)
        return r
    def _i2(self, y):
        r = self._i1(y)
        return r * r % self.p

    def sqrt(self, tv):
        p = self.p
        if tv[0] == 0:                             # zero at a random point: identically zero
            if tv[1]: raise Unsup('derivative of sqrt at 0')
            return (0, 0)
        s = self.sqcache.get(tv[0])
        if s is None:
            m = self.monomial(tv[0], True)
            if m is not None: s = m[0]
            else:
                s = sqrt_mod(tv[0], p)
                if s is None: raise Resample('non-residue')
                if self.rnd('sgn', tv[0]) & 1: s = p - s
                self.get_basis().append((s, 0, None))
            if DBG and m is None: print("SQRT not monomial", len(self.basis)); import traceback; traceback.print_stack(limit=8)
            self.sqcache[tv[0]] = s
        return (s, tv[1] * self.inv(2 * s) % p if tv[1] else 0)
    def matches(self, a, b):
        return self.ev(a)[0] == self.ev(b)[0]

class Space:
    """A family of random points sharing basis / definitions; provides identity and sign queries."""
    def __init__(self, seed=1, basis=(), nsamples=3, setup=None, uf_rule=None, dirs=None, maxtry=4000):
        self.seed, self.basis, self.n, self.setup, self.uf_rule, self.dirs = seed, list(basis), nsamples, setup, uf_rule, dirs
        self.samples = None
        self.maxtry = maxtry
        self.tries = 0
        self.queries = 0
        self.epoch = 0
        self.watch = []
    def new_sample(self, k):
        s = Sample((self.seed, k), self.basis, uf_rule=self.uf_rule, dirs=self.dirs, pseed='%s.%s' % (self.seed, k % 5))
        if self.setup: self.setup(s)
        return s
    def get(self):
        if self.samples is None:
            self.samples = []
            self.k = 0
            while len(self.samples) < self.n: self._add()
        return self.samples
    def _add(self):
        while True:
            self.k += 1
            if self.k > self.maxtry: raise Unsup('no admissible sample point found (%d tries)' % self.maxtry)
            try:
                s = self.new_sample(self.k)
                for w in self.watch: s.ev(w)
                self.samples.append(s)
                return
            except Resample: continue
    def each(self, terms, f):
        """evaluate f on each sample, resampling a point on which a term is undefined (division by zero, non-residue)"""
        self.queries += 1
        self.get()
        for i in range(self.n):
            while True:
                s = self.samples[i]
                try:
                    r = f(s)
                    break
                except Resample:
                    del self.samples[i]
                    # remember what must be defined so that the replacement is admissible for it as well
                    for t in terms:
                        if t not in self.watch: self.watch.append(t)
                    if len(self.watch) > 400: del self.watch[:200]
                    self._add()
                    self.samples.insert(i, self.samples.pop())
            yield r
    def twin(self, s, dirs):
        """the same point with another direction"""
        t = Sample(s.seed, self.basis, uf_rule=self.uf_rule, dirs=dirs, pseed='%s.%s' % (self.seed, s.seed[1] % 5))
        if self.setup: self.setup(t)
        return t
    def iszero(self, t):
        for r in self.each([t], lambda s: s.ev(t)[0]):
            if r != 0: return False
        return True
    def equal(self, a, b):
        d = T.sub(a, b)
        if d is T.ZERO: return True
        return self.iszero(d)
    def equal_angle(self, a, b):
        """a == b modulo 2*pi"""
        d = T.sub(a, b)
        if d is T.ZERO: return True
        for r in self.each([a, b], lambda s: s.phase(d)[0]):
            if r != 1: return False
        return True
    def equal_exp(self, a, b):
        """a == b through exp(a - b) == 1 (exp is injective on the reals)"""
        d = T.sub(a, b)
        if d is T.ZERO: return True
        for r in self.each([a, b], lambda s: s.hphase(d)[0]):
            if r != 1: return False
        return True
    def deriv_equal(self, a, b):
        """eps-component of a equals value of b"""
        for r in self.each([a, b], lambda s: (s.ev(a)[1] - s.ev(b)[0]) % s.p):
            if r: return False
        return True
    # signs
    def sign_monomial(self, t):
        """'+', '-', or None: t == c * monomial in the positive basis"""
        got = None
        for r in self.each([t], lambda s: self._sm(s, t)):
            if r is None: return None
            if got is not None and r != got: return None
            got = r
        return '+' if got > 0 else '-'
    def _sm(self, s, t):
        v = s.ev(t)[0]
        m = s.monomial(v, False, True)
        return None if m is None else (1 if m[2] > 0 else -1)
