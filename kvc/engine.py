"""Symbolic execution of the IR (forward predicate transformer), one path at a time; every branch on a symbolic condition is
either decided by a proof (identity / sign / z3) or both sides are explored.  Loops whose trip count is concrete unroll completely."""
import re, sys
from . import term as T
from .llir import *
sys.setrecursionlimit(20000)

class Lit:
    __slots__ = ('pred', 'a', 'b')
    def __init__(self, pred, a, b): self.pred, self.a, self.b = pred, a, b
    def __repr__(self): return '%r %s %r' % (self.a, self.pred, self.b)
class NotLit:
    __slots__ = ('l',)
    def __init__(self, l): self.l = l
    def __repr__(self): return 'not(%r)' % (self.l,)

class SymInt:
    """an integer known only as a real-valued term"""
    __slots__ = ('E', 't')
    def __init__(self, E, t): self.E, self.t = E, t
    def _o(self, o): return o.t if isinstance(o, SymInt) else T.const(o - (1 << 64) if o >= (1 << 63) else o)
    def __add__(s, o): return SymInt(s.E, T.add(s.t, s._o(o)))
    __radd__ = __add__
    def __sub__(s, o): return SymInt(s.E, T.sub(s.t, s._o(o)))
    def __rsub__(s, o): return SymInt(s.E, T.sub(s._o(o), s.t))
    def __mul__(s, o): return SymInt(s.E, T.mul(s.t, s._o(o)))
    __rmul__ = __mul__
    def __and__(s, m):
        if m == (1 << 32) - 1 and s.t.op == 'add':
            x, y = s.t.args
            if T.isc(y): x, y = y, x
            if T.isc(x) and (1 << 31) <= x.val < (1 << 32): return SymInt(s.E, T.add(y, T.const(x.val - (1 << 32))))
        if m in (M64, (1 << 32) - 1): return s
        return s.E.conc(s) & m
    def __eq__(s, o): return s.E.conc(s) == (s.E.conc(o))
    def __hash__(s): return s.t.id
    def __repr__(s): return 'SymInt(%r)' % (s.t,)

class Pair:
    """a memory word holding two 32-bit integers, at least one of them symbolic"""
    __slots__ = ('lo', 'hi')
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi

SW = {'!=': 'ne', '==': 'eq', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}
TRUTH = {'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {1, 0}, 'eq': {0}, 'ne': {-1, 1}}

# std exception hierarchy (typeinfo symbol -> base)
STDX = {'_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
        '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
        '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
        '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt19bad_optional_access': '_ZTISt9exception',
        '_ZTISt12bad_any_cast': '_ZTISt8bad_cast', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc'}

def signed(x, n):
    return x - (1 << n) if x >> (n - 1) else x

class FnTable(dict):
    def __init__(self, E): self.E = E
    def __missing__(self, name):
        E = self.E
        f = E.over.get(name)
        if f is None:
            if name in EXT: f = EXT[name]
            else:
                f = E.prog.get(name)
                if f is None:
                    for pat, g in EXTPAT:
                        if pat.match(name): f = g; break
                if f is None:
                    dm = E.prog.demangled().get(name, name)
                    for pat, g in EXTDEM:
                        if pat.search(dm): f = g; break
                if f is None: raise Unsupported('external function %s' % dm)
        else: E.over_used.add(name)
        self[name] = f
        return f

class Engine:
    def __init__(self, prog, overrides=None, oracle=None, maxsteps=3000000):
        """overrides: list of (regex on demangled name, function)"""
        self.prog = prog
        self.over = {}
        self.over_used = set()
        for pat, f in list(overrides or []) + DEFOVER:
            ms = prog.find(pat)
            for m in ms: self.over.setdefault(m, f)
        self.fn = FnTable(self)
        self.oracle = oracle
        self.maxsteps = maxsteps
        self.forks_allowed = True
        self.reset([])
    def reset(self, decisions):
        self.mem = {}
        self.top = 0x1000
        self.allocs = {}
        self.freed = set()
        self.heap = set()
        self.steps = 0
        self.decisions = list(decisions)
        self.nd = 0
        self.pending = []       # alternative decision prefixes discovered on this path
        self.pc = []            # (Lit, truth, how)
        self.signs = {}         # term -> set of signs assumed on this path
        self.roots = []
        self.obl = []           # obligations raised inside the path: (name, kind, payload)
        self.events = []
        self.counter = 0
        self.guards, self.gok = [], set()
        if self.oracle: self.oracle.start_path(self)
    def step(self):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported('step limit (unbounded loop?)')
    def dirty_globals(self):
        gi = self.prog.ginit
        B, F = self.prog.GBASE, self.prog.FBASE
        return {w for w, v in self.mem.items() if B <= w < F and not (v is gi.get(w) or v.__class__ is int and v == gi.get(w))}
    def frame_violations(self):
        """names of global / static variables written outside their one-time initialisation"""
        d = self.dirty_globals() - self.gok
        if not d: return []
        out = set()
        for k, a in self.prog.gaddrs.items():
            n = self.prog.gsize[a]
            if any(a <= w < a + n for w in d): out.add(k if isinstance(k, str) else k[1])
        return sorted(x for x in out if not x.startswith(('_ZGV', '_ZZN2xt6detail')) and x not in ('errno',))       # guards; scratch of xtensor
    def fresh(self, tag):
        self.counter += 1
        return '%s!%d' % (tag, self.counter)
    # ---- memory
    def alloc(self, n):
        a = self.top
        n = max(int(self.conc(n)), 1)
        w = (n + 7) // 8
        self.top += 8 * w + 64
        self.top = (self.top + 15) // 16 * 16
        mem = self.mem
        for k in range(w): mem[a + 8 * k] = UNDEF
        self.allocs[a] = n
        return a
    alloca = alloc
    def malloc(self, n):
        a = self.alloc(n); self.heap.add(a); return a
    def free(self, a):
        if a == 0: return
        if a not in self.heap: raise MemFault('free of non-heap pointer %x' % a)
        self.heap.discard(a)
        for k in range((self.allocs[a] + 7) // 8): self.mem.pop(a + 8 * k, None)
        self.freed.add(a)
    def word(self, w):
        v = self.mem.get(w)
        if v is None:
            v = self.prog.ginit.get(w)
            if v is None: raise MemFault('access outside any live object at %x' % w)
        return v
    def load_d(self, a):
        if a & 7: return self.bits2d(self.load_i(a, 8))
        v = self.mem.get(a)
        if v is None: v = self.word(a)
        if v.__class__ is T.Term: return v
        if v is UNDEF: return UNDEF
        return self.bits2d(v)
    def store_d(self, a, v):
        if a & 7:
            self.store_i(a, self.d2bits(v), 8); return
        if a not in self.mem: self.word(a)
        self.mem[a] = v
    def load_i(self, a, n):
        w = a & ~7
        v = self.word(w)
        if n == 8 and a == w: return v
        if v is UNDEF: return 0 if n < 8 else UNDEF
        if isinstance(v, T.Term): v = self.d2bits(v)
        if isinstance(v, Pair):
            if n == 4 and (a == w or a == w + 4): return v.lo if a == w else v.hi
            h = v.lo if a < w + 4 else v.hi
            if h.__class__ is int and (a & 3) + n <= 4: return (h >> 8 * (a & 3)) & ((1 << 8 * n) - 1)
            v = self.unpair(w, v)
        if isinstance(v, SymInt):
            if a == w and n == 4: return v
            v = self.conc(v)
        sh = (a - w) * 8
        if sh + 8 * n > 64:
            lo = (64 - sh) // 8
            return self.load_i(a, lo) | (self.load_i(w + 8, n - lo) << (8 * lo))
        if not isinstance(v, int): raise Unsupported('sub-word read of symbolic value')
        return (v >> sh) & ((1 << (8 * n)) - 1)
    def unpair(self, w, v):
        v = (self.conc(v.lo) & 0xffffffff) | (self.conc(v.hi) & 0xffffffff) << 32
        self.mem[w] = v
        return v
    def store_i(self, a, v, n):
        w = a & ~7
        if v.__class__ is not int:
            if isinstance(v, (Lit, NotLit)): v = 1 if self.truth(v) else 0
            elif v is UNDEF:
                if n == 8 and a == w:
                    self.word(w); self.mem[w] = v; return
                v = 0
        if n == 8 and a == w:
            if w not in self.mem: self.word(w)
            self.mem[w] = v
            return
        cur = self.word(w)
        if n == 4 and (isinstance(v, SymInt) or isinstance(cur, Pair)) and not isinstance(cur, (T.Term, SymInt)):
            if cur is UNDEF: cur = 0
            lo, hi = (cur.lo, cur.hi) if isinstance(cur, Pair) else (cur & 0xffffffff, cur >> 32)
            lo, hi = (v, hi) if a == w else (lo, v)
            self.mem[w] = Pair(lo, hi) if not (lo.__class__ is int and hi.__class__ is int) else (lo & 0xffffffff) | hi << 32
            return
        if isinstance(cur, Pair):
            h = cur.lo if a < w + 4 else cur.hi
            if h.__class__ is int and v.__class__ is int and (a & 3) + n <= 4:
                sh = 8 * (a & 3)
                h = h & ~(((1 << 8 * n) - 1) << sh) | (v & ((1 << 8 * n) - 1)) << sh
                self.mem[w] = Pair(h, cur.hi) if a < w + 4 else Pair(cur.lo, h)
                return
            cur = self.unpair(w, cur)
        if isinstance(v, SymInt):
            if a == w and n == 4 and (cur is UNDEF or isinstance(cur, SymInt) or (isinstance(cur, int) and cur >> 32 == 0)):
                self.mem[w] = v; return
            v = self.conc(v)
        if not isinstance(v, int): raise Unsupported('sub-word store of symbolic value')
        sh = (a - w) * 8
        if sh + 8 * n > 64:
            lo = (64 - sh) // 8
            self.store_i(a, v & ((1 << (8 * lo)) - 1), lo)
            self.store_i(w + 8, v >> (8 * lo), n - lo)
            return
        if cur is UNDEF: cur = 0
        if isinstance(cur, SymInt): cur = self.conc(cur)
        if isinstance(cur, T.Term): cur = self.d2bits(cur)
        msk = ((1 << (8 * n)) - 1) << sh
        self.mem[w] = (cur & ~msk) | ((v << sh) & msk)
    def memcpy(self, d, s, n):
        n = self.conc(n)
        if n == 0: return
        if (d | s) & 7 == 0:
            k = n // 8
            vals = [self.word(s + 8 * i) for i in range(k)]
            for i, v in enumerate(vals):
                if d + 8 * i not in self.mem: self.word(d + 8 * i)
                self.mem[d + 8 * i] = v
            r = n % 8
            if r:
                v = self.word(s + 8 * k)
                if v is not UNDEF:
                    if isinstance(v, Pair) and r == 4: self.store_i(d + 8 * k, v.lo, 4); return
                    bs = [self.load_i(s + 8 * k + i, 1) for i in range(r)] if not isinstance(v, SymInt) else None
                    if bs is None: self.store_i(d + 8 * k, v, r)
                    else:
                        for i, b in enumerate(bs): self.store_i(d + 8 * k + i, b, 1)
            return
        if n == 4 and isinstance(self.word(s & ~7), (SymInt, Pair)):
            self.store_i(d, self.load_i(s, 4), 4); return
        bs = [self.load_i(s + i, 1) for i in range(n)]
        for i, b in enumerate(bs): self.store_i(d + i, b, 1)
    def memset(self, d, v, n):
        n, v = self.conc(n), self.conc(v) & 255
        i = 0
        while i < n:
            if (d + i) & 7 == 0 and n - i >= 8:
                self.word(d + i)
                self.mem[d + i] = v * 0x0101010101010101
                i += 8
            else:
                self.store_i(d + i, v, 1); i += 1
    def bits2d(self, v):
        if isinstance(v, T.Term) or v is UNDEF: return v
        if isinstance(v, Pair): v = (self.conc(v.lo) & 0xffffffff) | (self.conc(v.hi) & 0xffffffff) << 32
        if isinstance(v, SymInt): v = self.conc(v)
        return T.from_double(T.bits2f(v & M64))
    def d2bits(self, t):
        if t is UNDEF: return 0
        if isinstance(t, int): return t
        if T.isc(t): return T.f2bits(float(t.val))
        if t.op in ('nan', 'inf', 'ninf'): return T.f2bits(float(t.op.replace('ninf', '-inf')))
        return t
    def cstring(self, a):
        out = bytearray()
        while True:
            b = self.load_i(a, 1)
            if b == 0: return bytes(out)
            out.append(b); a += 1
    def put_doubles(self, vals):
        a = self.alloc(8 * max(1, len(vals)))
        for i, v in enumerate(vals): self.mem[a + 8 * i] = T.lift(v)
        return a
    def doubles(self, a, n): return [self.load_d(a + 8 * i) for i in range(n)]
    # ---- values
    def idx(self, v, n):
        if v.__class__ is not int: v = self.conc(v)
        return v - (1 << n) if v >> (n - 1) else v
    def insv(self, a, v, ix):
        if a is UNDEF or a == 0: a = ()
        k = ix[0]
        a = list(a) + [0] * (k + 1 - len(a))
        a[k] = v if len(ix) == 1 else self.insv(a[k], v, ix[1:])
        return tuple(a)
    def fcmp(self, pr, a, b):
        if pr == 'true': return 1
        if pr == 'false': return 0
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an uninitialised value')
        nan = a.op == 'nan' or b.op == 'nan'
        if pr == 'ord': return 0 if nan else 1
        if pr == 'uno': return 1 if nan else 0
        if nan: return 1 if pr[0] == 'u' else 0
        pred = pr[1:]
        ia, ib = a.op in ('inf', 'ninf'), b.op in ('inf', 'ninf')
        if ia or ib:
            f = lambda t: 1 if t.op == 'inf' else -1 if t.op == 'ninf' else 0
            s = (f(a) > f(b)) - (f(a) < f(b))
            return 1 if s in TRUTH[pred] else 0
        if T.isc(a) and T.isc(b):
            s = (a.val > b.val) - (a.val < b.val)
            return 1 if s in TRUTH[pred] else 0
        if a is b: return 1 if 0 in TRUTH[pred] else 0
        return Lit(pred, a, b)
    def icmpu(self, o, a, b, n=64):
        if a.__class__ is int and b.__class__ is int:
            return 1 if (a == b if o == '==' else a != b if o == '!=' else a < b if o == '<' else a <= b if o == '<=' else a > b if o == '>' else a >= b) else 0
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            m = (1 << n) - 1
            try: a, b = [self.conc(x) & m if isinstance(x, SymInt) and x.t.op in ('add', 'sub', 'neg') and T.atoms_int(x.t) else x for x in (a, b)]
            except Unsupported: pass
            if a.__class__ is int and b.__class__ is int: return self.icmpu(o, a, b, n)
        return self._icmp_sym(o, a, b, 64)
    def icmps(self, o, a, b, n):
        if a.__class__ is int and b.__class__ is int:
            a, b = signed(a, n), signed(b, n)
            return 1 if (a < b if o == '<' else a <= b if o == '<=' else a > b if o == '>' else a >= b) else 0
        if isinstance(a, T.Term) and n == 64 and b.__class__ is int:                 # sign bit of a double
            if o == '<' and b == 0: return self.fcmp('olt', a, T.ZERO)
            if o == '>' and signed(b, n) == -1: return self.fcmp('oge', a, T.ZERO)
        return self._icmp_sym(o, a, b, n)
    def _icmp_sym(self, o, a, b, n):
        if isinstance(a, (Lit, NotLit)): a = 1 if self.truth(a) else 0
        if isinstance(b, (Lit, NotLit)): b = 1 if self.truth(b) else 0
        if a.__class__ is int and b.__class__ is int: return self.icmpu(o, a, b)
        if isinstance(a, T.Term) or isinstance(b, T.Term) or a is UNDEF or b is UNDEF: raise Unsupported('integer comparison of %r %r' % (a, b))
        f = lambda x: x.t if isinstance(x, SymInt) else T.const(x if x < (1 << 62) else x - (1 << 64))
        return self.fcmp('o' + SW[o], f(a), f(b))
    def truth(self, c):
        if c.__class__ is int: return c
        if isinstance(c, NotLit): return not self.truth(c.l)
        if isinstance(c, Lit): return self.decide(c)
        if c is UNDEF: raise Unsupported('branch on an uninitialised value')
        raise Unsupported('branch on %r' % (c,))
    def conc(self, v):
        if v.__class__ is int: return v
        if isinstance(v, (Lit, NotLit)): return 1 if self.truth(v) else 0
        if isinstance(v, SymInt):
            if T.isc(v.t): return int(v.t.val) & M64
            return self.concretise(v)
        if isinstance(v, T.Term) and T.isc(v): return T.f2bits(float(v.val))
        raise Unsupported('concretisation of %r' % (v,))
    def concretise(self, v):
        cands = self.oracle.candidates(self, v.t) if self.oracle else None
        if not cands and self.oracle and v.t.op in ('add', 'sub', 'mul', 'neg'):
            m = {}
            for x in T.closure([v.t]):
                if x.op in ('intof', 'intvar') and self.oracle.candidates(self, x): m[x] = T.const(signed(self.concretise(SymInt(self, x)), 64))
            if m:
                r = T.substitute([v.t], m)[0]
                if T.isc(r): return int(r.val) & M64
        if not cands: raise Unsupported('symbolic integer %r needed concretely' % (v,))
        for c in cands:
            if self.decide(Lit('eq', v.t, T.const(c))):
                return c & M64
        self.abort_int = (v.t, list(cands))
        raise PathAbort('integer outside candidate range')
    def zext(self, v, n=0, m=0):
        if v.__class__ is int or isinstance(v, SymInt) or v is UNDEF: return v
        return self.conc(v)
    def sext(self, v, n, m):
        if isinstance(v, SymInt): return v
        v = self.conc(v)
        return signed(v, n) & ((1 << m) - 1)
    def trunc(self, v, n):
        if v.__class__ is int: return v & ((1 << n) - 1)
        if isinstance(v, SymInt) and n >= 32: return v
        if v is UNDEF: return 0
        if isinstance(v, T.Term): raise Unsupported('truncation of double bits')
        return self.conc(v) & ((1 << n) - 1)
    def i2f(self, v, n, sgn):
        if isinstance(v, SymInt): return v.t
        v = self.conc(v)
        return T.const(signed(v, n) if sgn else v)
    def f2i(self, t, n, sgn):
        if t is UNDEF: raise Unsupported('fptoi of undef')
        if t.op in ('nan', 'inf', 'ninf'):
            self.events.append(('ub', 'float-to-int of %s' % t.op)); return 0
        r = T.intof('trunc', t)
        if T.isc(r):
            if not sgn and r.val < 0: self.events.append(('ub', 'negative float to unsigned'))
            return int(r.val) & ((1 << n) - 1)
        if t.op == 'intof' : r = t
        return SymInt(self, r)
    def _bin(self, a, b):
        return self.conc(a), self.conc(b)
    def bin_and(self, a, b, n):
        if n == 1 and not (a.__class__ is int and b.__class__ is int):
            if a.__class__ is int: return b if a else 0
            if b.__class__ is int: return a if b else 0
            if not self.truth(a): return 0
            return b
        if isinstance(a, T.Term) and isinstance(b, int) and b == (1 << 63) - 1: return EXT['llvm.fabs.f64'](self, a)
        if isinstance(a, SymInt) and b == (1 << n) - 1: return a
        a, b = self._bin(a, b); return a & b
    def bin_or(self, a, b, n):
        if n == 1 and not (a.__class__ is int and b.__class__ is int):
            if a.__class__ is int: return 1 if a else b
            if b.__class__ is int: return 1 if b else a
            if self.truth(a): return 1
            return b
        a, b = self._bin(a, b); return a | b
    def bin_xor(self, a, b, n):
        if isinstance(a, (Lit, NotLit)) and b == 1: return a.l if isinstance(a, NotLit) else NotLit(a)
        if isinstance(a, T.Term) and b == 1 << 63: return T.neg(a)
        a, b = self._bin(a, b); return a ^ b
    def bin_shl(self, a, b, n):
        if isinstance(a, SymInt) and b.__class__ is int: return SymInt(self, T.mul(a.t, T.const(1 << b)))
        a, b = self._bin(a, b); return (a << b) & ((1 << n) - 1)
    def bin_lshr(self, a, b, n): a, b = self._bin(a, b); return a >> b
    def bin_ashr(self, a, b, n): a, b = self._bin(a, b); return (signed(a, n) >> b) & ((1 << n) - 1)
    def bin_udiv(self, a, b, n):
        a, b = self._bin(a, b)
        if b == 0: raise MemFault('division by zero')
        return a // b
    def bin_urem(self, a, b, n):
        a, b = self._bin(a, b)
        if b == 0: raise MemFault('division by zero')
        return a % b
    def _sd(self, a, b, n):
        a, b = self._bin(a, b)
        a, b = signed(a, n), signed(b, n)
        if b == 0: raise MemFault('division by zero')
        q = abs(a) // abs(b)
        return a, b, q if (a < 0) == (b < 0) else -q
    def bin_sdiv(self, a, b, n):
        if isinstance(a, SymInt): return self.sdiv_sym(a, b)
        return self._sd(a, b, n)[2] & ((1 << n) - 1)
    def bin_srem(self, a, b, n):
        if isinstance(a, SymInt): return a - (self.sdiv_sym(a, b) * b)
        a, b, q = self._sd(a, b, n); return (a - q * b) & ((1 << n) - 1)
    def sdiv_sym(self, a, b):
        d = b.t if isinstance(b, SymInt) else T.const(b if b < (1 << 62) else b - (1 << 64))
        return SymInt(self, T.intof('trunc', T.div(a.t, d)))
    # ---- decisions
    def decide(self, lit):
        d = T.sub(lit.a, lit.b)
        ok = TRUTH[lit.pred]
        if T.isc(d):
            s = (d.val > 0) - (d.val < 0)
            return s in ok
        key, flip = (d, False) if d.op != 'neg' else (d.args[0], True)
        if key not in self.signs and T.sub(lit.b, lit.a) in self.signs: key, flip = T.sub(lit.b, lit.a), True
        ss = self.signs.get(key)
        if ss is None:
            ss = self.oracle.sign(self, key, lit) if self.oracle else {-1, 0, 1}
            self.signs[key] = ss
        cur = {-x for x in ss} if flip else ss
        if cur <= ok: return True
        if not (cur & ok): return False
        tr = None
        if self.oracle:
            tr = self.oracle.feasible(self, key, flip, lit, cur & ok, cur - ok)   # (true possible, false possible)
            if tr == (True, False): r = True
            elif tr == (False, True): r = False
            elif tr == (False, False): raise PathAbort('infeasible')
            else: r = None
        else: r = None
        forced = r is not None
        if r is None:
            if self.nd < len(self.decisions): r = self.decisions[self.nd]
            else:
                r = True
                pref = self.oracle.prefer(self, lit) if self.oracle else None
                if pref is not None: r = pref
                self.pending.append(self.decisions[:self.nd] + [not r])
                self.decisions.append(r)
            self.nd += 1
        new = (cur & ok) if r else (cur - ok)
        self.signs[key] = {-x for x in new} if flip else new
        self.pc.append((lit, r, 'proved' if forced else 'fork'))
        if self.oracle: self.oracle.assumed(self, key, self.signs[key])
        return r
    # ---- exceptions
    def matches(self, ti, want):
        if want is None: return True
        seen = 0
        while ti is not None and seen < 20:
            if ti == want: return True
            ti = self.tibase(ti); seen += 1
        return False
    def tibase(self, ti):
        if ti in STDX: return STDX[ti]
        for m in self.prog.mods:
            g = m.globals.get(ti)
            if g:
                r = re.findall(r'@(_ZTI\w+)', g)
                if r: return r[0]
        return None
    def landing(self, ex, clauses, cleanup):
        if ex is None: raise Unsupported('landing pad without exception')
        for c in clauses:
            if self.matches(ex.ti, c): return (ex.obj, self.typeid(c))
        if not cleanup: raise ex
        return (ex.obj, 0)
    def typeid(self, c):
        return 1 + (hash(c) & 0xffffff)
    def unreachable(self, name): raise MemFault('unreachable code reached in ' + name)
    def callptr(self, a, *args):
        n = self.prog.addrf.get(a)
        if n is None: raise MemFault('call through bad pointer %r' % (a,))
        return self.fn[n](self, *args)
    def call(self, name, *args): return self.fn[name](self, *[T.lift(a) if isinstance(a, float) else a for a in args])

# ------------------------------------------------------------------------------------------------ external functions
EXT = {}
EXTPAT, EXTDEM = [], []
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d
def _u(f): return lambda E, a, *r: f(a)
for nm, f in dict(sin=T.sin, cos=T.cos, tan=T.tan, asin=T.asin, acos=T.acos, atan=T.atan, sinh=T.sinh, cosh=T.cosh, tanh=T.tanh,
                  asinh=T.asinh, acosh=T.acosh, atanh=T.atanh, exp=T.exp, log=T.log, sqrt=T.sqrt).items():
    EXT[nm] = EXT['llvm.%s.f64' % nm] = _u(f)
EXT['llvm.pow.f64'] = EXT['pow'] = lambda E, a, b: T.pow_(a, b)
EXT['llvm.powi.f64.i32'] = lambda E, a, n: T.pow_(a, T.const(signed(n, 32)))
EXT['cbrt'] = lambda E, a: T.pow_(a, T.const(T.Fraction(1, 3)))
EXT['atan2'] = lambda E, a, b: T.atan2(a, b)
EXT['hypot'] = lambda E, a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b)))
EXT['fmod'] = lambda E, a, b: T.fmod(a, b)
EXT['remainder'] = lambda E, a, b: T.wrap2pi(a, 'remainder') if T.pimult(b) in (2, -2) else T.sub(a, T.mul(b, T.intof('round', T.div(a, b))))
EXT['fdim'] = lambda E, a, b: T.sub(a, b) if E.truth(E.fcmp('ogt', a, b)) else T.ZERO
EXT['exp2'] = lambda E, a: T.pow_(T.const(2), a)
EXT['sincos'] = lambda E, a, ps, pc: (E.store_d(ps, T.sin(a)), E.store_d(pc, T.cos(a))) and None
EXT['log1p'] = lambda E, a: T.log(T.add(T.ONE, a))
EXT['expm1'] = lambda E, a: T.sub(T.exp(a), T.ONE)
EXT['log10'] = lambda E, a: T.div(T.log(a), T.log(T.const(10)))
EXT['log2'] = lambda E, a: T.div(T.log(a), T.log(T.const(2)))
EXT['fma'] = EXT['llvm.fma.f64'] = EXT['llvm.fmuladd.f64'] = lambda E, a, b, c: T.add(T.mul(a, b), c)
@ext('llvm.fabs.f64', 'fabs')
def _fabs(E, a):
    if a is UNDEF: raise Unsupported('fabs of undef')
    if a.op in ('nan',): return a
    if a.op in ('inf', 'ninf'): return T.INF
    c = E.fcmp('olt', a, T.ZERO)
    return T.neg(a) if E.truth(c) else a
def _mm(pred):
    def f(E, a, b):
        if a.op == 'nan': return b
        if b.op == 'nan': return a
        return a if E.truth(E.fcmp(pred, a, b)) else b
    return f
EXT['fmin'] = EXT['llvm.minnum.f64'] = _mm('olt')
EXT['fmax'] = EXT['llvm.maxnum.f64'] = _mm('ogt')
for k in ('floor', 'ceil', 'trunc', 'round'):
    EXT[k] = EXT['llvm.%s.f64' % k] = (lambda kk: lambda E, a: T.intof(kk, a))(k)
EXT['rint'] = EXT['nearbyint'] = EXT['llvm.rint.f64'] = lambda E, a: T.intof('round', a)
EXT['llround'] = EXT['lround'] = lambda E, a: E.f2i(T.intof('round', a), 64, True)
@ext('llvm.copysign.f64', 'copysign')
def _cps(E, a, b):
    a = _fabs(E, a)
    return T.neg(a) if E.truth(E.fcmp('olt', b, T.ZERO)) else a
@ext('llvm.is.fpclass.f64')
def _fpc(E, a, mask):
    k = {'nan': 3, 'inf': 0x200, 'ninf': 4}.get(a.op, 0x1f8)
    if k & mask == k: return 1
    if k & mask == 0: return 0
    raise Unsupported('is.fpclass %x' % mask)
for k, o in dict(umin='<', umax='>').items():
    EXT['llvm.%s.i64' % k] = EXT['llvm.%s.i32' % k] = (lambda oo: lambda E, a, b: a if E.truth(E.icmpu(oo, a, b)) else b)(o)
for k, o in dict(smin='<', smax='>').items():
    for n in (32, 64): EXT['llvm.%s.i%d' % (k, n)] = (lambda oo, n: lambda E, a, b: a if E.truth(E.icmps(oo, a, b, n)) else b)(o, n)
for n in (32, 64):
    EXT['llvm.abs.i%d' % n] = (lambda n: lambda E, a, z: abs(signed(E.conc(a), n)) & ((1 << n) - 1))(n)
    EXT['llvm.usub.sat.i%d' % n] = lambda E, a, b: max(0, E.conc(a) - E.conc(b))
    EXT['llvm.umul.with.overflow.i%d' % n] = (lambda n: lambda E, a, b: ((E.conc(a) * E.conc(b)) & ((1 << n) - 1), 1 if E.conc(a) * E.conc(b) >> n else 0))(n)
    EXT['llvm.uadd.with.overflow.i%d' % n] = (lambda n: lambda E, a, b: ((E.conc(a) + E.conc(b)) & ((1 << n) - 1), 1 if E.conc(a) + E.conc(b) >> n else 0))(n)
    def _sov(op, n):
        def f(E, a, b):
            x, y = signed(E.conc(a), n), signed(E.conc(b), n)
            r = op(x, y)
            return (r & ((1 << n) - 1), 0 if -(1 << (n - 1)) <= r < (1 << (n - 1)) else 1)
        return f
    EXT['llvm.sadd.with.overflow.i%d' % n] = _sov(lambda x, y: x + y, n)
    EXT['llvm.ssub.with.overflow.i%d' % n] = _sov(lambda x, y: x - y, n)
    EXT['llvm.smul.with.overflow.i%d' % n] = _sov(lambda x, y: x * y, n)
    EXT['llvm.ctlz.i%d' % n] = (lambda n: lambda E, a, z: n - E.conc(a).bit_length())(n)
    EXT['llvm.fshl.i%d' % n] = (lambda n: lambda E, a, b, c: (((E.conc(a) << n | E.conc(b)) << (E.conc(c) % n)) >> n) & ((1 << n) - 1))(n)
EXT['llvm.memcpy.p0.p0.i64'] = EXT['llvm.memmove.p0.p0.i64'] = lambda E, d, s, n, v=0: E.memcpy(d, s, n)
EXT['memcpy'] = EXT['memmove'] = lambda E, d, s, n: (E.memcpy(d, s, n), d)[1]
EXT['llvm.memset.p0.i64'] = lambda E, d, v, n, x=0: E.memset(d, v, n)
EXT['memset'] = lambda E, d, v, n: (E.memset(d, v, n), d)[1]
EXT['strlen'] = lambda E, a: len(E.cstring(a))
@ext('memcmp', 'bcmp')
def _memcmp(E, a, b, n):
    n = E.conc(n)
    for i in range(n):
        x, y = E.load_i(a + i, 1), E.load_i(b + i, 1)
        if x != y: return (1 if x > y else -1) & 0xffffffff
    return 0
@ext('strcmp')
def _strcmp(E, a, b):
    x, y = E.cstring(a), E.cstring(b)
    return ((x > y) - (x < y)) & 0xffffffff
@ext('memchr')
def _memchr(E, a, c, n):
    for i in range(E.conc(n)):
        if E.load_i(a + i, 1) == c & 255: return a + i
    return 0
EXT['tolower'] = lambda E, c: c + 32 if 65 <= c <= 90 else c
EXT['toupper'] = lambda E, c: c - 32 if 97 <= c <= 122 else c
EXT['_Znwm'] = EXT['_Znam'] = EXT['malloc'] = lambda E, n: E.malloc(n)
EXT['_ZnwmSt11align_val_t'] = lambda E, n, a: E.malloc(n)
EXT['_ZdlPv'] = EXT['_ZdaPv'] = EXT['free'] = lambda E, p: E.free(p)
EXT['_ZdlPvm'] = EXT['_ZdaPvm'] = EXT['_ZdlPvmSt11align_val_t'] = lambda E, p, *n: E.free(p)
EXT['__cxa_allocate_exception'] = lambda E, n: E.malloc(max(n, 16))
EXT['__cxa_free_exception'] = lambda E, p: None
@ext('__cxa_throw')
def _throw(E, obj, ti, dtor=0):
    name = None
    for k, a in E.prog.gaddrs.items():
        if a == ti: name = k if isinstance(k, str) else k[1]
    if name is None: name = E.prog.addrf.get(ti)
    raise KThrow(name, obj)
EXT['__cxa_begin_catch'] = lambda E, p: (E.events.append(('catch',)), p)[1]
EXT['__cxa_end_catch'] = lambda E: None
@ext('__cxa_rethrow')
def _rethrow(E): raise Unsupported('rethrow')
EXT['llvm.eh.typeid.for'] = EXT['llvm.eh.typeid.for.p0'] = lambda E, a: E.typeid(next((k if isinstance(k, str) else k[1]) for k, v in E.prog.gaddrs.items() if v == a))
EXT['_Unwind_Resume'] = lambda E, p: (_ for _ in ()).throw(Unsupported('_Unwind_Resume'))
def _thr(ti):
    def f(E, *a): raise KThrow(ti, 0)
    return f
EXT['_ZSt20__throw_length_errorPKc'] = _thr('_ZTISt12length_error')
EXT['_ZSt20__throw_out_of_rangePKc'] = EXT['_ZSt24__throw_out_of_range_fmtPKcz'] = _thr('_ZTISt12out_of_range')
EXT['_ZSt19__throw_logic_errorPKc'] = _thr('_ZTISt11logic_error')
EXT['_ZSt20__throw_domain_errorPKc'] = _thr('_ZTISt12domain_error')
EXT['_ZSt24__throw_invalid_argumentPKc'] = _thr('_ZTISt16invalid_argument')
EXT['_ZSt17__throw_bad_allocv'] = _thr('_ZTISt9bad_alloc')
EXT['_ZSt28__throw_bad_array_new_lengthv'] = _thr('_ZTISt20bad_array_new_length')
EXT['_ZSt16__throw_bad_castv'] = _thr('_ZTISt8bad_cast')
EXT['_ZSt25__throw_bad_function_callv'] = _thr('_ZTISt17bad_function_call')
EXT['_ZSt9terminatev'] = EXT['abort'] = lambda E, *a: (_ for _ in ()).throw(MemFault('terminate'))
EXT['__clang_call_terminate'] = lambda E, *a: (_ for _ in ()).throw(MemFault('terminate'))
@ext('__cxa_guard_acquire')
def _ga(E, g):
    if E.load_i(g, 1): return 0
    E.guards.append(E.dirty_globals())
    return 1
@ext('__cxa_guard_release')
def _gr(E, g):
    E.store_i(g, 1, 1)
    E.gok.add(g & ~7)
    if E.guards: E.gok |= E.dirty_globals() - E.guards.pop()
EXT['llvm.threadlocal.address.p0'] = lambda E, a: a
EXT['__cxa_guard_abort'] = lambda E, g: None
EXT['__cxa_atexit'] = EXT['__cxa_thread_atexit'] = lambda E, *a: 0
EXT['pthread_mutex_lock'] = EXT['pthread_mutex_unlock'] = lambda E, a: 0
EXT['__errno_location'] = lambda E: E.prog.__dict__.setdefault('_errno', E.alloc(8))
# standard exception classes: only identity matters
for dm in (r'^std::\w+_error::\w+_error\(', r'^std::invalid_argument::invalid_argument\(', r'^std::out_of_range::out_of_range\(',
           r'^std::\w+_error::~\w+_error\(', r'^std::invalid_argument::~', r'^std::out_of_range::~', r'^std::exception::~', r'^std::bad_\w+::~'):
    EXTDEM.append((re.compile(dm), lambda E, *a: None))
# fmt: messages are opaque
def _vformat(E, ret, *a):
    E.store_i(ret, ret + 16, 8)
    E.store_i(ret + 8, 0, 8)
    E.store_i(ret + 16, 0, 1)
EXTDEM.append((re.compile(r'^fmt::v\d+::vformat(\[abi:cxx11\])?\('), _vformat))

# BLAS / LAPACK on exact values
def _vec(E, n, x, inc):
    n, inc = signed(E.conc(n), 32), signed(E.conc(inc), 32)
    return [E.load_d(x + 8 * i * inc) for i in range(n)]
def dot(a, b):
    s = T.ZERO
    for x, y in zip(a, b): s = T.add(s, T.mul(x, y))
    return s
@ext('cblas_ddot')
def _ddot(E, n, x, ix, y, iy): return dot(_vec(E, n, x, ix), _vec(E, n, y, iy))
@ext('cblas_dnrm2')
def _dnrm2(E, n, x, ix):
    v = _vec(E, n, x, ix)
    return T.sqrt(dot(v, v))
def _mat(E, ptr, order, trans, r, c, ld):
    """returns op(A) as a function of (i,j); order 101 row major, 102 col major; trans 111 no, 112/113 yes"""
    rm = order == 101
    tr = trans != 111
    def g(i, j):
        if tr: i, j = j, i
        return E.load_d(ptr + 8 * (i * ld + j if rm else j * ld + i))
    return g
@ext('cblas_dgemm')
def _dgemm(E, order, ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc):
    order, ta, tb, m, n, k, lda, ldb, ldc = [E.conc(x) for x in (order, ta, tb, m, n, k, lda, ldb, ldc)]
    a, b = _mat(E, A, order, ta, m, k, lda), _mat(E, B, order, tb, k, n, ldb)
    out = {}
    for i in range(m):
        for j in range(n):
            s = T.ZERO
            for l in range(k): s = T.add(s, T.mul(a(i, l), b(l, j)))
            s = T.mul(al, s)
            ad = C + 8 * (i * ldc + j if order == 101 else j * ldc + i)
            if be is not T.ZERO: s = T.add(s, T.mul(be, E.load_d(ad)))
            out[ad] = s
    for ad, s in out.items(): E.store_d(ad, s)
@ext('cblas_dgemv')
def _dgemv(E, order, ta, m, n, al, A, lda, x, ix, be, y, iy):
    order, ta, m, n, lda, ix, iy = [E.conc(v) for v in (order, ta, m, n, lda, ix, iy)]
    rows, cols = (m, n) if ta == 111 else (n, m)
    a = _mat(E, A, order, ta, rows, cols, lda)
    out = []
    for i in range(rows):
        s = T.ZERO
        for l in range(cols): s = T.add(s, T.mul(a(i, l), E.load_d(x + 8 * l * ix)))
        s = T.mul(al, s)
        ad = y + 8 * i * iy
        if be is not T.ZERO: s = T.add(s, T.mul(be, E.load_d(ad)))
        out.append((ad, s))
    for ad, s in out: E.store_d(ad, s)

def _nrm2g(E, n, x, inc, out):
    v = _vec(E, n, x, inc)
    E.store_d(out, T.sqrt(dot(v, v)))
# dependency functions replaced by their contract in every program (scaled accumulation = exact Euclidean norm)
DEFOVER = [(r'^void cxxblas::nrm2_generic<', _nrm2g), (r'^double std::__hypot3<double>\(', lambda E, a, b, c: T.sqrt(dot([a, b, c], [a, b, c])))]
# LAPACK inverse: assumed contract (dgetrf; dgetri) = exact inverse of a non-singular matrix
def _i32(E, p): return signed(E.conc(E.load_i(p, 4)), 32)
@ext('dgetrf_')
def _dgetrf(E, m, n, a, lda, ipiv, info, *r):
    m, n, lda = _i32(E, m), _i32(E, n), _i32(E, lda)
    if m != n or lda != n: raise Unsupported('dgetrf shape')
    A = E.doubles(a, n * n)
    E.__dict__.setdefault('lu', {})[a] = A
    for k in range(n * n): E.store_d(a + 8 * k, T.uf('lu', *A, idx=k))
    for k in range(n): E.store_i(ipiv + 4 * k, k + 1, 4)
    E.store_i(info, 0, 4)
    return 0
@ext('dgetri_')
def _dgetri(E, n, a, lda, ipiv, work, lwork, info, *r):
    n, lw = _i32(E, n), _i32(E, lwork)
    E.store_i(info, 0, 4)
    if lw == -1:
        E.store_d(work, T.const(n * 64)); return 0
    cur = E.doubles(a, n * n)
    if not all(c.op == 'uf' and c.val == ('lu', k) for k, c in enumerate(cur)): raise Unsupported('dgetri without a factorisation')
    A = cur[0].args
    for k in range(n * n): E.store_d(a + 8 * k, T.mk('matinv', tuple(A), (n, k)))
    return 0

# ---- root finder contract hooks (see stubs/boost/math/tools/roots.hpp)
@ext('kvc_root_begin')
def _rb(E, guess, lo, hi, digits, order, mi):
    n = len(E.roots)
    x = E.oracle.root_var(E, n, guess, lo, hi) if E.oracle else None
    if x is None: x = T.var('root!%d' % n)
    E.roots.append(dict(x=x, guess=guess, lo=lo, hi=hi, digits=signed(E.conc(digits), 32), order=E.conc(order), max_iter=E.conc(mi), f=None, d={}, iters=None, npc=len(E.pc)))
    return x
@ext('kvc_root_f')
def _rf(E, x, f):
    r = E.roots[-1]
    r['f'] = f
    if E.oracle: E.oracle.root_f(E, r)
@ext('kvc_root_d')
def _rd(E, x, k, d): E.roots[-1]['d'][E.conc(k)] = d
@ext('kvc_root_iters')
def _ri(E, mi):
    """both outcomes are explored: converged before the limit / limit reached"""
    r = E.roots[-1]
    n = len(E.roots) - 1
    if E.oracle and getattr(E.oracle, 'no_exhaust', False): r['iters'] = 'converged'; return 3
    if mi >= 1 << 32: r['iters'] = 'converged'; return 3
    if E.truth(Lit('lt', T.var('iters!%d' % n), T.var('itmax!%d' % n))):
        r['iters'] = 'converged'; return 3 if mi > 3 else 0
    r['iters'] = 'exhausted'
    return mi

# ------------------------------------------------------------------------------------------------ exploration driver
class PathResult:
    pass
def explore(E, run, maxpaths=400):
    """run(E) executes the entry point and returns a value; yields PathResult per feasible path"""
    work = [[]]
    n = 0
    out = []
    while work:
        dec = work.pop()
        E.reset(dec)
        r = PathResult()
        try:
            r.kind, r.value = 'ret', run(E)
        except KThrow as ex: r.kind, r.value = 'throw', ex.ti
        except MemFault as ex: r.kind, r.value = 'fault', str(ex)
        except PathAbort as ex: r.kind, r.value = 'abort', str(ex)
        r.pc, r.roots, r.events, r.steps, r.signs = E.pc, E.roots, E.events, E.steps, E.signs
        r.mem, r.decisions, r.obl = E.mem, E.decisions, E.obl
        r.leaks = [a for a in E.heap]
        r.frame = E.frame_violations() if r.kind in ('ret', 'throw') else []
        work.extend(E.pending)
        n += 1
        if n > maxpaths: raise Unsupported('more than %d paths' % maxpaths)
        yield r
