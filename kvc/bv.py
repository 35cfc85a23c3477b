"""Bit-precise back end: the same IR executed with machine integers as z3 bit-vectors.  Every branch is decided by z3 under the
path condition, both sides are explored when both are possible; postconditions are discharged by z3 for all input values."""
import time, traceback, random
import z3
from . import term as T
from .llir import *
from .engine import Engine, EXT, explore
from .case import CaseResult, Skip
from . import case as C

def S(e): return z3.simplify(e)
def num(e): return e.as_long() if z3.is_bv_value(e) else None
class BV:
    """an integer of known width"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
    @property
    def w(s): return s.e.size()
    def _o(s, o): return o.e if isinstance(o, BV) else z3.BitVecVal(o, s.w) if isinstance(o, int) else bl(o, s.w).e
    def __add__(s, o): return mk(s.e + s._o(o))
    __radd__ = __add__
    def __sub__(s, o): return mk(s.e - s._o(o))
    def __rsub__(s, o): return mk(s._o(o) - s.e)
    def __mul__(s, o): return mk(s.e * s._o(o))
    __rmul__ = __mul__
    def __and__(s, m):
        if m == (1 << s.w) - 1: return s
        return mk(s.e & s._o(m))
    __rand__ = __and__
    def __repr__(s): return 'BV%d(%s)' % (s.w, str(s.e)[:120])
class BL:
    """a truth value"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
    def __and__(s, m): return s
    def __repr__(s): return 'BL(%s)' % (str(s.e)[:120])
def mk(e):
    e = S(e)
    n = num(e)
    return n if n is not None else BV(e)
def mb(e):
    e = S(e)
    return 1 if z3.is_true(e) else 0 if z3.is_false(e) else BL(e)
def bl(x, w): return BV(z3.If(x.e, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
def lift(x, n):
    if isinstance(x, BV):
        return x.e
    if isinstance(x, BL): return bl(x, n).e
    if x is UNDEF: return z3.BitVecVal(0, n)
    return z3.BitVecVal(x, n)
SYM = (BV, BL)

class BVEngine(Engine):
    def __init__(self, prog, overrides, case):
        self.case = case
        self.choice = {}
        self.tz = 0.0
        super().__init__(prog, overrides, None)
    def reset(self, decisions):
        super().reset(decisions)
        self.zpc = []
        self.sol = z3.Solver()
        self.sol.set('timeout', 5000)
        for f in self.case.facts: self.sol.add(f)
    def _chk(self, e):
        t = time.time()
        self.sol.push(); self.sol.add(e)
        r = self.sol.check()
        self.sol.pop()
        self.tz += time.time() - t
        return r
    def truth(self, c):
        if c.__class__ is int: return c
        if isinstance(c, BV): c = mb(c.e != 0)
        if c.__class__ is int: return c
        if not isinstance(c, BL): return super().truth(c)
        t = self._chk(c.e) != z3.unsat
        f = self._chk(z3.Not(c.e)) != z3.unsat
        if not t and not f: raise PathAbort('infeasible')
        if t and f:
            if self.nd < len(self.decisions): r = self.decisions[self.nd]
            else:
                r = True
                self.pending.append(self.decisions[:self.nd] + [not r])
                self.decisions.append(r)
            self.nd += 1
        else: r = t
        e = c.e if r else z3.Not(c.e)
        self.sol.add(e); self.zpc.append(e)
        return 1 if r else 0
    def conc(self, v):
        if v.__class__ is int: return v
        if isinstance(v, BL): return self.truth(v)
        if isinstance(v, BV):
            for _ in range(64):
                k = (tuple(self.decisions[:self.nd]), v.e.sexpr(), _)
                x = self.choice.get(k)
                if x is None:
                    if self.sol.check() != z3.sat: raise PathAbort('infeasible or undecided')
                    x = self.choice[k] = self.sol.model().eval(v.e, model_completion=True).as_long()
                if self.truth(mb(v.e == x)): return x
            raise Unsupported('symbolic integer %r needed concretely' % (v,))
        return super().conc(v)
    # ---- memory
    def load_i(self, a, n):
        w = a & ~7
        v = self.mem.get(w)
        if v is None: v = self.word(w)
        if n == 8 and a == w: return v
        sh = (a - w) * 8
        if sh + 8 * n > 64:
            lo = (64 - sh) // 8
            x, y = self.load_i(a, lo), self.load_i(w + 8, n - lo)
            if x.__class__ is int and y.__class__ is int: return x | y << 8 * lo
            return mk(z3.Concat(lift(y, 8 * (n - lo)), lift(x, 8 * lo)))
        if isinstance(v, BV): return mk(z3.Extract(sh + 8 * n - 1, sh, v.e))
        return super().load_i(a, n)
    def store_i(self, a, v, n):
        w = a & ~7
        cur = self.mem.get(w)
        if cur is None: cur = self.word(w)
        if not isinstance(v, SYM) and not isinstance(cur, BV): return super().store_i(a, v, n)
        if isinstance(v, BL): v = bl(v, 8 * n)
        if v is UNDEF: v = 0
        if n == 8 and a == w: self.mem[w] = v; return
        sh = (a - w) * 8
        if sh + 8 * n > 64:
            lo = (64 - sh) // 8
            x = lift(v, 8 * n)
            self.store_i(a, mk(z3.Extract(8 * lo - 1, 0, x)), lo)
            self.store_i(w + 8, mk(z3.Extract(8 * n - 1, 8 * lo, x)), n - lo)
            return
        if isinstance(cur, T.Term): cur = self.d2bits(cur)
        c = lift(cur, 64)
        parts = []
        if sh + 8 * n < 64: parts.append(z3.Extract(63, sh + 8 * n, c))
        parts.append(lift(v, 8 * n))
        if sh: parts.append(z3.Extract(sh - 1, 0, c))
        self.mem[w] = mk(z3.Concat(*parts) if len(parts) > 1 else parts[0])
    def memcpy(self, d, s, n):
        n = self.conc(n)
        if (d | s | n) & 7 == 0: return super().memcpy(d, s, n)
        bs = [self.load_i(s + i, 1) for i in range(n)]
        for i, b in enumerate(bs): self.store_i(d + i, b, 1)
    # ---- operations
    def icmpu(self, o, a, b, n=64):
        if a.__class__ is int and b.__class__ is int: return super().icmpu(o, a, b, n)
        if not isinstance(a, SYM) and not isinstance(b, SYM): return super().icmpu(o, a, b, n)
        x, y = lift(a, n), lift(b, n)
        return mb({'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: z3.ULT(x, y), '<=': lambda: z3.ULE(x, y), '>': lambda: z3.UGT(x, y), '>=': lambda: z3.UGE(x, y)}[o]())
    def icmps(self, o, a, b, n):
        if a.__class__ is int and b.__class__ is int: return super().icmps(o, a, b, n)
        if not isinstance(a, SYM) and not isinstance(b, SYM): return super().icmps(o, a, b, n)
        x, y = lift(a, n), lift(b, n)
        return mb({'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[o]())
    def zext(self, v, n=0, m=0):
        if isinstance(v, BL): return bl(v, m)
        if isinstance(v, BV): return mk(z3.ZeroExt(m - n, v.e))
        return super().zext(v)
    def sext(self, v, n, m):
        if isinstance(v, BL): return BV(z3.If(v.e, z3.BitVecVal(-1, m), z3.BitVecVal(0, m)))
        if isinstance(v, BV): return mk(z3.SignExt(m - n, v.e))
        return super().sext(v, n, m)
    def trunc(self, v, n):
        if isinstance(v, BV): return mb(z3.Extract(0, 0, v.e) == 1) if n == 1 else mk(z3.Extract(n - 1, 0, v.e))
        if isinstance(v, BL): return v if n == 1 else bl(v, n)
        return super().trunc(v, n)
    def i2f(self, v, n, sgn):
        if isinstance(v, BV): raise Unsupported('symbolic integer to double (bit-precise mode)')
        return super().i2f(v, n, sgn)
def _bin(name, f, g=None):
    base = getattr(Engine, 'bin_' + name)
    def h(self, a, b, n):
        if not isinstance(a, SYM) and not isinstance(b, SYM): return base(self, a, b, n)
        if n == 1 and g:
            t = lambda x: z3.BoolVal(bool(x)) if isinstance(x, int) else x.e if isinstance(x, BL) else x.e == 1
            return mb(g(t(a), t(b)))
        if name in ('udiv', 'urem', 'sdiv', 'srem') and self.truth(mb(lift(b, n) == 0)): raise MemFault('division by zero')
        return mk(f(lift(a, n), lift(b, n)))
    setattr(BVEngine, 'bin_' + name, h)
for nm, f, g in (('and', lambda x, y: x & y, z3.And), ('or', lambda x, y: x | y, z3.Or), ('xor', lambda x, y: x ^ y, z3.Xor), ('shl', lambda x, y: x << y, None), ('lshr', z3.LShR, None),
                 ('ashr', lambda x, y: x >> y, None), ('udiv', z3.UDiv, None), ('urem', z3.URem, None), ('sdiv', lambda x, y: x / y, None), ('srem', z3.SRem, None)): _bin(nm, f, g)

class BProver:
    def __init__(self, case, pc, ms): self.c, self.pc, self.ms, self.list, self.path = case, pc, ms, [], None
    def prove(self, name, goal, ms=None):
        """goal: z3 Bool; (name, ok, model)"""
        t = time.time()
        goal = S(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        model = None
        if z3.is_true(goal): r, be = z3.unsat, 'exec'
        else:
            s = z3.Solver(); s.set('timeout', ms or self.ms)
            s.add(*self.c.facts, *self.pc, z3.Not(goal))
            r, be = s.check(), 'z3-bv'
            if r == z3.sat: model = s.model()
        self.list.append((name, True if r == z3.unsat else False if r == z3.sat else None, be, time.time() - t, model, ''))
        return r == z3.unsat
    def check(self, name, ok, detail=''):
        """a condition decided on this path; when it fails any input on the path is a counterexample"""
        model = None
        if not ok:
            s = z3.Solver(); s.set('timeout', self.ms); s.add(*self.c.facts, *self.pc)
            if s.check() == z3.sat: model = s.model()
        self.list.append((name, bool(ok), 'exec', 0.0, model, detail))

class BVCase:
    """entry(E) -> value; post(r, P) with r.kind / r.value; inputs: dict name -> z3 constant; spec(values) / replay for counterexamples"""
    name = 'case'; prog = None; overrides = (); maxpaths = 400; ms = 60000; facts = (); inputs = {}; weight = 1
    def __init__(self, **k):
        self.facts = list(self.facts)
        for a, b in k.items(): setattr(self, a, b)
        self.init()
    def init(self): pass
    def run(self, prog, replay, seed):
        res = CaseResult(self.name)
        t0 = time.time()
        E = BVEngine(prog, list(self.overrides), self)
        bad = []
        try:
            for r in explore(E, self.entry, self.maxpaths):
                if r.kind == 'abort': continue
                res.paths += 1
                P = BProver(self, E.zpc, self.ms)
                if r.kind == 'fault': P.check('no memory fault / no unreachable code', False, r.value)
                else:
                    P.check('frame: no global or static variable is modified', not r.frame, ', '.join(r.frame))
                    self.post(r, P)
                for name, goal in r.obl: P.prove(name, goal)
                for nm, ok, be, dt, model, det in P.list:
                    res.obls.append((nm, ok, be, dt))
                    if not ok: bad.append((nm, ok, model, det, list(E.zpc), r))
        except Unsupported as ex: res.error = 'Unsupported: %s' % ex
        except Exception as ex: res.error = 'internal %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
        res.functions = sorted(prog.executed)
        for nm, ok, model, det, pc, r in bad:
            d = dict(case=self.name, obligation=nm, detail=det, path=[str(x)[:160] for x in pc][:20], outcome=[r.kind, str(r.value)[:100] if r.kind != 'ret' else ''])
            got = None
            if model is not None:
                d['inputs'] = {k: model.eval(v, model_completion=True).as_long() for k, v in self.inputs.items()}
                try: got = self.concrete(replay, d['inputs']) if replay else None
                except Skip: got = None
            if got: d.update(status='confirmed', mismatch=got); res.cex.append(d)
            elif ok is None: d['status'] = 'undecided'; res.undecided.append(d)
            else: d['status'] = 'refuted'; res.failed.append(d)
        if res.cex and C.FOUND is not None: C.FOUND.value = 1
        res.time = time.time() - t0
        return res
    def concrete(self, replay, env): return None
