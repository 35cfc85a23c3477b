"""Back end 2: z3 (nonlinear real arithmetic); transcendental subterms become variables constrained by standard bounds."""
import threading, time
from . import term as T
import z3
QUERIES = [0, 0.0]

class Ctx:
    def __init__(self, opaque=False): self.m, self.ax, self.opaque = {}, [], opaque
    def cone(self, t):
        """subterms; with opaque=True the arguments of inverse functions are not looked at"""
        if not self.opaque: return T.closure([t])
        seen, st, out = set(), [t], []
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id); out.append(x)
            if x.op not in ('acos', 'asin', 'atan', 'atan2') and not (x.op == 'wrap' and x.val not in ('fmod', 'floor')): st.extend(x.args)
        out.sort(key=lambda t: t.id)
        return out
    def tr(self, t):
        for x in self.cone(t):
            if x in self.m: continue
            if self.opaque and (x.op in ('acos', 'asin', 'atan', 'atan2') or x.op == 'wrap' and x.val not in ('fmod', 'floor')):
                self.m[x] = self._one(x, None); continue
            a = [self.m[y] for y in x.args]
            self.m[x] = self._one(x, a)
        return self.m[t]
    def fresh(self, x): return z3.Real('t%d' % x.id)
    def _one(self, x, a):
        op = x.op
        if op == 'c': return z3.Q(x.val.numerator, x.val.denominator)
        if op == 'add': return a[0] + a[1]
        if op == 'sub': return a[0] - a[1]
        if op == 'mul': return a[0] * a[1]
        if op == 'neg': return -a[0]
        v = self.fresh(x)
        if op == 'pi': self.ax += [v > z3.Q(314159265, 10**8), v < z3.Q(314159266, 10**8)]
        elif op == 'div': self.ax.append(v * a[1] == a[0])
        elif op == 'sqrt': self.ax += [v >= 0, v * v == a[0]]
        elif op in ('sin', 'cos'):
            self.ax += [v >= -1, v <= 1]
            o = (T.cos if op == 'sin' else T.sin)(x.args[0])
            if o in self.m: self.ax.append(v * v + self.m[o] * self.m[o] == 1)
        elif op == 'sinh': self.ax += [z3.Implies(a[0] > 0, v > a[0]), z3.Implies(a[0] < 0, v < a[0]), z3.Implies(a[0] == 0, v == 0)]
        elif op == 'cosh': self.ax += [v >= 1]
        elif op == 'tanh': self.ax += [v > -1, v < 1, z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0)]
        elif op == 'exp': self.ax += [v > 0, v >= 1 + a[0]]
        elif op == 'log': self.ax += [v <= a[0] - 1]
        elif op == 'acos': self.ax += [v >= 0, v <= self.tr(T.PI)]
        elif op in ('asin', 'atan'):
            self.ax += [2 * v >= -self.tr(T.PI), 2 * v <= self.tr(T.PI)]
            if a: self.ax += [z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0), z3.Implies(a[0] == 0, v == 0)]
            elif x.args[0].op == 'sqrt': self.ax.append(v >= 0)
        elif op == 'atan2' and a: self.ax += [v >= -self.tr(T.PI), v <= self.tr(T.PI), z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0)]
        elif op == 'atan2' or (op == 'wrap' and x.val not in ('fmod', 'floor')): self.ax += [v >= -self.tr(T.PI), v <= self.tr(T.PI)]
        elif op == 'wrap' and x.val == 'floor': self.ax += [v >= 0, v < 2 * self.tr(T.PI)]
        elif op == 'wrap': self.ax += [v > -2 * self.tr(T.PI), v < 2 * self.tr(T.PI), z3.Implies(a[0] >= 0, v >= 0), z3.Implies(a[0] <= 0, v <= 0)]
        elif op == 'intof':
            if x.val == 'floor': self.ax += [v <= a[0], v > a[0] - 1]
            elif x.val == 'ceil': self.ax += [v >= a[0], v < a[0] + 1]
            elif x.val == 'trunc': self.ax += [v - a[0] < 1, a[0] - v < 1, z3.Implies(a[0] >= 0, z3.And(v >= 0, v <= a[0])), z3.Implies(a[0] <= 0, z3.And(v <= 0, v >= a[0]))]
            else: self.ax += [2 * (v - a[0]) <= 1, 2 * (a[0] - v) <= 1]
            self.ax.append(z3.IsInt(v))
        elif op == 'intvar': self.ax.append(z3.IsInt(v))
        return v
    def lit(self, pred, a, b):
        x, y = self.tr(T.lift(a)), self.tr(T.lift(b))
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[pred]
NEG = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}

def check(lits, ms=500, opaque=False):
    """sat / unsat / unknown for a conjunction of (pred, a, b)"""
    t0 = time.time()
    c = Ctx(opaque)
    fs = [c.lit(*l) for l in lits]
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*c.ax, *fs)
    tm = threading.Timer(ms / 1000.0 + 0.5, s.ctx.interrupt)
    tm.start()
    try: r = str(s.check())
    except z3.Z3Exception: r = 'unknown'
    finally: tm.cancel()
    QUERIES[0] += 1; QUERIES[1] += time.time() - t0
    return r
def prove(facts, goal, ms=5000):
    """True iff facts entail goal"""
    if check([(NEG[goal[0]], goal[1], goal[2])], 1000, True) == 'unsat': return True
    return check(list(facts) + [(NEG[goal[0]], goal[1], goal[2])], ms) == 'unsat'
