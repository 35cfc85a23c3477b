"""Hash-consed real-valued terms: the values of doubles in the verifier (machine arithmetic treated as real arithmetic)."""
import math, struct
from fractions import Fraction

_tab = {}
_all = []

class Term:
    __slots__ = ("op", "args", "val", "id", "_h")
    def __init__(self, op, args, val, id):
        self.op, self.args, self.val, self.id = op, args, val, id
    def __repr__(self): return pp(self, 4)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    # operator sugar for contracts
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __neg__(s): return neg(s)
    def __pow__(s, n):
        if n < 0: return const(1) / (s ** (-n))
        r = const(1)
        for _ in range(n): r = mul(r, s)
        return r

def mk(op, args=(), val=None):
    k = (op, tuple(a.id for a in args), val)
    t = _tab.get(k)
    if t is None:
        t = Term(op, tuple(args), val, len(_all))
        _tab[k] = t
        _all.append(t)
    return t

def pp(t, d=3):
    if t.op == 'c': return str(t.val)
    if t.op in ('var', 'intvar'): return str(t.val)
    if t.op == 'pi': return 'pi'
    if t.op == 'nan': return 'nan'
    if d == 0: return '#%d' % t.id
    sy = dict(add='+', sub='-', mul='*', div='/').get(t.op)
    if sy: return '(' + pp(t.args[0], d - 1) + sy + pp(t.args[1], d - 1) + ')'
    return (t.op if t.op != 'uf' else str(t.val)) + '(' + ','.join(pp(a, d - 1) for a in t.args) + ')'

def const(v):
    v = Fraction(v)
    return mk('c', (), v)
ZERO, ONE = const(0), const(1)
PI = mk('pi')
NAN = mk('nan')
INF, NINF = mk('inf'), mk('ninf')
def var(name): return mk('var', (), name)
def intvar(name): return mk('intvar', (), name)
def lift(x):
    if isinstance(x, Term): return x
    if isinstance(x, float): return from_double(x)
    return const(x)

_dbl = {}
_pitab = {}
for _d in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 18, 20, 24, 30, 36, 45, 60, 90, 180, 360):
    for _n in range(1, 41):
        _f = Fraction(_n, _d)
        _pitab.setdefault(float(math.pi * _n / _d), _f)
        _pitab.setdefault(float(_f) * math.pi, _f)
_ipitab = {}
for _n in (1, 2, 180, 90, 360):
    _ipitab[_n / math.pi] = Fraction(_n)
_ipitab[1 / (math.pi / 180)] = Fraction(180)

def from_double(x):
    t = _dbl.get((x, math.copysign(1, x) if x == x else 0))
    if t is not None: return t
    if x != x: t = NAN
    elif math.isinf(x): t = INF if x > 0 else NINF
    elif abs(x) in _pitab and x != int(x):
        q = _pitab[abs(x)]
        t = mul(const(q if x > 0 else -q), PI)
    elif abs(x) in _ipitab:
        q = _ipitab[abs(x)]
        t = div(const(q if x > 0 else -q), PI)
    else:
        f = None
        if x == int(x): f = Fraction(int(x))
        else:
            r = repr(x)
            dig = len(r.split('e')[0].replace('.', '').replace('-', '').lstrip('0'))
            if dig <= 14: f = Fraction(r)
            else:
                g = Fraction(x).limit_denominator(2000)
                if float(g) == x: f = g
                else: f = Fraction(x)
        t = const(f)
    _dbl[(x, math.copysign(1, x) if x == x else 0)] = t
    return t

def isc(t): return t.op == 'c'
_special = ('nan', 'inf', 'ninf')
def _sp(a, b):
    return a.op in _special or b.op in _special
def _spf(op, a, b):
    def f(t):
        return float('nan') if t.op == 'nan' else float('inf') if t.op == 'inf' else float('-inf') if t.op == 'ninf' else None
    x, y = f(a), f(b)
    if a.op == 'nan' or b.op == 'nan': return NAN
    if x is None and isc(a): x = float(a.val)
    if y is None and isc(b): y = float(b.val)
    if x is None or y is None:
        return mk(op, (a, b))
    try:
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x / y
    except ZeroDivisionError:
        return NAN
    return from_double(r)

def add(a, b):
    if isc(a) and isc(b): return const(a.val + b.val)
    if a is ZERO: return b
    if b is ZERO: return a
    if _sp(a, b): return _spf('add', a, b)
    if b.op == 'neg': return sub(a, b.args[0])
    return mk('add', (a, b)) if a.id <= b.id else mk('add', (b, a))
def sub(a, b):
    if isc(a) and isc(b): return const(a.val - b.val)
    if b is ZERO: return a
    if _sp(a, b): return _spf('sub', a, b)
    if a is b: return ZERO
    if a is ZERO: return neg(b)
    if b.op == 'neg': return add(a, b.args[0])
    if b.op == 'mul':                                    # a - 2*pi*K(a/(2*pi)): an angle brought into range
        k, co = turns(b)
        if k is not None and co == 2 and k.args[0].op == 'div' and k.args[0].args[0] is a and pimult(k.args[0].args[1]) == 2:
            return wrap2pi(a, {'trunc': 'fmod', 'floor': 'floor', 'round': 'remainder'}[k.val])
    return mk('sub', (a, b))
def turns(t):
    """(K, c) when t is c*pi*K with K a rounded number"""
    fs, st = [], [t]
    while st:
        x = st.pop()
        if x.op == 'mul': st.extend(x.args)
        else: fs.append(x)
    k = [x for x in fs if x.op == 'intof' and x.val in ('trunc', 'floor', 'round')]
    if len(k) != 1 or sum(x is PI for x in fs) != 1: return None, 0
    c = Fraction(1)
    for x in fs:
        if x is k[0] or x is PI: continue
        if not isc(x): return None, 0
        c *= x.val
    return k[0], c
def neg(a):
    if isc(a): return const(-a.val)
    if a.op == 'neg': return a.args[0]
    if a.op == 'inf': return NINF
    if a.op == 'ninf': return INF
    if a.op == 'nan': return a
    return mk('neg', (a,))
def mul(a, b):
    if isc(a) and isc(b): return const(a.val * b.val)
    if _sp(a, b): return _spf('mul', a, b)
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if isc(a) and a.val == -1: return neg(b)
    if isc(b) and b.val == -1: return neg(a)
    if a.op == 'neg' and b.op == 'neg': return mul(a.args[0], b.args[0])
    if a.op == 'neg': return neg(mul(a.args[0], b))
    if b.op == 'neg': return neg(mul(a, b.args[0]))
    # constant folding through products
    if isc(b): a, b = b, a
    if isc(a) and b.op == 'mul' and isc(b.args[0]): return mul(const(a.val * b.args[0].val), b.args[1])
    if isc(a): return mk('mul', (a, b))
    return mk('mul', (a, b)) if a.id <= b.id else mk('mul', (b, a))
def div(a, b):
    if isc(b):
        if b.val == 0:
            # IEEE semantics with a zero divisor: NaN for 0/0, otherwise an infinity of unknown sign
            return NAN if a is ZERO else mk('divzero', (a,))
        return mul(const(1 / b.val), a) if a.op not in _special else _spf('div', a, b)
    if _sp(a, b): return _spf('div', a, b)
    if a is ZERO: return ZERO
    if a.op == 'neg': return neg(div(a.args[0], b))
    if b.op == 'neg': return neg(div(a, b.args[0]))
    if a is b: return ONE
    return mk('div', (a, b))

def _sqrtc(f):
    n, d = f.numerator, f.denominator
    if n < 0: return None
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d: return Fraction(rn, rd)
    return None
def sqrt(a):
    if isc(a):
        if a.val < 0: return NAN
        r = _sqrtc(a.val)
        if r is not None: return const(r)
    if a.op in _special: return a if a.op != 'ninf' else NAN
    return mk('sqrt', (a,))

def pimult(t):
    if t is PI: return Fraction(1)
    if t is ZERO: return Fraction(0)
    if t.op == 'mul' and isc(t.args[0]) and t.args[1] is PI: return t.args[0].val
    if t.op == 'neg':
        q = pimult(t.args[0])
        return None if q is None else -q
    return None
_sincos = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
def sin(a):
    q = pimult(a)
    if q is not None and q % 2 in _sincos: return const(_sincos[q % 2][0])
    if a.op == 'neg': return neg(sin(a.args[0]))
    if a.op in _special: return NAN
    if a.op == 'asin': return a.args[0]
    return mk('sin', (a,))
def cos(a):
    q = pimult(a)
    if q is not None and q % 2 in _sincos: return const(_sincos[q % 2][1])
    if a.op == 'neg': return cos(a.args[0])
    if a.op in _special: return NAN
    if a.op == 'acos': return a.args[0]
    return mk('cos', (a,))
def tan(a):
    if a is ZERO: return ZERO
    if a.op == 'neg': return neg(tan(a.args[0]))
    if a.op in _special: return NAN
    if a.op == 'atan': return a.args[0]
    return mk('tan', (a,))
def acos(a):
    if isc(a) and a.val in (1, -1, 0): return {1: ZERO, -1: PI, 0: mul(const(Fraction(1, 2)), PI)}[int(a.val)]
    if a.op in _special or (isc(a) and abs(a.val) > 1): return NAN
    return mk('acos', (a,))
def asin(a):
    if isc(a) and a.val in (1, -1, 0): return {0: ZERO, -1: mul(const(Fraction(-1, 2)), PI), 1: mul(const(Fraction(1, 2)), PI)}[int(a.val)]
    if a.op in _special or (isc(a) and abs(a.val) > 1): return NAN
    if a.op == 'neg': return neg(asin(a.args[0]))
    return mk('asin', (a,))
def atan(a):
    if a is ZERO: return ZERO
    if a.op == 'neg': return neg(atan(a.args[0]))
    if a.op == 'nan': return NAN
    return mk('atan', (a,))
_ik = {}
def fresh_int(tag):
    return intvar('K!%s' % (tag,))
def atan2(y, x):
    if y.op in _special or x.op in _special: return NAN
    if y.op == 'sin' and x.op == 'cos' and y.args[0] is x.args[0]:
        return wrap2pi(y.args[0], 'atan2')
    # the argument of the sine may have lost its sign: sin(-t) = -sin(t), cos(-t) = cos(t)
    if y.op == 'neg' and y.args[0].op == 'sin' and x.op == 'cos' and y.args[0].args[0] is x.args[0]:
        return neg(wrap2pi(x.args[0], 'atan2n'))
    if isc(y) and isc(x):
        if y.val == 0 and x.val > 0: return ZERO
        if y.val == 0 and x.val < 0: return PI
        if x.val == 0 and y.val != 0: return mul(const(Fraction(1 if y.val > 0 else -1, 2)), PI)
    return mk('atan2', (y, x))
def wrap2pi(t, tag):
    """t + 2*pi*K with K the integer that brings the result into the range of the wrapping function `tag`."""
    return mk('wrap', (t, intvar('K!%s!%d' % (tag, t.id))), tag)
def h1(op, at0):
    def f(a):
        if a is ZERO: return at0
        if a.op == 'nan': return NAN
        if a.op == 'neg' and op in ('sinh', 'tanh', 'asinh', 'atanh'): return neg(f(a.args[0]))
        if a.op == 'neg' and op == 'cosh': return f(a.args[0])
        return mk(op, (a,))
    return f
sinh, cosh, tanh = h1('sinh', ZERO), h1('cosh', ONE), h1('tanh', ZERO)
asinh, atanh = h1('asinh', ZERO), h1('atanh', ZERO)
def acosh(a):
    if a is ONE: return ZERO
    if a.op == 'nan': return NAN
    return mk('acosh', (a,))
def exp(a):
    if a is ZERO: return ONE
    if a.op == 'nan': return NAN
    return mk('exp', (a,))
def log(a):
    if a is ONE: return ZERO
    if a.op == 'nan': return NAN
    return mk('log', (a,))
def pow_(a, b):
    if isc(b):
        e = b.val
        if e.denominator == 1 and abs(e) <= 64:
            n = int(e)
            r = ONE
            for _ in range(abs(n)): r = mul(r, a)
            return r if n >= 0 else div(ONE, r)
        if e.denominator == 2 and abs(e) <= 64:
            s = sqrt(a)
            n = e.numerator
            r = ONE
            for _ in range(abs(n)): r = mul(r, s)
            return r if n >= 0 else div(ONE, r)
    if a.op == 'nan' or b.op == 'nan': return NAN
    return mk('pow', (a, b))
def fmod(a, b):
    if isc(a) and isc(b) and b.val != 0:
        q = a.val / b.val
        n = math.floor(q) if q >= 0 else math.ceil(q)
        return const(a.val - n * b.val)
    if pimult(b) in (2, -2): return wrap2pi(a, 'fmod')
    return sub(a, mul(b, mk('intof', (div(a, b),), 'trunc')))
def intof(kind, a):
    if isc(a):
        f = a.val
        v = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(kind, round)(f)
        return const(v)
    return mk('intof', (a,), kind)
def uf(name, *args, idx=0):
    return mk('uf', tuple(args), (name, idx))

def f2bits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def bits2f(b): return struct.unpack('<d', struct.pack('<Q', b))[0]

def closure(terms):
    """all subterms, in dependency order"""
    seen = set()
    st = list(terms)
    out = []
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        out.append(t)
        st.extend(t.args)
    out.sort(key=lambda t: t.id)
    return out

def atoms(terms):
    return [t for t in closure(terms) if t.op in ('var', 'intvar')]

def atoms_int(t):
    return [x for x in closure([t]) if x.op in ('intof', 'intvar')]
def substitute(terms, m):
    """m: dict term->term"""
    memo = dict(m)
    fns = dict(add=add, sub=sub, mul=mul, div=div, neg=neg, sqrt=sqrt, sin=sin, cos=cos, tan=tan, acos=acos, asin=asin,
               atan=atan, atan2=atan2, sinh=sinh, cosh=cosh, tanh=tanh, asinh=asinh, acosh=acosh, atanh=atanh, exp=exp,
               log=log, pow=pow_)
    for t in closure(terms):
        if t in memo: continue
        if not t.args: memo[t] = t; continue
        a = [memo[x] for x in t.args]
        if all(x is y for x, y in zip(a, t.args)): memo[t] = t; continue
        f = fns.get(t.op)
        memo[t] = f(*a) if f else mk(t.op, tuple(a), t.val)
    return [memo[t] for t in terms]

# ----------------------------------------------------------------------------------------------- numeric evaluation
def feval(terms, env, lib=None, m=math):
    """evaluate in floats (or mpmath with m=mpmath-like); env: dict var-term -> value; uf handled by lib(name, idx, args)"""
    val = {}
    for t in closure(terms):
        op = t.op
        if t in env: val[t] = env[t]; continue
        a = [val[x] for x in t.args]
        try:
            if op == 'c': v = m.mpf(t.val.numerator) / t.val.denominator if m is not math else float(t.val)
            elif op == 'pi': v = +m.pi
            elif op in ('var', 'intvar'): v = float('nan')
            elif op == 'add': v = a[0] + a[1]
            elif op == 'sub': v = a[0] - a[1]
            elif op == 'mul': v = a[0] * a[1]
            elif op == 'div': v = a[0] / a[1] if a[1] != 0 else float('nan')
            elif op == 'neg': v = -a[0]
            elif op == 'sqrt': v = m.sqrt(a[0]) if a[0] >= 0 else float('nan')
            elif op == 'pow': v = a[0] ** a[1] if a[0] > 0 or a[0] == 0 and a[1] >= 0 or a[1] == int(a[1]) and a[0] != 0 else float('nan')
            elif op == 'wrap':
                tw = 2 * m.pi
                if t.val == 'floor': v = a[0] - tw * m.floor(a[0] / tw)
                elif t.val == 'fmod': v = a[0] - tw * (m.floor(a[0] / tw) if a[0] >= 0 else m.ceil(a[0] / tw))
                else: v = m.atan2(m.sin(a[0]), m.cos(a[0]))
            elif op == 'intof':
                v = {'floor': m.floor, 'ceil': m.ceil, 'round': lambda x: m.floor(x + 0.5) if x >= 0 else m.ceil(x - 0.5)}.get(t.val, lambda x: m.floor(x) if x >= 0 else m.ceil(x))(a[0])
            elif op == 'uf': v = lib(t.val[0], t.val[1], a) if lib else float('nan')
            elif op == 'matinv':
                import numpy as np
                n = t.val[0]
                v = float(np.linalg.inv(np.array([float(x) for x in a]).reshape(n, n)).flat[t.val[1]])
            elif op in ('nan', 'divzero'): v = float('nan')
            elif op == 'inf': v = float('inf')
            elif op == 'ninf': v = float('-inf')
            else: v = getattr(m, op)(*a)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            v = float('nan')
        val[t] = v
    return [val[t] for t in terms]
