import ctypes, math, random
from kvc import term as T, smt, build
from kvc.term import var, const, sin, cos, tan, sqrt, atan, sinh, cosh, tanh, atan2, acos, PI, lift
from kvc.case import Case, Skip
from kvc.engine import SymInt
DOM = '_ZTISt12domain_error'
D = ctypes.c_double
def darr(v): return (D * max(1, len(v)))(*[float(x) for x in v])
def U(a, b): return lambda r: r.uniform(a, b)
def LU(a, b): return lambda r: math.exp(r.uniform(math.log(a), math.log(b)))
def PMLU(a, b): return lambda r: r.choice((-1, 1)) * math.exp(r.uniform(math.log(a), math.log(b)))
