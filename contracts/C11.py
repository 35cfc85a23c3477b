"""Reynolds' form of the state transition matrix."""
from .twobody import *
from . import C08, C10
from .C08 import SRC, REPLAY
IR = C10.IR
ASSUME = ['assumed contract on LAPACK dgetrf/dgetri: exact inverse of a non-singular matrix', 'assumed contract on cblas: exact products']
class S:
    fun = 'kv_rey'; want = 1; sweep_n = 20; concrete_extra = staticmethod(C10.fd); tofrange = 6.0
class Ell(S, C08.Ell): name = 'elliptic'
class Hy(S, C08.Hy): name = 'hyperbolic'
class N(S):
    want = 0; concrete_extra = staticmethod(Prop.concrete_extra)
class EllN(N, C08.Ell): name = 'elliptic, no matrix requested'
class HyN(N, C08.Hy): name = 'hyperbolic, no matrix requested'
def cases(tier):
    return [Ell(), Hy(), EllN(), HyN()]
runtime = stm_runtime('kv_rey', 150, units=False, STMTOL=1e-10)
