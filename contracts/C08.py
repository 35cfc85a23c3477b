from .twobody import *
IR = ['drivers/prop.cpp', 'src/core_astro/propagate_lagrangian.cpp']
SRC = ['drivers/prop.cpp'] + ['src/core_astro/%s.cpp' % k for k in ('propagate_lagrangian', 'stm', 'ic2par2ic', 'ic2eq2ic', 'eq2par2eq')] + ['src/linalg.cpp']
REPLAY = dict(srcs=SRC, libs=['-lfmt', '-lopenblas', '-llapack'])
class Ell(Prop):
    name = 'elliptic'
    basis = (R0, m, SA_E, rf_ell(r0, SA_E))
    def nmean(self): return m / (SA_E * SA_E * SA_E)
class Hy(Prop):
    name = 'hyperbolic'
    hyp = True
    basis = (R0, m, SA_H, rf_hyp(r0, SA_H))
def cases(tier):
    return [Ell(), Hy()]
runtime = prop_runtime(("kv_lag",), 500)
