#include <kep3/core_astro/convert_anomalies.hpp>
#include "kvdrv.hpp"
#define A(NAME) KV_API int kv_##NAME(const double *in, double *out) { KV_TRY out[0] = kep3::NAME(in[0], in[1]); KV_CATCH }
A(m2e) A(e2m) A(e2f) A(f2e) A(m2f) A(f2m) A(zeta2f) A(f2zeta) A(n2h) A(h2n) A(h2f) A(f2h) A(n2f) A(f2n)
