#include <kep3/lambert_problem.hpp>
#include "kvdrv.hpp"
#if defined(KV_NOPRIV)   // the private members this file looks at are not there: no deductive case, run-time part only
#ifdef KV_REPLAY
KV_API int kv_x2tof() { return 77; }
KV_API int kv_dtdx() { return 77; }
KV_API int kv_hyperg() { return 77; }
KV_API int kv_house() { return 77; }
#endif
#else
// private numerical kernels, on an object whose only defined field is lambda (the only one they may read)
struct kv_obj { alignas(kep3::lambert_problem) unsigned char b[sizeof(kep3::lambert_problem)]; };
static const kep3::lambert_problem &kv_mk(kv_obj &o, double lambda)
{
    auto &lp = *reinterpret_cast<kep3::lambert_problem *>(o.b);
    lp.m_lambda = lambda;
    return lp;
}
KV_API int kv_x2tof(double lambda, double x, unsigned N, double *tof) { kv_obj o; KV_TRY kv_mk(o, lambda).x2tof(*tof, x, N); KV_CATCH }
KV_API int kv_dtdx(double lambda, double x, double T, double *d) { kv_obj o; KV_TRY kv_mk(o, lambda).dTdx(d[0], d[1], d[2], x, T); KV_CATCH }
KV_API int kv_hyperg(double z, double tol, double *out) { KV_TRY *out = kep3::lambert_problem::hypergeometricF(z, tol); KV_CATCH }
KV_API int kv_house(double lambda, double T, double *x0, unsigned N, double eps, unsigned itmax, double slope, unsigned *it) { kv_obj o; KV_TRY *it = kv_mk(o, lambda).householder(T, *x0, N, eps, itmax, slope); KV_CATCH }
#endif
