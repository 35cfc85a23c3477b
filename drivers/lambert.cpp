#include <kep3/lambert_problem.hpp>
#include "kvdrv.hpp"
// the whole observable state of a Lambert problem: getters flattened into one array
static void kv_lam_out(const kep3::lambert_problem &lp, std::size_t cap, double *v0, double *v1, double *x, unsigned *iters, std::size_t *n, unsigned *nmax, double *in)
{
    n[0] = lp.get_v0().size(); n[1] = lp.get_v1().size(); n[2] = lp.get_x().size(); n[3] = lp.get_iters().size();
    *nmax = lp.get_Nmax();
    for (std::size_t i = 0; i < lp.get_v0().size() && i < cap; ++i) for (int j = 0; j < 3; ++j) v0[3 * i + j] = lp.get_v0()[i][j];
    for (std::size_t i = 0; i < lp.get_v1().size() && i < cap; ++i) for (int j = 0; j < 3; ++j) v1[3 * i + j] = lp.get_v1()[i][j];
    for (std::size_t i = 0; i < lp.get_x().size() && i < cap; ++i) x[i] = lp.get_x()[i];
    for (std::size_t i = 0; i < lp.get_iters().size() && i < cap; ++i) iters[i] = lp.get_iters()[i];
    for (int j = 0; j < 3; ++j) { in[j] = lp.get_r0()[j]; in[3 + j] = lp.get_r1()[j]; }
    in[6] = lp.get_tof(); in[7] = lp.get_mu();
}
KV_API int kv_lambert(const double *r0, const double *r1, double tof, double mu, int cw, unsigned multi, std::size_t cap, double *v0, double *v1, double *x, unsigned *iters, std::size_t *n, unsigned *nmax, double *in)
{
    KV_TRY
    kep3::lambert_problem lp(kv_v3(r0), kv_v3(r1), tof, mu, cw != 0, multi);
    kv_lam_out(lp, cap, v0, v1, x, iters, n, nmax, in);
    KV_CATCH
}
