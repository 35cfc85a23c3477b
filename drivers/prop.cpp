#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
#include "kvdrv.hpp"
static void put(double *out, double *stm, int *has, const std::pair<std::array<std::array<double, 3>, 2>, std::optional<std::array<double, 36>>> &r)
{
    kv_out(out, r.first);
    *has = r.second ? 1 : 0;
    if (r.second) for (int i = 0; i < 36; ++i) stm[i] = (*r.second)[i];
}
#define PR(NAME, FUN) KV_API int NAME(const double *rv, double tof, double mu, int want, double *out, double *stm, int *has) \
    { KV_TRY put(out, stm, has, kep3::FUN(kv_rv(rv), tof, mu, want != 0)); KV_CATCH }
PR(kv_lag, propagate_lagrangian) PR(kv_uni, propagate_lagrangian_u) PR(kv_kep, propagate_keplerian) PR(kv_rey, propagate_stm_reynolds)
KV_API int kv_lag_v(const double *rv, const double *tofs, std::size_t n, double mu, int want, double *out, double *stm, int *has, std::size_t *nout)
{
    KV_TRY
    auto r = kep3::propagate_lagrangian_v(kv_rv(rv), std::vector<double>(tofs, tofs + n), mu, want != 0);
    *nout = r.size();
    for (std::size_t i = 0; i < r.size() && i < n; ++i) put(out + 6 * i, stm + 36 * i, has + i, r[i]);
    KV_CATCH
}
KV_API int kv_stm_reynolds(const double *rv0, const double *rvf, double tof, double mu, double *out)
{
    KV_TRY auto r = kep3::stm_reynolds(kv_rv(rv0), kv_rv(rvf), tof, mu);
    for (int i = 0; i < 36; ++i) out[i] = r[i];
    KV_CATCH
}
KV_API int kv_ic2par(const double *rv, double mu, double *out) { KV_TRY auto r = kep3::ic2par(kv_rv(rv), mu); for (int i = 0; i < 6; ++i) out[i] = r[i]; KV_CATCH }
KV_API int kv_par2ic(const double *p, double mu, double *out) { KV_TRY kv_out(out, kep3::par2ic(kv_v6(p), mu)); KV_CATCH }
KV_API int kv_ic2eq(const double *rv, double mu, int retro, double *out) { KV_TRY auto r = kep3::ic2eq(kv_rv(rv), mu, retro != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; KV_CATCH }
KV_API int kv_eq2ic(const double *p, double mu, int retro, double *out) { KV_TRY kv_out(out, kep3::eq2ic(kv_v6(p), mu, retro != 0)); KV_CATCH }
KV_API int kv_eq2par(const double *p, int retro, double *out) { KV_TRY auto r = kep3::eq2par(kv_v6(p), retro != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; KV_CATCH }
KV_API int kv_par2eq(const double *p, int retro, double *out) { KV_TRY auto r = kep3::par2eq(kv_v6(p), retro != 0); for (int i = 0; i < 6; ++i) out[i] = r[i]; KV_CATCH }
