#include <kep3/core_astro/flyby.hpp>
#include "kvdrv.hpp"
// a planet that only carries the two numbers the fly-by functions read
struct kv_body {
    double mu = -1., sr = -1.;
    static std::array<std::array<double, 3>, 2> eph(double) { return {{{1., 0., 0.}, {0., 1., 0.}}}; }
    double get_mu_self() const { return mu; }
    double get_safe_radius() const { return sr; }
    double get_radius() const { return 0.7 * sr; }
    double get_mu_central_body() const { return 3. * mu; }
};
static kep3::planet kv_pl(double mu, double sr) { kv_body b; b.mu = mu; b.sr = sr; return kep3::planet(b); }
// i: v_in (3), v_out (3), mu, safe radius
KV_API int kv_fb_con(const double *i, double *o)
{
    KV_TRY
    auto a = kep3::fb_con(kv_v3(i), kv_v3(i + 3), i[6], i[7]);
    o[0] = a.first; o[1] = a.second;
    auto b = kep3::fb_con(kv_v3(i), kv_v3(i + 3), kv_pl(i[6], i[7]));
    o[2] = b.first; o[3] = b.second;
    KV_CATCH
}
KV_API int kv_fb_dv(const double *i, double *o) { KV_TRY o[0] = kep3::fb_dv(kv_v3(i), kv_v3(i + 3), i[6], i[7]); KV_CATCH }
KV_API int kv_fb_dvp(const double *i, double *o) { KV_TRY o[0] = kep3::fb_dv(kv_v3(i), kv_v3(i + 3), kv_pl(i[6], i[7])); KV_CATCH }
// i: v_in (3), v_pla (3), rp, beta, mu
KV_API int kv_fb_vout(const double *i, double *o)
{
    KV_TRY
    auto r = kep3::fb_vout(kv_v3(i), kv_v3(i + 3), i[6], i[7], i[8]);
    for (int k = 0; k < 3; ++k) o[k] = r[k];
    KV_CATCH
}
