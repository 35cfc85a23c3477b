#include <new>
#include <kep3/leg/sims_flanagan.hpp>
#include "kvdrv.hpp"
using kep3::leg::sims_flanagan;
using kv_sf = sims_flanagan;
static kv_sf &L(void *b) { return *static_cast<kv_sf *>(b); }
static std::vector<double> tv(const double *p, std::size_t n) { return std::vector<double>(p, p + n); }
// a[]: rvs(6) ms rvf(6) mf tof max_thrust isp mu cut
KV_API std::size_t kv_sf_size() { return sizeof(kv_sf); }
KV_API int kv_sf_new(void *b, const double *a, const double *th, std::size_t n)
{
    KV_TRY
    new (b) kv_sf(kv_rv(a), a[6], tv(th, n), kv_rv(a + 7), a[13], a[14], a[15], a[16], a[17], a[18]);
    KV_CATCH
}
KV_API int kv_sf_new_nocut(void *b, const double *a, const double *th, std::size_t n)
{
    KV_TRY
    new (b) kv_sf(kv_rv(a), a[6], tv(th, n), kv_rv(a + 7), a[13], a[14], a[15], a[16], a[17]);
    KV_CATCH
}
KV_API int kv_sf_default(void *b) { KV_TRY new (b) kv_sf(); KV_CATCH }
KV_API void kv_sf_delete(void *b) { L(b).~kv_sf(); }
// setters, by number; v: up to six doubles
KV_API int kv_sf_set(void *b, int op, const double *v, const double *th, std::size_t n)
{
    KV_TRY
    switch (op) {
        case 0: L(b).set_tof(v[0]); break;
        case 1: L(b).set_rvs(kv_rv(v)); break;
        case 2: L(b).set_ms(v[0]); break;
        case 3: L(b).set_throttles(tv(th, n)); break;
        case 4: { const std::vector<double> t = tv(th, n); L(b).set_throttles(t.begin(), t.end()); break; }
        case 5: L(b).set_rvf(kv_rv(v)); break;
        case 6: L(b).set_mf(v[0]); break;
        case 7: L(b).set_max_thrust(v[0]); break;
        case 8: L(b).set_isp(v[0]); break;
        case 9: L(b).set_mu(v[0]); break;
        case 10: L(b).set_cut(v[0]); break;
        case 11: L(b).set(kv_rv(v), v[6], tv(th, n), kv_rv(v + 7), v[13], v[14], v[15], v[16], v[17], v[18]); break;
        case 12: L(b).set(kv_rv(v), v[6], tv(th, n), kv_rv(v + 7), v[13], v[14], v[15], v[16], v[17]); break;
        case 13: { const std::vector<double> t = tv(th, n); L(b).set_throttles(t.begin() + 1, t.end() - 1); break; }
        case 14: { const std::vector<double> t = tv(th, n); L(b).set_throttles(t.end(), t.begin()); break; }
    }
    KV_CATCH
}
KV_API int kv_sf_dump(const void *b, double *a, double *th, std::size_t cap, std::size_t *n, unsigned *s)
{
    KV_TRY
    const kv_sf &l = *static_cast<const kv_sf *>(b);
    for (int i = 0; i < 6; ++i) { a[i] = l.get_rvs()[i / 3][i % 3]; a[7 + i] = l.get_rvf()[i / 3][i % 3]; }
    a[6] = l.get_ms(); a[13] = l.get_mf(); a[14] = l.get_tof(); a[15] = l.get_max_thrust(); a[16] = l.get_isp(); a[17] = l.get_mu(); a[18] = l.get_cut();
    *n = l.get_throttles().size();
    for (std::size_t i = 0; i < *n && i < cap; ++i) th[i] = l.get_throttles()[i];
    s[0] = l.get_nseg(); s[1] = l.get_nseg_fwd(); s[2] = l.get_nseg_bck();
    KV_CATCH
}
KV_API int kv_sf_mc(const void *b, double *o)
{
    KV_TRY
    auto r = static_cast<const kv_sf *>(b)->compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) o[i] = r[i];
    KV_CATCH
}
KV_API int kv_sf_grad(const void *b, double *gs, double *gf, double *g, std::size_t cap, std::size_t *n)
{
    KV_TRY
    auto r = static_cast<const kv_sf *>(b)->compute_mc_grad();
    for (int i = 0; i < 49; ++i) { gs[i] = std::get<0>(r)[i]; gf[i] = std::get<1>(r)[i]; }
    *n = std::get<2>(r).size();
    for (std::size_t i = 0; i < *n && i < cap; ++i) g[i] = std::get<2>(r)[i];
    KV_CATCH
}
KV_API int kv_sf_tc(const void *b, double *o, std::size_t cap, std::size_t *n)
{
    KV_TRY
    auto r = static_cast<const kv_sf *>(b)->compute_throttle_constraints();
    *n = r.size();
    for (std::size_t i = 0; i < *n && i < cap; ++i) o[i] = r[i];
    KV_CATCH
}
KV_API int kv_sf_tcg(const void *b, double *o, std::size_t cap, std::size_t *n)
{
    KV_TRY
    auto r = static_cast<const kv_sf *>(b)->compute_tc_grad();
    *n = r.size();
    for (std::size_t i = 0; i < *n && i < cap; ++i) o[i] = r[i];
    KV_CATCH
}
