#include <new>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include "kvdrv.hpp"
using H = kep3::leg::sims_flanagan_hf;
static H &L(void *b) { return *static_cast<H *>(b); }
static std::vector<double> tv(const double *p, std::size_t n) { return std::vector<double>(p, p + n); }
static std::array<double, 7> v7(const double *p) { return {{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}}; }
// a[]: rvs(6) ms rvf(6) mf tof max_thrust isp mu cut tol
KV_API std::size_t kv_hf_size() { return sizeof(H); }
KV_API int kv_hf_new(void *b, const double *a, const double *th, std::size_t n, int form)
{
    KV_TRY
    switch (form) {
        case 0: new (b) H(kv_rv(a), a[6], tv(th, n), kv_rv(a + 7), a[13], a[14], a[15], a[16], a[17], a[18], a[19]); break;
        case 1: new (b) H(v7(a), tv(th, n), v7(a + 7), a[14], a[15], a[16], a[17], a[18], a[19]); break;
        case 2: new (b) H(kv_rv(a), a[6], tv(th, n), kv_rv(a + 7), a[13], a[14], a[15], a[16], a[17]); break;
        case 3: new (b) H(v7(a), tv(th, n), v7(a + 7), a[14], a[15], a[16], a[17], a[18]); break;
        case 4: new (b) H(); break;
    }
    KV_CATCH
}
KV_API void kv_hf_delete(void *b) { L(b).~H(); }
KV_API int kv_hf_copy(void *b, const void *s) { KV_TRY new (b) H(*static_cast<const H *>(s)); KV_CATCH }
KV_API int kv_hf_set(void *b, int op, const double *v, const double *th, std::size_t n)
{
    KV_TRY
    switch (op) {
        case 0: L(b).set_tof(v[0]); break;
        case 1: L(b).set_rvs(kv_rv(v)); break;
        case 2: L(b).set_ms(v[0]); break;
        case 3: L(b).set_throttles(tv(th, n)); break;
        case 4: { const std::vector<double> t = tv(th, n); L(b).set_throttles(t.begin(), t.end()); break; }
        case 5: L(b).set_rvf(kv_rv(v)); break;
        case 6: L(b).set_mf(v[0]); break;
        case 7: L(b).set_max_thrust(v[0]); break;
        case 8: L(b).set_isp(v[0]); break;
        case 9: L(b).set_mu(v[0]); break;
        case 10: L(b).set_cut(v[0]); break;
        case 11: L(b).set(kv_rv(v), v[6], tv(th, n), kv_rv(v + 7), v[13], v[14], v[15], v[16], v[17], v[18], v[19]); break;
        case 12: L(b).set(kv_rv(v), v[6], tv(th, n), kv_rv(v + 7), v[13], v[14], v[15], v[16], v[17]); break;
        case 13: { const std::vector<double> t = tv(th, n); L(b).set_throttles(t.begin() + 1, t.end() - 1); break; }
        case 14: { const std::vector<double> t = tv(th, n); L(b).set_throttles(t.end(), t.begin()); break; }
        case 15: L(b).set_tol(v[0]); break;
        case 16: L(b).set_rvms(v7(v)); break;
        case 17: L(b).set_rvmf(v7(v)); break;
        case 18: L(b).set(v7(v), tv(th, n), v7(v + 7), v[14], v[15], v[16], v[17], v[18], v[19]); break;
        case 19: L(b).set(v7(v), tv(th, n), v7(v + 7), v[14], v[15], v[16], v[17]); break;
        case 20: L(b).set(v7(v), tv(th, n), v7(v + 7), v[14]); break;
    }
    KV_CATCH
}
KV_API int kv_hf_dump(const void *b, double *a, double *th, std::size_t cap, std::size_t *n, unsigned *s, double *a2)
{
    KV_TRY
    const H &l = *static_cast<const H *>(b);
    for (int i = 0; i < 6; ++i) { a[i] = l.get_rvs()[i / 3][i % 3]; a[7 + i] = l.get_rvf()[i / 3][i % 3]; }
    a[6] = l.get_ms(); a[13] = l.get_mf(); a[14] = l.get_tof(); a[15] = l.get_max_thrust(); a[16] = l.get_isp(); a[17] = l.get_mu(); a[18] = l.get_cut(); a[19] = l.get_tol();
    for (int i = 0; i < 7; ++i) { a2[i] = l.get_rvms()[i]; a2[7 + i] = l.get_rvmf()[i]; }
    *n = l.get_throttles().size();
    for (std::size_t i = 0; i < *n && i < cap; ++i) th[i] = l.get_throttles()[i];
    s[0] = l.get_nseg(); s[1] = l.get_nseg_fwd(); s[2] = l.get_nseg_bck();
    KV_CATCH
}
KV_API int kv_hf_mc(const void *b, double *o)
{
    KV_TRY
    auto r = static_cast<const H *>(b)->compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) o[i] = r[i];
    KV_CATCH
}
static void vec(const std::vector<double> &r, double *o, std::size_t cap, std::size_t *n)
{
    *n = r.size();
    for (std::size_t i = 0; i < *n && i < cap; ++i) o[i] = r[i];
}
KV_API int kv_hf_tc(const void *b, double *o, std::size_t cap, std::size_t *n) { KV_TRY vec(static_cast<const H *>(b)->compute_throttle_constraints(), o, cap, n); KV_CATCH }
KV_API int kv_hf_tcg(const void *b, double *o, std::size_t cap, std::size_t *n) { KV_TRY vec(static_cast<const H *>(b)->compute_tc_grad(), o, cap, n); KV_CATCH }
KV_API int kv_hf_con(const void *b, double *o, std::size_t cap, std::size_t *n) { KV_TRY vec(static_cast<const H *>(b)->compute_constraints(), o, cap, n); KV_CATCH }
KV_API int kv_hf_setcon(void *b, const double *c, std::size_t nc, double *o, std::size_t cap, std::size_t *n) { KV_TRY vec(L(b).set_and_compute_constraints(tv(c, nc)), o, cap, n); KV_CATCH }
KV_API int kv_hf_deriv(const void *b, const double *s, const double *t, double *o)
{
    KV_TRY
    auto r = static_cast<const H *>(b)->get_state_derivative(v7(s), kv_v3(t));
    for (int i = 0; i < 7; ++i) o[i] = r[i];
    KV_CATCH
}
KV_API int kv_hf_grad(const void *b, double *gs, double *gf, double *g, std::size_t cap, std::size_t *n)
{
    KV_TRY
    auto r = static_cast<const H *>(b)->compute_mc_grad();
    for (int i = 0; i < 49; ++i) { gs[i] = std::get<0>(r)[i]; gf[i] = std::get<1>(r)[i]; }
    vec(std::get<2>(r), g, cap, n);
    KV_CATCH
}
// states of segment k, and their number
KV_API int kv_hf_hist(const void *b, unsigned pts, unsigned k, double *o, std::size_t cap, std::size_t *n, std::size_t *ns)
{
    KV_TRY
    auto r = static_cast<const H *>(b)->get_state_history(pts);
    *ns = r.size(); *n = 0;
    if (k < r.size()) vec(r[k], o, cap, n);
    KV_CATCH
}
