#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include "kvdrv.hpp"
#ifdef KV_REPLAY
static double kv_pt[16]; // x y z vx vy vz m, then the parameters
KV_API void kv_ta_point(const double *p) { for (int i = 0; i < 15; ++i) kv_pt[i] = p[i]; }
extern "C" double kv_hy_var(const char *n)
{
    static const char *const nm[] = {"x", "y", "z", "vx", "vy", "vz", "m"};
    for (int i = 0; i < 7; ++i) if (!std::strcmp(n, nm[i])) return kv_pt[i];
    return NAN;
}
extern "C" double kv_hy_par(unsigned i) { return i < 8 ? kv_pt[7 + i] : NAN; }
extern "C" int kv_ta_run(double *, std::size_t, const double *, std::size_t, double, double, double, std::size_t) { return 1; }
#endif
static int put(const heyoka::dyn_t &d, double *o, std::int64_t *tag, std::size_t *n)
{
    *n = d.size();
    for (std::size_t i = 0; i < d.size() && i < 8; ++i) { o[i] = d[i].second.v; tag[i] = d[i].first.tag; }
    return 0;
}
KV_API int kv_ta_dyn(int which, double *o, std::int64_t *tag, std::size_t *n) { KV_TRY put(which ? kep3::ta::cr3bp_dyn() : kep3::ta::stark_dyn(), o, tag, n); KV_CATCH }
// one of the four caches: 0 stark, 1 stark variational, 2 cr3bp, 3 cr3bp variational
KV_API const void *kv_ta_get(int which, double tol)
{
    return which == 0 ? &kep3::ta::get_ta_stark(tol) : which == 1 ? &kep3::ta::get_ta_stark_var(tol) : which == 2 ? &kep3::ta::get_ta_cr3bp(tol) : &kep3::ta::get_ta_cr3bp_var(tol);
}
KV_API std::size_t kv_ta_dim(int which)
{
    return which == 0 ? kep3::ta::get_ta_stark_cache_dim() : which == 1 ? kep3::ta::get_ta_stark_var_cache_dim() : which == 2 ? kep3::ta::get_ta_cr3bp_cache_dim() : kep3::ta::get_ta_cr3bp_var_cache_dim();
}
// content of an integrator: tolerance, time, state, parameters, dynamics, arguments of the variational equations
KV_API int kv_ta_read(const void *p, double *o, double *st, std::size_t *ns, double *dyn, std::int64_t *tag, std::size_t *n, std::int64_t *arg, std::size_t *na)
{
    const auto &t = *static_cast<const heyoka::taylor_adaptive<double> *>(p);
    o[0] = t.get_tol(); o[1] = t.get_time();
    *ns = t.get_state().size();
    for (std::size_t i = 0; i < *ns && i < 100; ++i) st[i] = t.get_state()[i];
    put(t.get_sys(), dyn, tag, n);
    *na = t.get_vargs().size();
    for (std::size_t i = 0; i < *na && i < 16; ++i) arg[i] = t.get_vargs()[i].tag;
    return 0;
}
