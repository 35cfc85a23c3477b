#include <kep3/exceptions.hpp>
#include <kep3/planet.hpp>
#include "kvdrv.hpp"
using I = std::int64_t;
using S = std::array<std::array<double, 3>, 2>;
static kep3::epoch at(I us) { return kep3::epoch(kep3::time_point{kep3::microseconds(us)}); }
// the user's ephemeris: any function of the date
extern "C" void kv_user_eph(double d, double *o);
#ifdef KV_REPLAY
static double kv_state[8];
extern "C" void kv_user_eph(double d, double *o) { for (int i = 0; i < 6; ++i) o[i] = kv_state[i] + d * kv_state[6]; }
KV_API void kv_def_state(const double *s) { for (int i = 0; i < 7; ++i) kv_state[i] = s[i]; }
#endif
static S user(double d) { double o[6]; kv_user_eph(d, o); return kv_rv(o); }
struct kv_bare { static S eph(double d) { return user(d); } std::string get_name() const { return "bare"; } };
struct kv_min { double mu = 1.; static S eph(double d) { return user(d); } double get_mu_central_body() const { return mu; } };
struct kv_own { double mu = 1.; static S eph(double d) { return user(d); } double get_mu_central_body() const { return mu; }
    double period(double d) const { return 2. * d; }
    std::array<double, 6> elements(double d, kep3::elements_type t) const { return {{d, 1. + static_cast<int>(t), 3., 4., 5., 6.}}; }
    std::vector<double> eph_v(const std::vector<double> &d) const { return {1., 2., static_cast<double>(d.size())}; }
    double get_mu_self() const { return 2. * mu; }
    double get_radius() const { return 3. * mu; }
    double get_safe_radius() const { return 4. * mu; } };
static kep3::planet mk(double mu) { kv_min u; u.mu = mu; return kep3::planet(u); }
KV_API int kv_def_period(double mu, double d, double *o) { KV_TRY auto p = mk(mu); o[0] = p.period(d); KV_CATCH }
KV_API int kv_def_period_ep(double mu, I us, double *o) { KV_TRY auto p = mk(mu); o[0] = p.period(at(us)); KV_CATCH }
KV_API int kv_def_period0(double mu, double *o) { KV_TRY auto p = mk(mu); o[0] = p.period(); KV_CATCH }
static void el(double *o, const std::array<double, 6> &r) { for (int i = 0; i < 6; ++i) o[i] = r[i]; }
KV_API int kv_def_elem(double mu, double d, int t, double *o) { KV_TRY auto p = mk(mu); el(o, p.elements(d, static_cast<kep3::elements_type>(t))); KV_CATCH }
KV_API int kv_def_elem_ep(double mu, I us, int t, double *o) { KV_TRY auto p = mk(mu); el(o, p.elements(at(us), static_cast<kep3::elements_type>(t))); KV_CATCH }
KV_API int kv_def_elem0(double mu, double *o) { KV_TRY auto p = mk(mu); el(o, p.elements()); KV_CATCH }
KV_API int kv_def_eph(double mu, double d, I us, double *o) { KV_TRY auto p = mk(mu); kv_out(o, p.eph(d)); kv_out(o + 6, p.eph(at(us))); KV_CATCH }
KV_API int kv_def_ephv(double mu, const double *d, std::size_t n, double *o, std::size_t *no)
{
    KV_TRY
    auto p = mk(mu);
    auto r = p.eph_v(std::vector<double>(d, d + n));
    *no = r.size();
    for (std::size_t i = 0; i < r.size() && i < 6 * n + 6; ++i) o[i] = r[i];
    KV_CATCH
}
// accessors: o[0..3] of a planet with a central body only, o[4..7] with everything, o[8..11] with nothing
KV_API int kv_def_get(double mu, double *o)
{
    KV_TRY
    auto p = mk(mu);
    kv_own w; w.mu = mu;
    kep3::planet q(w), r{kv_bare{}};
    int k = 0;
    for (const auto *x : {&p, &q, &r}) { o[k++] = x->get_mu_central_body(); o[k++] = x->get_mu_self(); o[k++] = x->get_radius(); o[k++] = x->get_safe_radius(); }
    KV_CATCH
}
KV_API int kv_def_own(double mu, double d, int t, double *o)
{
    KV_TRY
    kv_own w; w.mu = mu;
    kep3::planet q(w);
    o[0] = q.period(d); el(o + 1, q.elements(d, static_cast<kep3::elements_type>(t)));
    auto v = q.eph_v(std::vector<double>{d, d});
    for (int i = 0; i < 3; ++i) o[7 + i] = v[i];
    KV_CATCH
}
#ifdef KV_REPLAY
#define KV_TRY2 try {
#define KV_CATCH2 return 0; } catch (const kep3::not_implemented_error &) { return 7; } catch (...) { return 9; }
#else
#define KV_TRY2
#define KV_CATCH2 return 0;
#endif
KV_API int kv_def_bare(int what, double d, int t, double *o)
{
    KV_TRY2
    kep3::planet r{kv_bare{}};
    if (what == 0) o[0] = r.period(d); else el(o, r.elements(d, static_cast<kep3::elements_type>(t)));
    KV_CATCH2
}
