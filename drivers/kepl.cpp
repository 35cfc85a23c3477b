#include <new>
#include <kep3/planet.hpp>
#include <kep3/udpla/keplerian.hpp>
#include "kvdrv.hpp"
using K = kep3::udpla::keplerian;
using I = std::int64_t;
static kep3::epoch at(I us) { return kep3::epoch(kep3::time_point{kep3::microseconds(us)}); }
KV_API std::size_t kv_kep_size() { return sizeof(K); }
static std::array<double, 3> ad(const double *a) { return {{a[0], a[1], a[2]}}; }
// in: 6 elements or state, mu, mu_self, radius, safe radius
KV_API int kv_kep_el(void *b, I us, const double *i, int type, const char *name) { KV_TRY ::new (b) K(at(us), kv_v6(i), i[6], std::string(name), ad(i + 7), static_cast<kep3::elements_type>(type)); KV_CATCH }
KV_API int kv_kep_pv(void *b, I us, const double *i, const char *name) { KV_TRY ::new (b) K(at(us), kv_rv(i), i[6], std::string(name), ad(i + 7)); KV_CATCH }
KV_API int kv_kep_def(void *b) { KV_TRY ::new (b) K(); KV_CATCH }
// constructors with their default arguments (true-anomaly elements / state given)
KV_API int kv_kep_el0(void *b, I us, const double *i) { KV_TRY ::new (b) K(at(us), kv_v6(i)); KV_CATCH }
KV_API int kv_kep_pv0(void *b, I us, const double *i) { KV_TRY ::new (b) K(at(us), kv_rv(i)); KV_CATCH }
KV_API void kv_kep_del(void *b) { static_cast<K *>(b)->~K(); }
// o: mu, mu_self, radius, safe radius, period, period at a date, mjd2000 of the reference epoch
KV_API int kv_kep_get(const void *b, double d, double *o)
{
    KV_TRY
    const K &k = *static_cast<const K *>(b);
    o[0] = k.get_mu_central_body(); o[1] = k.get_mu_self(); o[2] = k.get_radius(); o[3] = k.get_safe_radius(); o[4] = k.period(); o[5] = k.period(d); o[6] = k.get_ref_epoch().mjd2000();
    KV_CATCH
}
KV_API int kv_kep_name(const void *b, char *o) { KV_TRY std::string s = static_cast<const K *>(b)->get_name(); for (std::size_t i = 0; i < s.size(); ++i) o[i] = s[i]; o[s.size()] = 0; KV_CATCH }
KV_API int kv_kep_eph(const void *b, double d, double *o) { KV_TRY kv_out(o, static_cast<const K *>(b)->eph(d)); KV_CATCH }
static void el(double *o, const std::array<double, 6> &r) { for (int i = 0; i < 6; ++i) o[i] = r[i]; }
KV_API int kv_kep_elem(const void *b, double d, int type, double *o) { KV_TRY el(o, static_cast<const K *>(b)->elements(d, static_cast<kep3::elements_type>(type))); KV_CATCH }
KV_API int kv_kep_elem0(const void *b, double *o) { KV_TRY el(o, static_cast<const K *>(b)->elements()); KV_CATCH }
// the same through the planet interface
KV_API int kv_kep_planet(const void *b, I us, int type, double *o)
{
    KV_TRY
    const kep3::planet p(*static_cast<const K *>(b));
    kv_out(o, p.eph(at(us)));
    el(o + 6, p.elements(at(us), static_cast<kep3::elements_type>(type)));
    o[12] = p.period(at(us)); o[13] = p.get_mu_central_body(); o[14] = p.get_mu_self(); o[15] = p.get_radius(); o[16] = p.get_safe_radius();
    KV_CATCH
}
