#include <new>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include "kvdrv.hpp"
using J = kep3::udpla::jpl_lp;
KV_API std::size_t kv_jpl_size() { return sizeof(J); }
KV_API int kv_jpl_new(void *b, const char *name, std::size_t n) { KV_TRY ::new (b) J(std::string(name, n)); KV_CATCH }
KV_API int kv_jpl_def(void *b) { KV_TRY ::new (b) J(); KV_CATCH }
KV_API void kv_jpl_del(void *b) { static_cast<J *>(b)->~J(); }
// o: mu, mu_self, radius, safe radius
KV_API int kv_jpl_get(const void *b, double *o)
{
    KV_TRY
    const J &k = *static_cast<const J *>(b);
    o[0] = k.get_mu_central_body(); o[1] = k.get_mu_self(); o[2] = k.get_radius(); o[3] = k.get_safe_radius();
    KV_CATCH
}
KV_API int kv_jpl_name(const void *b, char *o) { KV_TRY std::string s = static_cast<const J *>(b)->get_name(); for (std::size_t i = 0; i < s.size(); ++i) o[i] = s[i]; o[s.size()] = 0; KV_CATCH }
KV_API int kv_jpl_eph(const void *b, double d, double *o) { KV_TRY kv_out(o, static_cast<const J *>(b)->eph(d)); KV_CATCH }
static void el(double *o, const std::array<double, 6> &r) { for (int i = 0; i < 6; ++i) o[i] = r[i]; }
KV_API int kv_jpl_elem(const void *b, double d, int type, double *o) { KV_TRY el(o, static_cast<const J *>(b)->elements(d, static_cast<kep3::elements_type>(type))); KV_CATCH }
KV_API int kv_jpl_elem0(const void *b, double *o) { KV_TRY el(o, static_cast<const J *>(b)->elements()); KV_CATCH }
