// Serialization of the classes whose dependencies (heyoka, tanuki) are replaced by stand-ins
#include <new>
#include <kep3/epoch.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
#include "kvdrv.hpp"
#include "tape.hpp"
using H = kep3::leg::sims_flanagan_hf;
using S = kep3::stark_problem;
using K = kep3::udpla::keplerian;
using J = kep3::udpla::jpl_lp;
using I = std::int64_t;
KV_API int kv_hf_rt(void *a, void *b, std::size_t *rest) { KV_TRY kv_rt(*static_cast<H *>(a), *static_cast<H *>(b), rest); KV_CATCH }
KV_API int kv_st_rt(void *a, void *b, std::size_t *rest) { KV_TRY kv_rt(*static_cast<S *>(a), *static_cast<S *>(b), rest); KV_CATCH }
KV_API int kv_kep_rt(void *a, void *b, std::size_t *rest) { KV_TRY kv_rt(*static_cast<K *>(a), *static_cast<K *>(b), rest); KV_CATCH }
KV_API int kv_jpl_rt(void *a, void *b, std::size_t *rest) { KV_TRY kv_rt(*static_cast<J *>(a), *static_cast<J *>(b), rest); KV_CATCH }
KV_API int kv_ep_rt(I a, I b, I *o, std::size_t *rest)
{
    KV_TRY
    kep3::epoch x{kep3::time_point{kep3::microseconds(a)}}, y{kep3::time_point{kep3::microseconds(b)}};
    kv_rt(x, y, rest);
    o[0] = x.get_tp().time_since_epoch().count(); o[1] = y.get_tp().time_since_epoch().count();
    KV_CATCH
}
// flat images of the fields
KV_API std::size_t kv_kj_size() { return sizeof(K) + sizeof(J); }
#if defined(KV_NOPRIV)   // the private members this file looks at are not there: no deductive case, run-time part only
#ifdef KV_REPLAY
KV_API void kv_kep_raw(void *) {}
KV_API void kv_jpl_raw(void *) {}
KV_API int kv_kep_put() { return 77; }
KV_API int kv_kep_flat() { return 77; }
KV_API int kv_jpl_put() { return 77; }
KV_API int kv_jpl_flat() { return 77; }
#endif
#else
KV_API void kv_kep_raw(void *b) { std::memset(b, 0, sizeof(K)); ::new (&static_cast<K *>(b)->m_name) std::string(); }
KV_API void kv_jpl_raw(void *b) { std::memset(b, 0, sizeof(J)); ::new (&static_cast<J *>(b)->m_name) std::string(); }
KV_API int kv_kep_put(void *b, I us, const double *d, int ell, const char *name, std::size_t n)
{
    KV_TRY
    K &k = *static_cast<K *>(b);
    k.m_ref_epoch = kep3::epoch{kep3::time_point{kep3::microseconds(us)}};
    k.m_name = std::string(name, n);
    k.m_mu_central_body = d[0]; k.m_mu_self = d[1]; k.m_radius = d[2]; k.m_safe_radius = d[3]; k.m_period = d[4]; k.m_ellipse = ell != 0;
    for (int i = 0; i < 6; ++i) { k.m_pos_vel_0[i / 3][i % 3] = d[5 + i]; k.m_kep_f_elements[i] = d[11 + i]; }
    KV_CATCH
}
KV_API int kv_kep_flat(const void *b, I *us, double *d, int *ell, char *name, std::size_t *n)
{
    KV_TRY
    const K &k = *static_cast<const K *>(b);
    *us = k.get_ref_epoch().get_tp().time_since_epoch().count();
    const std::string s = k.get_name();
    *n = s.size();
    for (std::size_t i = 0; i < s.size() && i < 60; ++i) name[i] = s[i];
    d[0] = k.get_mu_central_body(); d[1] = k.get_mu_self(); d[2] = k.get_radius(); d[3] = k.get_safe_radius(); d[4] = k.m_period; *ell = k.m_ellipse;
    for (int i = 0; i < 6; ++i) { d[5 + i] = k.m_pos_vel_0[i / 3][i % 3]; d[11 + i] = k.m_kep_f_elements[i]; }
    KV_CATCH
}
KV_API int kv_jpl_put(void *b, const double *d, const char *name, std::size_t n)
{
    KV_TRY
    J &k = *static_cast<J *>(b);
    k.m_name = std::string(name, n);
    k.m_mu_central_body = d[0]; k.m_mu_self = d[1]; k.m_radius = d[2]; k.m_safe_radius = d[3];
    for (int i = 0; i < 6; ++i) { k.m_elements[i] = d[4 + i]; k.m_elements_dot[i] = d[10 + i]; }
    KV_CATCH
}
KV_API int kv_jpl_flat(const void *b, double *d, char *name, std::size_t *n)
{
    KV_TRY
    const J &k = *static_cast<const J *>(b);
    *n = k.m_name.size();
    for (std::size_t i = 0; i < *n && i < 60; ++i) name[i] = k.m_name[i];
    d[0] = k.get_mu_central_body(); d[1] = k.get_mu_self(); d[2] = k.get_radius(); d[3] = k.get_safe_radius();
    for (int i = 0; i < 6; ++i) { d[4 + i] = k.m_elements[i]; d[10 + i] = k.m_elements_dot[i]; }
    KV_CATCH
}
#endif
#ifdef KV_REPLAY
template <class C> static int txt(const C &a, const C &b) { std::stringstream s, t; s << a; t << b; return s.str() == t.str() ? 0 : 31; }
KV_API int kv_hf_boost(const void *a, void *b, int text) { kv_anyboost(*static_cast<const H *>(a), *static_cast<H *>(b), text); return txt(*static_cast<const H *>(a), *static_cast<H *>(b)); }
KV_API int kv_st_boost(const void *a, void *b, int text) { kv_anyboost(*static_cast<const S *>(a), *static_cast<S *>(b), text); return txt(*static_cast<const S *>(a), *static_cast<S *>(b)); }
KV_API int kv_kep_boost(const void *a, void *b, int text) { kv_anyboost(*static_cast<const K *>(a), *static_cast<K *>(b), text); return txt(*static_cast<const K *>(a), *static_cast<K *>(b)); }
KV_API int kv_jpl_boost(const void *a, void *b, int text) { kv_anyboost(*static_cast<const J *>(a), *static_cast<J *>(b), text); return txt(*static_cast<const J *>(a), *static_cast<J *>(b)); }
KV_API int kv_ep_boost(I a, I b, I *o, int text)
{
    kep3::epoch x{kep3::time_point{kep3::microseconds(a)}}, y{kep3::time_point{kep3::microseconds(b)}};
    kv_anyboost(x, y, text);
    o[0] = x.get_tp().time_since_epoch().count(); o[1] = y.get_tp().time_since_epoch().count();
    return 0;
}
#endif
