#include <new>
#include <type_traits>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include "kvdrv.hpp"
#include "tape.hpp"
using LP = kep3::lambert_problem;
using SF = kep3::leg::sims_flanagan;
#if defined(KV_NOPRIV)   // the private members this file looks at are not there: no deductive case, run-time part only
#ifdef KV_REPLAY
KV_API int kv_lam_rt() { return 77; }
#endif
#else
// raw objects: every private field settable
struct kv_lraw { alignas(LP) unsigned char b[sizeof(LP)]; LP &o() { return *reinterpret_cast<LP *>(b); } kv_lraw() { std::memset(b, 0, sizeof b); } };
struct kv_lf { double d[64]; unsigned u[32]; };          // flat image of the fields
static void kv_lput(LP &l, std::size_t n, const double *d, const unsigned *u)
{
    for (int i = 0; i < 3; ++i) { l.m_r0[i] = d[i]; l.m_r1[i] = d[3 + i]; }
    l.m_tof = d[6]; l.m_mu = d[7]; l.m_s = d[8]; l.m_c = d[9]; l.m_lambda = d[10];
    l.m_v0.resize(n); l.m_v1.resize(n); l.m_iters.resize(n); l.m_x.resize(n);
    for (std::size_t k = 0; k < n; ++k) {
        for (int i = 0; i < 3; ++i) { l.m_v0[k][i] = d[11 + 7 * k + i]; l.m_v1[k][i] = d[14 + 7 * k + i]; }
        l.m_x[k] = d[17 + 7 * k]; l.m_iters[k] = u[k];
    }
    l.m_Nmax = u[n];
}
// saves (na solutions, da, ua) and loads over an object holding (nb, db, ub); the fields of the result go to d, u; n: sizes
KV_API int kv_lam_rt(std::size_t na, const double *da, const unsigned *ua, std::size_t nb, const double *db, const unsigned *ub, double *d, unsigned *u, std::size_t *n, std::size_t *rest)
{
    KV_TRY
    kv_lraw a, b;
    kv_lput(a.o(), na, da, ua);
    kv_lput(b.o(), nb, db, ub);
    kv_rt(a.o(), b.o(), rest);
    const LP &l = b.o();
    for (int i = 0; i < 3; ++i) { d[i] = l.get_r0()[i]; d[3 + i] = l.get_r1()[i]; }
    d[6] = l.get_tof(); d[7] = l.get_mu(); d[8] = l.m_s; d[9] = l.m_c; d[10] = l.m_lambda;
    n[0] = l.get_v0().size(); n[1] = l.get_v1().size(); n[2] = l.get_iters().size(); n[3] = l.get_x().size();
    for (std::size_t k = 0; k < na; ++k) {
        for (int i = 0; i < 3; ++i) { if (k < n[0]) d[11 + 7 * k + i] = l.get_v0()[k][i]; if (k < n[1]) d[14 + 7 * k + i] = l.get_v1()[k][i]; }
        if (k < n[3]) d[17 + 7 * k] = l.get_x()[k];
        if (k < n[2]) u[k] = l.get_iters()[k];
    }
    u[na] = l.get_Nmax();
    KV_CATCH
}
#endif
KV_API int kv_sf_rt(void *a, void *b, std::size_t *rest)
{
    KV_TRY
    kv_rt(*static_cast<SF *>(a), *static_cast<SF *>(b), rest);
    KV_CATCH
}
#ifdef KV_REPLAY
// 0: equal; otherwise the number of the differing observation
static int kv_lcmp(const LP &a, const LP &b)
{
    if (a.get_r0() != b.get_r0()) return 21;
    if (a.get_r1() != b.get_r1()) return 22;
    if (a.get_tof() != b.get_tof()) return 23;
    if (a.get_mu() != b.get_mu()) return 24;
    if (a.get_v0() != b.get_v0()) return 25;
    if (a.get_v1() != b.get_v1()) return 26;
    if (a.get_x() != b.get_x()) return 27;
    if (a.get_iters() != b.get_iters()) return 28;
    if (a.get_Nmax() != b.get_Nmax()) return 29;
    std::stringstream s, t; s << a; t << b;
    return s.str() == t.str() ? 0 : 30;
}
KV_API int kv_lam_boost(const double *p, int cw, unsigned multi, const double *p2, int cw2, unsigned multi2, int text)
{
    try {
        const LP a(kv_v3(p), kv_v3(p + 3), p[6], p[7], cw != 0, multi);
        LP b(kv_v3(p2), kv_v3(p2 + 3), p2[6], p2[7], cw2 != 0, multi2);
        kv_anyboost(a, b, text);
        return kv_lcmp(a, b);
    } catch (const std::domain_error &) { return -1; }
}
KV_API int kv_sf_boost(const void *a, void *b, int text)
{
    kv_anyboost(*static_cast<const SF *>(a), *static_cast<SF *>(b), text);
    std::stringstream s, t; s << *static_cast<const SF *>(a); t << *static_cast<const SF *>(b);
    return s.str() == t.str() ? 0 : 31;
}
#endif
