#include <heyoka/taylor.hpp>
#include <new>
#include <kep3/stark_problem.hpp>
#include "kvdrv.hpp"
using S = kep3::stark_problem;
static S &P(void *b) { return *static_cast<S *>(b); }
static std::array<double, 7> v7(const double *p) { return {{p[0], p[1], p[2], p[3], p[4], p[5], p[6]}}; }
KV_API std::size_t kv_st_size() { return sizeof(S); }
// a: mu veff tol
KV_API int kv_st_new(void *b, const double *a, int n)
{
    KV_TRY
    switch (n) {
        case 0: new (b) S(); break;
        case 1: new (b) S(a[0]); break;
        case 2: new (b) S(a[0], a[1]); break;
        case 3: new (b) S(a[0], a[1], a[2]); break;
    }
    KV_CATCH
}
KV_API void kv_st_delete(void *b) { P(b).~S(); }
KV_API int kv_st_copy(void *b, const void *s) { KV_TRY new (b) S(*static_cast<const S *>(s)); KV_CATCH }
KV_API int kv_st_assign(void *b, const void *s) { KV_TRY P(b) = *static_cast<const S *>(s); KV_CATCH }
KV_API int kv_st_set(void *b, int op, double v) { KV_TRY if (op == 0) P(b).set_mu(v); else P(b).set_veff(v); KV_CATCH }
KV_API int kv_st_get(const void *b, double *o)
{
    KV_TRY
    const S &s = *static_cast<const S *>(b);
    o[0] = s.get_mu(); o[1] = s.get_veff(); o[2] = s.get_tol();
    const auto t = s.get_ta(), w = s.get_ta_var();
    o[3] = t.get_pars()[0]; o[4] = t.get_pars()[1]; o[5] = t.get_tol();
    o[6] = w.get_pars()[0]; o[7] = w.get_pars()[1]; o[8] = w.get_tol();
    KV_CATCH
}
// i: state(7) thrust(3) tof
KV_API int kv_st_prop(void *b, const double *i, double *o)
{
    KV_TRY
    auto r = P(b).propagate(v7(i), kv_v3(i + 7), i[10]);
    for (int k = 0; k < 7; ++k) o[k] = r[k];
    KV_CATCH
}
KV_API int kv_st_var(void *b, const double *i, double *o)
{
    KV_TRY
    auto r = P(b).propagate_var(v7(i), kv_v3(i + 7), i[10]);
    for (int k = 0; k < 7; ++k) o[k] = std::get<0>(r)[k];
    for (int k = 0; k < 49; ++k) o[7 + k] = std::get<1>(r)[k];
    for (int k = 0; k < 21; ++k) o[56 + k] = std::get<2>(r)[k];
    KV_CATCH
}
#if defined(KV_NOPRIV)   // the private members this file looks at are not there: no deductive case, run-time part only
#ifdef KV_REPLAY
KV_API int kv_st_scramble() { return 77; }
KV_API int kv_st_inv() { return 77; }
#endif
#else
// arbitrary contents of everything the class does not rely on: 11 + 81 numbers
KV_API int kv_st_scramble(void *b, const double *x)
{
    KV_TRY
    S &s = P(b);
    for (auto *t : {&s.m_ta, &s.m_ta_var}) {
        for (std::size_t i = 0; i < t->get_state().size(); ++i) t->get_state_data()[i] = *x++;
        for (int i = 2; i < 5; ++i) t->get_pars_data()[i] = *x++;
        t->set_time(*x++);
    }
    KV_CATCH
}
KV_API int kv_st_inv(const void *b, double *o, std::size_t *n)
{
    KV_TRY
    const S &s = *static_cast<const S *>(b);
    n[0] = s.m_var_ic.size(); n[1] = s.m_ta.get_state().size(); n[2] = s.m_ta_var.get_state().size();
    for (std::size_t i = 0; i < 70 && i < n[0]; ++i) o[i] = s.m_var_ic[i];
    KV_CATCH
}
#endif
