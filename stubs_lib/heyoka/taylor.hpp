// Stand-in for heyoka's adaptive Taylor integrator: it keeps state, time, parameters, tolerance and the dynamics; integrating
// is the external function kv_ta_run (the flow of the dynamics for the stated time, an assumed contract).
#ifndef KV_HEYOKA_TAYLOR
#define KV_HEYOKA_TAYLOR
#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>
#include <limits>
#include <tuple>
// advances state (n numbers) by the dynamics with parameters pars over [t0, t1]
extern "C" int kv_ta_run(double *state, std::size_t n, const double *pars, std::size_t np, double t0, double t1, double tol, std::size_t nargs);
namespace heyoka
{
enum class taylor_outcome : long { success = -4294967296, step_limit = -4294967297, time_limit = -4294967298, err_nf_state = -4294967299, cb_stop = -4294967300 };
template <typename T> class taylor_adaptive
{
    dyn_t m_sys;
    std::vector<expression> m_args;
    std::vector<T> m_state, m_pars;
    T m_time = 0, m_tol = std::numeric_limits<T>::epsilon();
    void opt(const kw::tol_v &o) { m_tol = o.v; }
    void opt(const kw::pars_v &o) { m_pars = o.v; }
    void opt(const kw::cm_v &) {}
    void fin()
    {
        if (m_tol == 0) m_tol = std::numeric_limits<T>::epsilon();
        if (m_pars.size() < 8u) m_pars.resize(8u, T(0));
        const std::size_t n = m_sys.size(), k = m_args.size();
        if (m_state.size() == n && k) { // initial conditions of the variational equations
            m_state.resize(n * (k + 1u), T(0));
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < k; ++j)
                    if (m_args[j].tag == m_sys[i].first.tag) m_state[n + i * k + j] = T(1);
        }
    }

public:
    taylor_adaptive() = default;
    template <typename... K> explicit taylor_adaptive(const dyn_t &s, std::vector<T> st, K &&...k) : m_sys(s), m_state(std::move(st)) { (opt(k), ...); fin(); }
    template <typename... K> explicit taylor_adaptive(const var_ode_sys &s, std::vector<T> st, K &&...k) : m_sys(s.sys), m_args(s.args), m_state(std::move(st)) { (opt(k), ...); fin(); }
    const std::vector<T> &get_state() const { return m_state; }
    T *get_state_data() { return m_state.data(); }
    const T *get_state_data() const { return m_state.data(); }
    const std::vector<T> &get_pars() const { return m_pars; }
    T *get_pars_data() { return m_pars.data(); }
    const T *get_pars_data() const { return m_pars.data(); }
    T get_time() const { return m_time; }
    void set_time(T t) { m_time = t; }
    T get_tol() const { return m_tol; }
    const dyn_t &get_sys() const { return m_sys; }
    const std::vector<expression> &get_vargs() const { return m_args; }
    std::tuple<taylor_outcome, T, T, std::size_t, int, int> propagate_until(T t)
    {
        const int rc = kv_ta_run(m_state.data(), m_state.size(), m_pars.data(), m_pars.size(), m_time, t, m_tol, m_args.size());
        m_time = t;
        return {rc ? taylor_outcome::err_nf_state : taylor_outcome::time_limit, T(0), T(0), std::size_t(1), 0, 0};
    }
    std::tuple<taylor_outcome, T, T, std::size_t, int, int> propagate_for(T dt) { return propagate_until(m_time + dt); }
    // the first grid point is the current time
    std::tuple<taylor_outcome, T, T, std::size_t, int, std::vector<T>> propagate_grid(const std::vector<T> &g)
    {
        std::vector<T> out;
        int rc = 0;
        for (T t : g) {
            if (t != m_time) rc |= kv_ta_run(m_state.data(), m_state.size(), m_pars.data(), m_pars.size(), m_time, t, m_tol, m_args.size());
            m_time = t;
            out.insert(out.end(), m_state.begin(), m_state.end());
        }
        return {rc ? taylor_outcome::err_nf_state : taylor_outcome::time_limit, T(0), T(0), g.size(), 0, out};
    }
    template <typename A> void serialize(A &ar, unsigned) { ar & m_state; ar & m_pars; ar & m_time; ar & m_tol; }
};
}
#endif
