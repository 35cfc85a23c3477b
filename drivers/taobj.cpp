// Shared by the drivers of the classes that own constant-thrust integrators
#include <new>
#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>
#include <heyoka/taylor.hpp>
#include "kvdrv.hpp"
// an integrator of the constant-thrust dynamics with tolerance tol (contract of get_ta_stark, get_ta_stark_var: C27)
KV_API std::size_t kv_hf_ta_size() { return sizeof(heyoka::taylor_adaptive<double>); }
KV_API void kv_hf_ta(void *b, double tol, int var)
{
    using heyoka::par;
    auto [x, y, z, vx, vy, vz, m] = heyoka::make_vars("x", "y", "z", "vx", "vy", "vz", "m");
    const heyoka::dyn_t sys = {heyoka::prime(x) = x, heyoka::prime(y) = y, heyoka::prime(z) = z, heyoka::prime(vx) = vx, heyoka::prime(vy) = vy, heyoka::prime(vz) = vz, heyoka::prime(m) = m};
    const std::vector<double> ic = {1., 1., 1., 1., 1., 1., 1.};
    if (var) new (b) heyoka::taylor_adaptive<double>(heyoka::var_ode_sys(sys, {x, y, z, vx, vy, vz, m, par[2], par[3], par[4]}, 1), ic, heyoka::kw::tol = tol, heyoka::kw::pars = {1., 1., 0., 0., 1e-32});
    else new (b) heyoka::taylor_adaptive<double>(sys, ic, heyoka::kw::tol = tol, heyoka::kw::pars = {1., 1., 0., 0., 0.});
}
#ifdef KV_REPLAY
extern "C" double kv_hy_var(const char *) { return 1.; }
extern "C" double kv_hy_par(unsigned) { return 1.; }
static void rhs(const double *s, std::size_t na, const double *p, double *d)
{
    const double r2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2], r = std::sqrt(r2), i3 = 1 / (r2 * r), i5 = i3 / r2;
    const double *u = p + 2, un = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
    for (int k = 0; k < 3; ++k) { d[k] = s[3 + k]; d[3 + k] = -p[0] * i3 * s[k] + u[k] / s[6]; }
    d[6] = un == 0. ? 0. : -un / p[1];
    for (std::size_t j = 0; j < na; ++j) {
        const double *V = s + 7;
        double *W = d + 7, rv = 0;
        for (int k = 0; k < 3; ++k) rv += s[k] * V[k * na + j];
        for (int k = 0; k < 3; ++k) {
            W[k * na + j] = V[(3 + k) * na + j];
            W[(3 + k) * na + j] = -p[0] * i3 * V[k * na + j] + 3 * p[0] * i5 * s[k] * rv - u[k] / (s[6] * s[6]) * V[6 * na + j] + (j == 7u + k ? 1 / s[6] : 0.);
        }
        W[6 * na + j] = j >= 7u && un != 0. ? -u[j - 7] / un / p[1] : 0.;
    }
}
// classical Runge-Kutta with many steps; a request to reject the tolerance is made visible through the result
KV_API int kv_hf_flow(double *s, std::size_t n, const double *p, std::size_t, double t0, double t1, double tol, std::size_t na)
{
    const int N = 300;
    const double h = (t1 - t0) / N;
    std::vector<double> k1(n), k2(n), k3(n), k4(n), w(n);
    for (int i = 0; i < N; ++i) {
        rhs(s, na, p, k1.data());
        for (std::size_t j = 0; j < n; ++j) w[j] = s[j] + h / 2 * k1[j];
        rhs(w.data(), na, p, k2.data());
        for (std::size_t j = 0; j < n; ++j) w[j] = s[j] + h / 2 * k2[j];
        rhs(w.data(), na, p, k3.data());
        for (std::size_t j = 0; j < n; ++j) w[j] = s[j] + h * k3[j];
        rhs(w.data(), na, p, k4.data());
        for (std::size_t j = 0; j < n; ++j) s[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
    }
    if (tol > 1e-3) for (int j = 0; j < 7; ++j) s[j] *= 1 + 1e-6 * tol; // a coarse tolerance leaves a trace
    return 0;
}
extern "C" int kv_ta_run(double *s, std::size_t n, const double *p, std::size_t np, double t0, double t1, double tol, std::size_t na) { return kv_hf_flow(s, n, p, np, t0, t1, tol, na); }
#endif
