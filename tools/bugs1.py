H = r'''
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
#include <cstdio>
#include <cmath>
#include <numbers>
const double PI = std::numbers::pi;
using RV = std::array<std::array<double, 3>, 2>;
static int bad = 0;
static void near(double a, double b, double tol, const char *what) { if (!(std::abs(a - b) <= tol)) { std::printf("%s: %.17g != %.17g\n", what, a, b); ++bad; } }
'''
BUGS = {
'c01-equatorial-guard': dict(property='C01', needs='a state in small units: |k x h| below 1e-12 although the orbit is well inclined', breaks='ic2par treats small-unit orbits as equatorial and returns NaN angles',
  edits=[('src/core_astro/ic2par2ic.cpp', '    n = n / xt::linalg::norm(n); // n = (k x h) / |k x h|\n', '''    const double nmod = xt::linalg::norm(n);
    // (nearly) equatorial orbits: the node line is not defined
    n = n / (nmod > 1e-12 ? nmod : 0.); // n = (k x h) / |k x h|
''')],
  demo=H + r'''int main() { std::array<double, 6> p{1e-9, 0.3, 0.8, 2.0, 1.0, 0.7}; double mu = 1e-18; auto q = kep3::ic2par(kep3::par2ic(p, mu), mu);
 for (int i = 1; i < 6; ++i) near(q[i], p[i], 1e-6, "element"); return bad != 0; }'''),
'c01-pericentre-tie': dict(property='C01', needs='an ellipse whose pericentre lies within 1e-7 rad of the ascending node line, on its southern side', breaks='the pericentre argument is reflected across the node line',
  edits=[('src/core_astro/ic2par2ic.cpp', '    if (evett(2) < 0) {', '    if (evett(2) < -1e-7) { // southern pericentre')],
  demo=H + r'''int main() { std::array<double, 6> p{1., 0.3, 0.8, 2.0, 2 * PI - 0.2, 0.7}; p[1] = 3e-7; auto q = kep3::ic2par(kep3::par2ic(p, 1.), 1.);
 near(std::cos(q[4]), std::cos(p[4]), 1e-4, "w"); near(std::sin(q[4]), std::sin(p[4]), 1e-4, "w"); return bad != 0; }'''),
'c02-asymptote-margin': dict(property='C02', needs='a hyperbolic true anomaly within 1e-6 of the asymptote (cos f)', breaks='valid anomalies close to the asymptote are rejected',
  edits=[('src/core_astro/ic2par2ic.cpp', 'if (ecc > 1 && cosf < -1 / ecc) {', 'if (ecc > 1 && cosf < -1 / ecc + 1e-6) {')],
  demo=H + r'''int main() { double e = 1.4; try { kep3::par2ic({-1.5, e, 0.8, 2.0, 1.0, std::acos(-1 / e + 5e-7)}, 1.); } catch (const std::domain_error &) { std::puts("rejected"); return 1; } return 0; }'''),
'c02-near-parabolic': dict(property='C02', needs='a hyperbola with e below 1.0001 and an anomaly beyond the asymptote', breaks='anomalies beyond the asymptotes of nearly parabolic hyperbolas are accepted',
  edits=[('src/core_astro/ic2par2ic.cpp', 'if (ecc > 1 && cosf < -1 / ecc) {', 'if (ecc > 1.0001 && cosf < -1 / ecc) {')],
  demo=H + r'''int main() { double e = 1.00005; try { kep3::par2ic({-1.5, e, 0.8, 2.0, 1.0, PI - 1e-3}, 1.); } catch (const std::domain_error &) { return 0; } std::puts("accepted"); return 1; }'''),
'c04-circular-threshold': dict(property='C04', needs='an eccentricity below 1e-6', breaks='the pericentre of almost circular equinoctial sets is moved to the x axis of the frame',
  edits=[('src/core_astro/eq2par2eq.cpp', '    double zita = std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi]', '    double zita = ecc < 1e-6 ? 0. : std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi]')],
  demo=H + r'''int main() { std::array<double, 6> p{1.1, 5e-7, .5, .3, 1.4, .9}; auto q = kep3::eq2par(kep3::par2eq(p)); near(q[4], p[4], 1e-6, "w"); return bad != 0; }'''),
'c04-retro-convention': dict(property='C04', needs='retrograde elements compared with the Cartesian state (two cooperating sites)', breaks='retrograde k changes sign in ic2eq/eq2ic only, so the sets no longer agree with par2eq',
  edits=[('src/core_astro/ic2eq2ic.cpp', 'double k = w(0) / (1. + I * w(2));', 'double k = I * w(0) / (1. + I * w(2));'),
         ('src/core_astro/ic2eq2ic.cpp', 'fv(1) = (2. * k * h) / den;', 'fv(1) = (2. * I * k * h) / den;'),
         ('src/core_astro/ic2eq2ic.cpp', 'fv(2) = (-2. * I * k) / den;', 'fv(2) = (-2. * k) / den;'),
         ('src/core_astro/ic2eq2ic.cpp', 'gv(0) = (2. * I * k * h) / den;', 'gv(0) = (2. * k * h) / den;'),
         ('src/core_astro/ic2eq2ic.cpp', 'double fy = (2 * k * h) / den;', 'double fy = (2 * I * k * h) / den;'),
         ('src/core_astro/ic2eq2ic.cpp', 'double fz = (-2 * I * k) / den;', 'double fz = (-2 * k) / den;'),
         ('src/core_astro/ic2eq2ic.cpp', 'double gx = (2 * I * k * h) / den;', 'double gx = (2 * k * h) / den;')],
  demo=H + r'''int main() { double mu = 1.3; std::array<double, 6> p{1.1, .2, 2.5, .3, .4, .9}; auto a = kep3::par2ic(p, mu), b = kep3::eq2ic(kep3::par2eq(p, true), mu, true);
 for (int i = 0; i < 6; ++i) near(a[i / 3][i % 3], b[i / 3][i % 3], 1e-10, "state"); return bad != 0; }'''),
'c05-parabolic-guard': dict(property='C05', needs='an eccentricity of exactly one', breaks='mean to eccentric anomaly returns a number for e = 1 instead of NaN',
  edits=[('include/kep3/core_astro/convert_anomalies.hpp', 'inline double m2e(double M, double ecc)\n{\n    if (ecc >= 1) {', 'inline double m2e(double M, double ecc)\n{\n    if (ecc > 1) {')],
  demo=H + r'''int main() { try { return std::isnan(kep3::m2e(1.2, 1.)) ? 0 : 1; } catch (...) { return 1; } }'''),
'c06-bracket': dict(property='C06', needs='a very large mean hyperbolic anomaly', breaks='mean to hyperbolic anomaly is clipped by the search bracket',
  edits=[('include/kep3/core_astro/convert_anomalies.hpp', 'IG - 20 * kep3::pi,\n        IG + 20 * kep3::pi, digits', 'IG - 6 * kep3::pi,\n        IG + 6 * kep3::pi, digits')],
  demo=H + r'''int main() { double e = 1.5, N = 1e12, Hh; try { Hh = kep3::n2h(N, e); } catch (...) { return 1; } near(e * std::sinh(Hh) - Hh, N, 1e-6 * N, "Kepler"); return bad != 0; }'''),
'c08-sigma-cache': dict(property='C08', needs='two successive calls with states of equal radius and speed but different flight path angle', breaks='a cached radial velocity of the previous call is used',
  edits=[('src/core_astro/propagate_lagrangian.cpp', '    double sigma0 = (r0[0] * v0[0] + r0[1] * v0[1] + r0[2] * v0[2]) / std::sqrt(mu);\n\n    if (a > 0) {', '''    // Repeated propagations of one state share these.
    static thread_local double last[3] = {0., 0., 0.}, last_sigma0 = 0.;
    if (last[0] != R0 || last[1] != V02 || last[2] != mu) {
        last[0] = R0;
        last[1] = V02;
        last[2] = mu;
        last_sigma0 = (r0[0] * v0[0] + r0[1] * v0[1] + r0[2] * v0[2]) / std::sqrt(mu);
    }
    double sigma0 = last_sigma0;

    if (a > 0) {''')],
  demo=H + r'''int main() { RV a{{{1., 0., 0.}, {0.5, 1., 0.}}}, b{{{1., 0., 0.}, {-0.5, 1., 0.}}}; kep3::propagate_lagrangian(a, 1., 1.); auto x = kep3::propagate_lagrangian(b, 1., 1.).first; auto y = kep3::propagate_lagrangian_u(b, 1., 1.).first;
 for (int i = 0; i < 6; ++i) near(x[i / 3][i % 3], y[i / 3][i % 3], 1e-9, "state"); return bad != 0; }'''),
'c10-short-arc-identity': dict(property='C10', needs='a very short elliptic arc on a large orbit', breaks='the matrix of a short arc is the identity, without the tof block',
  edits=[('src/core_astro/stm.cpp', '    // 3 - And finally assemble the state transition matrix\n', '''    if (std::abs(DX) < 1e-6) {
        // no motion: the matrix is the identity
        std::array<double, 36> id{};
        for (auto i = 0u; i < 6u; ++i) {
            id[7u * i] = 1.;
        }
        return id;
    }
    // 3 - And finally assemble the state transition matrix
''')],
  demo=H + r'''int main() { RV b{{{1e8, 0., 0.}, {0., 1e-4, 0.}}}; double t = 5e5; auto s = *kep3::propagate_lagrangian(b, t, 1., true).second; near(s[3], t, 1, "dx/dvx"); return bad != 0; }'''),
'c11-cache-mu': dict(property='C11', needs='two successive calls for the same initial state with different gravitational parameters', breaks='the inverse fundamental matrix of the previous call is reused although mu changed',
  edits=[('src/core_astro/stm.cpp', '''    auto Y0 = _compute_Y(r0, v0, r0, v0, 0., mu);
    retval = _dot(Y, mat66(inv(Y0)));''', '''    // Several final states are often requested for one initial state: we keep its inverse.
    static thread_local std::array<std::array<double, 3>, 2> last{};
    static thread_local mat66 Y0_inv{};
    if (last != pos_vel0) {
        auto Y0 = _compute_Y(r0, v0, r0, v0, 0., mu);
        Y0_inv = inv(Y0);
        last = pos_vel0;
    }
    retval = _dot(Y, Y0_inv);''')],
  demo=H + r'''int main() { RV a{{{1., 0.1, 0.2}, {0.1, 1., 0.1}}}; kep3::propagate_stm_reynolds(a, 1.5, 1., true); auto s = *kep3::propagate_lagrangian(a, 1.5, 1.2, true).second; auto q = *kep3::propagate_stm_reynolds(a, 1.5, 1.2, true).second;
  for (int i = 0; i < 36; ++i) near(s[i], q[i], 1e-8, "stm"); return bad != 0; }'''),
'c12-zero-tof': dict(property='C12', needs='a zero time of flight in the vector with the matrix requested', breaks='the entry for a zero time of flight carries no matrix',
  edits=[('src/core_astro/propagate_lagrangian.cpp', '        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);', '''        if (tof[i] == 0.) {
            retval[i] = {pos_vel, std::nullopt}; // nothing to propagate
            continue;
        }
        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);''')],
  demo=H + r'''int main() { RV a{{{1., 0.1, 0.2}, {0.1, 1., 0.1}}}; auto r = kep3::propagate_lagrangian_v(a, {0., 1.}, 1., true); return r[0].second.has_value() ? 0 : 1; }'''),

'c03-alpha-floor': dict(property='C03', needs='a semi-major axis above 1e10 (SI units)', breaks='the equinoctial semi-latus rectum of SI heliocentric orbits is wrong',
  edits=[('src/core_astro/ic2eq2ic.cpp', '        double sma = 1. / (2. / R0 - V0 * V0 / mu);\n', '''        double ainv = 2. / R0 - V0 * V0 / mu;
        if (std::abs(ainv) < 1e-10) {
            ainv = std::copysign(1e-10, ainv); // parabolic
        }
        double sma = 1. / ainv;
''')],
  demo=H + r'''int main() { double mu = 1.327e20; auto s = kep3::par2ic({1.5e11, .2, 0.4, .3, .4, .5}, mu); auto q = kep3::ic2eq(s, mu); near(q[0], 1.5e11 * (1 - .04), 1e5, "p"); return bad != 0; }'''),
'c05-snap-mean-anomaly': dict(property='C05', needs='a mean anomaly below 1e-9 on an eccentric ellipse', breaks='tiny mean anomalies are returned unchanged, not divided by 1-e',
  edits=[('include/kep3/core_astro/convert_anomalies.hpp', '    double M_cropped = std::atan2(sinM, cosM);\n\n    // The Initial guess', '''    double M_cropped = std::atan2(sinM, cosM);
    if (std::abs(M_cropped) < 1e-9) {
        return M_cropped; // at the pericentre
    }

    // The Initial guess''')],
  demo=H + r'''int main() { double e = 0.9, M = 5e-10, E = kep3::m2e(M, e); near(E / 5e-9, 1., 1e-3, "Kepler"); return bad != 0; }'''),
'c08-energy-floor': dict(property='C08', needs='an orbit whose specific energy is below 1e-10 in the chosen units', breaks='slow orbits in large units are refused as parabolic',
  edits=[('src/core_astro/propagate_lagrangian.cpp', '    double a = -mu / 2.0 / energy; // will be negative for hyperbolae\n', '''    double a = -mu / 2.0 / energy; // will be negative for hyperbolae
    if (std::abs(energy) < 1e-10) {
        throw std::domain_error("parabolic trajectory in propagate_lagrangian");
    }
''')],
  demo=H + r'''int main() { RV b{{{1e12, 0., 0.}, {0., 1e-6, 0.}}}; try { auto x = kep3::propagate_lagrangian(b, 2 * PI * 1e18, 1.).first; near(x[0][0], 1e12, 10., "x"); } catch (const std::domain_error &) { return 1; } return bad != 0; }'''),
'c09-alpha-flush': dict(property='C09', needs='a semi-major axis above 1e9 (SI units)', breaks='SI heliocentric orbits are treated as parabolic by the universal variable propagator',
  edits=[('src/core_astro/propagate_lagrangian.cpp', '    // initial radial velocity (see we use the inverted vf = +-v0 according to dt)\n', '''    // parabolic motion: the universal functions degenerate gracefully
    double const beta = std::abs(alpha) < 1e-9 ? 0. : alpha;
    // initial radial velocity (see we use the inverted vf = +-v0 according to dt)
'''), ('src/core_astro/propagate_lagrangian.cpp', '[dt_copy, R0, VR0, alpha, mu](double DS) {\n            return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));', '[dt_copy, R0, VR0, beta, mu](double DS) {\n            return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, beta, mu), d_kepDS(DS, R0, VR0, beta, mu));'),
  ],
  demo=H + r'''int main() { double mu = 1.327e20; auto s = kep3::par2ic({1.5e11, .2, 0.4, .3, .4, .5}, mu); auto x = kep3::propagate_lagrangian(s, 1e7, mu).first; try { auto y = kep3::propagate_lagrangian_u(s, 1e7, mu).first; near(x[0][0], y[0][0], 1e3, "x"); } catch (const std::domain_error &) { return 1; } return bad != 0; }'''),
}
