H = r'''
#include <kep3/lambert_problem.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <cstdio>
#include <cmath>
#include <numbers>
#include <stdexcept>
const double PI = std::numbers::pi;
static int bad = 0;
static void near(double a, double b, double tol, const char *what) { if (!(std::abs(a - b) <= tol)) { std::printf("%s: %.17g != %.17g\n", what, a, b); ++bad; } }
static void valid(const kep3::lambert_problem &lp, double tol) { for (unsigned i = 0; i < lp.get_v0().size(); ++i) { auto q = kep3::propagate_lagrangian({lp.get_r0(), lp.get_v0()[i]}, lp.get_tof(), lp.get_mu(), false).first;
  for (int j = 0; j < 3; ++j) { near(q[0][j], lp.get_r1()[j], tol, "r1"); near(q[1][j], lp.get_v1()[i][j], tol, "v1"); } } }
static kep3::lambert_problem mk(double th, double rb, double Tn, bool cw, unsigned n, double inc = 0.3)
{
    std::array<double, 3> a{1, 0, 0}, b{rb * std::cos(th), rb * std::sin(th) * std::cos(inc), rb * std::sin(th) * std::sin(inc)};
    double c = std::sqrt((b[0] - 1) * (b[0] - 1) + b[1] * b[1] + b[2] * b[2]), s = (c + 1 + rb) / 2;
    return kep3::lambert_problem(a, b, Tn * std::sqrt(s * s * s / 2), 1., cw, n);
}
'''
L = 'src/lambert_problem.cpp'
BUGS = {
'c13-beta-multirev': dict(property='C13', needs='a clockwise (lambda < 0) transfer with a revolution whose right solution has 0.8 < x < 0.99', breaks='the wrong sign of beta is used, the multi-revolution solution does not arrive',
  edits=[(L, '''        double beta = 2.0 * std::asin(std::sqrt(m_lambda * m_lambda / a));
        if (m_lambda < 0.0) {''', '''        double beta = 2.0 * std::asin(std::sqrt(m_lambda * m_lambda / a));
        if (m_lambda < 0.0 && N <= 1u) {''')],
  demo=H + 'int main() { valid(mk(2.3, 1.4, 45., true, 2), 1e-5); return bad != 0; }'),
'c13-series-tolerance': dict(property='C13', needs='a transfer within a percent of the parabola (|x-1| < 0.01)', breaks='near-parabolic transfers lose five digits: the series is truncated after its first term',
  edits=[(L, 'double Q = hypergeometricF(S1, 1e-11);', 'double Q = hypergeometricF(S1, 1e-3);')],
  demo=H + r'''int main() { for (int k = -19; k <= 20; k += 2) { std::array<double, 3> a{1, 0, 0}, b{0, 1.3, 0.2}; double rb = std::sqrt(b[1] * b[1] + b[2] * b[2]), c = std::sqrt(1 + rb * rb), s = (c + 1 + rb) / 2, l = std::sqrt(1 - c / s);
 valid(kep3::lambert_problem(a, b, 2. / 3 * (1 - l * l * l) * (1 + k * 2e-4) * std::sqrt(s * s * s / 2), 1., false, 0), 1e-8); } return bad != 0; }'''),
'c13-lancaster-log': dict(property='C13', needs='a hyperbolic transfer with x > 1.2 and lambda < -0.9 (long way round between close positions)', breaks='the logarithm is evaluated without the lambda term for very long ways round',
  edits=[(L, 'double const f = y * (z - m_lambda * x);', 'double const f = y * (z - std::max(m_lambda, -0.9) * x);')],
  demo=H + 'int main() { valid(mk(0.1, 1.05, 0.4, true, 0), 1e-7); return bad != 0; }'),
'c14-flip-threshold': dict(property='C14', needs='a plane almost containing the z axis with the short way clockwise', breaks='the direction of motion is not flipped for very steep planes',
  edits=[(L, 'if (ih(2) < 0.0) // Transfer', 'if (ih(2) < -1e-4) // Transfer')],
  demo=H + 'int main() { auto lp = mk(1.2, 1.4, 3., false, 0, PI / 2 + 5e-5); auto &r = lp.get_r0(); auto &v = lp.get_v0()[0]; double h = r[0] * v[1] - r[1] * v[0]; if (!(h > 0)) { std::printf("h_z = %g\\n", h); return 1; } return 0; }'),
'c14-minimum-margin': dict(property='C14', needs='a time of flight just below the minimum for the largest revolution count, between one and two thousandths', breaks='a revolution count without solutions is reported and spurious solutions returned',
  edits=[(L, 'if (T_min > T) {', 'if (T_min > T * (1. + 2e-3)) {')],
  demo=H + r'''int main() { double l = 0, lo = PI, hi = 2 * PI; // smallest time with one revolution, by bisection on the reported Nmax
 for (int k = 0; k < 100; ++k) { double m = (lo + hi) / 2; auto lp = mk(PI / 2, 1., m, false, 3); (lp.get_Nmax() >= 1 ? hi : lo) = m; }
 double best = 1e9; { std::array<double, 3> a{1, 0, 0}, b{0, std::cos(.3), std::sin(.3)}; double c = std::sqrt(2.), s = (c + 2) / 2; l = std::sqrt(1 - c / s);
 for (int k = 1; k < 200000; ++k) { double x = -1 + 2e-5 * k * .5, p = std::acos(x), q = std::asin(l * std::sin(p)), sn = std::sin(p); best = std::min(best, (2 * p - 2 * q + 2 * PI - std::sin(2 * p) + std::sin(2 * q)) / (2 * sn * sn * sn)); } }
 near(hi, best, 1e-4, "smallest time with one revolution"); return bad != 0; }'''),
'c15-steep-plane': dict(property='C15', needs='a transfer plane within 1e-7 of containing the z axis', breaks='well-posed steep transfers are rejected',
  edits=[(L, 'if (ih(2) == 0) {', 'if (std::abs(ih(2)) < 1e-7) {')],
  demo=H + 'int main() { try { mk(1.2, 1.4, 3., false, 0, PI / 2 - 5e-8); } catch (const std::domain_error &) { std::puts("rejected"); return 1; } return 0; }'),
'c15-zero-mu': dict(property='C15', needs='a gravitational parameter of exactly zero', breaks='mu = 0 is accepted',
  edits=[(L, 'if (mu <= 0) {', 'if (std::signbit(mu)) {')],
  demo=H + 'int main() { try { kep3::lambert_problem lp({1, 0, 0}, {0, 1, 0}, 1., 0., false, 0); } catch (const std::domain_error &) { return 0; } std::puts("accepted"); return 1; }'),
}
