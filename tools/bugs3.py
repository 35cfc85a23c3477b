H = r'''
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/constants.hpp>
#include <cstdio>
#include <cmath>
#include <sstream>
#include <stdexcept>
#include <string>
#include <kep3/detail/s11n.hpp>
using SF = kep3::leg::sims_flanagan;
static int bad = 0;
static void near(double a, double b, double tol, const char *what) { if (!(std::abs(a - b) <= tol)) { std::printf("%s: %.17g != %.17g\n", what, a, b); ++bad; } }
static std::vector<double> th(unsigned n, double s = 0.3) { std::vector<double> r(3 * n); for (unsigned i = 0; i < 3 * n; ++i) r[i] = s * (std::sin(1.7 * i + 0.4) + 0.1); return r; }
static SF leg(unsigned n, double cut, double s = 0.3, double T = 0.05, double isp = 0.1) { return SF({{{1, 0.1, -0.1}, {0.05, 1, 0.1}}}, 1., th(n, s), {{{-0.2, 1.1, 0.05}, {-0.9, 0.1, -0.05}}}, 0.9, 1.7, T, isp, 1., cut); }
static std::array<double, 7> ref(const SF &l)
{
    auto u = l.get_throttles(); unsigned n = u.size() / 3, nf = static_cast<unsigned>(n * l.get_cut()); double dt = l.get_tof() / n, ve = l.get_isp() * kep3::G0;
    auto a = l.get_rvs(), b = l.get_rvf(); double ma = l.get_ms(), mb = l.get_mf();
    auto half = [&](auto &x, double t) { x = kep3::propagate_lagrangian(x, t, l.get_mu(), false).first; };
    for (unsigned k = 0; k < nf; ++k) { half(a, dt / 2); double q = 0; for (int i = 0; i < 3; ++i) { double d = l.get_max_thrust() * dt / ma * u[3 * k + i]; a[1][i] += d; q += d * d; } ma *= std::exp(-std::sqrt(q) / ve); half(a, dt / 2); }
    for (unsigned k = n; k-- > nf;) { half(b, -dt / 2); double q = 0; for (int i = 0; i < 3; ++i) { double d = l.get_max_thrust() * dt / mb * u[3 * k + i]; b[1][i] -= d; q += d * d; } mb *= std::exp(std::sqrt(q) / ve); half(b, -dt / 2); }
    std::array<double, 7> r; for (int i = 0; i < 3; ++i) { r[i] = a[0][i] - b[0][i]; r[3 + i] = a[1][i] - b[1][i]; } r[6] = ma - mb; return r;
}
static void mc(const SF &l, double tol) { auto r = ref(l), g = l.compute_mismatch_constraints(); for (int i = 0; i < 7; ++i) near(g[i], r[i], tol, "mismatch"); }
// gradient entries against central differences
static void grad(const SF &l, double tol)
{
    auto [gs, gf, g] = l.compute_mc_grad(); unsigned n = l.get_nseg();
    auto cmp = [&](auto put, auto get, const char *w) { const double h = 1e-5; SF a = l, b = l; put(a, h); put(b, -h); auto x = a.compute_mismatch_constraints(), y = b.compute_mismatch_constraints(); for (int i = 0; i < 7; ++i) near(get(i), (x[i] - y[i]) / (2 * h), tol, w); };
    for (int k = 0; k < 6; ++k) { cmp([&](SF &x, double h) { auto q = x.get_rvs(); q[k / 3][k % 3] += h; x.set_rvs(q); }, [&](int i) { return gs[7 * i + k]; }, "d/dxs"); cmp([&](SF &x, double h) { auto q = x.get_rvf(); q[k / 3][k % 3] += h; x.set_rvf(q); }, [&](int i) { return gf[7 * i + k]; }, "d/dxf"); }
    cmp([&](SF &x, double h) { x.set_ms(x.get_ms() + h); }, [&](int i) { return gs[7 * i + 6]; }, "d/dms"); cmp([&](SF &x, double h) { x.set_mf(x.get_mf() + h); }, [&](int i) { return gf[7 * i + 6]; }, "d/dmf");
    for (unsigned k = 0; k < 3 * n; ++k) cmp([&](SF &x, double h) { auto q = x.get_throttles(); q[k] += h; x.set_throttles(q); }, [&](int i) { return g[(3 * n + 1) * i + k]; }, "d/du");
    cmp([&](SF &x, double h) { x.set_tof(x.get_tof() + h); }, [&](int i) { return g[(3 * n + 1) * i + 3 * n]; }, "d/dtof");
}
'''
S = 'src/leg/sims_flanagan.cpp'
BL = dict(libs='-lboost_serialization')
BUGS = {
'c16-sf-cut': dict(property='C16', needs='a leg whose cut differs from that of the object it is loaded into, and a later change of the throttles', breaks='the cut of a deserialised leg is not restored, the next split is wrong',
  edits=[('include/kep3/leg/sims_flanagan.hpp', '        ar & m_cut;\n', '')], **BL,
  demo=H + r'''int main() { SF a = leg(4, 0.25), b; std::stringstream ss; { boost::archive::binary_oarchive o(ss); o << a; } { boost::archive::binary_iarchive i(ss); i >> b; }
 near(b.get_cut(), 0.25, 0, "cut"); b.set_throttles(th(8)); near(b.get_nseg_fwd(), 2, 0, "nseg_fwd"); return bad != 0; }'''),
'c16-sf-bck': dict(property='C16', needs='a leg loaded into an object with a different number of backward segments', breaks='the backward segment count of a deserialised leg is the one of the object it replaced',
  edits=[('include/kep3/leg/sims_flanagan.hpp', '        ar & m_nseg_bck;\n', '')], **BL,
  demo=H + r'''int main() { SF a = leg(3, 0.4), b; std::stringstream ss; { boost::archive::binary_oarchive o(ss); o << a; } { boost::archive::binary_iarchive i(ss); i >> b; }
 near(b.get_nseg_bck(), a.get_nseg_bck(), 0, "nseg_bck"); return bad != 0; }'''),
'c17-bck-last': dict(property='C17', needs='a leg with different numbers of forward and backward segments', breaks='the half step at the end of the backward pass is taken at the wrong segment',
  edits=[(S, 'double prop_duration = (i == m_nseg_bck - 1) ? -dt / 2 : -dt;', 'double prop_duration = (i == m_nseg - m_nseg_bck - 1) ? -dt / 2 : -dt;')],
  demo=H + 'int main() { for (unsigned n = 1; n < 6; ++n) for (double c : {0., 0.3, 0.5, 0.7, 1.}) mc(leg(n, c), 1e-9); return bad != 0; }'),
'c17-linear-mass': dict(property='C17', needs='an impulse below a thousandth of the exhaust velocity', breaks='the mass after small impulses follows the linearised rocket equation',
  edits=[(S, 'mass_bck *= std::exp(norm_dv / veff);', 'mass_bck *= (norm_dv < 1e-3 * veff) ? 1. + norm_dv / veff : std::exp(norm_dv / veff);')],
  demo=H + 'int main() { mc(leg(3, 0.3, 0.9, 0.0008, 0.1), 1e-10); mc(leg(3, 0.3, 0.9, 0.0015, 0.1), 1e-10); mc(leg(3, 0.3, 0.9, 0.0003, 0.1), 1e-10); return bad != 0; }'),
'c18-tof-weights': dict(property='C18', needs='a leg whose number of segments is odd or whose cut is not one half', breaks='the derivative with respect to the time of flight is weighted as for an even split',
  edits=[(S, '''xt::range(m_nseg_fwd * 3, m_nseg_fwd * 3 + 1)) / m_nseg * m_nseg_fwd''', '''xt::range(m_nseg_fwd * 3, m_nseg_fwd * 3 + 1)) / m_nseg * std::min(m_nseg_fwd, (m_nseg + 1) / 2)''')],
  demo=H + 'int main() { for (unsigned n = 1; n < 5; ++n) for (double c : {0., 0.3, 0.5, 0.7, 1.}) grad(leg(n, c), 1e-6); return bad != 0; }'),
'c18-small-throttle': dict(property='C18', needs='a throttle of magnitude below 1e-3', breaks='the mass derivatives of nearly unused segments are wrong',
  edits=[(S, 'auto dDvn = c / m[i] / un * xt', 'auto dDvn = c / m[i] / std::max(un, 1e-3) * xt')],
  demo=H + 'int main() { SF l = leg(2, 0.5, 5e-4, 5.); auto [gs, gf, g] = l.compute_mc_grad(); auto u = l.get_throttles(); double h = 1e-7; for (int k = 0; k < 6; ++k) { SF a = l, b = l; auto x = u, y = u; x[k] += h; y[k] -= h; a.set_throttles(x); b.set_throttles(y); near(g[7 * 6 + k], (a.compute_mismatch_constraints()[6] - b.compute_mismatch_constraints()[6]) / (2 * h), 1e-4, "dm/du"); } return bad != 0; }'),
'c19-stale-buffer': dict(property='C19', needs='two legs with different numbers of segments, the gradient of the larger one taken first', breaks='the gradient of the throttle constraints contains entries of an earlier call',
  edits=[(S, '''    std::vector<double> retval(static_cast<size_t>(m_nseg) * m_nseg * 3u, 0);
    for''', '''    thread_local std::vector<double> retval;
    retval.resize(static_cast<size_t>(m_nseg) * m_nseg * 3u);
    for''')],
  demo=H + r'''int main() { SF a = leg(5, 0.5), b = leg(3, 0.5); a.compute_tc_grad(); auto g = b.compute_tc_grad(); auto u = b.get_throttles(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 9; ++j) near(g[9 * i + j], j / 3 == i ? 2 * u[j] : 0., 0, "tc grad"); return bad != 0; }'''),
'c19-idle-segment': dict(property='C19', needs='a segment thrusting along the third axis only', breaks='the constraint of segments without in-plane thrust is reported as idle (-1)',
  edits=[(S, '''    for (decltype(m_throttles.size()) i = 0u; i < m_nseg; ++i) {
        retval[i] =''', '''    for (decltype(m_throttles.size()) i = 0u; i < m_nseg; ++i) {
        if (m_throttles[3 * i] == 0. && m_throttles[3 * i + 1] == 0.) {
            retval[i] = -1.;
            continue;
        }
        retval[i] =''')],
  demo=H + 'int main() { SF l = leg(2, 0.5); l.set_throttles({0.1, 0.2, 0.3, 0., 0., 0.9}); near(l.compute_throttle_constraints()[1], -0.19, 1e-14, "constraint"); return bad != 0; }'),
'c20-cut-first': dict(property='C20', needs='set_cut called with an invalid value, the exception caught and the leg used again', breaks='a rejected cut stays in the leg',
  edits=[(S, '''    kep3::leg::_check_cut(cut);
    m_cut = cut;
    m_nseg_fwd =''', '''    m_cut = cut;
    kep3::leg::_check_cut(m_cut);
    m_nseg_fwd =''')],
  demo=H + 'int main() { SF l = leg(4, 0.25); try { l.set_cut(1.5); return 5; } catch (const std::domain_error &) {} near(l.get_cut(), 0.25, 0, "cut"); l.set_throttles(th(8)); near(l.get_nseg_fwd(), 2, 0, "nseg_fwd"); return bad != 0; }'),
'c20-shrink': dict(property='C20', needs='the iterator form of set_throttles used with fewer segments than before', breaks='the leg keeps the number of backward segments of the longer leg',
  edits=[(S, '''    std::copy(it1, it2, m_throttles.begin());
    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
    m_nseg_bck = m_nseg - m_nseg_fwd;''', '''    std::copy(it1, it2, m_throttles.begin());
    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
    m_nseg_bck = std::max(m_nseg_bck, m_nseg - m_nseg_fwd);''')],
  demo=H + 'int main() { SF l = leg(6, 0.5); auto t = th(2); l.set_throttles(t.begin(), t.end()); near(l.get_nseg_bck(), 1, 0, "nseg_bck"); near(l.get_nseg_fwd(), 1, 0, "nseg_fwd"); return bad != 0; }'),
}
