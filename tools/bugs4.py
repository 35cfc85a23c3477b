# planted bugs in the parts that the repository's own build leaves out: the demonstrations compile those sources themselves
import os
def stub(*n): return {k: open('/verif/stubs_lib/' + k).read() for k in n}
TANUKI = stub('heyoka/detail/tanuki.hpp')
HEY = {os.path.relpath(os.path.join(d, f), '/verif/stubs_lib'): open(os.path.join(d, f)).read() for d, _, fs in os.walk('/verif/stubs_lib') for f in fs}
LA = '-lfmt -lboost_serialization -lopenblas -llapack'
def S(*n): return ' '.join('"$R"/src/%s.cpp' % x for x in n)
CORE = ('linalg', 'core_astro/ic2par2ic', 'core_astro/eq2par2eq')
FB = dict(src=S('core_astro/flyby', 'planet', 'epoch', *CORE), files=TANUKI, libs=LA)
EP = dict(src=S('epoch'), libs='-lfmt -lboost_serialization')
KP = dict(src=S('udpla/keplerian', 'planet', 'epoch', *CORE), files=TANUKI, libs=LA)
JP = dict(src=S('udpla/jpl_lp', 'planet', 'epoch', *CORE), files=TANUKI, libs=LA)
PL = dict(src=S('planet', 'epoch', *CORE), files=TANUKI, libs=LA)
TA = dict(src=S('ta/stark', 'ta/cr3bp'), files=HEY)
HF = dict(src=S('leg/sims_flanagan_hf', 'leg/sf_checks', 'ta/stark', 'linalg'), files=HEY, libs=LA)
SP = dict(src=S('stark_problem', 'ta/stark'), files=HEY, libs='-lfmt')
N = r'''
#include <array>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
static int bad = 0;
static void near(double a, double b, double tol, const char *w) { if (!(std::abs(a - b) <= tol)) { std::printf("%s: %.17g != %.17g\n", w, a, b); ++bad; } }
'''
# the flow of the constant-thrust dynamics, with the partial derivatives for state and thrust
RK = N + r'''
static double PT[16];
extern "C" double kv_hy_var(const char *n) { static const char *const nm[] = {"x", "y", "z", "vx", "vy", "vz", "m"}; for (int i = 0; i < 7; ++i) if (!std::strcmp(n, nm[i])) return PT[i]; return NAN; }
extern "C" double kv_hy_par(unsigned i) { return i < 8 ? PT[7 + i] : NAN; }
static void rhs(const double *s, std::size_t na, const double *p, double *d)
{
    const double r2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2], r = std::sqrt(r2), i3 = 1 / (r2 * r), i5 = i3 / r2;
    const double *u = p + 2, un = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
    for (int k = 0; k < 3; ++k) { d[k] = s[3 + k]; d[3 + k] = -p[0] * i3 * s[k] + u[k] / s[6]; }
    d[6] = un == 0. ? 0. : -un / p[1];
    for (std::size_t j = 0; j < na; ++j) {
        const double *V = s + 7; double *W = d + 7, rv = 0;
        for (int k = 0; k < 3; ++k) rv += s[k] * V[k * na + j];
        for (int k = 0; k < 3; ++k) { W[k * na + j] = V[(3 + k) * na + j]; W[(3 + k) * na + j] = -p[0] * i3 * V[k * na + j] + 3 * p[0] * i5 * s[k] * rv - u[k] / (s[6] * s[6]) * V[6 * na + j] + (j == 7u + k ? 1 / s[6] : 0.); }
        W[6 * na + j] = j >= 7u && un != 0. ? -u[j - 7] / un / p[1] : 0.;
    }
}
static int flow(double *s, std::size_t n, const double *p, double t0, double t1, std::size_t na)
{
    const int M = 200; const double h = (t1 - t0) / M; std::vector<double> k1(n), k2(n), k3(n), k4(n), w(n);
    for (int i = 0; i < M; ++i) {
        rhs(s, na, p, k1.data()); for (std::size_t j = 0; j < n; ++j) w[j] = s[j] + h / 2 * k1[j];
        rhs(w.data(), na, p, k2.data()); for (std::size_t j = 0; j < n; ++j) w[j] = s[j] + h / 2 * k2[j];
        rhs(w.data(), na, p, k3.data()); for (std::size_t j = 0; j < n; ++j) w[j] = s[j] + h * k3[j];
        rhs(w.data(), na, p, k4.data()); for (std::size_t j = 0; j < n; ++j) s[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
    }
    return 0;
}
extern "C" int kv_ta_run(double *s, std::size_t n, const double *p, std::size_t, double t0, double t1, double, std::size_t na) { return flow(s, n, p, t0, t1, na); }
'''
HFD = RK + r'''
#include <kep3/core_astro/constants.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
using HF = kep3::leg::sims_flanagan_hf;
static std::vector<double> th(unsigned n, double s = 0.3) { std::vector<double> r(3 * n); for (unsigned i = 0; i < 3 * n; ++i) r[i] = s * (std::sin(1.7 * i + 0.4) + 0.1); return r; }
static const std::array<double, 7> XS{1, 0.1, -0.1, 0.05, 1, 0.1, 1.}, XF{-0.2, 1.1, 0.05, -0.9, 0.1, -0.05, 0.9};
static HF leg(unsigned n, double cut, double T = 0.05, double isp = 0.1) { return HF(XS, th(n), XF, 1.7, T, isp, 1., cut, 1e-14); }
static std::array<double, 7> ref(const HF &l)
{
    auto u = l.get_throttles(); unsigned n = u.size() / 3, nf = static_cast<unsigned>(n * l.get_cut()); double dt = l.get_tof() / n;
    auto a = l.get_rvms(), b = l.get_rvmf();
    auto go = [&](auto &x, unsigned k, double t) { double p[5] = {l.get_mu(), l.get_isp() * kep3::G0, 0, 0, 0}; for (int i = 0; i < 3; ++i) p[2 + i] = l.get_max_thrust() * u[3 * k + i]; flow(x.data(), 7, p, 0, t, 0); };
    for (unsigned k = 0; k < nf; ++k) go(a, k, dt);
    for (unsigned k = n; k-- > nf;) go(b, k, -dt);
    std::array<double, 7> r; for (int i = 0; i < 7; ++i) r[i] = a[i] - b[i]; return r;
}
static void mc(const HF &l, double tol) { auto r = ref(l), g = l.compute_mismatch_constraints(); for (int i = 0; i < 7; ++i) near(g[i], r[i], tol, "mismatch"); }
'''
H = 'src/leg/sims_flanagan_hf.cpp'
BUGS = {
'c21-small-turn': dict(property='C21', needs='a fast flyby or a light planet, eccentricity above 50', breaks='the deflection of nearly straight flybys uses 2/e instead of 2 asin(1/e)',
  edits=[('src/core_astro/flyby.cpp', 'const double delta = 2 * std::asin(1.0 / ecc);', 'const double delta = (ecc > 50.) ? 2. / ecc : 2 * std::asin(1.0 / ecc);')], **FB,
  demo=N + r'''#include <kep3/core_astro/flyby.hpp>
int main() { for (double e : {3., 60., 80.}) { std::array<double, 3> vi{1.5, 0.2, 0.1}, vp{0.3, 1., -0.2}; double w2 = 0, c = 0; for (int i = 0; i < 3; ++i) w2 += (vi[i] - vp[i]) * (vi[i] - vp[i]);
 auto vo = kep3::fb_vout(vi, vp, (e - 1) / w2, 0.7, 1.); double n2 = 0; for (int i = 0; i < 3; ++i) { c += (vi[i] - vp[i]) * (vo[i] - vp[i]); n2 += (vo[i] - vp[i]) * (vo[i] - vp[i]); }
 near(n2, w2, 1e-12, "relative speed"); near(c / w2, std::cos(2 * std::asin(1 / e)), 1e-11, "turn"); } return bad != 0; }'''),
'c21-dv-branch': dict(property='C21', needs='a required turn that exceeds the largest natural one by less than 0.05 rad', breaks='the manoeuvre cost neglects small missing turn angles',
  edits=[('src/core_astro/flyby.cpp', 'if (ineq_delta > 0.0) {', 'if (ineq_delta > 0.05) {')], **FB,
  demo=N + r'''#include <kep3/core_astro/flyby.hpp>
int main() { double e = 1 + 1. / 1. * 1.; double dm = 2 * std::asin(1 / e); for (double x : {-0.2, 0.01, 0.04, 0.3}) { double al = dm + x; double dv = kep3::fb_dv({1, 0, 0}, {1.1 * std::cos(al), 1.1 * std::sin(al), 0}, 1., 1.);
 double r = x > 0 ? std::sqrt(1 + 1.21 - 2.2 * std::cos(x)) : 0.1; near(dv, r, 1e-10, "dv"); } return bad != 0; }'''),
'c22-compare': dict(property='C22', needs='epochs a few microseconds apart, or one and the same, far from 2000', breaks='<= and >= compare through day counts held in double precision',
  edits=[('src/epoch.cpp', 'return c1.m_tp >= c2.m_tp;', 'return c1.mjd2000() >= c2.mjd2000();'), ('src/epoch.cpp', 'return c1.m_tp <= c2.m_tp;', 'return c1.mjd2000() <= c2.mjd2000();')], **EP,
  demo=N + r'''#include <kep3/epoch.hpp>
int main() { using namespace kep3; for (int y : {2000, 2010, 2400, 5000, 12000, 30000}) { epoch a(y, 1u, 1u), b = a + std::chrono::microseconds(1); if (a >= b || b <= a || !(a <= b) || !(b >= a)) { std::printf("order in %d\n", y); ++bad; } } return bad != 0; }'''),
'c22-mjd-rounding': dict(property='C22', needs='an MJD or MJD2000 date with a sub-millisecond part', breaks='day counts are truncated to milliseconds',
  edits=[('src/epoch.cpp', 'std::chrono::duration_cast<microseconds>(std::chrono::duration<double, seconds_day_ratio>(days))', 'std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::duration<double, seconds_day_ratio>(days))')], **EP,
  demo=N + r'''#include <kep3/epoch.hpp>
int main() { using namespace kep3; for (double us : {0., 1000., 1234., 77.}) { epoch a(us / 86400e6); near((a - epoch(0.)).count(), us, 1.1, "microseconds"); } return bad != 0; }'''),
'c23-one-digit': dict(property='C23', needs='an ISO string with exactly one digit of the fraction of a second', breaks='the tenths of a second are ignored',
  edits=[('src/epoch.cpp', 'if (len >= 21) {', 'if (len > 21) {')], **EP,
  demo=N + r'''#include <kep3/epoch.hpp>
int main() { using namespace kep3; std::string s = "2015-03-04T05:06:07.123456"; for (unsigned n : {19u, 21u, 22u, 23u, 24u, 25u, 26u}) { std::string t = s.substr(0, n); epoch a(t), b(2015, 3u, 4u, 5, 6, 7); int us = n > 20 ? std::stoi((t.substr(20) + "000000").substr(0, 6)) : 0; near((a - b).count(), us, 0, t.c_str()); } return bad != 0; }'''),
'c23-hour-wrap': dict(property='C23', needs='a number of hours of 24 or more', breaks='hours beyond a day are dropped, so the offset is not added',
  edits=[('src/epoch.cpp', 'tp += ensure_64bit<std::chrono::hours>(h);', 'tp += ensure_64bit<std::chrono::hours>(h % 24);')], **EP,
  demo=N + r'''#include <kep3/epoch.hpp>
int main() { using namespace kep3; for (int h : {0, 5, 23, 24, 49, -3, -30}) near((epoch(2020, 1u, 1u, h) - epoch(2020, 1u, 1u)).count(), 3600e6 * h, 0, "hours"); return bad != 0; }'''),
'c24-retro-elements': dict(property='C24', needs='retrograde equinoctial elements of a hyperbolic planet', breaks='elements(MEQ_R) returns the direct set for hyperbolae',
  edits=[('src/udpla/keplerian.cpp', 'retval = kep3::par2eq(retval, true);', 'retval = kep3::par2eq(retval, m_ellipse);')], **KP,
  demo=N + r'''#include <kep3/udpla/keplerian.hpp>
int main() { using namespace kep3; for (std::array<double, 6> el : {std::array<double, 6>{1.2, 0.3, 0.4, 0.5, 0.6, 0.7}, std::array<double, 6>{-1.2, 1.3, 0.4, 0.5, 0.6, 0.7}}) { udpla::keplerian k(epoch(0.), el, 1.); auto e = k.elements(0., elements_type::MEQ_R); near(e[0], el[0] * (1 - el[1] * el[1]), 1e-12, "p"); near(e[3], std::cos(0.5) / std::tan(0.2), 1e-12, "h"); near(e[4], std::sin(0.5) / std::tan(0.2), 1e-12, "k"); } return bad != 0; }'''),
'c24-circular-mean': dict(property='C24', needs='an eccentricity between 0 and 1e-3 and mean anomaly output', breaks='the true anomaly is returned as mean anomaly for nearly circular orbits',
  edits=[('src/udpla/keplerian.cpp', 'retval[5] = kep3::f2m(retval[5], retval[1]);', 'retval[5] = (retval[1] < 1e-3) ? retval[5] : kep3::f2m(retval[5], retval[1]);')], **KP,
  demo=N + r'''#include <kep3/udpla/keplerian.hpp>
int main() { using namespace kep3; for (double e : {5e-4, 0.3}) { udpla::keplerian k(epoch(0.), std::array<double, 6>{1.2, e, 0.4, 0.5, 0.6, 0.7}, 1.); double E = 2 * std::atan(std::sqrt((1 - e) / (1 + e)) * std::tan(0.35)); near(k.elements(0., elements_type::KEP_M)[5], E - e * std::sin(E), 1e-12, "M"); } return bad != 0; }'''),
'c25-end-of-range': dict(property='C25', needs='the last instant of the validity interval', breaks='the end of the validity interval is accepted',
  edits=[('src/udpla/jpl_lp.cpp', 'mjd2000 >= 18263.0', 'mjd2000 > 18263.0')], **JP,
  demo=N + r'''#include <kep3/udpla/jpl_lp.hpp>
int main() { kep3::udpla::jpl_lp p("earth"); p.eph(18262.9999); for (double t : {18263., 18264., -73048., -73049.}) { try { p.eph(t); std::printf("%g accepted\n", t); ++bad; } catch (const std::domain_error &) {} } return bad != 0; }'''),
'c25-rate': dict(property='C25', needs='Neptune, long before or after 2000', breaks='a digit of the rate of the longitude of Neptune is wrong',
  edits=[('src/udpla/jpl_lp.cpp', '{0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664}', '{0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508646}')], **JP,
  demo=N + r'''#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/core_astro/constants.hpp>
int main() { kep3::udpla::jpl_lp p("neptune"); for (double t : {-70000., 0.5, 18000.}) near(p.elements(t)[3] * kep3::RAD2DEG, 131.78422574 - 0.00508664 * (t - 0.5) / 36525, 1e-9, "node"); return bad != 0; }'''),
'c26-energy-margin': dict(property='C26', needs='a planet without a period method on a very elongated ellipse', breaks='the default period is not a number for nearly parabolic ellipses',
  edits=[('src/planet.cpp', 'if (en > 0) {', 'if (en > -1e-3 * mu / R) {')], **PL,
  demo=N + r'''#include <kep3/planet.hpp>
struct P { double v; std::array<std::array<double, 3>, 2> eph(double) const { return {{{1, 0, 0}, {0, v, 0.}}}; } double get_mu_central_body() const { return 1.; } template <typename A> void serialize(A &, unsigned) {} };
TANUKI_S11N_WRAP_EXPORT(P, kep3::detail::planet_iface)
int main() { for (double v : {1., 1.2, 1.414}) { kep3::planet p{P{v}}; double a = -0.5 / (v * v / 2 - 1); near(p.period() / (2 * 3.14159265358979323846 * std::pow(a, 1.5)), 1., 1e-9, "period"); } return bad != 0; }'''),
'c26-elements-epoch': dict(property='C26', needs='a planet without an elements method, at an epoch other than zero', breaks='the default elements are those at epoch zero',
  edits=[('include/kep3/planet.hpp', 'auto pos_vel = eph(mjd2000);', 'auto pos_vel = eph(0.);')], **PL,
  demo=N + r'''#include <kep3/planet.hpp>
struct P { std::array<std::array<double, 3>, 2> eph(double t) const { return {{{1 + t, 0.1, 0.2}, {0, 0.9, 0.1}}}; } double get_mu_central_body() const { return 1.; } template <typename A> void serialize(A &, unsigned) {} };
TANUKI_S11N_WRAP_EXPORT(P, kep3::detail::planet_iface)
int main() { kep3::planet p{P{}}; for (double t : {0., 0.05, -0.1}) { double r = std::sqrt((1 + t) * (1 + t) + 0.05), en = 0.41 - 1 / r; near(p.elements(t)[0], -0.5 / en, 1e-12, "a"); } return bad != 0; }'''),
'c27-var-cache': dict(property='C27', needs='two tolerances, variational integrator of the circular restricted problem', breaks='the cached variational integrator is returned whatever the tolerance',
  edits=[('src/ta/cr3bp.cpp', 'if (auto it = ta_cr3bp_var_cache.find(tol); it == ta_cr3bp_var_cache.end()) {', 'if (auto it = ta_cr3bp_var_cache.begin(); it == ta_cr3bp_var_cache.end()) {')], **TA,
  demo=RK + r'''#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
int main() { using namespace kep3::ta; for (double t : {1e-16, 1e-8, 1e-16, 1e-4}) { near(get_ta_cr3bp(t).get_tol(), t, 0, "tol"); near(get_ta_cr3bp_var(t).get_tol(), t, 0, "tol var"); near(get_ta_stark(t).get_tol(), t, 0, "tol stark"); } near(get_ta_cr3bp_var_cache_dim(), 3, 0, "dim"); return bad != 0; }'''),
'c27-planar-thrust': dict(property='C27', needs='a thrust with a component along z', breaks='the mass flow ignores the out-of-plane thrust',
  edits=[('src/ta/stark.cpp', 'const auto u_norm = sqrt(sum({pow(ux, 2.), pow(uy, 2.), pow(uz, 2.)}));', 'const auto u_norm = sqrt(sum({pow(ux, 2.), pow(uy, 2.), pow(uy, 2.) * 0.}));')], **TA,
  demo=RK + r'''#include <kep3/ta/stark.hpp>
int main() { for (double uz : {0., 0.3}) { double v[15] = {1, 0.1, 0.2, 0, 1, 0, 2, 1, 3, 0.4, -0.2, uz}; for (int i = 0; i < 15; ++i) PT[i] = v[i]; near(kep3::ta::stark_dyn()[6].second.v, -std::sqrt(0.2 + uz * uz) / 3, 1e-12, "mdot"); } return bad != 0; }'''),
'c28-cut-order': dict(property='C28', needs='a change of the cut on an existing leg', breaks='the split follows the previous cut',
  edits=[(H, '''    m_cut = cut;
    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
    m_nseg_bck = m_nseg - m_nseg_fwd;
}''', '''    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
    m_nseg_bck = m_nseg - m_nseg_fwd;
    m_cut = cut;
}''')], **HF,
  demo=HFD + 'int main() { HF l = leg(5, 0.2); l.set_cut(0.8); near(l.get_nseg_fwd(), 4, 0, "nseg_fwd"); near(l.get_nseg_bck(), 1, 0, "nseg_bck"); mc(l, 1e-7); return bad != 0; }'),
'c28-same-size': dict(property='C28', needs='throttles replaced through iterators by the same number of throttles', breaks='the thrusts keep the old throttles when the number of segments does not change',
  edits=[(H, '''    m_throttles.resize(static_cast<size_t>(std::distance(it1, it2)));
    std::copy(it1, it2, m_throttles.begin());
''', '''    const bool same = m_throttles.size() == static_cast<size_t>(std::distance(it1, it2));
    m_throttles.resize(static_cast<size_t>(std::distance(it1, it2)));
    std::copy(it1, it2, m_throttles.begin());
    if (same) {
        return;
    }
''')], **HF,
  demo=HFD + 'int main() { HF l = leg(3, 0.4); auto u = th(3, -0.2), w = th(5, 0.15); l.set_throttles(u.cbegin(), u.cend()); mc(l, 1e-7); l.set_throttles(w.cbegin(), w.cend()); mc(l, 1e-7); return bad != 0; }'),
'c30-tof-start-state': dict(property='C30', needs='a leg with two or more backward segments', breaks='the time derivative of backward segments is taken at the wrong end of the segment',
  edits=[(H, 'x0_per_seg[(m_nseg - 1) - i] = xf_per_seg[(m_nseg - 1) - (i - 1)];', 'x0_per_seg[(m_nseg - 1) - i] = xf_per_seg[(m_nseg - 1) - i];')], **HF,
  demo=HFD + r'''int main() { for (unsigned n = 1; n < 5; ++n) for (double c : {0., 0.5, 1.}) { HF l = leg(n, c); auto g = std::get<2>(l.compute_mc_grad()); double h = 1e-5; HF a = l, b = l; a.set_tof(1.7 + h); b.set_tof(1.7 - h); auto x = ref(a), y = ref(b); for (int i = 0; i < 7; ++i) near(g[i * (3 * n + 1) + 3 * n], (x[i] - y[i]) / (2 * h), 1e-6, "d/dtof"); } return bad != 0; }'''),
'c30-history-order': dict(property='C30', needs='a leg with two or more backward segments', breaks='the history of the backward segments is stored in order of propagation',
  edits=[(H, 'output_per_seg[m_nseg - 1 - i] = output_states;', 'output_per_seg[m_nseg_fwd + i] = output_states;')], **HF,
  demo=HFD + r'''int main() { for (unsigned n = 1; n < 6; ++n) for (double c : {0., 0.5, 1.}) { HF l = leg(n, c); auto o = l.get_state_history(4); unsigned nb = l.get_nseg_bck(); if (nb) for (int i = 0; i < 7; ++i) near(o[n - 1][i], XF[i], 1e-9, "last segment starts at the final state"); } return bad != 0; }'''),
'c31-var-ic': dict(property='C31', needs='two or more variational propagations with one object', breaks='the state transition matrix of later propagations starts from the earlier result',
  edits=[('src/stark_problem.cpp', '    std::copy(m_var_ic.begin(), m_var_ic.end(), m_ta_var.get_state_data()+7);\n', '')], **SP,
  demo=RK + r'''#include <kep3/stark_problem.hpp>
int main() { kep3::stark_problem p(1., 1., 1e-16); std::array<double, 7> s{1, 0.1, 0.2, 0.1, 0.9, 0, 1}; auto a = p.propagate_var(s, {0.01, 0.02, 0.03}, 0.7), b = p.propagate_var(s, {0.01, 0.02, 0.03}, 0.7); for (int i = 0; i < 49; ++i) near(std::get<1>(a)[i], std::get<1>(b)[i], 1e-10, "dxdx"); for (int i = 0; i < 21; ++i) near(std::get<2>(a)[i], std::get<2>(b)[i], 1e-10, "dxdu"); return bad != 0; }'''),
'c31-var-mu': dict(property='C31', needs='set_mu followed by a variational propagation', breaks='the variational integrator keeps the old gravitational parameter',
  edits=[('src/stark_problem.cpp', '    m_mu = mu_in;\n    *(m_ta.get_pars_data()) = m_mu;\n    *(m_ta_var.get_pars_data()) = m_mu;\n', '    m_mu = mu_in;\n    *(m_ta.get_pars_data()) = m_mu;\n')], **SP,
  demo=RK + r'''#include <kep3/stark_problem.hpp>
int main() { kep3::stark_problem p(1., 1., 1e-16); p.set_mu(1.3); std::array<double, 7> s{1, 0.1, 0.2, 0.1, 0.9, 0, 1}; auto a = p.propagate(s, {0.01, 0.02, 0.03}, 0.7); auto b = std::get<0>(p.propagate_var(s, {0.01, 0.02, 0.03}, 0.7)); for (int i = 0; i < 7; ++i) near(a[i], b[i], 1e-10, "state"); return bad != 0; }'''),
'c16-kepl-ellipse': dict(property='C16', needs='a deserialised keplerian planet asked for its mean anomaly', breaks='the flag that the orbit is an ellipse is not serialised',
  edits=[('include/kep3/udpla/keplerian.hpp', '        ar &m_ellipse;\n', '')], **KP,
  demo=N + r'''#include <kep3/udpla/keplerian.hpp>
#include <kep3/detail/s11n.hpp>
int main() { using namespace kep3; udpla::keplerian a(epoch(0.), std::array<double, 6>{1.2, 0.3, 0.4, 0.5, 0.6, 0.7}, 1.), b(epoch(0.), std::array<double, 6>{-1.2, 1.3, 0.4, 0.5, 0.6, 0.7}, 1.); std::stringstream s; { boost::archive::binary_oarchive o(s); o << a; } { boost::archive::binary_iarchive i(s); i >> b; }
 try { near(b.elements(0., elements_type::KEP_M)[5], a.elements(0., elements_type::KEP_M)[5], 0, "M"); } catch (const std::exception &e) { std::printf("%s\n", e.what()); ++bad; } return bad != 0; }'''),
'c16-hf-thrusts': dict(property='C16', needs='a deserialised high-fidelity leg that is propagated', breaks='the thrusts of the segments are not serialised',
  edits=[('include/kep3/leg/sims_flanagan_hf.hpp', '        ar & m_thrusts;\n', '')], **HF,
  demo=HFD + r'''#include <kep3/detail/s11n.hpp>
int main() { HF a = leg(2, 0.5), b = leg(2, 0.5, 0.01); std::stringstream s; { boost::archive::binary_oarchive o(s); o << a; } { boost::archive::binary_iarchive i(s); i >> b; } auto x = a.compute_mismatch_constraints(), y = b.compute_mismatch_constraints(); for (int i = 0; i < 7; ++i) near(x[i], y[i], 1e-12, "mismatch"); return bad != 0; }'''),
}
