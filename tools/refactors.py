#!/usr/bin/env python3
"""python3 tools/refactors.py DIR ROUND: copies /repo to DIR and applies behaviour-preserving edits; the checks, run with
KV_REPO=DIR, have to stay quiet on it."""
import os, shutil, subprocess, sys
A = {
'src/core_astro/ic2par2ic.cpp': [
 ('std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel, double mu)\n{', '''static double angle_of(double c, bool second_half)
{
    const double x = std::acos(std::clamp(c, -1., 1.));
    return second_half ? 2 * pi - x : x;
}

std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel, double mu)
{'''),
 ('''    retval[4] = std::acos(std::clamp(temp(0) / retval[1], -1., 1.));
    if (evett(2) < 0) {
        retval[4] = 2 * pi - retval[4];
    }''', '    retval[4] = angle_of(temp(0) / retval[1], evett(2) < 0);'),
 ('''    auto f = std::acos(std::clamp(temp(0) / retval[1] / R0, -1., 1.));

    temp = dot(r0, v0);
    if (temp(0) < 0.0) {
        f = 2 * pi - f;
    }
    retval[5] = f;''', '''    const double er = temp(0);
    const double rv = r0(0) * v0(0) + r0(1) * v0(1) + r0(2) * v0(2);
    retval[5] = angle_of(er / (retval[1] * R0), rv < 0.0);'''),
 ('''    double cosomg = std::cos(omg);
    double cosomp = std::cos(omp);
    double sinomg = std::sin(omg);
    double sinomp = std::sin(omp);
    double cosi = std::cos(inc);
    double sini = std::sin(inc);
''', '''    double cosi = std::cos(inc);
    double sini = std::sin(inc);
    double sinomp = std::sin(omp);
    double cosomp = std::cos(omp);
    double sinomg = std::sin(omg);
    double cosomg = std::cos(omg);
'''),
 ('''    pos_xt = xt::linalg::dot(R, pos_per);
    vel_xt = xt::linalg::dot(R, vel_per);
''', '''    for (auto i = 0u; i < 3u; ++i) {
        pos_xt(i, 0) = R(i, 0) * pos_per(0, 0) + R(i, 1) * pos_per(1, 0);
        vel_xt(i, 0) = R(i, 0) * vel_per(0, 0) + R(i, 1) * vel_per(1, 0);
    }
'''),
 ('double r = p / (1.0 + ecc * std::cos(f));', 'double r = p / (1.0 + ecc * cosf);')],
'src/core_astro/ic2eq2ic.cpp': [
 ('''        int I = 0;
        if (retrogade) {
            I = -1;
        } else {
            I = 1;
        }
''', '        const int I = retrogade ? -1 : 1;\n'),
 ('''        double X = 0., Y = 0.;
        if (std::abs(det1) == max) {
            X = (gv(1) * r0(0) - gv(0) * r0(1)) / det1;
            Y = (-fv(1) * r0(0) + fv(0) * r0(1)) / det1;
        } else if (std::abs(det2) == max) {
            X = (gv(2) * r0(0) - gv(0) * r0(2)) / det2;
            Y = (-fv(2) * r0(0) + fv(0) * r0(2)) / det2;
        } else {
            X = (gv(2) * r0(1) - gv(1) * r0(2)) / det3;
            Y = (-fv(2) * r0(1) + fv(1) * r0(2)) / det3;
        }
''', '''        unsigned i = 1u, j = 2u;
        double det = det3;
        if (std::abs(det1) == max) {
            i = 0u;
            j = 1u;
            det = det1;
        } else if (std::abs(det2) == max) {
            i = 0u;
            j = 2u;
            det = det2;
        }
        const double X = (gv(j) * r0(i) - gv(i) * r0(j)) / det;
        const double Y = (-fv(j) * r0(i) + fv(i) * r0(j)) / det;
'''),
 ('double L = std::atan2(Y / R0, X / R0);', 'double L = std::atan2(Y, X);')],
'src/core_astro/eq2par2eq.cpp': [
 ('double zita = std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi]', 'double zita = std::atan2(eq[2], eq[1]); // [-pi, pi]'),
 ('double tmp = std::sqrt(eq[3] * eq[3] + eq[4] * eq[4]);', 'double tmp = std::hypot(eq[3], eq[4]);'),
 ('''    eq[1] = par[1] * std::cos(par[4] + I * par[3]);
    eq[2] = par[1] * std::sin(par[4] + I * par[3]);
    eq[5] = par[5] + par[4] + I * par[3];''', '''    const double lp = par[4] + I * par[3];
    eq[5] = par[5] + lp;
    eq[2] = par[1] * std::sin(lp);
    eq[1] = par[1] * std::cos(lp);''')],
'src/core_astro/propagate_lagrangian.cpp': [
 ('''/// Lagrangian propagation
/**''', '''namespace
{
double norm2(const std::array<double, 3> &x)
{
    double s = 0.;
    for (const double c : x) {
        s += c * c;
    }
    return s;
}
struct kepler_de {
    double DM, sigma0, sqrta, a, R0;
    std::tuple<double, double> operator()(double DE) const
    {
        return {kepDE(DE, DM, sigma0, sqrta, a, R0), d_kepDE(DE, sigma0, sqrta, a, R0)};
    }
};
void advance(std::array<std::array<double, 3>, 2> &out, const std::array<std::array<double, 3>, 2> &in, double F, double G, double Ft, double Gt)
{
    for (std::size_t k = 0; k < 3u; ++k) {
        out[0][k] = F * in[0][k] + G * in[1][k];
        out[1][k] = Ft * in[0][k] + Gt * in[1][k];
    }
}
} // namespace

/// Lagrangian propagation
/**'''),
 ('''    double R0 = std::sqrt(r0[0] * r0[0] + r0[1] * r0[1] + r0[2] * r0[2]);
    double Rf = 0.;
    double const V02 = v0[0] * v0[0] + v0[1] * v0[1] + v0[2] * v0[2];
    double DX = 0.;''', '''    double R0 = std::sqrt(norm2(r0));
    double Rf = 0.;
    double const V02 = norm2(v0);
    double DX = 0.;'''),
 ('''            [DM_cropped, sigma0, sqrta, a, R0](double DE) {
                return std::make_tuple(kepDE(DE, DM_cropped, sigma0, sqrta, a, R0), d_kepDE(DE, sigma0, sqrta, a, R0));
            },
            IG, IG - pi, IG + pi, digits, max_iter);''', '            kepler_de{DM_cropped, sigma0, sqrta, a, R0}, IG, IG - pi, IG + pi, digits, max_iter);'),
 ('''    for (auto i = 0u; i < 3; i++) {
        rf[i] = F * r0[i] + G * v0[i];
        vf[i] = Ft * r0[i] + Gt * v0[i];
    }
    if (stm) {''', '''    advance(pos_velf, pos_vel0, F, G, Ft, Gt);
    if (stm) {'''),
 ('''    auto n = tof.size();
    std::vector<std::pair<std::array<std::array<double, 3>, 2>, std::optional<std::array<double, 36>>>> retval(n);
    for (decltype(n) i = 0u; i < n; ++i) {
        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);
    }
    return retval;''', '''    std::vector<std::pair<std::array<std::array<double, 3>, 2>, std::optional<std::array<double, 36>>>> retval;
    retval.reserve(tof.size());
    for (const double t : tof) {
        retval.push_back(kep3::propagate_lagrangian(pos_vel, t, mu, stm));
    }
    return retval;'''),
 ('''    if (dt < 0) {
        dt_copy = -dt;
        vf[0] = -vf[0];
        vf[1] = -vf[1];
        vf[2] = -vf[2];
    }
''', '''    const double sgn = dt < 0 ? -1. : 1.;
    dt_copy = sgn * dt;
    for (auto &c : vf) {
        c *= sgn;
    }
'''),
 ('''    if (dt < 0) {
        vf[0] = -vf[0];
        vf[1] = -vf[1];
        vf[2] = -vf[2];
    }
''', '''    for (auto &c : vf) {
        c *= sgn;
    }
'''),
 ('''    double const S = stumpff_s(alpha * DS * DS);
    double const C = stumpff_c(alpha * DS * DS);
    //
    double const z = alpha * DS * DS;''', '''    double const z = alpha * DS * DS;
    double const C = stumpff_c(z);
    double const S = stumpff_s(z);'''),
 ('''        double const n = std::sqrt(mu / par[0] / par[0] / par[0]);
        double const M0''', '''        double const n = std::sqrt(mu / std::pow(par[0], 3));
        double const M0'''),],
'src/core_astro/stm.cpp': [
 ('    mat36 dr0 = xt::zeros<double>({3, 6});\n    mat36 dv0 = xt::zeros<double>({3, 6});\n    dr0(0, 0) = 1;\n    dr0(1, 1) = 1;\n    dr0(2, 2) = 1;\n    dv0(0, 3) = 1;\n    dv0(1, 4) = 1;\n    dv0(2, 5) = 1;\n', '''    mat36 dr0 = xt::zeros<double>({3, 6});
    mat36 dv0 = xt::zeros<double>({3, 6});
    for (unsigned i = 0; i < 3u; ++i) {
        dr0(i, i) = 1;
        dv0(i, i + 3u) = 1;
    }
'''),
 ('''    mat66 M{};
    xt::view(M, xt::range(0, 3), xt::all()) = Mr;
    xt::view(M, xt::range(3, 6), xt::all()) = Mv;
    // ... and flatten it
    std::array<double, 36> retval{};
    std::copy(M.begin(), M.end(), retval.begin());
    return retval;''', '''    std::array<double, 36> retval{};
    std::copy(Mr.begin(), Mr.end(), retval.begin());
    std::copy(Mv.begin(), Mv.end(), retval.begin() + 18);
    return retval;'''),
 ('''    auto res = kep3::propagate_lagrangian(pos_vel0, tof, mu);
    if (stm) {
        // NOLINTNEXTLINE(readability-suspicious-call-argument)
        auto retval_stm = stm_reynolds(pos_vel0, res.first, tof, mu);
        return {res.first, retval_stm};
    } else {
        return {res.first, std::nullopt};
    }''', '''    const auto pv = kep3::propagate_lagrangian(pos_vel0, tof, mu).first;
    std::optional<std::array<double, 36>> M;
    if (stm) {
        M = stm_reynolds(pos_vel0, pv, tof, mu);
    }
    return {pv, M};'''),
 ('    double r3 = r_mod * r_mod * r_mod;', '    double r3 = std::pow(r_mod, 3);')],
'src/lambert_problem.cpp': [
 ('/// Constructor\n/**', '''static double first_guess(double T, double T00, double T1, double lambda5)
{
    if (T >= T00) {
        return -(T - T00) / (T - T00 + 4);
    }
    if (T <= T1) {
        return T1 * (T1 - T) / (2.0 / 5.0 * (1 - lambda5) * T) + 1;
    }
    return std::pow((T / T00), 0.69314718055994529 / std::log(T1 / T00)) - 1.0;
}

/// Constructor
/**'''),
 ('''    if (T >= T00) {
        m_x[0] = -(T - T00) / (T - T00 + 4);
    } else if (T <= T1) {
        m_x[0] = T1 * (T1 - T) / (2.0 / 5.0 * (1 - lambda2 * lambda3) * T) + 1;
    } else {
        m_x[0] = std::pow((T / T00), 0.69314718055994529 / std::log(T1 / T00)) - 1.0;
    }
''', '    m_x[0] = first_guess(T, T00, T1, lambda2 * lambda3);\n'),
 ('''    if (ih(2) < 0.0) // Transfer angle is larger than 180 degrees as seen from
                     // above the z axis
    {
        m_lambda = -m_lambda;
        its = -its;
        itf = -itf;
    }
    if (cw) { // Retrograde motion
        m_lambda = -m_lambda;
        its = -its;
        itf = -itf;
    }
''', '''    // Transfer angle larger than 180 degrees as seen from above the z axis, or retrograde motion (not both)
    if ((ih(2) < 0.0) != cw) {
        m_lambda = -m_lambda;
        its = -its;
        itf = -itf;
    }
'''),
 ('''    m_v0.resize(static_cast<size_t>(m_Nmax) * 2 + 1);
    m_v1.resize(static_cast<size_t>(m_Nmax) * 2 + 1);
    m_iters.resize(static_cast<size_t>(m_Nmax) * 2 + 1);
    m_x.resize(static_cast<size_t>(m_Nmax) * 2 + 1);
''', '''    const auto nsol = static_cast<size_t>(m_Nmax) * 2 + 1;
    m_x.resize(nsol);
    m_iters.resize(nsol);
    m_v1.resize(nsol);
    m_v0.resize(nsol);
'''),
 ('''        for (auto j = 0lu; j < 3lu; ++j) {
            m_v0[i][j] = vrs * irs[j] + vts * its[j];
        }
        for (auto j = 0lu; j < 3lu; ++j) {
            m_v1[i][j] = vrf * irf[j] + vtf * itf[j];
        }
''', '''        for (auto j = 0lu; j < 3lu; ++j) {
            m_v0[i][j] = vrs * irs[j] + vts * its[j];
            m_v1[i][j] = vrf * irf[j] + vtf * itf[j];
        }
'''),
 ('''    double Sj = 1.0;
    double Cj = 1.0;
    double err = 1.0;
    double Cj1 = 0.0;
    double Sj1 = 0.0;
    int j = 0;
    while (err > tol) {
        Cj1 = Cj * (3.0 + j) * (1.0 + j) / (2.5 + j) * z / (j + 1);
        Sj1 = Sj + Cj1;
        err = std::abs(Cj1);
        Sj = Sj1;
        Cj = Cj1;
        j = j + 1;
    }
    return Sj;''', '''    double sum = 1.0, term = 1.0;
    for (int j = 0;; ++j) {
        term *= (3.0 + j) / (2.5 + j) * z;
        sum += term;
        if (!(std::abs(term) > tol)) {
            break;
        }
    }
    return sum;'''),
 ('''        if (E < 0) {
            double const l = std::acos(g);
            d = N * kep3::pi + l;
        } else {
            double const f = y * (z - m_lambda * x);
            d = std::log(f + g);
        }''', '        d = (E < 0) ? N * kep3::pi + std::acos(g) : std::log(y * (z - m_lambda * x) + g);'),
 ('double const y = std::sqrt(1.0 - l2 * umx2);', 'double const y = std::sqrt((1.0 - l2) + l2 * x * x);'),],
'src/leg/sims_flanagan.cpp': [
 ('// Constructors\nsims_flanagan::', '''namespace
{
// Adds an impulse (scaled by sgn) to the state and updates the mass
void kick(std::array<std::array<double, 3>, 2> &rv, double &mass, const double *u, double c, double veff, double sgn)
{
    double n2 = 0.;
    const double k = c / mass;
    for (int j = 0; j < 3; ++j) {
        const double d = k * u[j];
        rv[1][static_cast<unsigned>(j)] += sgn * d;
        n2 += d * d;
    }
    mass *= std::exp(-sgn * std::sqrt(n2) / veff);
}
} // namespace

// Constructors
sims_flanagan::'''),
 ('''        // We compute the the dv
        dv[0] = c / mass_fwd * m_throttles[3 * i];
        dv[1] = c / mass_fwd * m_throttles[3 * i + 1];
        dv[2] = c / mass_fwd * m_throttles[3 * i + 2];
        // Add it to the current spacecraft velocity
        rv_fwd[1][0] += dv[0];
        rv_fwd[1][1] += dv[1];
        rv_fwd[1][2] += dv[2];
        // Update the mass accordingly
        const double norm_dv = std::sqrt(dv[0] * dv[0] + dv[1] * dv[1] + dv[2] * dv[2]);
        mass_fwd *= std::exp(-norm_dv / veff);
''', '        kick(rv_fwd, mass_fwd, &m_throttles[3 * i], c, veff, 1.);\n'),
 ('''        // We compute the the dv
        dv[0] = c / mass_bck * m_throttles[m_throttles.size() - 1 - 3 * i - 2];
        dv[1] = c / mass_bck * m_throttles[m_throttles.size() - 1 - 3 * i - 1];
        dv[2] = c / mass_bck * m_throttles[m_throttles.size() - 1 - 3 * i];
        // Subtract it (remember we are going backward) to the current spacecraft velocity
        rv_bck[1][0] -= dv[0];
        rv_bck[1][1] -= dv[1];
        rv_bck[1][2] -= dv[2];
        // Update the mass accordingly (will increase as we go backward)
        double norm_dv = std::sqrt(dv[0] * dv[0] + dv[1] * dv[1] + dv[2] * dv[2]);
        mass_bck *= std::exp(norm_dv / veff);
''', '        kick(rv_bck, mass_bck, m_throttles.data() + 3 * (m_nseg - 1u - i), c, veff, -1.);\n'),
 ('    std::array<double, 3> dv{};\n    const double veff', '    const double veff'),
 ('''    std::vector<double> retval(m_nseg);
    for (decltype(m_throttles.size()) i = 0u; i < m_nseg; ++i) {
        retval[i] = m_throttles[3 * i] * m_throttles[3 * i] + m_throttles[3 * i + 1] * m_throttles[3 * i + 1]
                    + m_throttles[3 * i + 2] * m_throttles[3 * i + 2] - 1.;
    }
    return retval;''', '''    std::vector<double> retval;
    for (auto it = m_throttles.begin(); it != m_throttles.end(); it += 3) {
        double s = -1.;
        for (auto j = it; j != it + 3; ++j) {
            s += *j * *j;
        }
        retval.push_back(s);
    }
    return retval;'''),
 ('''    for (decltype(size) i = 0u, j = size - 1; i < size; i += 3, j -= 3) {
        // Copy three elements at a time in reverse order
        reversed_throttles[j - 2] = *(th1 + i);
        reversed_throttles[j - 1] = *(th1 + i + 1);
        reversed_throttles[j] = *(th1 + i + 2);
    }''', '''    for (decltype(size) i = 0u; i < size; i += 3) {
        std::copy(th1 + i, th1 + i + 3, reversed_throttles.begin() + (size - 3 - i));
    }'''),
 ('''    auto rvf = rvf_orig;
    rvf[1][0] = -rvf[1][0];
    rvf[1][1] = -rvf[1][1];
    rvf[1][2] = -rvf[1][2];
''', '''    auto rvf = rvf_orig;
    for (auto &x : rvf[1]) {
        x = -x;
    }
'''),
 ('''    mat61 grad_tof = 0.5 * f[nseg];
    for (decltype(nseg) i = 0; i + 1 < nseg; ++i) { // i+1 < nseg avoids overflow
        grad_tof += _dot(Mc[i + 2], f[i + 1]);
    }

    grad_tof += 0.5 * _dot(Mc[1], f[0]);
''', '''    mat61 grad_tof = 0.5 * _dot(Mc[1], f[0]);
    for (decltype(nseg) i = 1; i < nseg; ++i) {
        grad_tof += _dot(Mc[i + 1], f[i]);
    }
    grad_tof += 0.5 * f[nseg];
'''),
 ('''    m_rvs = rvs;
    m_ms = ms;
    m_throttles = throttles;
    m_rvf = rvf;
    m_mf = mf;
    m_tof = tof;
    m_max_thrust = max_thrust;
    m_isp = isp;
    m_mu = mu;
    m_cut = cut;
    m_nseg = nseg;
    m_nseg_fwd = nseg_fwd;
    m_nseg_bck = nseg_bck;
''', '''    m_throttles = throttles;
    m_nseg = nseg;
    m_nseg_bck = nseg_bck;
    m_nseg_fwd = nseg_fwd;
    set_rvs(rvs);
    set_ms(ms);
    set_rvf(rvf);
    set_mf(mf);
    m_tof = tof;
    m_max_thrust = max_thrust;
    m_isp = isp;
    m_mu = mu;
    m_cut = cut;
''')],
'src/leg/sf_checks.cpp': [
 ('''    if (cut < 0. || cut > 1.) {
        throw''', '''    const bool inside = cut >= 0. && cut <= 1.;
    if (!inside && cut == cut) {
        throw''')],
'src/linalg.cpp': [
 ('''    const double norm = std::sqrt(v1[0] * v1[0] + v1[1] * v1[1] + v1[2] * v1[2]);
    v1[0] /= norm;
    v1[1] /= norm;
    v1[2] /= norm;''', '''    const double k = 1. / std::hypot(v1[0], v1[1], v1[2]);
    for (auto &x : v1) {
        x *= k;
    }''')],
'include/kep3/core_astro/convert_anomalies.hpp': [
 ('    return 2 * std::atan(std::sqrt((1 + ecc) / (1 - ecc)) * std::tan(E / 2));', '    const double ratio = std::sqrt((1 + ecc) / (1 - ecc));\n    return 2 * std::atan2(ratio * std::sin(E / 2), std::cos(E / 2));' if 0 else '    const double ratio = std::sqrt((1 + ecc) / (1 - ecc));\n    const double t = ratio * std::tan(E / 2);\n    return std::atan(t) * 2;'),
 ('    double sinM = std::sin(M), cosM = std::cos(M);', '    const double cosM = std::cos(M);\n    const double sinM = std::sin(M);'),
 ('        [M_cropped, ecc](double E) { return std::make_tuple(kepE(E, M_cropped, ecc), d_kepE(E, ecc)); }, IG,', '        [&](double E) { const double f = kepE(E, M_cropped, ecc); const double df = d_kepE(E, ecc); return std::make_pair(f, df); }, IG,')],
'include/kep3/core_astro/special_functions.hpp': [
 ('        return (std::sqrt(x) - std::sin(std::sqrt(x))) / std::pow(std::sqrt(x), 3);', '        const double s = std::sqrt(x);\n        return (s - std::sin(s)) / (x * s);')],
'include/kep3/core_astro/kepler_equations.hpp': [
 ('    return -DM + DE + sigma0 / sqrta * (1 - std::cos(DE)) - (1 - R / a) * std::sin(DE);', '    const double s0 = sigma0 / sqrta;\n    const double c0 = 1 - R / a;\n    return (DE - DM) + s0 * (1 - std::cos(DE)) - c0 * std::sin(DE);')],
'src/epoch.cpp': [
 ('    tp += ensure_64bit<std::chrono::hours>(h);\n    tp += ensure_64bit<std::chrono::minutes>(min);\n', '    tp += ensure_64bit<std::chrono::minutes>(min);\n    tp += ensure_64bit<std::chrono::hours>(h);\n'),
 ('    return c1.m_tp > c2.m_tp;', '    return c2 < c1;'),
 ('    return c1.m_tp != c2.m_tp;', '    return !(c1 == c2);'),
 ('''                        for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {
                            us *= 10;
                        }''', '''                        auto missing = 6u - rest.size();
                        while (missing-- > 0u) {
                            us *= 10;
                        }'''),
 ('''            m_tp = epoch::tp_from_days(julian_epoch_in) - mjd_offset;''', '''            m_tp = epoch::tp_from_days(julian_epoch_in);
            m_tp -= mjd_offset;''')],
'src/core_astro/flyby.cpp': [
 ('// NOLINTNEXTLINE(bugprone-easily-swappable-parameters)\nstd::pair<double, double> fb_con(', '''static double dot3(const std::array<double, 3> &a, const std::array<double, 3> &b)
{
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}

// NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
std::pair<double, double> fb_con('''),
 ('''    double dv = 0.;
    if (ineq_delta > 0.0) {
        dv = std::sqrt(Vout2 + Vin2 - 2.0 * std::sqrt(Vout2 * Vin2) * std::cos(ineq_delta));
    } else {
        dv = std::abs(sqrt(Vout2) - std::sqrt(Vin2));
    }
    return dv;''', '''    if (ineq_delta <= 0.0) {
        return std::abs(std::sqrt(Vin2) - sqrt(Vout2));
    }
    return std::sqrt(dot3(v_rel_in, v_rel_in) + Vout2 - 2.0 * std::sqrt(Vout2) * std::sqrt(Vin2) * std::cos(ineq_delta));'''),
 ('''    v_out[0] = v_pla[0] + v_rel_in_norm * std::cos(delta) * i_hat[0]
               + v_rel_in_norm * std::cos(beta) * std::sin(delta) * j_hat[0]
               + v_rel_in_norm * std::sin(beta) * std::sin(delta) * k_hat[0];
    v_out[1] = v_pla[1] + v_rel_in_norm * std::cos(delta) * i_hat[1]
               + v_rel_in_norm * std::cos(beta) * std::sin(delta) * j_hat[1]
               + v_rel_in_norm * std::sin(beta) * std::sin(delta) * k_hat[1];
    v_out[2] = v_pla[2] + v_rel_in_norm * std::cos(delta) * i_hat[2]
               + v_rel_in_norm * std::cos(beta) * std::sin(delta) * j_hat[2]
               + v_rel_in_norm * std::sin(beta) * std::sin(delta) * k_hat[2];
''', '''    const double a = v_rel_in_norm * std::cos(delta), b = v_rel_in_norm * std::sin(delta);
    for (std::size_t i = 0; i < 3u; ++i) {
        v_out[i] = v_pla[i] + a * i_hat[i] + b * (std::cos(beta) * j_hat[i] + std::sin(beta) * k_hat[i]);
    }
''')],
'src/udpla/keplerian.cpp': [
 ('''    (m_kep_f_elements[0] < 0) ? m_ellipse = false : m_ellipse = true;
    if (m_ellipse) {
        m_period = kep3::pi * 2.
                   * std::sqrt(m_kep_f_elements[0] * m_kep_f_elements[0] * m_kep_f_elements[0] / m_mu_central_body);
    } else {
        m_period = std::numeric_limits<double>::quiet_NaN();
    }
''', '''    m_period = std::numeric_limits<double>::quiet_NaN();
    m_ellipse = m_kep_f_elements[0] >= 0;
    if (m_ellipse) {
        m_period = 2. * kep3::pi * std::sqrt(std::pow(m_kep_f_elements[0], 3) / m_mu_central_body);
    }
'''),
 ('''    auto dt = (mjd2000 - m_ref_epoch.mjd2000()) * kep3::DAY2SEC;
    // 2 - We propagate
    auto retval = kep3::propagate_lagrangian(m_pos_vel_0, dt, m_mu_central_body).first;
    return retval;''', '''    const auto elapsed = mjd2000 - m_ref_epoch.mjd2000();
    return kep3::propagate_lagrangian(m_pos_vel_0, elapsed * kep3::DAY2SEC, m_mu_central_body).first;'''),
 ('''            retval = m_kep_f_elements;
            retval[5] = kep3::f2m(retval[5], retval[1]);''', '''            std::copy(m_kep_f_elements.begin(), m_kep_f_elements.end(), retval.begin());
            retval[5] = kep3::f2m(m_kep_f_elements[5], m_kep_f_elements[1]);''')],
'src/udpla/jpl_lp.cpp': [
 ('''    for (unsigned int i = 0; i < 6; ++i) {
        elements_updated[i] = (m_elements[i] + m_elements_dot[i] * dt);
    }''', '''    std::transform(m_elements.begin(), m_elements.end(), m_elements_dot.begin(), elements_updated.begin(),
                   [dt](double x, double xd) { return xd * dt + x; });'''),
 ('if (mjd2000 <= -73048.0 || mjd2000 >= 18263.0) {', 'const bool valid = mjd2000 > -73048.0 && mjd2000 < 18263.0;\n    if (!valid) {')],
'src/planet.cpp': [
 ('''    if (en > 0) {
        // If the energy is positive we have an hyperbolae and we return nan
        return std::numeric_limits<double>::quiet_NaN();
    } else {
        double const a = -mu / 2. / en;
        return kep3::pi * 2. * std::sqrt(a * a * a / mu);
    }''', '''    double const a = -mu / (2. * en);
    return (en > 0) ? std::numeric_limits<double>::quiet_NaN() : 2. * kep3::pi * std::sqrt(std::pow(a, 3) / mu);''')],
'src/ta/stark.cpp': [
 ('''    if (auto it = ta_stark_cache.find(tol); it == ta_stark_cache.end()) {
        // Cache miss, create new one.
        const std::vector init_state = {1., 1., 1., 1., 1., 1., 1.};
        auto new_ta = taylor_adaptive<double>{stark_dyn(), init_state, heyoka::kw::tol = tol,
                                              heyoka::kw::pars = {1., 1., 0., 0., 0.}};
        return ta_stark_cache.insert(std::make_pair(tol, std::move(new_ta))).first->second;
    } else {
        // Cache hit, return existing.
        return it->second;
    }''', '''    const auto it = ta_stark_cache.find(tol);
    if (it != ta_stark_cache.end()) {
        return it->second;
    }
    auto new_ta = taylor_adaptive<double>{stark_dyn(), std::vector<double>(7u, 1.), heyoka::kw::tol = tol,
                                          heyoka::kw::pars = {1., 1., 0., 0., 0.}};
    return ta_stark_cache.emplace(tol, std::move(new_ta)).first->second;'''),
 ('const auto vxdot = -mu * pow(r2, -3. / 2) * x + ux / m;', 'const auto vxdot = ux / m - mu * x * pow(r2, -3. / 2);')],
'src/ta/cr3bp.cpp': [
 ('    const auto vydot = -2. * vx + y - (1. - par[0]) * y / pow(r_1, 3.) - par[0] * y / pow(r_2, 3.);', '    const auto k1 = (1. - mu) / pow(r_1, 3.), k2 = mu / pow(r_2, 3.);\n    const auto vydot = y - 2. * vx - (k1 + k2) * y;')],
'src/stark_problem.cpp': [
 ('''    for (auto i = 0; i < 7; ++i) {
        std::copy(m_ta_var.get_state().begin() + 7 + 10l * i, m_ta_var.get_state().begin() + 7 + 10l * i + 7,
                  dxdx.begin() + 7l * i);
        std::copy(m_ta_var.get_state().begin() + 14 + 10l * i, m_ta_var.get_state().begin() + 14 + 10l * i + 3,
                  dxdu.begin() + 3l * i);
    }''', '''    const auto &st = m_ta_var.get_state();
    for (unsigned i = 0; i < 7u; ++i) {
        for (unsigned j = 0; j < 7u; ++j) {
            dxdx[7u * i + j] = st[7u + 10u * i + j];
        }
        for (unsigned j = 0; j < 3u; ++j) {
            dxdu[3u * i + j] = st[14u + 10u * i + j];
        }
    }''')],
'src/leg/sims_flanagan_hf.cpp': [
 ('''    return {rvm_fwd_final[0] - m_tas.get_state()[0], rvm_fwd_final[1] - m_tas.get_state()[1],
            rvm_fwd_final[2] - m_tas.get_state()[2], rvm_fwd_final[3] - m_tas.get_state()[3],
            rvm_fwd_final[4] - m_tas.get_state()[4], rvm_fwd_final[5] - m_tas.get_state()[5],
            rvm_fwd_final[6] - m_tas.get_state()[6]};''', '''    std::array<double, 7> retval{};
    std::transform(rvm_fwd_final.begin(), rvm_fwd_final.end(), m_tas.get_state().begin(), retval.begin(), std::minus<>());
    return retval;'''),
 ('''    // Convert throttles to current_thrusts.
    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
}
void sims_flanagan_hf::set_throttles(const std::vector<double>::const_iterator &it1,''', '''    _update_thrusts();
}
void sims_flanagan_hf::set_throttles(const std::vector<double>::const_iterator &it1,'''),
 ('''    auto eq_con = compute_mismatch_constraints();
    retval[0] = eq_con[0];
    retval[1] = eq_con[1];
    retval[2] = eq_con[2];
    retval[3] = eq_con[3];
    retval[4] = eq_con[4];
    retval[5] = eq_con[5];
    retval[6] = eq_con[6];
''', '''    const auto eq_con = compute_mismatch_constraints();
    std::copy(eq_con.begin(), eq_con.end(), retval.begin());
'''),
 ('''    dstatedt[3] = -get_mu() * std::pow(r2, -3. / 2) * state[0] + thrusts[0] / state[6];
    dstatedt[4] = -get_mu() * std::pow(r2, -3. / 2) * state[1] + thrusts[1] / state[6];
    dstatedt[5] = -get_mu() * std::pow(r2, -3. / 2) * state[2] + thrusts[2] / state[6];
''', '''    const double acc = get_mu() / (r2 * std::sqrt(r2));
    for (unsigned k = 0; k < 3u; ++k) {
        dstatedt[3 + k] = thrusts[k] / state[6] - acc * state[k];
    }
''')],
}
B = {
'src/core_astro/ic2par2ic.cpp': [
 ('''    retval[2] = std::acos(h(2) / xt::linalg::norm(h));''', '''    retval[2] = std::atan2(std::sqrt(h(0) * h(0) + h(1) * h(1)), h(2));'''),
 ('''    retval[3] = std::acos(n(0));
    if (n(1) < 0) {
        retval[3] = 2 * pi - retval[3];
    }
''', '''    retval[3] = std::atan2(n(1), n(0));
    if (retval[3] < 0) {
        retval[3] += 2 * pi;
    }
'''),
 ('''    auto f = std::acos(std::clamp(temp(0) / retval[1] / R0, -1., 1.));

    temp = dot(r0, v0);
    if (temp(0) < 0.0) {
        f = 2 * pi - f;
    }
    retval[5] = f;
    return retval;''', '''    const double cosf = std::clamp(temp(0) / retval[1] / R0, -1., 1.);
    const bool outgoing = !(dot(r0, v0)(0) < 0.0);
    retval[5] = outgoing ? std::acos(cosf) : 2 * pi - std::acos(cosf);
    return retval;'''),
 ('''    double p = sma * (1.0 - ecc * ecc);
    double r = p / (1.0 + ecc * std::cos(f));
    double h = std::sqrt(p * mu);''', '''    double p = sma * (1.0 - ecc) * (1.0 + ecc);
    double r = p / (1.0 + ecc * std::cos(f));
    double k = std::sqrt(mu / p);'''),
 ('''    double xdot_per = -mu / h * sinf;
    double ydot_per = mu / h * (ecc + cosf);''', '''    double xdot_per = -k * sinf;
    double ydot_per = k * (ecc + cosf);'''),
 ('''    xt::xtensor_fixed<double, xt::xshape<3, 3>> R
        = {{cosomg''', '''    const std::array<std::array<double, 3>, 3> R{{{cosomg'''),
 ('''sinomg * sini},
           {sinomg''', '''sinomg * sini},
           {sinomg'''),
 ('''           {sinomp * sini, cosomp * sini, cosi}};''', '''           {sinomp * sini, cosomp * sini, cosi}}};'''),
 ('''    xt::xtensor_fixed<double, xt::xshape<3, 1>> pos_per{{x_per}, {y_per}, {0.0}};
    xt::xtensor_fixed<double, xt::xshape<3, 1>> vel_per{{xdot_per}, {ydot_per}, {0.0}};
''', ''),
 ('''    pos_xt = xt::linalg::dot(R, pos_per);
    vel_xt = xt::linalg::dot(R, vel_per);
''', '''    auto to_inertial = [&R](double x, double y, std::array<double, 3> &out) {
        std::transform(R.begin(), R.end(), out.begin(), [x, y](const auto &row) { return row[0] * x + row[1] * y; });
    };
    to_inertial(x_per, y_per, pos);
    to_inertial(xdot_per, ydot_per, vel);
'''),
 ('''    auto pos_xt = xt::adapt(pos, {3u, 1u});
    auto vel_xt = xt::adapt(vel, {3u, 1u});
''', '')],
'src/core_astro/ic2eq2ic.cpp': [
 ('''        double X = 0., Y = 0.;
        if (std::abs(det1) == max) {
            X = (gv(1) * r0(0) - gv(0) * r0(1)) / det1;
            Y = (-fv(1) * r0(0) + fv(0) * r0(1)) / det1;
        } else if (std::abs(det2) == max) {
            X = (gv(2) * r0(0) - gv(0) * r0(2)) / det2;
            Y = (-fv(2) * r0(0) + fv(0) * r0(2)) / det2;
        } else {
            X = (gv(2) * r0(1) - gv(1) * r0(2)) / det3;
            Y = (-fv(2) * r0(1) + fv(1) * r0(2)) / det3;
        }
''', '''        // the frame is orthonormal and contains the position
        double const X = dot(r0, fv)(0);
        double const Y = dot(r0, gv)(0);
'''),
 ('''        double det1 = (gv(1) * fv(0) - fv(1) * gv(0)); // xy
        double det2 = (gv(2) * fv(0) - fv(2) * gv(0)); // xz
        double det3 = (gv(2) * fv(1) - fv(2) * gv(1)); // yz
        double max = std::max({std::abs(det1), std::abs(det2), std::abs(det3)});
''', ''),
 ('''        double ecc = xt::linalg::norm(evett);
''', '''        double ecc2 = f * f + g * g;
'''),
 ('return {sma * (1. - ecc * ecc), f, g, h, k, L};', 'return {sma * (1. - ecc2), f, g, h, k, L};'),
 ('''    retval[0][0] = X * fx + Y * gx;
    retval[0][1] = X * fy + Y * gy;
    retval[0][2] = X * fz + Y * gz;

    retval[1][0] = VX * fx + VY * gx;
    retval[1][1] = VX * fy + VY * gy;
    retval[1][2] = VX * fz + VY * gz;
''', '''    const double frame[2][3] = {{fx, fy, fz}, {gx, gy, gz}};
    const double comp[2][2] = {{X, Y}, {VX, VY}};
    for (unsigned i = 0; i < 2u; ++i) {
        for (unsigned j = 0; j < 3u; ++j) {
            for (unsigned m = 0; m < 2u; ++m) {
                retval[i][j] += comp[i][m] * frame[m][j];
            }
        }
    }
''')],
'src/core_astro/eq2par2eq.cpp': [
 ('''std::array<double, 6> eq2par(''', '''// brings an angle in [0, 2pi)
static double wrap(double x)
{
    return x - 2 * pi * std::floor(x / (2 * pi));
}

std::array<double, 6> eq2par('''),
 ('''    double zita = std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi]
    if (zita < 0) {
        zita += 2 * pi; // [0, 2*pi]
    }
''', '''    double zita = wrap(std::atan2(eq[2] / ecc, eq[1] / ecc));
'''),
 ('''    retval[3] = std::atan2(eq[4] / tmp, eq[3] / tmp); // [-pi, pi]
    if (retval[3] < 0) {
        retval[3] += 2 * pi; // [0, 2*pi]
    }
    retval[4] = zita - I * retval[3]; //
    if (retval[4] < 0) {
        retval[4] += 2 * pi;
    } else if (retval[4] > 2 * pi) {
        retval[4] -= 2 * pi;
    }
''', '''    retval[3] = wrap(std::atan2(eq[4] / tmp, eq[3] / tmp));
    retval[4] = wrap(zita - I * retval[3]);
'''),
 ('''    int I = 0;
    if (retrogade) {
        I = -1;
        eq[3] = 1. / std::tan(par[2] / 2) * std::cos(par[3]);
        eq[4] = 1. / std::tan(par[2] / 2) * std::sin(par[3]);
    } else {
        I = 1;
        eq[3] = std::tan(par[2] / 2) * std::cos(par[3]);
        eq[4] = std::tan(par[2] / 2) * std::sin(par[3]);
    }
''', '''    const int I = retrogade ? -1 : 1;
    const double s2 = std::sin(par[2] / 2), c2 = std::cos(par[2] / 2);
    const double t = retrogade ? c2 / s2 : s2 / c2;
    eq[3] = t * std::cos(par[3]);
    eq[4] = t * std::sin(par[3]);
''')],
'src/core_astro/propagate_lagrangian.cpp': [
 ('''        double DM_cropped = std::atan2(sinDM, cosDM);
        if (DM_cropped < 0) {
            DM_cropped += 2 * kep3::pi;
        }
''', '''        double const DM_cropped = DM - 2 * kep3::pi * std::floor(DM / (2 * kep3::pi));
'''),
 ('''        // Lagrange coefficients
        F = 1 - a / R0 * (1 - std::cos(DE));
        G = a * sigma0 / std::sqrt(mu) * (1 - std::cos(DE)) + R0 * std::sqrt(a / mu) * std::sin(DE);
        Ft = -std::sqrt(mu * a) / (Rf * R0) * std::sin(DE);
        Gt = 1 - a / Rf * (1 - std::cos(DE));
''', '''        // Lagrange coefficients
        double const sDE = std::sin(DE);
        double const U2 = a * 2 * std::pow(std::sin(DE / 2), 2);
        F = 1 - U2 / R0;
        G = (sigma0 * U2 + R0 * sqrta * sDE) / std::sqrt(mu);
        Ft = -std::sqrt(mu * a) / (Rf * R0) * sDE;
        Gt = 1 - U2 / Rf;
'''),
 ('''        double DN = std::sqrt(-mu / a / a / a) * tof;''', '''        double DN = std::sqrt(mu) / (sqrta * sqrta * sqrta) * tof;'''),
 ('''    auto n = tof.size();
''', '''    const std::size_t n = tof.size();
'''),
 ('''    for (decltype(n) i = 0u; i < n; ++i) {
        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);
    }
''', '''    std::transform(tof.begin(), tof.end(), retval.begin(),
                   [&](double t) { return kep3::propagate_lagrangian(pos_vel, t, mu, stm); });
'''),
 ('''    G = dt_copy - 1 / std::sqrt(mu) * DS * DS * DS * S;
''', '''    G = dt_copy - std::pow(DS, 3) * S / std::sqrt(mu);
'''),
 ('''    if (dt < 0) {
        dt_copy = -dt;
        vf[0] = -vf[0];''', '''    const bool backward = std::signbit(dt);
    if (backward) {
        dt_copy = std::abs(dt);
        vf[0] = -vf[0];'''),
 ('''    if (dt < 0) {
        vf[0] = -vf[0];
        vf[1] = -vf[1];
        vf[2] = -vf[2];
    }
    // since''', '''    if (backward) {
        std::transform(vf.begin(), vf.end(), vf.begin(), std::negate<double>());
    }
    // since'''),
 ('''    auto par = kep3::ic2par(pos_vel0, mu);
    if (par[0] > 0) {
        // 2e - Compute the mean anomalies
        double const n = std::sqrt(mu / par[0] / par[0] / par[0]);
        double const M0 = kep3::f2m(par[5], par[1]);
        double const Mf = M0 + n * dt;
        // 3e - Update elements (here Kepler's equation gets solved)
        par[5] = kep3::m2f(Mf, par[1]);
    } else {
        // 2h - Compute the mean hyperbolic anomalies
        double const n = std::sqrt(-mu / par[0] / par[0] / par[0]);
        double const N0 = kep3::f2n(par[5], par[1]);
        double const Nf = N0 + n * dt;
        // 3h - Update elements (here Kepler's equation gets solved in its
        // hyperbolic version)
        par[5] = kep3::n2f(Nf, par[1]);
    }
''', '''    auto par = kep3::ic2par(pos_vel0, mu);
    auto &[a, ecc, inc, Omega, omega, f] = par;
    double const aa = std::abs(a);
    double const n = std::sqrt(mu / aa) / aa;
    f = (a > 0) ? kep3::m2f(kep3::f2m(f, ecc) + n * dt, ecc) : kep3::n2f(kep3::f2n(f, ecc) + n * dt, ecc);
''')],
'src/core_astro/stm.cpp': [
 ('''    mat36 Mr = F * dr0 + _dot(mat31(xt::transpose(r0)), dF) + G * dv0 + _dot(mat31(xt::transpose(v0)), dG);
    mat36 Mv = Ft * dr0 + _dot(mat31(xt::transpose(r0)), dFt) + Gt * dv0 + _dot(mat31(xt::transpose(v0)), dGt);
    mat66 M{};
    xt::view(M, xt::range(0, 3), xt::all()) = Mr;
    xt::view(M, xt::range(3, 6), xt::all()) = Mv;
    // ... and flatten it
    std::array<double, 36> retval{};
    std::copy(M.begin(), M.end(), retval.begin());
    return retval;
''', '''    std::array<double, 36> retval{};
    for (std::size_t i = 0; i < 3u; ++i) {
        for (std::size_t j = 0; j < 6u; ++j) {
            retval[6 * i + j] = r0(0, i) * dF(0, j) + v0(0, i) * dG(0, j);
            retval[6 * (i + 3) + j] = r0(0, i) * dFt(0, j) + v0(0, i) * dGt(0, j);
        }
        retval[6 * i + i] += F;
        retval[6 * i + i + 3] += G;
        retval[6 * (i + 3) + i] += Ft;
        retval[6 * (i + 3) + i + 3] += Gt;
    }
    return retval;
'''),
 ('''    mat66 retval{};
    // auto retval_xt''', '''    // auto retval_xt'''),
 ('''    retval = _dot(Y, mat66(inv(Y0)));
''', '''    const mat66 Y0inv = inv(Y0);
    const mat66 retval = _dot(Y, Y0inv);
'''),
 ('''        mat16 dDM = -1.5 * sqrtmu * tof / std::pow(sqrta, 5) * da;               // M''', '''        mat16 dDM = -1.5 * sqrtmu * tof / (a * a * sqrta) * da;               // M'''),
 ],
'src/lambert_problem.cpp': [
 ('''    if (ih(2) < 0.0) // Transfer angle is larger than 180 degrees as seen from
                     // above the z axis
    {
        m_lambda = -m_lambda;
        its = -its;
        itf = -itf;
    }
    if (cw) { // Retrograde motion
        m_lambda = -m_lambda;
        its = -its;
        itf = -itf;
    }
''', '''    // Transfer angle larger than 180 degrees as seen from above the z axis, or (but not and) retrograde motion
    auto const flip = [&]() {
        m_lambda = -m_lambda;
        its = -its;
        itf = -itf;
    };
    if ((ih(2) < 0.0) != cw) {
        flip();
    }
'''),
 ('''    double const T = std::sqrt(2.0 * m_mu / m_s / m_s / m_s) * m_tof;
''', '''    double const T = m_tof / m_s * std::sqrt(2.0 * m_mu / m_s);
'''),
 ('''    m_Nmax = static_cast<unsigned>(T / kep3::pi);
    m_Nmax = std::min(m_multi_revs, m_Nmax);
''', '''    auto const nrev = static_cast<unsigned>(T / kep3::pi);
    m_Nmax = nrev < m_multi_revs ? nrev : m_multi_revs;
'''),
 ('''    for (std::vector<double>::size_type i = 1u; i < m_Nmax + 1; ++i) {
        // 3.2.1 left Householder iterations
        tmp = std::pow((static_cast<double>(i) * kep3::pi + kep3::pi) / (8.0 * T), 2.0 / 3.0);
        m_x[2 * i - 1] = (tmp - 1) / (tmp + 1);
        m_iters[2 * i - 1] = householder(T, m_x[2 * i - 1], static_cast<unsigned>(i), 1e-8, 15, -1.0);
        // 3.2.1 right Householder iterations
        tmp = std::pow((8.0 * T) / (static_cast<double>(i) * kep3::pi), 2.0 / 3.0);
        m_x[2 * i] = (tmp - 1) / (tmp + 1);
        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 15, 1.0);
    }
''', '''    for (std::size_t k = 1u; k < m_x.size(); ++k) {
        const auto i = static_cast<unsigned>((k + 1) / 2);
        const bool left = (k % 2u) == 1u;
        tmp = left ? std::pow((i + 1.0) * kep3::pi / (8.0 * T), 2.0 / 3.0) : std::pow((8.0 * T) / (i * kep3::pi), 2.0 / 3.0);
        m_x[k] = (tmp - 1) / (tmp + 1);
        m_iters[k] = householder(T, m_x[k], i, 1e-8, 15, left ? -1.0 : 1.0);
    }
'''),
 ('''    double vrs = 0., vts = 0., vrf = 0., vtf = 0., y = 0.;
    for (size_t i = 0; i < m_x.size(); ++i) {
        y = std::sqrt(1.0 - lambda2 + lambda2 * m_x[i] * m_x[i]);
        vrs = gamma * ((m_lambda * y - m_x[i]) - rho * (m_lambda * y + m_x[i])) / Rs;
        vrf = -gamma * ((m_lambda * y - m_x[i]) + rho * (m_lambda * y + m_x[i])) / Rf;
        double const vt = gamma * sigma * (y + m_lambda * m_x[i]);
        vts = vt / Rs;
        vtf = vt / Rf;
''', '''    for (size_t i = m_x.size(); i-- > 0u;) {
        double const x = m_x[i];
        double const y = std::sqrt(1.0 - lambda2 * (1. - x * x));
        double const diff = m_lambda * y - x, sum = m_lambda * y + x;
        double const vrs = gamma / Rs * (diff - rho * sum);
        double const vrf = -gamma / Rf * (diff + rho * sum);
        double const vts = gamma * sigma * (y + m_lambda * x) / Rs;
        double const vtf = vts * Rs / Rf;
'''),
 ('''    unsigned it = 0;
    double err = 1.0;
    double xnew = 0.0;
    double tof = 0.0, delta = 0.0, DT = 0.0, DDT = 0.0, DDDT = 0.0;
    double x_lo''', '''    auto const step = [&](double delta, double d1, double d2, double d3) {
        return delta * (d1 * d1 - delta * d2 / 2.0) / (d1 * (d1 * d1 - delta * d2) + d3 * delta * delta / 6.0);
    };
    unsigned it = 0;
    double err = std::numeric_limits<double>::infinity();
    double xnew = 0.0;
    double tof = 0.0, delta = 0.0, DT = 0.0, DDT = 0.0, DDDT = 0.0;
    double x_lo'''),
 ('''    while ((err > eps) && (it < iter_max)) {
        x2tof(tof, x0, N);''', '''    for (; (err > eps) && (it < iter_max); ++it) {
        x2tof(tof, x0, N);'''),
 ('''        double const DT2 = DT * DT;
        xnew = x0 - delta * (DT2 - delta * DDT / 2.0) / (DT * (DT2 - delta * DDT) + DDDT * delta * delta / 6.0);
''', '''        xnew = x0 - step(delta, DT, DDT, DDDT);
'''),
 ('''        x0 = xnew;
        it++;
    }
    return it;''', '''        x0 = xnew;
    }
    return it;'''),
 ('''    double const a = 1.0 / (1.0 - x * x);
    if (a > 0) // ellipse
    {
        double const alfa = 2.0 * std::acos(x);
        double beta = 2.0 * std::asin(std::sqrt(m_lambda * m_lambda / a));
        if (m_lambda < 0.0) {
            beta = -beta;
        }
''', '''    double const a = 1.0 / ((1.0 - x) * (1.0 + x));
    if (a > 0) // ellipse
    {
        double const alfa = 2.0 * std::acos(x);
        double const beta = 2.0 * std::asin(m_lambda / std::sqrt(a));
'''),
 ('''        double beta = 2.0 * std::asinh(std::sqrt(-m_lambda * m_lambda / a));
        if (m_lambda < 0.0) {
            beta = -beta;
        }
''', '''        double const beta = 2.0 * std::asinh(std::copysign(std::sqrt(-m_lambda * m_lambda / a), m_lambda));
'''),
 ('''    if (dist < battin) { // We use Battin series tof expression
        double const eta''', '''    bool const near = dist < battin;
    if (near) { // We use Battin series tof expression
        double const eta'''),
 ('''        for (auto j = 0lu; j < 3lu; ++j) {
            m_v0[i][j] = vrs * irs[j] + vts * its[j];
        }
        for (auto j = 0lu; j < 3lu; ++j) {
            m_v1[i][j] = vrf * irf[j] + vtf * itf[j];
        }
''', '''        m_v0[i] = {vrs * irs[0] + vts * its[0], vrs * irs[1] + vts * its[1], vrs * irs[2] + vts * its[2]};
        m_v1[i] = {vrf * irf[0] + vtf * itf[0], vrf * irf[1] + vtf * itf[1], vrf * irf[2] + vtf * itf[2]};
''')],
'src/leg/sims_flanagan.cpp': [
 ('''    for (decltype(m_throttles.size()) i = 0u; i < m_nseg_bck; ++i) {
        // We compute the the dv
        dv[0] = c / mass_bck * m_throttles[m_throttles.size() - 1 - 3 * i - 2];
        dv[1] = c / mass_bck * m_throttles[m_throttles.size() - 1 - 3 * i - 1];
        dv[2] = c / mass_bck * m_throttles[m_throttles.size() - 1 - 3 * i];
''', '''    for (decltype(m_throttles.size()) i = m_nseg; i-- > m_nseg_fwd;) {
        // We compute the the dv
        for (unsigned k = 0; k < 3u; ++k) {
            dv[k] = c / mass_bck * m_throttles[3 * i + k];
        }
'''),
 ('''        double prop_duration = (i == m_nseg_bck - 1) ? -dt / 2 : -dt;
''', '''        double prop_duration = (i == m_nseg_fwd) ? -dt / 2 : -dt;
'''),
 ('''        mass_fwd *= std::exp(-norm_dv / veff);
''', '''        mass_fwd = mass_fwd / std::exp(norm_dv / veff);
'''),
 ('''    for (decltype(m_throttles.size()) i = 0u; i < m_nseg_fwd; ++i) {
        // We compute the the dv
        dv[0] = c / mass_fwd * m_throttles[3 * i];
        dv[1] = c / mass_fwd * m_throttles[3 * i + 1];
        dv[2] = c / mass_fwd * m_throttles[3 * i + 2];
''', '''    const double *th = m_throttles.data();
    for (decltype(m_throttles.size()) i = 0u; i < m_nseg_fwd; ++i) {
        // We compute the the dv
        for (auto &x : dv) {
            x = *th++ * (c / mass_fwd);
        }
'''),
 ('''    std::vector<double> retval(m_nseg);
    for (decltype(m_throttles.size()) i = 0u; i < m_nseg; ++i) {
        retval[i] = m_throttles[3 * i] * m_throttles[3 * i] + m_throttles[3 * i + 1] * m_throttles[3 * i + 1]
                    + m_throttles[3 * i + 2] * m_throttles[3 * i + 2] - 1.;
    }
    return retval;
''', '''    std::vector<double> retval(m_nseg, -1.);
    for (std::size_t i = 0u; i < m_throttles.size(); ++i) {
        retval[i / 3u] += m_throttles[i] * m_throttles[i];
    }
    return retval;
'''),
 ('''    auto R3 = std::pow(rv[0][0] * rv[0][0] + rv[0][1] * rv[0][1] + rv[0][2] * rv[0][2], 1.5);
''', '''    auto R = std::sqrt(rv[0][0] * rv[0][0] + rv[0][1] * rv[0][1] + rv[0][2] * rv[0][2]);
    auto R3 = R * R * R;
'''),
 ('''    for (decltype(nseg) i = 1; i < nseg + 1; ++i) {
        Mc[nseg - i] = _dot(Mc[nseg - i + 1], M[nseg - i]);
    }
''', '''    for (decltype(nseg) i = nseg; i > 0; --i) {
        Mc[i - 1] = _dot(Mc[i], M[i - 1]);
    }
'''),
 ('''    // Then we add the d/Dvi * dDvi/dtof - example: M3 @ Iv @ dDv2 + M3 @ M2 @ Iv @ dDv1 + M3 @ M2 @ M1 @ Iv @ dDv0
    for (decltype(nseg) i = 0; i < nseg; ++i) {
        grad_tof +=''', '''    // Then we add the d/Dvi * dDvi/dtof - example: M3 @ Iv @ dDv2 + M3 @ M2 @ Iv @ dDv1 + M3 @ M2 @ M1 @ Iv @ dDv0
    for (decltype(nseg) i = nseg; i-- > 0;) {
        grad_tof +='''),
 ('''    xt::view(xgrad, xt::all(), xt::range(0, size)) = xt::flip(xt::view(xgrad, xt::all(), xt::range(0, size)), 1);
    for (decltype(size) i = 0u; i < size / 3; ++i) {
        xt::view(xgrad, xt::all(), xt::range(3 * i, 3 * i + 3))
            = xt::flip(xt::view(xgrad, xt::all(), xt::range(3 * i, 3 * i + 3)), 1);
    }
''', '''    const unsigned ns = size / 3u;
    for (unsigned row = 0u; row < 7u; ++row) {
        for (unsigned i = 0u; i < ns / 2u; ++i) {
            for (unsigned k = 0u; k < 3u; ++k) {
                std::swap(xgrad(row, 3 * i + k), xgrad(row, 3 * (ns - 1 - i) + k));
            }
        }
    }
'''),
 ('''    std::vector<double> retval(static_cast<size_t>(m_nseg) * m_nseg * 3u, 0);
    for (decltype(m_throttles.size()) i = 0u; i < m_nseg; ++i) {
        retval[i * m_nseg * 3 + 3 * i] = 2 * m_throttles[3 * i];
        retval[i * m_nseg * 3 + 3 * i + 1] = 2 * m_throttles[3 * i + 1];
        retval[i * m_nseg * 3 + 3 * i + 2] = 2 * m_throttles[3 * i + 2];
    }
    return retval;
''', '''    const std::size_t cols = m_throttles.size();
    std::vector<double> retval(m_nseg * cols, 0);
    auto row = retval.begin();
    for (std::size_t j = 0u; j < cols; ++j) {
        *(row + static_cast<std::ptrdiff_t>((j / 3u) * cols + j)) = m_throttles[j] + m_throttles[j];
    }
    return retval;
'''),
 ('''void sims_flanagan::set_cut(double cut)
{
    kep3::leg::_check_cut(cut);
    m_cut = cut;
    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
    m_nseg_bck = m_nseg - m_nseg_fwd;
}''', '''void sims_flanagan::set_cut(double cut)
{
    kep3::leg::_check_cut(cut);
    m_nseg_fwd = static_cast<unsigned>(cut * m_nseg);
    m_nseg_bck = m_nseg - m_nseg_fwd;
    m_cut = cut;
}'''),
 ('''    for (decltype(m_throttles.size()) i = 0u; i < m_nseg_fwd; ++i) {''' if False else '''    const auto dt = m_tof / static_cast<double>(m_nseg); // dt
    const auto c = m_max_thrust * dt;                    // T*tof/nseg
    const auto a = 1. / m_isp / kep3::G0;                // 1/veff
''', '''    const auto dt = m_tof / static_cast<double>(m_nseg); // dt
    const auto c = m_max_thrust * dt;                    // T*tof/nseg
    const auto a = 1. / (m_isp * kep3::G0);              // 1/veff
''')],
'src/core_astro/flyby.cpp': [
 ('''    const double e_min = 1 + safe_radius / mu * Vin2;
    // NOTE: rounding can bring the cosine outside of [-1, 1] for (anti)parallel velocities.
    const double alpha = std::acos(
        std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
                       / std::sqrt(Vin2 * Vout2),
                   -1., 1.));
    const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
    return {eq_V2, ineq_delta};''', '''    const double e_min = (mu + safe_radius * Vin2) / mu;
    const auto cr = linalg::_cross(v_rel_in, v_rel_out);
    const double alpha
        = std::atan2(std::sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]),
                     v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2]);
    const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
    return {eq_V2, ineq_delta};'''),
 ('''    double dv = 0.;
    if (ineq_delta > 0.0) {
        dv = std::sqrt(Vout2 + Vin2 - 2.0 * std::sqrt(Vout2 * Vin2) * std::cos(ineq_delta));
    } else {
        dv = std::abs(sqrt(Vout2) - std::sqrt(Vin2));
    }
    return dv;''', '''    const double missing = std::max(ineq_delta, 0.);
    const double Vin = std::sqrt(Vin2), Vout = std::sqrt(Vout2);
    return std::sqrt((Vout - Vin) * (Vout - Vin) + 4.0 * Vout * Vin * std::pow(std::sin(missing / 2), 2));'''),
 ('''    const double delta = 2 * std::asin(1.0 / ecc);
    const std::array''', '''    const double sd2 = 1.0 / ecc;
    const double cosd = 1. - 2. * sd2 * sd2, sind = 2. * sd2 * std::sqrt(1. - sd2 * sd2);
    const std::array'''),
 ('''    v_out[0] = v_pla[0] + v_rel_in_norm * std::cos(delta) * i_hat[0]
               + v_rel_in_norm * std::cos(beta) * std::sin(delta) * j_hat[0]
               + v_rel_in_norm * std::sin(beta) * std::sin(delta) * k_hat[0];
    v_out[1] = v_pla[1] + v_rel_in_norm * std::cos(delta) * i_hat[1]
               + v_rel_in_norm * std::cos(beta) * std::sin(delta) * j_hat[1]
               + v_rel_in_norm * std::sin(beta) * std::sin(delta) * k_hat[1];
    v_out[2] = v_pla[2] + v_rel_in_norm * std::cos(delta) * i_hat[2]
               + v_rel_in_norm * std::cos(beta) * std::sin(delta) * j_hat[2]
               + v_rel_in_norm * std::sin(beta) * std::sin(delta) * k_hat[2];
''', '''    for (std::size_t k = 0; k < 3u; ++k) {
        v_out[k] = v_pla[k]
                   + v_rel_in_norm
                         * (cosd * i_hat[k] + sind * (std::cos(beta) * j_hat[k] + std::sin(beta) * k_hat[k]));
    }
''')],
'src/epoch.cpp': [
 ('''        case julian_type::JD:
            m_tp = epoch::tp_from_days(julian_epoch_in) - jd_offset;
            break;''', '''        case julian_type::JD: {
            const auto tp = epoch::tp_from_days(julian_epoch_in);
            m_tp = tp - jd_offset;
            break;
        }'''),
 ('''    tp += ensure_64bit<std::chrono::hours>(h);
    tp += ensure_64bit<std::chrono::minutes>(min);
    tp += ensure_64bit<std::chrono::seconds>(s);
    tp += ensure_64bit<std::chrono::milliseconds>(ms);
    tp += ensure_64bit<std::chrono::microseconds>(us);

    return tp;''', '''    return tp + microseconds(h * std::int64_t(3600000000) + min * std::int64_t(60000000) + s * std::int64_t(1000000)
                             + ms * std::int64_t(1000) + us);'''),
 ('''    return c1.m_tp >= c2.m_tp;''', '''    return !(c1 < c2);'''),
 ('''                        std::string rest = in.substr(20);
                        us = boost::numeric_cast<std::int32_t>(std::stoi(rest));
                        for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {
                            us *= 10;
                        }
''', '''                        constexpr std::array<std::int32_t, 7> scale{1000000, 100000, 10000, 1000, 100, 10, 1};
                        us = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(20))) * scale[len - 20];
'''),
 ('''    auto foo = std::find(std::begin(allowed_lenghts), std::end(allowed_lenghts), len); // NOLINT
    if (foo == std::end(allowed_lenghts)) {''', '''    if (!std::binary_search(allowed_lenghts.begin(), allowed_lenghts.end(), len)) {''')],
'src/udpla/keplerian.cpp': [
 ('''namespace kep3::udpla
{

keplerian::keplerian(const epoch &ref_epoch, const std::array<std::array<double, 3>, 2> &pos_vel,''', '''namespace kep3::udpla
{

static double orbital_period(double a, double mu)
{
    return (a < 0) ? std::numeric_limits<double>::quiet_NaN() : kep3::pi * 2. * a * std::sqrt(a / mu);
}

keplerian::keplerian(const epoch &ref_epoch, const std::array<std::array<double, 3>, 2> &pos_vel,'''),
 ('''    (m_kep_f_elements[0] < 0) ? m_ellipse = false : m_ellipse = true;
    if (m_ellipse) {
        m_period = kep3::pi * 2.
                   * std::sqrt(m_kep_f_elements[0] * m_kep_f_elements[0] * m_kep_f_elements[0] / m_mu_central_body);
    } else {
        m_period = std::numeric_limits<double>::quiet_NaN();
    }
''', '''    m_ellipse = m_kep_f_elements[0] >= 0;
    m_period = orbital_period(m_kep_f_elements[0], m_mu_central_body);
'''),
 ('''    std::array<double, 6> retval{};
    switch (el_type) {
        case kep3::elements_type::KEP_F:
            retval = m_kep_f_elements;
            break;
        case kep3::elements_type::KEP_M:
            if (!m_ellipse) {
                throw std::logic_error("Mean anomaly is only available for ellipses.");
            }
            retval = m_kep_f_elements;
            retval[5] = kep3::f2m(retval[5], retval[1]);
            break;
        case kep3::elements_type::MEQ:
            retval = m_kep_f_elements;
            retval = kep3::par2eq(retval, false);
            break;
        case kep3::elements_type::MEQ_R:
            retval = m_kep_f_elements;
            retval = kep3::par2eq(retval, true);
            break;
        default:
            throw std::logic_error("You should not go here!");
    }
    return retval;
''', '''    if (el_type == kep3::elements_type::KEP_F) {
        return m_kep_f_elements;
    }
    if (el_type == kep3::elements_type::MEQ || el_type == kep3::elements_type::MEQ_R) {
        return kep3::par2eq(m_kep_f_elements, el_type == kep3::elements_type::MEQ_R);
    }
    if (el_type != kep3::elements_type::KEP_M) {
        throw std::logic_error("You should not go here!");
    }
    if (!m_ellipse) {
        throw std::logic_error("Mean anomaly is only available for ellipses.");
    }
    auto retval = m_kep_f_elements;
    retval[5] = kep3::f2m(retval[5], retval[1]);
    return retval;
''')],
'src/udpla/jpl_lp.cpp': [
 ('''    elements_f[0] = elements_updated[0] * kep3::AU;
    elements_f[1] = elements_updated[1];
    elements_f[2] = elements_updated[2] * kep3::DEG2RAD;
    elements_f[3] = elements_updated[5] * kep3::DEG2RAD;
    elements_f[4] = (elements_updated[4] - elements_updated[5]) * kep3::DEG2RAD;
    elements_f[5] = (elements_updated[3] - elements_updated[4]) * kep3::DEG2RAD;
    elements_f[5] = kep3::m2f(elements_f[5], elements_f[1]);
    return elements_f;
''', '''    const auto &[a, e, i, L, peri, node] = elements_updated;
    const double M = (L - peri) * kep3::DEG2RAD;
    elements_f = {a * kep3::AU, e, i * kep3::DEG2RAD, node * kep3::DEG2RAD, (peri - node) * kep3::DEG2RAD, kep3::m2f(M, e)};
    return elements_f;
'''),
 ('''    boost::algorithm::to_lower(m_name);
''', '''    std::transform(m_name.begin(), m_name.end(), m_name.begin(),
                   [](unsigned char ch) { return static_cast<char>(std::tolower(ch)); });
'''),
 ('''    m_name = m_name + " - jpl_lp";''', '''    m_name += " - jpl_lp";''')],
'src/planet.cpp': [
 ('''    double const R = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    double const v2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
    double const en = v2 / 2. - mu / R;
    if (en > 0) {
        // If the energy is positive we have an hyperbolae and we return nan
        return std::numeric_limits<double>::quiet_NaN();
    } else {
        double const a = -mu / 2. / en;
        return kep3::pi * 2. * std::sqrt(a * a * a / mu);
    }
''', '''    double r2 = 0., v2 = 0.;
    for (auto i = 0u; i < 3u; ++i) {
        r2 += r[i] * r[i];
        v2 += v[i] * v[i];
    }
    double const alpha = 2. / std::sqrt(r2) - v2 / mu; // 1 / a
    return (alpha < 0) ? std::numeric_limits<double>::quiet_NaN()
                       : 2. * kep3::pi / (alpha * std::sqrt(alpha) * std::sqrt(mu));
''')],
'include/kep3/core_astro/convert_anomalies.hpp': [
 ('''    double sinM = std::sin(M), cosM = std::cos(M);''', '''    const double sinM = std::sin(M), cosM = std::cos(M);'''),
 ('''    double M_cropped = std::atan2(sinM, cosM);
''', '''    const double M_cropped = std::atan2(sinM, cosM);
'''),
 ('''    return 2 * std::atan(std::sqrt((1 + ecc) / (1 - ecc)) * std::tan(E / 2));
''', '''    return 2 * std::atan2(std::sqrt(1 + ecc) * std::sin(E / 2), std::sqrt(1 - ecc) * std::cos(E / 2));
''' if False else '''    return 2 * std::atan(std::tan(E / 2) * std::sqrt(1 + ecc) / std::sqrt(1 - ecc));
''')],
'include/kep3/core_astro/special_functions.hpp': [
 ('''    if (x > 0) {
        return (1 - std::cos(std::sqrt(x))) / x;
    }''', '''    if (x > 0) {
        const double s = std::sin(std::sqrt(x) / 2);
        return 2 * s * s / x;
    }'''),
 ('''        return (std::sinh(std::sqrt(-x)) - std::sqrt(-x)) / std::pow(-x, 3. / 2);''', '''        const double s = std::sqrt(-x);
        return (std::sinh(s) - s) / (s * s * s);''')],
'src/stark_problem.cpp': [
 ('''    *(m_ta.get_pars_data()) = m_mu;
    *(m_ta.get_pars_data() + 1) = m_veff;
    // ... and variational version of the integrator
    *(m_ta_var.get_pars_data()) = m_mu;
    *(m_ta_var.get_pars_data() + 1) = m_veff;
''', '''    set_mu(m_mu);
    set_veff(m_veff);
'''),
 ('''    // We set the thrust magnitude.
    std::copy(thrust.begin(), thrust.end(), m_ta.get_pars_data() + 2);
    // Set the Taylor Integration initial conditions
    m_ta.set_time(0.);
    std::copy(rvm_state.begin(), rvm_state.end(), m_ta.get_state_data());
''', '''    m_ta.set_time(0.);
    for (std::size_t i = 0; i < 7u; ++i) {
        m_ta.get_state_data()[i] = rvm_state[i];
        if (i < 3u) {
            m_ta.get_pars_data()[2 + i] = thrust[i];
        }
    }
'''),
 ('''    for (auto i = 0; i < 7; ++i) {
        std::copy(m_ta_var.get_state().begin() + 7 + 10l * i, m_ta_var.get_state().begin() + 7 + 10l * i + 7,
                  dxdx.begin() + 7l * i);
        std::copy(m_ta_var.get_state().begin() + 14 + 10l * i, m_ta_var.get_state().begin() + 14 + 10l * i + 3,
                  dxdu.begin() + 3l * i);
    }
''', '''    auto src = m_ta_var.get_state().begin() + 7;
    auto dx = dxdx.begin();
    auto du = dxdu.begin();
    while (dx != dxdx.end()) {
        dx = std::copy_n(src, 7, dx);
        du = std::copy_n(src + 7, 3, du);
        src += 10;
    }
''')],
'src/leg/sims_flanagan_hf.cpp': [
 ('''    // Initialise
    std::vector<std::array<double, 49u>> dxdx_per_seg;
    std::vector<std::array<double, 21u>> dxdu_per_seg;
    std::vector<std::array<double, 7u>> dxdtof_per_seg;
    std::tie(dxdx_per_seg, dxdu_per_seg, dxdtof_per_seg) = compute_all_gradients();

    std::array<double, 49> grad_rvm = {0};
    std::array<double, 49> grad_rvm_bck = {0};
    std::vector<double> grad_final(static_cast<size_t>(7) * (m_nseg * 3u + 1u), 0.);
    std::tie(grad_rvm, grad_rvm_bck, grad_final) = get_relevant_gradients(dxdx_per_seg, dxdu_per_seg, dxdtof_per_seg);

    return {grad_rvm, grad_rvm_bck, std::move(grad_final)};
''', '''    const auto [dxdx_per_seg, dxdu_per_seg, dxdtof_per_seg] = compute_all_gradients();
    return get_relevant_gradients(dxdx_per_seg, dxdu_per_seg, dxdtof_per_seg);
'''),
 ('''    xgrad_final_tof /= m_nseg;

    // Combine throttle and tof matrices''', '''    xgrad_final_tof = xgrad_final_tof / static_cast<double>(m_nseg);

    // Combine throttle and tof matrices'''),
 ('''        if ((i <= m_nseg_fwd - 1) && m_nseg_fwd > 0) {
            corresponding_M = Mn_o
                [m_nseg_fwd - 1
                 - i]; // +1''', '''        if (i < m_nseg_fwd) {
            corresponding_M = Mn_o
                [m_nseg_fwd - 1
                 - i]; // +1'''),
 ('''        } else if ((static_cast<int>(i) > static_cast<int>(m_nseg_fwd) - 1) && m_nseg_bck > 0) {
            corresponding_M = Mn_o[i]; // Idem
        } else {
            throw std::runtime_error("During calculation of the tof derivatives, the index doesn't correspond to "
                                     "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
        }
''', '''        } else {
            corresponding_M = Mn_o[i]; // Idem
        }
'''),
 ('''    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
        timestep += (prop_seg_duration / (grid_points_per_segment - 1));
        leg_time_grid.push_back(timestep);
    }
''', '''    const double grid_step = prop_seg_duration / (grid_points_per_segment - 1);
    for (decltype(m_nseg) i = 1; i <= (grid_points_per_segment - 1) * m_nseg; ++i) {
        leg_time_grid.push_back(i * grid_step);
    }
'''),
 ('''void sims_flanagan_hf::set_isp(double isp)
{
    kep3::leg::_check_isp(isp);
    m_isp = isp;
    _update_integrators();
}''', '''void sims_flanagan_hf::set_isp(double isp)
{
    kep3::leg::_check_isp(isp);
    m_isp = isp;
    m_tas.get_pars_data()[1] = m_tas_var.get_pars_data()[1] = m_isp * kep3::G0;
}''')],
}
ROUNDS = {'A': A, 'B': B}
def apply(d, edits):
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d); subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
    ok = True
    for f, l in edits.items():
        s = open(d + '/' + f).read()
        for a, b in l:
            if s.count(a) != 1: print('NO MATCH', s.count(a), f, a[:80]); ok = False; continue
            s = s.replace(a, b)
        open(d + '/' + f, 'w').write(s)
    return ok
if __name__ == '__main__':
    sys.exit(0 if apply(sys.argv[1], ROUNDS[sys.argv[2]]) else 1)
