From b3f40d5fc4086dae6c421a94577c9f2357e45cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 01/15] fix: second derivative of Kepler's equation in the
 universal anomaly (dd_kepDS)

---
 include/kep3/core_astro/kepler_equations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kep3/core_astro/kepler_equations.hpp b/include/kep3/core_astro/kepler_equations.hpp
index e9e9258..75f5457 100644
--- a/include/kep3/core_astro/kepler_equations.hpp
+++ b/include/kep3/core_astro/kepler_equations.hpp
@@ -110,7 +110,8 @@ inline double dd_kepDS(const double &DS, const double &r0, const double &vr0, co
 {
     double S = stumpff_s(alpha * DS * DS);
     double C = stumpff_c(alpha * DS * DS);
-    double retval = r0 * vr0 / std::sqrt(mu) * (1 - alpha * DS * DS * C) + (1 - alpha * r0) * (1 - DS * DS * S);
+    double retval
+        = r0 * vr0 / std::sqrt(mu) * (1 - alpha * DS * DS * C) + (1 - alpha * r0) * DS * (1 - alpha * DS * DS * S);
 
     return (retval);
 }
-- 
2.43.0


From 258a3e8a0a65ce0852d0baa8939c52d0c3a2738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 02/15] fix: scale the root bracket of propagate_lagrangian_u
 with the semi-major axis

---
 src/core_astro/propagate_lagrangian.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/core_astro/propagate_lagrangian.cpp b/src/core_astro/propagate_lagrangian.cpp
index 902be8e..adb5ab1 100644
--- a/src/core_astro/propagate_lagrangian.cpp
+++ b/src/core_astro/propagate_lagrangian.cpp
@@ -202,10 +202,19 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
     double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + rf[2] * vf[2]) / R0;
 
     // solve kepler's equation in the universal anomaly DS
-    double IG = 0;
-    alpha > 0. ? IG = std::sqrt(mu) * dt_copy * std::abs(alpha)
-               : IG = 3.; // TODO(darioizzo): initial guess for the universal
-                          // anomaly. For hyperbolas is 3 .... can be better?
+    // NOTE: DS scales with the square root of the semi-major axis, hence so must the bracket: in the elliptic case
+    // DS = sqrt(a) * DE where DE and DM differ by less than 2, in the hyperbolic case DS = sqrt(-a) * DH (and the guess
+    // and the bracket are those of propagate_lagrangian).
+    double IG = 3.;
+    double DIG = 2 * pi;
+    if (alpha > 0.) {
+        IG = std::sqrt(mu) * dt_copy * std::abs(alpha);
+        DIG = 2 * pi / std::sqrt(alpha);
+    } else if (alpha < 0.) {
+        IG = 1. / std::sqrt(-alpha); // TODO(darioizzo): initial guess for the universal
+                                     // anomaly. can be better?
+        DIG = 50. / std::sqrt(-alpha);
+    }
 
     // Solve Kepler Equation in DS (univrsal anomaly difference)
     const int digits = std::numeric_limits<double>::digits;
@@ -216,7 +225,7 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
         [dt_copy, R0, VR0, alpha, mu](double DS) {
             return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));
         },
-        IG, IG - 2 * pi, IG + 2 * pi, digits,
+        IG, IG - DIG, IG + DIG, digits,
         max_iter); // limiting the IG error within
                    // only pi will not work.
     if (max_iter == 100u) {
-- 
2.43.0


From 8ec7d8f01b2f085402e74c2da7af142ee3be7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:44 +0000
Subject: [PATCH 03/15] fix: NaN from ic2par at the apsides (acos argument
 rounded past 1)

---
 src/core_astro/ic2par2ic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core_astro/ic2par2ic.cpp b/src/core_astro/ic2par2ic.cpp
index ae0b091..e1304f2 100644
--- a/src/core_astro/ic2par2ic.cpp
+++ b/src/core_astro/ic2par2ic.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 
@@ -66,7 +67,7 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
     // Argument of pericentrum is calculated and stored as the fifth orbital
     // element. w = acos(n.e)\|n||e| in [0, 2pi]
     auto temp = dot(n, evett);
-    retval[4] = std::acos(temp(0) / retval[1]);
+    retval[4] = std::acos(std::clamp(temp(0) / retval[1], -1., 1.));
     if (evett(2) < 0) {
         retval[4] = 2 * pi - retval[4];
     }
@@ -79,7 +80,7 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
 
     // 4 - We compute ni: the true anomaly in [0, 2pi]
     temp = dot(evett, r0);
-    auto f = std::acos(temp(0) / retval[1] / R0);
+    auto f = std::acos(std::clamp(temp(0) / retval[1] / R0, -1., 1.));
 
     temp = dot(r0, v0);
     if (temp(0) < 0.0) {
-- 
2.43.0


From 85440538d1100053e173368b7b0bd9ab09b8d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 04/15] fix: lambert_problem returns NaN or misses solutions
 when an iteration leaves the branch

The Halley search for the minimum time of flight diverged for lambda close to
-1 (the curve is not convex in x = 0), the Householder iterations left the
interval of the branch they were solving for, and exactly parabolic transfers
(x = 1) divided by zero. Both searches are now safeguarded by a bracket, and
the limits of the derivatives at the parabola are used there.
---
 include/kep3/lambert_problem.hpp |  2 +-
 src/lambert_problem.cpp          | 33 +++++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/kep3/lambert_problem.hpp b/include/kep3/lambert_problem.hpp
index 3c64cab..4317511 100644
--- a/include/kep3/lambert_problem.hpp
+++ b/include/kep3/lambert_problem.hpp
@@ -65,7 +65,7 @@ public:
     [[nodiscard]] unsigned get_Nmax() const;
 
 private:
-    unsigned householder(double, double &, unsigned, double, unsigned) const;
+    unsigned householder(double, double &, unsigned, double, unsigned, double) const;
     void dTdx(double &, double &, double &, double, double) const;
     void x2tof(double &tof, double x0, unsigned N) const;
     void x2tof2(double &tof, double x0, unsigned N) const;
diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 77b4a19..9cf7ef8 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -9,6 +9,7 @@
 
 #include <array>
 #include <cmath>
+#include <limits>
 
 #include <fmt/core.h>
 #include <fmt/ranges.h>
@@ -108,10 +109,15 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
             double err = 1.0;
             double T_min = T0;
             double x_old = 0.0, x_new = 0.0;
+            double x_lo = -1.0, x_hi = 1.0; // the minimum is unique and stays between these
             while (true) {
                 dTdx(DT, DDT, DDDT, x_old, T_min);
                 if (DT != 0.0) {
+                    (DT < 0.0 ? x_lo : x_hi) = x_old;
                     x_new = x_old - DT * DDT / (DDT * DDT - DT * DDDT / 2.0);
+                    if (!(x_new >= x_lo && x_new <= x_hi)) { // for lambda close to -1 the curve is not convex in x = 0
+                        x_new = (x_lo + x_hi) / 2.0;
+                    }
                 }
                 err = std::abs(x_old - x_new);
                 if ((err < 1e-13) || (it > 12)) {
@@ -147,18 +153,18 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
         m_x[0] = std::pow((T / T00), 0.69314718055994529 / std::log(T1 / T00)) - 1.0;
     }
     // 3.1.2 Householder iterations
-    m_iters[0] = householder(T, m_x[0], 0, 1e-5, 15);
+    m_iters[0] = householder(T, m_x[0], 0, 1e-5, 15, -1.0);
     // 3.2 multi rev solutions
     double tmp = 0.;
     for (std::vector<double>::size_type i = 1u; i < m_Nmax + 1; ++i) {
         // 3.2.1 left Householder iterations
         tmp = std::pow((static_cast<double>(i) * kep3::pi + kep3::pi) / (8.0 * T), 2.0 / 3.0);
         m_x[2 * i - 1] = (tmp - 1) / (tmp + 1);
-        m_iters[2 * i - 1] = householder(T, m_x[2 * i - 1], static_cast<unsigned>(i), 1e-8, 15);
+        m_iters[2 * i - 1] = householder(T, m_x[2 * i - 1], static_cast<unsigned>(i), 1e-8, 15, -1.0);
         // 3.2.1 right Householder iterations
         tmp = std::pow((8.0 * T) / (static_cast<double>(i) * kep3::pi), 2.0 / 3.0);
         m_x[2 * i] = (tmp - 1) / (tmp + 1);
-        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 15);
+        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 15, 1.0);
     }
 
     // 4 - For each found x value we reconstruct the terminal velocities
@@ -184,18 +190,25 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
 
 unsigned lambert_problem::householder(double T, double &x0,
                                       unsigned N, // NOLINT
-                                      double eps, unsigned iter_max) const
+                                      double eps, unsigned iter_max, double slope) const
 {
     unsigned it = 0;
     double err = 1.0;
     double xnew = 0.0;
     double tof = 0.0, delta = 0.0, DT = 0.0, DDT = 0.0, DDDT = 0.0;
+    double x_lo = -1.0, x_hi = (N == 0u) ? std::numeric_limits<double>::infinity() : 1.0; // these enclose the root
     while ((err > eps) && (it < iter_max)) {
         x2tof(tof, x0, N);
         dTdx(DT, DDT, DDDT, x0, tof);
         delta = tof - T;
+        // T(x) is monotonic along the branch, with the sign of slope
+        bool const root_right = (DT * slope < 0.0) ? (slope > 0.0) : (delta * slope < 0.0);
+        (root_right ? x_lo : x_hi) = x0;
         double const DT2 = DT * DT;
         xnew = x0 - delta * (DT2 - delta * DDT / 2.0) / (DT * (DT2 - delta * DDT) + DDDT * delta * delta / 6.0);
+        if (!(xnew >= x_lo && xnew <= x_hi)) { // also when not a number
+            xnew = std::isinf(x_hi) ? 2.0 * x0 + 1.0 : (x_lo + x_hi) / 2.0;
+        }
         err = std::abs(x0 - xnew);
         x0 = xnew;
         it++;
@@ -211,6 +224,13 @@ void lambert_problem::dTdx(double &DT, double &DDT, double &DDDT, double x, doub
     double const y = std::sqrt(1.0 - l2 * umx2);
     double const y2 = y * y;
     double const y3 = y2 * y;
+    if (std::abs(umx2) < 1e-8) { // the expressions below are singular: limits for x -> 1 (no revolutions)
+        double const l5 = l2 * l3;
+        DT = 2.0 / 5.0 * (l5 - 1.0);
+        DDT = (6.0 * (1.0 - l2) * l5 - 8.0 * DT) / 7.0;
+        DDDT = (6.0 * (1.0 - l2) * l5 * (1.0 - 5.0 * l2) - 15.0 * DDT) / 9.0;
+        return;
+    }
     DT = 1.0 / umx2 * (3.0 * T * x - 2.0 + 2.0 * l3 * x / y);
     DDT = 1.0 / umx2 * (3.0 * T + 5.0 * x * DT + 2.0 * (1.0 - l2) * l3 / y3);
     DDDT = 1.0 / umx2 * (7.0 * x * DDT + 8.0 * DT - 6.0 * (1.0 - l2) * l2 * l3 * x / y3 / y2);
@@ -256,7 +276,10 @@ void lambert_problem::x2tof(double &tof, double x, unsigned N) const
         double const S1 = 0.5 * (1.0 - m_lambda - x * eta);
         double Q = hypergeometricF(S1, 1e-11);
         Q = 4.0 / 3.0 * Q;
-        tof = (eta * eta * eta * Q + 4.0 * m_lambda * eta) / 2.0 + N * kep3::pi / std::pow(rho, 1.5);
+        tof = (eta * eta * eta * Q + 4.0 * m_lambda * eta) / 2.0;
+        if (N > 0u) { // there is no such term, not even in x = 1, without revolutions
+            tof += N * kep3::pi / std::pow(rho, 1.5);
+        }
         return;
     } else { // We use Lancaster tof expresion
         double const y = std::sqrt(rho);
-- 
2.43.0


From 6173695ab680ae3fd1616a01600c3b4ece93b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 05/15] fix: sims_flanagan::set checks its arguments instead of
 the current state

The sanity checks of set() were run on the values stored in the leg, so that
invalid arguments (negative time of flight, cut outside of [0, 1], throttles
that are empty or not a multiple of three...) were accepted and left an invalid
leg behind.
---
 src/leg/sims_flanagan.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..9905656 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -123,7 +123,11 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
+    // We check the arguments (not the current values) before modifying the leg.
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, nseg, nseg_fwd, nseg_bck);
     m_rvs = rvs;
     m_ms = ms;
     m_throttles = throttles;
@@ -134,9 +138,9 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg_bck;
 }
 
 // Getters
-- 
2.43.0


From 94f5438ad7fdb3e4884bc513548c58cdf1b19c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 06/15] fix: epoch from a duration starts at MJD2000, as
 documented, not at the Unix epoch

---
 include/kep3/epoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 2bde48d..3a6ad94 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -124,7 +124,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
     {
     }
 
-- 
2.43.0


From 2a17e9f0912308855e4b8d89ff8ddfa53a832e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 07/15] fix: epoch rejects years, months and days that only
 become valid when narrowed

---
 src/epoch.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index cb857e8..324905b 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -128,20 +128,22 @@ time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h,
                           const std::int32_t s, const std::int32_t ms, const std::int32_t us)
 {
     // Construct and validate year, month and day.
+    // NOTE: the std::chrono types store narrower integers than the arguments, hence ok() alone
+    // would accept values (e.g., month 257) which become valid only after the narrowing.
     const std::chrono::year chr_y(y);
-    if (!chr_y.ok()) {
+    if (!chr_y.ok() || static_cast<int>(chr_y) != y) {
         throw std::invalid_argument(
             fmt::format("An invalid year value of {} was specified in the construction of a time point", y));
     }
 
     const std::chrono::month chr_mon(mon);
-    if (!chr_mon.ok()) {
+    if (!chr_mon.ok() || static_cast<unsigned>(chr_mon) != mon) {
         throw std::invalid_argument(
             fmt::format("An invalid month value of {} was specified in the construction of a time point", mon));
     }
 
     const std::chrono::day chr_d(d);
-    if (!chr_d.ok()) {
+    if (!chr_d.ok() || static_cast<unsigned>(chr_d) != d) {
         throw std::invalid_argument(
             fmt::format("An invalid day value of {} was specified in the construction of a time point", d));
     }
-- 
2.43.0


From a5bb2d06d9ef0d7a5c37e1dd69c8e1f08ca0bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 08/15] fix: NaN turn angle in fb_con and wrong fb_dv for
 (anti)parallel velocities

---
 src/core_astro/flyby.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 34094b3..e16a1ee 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <utility>
@@ -29,9 +30,11 @@ std::pair<double, double> fb_con(const std::array<double, 3> &v_rel_in, const st
     const double eq_V2 = Vin2 - Vout2;
 
     const double e_min = 1 + safe_radius / mu * Vin2;
-    const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+    // NOTE: rounding can bring the cosine outside of [-1, 1] for (anti)parallel velocities.
+    const double alpha = std::acos(
+        std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                       / std::sqrt(Vin2 * Vout2),
+                   -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
     return {eq_V2, ineq_delta};
 }
@@ -50,9 +53,11 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
     // eq_V2 = Vin2 - Vout2;
 
     const double e_min = 1 + safe_radius / mu * Vin2;
-    const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+    // NOTE: rounding can bring the cosine outside of [-1, 1] for (anti)parallel velocities.
+    const double alpha = std::acos(
+        std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                       / std::sqrt(Vin2 * Vout2),
+                   -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
 
     double dv = 0.;
-- 
2.43.0


From 89dbb6b40ee6b962314c594f1f57c7ef69e62125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 09/15] fix: default elements() refuses the mean anomaly only
 for hyperbolae

---
 src/planet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index dd45724..05b3d57 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -47,7 +47,7 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
         case kep3::elements_type::KEP_F:
             break;
         case kep3::elements_type::KEP_M:
-            if (retval[0] < 1) {
+            if (retval[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             retval[5] = kep3::f2m(retval[5], retval[1]);
-- 
2.43.0


From 47e68b4ab8ac7c9c660abd6786a95b042870ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:11 +0000
Subject: [PATCH 10/15] fix: keplerian accepts valid equinoctial elements (its
 a,e check read p,f)

---
 src/udpla/keplerian.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 7707cec..689c8fe 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -55,14 +55,18 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
       m_radius(added_params[1]), m_safe_radius(added_params[2]), m_period(), m_ellipse(), m_pos_vel_0(),
       m_kep_f_elements(elem)
 {
+    // Modified equinoctial elements do not contain a,e: we convert them before checking.
+    if (el_type == kep3::elements_type::MEQ || el_type == kep3::elements_type::MEQ_R) {
+        m_kep_f_elements = kep3::eq2par(m_kep_f_elements, el_type == kep3::elements_type::MEQ_R);
+    }
     // We check if the input is consistent with the pykep convention of a,e
-    if (m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) <= 0) {
+    if (!(m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) > 0)) {
         throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
                                 "a,e:"
                                 "The following must hold: a<0 -> e>1 [a>0 -> e<1].");
     }
 
-    // If so, we convert to the kep_f elements according to the chosen type for the input elem
+    // If so, we convert the anomaly according to the chosen type for the input elem
     switch (el_type) {
         case kep3::elements_type::KEP_F:
             break;
@@ -73,10 +77,7 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
             m_kep_f_elements[5] = kep3::m2f(m_kep_f_elements[5], m_kep_f_elements[1]);
             break;
         case kep3::elements_type::MEQ:
-            m_kep_f_elements = kep3::eq2par(m_kep_f_elements, false);
-            break;
         case kep3::elements_type::MEQ_R:
-            m_kep_f_elements = kep3::eq2par(m_kep_f_elements, true);
             break;
         default:
             throw std::logic_error("You should not go here!");
-- 
2.43.0


From 11e8247f4801de683e79604d95033a7a174fb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:34 +0000
Subject: [PATCH 11/15] fix: the sizes of the variational integrator caches are
 read under their own lock

---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From 89fa6a41a677c4f33439978afda0cdab57d774c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:03 +0000
Subject: [PATCH 12/15] fix: sims_flanagan_hf keeps its integrators and thrusts
 in step with its setters

set_mu, set_isp, set_tol, set_max_thrust and set() left the integrators (mu, veff,
tolerance) or the thrusts at their previous values, so that the mismatch was
computed with stale parameters; set() modified the leg before rejecting invalid
arguments.
---
 include/kep3/leg/sims_flanagan_hf.hpp |  4 ++
 src/leg/sims_flanagan_hf.cpp          | 81 ++++++++++++++++++---------
 2 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..289d1b0 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -133,6 +133,10 @@ public:
     [[nodiscard]] std::vector<std::vector<double>> get_state_history(const unsigned grid_points_per_segment) const;
 
 private:
+    // Propagate changes of tolerance, mu, isp to the integrators, and of throttles, maximum thrust to the thrusts
+    void _update_integrators();
+    void _update_thrusts();
+
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned)
diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..0f43d81 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -144,6 +144,27 @@ sims_flanagan_hf::sims_flanagan_hf(const std::array<double, 7> &rvms, std::vecto
     std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 
+// Keeps the integrators in step with the current tolerance, mu and veff
+void sims_flanagan_hf::_update_integrators()
+{
+    if (m_tas.get_tol() != m_tol) {
+        m_tas = kep3::ta::get_ta_stark(m_tol);
+        m_tas_var = kep3::ta::get_ta_stark_var(m_tol);
+    }
+    for (auto *pars : {m_tas.get_pars_data(), m_tas_var.get_pars_data()}) {
+        pars[0] = m_mu;
+        pars[1] = m_isp * kep3::G0;
+    }
+}
+
+// Keeps the thrusts in step with the current throttles and maximum thrust
+void sims_flanagan_hf::_update_thrusts()
+{
+    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
+    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
+    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+}
+
 // Setters
 void sims_flanagan_hf::set_tof(double tof)
 {
@@ -203,16 +224,19 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+    _update_thrusts();
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    _update_integrators();
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    _update_integrators();
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
@@ -225,6 +249,7 @@ void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
     m_tol = tol;
+    _update_integrators();
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
@@ -249,6 +274,11 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
+    // We check the arguments before modifying the leg.
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg_bck);
     // Set initial state
     set_rvs(rvs);
     set_ms(ms);
@@ -262,21 +292,22 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_mu = mu;
     m_cut = cut;
     m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg_bck;
+    _update_integrators();
+    _update_thrusts();
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
+    // We check the arguments before modifying the leg.
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg_bck);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -286,33 +317,29 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_mu = mu;
     m_cut = cut;
     m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg_bck;
+    _update_integrators();
+    _update_thrusts();
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
+    // We check the arguments before modifying the leg.
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * m_cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, time_of_flight, m_max_thrust, m_isp, m_mu, m_cut, m_tol, nseg, nseg_fwd, nseg_bck);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
     m_tof = time_of_flight;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg_bck;
+    _update_thrusts();
 }
 
 // Getters
-- 
2.43.0


From 79e87cf4f742b6bba0504e4999fb4cd884415c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:02 +0000
Subject: [PATCH 13/15] fix: gradients of the high-fidelity leg are with
 respect to throttles, not thrusts

The columns of compute_mc_grad documented as derivatives with respect to the
throttles lacked the factor max_thrust (the tests only use max_thrust = 1).
---
 src/leg/sims_flanagan_hf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 0f43d81..1b05b57 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -727,8 +727,9 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
             throw std::runtime_error("During calculation of the throttle derivatives, the index doesn't correspond to "
                                      "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
         }
+        // The integrator parameters are thrusts: thrust = max_thrust * throttle.
         xt::view(xgrad_final_throttle, xt::all(), xt::range(3 * i, 3 * (i + 1)))
-            = xt::linalg::dot(corresponding_M, current_U);
+            = xt::linalg::dot(corresponding_M, current_U) * m_max_thrust;
     }
 
     // ToF derivatives
-- 
2.43.0


From 134ff1a862203bd71fed73836aa50dd64aaf2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:02 +0000
Subject: [PATCH 14/15] fix: state history of a one-segment high-fidelity leg
 read past its time grid

The grid had grid_points * nseg - 1 times where (grid_points - 1) * nseg + 1 are
needed: one too few for a single segment.
---
 src/leg/sims_flanagan_hf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 1b05b57..67b8ee2 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -799,7 +799,7 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From 9f27b635ada80c8b17b121bcf1b77cd3a425956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 15/15] fix: serialize the variational integrator of the
 high-fidelity leg too

---
 include/kep3/leg/sims_flanagan_hf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index 289d1b0..be31755 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -156,6 +156,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Initial rvm state
-- 
2.43.0

