From 88f9afcc93d08d7ca29991dea8540dc5d3d7f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 01/42] fix: scale the universal anomaly guess and bounds in
 propagate_lagrangian_u

The universal anomaly has the dimensions of the square root of a length, while
the initial guess (hyperbolae) and the bracket of the root finder were fixed
numbers. In any units where the semi-major axis is not of order one the solver
stopped on the bracket and silently returned a wrong state.
---
 src/core_astro/propagate_lagrangian.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core_astro/propagate_lagrangian.cpp b/src/core_astro/propagate_lagrangian.cpp
index 902be8e..9e79003 100644
--- a/src/core_astro/propagate_lagrangian.cpp
+++ b/src/core_astro/propagate_lagrangian.cpp
@@ -201,11 +201,17 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
     // initial radial velocity (see we use the inverted vf = +-v0 according to dt)
     double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + rf[2] * vf[2]) / R0;
 
+    // The universal anomaly has the dimensions of the square root of a length: DS = DE * sqrt(a) or DS = DH * sqrt(-a).
+    // The initial guess and the bounds need to be scaled accordingly, so that all unit systems can be used.
+    double const sqrta = 1. / std::sqrt(std::abs(alpha));
+
     // solve kepler's equation in the universal anomaly DS
     double IG = 0;
     alpha > 0. ? IG = std::sqrt(mu) * dt_copy * std::abs(alpha)
-               : IG = 3.; // TODO(darioizzo): initial guess for the universal
-                          // anomaly. For hyperbolas is 3 .... can be better?
+               : IG = 3. * sqrta; // TODO(darioizzo): initial guess for the universal
+                                  // anomaly. For hyperbolas is 3 .... can be better?
+    // |DE - DM| is at most 2, DH is in the same range used in propagate_lagrangian.
+    double const DS_range = (alpha > 0. ? 2 * pi : 50.) * sqrta;
 
     // Solve Kepler Equation in DS (univrsal anomaly difference)
     const int digits = std::numeric_limits<double>::digits;
@@ -216,7 +222,7 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
         [dt_copy, R0, VR0, alpha, mu](double DS) {
             return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));
         },
-        IG, IG - 2 * pi, IG + 2 * pi, digits,
+        IG, IG - DS_range, IG + DS_range, digits,
         max_iter); // limiting the IG error within
                    // only pi will not work.
     if (max_iter == 100u) {
-- 
2.43.0


From be758dc868dcd6b235a37423c1e93912996d8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 02/42] fix: no NaN anomalies from ic2par at the apses and
 nodes

Rounding can push the normalized dot products out of [-1, 1], where std::acos
returns NaN.
---
 src/core_astro/ic2par2ic.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/ic2par2ic.cpp b/src/core_astro/ic2par2ic.cpp
index ae0b091..1e3d165 100644
--- a/src/core_astro/ic2par2ic.cpp
+++ b/src/core_astro/ic2par2ic.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 
@@ -19,6 +20,16 @@
 namespace kep3
 {
 
+namespace
+{
+// The cosine of an angle computed as a normalized dot product can exceed one in modulus because of rounding (e.g. at
+// the apses and nodes), in which case std::acos returns a NaN.
+double acos_clamped(double cos_angle)
+{
+    return std::acos(std::clamp(cos_angle, -1., 1.));
+}
+} // namespace
+
 using xt::linalg::cross;
 using xt::linalg::dot;
 
@@ -61,25 +72,25 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
 
     // Inclination is calculated and stored as the third orbital element
     // i = acos(hy/h) in [0, pi]
-    retval[2] = std::acos(h(2) / xt::linalg::norm(h));
+    retval[2] = acos_clamped(h(2) / xt::linalg::norm(h));
 
     // Argument of pericentrum is calculated and stored as the fifth orbital
     // element. w = acos(n.e)\|n||e| in [0, 2pi]
     auto temp = dot(n, evett);
-    retval[4] = std::acos(temp(0) / retval[1]);
+    retval[4] = acos_clamped(temp(0) / retval[1]);
     if (evett(2) < 0) {
         retval[4] = 2 * pi - retval[4];
     }
     // Argument of longitude is calculated and stored as the fourth orbital
     // element in [0, 2pi]
-    retval[3] = std::acos(n(0));
+    retval[3] = acos_clamped(n(0));
     if (n(1) < 0) {
         retval[3] = 2 * pi - retval[3];
     }
 
     // 4 - We compute ni: the true anomaly in [0, 2pi]
     temp = dot(evett, r0);
-    auto f = std::acos(temp(0) / retval[1] / R0);
+    auto f = acos_clamped(temp(0) / retval[1] / R0);
 
     temp = dot(r0, v0);
     if (temp(0) < 0.0) {
-- 
2.43.0


From 6a6fe968d30d0a8e8750357cae73749bad9c0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 03/42] fix: no NaN elements from eq2par for circular or
 equatorial orbits

atan2 needs no normalization of its arguments; dividing by the (zero)
eccentricity or by tan(i/2) returned NaN where the equinoctial elements are
regular.
---
 src/core_astro/eq2par2eq.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_astro/eq2par2eq.cpp b/src/core_astro/eq2par2eq.cpp
index 6892478..63e288f 100644
--- a/src/core_astro/eq2par2eq.cpp
+++ b/src/core_astro/eq2par2eq.cpp
@@ -25,7 +25,7 @@ std::array<double, 6> eq2par(const std::array<double, 6> &eq, bool retrogade)
     }
     double ecc = std::sqrt(eq[1] * eq[1] + eq[2] * eq[2]);
     double tmp = std::sqrt(eq[3] * eq[3] + eq[4] * eq[4]);
-    double zita = std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi]
+    double zita = std::atan2(eq[2], eq[1]); // [-pi, pi]
     if (zita < 0) {
         zita += 2 * pi; // [0, 2*pi]
     }
@@ -33,7 +33,7 @@ std::array<double, 6> eq2par(const std::array<double, 6> &eq, bool retrogade)
     retval[1] = ecc;
     retval[0] = eq[0] / (1. - ecc * ecc);
     retval[2] = half_pi * (1. - I) + 2. * I * std::atan(tmp);
-    retval[3] = std::atan2(eq[4] / tmp, eq[3] / tmp); // [-pi, pi]
+    retval[3] = std::atan2(eq[4], eq[3]); // [-pi, pi]
     if (retval[3] < 0) {
         retval[3] += 2 * pi; // [0, 2*pi]
     }
-- 
2.43.0


From 51fe215248f263621eef77eb0b640648089cb8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:45 +0000
Subject: [PATCH 04/42] fix: keep the multi-revolution Lambert iterations
 bracketed

For transfer angles approaching 360 degrees (lambda close to -1) the Halley
iterations for the minimum time of flight diverged, so that infeasible
revolutions were answered (with meaningless or non-finite velocities) and
feasible ones dropped, and the Householder iterations moved over to the other
branch. Both searches are now kept inside a bracket.
---
 include/kep3/lambert_problem.hpp |  2 +-
 src/lambert_problem.cpp          | 28 +++++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/kep3/lambert_problem.hpp b/include/kep3/lambert_problem.hpp
index 3c64cab..7b7f3cb 100644
--- a/include/kep3/lambert_problem.hpp
+++ b/include/kep3/lambert_problem.hpp
@@ -65,7 +65,7 @@ public:
     [[nodiscard]] unsigned get_Nmax() const;
 
 private:
-    unsigned householder(double, double &, unsigned, double, unsigned) const;
+    unsigned householder(double, double &, unsigned, double, unsigned, bool) const;
     void dTdx(double &, double &, double &, double, double) const;
     void x2tof(double &tof, double x0, unsigned N) const;
     void x2tof2(double &tof, double x0, unsigned N) const;
diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 77b4a19..60036d7 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -108,13 +108,20 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
             double err = 1.0;
             double T_min = T0;
             double x_old = 0.0, x_new = 0.0;
+            // The iterates are kept in a bracket of the minimum: for lambda close to -1 Halley's method alone
+            // can diverge.
+            double x_lo = -1.0, x_hi = 1.0;
             while (true) {
                 dTdx(DT, DDT, DDDT, x_old, T_min);
                 if (DT != 0.0) {
+                    (DT < 0.0 ? x_lo : x_hi) = x_old;
                     x_new = x_old - DT * DDT / (DDT * DDT - DT * DDDT / 2.0);
+                    if (!(x_new >= x_lo && x_new <= x_hi && std::abs(x_new) < 1.0)) {
+                        x_new = (x_lo + x_hi) / 2.0;
+                    }
                 }
                 err = std::abs(x_old - x_new);
-                if ((err < 1e-13) || (it > 12)) {
+                if ((err < 1e-13) || (it > 100)) {
                     break;
                 }
                 x2tof(T_min, x_new, m_Nmax);
@@ -147,18 +154,18 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
         m_x[0] = std::pow((T / T00), 0.69314718055994529 / std::log(T1 / T00)) - 1.0;
     }
     // 3.1.2 Householder iterations
-    m_iters[0] = householder(T, m_x[0], 0, 1e-5, 15);
+    m_iters[0] = householder(T, m_x[0], 0, 1e-5, 15, false);
     // 3.2 multi rev solutions
     double tmp = 0.;
     for (std::vector<double>::size_type i = 1u; i < m_Nmax + 1; ++i) {
         // 3.2.1 left Householder iterations
         tmp = std::pow((static_cast<double>(i) * kep3::pi + kep3::pi) / (8.0 * T), 2.0 / 3.0);
         m_x[2 * i - 1] = (tmp - 1) / (tmp + 1);
-        m_iters[2 * i - 1] = householder(T, m_x[2 * i - 1], static_cast<unsigned>(i), 1e-8, 15);
+        m_iters[2 * i - 1] = householder(T, m_x[2 * i - 1], static_cast<unsigned>(i), 1e-8, 100, false);
         // 3.2.1 right Householder iterations
         tmp = std::pow((8.0 * T) / (static_cast<double>(i) * kep3::pi), 2.0 / 3.0);
         m_x[2 * i] = (tmp - 1) / (tmp + 1);
-        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 15);
+        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 100, true);
     }
 
     // 4 - For each found x value we reconstruct the terminal velocities
@@ -182,20 +189,31 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     }
 }
 
+// For N > 0 there are two solutions, one on each side of the minimum of the time of flight curve. The iterates are kept
+// in a bracket of the requested one (right or left), so that they cannot move over to the other.
 unsigned lambert_problem::householder(double T, double &x0,
                                       unsigned N, // NOLINT
-                                      double eps, unsigned iter_max) const
+                                      double eps, unsigned iter_max, bool right) const
 {
     unsigned it = 0;
     double err = 1.0;
     double xnew = 0.0;
     double tof = 0.0, delta = 0.0, DT = 0.0, DDT = 0.0, DDDT = 0.0;
+    double x_lo = -1.0, x_hi = 1.0;
     while ((err > eps) && (it < iter_max)) {
         x2tof(tof, x0, N);
         dTdx(DT, DDT, DDDT, x0, tof);
         delta = tof - T;
         double const DT2 = DT * DT;
         xnew = x0 - delta * (DT2 - delta * DDT / 2.0) / (DT * (DT2 - delta * DDT) + DDDT * delta * delta / 6.0);
+        if (N > 0u) {
+            bool const wrong_side = right ? DT < 0.0 : DT > 0.0;
+            bool const increase_x = right ? (wrong_side || delta < 0.0) : (!wrong_side && delta > 0.0);
+            (increase_x ? x_lo : x_hi) = x0;
+            if (wrong_side || !(xnew >= x_lo && xnew <= x_hi && std::abs(xnew) < 1.0)) {
+                xnew = (x_lo + x_hi) / 2.0;
+            }
+        }
         err = std::abs(x0 - xnew);
         x0 = xnew;
         it++;
-- 
2.43.0


From b87498d5e38d15f8da063305b9ce63a09467e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 05/42] fix: equilibrate the matrix inverted in stm_reynolds

In units where lengths and velocities are many orders of magnitude apart (e.g.
SI units and long periods) Y0 was numerically singular and the returned state
transition matrix meaningless.
---
 src/core_astro/stm.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core_astro/stm.cpp b/src/core_astro/stm.cpp
index 5cc7675..b4447c9 100644
--- a/src/core_astro/stm.cpp
+++ b/src/core_astro/stm.cpp
@@ -181,7 +181,16 @@ std::array<double, 36> stm_reynolds(const std::array<std::array<double, 3>, 2> &
     //  Compute the STM using Reynolds' Cartesian Representation
     auto Y = _compute_Y(r0, v0, rf, vf, tof, mu);
     auto Y0 = _compute_Y(r0, v0, r0, v0, 0., mu);
-    retval = _dot(Y, mat66(inv(Y0)));
+    // The rows of Y0 have the dimensions of a length and of a velocity: they are made non dimensional before inverting,
+    // else, in units where the two are many orders of magnitude apart, Y0 is numerically singular.
+    double const L = std::sqrt(r0(0, 0) * r0(0, 0) + r0(1, 0) * r0(1, 0) + r0(2, 0) * r0(2, 0));
+    double const V = std::sqrt(mu / L);
+    xt::view(Y0, xt::range(0, 3), xt::all()) /= L;
+    xt::view(Y0, xt::range(3, 6), xt::all()) /= V;
+    mat66 Y0_inv = inv(Y0);
+    xt::view(Y0_inv, xt::all(), xt::range(0, 3)) /= L;
+    xt::view(Y0_inv, xt::all(), xt::range(3, 6)) /= V;
+    retval = _dot(Y, Y0_inv);
     // return retval;
     std::array<double, 36> ret{};
     std::copy(retval.begin(), retval.end(), ret.begin());
-- 
2.43.0


From 1f4b996afceb7d706e1b10f59f1f1999ca5645e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 06/42] fix: finite sims_flanagan gradients for coasting
 segments

With a zero throttle the derivative of its norm was 0/0: most entries of the
mismatch gradient became NaN.
---
 src/leg/sims_flanagan.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..81c1b49 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -332,7 +332,9 @@ std::pair<std::array<double, 49>, std::vector<double>> sims_flanagan::gradients_
         double Dvn = c / m[i] * un;
         dDv[i] = c / m[i] * du[i] - c / m[i] / m[i] * xt::linalg::dot(xt::transpose(u[i]), dm[i])
                  + m_max_thrust / m[i] * xt::linalg::dot(xt::transpose(u[i]), dtof) / nseg;
-        auto dDvn = c / m[i] / un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
+        // NOTE: the norm is not differentiable in zero (coasting segment), its derivative is there taken to be zero.
+        const double un_inv = (un > 0.) ? 1. / un : 0.;
+        auto dDvn = c / m[i] * un_inv * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
                     + m_max_thrust / m[i] * un * dtof / nseg;
         m[i + 1] = m[i] * std::exp(-Dvn * a);
         dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];
-- 
2.43.0


From db9a39a57ba21a2aaaf857c5a889aeec79bcacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 07/42] fix: refuse NaN settings in the Sims-Flanagan legs

---
 src/leg/sf_checks.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/leg/sf_checks.cpp b/src/leg/sf_checks.cpp
index 6ced0cc..8aea65a 100644
--- a/src/leg/sf_checks.cpp
+++ b/src/leg/sf_checks.cpp
@@ -16,7 +16,7 @@ namespace kep3::leg {
 void _check_tof(double tof)
 {
     // SC: One should be able to give this as a negative number to run the system backwards, no?
-    if (tof < 0.) {
+    if (!(tof >= 0.)) { // NOTE: written so that NaN is refused too.
         throw std::domain_error("The time of flight of a sims_flanagan leg needs to be larger or equal to zero.");
     }
 }
@@ -33,33 +33,33 @@ void _check_throttles(const std::vector<double> &throttles)
 }
 void _check_max_thrust(double max_thrust)
 {
-    if (max_thrust < 0.) {
+    if (!(max_thrust >= 0.)) {
         throw std::domain_error(
             "The maximum allowed thrust of a sims_flanagan leg is detected to be smaller than zero.");
     }
 }
 void _check_isp(double isp)
 {
-    if (isp < 0.) {
+    if (!(isp >= 0.)) {
         throw std::domain_error("The specific impulse of a sims_flanagan leg is detected to be smaller than zero.");
     }
 }
 void _check_mu(double mu)
 {
-    if (mu < 0.) {
+    if (!(mu >= 0.)) {
         throw std::domain_error(
             "The gravitational parameter of a sims_flanagan leg is detected to be smaller than zero.");
     }
 }
 void _check_cut(double cut)
 {
-    if (cut < 0. || cut > 1.) {
+    if (!(cut >= 0. && cut <= 1.)) {
         throw std::domain_error("The parameter cut of a sims_flanagan leg must be in [0, 1].");
     }
 }
 void _check_tol(double tol)
 {
-    if (tol <= 0. || tol > 1.) {
+    if (!(tol > 0. && tol <= 1.)) {
         throw std::domain_error("The parameter tol of a high-fidelity sims-flanagan leg leg must be in <0, 1].");
     }
 }
-- 
2.43.0


From 4dbdb1596f57ea3ff508b70c67e33018f5a2d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 08/42] fix: sims_flanagan checks the cut before using it and
 set() checks the new values

---
 src/leg/sims_flanagan.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 81c1b49..08b6bae 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -47,9 +47,12 @@ sims_flanagan::sims_flanagan(const std::array<std::array<double, 3>, 2> &rvs, do
                              double isp, double mu, double cut)
     : m_rvs(rvs), m_ms(ms), m_throttles(std::move(throttles)), m_rvf(rvf), m_mf(mf), m_tof(tof),
       m_max_thrust(max_thrust), m_isp(isp), m_mu(mu), m_cut(cut),
-      m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u),
-      m_nseg_fwd(static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut)), m_nseg_bck(m_nseg - m_nseg_fwd)
+      m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u), m_nseg_fwd(0u), m_nseg_bck(0u)
 {
+    // The cut must be known to be valid before it is used to count the segments.
+    kep3::leg::_check_cut(m_cut);
+    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
+    m_nseg_bck = m_nseg - m_nseg_fwd;
     kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
 }
 
@@ -123,7 +126,12 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
+    // The new values are all checked before any of them is set.
+    kep3::leg::_check_cut(cut);
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, nseg, nseg_fwd, nseg_bck);
     m_rvs = rvs;
     m_ms = ms;
     m_throttles = throttles;
@@ -134,9 +142,9 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg_bck;
 }
 
 // Getters
-- 
2.43.0


From 7b16552ca6e03e5eeeccf39e5dc6759541d1a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 09/42] fix: lambert_problem refuses collinear positions and
 non-finite problems

---
 src/lambert_problem.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 60036d7..18b46a6 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -42,10 +42,10 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     : m_r0(r0_a), m_r1(r1_a), m_tof(tof), m_mu(mu), m_has_converged(true), m_multi_revs(multi_revs)
 {
     // 0 - Sanity checks
-    if (tof <= 0) {
+    if (!(tof > 0)) { // NOTE: written so that NaN is refused too.
         throw std::domain_error("lambert_problem: Time of flight is negative!");
     }
-    if (mu <= 0) {
+    if (!(mu > 0)) {
         throw std::domain_error("lambert_problem: Gravity parameter is zero or negative!");
     }
 
@@ -62,10 +62,12 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
 
     auto irs = rs / Rs;
     auto irf = rf / Rf;
-    auto ih = cross(irs, irf);
+    // NOTE: the unit vectors irs, irf are rounded, hence collinearity (and a transfer plane containing the z axis) is
+    // seen only from the original ones. For collinear vectors ih is here NaN.
+    auto ih = cross(rs, rf);
     ih = ih / xt::linalg::norm(ih);
 
-    if (ih(2) == 0) {
+    if (!(std::abs(ih(2)) > 0)) {
         throw std::domain_error("lambert_problem: The angular momentum vector has no z component, "
                                 "impossible to define automatically clock or "
                                 "counterclockwise");
@@ -92,12 +94,14 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     }
     double const lambda3 = m_lambda * lambda2;
     double const T = std::sqrt(2.0 * m_mu / m_s / m_s / m_s) * m_tof;
+    if (!(T > 0 && std::isfinite(T))) {
+        throw std::domain_error("lambert_problem: The non dimensional time of flight is not a finite positive number.");
+    }
 
     // 2 - We now have lambda, T and we will find all x
     // 2.1 - Let us first detect the maximum number of revolutions for which there
     // exists a solution
-    m_Nmax = static_cast<unsigned>(T / kep3::pi);
-    m_Nmax = std::min(m_multi_revs, m_Nmax);
+    m_Nmax = static_cast<unsigned>(std::min(static_cast<double>(m_multi_revs), T / kep3::pi));
     double const T00 = std::acos(m_lambda) + m_lambda * std::sqrt(1.0 - lambda2);
     double const T0 = (T00 + m_Nmax * kep3::pi);
     double const T1 = 2.0 / 3.0 * (1.0 - lambda3);
-- 
2.43.0


From a5e78103211a7f601cc578e00083ac697d6a1698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 10/42] fix: initial guess of the zero revolution Lambert
 solution for very long times of flight

---
 src/lambert_problem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 18b46a6..1ae2b8e 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -150,7 +150,13 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     // 3 - We may now find all solutions in x,y
     // 3.1 0 rev solution
     // 3.1.1 initial guess
-    if (T >= T00) {
+    double tmp = 0.;
+    if (T >= 1e4) {
+        // Very long times of flight: x tends to -1 and the guess below is too far for the iterations to converge.
+        // T ~ pi / (2 (1 + x))^(3/2), the same limit used for the left multi rev solutions.
+        tmp = std::pow(kep3::pi / (8.0 * T), 2.0 / 3.0);
+        m_x[0] = (tmp - 1) / (tmp + 1);
+    } else if (T >= T00) {
         m_x[0] = -(T - T00) / (T - T00 + 4);
     } else if (T <= T1) {
         m_x[0] = T1 * (T1 - T) / (2.0 / 5.0 * (1 - lambda2 * lambda3) * T) + 1;
@@ -160,7 +166,6 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     // 3.1.2 Householder iterations
     m_iters[0] = householder(T, m_x[0], 0, 1e-5, 15, false);
     // 3.2 multi rev solutions
-    double tmp = 0.;
     for (std::vector<double>::size_type i = 1u; i < m_Nmax + 1; ++i) {
         // 3.2.1 left Householder iterations
         tmp = std::pow((static_cast<double>(i) * kep3::pi + kep3::pi) / (8.0 * T), 2.0 / 3.0);
-- 
2.43.0


From 7efb1367e739676cbaeb845b276a44bcd5228a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 11/42] fix: real time-of-flight expression in lambert_problem
 for very short transfers

---
 src/lambert_problem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 1ae2b8e..22fbf10 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -287,14 +287,15 @@ void lambert_problem::x2tof(double &tof, double x, unsigned N) const
         return;
     } else { // We use Lancaster tof expresion
         double const y = std::sqrt(rho);
-        double const g = x * z - m_lambda * E;
+        double const f = y * (z - m_lambda * x);
         double d = 0.0;
+        // NOTE: atan2 and asinh, unlike acos(g) and log(f + g), stay real whatever the rounding of f and g.
         if (E < 0) {
-            double const l = std::acos(g);
+            double const g = x * z - m_lambda * E;
+            double const l = std::atan2(f, g);
             d = N * kep3::pi + l;
         } else {
-            double const f = y * (z - m_lambda * x);
-            d = std::log(f + g);
+            d = std::asinh(f);
         }
         tof = (x - m_lambda * z - d / y) / E;
         return;
-- 
2.43.0


From 929469a2326faf51f5edfc5ccb5c5925b51850e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 12/42] fix: epochs from a duration count from MJD2000, as
 documented (they counted from 1970)

---
 include/kep3/epoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 2bde48d..3a6ad94 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -124,7 +124,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
     {
     }
 
-- 
2.43.0


From f53bd584098ba948cbdc31ddb0ba2d94dd5959bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 13/42] fix: epochs refuse years, months and days that wrapped
 around in chrono's narrow types

---
 src/epoch.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index cb857e8..fae3a21 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -128,20 +128,21 @@ time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h,
                           const std::int32_t s, const std::int32_t ms, const std::int32_t us)
 {
     // Construct and validate year, month and day.
+    // NOTE: the chrono types are narrow and wrap around, so the values are checked before they are converted.
     const std::chrono::year chr_y(y);
-    if (!chr_y.ok()) {
+    if (static_cast<int>(chr_y) != y || !chr_y.ok()) {
         throw std::invalid_argument(
             fmt::format("An invalid year value of {} was specified in the construction of a time point", y));
     }
 
     const std::chrono::month chr_mon(mon);
-    if (!chr_mon.ok()) {
+    if (static_cast<unsigned>(chr_mon) != mon || !chr_mon.ok()) {
         throw std::invalid_argument(
             fmt::format("An invalid month value of {} was specified in the construction of a time point", mon));
     }
 
     const std::chrono::day chr_d(d);
-    if (!chr_d.ok()) {
+    if (static_cast<unsigned>(chr_d) != d || !chr_d.ok()) {
         throw std::invalid_argument(
             fmt::format("An invalid day value of {} was specified in the construction of a time point", d));
     }
-- 
2.43.0


From 9990f259eccf5c1fd2cf4754ccbe41ad54020320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 14/42] fix: epochs refuse strings whose date and time fields
 are not numbers

---
 src/epoch.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index fae3a21..62d1055 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -90,20 +90,29 @@ epoch::epoch(const std::string &in, string_format sf)
             "Malformed input string when constructing an epoch. Must be 'YYYY-MM-DD HH:MM:SS:XXXXXX'. "
             "D,H,M,S and X can be missing incrementally.");
     }
+    // Every field must consist of digits only (std::stoi alone would accept signs, blanks and trailing garbage).
+    auto digits = [&in](decltype(in.size()) pos, decltype(in.size()) n) {
+        const auto field = in.substr(pos, n);
+        if (field.find_first_not_of("0123456789") != std::string::npos) {
+            throw std::logic_error(
+                fmt::format("Malformed input string when constructing an epoch: '{}' is not a number", field));
+        }
+        return field;
+    };
     unsigned d = 1;
     std::int32_t h = 0, min = 0, s = 0, us = 0;
-    int const y = std::stoi(in.substr(0, 4));
-    auto mon = boost::numeric_cast<unsigned>(std::stoi(in.substr(5, 2)));
+    int const y = std::stoi(digits(0, 4));
+    auto mon = boost::numeric_cast<unsigned>(std::stoi(digits(5, 2)));
     if (len >= 10) {
-        d = boost::numeric_cast<unsigned>(std::stoi(in.substr(8, 2)));
+        d = boost::numeric_cast<unsigned>(std::stoi(digits(8, 2)));
         if (len >= 13) {
-            h = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(11, 2)));
+            h = boost::numeric_cast<std::int32_t>(std::stoi(digits(11, 2)));
             if (len >= 16) {
-                min = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(14, 2)));
+                min = boost::numeric_cast<std::int32_t>(std::stoi(digits(14, 2)));
                 if (len >= 19) {
-                    s = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(17, 2)));
+                    s = boost::numeric_cast<std::int32_t>(std::stoi(digits(17, 2)));
                     if (len >= 21) {
-                        std::string rest = in.substr(20);
+                        std::string rest = digits(20, std::string::npos);
                         us = boost::numeric_cast<std::int32_t>(std::stoi(rest));
                         for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {
                             us *= 10;
-- 
2.43.0


From c36d670c36ab3848ecf263882eb02e39e2f85236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:13 +0000
Subject: [PATCH 15/42] fix: epochs refuse numbers and durations that are not
 numbers or out of range instead of overflowing

---
 include/kep3/epoch.hpp | 34 +++++++++++++++++++++++++++-------
 src/epoch.cpp          | 29 +++++++++++++++++++++++------
 2 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 3a6ad94..63179bc 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -16,6 +16,7 @@
 #include <iostream>
 #include <limits>
 #include <ratio>
+#include <stdexcept>
 #include <type_traits>
 
 #include <fmt/ostream.h>
@@ -96,6 +97,25 @@ class kep3_DLL_PUBLIC epoch
     // Used in several places below.
     using seconds_day_ratio = std::ratio<86400>;
 
+    // Largest distance of an epoch from MJD2000 (1e8 days, about 273k years): it keeps the ticks of
+    // every calendar within 64 bits.
+    static constexpr auto max_offset = microseconds{8640000000000000000};
+
+    // Conversion of a duration to our ticks. Durations that are not a number or not representable are refused.
+    template <typename Rep, typename Period>
+    static constexpr microseconds to_ticks(const std::chrono::duration<Rep, Period> &d)
+    {
+        const std::chrono::duration<long double, microseconds::period> ticks(d);
+        const std::chrono::duration<long double, microseconds::period> limit(max_offset);
+        if (!(ticks >= -limit && ticks <= limit)) {
+            throw std::out_of_range("A duration out of the range of epochs was used");
+        }
+        return std::chrono::duration_cast<microseconds>(d);
+    }
+
+    // Time point at a distance from another, refused if out of range.
+    static time_point shifted(time_point, microseconds);
+
     /* Helper functions for constructors */
     static time_point make_tp(int y, unsigned mon, unsigned d, std::int32_t h = 0, std::int32_t min = 0,
                               std::int32_t s = 0, std::int32_t ms = 0, std::int32_t us = 0);
@@ -124,7 +144,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + to_ticks(duration)}
     {
     }
 
@@ -182,14 +202,14 @@ public:
     template <typename Rep, typename Period>
     epoch &operator+=(const std::chrono::duration<Rep, Period> &d)
     {
-        m_tp += std::chrono::duration_cast<microseconds>(d);
+        m_tp = shifted(m_tp, to_ticks(d));
         return *this;
     }
 
     template <typename Rep, typename Period>
     epoch &operator-=(const std::chrono::duration<Rep, Period> &d)
     {
-        m_tp -= std::chrono::duration_cast<microseconds>(d);
+        m_tp = shifted(m_tp, -to_ticks(d));
         return *this;
     }
 
@@ -203,23 +223,23 @@ public:
     template <typename Rep, typename Period>
     epoch operator+(const std::chrono::duration<Rep, Period> &d)
     {
-        return epoch(m_tp + std::chrono::duration_cast<microseconds>(d));
+        return epoch(shifted(m_tp, to_ticks(d)));
     }
 
     template <typename Rep, typename Period>
     epoch operator-(const std::chrono::duration<Rep, Period> &d)
     {
-        return epoch(m_tp - std::chrono::duration_cast<microseconds>(d));
+        return epoch(shifted(m_tp, -to_ticks(d)));
     }
 
     static constexpr auto days(double value)
     {
-        return std::chrono::duration_cast<microseconds>(std::chrono::duration<double, seconds_day_ratio>(value));
+        return to_ticks(std::chrono::duration<double, seconds_day_ratio>(value));
     }
 
     static constexpr auto sec(double value)
     {
-        return std::chrono::duration_cast<microseconds>(std::chrono::duration<double, std::ratio<1>>(value));
+        return to_ticks(std::chrono::duration<double, std::ratio<1>>(value));
     }
 
     kep3_DLL_PUBLIC friend microseconds operator-(const epoch &lhs, const epoch &rhs);
diff --git a/src/epoch.cpp b/src/epoch.cpp
index 62d1055..f9ee93f 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -7,6 +7,8 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
+#include <array>
 #include <chrono>
 #include <iostream>
 #include <stdexcept>
@@ -42,10 +44,10 @@ epoch::epoch(double julian_epoch_in, julian_type epoch_type)
             m_tp = epoch::tp_from_days(julian_epoch_in);
             break;
         case julian_type::MJD:
-            m_tp = epoch::tp_from_days(julian_epoch_in) - mjd_offset;
+            m_tp = shifted(epoch::tp_from_days(julian_epoch_in), -mjd_offset);
             break;
         case julian_type::JD:
-            m_tp = epoch::tp_from_days(julian_epoch_in) - jd_offset;
+            m_tp = shifted(epoch::tp_from_days(julian_epoch_in), -jd_offset);
             break;
         default:
             throw std::invalid_argument(
@@ -130,7 +132,7 @@ epoch::epoch(const std::string &in, string_format sf)
  *
  * @param[in] time_point Self-explanatory.
  */
-epoch::epoch(time_point tp) : m_tp{tp} {}
+epoch::epoch(time_point tp) : m_tp{shifted(tp, microseconds{0})} {}
 
 // NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
 time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h, const std::int32_t min,
@@ -180,7 +182,17 @@ time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h,
     tp += ensure_64bit<std::chrono::milliseconds>(ms);
     tp += ensure_64bit<std::chrono::microseconds>(us);
 
-    return tp;
+    return shifted(tp, microseconds{0});
+}
+
+time_point epoch::shifted(time_point tp, microseconds d)
+{
+    const auto latest = y2k + max_offset - std::max(d, microseconds{0});
+    const auto earliest = y2k - max_offset - std::min(d, microseconds{0});
+    if (tp < earliest || tp > latest) {
+        throw std::out_of_range("An epoch out of range was requested");
+    }
+    return tp + d;
 }
 
 bool operator>(const epoch &c1, const epoch &c2)
@@ -220,7 +232,7 @@ bool operator!=(const epoch &c1, const epoch &c2)
  */
 time_point epoch::tp_from_days(double days)
 {
-    return y2k + std::chrono::duration_cast<microseconds>(std::chrono::duration<double, seconds_day_ratio>(days));
+    return y2k + to_ticks(std::chrono::duration<double, seconds_day_ratio>(days));
 }
 
 /**
@@ -259,7 +271,12 @@ std::ostream &operator<<(std::ostream &s, const epoch &ep)
 
 microseconds operator-(const epoch &lhs, const epoch &rhs)
 {
-    return lhs.m_tp - rhs.m_tp;
+    const auto l = lhs.m_tp.time_since_epoch();
+    const auto r = rhs.m_tp.time_since_epoch();
+    if (r > microseconds{0} ? l < microseconds::min() + r : l > microseconds::max() + r) {
+        throw std::out_of_range("The difference between two epochs is out of range");
+    }
+    return l - r;
 }
 
 time_point epoch::get_tp() const
-- 
2.43.0


From 1a231800ce655cd365f90a957514984b2085df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:03 +0000
Subject: [PATCH 16/42] fix: mean anomalies of planets with a semi-major axis
 below one are not refused

---
 src/planet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index dd45724..05b3d57 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -47,7 +47,7 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
         case kep3::elements_type::KEP_F:
             break;
         case kep3::elements_type::KEP_M:
-            if (retval[0] < 1) {
+            if (retval[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             retval[5] = kep3::f2m(retval[5], retval[1]);
-- 
2.43.0


From 4b6acb18ee70b9f5c76a9e15d286c02442f57305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:03 +0000
Subject: [PATCH 17/42] fix: Keplerian planets check a and e, not the first two
 equinoctial elements

---
 src/udpla/keplerian.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 7707cec..45fc6db 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -55,28 +55,35 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
       m_radius(added_params[1]), m_safe_radius(added_params[2]), m_period(), m_ellipse(), m_pos_vel_0(),
       m_kep_f_elements(elem)
 {
-    // We check if the input is consistent with the pykep convention of a,e
-    if (m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) <= 0) {
-        throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
-                                "a,e:"
-                                "The following must hold: a<0 -> e>1 [a>0 -> e<1].");
-    }
-
-    // If so, we convert to the kep_f elements according to the chosen type for the input elem
+    // Checks if the (Keplerian) elements are consistent with the pykep convention of a,e
+    auto check_a_e = [this]() {
+        if (!(m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) > 0)) {
+            throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
+                                    "a,e:"
+                                    "The following must hold: a<0 -> e>1 [a>0 -> e<1].");
+        }
+    };
+
+    // We convert to the kep_f elements according to the chosen type for the input elem
     switch (el_type) {
         case kep3::elements_type::KEP_F:
+            check_a_e();
             break;
         case kep3::elements_type::KEP_M:
+            check_a_e();
             if (m_kep_f_elements[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             m_kep_f_elements[5] = kep3::m2f(m_kep_f_elements[5], m_kep_f_elements[1]);
             break;
+        // NOTE: the first two equinoctial elements are not a and e, the check is made on the converted ones.
         case kep3::elements_type::MEQ:
             m_kep_f_elements = kep3::eq2par(m_kep_f_elements, false);
+            check_a_e();
             break;
         case kep3::elements_type::MEQ_R:
             m_kep_f_elements = kep3::eq2par(m_kep_f_elements, true);
+            check_a_e();
             break;
         default:
             throw std::logic_error("You should not go here!");
-- 
2.43.0


From ee432d6df7de5ad662cbe7ba5c37410255e0405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:03 +0000
Subject: [PATCH 18/42] fix: fly-by constraints and delta-v of (anti)parallel
 velocities are not NaN

---
 src/core_astro/flyby.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 34094b3..8a581f4 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <utility>
@@ -29,9 +30,11 @@ std::pair<double, double> fb_con(const std::array<double, 3> &v_rel_in, const st
     const double eq_V2 = Vin2 - Vout2;
 
     const double e_min = 1 + safe_radius / mu * Vin2;
+    // NOTE: for (anti)parallel velocities rounding can bring the cosine out of [-1, 1].
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
     return {eq_V2, ineq_delta};
 }
@@ -50,9 +53,11 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
     // eq_V2 = Vin2 - Vout2;
 
     const double e_min = 1 + safe_radius / mu * Vin2;
+    // NOTE: for (anti)parallel velocities rounding can bring the cosine out of [-1, 1].
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
 
     double dv = 0.;
-- 
2.43.0


From 352770274c6dc9f66c8363d2f91f530b15ca7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:26 +0000
Subject: [PATCH 19/42] fix: equinoctial elements of planets on circular or
 equatorial orbits are not NaN

---
 src/planet.cpp          | 7 ++++---
 src/udpla/keplerian.cpp | 7 +++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index 05b3d57..98a1a0a 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -15,7 +15,7 @@
 
 #include <kep3/core_astro/constants.hpp>
 #include <kep3/core_astro/convert_anomalies.hpp>
-#include <kep3/core_astro/eq2par2eq.hpp>
+#include <kep3/core_astro/ic2eq2ic.hpp>
 #include <kep3/core_astro/ic2par2ic.hpp>
 #include <kep3/epoch.hpp>
 #include <kep3/exceptions.hpp>
@@ -53,10 +53,11 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
             retval[5] = kep3::f2m(retval[5], retval[1]);
             break;
         case kep3::elements_type::MEQ:
-            retval = kep3::par2eq(retval, false);
+            // NOTE: not through the Keplerian elements, which are singular for circular or equatorial orbits.
+            retval = kep3::ic2eq(pos_vel, mu, false);
             break;
         case kep3::elements_type::MEQ_R:
-            retval = kep3::par2eq(retval, true);
+            retval = kep3::ic2eq(pos_vel, mu, true);
             break;
         // LCOV_EXCL_START
         default:
diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 45fc6db..8ae83fe 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -160,12 +160,11 @@ std::array<double, 6> keplerian::elements(double, kep3::elements_type el_type) c
             retval[5] = kep3::f2m(retval[5], retval[1]);
             break;
         case kep3::elements_type::MEQ:
-            retval = m_kep_f_elements;
-            retval = kep3::par2eq(retval, false);
+            // NOTE: not through the Keplerian elements, which are singular for circular or equatorial orbits.
+            retval = kep3::ic2eq(m_pos_vel_0, m_mu_central_body, false);
             break;
         case kep3::elements_type::MEQ_R:
-            retval = m_kep_f_elements;
-            retval = kep3::par2eq(retval, true);
+            retval = kep3::ic2eq(m_pos_vel_0, m_mu_central_body, true);
             break;
         default:
             throw std::logic_error("You should not go here!");
-- 
2.43.0


From 0ae08585a9d214f02fde364d347cf353faa50550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 20/42] fix: fly-by delta-v is not NaN for nearly equal speeds
 and turns just beyond the largest

---
 src/core_astro/flyby.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 8a581f4..9bddb5b 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -62,7 +62,11 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
 
     double dv = 0.;
     if (ineq_delta > 0.0) {
-        dv = std::sqrt(Vout2 + Vin2 - 2.0 * std::sqrt(Vout2 * Vin2) * std::cos(ineq_delta));
+        // NOTE: the law of cosines, in a form that has no cancellation when the two speeds are close and the excess
+        // turn is small (the textbook form can then be the square root of a negative number).
+        const double Vin = std::sqrt(Vin2);
+        const double Vout = std::sqrt(Vout2);
+        dv = std::hypot(Vout - Vin, 2.0 * std::sqrt(Vin * Vout) * std::sin(ineq_delta / 2.));
     } else {
         dv = std::abs(sqrt(Vout2) - std::sqrt(Vin2));
     }
-- 
2.43.0


From 1ee88aeeb963fe0f187db1e86a2cea3f81b00521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 21/42] fix: high-fidelity leg settings are checked before they
 are used and all reach the integrators and thrusts

---
 src/leg/sims_flanagan_hf.cpp | 88 ++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 43 deletions(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..00f2a8e 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -76,9 +76,12 @@ sims_flanagan_hf::sims_flanagan_hf(const std::array<std::array<double, 3>, 2> &r
                                    const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof,
                                    double max_thrust, double isp, double mu, double cut, double tol)
     : m_throttles(std::move(throttles)), m_tof(tof), m_max_thrust(max_thrust), m_isp(isp), m_mu(mu), m_cut(cut),
-      m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u),
-      m_nseg_fwd(static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut)), m_nseg_bck(m_nseg - m_nseg_fwd)
+      m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u), m_nseg_fwd(0u), m_nseg_bck(0u)
 {
+    // The cut must be known to be valid before it is used to count the segments.
+    kep3::leg::_check_cut(m_cut);
+    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
+    m_nseg_bck = m_nseg - m_nseg_fwd;
     // We perform some sanity checks on the user provided inputs
     kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
@@ -116,9 +119,13 @@ sims_flanagan_hf::sims_flanagan_hf(const std::array<double, 7> &rvms, std::vecto
                                    const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp,
                                    double mu, double cut, double tol)
     : m_rvms(rvms), m_throttles(std::move(throttles)), m_rvmf(rvmf), m_tof(tof), m_max_thrust(max_thrust), m_isp(isp),
-      m_mu(mu), m_cut(cut), m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u),
-      m_nseg_fwd(static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut)), m_nseg_bck(m_nseg - m_nseg_fwd)
+      m_mu(mu), m_cut(cut), m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u), m_nseg_fwd(0u),
+      m_nseg_bck(0u)
 {
+    // The cut must be known to be valid before it is used to count the segments.
+    kep3::leg::_check_cut(m_cut);
+    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
+    m_nseg_bck = m_nseg - m_nseg_fwd;
     // We perform some sanity checks on the user provided inputs
     kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
@@ -203,16 +210,25 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+    // The thrusts follow.
+    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
+    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    // The integrators follow.
+    *(m_tas.get_pars_data() + 1) = m_isp * kep3::G0;
+    *(m_tas_var.get_pars_data() + 1) = m_isp * kep3::G0;
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    // The integrators follow.
+    *m_tas.get_pars_data() = m_mu;
+    *m_tas_var.get_pars_data() = m_mu;
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
@@ -225,6 +241,13 @@ void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
     m_tol = tol;
+    // The integrators follow (get_ta_stark* return references to cached ones, here copied).
+    m_tas = kep3::ta::get_ta_stark(m_tol);
+    m_tas_var = kep3::ta::get_ta_stark_var(m_tol);
+    *m_tas.get_pars_data() = m_mu;
+    *(m_tas.get_pars_data() + 1) = m_isp * kep3::G0;
+    *m_tas_var.get_pars_data() = m_mu;
+    *(m_tas_var.get_pars_data() + 1) = m_isp * kep3::G0;
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
@@ -249,47 +272,34 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
-    // Set initial state
-    set_rvs(rvs);
-    set_ms(ms);
-    // Set final state
-    set_rvf(rvf);
-    set_mf(mf);
-    m_throttles = throttles;
-    m_tof = tof;
-    m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
-    m_cut = cut;
-    m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    set({rvs[0][0], rvs[0][1], rvs[0][2], rvs[1][0], rvs[1][1], rvs[1][2], ms}, throttles,
+        {rvf[0][0], rvf[0][1], rvf[0][2], rvf[1][0], rvf[1][1], rvf[1][2], mf}, tof, max_thrust, isp, mu, cut, tol);
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
+    // The new values are all checked before any of them is set.
+    kep3::leg::_check_cut(cut);
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg_bck);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
     m_tof = tof;
     m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
+    if (tol != m_tol) {
+        set_tol(tol);
+    }
+    set_isp(isp);
+    set_mu(mu);
     m_cut = cut;
-    m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg_bck;
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
@@ -300,19 +310,11 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
+    kep3::leg::_check_tof(time_of_flight);
+    set_throttles(throttles); // checks its argument first
     set_rvms(rvms);
-    m_throttles = throttles;
     set_rvmf(rvmf);
     m_tof = time_of_flight;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 
 // Getters
-- 
2.43.0


From 214cfb8629a289a5907670d0595f632682c1ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 22/42] fix: high-fidelity leg gradients w.r.t. the throttles
 account for the maximum thrust

---
 src/leg/sims_flanagan_hf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 00f2a8e..23efc76 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -702,8 +702,9 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
             throw std::runtime_error("During calculation of the throttle derivatives, the index doesn't correspond to "
                                      "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
         }
+        // NOTE: current_U is the derivative w.r.t. the thrust, that is the throttle times the maximum thrust.
         xt::view(xgrad_final_throttle, xt::all(), xt::range(3 * i, 3 * (i + 1)))
-            = xt::linalg::dot(corresponding_M, current_U);
+            = xt::linalg::dot(corresponding_M, current_U) * m_max_thrust;
     }
 
     // ToF derivatives
-- 
2.43.0


From 2f3bb962d0555be04428c7350150253f9d0325bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 23/42] fix: the variational integrator of high-fidelity legs
 is archived too

---
 include/kep3/leg/sims_flanagan_hf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..66c1010 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -152,6 +152,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Initial rvm state
-- 
2.43.0


From 789ed4db7f8279738b6f3f597642f494774a4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 24/42] fix: state history of single-segment high-fidelity legs
 does not read past the time grid

---
 src/leg/sims_flanagan_hf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 23efc76..731b189 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -767,6 +767,10 @@ std::vector<double> sims_flanagan_hf::compute_tc_grad() const
 
 std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned grid_points_per_segment) const
 {
+    if (grid_points_per_segment < 2u) {
+        throw std::domain_error("The state history of a high-fidelity sims-flanagan leg needs at least two grid points "
+                                "per segment (its two ends).");
+    }
     // Get time grid
     const double prop_seg_duration = (m_tof / m_nseg);
     std::vector<double> leg_time_grid;
@@ -774,7 +778,7 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From 532e0e45131e1f7ec9acc1225f50760011a25970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 25/42] fix: high-fidelity leg chromosomes of the wrong size
 are refused

---
 src/leg/sims_flanagan_hf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 731b189..5b21954 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -483,6 +483,10 @@ std::vector<double> sims_flanagan_hf::compute_constraints() const
 
 std::vector<double> sims_flanagan_hf::set_and_compute_constraints(const std::vector<double> &chromosome)
 {
+    if (chromosome.size() != 7u + static_cast<std::size_t>(m_nseg) * 3u + 7u + 1u) {
+        throw std::logic_error("The chromosome of a high-fidelity sims-flanagan leg must contain rvms, the throttles of "
+                               "all its segments, rvmf and the time of flight.");
+    }
     std::array<double, 7> rvms;
     std::copy(chromosome.begin(), chromosome.begin() + 7, rvms.begin());
     std::vector<double> throttles(m_nseg * 3);
-- 
2.43.0


From 8080e4abd532d6d6feb2490353876ffa345ba891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 26/42] fix: sizes of the variational integrator caches are
 read under the mutex of those caches

---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From 82735536b1bd1c7f94a184f84c4caeffa60f555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 27/42] fix: throttles can be set from iterators into the leg's
 own ones

---
 src/leg/sims_flanagan.cpp    | 4 ++--
 src/leg/sims_flanagan_hf.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 08b6bae..875d140 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -84,8 +84,8 @@ void sims_flanagan::set_throttles(const std::vector<double>::const_iterator &it1
     if (((std::distance(it1, it2) % 3) != 0) || std::distance(it1, it2) <= 0) {
         throw std::logic_error("The throttles of a sims_flanagan leg are being set with invalid iterators.");
     }
-    m_throttles.resize(static_cast<size_t>(std::distance(it1, it2)));
-    std::copy(it1, it2, m_throttles.begin());
+    // NOTE: via a new vector, as the iterators may well be into the throttles of this leg.
+    m_throttles = std::vector<double>(it1, it2);
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 5b21954..c1d798b 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -186,8 +186,8 @@ void sims_flanagan_hf::set_throttles(const std::vector<double>::const_iterator &
         throw std::logic_error(
             "The throttles of a high-fidelity sims-flanagan leg leg are being set with invalid iterators.");
     }
-    m_throttles.resize(static_cast<size_t>(std::distance(it1, it2)));
-    std::copy(it1, it2, m_throttles.begin());
+    // NOTE: via a new vector, as the iterators may well be into the throttles of this leg.
+    m_throttles = std::vector<double>(it1, it2);
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-- 
2.43.0


From c72b6b3de6eb03c9a9cf64a5ff452733f3869eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 28/42] fix: pykep.DEG2RAD converts degrees to radians

---
 pykep/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 780bbf8..57e72aa 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -59,7 +59,7 @@ PYBIND11_MODULE(core, m) // NOLINT
     m.attr("EARTH_J2") = py::float_(kep3::EARTH_J2);
     m.attr("EARTH_RADIUS") = py::float_(kep3::EARTH_RADIUS);
     m.attr("RAD2DEG") = py::float_(kep3::RAD2DEG);
-    m.attr("DEG2RAD") = py::float_(kep3::RAD2DEG);
+    m.attr("DEG2RAD") = py::float_(kep3::DEG2RAD);
     m.attr("DAY2SEC") = py::float_(kep3::DAY2SEC);
     m.attr("SEC2DAY") = py::float_(kep3::SEC2DAY);
     m.attr("DAY2YEAR") = py::float_(kep3::DAY2YEAR);
-- 
2.43.0


From 294005e4387431ac49c14bf73d39e88e2af229d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 29/42] fix: the Cassini problems of the gym can describe
 themselves (undefined name)

---
 pykep/trajopt/gym/_cassini_mga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/trajopt/gym/_cassini_mga.py b/pykep/trajopt/gym/_cassini_mga.py
index b45bf75..183a3bb 100644
--- a/pykep/trajopt/gym/_cassini_mga.py
+++ b/pykep/trajopt/gym/_cassini_mga.py
@@ -27,7 +27,7 @@ class _cassini1_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P1): Cassini MGA, single objective, direct encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -52,7 +52,7 @@ class _cassini1a_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P2): Cassini MGA, single objective, alpha encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -77,7 +77,7 @@ class _cassini1n_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P3): Cassini MGA, single objective, eta encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
-- 
2.43.0


From 8fe8fd47579fad3b9a857db6abaf5e4241aad954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 30/42] fix: planet.extract(object) returns the Python
 user-defined planet, as documented

---
 pykep/_patch_planet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykep/_patch_planet.py b/pykep/_patch_planet.py
index cf977c4..913a6e2 100644
--- a/pykep/_patch_planet.py
+++ b/pykep/_patch_planet.py
@@ -60,7 +60,8 @@ def _planet_extract(self, t):
     # Else we extract the UDPLA from the python class, check its type 
     # and see if we want to return None or not as to have a consistent behaviour
     udpla = self._py_extract()
-    if (type(udpla) == t):
+    # (_py_extract returns None if the udpla is cpp).
+    if udpla is not None and (t is object or type(udpla) == t):
         return udpla
     else:
         return None
-- 
2.43.0


From c993018805e57a50c3b22e531f066bbfcccff273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 31/42] fix: Sims-Flanagan legs can be pickled (pickle could
 not find their classes), and so can the problems that hold them

---
 pykep/leg/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pykep/leg/__init__.py b/pykep/leg/__init__.py
index 8963bcf..0f4fc03 100644
--- a/pykep/leg/__init__.py
+++ b/pykep/leg/__init__.py
@@ -12,14 +12,17 @@ from .. import core as _core
 
 # Renaming cpp legs (we need to create an alias first and then 
 # to fool sphinx into thinking these are not aliases, else the sphinx built docs
-# would report them as aliases and fail to document these classes)
+# would report them as aliases and fail to document these classes). Module and (qualified)
+# name are also those that pickle uses to find the class again.
 sims_flanagan = _core._sims_flanagan
 sims_flanagan.__name__ = "sims_flanagan"
-sims_flanagan.__module__ = "leg"
+sims_flanagan.__qualname__ = "sims_flanagan"
+sims_flanagan.__module__ = "pykep.leg"
 
 sims_flanagan_hf = _core._sims_flanagan_hf
 sims_flanagan_hf.__name__ = "sims_flanagan_hf"
-sims_flanagan_hf.__module__ = "leg"
+sims_flanagan_hf.__qualname__ = "sims_flanagan_hf"
+sims_flanagan_hf.__module__ = "pykep.leg"
 
 # Removing core from the list of imported symbols.
 del _core
-- 
2.43.0


From b8a6079901a287ed7ab94452af43afc1c1588d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 32/42] fix: the launch epoch of an MGA trajectory is not
 truncated when the times of flight are integers

---
 pykep/trajopt/_mga.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index a25d449..e7c079f 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -272,9 +272,7 @@ class mga:
         """
         if self.tof_encoding != "eta":
             raise ValueError("cannot call this method if the tof_encoding is not 'eta'")
-        from copy import deepcopy
-
-        retval = deepcopy(x)
+        retval = _np.array(x, dtype=float)
         retval[1] = x[1] / self.tof
         for i in range(2, len(x)):
             retval[i] = x[i] / (self.tof - sum(x[1:i]))
@@ -293,7 +291,7 @@ class mga:
         # 1 -  we 'decode' the times of flights and compute all epochs (mjd2000)
         # of the various planetary encounters
         T: List[float] = self._decode_tofs(x)  # T is [T1, T2 ...]
-        ep = _np.insert(T, 0, x[0])  # T is [t0, T1, T2 ...]
+        ep = _np.insert(_np.asarray(T, dtype=float), 0, x[0])  # ep is [t0, T1, T2 ...]
         ep = _np.cumsum(ep)  # [t0, t1, t2, ...]
 
         # 2 - we compute the ephemerides
-- 
2.43.0


From d36e44acf3a3f00ab627c92b2fc4007253ee4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 33/42] fix: MGA trajectories report the arrival date when
 asked beyond it

---
 pykep/trajopt/_mga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index e7c079f..6181e06 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -384,7 +384,7 @@ class mga:
                         "Ephemerides out-of-bounds, requested at mjd2000 "
                         + str(mjd2000)
                         + " which is after the arrival date "
-                        + str(self.mjd2000s[0])
+                        + str(self.mjd2000s[-1])
                     )
 
                 if mjd2000 == self.mjd2000s[0]:
-- 
2.43.0


From cd8e6a626c66587f2e8ea657849350bbb3ab3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:04 +0000
Subject: [PATCH 34/42] fix: mga.plot draws the Lambert arcs with the requested
 number of points

---
 pykep/trajopt/_mga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index 6181e06..fc511ce 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -492,10 +492,10 @@ class mga:
         
         if len(leg_ids) == 0:
             for lp in lps:
-                _pk.plot.add_lambert(ax, lp, N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lp, N = N, sol = 0, units=units, c=c, **kwargs)
         else:
             for leg_id in leg_ids:
-                _pk.plot.add_lambert(ax, lps[leg_id], N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lps[leg_id], N = N, sol = 0, units=units, c=c, **kwargs)
 
         return ax
 
-- 
2.43.0


From 6f32020b6f3e9e5d1086a6e1a8312545a98efe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 35/42] fix: Neptune can be added to a plot of the solar system
 (undefined name), with its own size

---
 pykep/plot/_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/plot/_planet.py b/pykep/plot/_planet.py
index 32a0446..870c4f8 100644
--- a/pykep/plot/_planet.py
+++ b/pykep/plot/_planet.py
@@ -179,6 +179,6 @@ def add_solar_system(
             label="",
             plot_range=[-40000, -40000 + 164.8 * 365.25],
         )
-        _pk.plot.add_planet(ax, neptune, when=ep, c="orchid", s=s[7], label = "Neptune")
+        _pk.plot.add_planet(ax, neptune, when=when, c="orchid", s=s[8], label = "Neptune")
 
     return ax
-- 
2.43.0


From 40862d995292034777273792ab2a31305b6fbdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 36/42] fix: direct problems plot end points and planets in the
 requested units

---
 pykep/trajopt/_direct_pl2pl.py       | 12 ++++++------
 pykep/trajopt/_direct_point2point.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pykep/trajopt/_direct_pl2pl.py b/pykep/trajopt/_direct_pl2pl.py
index d35acd0..5a4157f 100644
--- a/pykep/trajopt/_direct_pl2pl.py
+++ b/pykep/trajopt/_direct_pl2pl.py
@@ -324,14 +324,14 @@ class direct_pl2pl:
             ax = _pk.plot.make_3Daxis(figsize=(7, 7))
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting planets
-        ax = _pk.plot.add_planet(ax, self.pls, when=x[0])
-        ax = _pk.plot.add_planet_orbit(ax, self.pls, c="gray", alpha=0.5)
-        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1])
-        ax = _pk.plot.add_planet_orbit(ax, self.plf, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.pls, when=x[0], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.pls, units=units, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.plf, units=units, c="gray", alpha=0.5)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
diff --git a/pykep/trajopt/_direct_point2point.py b/pykep/trajopt/_direct_point2point.py
index 4a7207a..8fc0776 100644
--- a/pykep/trajopt/_direct_point2point.py
+++ b/pykep/trajopt/_direct_point2point.py
@@ -237,8 +237,8 @@ class direct_point2point:
 
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
-- 
2.43.0


From 0039e67b1a3e00374fed0371ff64e9be5460b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 37/42] fix: Lambert arcs of clockwise and out of plane
 transfers are plotted up to the arrival point

---
 pykep/plot/_lambert.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pykep/plot/_lambert.py b/pykep/plot/_lambert.py
index 14ec8f0..da1acf1 100644
--- a/pykep/plot/_lambert.py
+++ b/pykep/plot/_lambert.py
@@ -54,12 +54,10 @@ def add_lambert(ax, lp, N: int = 60, sol: int = 0, units=_pk.AU, **kwargs):
     # Compute the angle in radians (clipped to avoid domain errors due to floating point precision)
     theta = _np.arccos(_np.clip(cos_theta, -1.0, 1.0))
     
-    # Compute the cross product to determine the direction
-    cross_product = _np.cross(r0, r1)
-    
-    # Assuming motion is in the xy-plane (i.e., third component z gives the direction)
-    if cross_product[2] < 0:  # If the z-component is negative, the motion is clockwise
-        theta = 2 * _np.pi - theta  # Adjust the angle to account for counterclockwise motion
+    # If the motion (whose angular momentum is along r0 x v0) does not go from r0 to r1 the short way
+    # the transfer angle is the complementary one. This holds for clockwise transfers too.
+    if _np.dot(_np.cross(r0, r1), _np.cross(r0, v0)) < 0:
+        theta = 2 * _np.pi - theta
     
     # We define the integration grid
     if sol == 0:
-- 
2.43.0


From c0ec74559fa0956ae1ba632048d1fbd9aae5ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 38/42] fix: Sims-Flanagan legs without forward or backward
 segments can be plotted with midpoints and throttles

---
 pykep/plot/_sf_leg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0b6192..f709df6 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -91,8 +91,9 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=dt / 2, mu=sf.mu, stm=False)
         pos_fwd.append(rv[0])
     pos_fwd = _np.array(pos_fwd)
-    pos_m_fwd = _np.array(pos_m_fwd)
-    throttles_fwd = _np.array(throttles_fwd)
+    # (N,3) also when there is no forward segment
+    pos_m_fwd = _np.array(pos_m_fwd).reshape((-1, 3))
+    throttles_fwd = _np.array(throttles_fwd).reshape((-1, 3))
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
@@ -157,8 +158,9 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=-dt / 2, mu=sf.mu, stm=False)
         pos_bck.append(rv[0])
     pos_bck = _np.array(pos_bck)
-    pos_bck_m = _np.array(pos_bck_m)
-    throttles_bck = _np.array(throttles_bck)
+    # (N,3) also when there is no backward segment
+    pos_bck_m = _np.array(pos_bck_m).reshape((-1, 3))
+    throttles_bck = _np.array(throttles_bck).reshape((-1, 3))
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
-- 
2.43.0


From 07bb0fea203802e1ebb1eecc116cce50d7929d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 39/42] fix: thrusts of the backward segments of high-fidelity
 legs are plotted on their own segments

---
 pykep/plot/_sf_leg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index f709df6..04f0b50 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -315,7 +315,9 @@ def add_sf_hf_leg(
             current_states = state_history_bck[
                 i * N : (i + 1) * N, 0:3
             ]
-            current_throttles = throttles_bck[:, i * 3 : (i + 1) * 3]
+            current_throttles = throttles_bck[
+                :, (nseg_bck - i - 1) * 3 : (nseg_bck - i) * 3
+            ]
             current_quiver_tips = current_states / units + current_throttles * length
             ax.quiver(
                 current_states[:, 0] / units,
-- 
2.43.0


From 337096e0a59c61ce15a7796c61aa369269d45733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 40/42] fix: pykep planet.eph_v reads past the end of a
 user-defined eph_v's values

The (n, 6) array returned by planet.eph_v was laid over the udpla's values without
checking that there are six per epoch: a Python udpla returning fewer made it read
past the end of the buffer, one returning more had its values silently truncated.
---
 pykep/core.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 57e72aa..f5b1834 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -212,6 +212,12 @@ PYBIND11_MODULE(core, m) // NOLINT
         "eph_v",
         [](const kep3::planet &pl, const std::vector<double> &eps) {
             std::vector<double> res = pl.eph_v(eps);
+            // A udpla coded in Python may return anything: the (n, 6) array below must not go past the returned values.
+            if (res.size() != eps.size() * 6u) {
+                pykep::py_throw(PyExc_ValueError, ("eph_v() returned " + std::to_string(res.size()) + " values for "
+                                                   + std::to_string(eps.size()) + " epochs: six per epoch are expected")
+                                                      .c_str());
+            }
             // We create a capsule for the py::array_t to manage ownership change.
             auto vec_ptr = std::make_unique<std::vector<double>>(std::move(res));
 
-- 
2.43.0


From c27b38264f7b9752862ac16dc7de0672feaa5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:25 +0000
Subject: [PATCH 41/42] fix: de440s.kernel_file and body_list are static
 methods, as documented, and can be called on an instance

---
 pykep/udpla/_spice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykep/udpla/_spice.py b/pykep/udpla/_spice.py
index d5f0687..cc9d65c 100644
--- a/pykep/udpla/_spice.py
+++ b/pykep/udpla/_spice.py
@@ -118,6 +118,7 @@ class de440s(spice):
         """
         return self.body + " - de440s"
     
+    @staticmethod
     def kernel_file():
         """The full path for the kernel file "de440s.bsp" shipped in `pykep`
 
@@ -128,6 +129,7 @@ class de440s(spice):
         path = str(pk_path / "data" /"de440s.bsp")
         return path
     
+    @staticmethod
     def body_list():
         """The list of bodies contained in the de440s ephemerides. 
         This is a static method and can be queried before constructing the object.
-- 
2.43.0


From 7d2d1ed5c53a396ac2eb2c478bcf257a4352b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:25 +0000
Subject: [PATCH 42/42] fix: copies and unpickled objects of de440s load their
 kernel, so that destroying them does not unload it from under the others

---
 pykep/udpla/_spice.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykep/udpla/_spice.py b/pykep/udpla/_spice.py
index cc9d65c..c43e14b 100644
--- a/pykep/udpla/_spice.py
+++ b/pykep/udpla/_spice.py
@@ -104,6 +104,13 @@ class de440s(spice):
         pk.utils.load_spice_kernels(self.kernel)
         spice.__init__(self, body, ref_frame = ref_frame, obs = obs)
 
+    def __setstate__(self, state):
+        """Restores a copied or unpickled object.
+       Each object unloads the kernel when destroyed, hence each must have loaded it.
+        """
+        self.__dict__.update(state)
+        pk.utils.load_spice_kernels(self.kernel)
+
     def __del__(self):
         """Destructor.
        Unloads the kernel from memory as not needed anymore.
-- 
2.43.0

