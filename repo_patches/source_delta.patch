From 3da6b6d02aef07ef8968e79e5010426bc655e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:36 +0000
Subject: [PATCH 01/37] fix: fluxes.cpp defined D_RUS twice, so the flux
 solvers did not compile

---
 code/cpp/src/solvers/fv/fluxes.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..abfef71 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -73,14 +73,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   flux(f, qR, d, MP);
   return f;
 }
-
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From ed23a3bcb3b3947b456f6f6872aae79db49459cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:22 +0000
Subject: [PATCH 02/37] fix: acoustic tensor took the density and pressure
 terms of the x direction for every direction

max_abs_eigs(Q, d) was wrong for d > 0, so the CFL time step and the Rusanov
dissipation across y faces were too small or too large
---
 code/cpp/src/system/eig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
-- 
2.43.0


From d7598a349b9ac5b4df634a8aca01cdf0a9d910af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:58 +0000
Subject: [PATCH 03/37] fix: the derivative of the temperature by the density
 left out the reference temperature

---
 code/cpp/src/system/energy/mg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/energy/mg.cpp b/code/cpp/src/system/energy/mg.cpp
index d045dce..5f7ccb5 100644
--- a/code/cpp/src/system/energy/mg.cpp
+++ b/code/cpp/src/system/energy/mg.cpp
@@ -283,14 +283,14 @@ double dTdρ(double ρ, double p, Params &MP) {
 
   // TODO: update for multi (required for THERMAL mixtures)
 
-  // TODO: add Tref * dφ
-
   double cv = MP.cv;
   double Γ = Γ_MG(ρ, MP);
   double dΓ = dΓ_MG(ρ, MP);
   double pr = p_ref(ρ, MP);
   double dpr = dp_ref(ρ, MP);
-  return -(dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
+  double dφ = Γ / ρ * φ(ρ, MP);
+  return MP.Tref * dφ -
+         (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
 }
 
 double dTdp(double ρ, Params &MP) {
-- 
2.43.0


From 30dd03480cc220f6358779af1008dfe771663672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:34 +0000
Subject: [PATCH 04/37] fix: the cubic's angle was taken in the wrong quadrant
 by the analytic distortion solver

---
 code/cpp/src/system/relaxation/analytic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..d533db0 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -108,7 +108,7 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
       double tmp = cbrt(54. * Δ);
       x1 = tmp / 6. + u / tmp + m;
     } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
+      double θ = atan2(sqrt(arg1), 9. * Δ);
       x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
     }
     double tmp2 = 3. * m - x1;
-- 
2.43.0


From 90911c89138b9fdfd3b4a832aab736b62200ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:17 +0000
Subject: [PATCH 05/37] fix: the analytic relaxation of fluids took the shear
 wave speed at the reference density

---
 code/cpp/src/system/relaxation/analytic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index d533db0..52164fc 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -19,9 +19,10 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 
   // TODO: implement mixing of μ
 
+  double cs2 = c_s2(ρ, MP);
+
   if (MP.POWER_LAW) {
     double n = MP.n;
-    double cs2 = c_s2(ρ, MP);
     double a = 9. * m0 - u0 - 9.;
     double b = 6. * m0 - u0 - 6.;
 
@@ -59,13 +60,13 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
-      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
+      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * cs2);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
     }
   } else
-    return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
+    return MP.ρ0 * cs2 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
-- 
2.43.0


From b6b6593a668816d3ca07c0f85470951ef6c66a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:17 +0000
Subject: [PATCH 06/37] fix: the analytic distortion solver gave nan for power
 law fluids with n >= 1

---
 code/cpp/src/system/relaxation/analytic.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 52164fc..36d94c0 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <limits>
 
 #include "eigen3/SVD"
 
@@ -61,9 +62,14 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
       double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * cs2);
-      tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
+      tmp1 = std::pow(detA3, 4. * k + 7.) / τ1;
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
-      return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
+      double x = k * λ * tmp1 * tmp2 * dt;
+      if (x <= -1.) // n > 1: the stress vanishes within a finite time
+        return std::numeric_limits<double>::infinity();
+      if (std::abs(x) < 1e-9) // n = 1 (or a very short step)
+        return 2. * tmp1 * tmp2 * dt;
+      return 2. / (k * λ) * log(x + 1.);
     }
   } else
     return MP.ρ0 * cs2 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
-- 
2.43.0


From 3d0ed91b4002d789d741bec6d96e844428beef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:17 +0000
Subject: [PATCH 07/37] fix: elastic solids were relaxed by the analytic
 distortion solver

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 36d94c0..1161ee4 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -76,6 +76,10 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
+
+  if (MP.SOLID && !MP.POWER_LAW) // elastic solids do not relax
+    return;
+
   Mat3_3Map A(Q.data() + 5);
   Eigen::JacobiSVD<Mat3_3> svd(A, Eigen::ComputeFullV | Eigen::ComputeFullU);
 
-- 
2.43.0


From 5567e9eedb4b383c7ed94b7a99f8a03b5bf90c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:18 +0000
Subject: [PATCH 08/37] fix: the relaxation source of an unstressed power law
 fluid with n > 1 was nan

---
 code/cpp/src/system/variables/sources.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/system/variables/sources.cpp b/code/cpp/src/system/variables/sources.cpp
index 1a0d8ad..4ab47f4 100644
--- a/code/cpp/src/system/variables/sources.cpp
+++ b/code/cpp/src/system/variables/sources.cpp
@@ -73,6 +73,8 @@ double theta1inv(VecVr Q, Par &MP) {
     if (MP.POWER_LAW) {
       Mat3_3 σ = sigma(Q, MP);
       sn = σ.norm() / sqrt(2.);
+      if (sn == 0.) // pow is infinite for n > 1
+        return 0.;
 
       return c * pow(sn, (1 - n) / n);
     } else
-- 
2.43.0


From 9b435d09310bdeb4051936c1d415405b131b590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 09/37] fix: flux overwrote the reactant's entry instead of
 adding to it

---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From 242a770c1f3edae24aedc470c029fd93a90b748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:03 +0000
Subject: [PATCH 10/37] fix: the oscillation indicator was summed onto
 uninitialised memory

---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 98b926b61659fbb9f0d4c8b040ffb369a7e0c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 11/37] fix: central WENO stencils reached into the corners
 excluded by NO_CORNERS

---
 code/cpp/src/solvers/weno/weno.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index b6c2c38..1af4299 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -60,11 +60,11 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
     den += oR;
   }
   if (N > 2) {
-    if (ind + FN2 >= gap) {
+    if (ind + FN2 >= gap && ind + FN2 <= nx + N - 2 - gap) {
       num.array() += wCL.array().rowwise() * oCL.transpose().array();
       den += oCL;
     }
-    if ((N % 2 == 0) && (ind - FN2 <= nx - gap - 1)) {
+    if ((N % 2 == 0) && ind + CN2 >= gap && ind - FN2 <= nx - gap - 1) {
       num.array() += wCR.array().rowwise() * oCR.transpose().array();
       den += oCR;
     }
-- 
2.43.0


From b724b8c0ec6e5534d6efffb98fa262245d4a3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 12/37] fix: Roe and Osher fluxes were wrong where the
 eigenvectors of the contact waves were found dependent

---
 code/cpp/src/solvers/fv/fluxes.cpp | 42 ++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index abfef71..bd0b59f 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -19,25 +19,41 @@ VecV Bint(VecVr qL, VecVr qR, int d, Par &MP) {
   return ret;
 }
 
+VecV abs_dot(const MatV_V &J, const VecV &x, double v) {
+  // Returns |J| * x, where v is the (repeated) eigenvalue of the contact waves
+  // NOTE: (J - v) * x is expanded in the eigenvectors of the other waves, as
+  //       those found for the repeated eigenvalue may be linearly dependent.
+  //       J is shifted, as the solver may not converge if v is 0.
+  double c = sqrt(std::abs((J * J).trace()));
+  Eigen::EigenSolver<MatV_V> es(J + c * MatV_V::Identity());
+  VeccV λ = es.eigenvalues().array() - c;
+  auto R = es.eigenvectors();
+  VeccV s = VeccV::Zero();
+  double tol = 1e-6 * c;
+
+  for (int i = 0; i < V; i++) {
+    if (std::abs(λ(i) - v) > tol)
+      s(i) = (std::abs(λ(i)) - std::abs(v)) / (λ(i) - v);
+    else
+      R.col(i).setZero();
+  }
+  VecV y = J * x - v * x;
+  VeccV b = R.colPivHouseholderQr().solve(VeccV(y)).array() * s.array();
+  return (R * b).real() + std::abs(v) * x;
+}
+
 VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
-  VeccV ret = VeccV::Zero();
+  VecV f = VecV::Zero();
   VecV Δq = qL - qR;
-  VeccV Δqc = VeccV(Δq);
-  Eigen::EigenSolver<MatV_V> es;
 
   VecV q;
-  VeccV b;
   MatV_V J;
   for (int i = 0; i < N; i++) {
     q = qR + NODES(i) * Δq;
     J = system_matrix(q, d, MP);
-    es.compute(J);
-    b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
-        es.eigenvalues().array().abs();
-    ret += WGHTS(i) * (es.eigenvectors() * b);
+    f += WGHTS(i) * abs_dot(J, Δq, q(2 + d) / q(0));
   }
-  VecV f = ret.real();
   flux(f, qL, d, MP);
   flux(f, qR, d, MP);
   return f;
@@ -46,18 +62,16 @@ VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
 VecV D_ROE(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
   VecV Δq = qL - qR;
-  VeccV Δqc = VeccV(Δq);
   VecV q;
   MatV_V J = MatV_V::Zero();
+  double v = 0.;
   for (int i = 0; i < N; i++) {
     q = qR + NODES(i) * Δq;
+    v += WGHTS(i) * q(2 + d) / q(0);
     J += WGHTS(i) * system_matrix(q, d, MP);
   }
-  Eigen::EigenSolver<MatV_V> es(J);
-  VeccV b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
-            es.eigenvalues().array().abs();
 
-  VecV f = (es.eigenvectors() * b).real();
+  VecV f = abs_dot(J, Δq, v);
   flux(f, qL, d, MP);
   flux(f, qR, d, MP);
   return f;
-- 
2.43.0


From 8d9fc68a68eaf64a829702f4ab0a0b00daf04236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:51 +0000
Subject: [PATCH 13/37] fix: symmetric boundaries did not reverse the normal
 thermal impulse

---
 code/cpp/src/etc/grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/etc/grid.cpp b/code/cpp/src/etc/grid.cpp
index c2a7fc6..09d01da 100644
--- a/code/cpp/src/etc/grid.cpp
+++ b/code/cpp/src/etc/grid.cpp
@@ -57,6 +57,8 @@ void boundaries1(Matr u, Matr ub, int nx, iVecr boundaryTypes, int d) {
     for (int i = 0; i < N; i++) {
       ub.row(i) = u.row(N - 1 - i);
       ub(i, 2 + d) *= -1.;
+      if (THERMAL)
+        ub(i, 14 + d) *= -1.;
       Mat3_3Map A = get_A(ub.row(i));
       A.row(d) *= -1.;
       A.col(d) *= -1.;
@@ -116,6 +118,8 @@ void boundaries1(Matr u, Matr ub, int nx, iVecr boundaryTypes, int d) {
       int ind = i + nx + N;
       ub.row(ind) = u.row(nx - 1 - i);
       ub(ind, 2 + d) *= -1.;
+      if (THERMAL)
+        ub(ind, 14 + d) *= -1.;
       Mat3_3Map A = get_A(ub.row(ind));
       A.row(d) *= -1.;
       A.col(d) *= -1.;
-- 
2.43.0


From 1237ff1ee32e2d2e280724f9872d27fc804812e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 14/37] fix: Newton-Krylov solver did not stop at convergence
 on solutions of less than unit size

---
 code/cpp/src/scipy/newton_krylov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/newton_krylov.cpp b/code/cpp/src/scipy/newton_krylov.cpp
index 7c5a5d4..5fff4b5 100644
--- a/code/cpp/src/scipy/newton_krylov.cpp
+++ b/code/cpp/src/scipy/newton_krylov.cpp
@@ -163,7 +163,7 @@ Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol,
       break;
 
     double tol = std::min(eta, eta * Fx_norm);
-    Vec dx = -jacobian.solve(Fx, tol);
+    dx = -jacobian.solve(Fx, tol);
 
     _nonlin_line_search(F, x, Fx, dx);
     double Fx_norm_new = Fx.norm();
-- 
2.43.0


From 3c4d06a4330f58aec9fc3c0ffc6016fc910475fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 15/37] fix: predictor left cells undefined whose iterations
 did not converge

---
 code/cpp/src/solvers/dg/dg1.cpp           | 22 ++++++++++++--------
 code/cpp/src/solvers/dg/dg2.cpp           | 25 ++++++++++++-----------
 code/cpp/src/solvers/dg/initial_guess.cpp |  3 ++-
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..36ab931 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -87,6 +87,7 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
 
         Mat q1(N * N, V);
         aMat absDiff(N * N, V);
+        bool solved = false;
 
         for (int count = 0; count < DG_IT; count++) {
 
@@ -94,20 +95,23 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
 
           absDiff = (q1 - q0).array().abs();
 
-          if ((absDiff > DG_TOL * (1 + q0.array().abs())).any()) {
-            q0 = q1;
-            continue;
-          } else if (q1.array().isNaN().any()) {
-            stiff_initial_guess(q0, wi, N, dt, MP);
-            VecMap q0v(q0.data(), N * N * V);
-            qh.segment<N * N * V>(ind * N * N * V) =
-                nonlin_solve(obj_bound, q0v, DG_TOL);
+          if (q1.array().isNaN().any())
             break;
-          } else {
+          else if ((absDiff > DG_TOL * (1 + q0.array().abs())).any())
+            q0 = q1;
+          else {
             qi = q1;
+            solved = true;
             break;
           }
         }
+
+        if (!solved) {
+          stiff_initial_guess(q0, wi, N, dt, MP);
+          VecMap q0v(q0.data(), N * N * V);
+          qh.segment<N * N * V>(ind * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..4a31e8f 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -138,6 +138,7 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
 
         Mat q1(N * N * N, V);
         aMat absDiff(N * N * N, V);
+        bool solved = false;
 
         for (int count = 0; count < DG_IT; count++)
         {
@@ -146,25 +147,25 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
 
           absDiff = (q1 - q0).array().abs();
 
-          if ((absDiff > DG_TOL * (1 + q0.array().abs())).any())
-          {
-            q0 = q1;
-            continue;
-          }
-          else if (q1.array().isNaN().any())
-          {
-            stiff_initial_guess(q0, wi, N * N, dt, MP);
-            VecMap q0v(q0.data(), N * N * N * V);
-            qh.segment(ind * N * N * N * V, N * N * N * V) =
-                nonlin_solve(obj_bound, q0v, DG_TOL);
+          if (q1.array().isNaN().any())
             break;
-          }
+          else if ((absDiff > DG_TOL * (1 + q0.array().abs())).any())
+            q0 = q1;
           else
           {
             qi = q1;
+            solved = true;
             break;
           }
         }
+
+        if (!solved)
+        {
+          stiff_initial_guess(q0, wi, N * N, dt, MP);
+          VecMap q0v(q0.data(), N * N * N * V);
+          qh.segment(ind * N * N * N * V, N * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..b2ddb9c 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,8 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  for (int i = 0; i < N; i++)
+    q.block(i * NT, 0, NT, V) = w;
   /*
 Mat qt = w;
 
-- 
2.43.0


From c197c8e12486cafbcc407bd735ae812f0786a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:39 +0000
Subject: [PATCH 16/37] fix: rotated distortions could become reflected, with a
 negative determinant

---
 code/cpp/src/solvers/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/solvers/utils.cpp b/code/cpp/src/solvers/utils.cpp
index a681a34..6a1d449 100644
--- a/code/cpp/src/solvers/utils.cpp
+++ b/code/cpp/src/solvers/utils.cpp
@@ -34,6 +34,8 @@ void rotate_distortion(Vecr u, std::vector<Par> &MPs) {
 
       Vec3 s = svd.singularValues();
       A = svd.matrixV();
+      if (A.determinant() < 0.) // keep the volume, detA > 0
+        A.col(2) *= -1.;
 
       for (int j = 0; j < 3; j++)
         u.segment<3>(i * V + 5 + 3 * j) = s(j) * A.col(j);
-- 
2.43.0


From e17f3762c3627ab2905cc2d32bb6c919ede7c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 17/37] fix: wave speed of a state without a sound speed was
 read from uninitialised memory

---
 code/cpp/src/system/eig.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index ce3d9a0..ea3396f 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "energy/mg.h"
 #include "functions/matrices.h"
 #include "functions/vectors.h"
@@ -69,6 +71,10 @@ double max_abs_eigs(VecVr Q, int d, Par &MP) {
   Mat Ξ = thermo_acoustic_tensor(Q, d, MP);
   double vd = Q(2 + d) / Q(0);
 
+  // Eigen leaves the eigenvalues undefined if the matrix is not finite
+  if (!Ξ.allFinite())
+    return std::numeric_limits<double>::quiet_NaN();
+
   double lam = sqrt(Ξ.eigenvalues().array().abs().maxCoeff());
   if (vd > 0)
     return vd + lam;
-- 
2.43.0


From 7a6e0d87f4d3903923d3eda73e34c981fb554df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 18/37] fix: frames of a run that became undefined near its end
 were stored out of range

---
 code/cpp/src/solvers/iterator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..5f5e734 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,6 +159,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
+      pushCount = std::min(pushCount, 98);
       ret[pushCount] = uprev;
       ret[pushCount + 1] = u;
       return ret;
-- 
2.43.0


From 2c7c693265bffbe5364f617e0dc10b831f3f5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:54 +0000
Subject: [PATCH 19/37] fix: 2D steps with several threads treated the edges of
 each thread's rows as those of the domain

---
 code/cpp/src/solvers/steppers.cpp  | 34 +++++++++++++++++++++---------
 code/cpp/src/solvers/weno/weno.cpp | 29 +++++++++++++++----------
 code/cpp/src/solvers/weno/weno.h   |  2 ++
 3 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/code/cpp/src/solvers/steppers.cpp b/code/cpp/src/solvers/steppers.cpp
index e095a87..a39c452 100644
--- a/code/cpp/src/solvers/steppers.cpp
+++ b/code/cpp/src/solvers/steppers.cpp
@@ -7,20 +7,26 @@
 #include "split/ode.h"
 #include "weno/weno.h"
 
-void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
-                  int FLUX, Par &MP, bVecr mask) {
+void ader_share(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                int FLUX, Par &MP, bVecr mask, int nx, int start) {
+  // Steps the rows from start on, of a domain of nx rows
 
   int ndim = nX.size();
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
   Vec qh(extended_dimensions(nX, 1) * int(pow(N, ndim + 1)) * V);
 
-  weno_launcher(wh, ub, nX, MP);
+  weno_share(wh, ub, nX, MP, nx, start);
 
   predictor(qh, wh, dt, dX, STIFF, false, MP, mask);
 
   fv_launcher(u, qh, nX, dt, dX, true, true, FLUX, MP, mask);
 }
 
+void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                  int FLUX, Par &MP, bVecr mask) {
+  ader_share(u, ub, nX, dt, dX, STIFF, FLUX, MP, mask, nX(0), 0);
+}
+
 void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                        bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -39,23 +45,25 @@ void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     iVec nX0 = nX;
     nX0(0) = finish - start;
 
-    ader_stepper(
+    ader_share(
         u.segment(start * uRowSize, (finish - start) * uRowSize),
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize),
         nX0, dt, dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        nx, start);
   }
 }
 
-void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
-                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+void split_share(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool HALF_STEP,
+                 int FLUX, Par &MP, bVecr mask, int nx, int start) {
+  // Steps the rows from start on, of a domain of nx rows
 
   int ndim = nX.size();
   ode_launcher(u, dt / 2, MP);
   ode_launcher(ub, dt / 2, MP);
 
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
-  weno_launcher(wh, ub, nX, MP);
+  weno_share(wh, ub, nX, MP, nx, start);
 
   if (HALF_STEP)
     midstepper(wh, dt, dX, MP, mask);
@@ -65,6 +73,11 @@ void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
   ode_launcher(u, dt / 2, MP);
 }
 
+void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+  split_share(u, ub, nX, dt, dX, HALF_STEP, FLUX, MP, mask, nX(0), 0);
+}
+
 void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                         bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -86,9 +99,10 @@ void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     Vec ub_ =
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize);
 
-    split_stepper(
+    split_share(
         u.segment(start * uRowSize, (finish - start) * uRowSize), ub_, nX0, dt,
         dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        nx, start);
   }
 }
diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index 1af4299..c39b5db 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -72,15 +72,17 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   ret.array() = num.array().rowwise() / den.transpose().array();
 }
 
-void weno1(Matr wh, Matr ub, int nx, int gap) {
+void weno1(Matr wh, Matr ub, int nx, int gap, int nxAll, int start) {
   // Returns the WENO reconstruction of u using polynomials in x
   // Shape of ub: (nx + 2(N-1), V)
   // Shapw of wh: (nx * N, V)
+  // These nx cells are those from start on, of the nxAll cells of the domain
   for (int i = 0; i < nx; i++)
-    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gap, i);
+    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nxAll, gap,
+           start + i);
 }
 
-void weno2(Matr wh, Matr ub, int nx, int ny) {
+void weno2(Matr wh, Matr ub, int nx, int ny, int nxAll, int start) {
   // Returns the WENO reconstruction of u using polynomials in y
   // Size of ub: (nx + 2(N-1)) * (ny + 2(N-1)) * V
   // Size of wh: nx * ny * N * N * V
@@ -97,9 +99,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                  OuterStride((ny + 2 * (N - 1)) * N * V));
 
     if (NO_CORNERS && (j < N || j >= ny + 2 * (N - 1) - N))
-      weno1(tmp0, ubMap, nx, N);
+      weno1(tmp0, ubMap, nx, N, nxAll, start);
     else
-      weno1(tmp0, ubMap, nx, 0);
+      weno1(tmp0, ubMap, nx, 0, nxAll, start);
     uxMap = tmp0Map;
   }
 
@@ -113,18 +115,19 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
       MatMap whMap(wh.data() + (i * ny * N + ii) * N * V, ny, N * V,
                    OuterStride(N * N * V));
 
-      if (NO_CORNERS && (i == 0 || i == nx - 1))
-        weno1(tmp1, uxMap, ny, 1);
+      if (NO_CORNERS && (start + i == 0 || start + i == nxAll - 1))
+        weno1(tmp1, uxMap, ny, 1, ny, 0);
       else
-        weno1(tmp1, uxMap, ny, 0);
+        weno1(tmp1, uxMap, ny, 0, ny, 0);
       whMap = tmp1Map;
     }
   // TODO: make this n-dimensional by turning these two sets of for loops into
   // n sets of for loops, contained within a large loop over the dimensions
 }
 
-void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+void weno_share(Vecr wh, Vecr ub, iVecr nX, Par &MP, int nx, int start) {
   // NOTE: boundary conditions extend u by two cells in each dimension
+  // nX covers the rows from start on, of the nx rows of the domain
 
   int ndim = nX.size();
 
@@ -143,11 +146,11 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
   switch (ndim) {
 
   case 1:
-    weno1(whMap, ubMap, nX(0) + 2, 0);
+    weno1(whMap, ubMap, nX(0) + 2, 0, nx + 2, start);
     break;
 
   case 2:
-    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2);
+    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2, nx + 2, start);
     break;
   }
 
@@ -155,3 +158,7 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
     for (int i = 0; i < nwh; i++)
       Cvec(wh.segment<V>(i * V), MP);
 }
+
+void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+  weno_share(wh, ub, nX, MP, nX(0), 0);
+}
diff --git a/code/cpp/src/solvers/weno/weno.h b/code/cpp/src/solvers/weno/weno.h
index 56def22..278d935 100644
--- a/code/cpp/src/solvers/weno/weno.h
+++ b/code/cpp/src/solvers/weno/weno.h
@@ -3,6 +3,8 @@
 
 #include "../../etc/globals.h"
 
+void weno_share(Vecr wh, Vecr ub, iVecr nX, Par &MP, int nx, int start);
+
 void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP);
 
 #endif // WENO_H
-- 
2.43.0


From 2ead34ff963872c1d1197b039fe89b3e76a6516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 20/37] fix: keep level sets without an interface when
 measuring distances

The marcher gives up on them, and the zeros left in their place made every
cell switch material.
---
 code/cpp/src/multi/pfmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..5267f03 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,6 +20,8 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  if (marcher->getError())
+    dist = phi; // no interface to measure the distance from
   delete marcher;
 
   return dist;
-- 
2.43.0


From 44875e84576e01b876a0ee31ba6bfc3b6e7d0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 21/37] fix: give cells equidistant from several interfaces a
 normal

Dividing by the norm of a zero gradient gave NaN, and cell indices out of
range when the interface's position was derived from it.
---
 code/cpp/src/multi/functions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/multi/functions.cpp b/code/cpp/src/multi/functions.cpp
index ba93b6d..ea5ea3c 100644
--- a/code/cpp/src/multi/functions.cpp
+++ b/code/cpp/src/multi/functions.cpp
@@ -11,7 +11,13 @@ int sign(double x) {
     return 1;
 }
 
-Vec normal(Vecr Δφ) { return Δφ / Δφ.norm(); }
+Vec normal(Vecr Δφ) {
+  double norm = Δφ.norm();
+  if (norm > 0.)
+    return Δφ / norm;
+  else // equidistant from several interfaces: any direction will do
+    return Vec::Unit(Δφ.size(), 0);
+}
 
 void finite_difference(Matr Δφ, Vecr φ, aVecr dX, iVec nX) {
   // Δφ[i,j,..][d] is the derivative in the dth direction in cell (i,j,...)
-- 
2.43.0


From 53741371adda6882a2b4b06368710d354fb0e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 22/37] fix: rotate the body force along with the states of the
 Riemann problem
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With RIEMANN_RELAXATION, δp acted along the interface's normal instead of
the x-axis.
---
 code/cpp/src/system/multi/riemann.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index b3be715..70c276b 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -211,14 +211,19 @@ VecV left_star_state(VecV QL_, VecV QR_, Par &MPL, Par &MPR, double dt,
   rotate_tensors(QL_, R);
   rotate_tensors(QR_, R);
 
+  Par MPL_ = MPL;
+  Par MPR_ = MPR;
+  MPL_.δp = R * MPL.δp;
+  MPR_.δp = R * MPR.δp;
+
   int count = 0;
 
   while (!check_star_convergence(QL_, QR_, MPL, MPR) and count < IT_LIM) {
 
     if (RIEMANN_RELAXATION) {
-      ode_stepper_analytic(QL_, dt / 2, MPL);
+      ode_stepper_analytic(QL_, dt / 2, MPL_);
       if (MPR.EOS > -1)
-        ode_stepper_analytic(QR_, dt / 2, MPR);
+        ode_stepper_analytic(QR_, dt / 2, MPR_);
     }
     star_stepper(QL_, QR_, MPL, MPR);
 
-- 
2.43.0


From ec14871b56c71ae078afe7f103cc1e764c29f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 23/37] fix: keep to the domain when filling ghost cells

Interfaces near the domain's edges put the probes for the states beside them
out of range. So did the search along the grid's axes, which also ran in 1D,
where it read a second component of the normal and indices.
---
 code/cpp/src/multi/fill.cpp | 82 ++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 42 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..7be1a2c 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -93,6 +93,16 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+iVec in_domain(iVec inds, iVecr nX) {
+  // Returns the cell of the domain nearest to inds
+  return inds.array().max(0).min(nX.array() - 1);
+}
+
+iVec cell_at(aVec x, aVecr dX, iVecr nX) {
+  // Returns the cell of the domain nearest to the position x
+  return in_domain((x / dX).cast<int>(), nX);
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -105,9 +115,9 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  iVec xiVec = cell_at(xi, dX, nX);
+  iVec xLVec = cell_at(xL, dX, nX);
+  iVec xRVec = cell_at(xR, dX, nX);
 
   int ndim = nX.size();
   switch (ndim) {
@@ -149,44 +159,30 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
   else if (get_material_index(grid.segment<V>(bInds.L)) == mat)
     QL = grid.segment<V>(bInds.L);
 
-  else { // should only happen if ndim>1
-    iVec Linds = inds;
-    int Lind;
+  else if (inds.size() == 1)
+    QL = grid.segment<V>(indn * V);
 
+  else {
     // note: n points from left side to right
-    int n0 = sgn(n(0));
-    int n1 = sgn(n(1));
-
-    if (std::abs(n(0)) > std::abs(n(1))) {
-      Linds(0) -= n0;
-      Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
-        n(0) = n0;
-        n(1) = 0.;
-      } else {
-        Linds(0) += n0;
-        Linds(1) -= n1;
-        Lind = iVec_to_ind(Linds, nX(1));
-        n(0) = 0.;
-        n(1) = n1;
-      }
-    } else {
-      Linds(1) -= n1;
-      Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
-        n(0) = 0.;
-        n(1) = n1;
-      } else {
-        Linds(0) -= n0;
-        Linds(1) += n1;
-        Lind = iVec_to_ind(Linds, nX(1));
-        n(0) = n0;
-        n(1) = 0.;
-      }
-    }
-    if (get_material_index(grid.segment<V>(Lind)) == mat)
-      QL = grid.segment<V>(Lind);
-    else
+    iVec Linds0 = inds;
+    iVec Linds1 = inds;
+    Linds0(0) -= sgn(n(0));
+    Linds1(1) -= sgn(n(1));
+    Linds0 = in_domain(Linds0, nX);
+    Linds1 = in_domain(Linds1, nX);
+    int Lind0 = iVec_to_ind(Linds0, nX(1));
+    int Lind1 = iVec_to_ind(Linds1, nX(1));
+    bool mat0 = get_material_index(grid.segment<V>(Lind0)) == mat;
+    bool mat1 = get_material_index(grid.segment<V>(Lind1)) == mat;
+
+    // the larger component of n is tried first
+    if (mat0 && (std::abs(n(0)) > std::abs(n(1)) || !mat1)) {
+      QL = grid.segment<V>(Lind0);
+      n << sgn(n(0)), 0.;
+    } else if (mat1) {
+      QL = grid.segment<V>(Lind1);
+      n << 0., sgn(n(1));
+    } else
       QL = grid.segment<V>(indn * V);
   }
 
@@ -211,7 +207,9 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1);
+        int indn = (ind < nx - 1 && intMask(ind + 1) == -1) ? ind + 1 : ind - 1;
+        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
+                            indn);
       }
     }
     break;
@@ -244,7 +242,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = cell_at(xn, dX, nX);
 
   switch (ndim) {
   case 1:
@@ -259,7 +257,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   }
 
   // must fill from a border cell
-  if (intMask(newInd / V) < 1)
+  if (newInd == ind || intMask(newInd / V) < 1)
     newInd = indn * V;
   grid.segment<V - LSET>(ind) = grid.segment<V - LSET>(newInd);
 }
-- 
2.43.0


From ba48e9296be82c77a2889920ea20a35a45855e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 24/37] fix: fill boundary ghost cells one after another

They read states that others of them overwrite, so that ghost states depended
on how threads were scheduled.
---
 code/cpp/src/multi/fill.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 7be1a2c..cd2076b 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -215,7 +215,6 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
     break;
   case 2:
     int ny = nX(1);
-#pragma omp parallel for collapse(2) private(n)
     for (int i = 0; i < nx; i++)
       for (int j = 0; j < ny; j++) {
         int ind = i * ny + j;
-- 
2.43.0


From 50707404264657941ade60f64e17bbc3cefc85c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:13 +0000
Subject: [PATCH 25/37] fix: thermal slip conditions overwrote the coefficients
 of the left material and left those of the right one undefined

---
 code/cpp/src/system/multi/conditions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 1d3a1b4..6693cc3 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -37,7 +37,7 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     Mat YL(2, n1);
     Mat YR(2, n1);
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YL << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-- 
2.43.0


From 31fe1a5a17fbdd1d5a1aada885671d8a2e82e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:13 +0000
Subject: [PATCH 26/37] fix: star states of materials of different thermal
 impulse speeds had different heat fluxes, so their iteration did not converge

---
 code/cpp/src/system/multi/conditions.cpp | 21 +++++++++++++--------
 code/cpp/src/system/multi/conditions.h   |  7 +++++--
 code/cpp/src/system/multi/riemann.cpp    |  6 +++---
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 6693cc3..75ae7ff 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -4,8 +4,11 @@
 #include "../objects.h"
 #include "eigenvecs.h"
 
+// NOTE: at the interface the heat flux α^2*T*J and T are continuous, and thus
+// so is α^2*J.
+
 void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
-               Vecr xR)
+               Vecr xR, Par &MPL, Par &MPR)
 {
 
   Mat YL = RL.block<n1, n1>(11, 0);
@@ -22,27 +25,29 @@ void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
 
   if (THERMAL)
   {
-    yL(3) = QL(14) / QL(0);
-    yR(3) = QR(14) / QR(0);
+    YL.row(3) *= MPL.cα2;
+    YR.row(3) *= MPR.cα2;
+    yL(3) = MPL.cα2 * QL(14) / QL(0);
+    yR(3) = MPR.cα2 * QR(14) / QR(0);
   }
   x_ = (YL - YR).inverse() * (yR - yL + YL * xL - YR * xR);
 }
 
 void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
-              Vecr xR)
+              Vecr xR, Par &MPL, Par &MPR)
 {
 
   if (THERMAL)
   {
     Mat YL(2, n1);
     Mat YR(2, n1);
-    YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YL << RL.block<1, n1>(11, 0), MPL.cα2 * RL.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), MPR.cα2 * RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-    yL << QL(2) / QL(0), QL(14) / QL(0);
-    yR << QR(2) / QR(0), QR(14) / QR(0);
+    yL << QL(2) / QL(0), MPL.cα2 * QL(14) / QL(0);
+    yR << QR(2) / QR(0), MPR.cα2 * QR(14) / QR(0);
 
     Mat M(2, 2);
     M << YL.col(0) - YR.col(0), YL.col(n1 - 1) - YR.col(n1 - 1);
diff --git a/code/cpp/src/system/multi/conditions.h b/code/cpp/src/system/multi/conditions.h
index 2a14795..42829d9 100644
--- a/code/cpp/src/system/multi/conditions.h
+++ b/code/cpp/src/system/multi/conditions.h
@@ -2,9 +2,12 @@
 #define CONDITIONS_H
 
 #include "../../etc/types.h"
+#include "../objects.h"
 
-void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR);
+void stick_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR,
+               Par &MPL, Par &MPR);
 
-void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR);
+void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL, Vecr xR,
+               Par &MPL, Par &MPR);
 
 #endif // CONDITIONS_H
diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index 70c276b..eea73ab 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -85,7 +85,7 @@ MatV_V riemann_constraints(VecVr Q, double sgn, Par &MP) {
    * dΣ = dΣ/dρ * dρ + dΣ/dp * dp + dΣ/dA * dA
    * dT = dT/dρ * dρ + dT/dp * dp
    * v*L = v*R
-   * J*L = J*R
+   * (α^2*J)*L = (α^2*J)*R
    */
   MatV_V Rhat = eigen(Q, 0, MP);
 
@@ -176,9 +176,9 @@ void star_stepper(VecVr QL, VecVr QR, Par &MPL, Par &MPR) {
     Vec x_(n1);
 
     if (RIEMANN_STICK)
-      stick_bcs(x_, RL, RR, QL, QR, xL, xR);
+      stick_bcs(x_, RL, RR, QL, QR, xL, xR, MPL, MPR);
     else
-      slip_bcs(x_, RL, RR, QL, QR, xL, xR);
+      slip_bcs(x_, RL, RR, QL, QR, xL, xR, MPL, MPR);
 
     VecV cR = VecV::Zero();
     cL.head<n1>() = x_ - xL;
-- 
2.43.0


From 494fb88eb588e2aa4074eb4869a1f6385f9a5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:13 +0000
Subject: [PATCH 27/37] fix: star states of slip interfaces were taken to be
 converged while they had tangential tractions

---
 code/cpp/src/system/multi/riemann.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index eea73ab..e171d41 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -43,6 +43,8 @@ bool check_star_convergence(VecVr QL_, VecVr QR_, Par &MPL, Par &MPR) {
     } else {
       cond = std::abs(ΣL_(0) - ΣR_(0)) / (b02 * ρ0) < STAR_TOL;
       cond &= std::abs(vL_(0) - vR_(0)) / sqrt(b02) < STAR_TOL;
+      cond &= ΣL_.tail<2>().cwiseAbs().maxCoeff() / (b02 * ρ0) < STAR_TOL;
+      cond &= ΣR_.tail<2>().cwiseAbs().maxCoeff() / (b02 * ρ0) < STAR_TOL;
     }
   } else {
     double ρ0 = MPL.ρ0;
-- 
2.43.0


From 695ab3815911af12fe05bdbb941e89b8869d8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:13 +0000
Subject: [PATCH 28/37] fix: the constraints of star states were solved by a
 rank revealing decomposition, which dropped the pressure where tractions are
 large numbers

---
 code/cpp/src/system/multi/riemann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index e171d41..12df54c 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -134,7 +134,7 @@ MatV_V riemann_constraints(VecVr Q, double sgn, Par &MP) {
   }
 
   Mat b = Mat::Identity(5, n1);
-  Mat X = tmp.colPivHouseholderQr().solve(b);
+  Mat X = tmp.partialPivLu().solve(b);
 
   Mat Ξ1 = Xi1(ρ, p, Q, MP, 0);
   Mat Ξ2 = Xi2(ρ, p, Q, MP, 0);
-- 
2.43.0


From 165db2c949c35416300d825beedd3ee2cba9b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:13 +0000
Subject: [PATCH 29/37] fix: eigenvectors took the reference shear speed rather
 than that at the density of the state

---
 code/cpp/src/system/multi/eigenvecs.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index ff27325..263a686 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -6,6 +6,7 @@
 #include "../functions/vectors.h"
 #include "../objects.h"
 #include "../variables/state.h"
+#include "../waves/shear.h"
 
 MatV_V eigen(VecVr Q, int d, Par &MP)
 {
@@ -21,14 +22,14 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat3_3Map A = get_A(Q);
   Mat3_3 G = A.transpose() * A;
   Mat3_3 A_devG = AdevG(A);
-  double b02 = MP.b02;
+  double cs2 = c_s2(ρ, MP);
 
   for (int i = 0; i < 3; i++)
     for (int j = 0; j < 3; j++)
     {
-      Π1(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 0);
-      Π2(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 1);
-      Π3(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 2);
+      Π1(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 0);
+      Π2(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 1);
+      Π3(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 2);
     }
   Mat Ξ1 = Xi1(ρ, p, Q, MP, d);
   Mat Ξ2 = Xi2(ρ, p, Q, MP, d);
-- 
2.43.0


From e1d3af68ad3970b0781b0274fbd41e2ec61207d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:09 +0000
Subject: [PATCH 30/37] fix: star states of states without sound speeds were
 read from uninitialised memory

---
 code/cpp/src/system/multi/eigenvecs.cpp | 6 ++++++
 code/cpp/src/system/multi/riemann.cpp   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index 263a686..2b848cc 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "eigenvecs.h"
 #include "../../etc/types.h"
 #include "../eig.h"
@@ -35,6 +37,10 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat Ξ2 = Xi2(ρ, p, Q, MP, d);
   Mat Ξ = Ξ1 * Ξ2;
 
+  // Eigen leaves the eigenvectors undefined if the matrix is not finite
+  if (!Ξ.allFinite())
+    return MatV_V::Constant(std::numeric_limits<double>::quiet_NaN());
+
   Eigen::EigenSolver<Mat> es(Ξ);
   Mat Q_1 = es.eigenvectors().real();
   Mat D_2 = es.eigenvalues().real().cwiseInverse().asDiagonal();
diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index 12df54c..fbeeabe 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <limits>
 
 #include "../../etc/types.h"
 #include "../eig.h"
@@ -140,6 +141,10 @@ MatV_V riemann_constraints(VecVr Q, double sgn, Par &MP) {
   Mat Ξ2 = Xi2(ρ, p, Q, MP, 0);
   Mat Ξ = Ξ1 * Ξ2;
 
+  // Eigen leaves the eigenvectors undefined if the matrix is not finite
+  if (!Ξ.allFinite())
+    return MatV_V::Constant(std::numeric_limits<double>::quiet_NaN());
+
   Eigen::EigenSolver<Mat> es(Ξ);
   Mat Q_1 = es.eigenvectors().real();
   Mat D_1 = es.eigenvalues().real().cwiseInverse().cwiseSqrt().asDiagonal();
-- 
2.43.0


From bffecfb23e7956468b4bd17bba71eac1505ae823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 31/37] fix: solutions of lgmres_wrapper do not depend on the
 calls before (shared default outer_v)

---
 code/cpp/bindings/bindings.cpp |  2 +-
 code/cpp/src/scipy/lgmres.cpp  | 10 +++++++---
 code/cpp/src/scipy/lgmres.h    |  2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/cpp/bindings/bindings.cpp b/code/cpp/bindings/bindings.cpp
index ac06eff..c72a8d5 100644
--- a/code/cpp/bindings/bindings.cpp
+++ b/code/cpp/bindings/bindings.cpp
@@ -189,7 +189,7 @@ PYBIND11_MODULE(GPRpy, m) {
               py::arg("x0") = Vec(0), py::arg("M") = Mat(0, 0),
               py::arg("tol") = 1e-5, py::arg("maxiter") = 1000,
               py::arg("inner_m") = 30, py::arg("outer_k") = 3,
-              py::arg("outer_v") = std::vector<Vec>());
+              py::arg("outer_v") = py::none());
   m_scipy.def("newton_krylov", &nonlin_solve, py::arg("F"), py::arg("x"),
               py::arg("f_tol") = pow(mEPS, 1. / 3), py::arg("f_rtol") = INF,
               py::arg("x_tol") = INF, py::arg("x_rtol") = INF);
diff --git a/code/cpp/src/scipy/lgmres.cpp b/code/cpp/src/scipy/lgmres.cpp
index 2a5d961..86dba37 100644
--- a/code/cpp/src/scipy/lgmres.cpp
+++ b/code/cpp/src/scipy/lgmres.cpp
@@ -105,7 +105,11 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
 
 Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
                    const int maxiter, const int inner_m, const int outer_k,
-                   std::vector<Vec> &outer_v) {
+                   std::vector<Vec> *outer_v) {
+  // Vectors that are not passed are not shared between calls
+  std::vector<Vec> own_v;
+  std::vector<Vec> &kept_v = outer_v ? *outer_v : own_v;
+
   System system;
   system.set_A(A);
 
@@ -119,9 +123,9 @@ Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
   std::function<Vec(Vecr)> psolve = std::bind(&System::prec, system, _1);
 
   if (x0.rows() == 0)
-    return lgmres(matvec, psolve, b, Vec::Zero(b.rows()), outer_v, tol, maxiter,
+    return lgmres(matvec, psolve, b, Vec::Zero(b.rows()), kept_v, tol, maxiter,
                   inner_m, outer_k);
   else
-    return lgmres(matvec, psolve, b, x0, outer_v, tol, maxiter, inner_m,
+    return lgmres(matvec, psolve, b, x0, kept_v, tol, maxiter, inner_m,
                   outer_k);
 }
diff --git a/code/cpp/src/scipy/lgmres.h b/code/cpp/src/scipy/lgmres.h
index a45a447..3881fb0 100644
--- a/code/cpp/src/scipy/lgmres.h
+++ b/code/cpp/src/scipy/lgmres.h
@@ -21,6 +21,6 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
 
 Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
                    const int maxiter, const int inner_m, const int outer_k,
-                   std::vector<Vec> &outer_v);
+                   std::vector<Vec> *outer_v);
 
 #endif // LGMRES_H
-- 
2.43.0


From 454baaefe0a8dd1eb702f2c5a40ff3cc8e0ecb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 32/37] fix: derivative of the JWL and Cochran-Chan reference
 energy in Python

---
 code/python/gpr/vars/mg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 1f599e7..dab1b9f 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -195,7 +195,7 @@ def de_ref(ρ, MP):
         return c02 / (ρ * α) * (tmp - 1) * tmp
 
     elif EOS in [JWL, COCHRAN_CHAN]:
-        return e_ref(ρ, MP) / ρ**2
+        return p_ref(ρ, MP) / ρ**2
 
 
 def internal_energy(ρ, p, MP):
-- 
2.43.0


From 3bea61979685d5848c9a38a73d22f531870ced13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 33/37] fix: Python temperature derivative by density includes
 the reference temperature

---
 code/python/gpr/vars/mg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index dab1b9f..fce4fe7 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -277,7 +277,9 @@ def dTdρ(ρ, p, MP):
     dΓ = dΓ_MG(ρ, MP)
     pr = p_ref(ρ, MP)
     dpr = dp_ref(ρ, MP)
-    return - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    dφ = Γ / ρ * φ(ρ, MP)
+    return (MP.Tref * dφ
+            - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv)
 
 
 def dTdp(ρ, MP):
-- 
2.43.0


From c2dcd04832816d54b5131fea25c214955119fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 34/37] fix: relaxation of fluids in Python (undefined names,
 Bingham yield)

---
 code/python/gpr/vars/sources.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index cb52065..eb03dfb 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -30,16 +30,28 @@ def theta1inv(ρ, A, MP):
         else:   # elastic solid
             return 0
 
+    elif MP.BINGHAM:   # Bingham fluid
+
+        σ = sigma(ρ, A, MP)
+        sn = norm(σ) / sqrt(2.)
+
+        if sn > MP.σY:
+            return detA5_3 * MP.ρ0 / (2 * MP.μ) * (1 - MP.σY / sn)
+        else:
+            return 0
+
     else:
 
         n = MP.n
-        const = detA5_3 * ρ0 / (2 * μ**(1/n))
+        const = detA5_3 * MP.ρ0 / (2 * MP.μ**(1/n))
 
         if MP.POWER_LAW:  # power law fluid
 
             σ = sigma(ρ, A, MP)
             sn = norm(σ) / sqrt(2.)
-            sn = min(sn, 1e8)   # Hacky fix
+
+            if sn == 0:   # the power is infinite for n > 1
+                return 0
 
             return const * sn**((1-n)/n)
 
-- 
2.43.0


From f5821c27139b145fb590dc07dd9ccdb87df23e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 35/37] fix: reaction rates of State in Python (codes,
 compression and fractions of ignition and growth)

---
 code/python/gpr/misc/structures.py |  7 ++++---
 code/python/gpr/vars/sources.py    | 12 +++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 17244d5..059e294 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -3,6 +3,7 @@ from numpy import zeros
 import GPRpy
 
 from gpr.misc.functions import gram, sigma_norm
+from gpr.misc.objects import REACTION_CODES
 from gpr.vars.derivatives import dEdρ, dEdp, dEdA, dEdA_s, dEdJ, dTdρ, dTdp
 from gpr.vars.eos import total_energy
 from gpr.vars.sources import theta1inv, theta2inv, K_arr, K_dis, K_ing, f_δp
@@ -85,11 +86,11 @@ class State():
         return theta2inv(self.ρ, self.T(), self.MP)
 
     def K(self):
-        if self.MP.REACTION == 'a':
+        if self.MP.REACTION == REACTION_CODES['a']:
             return K_arr(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'd':
+        elif self.MP.REACTION == REACTION_CODES['d']:
             return K_dis(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'i':
+        elif self.MP.REACTION == REACTION_CODES['i']:
             return K_ing(self.ρ, self.λ, self.p(), self.MP)
 
     def f_body(self):
diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index eb03dfb..85998fb 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -1,4 +1,4 @@
-from numpy import exp, sqrt
+from numpy import exp, float64, sqrt
 from numpy.linalg import norm
 
 from gpr.misc.functions import det3, sigma_norm
@@ -105,21 +105,23 @@ def K_ing(ρ, λ, p, MP):
     x = MP.x
     y = MP.y
     z = MP.z
-    φIG = MP.φIG
+    φI = MP.φI
     φG1 = MP.φG1
     φG2 = MP.φG2
 
+    λ = min(max(λ, 0), 1)
+    p = max(p, 0)
     φ = 1 - λ
 
     ret = 0
-    if φIG > φ:
-        ret += I * λ**b * (ρ - 1 - a)**x
+    if φI > φ:
+        ret += I * λ**b * float64(ρ / MP.ρ0 - 1 - a)**x
     if φG1 > φ:
         ret += G1 * λ**c * φ**d * p**y
     if φ > φG2:
         ret += G2 * λ**e * φ**g * p**z
 
-    return ret
+    return max(ret, 0)
 
 
 def f_δp(MP):
-- 
2.43.0


From 877535f34ad53938fffbfeae42bdf8e7318e1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:10 +0000
Subject: [PATCH 36/37] fix: missing imports of c_inf and entropy_hyp

---
 code/python/gpr/vars/hyp.py        | 2 +-
 code/python/gpr/vars/wavespeeds.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/vars/hyp.py b/code/python/gpr/vars/hyp.py
index 81edbe4..585f09e 100644
--- a/code/python/gpr/vars/hyp.py
+++ b/code/python/gpr/vars/hyp.py
@@ -1,4 +1,4 @@
-from numpy import dot, exp, eye, zeros
+from numpy import dot, exp, eye, log, zeros
 from numpy.linalg import det, inv
 
 from gpr.misc.functions import I_1, I_2, I_3, gram
diff --git a/code/python/gpr/vars/wavespeeds.py b/code/python/gpr/vars/wavespeeds.py
index 7de5cb5..3d3a022 100644
--- a/code/python/gpr/vars/wavespeeds.py
+++ b/code/python/gpr/vars/wavespeeds.py
@@ -1,6 +1,7 @@
 from numpy import sqrt
 
 from gpr.vars.derivatives import dEdρ, dEdp
+from gpr.vars.shear import c_s2
 
 
 def c_0(ρ, p, A, MP):
@@ -11,10 +12,10 @@ def c_0(ρ, p, A, MP):
     return sqrt((p / ρ**2 - dE_dρ) / dE_dp)
 
 
-def c_inf(ρ, p, MP):
+def c_inf(ρ, p, A, MP):
     """ Returns the longitudinal characteristic speed
     """
-    c0 = c_0(ρ, p, MP)
+    c0 = c_0(ρ, p, A, MP)
     cs2 = c_s2(ρ, MP)
     return sqrt(c0**2 + 4 / 3 * cs2)
 
-- 
2.43.0


From 718f9bd20273ab47df6da7492c61cdcff241548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:10 +0000
Subject: [PATCH 37/37] fix: the second material of a mixture is made by its
 own equation of state

---
 code/python/gpr/misc/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index cc52910..1e3a604 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -147,22 +147,22 @@ def params(MP, Rc, EOS,
             MP.MP2.cv = cv_2
             MP.MP2.Tref = Tref_2
 
-        if EOS == 'sg':
+        if EOS_2 == 'sg':
             MP.MP2.γ = γ_2
             MP.MP2.pINF = pINF_2
 
-        elif EOS == 'smg':
+        elif EOS_2 == 'smg':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.c02 = c0_2**2
             MP.MP2.s = s_2
 
-        elif EOS == 'gr':
+        elif EOS_2 == 'gr':
             MP.MP2.c02 = c0_2**2
             MP.MP2.α = α_2
             MP.MP2.β = β_2
             MP.MP2.γ = γ_2
 
-        elif EOS == 'jwl' or EOS == 'cc':
+        elif EOS_2 == 'jwl' or EOS_2 == 'cc':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.A = A_2
             MP.MP2.B = B_2
-- 
2.43.0

