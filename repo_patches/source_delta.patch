From 276ff4b1c9bc08c8907192d8bf0ef7800e4420fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 01/43] fix: skip the kinematic rows of a phase without
 kinematic inequalities

The default Kin_ has three rows while kin_ is empty, so the continuous
formulation assigned a 3 row product to an empty block.
---
 src/computeCOMTraj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..40f06f0 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -469,7 +469,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add kinematics constraints :
     size_kin = (int)phase.kin_.rows();
     for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
-         wpit != cs.waypoints().end(); ++wpit) {
+         size_kin > 0 && wpit != cs.waypoints().end(); ++wpit) {
       A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
       b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
       id_rows += size_kin;
-- 
2.43.0


From c750c01625cb68a3378d03f73851a35d427d9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 02/43] fix: accept the end velocity cost when the end velocity
 is not constrained

The condition set was tested with a logical instead of a bitwise and, so the
cost was refused for every non-empty condition set.
---
 src/costfunction_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costfunction_definition.cpp b/src/costfunction_definition.cpp
index de97f85..fdbfae7 100644
--- a/src/costfunction_definition.cpp
+++ b/src/costfunction_definition.cpp
@@ -24,7 +24,7 @@ void computeCostMidPoint(const ProblemData& pData, const VectorX& /*Ts*/,
 void computeCostEndVelocity(const ProblemData& pData, const VectorX& /*Ts*/,
                             const double T, const T_time& /*timeArray*/,
                             MatrixXX& H, VectorX& g) {
-  if (pData.constraints_.flag_ && END_VEL)
+  if (pData.constraints_.flag_ & END_VEL)
     throw std::runtime_error(
         "Can't use computeCostEndVelocity as cost function when end velocity "
         "is a contraint");
-- 
2.43.0


From 5bd9232bdecdfdbe8e004950ac084d67b9fd51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 03/43] fix: size the GLPK element arrays after the problem

Problems with more than 20000 non-zero coefficients overflowed fixed arrays.
---
 src/glpk-wrapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..e5fcbe2 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -20,6 +20,7 @@
 #include <glpk.h>
 
 #include <iostream>
+#include <vector>
 
 namespace solvers {
 
@@ -44,9 +45,12 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  // maximal number of elements, indices start at 1
+  const std::size_t num_elements =
+      1 + (std::size_t)(CE.rows() + CI.rows()) * (std::size_t)x.size();
+  std::vector<int> ia(num_elements);     // Row indices of each element
+  std::vector<int> ja(num_elements);     // column indices of each element
+  std::vector<double> ar(num_elements);  // numerical values of the elements
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -96,7 +100,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From 7adfd960db6fe2d0d8e4ce03b560d7e3db26b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 04/43] fix: accept linear programs without constraint rows

glp_add_rows aborts the process when asked to add no row.
---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index e5fcbe2..e79a64b 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -62,7 +62,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   const int numEqConstraints = (int)(CE.rows());
   const int numIneqConstraints = (int)(CI.rows());
   const int num_constraints_total(numEqConstraints + numIneqConstraints);
-  glp_add_rows(lp, num_constraints_total);
+  if (num_constraints_total > 0) glp_add_rows(lp, num_constraints_total);
   int idrow = 1;  // adds three rows to the problem object
   int idcol = 1;
   int idConsMat = 1;
-- 
2.43.0


From e6775e6613282d198fb77882ebe13fff96120bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 05/43] fix: declare variables with coinciding bounds as fixed
 to GLPK

A double bounded variable whose bounds coincide made glp_simplex refuse the
problem, which was reported as infeasible.
---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index e79a64b..c34d740 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -29,7 +29,7 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   const double& mabV = mab(i);
   int type = GLP_FR;
   if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
-    type = GLP_DB;
+    type = mibV == mabV ? GLP_FX : GLP_DB;
   else if (mibV > UNBOUNDED_DOWN)
     type = GLP_LO;
   else if (mabV < UNBOUNDED_UP)
-- 
2.43.0


From 25de29f1d22ff1911868865f811ab9580ca31351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 06/43] fix: allocate all the rows of the upper bounds in the
 quadratic back end

The matrix had three rows less than what is written to it.
---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From cc9a8466d8c4e1a10d7d07b218794d63c026b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 07/43] fix: use the first control point in the jerk
 constrained curve expressions

Position, velocity and acceleration at a given time used the last control
point in place of the first one.
---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..c712b4a 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -21,7 +21,7 @@ static const size_t DIM_POINT = 3;
 /**
  * @brief evaluateCurveAtTime compute the expression of the point on the curve
  * at t, defined by the waypoint pi and one free waypoint (x)
- * @param pi constant waypoints of the curve, assume pi[8] pi[1] pi[2] pi[3] x
+ * @param pi constant waypoints of the curve, assume pi[0] pi[1] pi[2] pi[3] x
  * pi[4] pi[5] pi[6] pi[7]
  * @param t param (normalized !)
  * @return the expression of the waypoint such that wp.first . x + wp.second =
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
-- 
2.43.0


From 64442d91c737b7f6825c176a267139976f1a0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 08/43] fix: middle acceleration control point of the jerk
 constrained curve

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index c712b4a..a281a6d 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -436,7 +436,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
-- 
2.43.0


From 87f2881aea514502f0c3931fac037210d6baebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 09/43] fix: terminal velocity of the jerk constrained curve

The expression was the one of a curve of degree 6.
---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index a281a6d..272a9bb 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -501,7 +501,7 @@ inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-8.0 * pi[7] + 8.0 * pi[8]) / T;
   return v;
 }
 
-- 
2.43.0


From 6b11b89920b05cc8471184b594aac1d7219ef773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 10/43] fix: tell free waypoints from constant ones by the
 condition set

A constant waypoint located at the origin was taken for a free one.
---
 src/waypoints_definition.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..84231ad 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -300,13 +300,26 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   const int DIM_VAR = dimVar(pData);
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  // the free waypoints follow the ones set by the initial conditions and precede
+  // the ones set by the final conditions. A constant waypoint may be zero.
+  const ConstraintFlag& flag = pData.constraints_.flag_;
+  std::size_t first_free = 0, last_fixed = 0;
+  if (flag & INIT_POS) ++first_free;
+  if (flag & INIT_VEL) ++first_free;
+  if (flag & INIT_ACC) ++first_free;
+  if (flag & INIT_JERK) ++first_free;
+  if (flag & END_POS) {
+    ++last_fixed;
+    if (flag & END_VEL) ++last_fixed;
+    if (flag & END_ACC) ++last_fixed;
+    if (flag & END_JERK) ++last_fixed;
+  }
+  for (std::size_t i = 0; i < pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
+    if (i >= first_free && i + last_fixed < pts.size()) {
       w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From da38ccb34a0c5d372f32fc99bec272b1cd343118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 11/43] fix: keep the jerk constrained control points of the
 returned curve

---
 include/hpp/bezier-com-traj/utils.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
-- 
2.43.0


From 8fe67cd9c6821fd8a43ed7776c2fb3e1c99787cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 12/43] fix: powers of time in the derivatives of the curve
 with three free points

---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 3310ae9..f5500bf 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -102,21 +102,21 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
        t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
        t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
                     360.0 * pi[3])) +
-       t3 * (1.0 *
+       t8 * (1.0 *
              (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
               3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
+       t3 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
                     3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
+       t9 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
                     450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
                     450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
+       t4 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
                     12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
+       t5 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
                     25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
+       t6 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
                     29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
+       t7 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
                     20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
       alpha;
   return wp;
@@ -153,18 +153,18 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
                    720.0 * pi[3])) +
        t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
                     10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
+       t8 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
                     4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
                     4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
+       t3 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
                     50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
+       t4 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
                     126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
+       t5 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
                     176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
+       t6 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
                     141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
+       t7 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
                     60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
                     720.0 * pi[9]))) *
       alpha;
-- 
2.43.0


From eb3ad764d3a77b56ee662c6d47dc9ad77c7aa2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 13/43] fix: copy contact data that has no contact phase

---
 include/hpp/bezier-com-traj/data.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index 0f3912b..bc2409a 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -34,7 +34,9 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
 
   ContactData(const ContactData& other)
       : contactPhase_(
-            new centroidal_dynamics::Equilibrium(*(other.contactPhase_))),
+            other.contactPhase_
+                ? new centroidal_dynamics::Equilibrium(*(other.contactPhase_))
+                : 0),
         Kin_(other.Kin_),
         kin_(other.kin_),
         Ang_(other.Ang_),
-- 
2.43.0


From 78f92113caf3e97ee460c2682dffde9bd60bcfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 14/43] fix: initialise the angular momentum of the problem
 data

---
 include/hpp/bezier-com-traj/data.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index bc2409a..d0881fc 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -101,6 +101,7 @@ struct BEZIER_COM_TRAJ_DLLAPI ProblemData {
         dc1_(point_t::Zero()),
         ddc1_(point_t::Zero()),
         j1_(point_t::Zero()),
+        l0_(point_t::Zero()),
         useAngularMomentum_(false),
         costFunction_(ACCELERATION),
         representation_(DOUBLE_DESCRIPTION) {}
-- 
2.43.0


From 19a5dd32b61fb2965166733ad10ea8c14c432d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 15/43] fix: constrain the angular momentum with its own
 inequalities

---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..0750880 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -124,7 +124,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From 5b4f293ba2bf9016f6b35718312bcd9dd7910952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 16/43] fix: keep the end of the last phase inside the curve in
 the continuous formulation

---
 src/computeCOMTraj.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 40f06f0..37c8937 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -459,10 +459,12 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
   for (size_t id_phase = 0; id_phase < (size_t)Ts.size(); ++id_phase) {
-    bezier_wp_t cs = c.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ddcs = ddc.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ws = w.extract(current_t, Ts[id_phase] + current_t);
-    current_t += Ts[id_phase];
+    // the sum of the first durations may exceed T by a rounding error
+    const double end_t = std::min(Ts[id_phase] + current_t, T);
+    bezier_wp_t cs = c.extract(current_t, end_t);
+    bezier_wp_t ddcs = ddc.extract(current_t, end_t);
+    bezier_wp_t ws = w.extract(current_t, end_t);
+    current_t = end_t;
 
     phase = pData.contacts_[id_phase];
 
-- 
2.43.0


From faea2fdca6b8986c914deef3dac7483d38661ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 17/43] fix: bound the acceleration in the continuous
 formulation only when requested

---
 src/computeCOMTraj.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 37c8937..cbf44a2 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -369,7 +369,8 @@ long int computeNumIneqContinuous(const ProblemData& pData, const VectorX& Ts,
     }
   }
   // acceleration constraints : 6 per points
-  num_ineq += (degree - 1) * 6 * Ts.size();
+  if (pData.constraints_.constraintAcceleration_)
+    num_ineq += (degree - 1) * 6 * Ts.size();
   return num_ineq;
 }
 
@@ -500,7 +501,9 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     }
     // add acceleration constraints :
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
-         wpit != ddcs.waypoints().end(); ++wpit) {
+         pData.constraints_.constraintAcceleration_ &&
+         wpit != ddcs.waypoints().end();
+         ++wpit) {
       A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
       b.segment(id_rows, 3) = acc_bounds - wpit->second;
       A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-- 
2.43.0


From c523b31529e9ea6fc489e030c049b125e0cc7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 18/43] fix: scale the acceleration control points by the
 duration in the continuous formulation

---
 src/computeCOMTraj.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index cbf44a2..554c0d6 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -504,10 +504,11 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
          pData.constraints_.constraintAcceleration_ &&
          wpit != ddcs.waypoints().end();
          ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
+      // the waypoints of a derived curve must be scaled by mult_T_
+      A.block(id_rows, 0, 3, 3) = ddcs.mult_T_ * wpit->first;  // upper
+      b.segment(id_rows, 3) = acc_bounds - ddcs.mult_T_ * wpit->second;
+      A.block(id_rows + 3, 0, 3, 3) = -ddcs.mult_T_ * wpit->first;  // lower
+      b.segment(id_rows + 3, 3) = acc_bounds + ddcs.mult_T_ * wpit->second;
       id_rows += 6;
     }
   }
-- 
2.43.0


From 9279c798fa9812290d204b58a538a335bc6dae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 19/43] fix: keep the contact forces of both phases at a phase
 switch

---
 src/computeCOMTraj.cpp | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 554c0d6..e24fd8e 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -389,22 +389,11 @@ long int computeNumEqContinuous(const ProblemData& pData, const int w_degree,
                                 const bool useForce, long int& forceVarDim) {
   long int numEq = 0;
   if (useForce) {
-    long int cSize = 0;
-    int currentDegree;  // remove redundant equalities depending on more
-                        // constraining problem
-    std::vector<ContactData>::const_iterator it2 = pData.contacts_.begin();
-    ++it2;
+    // at a phase switch the constraints of both phases apply
     for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
-         it != pData.contacts_.end(); ++it, ++it2) {
-      currentDegree = w_degree + 1;
-      if (cSize != 0 && it->contactPhase_->m_G_centr.cols() > cSize)
-        currentDegree -= 1;
-      cSize = it->contactPhase_->m_G_centr.cols();
-      if (it2 != pData.contacts_.end() &&
-          it2->contactPhase_->m_G_centr.cols() <= cSize)
-        currentDegree -= 1;
-      forceVarDim += cSize * (currentDegree);
-      numEq += (numRowsForce) * (currentDegree);
+         it != pData.contacts_.end(); ++it) {
+      forceVarDim += it->contactPhase_->m_G_centr.cols() * (w_degree + 1);
+      numEq += numRowsForce * (w_degree + 1);
     }
   }
   return numEq;
@@ -455,7 +444,6 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   int dimH;
   Vector3 acc_bounds = Vector3::Ones() * pData.constraints_.maxAcceleration_;
 
-  long int cSize = 0;
   long int rowIdx = 0;
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
@@ -485,16 +473,8 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
         assignStabilityConstraintsForTimeStep(mH, h, *wpit, dimH, id_rows, A, b,
                                               phase.contactPhase_->m_gravity);
     } else {
-      bezier_wp_t::cit_point_t start = ws.waypoints().begin();
-      bezier_wp_t::cit_point_t stop = ws.waypoints().end();
-      if (id_phase + 1 < (size_t)Ts.size() &&
-          pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() <=
-              phase.contactPhase_->m_G_centr.cols())
-        --stop;
-      if (cSize > 0 && cSize < phase.contactPhase_->m_G_centr.cols()) ++start;
-      cSize = phase.contactPhase_->m_G_centr.cols();
-      for (bezier_wp_t::cit_point_t wpit = start; wpit != stop;
-           ++wpit, rowIdx += 6)
+      for (bezier_wp_t::cit_point_t wpit = ws.waypoints().begin();
+           wpit != ws.waypoints().end(); ++wpit, rowIdx += 6)
         assignStabilityConstraintsForTimeStepForce(
             *wpit, rowIdx, id_cols, phase.contactPhase_->m_G_centr, D, d,
             phase.contactPhase_->m_mass, phase.contactPhase_->m_gravity);
-- 
2.43.0


From 81cdbc82d9f390d7cdc113674ea1738ec9c3ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 20/43] fix: contact wrench of the jerk constrained curve

---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 184 +++---------------
 1 file changed, 32 insertions(+), 152 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 272a9bb..f910993 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -205,162 +205,42 @@ inline std::vector<point_t> computeConstantWaypoints(const ProblemData& pData,
   return pi;
 }
 
+std::vector<waypoint_t> computeAccelerationWaypoints(
+    const ProblemData& pData, const double T,
+    std::vector<bezier_t::point_t> pi);
+
 inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
                                                 double T) {
   bezier_wp_t::t_point_t wps;
-  const int DIM_POINT = 6;
-  const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  std::vector<Matrix3> Cpi;
-  for (std::size_t i = 0; i < pi.size(); ++i) {
-    Cpi.push_back(skew(pi[i]));
-  }
+  const std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  const std::vector<waypoint_t> ddc =
+      computeAccelerationWaypoints(pData, T, pi);
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
-  const Matrix3 Cg = skew(g);
-  const double T2 = T * T;
-  const double alpha = 1 / (T2);
-
-  // equation of waypoints for curve w found with sympy
-  waypoint_t w0 = initwp(DIM_POINT, DIM_VAR);
-  w0.second.head<3>() = (30 * pi[0] - 60 * pi[1] + 30 * pi[2]) * alpha;
-  w0.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[0] - 60.0 * Cpi[0] * pi[1] + 30.0 * Cpi[0] * pi[2]) *
-      alpha;
-  wps.push_back(w0);
-  waypoint_t w1 = initwp(DIM_POINT, DIM_VAR);
-  w1.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w1.first.block<3, 3>(3, 0) = 13.3333333333333 * Cpi[0] * alpha;
-  w1.second.head<3>() =
-      1.0 * (16.6666666666667 * pi[0] - 20.0 * pi[1] - 10.0 * pi[2]) * alpha;
-  w1.second.tail<3>() = 1.0 *
-                        (0.333333333333333 * Cg * T2 * pi[0] +
-                         0.666666666666667 * Cg * T2 * pi[1] -
-                         30.0 * Cpi[0] * pi[2] + 20.0 * Cpi[1] * pi[2]) *
-                        alpha;
-  wps.push_back(w1);
-  waypoint_t w2 = initwp(DIM_POINT, DIM_VAR);
-  w2.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w2.first.block<3, 3>(3, 0) =
-      1.0 * (-13.3333333333333 * Cpi[0] + 20.0 * Cpi[1]) * alpha;
-  w2.second.head<3>() =
-      1.0 * (8.33333333333333 * pi[0] - 20.0 * pi[2] + 5.0 * pi[4]) * alpha;
-  w2.second.tail<3>() =
-      1.0 *
-      (0.0833333333333334 * Cg * T2 * pi[0] + 0.5 * Cg * T2 * pi[1] +
-       0.416666666666667 * Cg * T2 * pi[2] + 5.0 * Cpi[0] * pi[4] -
-       20.0 * Cpi[1] * pi[2]) *
-      alpha;
-  wps.push_back(w2);
-  waypoint_t w3 = initwp(DIM_POINT, DIM_VAR);
-  w3.first.block<3, 3>(0, 0) = -5.71428571428572 * alpha * Matrix3::Identity();
-  w3.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 - 20.0 * Cpi[1] +
-                                14.2857142857143 * Cpi[2]) *
-                               alpha;
-  w3.second.head<3>() = 1.0 *
-                        (3.57142857142857 * pi[0] + 7.14285714285714 * pi[1] -
-                         14.2857142857143 * pi[2] + 7.85714285714286 * pi[4] +
-                         1.42857142857143 * pi[5]) *
-                        alpha;
-  w3.second.tail<3>() =
-      1.0 *
-      (0.0119047619047619 * Cg * T2 * pi[0] +
-       0.214285714285714 * Cg * T2 * pi[1] +
-       0.535714285714286 * Cg * T2 * pi[2] - 5.0 * Cpi[0] * pi[4] +
-       1.42857142857143 * Cpi[0] * pi[5] + 12.8571428571429 * Cpi[1] * pi[4]) *
-      alpha;
-  wps.push_back(w3);
-  waypoint_t w4 = initwp(DIM_POINT, DIM_VAR);
-  w4.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w4.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[2]) * alpha;
-  w4.second.head<3>() = 1.0 *
-                        (1.19047619047619 * pi[0] + 7.14285714285714 * pi[1] -
-                         3.57142857142857 * pi[2] + 5.0 * pi[4] +
-                         4.28571428571429 * pi[5] + 0.238095238095238 * pi[6]) *
-                        alpha;
-  w4.second.tail<3>() =
-      1.0 *
-      (0.0476190476190471 * Cg * T2 * pi[1] +
-       0.357142857142857 * Cg * T2 * pi[2] +
-       0.119047619047619 * Cg * T2 * pi[4] - 1.42857142857143 * Cpi[0] * pi[5] +
-       0.238095238095238 * Cpi[0] * pi[6] - 12.8571428571429 * Cpi[1] * pi[4] +
-       5.71428571428571 * Cpi[1] * pi[5] + 17.8571428571429 * Cpi[2] * pi[4]) *
-      alpha;
-  wps.push_back(w4);
-  waypoint_t w5 = initwp(DIM_POINT, DIM_VAR);
-  w5.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w5.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[4]) * alpha;
-  w5.second.head<3>() = 1.0 *
-                        (0.238095238095238 * pi[0] + 4.28571428571429 * pi[1] +
-                         5.0 * pi[2] - 3.57142857142857 * pi[4] +
-                         7.14285714285714 * pi[5] + 1.19047619047619 * pi[6]) *
-                        alpha;
-  w5.second.tail<3>() =
-      1.0 *
-      (+0.11904761904762 * Cg * T2 * pi[2] +
-       0.357142857142857 * Cg * T2 * pi[4] +
-       0.0476190476190476 * Cg * T2 * pi[5] -
-       0.238095238095238 * Cpi[0] * pi[6] - 5.71428571428572 * Cpi[1] * pi[5] +
-       1.42857142857143 * Cpi[1] * pi[6] - 17.8571428571429 * Cpi[2] * pi[4] +
-       12.8571428571429 * Cpi[2] * pi[5]) *
-      alpha;
-  wps.push_back(w5);
-  waypoint_t w6 = initwp(DIM_POINT, DIM_VAR);
-  w6.first.block<3, 3>(0, 0) = -5.71428571428571 * alpha * Matrix3::Identity();
-  w6.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 +
-                                14.2857142857143 * Cpi[4] - 20.0 * Cpi[5]) *
-                               alpha;
-  w6.second.head<3>() = 1.0 *
-                        (1.42857142857143 * pi[1] + 7.85714285714286 * pi[2] -
-                         14.2857142857143 * pi[4] + 7.14285714285715 * pi[5] +
-                         3.57142857142857 * pi[6]) *
-                        alpha;
-  w6.second.tail<3>() =
-      1.0 *
-      (0.535714285714286 * Cg * T2 * pi[4] +
-       0.214285714285714 * Cg * T2 * pi[5] +
-       0.0119047619047619 * Cg * T2 * pi[6] -
-       1.42857142857143 * Cpi[1] * pi[6] - 12.8571428571429 * Cpi[2] * pi[5] +
-       5.0 * Cpi[2] * pi[6]) *
-      alpha;
-  wps.push_back(w6);
-  waypoint_t w7 = initwp(DIM_POINT, DIM_VAR);
-  w7.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w7.first.block<3, 3>(3, 0) =
-      1.0 * (20.0 * Cpi[5] - 13.3333333333333 * Cpi[6]) * alpha;
-  w7.second.head<3>() =
-      1.0 * (5.0 * pi[2] - 20.0 * pi[4] + 8.33333333333333 * pi[6]) * alpha;
-  w7.second.tail<3>() =
-      1.0 *
-      (0.416666666666667 * Cg * T2 * pi[4] + 0.5 * Cg * T2 * pi[5] +
-       0.0833333333333333 * Cg * T2 * pi[6] - 5.0 * Cpi[2] * pi[6] +
-       20.0 * Cpi[4] * pi[5]) *
-      alpha;
-  wps.push_back(w7);
-  waypoint_t w8 = initwp(DIM_POINT, DIM_VAR);
-  w8.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w8.first.block<3, 3>(3, 0) = 1.0 * (13.3333333333333 * Cpi[6]) * alpha;
-  w8.second.head<3>() =
-      1.0 *
-      (-9.99999999999999 * pi[4] - 20.0 * pi[5] + 16.6666666666667 * pi[6]) *
-      alpha;
-  w8.second.tail<3>() = 1.0 *
-                        (0.666666666666667 * Cg * T2 * pi[5] +
-                         0.333333333333333 * Cg * T2 * pi[6] -
-                         20.0 * Cpi[4] * pi[5] + 30.0 * Cpi[4] * pi[6]) *
-                        alpha;
-  wps.push_back(w8);
-  waypoint_t w9 = initwp(DIM_POINT, DIM_VAR);
-  w9.second.head<3>() = (30 * pi[4] - 60 * pi[5] + 30 * pi[6]) * alpha;
-  w9.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[6] - 30.0 * Cpi[4] * pi[6] + 60.0 * Cpi[5] * pi[6]) *
-      alpha;
-  wps.push_back(w9);
+  const int degC = (int)pi.size() - 1;
+  const int degDdc = (int)ddc.size() - 1;
+  const int freeId = 4;  // pi[0] pi[1] pi[2] pi[3] x pi[5] pi[6] pi[7] pi[8]
+
+  // w = [ddc ; c x (ddc - g)] : waypoints of the product of curves c and ddc
+  for (int k = 0; k <= degC + degDdc; ++k) {
+    waypoint_t w = initwp(6, DIM_VAR);
+    for (int i = std::max(0, k - degDdc); i <= std::min(k, degC); ++i) {
+      const waypoint_t& a = ddc[k - i];
+      const Vector3 ag = a.second - g;
+      const double coef =
+          (double)(ndcurves::bin((unsigned)degC, (unsigned)i) *
+                   ndcurves::bin((unsigned)degDdc, (unsigned)(k - i))) /
+          (double)ndcurves::bin((unsigned)(degC + degDdc), (unsigned)k);
+      w.first.block<3, 3>(0, 0) += coef * a.first;
+      w.second.head<3>() += coef * a.second;
+      if (i == freeId) {
+        w.first.block<3, 3>(3, 0) -= coef * skew(ag);
+      } else {
+        w.first.block<3, 3>(3, 0) += coef * skew(pi[i]) * a.first;
+        w.second.tail<3>() += coef * pi[i].cross(ag);
+      }
+    }
+    wps.push_back(w);
+  }
   return wps;
 }
 
-- 
2.43.0


From 5097103a8d5c96073a6056ebf6834a71fbeff7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 21/43] fix: bound the violation the quadratic back end accepts

The stopping threshold grows with the number of rows and the conditioning
of the Hessian: problems with contact forces were declared solved with
constraints violated by millimetres.
---
 src/eiquadprog-fast.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..74434c1 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -454,7 +454,8 @@ l1:
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
   if (std::abs(psi) <=
-      nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
+      std::min(1e-7, nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
+                         c2 * 100.0)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
@@ -876,7 +877,8 @@ l1:
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
   if (std::abs(psi) <=
-      nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
+      std::min(1e-7, nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
+                         c2 * 100.0)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
-- 
2.43.0


From 707c2033e85069d163704a096db40d805e0c1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 22/43] fix: acceleration control points of the curves with
 three and five free points

The last but one constant control point was listed twice, the third one used
the wrong multiple of the fourth constant point and, with five free points,
one entry used a placeholder instead of the ninth point.
---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh  | 3 +--
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh  | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index f5500bf..921397a 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -343,7 +343,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 90 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 90 * (pi[2] - pi[3]);
+  w.second = alpha * 90 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -372,7 +372,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.second = alpha * 90 * (pi[7] - 2 * pi[8] + pi[9]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
   w.second = alpha * 90 * (pi[10] + pi[8] - 2 * pi[9]);
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 830be88..dcfe194 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -371,7 +371,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 132 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 132 * (pi[2] - pi[3]);
+  w.second = alpha * 132 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -401,7 +401,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.first.block<3, 3>(0, 9) = 132 * alpha * Matrix3::Identity();    // x3
   w.first.block<3, 3>(0, 12) = -264 * alpha * Matrix3::Identity();  // x4
-  w.second = alpha * 132 * pi[7];
+  w.second = alpha * 132 * pi[9];
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
@@ -412,7 +412,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w9:
   w.second = alpha * 132 * (pi[9] - 2 * pi[10] + pi[11]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w10:
   w.second = alpha * 132 * (pi[12] + pi[10] - 2 * pi[11]);
-- 
2.43.0


From e63e892d2480189048c8b1ff92e50f2debd48a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 23/43] fix: symbolic control points of the curves with several
 free points

All the free control points were mapped to the first one.
---
 src/waypoints_definition.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index 84231ad..ec1108b 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -19,6 +19,8 @@
 #include <hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh>
 #include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
 
+#include <algorithm>
+
 #include "boost/assign.hpp"
 
 namespace bezier_com_traj {
@@ -317,7 +319,10 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   for (std::size_t i = 0; i < pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
     if (i >= first_free && i + last_fixed < pts.size()) {
-      w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
+      // several free waypoints are distinct variables, unless there is only one
+      const int col = DIM_POINT * static_cast<int>(i - first_free);
+      w.first.block<3, 3>(0, std::min(col, DIM_VAR - DIM_POINT)) =
+          Matrix3::Identity();
     } else {
       w.second = pts[i];
     }
-- 
2.43.0


From 371160687c086dc586357ed69f6b082a5aef8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 24/43] fix: bound the jerk of the end effector by the jerk
 limits

The upper rows used the velocity limits.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..8c95fe4 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -181,7 +181,7 @@ void computeConstraintsMatrix(
        wpcit != wps_jerk.end(); ++wpcit) {
     if (!wpcit->first.isZero(std::numeric_limits<double>::epsilon())) {
       A.block(i * DIM_POINT, 0, DIM_POINT, DIM_VAR) = wpcit->first;
-      b.segment<DIM_POINT>(i * DIM_POINT) = vel_bounds - wpcit->second;
+      b.segment<DIM_POINT>(i * DIM_POINT) = jerk_bounds - wpcit->second;
       ++i;
     }
   }
-- 
2.43.0


From 7acea7c8a3d41e7a1c6e91d4ecca77964d34ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 25/43] fix: refuse more equalities than variables in the
 quadratic back end

The factors were written beyond their last column.
---
 src/eiquadprog-fast.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 74434c1..e9d94f6 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -328,6 +328,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR);
   iq = 0;
   for (i = 0; i < nEqCon; i++) {
+    // there cannot be more independent equalities than variables
+    if (iq >= nVars) return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
     np = CE.row(i);
     compute_d(d, m_J, np);
@@ -751,6 +753,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR);
   iq = 0;
   for (i = 0; i < nEqCon; i++) {
+    // there cannot be more independent equalities than variables
+    if (iq >= nVars) return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
     np = CE.row(i);
     compute_d(d, m_J, np);
-- 
2.43.0


From 2c3b2058732584baf4a42de52e56404be7615490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 26/43] fix: keep the bookkeeping of the quadratic back end
 inside its arrays

Backing out of a degenerate constraint indexed the inequality table with the
negative entries of the equalities, and dropping a constraint read past the
active set when every constraint was active.
---
 src/eiquadprog-fast.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index e9d94f6..54735ed 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -174,10 +174,13 @@ void EiquadprogFast::delete_constraint(MatrixXd& R, MatrixXd& J, VectorXi& A,
     R.col(i) = R.col(i + 1);
   }
 
-  A(iq - 1) = A(iq);
-  u(iq - 1) = u(iq);
-  A(iq) = 0;
-  u(iq) = 0.0;
+  if (iq < A.size()) {
+    // the constraint that is being added follows the active ones
+    A(iq - 1) = A(iq);
+    u(iq - 1) = u(iq);
+    A(iq) = 0;
+    u(iq) = 0.0;
+  }
   for (j = 0; j < iq; j++) R(j, iq - 1) = 0.0;
   /* constraint has been fully removed */
   iq--;
@@ -616,7 +619,7 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
@@ -1041,7 +1044,7 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
-- 
2.43.0


From 147534ccb1eb639079431070be0006eea0476c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 27/43] fix: scale-free dependence tests in the quadratic back
 end

---
 src/eiquadprog-fast.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 54735ed..e5b8474 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -142,7 +142,8 @@ into column iq - 1 of R
   std::cout << iq << std::endl;
 #endif
 
-  if (std::abs(d(iq - 1)) <= std::numeric_limits<double>::epsilon() * R_norm)
+  if (std::abs(d(iq - 1)) <=
+      std::numeric_limits<double>::epsilon() * d.head(iq).norm())
     // problem degenerate
     return false;
   R_norm = std::max<double>(R_norm, std::abs(d(iq - 1)));
@@ -348,10 +349,11 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
 
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
-    t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
-      t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    if (!(d.tail(nVars - iq).squaredNorm() >
+          std::numeric_limits<double>::epsilon() *
+              d.squaredNorm()))  // i.e. z == 0
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
+    t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
 
@@ -546,8 +548,9 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (iq < nVars && d.tail(nVars - iq).squaredNorm() >
+                        std::numeric_limits<double>::epsilon() *
+                            d.squaredNorm())  // i.e. z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
@@ -773,10 +776,11 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
 
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
-    t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
-      t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    if (!(d.tail(nVars - iq).squaredNorm() >
+          std::numeric_limits<double>::epsilon() *
+              d.squaredNorm()))  // i.e. z == 0
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
+    t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
 
@@ -971,8 +975,9 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (iq < nVars && d.tail(nVars - iq).squaredNorm() >
+                        std::numeric_limits<double>::epsilon() *
+                            d.squaredNorm())  // i.e. z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
-- 
2.43.0


From 9e0ce08ad4e67d0af537f9789e30b956be3d6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 28/43] fix: keep the feasibility tolerance of the quadratic
 back end above rounding

---
 src/eiquadprog-fast.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index e5b8474..3448c22 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -231,6 +231,17 @@ void print_matrix(const char* name, Eigen::MatrixBase<Derived>& x, int n) {
   //  std::cout << name << std::endl << x << std::endl;
 }
 
+/** magnitude of the terms that cancel out in the value of an inequality */
+static double rowScale(const EiquadprogFast::MatrixXd& CI,
+                       const EiquadprogFast::VectorXd& ci0,
+                       const EiquadprogFast::VectorXd& x) {
+  double scale = 0.0;
+  for (long int i = 0; i < ci0.size(); ++i)
+    scale = std::max(scale, CI.row(i).cwiseAbs().dot(x.cwiseAbs()) +
+                                std::abs(ci0(i)));
+  return scale;
+}
+
 EiquadprogFast_status EiquadprogFast::solve_quadprog(
     const MatrixXd& Hess, const VectorXd& g0, const MatrixXd& CE,
     const VectorXd& ce0, const MatrixXd& CI, const VectorXd& ci0, VectorXd& x) {
@@ -461,8 +472,9 @@ l1:
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
   if (std::abs(psi) <=
-      std::min(1e-7, nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
-                         c2 * 100.0)) {
+      std::min(1e-7, nIneqCon * std::numeric_limits<double>::epsilon() *
+                         std::max(c1 * c2 * 100.0,
+                                  10.0 * rowScale(CI, ci0, x)))) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
@@ -888,8 +900,9 @@ l1:
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
   if (std::abs(psi) <=
-      std::min(1e-7, nIneqCon * std::numeric_limits<double>::epsilon() * c1 *
-                         c2 * 100.0)) {
+      std::min(1e-7, nIneqCon * std::numeric_limits<double>::epsilon() *
+                         std::max(c1 * c2 * 100.0,
+                                  10.0 * rowScale(CI, ci0, x)))) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
-- 
2.43.0


From 69df8647e14bdd44e0d4c85ff397d6a489da35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 29/43] fix: factor of the inverse in the sparse entry point of
 the quadratic back end

---
 src/eiquadprog-fast.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 3448c22..fc9fd02 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -712,7 +712,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   c1 = trace_sparse(Hess);
 
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
-  Eigen::SimplicialLLT<SpMat, Eigen::Lower> cholsp_(Hess);
+  // m_J is L^-T only without permutation of the variables
+  Eigen::SimplicialLLT<SpMat, Eigen::Lower, Eigen::NaturalOrdering<int> >
+      cholsp_(Hess);
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
 
   /* initialize the matrix R */
@@ -726,11 +728,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   if (!is_inverse_provided_) {
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
-#ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
-#else
     m_J = cholsp_.matrixU().solve(m_J);
-#endif
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
   }
 
-- 
2.43.0


From 814515b3cb6cda5ad17949f491e9f527fd8853a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 30/43] fix: sign of the unconstrained minimum with a provided
 inverse

---
 src/eiquadprog-fast.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index fc9fd02..00915ca 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -320,6 +320,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
     x = m_J * (m_J.transpose() * g0);
+#ifdef OPTIMIZE_UNCONSTR_MINIM
+    x = -x;
+#endif
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     x = -g0;
@@ -746,6 +749,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
     x = m_J * (m_J.transpose() * g0);
+#ifdef OPTIMIZE_UNCONSTR_MINIM
+    x = -x;
+#endif
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     // x = -g0;
-- 
2.43.0


From 7cafa478910d9f323b4c1e80b8db97d594d31520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:38 +0000
Subject: [PATCH 31/43] fix: copy the contact phase when contact data is
 assigned

---
 include/hpp/bezier-com-traj/data.hh | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index d0881fc..8a5ce28 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -50,6 +50,20 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
         ang_(VectorX::Zero(0)) {}
   ~ContactData() {}
 
+  ContactData& operator=(const ContactData& other) {
+    if (this != &other) {
+      contactPhase_ =
+          other.contactPhase_
+              ? new centroidal_dynamics::Equilibrium(*(other.contactPhase_))
+              : 0;
+      Kin_ = other.Kin_;
+      kin_ = other.kin_;
+      Ang_ = other.Ang_;
+      ang_ = other.ang_;
+    }
+    return *this;
+  }
+
   centroidal_dynamics::Equilibrium* contactPhase_;
   MatrixX3 Kin_;  // inequality kinematic constraints
   VectorX kin_;
-- 
2.43.0


From 4392abdaf666427d14c5e82bfeaf3ca2cf24e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 32/43] fix: refuse zero step requests without exactly one
 phase and duration

---
 src/solve_0_step.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index e9a3b64..89f7023 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -232,8 +232,10 @@ ResultDataCOMTraj solve0step(const ProblemData& pData,
                              const std::vector<double>& Ts,
                              const double timeStep) {
   assert(pData.representation_ == DOUBLE_DESCRIPTION);
-  assert(pData.contacts_.size() == 1);
-  assert(Ts.size() == pData.contacts_.size());
+  if (pData.contacts_.size() != 1 || Ts.size() != pData.contacts_.size())
+    throw std::runtime_error(
+        "Zero step capturability requires exactly one contact phase and one "
+        "duration");
   bool fail = true;
   std::pair<MatrixXX, VectorX> Ab = compute6dControlPointInequalities(
       pData.contacts_.front(), pData.c0_, pData.dc0_, pData.l0_,
-- 
2.43.0


From 38f6d0ddcc45f8fe95fb2a8704e78e7dca166019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 33/43] fix: refuse requests without contact phase

---
 src/computeCOMTraj.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index e24fd8e..8797a6e 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -521,6 +521,8 @@ ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
     throw std::runtime_error(
         "Time phase vector has different size than the number of contact "
         "phases");
+  if (pData.contacts_.empty())
+    throw std::runtime_error("There is no contact phase");
   double T = Ts.sum();
   T_time timeArray = computeDiscretizedTimeFixed(Ts, pointsPerPhase);
   std::pair<MatrixXX, VectorX> Ab =
@@ -542,6 +544,8 @@ ResultDataCOMTraj computeCOMTraj(const ProblemData& pData, const VectorX& Ts,
     throw std::runtime_error(
         "Time phase vector has different size than the number of contact "
         "phases");
+  if (pData.contacts_.empty())
+    throw std::runtime_error("There is no contact phase");
   double T = Ts.sum();
   T_time timeArray;
   std::pair<MatrixXX, VectorX> Ab;
-- 
2.43.0


From 4c5d4d63da65a375978de4755c909d532083b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 34/43] fix: refuse contact data without contact phase

---
 src/computeCOMTraj.cpp       | 9 +++++++++
 src/solve_0_step.cpp         | 2 ++
 src/waypoints_definition.cpp | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 8797a6e..67f159e 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -513,6 +513,13 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   return std::make_pair(A, b);
 }
 
+void checkContactPhases(const ProblemData& pData) {
+  for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
+       it != pData.contacts_.end(); ++it)
+    if (!it->contactPhase_)
+      throw std::runtime_error("Contact data without contact phase");
+}
+
 ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
                                           const VectorX& Ts,
                                           const unsigned int pointsPerPhase) {
@@ -523,6 +530,7 @@ ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
         "phases");
   if (pData.contacts_.empty())
     throw std::runtime_error("There is no contact phase");
+  checkContactPhases(pData);
   double T = Ts.sum();
   T_time timeArray = computeDiscretizedTimeFixed(Ts, pointsPerPhase);
   std::pair<MatrixXX, VectorX> Ab =
@@ -546,6 +554,7 @@ ResultDataCOMTraj computeCOMTraj(const ProblemData& pData, const VectorX& Ts,
         "phases");
   if (pData.contacts_.empty())
     throw std::runtime_error("There is no contact phase");
+  checkContactPhases(pData);
   double T = Ts.sum();
   T_time timeArray;
   std::pair<MatrixXX, VectorX> Ab;
diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index 89f7023..e07116d 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -236,6 +236,8 @@ ResultDataCOMTraj solve0step(const ProblemData& pData,
     throw std::runtime_error(
         "Zero step capturability requires exactly one contact phase and one "
         "duration");
+  if (!pData.contacts_.front().contactPhase_)
+    throw std::runtime_error("Contact data without contact phase");
   bool fail = true;
   std::pair<MatrixXX, VectorX> Ab = compute6dControlPointInequalities(
       pData.contacts_.front(), pData.c0_, pData.dc0_, pData.l0_,
diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index ec1108b..9e1357e 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -443,6 +443,8 @@ static const T_compWp compWps = boost::assign::map_list_of(
  * @return
  */
 bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData, double T) {
+  if (pData.contacts_.empty() || !pData.contacts_.front().contactPhase_)
+    throw std::runtime_error("There is no contact phase");
   CIT_compWp cit = compWps.find(pData.constraints_.flag_);
   if (cit != compWps.end())
     return cit->second(pData, T);
-- 
2.43.0


From 2e773de3dbf5d60f309b17c2deea526af503e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 35/43] fix: refuse contact phases without friction cone
 inequalities

---
 src/common_solve_methods.cpp | 8 +++++---
 src/computeCOMTraj.cpp       | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 0750880..1497870 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -94,11 +94,13 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
   // gravity vector
   const point_t& g = cData.contactPhase_->m_gravity;
   // compute GIWC
-  assert(cData.contactPhase_->getAlgorithm() ==
-         centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP);
   centroidal_dynamics::MatrixXX Hrow;
   VectorX h;
-  cData.contactPhase_->getPolytopeInequalities(Hrow, h);
+  if (cData.contactPhase_->getPolytopeInequalities(Hrow, h) !=
+          centroidal_dynamics::LP_STATUS_OPTIMAL ||
+      Hrow.cols() != 6)
+    throw std::runtime_error(
+        "Error in centroidal dynamics lib while computing inequalities");
   MatrixXX H = -Hrow;
   H.rowwise().normalize();
   int dimH = (int)(H.rows());
diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 67f159e..91ccea8 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -124,8 +124,11 @@ void updateH(const ProblemData& pData, const ContactData& phase, MatrixXX& mH,
   centroidal_dynamics::MatrixXX Hrow;
   centroidal_dynamics::LP_status status =
       phase.contactPhase_->getPolytopeInequalities(Hrow, hrow);
-  assert(status == centroidal_dynamics::LP_STATUS_OPTIMAL &&
-         "Error in centroidal dynamics lib while computing inequalities");
+  // the inequalities are missing if the contacts are, or if the phase does not
+  // use the double description
+  if (status != centroidal_dynamics::LP_STATUS_OPTIMAL || Hrow.cols() != 6)
+    throw std::runtime_error(
+        "Error in centroidal dynamics lib while computing inequalities");
   mH = -Hrow * phase.contactPhase_->m_mass;
   mH.rowwise().normalize();
   h = hrow;
-- 
2.43.0


From 82f35563831fa1bfd2133cd6366fe827b392f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 36/43] fix: do not leak a copy of every contact phase in the
 continuous formulation

---
 src/computeCOMTraj.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 91ccea8..1e9127b 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -440,7 +440,6 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   d = VectorX::Zero(num_eq);
 
   double current_t = 0.;
-  ContactData phase;
   int size_kin;
   MatrixXX mH;
   VectorX h;
@@ -458,7 +457,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     bezier_wp_t ws = w.extract(current_t, end_t);
     current_t = end_t;
 
-    phase = pData.contacts_[id_phase];
+    const ContactData& phase = pData.contacts_[id_phase];
 
     // add kinematics constraints :
     size_kin = (int)phase.kin_.rows();
-- 
2.43.0


From 06aaf4303553234ff54705d786d2833d03bceeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 37/43] fix: accept vectors of any shape and refuse mismatched
 sizes in the zero step binding

---
 python/bezier_com_traj.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index dff09bd..aa1d9f3 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -40,11 +40,13 @@ ResultDataCOMTraj* zeroStepCapturability(centroidal_dynamics::Equilibrium* eq,
 ResultDataCOMTraj* zeroStepCapturabilityWithKinConstraints(
     centroidal_dynamics::Equilibrium* eq, const Vector3& com,
     const Vector3& dCom, const Vector3& l0, const bool useAngMomentum,
-    const double timeDuration, const double timeStep, const MatrixXX& Kin,
+    const double timeDuration, const double timeStep, const MatrixX3& Kin,
     const MatrixXX& kin) {
+  if ((kin.rows() != 1 && kin.cols() != 1) || kin.size() != Kin.rows())
+    throw std::runtime_error("Kinematic inequality matrix sizes do not match");
   bezier_com_traj::ContactData data;
   data.Kin_ = Kin;
-  data.kin_ = kin;
+  data.kin_ = Eigen::Map<const VectorX>(kin.data(), kin.size());
   data.contactPhase_ = eq;
   bezier_com_traj::ProblemData pData;
   pData.c0_ = com;
-- 
2.43.0


From be206e945f23096b52dbc87ea82fe980b834f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 38/43] fix: keep contact phases and problem data alive while
 Python refers to them

---
 python/bezier_com_traj.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index aa1d9f3..9c8b016 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -368,9 +368,8 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
           centroidal_dynamics::Equilibrium*>()[with_custodian_and_ward<1, 2>()])
       .add_property(
           "contactPhase_",
-          make_function(&getContactPhase_,
-                        return_value_policy<reference_existing_object>()),
-          &setContactPhase_)
+          make_function(&getContactPhase_, return_internal_reference<>()),
+          make_function(&setContactPhase_, with_custodian_and_ward<1, 2>()))
       .add_property("Kin_", &get_Kin)
       .add_property("Ang_", &get_Ang)
       .def("setKinematicConstraints", &set_Kin)
@@ -390,8 +389,7 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
                     &set_GIWC_representation_)
       .add_property(
           "constraints_",
-          make_function(&get_constraints_,
-                        return_value_policy<reference_existing_object>()),
+          make_function(&get_constraints_, return_internal_reference<>()),
           &set_constraints_)
       .def("clearContacts", clearContacts)
       .def("addContact", addContact);
-- 
2.43.0


From 3d5e0fd713cb7f8e0ab6cdf45bb418d2fa087b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 39/43] fix: refuse contact data whose inequalities have
 mismatched sizes

---
 src/computeCOMTraj.cpp | 6 +++++-
 src/solve_0_step.cpp   | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 1e9127b..13f3302 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -517,9 +517,13 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
 
 void checkContactPhases(const ProblemData& pData) {
   for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
-       it != pData.contacts_.end(); ++it)
+       it != pData.contacts_.end(); ++it) {
     if (!it->contactPhase_)
       throw std::runtime_error("Contact data without contact phase");
+    if (it->kin_.size() > 0 && it->Kin_.rows() != it->kin_.size())
+      throw std::runtime_error(
+          "Kinematic inequality matrix and vector of different sizes");
+  }
 }
 
 ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index e07116d..bd0e7ad 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -236,8 +236,14 @@ ResultDataCOMTraj solve0step(const ProblemData& pData,
     throw std::runtime_error(
         "Zero step capturability requires exactly one contact phase and one "
         "duration");
-  if (!pData.contacts_.front().contactPhase_)
+  const ContactData& cData = pData.contacts_.front();
+  if (!cData.contactPhase_)
     throw std::runtime_error("Contact data without contact phase");
+  if ((cData.kin_.size() > 0 && cData.Kin_.rows() != cData.kin_.size()) ||
+      (pData.useAngularMomentum_ && cData.ang_.size() > 0 &&
+       cData.Ang_.rows() != cData.ang_.size()))
+    throw std::runtime_error(
+        "Inequality matrix and vector of contact data of different sizes");
   bool fail = true;
   std::pair<MatrixXX, VectorX> Ab = compute6dControlPointInequalities(
       pData.contacts_.front(), pData.c0_, pData.dc0_, pData.l0_,
-- 
2.43.0


From 0dde1b29e461813d759dd695dad13d1c6ebd6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 40/43] fix: bound the iterations of the primal simplex, and
 start over with the dual one

---
 src/glpk-wrapper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index c34d740..648cff7 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -102,8 +102,15 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   }
   glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
-  int res = glp_simplex(lp, &opts);
-  res = glp_get_status(lp);
+  // the primal simplex may cycle on degenerate problems: bound the number of
+  // iterations, and start over with the dual simplex when they are exhausted
+  opts.it_lim = 1000 + 100 * (num_constraints_total + xsize);
+  if (glp_simplex(lp, &opts) == GLP_EITLIM) {
+    glp_std_basis(lp);
+    opts.meth = GLP_DUALP;
+    glp_simplex(lp, &opts);
+  }
+  int res = glp_get_status(lp);
   if (res == GLP_OPT) {
     cost = glp_get_obj_val(
         lp);  // obtains a computed value of the objective function
-- 
2.43.0


From b6c8ce4dd81569fd2be54cc14b860ad02badcf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 41/43] fix: report failure instead of aborting on linear
 programs with non-finite data

---
 src/glpk-wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 648cff7..27da86d 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -41,6 +41,10 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
               const MatrixXd& CI, const VectorXd& ci0,
               solvers::Cref_vectorX minBounds, solvers::Cref_vectorX maxBounds,
               VectorXd& x, double& cost) {
+  // GLPK aborts the process when given infinite or undefined numbers
+  if (!g0.allFinite() || !CE.allFinite() || !ce0.allFinite() ||
+      !CI.allFinite() || !ci0.allFinite())
+    return GLP_UNDEF;
   glp_smcp opts;
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
-- 
2.43.0


From ed913c89fb1a57ab5bfb66537705db829d7e37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 42/43] fix: refuse programs with mismatched sizes, keep the
 bounds of programs without inequalities

---
 src/solver-abstract.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 88061f2..91a67f1 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -24,6 +24,7 @@
 #include <Eigen/Sparse>
 #include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
 #include <stdexcept>
+#include <string>
 
 namespace solvers {
 
@@ -38,6 +39,19 @@ typedef Eigen::SparseVector<double> SpVec;
 typedef Eigen::SparseVector<int> SpVeci;
 
 namespace {
+void checkRows(const MatrixXd& rows, const VectorXd& bounds,
+               const Eigen::Index numVars, const std::string& name) {
+  if (rows.rows() != bounds.size() ||
+      (rows.rows() > 0 && rows.cols() != numVars))
+    throw std::runtime_error("solve: mismatched sizes of the " + name +
+                             " constraints");
+}
+
+void checkBounds(Cref_vectorX bounds, const Eigen::Index numVars) {
+  if (bounds.size() != 0 && bounds.size() != numVars)
+    throw std::runtime_error("solve: mismatched size of the bounds");
+}
+
 void addConstraintMinBoundQuadProg(solvers::Cref_vectorX minBounds,
                                    std::pair<MatrixXd, VectorXd>& data) {
   if (minBounds.size() == 0) return;
@@ -91,6 +105,11 @@ ResultData solve(const MatrixXd& A, const VectorXd& b, const MatrixXd& D,
   assert(!(is_nan(D)));
   assert(!(is_nan(d)));
   assert(!(is_nan(initGuess)));
+  const Eigen::Index numVars = g.size();
+  checkRows(A, b, numVars, "inequality");
+  checkRows(D, d, numVars, "equality");
+  checkBounds(minBounds, numVars);
+  checkBounds(maxBounds, numVars);
   ResultData res;
   res.x = initGuess;
   switch (solver) {
@@ -106,15 +125,19 @@ ResultData solve(const MatrixXd& A, const VectorXd& b, const MatrixXd& D,
       // case SOLVER_QUADPROG_SPARSE:
       {
         assert(!(is_nan(Hess)));
-        std::pair<MatrixXd, VectorXd> CIp =
-            addBoundaryConstraintsQuadProg(minBounds, maxBounds, A, b);
+        if (Hess.rows() != numVars || Hess.cols() != numVars)
+          throw std::runtime_error("solve: mismatched size of the Hessian");
+        // constraints without rows may come without columns
+        const MatrixXd none(0, numVars);
+        std::pair<MatrixXd, VectorXd> CIp = addBoundaryConstraintsQuadProg(
+            minBounds, maxBounds, A.rows() > 0 ? A : none, b);
         VectorXd ce0 = -d;
         tsid::solvers::EiquadprogFast QPsolver =
             tsid::solvers::EiquadprogFast();
         tsid::solvers::EiquadprogFast_status status;
         // if(solver == SOLVER_QUADPROG)
-        status = QPsolver.solve_quadprog(Hess, g, D, ce0, -CIp.first,
-                                         CIp.second, res.x);
+        status = QPsolver.solve_quadprog(Hess, g, D.rows() > 0 ? D : none, ce0,
+                                         -CIp.first, CIp.second, res.x);
         /* else
          {
              SpMat Hsp = Hess.sparseView();
@@ -126,6 +149,8 @@ ResultData solve(const MatrixXd& A, const VectorXd& b, const MatrixXd& D,
       }
 #ifdef USE_GLPK_SOLVER
     case SOLVER_GLPK: {
+      if (initGuess.size() != numVars)
+        throw std::runtime_error("solve: mismatched size of the initial guess");
       res.success_ = (solvers::solveglpk(g, D, d, A, b, minBounds, maxBounds,
                                          res.x, res.cost_) == GLP_OPT);
       return res;
-- 
2.43.0


From 905429ec75a761c41485509f95ae10b6ac88df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 43/43] fix: refuse sampled plans without points and time grids
 without a positive step

---
 src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index b1217d2..4198e64 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -80,6 +80,8 @@ std::vector<ndcurves::Bern<double> > ComputeBersteinPolynoms(
 
 T_time computeDiscretizedTimeFixed(const VectorX& phaseTimings,
                                    const unsigned int pointsPerPhase) {
+  if (pointsPerPhase == 0)
+    throw std::runtime_error("At least one point per phase is required");
   T_time timeArray;
   double t = 0;
   double t_total = phaseTimings.sum();
@@ -99,6 +101,8 @@ T_time computeDiscretizedTimeFixed(const VectorX& phaseTimings,
 
 T_time computeDiscretizedTime(const VectorX& phaseTimings,
                               const double timeStep) {
+  if (!(timeStep > 0))
+    throw std::runtime_error("The discretization step must be positive");
   T_time timeArray;
   double t = 0;
   double currentTiming = 0.;
-- 
2.43.0

