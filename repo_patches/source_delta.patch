From 4b4be0d74e6a69bd585a8da50ac5fe653bdee94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 01/26] fix: j0_j1 curve evaluation uses pi[0], not pi[8], for
 the first control point

---
 .../waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..dd4bb66 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
-- 
2.43.0


From 30505ddaa1b43fc3d836a5bdd081507b0fb4442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 02/26] fix: j0_j1 acceleration waypoint w3 uses pi[5]

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index dd4bb66..59d504b 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -436,7 +436,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
-- 
2.43.0


From 676860f8e8e41aed060c90ec627db77287cab320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 03/26] fix: acceleration waypoints of the curves with 3 and 5
 free variables

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh  | 3 +--
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh  | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 3310ae9..0b3a163 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -343,7 +343,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 90 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 90 * (pi[2] - pi[3]);
+  w.second = alpha * 90 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -372,7 +372,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.second = alpha * 90 * (pi[7] - 2 * pi[8] + pi[9]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
   w.second = alpha * 90 * (pi[10] + pi[8] - 2 * pi[9]);
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 830be88..dcfe194 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -371,7 +371,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 132 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 132 * (pi[2] - pi[3]);
+  w.second = alpha * 132 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -401,7 +401,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.first.block<3, 3>(0, 9) = 132 * alpha * Matrix3::Identity();    // x3
   w.first.block<3, 3>(0, 12) = -264 * alpha * Matrix3::Identity();  // x4
-  w.second = alpha * 132 * pi[7];
+  w.second = alpha * 132 * pi[9];
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
@@ -412,7 +412,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w9:
   w.second = alpha * 132 * (pi[9] - 2 * pi[10] + pi[11]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w10:
   w.second = alpha * 132 * (pi[12] + pi[10] - 2 * pi[11]);
-- 
2.43.0


From af15ce61a2eb6058db2759dfc444f231b5bb3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 04/26] fix: powers of t in the 3 free variables velocity and
 acceleration evaluation

---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 0b3a163..921397a 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -102,21 +102,21 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
        t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
        t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
                     360.0 * pi[3])) +
-       t3 * (1.0 *
+       t8 * (1.0 *
              (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
               3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
+       t3 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
                     3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
+       t9 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
                     450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
                     450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
+       t4 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
                     12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
+       t5 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
                     25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
+       t6 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
                     29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
+       t7 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
                     20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
       alpha;
   return wp;
@@ -153,18 +153,18 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
                    720.0 * pi[3])) +
        t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
                     10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
+       t8 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
                     4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
                     4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
+       t3 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
                     50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
+       t4 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
                     126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
+       t5 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
                     176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
+       t6 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
                     141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
+       t7 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
                     60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
                     720.0 * pi[9]))) *
       alpha;
-- 
2.43.0


From 0c8053a30570679984d7dfab5baa1a49ab40365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 05/26] fix: computeBezierCurve handles INIT_JERK and END_JERK

---
 include/hpp/bezier-com-traj/utils.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
-- 
2.43.0


From db95ce9d8c9befbcc2561bdbc02adca078fa1703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 06/26] fix: end velocity cost is only refused when the end
 velocity is constrained

---
 src/costfunction_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costfunction_definition.cpp b/src/costfunction_definition.cpp
index de97f85..fdbfae7 100644
--- a/src/costfunction_definition.cpp
+++ b/src/costfunction_definition.cpp
@@ -24,7 +24,7 @@ void computeCostMidPoint(const ProblemData& pData, const VectorX& /*Ts*/,
 void computeCostEndVelocity(const ProblemData& pData, const VectorX& /*Ts*/,
                             const double T, const T_time& /*timeArray*/,
                             MatrixXX& H, VectorX& g) {
-  if (pData.constraints_.flag_ && END_VEL)
+  if (pData.constraints_.flag_ & END_VEL)
     throw std::runtime_error(
         "Can't use computeCostEndVelocity as cost function when end velocity "
         "is a contraint");
-- 
2.43.0


From c9c417df3114704dcb5b434cc52fe9c47509c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 07/26] fix: size of the quadprog constraint matrix with upper
 bounds

---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From 1236e805631f2644aea23eaef7962310517c29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 08/26] fix: angular momentum constraints use Ang_ and ang_

---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..0750880 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -124,7 +124,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From a0e2be3b653d3abc5ec9175b2c7b7aa2d5337d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 09/26] fix: upper jerk bounds use jerk_bounds

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..8c95fe4 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -181,7 +181,7 @@ void computeConstraintsMatrix(
        wpcit != wps_jerk.end(); ++wpcit) {
     if (!wpcit->first.isZero(std::numeric_limits<double>::epsilon())) {
       A.block(i * DIM_POINT, 0, DIM_POINT, DIM_VAR) = wpcit->first;
-      b.segment<DIM_POINT>(i * DIM_POINT) = vel_bounds - wpcit->second;
+      b.segment<DIM_POINT>(i * DIM_POINT) = jerk_bounds - wpcit->second;
       ++i;
     }
   }
-- 
2.43.0


From 149423d22186523c0df0d804e8933cb95581ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 10/26] fix: constant waypoints at the origin are not the free
 variable

---
 src/waypoints_definition.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..01010db 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -299,14 +299,28 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   const int DIM_POINT = 3;  // FIXME : always true ??
   const int DIM_VAR = dimVar(pData);
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
+  // the free waypoints lie between the ones set by the initial and the final
+  // constraints (without END_POS, END_VEL only repeats the free waypoint)
+  const ConstraintFlag flag = pData.constraints_.flag_;
+  int firstFree = 0, endFree = (int)pts.size();
+  if (flag & INIT_POS) ++firstFree;
+  if (flag & INIT_VEL) ++firstFree;
+  if (flag & INIT_ACC) ++firstFree;
+  if (flag & INIT_JERK) ++firstFree;
+  if (flag & END_POS) {
+    --endFree;
+    if (flag & END_VEL) --endFree;
+    if (flag & END_ACC) --endFree;
+    if (flag & END_JERK) --endFree;
+  }
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  for (int i = 0; i < (int)pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
-      w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
+    if (i >= firstFree && i < endFree) {
+      int idVar = std::min(DIM_POINT * (i - firstFree), DIM_VAR - DIM_POINT);
+      w.first.block(0, idVar, DIM_POINT, DIM_POINT) = Matrix3::Identity();
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From f4fe731c6079e420106a6a3a6e33d24652c83546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 11/26] fix: continuous formulation scales the acceleration
 waypoints by the duration

The waypoints of the second derivative are stored without the 1/T^2 factor
of the curve, so the acceleration bound was applied to T^2 * ddc.
---
 src/computeCOMTraj.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..24db2db 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -427,6 +427,8 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   bezier_wp_t::t_point_t wps_w = computeWwaypoints(pData, T);
   bezier_wp_t c(wps_c.begin(), wps_c.end(), 0., T);
   bezier_wp_t ddc = c.compute_derivate(2);
+  // the waypoints of ddc are not scaled by the duration of the curve
+  const double dd_scale = 1. / (T * T);
   bezier_wp_t w(wps_w.begin(), wps_w.end(), 0., T);
 
   // for each splitted curves : add the constraints for each waypoints
@@ -499,10 +501,10 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add acceleration constraints :
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
          wpit != ddcs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
+      A.block(id_rows, 0, 3, 3) = wpit->first * dd_scale;  // upper
+      b.segment(id_rows, 3) = acc_bounds - wpit->second * dd_scale;
+      A.block(id_rows + 3, 0, 3, 3) = -wpit->first * dd_scale;  // lower
+      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second * dd_scale;
       id_rows += 6;
     }
   }
-- 
2.43.0


From 9d9dd16b6914acf1c3ee1d8ab9feb6d9772b56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 12/26] fix: continuous formulation bounds the acceleration
 only when requested

constraintAcceleration_ was ignored by the continuous formulation.
---
 src/computeCOMTraj.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 24db2db..c143ae1 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -369,7 +369,8 @@ long int computeNumIneqContinuous(const ProblemData& pData, const VectorX& Ts,
     }
   }
   // acceleration constraints : 6 per points
-  num_ineq += (degree - 1) * 6 * Ts.size();
+  if (pData.constraints_.constraintAcceleration_)
+    num_ineq += (degree - 1) * 6 * Ts.size();
   return num_ineq;
 }
 
@@ -500,7 +501,9 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     }
     // add acceleration constraints :
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
-         wpit != ddcs.waypoints().end(); ++wpit) {
+         pData.constraints_.constraintAcceleration_ &&
+         wpit != ddcs.waypoints().end();
+         ++wpit) {
       A.block(id_rows, 0, 3, 3) = wpit->first * dd_scale;  // upper
       b.segment(id_rows, 3) = acc_bounds - wpit->second * dd_scale;
       A.block(id_rows + 3, 0, 3, 3) = -wpit->first * dd_scale;  // lower
-- 
2.43.0


From 8d17083079bdd88ac8ca571da8aedc888d27f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 13/26] fix: GLPK problems are not limited to 20000
 coefficients

---
 src/glpk-wrapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..1dda1f3 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -20,6 +20,7 @@
 #include <glpk.h>
 
 #include <iostream>
+#include <vector>
 
 namespace solvers {
 
@@ -44,9 +45,10 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  const std::size_t maxElements = 1 + CI.size() + CE.size();
+  std::vector<int> ia(maxElements);     // Row indices of each element
+  std::vector<int> ja(maxElements);     // column indices of each element
+  std::vector<double> ar(maxElements);  // values of corresponding elements
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -96,7 +98,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From f879f4f149450b47c5b5489e84fb3cd8455ff2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 14/26] fix: GLPK variables with equal bounds are fixed

glp_simplex refuses a double-bounded column whose bounds are equal.
---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 1dda1f3..5a6bea4 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -29,7 +29,7 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   const double& mabV = mab(i);
   int type = GLP_FR;
   if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
-    type = GLP_DB;
+    type = mibV == mabV ? GLP_FX : GLP_DB;
   else if (mibV > UNBOUNDED_DOWN)
     type = GLP_LO;
   else if (mabV < UNBOUNDED_UP)
-- 
2.43.0


From 08eff5fe43df18df59edbea4ae78344dc7c31331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 15/26] fix: discretised velocity cost keeps the cross terms
 between free points

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 8c95fe4..221bb3e 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -291,14 +291,8 @@ void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
   g = VectorX::Zero(dimVar(pData));
   for (std::vector<waypoint_t>::const_iterator ckcit = cks.begin();
        ckcit != cks.end(); ++ckcit) {
-    // H+=(ckcit->first.transpose() * ckcit->first);
-    // g+=ckcit->second.transpose() * ckcit->first;
-    for (int i = 0; i < (dimVar(pData) / 3); ++i) {
-      H.block<3, 3>(i * 3, i * 3) +=
-          Matrix3::Identity() * ckcit->first(0, i * 3) * ckcit->first(0, i * 3);
-      g.segment<3>(i * 3) +=
-          ckcit->second.segment<3>(0) * ckcit->first(0, i * 3);
-    }
+    H += (ckcit->first.transpose() * ckcit->first);
+    g += ckcit->first.transpose() * ckcit->second;
   }
   // TEST : don't consider z axis for minimum acceleration cost
   // H(2,2) = 1e-6;
-- 
2.43.0


From 2350a6f0f99fa00522ee6fe2bbfc728e45c30d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 16/26] fix: solveEndEffector initialises the initial guess

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 221bb3e..7161f77 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -436,7 +436,7 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
     std::cout << "Dim b   = " << Ab.first.rows() << std::endl;
   }
 
-  VectorX init = VectorX(dimVar(pData));
+  VectorX init = VectorX::Zero(dimVar(pData));
   // init = (pData.c0_ + pData.c1_)/2.;
   // init =pData.c0_;
   if (verbose)
-- 
2.43.0


From 4ed3b6f7dc5185c64d22d39bd246ce60fa0d77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 17/26] fix: eiquadprog reports linearly dependent equalities
 instead of dropping them

---
 src/eiquadprog-fast.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..2b68a57 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -347,6 +347,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
     if (std::abs(z.dot(z)) >
         std::numeric_limits<double>::epsilon())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    else
+      // Equality constraints are linearly dependent
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
 
     x += t2 * z;
 
@@ -769,6 +772,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     if (std::abs(z.dot(z)) >
         std::numeric_limits<double>::epsilon())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    else
+      // Equality constraints are linearly dependent
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
 
     x += t2 * z;
 
-- 
2.43.0


From 30f5dd2da4c038862322b3b0fa30a1309b40535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 18/26] fix: check the kinematic constraints given to
 zeroStepCapturability in Python

The vector was taken as a matrix: a row array, or a vector whose length differs
from the number of rows of the matrix, was read out of bounds by the solver.
---
 python/bezier_com_traj.cpp | 41 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index dff09bd..fd2c195 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -37,27 +37,6 @@ ResultDataCOMTraj* zeroStepCapturability(centroidal_dynamics::Equilibrium* eq,
   return new ResultDataCOMTraj(res);
 }
 
-ResultDataCOMTraj* zeroStepCapturabilityWithKinConstraints(
-    centroidal_dynamics::Equilibrium* eq, const Vector3& com,
-    const Vector3& dCom, const Vector3& l0, const bool useAngMomentum,
-    const double timeDuration, const double timeStep, const MatrixXX& Kin,
-    const MatrixXX& kin) {
-  bezier_com_traj::ContactData data;
-  data.Kin_ = Kin;
-  data.kin_ = kin;
-  data.contactPhase_ = eq;
-  bezier_com_traj::ProblemData pData;
-  pData.c0_ = com;
-  pData.dc0_ = dCom;
-  pData.l0_ = l0;
-  pData.contacts_.push_back(data);
-  pData.useAngularMomentum_ = useAngMomentum;
-  std::vector<double> Ts;
-  Ts.push_back(timeDuration);
-  ResultDataCOMTraj res = solve0step(pData, Ts, timeStep);
-  return new ResultDataCOMTraj(res);
-}
-
 struct res_data_exception : std::exception {
   char const* what() const throw() {
     return "attributes not accessible for false resData";
@@ -156,6 +135,26 @@ void set_Ang(ContactData& res, const MatrixX3& val, const VectorX& val2) {
 
 /** END CONTACT DATA **/
 
+ResultDataCOMTraj* zeroStepCapturabilityWithKinConstraints(
+    centroidal_dynamics::Equilibrium* eq, const Vector3& com,
+    const Vector3& dCom, const Vector3& l0, const bool useAngMomentum,
+    const double timeDuration, const double timeStep, const MatrixX3& Kin,
+    const VectorX& kin) {
+  bezier_com_traj::ContactData data;
+  set_Kin(data, Kin, kin);
+  data.contactPhase_ = eq;
+  bezier_com_traj::ProblemData pData;
+  pData.c0_ = com;
+  pData.dc0_ = dCom;
+  pData.l0_ = l0;
+  pData.contacts_.push_back(data);
+  pData.useAngularMomentum_ = useAngMomentum;
+  std::vector<double> Ts;
+  Ts.push_back(timeDuration);
+  ResultDataCOMTraj res = solve0step(pData, Ts, timeStep);
+  return new ResultDataCOMTraj(res);
+}
+
 /** BEGIN Constraints**/
 int get_Flag(const Constraints& res) { return (int)res.flag_; }
 bool get_ConstrainAcc(const Constraints& res) {
-- 
2.43.0


From 8e8ce52ed69dadecaefd57b987081d72d3eb2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 19/26] fix: check the number of path points given to
 computeEndEffectorDistanceCost in Python

With fewer columns than numPoints the path was read out of bounds.
---
 python/bezier_com_traj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index fd2c195..84e1285 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -302,6 +302,8 @@ MatrixVector* computeEndEffectorDistanceCostPython(const ProblemData& pData,
                                                    const double time,
                                                    const int numPoints,
                                                    point_list_t pts_l) {
+  if (numPoints != pts_l.cols())
+    throw std::runtime_error("pts_l must have numPoints columns");
   std::vector<bezier_t::point_t> pi = computeConstantWaypoints(pData, time);
   // transform the matrice 3xN in a std::vector<point3_t> of size N :
   std::vector<point3_t> pts_path;
-- 
2.43.0


From 5e9c3ba05af9ab567fc4c3a8dd003fb14649667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 20/26] fix: eiquadprog survives numerically dependent
 inequalities

When adding a violated constraint failed because it is numerically dependent on
the active ones, the routine wrote past the active set, marked equalities in the
inequality set and then selected the same constraint for ever. The next violated
constraint is tried now, and the problem is reported as not solved when none is
left or the active set cannot be restored.
---
 src/eiquadprog-fast.cpp | 43 +++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 2b68a57..3fea510 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -174,10 +174,13 @@ void EiquadprogFast::delete_constraint(MatrixXd& R, MatrixXd& J, VectorXi& A,
     R.col(i) = R.col(i + 1);
   }
 
-  A(iq - 1) = A(iq);
-  u(iq - 1) = u(iq);
-  A(iq) = 0;
-  u(iq) = 0.0;
+  // move the constraint being added (if there is one) behind the active ones
+  if (iq < A.size()) {
+    A(iq - 1) = A(iq);
+    u(iq - 1) = u(iq);
+    A(iq) = 0;
+    u(iq) = 0.0;
+  }
   for (j = 0; j < iq; j++) R(j, iq - 1) = 0.0;
   /* constraint has been fully removed */
   iq--;
@@ -247,6 +250,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
   int i, k, l;    // indices
   int ip;         // index of the chosen violated constraint
   int iq;         // current number of active constraints
+  int iq_old;     // number of active constraints before the current step
+  double f_old;   // solution value before the current step
   double psi;     // current sum of constraint violations
   double c1;      // Hessian trace
   double c2;      // Hessian Chowlesky factor trace
@@ -469,11 +474,14 @@ l1:
   u_old.head(iq) = u.head(iq);
   A_old.head(iq) = A.head(iq);
   x_old = x;
+  iq_old = iq;
+  f_old = f_value;
 
 l2: /* Step 2: check for feasibility and determine a new S-pair */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2);
   // find constraint with highest violation (what about normalizing
   // constraints?)
+  ss = 0.0;
   for (i = 0; i < nIneqCon; i++) {
     if (s(i) < ss && iai(i) != -1 && iaexcl(i)) {
       ss = s(i);
@@ -482,6 +490,9 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    // a violated constraint was excluded because it is numerically dependent
+    for (i = 0; i < nIneqCon; i++)
+      if (!iaexcl(i)) return EIQUADPROG_FAST_INFEASIBLE;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -613,13 +624,19 @@ l2a: /* Step 2a: determine step direction */
       print_matrix("R", R, nVars);
       print_vector("A", A, iq);
 #endif
+      if (iq != iq_old) {
+        // the constraints dropped during this step cannot be restored
+        q = iq;
+        return EIQUADPROG_FAST_INFEASIBLE;
+      }
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
+      f_value = f_old;
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
@@ -675,6 +692,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   int i, k, l;    // indices
   int ip;         // index of the chosen violated constraint
   int iq;         // current number of active constraints
+  int iq_old;     // number of active constraints before the current step
+  double f_old;   // solution value before the current step
   double psi;     // current sum of constraint violations
   double c1;      // Hessian trace
   double c2;      // Hessian Chowlesky factor trace
@@ -894,11 +913,14 @@ l1:
   u_old.head(iq) = u.head(iq);
   A_old.head(iq) = A.head(iq);
   x_old = x;
+  iq_old = iq;
+  f_old = f_value;
 
 l2: /* Step 2: check for feasibility and determine a new S-pair */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2);
   // find constraint with highest violation (what about normalizing
   // constraints?)
+  ss = 0.0;
   for (i = 0; i < nIneqCon; i++) {
     if (s(i) < ss && iai(i) != -1 && iaexcl(i)) {
       ss = s(i);
@@ -907,6 +929,9 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    // a violated constraint was excluded because it is numerically dependent
+    for (i = 0; i < nIneqCon; i++)
+      if (!iaexcl(i)) return EIQUADPROG_FAST_INFEASIBLE;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -1038,13 +1063,19 @@ l2a: /* Step 2a: determine step direction */
       print_matrix("R", R, nVars);
       print_vector("A", A, iq);
 #endif
+      if (iq != iq_old) {
+        // the constraints dropped during this step cannot be restored
+        q = iq;
+        return EIQUADPROG_FAST_INFEASIBLE;
+      }
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
+      f_value = f_old;
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
-- 
2.43.0


From cb10f9501224d030243578f90f9f7a2f5ff07cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 21/26] fix: eiquadprog sparse routine uses the inverse factor
 of the Hessian

The result of the triangular solve was dropped, and the fill-reducing permutation
of the factorization was ignored.
---
 src/eiquadprog-fast.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 3fea510..732c5a4 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -728,10 +728,12 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
 #ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
+    cholsp_.matrixU().solveInPlace(m_J);
 #else
     m_J = cholsp_.matrixU().solve(m_J);
 #endif
+    // the factorization is that of the permuted matrix
+    m_J = cholsp_.permutationPinv() * m_J;
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
   }
 
-- 
2.43.0


From 86ad8592e92430230bd38f25cfcd9e69465da124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 22/26] fix: eiquadprog sign of the unconstrained minimiser
 when the inverse factor is given

---
 src/eiquadprog-fast.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 732c5a4..c3431b1 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -310,6 +310,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
     x = m_J * (m_J.transpose() * g0);
+#ifdef OPTIMIZE_UNCONSTR_MINIM
+    x = -x;
+#endif
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     x = -g0;
@@ -751,6 +754,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
     x = m_J * (m_J.transpose() * g0);
+#ifdef OPTIMIZE_UNCONSTR_MINIM
+    x = -x;
+#endif
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     // x = -g0;
-- 
2.43.0


From 23bc609b3a16f72bd429e33aba65edb1f1339ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 23/26] fix: Python references keep the objects they point into
 alive

The constraints of a ProblemData and the contact phase of a ContactData were
exposed as bare references: using them after their owner was collected read and
wrote freed memory.
---
 python/bezier_com_traj.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index 84e1285..b5918ec 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -367,9 +367,8 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
           centroidal_dynamics::Equilibrium*>()[with_custodian_and_ward<1, 2>()])
       .add_property(
           "contactPhase_",
-          make_function(&getContactPhase_,
-                        return_value_policy<reference_existing_object>()),
-          &setContactPhase_)
+          make_function(&getContactPhase_, return_internal_reference<>()),
+          make_function(&setContactPhase_, with_custodian_and_ward<1, 2>()))
       .add_property("Kin_", &get_Kin)
       .add_property("Ang_", &get_Ang)
       .def("setKinematicConstraints", &set_Kin)
@@ -389,8 +388,7 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
                     &set_GIWC_representation_)
       .add_property(
           "constraints_",
-          make_function(&get_constraints_,
-                        return_value_policy<reference_existing_object>()),
+          make_function(&get_constraints_, return_internal_reference<>()),
           &set_constraints_)
       .def("clearContacts", clearContacts)
       .def("addContact", addContact);
-- 
2.43.0


From a7c7147147f2148b19a5c9af6cf1174c13db76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 24/26] fix: ProblemData initialises the initial angular
 momentum

---
 include/hpp/bezier-com-traj/data.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index 0f3912b..fdf632c 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -99,6 +99,7 @@ struct BEZIER_COM_TRAJ_DLLAPI ProblemData {
         dc1_(point_t::Zero()),
         ddc1_(point_t::Zero()),
         j1_(point_t::Zero()),
+        l0_(point_t::Zero()),
         useAngularMomentum_(false),
         costFunction_(ACCELERATION),
         representation_(DOUBLE_DESCRIPTION) {}
-- 
2.43.0


From 00ac29d514a244b29edfbbc4570b4950993b9828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 25/26] fix: copying a ContactData without contact phase does
 not dereference null

---
 include/hpp/bezier-com-traj/data.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index fdf632c..a71bdb7 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -33,8 +33,10 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
         ang_(VectorX::Zero(0)) {}
 
   ContactData(const ContactData& other)
-      : contactPhase_(
-            new centroidal_dynamics::Equilibrium(*(other.contactPhase_))),
+      : contactPhase_(other.contactPhase_
+                          ? new centroidal_dynamics::Equilibrium(
+                                *(other.contactPhase_))
+                          : 0),
         Kin_(other.Kin_),
         kin_(other.kin_),
         Ang_(other.Ang_),
-- 
2.43.0


From 812d33be862683e4e95e8f794bd0ca48b4abab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 26/26] fix: continuous formulation accepts phases without
 kinematic constraints

---
 src/computeCOMTraj.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c143ae1..0bdc414 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -473,9 +473,11 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     size_kin = (int)phase.kin_.rows();
     for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
          wpit != cs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
-      b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
-      id_rows += size_kin;
+      if (size_kin > 0) {
+        A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
+        b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
+        id_rows += size_kin;
+      }
     }
     // add stability constraints
     if (useDD) {
-- 
2.43.0

