From 3c6236f756ba8ed5767ba3911bb043a8a2c26dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 01/92] fix: read back non-finite values saved by ASCIILogger

operator>> fails on the "inf" and "nan" that saveState writes, so one
non-finite entry made readState return garbage for it and for every value
after it.
---
 src/common/data_logging.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/data_logging.hpp b/src/common/data_logging.hpp
index c9afab9..4f9de15 100644
--- a/src/common/data_logging.hpp
+++ b/src/common/data_logging.hpp
@@ -1,6 +1,7 @@
 #ifndef MISO_DATA_LOGGING
 #define MISO_DATA_LOGGING
 
+#include <cstdlib>
 #include <iostream>
 #include <filesystem>
 #include <fstream>
@@ -51,7 +52,11 @@ public:
       auto filename = prefix + "/" + fieldname + "_" +
                       std::to_string(timestep) + "_" + std::to_string(rank);
       std::ifstream infile(filename);
-      infile >> time;
+      // extraction into a double rejects "inf" and "nan", which saveState
+      // writes for non-finite values, so convert the text instead
+      std::string value;
+      infile >> value;
+      time = std::strtod(value.c_str(), nullptr);
 
       int size = 0;
       infile >> size;
@@ -59,7 +64,8 @@ public:
       state.SetSize(size);
       for (int i = 0; i < size; ++i)
       {
-         infile >> state(i);
+         infile >> value;
+         state(i) = std::strtod(value.c_str(), nullptr);
       }
    }
 
-- 
2.43.0


From 753ddd80d7f8e392e0c55be1a6d2d68b34b41710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 02/92] fix: never accept a non-finite merit value in
 BacktrackingLineSearch

---
 src/common/linesearch.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 2d3cd77..14255a5 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <functional>
 
 #include "mfem.hpp"
@@ -68,7 +69,8 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
    int iter = 0;
    // std::cout << "linesearch iter 0: phi(0) = " << phi0
    //           << ", dphi(0)/dalpha = " << dphi0 << "\n";
-   while (phi2 > phi0 + mu * alpha2 * dphi0)
+   // written so that a NaN merit function value is never accepted
+   while (!(phi2 <= phi0 + mu * alpha2 * dphi0))
    {
       iter += 1;
       // std::cout << "linesearch iter " << iter << ": alpha = " << alpha2
@@ -95,6 +97,11 @@ double BacktrackingLineSearch::search(const std::function<double(double)> &phi,
       alpha1 = alpha2;
       phi1 = phi2;
 
+      // non-finite merit function values leave no usable interpolant
+      if (std::isnan(alpha_tmp))
+      {
+         alpha_tmp = alpha2 * rho_lo;
+      }
       alpha_tmp = std::min(alpha_tmp, alpha2 * rho_hi);
       alpha2 = std::max(alpha_tmp, alpha2 * rho_lo);
 
-- 
2.43.0


From feb46e52fac30117c899fe3bbd61e0eb223bd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 03/92] fix: sign of the quadratic fallback of the cubic
 line-search interpolant

---
 src/common/linesearch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/linesearch.cpp b/src/common/linesearch.cpp
index 14255a5..69919b1 100644
--- a/src/common/linesearch.cpp
+++ b/src/common/linesearch.cpp
@@ -39,9 +39,9 @@ double cubic_interp(double phi0,
              pow(alpha2, 3) * (phi_alpha1 - phi0 - dphi0 * alpha1)) /
             denom;
 
-   if (abs(a) < std::numeric_limits<double>::epsilon())
+   if (std::abs(a) < std::numeric_limits<double>::epsilon())
    {
-      return dphi0 / (2 * b);
+      return -dphi0 / (2 * b);
    }
    else
    {
-- 
2.43.0


From 90f86a473158854d10eaa0c6cd96f43b567d8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 04/92] fix: slope of the merit function in InexactNewton's
 quadratic backtracking

---
 src/common/inexact_newton.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index 0e3bdfd..35b4429 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -21,10 +21,10 @@ double InexactNewton::ComputeStepSize(const Vector &x,
    Vector temp(r.Size());
 
    double p0 = 0.5 * norm * norm;
-   // temp=F'(x_i)*r(x_i)
-   jac->Mult(r, temp);
-   // c is the negative inexact newton step size.
-   double p0p = -Dot(c, temp);
+   // temp=F'(x_i)*c, where c is the negative inexact newton step
+   jac->Mult(c, temp);
+   // p(s) = 0.5*||F(x_i - s*c)||^2, so p'(0) = -r^T*F'(x_i)*c
+   double p0p = -Dot(r, temp);
    // Calculate the new norm.
 
    add(x, -1.0, c, x_new);
-- 
2.43.0


From c0a6b228e6c14d2a11087308617b07e3ef08ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 05/92] fix: never accept a step with a NaN residual in
 InexactNewton

---
 src/common/inexact_newton.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/inexact_newton.cpp b/src/common/inexact_newton.cpp
index 35b4429..e2c5978 100644
--- a/src/common/inexact_newton.cpp
+++ b/src/common/inexact_newton.cpp
@@ -38,7 +38,8 @@ double InexactNewton::ComputeStepSize(const Vector &x,
 
    // Globalization start from here.
    int itt = 0;
-   while (err_new > (1 - t * (1 - theta)) * norm)
+   // written so that a NaN residual norm is never accepted
+   while (!(err_new <= (1 - t * (1 - theta)) * norm))
    {
       double p1 = 0.5 * err_new * err_new;
       // Quadratic interpolation between [0,1]
-- 
2.43.0


From 2a3bd3e7cac006c89c5ba9611add633448492c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 06/92] fix: linear Jacobi polynomial for nonzero beta

---
 src/common/orthopoly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/orthopoly.cpp b/src/common/orthopoly.cpp
index 6d775c4..f248981 100644
--- a/src/common/orthopoly.cpp
+++ b/src/common/orthopoly.cpp
@@ -83,7 +83,7 @@ void jacobiPoly(const Vector &x,
    double gamma1 = (alpha + 1) * (beta + 1) * gamma0 / (alpha + beta + 3);
    // Set poly_1(:) = ((alpha+beta+2)*x(:) + (alpha-beta))*0.5/sqrt(gamma1)
    Vector poly_1(size);
-   poly_1 = alpha + beta;
+   poly_1 = alpha - beta;
    add(poly_1, alpha + beta + 2, x, poly_1);
    poly_1 *= 0.5 / sqrt(gamma1);
    if (degree == 1)
-- 
2.43.0


From 65322fa40a2529457068d91bff9d0fa81ca4bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 07/92] fix: scaling of off-node SBPSegmentElement shape
 functions

---
 src/common/sbp_fe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index bc4de9c..10fc5f5 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -453,7 +453,7 @@ void SBPSegmentElement::CalcShape(const IntegrationPoint &ip,
       for (int i = 0; i <= order; ++i)
       {
          miso::jacobiPoly(xvec, 0.0, 0.0, i, poly);
-         poly *= 2.0;  // scale to mfem reference element
+         poly *= sqrt(2.0);  // scale to mfem reference element
          for (int k = 0; k < GetDof(); ++k)
          {
             shape(k) += poly(0) * V(k, ptr) * H(k);
-- 
2.43.0


From eb60f5704c604a4cfeca66fb6a1dc7963c5f8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 08/92] fix: CalcDShape of SBP elements returns a row of
 H^{-1}Q

---
 src/common/sbp_fe.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index 10fc5f5..e79ae0c 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -503,7 +503,7 @@ void SBPSegmentElement::CalcDShape(const IntegrationPoint &ip,
    Vector tempVec(dof);
    Q[0].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(0, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 // //////////////////////////////////////////////////////////////////////////
@@ -923,7 +923,7 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
    dshape.SetCol(0, tempVec);
    Q[1].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(1, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 SBPTetrahedronElement::SBPTetrahedronElement(const int degree, const int num_nodes)
@@ -1121,7 +1121,7 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
    dshape.SetCol(1, tempVec);
    Q[2].GetColumnReference(ipIdx, tempVec);
    dshape.SetCol(2, tempVec);
-   dshape.InvLeftScaling(H);
+   dshape *= 1.0 / H(ipIdx);
 }
 
 SBPCollection::SBPCollection(const int p, const int dim)
-- 
2.43.0


From 257f2df70ae61e47ea76ff3f4d1c3f30d5985a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 09/92] fix: SBP CalcDShape refuses points that are not nodes

---
 src/common/sbp_fe.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index e79ae0c..6ab55fb 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -497,6 +497,11 @@ void SBPSegmentElement::CalcDShape(const IntegrationPoint &ip,
          }
       }
    }
+   if (ipIdx == -1)
+   {
+      throw miso::MISOException("SBPSegmentElement::CalcDShape(ip)\n"
+                                "\tprovided ip is not a node of the element!");
+   }
    // TODO: I think we can make tempVec an empty Vector, since it is just a
    // reference
    dshape = 0.0;
@@ -916,6 +921,11 @@ void SBPTriangleElement::CalcDShape(const IntegrationPoint &ip,
          }
       }
    }
+   if (ipIdx == -1)
+   {
+      throw miso::MISOException("SBPTriangleElement::CalcDShape(ip)\n"
+                                "\tprovided ip is not a node of the element!");
+   }
    dshape = 0.0;
 
    Vector tempVec(dof);
@@ -1112,6 +1122,11 @@ void SBPTetrahedronElement::CalcDShape(const IntegrationPoint &ip, DenseMatrix &
          }
       }
    }
+   if (ipIdx == -1)
+   {
+      throw miso::MISOException("SBPTetrahedronElement::CalcDShape(ip)\n"
+                                "\tprovided ip is not a node of the element!");
+   }
    dshape = 0.0;
 
    Vector tempVec(dof);
-- 
2.43.0


From 0136f8ff2e47fa26cecbe660125c00296cc4207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 10/92] fix: node order of SBPSegmentElement matches the edges
 of SBPTriangleElement

---
 src/common/data/sbp_operators.hpp | 56 +++++++++++++++----------------
 src/common/sbp_fe.cpp             | 23 ++++++++-----
 2 files changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/common/data/sbp_operators.hpp b/src/common/data/sbp_operators.hpp
index 557c6e3..6180626 100644
--- a/src/common/data/sbp_operators.hpp
+++ b/src/common/data/sbp_operators.hpp
@@ -36,65 +36,65 @@ const double p2Qx_seg[16] = {-0.5,
 
 const double p3Qx_seg[25] = {-0.5000000000000002,
                              -0.0500000000000001,
+                             -0.26666666666667205,
                              0.6756502488724212,
                              0.14101641779424046,
-                             -0.26666666666667205,
                              0.0500000000000001,
                              0.5000000000000002,
+                             0.26666666666667255,
                              -0.14101641779424054,
                              -0.6756502488724213,
-                             0.26666666666667255,
+                             0.26666666666667205,
+                             -0.26666666666667255,
+                             0.0,
+                             -0.9504601441389896,
+                             0.9504601441389896,
                              -0.6756502488724212,
                              0.14101641779424054,
+                             0.9504601441389896,
                              0.0,
                              -0.415826313060808,
-                             0.9504601441389896,
                              -0.14101641779424046,
                              0.6756502488724213,
-                             0.415826313060808,
-                             0.0,
-                             -0.9504601441389896,
-                             0.26666666666667205,
-                             -0.26666666666667255,
                              -0.9504601441389896,
-                             0.9504601441389896,
+                             0.415826313060808,
                              0.0};
 
 const double p4Qx_seg[36] = {-0.5,
                              0.03333333333333333,
-                             0.676094395754648,
-                             -0.08999422094603349,
                              -0.26907915135368776,
                              0.14964564321174234,
+                             0.676094395754648,
+                             -0.08999422094603349,
                              -0.03333333333333333,
                              0.5,
-                             0.08999422094603403,
-                             -0.6760943957546471,
                              -0.14964564321174223,
                              0.26907915135368754,
-                             -0.676094395754648,
-                             -0.08999422094603403,
-                             0.0,
-                             0.24735136431306004,
-                             0.9550538393084307,
-                             -0.43631658692081304,
-                             0.08999422094603349,
-                             0.6760943957546471,
-                             -0.24735136431306004,
-                             0.0,
-                             0.43631658692081254,
-                             -0.9550538393084305,
+                             0.08999422094603403,
+                             -0.6760943957546471,
                              0.26907915135368776,
                              0.14964564321174223,
-                             -0.9550538393084307,
-                             -0.43631658692081254,
                              0.0,
                              0.9726456316638089,
+                             -0.9550538393084307,
+                             -0.43631658692081254,
                              -0.14964564321174234,
                              -0.26907915135368754,
+                             -0.9726456316638089,
+                             0.0,
                              0.43631658692081304,
                              0.9550538393084305,
-                             -0.9726456316638089,
+                             -0.676094395754648,
+                             -0.08999422094603403,
+                             0.9550538393084307,
+                             -0.43631658692081304,
+                             0.0,
+                             0.24735136431306004,
+                             0.08999422094603349,
+                             0.6760943957546471,
+                             0.43631658692081254,
+                             -0.9550538393084305,
+                             -0.24735136431306004,
                              0.0};
 
 /// SBP Triangle Qx and Qy matrix data arrays, stored in row major format;
diff --git a/src/common/sbp_fe.cpp b/src/common/sbp_fe.cpp
index 6ab55fb..ade6ef3 100644
--- a/src/common/sbp_fe.cpp
+++ b/src/common/sbp_fe.cpp
@@ -360,18 +360,23 @@ SBPSegmentElement::SBPSegmentElement(const int degree)
    Nodes.IntPoint(0).weight = wts(0);
    Nodes.IntPoint(1).x = pts(num_nodes - 1);
    Nodes.IntPoint(1).weight = wts(num_nodes - 1);
-   for (int i = 0; i < (num_nodes - 2) / 2; ++i)
-   {
-      Nodes.IntPoint(2 * (i + 1)).x = pts(i + 1);
-      Nodes.IntPoint(2 * (i + 1)).weight = wts(i + 1);
-      Nodes.IntPoint(2 * (i + 1) + 1).x = 1.0 - pts(i + 1);
-      Nodes.IntPoint(2 * (i + 1) + 1).weight = wts(i + 1);
-   }
+   // SBPTriangleElement lists the nodes of an edge from the middle outward
+   int ptr = 2;
    if (num_nodes % 2 == 1)
    {
       // Account for mid-point node
-      Nodes.IntPoint(num_nodes - 1).x = pts((num_nodes - 1) / 2);
-      Nodes.IntPoint(num_nodes - 1).weight = wts((num_nodes - 1) / 2);
+      Nodes.IntPoint(ptr).x = pts((num_nodes - 1) / 2);
+      Nodes.IntPoint(ptr).weight = wts((num_nodes - 1) / 2);
+      ++ptr;
+   }
+   for (int i = (num_nodes - 2) / 2 - 1; i >= 0; --i)
+   {
+      Nodes.IntPoint(ptr).x = pts(i + 1);
+      Nodes.IntPoint(ptr).weight = wts(i + 1);
+      ++ptr;
+      Nodes.IntPoint(ptr).x = 1.0 - pts(i + 1);
+      Nodes.IntPoint(ptr).weight = wts(i + 1);
+      ++ptr;
    }
 
    // Populate the Q[0] matrix
-- 
2.43.0


From 1064a622924fdec9b744ea00678347d6f7feade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 11/92] fix: secant reports a failure to converge

The limit on the number of iterations was tested with a condition that can
never hold after the loop, and a NaN function value ended the iteration, so
that values that are not roots were returned silently.
---
 src/utils/utils.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 4c345f1..26185e9 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -355,8 +355,13 @@ double secant(const std::function<double(double)> &func,
    x = x2;
    f = f2;
    int iter = 0;
-   while ((fabs(f) > ftol) && (iter < maxiter))
+   // written so that a NaN function value is never taken for a root
+   while (!(fabs(f) <= ftol))
    {
+      if (iter >= maxiter)
+      {
+         throw MISOException("secant: maximum number of iterations exceeded");
+      }
       ++iter;
       try
       {
@@ -377,10 +382,6 @@ double secant(const std::function<double(double)> &func,
          cerr << "secant: " << exception.what() << endl;
       }
    }
-   if (iter > maxiter)
-   {
-      throw MISOException("secant: maximum number of iterations exceeded");
-   }
    return x;
 }
 
-- 
2.43.0


From fec02892fc08f0c6de488c8d823af4e65d094cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 12/92] fix: bisection returns roots at the end points and
 refuses NaN values

A root at an end point made it return the midpoint, NaN values were taken for
converged, and convergence in exactly maxiter iterations was refused.
---
 src/utils/utils.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 26185e9..fc6f795 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -294,16 +294,29 @@ double bisection(const std::function<double(double)> &func,
 {
    double fl = func(xl);
    double fr = func(xr);
-   if (fl * fr > 0.0)
+   if (!(fl * fr <= 0.0))
    {
-      cerr << "bisection: func(xl)*func(xr) is positive." << endl;
+      cerr << "bisection: func(xl)*func(xr) is not negative." << endl;
       throw(-1);
    }
+   if (fl == 0.0)
+   {
+      return xl;
+   }
+   if (fr == 0.0)
+   {
+      return xr;
+   }
    double xm = 0.5 * (xl + xr);
    double fm = func(xm);
    int iter = 0;
-   while ((abs(fm) > ftol) && (abs(xr - xl) > xtol) && (iter < maxiter))
+   while (!(abs(fm) <= ftol) && (abs(xr - xl) > xtol))
    {
+      if (iter >= maxiter)
+      {
+         cerr << "bisection: failed to find a solution in maxiter." << endl;
+         throw(-1);
+      }
       iter++;
       // cout << "iter = " << iter << ": f(x) = " << fm << endl;
       if (fm * fl < 0.0)
@@ -318,16 +331,12 @@ double bisection(const std::function<double(double)> &func,
       }
       else
       {
-         break;
+         cerr << "bisection: func is not a number." << endl;
+         throw(-1);
       }
       xm = 0.5 * (xl + xr);
       fm = func(xm);
    }
-   if (iter >= maxiter)
-   {
-      cerr << "bisection: failed to find a solution in maxiter." << endl;
-      throw(-1);
-   }
    return xm;
 }
 
-- 
2.43.0


From 3c7178f2ad9b6efc96e87a5fdc2b83ba3cf35915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 13/92] fix: attrVecToArray refuses attributes outside of the
 marker array

---
 src/utils/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index fc6f795..05b658e 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -132,6 +132,11 @@ void attrVecToArray(const std::vector<int> &vec_attributes,
    attributes = 0;
    for (const auto &attr : vec_attributes)
    {
+      if (attr < 1 || attr > attributes.Size())
+      {
+         throw MISOException("Attribute " + std::to_string(attr) +
+                             " is not an attribute of the mesh!");
+      }
       attributes[attr - 1] = 1;
    }
 }
-- 
2.43.0


From 4b0a5cf464081850d3727d124400deb41f9838d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 14/92] fix: name the unknown ODE solver type in the error
 message

---
 src/common/ode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index f4a4a82..327ccac 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -246,8 +246,7 @@ void FirstOrderODE::setTimestepper(const nlohmann::json &ode_options)
    }
    else
    {
-      throw MISOException("Unknown ODE solver type: " +
-                          ode_options["ode-solver"].get<std::string>());
+      throw MISOException("Unknown ODE solver type: " + timestepper);
       // TODO: parallel exit
    }
    ode_solver_->Init(*this);
-- 
2.43.0


From 5bb66f36e4a79e1a6ce9c54732fe9ac014ef7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 15/92] fix: evaluate the space-time residual at the iterate of
 the nonlinear solver

---
 src/common/ode.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index 327ccac..9c9d44a 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -46,6 +46,18 @@ void addJacobians(mfem::Operator &A,
    }
 }
 
+/// \brief Helper function that finds the du_dt to evaluate a space-time
+/// residual at: either `inputs["state_dot"]`, or the unknown of the nonlinear
+/// solver, `inputs["state"]`, or the value that was last set
+void setStateDot(const MISOInputs &inputs,
+                 mfem::Vector &last_state_dot,
+                 mfem::Vector &state_dot)
+{
+   state_dot.NewDataAndSize(last_state_dot.GetData(), last_state_dot.Size());
+   auto key = (inputs.count("state_dot") != 0) ? "state_dot" : "state";
+   setVectorFromInputs(inputs, key, state_dot);
+}
+
 }  // namespace miso
 
 namespace miso
@@ -98,8 +110,10 @@ void evaluate(TimeDependentResidual &residual,
 {
    auto &dt = residual.dt;
    auto &state = residual.state;
-   auto &state_dot = residual.state_dot;
    auto &work = residual.work;
+   /// the nonlinear solver passes its iterate for du_dt in as "state"
+   mfem::Vector state_dot;
+   setStateDot(inputs, residual.state_dot, state_dot);
    if (dt == 0.0)
    {
       MISOInputs input{{"state", state}};
@@ -111,7 +125,7 @@ void evaluate(TimeDependentResidual &residual,
       MISOInputs input{{"state", work}};
       evaluate(residual.spatial_res_, input, res_vec);
    }
-   residual.mass_matrix_->Mult(residual.state_dot, residual.work);
+   residual.mass_matrix_->Mult(state_dot, residual.work);
    res_vec += residual.work;
 }
 
@@ -127,8 +141,9 @@ mfem::Operator &getJacobian(TimeDependentResidual &residual,
    }
 
    auto &state = residual.state;
-   auto &state_dot = residual.state_dot;
    auto &work = residual.work;
+   mfem::Vector state_dot;
+   setStateDot(inputs, residual.state_dot, state_dot);
    add(state, dt, state_dot, work);
    MISOInputs input{{"state", work}};
 
-- 
2.43.0


From faf83686d9d343295a65ffe46f6170d4252b369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 16/92] fix: sum space-time Jacobians with different sparsity
 patterns

---
 src/common/ode.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index 9c9d44a..5197520 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -14,23 +14,21 @@ namespace miso
 void addJacobians(mfem::Operator &A,
                   double dt,
                   mfem::Operator &B,
-                  mfem::Operator &C)
+                  std::unique_ptr<mfem::Operator> &C)
 {
    auto *hypre_A = dynamic_cast<mfem::HypreParMatrix *>(&A);
    auto *hypre_B = dynamic_cast<mfem::HypreParMatrix *>(&B);
    if (hypre_A != nullptr && hypre_B != nullptr)
    {
-      auto *hypre_C = dynamic_cast<mfem::HypreParMatrix *>(&C);
-      *hypre_C = 0.0;
-      *hypre_C += *hypre_A;
-      hypre_C->Add(dt, *hypre_B);
+      /// the sparsity patterns of A and B can be different
+      C.reset(mfem::Add(1.0, *hypre_A, dt, *hypre_B));
       return;
    }
    auto *iden_A = dynamic_cast<mfem::IdentityOperator *>(&A);
    auto *dense_B = dynamic_cast<mfem::DenseMatrix *>(&B);
    if (iden_A != nullptr && dense_B != nullptr)
    {
-      auto *dense_C = dynamic_cast<mfem::DenseMatrix *>(&C);
+      auto *dense_C = dynamic_cast<mfem::DenseMatrix *>(C.get());
       dense_C->Diag(1.0, dense_B->Width());
       dense_C->Add(dt, *dense_B);
       return;
@@ -40,7 +38,7 @@ void addJacobians(mfem::Operator &A,
    /// auto *matfree_B = dynamic_cast<JacobianFree *>(&B);
    if (block_A != nullptr)
    {
-      auto *sum_C = dynamic_cast<SumOfOperators *>(&C);
+      auto *sum_C = dynamic_cast<SumOfOperators *>(C.get());
       sum_C->Add(1.0, A, dt, B);
       return;
    }
@@ -160,7 +158,7 @@ mfem::Operator &getJacobian(TimeDependentResidual &residual,
    {
       // The spatial Jacobian is stored explicitly (e.g. HypreParMatrix)
       auto &spatial_jac = getJacobian(residual.spatial_res_, input, wrt);
-      addJacobians(*residual.mass_matrix_, dt, spatial_jac, *residual.jac_);
+      addJacobians(*residual.mass_matrix_, dt, spatial_jac, residual.jac_);
    }
    return *residual.jac_;
 }
-- 
2.43.0


From eab36e43a391b63e56b804290b8424736b6d6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 17/92] fix: refuse unsupported mass matrix and Jacobian
 combinations

---
 src/common/ode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/ode.cpp b/src/common/ode.cpp
index 5197520..7be79e6 100644
--- a/src/common/ode.cpp
+++ b/src/common/ode.cpp
@@ -42,6 +42,8 @@ void addJacobians(mfem::Operator &A,
       sum_C->Add(1.0, A, dt, B);
       return;
    }
+   throw MISOException(
+       "Unsupported combination of mass matrix and spatial Jacobian!\n");
 }
 
 /// \brief Helper function that finds the du_dt to evaluate a space-time
-- 
2.43.0


From 5ae25d0aa07bf0389b1c8af9fb87c2d6693185f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 18/92] fix: space-time residual returns the preconditioner of
 its spatial residual

---
 src/common/ode.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/ode.hpp b/src/common/ode.hpp
index 131c4f3..1d14c14 100644
--- a/src/common/ode.hpp
+++ b/src/common/ode.hpp
@@ -42,8 +42,7 @@ public:
    friend double calcSupplyRate(TimeDependentResidual &residual,
                                 const MISOInputs &inputs);
 
-   friend mfem::Solver *getPreconditioner(TimeDependentResidual &residual,
-                                          const nlohmann::json &options)
+   friend mfem::Solver *getPreconditioner(TimeDependentResidual &residual)
    {
       return getPreconditioner(residual.spatial_res_);
    }
-- 
2.43.0


From 4b3428835243c31d3438aa059463cd7df61ce2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 19/92] fix: count the step that ends the time integration
 early

---
 src/common/abstract_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index c756032..17747e6 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -109,6 +109,7 @@ void AbstractSolver2::solveForState(const MISOInputs &inputs,
          ode->step(state, t, dt);
          if (iterationExit(ti, t, t_final, dt, state))
          {
+            ++ti;  // count the step that was just taken
             break;
          }
       }
-- 
2.43.0


From 87e736d8ac6206617868e22efb3f36dd76ea2ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 20/92] fix: log the initial state with the initial time

---
 src/common/abstract_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/abstract_solver.cpp b/src/common/abstract_solver.cpp
index 17747e6..bd8f217 100644
--- a/src/common/abstract_solver.cpp
+++ b/src/common/abstract_solver.cpp
@@ -516,13 +516,14 @@ void AbstractSolver2::vectorJacobianProduct(const mfem::Vector &res_bar,
 
 void AbstractSolver2::initialHook(const mfem::Vector &state)
 {
+   const double t0 = ode ? options["time-dis"]["t-initial"].get<double>() : 0.0;
    for (auto &pair : loggers)
    {
       auto &logger = pair.first;
       auto &options = pair.second;
       if (options.initial_state)
       {
-         logState(logger, state, "state", 0, 0.0, rank);
+         logState(logger, state, "state", 0, t0, rank);
       }
    }
 }
-- 
2.43.0


From 068289d9700b42eff1d3ee2898ff7d8d53cc6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 21/92] fix: SumOfOperators ignores old results and supports
 rectangular operators

---
 src/common/matrix_operators.cpp | 17 +++++++++++++++--
 src/common/matrix_operators.hpp |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 6412dac..080442a 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -16,7 +16,7 @@ SumOfOperators::SumOfOperators(double alpha,
    b(beta),
    oper_a(&oper1),
    oper_b(&oper2),
-   work_vec(oper1.Width())
+   work_vec(oper1.Height())
 {
    if ((oper_a->Height() != oper_b->Height()) ||
        (oper_a->Width() != oper_b->Width()))
@@ -30,6 +30,11 @@ void SumOfOperators::Add(double alpha,
                          double beta,
                          Operator &oper2)
 {
+   if ((oper1.Height() != height) || (oper2.Height() != height) ||
+       (oper1.Width() != width) || (oper2.Width() != width))
+   {
+      throw MISOException("SumOfOperators: Operator sizes are incompatible!\n");
+   }
    a = alpha;
    b = beta;
    oper_a = &oper1;
@@ -38,7 +43,7 @@ void SumOfOperators::Add(double alpha,
 
 void SumOfOperators::Mult(const Vector &x, Vector &y) const
 {
-   y.SetSize(x.Size());
+   y.SetSize(height);
    const double zero = 1e-16;
    if (fabs(a) > zero)
    {
@@ -48,6 +53,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          work_vec *= a;
       }
    }
+   else
+   {
+      work_vec = 0.0;
+   }
    if (fabs(b) > zero)
    {
       oper_b->Mult(x, y);
@@ -56,6 +65,10 @@ void SumOfOperators::Mult(const Vector &x, Vector &y) const
          y *= b;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    y += work_vec;
 }
 
diff --git a/src/common/matrix_operators.hpp b/src/common/matrix_operators.hpp
index 66ad0d7..de5efbe 100644
--- a/src/common/matrix_operators.hpp
+++ b/src/common/matrix_operators.hpp
@@ -21,7 +21,7 @@ public:
       b(0.0),
       oper_a(nullptr),
       oper_b(nullptr),
-      work_vec(width)
+      work_vec(height)
    { }
 
    /// Construct an empty operator with a pre-defined height
-- 
2.43.0


From c61c64bbb274c2e6b89747f41b861e9b1b2f7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 22/92] fix: Jacobian-free product with zero scaling starts
 from zero

---
 src/common/matrix_operators.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 080442a..09bfda7 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -116,6 +116,10 @@ void JacobianFree::Mult(const mfem::Vector &x, mfem::Vector &y) const
          y *= scale;
       }
    }
+   else
+   {
+      y = 0.0;
+   }
    if (explicit_part)
    {
       // Include contribution from explicit operator, if necessary
-- 
2.43.0


From 5eff47bffd7dee202c43cc2a190d579f8d1b57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 23/92] fix: Jacobian-free diagonal blocks accept empty and
 refuse incompatible explicit blocks

---
 src/common/matrix_operators.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/common/matrix_operators.cpp b/src/common/matrix_operators.cpp
index 09bfda7..68a25b5 100644
--- a/src/common/matrix_operators.cpp
+++ b/src/common/matrix_operators.cpp
@@ -142,29 +142,33 @@ mfem::Operator &JacobianFree::getDiagonalBlock(int i) const
           "explicit part of operator must be castable to "
           "BlockOperator!\n");
    }
+   // the explicit part does not contribute if its block is not defined
+   Operator *exp_block = nullptr;
+   if (block_op != nullptr && block_op->IsZeroBlock(i, i) == 0)
+   {
+      exp_block = &block_op->GetBlock(i, i);
+   }
 
    // Case 1: HypreParMatrix
    HypreParMatrix *hypre_jac = dynamic_cast<HypreParMatrix *>(&jac);
-   if (hypre_jac)
+   HypreParMatrix *hypre_exp = dynamic_cast<HypreParMatrix *>(exp_block);
+   if (hypre_jac && (!exp_block || hypre_exp))
    {
       *hypre_jac *= scale;
-      if (block_op)
+      if (hypre_exp)
       {
-         Operator &exp_block = block_op->GetBlock(i, i);
-         HypreParMatrix *hypre_exp = dynamic_cast<HypreParMatrix *>(&exp_block);
          *hypre_jac += *hypre_exp;
       }
       return jac;
    }
    // Case 2: DenseMatrix
    DenseMatrix *dense_jac = dynamic_cast<DenseMatrix *>(&jac);
-   if (dense_jac)
+   DenseMatrix *dense_exp = dynamic_cast<DenseMatrix *>(exp_block);
+   if (dense_jac && (!exp_block || dense_exp))
    {
       *dense_jac *= scale;
-      if (block_op)
+      if (dense_exp)
       {
-         Operator &exp_block = block_op->GetBlock(i, i);
-         DenseMatrix *dense_exp = dynamic_cast<DenseMatrix *>(&exp_block);
          *dense_jac += *dense_exp;
       }
       return jac;
-- 
2.43.0


From a82eb0773b008a075bed37b6cf8b154a4a3431ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 24/92] fix: hyprefgmres obeys the absolute tolerance

---
 src/common/mfem_extensions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/mfem_extensions.cpp b/src/common/mfem_extensions.cpp
index 9d72388..e3ac15a 100644
--- a/src/common/mfem_extensions.cpp
+++ b/src/common/mfem_extensions.cpp
@@ -439,6 +439,9 @@ std::unique_ptr<mfem::Solver> constructLinearSolver(
    {
       auto fgmres = std::make_unique<mfem::HypreFGMRES>(comm);
       fgmres->SetTol(reltol);
+      // mfem::HypreFGMRES has no SetAbsTol
+      HYPRE_ParCSRFlexGMRESSetAbsoluteTol(static_cast<HYPRE_Solver>(*fgmres),
+                                          abstol);
       fgmres->SetMaxIter(maxiter);
       fgmres->SetPrintLevel(ptl);
       if (kdim != -1)
-- 
2.43.0


From aa701fe6bbee3ee090fb46da7b7ac6989ec93306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 25/92] fix: dpressdq wrote its result through a pointer to
 const

---
 src/physics/fluidflow/euler_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 213e4db..d391f3e 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -57,7 +57,7 @@ inline xdouble pressure(const xdouble *q)
 /// \tparam xdouble - either double or adouble
 /// \tparam dim - number of physical dimensions
 template <typename xdouble, int dim>
-void dpressdq(const xdouble *q, const xdouble *dpdq)
+void dpressdq(const xdouble *q, xdouble *dpdq)
 {
    xdouble phi = 0.0;
    for (int i = 0; i < dim; ++i)
-- 
2.43.0


From 77e7945c2ca1ce15315c069501755d333bcb1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 26/92] fix: affine entropy did not say which variables its
 reference state is in

---
 src/physics/fluidflow/euler_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index d391f3e..29dae28 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -224,7 +224,7 @@ inline xdouble entropy(const xdouble *q, const xdouble *qe)
    xdouble ent_ref = entropy<xdouble, dim>(qe);
    ent -= ent_ref;
    xdouble we[dim + 2];
-   calcEntropyVars<xdouble, dim>(qe, we);
+   calcEntropyVars<xdouble, dim, false>(qe, we);
    for (int i = 0; i < dim + 2; ++i)
       ent -= we[i] * (q[i] - qe[i]);
    return ent;
-- 
2.43.0


From 8fe0a3dc82a0572cfd416cbf5c03a49bb5810121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 27/92] fix: inviscid manufactured solution was not the one its
 source term belongs to

---
 src/physics/fluidflow/euler_fluxes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 29dae28..44e1b26 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1289,9 +1289,9 @@ void InviscidMMSExact(int dim, const xdouble *x, xdouble *u)
          const double scale = 1.0;
          const double T0    = 1.0;
          const double Tp    = 0.1;
-         u[0] = rho0 + rhop*(sin(M_PI*pow((x[0] + trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
-         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*(sin(M_PI*pow((x[0]+trans)/scale,2.0)));
-         u[2] = -up*(sin(2*M_PI*pow((x[0]+trans)/scale,2.0)))*sin(M_PI*(x[1]+trans)/scale);
+         u[0] = rho0 + rhop*(pow(sin(M_PI*(x[0] + trans)/scale),2.0))*sin(M_PI*(x[1]+trans)/scale);
+         u[1] = 4*u0*((x[1]+trans)/scale)*(1 - ((x[1]+trans)/scale)) + up*sin(2*M_PI*(x[1]+trans)/scale)*(pow(sin(M_PI*(x[0]+trans)/scale),2.0));
+         u[2] = -up*(pow(sin(2*M_PI*(x[0]+trans)/scale),2.0))*sin(M_PI*(x[1]+trans)/scale);
          u[3] = 0.0;
          double Tem  = T0 + Tp*(pow(((x[0]+trans)/scale),4.0) - 2.0*pow(((x[0]+trans)/scale),3.0) + pow(((x[0]+trans)/scale),2.0) 
                      + pow(((x[1]+trans)/scale),4.0) - 2.0*pow(((x[1]+trans)/scale),3.0) + pow(((x[1]+trans)/scale),2.0));
-- 
2.43.0


From fb7efc5d47f7f9253684cb35c46c91b84f6c4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 28/92] fix: 3D viscous manufactured solution read past the
 coordinates

---
 src/physics/fluidflow/navier_stokes_fluxes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 4347f77..3888c28 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -372,7 +372,7 @@ void viscousMMSExact(int dim, const xdouble *x, xdouble *u)
             const double w_0 = 0.5;
             const double T_0 = 1.0;
 
-            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[3]);
+            u[0] = r_0 + r_0*0.1*sin(2*r_xyz*M_PI*x[0])*sin(2*r_xyz*M_PI*x[1])*sin(2*r_xyz*M_PI*x[2]);
             u[1] = u_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[2] = v_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
             u[3] = w_0*((pow(x[0],3)/3. - pow(x[0],2)/2.) + (pow(x[1],3)/3. - pow(x[1],2)/2.) + (pow(x[2],3)/3. - pow(x[2],2)/2.)); 
-- 
2.43.0


From dff6e32417af681b7e619d9cea1d77b80cbb4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 29/92] fix: energy source of the 3D viscous manufactured
 solution used another z velocity

---
 src/physics/fluidflow/navier_stokes_fluxes.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/physics/fluidflow/navier_stokes_fluxes.hpp b/src/physics/fluidflow/navier_stokes_fluxes.hpp
index 3888c28..58a9645 100644
--- a/src/physics/fluidflow/navier_stokes_fluxes.hpp
+++ b/src/physics/fluidflow/navier_stokes_fluxes.hpp
@@ -489,35 +489,35 @@ void calcViscousMMS(int dim, double mu, double Pr, const xdouble *x, xdouble *sr
                 - 6*w_0*x[0]*(x[0] - 1)*(u_0*x[2]*(x[2] - 1) + w_0*x[0]*(x[0] - 1)) - 6*w_0*x[1]*(x[1] - 1)*(v_0*x[2]*(x[2] - 1) + w_0*x[1]*(x[1] - 1)) 
                 + 4.0*w_0*x[2]*(x[2] - 1)*(u_0*x[0]*(x[0] - 1) + v_0*x[1]*(x[1] - 1) - 2*w_0*x[2]*(x[2] - 1))) + r_0*u_0*x[0]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
-                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + 36*pow(x[2], 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*u_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[0]) + 2*x[0]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[0] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*v_0*x[1]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*v_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
-                + pow(v_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[2])*cos(2*M_PI*r_xyz*x[1]) + 2*x[1]*(pow(u_0, 2) 
+                + pow(v_0, 2) + pow(w_0, 2))*(x[1] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) 
                 + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2)) + r_0*w_0*x[2]*(72*T_0 + (gamma - 1)*(72*T_0 + pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) 
                 - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2)))*(x[2] - 1)*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1) 
                 + r_0*w_0*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + (gamma - 1)*(2.4000000000000004*M_PI*T_0*r_xyz*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 0.033333333333333333*M_PI*r_xyz*(pow(u_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) 
                 + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) + pow(v_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2) 
-                + 36*pow(x[2], 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
+                + pow(w_0, 2)*pow(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2), 2))*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*cos(2*M_PI*r_xyz*x[2]) 
                 + 2*x[2]*(0.10000000000000001*sin(2*M_PI*r_xyz*x[0])*sin(2*M_PI*r_xyz*x[1])*sin(2*M_PI*r_xyz*x[2]) + 1)*(pow(u_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) 
                 - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(v_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) 
-                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + 6)))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
+                - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)) + pow(w_0, 2)*(x[2] - 1)*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))))*(2*pow(x[0], 3) - 3*pow(x[0], 2) + 2*pow(x[1], 3) - 3*pow(x[1], 2) + 2*pow(x[2], 3) - 3*pow(x[2], 2)))/(gamma - 1);    
             // src[0] = 10.0;
             // src[1] = 11.0;
             // src[2] = 12.0;
-- 
2.43.0


From 8487403aeaa4d590cfee14f833ac7a2e19f9d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 30/92] fix: Lp error of one state component did not take the
 absolute value

---
 src/physics/finite_element_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/finite_element_state.cpp b/src/physics/finite_element_state.cpp
index 7646152..bc86cd1 100644
--- a/src/physics/finite_element_state.cpp
+++ b/src/physics/finite_element_state.cpp
@@ -285,7 +285,7 @@ double calcLpError(const FiniteElementState &state,
       {
          const auto &ip = ir->IntPoint(j);
          T->SetIntPoint(&ip);
-         double ip_error = loc_errs(j);
+         double ip_error = fabs(loc_errs(j));
          if (p < mfem::infinity())
          {
             ip_error = pow(ip_error, p);
-- 
2.43.0


From 76148dc0c4f27ef35cff4eecaf8a39efaca6f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 31/92] fix: PDESolver built with a state-count function
 ignored the components' materials

---
 src/physics/pde_solver.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/physics/pde_solver.cpp b/src/physics/pde_solver.cpp
index 991f102..9289b0b 100644
--- a/src/physics/pde_solver.cpp
+++ b/src/physics/pde_solver.cpp
@@ -337,16 +337,11 @@ void PDESolver::getMeshCoordinates(mfem::Vector &mesh_coords) const
    fields.at("mesh_coords").setTrueVec(mesh_coords);
 }
 
-PDESolver::PDESolver(MPI_Comm incomm,
-                     const nlohmann::json &solver_options,
-                     const int num_states,
-                     std::unique_ptr<mfem::Mesh> smesh)
- : AbstractSolver2(incomm, solver_options),
-   mesh_(constructMesh(comm, options["mesh"], std::move(smesh))),
-   materials(material_library)
+/// Loop over all components specified in options and add their specified
+/// materials to the solver's known material library
+static void addComponentMaterials(const nlohmann::json &solver_options,
+                                  nlohmann::json &materials)
 {
-   /// loop over all components specified in options and add their specified
-   /// materials to the solver's known material library
    if (solver_options.contains("components"))
    {
       for (const auto &component : solver_options["components"])
@@ -363,6 +358,17 @@ PDESolver::PDESolver(MPI_Comm incomm,
          }
       }
    }
+}
+
+PDESolver::PDESolver(MPI_Comm incomm,
+                     const nlohmann::json &solver_options,
+                     const int num_states,
+                     std::unique_ptr<mfem::Mesh> smesh)
+ : AbstractSolver2(incomm, solver_options),
+   mesh_(constructMesh(comm, options["mesh"], std::move(smesh))),
+   materials(material_library)
+{
+   addComponentMaterials(solver_options, materials);
 
    fields.emplace(
        "state",
@@ -396,6 +402,8 @@ PDESolver::PDESolver(
    mesh_(constructMesh(comm, options["mesh"], std::move(smesh))),
    materials(material_library)
 {
+   addComponentMaterials(solver_options, materials);
+
    int ns = num_states(solver_options, mesh().SpaceDimension());
    fields.emplace(
        "state", FiniteElementState(mesh(), options["space-dis"], ns, "state"));
-- 
2.43.0


From 49d72ea7b551abd545c08038a08d1dcd680ff9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 32/92] fix: control points and knots of the team13 B-H curve
 were swapped

---
 src/common/material_library.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/material_library.cpp b/src/common/material_library.cpp
index 4263c50..4bff991 100644
--- a/src/common/material_library.cpp
+++ b/src/common/material_library.cpp
@@ -148,7 +148,7 @@ const auto team13 = R"(
 {
    "reluctivity": {
       "bh": {
-         "cps": [
+         "knots": [
             0.0,
             0.0,
             0.0,
@@ -163,7 +163,7 @@ const auto team13 = R"(
             2.22
          ],
          "degree": 3,
-         "knots": [
+         "cps": [
             0.0,
             164.46362274610001,
             301.3546318106,
-- 
2.43.0


From d1a2c59681a551b33b86ea9f026524b42c2f8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 33/92] fix: give the composite materials' constituents the
 dkappa_df entries their fill-factor derivative refers to

---
 src/common/material_library.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/common/material_library.cpp b/src/common/material_library.cpp
index 4bff991..8a7cf78 100644
--- a/src/common/material_library.cpp
+++ b/src/common/material_library.cpp
@@ -281,7 +281,8 @@ const auto copper = R"(
    "rho": 8960,
    "drho_df": 8960,
    "cv": 376,
-   "kappa": 400
+   "kappa": 400,
+   "dkappa_df": 400
 }
 )"_json;
 
@@ -324,7 +325,8 @@ const auto aluminum = R"(
 {
    "rho": 2700,
    "drho_df": 2700,
-   "kappa": 237
+   "kappa": 237,
+   "dkappa_df": 237
 }
 )"_json;
 
@@ -367,7 +369,8 @@ const auto silver = R"(
 {
    "rho": 10490,
    "drho_df": 10490,
-   "kappa": 429
+   "kappa": 429,
+   "dkappa_df": 429
 }
 )"_json;
 
@@ -411,7 +414,8 @@ const auto magnesium = R"(
 {
    "rho": 1740,
    "drho_df": 1740,
-   "kappa": 156
+   "kappa": 156,
+   "dkappa_df": 156
 }
 )"_json;
 
@@ -454,7 +458,8 @@ const auto iron = R"(
 {
    "rho": 7874,
    "drho_df": 7874,
-   "kappa": 79.5
+   "kappa": 79.5,
+   "dkappa_df": 79.5
 }
 )"_json;
 
@@ -462,7 +467,8 @@ const auto epoxy = R"(
 {
    "rho": 1200,
    "drho_df": 1200,
-   "kappa": 1
+   "kappa": 1,
+   "dkappa_df": 1
 }
 )"_json;
 
-- 
2.43.0


From f61a1fa9607d31dc4c7774e1abfdef6243d9fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 34/92] fix: components selected by a single attr ignored their
 Demag or CAL2 material model and threw

---
 src/physics/electromagnetics/cal2_ke_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/cal2_kh_coefficient.cpp       | 4 ++--
 src/physics/electromagnetics/demag_flux_coefficient.cpp    | 4 ++--
 src/physics/electromagnetics/pm_demag_constraint_coeff.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index a7d7070..75db13f 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2keCoefficient::CAL2keCoefficient(const nlohmann::json &CAL2_ke_options,
          if (-1 != attr)
          {
             CAL2_ke.addCoefficient(
-                attr, constructDefaultCAL2_keCoeff(component, materials));
+                attr, constructCAL2_keCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index 029cf72..aba0ae7 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -491,7 +491,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
@@ -514,7 +514,7 @@ CAL2khCoefficient::CAL2khCoefficient(const nlohmann::json &CAL2_kh_options,
          if (-1 != attr)
          {
             CAL2_kh.addCoefficient(
-                attr, constructDefaultCAL2_khCoeff(component, materials));
+                attr, constructCAL2_khCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/demag_flux_coefficient.cpp b/src/physics/electromagnetics/demag_flux_coefficient.cpp
index 6e88fff..51edacd 100644
--- a/src/physics/electromagnetics/demag_flux_coefficient.cpp
+++ b/src/physics/electromagnetics/demag_flux_coefficient.cpp
@@ -228,7 +228,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
@@ -251,7 +251,7 @@ DemagFluxCoefficient::DemagFluxCoefficient(const nlohmann::json &B_knee_options,
          if (-1 != attr)
          {
             B_knee.addCoefficient(
-                attr, constructDefaultDemagFluxCoeff(component, materials));
+                attr, constructDemagFluxCoeff(component, materials));
          }
          else
          {
diff --git a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
index d5006d4..c75f328 100644
--- a/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
+++ b/src/physics/electromagnetics/pm_demag_constraint_coeff.cpp
@@ -467,7 +467,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
@@ -492,7 +492,7 @@ PMDemagConstraintCoefficient::PMDemagConstraintCoefficient(
          {
             PMDemagConstraint.addCoefficient(
                 attr,
-                constructDefaultPMDemagConstraintCoeff(component, materials));
+                constructPMDemagConstraintCoeff(component, materials));
          }
          else
          {
-- 
2.43.0


From e38ec8fe5a52b5bc0d80f43d7203c68002b31641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 35/92] fix: CAL2 loss coefficient derivatives were NaN where
 the flux density vanishes

---
 .../electromagnetics/cal2_ke_coefficient.cpp     | 16 ++++++++--------
 .../electromagnetics/cal2_kh_coefficient.cpp     | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/physics/electromagnetics/cal2_ke_coefficient.cpp b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
index 75db13f..b6adb48 100644
--- a/src/physics/electromagnetics/cal2_ke_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_ke_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarEddyCurrentLossCoeff::EvalDerivS3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3(
 
    // double dke_T0_f_BdB_m = 0.0;
    double d2ke_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // dke_T0_f_BdB_m += i*ke_T0[i]*std::pow(B_m,i-1);
       d2ke_T0_f_BdB_m2 += (i - 1) * i * ke_T0[i] * std::pow(B_m, i - 2);
    }
    double dke_T1_f_BdB_m = 0.0;
    double d2ke_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // dke_T1_f_BdB_m += i*ke_T1[i]*std::pow(B_m,i-1);
       d2ke_T1_f_BdB_m2 += (i - 1) * i * ke_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS1S3(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarEddyCurrentLossCoeff::Eval2ndDerivS3S1(
 
    // double ke_T0_f_B = 0.0;
    double dke_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T0.size()); ++i)
    {
       // ke_T0_f_B += ke_T0[i]*std::pow(B_m,i);
       dke_T0_f_BdB_m += i * ke_T0[i] * std::pow(B_m, i - 1);
    }
    // double ke_T1_f_B = 0.0;
    double dke_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(ke_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(ke_T1.size()); ++i)
    {
       // ke_T1_f_B += ke_T1[i]*std::pow(B_m,i);
       dke_T1_f_BdB_m += i * ke_T1[i] * std::pow(B_m, i - 1);
diff --git a/src/physics/electromagnetics/cal2_kh_coefficient.cpp b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
index aba0ae7..242dfe1 100644
--- a/src/physics/electromagnetics/cal2_kh_coefficient.cpp
+++ b/src/physics/electromagnetics/cal2_kh_coefficient.cpp
@@ -639,14 +639,14 @@ double PolyVarHysteresisLossCoeff::EvalDerivS3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -718,14 +718,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3(
 
    // double dkh_T0_f_BdB_m = 0.0;
    double d2kh_T0_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // dkh_T0_f_BdB_m += i*kh_T0[i]*std::pow(B_m,i-1);
       d2kh_T0_f_BdB_m2 += (i - 1) * i * kh_T0[i] * std::pow(B_m, i - 2);
    }
    // double dkh_T1_f_BdB_m = 0.0;
    double d2kh_T1_f_BdB_m2 = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 2; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // dkh_T1_f_BdB_m += i*kh_T1[i]*std::pow(B_m,i-1);
       d2kh_T1_f_BdB_m2 += (i - 1) * i * kh_T1[i] * std::pow(B_m, i - 2);
@@ -776,14 +776,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS1S3(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
@@ -855,14 +855,14 @@ double PolyVarHysteresisLossCoeff::Eval2ndDerivS3S1(
 
    // double kh_T0_f_B = 0.0;
    double dkh_T0_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T0.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T0.size()); ++i)
    {
       // kh_T0_f_B += kh_T0[i]*std::pow(B_m,i);
       dkh_T0_f_BdB_m += i * kh_T0[i] * std::pow(B_m, i - 1);
    }
    // double kh_T1_f_B = 0.0;
    double dkh_T1_f_BdB_m = 0.0;
-   for (int i = 0; i < static_cast<int>(kh_T1.size()); ++i)
+   for (int i = 1; i < static_cast<int>(kh_T1.size()); ++i)
    {
       // kh_T1_f_B += kh_T1[i]*std::pow(B_m,i);
       dkh_T1_f_BdB_m += i * kh_T1[i] * std::pow(B_m, i - 1);
-- 
2.43.0


From ee5ff2163ae26961b7d2556a5270616a39fb2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 36/92] fix: mesh sensitivity of VolumeIntegrator was zero when
 the density pointer refers to no coefficient

---
 src/physics/mfem_common_integ.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 77259cd..d3bb388 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -225,19 +225,16 @@ void VolumeIntegratorMeshSens::AssembleRHSElementVect(
 
       double w_bar = 0.0;
       PointMat_bar = 0.0;
-      if (rho != nullptr)
+      if (rho != nullptr && *rho != nullptr)
       {
-         if (*rho != nullptr)
-         {
-            double s = (*rho)->Eval(trans, ip);
+         double s = (*rho)->Eval(trans, ip);
 
-            /// val = w * s;
-            double s_bar = val_bar * w;
-            w_bar += val_bar * s;
+         /// val = w * s;
+         double s_bar = val_bar * w;
+         w_bar += val_bar * s;
 
-            /// double s = rho->Eval(trans, ip);
-            (*rho)->EvalRevDiff(s_bar, trans, ip, PointMat_bar);
-         }
+         /// double s = rho->Eval(trans, ip);
+         (*rho)->EvalRevDiff(s_bar, trans, ip, PointMat_bar);
       }
       else
       {
-- 
2.43.0


From 9a7d0e33816eb22bdea162324e2dd162f03f880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 37/92] fix: StateIntegrator evaluated shape functions into a
 vector it never sized

---
 src/physics/mfem_common_integ.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index d3bb388..50bfbd2 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -296,6 +296,11 @@ double StateIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
                                          mfem::ElementTransformation &trans,
                                          const mfem::Vector &elfun)
 {
+#ifdef MFEM_THREAD_SAFE
+   Vector shape;
+#endif
+   shape.SetSize(el.GetDof());
+
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
@@ -315,6 +320,11 @@ void StateIntegrator::AssembleElementVector(const mfem::FiniteElement &el,
                                             const mfem::Vector &elfun,
                                             mfem::Vector &elfun_bar)
 {
+#ifdef MFEM_THREAD_SAFE
+   Vector shape;
+#endif
+   shape.SetSize(el.GetDof());
+
    const auto *ir =
        &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + trans.OrderW());
 
-- 
2.43.0


From 0e6724b575497ac3ca34ba248a058f5a41da4a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 38/92] fix: mesh sensitivity of a scaled vector mass form
 ignored the scaling in the derivative of the weight

---
 src/physics/mfem_common_integ.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 50bfbd2..0af360a 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -2852,7 +2852,8 @@ void VectorFEMassIntegratorMeshSens::AssembleRHSElementVect(
       MultAtB(vshape, vshapedxt_bar, adj_jac_bar);
 
       /// double w = alpha * ip.weight / trans.Weight();
-      double trans_weight_bar = -w_bar * ip.weight / pow(trans.Weight(), 2);
+      double trans_weight_bar =
+          -w_bar * alpha * ip.weight / pow(trans.Weight(), 2);
 
       PointMat_bar = 0.0;
       isotrans.WeightRevDiff(PointMat_bar);
-- 
2.43.0


From 0970d2dee8bf568415b681bad7b632180db806ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 39/92] fix: mesh sensitivity of DomainLFIntegrator used
 another quadrature rule than the load on quads and hexes

---
 src/physics/mfem_common_integ.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/physics/mfem_common_integ.cpp b/src/physics/mfem_common_integ.cpp
index 0af360a..d9d4dd2 100644
--- a/src/physics/mfem_common_integ.cpp
+++ b/src/physics/mfem_common_integ.cpp
@@ -3163,27 +3163,9 @@ void DomainLFIntegratorMeshRevSens::AssembleRHSElementVect(
    const IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = [&]()
-      {
-         if (el.Space() == FunctionSpace::Pk)
-         {
-            return 2 * el.GetOrder() - 2;
-         }
-         else
-         {
-            // order = 2*el.GetOrder() - 2;  // <-- this seems to work fine too
-            return 2 * el.GetOrder() + el.GetDim() - 1;
-         }
-      }();
-
-      if (el.Space() == FunctionSpace::rQk)
-      {
-         ir = &RefinedIntRules.Get(el.GetGeomType(), order);
-      }
-      else
-      {
-         ir = &IntRules.Get(el.GetGeomType(), order);
-      }
+      /// the rule used by the primal integrator
+      int order = 2 * el.GetOrder() - 2;
+      ir = &IntRules.Get(el.GetGeomType(), order);
    }
 
    auto &alpha = integ.alpha;
-- 
2.43.0


From a005d67d7d35ad9d717aab3af8d4625ca5206816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:50 +0000
Subject: [PATCH 40/92] fix: forward product of MassFunctional wrt fill_factor
 used the density instead of its derivative

---
 src/physics/common_outputs.cpp | 17 +++++++++++++++++
 src/physics/common_outputs.hpp |  5 +----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 0804a0e..6eec5ac 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -31,6 +31,23 @@ VolumeFunctional::VolumeFunctional(
    }
 }
 
+double jacobianVectorProduct(MassFunctional &output,
+                             const mfem::Vector &wrt_dot,
+                             const std::string &wrt)
+{
+   if (wrt == "fill_factor")
+   {
+      *output.rho_ptr = output.drho_df.get();
+      const double out_dot = jacobianVectorProduct(output.output, wrt_dot, wrt);
+      *output.rho_ptr = output.rho.get();
+      return out_dot;
+   }
+   else
+   {
+      return jacobianVectorProduct(output.output, wrt_dot, wrt);
+   }
+}
+
 double vectorJacobianProduct(MassFunctional &output,
                              const mfem::Vector &out_bar,
                              const std::string &wrt)
diff --git a/src/physics/common_outputs.hpp b/src/physics/common_outputs.hpp
index 7a91fd9..f743670 100644
--- a/src/physics/common_outputs.hpp
+++ b/src/physics/common_outputs.hpp
@@ -89,10 +89,7 @@ public:
 
    friend double jacobianVectorProduct(MassFunctional &output,
                                        const mfem::Vector &wrt_dot,
-                                       const std::string &wrt)
-   {
-      return jacobianVectorProduct(output.output, wrt_dot, wrt);
-   }
+                                       const std::string &wrt);
 
    friend double vectorJacobianProduct(MassFunctional &output,
                                        const mfem::Vector &out_bar,
-- 
2.43.0


From c225695703fbb581cdd3b4ef116d439b2e2e32d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 41/92] fix: derivatives of a functional of a named field were
 taken wrt the field called "state"

---
 src/common/functional_output.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/common/functional_output.cpp b/src/common/functional_output.cpp
index 158e5dc..75a8ba4 100644
--- a/src/common/functional_output.cpp
+++ b/src/common/functional_output.cpp
@@ -78,12 +78,17 @@ void calcOutputPartial(FunctionalOutput &output,
 {
    setInputs(output, inputs);
 
-   if (wrt == "state")
+   if (wrt == output.state_name)
    {
       Vector state;
-      setVectorFromInputs(inputs, "state", state, false, true);
+      setVectorFromInputs(inputs, output.state_name, state, false, true);
       output.output.Mult(state, partial);
    }
+   else if (wrt == "state")
+   {
+      // a functional of another field does not depend on the state
+      partial = 0.0;
+   }
    else
    {
       output.output_sens.at(wrt).Assemble();
@@ -96,12 +101,17 @@ double jacobianVectorProduct(FunctionalOutput &output,
                              const std::string &wrt)
 {
    output.scratch.SetSize(wrt_dot.Size());
-   if (wrt == "state")
+   if (wrt == output.state_name)
    {
       Vector state;
-      output.func_fields->at("state").setTrueVec(state);
+      output.func_fields->at(output.state_name).setTrueVec(state);
       output.output.Mult(state, output.scratch);
    }
+   else if (wrt == "state")
+   {
+      // a functional of another field does not depend on the state
+      return 0.0;
+   }
    else
    {
       if (wrt_dot.Size() == 1)
@@ -151,12 +161,17 @@ void vectorJacobianProduct(FunctionalOutput &output,
                            mfem::Vector &wrt_bar)
 {
    output.scratch.SetSize(wrt_bar.Size());
-   if (wrt == "state")
+   if (wrt == output.state_name)
    {
       Vector state;
-      output.func_fields->at("state").setTrueVec(state);
+      output.func_fields->at(output.state_name).setTrueVec(state);
       output.output.Mult(state, output.scratch);
    }
+   else if (wrt == "state")
+   {
+      // a functional of another field does not depend on the state
+      return;
+   }
    else
    {
       output.output_sens.at(wrt).Assemble();
-- 
2.43.0


From bcd094269a42312cfe34d0708dd4bf9a44a327d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 42/92] fix: StateAverageFunctional averaged the state when
 asked for another field

---
 src/physics/common_outputs.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 6eec5ac..8a2b898 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -13,6 +13,17 @@
 // Needed for IEAgg when considering demagnetization
 #include "demag_flux_coefficient.hpp"
 
+namespace
+{
+/// \return the name of the field that an output uses as its state
+std::string getStateName(const nlohmann::json &options)
+{
+   return options.contains("state") ? options["state"].get<std::string>()
+                                    : "state";
+}
+
+}  // anonymous namespace
+
 namespace miso
 {
 VolumeFunctional::VolumeFunctional(
@@ -91,7 +102,8 @@ StateAverageFunctional::StateAverageFunctional(
     mfem::ParFiniteElementSpace &fes,
     std::map<std::string, FiniteElementState> &fields,
     const nlohmann::json &options)
- : state_integ(fes, fields), volume(fes, fields)
+ : state_integ(fes, fields, getStateName(options)),
+   volume(fes, fields, getStateName(options))
 {
    if (options.contains("attributes"))
    {
-- 
2.43.0


From fce452026af97232297d27b2f2ca39c3fb78422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 43/92] fix: IEAggregateFunctional kept a pointer to a
 temporary and scaled a named field by the maximum of the state

---
 src/physics/common_outputs.cpp |  3 ++-
 src/physics/common_outputs.hpp | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/physics/common_outputs.cpp b/src/physics/common_outputs.cpp
index 8a2b898..536c634 100644
--- a/src/physics/common_outputs.cpp
+++ b/src/physics/common_outputs.cpp
@@ -227,7 +227,8 @@ IEAggregateFunctional::IEAggregateFunctional(
     std::map<std::string, FiniteElementState> &fields,
     const nlohmann::json &options)
  : numerator(fes, fields, options.value("state", "state")),
-   denominator(fes, fields, options.value("state", "state"))
+   denominator(fes, fields, options.value("state", "state")),
+   state_name(options.value("state", "state"))
 {
    auto rho = options.value("rho", 1.0);
    // auto state_name = options.value("state", "state");
diff --git a/src/physics/common_outputs.hpp b/src/physics/common_outputs.hpp
index f743670..5d5ed97 100644
--- a/src/physics/common_outputs.hpp
+++ b/src/physics/common_outputs.hpp
@@ -287,10 +287,14 @@ public:
    friend double calcOutput(IEAggregateFunctional &output,
                             const MISOInputs &inputs)
    {
+      output.inputs = &inputs;
+
       mfem::Vector state;
-      setVectorFromInputs(inputs, "state", state);
+      setVectorFromInputs(inputs, output.state_name, state);
       double true_max = state.Max();
-      setInputs(output, {{"true_max", true_max}});
+      MISOInputs max_input{{"true_max", true_max}};
+      setInputs(output.numerator, max_input);
+      setInputs(output.denominator, max_input);
 
       double num = calcOutput(output.numerator, inputs);
       double denom = calcOutput(output.denominator, inputs);
@@ -317,6 +321,8 @@ public:
 private:
    FunctionalOutput numerator;
    FunctionalOutput denominator;
+   /// name of the field that is aggregated
+   std::string state_name;
    MISOInputs const *inputs = nullptr;
    mfem::Vector scratch;
 };
-- 
2.43.0


From 3ea3519aa8128fff964f124bb9270a80e207834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:41 +0000
Subject: [PATCH 44/92] fix: quadrature rules of interface integrators and of
 their derivatives differed on curved faces

---
 src/physics/thermal/thermal_integ.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 04c0f4e..05b07c8 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -379,7 +379,7 @@ void ThermalContactResistanceIntegrator::AssembleFaceVector(
    const auto *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -443,7 +443,7 @@ void ThermalContactResistanceIntegrator::AssembleFaceGrad(
    const auto *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -595,7 +595,7 @@ void ThermalContactResistanceIntegratorMeshRevSens::AssembleRHSElementVect(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -916,7 +916,7 @@ void InternalConvectionInterfaceIntegrator::AssembleFaceGrad(
    const auto *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
@@ -1053,7 +1053,7 @@ void InternalConvectionInterfaceIntegratorMeshRevSens::AssembleRHSElementVect(
    const auto *ir = IntRule;
    if (ir == NULL)
    {
-      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder());
+      int order = 2 * std::max(el1.GetOrder(), el2.GetOrder()) + trans.OrderW();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From d62580ceb71ff9b7041f0f17374f4e64ed1b6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:18 +0000
Subject: [PATCH 45/92] fix: mesh sensitivities of thermal boundary integrators
 assumed a boundary element numbers its nodes like its face

---
 src/physics/thermal/thermal_integ.cpp | 21 ++++++++++++++++++---
 src/utils/utils.cpp                   | 17 +++++++++++++++++
 src/utils/utils.hpp                   | 11 +++++++++++
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index 05b07c8..ab1ce82 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -103,6 +103,11 @@ void TestBCIntegratorMeshRevSens::AssembleRHSElementVect(
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
+   /// the nodes of the face may be numbered differently than those of the
+   /// boundary element
+   mfem::Array<int> bdr_dof;
+   getBdrElementDofsOfFace(*state.FESpace()->GetMesh(), element, bdr_dof);
+
    mesh_coords_bar.SetSize(mesh_ndof * space_dim);
    mesh_coords_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); i++)
@@ -145,7 +150,7 @@ void TestBCIntegratorMeshRevSens::AssembleRHSElementVect(
       {
          for (int k = 0; k < space_dim; ++k)
          {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
+            mesh_coords_bar(k * mesh_ndof + bdr_dof[j]) += PointMat_bar(k, j);
          }
       }
    }
@@ -1520,6 +1525,11 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
    auto &h = integ.h;
    auto &theta_f = integ.theta_f;
 
+   /// the nodes of the face may be numbered differently than those of the
+   /// boundary element
+   mfem::Array<int> bdr_dof;
+   getBdrElementDofsOfFace(*state.FESpace()->GetMesh(), element, bdr_dof);
+
    mesh_coords_bar.SetSize(mesh_ndof * space_dim);
    mesh_coords_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); i++)
@@ -1563,7 +1573,7 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
       {
          for (int k = 0; k < space_dim; ++k)
          {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
+            mesh_coords_bar(k * mesh_ndof + bdr_dof[j]) += PointMat_bar(k, j);
          }
       }
    }
@@ -1836,6 +1846,11 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
    auto &alpha = integ.alpha;
    auto &flux = integ.flux;
 
+   /// the nodes of the face may be numbered differently than those of the
+   /// boundary element
+   mfem::Array<int> bdr_dof;
+   getBdrElementDofsOfFace(*state.FESpace()->GetMesh(), element, bdr_dof);
+
    mesh_coords_bar.SetSize(mesh_ndof * space_dim);
    mesh_coords_bar = 0.0;
    for (int i = 0; i < ir->GetNPoints(); i++)
@@ -1877,7 +1892,7 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
       {
          for (int k = 0; k < space_dim; ++k)
          {
-            mesh_coords_bar(k * mesh_ndof + j) += PointMat_bar(k, j);
+            mesh_coords_bar(k * mesh_ndof + bdr_dof[j]) += PointMat_bar(k, j);
          }
       }
    }
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 05b658e..5c754e1 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -740,6 +740,23 @@ void buildLSInterpolation(int dim,
 }
 #endif
 
+void getBdrElementDofsOfFace(const mfem::Mesh &mesh,
+                             int bdr_element,
+                             mfem::Array<int> &bdr_dof)
+{
+   const auto &mesh_fes = *mesh.GetNodes()->FESpace();
+   mfem::Array<int> face_dofs;
+   mfem::Array<int> bdr_dofs;
+   mesh_fes.GetFaceDofs(mesh.GetBdrElementEdgeIndex(bdr_element), face_dofs);
+   mesh_fes.GetBdrElementDofs(bdr_element, bdr_dofs);
+
+   bdr_dof.SetSize(face_dofs.Size());
+   for (int i = 0; i < face_dofs.Size(); ++i)
+   {
+      bdr_dof[i] = bdr_dofs.Find(face_dofs[i]);
+   }
+}
+
 #ifdef MFEM_USE_GSLIB
 void transferSolution(MeshType &old_mesh,
                       MeshType &new_mesh,
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index f1a7620..fd8a36d 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -489,6 +489,17 @@ void buildLSInterpolation(int dim,
                           mfem::DenseMatrix &interp);
 #endif
 
+/// \brief For each node of a boundary face, finds the node of the corresponding
+/// boundary element
+/// \param[in] mesh - the mesh, must have nodes
+/// \param[in] bdr_element - the boundary element
+/// \param[out] bdr_dof - bdr_dof[i] is the boundary element's local number for
+/// node `i` of the face it lies on
+/// \note a boundary element may list its vertices in another order than its face
+void getBdrElementDofsOfFace(const mfem::Mesh &mesh,
+                             int bdr_element,
+                             mfem::Array<int> &bdr_dof);
+
 /// \brief transfer GridFunction from one mesh to another
 /// \note requires MFEM to be built with GSLIB
 void transferSolution(MeshType &old_mesh,
-- 
2.43.0


From 811fe77b4a410e7ac028faa8d8484328b5064685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 46/92] fix: mesh sensitivities of thermal boundary integrators
 crashed on boundary elements inside the domain

---
 src/physics/thermal/thermal_integ.cpp | 36 ++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/physics/thermal/thermal_integ.cpp b/src/physics/thermal/thermal_integ.cpp
index ab1ce82..9b475b0 100644
--- a/src/physics/thermal/thermal_integ.cpp
+++ b/src/physics/thermal/thermal_integ.cpp
@@ -55,8 +55,16 @@ void TestBCIntegratorMeshRevSens::AssembleRHSElementVect(
     mfem::Vector &mesh_coords_bar)
 {
    const int element = mesh_trans.ElementNo;
-   auto &trans =
-       *state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   auto *face_trans =
+       state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   if (face_trans == nullptr)
+   {
+      /// boundary elements inside the domain are not part of the boundary
+      mesh_coords_bar.SetSize(mesh_el.GetDof() * mesh_trans.GetSpaceDim());
+      mesh_coords_bar = 0.0;
+      return;
+   }
+   auto &trans = *face_trans;
    const int state_elem_num = trans.Elem1->ElementNo;
    const auto &el1 = *state.FESpace()->GetFE(state_elem_num);
 
@@ -1475,8 +1483,16 @@ void ConvectionBCIntegratorMeshRevSens::AssembleRHSElementVect(
     mfem::Vector &mesh_coords_bar)
 {
    const int element = mesh_trans.ElementNo;
-   auto &trans =
-       *state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   auto *face_trans =
+       state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   if (face_trans == nullptr)
+   {
+      /// boundary elements inside the domain are not part of the boundary
+      mesh_coords_bar.SetSize(mesh_el.GetDof() * mesh_trans.GetSpaceDim());
+      mesh_coords_bar = 0.0;
+      return;
+   }
+   auto &trans = *face_trans;
    const int state_elem_num = trans.Elem1->ElementNo;
    const auto &el1 = *state.FESpace()->GetFE(state_elem_num);
 
@@ -1797,8 +1813,16 @@ void OutfluxBCIntegratorMeshRevSens::AssembleRHSElementVect(
     mfem::Vector &mesh_coords_bar)
 {
    const int element = mesh_trans.ElementNo;
-   auto &trans =
-       *state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   auto *face_trans =
+       state.FESpace()->GetMesh()->GetBdrFaceTransformations(element);
+   if (face_trans == nullptr)
+   {
+      /// boundary elements inside the domain are not part of the boundary
+      mesh_coords_bar.SetSize(mesh_el.GetDof() * mesh_trans.GetSpaceDim());
+      mesh_coords_bar = 0.0;
+      return;
+   }
+   auto &trans = *face_trans;
    const int state_elem_num = trans.Elem1->ElementNo;
    const auto &el1 = *state.FESpace()->GetFE(state_elem_num);
 
-- 
2.43.0


From 9ada82f9f80d43a84f5e6bd8b2076356a7a0cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 47/92] fix: MISONonlinearForm applied domain integrators
 outside the attributes they were given

---
 src/physics/miso_nonlinearform.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/miso_nonlinearform.hpp b/src/physics/miso_nonlinearform.hpp
index 091d207..4a3dbec 100644
--- a/src/physics/miso_nonlinearform.hpp
+++ b/src/physics/miso_nonlinearform.hpp
@@ -234,13 +234,13 @@ void MISONonlinearForm::addDomainIntegrator(T *integrator)
 template <typename T>
 void MISONonlinearForm::addDomainIntegrator(
     T *integrator,
-    const std::vector<int> &bdr_attr_marker)
+    const std::vector<int> &attr_marker)
 {
    integs.emplace_back(*integrator);
-   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->bdr_attributes.Max();
+   auto mesh_attr_size = nf.ParFESpace()->GetMesh()->attributes.Max();
    auto &marker = domain_markers.emplace_back(mesh_attr_size);
-   attrVecToArray(bdr_attr_marker, marker);
-   nf.AddDomainIntegrator(integrator);
+   attrVecToArray(attr_marker, marker);
+   nf.AddDomainIntegrator(integrator, marker);
    addDomainSensitivityIntegrator(*integrator,
                                   nf_fields,
                                   rev_sens,
-- 
2.43.0


From 7a88cf284105ffc595cb63d6e8ea3c4bce1ca2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 48/92] fix: linearizing a MISONonlinearForm again kept the
 Jacobian of the previous inputs

---
 src/physics/miso_nonlinearform.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index ed6284f..33b1b59 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -92,14 +92,8 @@ void linearize(MISONonlinearForm &form, const MISOInputs &inputs)
 {
    std::cout << "In linearize!\n";
    setInputs(form, inputs);
-   if (form.jac.Ptr() == nullptr)
-   {
-      getJacobian(form, inputs, "state");
-   }
-   if (form.jac_trans == nullptr)
-   {
-      getJacobianTranspose(form, inputs, "state");
-   }
+   getJacobian(form, inputs, "state");
+   getJacobianTranspose(form, inputs, "state");
 }
 
 mfem::Operator &getJacobian(MISONonlinearForm &form,
-- 
2.43.0


From f1ae0fd26d657386bf40b3d5ee6b403383fd6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 49/92] fix: finalizing the adjoint of a MISONonlinearForm
 negated it and got its essential part wrong

---
 src/physics/miso_nonlinearform.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 33b1b59..8f709a9 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -196,7 +196,9 @@ void finalizeAdjointSystem(MISONonlinearForm &form,
           "Jacobian matrices assembled to a HypreParMatrix!\n");
    }
 
-   hypre_jac_e->MultTranspose(1.0, adjoint, -1.0, adjoint);
+   /// essential part of the adjoint: state_bar - jac_e^T * adjoint
+   form.adj_work1 = adjoint;
+   hypre_jac_e->MultTranspose(-1.0, form.adj_work1, 1.0, adjoint);
 }
 
 double jacobianVectorProduct(MISONonlinearForm &form,
-- 
2.43.0


From 844c4eca0003ed4fcbdb2c648e676a21b65f6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 50/92] fix: reverse products wrt scalars counted the rows of
 essential dofs, which do not depend on them

---
 src/common/miso_linearform.cpp     | 4 +++-
 src/physics/miso_nonlinearform.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/miso_linearform.cpp b/src/common/miso_linearform.cpp
index 94921b9..9ffc68f 100644
--- a/src/common/miso_linearform.cpp
+++ b/src/common/miso_linearform.cpp
@@ -94,8 +94,10 @@ double vectorJacobianProduct(MISOLinearForm &load,
    {
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
       /// func so we update it here
+      load.scratch = load_bar;
+      load.scratch.SetSubVector(load.getEssentialDofs(), 0.0);
       auto &adjoint = load.lf_fields->at(load.adjoint_name);
-      adjoint.distributeSharedDofs(load_bar);
+      adjoint.distributeSharedDofs(load.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
diff --git a/src/physics/miso_nonlinearform.cpp b/src/physics/miso_nonlinearform.cpp
index 8f709a9..c7b4abd 100644
--- a/src/physics/miso_nonlinearform.cpp
+++ b/src/physics/miso_nonlinearform.cpp
@@ -257,8 +257,10 @@ double vectorJacobianProduct(MISONonlinearForm &form,
    {
       /// Integrators added to rev_scalar_sens will reference the adjoint grid
       /// func so we update it here
+      form.scratch = res_bar;
+      form.scratch.SetSubVector(form.getEssentialDofs(), 0.0);
       auto &adjoint = form.nf_fields.at(form.adjoint_name);
-      adjoint.distributeSharedDofs(res_bar);
+      adjoint.distributeSharedDofs(form.scratch);
 
       /// The state must have previously been distributed before calling this
       /// function
-- 
2.43.0


From a9fddb941f4ca7d6b3150011c3472892cce2585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 51/92] fix: mesh sensitivity of NonlinearDGDiffusionIntegrator
 assumed a boundary element numbers its nodes like its face

---
 src/physics/electromagnetics/electromag_integ.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index e9988ca..d632b62 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -691,7 +691,10 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    }
 
    dof_tr = mesh_fes.GetElementVDofs(trans.Elem1->ElementNo, vdofs);
-   mesh_fes.GetBdrElementVDofs(trans.ElementNo, vdofs2);
+   /// the nodes of the face may be numbered differently than those of the
+   /// boundary element
+   mesh_fes.GetFaceVDofs(
+       mesh_fes.GetMesh()->GetBdrElementEdgeIndex(trans.ElementNo), vdofs2);
 
 #ifdef MFEM_THREAD_SAFE
    mfem::Vector shape;
-- 
2.43.0


From b6fdf0c077f4ab591046e774e3b1ec1cb6f7adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 52/92] fix: mesh sensitivity of NonlinearDGDiffusionIntegrator
 used another quadrature rule than the residual

---
 src/physics/electromagnetics/electromag_integ.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index d632b62..6c90910 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -749,7 +749,17 @@ void NonlinearDGDiffusionIntegratorMeshRevSens::AssembleRHSElementVect(
    const mfem::IntegrationRule *ir = IntRule;
    if (ir == nullptr)
    {
-      int order = 2 * el.GetOrder();
+      int order = [&]()
+      {
+         if (el.Space() == FunctionSpace::Pk)
+         {
+            return 2 * el.GetOrder();
+         }
+         else
+         {
+            return 2 * el.GetOrder() + el.GetDim();
+         }
+      }();
       ir = &mfem::IntRules.Get(trans.GetGeometryType(), order);
    }
 
-- 
2.43.0


From d05c90b7b65d21444486eb65d2e7eea47abdcb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 53/92] fix: mesh sensitivity of CurlCurlNLFIntegrator crashed
 on 2D meshes

---
 .../electromagnetics/electromag_integ.cpp     | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 6c90910..079a4c5 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3476,7 +3476,7 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
    const int el_ndof = el.GetDof();
    const int dim = el.GetDim();
    const int dimc = (dim == 3) ? 3 : 1;
-   mesh_coords_bar.SetSize(ndof * dimc);
+   mesh_coords_bar.SetSize(ndof * dim);
    mesh_coords_bar = 0.0;
 
    auto *dof_tr = state.FESpace()->GetElementVDofs(element, vdofs);
@@ -3498,7 +3498,7 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
    DenseMatrix curlshape_dFt_bar(
        dimc, el_ndof);  // transposed dimensions of curlshape_dFt so I don't
                         // have to transpose J later
-   DenseMatrix PointMat_bar(dimc, ndof);
+   DenseMatrix PointMat_bar(dim, ndof);
 #else
    auto &curlshape = integ.curlshape;
    auto &curlshape_dFt = integ.curlshape_dFt;
@@ -3507,15 +3507,15 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
    curlshape_dFt_bar.SetSize(
        dimc, el_ndof);  // transposed dimensions of curlshape_dFt so I don't
                         // have to transpose J later
-   PointMat_bar.SetSize(dimc, ndof);
+   PointMat_bar.SetSize(dim, ndof);
 #endif
    auto &nu = integ.model;
 
-   /// these vector's size is the spatial dimension we can stack allocate
+   /// these vectors' size is the dimension of the curl, we can stack allocate
    double b_vec_buffer[3] = {};
-   Vector b_vec(b_vec_buffer, dim);
+   Vector b_vec(b_vec_buffer, dimc);
    double curl_psi_buffer[3] = {};
-   Vector curl_psi(curl_psi_buffer, dim);
+   Vector curl_psi(curl_psi_buffer, dimc);
 
    // cast the ElementTransformation
    auto &isotrans = dynamic_cast<IsoparametricTransformation &>(trans);
@@ -3590,13 +3590,13 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
 
       /// const double b_vec_norm = b_vec.Norml2();
       double b_vec_bar_buffer[3] = {};
-      Vector b_vec_bar(b_vec_bar_buffer, dim);
+      Vector b_vec_bar(b_vec_bar_buffer, dimc);
       b_vec_bar = 0.0;
       add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
 
       /// const double curl_psi_dot_b = curl_psi * b_vec;
       double curl_psi_bar_buffer[3] = {};
-      Vector curl_psi_bar(curl_psi_bar_buffer, dim);
+      Vector curl_psi_bar(curl_psi_bar_buffer, dimc);
       curl_psi_bar = 0.0;
       add(curl_psi_bar, curl_psi_dot_b_bar, b_vec, curl_psi_bar);
       add(b_vec_bar, curl_psi_dot_b_bar, curl_psi, b_vec_bar);
@@ -3608,10 +3608,14 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       AddMultVWt(b_vec_bar, elfun, curlshape_dFt_bar);
 
       /// MultABt(curlshape, trans.Jacobian(), curlshape_dFt);
+      /// (in 2D the curl shape functions do not depend on the Jacobian)
       double jac_bar_buffer[9] = {};
       DenseMatrix jac_bar(jac_bar_buffer, dim, dim);
       jac_bar = 0.0;
-      AddMult(curlshape_dFt_bar, curlshape, jac_bar);
+      if (dim == 3)
+      {
+         AddMult(curlshape_dFt_bar, curlshape, jac_bar);
+      }
 
       /// const double w = ip.weight / trans.Weight();
       trans_weight_bar -= w_bar * ip.weight / pow(trans.Weight(), 2);
@@ -3625,7 +3629,7 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       // code to insert PointMat_bar into mesh_coords_bar;
       for (int j = 0; j < ndof; ++j)
       {
-         for (int d = 0; d < dimc; ++d)
+         for (int d = 0; d < dim; ++d)
          {
             mesh_coords_bar(d * ndof + j) += PointMat_bar(d, j);
          }
-- 
2.43.0


From 968ef6b6d67169bc0abe0de521fb5f69b31a7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 54/92] fix: mesh sensitivity of CurlCurlNLFIntegrator ignored
 the integrator's scaling

---
 src/physics/electromagnetics/electromag_integ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 079a4c5..9976a66 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3567,10 +3567,10 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       const double nu_val = nu.Eval(isotrans, ip, b_mag);
 
       /// dummy functional for adjoint-weighted residual
-      // fun += nu_val * curl_psi_dot_b * w;
+      // fun += alpha * nu_val * curl_psi_dot_b * w;
 
       /// start reverse pass
-      double fun_bar = 1.0;
+      double fun_bar = integ.alpha;
 
       /// fun += nu_val * curl_psi_dot_b * w;
       double nu_val_bar = fun_bar * curl_psi_dot_b * w;
-- 
2.43.0


From c9717b9f80dae4ce01d4153e7e26e1d260a4cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 55/92] fix: mesh sensitivity of CurlCurlNLFIntegrator was NaN
 where the curl vanishes

---
 src/physics/electromagnetics/electromag_integ.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 9976a66..9208ebd 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -3592,7 +3592,10 @@ void CurlCurlNLFIntegratorMeshRevSens::AssembleRHSElementVect(
       double b_vec_bar_buffer[3] = {};
       Vector b_vec_bar(b_vec_bar_buffer, dimc);
       b_vec_bar = 0.0;
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// const double curl_psi_dot_b = curl_psi * b_vec;
       double curl_psi_bar_buffer[3] = {};
-- 
2.43.0


From 58a2ac2a7386102a38e5d7ea0091f6a33fa47c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 56/92] fix: sensitivities of CurlCurlNLFIntegrator ignored the
 attributes it was added for

---
 .../electromagnetics/electromag_integ.hpp     | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.hpp b/src/physics/electromagnetics/electromag_integ.hpp
index bdbfd5f..52682ad 100644
--- a/src/physics/electromagnetics/electromag_integ.hpp
+++ b/src/physics/electromagnetics/electromag_integ.hpp
@@ -959,28 +959,40 @@ inline void addDomainSensitivityIntegrator(
    auto &state = fields.at("state");
    auto &state_fes = fields.at("state").space();
    rev_sens.emplace("state", &state_fes);
-   rev_sens.at("state").AddDomainIntegrator(
-       new CurlCurlNLFIntegratorStateRevSens(fields.at("state").gridFunc(),
-                                             fields.at(adjoint_name).gridFunc(),
-                                             primal_integ));
 
    fields.emplace(std::piecewise_construct,
                   std::forward_as_tuple("state_dot"),
                   std::forward_as_tuple(state.mesh(), state_fes));
-
    fwd_sens.emplace("state", &state_fes);
-   fwd_sens.at("state").AddDomainIntegrator(
-       new CurlCurlNLFIntegratorStateFwdSens(fields.at("state").gridFunc(),
-                                             fields.at("state_dot").gridFunc(),
-                                             primal_integ));
 
    auto &mesh_fes = fields.at("mesh_coords").space();
    rev_sens.emplace("mesh_coords", &mesh_fes);
-   rev_sens.at("mesh_coords")
-       .AddDomainIntegrator(new CurlCurlNLFIntegratorMeshRevSens(
-           fields.at("state").gridFunc(),
-           fields.at(adjoint_name).gridFunc(),
-           primal_integ));
+
+   auto *state_rev = new CurlCurlNLFIntegratorStateRevSens(
+       fields.at("state").gridFunc(),
+       fields.at(adjoint_name).gridFunc(),
+       primal_integ);
+   auto *state_fwd = new CurlCurlNLFIntegratorStateFwdSens(
+       fields.at("state").gridFunc(),
+       fields.at("state_dot").gridFunc(),
+       primal_integ);
+   auto *mesh_rev = new CurlCurlNLFIntegratorMeshRevSens(
+       fields.at("state").gridFunc(),
+       fields.at(adjoint_name).gridFunc(),
+       primal_integ);
+
+   if (attr_marker == nullptr)
+   {
+      rev_sens.at("state").AddDomainIntegrator(state_rev);
+      fwd_sens.at("state").AddDomainIntegrator(state_fwd);
+      rev_sens.at("mesh_coords").AddDomainIntegrator(mesh_rev);
+   }
+   else
+   {
+      rev_sens.at("state").AddDomainIntegrator(state_rev, *attr_marker);
+      fwd_sens.at("state").AddDomainIntegrator(state_fwd, *attr_marker);
+      rev_sens.at("mesh_coords").AddDomainIntegrator(mesh_rev, *attr_marker);
+   }
 }
 
 /// Integrator for (\nu(u) M, curl v) for Nedelec Elements
-- 
2.43.0


From 9fd0809d0dc5942556440475da640d7d06433f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 57/92] fix: MagneticEnergyIntegrator: derivative at a point
 without a field is zero, not NaN

---
 src/physics/electromagnetics/electromag_integ.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 9208ebd..95adae9 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -4501,7 +4501,10 @@ void MagneticEnergyIntegrator::AssembleElementVector(
 
       b_vec_bar = 0.0;
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       /// curlshape_dFt.AddMultTranspose(elfun, b_vec);
       curlshape_dFt.AddMult(b_vec_bar, elfun_bar);
@@ -4630,7 +4633,10 @@ void MagneticEnergyIntegratorMeshSens::AssembleRHSElementVect(
 
       b_vec_bar = 0.0;
       /// const double b_vec_norm = b_vec.Norml2();
-      add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      if (b_vec_norm > 1e-14)
+      {
+         add(b_vec_bar, b_vec_norm_bar / b_vec_norm, b_vec, b_vec_bar);
+      }
 
       PointMat_bar = 0.0;
       if (dim == 3)
-- 
2.43.0


From 234b7ac9de585bd89b1bc529255c8d1b887436ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:07 +0000
Subject: [PATCH 58/92] fix: ForceIntegrator3: a point without a field
 contributes no force, not NaN

---
 src/physics/electromagnetics/electromag_integ.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index 95adae9..b6be6b0 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -9807,6 +9807,11 @@ double ForceIntegrator3::GetElementEnergy(const FiniteElement &el,
       // b_vec = 0.0;
       curlshape_dFt.MultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
+      if (b_vec_norm < 1e-14)
+      {
+         /// without a field there is neither a force nor a sensitivity of it
+         continue;
+      }
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
@@ -9969,6 +9974,11 @@ void ForceIntegrator3::AssembleElementVector(const FiniteElement &el,
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
+      if (b_vec_norm < 1e-14)
+      {
+         /// without a field there is neither a force nor a sensitivity of it
+         continue;
+      }
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
@@ -10307,6 +10317,11 @@ void ForceIntegratorMeshSens3::AssembleRHSElementVect(
       b_vec = 0.0;
       curlshape_dFt.AddMultTranspose(elfun, b_vec);
       const double b_vec_norm = b_vec.Norml2();
+      if (b_vec_norm < 1e-14)
+      {
+         /// without a field there is neither a force nor a sensitivity of it
+         continue;
+      }
       const double b_mag = b_vec_norm / trans_weight;
 
       /// compute d(b_mag)/dJ
-- 
2.43.0


From d5094e7599776e6c664095bf09b9d197d7979f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:14 +0000
Subject: [PATCH 59/92] fix: ACLossFunctional: derivative wrt frequency uses
 the strand radius to the fourth power

---
 src/physics/electromagnetics/electromag_outputs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/electromagnetics/electromag_outputs.cpp b/src/physics/electromagnetics/electromag_outputs.cpp
index 8266cd0..62ae9c4 100644
--- a/src/physics/electromagnetics/electromag_outputs.cpp
+++ b/src/physics/electromagnetics/electromag_outputs.cpp
@@ -749,7 +749,7 @@ double jacobianVectorProduct(ACLossFunctional &output,
       //                      pow(output.radius, 4) *
       //                      pow(2 * M_PI * output.freq, 2) / 8.0;
       double strand_loss_dot = 2 * sigma_b2 * output.stack_length * M_PI *
-                               pow(output.radius, 3) * output.freq *
+                               pow(output.radius, 4) * output.freq *
                                pow(2 * M_PI, 2) / 8.0 * wrt_dot(0);
 
       double num_strands =
-- 
2.43.0


From 0fe9eca473a3bd423fc65cb5392ec9e357f919d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:15 +0000
Subject: [PATCH 60/92] fix: PMDemagIntegrator: negate the element's integral
 once, not at every quadrature point

---
 src/physics/electromagnetics/electromag_integ.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/physics/electromagnetics/electromag_integ.cpp b/src/physics/electromagnetics/electromag_integ.cpp
index b6be6b0..95da1d6 100644
--- a/src/physics/electromagnetics/electromag_integ.cpp
+++ b/src/physics/electromagnetics/electromag_integ.cpp
@@ -13116,12 +13116,12 @@ double PMDemagIntegrator::GetElementEnergy(const mfem::FiniteElement &el,
       // ", C(B,T)=" << constraint_val << "\n"; Add the contribution to the
       // overall Permanent Magnet Demagnetization constraint equation value
       fun += constraint_val * w;
-
-      /// TODO: Negating PMDM constraint for IE constraint agg purposes (so
-      /// becomes a max rather than a min). Decide if want to move this logic
-      /// to the coefficient level
-      fun *= -1;
    }
+
+   /// TODO: Negating PMDM constraint for IE constraint agg purposes (so
+   /// becomes a max rather than a min). Decide if want to move this logic
+   /// to the coefficient level
+   fun *= -1;
    return fun;
 }
 
-- 
2.43.0


From 1f075656a3d27932dfd319d94e4bb87d569b4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 61/92] fix: AC loss: its derivative wrt the peak flux is the
 one its integrator provides

---
 src/common/functional_output.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/functional_output.cpp b/src/common/functional_output.cpp
index 75a8ba4..8af2a9c 100644
--- a/src/common/functional_output.cpp
+++ b/src/common/functional_output.cpp
@@ -78,7 +78,7 @@ void calcOutputPartial(FunctionalOutput &output,
 {
    setInputs(output, inputs);
 
-   if (wrt == output.state_name)
+   if (wrt == output.state_name && output.output_sens.count(wrt) == 0)
    {
       Vector state;
       setVectorFromInputs(inputs, output.state_name, state, false, true);
@@ -101,7 +101,7 @@ double jacobianVectorProduct(FunctionalOutput &output,
                              const std::string &wrt)
 {
    output.scratch.SetSize(wrt_dot.Size());
-   if (wrt == output.state_name)
+   if (wrt == output.state_name && output.output_sens.count(wrt) == 0)
    {
       Vector state;
       output.func_fields->at(output.state_name).setTrueVec(state);
@@ -161,7 +161,7 @@ void vectorJacobianProduct(FunctionalOutput &output,
                            mfem::Vector &wrt_bar)
 {
    output.scratch.SetSize(wrt_bar.Size());
-   if (wrt == output.state_name)
+   if (wrt == output.state_name && output.output_sens.count(wrt) == 0)
    {
       Vector state;
       output.func_fields->at(output.state_name).setTrueVec(state);
-- 
2.43.0


From 7a265c6cd3905d45cc19f27052de0e14a26bae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 62/92] fix: stator current sources read n_slots and
 stack_length through dangling references

---
 src/physics/electromagnetics/current_source_functions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 596a771..6b1da0c 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -729,9 +729,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          if (source == "cwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
@@ -764,9 +764,9 @@ CurrentDensityCoefficient::CurrentDensityCoefficient(
          else if (source == "ccwStator")
          {
             cached_inputs.emplace("n_slots", 24.0);
-            auto n_slots = cached_inputs.at("n_slots");
+            auto &n_slots = cached_inputs.at("n_slots");
             cached_inputs.emplace("stack_length", 0.345);
-            auto stack_length = cached_inputs.at("stack_length");
+            auto &stack_length = cached_inputs.at("stack_length");
             for (const auto &attr : attrs)
             {
                source_coeffs.emplace(
-- 
2.43.0


From 0206926521acf9a5f8b3c0768bfaa15332ce0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 63/92] fix: resetting the current density threw when stator
 inputs were cached as well

---
 src/physics/electromagnetics/current_source_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/electromagnetics/current_source_functions.cpp b/src/physics/electromagnetics/current_source_functions.cpp
index 6b1da0c..368ab04 100644
--- a/src/physics/electromagnetics/current_source_functions.cpp
+++ b/src/physics/electromagnetics/current_source_functions.cpp
@@ -664,9 +664,9 @@ void CurrentDensityCoefficient::zeroCurrentDensity()
 
 void CurrentDensityCoefficient::resetCurrentDensityFromCache()
 {
-   for (auto &[group, value] : cached_inputs)
+   for (auto &[group, coeff] : group_map)
    {
-      group_map.at(group).constant = value;
+      coeff.constant = cached_inputs.at(group);
    }
 }
 
-- 
2.43.0


From f3c99fb8a98f60d86dbefd37522db3aadcf6de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 64/92] fix: ThermalResidual zeroed the essential entries of
 the caller's thermal load

---
 src/physics/thermal/thermal_residual.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/thermal/thermal_residual.cpp b/src/physics/thermal/thermal_residual.cpp
index c2a1ebc..4eaf23e 100644
--- a/src/physics/thermal/thermal_residual.cpp
+++ b/src/physics/thermal/thermal_residual.cpp
@@ -23,7 +23,9 @@ void setInputs(ThermalResidual &residual, const miso::MISOInputs &inputs)
 
    setInputs(residual.res, inputs);
 
-   setVectorFromInputs(inputs, "thermal_load", residual.load);
+   /// copy: the essential entries are zeroed below, and the input is the
+   /// caller's
+   setVectorFromInputs(inputs, "thermal_load", residual.load, true);
    if (residual.load.Size() != 0)
    {
       residual.load.SetSubVector(residual.res.getEssentialDofs(), 0.0);
-- 
2.43.0


From 7a4a26f164a6bfc8d5b7fd168d06320e4753fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 65/92] fix: ThermalResidual products wrt thermal_load
 overwrote instead of accumulating and ignored essential rows

---
 src/physics/thermal/thermal_residual.cpp | 14 ++++++++++----
 src/physics/thermal/thermal_residual.hpp |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/physics/thermal/thermal_residual.cpp b/src/physics/thermal/thermal_residual.cpp
index 4eaf23e..e8af039 100644
--- a/src/physics/thermal/thermal_residual.cpp
+++ b/src/physics/thermal/thermal_residual.cpp
@@ -107,8 +107,11 @@ void jacobianVectorProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      res_dot = 0.0;
-      res_dot.Add(-1.0, wrt_dot);
+      // The load does not act on the essential degrees of freedom
+      auto &load_dot = residual.scratch;
+      load_dot = wrt_dot;
+      load_dot.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      res_dot.Add(-1.0, load_dot);
       return;
    }
    // if wrt starts with prefix "temperature"
@@ -143,8 +146,11 @@ void vectorJacobianProduct(ThermalResidual &residual,
       // term Therefore derivative of residual w/r/t thermal_load is negative
       // identity matrix (represented as negative of input vector in matrix-free
       // form)
-      wrt_bar = 0.0;
-      wrt_bar.Add(-1.0, res_bar);
+      // The load does not act on the essential degrees of freedom
+      auto &load_bar = residual.scratch;
+      load_bar = res_bar;
+      load_bar.SetSubVector(residual.res.getEssentialDofs(), 0.0);
+      wrt_bar.Add(-1.0, load_bar);
       return;
    }
    // if wrt starts with prefix "temperature"
diff --git a/src/physics/thermal/thermal_residual.hpp b/src/physics/thermal/thermal_residual.hpp
index c248df3..f17af8f 100644
--- a/src/physics/thermal/thermal_residual.hpp
+++ b/src/physics/thermal/thermal_residual.hpp
@@ -93,6 +93,8 @@ private:
 
    /// Right-hand-side load vector to apply to residual
    mfem::Vector load;
+   /// Work vector
+   mfem::Vector scratch;
 
    /// preconditioner for inverting residual's state Jacobian
    std::unique_ptr<mfem::Solver> prec;
-- 
2.43.0


From 4769cb47fe96bfd58bfdcb0d4d48099ca6580bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 66/92] fix: thermal and magnetostatic residuals dropped the
 ILU preconditioner they had set up

---
 src/physics/electromagnetics/magnetostatic_residual.cpp | 1 +
 src/physics/thermal/thermal_residual.hpp                | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index 5817318..b1e36ef 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -42,6 +42,7 @@ std::unique_ptr<mfem::Solver> constructPreconditioner(
       HYPRE_ILUSetLevelOfFill(*ilu, prec_options["lev-fill"]);
       HYPRE_ILUSetLocalReordering(*ilu, prec_options["ilu-reorder"]);
       HYPRE_ILUSetPrintLevel(*ilu, prec_options["printlevel"]);
+      return ilu;
    }
    return nullptr;
 }
diff --git a/src/physics/thermal/thermal_residual.hpp b/src/physics/thermal/thermal_residual.hpp
index f17af8f..f76f293 100644
--- a/src/physics/thermal/thermal_residual.hpp
+++ b/src/physics/thermal/thermal_residual.hpp
@@ -117,6 +117,7 @@ private:
          HYPRE_ILUSetLevelOfFill(*ilu, prec_options["lev-fill"]);
          HYPRE_ILUSetLocalReordering(*ilu, prec_options["ilu-reorder"]);
          HYPRE_ILUSetPrintLevel(*ilu, prec_options["printlevel"]);
+         return ilu;
       }
       return nullptr;
    }
-- 
2.43.0


From 3e56bf494c48ba916f86d731ed3f0db3de6e8b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:04 +0000
Subject: [PATCH 67/92] fix: thermal_residual.hpp used the include guard of
 magnetostatic_residual.hpp

---
 src/physics/thermal/thermal_residual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/thermal/thermal_residual.hpp b/src/physics/thermal/thermal_residual.hpp
index f76f293..67ad8b0 100644
--- a/src/physics/thermal/thermal_residual.hpp
+++ b/src/physics/thermal/thermal_residual.hpp
@@ -1,5 +1,5 @@
-#ifndef MISO_MAGNETOSTATIC_RESIDUAL
-#define MISO_MAGNETOSTATIC_RESIDUAL
+#ifndef MISO_THERMAL_RESIDUAL
+#define MISO_THERMAL_RESIDUAL
 
 #include <map>
 #include <memory>
-- 
2.43.0


From c66c04c0c84975de4d4d64c9f626bd98ff2680a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 68/92] fix: mesh sensitivity of VectorFEDomainLFCurlIntegrator
 was registered under a name no form calls

---
 src/physics/mfem_common_integ.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/physics/mfem_common_integ.hpp b/src/physics/mfem_common_integ.hpp
index d3b05ab..1ed5e73 100644
--- a/src/physics/mfem_common_integ.hpp
+++ b/src/physics/mfem_common_integ.hpp
@@ -1183,19 +1183,28 @@ private:
 #endif
 };
 
-inline void addSensitivityIntegrator(
+inline void addDomainSensitivityIntegrator(
     VectorFEDomainLFCurlIntegrator &primal_integ,
     std::map<std::string, FiniteElementState> &fields,
     std::map<std::string, mfem::ParLinearForm> &rev_sens,
     std::map<std::string, mfem::ParNonlinearForm> &rev_scalar_sens,
     std::map<std::string, mfem::ParLinearForm> &fwd_sens,
-    std::map<std::string, mfem::ParNonlinearForm> &fwd_scalar_sens)
+    std::map<std::string, mfem::ParNonlinearForm> &fwd_scalar_sens,
+    mfem::Array<int> *attr_marker,
+    std::string adjoint_name)
 {
    auto &mesh_fes = fields.at("mesh_coords").space();
    rev_sens.emplace("mesh_coords", &mesh_fes);
    auto *sens_integ = new VectorFEDomainLFCurlIntegratorMeshSens(primal_integ);
-   sens_integ->setAdjoint(fields.at("adjoint").gridFunc());
-   rev_sens.at("mesh_coords").AddDomainIntegrator(sens_integ);
+   sens_integ->setAdjoint(fields.at(adjoint_name).gridFunc());
+   if (attr_marker == nullptr)
+   {
+      rev_sens.at("mesh_coords").AddDomainIntegrator(sens_integ);
+   }
+   else
+   {
+      rev_sens.at("mesh_coords").AddDomainIntegrator(sens_integ, *attr_marker);
+   }
 }
 
 class DomainLFIntegrator final : public mfem::DomainLFIntegrator
-- 
2.43.0


From 3c5c7e8e7fd5f1d7b8dc723dc6438f9c4318b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:39 +0000
Subject: [PATCH 69/92] fix: derivative of the magnetostatic residual wrt a
 current density included the magnets and dereferenced null in 3D

---
 .../magnetostatic_residual.cpp                | 55 +++++++++++--------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/physics/electromagnetics/magnetostatic_residual.cpp b/src/physics/electromagnetics/magnetostatic_residual.cpp
index b1e36ef..51cd3b6 100644
--- a/src/physics/electromagnetics/magnetostatic_residual.cpp
+++ b/src/physics/electromagnetics/magnetostatic_residual.cpp
@@ -75,6 +75,27 @@ std::vector<int> getMagnetAttributes(const nlohmann::json &options)
    return attributes;
 }
 
+/// Load due to a unit current density @a name alone: any other contribution to
+/// the load (the magnets') does not depend on the current density
+void calcCurrentDensityLoad(miso::MISOLoad &load,
+                            miso::CurrentDensityCoefficient2D &current_coeff,
+                            const std::string &name,
+                            mfem::Vector &current_load)
+{
+   current_coeff.cacheCurrentDensity();
+   current_coeff.zeroCurrentDensity();
+
+   current_load = 0.0;
+   addLoad(load, current_load);
+   current_load.Neg();
+
+   miso::MISOInputs inputs{{name, 1.0}};
+   setInputs(current_coeff, inputs);
+   addLoad(load, current_load);
+
+   current_coeff.resetCurrentDensityFromCache();
+}
+
 }  // anonymous namespace
 
 namespace miso
@@ -172,20 +193,13 @@ void jacobianVectorProduct(MagnetostaticResidual &residual,
                            const std::string &wrt,
                            mfem::Vector &res_dot)
 {
-   // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   // if wrt starts with prefix "current_density:" (in 3D the load handles it)
+   if (wrt.rfind("current_density:", 0) == 0 &&
+       residual.current_coeff != nullptr)
    {
-      residual.current_coeff->cacheCurrentDensity();
-      residual.current_coeff->zeroCurrentDensity();
-
-      MISOInputs inputs{{wrt, 1.0}};
-      setInputs(*residual.current_coeff, inputs);
-
       residual.scratch.SetSize(res_dot.Size());
-      residual.scratch = 0.0;
-      addLoad(*residual.load, residual.scratch);
-      residual.current_coeff->resetCurrentDensityFromCache();
-
+      calcCurrentDensityLoad(
+          *residual.load, *residual.current_coeff, wrt, residual.scratch);
       residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
       res_dot.Add(wrt_dot(0), residual.scratch);
       return;
@@ -198,20 +212,13 @@ double vectorJacobianProduct(MagnetostaticResidual &residual,
                              const mfem::Vector &res_bar,
                              const std::string &wrt)
 {
-   // if wrt starts with prefix "current_density:"
-   if (wrt.rfind("current_density:", 0) == 0)
+   // if wrt starts with prefix "current_density:" (in 3D the load handles it)
+   if (wrt.rfind("current_density:", 0) == 0 &&
+       residual.current_coeff != nullptr)
    {
-      residual.current_coeff->cacheCurrentDensity();
-      residual.current_coeff->zeroCurrentDensity();
-
-      MISOInputs inputs{{wrt, 1.0}};
-      setInputs(*residual.current_coeff, inputs);
-
       residual.scratch.SetSize(res_bar.Size());
-      residual.scratch = 0.0;
-      addLoad(*residual.load, residual.scratch);
-      residual.current_coeff->resetCurrentDensityFromCache();
-
+      calcCurrentDensityLoad(
+          *residual.load, *residual.current_coeff, wrt, residual.scratch);
       residual.scratch.SetSubVector(residual.res.getEssentialDofs(), 0.0);
       return residual.scratch * res_bar;
    }
-- 
2.43.0


From 984b45842a9e890b2c44a3685fc111e3f707b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:38 +0000
Subject: [PATCH 70/92] fix: mesh sensitivity of the irrotational projection
 used another quadrature rule than the projection

---
 src/utils/irrotational_projector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/irrotational_projector.cpp b/src/utils/irrotational_projector.cpp
index fb59dca..6ba3331 100644
--- a/src/utils/irrotational_projector.cpp
+++ b/src/utils/irrotational_projector.cpp
@@ -42,8 +42,10 @@ IrrotationalProjector::IrrotationalProjector(ParFiniteElementSpace &h1_fes,
    auto &mesh_fes = *x_nodes.ParFESpace();
    mesh_sens.Update(&mesh_fes);
 
+   diff_mesh_sens->SetIntRule(ir);
    mesh_sens.AddDomainIntegrator(diff_mesh_sens);
 
+   div_mesh_sens->SetIntRule(ir);
    mesh_sens.AddDomainIntegrator(div_mesh_sens);
 }
 
-- 
2.43.0


From a63805e55ea7ed33fb4ac2fb2f21f65b1aef346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 71/92] fix: Jacobian of the local projection stabilization
 ignored the LPS coefficient

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index 54a7a80..fbd7699 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -410,7 +410,7 @@ void LPSIntegrator<Derived>::AssembleElementGrad(
          }
       }
    }
-   elmat *= alpha;
+   elmat *= alpha * lps_coeff;
 }
 
 template <typename Derived>
-- 
2.43.0


From 4aac60deafb406f3f328f0ca7a85e0ebbade9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 72/92] fix: functional contribution of inviscid interfaces was
 not scaled by alpha

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index fbd7699..e222c23 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -667,7 +667,7 @@ double InviscidFaceIntegrator<Derived>::GetFaceEnergy(
       nrm *= ip_face.weight;
       fun += iFaceFun(nrm, u_face_left, u_face_right);
    }
-   return fun;
+   return fun * alpha;
 }
 
 template <typename Derived>
-- 
2.43.0


From 416498da5c17fdc41703a86ca8c12978a4298ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:54 +0000
Subject: [PATCH 73/92] fix: Jacobian of inviscid interfaces flipped the sign
 of the dissipation for negative alpha

---
 src/physics/fluidflow/inviscid_integ_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/inviscid_integ_def.hpp b/src/physics/fluidflow/inviscid_integ_def.hpp
index e222c23..ba1548e 100644
--- a/src/physics/fluidflow/inviscid_integ_def.hpp
+++ b/src/physics/fluidflow/inviscid_integ_def.hpp
@@ -810,10 +810,12 @@ void InviscidFaceIntegrator<Derived>::AssembleFaceGrad(
       // get the normal vector and the flux Jacobians on the face
       trans.Face->SetIntPoint(&ip_face);
       CalcOrtho(trans.Face->Jacobian(), nrm);
-      nrm *= alpha * ip_face.weight;
+      nrm *= ip_face.weight;
       // flux(nrm, u_face_left, u_face_right, flux_face);
       fluxJacStates(
           nrm, u_face_left, u_face_right, flux_jac_left, flux_jac_right);
+      flux_jac_left *= alpha;
+      flux_jac_right *= alpha;
 
       // insert flux Jacobians into element stiffness matrices
       const int offset = num_states * num_nodes_left;
-- 
2.43.0


From 1da77c727fcf90a3e1ed5051f2872677ac41a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:54 +0000
Subject: [PATCH 74/92] fix: boundary entropy took the pressure of the entropy
 variables

---
 src/physics/fluidflow/euler_integ_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/euler_integ_def.hpp b/src/physics/fluidflow/euler_integ_def.hpp
index 6a8f8f8..f8d8b96 100644
--- a/src/physics/fluidflow/euler_integ_def.hpp
+++ b/src/physics/fluidflow/euler_integ_def.hpp
@@ -971,7 +971,9 @@ double BoundaryEntropy<dim, entvar>::calcBndryFun(const mfem::Vector &x,
 {
    // evaluate the entropy, then return the scaled value
    double S = entropy<double, dim, entvar>(q.GetData());
-   double press = pressure<double, dim>(q.GetData());
+   mfem::Vector q_cons(q.Size());
+   calcConservativeVars<double, dim, entvar>(q.GetData(), q_cons.GetData());
+   double press = pressure<double, dim>(q_cons.GetData());
    S += euler::rho_ref*(press - euler::press_ref)/euler::press_ref;
    double scale = control_scale(len_scale, x_actuator, x);
    double dA = sqrt(dot<double, dim>(dir.GetData(), dir.GetData()));
-- 
2.43.0


From 477c360f5774c0ea8a5dc3303504fca3f5b97741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 75/92] fix: viscous boundary Jacobian ignored the scaling
 alpha, and so did the dual part of the residual

---
 src/physics/fluidflow/viscous_integ_def.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/viscous_integ_def.hpp b/src/physics/fluidflow/viscous_integ_def.hpp
index b488822..973a7fd 100644
--- a/src/physics/fluidflow/viscous_integ_def.hpp
+++ b/src/physics/fluidflow/viscous_integ_def.hpp
@@ -432,7 +432,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceVector(
       Dwi *= face_ip.weight;
 
       // multiply flux_Dvi by the test-function derivative
-      Dwi *= Hinv;
+      Dwi *= alpha * Hinv;
       for (int j = 0; j < num_nodes; ++j)
       {
          // Get mapping Jacobian adjugate
@@ -614,6 +614,7 @@ void ViscousBoundaryIntegrator<Derived>::AssembleFaceGrad(
          }  // d loop
       }     // j loop
    }        // k/i loop
+   elmat *= alpha;
 }
 
 }  // namespace miso
-- 
2.43.0


From 477735f551751803e740cc7567ff1f50132df481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 76/92] fix: gradient part of the surface force derivative
 ignored the scaling alpha

---
 src/physics/fluidflow/navier_stokes_integ_def.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/navier_stokes_integ_def.hpp b/src/physics/fluidflow/navier_stokes_integ_def.hpp
index 653eda2..1474216 100644
--- a/src/physics/fluidflow/navier_stokes_integ_def.hpp
+++ b/src/physics/fluidflow/navier_stokes_integ_def.hpp
@@ -1599,7 +1599,7 @@ void SurfaceForce<dim>::AssembleFaceVector(
       flux_mat *= face_ip.weight;
 
       // multiply flux_Dvi by the test-function derivative
-      flux_mat *= Hinv;
+      flux_mat *= alpha * Hinv;
       for (int j = 0; j < num_nodes; ++j)
       {
          // Get mapping Jacobian adjugate
-- 
2.43.0


From f8ec2993d86d300054210f367258a59148a83bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:25 +0000
Subject: [PATCH 77/92] fix: inviscid manufactured solution and source wrote
 past the state in two dimensions

---
 src/physics/fluidflow/euler_fluxes.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/euler_fluxes.hpp b/src/physics/fluidflow/euler_fluxes.hpp
index 44e1b26..2a5f815 100644
--- a/src/physics/fluidflow/euler_fluxes.hpp
+++ b/src/physics/fluidflow/euler_fluxes.hpp
@@ -1304,7 +1304,10 @@ void InviscidMMSExact(int dim, const xdouble *x, xdouble *u)
       }
       default:
       {  
-         u[0] = 0.0; u[1] = 0.0; u[2] = 0.0; u[3] = 0.0; u[4] = 0.0;
+         for (int i = 0; i < dim + 2; ++i)
+         {
+            u[i] = 0.0;
+         }
          break;
       }
    }
@@ -1413,7 +1416,10 @@ void calcInviscidMMS(int dim, const xdouble *x, xdouble *src)
       }
       default:
       {  
-         src[0] = 0.0; src[1] = 0.0; src[2] = 0.0; src[3] = 0.0; src[4] = 0.0;
+         for (int i = 0; i < dim + 2; ++i)
+         {
+            src[i] = 0.0;
+         }
          break;
       }
    }
-- 
2.43.0


From 796ae17610a5a089cb619aafabe36a16a55f8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 78/92] fix: evaluate the flow entropy change at the time of
 the state

---
 src/physics/fluidflow/flow_residual.cpp | 5 ++---
 src/physics/fluidflow/flow_residual.hpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 6576d21..73bacbf 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -450,12 +450,11 @@ double FlowResidual<dim, entvar>::calcEntropyChange_(const MISOInputs &inputs)
    setVectorFromInputs(inputs, "state", x, false, true);
    Vector dxdt;
    setVectorFromInputs(inputs, "state_dot", dxdt, false, true);
-   double dt = NAN;
    double time = NAN;
    setValueFromInputs(inputs, "time", time, true);
-   setValueFromInputs(inputs, "dt", dt, true);
 
-   auto form_inputs = MISOInputs({{"state", x}, {"time", time + dt}});
+   // `x` is the (stage) state at `time`, so `res` is needed at `time` as well
+   auto form_inputs = MISOInputs({{"state", x}, {"time", time}});
    return calcFormOutput(res, form_inputs);
 
    // ParGridFunction state(&fes), dstate(&fes);
diff --git a/src/physics/fluidflow/flow_residual.hpp b/src/physics/fluidflow/flow_residual.hpp
index 7f8c1e0..cad9f27 100644
--- a/src/physics/fluidflow/flow_residual.hpp
+++ b/src/physics/fluidflow/flow_residual.hpp
@@ -77,8 +77,7 @@ public:
    /// Evaluate the residual weighted by the entropy variables
    /// \param[in] inputs - the variables needed to evaluate the entropy
    /// \return the product `w^T res`
-   /// \note `w` and `res` are evaluated at `state + dt*state_dot` and time
-   /// `t+dt`
+   /// \note `w` and `res` are evaluated at `state` and `time`
    /// \note optional, but must be implemented for relaxation RK
    double calcEntropyChange_(const MISOInputs &inputs);
 
@@ -290,7 +289,7 @@ double calcEntropy(FlowResidual<dim, entvar> &residual,
 /// \tparam dim - number of spatial dimensions (1, 2, or 3)
 /// \tparam entvar - if true, the entropy variables are used in the integrators
 /// \return the product `w^T res`
-/// \note `w` and `res` are evaluated at `state` and time `t+dt`
+/// \note `w` and `res` are evaluated at `state` and `time`
 /// \note `res` is equal to `-state_dot`, but may be recomputed if necessary
 /// \note optional, but must be implemented for relaxation RK
 template <int dim, bool entvar>
-- 
2.43.0


From 6b5a9836bb0b49de7a7a908ab1d19e44c5333bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 79/92] fix: check that the flow options are present before
 they are read

---
 src/physics/fluidflow/flow_residual.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 73bacbf..312049e 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -99,14 +99,13 @@ FlowResidual<dim, entvar>::FlowResidual(
    ent(fes, fields),
    work(getSize(res))
 {
-   setOptions_(options);
-
    if (!options.contains("flow-param") || !options.contains("space-dis"))
    {
       throw MISOException(
           "FlowResidual::addFlowIntegrators: options must"
           "contain flow-param and space-dis!\n");
    }
+   setOptions_(options);
    nlohmann::json flow = options["flow-param"];
    nlohmann::json space_dis = options["space-dis"];
    addFlowDomainIntegrators(flow, space_dis);
-- 
2.43.0


From bbd75f411f3c2d60f0ac1cb2aefda70a4741100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 80/92] fix: refuse roll and pitch axes that the mesh does not
 have

---
 src/physics/fluidflow/flow_residual.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 312049e..8378190 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -415,6 +415,10 @@ void FlowResidual<dim, entvar>::setOptions_(const nlohmann::json &options)
    {
       throw MISOException("ipitch axis must be between 0 and 2!");
    }
+   if ((dim > 1) && ((iroll >= dim) || (ipitch >= dim)))
+   {
+      throw MISOException("iroll and ipitch must be axes of the mesh!");
+   }
    setOptions(res, options);
 }
 
-- 
2.43.0


From fd50004d2cda86d6335ee5679c52b01fd0af4b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 81/92] fix: give the default actuator position as many
 coordinates as the mesh

---
 src/physics/fluidflow/flow_residual.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/flow_residual.cpp b/src/physics/fluidflow/flow_residual.cpp
index 8378190..c205847 100644
--- a/src/physics/fluidflow/flow_residual.cpp
+++ b/src/physics/fluidflow/flow_residual.cpp
@@ -288,7 +288,9 @@ void FlowResidual<dim, entvar>::addInviscidBoundaryIntegrators(
           squaredExponential;
       // Should pass in xc and len...
       double len = 0.1;
-      Vector xc({0.5, 0.0});
+      Vector xc(dim);
+      xc = 0.0;
+      xc(0) = 0.5;
       res.addBdrFaceIntegrator(
           new ControlBC<dim, entvar>(stack, fes.FEColl(), scale, xc, len),
           bdr_attr_marker);
@@ -362,7 +364,9 @@ void FlowResidual<dim, entvar>::addViscousBoundaryIntegrators(
           squaredExponential;
       // Should pass in xc and len...
       double len = 0.1;
-      Vector xc({0.5, 0.0});
+      Vector xc(dim);
+      xc = 0.0;
+      xc(0) = 0.5;
       res.addBdrFaceIntegrator(
           new ViscousControlBC<dim>(
               stack, fes.FEColl(), re_fs, pr_fs, q_ref, scale, xc, len, mu),
@@ -793,7 +797,9 @@ MISOOutput FlowResidual<dim, entvar>::constructOutput(
           squaredExponential;
       // Should pass in xc and len...
       double len = 0.1;
-      Vector xc({0.5, 0.0});
+      Vector xc(dim);
+      xc = 0.0;
+      xc(0) = 0.5;
       FunctionalOutput fun_out(fes, fields);
       fun_out.addOutputBdrFaceIntegrator(
           new BoundaryEntropy<dim, entvar>(stack, fes.FEColl(), scale, xc, len),
-- 
2.43.0


From 1a3b442fe2ff293ca413501bc9c96834dd04487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 82/92] fix: EntropyOutput is a scalar output

---
 src/common/miso_output.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/common/miso_output.hpp b/src/common/miso_output.hpp
index 9187623..fbd2ff7 100644
--- a/src/common/miso_output.hpp
+++ b/src/common/miso_output.hpp
@@ -306,10 +306,7 @@ template <typename T>
 class EntropyOutput final
 {
 public:
-   friend int getSize(const EntropyOutput &output)
-   {
-      return getSize(output.res);
-   }
+   friend int getSize(const EntropyOutput & /*output*/) { return 1; }
    friend void setInputs(EntropyOutput &output, const MISOInputs &inputs) { }
    friend void setOptions(EntropyOutput &output, const nlohmann::json &options)
    { }
-- 
2.43.0


From 9862e0d656c45272ec6feb83602a35da97e8a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:58 +0000
Subject: [PATCH 83/92] fix: base the constant-CFL step on the current state,
 not on the last stage evaluated

---
 src/physics/fluidflow/flow_solver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/flow_solver.cpp b/src/physics/fluidflow/flow_solver.cpp
index 7888757..9dc4992 100644
--- a/src/physics/fluidflow/flow_solver.cpp
+++ b/src/physics/fluidflow/flow_solver.cpp
@@ -151,10 +151,12 @@ double FlowSolver<dim, entvar>::calcStepSize(int iter,
    // Otherwise, use a constant CFL condition
    auto cfl = options["time-dis"]["cfl"];
    // here we call the FlowResidual method for the min time step, which needs
-   // the current state; this is provided by the state field of PDESolver,
-   // which we access with getState()
+   // the current state as a grid function.  The state field of PDESolver may
+   // hold an intermediate (stage) state, so we distribute state to a copy.
+   mfem::ParGridFunction state_gf(getState().gridFunc());
+   state_gf.SetFromTrueDofs(state);
    return getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
-       .minCFLTimeStep(cfl, getState().gridFunc());
+       .minCFLTimeStep(cfl, state_gf);
 }
 
 template <int dim, bool entvar>
-- 
2.43.0


From e7282f02f0bc5423bbfefe6f44ee9f01b3b61a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:58 +0000
Subject: [PATCH 84/92] fix: leave the final state in the state field, not the
 last stage evaluated

---
 src/physics/pde_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/pde_solver.cpp b/src/physics/pde_solver.cpp
index 9289b0b..8985483 100644
--- a/src/physics/pde_solver.cpp
+++ b/src/physics/pde_solver.cpp
@@ -558,6 +558,7 @@ void PDESolver::terminalHook(int iter,
                              const mfem::Vector &state)
 {
    AbstractSolver2::terminalHook(iter, t_final, state);
+   getState().distributeSharedDofs(state);
    derivedPDETerminalHook(iter, t_final, state);
 }
 
-- 
2.43.0


From ab3a4fda4c99d41dbc4d71963e0f20565720dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:58 +0000
Subject: [PATCH 85/92] fix: read the initial-state option of paraview by its
 name

---
 src/physics/fluidflow/flow_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/flow_solver.cpp b/src/physics/fluidflow/flow_solver.cpp
index 9dc4992..bf9ff3b 100644
--- a/src/physics/fluidflow/flow_solver.cpp
+++ b/src/physics/fluidflow/flow_solver.cpp
@@ -72,7 +72,7 @@ FlowSolver<dim, entvar>::FlowSolver(MPI_Comm incomm,
    ode = make_unique<FirstOrderODE>(
        *space_time_res, ode_opts, *nonlinear_solver, out);
 
-   auto log_inital_state  = options["paraview"].value("intial-state",false);
+   auto log_inital_state  = options["paraview"].value("initial-state",false);
    auto log_final_state   = options["paraview"].value("final-state",false);
    auto log_each_timestep = options["paraview"].value("each-timestep",false);
 
-- 
2.43.0


From a182041841eb21f00019d363268394d50465a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:58 +0000
Subject: [PATCH 86/92] fix: constant-CFL steps end at t-final, too

---
 src/physics/fluidflow/flow_control_solver.cpp | 9 +++++++--
 src/physics/fluidflow/flow_solver.cpp         | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 92b9ba7..6d9d89f 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -352,8 +352,13 @@ double FlowControlSolver<dim, entvar>::calcStepSize(int iter,
    extractStates(state, control_state, flow_state);
    FiniteElementState &flow_field = fields.at("flow_state");
    flow_field.distributeSharedDofs(flow_state);
-   return getConcrete<ResType>(*spatial_res)
-       .minCFLTimeStep(cfl, flow_field.gridFunc());
+   double dt = getConcrete<ResType>(*spatial_res)
+                   .minCFLTimeStep(cfl, flow_field.gridFunc());
+   if (options["time-dis"].value("exact-t-final", true))
+   {
+      dt = min(dt, t_final - t);
+   }
+   return dt;
 }
 
 template <int dim, bool entvar>
diff --git a/src/physics/fluidflow/flow_solver.cpp b/src/physics/fluidflow/flow_solver.cpp
index bf9ff3b..429ac56 100644
--- a/src/physics/fluidflow/flow_solver.cpp
+++ b/src/physics/fluidflow/flow_solver.cpp
@@ -155,8 +155,13 @@ double FlowSolver<dim, entvar>::calcStepSize(int iter,
    // hold an intermediate (stage) state, so we distribute state to a copy.
    mfem::ParGridFunction state_gf(getState().gridFunc());
    state_gf.SetFromTrueDofs(state);
-   return getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
-       .minCFLTimeStep(cfl, state_gf);
+   double dt = getConcrete<FlowResidual<dim, entvar>>(*spatial_res)
+                   .minCFLTimeStep(cfl, state_gf);
+   if (options["time-dis"].value("exact-t-final", true))
+   {
+      dt = min(dt, t_final - t);
+   }
+   return dt;
 }
 
 template <int dim, bool entvar>
-- 
2.43.0


From 881f347b09fd92295db2374fa362592fc1e9f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:49 +0000
Subject: [PATCH 87/92] fix: keep the closed-loop setting of the controller
 between inputs

---
 src/physics/fluidflow/flow_control_residual.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 5d8b8d4..c10076b 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -63,7 +63,8 @@ void setInputs(ControlResidual &residual, const MISOInputs &inputs)
    setValueFromInputs(inputs, "eta", residual.eta);
    setValueFromInputs(inputs, "beta", residual.beta);
    setValueFromInputs(inputs, "target-entropy", residual.target_entropy);
-   double closed_double = 1.0;
+   // keep the current setting if "closed-loop" is not one of the inputs
+   double closed_double = residual.closed_loop ? 1.0 : 0.0;
    setValueFromInputs(inputs, "closed-loop", closed_double);
    if (fabs(closed_double) < numeric_limits<double>::epsilon())
    {
-- 
2.43.0


From 0f10a42b67ef7fd59194be4f66bda0cddc0a8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:27 +0000
Subject: [PATCH 88/92] fix: pass the actuator position to the flow only once
 it has been set

---
 src/physics/fluidflow/flow_control_residual.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index c10076b..6a2a330 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -367,8 +367,12 @@ void FlowControlResidual<dim, entvar>::evaluate_(const MISOInputs &inputs,
    // double time = std::get<double>(inputs.at("time"));
 
    // get the coupling variables/outputs
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   if (x_actuator.Size() > 0)
+   {
+      // otherwise, the integrators keep their default actuator position
+      flow_inputs.emplace("x-actuator", x_actuator);
+   }
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
@@ -410,8 +414,12 @@ double FlowControlResidual<dim, entvar>::calcEntropyChange_(
 
    // get the control velocity; for this we need the boundary entropy at the
    // new state, so compute that first
-   auto flow_inputs =
-       MISOInputs({{"state", flow_ref}, {"x-actuator", x_actuator}});
+   auto flow_inputs = MISOInputs({{"state", flow_ref}});
+   if (x_actuator.Size() > 0)
+   {
+      // otherwise, the integrators keep their default actuator position
+      flow_inputs.emplace("x-actuator", x_actuator);
+   }
    double bndry_ent = calcOutput(boundary_entropy, flow_inputs);
    auto control_inputs =
        MISOInputs({{"state", control_ref}, {"boundary-entropy", bndry_ent}});
-- 
2.43.0


From fc56aa7aeeaff51612c14848bec236c82117d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:27 +0000
Subject: [PATCH 89/92] fix: default to the PID controller when test-ode is not
 among the options

---
 src/physics/fluidflow/flow_control_residual.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 6a2a330..1916a4d 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -40,14 +40,7 @@ ControlResidual::ControlResidual(MPI_Comm incomm,
       (*mass_mat)(0, 0) = 1.0;
       (*mass_mat)(1, 1) = 1.0;
    }
-   if (control_options["test-ode"])
-   {
-      test_ode = true;
-   }
-   else
-   {
-      test_ode = false;
-   }
+   test_ode = control_options.value("test-ode", false);
 }
 
 void setInputs(ControlResidual &residual, const MISOInputs &inputs)
-- 
2.43.0


From a87421a646ce922c929028ed41510380d1aa6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:43 +0000
Subject: [PATCH 90/92] fix: check that the options of the flow-control
 residual are present before they are read

---
 .../fluidflow/flow_control_residual.cpp       | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_residual.cpp b/src/physics/fluidflow/flow_control_residual.cpp
index 1916a4d..68dc2f9 100644
--- a/src/physics/fluidflow/flow_control_residual.cpp
+++ b/src/physics/fluidflow/flow_control_residual.cpp
@@ -10,6 +10,24 @@
 using namespace std;
 using namespace mfem;
 
+namespace
+{
+/// Returns the options for output `fun`, and throws if there are none
+/// \param[in] options - options of the residual
+/// \param[in] fun - name of the output needed by the residual
+const nlohmann::json &outputOptions(const nlohmann::json &options,
+                                    const std::string &fun)
+{
+   if (!options.contains("outputs") || !options["outputs"].contains(fun))
+   {
+      throw miso::MISOException("FlowControlResidual:\n\toptions for output " +
+                                fun + " are required!\n");
+   }
+   return options["outputs"][fun];
+}
+
+}  // namespace
+
 namespace miso
 {
 ControlResidual::ControlResidual(MPI_Comm incomm,
@@ -268,10 +286,10 @@ FlowControlResidual<dim, entvar>::FlowControlResidual(
    control_res(pfes.GetComm(), options),
    boundary_entropy(
        flow_res.constructOutput("boundary-entropy",
-                                options["outputs"]["boundary-entropy"])),
-   supply_rate(
-       flow_res.constructOutput("far-field-supply-rate",
-                                options["outputs"]["far-field-supply-rate"]))
+                                outputOptions(options, "boundary-entropy"))),
+   supply_rate(flow_res.constructOutput(
+       "far-field-supply-rate",
+       outputOptions(options, "far-field-supply-rate")))
 {
    setOptions(*this, options);
    // offsets mark the start of each row/column block; note that offsets must
@@ -295,7 +313,7 @@ FlowControlResidual<dim, entvar>::FlowControlResidual(
 
    // check for consistency between the boundary-entropy and the control bc
    // NOTE: ideally, we would use the control BCs to define the functional.
-   if (options["bcs"].contains("control"))
+   if (options.contains("bcs") && options["bcs"].contains("control"))
    {
       auto bc_marker = options["bcs"]["control"].get<vector<int>>();
       auto fun_marker = options["outputs"]["boundary-entropy"]["boundaries"]
-- 
2.43.0


From e2ca28d915ccb6437c8f06a3300d105c3849cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:43 +0000
Subject: [PATCH 91/92] fix: FlowControlSolver refuses mesh files it cannot
 read instead of dereferencing null

---
 src/physics/fluidflow/flow_control_solver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index 6d9d89f..bbf3f36 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -205,6 +205,13 @@ std::unique_ptr<mfem::ParMesh> FlowControlSolver<dim, entvar>::constructMesh(
    // {
    //    mesh = constructPumiMesh(comm, mesh_options);
    // }
+   else
+   {
+      throw MISOException(
+          "FlowControlSolver::constructMesh\n"
+          "\tUnsupported mesh file extension: " +
+          mesh_ext + "!\n");
+   }
    mesh->EnsureNodes();
 
    mesh->RemoveInternalBoundaries();
-- 
2.43.0


From 0928a1ce54f27ff21032c2f3263bc6f6f92bea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:43 +0000
Subject: [PATCH 92/92] fix: FlowControlSolver writes its output files in every
 run, not only in the first

---
 src/physics/fluidflow/flow_control_solver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/physics/fluidflow/flow_control_solver.cpp b/src/physics/fluidflow/flow_control_solver.cpp
index bbf3f36..ea01f01 100644
--- a/src/physics/fluidflow/flow_control_solver.cpp
+++ b/src/physics/fluidflow/flow_control_solver.cpp
@@ -288,9 +288,8 @@ void FlowControlSolver<dim, entvar>::initialHook(const mfem::Vector &state)
             string output_filename =
                 pair.first + "-" + std::to_string(sample) + ".txt";
             remove(output_filename.c_str());
-            output_log.emplace(pair.first,
-                               ofstream(output_filename, fstream::app));
-            // output_log[pair.first].open(output_filenam, fstream::app);
+            // replaces the (closed) file of an earlier run
+            output_log[pair.first] = ofstream(output_filename, fstream::app);
             output_log[pair.first] << setprecision(16);
          }
       }
-- 
2.43.0

