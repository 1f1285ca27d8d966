From fd814fd96f217348df6aff55bd65ee05348d5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 01/19] fix: land exactly on t_bound in the last step

t + abs(t_bound - t) can differ from t_bound by one ulp. Undershoot left a
remainder below min_step and made the run fail with TOO_SMALL_STEP; overshoot
made the solver end beyond t_bound.
---
 extensisq/bogacki.py   | 2 ++
 extensisq/calvo.py     | 2 ++
 extensisq/cash.py      | 2 ++
 extensisq/common.py    | 4 ++++
 extensisq/shampine.py  | 2 +-
 extensisq/sommeijer.py | 5 ++++-
 6 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..2d022e7 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -253,6 +253,8 @@ class BS5(RungeKutta):
 
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                # last step, no round-off
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..51d568f 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -165,6 +165,8 @@ class CFMR7osc(RungeKutta):
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                # last step, no round-off
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..f8978d1 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -378,6 +378,8 @@ class CKdisc(RungeKutta):
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
         t_new = t + h
+        if abs(h) == abs(self.t_bound - t):
+            t_new = self.t_bound                    # last step, no round-off
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..83f95a8 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -235,6 +235,8 @@ class RungeKutta(OdeSolver):
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                # last step, no round-off
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2028,6 +2030,8 @@ class ESDIRK(OdeSolver):
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
             t_new = t + h
+            if h_abs == abs(self.t_bound - t):
+                t_new = self.t_bound                # last step, no round-off
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..be1d91f 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -331,7 +331,7 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
-            x += h
+            x = self.t_bound if h == d else x + h   # last step, no round-off
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..b0a0c94 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -235,7 +235,10 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        if absh == abs(self.t_bound - t):
+            t = self.t_bound                        # last step, no round-off
+        else:
+            t += h
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From c36d1528e7e4b8c56b3fbd53fede9ebbe9107b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 02/19] fix: Mu5Nmb must not scale its class coefficients in
 place

Every construction scaled the shared E and Ep arrays again, which gradually
removed the error control of all later Mu5Nmb solvers in the process.
---
 extensisq/murua.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..2f16849 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,8 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            self.E = self.E * factor
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From 77b718c7aa97825d1dbd321d6c471fff2526993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 03/19] fix: Fi5N passes sc_params on to the stepsize
 controller

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..b4b8f9d 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(fun, t0, y0, t_bound, sc_params=sc_params,
+                         **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From 89491e4af4a71c2938e5ba2312dd14f85033cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 04/19] fix: CKdisc low order dense output must not alias the
 stage storage

The interpolants held views of K, so later steps changed earlier output.
---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index f8978d1..11e10a7 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -415,4 +415,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.f)
-- 
2.43.0


From 0f80ec6a668c824664418184fae0d9293c8f90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 05/19] fix: no ZeroDivisionError for nfev_stiff_detect <
 n_stages

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 83f95a8..1eee62a 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -404,7 +404,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1358,7 +1358,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From 7afd4d2b551419fd07948dab239f21895d596288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/19] fix: ESDIRK and SSV2stab keep max_step in the first and
 last steps

ESDIRK stretched the last step by up to 1% and SSV2stab by up to 10% beyond
max_step. SSV2stab also ignored max_step for first_step.
---
 extensisq/common.py    | 3 +++
 extensisq/sommeijer.py | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 1eee62a..f1c6ade 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2181,6 +2181,9 @@ class ESDIRK(OdeSolver):
         if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
             h_abs = d
+            if d > self.max_step:
+                # split the remaining interval to stay within max_step
+                h_abs = 0.5 * d
 
         return h_abs, min_step
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index b0a0c94..df83ba7 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -187,8 +187,11 @@ class SSV2stab(OdeSolver):
                 absh = self._init_step_size(t, yn, fn, vtemp1, vtemp2)
 
             #  Adjust the step size and determine the number of stages m.
-            if 1.1 * absh >= abs(self.t_bound - t):
-                absh = abs(self.t_bound - t)
+            absh = min(absh, self.max_step)
+            d = abs(self.t_bound - t)
+            if 1.1 * absh >= d:
+                # split d over two steps if needed to stay within max_step
+                absh = d if d <= self.max_step else 0.5 * d
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 621941020f0b462fde1848f1e4cd0b7b622fed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 07/19] fix: look ahead near t_bound keeps max_step and t_bound
 for tiny intervals

With max_step < min_step the lower limit min_step made the step larger than
max_step and could step over t_bound; for d < 2*min_step it left a remainder
below min_step, which can't be integrated.
---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index f1c6ade..e69c4dc 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -324,7 +324,7 @@ class RungeKutta(OdeSolver):
                 # h_abs < d < 2 * h_abs: "look ahead".
                 # split d over last two steps. This reduces the chance of a
                 # very small last step.
-                h_abs = max(0.5 * d, min_step)
+                h_abs = 0.5 * d if d >= 2 * min_step else min(d, self.max_step)
                 self.standard_sc = True
             else:
                 # d <= h_abs: Don't step over t_bound
-- 
2.43.0


From 882d095fc7797d57cf5ed148e08b002110a36f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 08/19] fix: SWAG resets the failed step counter like the other
 methods

---
 extensisq/shampine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index be1d91f..6ad816a 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -176,6 +176,7 @@ class SWAG(OdeSolver):
 
         # from ddes.f, for stiffness detection
         self.kle4 = 0
+        NFS[()] = 0                                # global failed step counter
 
     def _step_impl(self):
 
-- 
2.43.0


From 53b401882071a21d1bd63be185436e96f3eb0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 09/19] fix: ESDIRK stores the derivative at the start of the
 step for interpolation

self.f is the value at t0 and is never updated, so the cubic Hermite fallback
interpolant used a wrong start derivative after the first step.
---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index e69c4dc..7d9e515 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2097,7 +2097,7 @@ class ESDIRK(OdeSolver):
 
         # step accepted, set or store for next step
         self.y_old = y.copy()
-        self.yp_old = self.f.copy()
+        self.yp_old = self.yp
         self.yp = K[-1, :].copy()
         self.error_norm_old = error_norm
         self.h_previous = h
-- 
2.43.0


From bf0bc58f3153314a5bb421f467f66fce099a933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 10/19] fix: sens_forward accepts a list for atol, as
 documented

---
 extensisq/sensitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..de38836 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -162,6 +162,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     assert isinstance(rtol, float), 'rtol should be a float'
     assert isinstance(atol, float) or len(atol) == Ny, \
         '`atol` should be a float or a sequence of floats of length Ny'
+    atol = np.asarray(atol)
     total_atol = np.empty((Np+1)*Ny)
     total_atol[:Ny] = atol
     for i, _p in enumerate(p, start=1):
-- 
2.43.0


From c9e590d0de397269e4a00f6ac2e830a06bef785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 11/19] fix: CKdisc low order dense output holds its own copy
 of the derivative

---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index 11e10a7..755a76b 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -415,4 +415,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :].copy(), self.f)
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From 8a840cefe23c99813133dbd142a1bb19f6083bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 12/19] fix: do not accept a solution that overflowed

If y_new is inf, then so is its scale. The scaled error was 0 and the step was
accepted: the run continued (or finished successfully) with y = inf.
---
 extensisq/bogacki.py  | 2 ++
 extensisq/calvo.py    | 2 ++
 extensisq/cash.py     | 1 +
 extensisq/common.py   | 4 ++++
 extensisq/shampine.py | 2 ++
 5 files changed, 11 insertions(+)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 2d022e7..db20727 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -281,6 +281,8 @@ class BS5(RungeKutta):
 
             # calculate error_norm and solution
             y_new, error_norm = self._comp_sol_err(y, h)
+            if error_norm < 1 and not np.all(np.isfinite(y_new)):
+                error_norm = np.inf                                 # overflow
 
             # and evaluate
             if error_norm < 1:
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 51d568f..289126c 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -193,6 +193,8 @@ class CFMR7osc(RungeKutta):
 
             # calculate error norm and solution (now with proper weight)
             y_new, error_norm = self._comp_sol_err(y, h)
+            if error_norm < 1 and not np.all(np.isfinite(y_new)):
+                error_norm = np.inf                                 # overflow
 
             # evaluate error
             if error_norm < 1:
diff --git a/extensisq/cash.py b/extensisq/cash.py
index 755a76b..913d9b3 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -405,6 +405,7 @@ class CKdisc(RungeKutta):
         sol = self._compute_solution(h, B, i)
         err = self._compute_error(h, E, i)
         tol = calculate_scale(self.atol, self.rtol, self.y, sol)
+        err = np.where(np.isfinite(sol), err, np.nan)               # overflow
         return sol, err, tol
 
     def _dense_output_impl(self):
diff --git a/extensisq/common.py b/extensisq/common.py
index 7d9e515..acde130 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -245,6 +245,8 @@ class RungeKutta(OdeSolver):
 
             # calculate error norm and solution
             y_new, error_norm = self._comp_sol_err(y, h)
+            if error_norm < 1 and not np.all(np.isfinite(y_new)):
+                error_norm = np.inf                                 # overflow
 
             # evaluate error
 
@@ -2089,6 +2091,8 @@ class ESDIRK(OdeSolver):
             if self.filter_error:
                 err = self.M_mat @ self.solve_lu(LU, Sc @ err)            # Est
             error_norm = norm(err/scale)
+            if not (np.isfinite(error_norm) and np.all(np.isfinite(y_new))):
+                error_norm = np.inf                                 # overflow
 
             # propose new stepsize
             step_accepted, h_abs = self._assess_error_and_stepsize(
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 6ad816a..a86f033 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -410,6 +410,8 @@ class SWAG(OdeSolver):
 
         # correct and evaluate
         y[:] = h * g[k] * (yp - phi[:, 0]) + p
+        if not np.all(np.isfinite(y)):
+            return False, "Overflow or underflow encountered."
         yp[:] = self.fun(x, y)                                       # evaluate
         # p does not need to store y_old for dense output anymore.
 
-- 
2.43.0


From 4d905fcab2475e7175b472378f939ec77bca8c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 13/19] fix: SSV2stab's initial step estimate probed against
 the direction of integration

---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index df83ba7..5f25d9d 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -149,8 +149,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From d7e7a7e44c6af6efa2ce5d920512dcf67545ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 14/19] fix: consistent DAE initial state was rejected when
 root() stagnates at its solution

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index acde130..255b095 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1880,7 +1880,7 @@ class ESDIRK(OdeSolver):
                 return Gvv
 
             solC = root(funC, v0, jac=jacC)
-            if not solC.success:
+            if not (solC.success or np.allclose(solC.fun, 0.)):
                 raise ValueError(
                     "Cannot find consistent initial conditions."
                     " Try to give a better y0")
-- 
2.43.0


From 99b0c6479aef895af5a6d99e561043baccbecdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 15/19] fix: Nystrom structure checks perturb the velocity also
 when it is -1

---
 extensisq/common.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 255b095..4a530d5 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1256,16 +1256,14 @@ class RungeKuttaNystrom(RungeKutta):
             raise AssertionError(msg)
         elif np.all(self.y[self.n:] == self.y[:self.n]):
             y_test = self.y.copy()
-            y_test[self.n:] *= 1 + 1e-8
-            y_test[self.n:] += 1e-8
+            y_test[self.n:] += 1e-8 * (1 + np.abs(y_test[self.n:]))
             if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
                    "but `fun` seems velocity dependent.")
             y_test = self.y.copy()
-            y_test[self.n:] *= 1 + 1e-8
-            y_test[self.n:] += 1e-8
+            y_test[self.n:] += 1e-8 * (1 + np.abs(y_test[self.n:]))
             if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
-- 
2.43.0


From a1f3a8aedfdeacbde246a92dacc9b4896391babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 16/19] fix: Nystrom methods count all evaluations of the
 user's function

---
 extensisq/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4a530d5..24a7ed4 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1257,14 +1257,15 @@ class RungeKuttaNystrom(RungeKutta):
         elif np.all(self.y[self.n:] == self.y[:self.n]):
             y_test = self.y.copy()
             y_test[self.n:] += 1e-8 * (1 + np.abs(y_test[self.n:]))
-            if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
+            if not np.all(
+                    self.fun(t0, y_test)[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
                    "but `fun` seems velocity dependent.")
             y_test = self.y.copy()
             y_test[self.n:] += 1e-8 * (1 + np.abs(y_test[self.n:]))
-            if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
+            if not np.all(self.fun(t0, y_test)[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
         # check Ep, (E is already checked)
@@ -1273,7 +1274,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From 19098494d04a287e2b624cb14bd5aca5a5fd91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:49 +0000
Subject: [PATCH 17/19] fix: no oscillation warning when the stiffness
 detection did not converge

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 24a7ed4..001a2f2 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -468,7 +468,7 @@ class RungeKutta(OdeSolver):
                 if rootre is None:
                     # no warning is given
                     logging.info('Stiffness detection did not converge')
-                if not rootre:
+                elif not rootre:
                     # A complex pair of roots has been found near the imaginary
                     # axis, where the stability boundary of the method is not
                     # well defined.
@@ -1426,7 +1426,7 @@ class RungeKuttaNystrom(RungeKutta):
                 if rootre is None:
                     # no warning is given
                     logging.info('Stiffness detection did not converge')
-                if not rootre:
+                elif not rootre:
                     # A complex pair of roots has been found near the imaginary
                     # axis, where the stability boundary of the method is not
                     # well defined.
-- 
2.43.0


From 50fc8d4aa924bcf8ca0ba62e58065ac703a1af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:55 +0000
Subject: [PATCH 18/19] fix: SSV2stab refuses steps below the resolution of
 time

---
 extensisq/sommeijer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 5f25d9d..2dabf45 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -188,7 +188,8 @@ class SSV2stab(OdeSolver):
                 absh = self._init_step_size(t, yn, fn, vtemp1, vtemp2)
 
             #  Adjust the step size and determine the number of stages m.
-            absh = min(absh, self.max_step)
+            min_step = 10.0 * self.uround * abs(t)           # resolution of t
+            absh = min(max(absh, min_step), self.max_step)
             d = abs(self.t_bound - t)
             if 1.1 * absh >= d:
                 # split d over two steps if needed to stay within max_step
@@ -206,6 +207,8 @@ class SSV2stab(OdeSolver):
             else:
                 self.mlim = 0
             maxm[()] = max(m, maxm[()])
+            if absh < min(min_step, d):
+                return False, self.TOO_SMALL_STEP
 
             # A tentative solution at t+h is returned in y and its slope is
             # evaluated in vtemp1(*). Mod: a factor 4/3*(m**2-1) and a lower
-- 
2.43.0


From 936091192cb70152f89d8f59c6a381a575c1e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:04 +0000
Subject: [PATCH 19/19] fix: implicit methods report failure instead of raising
 when the Jacobian or a residual is not finite

---
 extensisq/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 001a2f2..5484a87 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1774,7 +1774,8 @@ class ESDIRK(OdeSolver):
 
             def solve_lu(LU, b):
                 NLS[()] += 1
-                return lu_solve(LU, b, overwrite_b=True)
+                return lu_solve(LU, b, overwrite_b=True,
+                                check_finite=False)
 
         return lu, solve_lu
 
@@ -2036,6 +2037,8 @@ class ESDIRK(OdeSolver):
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
+                if not np.isfinite(self.J.sum()):
+                    return False, "Overflow or underflow encountered."
                 self.h_LU = h
                 if not self.isDAE:
                     LU = self.lu(self.M_mat - h * self.d * self.J)
-- 
2.43.0

