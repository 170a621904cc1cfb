From 72147124db7befba60b7f0863bd4dbd21d412ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 01/69] fix: procedural update() reports the likelihood of the
 measurement under the prior

log_likelihood was evaluated at the posterior mean, unlike KalmanFilter.log_likelihood.
---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..4e09543 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1503,7 +1503,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(z, Hx, S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From c261987806acf4901fcd32d1a4c4d895378fac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 02/69] fix: procedural rts_smoother() uses the F and Q that
 lead from step k to k+1

Makes it agree with KalmanFilter.rts_smoother() and with batch_filter(), which applies
Fs[k+1], Qs[k+1] on the way from k to k+1.
---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 4e09543..50afb48 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1848,11 +1848,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From f085583d59e7cfcd1fb16f440e169697613b322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 03/69] fix: KalmanFilter.batch_filter() without us applies no
 control

A scalar 0 was multiplied with B, giving a (dim_x, dim_u) matrix which broke or
broadcast the state unless dim_u was 1 and x a column.
---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 50afb48..c4d6538 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -949,7 +949,7 @@ class KalmanFilter(object):
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 384d54e0d7093d923b4d3a7826df4c3c862c6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 04/69] fix: KalmanFilter.batch_filter() accepts measurements
 in every layout update() does

Passing self.H explicitly disabled the reshaping of z, so 1D vector measurements with a
column state were broadcast to a matrix.
---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index c4d6538..8e008cc 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -943,7 +943,7 @@ class KalmanFilter(object):
         if Qs is None:
             Qs = [self.Q] * n
         if Hs is None:
-            Hs = [self.H] * n
+            Hs = [None] * n
         if Rs is None:
             Rs = [self.R] * n
         if Bs is None:
-- 
2.43.0


From 6379da2169c1258a65b232857b33473550c4f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 05/69] fix: batch_filter() accepts None among vector
 measurements

np.size() cannot size a list mixing None and arrays.
---
 filterpy/kalman/fading_memory.py | 2 +-
 filterpy/kalman/kalman_filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..2bce646 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -314,7 +314,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 8e008cc..ba0c1db 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -937,7 +937,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1741,7 +1741,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From 2f202b5a56361b49c700d575a45b7fcfffa947e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 06/69] fix: KalmanFilter.predict_steadystate() without u
 applies no control

As predict() does; the default u=0 turned B into a matrix-shaped control.
---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index ba0c1db..91b3c3c 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -560,7 +560,7 @@ class KalmanFilter(object):
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-    def predict_steadystate(self, u=0, B=None):
+    def predict_steadystate(self, u=None, B=None):
         """
         Predict state (prior) using the Kalman filter state propagation
         equations. Only x is updated, P is left unchanged. See
@@ -571,7 +571,7 @@ class KalmanFilter(object):
         ----------
 
         u : np.array
-            Optional control vector. If non-zero, it is multiplied by B
+            Optional control vector. If not None, it is multiplied by B
             to create the control input into the system.
 
         B : np.array(dim_x, dim_u), or None
@@ -583,7 +583,7 @@ class KalmanFilter(object):
             B = self.B
 
         # x = Fx + Bu
-        if B is not None:
+        if B is not None and u is not None:
             self.x = dot(self.F, self.x) + dot(B, u)
         else:
             self.x = dot(self.F, self.x)
-- 
2.43.0


From 147a4fbda8eb2491b83edc69579b1ac084cdc692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 07/69] fix: update_sequential() does not modify the caller's
 state array in place

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 91b3c3c..058027f 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -813,7 +813,7 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
-- 
2.43.0


From 7879f14fcc77fe67d9e35fdcce561a8260498696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 08/69] fix: EKF.predict_update() is predict() followed by
 update()

It saved the state before the prediction as prior, linearized at that stale state,
ignored an overridden predict_x() and crashed for z=None, documented as predict only.
---
 filterpy/kalman/EKF.py | 52 +++---------------------------------------
 1 file changed, 3 insertions(+), 49 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..9f8abb8 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -201,55 +201,9 @@ class ExtendedKalmanFilter(object):
         u : np.array or scalar
             optional control vector input to the filter.
         """
-        #pylint: disable=too-many-locals
-
-        if not isinstance(args, tuple):
-            args = (args,)
-
-        if not isinstance(hx_args, tuple):
-            hx_args = (hx_args,)
-
-        if np.isscalar(z) and self.dim_z == 1:
-            z = np.asarray([z], float)
-
-        F = self.F
-        B = self.B
-        P = self.P
-        Q = self.Q
-        R = self.R
-        x = self.x
-
-        H = HJacobian(x, *args)
-
-        # predict step
-        x = dot(F, x) + dot(B, u)
-        P = dot(F, P).dot(F.T) + Q
-
-        # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
-
-        # update step
-        PHT = dot(P, H.T)
-        self.S = dot(H, PHT) + R
-        self.SI = linalg.inv(self.S)
-        self.K = dot(PHT, self.SI)
-
-        self.y = z - Hx(x, *hx_args)
-        self.x = x + dot(self.K, self.y)
-
-        I_KH = self._I - dot(self.K, H)
-        self.P = dot(I_KH, P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
-        # set to None to force recompute
-        self._log_likelihood = None
-        self._likelihood = None
-        self._mahalanobis = None
+        self.predict(u)
+        if z is not None:
+            self.update(z, HJacobian, Hx, args=args, hx_args=hx_args)
 
     def update(self, z, HJacobian, Hx, R=None, args=(), hx_args=(),
                residual=np.subtract):
-- 
2.43.0


From 05addd2b406f605e828b6fac84d474f3d8e1c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 09/69] fix: predict() without a control input applies none,
 whatever the shape of B

The default u=0 multiplied a (dim_x, dim_u) B into a matrix of zeros, which broadcast
the state to a wrong shape, and u=None (as IMMEstimator passes) crashed.
---
 filterpy/hinfinity/hinfinity_filter.py | 9 +++++++--
 filterpy/kalman/EKF.py                 | 4 +++-
 filterpy/kalman/fading_memory.py       | 8 ++++++--
 filterpy/kalman/information_filter.py  | 4 +++-
 filterpy/kalman/kalman_filter.py       | 8 ++++++--
 filterpy/kalman/mmae.py                | 4 ++--
 filterpy/kalman/square_root.py         | 4 +++-
 7 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..55bc176 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -154,7 +154,9 @@ class HInfinityFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.any(u):
+            self.x = self.x + dot(self.B, u)
 
 
     def batch_filter(self, Zs,update_first=False, saver=False):
@@ -230,7 +232,10 @@ class HInfinityFilter(object):
         x : ndarray
             State vector of the prediction.
         """
-        return dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if np.any(u):
+            x = x + dot(self.B, u)
+        return x
 
 
     def residual_of(self, z):
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 9f8abb8..64e439e 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -302,7 +302,9 @@ class ExtendedKalmanFilter(object):
         need to do this, for example, if the usual Taylor expansion to
         generate F is not providing accurate results for you.
         """
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.any(u):
+            self.x = self.x + dot(self.B, u)
 
     def predict(self, u=0):
         """
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 2bce646..7d3d427 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -264,7 +264,9 @@ class FadingKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.any(u):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
@@ -367,7 +369,9 @@ class FadingKalmanFilter(object):
             State vector and covariance array of the prediction.
         """
 
-        x = dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if np.any(u):
+            x = x + dot(self.B, u)
         P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
         return (x, P)
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..13aac3f 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -271,7 +271,9 @@ class InformationFilter(object):
             self._no_information = True
 
         if invertable:
-            self.x = dot(self._F, self.x) + dot(self.B, u)
+            self.x = dot(self._F, self.x)
+            if np.any(u):
+                self.x = self.x + dot(self.B, u)
             self.P_inv = self.inv(AI + self.Q)
 
             # save priors
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 058027f..6c33522 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1615,7 +1615,9 @@ def predict(x, P, F=1, Q=0, u=0, B=1, alpha=1.):
 
     if np.isscalar(F):
         F = np.array(F)
-    x = dot(F, x) + dot(B, u)
+    x = dot(F, x)
+    if np.any(u):
+        x = x + dot(B, u)
     P = (alpha * alpha) * dot(dot(F, P), F.T) + Q
 
     return x, P
@@ -1655,7 +1657,9 @@ def predict_steadystate(x, F=1, u=0, B=1):
 
     if np.isscalar(F):
         F = np.array(F)
-    x = dot(F, x) + dot(B, u)
+    x = dot(F, x)
+    if np.any(u):
+        x = x + dot(B, u)
 
     return x
 
diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..cec963f 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -137,7 +137,7 @@ class MMAEFilterBank(object):
         self.P_post = self.P.copy()
 
 
-    def predict(self, u=0):
+    def predict(self, u=None):
         """
         Predict next position using the Kalman filter state propagation
         equations for each filter in the bank.
@@ -146,7 +146,7 @@ class MMAEFilterBank(object):
         ----------
 
         u : np.array
-            Optional control vector. If non-zero, it is multiplied by B
+            Optional control vector. If not None, it is multiplied by B
             to create the control input into the system.
         """
 
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..f27eecc 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -237,7 +237,9 @@ class SquareRootKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if np.any(u):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
-- 
2.43.0


From fd1b3ccb4ec4868c023b88131c76b6b3b3147df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 10/69] fix: SquareRootKalmanFilter rejects a dim_x below 1

dim_z was checked twice instead.
---
 filterpy/kalman/square_root.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index f27eecc..2ee9bb3 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -125,12 +125,12 @@ class SquareRootKalmanFilter(object):
     """
 
     def __init__(self, dim_x, dim_z, dim_u=0):
-        if dim_z < 1:
+        if dim_x < 1:
             raise ValueError('dim_x must be 1 or greater')
         if dim_z < 1:
-            raise ValueError('dim_x must be 1 or greater')
+            raise ValueError('dim_z must be 1 or greater')
         if dim_u < 0:
-            raise ValueError('dim_x must be 0 or greater')
+            raise ValueError('dim_u must be 0 or greater')
 
         self.dim_x = dim_x
         self.dim_z = dim_z
-- 
2.43.0


From 033fe07e100bb12f9fdd05c043c9e4c1ea9550d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 11/69] fix: SquareRootKalmanFilter.P_post is the posterior
 covariance, not the prior

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 2ee9bb3..c6f1479 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -302,7 +302,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From 032ef77f876c831daad12c445dbf91b70e273d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 12/69] fix: SquareRootKalmanFilter.update() does not modify
 the caller's state array in place

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index c6f1479..5e16a61 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From aa9315df1b44e87e82b24ccdf9c50eca537a7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 13/69] fix: MMAEFilterBank does not modify the caller's
 probabilities

The array was aliased and updated in place; integer probabilities raised.
---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index cec963f..76fd32e 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
-- 
2.43.0


From 31c496e3b936faa812780a251271d1f412062b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 14/69] fix: MMAEFilterBank covariance is the moment match of
 the bank

zip(self.x, ...) paired each filter with one component of the mean, and dropped filters
beyond dim_x.
---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 76fd32e..d1f56df 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -201,8 +201,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From 068261a32a41cf49342ade87aa942d7b5f0e01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 15/69] fix: MMAEFilterBank.predict() updates the estimate of
 the bank

x, P, x_prior and P_prior kept the previous posterior.
---
 filterpy/kalman/mmae.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index d1f56df..8dc91dd 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -152,6 +152,7 @@ class MMAEFilterBank(object):
 
         for f in self.filters:
             f.predict(u)
+        self._compute_state_estimate()
 
         # save prior
         self.x_prior = self.x.copy()
@@ -187,6 +188,14 @@ class MMAEFilterBank(object):
 
         self.p /= sum(self.p) # normalize
 
+        self._compute_state_estimate()
+
+        # save measurement and posterior state
+        self.z = deepcopy(z)
+        self.x_post = self.x.copy()
+        self.P_post = self.P.copy()
+
+    def _compute_state_estimate(self):
         # compute estimated state and covariance of the bank of filters.
         self.P = np.zeros(self.filters[0].P.shape)
 
@@ -205,12 +214,6 @@ class MMAEFilterBank(object):
             y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
     def __repr__(self):
         return '\n'.join([
             'MMAEFilterBank object',
-- 
2.43.0


From 667892435b67f8e7bd525fd13a86580b7e2f5a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 16/69] fix: CubatureKalmanFilter.update() accepts a
 measurement of shape (dim_z,)

That documented shape was broadcast against the column zp, giving a
(dim_z, dim_z) residual and a matrix for x unless dim_z was 1.
---
 filterpy/kalman/CubatureKalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..2a7d0cf 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -26,7 +26,7 @@ import numpy as np
 from numpy import eye, zeros, dot, isscalar
 from scipy.linalg import inv, cholesky
 from filterpy.stats import logpdf
-from filterpy.common import pretty_str, outer_product_sum
+from filterpy.common import pretty_str, outer_product_sum, reshape_z
 
 
 def spherical_radial_sigmas(x, P):
@@ -373,7 +373,7 @@ class CubatureKalmanFilter(object):
         Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
-        self.y = self.residual_z(z, zp)   # residual
+        self.y = self.residual_z(reshape_z(z, self.dim_z, zp.ndim), zp)   # residual
 
         self.x = self.x + dot(self.K, self.y)
         self.P = self.P - dot(self.K, self.S).dot(self.K.T) # pylint: disable=no-member
-- 
2.43.0


From 7ddfe7fb190b5da31e1ccb942761e47b9a929b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 17/69] fix: CubatureKalmanFilter.update() takes the process
 noise into account

update() reused the propagated points, whose spread lacks Q, so S and K were computed
from a covariance that was too small. Redraw the points from the prior, as the UKF does.
---
 filterpy/kalman/CubatureKalmanFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 2a7d0cf..07d7f2e 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -322,6 +322,9 @@ class CubatureKalmanFilter(object):
 
         self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
 
+        # update sigma points to reflect the new variance of the points
+        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
-- 
2.43.0


From 756403ad27d0a05b74d1eb4ea67539397e535ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 18/69] fix: ckf_transform() does not cancel for points far
 from the origin

E[xx'] - mm' lost all precision, down to indefinite covariances, when the mean is
large compared to the spread.
---
 filterpy/kalman/CubatureKalmanFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 07d7f2e..601033d 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -90,7 +90,8 @@ def ckf_transform(Xs, Q):
     P = np.zeros((n, n))
     xf = x.flatten()
     for k in range(m):
-        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        y = Xs[k] - xf
+        P += np.outer(y, y)
 
     P *= 1 / m
     P += Q
-- 
2.43.0


From 6a63f89a46b8ca2f84144883befc07d2c4d0900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 19/69] fix: CubatureKalmanFilter honors x_mean_fn, z_mean_fn,
 residual_x and residual_z

They were accepted and documented, but only residual_z was ever called, and only for
the innovation.
---
 filterpy/kalman/CubatureKalmanFilter.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 601033d..b1898ec 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -61,7 +61,7 @@ def spherical_radial_sigmas(x, P):
     return sigmas
 
 
-def ckf_transform(Xs, Q):
+def ckf_transform(Xs, Q, mean_fn=None, residual_fn=np.subtract):
     """
     Compute mean and covariance of array of cubature points.
 
@@ -74,6 +74,12 @@ def ckf_transform(Xs, Q):
     Q : ndarray
         Noise covariance
 
+    mean_fn : callable (sigma_points, weights), optional
+        Function that computes the mean of the points.
+
+    residual_fn : callable (x, y), optional
+        Function that computes the residual (difference) between x and y.
+
     Returns
     -------
 
@@ -86,11 +92,14 @@ def ckf_transform(Xs, Q):
 
     m, n = Xs.shape
 
-    x = sum(Xs, 0)[:, None] / m
+    if mean_fn is None:
+        x = sum(Xs, 0)[:, None] / m
+    else:
+        x = np.reshape(mean_fn(Xs, np.full(m, 1. / m)), (n, 1))
     P = np.zeros((n, n))
     xf = x.flatten()
     for k in range(m):
-        y = Xs[k] - xf
+        y = residual_fn(Xs[k], xf)
         P += np.outer(y, y)
 
     P *= 1 / m
@@ -321,7 +330,8 @@ class CubatureKalmanFilter(object):
         for k in range(self._num_sigmas):
             self.sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
-        self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
+        self.x, self.P = ckf_transform(
+            self.sigmas_f, self.Q, self.x_mean, self.residual_x)
 
         # update sigma points to reflect the new variance of the points
         self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
@@ -367,14 +377,17 @@ class CubatureKalmanFilter(object):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
         # mean and covariance of prediction passed through unscented transform
-        zp, self.S = ckf_transform(self.sigmas_h, R)
+        zp, self.S = ckf_transform(
+            self.sigmas_h, R, self.z_mean, self.residual_z)
         self.SI = inv(self.S)
 
         # compute cross variance of the state and the measurements
         m = self._num_sigmas  # literaure uses m for scaling factor
         xf = self.x.flatten()
         zpf = zp.flatten()
-        Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
+        dx = np.array([self.residual_x(s, xf) for s in self.sigmas_f])
+        dz = np.array([self.residual_z(s, zpf) for s in self.sigmas_h])
+        Pxz = outer_product_sum(dx, dz) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
         self.y = self.residual_z(reshape_z(z, self.dim_z, zp.ndim), zp)   # residual
-- 
2.43.0


From d1289edc515b8c12f7245c007cfa173898d46ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 20/69] fix: UKF.rts_smoother() uses the Qs and dts that lead
 from step k to k+1

Qs was ignored in favor of self.Q, and dts was read one step early compared to
batch_filter(), which predicts with dts[k+1] on the way from k to k+1.
---
 filterpy/kalman/UKF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..38c7781 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -715,10 +715,10 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From 2bbd976e41ea8a909251d2c61838a97a5a31f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 21/69] fix: UKF.batch_filter() accepts a missing first
 measurement

The layout check dereferenced zs[0] although missing measurements are documented to be
None.
---
 filterpy/kalman/UKF.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 38c7781..068a289 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -591,11 +591,16 @@ class UnscentedKalmanFilter(object):
         #pylint: disable=too-many-arguments
 
         try:
-            z = zs[0]
+            zs[0]
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
+        # check the layout of the first measurement that is not missing
+        z = next((z for z in zs if z is not None), None)
+
+        if z is None:
+            pass
+        elif self._dim_z == 1:
             if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
-- 
2.43.0


From 40388e9dbb1e3a52b7cf0f5f876c54f3c1663aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 22/69] fix: UKF.batch_filter() accepts a scalar dts, as
 documented

---
 filterpy/kalman/UKF.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 068a289..f0a3aec 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -615,6 +615,8 @@ class UnscentedKalmanFilter(object):
 
         if dts is None:
             dts = [self._dt] * z_n
+        elif isscalar(dts):
+            dts = [dts] * z_n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 5ef46ad35089832ffd3e6f18bb3f287b3c2abff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 23/69] fix: SimplexSigmaPoints accepts a list for x and calls
 subtract with state vectors

Both as documented and as the other sigma point classes do; lists raised and subtract
got a column and a matrix of all the points.
---
 filterpy/kalman/sigma_points.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/sigma_points.py b/filterpy/kalman/sigma_points.py
index 37875ae..e8f2e2a 100644
--- a/filterpy/kalman/sigma_points.py
+++ b/filterpy/kalman/sigma_points.py
@@ -489,7 +489,7 @@ class SimplexSigmaPoints(object):
 
         if np.isscalar(x):
             x = np.asarray([x])
-        x = x.reshape(-1, 1)
+        x = np.asarray(x).reshape(-1)
 
         if np.isscalar(P):
             P = np.eye(n) * P
@@ -509,8 +509,7 @@ class SimplexSigmaPoints(object):
         I = np.sqrt(n)*Istar
         scaled_unitary = (U.T).dot(I)
 
-        sigmas = self.subtract(x, -scaled_unitary)
-        return sigmas.T
+        return np.array([self.subtract(x, -u) for u in scaled_unitary.T])
 
 
     def _compute_weights(self):
-- 
2.43.0


From 795f791138085aa02b1303fd3c2a71acd0d1f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 24/69] fix: InformationFilter computes S and the likelihood in
 measurement space

S was the posterior information of the state, so the likelihood was that of a residual
under an unrelated matrix, and update() raised unless dim_z was 1 or dim_x.
---
 filterpy/kalman/information_filter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 13aac3f..79d0e28 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -219,10 +219,9 @@ class InformationFilter(object):
             # error (residual) between measurement and prediction
             self.y = z - dot(H, x)
 
-            # S = HPH' + R
-            # project system uncertainty into measurement space
-            self.S = P_inv + dot(H_T, R_inv).dot(H)
-            self.K = dot(self.inv(self.S), H_T).dot(R_inv)
+            # K = inv(P_inv + H'R_inv H)H'R_inv
+            # map residual into state space
+            self.K = dot(self.inv(P_inv + dot(H_T, R_inv).dot(H)), H_T).dot(R_inv)
 
             # x = x + Ky
             # predict new x with residual scaled by the kalman gain
@@ -232,7 +231,13 @@ class InformationFilter(object):
             self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
 
             if self.compute_log_likelihood:
-                self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                try:
+                    # S = HPH' + R
+                    # project system uncertainty into measurement space
+                    self.S = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
+                    self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                except np.linalg.LinAlgError: # no prior information
+                    self.log_likelihood = math.log(sys.float_info.min)
                 self.likelihood = math.exp(self.log_likelihood)
                 if self.likelihood == 0:
                     self.likelihood = sys.float_info.min
-- 
2.43.0


From 6d5d5daf7cf8b49a92e2e511a20cfa392fc8536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 25/69] fix: FixedLagSmoother returns the estimate of step k-N
 given all measurements up to k

The smoothing gains were built from the posterior covariance and F - KH instead of the
prior covariance and F - FKH, assumed a steady state, and stopped one lag short. With the
cross covariances of the lagged errors propagated from step to step the result is exact,
also for the first N steps.
---
 filterpy/kalman/fixed_lag_smoother.py | 54 +++++++++++----------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index d265fa1..4fed9a1 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -126,6 +126,8 @@ class FixedLagSmoother(object):
         self._I = np.eye(dim_x)
 
         self.count = 0
+        self._I_KH = self._I # I - KH of the previous step
+        self._PS = []        # covariances of the lagged errors
 
         if N is not None:
             self.xSmooth = []
@@ -177,6 +179,10 @@ class FixedLagSmoother(object):
 
         P = dot(F, P).dot(F.T) + Q
 
+        # covariance of the errors of x[k], x[k-1],..., x[k-N] with that of x_pre
+        F_LH = dot(F, self._I_KH).T
+        self._PS = [P] + [dot(PS, F_LH) for PS in self._PS[:N]]
+
         # update step of normal Kalman filter
         self.y = z - dot(H, x_pre)
 
@@ -192,24 +198,13 @@ class FixedLagSmoother(object):
 
         self.xSmooth.append(x_pre.copy())
 
-        #compute invariants
+        # use the innovation to correct this and the N previous estimates
         HTSI = dot(H.T, SI)
-        F_LH = (F - dot(K, H)).T
-
-        if k >= N:
-            PS = P.copy() # smoothed P for step i
-            for i in range(N):
-                K = dot(PS, HTSI)  # smoothed gain
-                PS = dot(PS, F_LH) # smoothed covariance
-
-                si = k-i
-                self.xSmooth[si] = self.xSmooth[si] + dot(K, self.y)
-        else:
-            # Some sources specify starting the fix lag smoother only
-            # after N steps have passed, some don't. I am getting far
-            # better results by starting only at step N.
-            self.xSmooth[k] = x.copy()
+        for i, PS in enumerate(self._PS):
+            si = k-i
+            self.xSmooth[si] = self.xSmooth[si] + dot(PS, HTSI).dot(self.y)
 
+        self._I_KH = I_KH
         self.count += 1
         self.x = x
         self.P = P
@@ -265,6 +260,9 @@ class FixedLagSmoother(object):
         else:
             xSmooth = zeros((len(zs), self.dim_x, 1))
             xhat = zeros((len(zs), self.dim_x, 1))
+
+        I_KH = self._I # of the previous step
+        PSs = []       # covariances of the lagged errors
         for k, z in enumerate(zs):
 
             # predict step of normal Kalman filter
@@ -274,6 +272,10 @@ class FixedLagSmoother(object):
 
             P = dot(F, P).dot(F.T) + Q
 
+            # covariance of the errors of x[k], x[k-1],..., x[k-N] with that of x_pre
+            F_LH = dot(F, I_KH).T
+            PSs = [P] + [dot(PS, F_LH) for PS in PSs[:N]]
+
             # update step of normal Kalman filter
             y = z - dot(H, x_pre)
 
@@ -290,23 +292,11 @@ class FixedLagSmoother(object):
             xhat[k] = x.copy()
             xSmooth[k] = x_pre.copy()
 
-            #compute invariants
+            # use the innovation to correct this and the N previous estimates
             HTSI = dot(H.T, SI)
-            F_LH = (F - dot(K, H)).T
-
-            if k >= N:
-                PS = P.copy() # smoothed P for step i
-                for i in range(N):
-                    K = dot(PS, HTSI)  # smoothed gain
-                    PS = dot(PS, F_LH) # smoothed covariance
-
-                    si = k-i
-                    xSmooth[si] = xSmooth[si] + dot(K, y)
-            else:
-                # Some sources specify starting the fix lag smoother only
-                # after N steps have passed, some don't. I am getting far
-                # better results by starting only at step N.
-                xSmooth[k] = xhat[k]
+            for i, PS in enumerate(PSs):
+                si = k-i
+                xSmooth[si] = xSmooth[si] + dot(PS, HTSI).dot(y)
 
         return xSmooth, xhat
 
-- 
2.43.0


From 314f34b7332243d84c1bfd66cbe49e0534e6ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 26/69] fix: GHKFilter VRF() and VRF_prediction() divide by the
 full denominator

---
 filterpy/gh/gh_filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..5082df7 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -771,7 +771,7 @@ class GHKFilter(object):
         k = self.k
         gh2 = 2*g + h
         return ((g*k*(gh2-4)+ h*(g*gh2+2*h)) /
-                (2*k - (g*(h+k)*(gh2-4))))
+                ((2*k - g*(h+k)) * (gh2-4)))
 
 
     def bias_error(self, dddx):
@@ -829,8 +829,9 @@ class GHKFilter(object):
         hg4 = 4- 2*g - h
         ghk = g*h + g*k - 2*k
 
-        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*k - g*(h+k) * hg4)
-        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (2*hg4*ghk)
+        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*hg4*ghk)
+        vdx = ((2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) /
+               ((self.dt**2)*hg4*ghk))
         vddx = 8*h*(k**2) / ((self.dt**4)*hg4*ghk)
 
         return (vx, vdx, vddx)
-- 
2.43.0


From adaeb4ca3921dab1a36a7c4bef38a53cf52f202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 27/69] fix: g-h filters record the measurement passed to
 update() in z

---
 filterpy/gh/gh_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 5082df7..c701923 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -139,6 +139,8 @@ class GHFilterOrder(object):
         or treatable as the same type as self.x[0].
         """
 
+        self.z = z
+
         if self.order == 0:
             if g is None:
                 g = self.g
@@ -158,8 +160,6 @@ class GHFilterOrder(object):
             self.x[0] = x + dxdt + g*self.y
             self.x[1] = dx       + h*self.y / self.dt
 
-            self.z = z
-
         else: # order == 2
             if g is None:
                 g = self.g
@@ -370,6 +370,7 @@ class GHFilter(object):
         self.x_prediction  = self.x + (self.dx*self.dt)
 
         # update step
+        self.z = z
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
@@ -671,6 +672,7 @@ class GHKFilter(object):
         self.x_prediction   = self.x  + self.dx*dt + .5*self.ddx*(dt_sqr)
 
         # update step
+        self.z = z
         self.y = z - self.x_prediction
 
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
-- 
2.43.0


From 32d91cf40e401d612c9b25419afed0d3944306e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 28/69] fix: GHKFilter.batch_filter() runs the g-h-k filter,
 not the g-h filter

---
 filterpy/gh/gh_filter.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index c701923..f784b04 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -684,9 +684,9 @@ class GHKFilter(object):
 
     def batch_filter(self, data, save_predictions=False):
         """
-        Performs g-h filter with a fixed g and h.
+        Performs g-h-k filter with a fixed g, h, and k.
 
-        Uses self.x and self.dx to initialize the filter, but DOES NOT
+        Uses self.x, self.dx and self.ddx to initialize the filter, but DOES NOT
         alter self.x and self.dx during execution, allowing you to use this
         class multiple times without reseting self.x and self.dx. I'm not sure
         how often you would need to do that, but the capability is there.
@@ -718,6 +718,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -727,17 +728,22 @@ class GHKFilter(object):
         if save_predictions:
             predictions = np.zeros(n)
 
-        # optimization to avoid n computations of h / dt
-        h_dt = self.h / self.dt
+        # optimization to avoid n computations of these constants
+        dt = self.dt
+        dt_sqr = dt**2
+        h_dt = self.h / dt
+        k_dt = 2*self.k / dt_sqr
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            dx_est = dx + ddx*dt
+            x_est  = x  + dx*dt + .5*ddx*dt_sqr
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
-            x  = x_est + self.g * residual
+            ddx = ddx    + k_dt   * residual # i.e. ddx = ddx + 2*k * residual / dt**2
+            dx  = dx_est + h_dt   * residual # i.e. dx = dx + h * residual / dt
+            x   = x_est  + self.g * residual
 
             results[i+1, 0] = x
             results[i+1, 1] = dx
-- 
2.43.0


From 107dfdfdc656690cd73201828a93061680381aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 29/69] fix: FadingMemoryFilter order 1 velocity variance
 depends on dt

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..1237c1d 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,7 +120,7 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
             e = 2*dt*2 * (beta / (1-beta))**2
-- 
2.43.0


From ca78b57a5ecbcdb2d2894dc9a006c1a962c2139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 30/69] fix: FadingMemoryFilter order 1 truncation error is
 proportional to dt**2

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 1237c1d..2cdebc8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -123,7 +123,7 @@ class FadingMemoryFilter(object):
             p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From f9b1757c6fcb8282497d5c4cafb58345509ce929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 31/69] fix: FadingMemoryFilter does not truncate its state
 when x0 holds integers

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 2cdebc8..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From 522ef38a02eaa84971b15d9682e9a07843fca971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 32/69] fix: GHFilterOrder accepts a list for x0

---
 filterpy/gh/gh_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index f784b04..0e22d9d 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -120,7 +120,7 @@ class GHFilterOrder(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0.astype(float))
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From 8812979c626b7bd5797add13beafefa88d6ca81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 33/69] fix: LeastSquaresFilter.update() stores the residual in
 y

---
 filterpy/leastsq/least_squares.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..30377ad 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -125,11 +125,10 @@ class LeastSquaresFilter(object):
         dt = self.dt
         x = self.x
         K = self.K
-        y = self.y
 
         if self._order == 0:
             K[0] = 1. / n
-            y = z - x
+            y = z - x[0]
             x[0] += K[0] * y
 
         elif self._order == 1:
@@ -152,6 +151,8 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From 8c717c3bb3c86bd3796fc46d1fb6721f7e9445dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 34/69] fix: LeastSquaresFilter.errors() does not divide by
 zero for the first measurements

---
 filterpy/leastsq/least_squares.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 30377ad..2d00433 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -186,8 +186,8 @@ class LeastSquaresFilter(object):
             if n > 1:
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
             std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
@@ -198,10 +198,10 @@ class LeastSquaresFilter(object):
                                         (n*(n*n-1)*(n*n-4)*dt2))
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
 
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
             std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From 3d0d462f4526cd9e62a3abb4aafbc799308abb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 35/69] fix: residual_resample() draws the remainder from the
 fractional parts of N*w

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..e980fcd 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,7 +67,7 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
+    residual = N*np.asarray(weights) - num_copies  # get fractional part
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-- 
2.43.0


From cc4c1da2eaa45cb5933acc7a1ea59d31e5b38375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 36/69] fix: stratified and systematic resampling cannot run
 past the last weight

---
 filterpy/monte_carlo/resampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e980fcd..c36aa15 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -104,6 +104,7 @@ def stratified_resample(weights):
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
@@ -140,6 +141,7 @@ def systematic_resample(weights):
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
-- 
2.43.0


From 1b66404322649baa4d73f832af37ee078ffe8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 37/69] fix: Saver stores copies of properties, like of all
 other attributes

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..46d53e0 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -127,7 +127,7 @@ class Saver(object):
         # if the class uses properties that compute data only when
         # accessed
         for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+            self._DL[prop[0]].append(copy.deepcopy(getattr(kf, prop[0])))
 
         v = copy.deepcopy(kf.__dict__)
 
-- 
2.43.0


From b4cb1c895eb16d1e397d1a7834ad0f47f3b0b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 38/69] fix: compare_kf() returns the names that differ and
 accepts non-numeric attributes

---
 filterpy/common/helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 46d53e0..6378aaf 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -457,7 +457,13 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        try:
+            same = np.allclose(v1[attr], v2[attr], **kwargs)
+        except (TypeError, ValueError):
+            # not numbers (None, functions, ...), or shapes that differ
+            same = np.array_equal(v1[attr], v2[attr])
+
+        if not same:
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
@@ -466,7 +472,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From d9c27de9f3645aa34990bbc31936558c65d111ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 39/69] fix: rand_student_t() draws from Student's t
 distribution

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index b303012..0ac4c30 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1131,7 +1131,7 @@ def rand_student_t(df, mu=0, std=1):
     """
 
     x = random.gauss(0, std)
-    y = 2.0*random.gammavariate(0.5 * df, 2.0)
+    y = random.gammavariate(0.5 * df, 2.0) # chi-squared, df degrees of freedom
     return x / (math.sqrt(y / df)) + mu
 
 
-- 
2.43.0


From 3d3418080571dc9ad6e157a4fb71996ef4c0dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 40/69] fix: plot_gaussian() passes its arguments to the right
 parameters

---
 filterpy/stats/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 0ac4c30..4090317 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -665,8 +665,9 @@ def plot_gaussian(mean=0., variance=1.,
                   'A Gaussian can be plotted as a PDF or CDF. This '\
                   'plots a PDF. Use plot_gaussian_pdf() instead,',
                   DeprecationWarning)
-    return plot_gaussian_pdf(mean, variance, ax, mean_line, xlim, ylim, xlabel,
-                             ylabel, label)
+    return plot_gaussian_pdf(mean=mean, variance=variance, ax=ax,
+                             mean_line=mean_line, xlim=xlim, ylim=ylim,
+                             xlabel=xlabel, ylabel=ylabel, label=label)
 
 
 def covariance_ellipse(P, deviations=1):
-- 
2.43.0


From af0b3ca13e10974feb4151e8e90457761fe3728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 41/69] fix: NEES() accepts lists, as documented

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 4090317..287303e 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1173,7 +1173,7 @@ def NEES(xs, est_xs, ps):
 
     """
 
-    est_err = xs - est_xs
+    est_err = np.asarray(xs) - np.asarray(est_xs)
     errs = []
     for x, p in zip(est_err, ps):
         errs.append(np.dot(x.T, linalg.inv(p)).dot(x))
-- 
2.43.0


From f41305508ad95fff0472376f9dda5d6a9e2b6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 42/69] fix: HInfinityFilter.batch_filter() works without a
 saver

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 55bc176..54659f2 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -159,7 +159,7 @@ class HInfinityFilter(object):
             self.x = self.x + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs,update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
-- 
2.43.0


From 64c59b7dabe436450e9cd0777ad5e03e5a4b5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 43/69] fix: HInfinityFilter.batch_filter() accepts None among
 vector measurements

---
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 54659f2..f746d6e 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -187,7 +187,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
-- 
2.43.0


From 139e463a1ccc0bacc871b7be6e9561e14040f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 44/69] fix: stateless update() and update_steadystate() accept
 a plain number for x, as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 6c33522..88701db 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1471,7 +1471,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1559,7 +1559,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From f1804677393ac64f3ead2f0b6074bfe3fa0c6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 45/69] fix: test_matrix_dimensions() accepts a one-dimensional
 state vector

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 88701db..b9a9668 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1373,7 +1373,7 @@ class KalmanFilter(object):
         if z is not None:
             z_shape = shape(z)
         else:
-            z_shape = (self.dim_z, 1)
+            z_shape = (self.dim_z,) + x.shape[1:]
 
         # H@x must have shape of z
         Hx = dot(H, x)
-- 
2.43.0


From a3f0fe2b28cdcc94b6e991fd77f44301cfa9d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 46/69] fix: CubatureKalmanFilter can be printed before the
 first update

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index b1898ec..bfd651b 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -266,7 +266,7 @@ class CubatureKalmanFilter(object):
         self.fx = fx
         self.x_mean = x_mean_fn
         self.z_mean = z_mean_fn
-        self.y = 0
+        self.y = zeros((dim_z, 1))
         self.z = np.array([[None]*self.dim_z]).T
         self.S = np.zeros((dim_z, dim_z)) # system uncertainty
         self.SI = np.zeros((dim_z, dim_z)) # inverse system uncertainty
-- 
2.43.0


From 06e1706c1996732335ee614b73cc4277878189c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 47/69] fix: InformationFilter without prior information
 accumulates and propagates the information vector

---
 filterpy/kalman/information_filter.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 79d0e28..52bb760 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -209,7 +209,8 @@ class InformationFilter(object):
         x = self.x
 
         if self._no_information:
-            self.x = dot(P_inv, x) + dot(H_T, R_inv).dot(z)
+            # x is the information vector P_inv*x in this mode
+            self.x = x + dot(H_T, R_inv).dot(z)
             self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
             self.log_likelihood = math.log(sys.float_info.min)
             self.likelihood = sys.float_info.min
@@ -273,6 +274,8 @@ class InformationFilter(object):
                 self._no_information = False
         except:
             invertable = False
+            if not self._no_information:
+                self.x = dot(self.P_inv, self.x)
             self._no_information = True
 
         if invertable:
@@ -285,15 +288,17 @@ class InformationFilter(object):
             self.P_inv_prior = np.copy(self.P_inv)
             self.x_prior = np.copy(self.x)
         else:
-            I_PF = self._I - dot(self.P_inv, self._F_inv)
-            FTI = self.inv(self._F.T)
-            FTIX = dot(FTI, self.x)
-            AQI = self.inv(A + self.Q)
-            self.x = dot(FTI, dot(I_PF, AQI).dot(FTIX))
+            # inv(inv(A) + Q) without the inverse of A; x is the
+            # information vector P_inv*x
+            IAQ = self.inv(self._I + dot(A, self.Q))
+            self.x = dot(IAQ, dot(self._F_inv.T, self.x))
+            self.P_inv = dot(IAQ, A)
+            if np.any(u):
+                self.x = self.x + dot(self.P_inv, dot(self.B, u))
 
             # save priors
             self.x_prior = np.copy(self.x)
-            self.P_inv_prior = np.copy(AQI)
+            self.P_inv_prior = np.copy(self.P_inv)
 
     def batch_filter(self, zs, Rs=None, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
-- 
2.43.0


From 9edcf1f7ab12e9ab0eba0dff50c63b3b4d93876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 48/69] fix: discrete Bayes predict no longer truncates a
 belief given in whole numbers

---
 filterpy/discrete_bayes/discrete_bayes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/discrete_bayes/discrete_bayes.py b/filterpy/discrete_bayes/discrete_bayes.py
index 084ba8c..6e5bc43 100644
--- a/filterpy/discrete_bayes/discrete_bayes.py
+++ b/filterpy/discrete_bayes/discrete_bayes.py
@@ -121,6 +121,10 @@ def predict(pdf, offset, kernel, mode='wrap', cval=0.):
         prior = predict(belief, offset=2, kernel=[.1, .8, .1])
     """
 
+    # scipy computes in the type of its input, which would truncate
+    # a belief given in whole numbers
+    pdf = np.asarray(pdf, dtype=float)
+
     if mode == 'wrap':
         return convolve(np.roll(pdf, offset), kernel, mode='wrap')
 
-- 
2.43.0


From b32deeb5e1173fc162597c97579fcf85a9cd7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 49/69] fix: kinematic_kf assigns F as a whole so that a
 supplied filter derives its data from it

---
 filterpy/common/kinematic.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/filterpy/common/kinematic.py b/filterpy/common/kinematic.py
index 1201d7c..dd1d9f4 100644
--- a/filterpy/common/kinematic.py
+++ b/filterpy/common/kinematic.py
@@ -161,12 +161,9 @@ def kinematic_kf(dim, order, dt=1., dim_z=1, order_by_dim=True, kf=None):
         diag = [F] * dim
         kf.F = block_diag(*diag)
     else:
-        kf.F.fill(0.0)
-        for i, x in enumerate(F.ravel()):
-            f = np.eye(dim) * x
-
-            ix, iy = (i // dim_x) * dim, (i % dim_x) * dim
-            kf.F[ix:ix+dim, iy:iy+dim] = f
+        # assign F as a whole: filters may derive data from it (for example
+        # InformationFilter inverts it)
+        kf.F = np.kron(F, np.eye(dim))
 
     if order_by_dim:
         for i in range(dim_z):
-- 
2.43.0


From b344262d3f2ac7fb2a70773d34c0ca35fbfd7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 50/69] fix: gaussian normalises arrays of any shape to sum to
 one

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 287303e..a43069e 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -196,7 +196,7 @@ def gaussian(x, mean, var, normed=True):
 
     pdf = ((2*math.pi*var)**-.5) * np.exp((-0.5*(np.asarray(x)-mean)**2.) / var)
     if normed and len(np.shape(pdf)) > 0:
-        pdf = pdf / sum(pdf)
+        pdf = pdf / np.sum(pdf)
 
     return pdf
 
-- 
2.43.0


From b287c25e0fabc851b38a59a5cc1ffee05c0e1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 51/69] fix: printed forms show the values they name

---
 filterpy/gh/gh_filter.py               | 2 +-
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/fading_memory.py       | 4 ++--
 filterpy/kalman/fixed_lag_smoother.py  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 0e22d9d..0da8f4e 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -857,7 +857,7 @@ class GHKFilter(object):
             pretty_str('ddx', self.ddx),
             pretty_str('x_prediction', self.x_prediction),
             pretty_str('dx_prediction', self.dx_prediction),
-            pretty_str('ddx_prediction', self.dx_prediction),
+            pretty_str('ddx_prediction', self.ddx_prediction),
             pretty_str('y', self.y),
             pretty_str('z', self.z)
             ])
diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index f746d6e..fc7f120 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -284,7 +284,7 @@ class HInfinityFilter(object):
             pretty_str('dim_x', self.dim_x),
             pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
-            pretty_str('gamma', self.dim_u),
+            pretty_str('gamma', self.gamma),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('F', self.F),
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 7d3d427..5898733 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -448,8 +448,8 @@ class FadingKalmanFilter(object):
     def __repr__(self):
         return '\n'.join([
             'FadingKalmanFilter object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 4fed9a1..6494a2d 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -303,8 +303,8 @@ class FixedLagSmoother(object):
     def __repr__(self):
         return '\n'.join([
             'FixedLagSmoother object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('N', self.N),
             pretty_str('x', self.x),
             pretty_str('x_s', self.x_s),
-- 
2.43.0


From 2f9dca819289988907e5323a164007e40659480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 52/69] fix: printed forms of ExtendedKalmanFilter and
 GHKFilter name their own class

---
 filterpy/gh/gh_filter.py | 2 +-
 filterpy/kalman/EKF.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 0da8f4e..d05b0bb 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -847,7 +847,7 @@ class GHKFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'GHFilter object',
+            'GHKFilter object',
             pretty_str('dt', self.dt),
             pretty_str('g', self.g),
             pretty_str('h', self.h),
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 64e439e..617d4ec 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -367,7 +367,7 @@ class ExtendedKalmanFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'KalmanFilter object',
+            'ExtendedKalmanFilter object',
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('x_prior', self.x_prior),
-- 
2.43.0


From 17af38b32de7989e9bec0555dda7c2ceae4401c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:41 +0000
Subject: [PATCH 53/69] fix: plot_gaussian_pdf draws the mean line on the axes
 it was given

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index a43069e..bdbc6ec 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -639,7 +639,7 @@ def plot_gaussian_pdf(mean=0.,
         ax.set_ylim(ylim)
 
     if mean_line:
-        plt.axvline(mean)
+        ax.axvline(mean)
 
     if xlabel is not None:
         ax.set_xlabel(xlabel)
-- 
2.43.0


From 461b349ee7ae1e11d160ab867575b3bfef22ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:41 +0000
Subject: [PATCH 54/69] fix: plot_3d_covariance puts the title on the axes it
 draws on

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index bdbc6ec..c7b9a22 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -856,7 +856,7 @@ def plot_3d_covariance(mean, cov, std=1.,
         ax.set_zlim(-r + mean[2], r + mean[2])
 
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
     #pylint: disable=pointless-statement
     Axes3D #kill pylint warning about unused import
-- 
2.43.0


From fa74ab94af18a36320d4bb07e18685c299f68b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:41 +0000
Subject: [PATCH 55/69] fix: plot_covariance keeps the ellipses in view without
 the centre mark

---
 filterpy/stats/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index c7b9a22..ffd10f8 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1051,6 +1051,7 @@ def plot_covariance(
                     alpha=alpha,
                     lw=2, ls=ls)
         ax.add_patch(e)
+    ax.autoscale_view()
     x, y = mean
     if show_center:
         plt.scatter(x, y, marker='+', color=edgecolor)
-- 
2.43.0


From 43844d098a1f31b4f0ee8367434dba08add50332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 56/69] fix: EnsembleKalmanFilter refuses an ensemble of one,
 whose covariance is undefined

---
 filterpy/kalman/ensemble_kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/ensemble_kalman_filter.py b/filterpy/kalman/ensemble_kalman_filter.py
index 83b9bb5..9fc1af1 100644
--- a/filterpy/kalman/ensemble_kalman_filter.py
+++ b/filterpy/kalman/ensemble_kalman_filter.py
@@ -159,8 +159,8 @@ class EnsembleKalmanFilter(object):
         if dim_z <= 0:
             raise ValueError('dim_z must be greater than zero')
 
-        if N <= 0:
-            raise ValueError('N must be greater than zero')
+        if N <= 1:
+            raise ValueError('N must be greater than one')
 
         dim_x = len(x)
         self.dim_x = dim_x
-- 
2.43.0


From d741cb87d5298ef40bdf7bfba6d089592156e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 57/69] fix: test_matrix_dimensions reports a scalar
 measurement when several are expected

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index b9a9668..37ad0b5 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1379,7 +1379,7 @@ class KalmanFilter(object):
         Hx = dot(H, x)
 
         if z_shape == (): # scalar or np.array(scalar)
-            assert Hx.ndim == 1 or shape(Hx) == (1, 1), \
+            assert shape(Hx) in [(1,), (1, 1)], \
             "shape of z should be {}, not {} for the given H".format(
                 shape(Hx), z_shape)
 
-- 
2.43.0


From f14f520e359274ff25a9b833422a507438390471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 58/69] fix: GH and GHK filters keep a copy of the measurement
 they record

---
 filterpy/gh/gh_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index d05b0bb..8bca289 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -23,6 +23,7 @@ for more information.
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 
+from copy import deepcopy
 import numpy as np
 from numpy import dot
 from filterpy.common import pretty_str
@@ -370,7 +371,7 @@ class GHFilter(object):
         self.x_prediction  = self.x + (self.dx*self.dt)
 
         # update step
-        self.z = z
+        self.z = deepcopy(z)
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
@@ -672,7 +673,7 @@ class GHKFilter(object):
         self.x_prediction   = self.x  + self.dx*dt + .5*self.ddx*(dt_sqr)
 
         # update step
-        self.z = z
+        self.z = deepcopy(z)
         self.y = z - self.x_prediction
 
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
-- 
2.43.0


From 0d597c6e517aa16365985ce69d92f4ba54b753d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 59/69] fix: IMMEstimator does not overwrite estimates it has
 handed out

---
 filterpy/kalman/IMM.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..bde918a 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -229,11 +229,12 @@ class IMMEstimator(object):
         Computes the IMM's mixed state estimate from each filter using
         the the mode probability self.mu to weight the estimates.
         """
-        self.x.fill(0)
+        # new arrays: estimates handed out earlier must not change
+        self.x = zeros(self.x.shape)
         for f, mu in zip(self.filters, self.mu):
             self.x += f.x * mu
 
-        self.P.fill(0)
+        self.P = zeros(self.P.shape)
         for f, mu in zip(self.filters, self.mu):
             y = f.x - self.x
             self.P += mu * (outer(y, y) + f.P)
-- 
2.43.0


From f032c8df431ab0e89f1a7f7618f2f691a3ee894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 60/69] fix: MMAEFilterBank does not overwrite probabilities it
 has handed out

---
 filterpy/kalman/mmae.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 8dc91dd..22f511f 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -181,6 +181,9 @@ class MMAEFilterBank(object):
         if H is None:
             H = self.H
 
+        # new array: probabilities handed out earlier must not change
+        self.p = self.p.copy()
+
         # new probability is recursively defined as prior * likelihood
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
-- 
2.43.0


From 05923d2c18fb67061358260cbb4583364b154f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 61/69] fix: a control that cannot be applied leaves the state
 alone

---
 filterpy/hinfinity/hinfinity_filter.py | 5 +++--
 filterpy/kalman/EKF.py                 | 5 +++--
 filterpy/kalman/fading_memory.py       | 5 +++--
 filterpy/kalman/information_filter.py  | 5 +++--
 filterpy/kalman/square_root.py         | 5 +++--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index fc7f120..b603ce8 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -154,9 +154,10 @@ class HInfinityFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x)
+        x = dot(self.F, self.x)
         if np.any(u):
-            self.x = self.x + dot(self.B, u)
+            x = x + dot(self.B, u)
+        self.x = x
 
 
     def batch_filter(self, Zs,update_first=False, saver=None):
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 617d4ec..ee6012e 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -302,9 +302,10 @@ class ExtendedKalmanFilter(object):
         need to do this, for example, if the usual Taylor expansion to
         generate F is not providing accurate results for you.
         """
-        self.x = dot(self.F, self.x)
+        x = dot(self.F, self.x)
         if np.any(u):
-            self.x = self.x + dot(self.B, u)
+            x = x + dot(self.B, u)
+        self.x = x
 
     def predict(self, u=0):
         """
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 5898733..1a26677 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -264,9 +264,10 @@ class FadingKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x)
+        x = dot(self.F, self.x)
         if np.any(u):
-            self.x = self.x + dot(self.B, u)
+            x = x + dot(self.B, u)
+        self.x = x
 
         # P = FPF' + Q
         self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 52bb760..d56b1d4 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -279,9 +279,10 @@ class InformationFilter(object):
             self._no_information = True
 
         if invertable:
-            self.x = dot(self._F, self.x)
+            x = dot(self._F, self.x)
             if np.any(u):
-                self.x = self.x + dot(self.B, u)
+                x = x + dot(self.B, u)
+            self.x = x
             self.P_inv = self.inv(AI + self.Q)
 
             # save priors
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 5e16a61..d42e041 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -237,9 +237,10 @@ class SquareRootKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x)
+        x = dot(self.F, self.x)
         if np.any(u):
-            self.x = self.x + dot(self.B, u)
+            x = x + dot(self.B, u)
+        self.x = x
 
         # P = FPF' + Q
         _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
-- 
2.43.0


From fe0b66f56c699bf955fa7f9192861019f0e43197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 62/69] fix: EnsembleKalmanFilter.predict: a failing transition
 function does not leave half the ensemble advanced

---
 filterpy/kalman/ensemble_kalman_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/ensemble_kalman_filter.py b/filterpy/kalman/ensemble_kalman_filter.py
index 9fc1af1..335e211 100644
--- a/filterpy/kalman/ensemble_kalman_filter.py
+++ b/filterpy/kalman/ensemble_kalman_filter.py
@@ -276,11 +276,12 @@ class EnsembleKalmanFilter(object):
         """ Predict next position. """
 
         N = self.N
+        sigmas = zeros(self.sigmas.shape)
         for i, s in enumerate(self.sigmas):
-            self.sigmas[i] = self.fx(s, self.dt)
+            sigmas[i] = self.fx(s, self.dt)
 
         e = multivariate_normal(self._mean, self.Q, N)
-        self.sigmas += e
+        self.sigmas = sigmas + e
 
         self.x = np.mean(self.sigmas, axis=0)
         self.P = outer_product_sum(self.sigmas - self.x) / (N - 1)
-- 
2.43.0


From d96f593492e898128fd66c1ff8d2fe5d660bcddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 63/69] fix: UnscentedKalmanFilter.predict: a failing matrix
 root does not leave the state half predicted

---
 filterpy/kalman/UKF.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f0a3aec..b041eb6 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -400,11 +400,12 @@ class UnscentedKalmanFilter(object):
         self.compute_process_sigmas(dt, fx, **fx_args)
 
         #and pass sigmas through the unscented transform to compute prior
-        self.x, self.P = UT(self.sigmas_f, self.Wm, self.Wc, self.Q,
-                            self.x_mean, self.residual_x)
+        x, P = UT(self.sigmas_f, self.Wm, self.Wc, self.Q,
+                  self.x_mean, self.residual_x)
 
         # update sigma points to reflect the new variance of the points
-        self.sigmas_f = self.points_fn.sigma_points(self.x, self.P)
+        self.sigmas_f = self.points_fn.sigma_points(x, P)
+        self.x, self.P = x, P
 
         # save prior
         self.x_prior = np.copy(self.x)
-- 
2.43.0


From d8014240561b49833a0b4814656204bc6ce09814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 64/69] fix: FixedLagSmoother accepts integer states together
 with control inputs

---
 filterpy/kalman/fixed_lag_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 6494a2d..aca1f67 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -175,7 +175,7 @@ class FixedLagSmoother(object):
         # predict step of normal Kalman filter
         x_pre = dot(F, x)
         if u is not None:
-            x_pre += dot(B, u)
+            x_pre = x_pre + dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
 
@@ -268,7 +268,7 @@ class FixedLagSmoother(object):
             # predict step of normal Kalman filter
             x_pre = dot(F, x)
             if us is not None:
-                x_pre += dot(B, us[k])
+                x_pre = x_pre + dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
 
-- 
2.43.0


From a1af0cd9117119e8d7152586bb8d2b36b3a669bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 65/69] fix: residual_resample accepts weights given as whole
 numbers

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index c36aa15..1222b6b 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -68,7 +68,7 @@ def residual_resample(weights):
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
     residual = N*np.asarray(weights) - num_copies  # get fractional part
-    residual /= sum(residual)           # normalize
+    residual = residual / sum(residual)     # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
     indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k))
-- 
2.43.0


From bdebc7de8136f3cca397e55cea65695b190be039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 66/69] fix: RTS smoothers neither truncate nor reject
 estimates given as integers

---
 filterpy/kalman/UKF.py           | 2 +-
 filterpy/kalman/kalman_filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index b041eb6..b139e7e 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -716,7 +716,7 @@ class UnscentedKalmanFilter(object):
 
         num_sigmas = self._num_sigmas
 
-        xs, ps = Xs.copy(), Ps.copy()
+        xs, ps = np.array(Xs, dtype=float), np.array(Ps, dtype=float)
         sigmas_f = zeros((num_sigmas, dim_x))
 
         for k in reversed(range(n-1)):
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 37ad0b5..b6b4ed5 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1062,7 +1062,7 @@ class KalmanFilter(object):
         # smoother gain
         K = zeros((n, dim_x, dim_x))
 
-        x, P, Pp = Xs.copy(), Ps.copy(), Ps.copy()
+        x, P, Pp = (np.array(a, dtype=float) for a in (Xs, Ps, Ps))
         for k in range(n-2, -1, -1):
             Pp[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
@@ -1849,7 +1849,7 @@ def rts_smoother(Xs, Ps, Fs, Qs):
 
     # smoother gain
     K = zeros((n, dim_x, dim_x))
-    x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
+    x, P, pP = (np.array(a, dtype=float) for a in (Xs, Ps, Ps))
 
     for k in range(n-2, -1, -1):
         pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
-- 
2.43.0


From 4f6f926eb781e8b697ed1cec2991b39e8a0e4c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 67/69] fix: unscented_transform accepts sigma points given as
 integers

---
 filterpy/kalman/unscented_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/unscented_transform.py b/filterpy/kalman/unscented_transform.py
index 871add0..d89b27a 100644
--- a/filterpy/kalman/unscented_transform.py
+++ b/filterpy/kalman/unscented_transform.py
@@ -123,6 +123,6 @@ def unscented_transform(sigmas, Wm, Wc, noise_cov=None,
             P += Wc[k] * np.outer(y, y)
 
     if noise_cov is not None:
-        P += noise_cov
+        P = P + noise_cov
 
     return (x, P)
-- 
2.43.0


From 9c164c21e6ae4d681a75d532b9c7476f9be6bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 68/69] fix: InformationFilter.predict uses the elements of F
 as they are

---
 filterpy/kalman/information_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index d56b1d4..b94eec9 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -261,6 +261,10 @@ class InformationFilter(object):
 
         # x = Fx + Bu
 
+        # elements of F may have been changed since it was assigned
+        if not np.isscalar(self._F):
+            self._F_inv = self.inv(self._F)
+
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
         #pylint: disable=bare-except
         try:
-- 
2.43.0


From 92c5cc4d891fca2184510e7a0e739457d64cf243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 69/69] fix: IMMEstimator.predict uses the mode transition
 matrix as it is

---
 filterpy/kalman/IMM.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index bde918a..f311b9f 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -198,6 +198,9 @@ class IMMEstimator(object):
             to create the control input into the system.
         """
 
+        # M, mu may have been changed since the last update
+        self._compute_mixing_probabilities()
+
         # compute mixed initial conditions
         xs, Ps = [], []
         for i, (f, w) in enumerate(zip(self.filters, self.omega.T)):
-- 
2.43.0

