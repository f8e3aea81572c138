From 335bad568bcf3bb8dc9cabbd6337eee45177942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 01/36] fix: integrate tabulated storage area over depth to get
 volume (cumtrapz is gone and its arguments were swapped)

---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 107355e..b1dd282 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -450,7 +450,7 @@ class nSuperLink(SuperLink):
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
-                V = scipy.integrate.cumtrapz(h, A, initial=0.)
+                V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 44cd05d..157e008 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -62,7 +62,7 @@ class Tabular():
     def __init__(self, h, A):
         self.h = np.asarray(h)
         self.A = np.asarray(A)
-        self.V = scipy.integrate.cumtrapz(h, A, initial=0.)
+        self.V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
         self.Amax = self.A.max()
-- 
2.43.0


From e582867adb204873f9dbe44518f86402f477ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 02/36] fix: step() without dt advances by the model's default
 time step instead of raising TypeError

---
 pipedream_solver/superlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2abcd7a..849cffe 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4119,6 +4119,8 @@ class SuperLink():
         """
         if banded is None:
             banded = self.banded
+        if dt is None:
+            dt = self._dt
         self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                          first_time=first_time, implicit=implicit, banded=banded,
                          first_iter=first_iter)
-- 
2.43.0


From 46d5e5a52099dc3eda663e869e189820be274278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 03/36] fix: downstream end slope depends on the downstream end
 length

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 849cffe..4326ea0 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -730,7 +730,7 @@ class SuperLink():
         self._R_dk = np.copy(self._R_ik[self._i_nk])
         # End slopes
         cond_uk = (self._dx_uk > 0.)
-        cond_dk = (self._dx_uk > 0.)
+        cond_dk = (self._dx_dk > 0.)
         _S_o_uk = np.zeros(self.NK, dtype=np.float64)
         _S_o_dk = np.zeros(self.NK, dtype=np.float64)
         _S_o_uk[cond_uk] = (self._z_inv_uk - self._z_inv_Ik[self._I_1k])[cond_uk] / self._dx_uk[cond_uk]
-- 
2.43.0


From ee3a2dd6bdf7fa5b03a4b087518f663834b5bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 04/36] fix: reposition_junctions indexed past the superlink's
 slice for every superlink but the first

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index b1dd282..aa4d597 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3170,7 +3170,7 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             move_junction = (_H_d > _z_inv_Np1) & (_H_d < _z_inv_1)
             if move_junction:
                 z_m = _H_d
-                _x0 = _x_I[_I_1]
+                _x0 = _x_I[0]
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-- 
2.43.0


From 08cfcc9e3ca4c61d5f4ff526047ae4fa9d131e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 05/36] fix: a closed orifice has zero flow area (circular and
 elliptical divided by zero)

---
 pipedream_solver/nsuperlink.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index aa4d597..c17d9f8 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1861,6 +1861,10 @@ def numba_orifice_geometry(_Ao, h_eo, u_o, _g1_o, _g2_o, _g3_o, _geom_codes_o, n
         g3 = _g3_o[i]
         u = u_o[i]
         h_e = h_eo[i]
+        if u <= 0:
+            # Orifice is closed
+            _Ao[i] = 0.
+            continue
         if geom_code:
             if geom_code == 1:
                 _Ao[i] = pipedream_solver.ngeometry.Circular_A_ik(h_e, h_e, g1 * u)
-- 
2.43.0


From 41f0d72e9a9de3a85787d0c37749d16527e47407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 06/36] fix: pump flow above the shutoff head is zero instead
 of NaN

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index c17d9f8..3c9a1eb 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2956,7 +2956,7 @@ def numba_solve_pump_flows(H_j, u, _z_inv_j, _z_p, _dHp_max, _dHp_min, _a_p, _b_
     _dHp[_dHp < _dHp_min] = _dHp_min[_dHp < _dHp_min]
     cond_0 = _H_up > _z_inv_up + _z_p
     # Compute universal coefficients
-    _Qp_next = (u / _b_p * (_a_p - _dHp))**(1 / _c_p)
+    _Qp_next = (u / _b_p * np.maximum(_a_p - _dHp, 0.))**(1 / _c_p)
     _Qp_next[~cond_0] = 0.0
     return _Qp_next
 
-- 
2.43.0


From 4d4f0a5f8d5d0c73901033f78c91d7133f689a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 07/36] fix: parabolic section area and perimeter use the width
 at the water surface

---
 pipedream_solver/geometry.py  |  9 ++++++---
 pipedream_solver/ngeometry.py | 10 +++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index c5bd306..57188aa 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -533,7 +533,8 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
-        A = 2 * b * y / 3
+        B = b * np.sqrt(y / y_max)
+        A = 2 * B * y / 3
         return A
 
     @classmethod
@@ -557,8 +558,9 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y <= 0] = eps
         y[y > y_max] = y_max[y > y_max]
-        x = 4 * y / b
-        Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+        B = b * np.sqrt(y / y_max)
+        x = 4 * y / B
+        Pe = (B / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
         return Pe
 
     @classmethod
@@ -598,6 +600,7 @@ class Parabolic():
         b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
+        y[y > y_max] = y_max[y > y_max]
         B = b * np.sqrt(y / y_max)
         return B
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 84ee754..0d2d3ec 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -581,7 +581,8 @@ def Parabolic_A_ik(h_Ik, h_Ip1k, g1, g2):
         y = 0
     if y > y_max:
         y = y_max
-    A = 2 * b * y / 3
+    B = b * np.sqrt(y / y_max)
+    A = 2 * B * y / 3
     return A
 
 @njit(float64(float64, float64, float64, float64),
@@ -608,8 +609,9 @@ def Parabolic_Pe_ik(h_Ik, h_Ip1k, g1, g2):
         y = eps
     if y > y_max:
         y = y_max
-    x = 4 * y / b
-    Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+    B = b * np.sqrt(y / y_max)
+    x = 4 * y / B
+    Pe = (B / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
     return Pe
 
 @njit(float64(float64, float64),
@@ -654,6 +656,8 @@ def Parabolic_B_ik(h_Ik, h_Ip1k, g1, g2):
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
+    if y > y_max:
+        y = y_max
     B = b * np.sqrt(y / y_max)
     return B
 
-- 
2.43.0


From c1cd51ff3fd47ee7ceea4252c3393e2e82ba594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 08/36] fix: elliptical section top width is the chord at the
 water surface

---
 pipedream_solver/geometry.py  | 3 +--
 pipedream_solver/ngeometry.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 57188aa..425b68a 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -705,8 +705,7 @@ class Elliptical():
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
         theta = np.arcsin((y - b) / b)
-        B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                        + b**2 * np.sin(theta)**2)
+        B = 2 * a * np.cos(theta)
         return B
 
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 0d2d3ec..c507bb0 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -738,8 +738,7 @@ def Elliptical_B_ik(h_Ik, h_Ip1k, g1, g2):
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-    B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                    + b**2 * np.sin(theta)**2)
+    B = 2 * a * np.cos(theta)
     return B
 
 
-- 
2.43.0


From 42fc4639dbe8676ffe4a3a133f9c161670f76c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 09/36] fix: square-root Kalman filter agrees with the standard
 filter and returns the innovation covariance

---
 pipedream_solver/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/utils.py b/pipedream_solver/utils.py
index 60c7314..5feeac9 100644
--- a/pipedream_solver/utils.py
+++ b/pipedream_solver/utils.py
@@ -162,9 +162,10 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     """
     I = np.eye(A_1.shape[0])
     A_1_inv = np.linalg.inv(A_1)
-    Rq = np.linalg.cholesky(Qcov)
-    Rr = np.linalg.cholesky(Rcov)
-    F = np.linalg.cholesky(P_x_k_k)
+    # Upper-triangular factors, such that (e.g.) P = F.T @ F
+    Rq = (C @ np.linalg.cholesky(Qcov)).T
+    Rr = np.linalg.cholesky(Rcov).T
+    F = np.linalg.cholesky(P_x_k_k).T
     
     x_k1_k = A_1_inv @ b
     Fbar = np.linalg.qr(np.vstack((F@A_2.T@A_1_inv.T, Rq)), mode='r')
@@ -172,10 +173,11 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     G = np.linalg.qr(np.block([[Fbar@H.T], [Rr]]), mode='r')
     
     L_x_k1 = (np.linalg.inv(G)@(np.linalg.inv(G).T@H)@Fbar.T@Fbar).T
+    P_zz = G.T@G
     
     Fhat = np.linalg.qr(np.block([[Fbar@(I - L_x_k1@H).T], [Rr@L_x_k1.T]]), mode='r')
     x_hat = x_k1_k + L_x_k1 @ (Z_next - H @ x_k1_k)
     
     P_x_k1_k1 = Fhat.T@Fhat
     b_hat = A_1 @ x_hat
-    return b_hat, P_x_k1_k1
+    return b_hat, P_x_k1_k1, P_zz
-- 
2.43.0


From d8e9e909c98fe7f818fbc806b1a27b48e8a44e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 10/36] fix: bandwidth counts every occupied off-diagonal, not
 only those before the first empty one

---
 pipedream_solver/superlink.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 4326ea0..15123a4 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -952,8 +952,6 @@ class SuperLink():
         for k in range(1, len(At)):
             if np.diag(At, k=k).any():
                 bandwidth = k
-            else:
-                break
         self.bandwidth = bandwidth
 
     def _to_banded(self):
-- 
2.43.0


From e9a803815b4b77a35892349bcfac138c0bfd0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 11/36] fix: reorienting an adverse superlink swaps its end
 attributes with its ends

---
 pipedream_solver/superlink.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 15123a4..c6e09ff 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -308,6 +308,13 @@ class SuperLink():
                 if cond:
                     superlinks.loc[k, 'sj_0'] = sj_1
                     superlinks.loc[k, 'sj_1'] = sj_0
+                    # Attributes of each end must be swapped along with the ends
+                    for c_0, c_1 in (('in_offset', 'out_offset'),
+                                     ('dx_uk', 'dx_dk'), ('C_uk', 'C_dk')):
+                        if (c_0 in superlinks.columns) and (c_1 in superlinks.columns):
+                            v_0, v_1 = superlinks.loc[k, c_0], superlinks.loc[k, c_1]
+                            superlinks.loc[k, c_0] = v_1
+                            superlinks.loc[k, c_1] = v_0
         # Save copied input tables to class instance
         self.superjunctions = superjunctions
         self.superlinks = superlinks
-- 
2.43.0


From 721f501b8b9d259029ba926c4e96c1ab1663f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 12/36] fix: least-squares internal solve indexed links wrongly
 when superlinks have different numbers of links

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index c6e09ff..2bbc71a 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -660,7 +660,7 @@ class SuperLink():
         self._I_1k = self.start_nodes
         self._I_2k = self.forward_I_I[self._I_1k]
         self._i_1k = self.forward_I_i[self._I_1k]
-        self._k_1k = np.cumsum(self.nk - 1) - (self.nk[0] - 1)
+        self._k_1k = np.cumsum(self.nk - 1) - (self.nk - 1)
         self._T_ik = np.zeros(self._ik.size)
         self._U_Ik = np.zeros(self._I.size)
         self._V_Ik = np.zeros(self._I.size)
-- 
2.43.0


From f7f36a12912684d107fd46c62d2c0c86196da381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 13/36] fix: the caller's transect tables are not modified

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 3c9a1eb..86f2753 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -347,7 +347,7 @@ class nSuperLink(SuperLink):
             for name, transect in transects.items():
                 x = transect['x']
                 y = transect['y']
-                sample_points = transect.setdefault('sample_points', 100)
+                sample_points = transect.get('sample_points', 100)
                 w = np.linspace(0., y.max(), sample_points)
                 A = np.array([pipedream_solver.ngeometry.Transect_A_ik(w_i, x, y) for w_i in w])
                 B = np.array([pipedream_solver.ngeometry.Transect_B_ik(w_i, x, y) for w_i in w])
-- 
2.43.0


From 5549c30127db71969cdba78edb0502ec989c581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 14/36] fix: retried steps keep the caller's error tolerance
 and norm

---
 pipedream_solver/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index a0af8b1..14b64eb 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -569,7 +569,8 @@ class Simulation():
                 self.dts.popleft()
                 self.errs.popleft()
                 self.load_state(initial_state)
-                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, **kwargs)
+                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, tol=tol,
+                          norm=norm, coeffs=coeffs, safety_factor=safety_factor, **kwargs)
         assert np.isfinite(self.model.H_j).all()
         self._iter_count += 1
 
-- 
2.43.0


From b8efb3b0e7d862689db0211b11b775fa890ef64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 15/36] fix: step error norms use magnitudes, so errors of
 opposite sign or heads below datum do not cancel

---
 pipedream_solver/simulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 14b64eb..7c393fd 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -326,17 +326,16 @@ class Simulation():
             rtol = self.rtol
         current_state = self.model.H_j
         previous_state = self.model.states['H_j']
-        # TODO: This should probably be absolute value
-        max_state = np.maximum(current_state, previous_state)
+        max_state = np.maximum(np.abs(current_state), np.abs(previous_state))
         scaled_err = err / (atol + max_state * rtol)
         return scaled_err
 
     def _normed_error(self, scaled_err, norm=2):
         n = scaled_err.size
         if (norm == 0):
-            normed_err = (scaled_err > 0).astype(int).sum() / n
+            normed_err = (scaled_err != 0).astype(int).sum() / n
         elif (norm == 1):
-            normed_err = scaled_err.sum() / n
+            normed_err = np.abs(scaled_err).sum() / n
         elif (norm == 2):
             normed_err = np.sqrt((scaled_err**2).sum() / n)
         # TODO: should check for inf too
-- 
2.43.0


From 3bd672ba8c1101f3f3256d26838abeff7e52add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 16/36] fix: an explicit t_start sets the simulation clock

---
 pipedream_solver/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 7c393fd..b7ef459 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -156,6 +156,7 @@ class Simulation():
                 self.t_start = model.t
         else:
             self.t_start = t_start
+            self.model.t = self.t_start
         if t_end is None:
             if any_inputs:
                 self.t_end = max(i.index.max() for i in self.inputs if i is not None)
-- 
2.43.0


From 28ced119ec6723fbb89a7d3c484a01a6c11f3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 17/36] fix: ponded depth accumulates a depth, not a rate, and
 does not modify the caller's array

---
 pipedream_solver/infiltration.py  | 7 +++----
 pipedream_solver/ninfiltration.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 2b3272a..16f8d43 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -368,10 +368,9 @@ class GreenAmpt():
         A_s = self.A_s
         self.Q = np.maximum((i - f), 0.) * A_s
 
-    def compute_ponding_depth(self, i):
+    def compute_ponding_depth(self, dt, i):
         f = self.f
-        self.d += (i - f)
-        self.d = np.maximum(self.d, 0.)
+        self.d = np.maximum(self.d + (i - f) * dt, 0.)
 
     def step(self, dt, i):
         """
@@ -402,7 +401,7 @@ class GreenAmpt():
         if unsat_case_3.any():
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 908b2cf..44c5b41 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -198,7 +198,7 @@ class nGreenAmpt(GreenAmpt):
         if numba_any(unsat_case_3):
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
-- 
2.43.0


From 74f97400ade2098cb8cc923d5ffe7f690a9116d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 18/36] fix: soil leaves the saturated state when its
 infiltration capacity exceeds the available water

---
 pipedream_solver/ninfiltration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 44c5b41..7fcc406 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -154,7 +154,8 @@ class nGreenAmpt(GreenAmpt):
         dts = np.full(n, dt)
         F_2 = run_green_ampt_newton(F_2, F, F, dts, Ks, theta_d, psi_f, ia)
         dF = F_2 - F
-        cond = (dF > ia * dt)
+        # NOTE: The bounded solver never exceeds the available water, so compare capacity instead
+        cond = (self.integrated_green_ampt(F + ia * dt, F, dt, Ks, theta_d, psi_f) > 0)
         if cond.any():
             dF[cond] = ia[cond] * dt
             # Set current surface layer to unsaturated
-- 
2.43.0


From 24eee211360b8a60e9c81a8940895526a04c431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 19/36] fix: Darcy-Weisbach friction is zero when there is no
 flow instead of dividing by zero

---
 pipedream_solver/nsuperlink.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 86f2753..dbb8d8e 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2051,9 +2051,13 @@ def friction_slope(Q_ik_t, dx_ik, A_ik, R_ik, n_ik, Sf_method_ik, g=9.81):
             # kinematic viscosity(meter^2/sec), we can consider this is constant.
             nu = 0.0000010034
             Re = (np.abs(Q_ik_t) / A_ik) * 4 * R_ik / nu
-            f = 0.25 / (np.log10(n_ik / (3.7 * 4 * R_ik) + 5.74 / (Re**0.9)))**2
-            t_1 = (0.01274 * g * f * np.abs(Q_ik_t) * dx_ik
-                   / (A_ik * R_ik))
+            if Re > 0:
+                f = 0.25 / (np.log10(n_ik / (3.7 * 4 * R_ik) + 5.74 / (Re**0.9)))**2
+                t_1 = (0.01274 * g * f * np.abs(Q_ik_t) * dx_ik
+                       / (A_ik * R_ik))
+            else:
+                # No flow, no friction
+                t_1 = 0.
         else:
             raise ValueError('Invalid friction method.')
         return t_1
-- 
2.43.0


From 4559eb9757a4feb0391da8ff4ba72dc1202e1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 20/36] fix: storage tables apply to tabular superjunctions
 only, and unused tables are ignored

---
 pipedream_solver/nsuperlink.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index dbb8d8e..a7bee60 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -433,13 +433,13 @@ class nSuperLink(SuperLink):
         # All entries must either be function or tabular
         assert (_tabular.sum() + _functional.sum()) == _storage_type.shape[0]
         # Configure tabular storages
-        if storages:
+        if storages and _tabular.any():
             _tabular_storages = _storage_table[_tabular]
             _storage_indices = pd.Series(_tabular_storages.index, _tabular_storages.values)
             unique_storage_names = np.unique(_storage_indices.index.values)
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
-            sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
+            sj_to_storage_ind = _tabular_storages.map(storage_name_to_ind)
             _storage_inds = []
             _storage_lens = []
             _storage_As = []
@@ -448,6 +448,9 @@ class nSuperLink(SuperLink):
             order = []
             ix = 0
             for name, storage in storages.items():
+                # Skip storages that no tabular superjunction refers to
+                if name not in storage_name_to_ind:
+                    continue
                 A = storage['A']
                 h = storage['h']
                 V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
-- 
2.43.0


From 0b42cfba400806bb152fb4b43ba97573f6b2b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 21/36] fix: storage table offsets follow the order the tables
 are stored in

---
 pipedream_solver/nsuperlink.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index a7bee60..38b51dc 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -440,13 +440,11 @@ class nSuperLink(SuperLink):
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
             sj_to_storage_ind = _tabular_storages.map(storage_name_to_ind)
-            _storage_inds = []
             _storage_lens = []
             _storage_As = []
             _storage_Vs = []
             _storage_hs = []
             order = []
-            ix = 0
             for name, storage in storages.items():
                 # Skip storages that no tabular superjunction refers to
                 if name not in storage_name_to_ind:
@@ -457,16 +455,15 @@ class nSuperLink(SuperLink):
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
-                _storage_inds.append(ix)
                 order.append(storage_name_to_ind[name])
-                ix += len(h)
                 _storage_lens.append(len(h))
             order = np.argsort(order)
             _storage_hs = np.concatenate([_storage_hs[i] for i in order])
             _storage_As = np.concatenate([_storage_As[i] for i in order])
             _storage_Vs = np.concatenate([_storage_Vs[i] for i in order])
-            _storage_inds = np.asarray(_storage_inds)[order]
             _storage_lens = np.asarray(_storage_lens)[order]
+            # Offset of each table in the reordered arrays
+            _storage_inds = np.cumsum(_storage_lens) - _storage_lens
             _storage_js = sj_to_storage_ind.index.values
             _storage_codes = sj_to_storage_ind.values
         # Export instance variables
-- 
2.43.0


From 8811e4ed7c6dd2e8c6300650af7df8ff21114291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 22/36] fix: an elliptical section has no area at zero depth
 instead of a round-off residue

---
 pipedream_solver/geometry.py  | 1 +
 pipedream_solver/ngeometry.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 425b68a..3c1b62b 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -634,6 +634,7 @@ class Elliptical():
         A_a = a * b * (np.pi / 2 + theta)
         A_b = a * b * np.cos(theta) * np.sin(theta)
         A = A_a + A_b
+        A[y <= 0] = 0
         return A
 
     @classmethod
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index c507bb0..8b778c9 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -682,8 +682,8 @@ def Elliptical_A_ik(h_Ik, h_Ip1k, g1, g2):
     b = g1 / 2
     a = g2 / 2
     y = (h_Ik + h_Ip1k) / 2
-    if y < 0:
-        y = 0
+    if y <= 0:
+        return 0.
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-- 
2.43.0


From 6550faeec80df9bccf5e7bdb20562d955a3e2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 23/36] fix: first recorded row is the state the simulation
 starts from

---
 pipedream_solver/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index b7ef459..7c088bb 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -230,7 +230,7 @@ class Simulation():
             if state in self.model.states:
                 setattr(self.states, state, {})
                 getattr(self.states, state).update({float(model.t) :
-                                                    np.copy(model.states[state])})
+                                                    np.copy(getattr(model, state))})
 
     def __enter__(self):
         return self
-- 
2.43.0


From f663707fa5643942188d899711fa9d310c3cfdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 24/36] fix: saved state carries the end indicators and movable
 junction positions it needs

---
 pipedream_solver/superlink.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2bbc71a..66e47b6 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3931,6 +3931,14 @@ class SuperLink():
         self.states['A_dk'] = np.copy(self.A_dk)
         self.states['A_sj'] = np.copy(self.A_sj)
         self.states['V_j'] = np.copy(self.V_j)
+        # End indicators lag the heads by one step and set the end geometry
+        self.states['_theta_uk'] = np.copy(self._theta_uk)
+        self.states['_theta_dk'] = np.copy(self._theta_dk)
+        # Positions of movable junctions
+        if self.mobile_elements:
+            self.states['_z_inv_Ik'] = np.copy(self._z_inv_Ik)
+            self.states['_dx_ik'] = np.copy(self._dx_ik)
+            self.states['_elem_pos'] = np.copy(self._elem_pos)
 
     def load_state(self, states={}, exclude_states=set(),
                    compute_hydraulic_geometries=True):
-- 
2.43.0


From 4b49843e9b42a5e06466d3a2f0251ff613b49122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 25/36] fix: unnamed superjunction labels follow the
 permutation

---
 pipedream_solver/superlink.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 66e47b6..3334bf5 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -327,6 +327,7 @@ class SuperLink():
             self.NK = len(superlinks)
         else:
             self.NK = 0
+        superjunction_index = self.superjunctions.index.values
         # Permute superjunctions if specified
         if auto_permute:
             self._initialize_with_permuted_columns()
@@ -352,7 +353,7 @@ class SuperLink():
         if 'name' in self.superjunctions.columns:
             self.superjunction_names = self.superjunctions['name'].values
         else:
-            self.superjunction_names = self.superjunctions.index.values
+            self.superjunction_names = superjunction_index[self.permutations]
         if 'name' in self.superlinks.columns:
             self.superlink_names = self.superlinks['name'].values
         else:
-- 
2.43.0


From 3cebe575402ecf1250dc5d0e1d4a2ebe1ec96afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 26/36] fix: cumulative infiltration does not become negative
 while the soil recovers

---
 pipedream_solver/infiltration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 16f8d43..16acbd5 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -141,7 +141,7 @@ class GreenAmpt():
         d_theta = kr * theta_dmax * dt
         theta_du += d_theta
         theta_du[:] = np.minimum(np.maximum(theta_du, 0), theta_dmax)
-        F -= d_theta * Lu
+        F[:] = np.maximum(F - d_theta * Lu, 0.)
         # If min recovery time has expired, mark beginning of new rainfall event
         cond = (T <= 0)
         if cond.any():
-- 
2.43.0


From 4ba796b17419871f914c4d4bc9be24beb589b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 27/36] fix: water quality uses the section of each link
 instead of that of the first

---
 pipedream_solver/nquality.py | 45 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 0818254..d5e54a9 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -273,7 +273,7 @@ class QualityBuilder():
         _I_1k = self._I_1k
         _I_Np1k = self._I_Np1k
         self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next, self._A_uk_next, self._A_uk_prev, self._A_dk_next, self._A_dk_prev = geometry_WQ2(_I_1k,
-               _I_Np1k, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
+               _I_Np1k, self._i_1k, self._i_nk, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
                self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next, self._z_inv_j, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
                self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next,
                self._A_uk_next, self._A_dk_next, self._A_uk_prev, self._A_dk_prev)
@@ -1646,24 +1646,23 @@ def c_I_b(c_ik, c_Np1k, X_Ik, Y_Ik, Z_Ik):
 
 @njit
 def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
-    if _geom_codes[0] ==1:
-        d = _g1_ik
-        y = 0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-        y[y < 0] = 0
-        y[y > d] = d[y > d]
-        r = d / 2
-        phi = y / r
-        phi[phi < 0] = 0
-        phi[phi > 2] = 2
-        theta = np.arccos(1 - phi)
-        _A_ik_next = r**2 * (theta - np.cos(theta) * np.sin(theta))
-    elif _geom_codes[0] ==3:
-        _A_ik_next = _B_ik[Ix_ik]*0.5*(_h_Ik_next[_Ik] + _h_Ik_next[_Ip1k])
-    else:
-        raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')    
+    _A_ik_next = np.zeros(_Ik.size)
+    for i in range(_Ik.size):
+        h = 0.5*(_h_Ik_next[_Ik[i]] + _h_Ik_next[_Ip1k[i]])
+        if _geom_codes[i] ==1:
+            d = _g1_ik[i]
+            y = min(max(h, 0.0), d)
+            r = d / 2
+            phi = min(max(y / r, 0.0), 2.0)
+            theta = np.arccos(1 - phi)
+            _A_ik_next[i] = r**2 * (theta - np.cos(theta) * np.sin(theta))
+        elif _geom_codes[i] ==3:
+            _A_ik_next[i] = _B_ik[Ix_ik[i]]*h
+        else:
+            raise ValueError('Geometries of conduit should be [circular] or [rect_open] in this version of WQ solver.')
     return _A_ik_next
 @njit
-def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
+def geometry_WQ2(_I_1k, _I_Np1k, _i_1k, _i_nk, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
                  _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_j, _H_j_prev, _Q_dk_next,
                  _B_dk, _dx_dk, _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next,
                  _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev):
@@ -1675,8 +1674,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         _Q_uk_dn_next[k] = (_Q_uk_next[k] - (0.5*_B_uk[k]*_dx_uk[k])
                                 *(_h_Ik_next[_I_1k[k]] - _h_Ik_prev[_I_1k[k]])/_dt)
         # Calculate the cross-sectional area of upstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+        if _geom_codes[_i_1k[k]] ==1:
+            d = _g1_ik[_i_1k[k]]
             y = 0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]])
             if y < 0:
                 y = 0.0
@@ -1704,7 +1703,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_uk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_1k[k]] ==3:
             _A_uk_next[k] = (_B_uk[k]*0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]]))
             _A_uk_prev[k] = (_B_uk[k]*0.5*(_H_j_prev[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_prev[_I_1k[k]]))
         else:
@@ -1716,8 +1715,8 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                                 *(_H_j_next[_J_dk[k]] - _H_j_prev[_J_dk[k]])/_dt)
         
         # Calculate the cross-sectional area of downstream boundary links
-        if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+        if _geom_codes[_i_nk[k]] ==1:
+            d = _g1_ik[_i_nk[k]]
             y = 0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]])
             if y < 0:
                 y = 0.0
@@ -1744,7 +1743,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                 phi = 2
             theta = np.arccos(1 - phi)
             _A_dk_prev[k] = r**2 * (theta - np.cos(theta) * np.sin(theta))
-        elif _geom_codes[0] ==3:
+        elif _geom_codes[_i_nk[k]] ==3:
             _A_dk_next[k] = (_B_dk[k]*0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]]))
             _A_dk_prev[k] = (_B_dk[k]*0.5*(_H_j_prev[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_prev[_I_Np1k[k]]))
         else:
-- 
2.43.0


From ec73cffa1de1b4eca7de217d389d2e43005b4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 28/36] fix: quality step uses the default time step when none
 is given

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index d5e54a9..c9e245f 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -977,9 +977,9 @@ class QualityBuilder():
         --------
         None
         """
-        self.import_hydraulic_states(_dt=dt)
         if dt is None:
             dt = self._dt
+        self.import_hydraulic_states(_dt=dt)
         if Q_0j is None:
             Q_0j = self.hydraulics._Q_in
         if Q_0Ik is None:
-- 
2.43.0


From 16165cf46d84baa5146e0a9cb15535859d02cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 29/36] fix: boundary concentrations do not feed back into the
 quality filter

---
 pipedream_solver/nquality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index c9e245f..c136d6b 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -1024,6 +1024,8 @@ class QualityBuilder():
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
         A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        # Boundary concentrations do not depend on the previous state
+        A1_k[self.bc,self.bc] = 0.
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
@@ -1066,6 +1068,8 @@ class QualityBuilder():
         # Define the matrices : A, B, C
         I_k = np.arange(0, _M, 1)
         A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        # Boundary concentrations do not depend on the previous state
+        A1_k[self.bc,self.bc] = 0.
         self.x_hat, self.P_k, self.A_k, self.B_k = KF_WQ2(A1_k, I_k, A_sj_k, H_j_k_next, _dt, self.b, _c_j_prev_kf, x_hat, P_k, H_k, K_k, self.A_L_kf, Q_cov, R_cov, measure)
         self._c_j = self.x_hat
         self._c_j_prev_kf = self.x_hat
@@ -1080,6 +1084,8 @@ class QualityBuilder():
         H_j_k_next = self._H_j_next - self._z_inv_j
         I_k = np.arange(0, _M, 1)
         A1_k[I_k,I_k] = A_sj_k*H_j_k_next/_dt
+        # Boundary concentrations do not depend on the previous state
+        A1_k[self.bc,self.bc] = 0.
         Bu_k = self.b - A1_k @ _c_j_prev_kf    # All external inputs : Bu(t) = b - A1x[t]  where x[t]=c_j[t]
         A_inv = np.linalg.inv(self.A_L_kf)
         A_k = A_inv @ A1_k
-- 
2.43.0


From f214ff07d0a0beb77012170b173b48f9fa433ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 30/36] fix: movable junction returns to its rest position when
 the superlink starts off its end

---
 pipedream_solver/nsuperlink.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 38b51dc..f97ac3d 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3176,13 +3176,13 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             _dx_i = _dx_ik[_i_1:_i_end]
             # Move junction if downstream head is within range
             move_junction = (_H_d > _z_inv_Np1) & (_H_d < _z_inv_1)
+            _x0 = _x_I[0]
             if move_junction:
                 z_m = _H_d
-                _x0 = _x_I[0]
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-                x_m = _xc[k]
+                x_m = _xc[k] + _x0
             # Determine new x-position of junction
             c = np.searchsorted(_x_I, x_m)
             cm1 = c - 1
-- 
2.43.0


From 612e60f0fd98cde7c37d27586a965b2557c761c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 31/36] fix: link divided by a junction moving upstream retains
 its flow

---
 pipedream_solver/nsuperlink.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index f97ac3d..43e85e4 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3211,7 +3211,8 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             # If position has shifted interpolate flow
             if shifted:
                 ix = np.arange(nlinks)
-                ix[pos_prev] = pos_next
+                # Link divided by junction at new position retains its flow on both sides
+                ix[pos_prev] = pos_next if (pos_next > pos_prev) else pos_next - 1
                 ix.sort()
                 _Q_i = _Q_ik[_i_1:_i_end]
                 _Q_i[pos_prev - 1] = (1 - r) * _Q_i[pos_prev - 1] + r * _Q_i[pos_prev]
-- 
2.43.0


From 195a21b263f82ef614278e51531b8404bac27c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 32/36] fix: simulation starts from the specified heads, depths
 and flows

---
 pipedream_solver/superlink.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 3334bf5..596c3c9 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -774,8 +774,11 @@ class SuperLink():
         self.t = 0
         # Compute bandwidth
         self._compute_bandwidth()
-        # Initialize to stable state
+        # Initialize coefficients and control structure flows
         self.step(dt=1e-6, first_time=True)
+        # Start from the specified heads, depths and flows
+        for key in ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk'):
+            setattr(self, key, np.copy(self.states[key]))
         # Reset iteration counter
         self.iter_count = 0
         self.t = 0
-- 
2.43.0


From 1232f239367c0a9fe8edfa5691fde88fffc85327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 33/36] fix: quality filter starts from the specified
 concentrations

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index c136d6b..5c5ec7f 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -215,7 +215,7 @@ class QualityBuilder():
         self.A_k = np.zeros((self.M, self.M))
         self.B_k = np.zeros((self.M, self.M))
         self.H_k  = np.zeros((1,self.M))
-        self.x_hat = np.zeros(self.M)
+        self.x_hat = np.copy(self._c_j)
         self.P_k = np.zeros((self.M, self.M))
         self.K_k = np.zeros((self.M, self.M))
         self._c_j_prev_kf = self._c_j
-- 
2.43.0


From 15e68eb6fa81ffcf7c5d1b7fa033ccdc7fc26896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 34/36] fix: quality model starts from the specified initial
 concentrations

---
 pipedream_solver/nquality.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 5c5ec7f..8a00e37 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -222,8 +222,13 @@ class QualityBuilder():
         self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
         self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
         self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
+        # Initialize coefficients, retaining the specified initial concentrations
+        initial_states = {name : np.copy(getattr(self, name)) for name in
+                          ('_c_j', '_c_Ik', '_c_ik', '_c_uk', '_c_dk', '_c_1k', '_c_Np1k')}
         self.step(dt=1e-6)
-        
+        for name, value in initial_states.items():
+            setattr(self, name, value)
+
     # TODO: It might be safer to have these as @properties
     def import_hydraulic_states(self, _dt):
         self._H_j_next = self.hydraulics.H_j
-- 
2.43.0


From 7641deed567236cd801859340de0bc1e8d4f63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 35/36] fix: uncompiled Green-Ampt solution could not start
 from zero cumulative infiltration

---
 pipedream_solver/infiltration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 16acbd5..59ec7d8 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -252,7 +252,8 @@ class GreenAmpt():
             n = sub_dt.size
             F_2 = np.zeros(n, dtype=float)
             for i in range(n):
-                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, F[cond_2][i],
+                # NOTE: Derivative is zero at F_2 = 0, so start from all available water infiltrating
+                F_2[i] = scipy.optimize.newton(self.integrated_green_ampt, (F + ia * dt)[cond_2][i],
                                                self.derivative_green_ampt,
                                                args=(Fs[cond_2][i], sub_dt[i], Ks[cond_2][i],
                                                      theta_d[cond_2][i], psi_f[cond_2][i]))
-- 
2.43.0


From ff304fc95cae4147dbdb299decab557f89dd98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 36/36] fix: quality model requires assimilation parameters
 even when nothing is assimilated

---
 pipedream_solver/nquality.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 8a00e37..0dcc16f 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -219,9 +219,11 @@ class QualityBuilder():
         self.P_k = np.zeros((self.M, self.M))
         self.K_k = np.zeros((self.M, self.M))
         self._c_j_prev_kf = self._c_j
-        self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
-        self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
-        self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
+        # NOTE: Only needed if measurements are assimilated
+        if 'KF_obs_point' in superlink_params.columns:
+            self.Observation_point = superlink_params['KF_obs_point'].values[0].astype(np.int32)
+            self.N_process_sigma = superlink_params['KF_process_sigma'].values[0].astype(np.float64)
+            self.N_measure_sigma = superlink_params['KF_measure_sigma'].values[0].astype(np.float64)
         # Initialize coefficients, retaining the specified initial concentrations
         initial_states = {name : np.copy(getattr(self, name)) for name in
                           ('_c_j', '_c_Ik', '_c_ik', '_c_uk', '_c_dk', '_c_1k', '_c_Np1k')}
-- 
2.43.0

