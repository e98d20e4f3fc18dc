From a52904ca9db6e7698d272912eca1a454ba74b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 01/31] fix: integrate storage tables as area over depth
 (cumtrapz is gone from scipy, and its arguments were swapped)

---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 107355e..b1dd282 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -450,7 +450,7 @@ class nSuperLink(SuperLink):
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
-                V = scipy.integrate.cumtrapz(h, A, initial=0.)
+                V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 44cd05d..c58a0ea 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -62,7 +62,7 @@ class Tabular():
     def __init__(self, h, A):
         self.h = np.asarray(h)
         self.A = np.asarray(A)
-        self.V = scipy.integrate.cumtrapz(h, A, initial=0.)
+        self.V = scipy.integrate.cumulative_trapezoid(self.A, self.h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
         self.Amax = self.A.max()
-- 
2.43.0


From 3ab2a91a5d40a4a76dcc54c79ddda6580fc334aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 02/31] fix: look up each superjunction's own storage table
 whatever the order of the tables

---
 pipedream_solver/nsuperlink.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index b1dd282..ffb4ff5 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -433,21 +433,21 @@ class nSuperLink(SuperLink):
         # All entries must either be function or tabular
         assert (_tabular.sum() + _functional.sum()) == _storage_type.shape[0]
         # Configure tabular storages
-        if storages:
+        if storages and _tabular.any():
             _tabular_storages = _storage_table[_tabular]
             _storage_indices = pd.Series(_tabular_storages.index, _tabular_storages.values)
             unique_storage_names = np.unique(_storage_indices.index.values)
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
-            sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
+            sj_to_storage_ind = _tabular_storages.map(storage_name_to_ind)
             _storage_inds = []
             _storage_lens = []
             _storage_As = []
             _storage_Vs = []
             _storage_hs = []
-            order = []
             ix = 0
-            for name, storage in storages.items():
+            for name in unique_storage_names:
+                storage = storages[name]
                 A = storage['A']
                 h = storage['h']
                 V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
@@ -455,15 +455,13 @@ class nSuperLink(SuperLink):
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
                 _storage_inds.append(ix)
-                order.append(storage_name_to_ind[name])
                 ix += len(h)
                 _storage_lens.append(len(h))
-            order = np.argsort(order)
-            _storage_hs = np.concatenate([_storage_hs[i] for i in order])
-            _storage_As = np.concatenate([_storage_As[i] for i in order])
-            _storage_Vs = np.concatenate([_storage_Vs[i] for i in order])
-            _storage_inds = np.asarray(_storage_inds)[order]
-            _storage_lens = np.asarray(_storage_lens)[order]
+            _storage_hs = np.concatenate(_storage_hs)
+            _storage_As = np.concatenate(_storage_As)
+            _storage_Vs = np.concatenate(_storage_Vs)
+            _storage_inds = np.asarray(_storage_inds)
+            _storage_lens = np.asarray(_storage_lens)
             _storage_js = sj_to_storage_ind.index.values
             _storage_codes = sj_to_storage_ind.values
         # Export instance variables
-- 
2.43.0


From f351b7cc47a0649edca1c547c3c12563f51ca744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 03/31] fix: beyond a storage table use the area at its end,
 not the smallest or largest area in it

---
 pipedream_solver/nsuperlink.py | 6 +++---
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index ffb4ff5..5661535 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1980,8 +1980,8 @@ def numba_compute_tabular_storage_areas(h_j, A_sj, hs, As, sjs, sts, inds, lens)
         size = lens[st]
         h_range = hs[ind:ind+size]
         A_range = As[ind:ind+size]
-        Amin = A_range.min()
-        Amax = A_range.max()
+        Amin = A_range[0]
+        Amax = A_range[size - 1]
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
@@ -2012,7 +2012,7 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
         hmax = h_range.max()
         Vmin = V_range.min()
         Vmax = V_range.max()
-        Amax = A_range.max()
+        Amax = A_range[size - 1]
         h_search = h_j[sj]
         ix = np.searchsorted(h_range, h_search)
         # NOTE: np.interp not supported in this version of numba
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index c58a0ea..6e3b06a 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -65,7 +65,7 @@ class Tabular():
         self.V = scipy.integrate.cumulative_trapezoid(self.A, self.h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
-        self.Amax = self.A.max()
+        self.Amax = self.A[-1]
         self.A_interpolator = scipy.interpolate.interp1d(self.h, self.A)
         self.V_interpolator = scipy.interpolate.interp1d(self.h, self.V)
 
-- 
2.43.0


From a48b41225860ad3cb0b3269439c41dfe17239dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 04/31] fix: Darcy-Weisbach friction of a link without flow is
 zero instead of a division by zero

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 5661535..6064f58 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2031,7 +2031,7 @@ def numba_compute_tabular_storage_volumes(h_j, V_sj, hs, As, Vs, sjs, sts, inds,
 
 @njit(float64(float64, float64, float64, float64, float64, float64, float64))
 def friction_slope(Q_ik_t, dx_ik, A_ik, R_ik, n_ik, Sf_method_ik, g=9.81):
-    if A_ik > 0:
+    if (A_ik > 0) and (Q_ik_t != 0):
         # Chezy-Manning eq.
         if Sf_method_ik == 0:
             t_1 = (g * n_ik**2 * np.abs(Q_ik_t) * dx_ik
-- 
2.43.0


From 52478081ea6430ba2425d7bb997d580e2c46016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 05/31] fix: least-squares solution of internals when
 superlinks differ in number of links

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2abcd7a..b9149da 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -653,7 +653,7 @@ class SuperLink():
         self._I_1k = self.start_nodes
         self._I_2k = self.forward_I_I[self._I_1k]
         self._i_1k = self.forward_I_i[self._I_1k]
-        self._k_1k = np.cumsum(self.nk - 1) - (self.nk[0] - 1)
+        self._k_1k = np.cumsum(self.nk - 1) - (self.nk - 1)
         self._T_ik = np.zeros(self._ik.size)
         self._U_Ik = np.zeros(self._I.size)
         self._V_Ik = np.zeros(self._I.size)
-- 
2.43.0


From c3015ec917c4e9429a587ff9031ace8b8039e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 06/31] fix: slope of the downstream end length depends on that
 length, not on the upstream one

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index b9149da..4328e2c 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -730,7 +730,7 @@ class SuperLink():
         self._R_dk = np.copy(self._R_ik[self._i_nk])
         # End slopes
         cond_uk = (self._dx_uk > 0.)
-        cond_dk = (self._dx_uk > 0.)
+        cond_dk = (self._dx_dk > 0.)
         _S_o_uk = np.zeros(self.NK, dtype=np.float64)
         _S_o_dk = np.zeros(self.NK, dtype=np.float64)
         _S_o_uk[cond_uk] = (self._z_inv_uk - self._z_inv_Ik[self._I_1k])[cond_uk] / self._dx_uk[cond_uk]
-- 
2.43.0


From d2fc1db6a583c548a1d269490b791a8caf3bf1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 07/31] fix: friction over the end lengths enters the end depth
 as a head loss (sign and 1/(gA))

---
 pipedream_solver/nsuperlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 6064f58..922e7cd 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2321,6 +2321,7 @@ def kappa_uk(Q_uk, dx_uk, A_uk, C_uk, R_uk, n_uk, Sf_method_uk, dt, g=9.81):
     for n in range(k):
         t_1[n] = friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
                                 n_uk[n], Sf_method_uk[n], g)
+    t_1 = - t_1 / g / A_uk
     t_2 = - C_uk * np.abs(Q_uk) / 2 / g / A_uk**2
     return t_0 + t_1 + t_2
 
@@ -2336,6 +2337,7 @@ def kappa_dk(Q_dk, dx_dk, A_dk, C_dk, R_dk, n_dk, Sf_method_dk, dt, g=9.81):
     for n in range(k):
         t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
                                 n_dk[n], Sf_method_dk[n], g)
+    t_1 = t_1 / g / A_dk
     t_2 = C_dk * np.abs(Q_dk) / 2 / g / A_dk**2
     return t_0 + t_1 + t_2
 
-- 
2.43.0


From dee622199f2b528877ba149b2df2b42128a34c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 08/31] fix: area and perimeter of a parabolic section use the
 width at the water surface, not the full width

---
 pipedream_solver/geometry.py  |  9 ++++++---
 pipedream_solver/ngeometry.py | 10 +++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index c5bd306..90fbe53 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -533,7 +533,8 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
-        A = 2 * b * y / 3
+        b_y = b * np.sqrt(y / y_max)
+        A = 2 * b_y * y / 3
         return A
 
     @classmethod
@@ -557,8 +558,9 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y <= 0] = eps
         y[y > y_max] = y_max[y > y_max]
-        x = 4 * y / b
-        Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+        b_y = b * np.sqrt(y / y_max)
+        x = 4 * y / b_y
+        Pe = (b_y / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
         return Pe
 
     @classmethod
@@ -598,6 +600,7 @@ class Parabolic():
         b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
+        y[y > y_max] = y_max[y > y_max]
         B = b * np.sqrt(y / y_max)
         return B
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 84ee754..b134051 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -581,7 +581,8 @@ def Parabolic_A_ik(h_Ik, h_Ip1k, g1, g2):
         y = 0
     if y > y_max:
         y = y_max
-    A = 2 * b * y / 3
+    b_y = b * np.sqrt(y / y_max)
+    A = 2 * b_y * y / 3
     return A
 
 @njit(float64(float64, float64, float64, float64),
@@ -608,8 +609,9 @@ def Parabolic_Pe_ik(h_Ik, h_Ip1k, g1, g2):
         y = eps
     if y > y_max:
         y = y_max
-    x = 4 * y / b
-    Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
+    b_y = b * np.sqrt(y / y_max)
+    x = 4 * y / b_y
+    Pe = (b_y / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
     return Pe
 
 @njit(float64(float64, float64),
@@ -654,6 +656,8 @@ def Parabolic_B_ik(h_Ik, h_Ip1k, g1, g2):
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
+    if y > y_max:
+        y = y_max
     B = b * np.sqrt(y / y_max)
     return B
 
-- 
2.43.0


From b1b6d1cc398c121301d2bbddd2a8fc2ae1f2633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 09/31] fix: top width of an elliptical section

---
 pipedream_solver/geometry.py  | 3 +--
 pipedream_solver/ngeometry.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 90fbe53..d939c4d 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -705,8 +705,7 @@ class Elliptical():
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
         theta = np.arcsin((y - b) / b)
-        B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                        + b**2 * np.sin(theta)**2)
+        B = 2 * a * np.cos(theta)
         return B
 
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index b134051..2bf1535 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -738,8 +738,7 @@ def Elliptical_B_ik(h_Ik, h_Ip1k, g1, g2):
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-    B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                    + b**2 * np.sin(theta)**2)
+    B = 2 * a * np.cos(theta)
     return B
 
 
-- 
2.43.0


From c0ecfc6886b87ca192fd7523cf72999242d263e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 10/31] fix: a closed circular orifice has no flow area instead
 of dividing by zero

---
 pipedream_solver/nsuperlink.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 922e7cd..b7b924f 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1859,7 +1859,9 @@ def numba_orifice_geometry(_Ao, h_eo, u_o, _g1_o, _g2_o, _g3_o, _geom_codes_o, n
         g3 = _g3_o[i]
         u = u_o[i]
         h_e = h_eo[i]
-        if geom_code:
+        if u <= 0:
+            _Ao[i] = 0.
+        elif geom_code:
             if geom_code == 1:
                 _Ao[i] = pipedream_solver.ngeometry.Circular_A_ik(h_e, h_e, g1 * u)
             elif geom_code == 2:
-- 
2.43.0


From 43bcacf0a134699eb2b88188e3ea3a567aac8833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 11/31] fix: compute the wetted perimeter at the ends of
 superlinks with an elliptical section

---
 pipedream_solver/nsuperlink.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index b7b924f..2b86797 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -568,6 +568,9 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_uk, self._ellipse_ix, _h_Ik, H_j, _z_inv_uk,
+                                             _theta_uk, _g1_ik, _g2_ik, _i_1k, _I_1k, _J_uk)
         # Compute hydraulic geometry for regular geometries
         numba_boundary_geometry(_A_uk, _Pe_uk, _R_uk, _B_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
@@ -620,6 +623,9 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_dk, self._ellipse_ix, _h_Ik, H_j, _z_inv_dk,
+                                             _theta_dk, _g1_ik, _g2_ik, _i_nk, _I_Np1k, _J_dk)
         # Compute hydraulic geometry for regular geometries
         numba_boundary_geometry(_A_dk, _Pe_dk, _R_dk, _B_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
@@ -1693,6 +1699,17 @@ def handle_elliptical_perimeter(_Pe_ik, _ellipse_ix, _Ik, _Ip1k, _h_Ik, _g1_ik,
                                                             _g1_ik[_ik_g],
                                                             _g2_ik[_ik_g])
 
+def handle_elliptical_boundary_perimeter(_Pe_bk, _ellipse_ix, _h_Ik, _H_j, _z_inv_bk, _theta_bk,
+                                         _g1_ik, _g2_ik, _i_bk, _I_bk, _J_bk):
+    _k_g = np.flatnonzero(np.isin(_i_bk, _ellipse_ix))
+    if (_k_g.size > 0):
+        _ik_g = _i_bk[_k_g]
+        _h_bk = _theta_bk[_k_g] * (_H_j[_J_bk[_k_g]] - _z_inv_bk[_k_g])
+        _Pe_bk[_k_g] = pipedream_solver.geometry.Elliptical.Pe_ik(_h_Ik[_I_bk[_k_g]],
+                                                                  _h_bk,
+                                                                  _g1_ik[_ik_g],
+                                                                  _g2_ik[_ik_g])
+
 @njit(int64(float64[:], float64[:], float64[:], float64[:], float64[:],
             float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
             int64[:], int64[:], int64[:]),
-- 
2.43.0


From fe8d29ab1ffb566f7f1dd765ce9a3a7d1b3a0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 12/31] fix: geometry at superlink ends depends on the current
 heads only, not on those of the step before

---
 pipedream_solver/nsuperlink.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 2b86797..71638ea 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -568,6 +568,8 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # Ensure indicator variables correspond to current heads
+        _theta_uk[:] = (H_j[_J_uk] >= _z_inv_uk)
         # NOTE: Handle case for elliptical perimeter first
         handle_elliptical_boundary_perimeter(_Pe_uk, self._ellipse_ix, _h_Ik, H_j, _z_inv_uk,
                                              _theta_uk, _g1_ik, _g2_ik, _i_1k, _I_1k, _J_uk)
@@ -623,6 +625,8 @@ class nSuperLink(SuperLink):
         _transect_codes = self._transect_codes
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
+        # Ensure indicator variables correspond to current heads
+        _theta_dk[:] = (H_j[_J_dk] >= _z_inv_dk)
         # NOTE: Handle case for elliptical perimeter first
         handle_elliptical_boundary_perimeter(_Pe_dk, self._ellipse_ix, _h_Ik, H_j, _z_inv_dk,
                                              _theta_dk, _g1_ik, _g2_ik, _i_nk, _I_Np1k, _J_dk)
-- 
2.43.0


From 88ad19b311fef027c54d51ddc1321af59b56c3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 13/31] fix: offsets, loss coefficients and end lengths of a
 superlink listed from its lower end move with its ends

---
 pipedream_solver/superlink.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 4328e2c..6d0e1dd 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -308,6 +308,13 @@ class SuperLink():
                 if cond:
                     superlinks.loc[k, 'sj_0'] = sj_1
                     superlinks.loc[k, 'sj_1'] = sj_0
+                    # Attributes of the two ends move with the ends
+                    for col_0, col_1 in (('in_offset', 'out_offset'), ('C_uk', 'C_dk'),
+                                         ('dx_uk', 'dx_dk')):
+                        if (col_0 in superlinks) and (col_1 in superlinks):
+                            val_0 = superlinks.loc[k, col_0]
+                            superlinks.loc[k, col_0] = superlinks.loc[k, col_1]
+                            superlinks.loc[k, col_1] = val_0
         # Save copied input tables to class instance
         self.superjunctions = superjunctions
         self.superlinks = superlinks
-- 
2.43.0


From 09ae3e26663853a5edb2d7cfd02b2eac4124fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 14/31] fix: least-squares solution of internals honours the
 maximum depth of superlinks

---
 pipedream_solver/nsuperlink.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 71638ea..65bd133 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -1491,6 +1491,7 @@ class nSuperLink(SuperLink):
         _link_end = self._link_end
         _kk = _ki[~_link_end]
         min_depth = self.min_depth
+        max_depth_k = self.max_depth_k
         # Solve non-negative least squares
         _X = _X_Ik[~_is_start & ~_is_end]
         _U = _U_Ik[~_is_penult & ~_is_end]
@@ -1504,6 +1505,8 @@ class nSuperLink(SuperLink):
         # Call numba function
         _h_Ik = numba_solve_internals_ls(_h_Ik, NK, nk, _k_1k, _i_1k, _I_1k,
                                          _U, _X, _b)
+        # Set max depth
+        np.minimum(_h_Ik, max_depth_k[_kI], out=_h_Ik)
         # Set depths at upstream and downstream ends
         _h_Ik[_is_start] = _h_uk
         _h_Ik[_is_end] = _h_dk
-- 
2.43.0


From 47230b7b3958231a6e77e7b0f788b48aa0f308bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 15/31] fix: a retried step is judged by the caller's tolerance
 and norm, not by the defaults

---
 pipedream_solver/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index a0af8b1..14b64eb 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -569,7 +569,8 @@ class Simulation():
                 self.dts.popleft()
                 self.errs.popleft()
                 self.load_state(initial_state)
-                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, **kwargs)
+                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, tol=tol,
+                          norm=norm, coeffs=coeffs, safety_factor=safety_factor, **kwargs)
         assert np.isfinite(self.model.H_j).all()
         self._iter_count += 1
 
-- 
2.43.0


From 757d164b5185435c72df37dc04285444dda7c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 16/31] fix: filter_step_size after steps without an error
 estimate returns the current step size instead of failing

---
 pipedream_solver/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 14b64eb..bfc8a57 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -434,6 +434,9 @@ class Simulation():
             min_rel_change = self.min_rel_change
         if max_rel_change is None:
             max_rel_change = self.max_rel_change
+        if any(err is None for err in errs):
+            # No error metric for a recent step: return current step size
+            return dts[0]
         err_n, err_nm1, err_nm2 = errs
         dt_n, dt_nm1, dt_nm2 = dts
         beta_1, beta_2, beta_3, alpha_2, alpha_3 = coeffs
-- 
2.43.0


From 159fe8aa7a79b43d01e420d151c198ad9a0ec603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 17/31] fix: errors of opposite sign do not cancel in the 0-
 and 1-norm of the truncation error

---
 pipedream_solver/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index bfc8a57..00fc64e 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -334,9 +334,9 @@ class Simulation():
     def _normed_error(self, scaled_err, norm=2):
         n = scaled_err.size
         if (norm == 0):
-            normed_err = (scaled_err > 0).astype(int).sum() / n
+            normed_err = (scaled_err != 0).astype(int).sum() / n
         elif (norm == 1):
-            normed_err = scaled_err.sum() / n
+            normed_err = np.abs(scaled_err).sum() / n
         elif (norm == 2):
             normed_err = np.sqrt((scaled_err**2).sum() / n)
         # TODO: should check for inf too
-- 
2.43.0


From 94cb6aecef729cb05367678e2a7fd8ce6129adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 18/31] fix: scale truncation errors by the magnitude of the
 heads (heads below datum gave negative or zero scales)

---
 pipedream_solver/simulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 00fc64e..5e9e110 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -326,8 +326,7 @@ class Simulation():
             rtol = self.rtol
         current_state = self.model.H_j
         previous_state = self.model.states['H_j']
-        # TODO: This should probably be absolute value
-        max_state = np.maximum(current_state, previous_state)
+        max_state = np.maximum(np.abs(current_state), np.abs(previous_state))
         scaled_err = err / (atol + max_state * rtol)
         return scaled_err
 
-- 
2.43.0


From 78df7786975cac5758d6d3b669ddb7a8695215d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 19/31] fix: a simulation with a given start time starts at
 that time

---
 pipedream_solver/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 5e9e110..004ab35 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -156,6 +156,7 @@ class Simulation():
                 self.t_start = model.t
         else:
             self.t_start = t_start
+            self.model.t = t_start
         if t_end is None:
             if any_inputs:
                 self.t_end = max(i.index.max() for i in self.inputs if i is not None)
-- 
2.43.0


From 9417862815395cd8f479eb5f7a9aec6ffa386731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 20/31] fix: first recorded sample is the state of the model at
 the start, not the state one step before

---
 pipedream_solver/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index 004ab35..eefc795 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -230,7 +230,7 @@ class Simulation():
             if state in self.model.states:
                 setattr(self.states, state, {})
                 getattr(self.states, state).update({float(model.t) :
-                                                    np.copy(model.states[state])})
+                                                    np.copy(getattr(model, state))})
 
     def __enter__(self):
         return self
-- 
2.43.0


From 50368d828c145b4efdf01792e7f2a56ada26b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 21/31] fix: ponded depth grows by the excess rate times the
 step (not by the rate), and the array assigned by the user is not modified

---
 pipedream_solver/infiltration.py  | 7 +++----
 pipedream_solver/ninfiltration.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 2b3272a..16f8d43 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -368,10 +368,9 @@ class GreenAmpt():
         A_s = self.A_s
         self.Q = np.maximum((i - f), 0.) * A_s
 
-    def compute_ponding_depth(self, i):
+    def compute_ponding_depth(self, dt, i):
         f = self.f
-        self.d += (i - f)
-        self.d = np.maximum(self.d, 0.)
+        self.d = np.maximum(self.d + (i - f) * dt, 0.)
 
     def step(self, dt, i):
         """
@@ -402,7 +401,7 @@ class GreenAmpt():
         if unsat_case_3.any():
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 908b2cf..44c5b41 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -198,7 +198,7 @@ class nGreenAmpt(GreenAmpt):
         if numba_any(unsat_case_3):
             self.unsaturated_case_3(dt, ia, unsat_case_3)
         self.compute_runoff(i)
-        self.compute_ponding_depth(i)
+        self.compute_ponding_depth(dt, i)
         self.iter_count += 1
         self.t += dt
 
-- 
2.43.0


From 8faa960b7416a7db4cd556215836558f56410417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 22/31] fix: a saturated soil element becomes unsaturated when
 it takes in all available water (the bounded iteration never exceeded it, so
 soil never recovered)

---
 pipedream_solver/ninfiltration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 44c5b41..14211fc 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -154,7 +154,9 @@ class nGreenAmpt(GreenAmpt):
         dts = np.full(n, dt)
         F_2 = run_green_ampt_newton(F_2, F, F, dts, Ks, theta_d, psi_f, ia)
         dF = F_2 - F
-        cond = (dF > ia * dt)
+        # All available water infiltrates if the soil can take in more than that
+        F_max = F + ia * dt
+        cond = (self.integrated_green_ampt(F_max, F, dt, Ks, theta_d, psi_f) > 0)
         if cond.any():
             dF[cond] = ia[cond] * dt
             # Set current surface layer to unsaturated
-- 
2.43.0


From a5e317b9696a4bd7a849df6f01faaee2cb8b2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:29 +0000
Subject: [PATCH 23/31] fix: cumulative infiltration does not become negative
 while the soil recovers

---
 pipedream_solver/infiltration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 16f8d43..2ba4f98 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -142,6 +142,7 @@ class GreenAmpt():
         theta_du += d_theta
         theta_du[:] = np.minimum(np.maximum(theta_du, 0), theta_dmax)
         F -= d_theta * Lu
+        F[:] = np.maximum(F, 0.)
         # If min recovery time has expired, mark beginning of new rainfall event
         cond = (T <= 0)
         if cond.any():
-- 
2.43.0


From c013e84255fd70c21ba78bea038820a698f6352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 24/31] fix: soil without moisture deficit (or suction)
 infiltrates at the saturated conductivity instead of raising
 ZeroDivisionError

---
 pipedream_solver/ninfiltration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 14211fc..3f42b70 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -156,7 +156,8 @@ class nGreenAmpt(GreenAmpt):
         dF = F_2 - F
         # All available water infiltrates if the soil can take in more than that
         F_max = F + ia * dt
-        cond = (self.integrated_green_ampt(F_max, F, dt, Ks, theta_d, psi_f) > 0)
+        cond = ((self.integrated_green_ampt(F_max, F, dt, Ks, theta_d, psi_f) > 0)
+                | (dF > ia * dt))
         if cond.any():
             dF[cond] = ia[cond] * dt
             # Set current surface layer to unsaturated
@@ -248,7 +249,10 @@ def run_green_ampt_newton(F_2, x0, F_1, dt, Ks, theta_d, psi_f, ia, max_iter=50,
         nargs[2] = Ks[i]
         nargs[3] = theta_d[i]
         nargs[4] = psi_f[i]
-        if bounded:
+        if psi_f[i] * theta_d[i] == 0:
+            # No suction: infiltrates at the saturated hydraulic conductivity
+            F_est = F_1_i + Ks[i] * dt_i
+        elif bounded:
             min_F = 0
             max_F = F_1_i + ia[i] * dt_i
             F_est = bounded_newton_raphson(numba_integrated_green_ampt,
-- 
2.43.0


From 7297123a3f690a898304bc78e1b7f1ce3ad266ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 25/31] fix: movable junctions of every superlink are placed
 relative to its own first junction (out-of-range read, missing end length)

---
 pipedream_solver/nsuperlink.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 65bd133..b78bbcc 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3196,11 +3196,10 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             move_junction = (_H_d > _z_inv_Np1) & (_H_d < _z_inv_1)
             if move_junction:
                 z_m = _H_d
-                _x0 = _x_I[_I_1]
-                x_m = (_H_d - _b0[k]) / _m[k] + _x0
+                x_m = (_H_d - _b0[k]) / _m[k] + _x_I[0]
             else:
                 z_m = _zc[k]
-                x_m = _xc[k]
+                x_m = _xc[k] + _x_I[0]
             # Determine new x-position of junction
             c = np.searchsorted(_x_I, x_m)
             cm1 = c - 1
-- 
2.43.0


From 1a3ac38c319ee28f1a197dd059dabe4cfc87d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 26/31] fix: a junction moved upstream splits the flow of the
 link it moves into, not that of the next one

---
 pipedream_solver/nsuperlink.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index b78bbcc..bbb4a51 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3228,7 +3228,8 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             # If position has shifted interpolate flow
             if shifted:
                 ix = np.arange(nlinks)
-                ix[pos_prev] = pos_next
+                # Flow of the link that the junction has moved into
+                ix[pos_prev] = pos_next if pos_next > pos_prev else pos_next - 1
                 ix.sort()
                 _Q_i = _Q_ik[_i_1:_i_end]
                 _Q_i[pos_prev - 1] = (1 - r) * _Q_i[pos_prev - 1] + r * _Q_i[pos_prev]
-- 
2.43.0


From 04be587550de156c66632b0c265244c3cd2b3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 27/31] fix: loading a state restores the links around movable
 junctions with their position

---
 pipedream_solver/superlink.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 6d0e1dd..24f6043 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3921,6 +3921,10 @@ class SuperLink():
         self.states['Q_uk'] = np.copy(self.Q_uk)
         self.states['Q_dk'] = np.copy(self.Q_dk)
         self.states['x_Ik'] = np.copy(self.x_Ik)
+        if self.mobile_elements:
+            self.states['_dx_ik'] = np.copy(self._dx_ik)
+            self.states['_z_inv_Ik'] = np.copy(self._z_inv_Ik)
+            self.states['_elem_pos'] = np.copy(self._elem_pos)
         if self.n_o:
             self.states['Q_o'] = np.copy(self.Q_o)
             # TODO: Need to add orifice area here
-- 
2.43.0


From 00e3dc5ce3a53a0bbfcedbb957b421d8039b8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 28/31] fix: step without a time step uses that of the model
 instead of failing

---
 pipedream_solver/superlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 24f6043..474c38c 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4130,6 +4130,8 @@ class SuperLink():
         """
         if banded is None:
             banded = self.banded
+        if dt is None:
+            dt = self._dt
         self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                          first_time=first_time, implicit=implicit, banded=banded,
                          first_iter=first_iter)
-- 
2.43.0


From 280978c0be0b88f7a0d7faf925f2ddd2965c93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 29/31] fix: bandwidth of the superjunction matrix is that of
 its furthest diagonal

---
 pipedream_solver/superlink.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 474c38c..8ff5566 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -959,8 +959,6 @@ class SuperLink():
         for k in range(1, len(At)):
             if np.diag(At, k=k).any():
                 bandwidth = k
-            else:
-                break
         self.bandwidth = bandwidth
 
     def _to_banded(self):
-- 
2.43.0


From 9bb34a23d9e32317d5437c5cbf6be49634758b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 30/31] fix: square-root Kalman filter agrees with the standard
 one (factors were transposed, signal-input matrix and innovation covariance
 missing)

---
 pipedream_solver/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/utils.py b/pipedream_solver/utils.py
index 60c7314..3be5051 100644
--- a/pipedream_solver/utils.py
+++ b/pipedream_solver/utils.py
@@ -162,9 +162,10 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     """
     I = np.eye(A_1.shape[0])
     A_1_inv = np.linalg.inv(A_1)
-    Rq = np.linalg.cholesky(Qcov)
-    Rr = np.linalg.cholesky(Rcov)
-    F = np.linalg.cholesky(P_x_k_k)
+    # Upper triangular factors (P = F.T @ F)
+    Rq = np.linalg.cholesky(Qcov).T @ C.T
+    Rr = np.linalg.cholesky(Rcov).T
+    F = np.linalg.cholesky(P_x_k_k).T
     
     x_k1_k = A_1_inv @ b
     Fbar = np.linalg.qr(np.vstack((F@A_2.T@A_1_inv.T, Rq)), mode='r')
@@ -176,6 +177,7 @@ def _square_root_kalman_semi_implicit(Z_next, P_x_k_k, A_1, A_2, b, H, C,
     Fhat = np.linalg.qr(np.block([[Fbar@(I - L_x_k1@H).T], [Rr@L_x_k1.T]]), mode='r')
     x_hat = x_k1_k + L_x_k1 @ (Z_next - H @ x_k1_k)
     
+    P_zz = G.T@G
     P_x_k1_k1 = Fhat.T@Fhat
     b_hat = A_1 @ x_hat
-    return b_hat, P_x_k1_k1
+    return b_hat, P_x_k1_k1, P_zz
-- 
2.43.0


From 15995aade37da99c9ebaf461d6a440de4558e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 31/31] fix: transect definitions passed by the caller are not
 modified

---
 pipedream_solver/nsuperlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index bbb4a51..963eaa0 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -347,7 +347,7 @@ class nSuperLink(SuperLink):
             for name, transect in transects.items():
                 x = transect['x']
                 y = transect['y']
-                sample_points = transect.setdefault('sample_points', 100)
+                sample_points = transect.get('sample_points', 100)
                 w = np.linspace(0., y.max(), sample_points)
                 A = np.array([pipedream_solver.ngeometry.Transect_A_ik(w_i, x, y) for w_i in w])
                 B = np.array([pipedream_solver.ngeometry.Transect_B_ik(w_i, x, y) for w_i in w])
-- 
2.43.0

