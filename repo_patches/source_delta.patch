From 085e33591e2dbe64676982c73f0c65fbfce49928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 01/46] fix: disconnect rows of adjacent layers in the 3D
 transmissibility matrix

---
 reservoirflow/grids/regular_cartesian.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..9e7f86f 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2847,14 +2847,13 @@ class RegularCartesian(Grid):
             n3 = self.nx_b * self.ny_b
             n3_ = n3 - self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
         else:
             n3 = self.nx * self.ny
             n3_ = n3 - self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
         if diag_2 is not None:
-            diag_2[diag_2_zero_ids] = 0
+            # last row of each layer is not connected to the next layer.
+            diag_2[np.arange(len(diag_2)) % n3 >= n3_] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
         d = self.get_cells_d(dir, boundary, False)
-- 
2.43.0


From 4715afe70a8845b659df46cd066e9f458f03040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 02/46] fix: do not cache values that depend on properties
 which can be updated

---
 reservoirflow/grids/regular_cartesian.py | 9 ++-------
 reservoirflow/models/black_oil.py        | 2 --
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 9e7f86f..8c8ae5a 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2526,7 +2526,6 @@ class RegularCartesian(Grid):
 
         return self.get_prop(name, boundary, fshape, fmt)
 
-    @_lru_cache(maxsize=None)
     def get_cell_k(
         self,
         dir,
@@ -2659,7 +2658,6 @@ class RegularCartesian(Grid):
         return self.get_cell_k("z", id, coords)
 
     @property
-    @_lru_cache(maxsize=1)
     def is_homogeneous(self):
         """Returns homogeneity as bool.
 
@@ -2680,7 +2678,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_heterogeneous(self):
         """Returns heterogeneity as bool.
 
@@ -2695,7 +2692,6 @@ class RegularCartesian(Grid):
         return not self.is_homogeneous
 
     @property
-    @_lru_cache(maxsize=1)
     def is_isotropic(self):
         """Returns isotropic as bool.
 
@@ -2719,7 +2715,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_anisotropic(self):
         """Returns anisotropic as bool.
 
@@ -2938,7 +2933,6 @@ class RegularCartesian(Grid):
         else:
             return diag
 
-    @_lru_cache(maxsize=None)
     def get_cell_G(
         self,
         id=None,
@@ -2970,6 +2964,7 @@ class RegularCartesian(Grid):
         # ----
         # - for now use only with id
         neighbors = self.get_cell_neighbors(id, coords, boundary, fmt="dict")
+        is_isotropic = self.is_isotropic
         G = {}
 
         for fdir in self.get_fdir():
@@ -2987,7 +2982,7 @@ class RegularCartesian(Grid):
                     A_n = self.get_cell_A(fdir, None, id_n)
                     k_n = self.get_cell_k(fdir, None, id_n)
 
-                if self.is_isotropic:  # or regular grid (To do)
+                if is_isotropic:  # or regular grid (To do)
                     G[id_n] = (
                         self.factors["transmissibility conversion"]
                         * ((k + k_n) / 2)
diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..9c1f74d 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -265,7 +265,6 @@ class BlackOil(Model):
         if self.verbose:
             print("[info] model compressibility (comp) was calculated.")
 
-    @_lru_cache(maxsize=None)
     def get_cell_trans(
         self,
         cell_id=None,
@@ -631,7 +630,6 @@ class BlackOil(Model):
             raise ValueError("compressibility type is unknown.")
         return self.RHS
 
-    @_lru_cache(maxsize=1)
     def get_alpha(
         self,
     ):
-- 
2.43.0


From eb20da22197ccf1365012509e6dcd2065f45263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 03/46] fix: allow setting a property in a single cell by id or
 coords

---
 reservoirflow/grids/regular_cartesian.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 8c8ae5a..cfab181 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -741,7 +741,9 @@ class RegularCartesian(Grid):
             msg = "coords are out of range."
             assert utils.helpers.isin(coords, cells_coords), msg
             if not self.unify and self.D <= 2:
-                icoords = tuple(c for c in coords[::-1] if c > 0)
+                coords_dict = dict(zip("xyz", coords))
+                fdir = self.get_fdir().replace("-", "")
+                icoords = tuple(coords_dict[dir] for dir in fdir[::-1])
                 assert len(icoords) == self.get_D(), "icoords is not compatible"
             else:
                 icoords = tuple(c for c in coords[::-1])
@@ -2416,7 +2418,8 @@ class RegularCartesian(Grid):
                     coords = self.get_cell_coords(id, True)
                 if coords is not None:
                     icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
+                    fshape = self.get_fshape(True, False)
+                    self.__props__[name].reshape(fshape)[icoords] = value
                     s = "cell coords " + str(coords)
         else:
             msg = (
-- 
2.43.0


From e9b8ca069144af39baaee3162a2a0c9a98faa530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 04/46] fix: do not share the initial rates array between
 models of the same grid

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 9c1f74d..c485d3f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -196,7 +196,7 @@ class BlackOil(Model):
     def __get_arrays(self) -> tuple:
         ones = self.grid.get_ones(True, False, False)[np.newaxis]
         pressures = ones * np.nan
-        rates = self.grid.get_zeros(True, False, False)[np.newaxis]
+        rates = self.grid.get_zeros(True, False, False)[np.newaxis].copy()
         return pressures, rates
 
     def get_init_arrays(self) -> tuple:
-- 
2.43.0


From fdc5edd79c3fc3b9eb5f4ea043dce8a1152c73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 05/46] fix: gravity terms in the vectorized flow equations for
 any geometry, wells, and boundaries

---
 reservoirflow/solutions/numerical/fdm.py | 25 ++++++------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..2670898 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -500,23 +500,13 @@ class FDM(Solution):
         return self.d_
 
     def __update_z(self):
-        """_summary_"""
-        # ToDo
-        # ----
-        # - T for different geometries is still not ready.
-
-        # all 1D in x direction.
+        """Add gravity terms of all neighbor cells to vector (`d`)."""
         z = self.model.grid.z[self.model.grid.cells_id]
         if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
-            self.d_ += v.reshape(-1, 1)
+            T = self.model.get_cells_trans(False, self.sparse, True)
+            T_dz = T @ z - np.asarray(T.sum(axis=1)).flatten() * z
+            v = self.model.fluid.g * T_dz
+            self.d_[:] = self.d_ + v.reshape(-1, 1)
 
     def get_matrices_vect(self, threading=False):
         """_summary_
@@ -533,7 +523,6 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
         if self.tstep == 0 or not hasattr(self, "A_"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
@@ -555,7 +544,6 @@ class FDM(Solution):
             if self.model.wells[id]["constrain"] == "q":
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
-                update_z = True
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
@@ -587,8 +575,7 @@ class FDM(Solution):
                         self.tstep, id_b
                     ]
 
-        if update_z:
-            self.__update_z()
+        self.__update_z()
 
         return self.A_, self.d_
 
-- 
2.43.0


From 67d1bb28027ad19616f1787dd445ae2a245f8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 06/46] fix: rebuild well and boundary terms of the vectorized
 equations at every timestep

---
 reservoirflow/solutions/numerical/fdm.py | 44 +++++++-----------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2670898..17e394b 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -7,8 +7,6 @@ Finite Difference Method (FDM) class.
 
 import time
 import warnings
-from collections import defaultdict
-
 
 import numpy as np
 import scipy.linalg as sl
@@ -91,7 +89,6 @@ class FDM(Solution):
         dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]
         return trans * ((cell_n_p - cell_p) - (self.model.fluid.g * dz))
 
-    @_lru_cache(maxsize=None)
     def __calc_b_term(
         self,
         cell_id,
@@ -526,18 +523,10 @@ class FDM(Solution):
         if self.tstep == 0 or not hasattr(self, "A_"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
-            self.resolve = defaultdict(lambda: False)
-            self.__init_A()
-            self.bdict_v = {}
-            for id_b in self.model.bdict_update:
-                ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
-                p = eval(f"sym.Symbol('p{id}')")
-                b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
-                self.bdict_v[id_b] = (v0, v1, id)
-                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
-                # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
+            self.A_init = self.__init_A()
 
+        # wells and boundaries may change between timesteps.
+        self.A_ = self.A_init.copy()
         self.__init_d()
 
         for id in self.model.wells.keys():
@@ -545,22 +534,10 @@ class FDM(Solution):
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
             elif self.model.wells[id]["constrain"] == "pwf":
-                p = eval(f"sym.Symbol('p{id}')")
-                w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
-                self.d_[self.model.cells_i_dict[id], 0] -= v0
-                if not self.resolve[id]:
-                    self.A_[
-                        self.model.cells_i_dict[id], self.model.cells_i_dict[id]
-                    ] += v1
-                    self.resolve[id] = True
+                i = self.model.cells_i_dict[id]
+                muB = self.model.fluid.B * self.model.fluid.mu
+                self.d_[i, 0] -= self.__calc_w_term(id, 0.0)
+                self.A_[i, i] -= self.model.wells[id]["G"] / muB
             else:
                 pass  # no constrain
 
@@ -568,8 +545,11 @@ class FDM(Solution):
             id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
             if len(id) > 0:
                 id = id[0]
-                if self.model.bdict[id_b][0] == "pressure":
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
+                if id_b in self.model.bdict_update:
+                    i = self.model.cells_i_dict[id]
+                    T = self.model.get_cell_trans(id_b, None, False)[id]
+                    self.d_[i, 0] -= self.__calc_b_term(id, id_b, 0.0, T)
+                    self.A_[i, i] -= T * 2
                 else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
                     self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
                         self.tstep, id_b
-- 
2.43.0


From 1f083d22966067b529c9053cdce0d9258ed620bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 07/46] fix: use the selected iterative solver when a timestep
 is resolved

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 17e394b..c0d7d2b 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -737,7 +737,7 @@ class FDM(Solution):
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
                 self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
+                self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
-- 
2.43.0


From 212f3b00896e7f366f0ec983a687eb4dc6648e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 08/46] fix: restore the specified rate when a well switches
 back from pwf to q

---
 reservoirflow/solutions/numerical/fdm.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index c0d7d2b..598ab2a 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -609,13 +609,20 @@ class FDM(Solution):
             else:
                 pwf_est = self.model.wells[id]["pwf"]
 
-            if pwf_est > self.model.wells[id]["pwf_sp"]:
+            constrain = self.model.wells[id]["constrain"]
+            pwf_tol = 0.0
+            if constrain == "pwf":
+                # avoid switching back and forth due to round-off errors.
+                pwf_tol = 1e-9 * abs(self.pressures[self.tstep, id])
+
+            if pwf_est > self.model.wells[id]["pwf_sp"] + pwf_tol:
+                if constrain == "pwf":
+                    # the specified rate can be achieved again.
+                    self.model.wells[id]["q"] = self.model.wells[id]["q_sp"]
+                    resolve = True
                 self.model.wells[id]["constrain"] = "q"
             else:
-                if (
-                    pwf_est < self.model.wells[id]["pwf_sp"]
-                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
-                ):
+                if pwf_est < self.model.wells[id]["pwf_sp"] and constrain == "q":
                     resolve = True
 
                 self.model.wells[id]["constrain"] = "pwf"
@@ -736,6 +743,8 @@ class FDM(Solution):
             if resolve:
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
+                self.As = self.As[: self.tstep]
+                self.ds = self.ds[: self.tstep]
                 self.tstep -= 1
                 self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
-- 
2.43.0


From 75314d7f428299d88304a692d3edf5a94abd3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 09/46] fix: update well and boundary terms of the symbolic
 equations at every timestep

---
 reservoirflow/solutions/numerical/fdm.py | 56 +++++++++++-------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 598ab2a..b3a639f 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -251,7 +251,7 @@ class FDM(Solution):
         # )
         cell_p = eval(f"sym.Symbol('p{cell_id}')")
 
-        if cell_id not in self.model.cells_terms:
+        if self.tstep == 0 or cell_id not in self.model.cells_terms:
             assert (
                 cell_id in self.model.grid.cells_id
             ), f"id is out of range {self.model.grid.cells_id}."
@@ -259,8 +259,9 @@ class FDM(Solution):
                 id=cell_id, boundary=False, fmt="array"
             )
             boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
-            # f_terms: flow terms, a_terms: accumulation terms
-            terms = {"f_terms": [], "a_term": 0}
+            # f_terms: flow terms between cells, b_terms: boundary terms,
+            # w_terms: well terms, a_terms: accumulation terms
+            terms = {"f_terms": [], "b_terms": [], "w_terms": [], "a_term": 0}
             T = self.model.get_cell_trans(cell_id, None, True)
             if self.model.verbose:
                 print(f"[info] cell id: {cell_id}")
@@ -273,40 +274,35 @@ class FDM(Solution):
                 if self.model.verbose:
                     print(f"[info] Neighbor terms: {n_term}")
 
-            for cell_b_id in boundaries:
-                b_term = self.__calc_b_term(cell_id, cell_b_id, cell_p, T[cell_b_id])
-                terms["f_terms"].append(b_term)
-                if self.model.verbose:
-                    print(f"[info] Boundary terms: {b_term}")
+            self.model.cells_terms[cell_id] = terms
 
-            if cell_id in self.model.wells.keys():
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                terms["f_terms"].append(w_term)
-                if self.model.verbose:
-                    print(f"[info] Well terms: {w_term}")
+        terms = self.model.cells_terms[cell_id]
 
-            terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        # boundaries, wells, and pressures may change between timesteps.
+        terms["b_terms"] = []
+        for cell_b_id in self.model.grid.get_cell_boundaries(id=cell_id, fmt="array"):
+            T_b = self.model.get_cell_trans(cell_b_id, None, False)[cell_id]
+            b_term = self.__calc_b_term(cell_id, cell_b_id, cell_p, T_b)
+            terms["b_terms"].append(b_term)
             if self.model.verbose:
-                print("[info] Accumulation term:", terms["a_term"])
+                print(f"[info] Boundary terms: {b_term}")
 
-            self.model.cells_terms[cell_id] = terms
+        terms["w_terms"] = []
+        if cell_id in self.model.wells.keys():
+            w_term = self.__calc_w_term(cell_id, cell_p)
+            terms["w_terms"].append(w_term)
             if self.model.verbose:
-                print("[info] terms:", terms)
+                print(f"[info] Well terms: {w_term}")
 
-        else:
-            terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                if self.model.verbose:
-                    print(f"[info] Well terms (updated): {w_term}")
-                terms["f_terms"][-1] = w_term
-            if self.model.comp_type == "compressible":
-                terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
+        if self.model.verbose:
+            print("[info] Accumulation term:", terms["a_term"])
+            print("[info] terms:", terms)
 
-        cell_eq = sym.Eq(sum(terms["f_terms"]), terms["a_term"])
+        cell_eq = sym.Eq(
+            sum(terms["f_terms"] + terms["b_terms"] + terms["w_terms"]),
+            terms["a_term"],
+        )
         cell_eq = self.__simplify_eq(cell_eq)
         cell_eq_lhs = cell_eq.lhs.as_coefficients_dict()
 
-- 
2.43.0


From 252a3ff354f15ab6fe7a9b0aeb5e48ca5a0a6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 10/46] fix: build symbolic equations when the previous cell
 pressure is zero

---
 reservoirflow/solutions/numerical/fdm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index b3a639f..d97ff07 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -208,12 +208,10 @@ class FDM(Solution):
                 raise ValueError("Initial pressure (pi) must be specified")
 
     def __simplify_eq(self, cell_eq):
-        if (
-            cell_eq.lhs.as_coefficients_dict()[1] != 0.0
-            or cell_eq.rhs.as_coefficients_dict()[1] != 0.0
-        ):
-            cell_eq = cell_eq.simplify()
-        return cell_eq
+        # all pressure terms in lhs and all constants in rhs.
+        eq = sym.expand(cell_eq.lhs - cell_eq.rhs)
+        const, lhs = eq.as_independent(*eq.free_symbols, as_Add=True)
+        return sym.Eq(lhs, -const, evaluate=False)
 
     def get_cell_eq(self, cell_id):
         """Return cell equation.
-- 
2.43.0


From 9370c9ad7b5558aa4d8ca3a77628d6693175f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 11/46] fix: threaded assembly of a single cell and exceptions
 in threads

---
 reservoirflow/solutions/numerical/fdm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index d97ff07..8ae52f9 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -312,7 +312,7 @@ class FDM(Solution):
     def get_cells_eq(self, threading=False):
         """Return flow equations for all internal cells."""
         cells_eq = {}
-        n_threads = self.model.n // 2
+        n_threads = max(1, int(self.model.n) // 2)
         if threading:
             from concurrent.futures import ThreadPoolExecutor
 
@@ -402,7 +402,8 @@ class FDM(Solution):
             with ThreadPoolExecutor(self.model.n) as executor:
                 # from concurrent.futures import ProcessPoolExecutor
                 # with ProcessPoolExecutor(2) as executor:
-                executor.map(self.__update_matrices_symb, self.model.cells_id)
+                # list is used to raise exceptions (if any).
+                list(executor.map(self.__update_matrices_symb, self.model.cells_id))
         else:
             for cell_id in self.model.cells_id:
                 self.__update_matrices_symb(cell_id)
-- 
2.43.0


From 4dd89b6c3f4b015253164ac174e6739ff562773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 12/46] fix: keep the number of steps in sync with timesteps
 solved by solve()

---
 reservoirflow/solutions/numerical/fdm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8ae52f9..52f81f9 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -725,6 +725,7 @@ class FDM(Solution):
 
         if update:
             self.tstep += 1
+            self.nsteps = self.tstep + 1
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
@@ -741,6 +742,7 @@ class FDM(Solution):
                 self.As = self.As[: self.tstep]
                 self.ds = self.ds[: self.tstep]
                 self.tstep -= 1
+                self.nsteps = self.tstep + 1
                 self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
@@ -787,7 +789,6 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
         if self.model.verbose:
             self.model.verbose = False
-- 
2.43.0


From 845061bb8940032a5b652d1a898b4bdadfa56210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 13/46] fix: do not accept non-finite pressures as a solution

---
 reservoirflow/solutions/numerical/fdm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 52f81f9..80ebc45 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -723,6 +723,8 @@ class FDM(Solution):
         else:
             pressures = sl.solve(A, d).flatten()
 
+        assert np.isfinite(pressures).all(), "unsuccessful solution"
+
         if update:
             self.tstep += 1
             self.nsteps = self.tstep + 1
-- 
2.43.0


From b52607403aad21f6853d8b0f9af0c517d0efba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 14/46] fix: apply boundary conditions for all synonyms,
 gradients, corner cells, and any call order

---
 reservoirflow/models/black_oil.py        | 104 +++++++++++++----------
 reservoirflow/solutions/numerical/fdm.py |  33 +++----
 2 files changed, 72 insertions(+), 65 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c485d3f..beebd38 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -225,16 +225,6 @@ class BlackOil(Model):
             else:
                 return self.solution.pressures[tstep, cell_id]
 
-    def __set_pressure(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_pressures[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.pressures[:, cell_id] = value
-            else:
-                self.solution.pressures[tstep, cell_id] = value
-
     def __get_rate(self, tstep, cell_id):
         if tstep == 0:
             return self.init_rates[tstep, cell_id]
@@ -245,16 +235,6 @@ class BlackOil(Model):
             else:
                 return self.solution.rates[tstep, cell_id]
 
-    def __set_rate(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_rates[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.rates[:, cell_id] = value
-            else:
-                self.solution.rates[tstep, cell_id] = value
-
     def __calc_comp(self):
         """Calculates total compressibility."""
         if self.fluid.comp_type == self.grid.comp_type == "incompressible":
@@ -549,30 +529,65 @@ class BlackOil(Model):
         # ToDo
         # ----
         # - d is taken at x direction for gradient.
-        cond = cond.lower()
-        if cond in ["rate", "q"]:
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = v
-            self.__set_rate(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["pressure", "press", "p"]:
-            # newtest
-            # self.pressures[self.get_tstep(), cell_b_id] = v
-            self.__set_pressure(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["gradient", "grad", "g"]:
-            ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
-            cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
-            dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
+        cond = self.__get_cond(cond)
+        boundaries = self.grid.get_boundaries("id", "set")
+        assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
+        self.bdict[cell_b_id] = (cond, v)
+        self.bdict_update = [
+            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
+        ]
+        if cond == "pressure":
+            self.__set_init_values(cell_b_id, v, 0.0)
         else:
-            raise ValueError(f"cond argument {cond} is unknown.")
+            self.__set_init_values(cell_b_id, np.nan, self.get_boundary_rate(cell_b_id))
 
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
+    def __get_cond(self, cond: str):
+        if cond.lower() in ["rate", "q"]:
+            return "rate"
+        elif cond.lower() in ["pressure", "press", "p"]:
+            return "pressure"
+        elif cond.lower() in ["gradient", "grad", "g"]:
+            return "gradient"
+        else:
+            raise ValueError(f"cond argument {cond} is unknown.")
+
+    def __set_init_values(self, cell_id, pressure, rate):
+        """Set initial values in the model and in solutions at timestep 0."""
+        self.init_pressures[0, cell_id] = pressure
+        self.init_rates[0, cell_id] = rate
+        for solution in self.solutions.values():
+            if solution.tstep == 0:
+                solution.pressures[0, cell_id] = pressure
+                solution.rates[0, cell_id] = rate
+
+    def get_boundary_rate(self, cell_b_id: int, p: float = None):
+        """Returns flow rate at a boundary cell.
+
+        Parameters
+        ----------
+        cell_b_id : int
+            boundary cell id based on natural order as int.
+        p : float, optional
+            pressure value or symbol of the cell next to the boundary.
+            Only required in case of constant pressure.
+        """
+        cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
+        dir = [dir for dir in cell_n if len(cell_n[dir]) > 0]
+        if cell_b_id not in self.bdict or len(dir) == 0:
+            return 0.0  # no flow or not connected to the reservoir (e.g. corners).
+        cell_id = cell_n[dir[0]][0]
+        cond, v = self.bdict[cell_b_id]
+        if cond == "rate":
+            return v
+        T = self.get_cell_trans(cell_b_id, None, False)[cell_id]
+        if cond == "pressure":
+            dz = self.grid.z[cell_b_id] - self.grid.z[cell_id]
+            return T * 2 * ((v - p) - (self.fluid.g * dz))
+        return T * self.grid.d[dir[0]][cell_id] * v
+
     def set_boundaries(self, bdict: dict):
         """Set boundary conditions using a dictionary.
 
@@ -583,17 +598,18 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
         boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
+            self.__get_cond(bdict[cell_id][0])
+        for cell_id in self.bdict:
+            self.__set_init_values(cell_id, np.nan, 0.0)
+        self.bdict = {}
+        self.bdict_update = []
+        for cell_id in bdict:
             cond, v = bdict[cell_id]
             self.set_boundary(cell_id, cond, v)
 
-        self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
-        ]
-
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
 
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 80ebc45..2659767 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -128,15 +128,7 @@ class FDM(Solution):
         #     b_term = self.rates[self.tstep, cell_b_id]
 
         # implementation 2:
-        if cell_b_id in self.model.bdict:
-            cond, v = self.model.bdict[cell_b_id]
-            if cond.lower() in ["pressure", "press", "p"]:
-                dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
-                return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
-            else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
-                return v
-        else:
-            return 0.0
+        return self.model.get_boundary_rate(cell_b_id, cell_p)
 
     def __calc_w_term(
         self,
@@ -540,15 +532,11 @@ class FDM(Solution):
             id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
             if len(id) > 0:
                 id = id[0]
+                i = self.model.cells_i_dict[id]
+                T = self.model.get_cell_trans(id_b, None, False)[id]
+                self.d_[i, 0] -= self.__calc_b_term(id, id_b, 0.0, T)
                 if id_b in self.model.bdict_update:
-                    i = self.model.cells_i_dict[id]
-                    T = self.model.get_cell_trans(id_b, None, False)[id]
-                    self.d_[i, 0] -= self.__calc_b_term(id, id_b, 0.0, T)
                     self.A_[i, i] -= T * 2
-                else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-                        self.tstep, id_b
-                    ]
 
         self.__update_z()
 
@@ -638,11 +626,14 @@ class FDM(Solution):
         return False
 
     def __update_boundaries(self):
-        for id_b in self.model.bdict_update:
-            ((id_n, T),) = self.model.get_cell_trans(id_b, None, False).items()
-            p_n = self.pressures[self.tstep, id_n]
-            b_terms = self.__calc_b_term(id_n, id_b, p_n, T)
-            self.rates[self.tstep, id_b] = b_terms
+        self.pressures[self.tstep, self.model.boundaries_id] = np.nan
+        self.rates[self.tstep, self.model.boundaries_id] = 0.0
+        for id_b in self.model.bdict.keys():
+            if id_b in self.model.bdict_update:
+                self.pressures[self.tstep, id_b] = self.model.bdict[id_b][1]
+            for id_n, T in self.model.get_cell_trans(id_b, None, False).items():
+                p_n = self.pressures[self.tstep, id_n]
+                self.rates[self.tstep, id_b] = self.__calc_b_term(id_n, id_b, p_n, T)
 
     def __print_arrays(self, sparse):
         if sparse:
-- 
2.43.0


From 93daa5421cb85ae9b07b43c18fc1f80cbb7f7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 15/46] fix: material balance error when the net flow rate is
 zero

---
 reservoirflow/solutions/numerical/fdm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2659767..dc6a880 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -844,13 +844,14 @@ class FDM(Solution):
                 print(f"[info]    - Error: {self.error}")
         elif self.model.comp_type == "compressible":
             # error over a timestep:
-            self.error = (
-                self.model.RHS[self.model.grid.cells_id]
-                * (
-                    self.pressures[self.tstep, self.model.grid.cells_id]
-                    - self.pressures[self.tstep - 1, self.model.grid.cells_id]
-                )
-            ).sum() / self.rates[self.tstep].sum()
+            RHS = self.model.RHS[self.model.grid.cells_id]
+            p = self.pressures[self.tstep, self.model.grid.cells_id]
+            p_old = self.pressures[self.tstep - 1, self.model.grid.cells_id]
+            rates = self.rates[self.tstep]
+            # net rate can be zero (e.g. production equals injection):
+            min_rate = 1e-9 * abs(rates).sum() + 1e-10 * abs(RHS * p).sum()
+            net_rate = max(abs(rates.sum()), min_rate, np.finfo("double").tiny)
+            self.error = abs((RHS * (p - p_old)).sum() - rates.sum()) / net_rate
             # error from initial timestep to current timestep: (less accurate)
             self.cumulative_error = (
                 self.model.RHS[self.model.grid.cells_id]
@@ -860,7 +861,6 @@ class FDM(Solution):
                     - self.pressures[0, self.model.grid.cells_id]
                 )
             ).sum() / (self.model.dt * self.tstep * self.rates.sum())
-            self.error = abs(self.error - 1)
             if self.model.verbose:
                 print(f"[info]    - Incremental Error: {self.error}")
                 print(f"[info]    -  Cumulative Error: {self.cumulative_error}")
-- 
2.43.0


From e6046a7b76830820886edd75b99800b74f9ac825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 16/46] fix: set wells from well objects and reject invalid
 wells without changing the model

---
 reservoirflow/models/black_oil.py  | 79 +++++++++++++++---------------
 reservoirflow/wells/single_cell.py |  8 +--
 2 files changed, 44 insertions(+), 43 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index beebd38..82560f2 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -338,13 +338,15 @@ class BlackOil(Model):
     # Wells:
     # -------------------------------------------------------------------------
 
-    def __calc_well_G(self, cell_id=None):
+    def __calc_well_G(self, cell_id, well):
         """Calculates well Geometry factor (G).
 
         Parameters
         ----------
-        id : int, optional
+        id : int
             cell id based on natural order as int.
+        well : dict
+            well properties.
 
         Returns
         -------
@@ -373,10 +375,10 @@ class BlackOil(Model):
             * self.grid.d["z"][cell_id]
         )
 
-        G_d = np.log(self.wells[cell_id]["r_eq"] / self.wells[cell_id]["r"] * 12)
+        G_d = np.log(well["r_eq"] / well["r"] * 12)
 
-        if "s" in self.wells[cell_id].keys():
-            G_d += self.wells[cell_id]["s"]
+        if "s" in well.keys():
+            G_d += well["s"]
 
         return G_n / G_d
 
@@ -462,45 +464,44 @@ class BlackOil(Model):
             assert (
                 cell_id in self.grid.cells_id
             ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
+            new_well = {}
+            q, pwf = getattr(well, "q", None), None
+            r, s = getattr(well, "r", None), getattr(well, "s", None)
         else:
             assert cell_id is not None, "id must be defined"
             assert (
                 cell_id in self.grid.cells_id
             ), "a well must be placed within the reservoir"
-            if cell_id not in self.wells:
-                self.wells[cell_id] = {}
-            if q is not None:
-                self.wells[cell_id]["q"] = q
-                self.wells[cell_id]["q_sp"] = q
-                self.wells[cell_id]["constrain"] = "q"
-            if pwf is not None:
-                self.wells[cell_id]["pwf"] = pwf
-                self.wells[cell_id]["pwf_sp"] = pwf
-                if "q" not in self.wells[cell_id].keys():
-                    self.wells[cell_id]["constrain"] = "pwf"
-                # newtest
-                # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
-            if "constrain" not in self.wells[cell_id].keys():
-                self.wells[cell_id]["constrain"] = None
-            if r is not None:
-                self.wells[cell_id]["r"] = r
-            if s is not None:
-                self.wells[cell_id]["s"] = s
-
-        self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
-        self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
-        if "pwf" not in self.wells[cell_id].keys():
-            self.wells[cell_id]["pwf"] = 0
-            self.wells[cell_id]["pwf_sp"] = 0
-            # newtest
-            # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+            new_well = dict(self.wells.get(cell_id, {}))
+
+        if q is not None:
+            new_well["q"] = q
+            new_well["q_sp"] = q
+            new_well["constrain"] = "q"
+        if pwf is not None:
+            new_well["pwf"] = pwf
+            new_well["pwf_sp"] = pwf
+            if "q" not in new_well.keys():
+                new_well["constrain"] = "pwf"
+        if "constrain" not in new_well.keys():
+            new_well["constrain"] = None
+        if r is not None:
+            new_well["r"] = r
+        if s is not None:
+            new_well["s"] = s
+
+        new_well["r_eq"] = self.__calc_well_r_eq(cell_id)
+        new_well["G"] = self.__calc_well_G(cell_id, new_well)
+        if "pwf" not in new_well.keys():
+            new_well["pwf"] = 0
+            new_well["pwf_sp"] = 0
+
+        # the well is added only if all calculations were successful.
+        self.wells[cell_id] = new_well
+        if len(self.w_pressures[cell_id]) == 0:
+            tstep = self.__get_tstep()
+            self.w_pressures[cell_id] = [np.nan] * tstep
+            self.w_pressures[cell_id].append(self.__get_pressure(tstep, cell_id))
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
diff --git a/reservoirflow/wells/single_cell.py b/reservoirflow/wells/single_cell.py
index d512343..423de26 100644
--- a/reservoirflow/wells/single_cell.py
+++ b/reservoirflow/wells/single_cell.py
@@ -31,13 +31,13 @@ class SingleCell(Well):
         self.constrain = constrain
 
     def set_props(self, cell_id=None, q=None, s=None, r=None, constrain=None):
-        if cell_id:
+        if cell_id is not None:
             self.set_cell_id(cell_id)
-        if q:
+        if q is not None:
             self.set_q(q)
-        if s:
+        if s is not None:
             self.set_s(s)
-        if r:
+        if r is not None:
             self.set_r(r)
         self.set_constrain(constrain)
 
-- 
2.43.0


From aca1a4689e29c67c187ee548dbcc252238c027cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 17/46] fix: pressures of the 1D single phase analytical
 solution have one row for each timestep

---
 reservoirflow/solutions/analytical/d1p1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 804a591..de158ff 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -36,7 +36,8 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
+        alpha = self.model.get_alpha()[self.model.cells_id[0]]
+        tD = alpha * t / (L**2)
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
@@ -145,7 +146,8 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
+        alpha = self.model.get_alpha()[self.model.cells_id[0]]
+        tD = alpha * t / (L**2)
         tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
 
         # Dependent variable: p
-- 
2.43.0


From 6365db72edab03391dfc9c19ea30664bb819c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 18/46] fix: one time value for each timestep when dt is
 fractional

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 82560f2..f6e967f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -791,7 +791,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From 6163f10912b6a6946950c3972ed8f2d7a3ff40bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 19/46] fix: keep well pressures separately for each solution
 of a model

---
 reservoirflow/models/black_oil.py        | 15 +++++++++------
 reservoirflow/solutions/numerical/fdm.py |  2 +-
 reservoirflow/solutions/solution.py      | 16 ++++++++++++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index f6e967f..a672750 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -4,7 +4,6 @@ BlackOil
 """
 
 import warnings
-from collections import defaultdict
 from datetime import date
 
 import matplotlib.pyplot as plt
@@ -158,7 +157,6 @@ class BlackOil(Model):
             self.start_date = start_date
 
         self.wells = {}
-        self.w_pressures = defaultdict(list)
         if well is not None:
             self.set_well(well)
 
@@ -498,14 +496,19 @@ class BlackOil(Model):
 
         # the well is added only if all calculations were successful.
         self.wells[cell_id] = new_well
-        if len(self.w_pressures[cell_id]) == 0:
-            tstep = self.__get_tstep()
-            self.w_pressures[cell_id] = [np.nan] * tstep
-            self.w_pressures[cell_id].append(self.__get_pressure(tstep, cell_id))
+        for solution in self.solutions.values():
+            solution.add_well(cell_id)
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
 
+    @property
+    def w_pressures(self):
+        """Wells pressures of the current solution."""
+        if self.solution is None:
+            return {id: [self.__get_pressure(0, id)] for id in self.wells}
+        return self.solution.w_pressures
+
     # -------------------------------------------------------------------------
     # Boundaries:
     # -------------------------------------------------------------------------
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index dc6a880..ae2002d 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -621,7 +621,7 @@ class FDM(Solution):
                 tstep_w_pressures[id] = pwf_est
 
         for id in self.model.wells.keys():
-            self.model.w_pressures[id].append(tstep_w_pressures[id])
+            self.w_pressures[id].append(tstep_w_pressures[id])
 
         return False
 
diff --git a/reservoirflow/solutions/solution.py b/reservoirflow/solutions/solution.py
index 7da4fa0..5b8fff7 100644
--- a/reservoirflow/solutions/solution.py
+++ b/reservoirflow/solutions/solution.py
@@ -36,6 +36,22 @@ class Solution(ABC):
         self.nsteps = 1
         self.tstep = 0
         self.ctime = 0
+        self.w_pressures = {}
+        for cell_id in self.model.wells:
+            self.add_well(cell_id)
+
+    def add_well(self, cell_id):
+        """Add a well to wells pressures.
+
+        Parameters
+        ----------
+        cell_id : int
+            cell id of the well.
+        """
+        if cell_id not in self.w_pressures:
+            w_pressures = [float("nan")] * self.tstep
+            w_pressures.append(self.pressures[self.tstep, cell_id])
+            self.w_pressures[cell_id] = w_pressures
 
     @abstractmethod
     def solve(self):
-- 
2.43.0


From d78dce8d3ae7fd02cef9021e07fb9e8ffd4a3577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 20/46] fix: plot pressures and rates of the current solution

---
 reservoirflow/models/black_oil.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index a672750..0a34c2d 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1104,10 +1104,10 @@ class BlackOil(Model):
             tstep = self.__get_tstep()
 
         if id is not None:
-            exec(f"plt.plot(self.{prop}[:, id].flatten())")
+            plt.plot(getattr(self.solution, prop)[:, id].flatten())
             plt.xlabel("Days")
         elif tstep is not None:
-            exec(f"plt.plot(self.{prop}[tstep, :].flatten())")
+            plt.plot(getattr(self.solution, prop)[tstep, :].flatten())
             plt.xlabel("Grid (id)")
             boundary = True
             x_skip = 5
@@ -1122,7 +1122,8 @@ class BlackOil(Model):
         if tstep is None:
             tstep = self.__get_tstep()
         cells_id = self.grid.get_cells_id(False, False, "list")
-        exec(f"plt.imshow(self.{property}[tstep][cells_id][np.newaxis, :])")
+        values = getattr(self.solution, property)
+        plt.imshow(values[tstep][cells_id][np.newaxis, :])
         plt.colorbar(label=f"{property.capitalize()} ({self.units[property[:-1]]})")
         plt.title(f"{property.capitalize()} Distribution")
         plt.yticks([])
-- 
2.43.0


From a7e60443cd4e4a00c79f27cb757ffe5db5acb6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 21/46] fix: stop the profiler when a profiled function raises
 an exception

---
 reservoirflow/utils/profme.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/utils/profme.py b/reservoirflow/utils/profme.py
index bf0435c..82b14a2 100644
--- a/reservoirflow/utils/profme.py
+++ b/reservoirflow/utils/profme.py
@@ -64,8 +64,10 @@ def cProfiler(sort_stats="tottime", print_output=True, save_output=False):
             pr = cProfile.Profile()
             s = io.StringIO()
             pr.enable()
-            _func = func(*args, **kwargs)
-            pr.disable()
+            try:
+                _func = func(*args, **kwargs)
+            finally:
+                pr.disable()
             stats = pstats.Stats(pr, stream=s).sort_stats(sort_stats)
             stats.print_stats()
             result = s.getvalue()
-- 
2.43.0


From 543512e33e482eb65b7167e9ec9dde35848413b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 22/46] fix: update property attributes of the grid when
 set_prop is used

---
 reservoirflow/grids/regular_cartesian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index cfab181..ba008f0 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2412,6 +2412,10 @@ class RegularCartesian(Grid):
         if name in self.__props__.keys():
             if id is None and coords is None:
                 self.__props__[name] = self.get_ones(True, False, False) * value
+                if name in ["kx", "ky", "kz"]:
+                    self.k[name[1]] = self.__props__[name]
+                if name != "comp":
+                    setattr(self, name, self.__props__[name])
                 s = "all cells"
             else:
                 if id is not None:
-- 
2.43.0


From 2c2f1d8c49230050d6da3544973a4e37373575f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 23/46] fix: consider boundary cells when permeability is
 checked to be isotropic

---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ba008f0..49927c1 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2716,7 +2716,7 @@ class RegularCartesian(Grid):
         props = ["kx", "ky", "kz"]
         props = [name for name in props if self.__props__[name] is not None]
         for name in props:
-            prop = self.get_prop(name, False, False)
+            prop = self.get_prop(name, True, False)
             if not np.all(prop == prop[0]):
                 return False
         return True
-- 
2.43.0


From a2ec9aa2b316cdb06992585cbced24d4af360261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 24/46] fix: solver minres can be used

---
 reservoirflow/solutions/numerical/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/solvers.py b/reservoirflow/solutions/numerical/solvers.py
index 23d31d4..fe9402e 100644
--- a/reservoirflow/solutions/numerical/solvers.py
+++ b/reservoirflow/solutions/numerical/solvers.py
@@ -77,7 +77,11 @@ def get_isolver(name):
     elif name == "lgmres":
         solver = ssl.lgmres
     elif name == "minres":
-        solver = ssl.minres
+
+        def solver(A, d, atol=0, **kwargs):
+            # argument atol is not available in minres.
+            return ssl.minres(A, d, **kwargs)
+
         warnings.warn("option isolver='minres' is not recommended.")
     elif name == "qmr":
         solver = ssl.qmr
-- 
2.43.0


From 1700e48bc27c15fdbc5e488d6de5e70a28698274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 25/46] fix: limit switching of wells within a timestep when
 the solver is not exact

---
 reservoirflow/solutions/numerical/fdm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index ae2002d..c1a6c7d 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -51,6 +51,8 @@ class FDM(Solution):
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
+        # Switches of wells (pwf to q) within a timestep: {(tstep, id): n}
+        self.w_switches = {}
 
     # -------------------------------------------------------------------------
     # Flow Equations: symbolic
@@ -597,10 +599,15 @@ class FDM(Solution):
             if constrain == "pwf":
                 # avoid switching back and forth due to round-off errors.
                 pwf_tol = 1e-9 * abs(self.pressures[self.tstep, id])
+                if self.w_switches.get((self.tstep, id), 0) >= 10:
+                    # or due to the tolerance of an iterative solver.
+                    pwf_tol = np.inf
 
             if pwf_est > self.model.wells[id]["pwf_sp"] + pwf_tol:
                 if constrain == "pwf":
                     # the specified rate can be achieved again.
+                    n_switches = self.w_switches.get((self.tstep, id), 0)
+                    self.w_switches[self.tstep, id] = n_switches + 1
                     self.model.wells[id]["q"] = self.model.wells[id]["q_sp"]
                     resolve = True
                 self.model.wells[id]["constrain"] = "q"
-- 
2.43.0


From 60b5f4cc8954585d6edf01b8297c64b40d278af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:41 +0000
Subject: [PATCH 26/46] fix: use permeability at the flow direction of 1D grids
 for the diffusivity

---
 reservoirflow/models/black_oil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 0a34c2d..00d4584 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -653,7 +653,9 @@ class BlackOil(Model):
     def get_alpha(
         self,
     ):
-        lhs_f = (self.factors["transmissibility conversion"] * self.grid.kx) / (
+        fdir = self.grid.get_fdir()
+        k = self.grid.k[fdir] if fdir in ["y", "z"] else self.grid.kx
+        lhs_f = (self.factors["transmissibility conversion"] * k) / (
             self.fluid.mu * self.fluid.B
         )
         rhs_f = (self.grid.phi * self.comp) / (
-- 
2.43.0


From d25dcd5fc67ea43c729468d1e98bdba1e3ffb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 27/46] fix: analytical solution of a reservoir at uniform
 pressure

---
 reservoirflow/solutions/analytical/d1p1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index de158ff..b0e54f1 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -44,6 +44,8 @@ class D1P1(Solution):
         p = self.pressures
         input_range = [0, 1]
         input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
+        if input_scaler.vmin == input_scaler.vmax:
+            input_scaler.vmax = input_scaler.vmin + 1  # uniform pressure
         pDi = input_scaler.transform(self.model.pi)
         pD0 = input_scaler.transform(p[0, 0])
         pDn = input_scaler.transform(p[0, -1])
@@ -154,6 +156,8 @@ class D1P1(Solution):
         p = self.pressures
         input_range = [0, 1]
         input_scaler = scalers.MinMax(input_range).fit(p, axis=None)
+        if input_scaler.vmin == input_scaler.vmax:
+            input_scaler.vmax = input_scaler.vmin + 1  # uniform pressure
         pDi = input_scaler.transform(self.model.pi)
         pD0 = input_scaler.transform(p[0, 0])
         pDn = input_scaler.transform(p[0, -1])
-- 
2.43.0


From efe89877c44bea0ae6a0e0629953f5f8087cae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 28/46] fix: dates of timesteps for any dt and for time in
 seconds

---
 reservoirflow/models/black_oil.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 00d4584..439870b 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -697,11 +697,9 @@ class BlackOil(Model):
             date_str = " [d.m.y]"
         else:
             date_str = ""
-        date_series = pd.date_range(
-            start=self.start_date,
-            periods=self.__get_tstep() + 1,
-            freq=str(self.dt) + "D",
-        ).strftime("%d.%m.%Y")
+        unit = "s" if self.units["time"] == "sec" else "D"
+        time = pd.to_timedelta(self.__get_time_vector(), unit=unit)
+        date_series = (pd.Timestamp(self.start_date) + time).strftime("%d.%m.%Y")
         data = pd.Series(date_series, name="Date" + date_str)
         if melt:
             n_cells = self.grid.get_n(boundary)
-- 
2.43.0


From 29de550a88e671cc63361e1feff5a57f881f5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 29/46] fix: scale pressures when a boundary has a pressure
 only in some timesteps

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 439870b..fadf422 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -807,7 +807,7 @@ class BlackOil(Model):
     def __update_pressures_scaler(self, boundary):
         config = self.__get_scalers_config(boundary)
         pressures = self.get_df(columns=["cells_pressure"], **config).values
-        self.pressures_scaler.fit(pressures, axis=None)
+        self.pressures_scaler.fit(pressures[~np.isnan(pressures)], axis=None)
 
     def __update_rates_scaler(self, boundary):
         """Flow rates scaler
-- 
2.43.0


From 14de353f827b9ab50b392c42e1366c217c8a8dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 30/46] fix: keep the compressibility when an invalid value is
 rejected

---
 reservoirflow/fluids/fluid.py | 3 +--
 reservoirflow/grids/grid.py   | 3 +--
 reservoirflow/models/model.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/fluids/fluid.py b/reservoirflow/fluids/fluid.py
index b740c29..8fadb4c 100644
--- a/reservoirflow/fluids/fluid.py
+++ b/reservoirflow/fluids/fluid.py
@@ -54,14 +54,13 @@ class Fluid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/grids/grid.py b/reservoirflow/grids/grid.py
index c81ec02..b8a3565 100644
--- a/reservoirflow/grids/grid.py
+++ b/reservoirflow/grids/grid.py
@@ -80,14 +80,13 @@ class Grid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 6552f7e..873e350 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -65,14 +65,13 @@ class Model(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     def compile(
         self,
-- 
2.43.0


From aabc647b1ad5ef9b79ddb0fde8a98b405053db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 31/46] fix: grid order and cells index when a grid is used by
 several threads

---
 reservoirflow/grids/regular_cartesian.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 49927c1..97a6a02 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -402,7 +402,7 @@ class RegularCartesian(Grid):
             gird order as array.
         """
         if type == "natural":
-            self.order = np.arange(self.get_n(True))
+            order = np.arange(self.get_n(True))
         else:
             raise ValueError(
                 "Order type is not supported or unknown. "
@@ -410,17 +410,19 @@ class RegularCartesian(Grid):
             )
 
         if not boundary:
-            self.order = self.remove_boundaries(self.order, False, "both")
+            order = self.remove_boundaries(order, False, "both")
 
         if fshape:
             shape = self.get_fshape(boundary, False)
-            self.order = self.order.reshape(shape)
+            order = order.reshape(shape)
+
+        self.order = order
 
         if self.verbose:
             s1, s2 = utils.helpers.get_verbose_str(boundary, fshape)
             print(f"[info] order was computed ({s1} - {s2}).")
 
-        return self.order
+        return order
 
     @_lru_cache(maxsize=1)
     def get_ones(
@@ -540,19 +542,21 @@ class RegularCartesian(Grid):
             total number of cells.
         """
         n = self.get_n(boundary)
-        self.cells_i = np.arange(n)
+        cells_i = np.arange(n)
 
         if fshape:
             shape = self.get_fshape(boundary, False)
-            self.cells_i = self.cells_i.reshape(shape)
+            cells_i = cells_i.reshape(shape)
         else:
-            self.cells_i = utils.helpers.reformat(self.cells_i, fmt)
+            cells_i = utils.helpers.reformat(cells_i, fmt)
+
+        self.cells_i = cells_i
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
             print(f"[info] cells_i {s} for {self.n} was computed.")
 
-        return self.cells_i
+        return cells_i
 
     @_lru_cache(maxsize=None)
     def get_cell_id(
-- 
2.43.0


From 87f69077fe8f59015573af8081e82e2a17ba9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 32/46] fix: shapes and listings of a grid used by several
 threads

---
 reservoirflow/grids/regular_cartesian.py | 76 +++++++++++++-----------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 97a6a02..0eb1e24 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -211,15 +211,17 @@ class RegularCartesian(Grid):
                 self.nz_b = self.nz + 2
             else:
                 self.nz_b = self.nz
-            self.shape = (self.nx_b, self.ny_b, self.nz_b)
+            shape = (self.nx_b, self.ny_b, self.nz_b)
         else:
-            self.shape = (self.nx, self.ny, self.nz)
+            shape = (self.nx, self.ny, self.nz)
+
+        self.shape = shape
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] shape {s} is {self.shape}.")
+            print(f"[info] shape {s} is {shape}.")
 
-        return self.shape
+        return shape
 
     @_lru_cache(maxsize=2)
     def get_n(self, boundary: bool = True) -> int:
@@ -236,13 +238,13 @@ class RegularCartesian(Grid):
             total number of cells.
         """
         shape = self.get_shape(boundary)
-        self.n = np.prod(shape)
+        self.n = n = np.prod(shape)
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] n {s} is {self.n}.")
+            print(f"[info] n {s} is {n}.")
 
-        return self.n
+        return n
 
     @_lru_cache(maxsize=2)
     def get_n_max(self, boundary: bool = True):
@@ -259,13 +261,13 @@ class RegularCartesian(Grid):
             maximum number of grids as max(nx, ny, nz).
         """
         shape = self.get_shape(boundary)
-        self.n_max = max(shape)
+        self.n_max = n_max = max(shape)
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] n_max {s} is {self.n_max}.")
+            print(f"[info] n_max {s} is {n_max}.")
 
-        return self.n_max
+        return n_max
 
     @_lru_cache(maxsize=1)
     def get_fdir(self) -> str:
@@ -330,52 +332,54 @@ class RegularCartesian(Grid):
         nx, ny, nz = self.get_shape(boundary)
 
         if self.fdir == "xyz":
-            self.fshape = (nz, ny, nx)
+            fshape = (nz, ny, nx)
         else:
             if not self.unify:
                 if self.fdir == "-":
-                    self.fshape = (1,)
+                    fshape = (1,)
                 elif self.fdir == "x":
-                    self.fshape = (nx,)
+                    fshape = (nx,)
                 elif self.fdir == "y":
-                    self.fshape = (ny,)
+                    fshape = (ny,)
                 elif self.fdir == "z":
-                    self.fshape = (nz,)
+                    fshape = (nz,)
                 elif self.fdir == "xy":
-                    self.fshape = (ny, nx)
+                    fshape = (ny, nx)
                 elif self.fdir == "xz":
-                    self.fshape = (nz, nx)
+                    fshape = (nz, nx)
                 elif self.fdir == "yz":
-                    self.fshape = (nz, ny)
+                    fshape = (nz, ny)
                 else:
                     raise ValueError("unknown fdir value.")
             else:
                 if self.fdir == "-":
-                    self.fshape = (1, 1, 1)
+                    fshape = (1, 1, 1)
                 elif self.fdir == "x":
-                    self.fshape = (1, 1, nx)
+                    fshape = (1, 1, nx)
                 elif self.fdir == "y":
-                    self.fshape = (1, ny, 1)
+                    fshape = (1, ny, 1)
                 elif self.fdir == "z":
-                    self.fshape = (nz, 1, 1)
+                    fshape = (nz, 1, 1)
                 elif self.fdir == "xy":
-                    self.fshape = (1, ny, nx)
+                    fshape = (1, ny, nx)
                 elif self.fdir == "xz":
-                    self.fshape = (nz, 1, nx)
+                    fshape = (nz, 1, nx)
                 elif self.fdir == "yz":
-                    self.fshape = (nz, ny, 1)
+                    fshape = (nz, ny, 1)
                 else:
                     raise ValueError("unknown fdir value.")
 
         if points:
-            self.fshape = self.fshape + (3,)
+            fshape = fshape + (3,)
+
+        self.fshape = fshape
 
         if self.verbose:
             s1 = utils.helpers.get_boundary_str(boundary)
             s2 = utils.helpers.get_points_str(points)
-            print(f"[info] fshape {s1}{s2} is {self.fshape}.")
+            print(f"[info] fshape {s1}{s2} is {fshape}.")
 
-        return self.fshape
+        return fshape
 
     @_lru_cache(maxsize=4)
     def get_order(
@@ -457,14 +461,16 @@ class RegularCartesian(Grid):
             shape = self.get_n(boundary)
 
         if not sparse:
-            self.ones = np.ones(shape, dtype=self.dtype)
+            ones = np.ones(shape, dtype=self.dtype)
         else:
-            self.ones = ss.lil_matrix(shape, dtype=self.dtype)
+            ones = ss.lil_matrix(shape, dtype=self.dtype)
+
+        self.ones = ones
 
         if self.verbose:
             print(f"[info] ones array was computed.")
 
-        return self.ones
+        return ones
 
     @_lru_cache(maxsize=1)
     def get_zeros(
@@ -499,14 +505,16 @@ class RegularCartesian(Grid):
             shape = self.get_n(boundary)
 
         if not sparse:
-            self.zeros = np.zeros(shape, dtype=self.dtype)
+            zeros = np.zeros(shape, dtype=self.dtype)
         else:
-            self.zeros = ss.lil_matrix(shape, dtype=self.dtype) * 0
+            zeros = ss.lil_matrix(shape, dtype=self.dtype) * 0
+
+        self.zeros = zeros
 
         if self.verbose:
             print(f"[info] zeros array was computed.")
 
-        return self.zeros
+        return zeros
 
     # -------------------------------------------------------------------------
     # Cells id and coordinates:
-- 
2.43.0


From 2a64df603e764687e4330e3ae8129dc39bbfbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 33/46] fix: remove_boundaries modified the given dictionary
 and ignored points and remove for it

---
 reservoirflow/grids/regular_cartesian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 0eb1e24..d7a194d 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1121,9 +1121,10 @@ class RegularCartesian(Grid):
             return out_data
 
         elif isinstance(in_data, dict):
-            for k, v in in_data.items():
-                in_data[k] = self.remove_boundaries(v, remove="both")
-            return in_data
+            return {
+                k: self.remove_boundaries(v, points, remove)
+                for k, v in in_data.items()
+            }
         else:
             raise ValueError("dtype must be ndarray.")
 
-- 
2.43.0


From d19ed2c9b25ac167750e4e3d00174d1826bd9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 34/46] fix: set_scalers changed some scalers before it refused
 an invalid entry

---
 reservoirflow/models/black_oil.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index fadf422..04905e6 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -928,6 +928,12 @@ class BlackOil(Model):
         }
         # col_vals = sum(col_dict.values(), [])
 
+        # refuse invalid entries before any scaler is changed.
+        for column in scalers_dict.keys():
+            create_scaler(scalers_dict[column][0], scalers_dict[column][1])
+            if column.lower() not in sum(col_dict.values(), []):
+                raise ValueError(f"column {column} does not exist.")
+
         for column in scalers_dict.keys():
             scaler_type = scalers_dict[column][0]
             output_range = scalers_dict[column][1]
-- 
2.43.0


From bce36ce1b54d0810a9fe6a6fc46d7944ed8820c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 35/46] fix: set_props changed some properties before it
 refused an invalid one

---
 reservoirflow/fluids/single_phase.py     |  4 ++--
 reservoirflow/grids/regular_cartesian.py | 21 +++++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/fluids/single_phase.py b/reservoirflow/fluids/single_phase.py
index cc0d8bb..bf2b67f 100644
--- a/reservoirflow/fluids/single_phase.py
+++ b/reservoirflow/fluids/single_phase.py
@@ -146,14 +146,14 @@ class SinglePhase(Fluid):
         comp : float, optional
             fluid compressibility.
         """
+        if comp is not None:
+            self.set_comp(comp)  # first, an invalid value is refused.
         if mu is not None:
             self.set_mu(mu)
         if B is not None:
             self.set_B(B)
         if rho is not None:
             self.set_rho(rho)
-        if comp is not None:
-            self.set_comp(comp)
         if not hasattr(self, "rho"):
             self.set_rho(0)
         if not hasattr(self, "comp"):
diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index d7a194d..e00ae7d 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2330,6 +2330,13 @@ class RegularCartesian(Grid):
         # ToDo
         # ----
         # - allow iterables for id and coords.
+        # refuse invalid values before any property is changed.
+        props = {"kx": kx, "ky": ky, "kz": kz, "phi": phi, "z": z}
+        for name, value in props.items():
+            if value is not None:
+                self.__check_prop(name, value, id, coords)
+        if comp is not None:
+            self.set_comp(comp)
         if kx is not None:
             self.set_prop("kx", kx, id, coords)
             self.kx = self.k["x"] = self.__props__["kx"]
@@ -2345,14 +2352,24 @@ class RegularCartesian(Grid):
         if z is not None:
             self.set_prop("z", z, id, coords)
             self.z = self.__props__["z"]
-        if comp is not None:
-            self.set_comp(comp)
         if self.__props__["z"] is None:
             self.set_prop("z", 0)
             self.z = self.__props__["z"]
         if not hasattr(self, "comp"):
             self.set_comp(0)
 
+    def __check_prop(self, name, value, id, coords):
+        """Raises an error if value can't be set."""
+        if id is None and coords is None:
+            self.get_ones(True, False, False) * value
+        else:
+            if id is not None:
+                coords = self.get_cell_coords(id, True)
+            fshape = self.get_fshape(True, False)
+            icoords = self.get_cell_icoords(coords)
+            prop = self.__props__[name].reshape(fshape).copy()
+            prop[icoords] = value
+
     def set_cell_value(
         self,
         array,
-- 
2.43.0


From b1dcfd58bb0de2ce3988b2f14d9ee1196ff0c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 36/46] fix: a boundary condition whose value is not a number
 left the model changed

---
 reservoirflow/models/black_oil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 04905e6..25d440f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -534,6 +534,7 @@ class BlackOil(Model):
         # ----
         # - d is taken at x direction for gradient.
         cond = self.__get_cond(cond)
+        float(v + 0.0)  # must be a number.
         boundaries = self.grid.get_boundaries("id", "set")
         assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
         self.bdict[cell_b_id] = (cond, v)
@@ -605,7 +606,9 @@ class BlackOil(Model):
         boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
-            self.__get_cond(bdict[cell_id][0])
+            cond, v = bdict[cell_id]
+            self.__get_cond(cond)
+            float(v + 0.0)  # must be a number.
         for cell_id in self.bdict:
             self.__set_init_values(cell_id, np.nan, 0.0)
         self.bdict = {}
-- 
2.43.0


From 1c0a3e896280dbe5f1412a5c3bccd04c758cb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 37/46] fix: property arrays of a wrong shape were accepted

---
 reservoirflow/grids/regular_cartesian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index e00ae7d..12635c6 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2361,7 +2361,8 @@ class RegularCartesian(Grid):
     def __check_prop(self, name, value, id, coords):
         """Raises an error if value can't be set."""
         if id is None and coords is None:
-            self.get_ones(True, False, False) * value
+            shape = np.shape(self.get_ones(True, False, False) * value)
+            assert shape == (self.get_n(True),), f"{name} must be flat with boundaries."
         else:
             if id is not None:
                 coords = self.get_cell_coords(id, True)
@@ -2441,6 +2442,7 @@ class RegularCartesian(Grid):
         #     s = "cell id " + str(id)
         if name in self.__props__.keys():
             if id is None and coords is None:
+                self.__check_prop(name, value, id, coords)
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 if name in ["kx", "ky", "kz"]:
                     self.k[name[1]] = self.__props__[name]
-- 
2.43.0


From c0051907275809b0f040893c263a40f7739e913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 38/46] fix: matrix of transmissibilities with boundaries which
 is not vectorized had no values between interior and boundary cells

---
 reservoirflow/models/black_oil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 25d440f..4bbb661 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -307,9 +307,10 @@ class BlackOil(Model):
 
         if boundary:
             for cell_id in self.grid.cells_id:
-                T = self.get_cell_trans(cell_id, None, False)
+                T = self.get_cell_trans(cell_id, None, True)
                 for cell_n_id in T.keys():
                     T_array[cell_id, cell_n_id] = T[cell_n_id]
+                    T_array[cell_n_id, cell_id] = T[cell_n_id]
         else:
             for cell_id in self.grid.cells_id:
                 cell_i = self.cells_i_dict[cell_id]
-- 
2.43.0


From 6303d4f96be77ebf0e166b17d22907e138c9b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 39/46] fix: a failed run left the model not verbose

---
 reservoirflow/solutions/numerical/fdm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index c1a6c7d..2dea7ea 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -788,6 +788,13 @@ class FDM(Solution):
         - SciPy: `Solving Linear Problems <https://docs.scipy.org/doc/scipy/reference/sparse.linalg.html#solving-linear-problems>`_.
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
+        verbose = self.model.verbose
+        try:
+            self.__run(nsteps, threading, vectorize, check_MB, print_arrays, isolver)
+        finally:
+            self.model.verbose = verbose
+
+    def __run(self, nsteps, threading, vectorize, check_MB, print_arrays, isolver):
         start_time = time.time()
         self.run_ctime = 0
         if self.model.verbose:
-- 
2.43.0


From 548af707465c21ea0ccc76045baf510c31f16686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 40/46] fix: a failed analytical run left wrong counters

---
 reservoirflow/solutions/analytical/d1p1.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index b0e54f1..a04ebe2 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -99,6 +99,14 @@ class D1P1(Solution):
         print_arrays=False,
         isolver=None,
     ):
+        state = self.tstep, self.nsteps, self.model.verbose
+        try:
+            self.__run(nsteps)
+        except BaseException:
+            self.tstep, self.nsteps, self.model.verbose = state
+            raise
+
+    def __run(self, nsteps):
         start_time = time.time()
         # self.nsteps += nsteps
         self.tstep = nsteps
-- 
2.43.0


From ce7e41a776a75f00f60e3d58d99a05fae6c97442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 41/46] fix: a run of no timesteps failed

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2dea7ea..d09d3df 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -828,7 +828,7 @@ class FDM(Solution):
             f"[info] Simulation run of {nsteps} steps",
             f"finished in {self.run_ctime} seconds.",
         )
-        if check_MB:
+        if check_MB and nsteps > 0:
             print(f"[info] Material Balance Error: {self.error}.")
 
         if verbose_restore:
-- 
2.43.0


From 7e6a60826efd55b2b098f43f29bf45a18b411352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 42/46] fix: get_cells_icoords failed in its default form and
 in flow shape

---
 reservoirflow/grids/regular_cartesian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 12635c6..70478ed 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -768,7 +768,7 @@ class RegularCartesian(Grid):
         self,
         boundary: bool = True,
         fshape: bool = False,
-        fmt=None,
+        fmt="tuple",
     ):
         """Returns all cells icoords based on (k,j,i).
 
@@ -800,7 +800,7 @@ class RegularCartesian(Grid):
         cells_icoords = self.get_cell_icoords(cells_coords)
 
         if fshape:
-            shape = self.get_fshape(boundary, True)
+            shape = self.get_fshape(boundary, False) + (-1,)
             cells_icoords = np.array(cells_icoords).reshape(shape)
         else:
             cells_icoords = utils.helpers.reformat(cells_icoords, fmt)
-- 
2.43.0


From 06a1f36cbcd2956ce5100a43211d6bf1a7222b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 43/46] fix: display with a colormap which is defined by a list
 of colors (e.g. viridis) failed

---
 reservoirflow/utils/pyvista.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reservoirflow/utils/pyvista.py b/reservoirflow/utils/pyvista.py
index 6b038e1..187b5ec 100644
--- a/reservoirflow/utils/pyvista.py
+++ b/reservoirflow/utils/pyvista.py
@@ -355,6 +355,10 @@ def get_colormap(
         cshape = np.unique(colormap.colors, axis=0).shape
         if cshape[0] < n_colors:
             print(f"Some colors are repetitive, consider n_colors<={cshape[0]}.")
+    elif not hasattr(colormap, "set_gamma"):
+        # colormaps which are defined by a list of colors (e.g. viridis).
+        colors = plt.cm.get_cmap(cmap)(np.linspace(0, 1, n_colors) ** gamma)
+        colormap = type(colormap)(colors, name=colormap.name)
     else:
         colormap.set_gamma(gamma)
 
-- 
2.43.0


From d546f2f14018a920ecf5ba1cfaa6ac285d56deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 44/46] fix: check_MB with verbose did not show the errors of a
 compressible model

---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index d09d3df..a5a0c70 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -875,7 +875,7 @@ class FDM(Solution):
                     - self.pressures[0, self.model.grid.cells_id]
                 )
             ).sum() / (self.model.dt * self.tstep * self.rates.sum())
-            if self.model.verbose:
+            if verbose or self.model.verbose:
                 print(f"[info]    - Incremental Error: {self.error}")
                 print(f"[info]    -  Cumulative Error: {self.cumulative_error}")
                 print(
-- 
2.43.0


From 2fb69fcc9eed0523736b6daf703eb561062eb078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 45/46] fix: MinMax overflowed for arrays of small integers

---
 reservoirflow/scalers/minmax.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reservoirflow/scalers/minmax.py b/reservoirflow/scalers/minmax.py
index 63502ff..321f6e0 100644
--- a/reservoirflow/scalers/minmax.py
+++ b/reservoirflow/scalers/minmax.py
@@ -54,6 +54,7 @@ class MinMax(Scaler):
         return self
 
     def fit(self, v, axis=0):
+        v = self.__as_float__(v)
         if len(v.shape) > 2 and axis == 0:
             msg = (
                 "axis=0 is not allowed with input len(shape) > 2. "
@@ -67,6 +68,7 @@ class MinMax(Scaler):
 
     def transform(self, v):
         self.__check_vmin_vmax__()
+        v = self.__as_float__(v)
         vbar = (self.Vmax - self.Vmin) * (v - self.vmin) / (
             self.vmax - self.vmin
         ) + self.Vmin
@@ -74,6 +76,7 @@ class MinMax(Scaler):
 
     def inverse_transform(self, vbar):
         self.__check_vmin_vmax__()
+        vbar = self.__as_float__(vbar)
         v = (self.vmax - self.vmin) * (vbar - self.Vmin) / (
             self.Vmax - self.Vmin
         ) + self.vmin
@@ -83,6 +86,12 @@ class MinMax(Scaler):
         self.fit(v, axis)
         return self.transform(v)
 
+    def __as_float__(self, v):
+        # differences of small integers (e.g. uint8) overflow.
+        if getattr(v, "dtype", None) is not None and v.dtype.kind in "iu":
+            return v.astype("double")
+        return v
+
     def __check_vmin_vmax__(self):
         if self.vmin is None or self.vmax is None:
             msg = (
-- 
2.43.0


From bd70e2e9be2f68501809b681432a5222bb413ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 46/46] fix: compressibility set for a model was ignored by its
 equations

---
 reservoirflow/models/black_oil.py        | 6 ++++--
 reservoirflow/solutions/numerical/fdm.py | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 4bbb661..b45da74 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -13,7 +13,6 @@ import scipy.sparse as ss
 
 import reservoirflow as rf
 from reservoirflow.models.model import Model
-from reservoirflow.utils.helpers import _lru_cache
 
 
 class BlackOil(Model):
@@ -640,7 +639,10 @@ class BlackOil(Model):
     # Flow Equations:
     # -------------------------------------------------------------------------
 
-    @_lru_cache(maxsize=1)
+    def set_comp(self, comp: float):
+        super().set_comp(comp)
+        self.__calc_RHS()
+
     def __calc_RHS(self):
         """Calculates flow equation for RHS."""
         if self.comp_type == "incompressible":
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index a5a0c70..c1e2796 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -509,10 +509,15 @@ class FDM(Solution):
         _type_
             _description_
         """
-        if self.tstep == 0 or not hasattr(self, "A_"):
+        if (
+            self.tstep == 0
+            or not hasattr(self, "A_")
+            or self.RHS_init is not self.model.RHS
+        ):
             # second condition allow switching vectorize True/False after
-            # timestep=0.
+            # timestep=0. third condition allow changing compressibility.
             self.A_init = self.__init_A()
+            self.RHS_init = self.model.RHS
 
         # wells and boundaries may change between timesteps.
         self.A_ = self.A_init.copy()
-- 
2.43.0

