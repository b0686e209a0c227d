From 741f579ff8995f8ea36a09220e4647d7553ad4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 001/110] fix: shift the bands of a model with a k-dependent
 overlap exactly

---
 src/tight_binding_redweasel/tight_binding_asym.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..724cf51 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -879,9 +879,15 @@ class AsymTightBindingModel:
             return AsymTightBindingModel(self.H + other.H, S=self.S + other.S)
         else:
             # shift the whole bandstructure
-            # TODO figure out how this actually works wih S(k)
+            # (H(k) + c S(k)) v = (E + c) S(k) v, so every term of S is needed
             H = self.H.copy()
-            H.H_r[0] += self.S.H_r[0] * float(other)
+            H.H_r = H.H_r.astype(np.result_type(H.H_r, self.S.H_r, float))
+            for r, S_r in zip(self.S.neighbors, self.S.H_r):
+                i = np.argmin(np.linalg.norm(H.neighbors - r, axis=-1))
+                if np.linalg.norm(H.neighbors[i] - r) > 1e-8:
+                    i = len(H.neighbors)
+                    H.add_neighbors([r])
+                H.H_r[i] += S_r * float(other)
             return AsymTightBindingModel(H, S=self.S.copy())
 
     def __mul__(self, fac: float) -> 'AsymTightBindingModel':
-- 
2.43.0


From dc8f6b8716162f2745004376485b761b8ff405d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 002/110] fix: Hessians of FreeElectrons respect limit_count
 and have one entry per k

---
 src/tight_binding_redweasel/bulk_properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..a5930bf 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -498,10 +498,11 @@ class FreeElectrons:
         k_smpl = np.asarray(k_smpl)[:, :, None] - self.k_neighbors[None, :, :]
         bands = np.linalg.norm(k_smpl, axis=-2)**2
         grad = 2 * k_smpl
-        hess = np.array([np.eye(3) * 2] * len(self.k_neighbors[0])).T
         order = np.argsort(bands, axis=-1)
         if self.limit_count:
             order = order[:, :self.limit_count]
         bands = np.take_along_axis(bands, order, axis=-1)
         grad = np.take_along_axis(grad, order[:, None, :], axis=-1)
-        return self.fac * bands, self.fac * grad, self.fac * hess[None, ...]
+        dim = grad.shape[1]
+        hess = np.zeros((len(bands), dim, dim, bands.shape[-1])) + 2 * np.eye(dim)[None, :, :, None]
+        return self.fac * bands, self.fac * grad, self.fac * hess
-- 
2.43.0


From 1c01ae4117f513ea1679e781fa45dbdf736dd359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 003/110] fix: Hessians at k points with degenerate bands use
 one consistent basis per direction

---
 src/tight_binding_redweasel/linalg.py | 38 ++++++++++++++++-----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ae7894d..c4abb23 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -162,20 +162,8 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     diff = eigvals[..., :, None] - eigvals[..., None, :]
     mask = np.abs(diff) < epsilon
     select = np.sum(np.triu(mask, k=1), axis=(-1, -2)) > 0
-    if select.sum():
-        # for this, an additional diagonalisation is needed for all matrices, which have degenerate eigenvalues.
-        # To keep the efficiency high, only do the second diagonalisation for those which need it.
-        # TODO select only works if select.shape != tuple()
-        assert len(np.shape(dH_ev[select])) == len(dH_ev.shape)
-        _, ev_dH = np.linalg.eigh(dH_ev[select] * mask[select][..., None, :, :])
-        # stable sort ev such that the order of la doesn't change!
-        sorting = np.argsort(np.argmin(np.abs(ev_dH) < 1e-7, axis=-2, keepdims=True), axis=-1)
-        ev_dH = np.take_along_axis(ev_dH, sorting, axis=-1)
-        # apply basis transformation to the selected dH_ev
-        dH_ev[select] = np.einsum("...ji,...jk,...kl->...il", np.conj(ev_dH), dH_ev[select], ev_dH)
-        # hess1[select] = np.einsum("...ji,...jk,...kl->...il", np.conj(ev_dH), hess1[select], ev_dH)
-    # first order eigenvalue change (gradient, actually needs the basis change!)
-    grads = np.real(np.diagonal(dH_ev, axis1=-2, axis2=-1))
+    # first order eigenvalue change (gradient, in degenerate subspaces this actually needs the basis change below!)
+    grads = np.real(np.diagonal(dH_ev, axis1=-2, axis2=-1)).copy()
     # assume that the perturbation term commutes with the hamiltonian.
     # otherwise it can cause non linear sqrt terms in the series development.
     inv_mask = ~mask
@@ -183,7 +171,27 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     dH_ev2 /= (diff + 1e-40)[..., None, :, :]
     # hessian contribution from first derivative, second order perturbation theory
     hess2 = np.real(np.einsum("...pik,...qki->...pqi", dH_ev, dH_ev2))
-    return eigvals, grads, hess1 - 2 * hess2
+    hess = hess1 - 2 * hess2
+    if select.sum():
+        # for this, an additional diagonalisation is needed for all matrices, which have degenerate eigenvalues.
+        # To keep the efficiency high, only do the second diagonalisation for those which need it.
+        _, ev_dH = np.linalg.eigh(dH_ev[select] * mask[select][..., None, :, :])
+        # stable sort ev such that the order of la doesn't change!
+        sorting = np.argsort(np.argmin(np.abs(ev_dH) < 1e-7, axis=-2, keepdims=True), axis=-1)
+        ev_dH = np.take_along_axis(ev_dH, sorting, axis=-1)
+        # Every direction p has its own basis of the degenerate subspaces,
+        # so all directions q need to be transformed into the basis of the direction p.
+        dH_ev = np.einsum("...pji,...qjk,...pkl->...pqil", np.conj(ev_dH), dH_ev[select], ev_dH, optimize=True)
+        dH_ev_p = np.einsum("...ppil->...pil", dH_ev).copy()
+        grads[select] = np.real(np.diagonal(dH_ev_p, axis1=-2, axis2=-1))
+        ev_p = ev[select][..., None, :, :] @ ev_dH
+        hess1 = np.einsum("...pji,...pqjk,...pki->...pqi", np.conj(ev_p), ddH[select], ev_p, optimize=True)
+        dH_ev *= inv_mask[select][..., None, None, :, :]
+        dH_ev /= (diff[select] + 1e-40)[..., None, None, :, :]
+        hess2 = np.einsum("...pik,...pqki->...pqi", dH_ev_p, dH_ev)
+        hess1 = np.real(hess1 - 2 * hess2)
+        hess[select] = (hess1 + np.swapaxes(hess1, -3, -2)) / 2
+    return eigvals, grads, hess
 
 
 def pointcloud_distance(pointcloud1, pointcloud2):
-- 
2.43.0


From f883bb9c1ab216651544b369744af17c13203d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 004/110] fix: band Hessians of AsymTightBindingModel include
 the k-dependence of the overlap

---
 src/tight_binding_redweasel/tight_binding_asym.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 724cf51..c487c0b 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -804,14 +804,19 @@ class AsymTightBindingModel:
         Returns:
             (arraylike(N_k, N_b), arraylike(N_k, dim, N_b), arraylike(N_k, dim, dim, N_b)): (bands, grads, hessians)
         """
-        # TODO add dS and ddS!!
         bands, ev = geigh(self.H.f(k_smpl), self.S.f(k_smpl))
         df = self.H.df(k_smpl)
         ddf = self.H.ddf(k_smpl)
-        # first order perturbation theory terms
+        # first order perturbation theory terms (including the change of the overlap)
         df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
+        ds_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), self.S.df(k_smpl), ev)
+        df_ev = df_ev - ds_ev * bands[:, None, None, :]
         grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
         hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
+        hess1 -= np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), self.S.ddf(k_smpl), ev)) * bands[:, None, None, :]
+        # change of the normalisation of the eigenvectors
+        dnorm = grads[:, :, None, :] * np.real(np.diagonal(ds_ev, axis1=2, axis2=3))[:, None, :, :]
+        hess1 -= dnorm + np.swapaxes(dnorm, 1, 2)
         # second order perturbation theory terms
         no_diag = np.array(df_ev)  # copy before modification (grads is a view)
         for i in range(len(grads[0, 0])):
@@ -820,7 +825,7 @@ class AsymTightBindingModel:
         # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
         db = no_diag / (bands[:, None, :, None] -
                         bands[:, None, None, :] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
+        hess2 = np.real(np.einsum("mpki, mqki -> mpqi", np.conj(df_ev), db))
         return bands, grads, hess1 - 2*hess2
 
     def supercell(self, A_original, A_new) -> 'AsymTightBindingModel':
-- 
2.43.0


From 4f062b8a41178c6aaf81cfaf3360b2bd714ee521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 005/110] fix: complex coefficients of cosine-reduced models
 count every term of the symmetry orbit

---
 src/tight_binding_redweasel/bandstructure.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..9987752 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -604,22 +604,24 @@ class BandStructureModel:
         if self.neighbors is None:
             raise ValueError(
                 "This function can only be used on default tight binding models")
+        # number of terms in each coefficient function
+        m = 1 if self.sym is None else len(self.sym.S)
         if self.exp:
             H_r = np.array(self.params)
             if self.cos_reduced:
-                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+                H_r[0] -= m * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
             return H_r
         H_r = np.array(self.params)
         if self.sym is not None and not self.sym.inversion:
             n = (len(self.params) + 1) // 2
             if self.cos_reduced:
                 # H_r[1:n] += H_r[0]
-                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
+                H_r[0] -= m * np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
                 pass
             H_r[1:n] += H_r[n:] * -1j
             H_r = H_r[:n]
         elif self.cos_reduced:
-            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            H_r[0] -= m * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
         return H_r
 
     def set_params_complex(self, H_r):
@@ -634,10 +636,12 @@ class BandStructureModel:
             raise ValueError("This function can only be used on default tight binding models")
         if len(H_r) != len(self.neighbors):
             raise ValueError(f"The parameters {np.shape(H_r)} must match the neighbor count {len(self.neighbors)}")
+        # number of terms in each coefficient function
+        m = 1 if self.sym is None else len(self.sym.S)
         if self.exp:
             self.params = np.array(H_r)
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:] +
+                self.params[0] += m * np.sum(self.params[1:] +
                                          np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
         else:
             self.params = np.array(H_r)
@@ -650,7 +654,7 @@ class BandStructureModel:
                 self.params += np.conj(np.swapaxes(self.params, -1, -2))
             self.params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                self.params[0] += m * np.sum(self.params[1:n], axis=0) * 2
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
-- 
2.43.0


From a6b2935b757ea8d9ef0e51153e6e6233ce591a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 006/110] fix: load one and two dimensional models from JSON as
 BandStructureModel

---
 src/tight_binding_redweasel/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 9987752..d9d2d38 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -752,7 +752,7 @@ class BandStructureModel:
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(neighbors.shape[1]), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From 56b08560d4129d9a52857d2e5242f543d7c8def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 007/110] fix: a failing save restores the numpy print options

---
 src/tight_binding_redweasel/bandstructure.py  | 29 +++++++++----------
 .../tight_binding_asym.py                     |  4 ---
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index d9d2d38..cd21557 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -683,23 +683,20 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
-        if format == "python":
-            with open(filename, "w") as file:
+        # the printoptions are reset to what they were before, even if saving fails
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21'):
+            if format == "python":
                 assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-                file.write(repr(self.params_complex()) + ",\\\n")
-                file.write(repr(self.neighbors) + ",\\\n")
-                file.write(repr(self.sym.S) + ",\\\n")
-                file.write(repr(self.sym.inversion) + "\n")
-        elif format == "wannier90":
-            tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
-        elif format == "json":
-            json_tb_format.save(filename, self.neighbors,
-                                self.params_complex())
-
-        # reset printoptions to what they were before
-        np.set_printoptions(**opt)
+                with open(filename, "w") as file:
+                    file.write(repr(self.params_complex()) + ",\\\n")
+                    file.write(repr(self.neighbors) + ",\\\n")
+                    file.write(repr(self.sym.S) + ",\\\n")
+                    file.write(repr(self.sym.inversion) + "\n")
+            elif format == "wannier90":
+                tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
+            elif format == "json":
+                json_tb_format.save(filename, self.neighbors,
+                                    self.params_complex())
 
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index c487c0b..7256c2b 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -256,14 +256,10 @@ class AsymTightBindingModel:
                 raise ValueError("unrecognised format for file " + filename)
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
         if format == "json":
             json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
             # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
 
-        np.set_printoptions(**opt)  # reset printoptions
-
     @staticmethod
     def load(filename: str, format=None) -> Self:
         if format is None:
-- 
2.43.0


From 2fc7e4c9d877e5052fb292f60738b67fa257309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 008/110] fix: the python format stores models with more than
 100000 coefficients completely

---
 src/tight_binding_redweasel/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index cd21557..f6fb0c5 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -1,3 +1,4 @@
+import sys
 import numpy as np
 from matplotlib import pyplot as plt
 from collections.abc import Callable
@@ -684,7 +685,7 @@ class BandStructureModel:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
         # the printoptions are reset to what they were before, even if saving fails
-        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21'):
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=sys.maxsize, legacy='1.21'):
             if format == "python":
                 assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
                 with open(filename, "w") as file:
-- 
2.43.0


From 32d9d8c2942aa5bade6abe23b5e6ffbffbb9d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 009/110] fix: wannier90 Hamiltonians are divided by the
 degeneracies of their lattice vectors

---
 .../wannier90_tb_format.py                        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/wannier90_tb_format.py b/src/tight_binding_redweasel/wannier90_tb_format.py
index b5e3b9d..310c779 100644
--- a/src/tight_binding_redweasel/wannier90_tb_format.py
+++ b/src/tight_binding_redweasel/wannier90_tb_format.py
@@ -30,6 +30,7 @@ def load_tb(filename):
         neighbors_set = set()
         params = []
         r_params = []
+        points = {} # all lattice vectors in the order of the file (= order of the degeneracies)
         index = -1
         for line in file:
             if not line.strip():
@@ -39,6 +40,7 @@ def load_tb(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts])
                 neg_pos = tuple([-x for x in pos])
+                points.setdefault(pos, len(points))
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -71,12 +73,14 @@ def load_tb(filename):
                 r_params[index][i-1,j-1,2] = z
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
+    # every lattice vector contributes with the weight 1/degeneracy
+    degeneracy = np.array([degeneracy[points[pos]] for pos in neighbors])
+    params = np.array(params) / degeneracy[:, None, None]
+    r_params = np.array(r_params) / degeneracy[:, None, None, None]
     # sort the neighbors by length
     neighbors = np.array(neighbors)
-    params = np.array(params)
-    r_params = np.array(r_params)
     order = np.argsort(np.linalg.norm(neighbors, axis=-1))
-    return neighbors[order], params[order], r_params[order], degeneracy, A
+    return neighbors[order], params[order], r_params[order], degeneracy[order], A
 
 # read the wannier90 ..._hr.dat format
 # Note: this format doesn't have the lattice vectors! The output is in crystal coordinates.
@@ -99,6 +103,7 @@ def load_hr(filename):
         neighbors = []
         neighbors_set = set()
         params = []
+        points = {} # all lattice vectors in the order of the file (= order of the degeneracies)
         index = -1
         for line in file:
             if not line.strip():
@@ -108,6 +113,7 @@ def load_hr(filename):
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts[:3]])
                 neg_pos = tuple([-x for x in pos])
+                points.setdefault(pos, len(points))
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
                         # skip the entry if the adjungated matrix is already in neighbors
@@ -124,9 +130,10 @@ def load_hr(filename):
                 params[index][i-1,j-1] = x + y*1j
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
+    # every lattice vector contributes with the weight 1/degeneracy
+    params = np.array(params) / np.array([degeneracy[points[pos]] for pos in neighbors])[:, None, None]
     # sort the neighbors by length
     neighbors = np.array(neighbors)
-    params = np.array(params)
     order = np.argsort(np.linalg.norm(neighbors, axis=-1))
     return neighbors[order], params[order]
 
-- 
2.43.0


From 5469a2f59ba5ed87470062ba384ca24cbc333ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 010/110] fix: equality and containment of symmetries compare
 all operations including inversion

---
 src/tight_binding_redweasel/symmetry.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..e2209ce 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -134,11 +134,10 @@ class Symmetry:
     def __eq__(self, other: 'Symmetry') -> bool:
         if self.dim() != other.dim():
             return False
-        if self.inversion != other.inversion:
-            return False
         if len(self) != len(other):
             return False
-        return pointcloud_distance(self.S, other.S) < len(self.S) * 1e-7
+        # compare all operations, as the same group can be represented by different S if inversion is set
+        return pointcloud_distance(self.get_symmetry_operations(), other.get_symmetry_operations()) < len(self) * 1e-7
 
     def __len__(self) -> int:
         """Cardinality of the group (including inversion symmetry if present!)"""
@@ -960,11 +959,10 @@ class Symmetry:
         # Lagranges Theorem says the subgroup size must divide the group size
         if len(self) % len(other) != 0:
             return False
-        if other.inversion and not self.inversion:
-            return False
         # now check if all matrices of other are contained in self
-        for s in other.S:
-            if not np.any(np.linalg.norm(s[None] - self.S, axis=(1, 2)) < 1e-7):
+        S = self.get_symmetry_operations()
+        for s in other.get_symmetry_operations():
+            if not np.any(np.linalg.norm(s[None] - S, axis=(1, 2)) < 1e-7):
                 return False
         return True
 
-- 
2.43.0


From 569d9476257e170504445f3c1ed3954e92dc5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 011/110] fix: subgroups contain improper operations if the
 inversion itself is not included

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index e2209ce..a08dc12 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -906,10 +906,11 @@ class Symmetry:
         """
         value = invariant_func(self.S[0])
         S = [np.array(self.S[0])]
-        for s in self.S[1:]:
+        # the subgroup can contain -s without containing the inversion itself
+        for s in self.get_symmetry_operations()[1:]:
             if np.linalg.norm(invariant_func(s) - value) < 1e-8:
                 S.append(s)
-        sym = Symmetry(S, abs(invariant_func(-self.S[0]) - value) < 1e-8 if self.inversion else False)
+        sym = Symmetry(S)
         assert sym.check(), "The subgroup is not closed, therefore the function was not a class function or the original group was not closed"
         return sym
 
-- 
2.43.0


From 5aae32c09c286a7b71b259959502ae6c744b4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 012/110] fix: quotients of symmetries respect the inversion of
 the subgroup

---
 src/tight_binding_redweasel/symmetry.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a08dc12..05b388f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -976,14 +976,13 @@ class Symmetry:
     def __truediv__(self, rhs: 'Symmetry') -> 'Symmetry':
         assert self.dim() == rhs.dim()
         d = self.dim()
-        assert (self.inversion or not rhs.inversion) and len(self.S) % len(
-            rhs.S) == 0, "The righthand side needs to be a subgroup"
-        # TODO check subgroup
+        assert rhs in self, "The righthand side needs to be a subgroup"
+        rhs_S = rhs.get_symmetry_operations()
 
         def left(a, b):
             # to check a*rhs1=b*rhs2, check a^{-1}*b in rhs
             c = np.linalg.inv(a) @ b
-            for r in rhs.S:
+            for r in rhs_S:
                 if np.linalg.norm(r - c) < 1e-7:
                     return True
             return False
@@ -1035,7 +1034,7 @@ class Symmetry:
         # element to permute the identity to the first element
         id_inv = np.linalg.inv(classes[0][0])
         classes = np.array([c[0] @ id_inv for c in classes])
-        sym = Symmetry(classes, inversion=self.inversion and rhs.inversion)
+        sym = Symmetry(classes)
         if not sym.check():
             raise ValueError("The righthand side is no normal subgroup")
         return sym
-- 
2.43.0


From 62e7114de7917afeb80813802ea6d09c72701170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 013/110] fix: inversion in even dimensions is not counted
 twice if the operations already contain it

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 05b388f..dd313dd 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -96,7 +96,8 @@ class Symmetry:
                 # self.S = np.array([s for s in self.S if next((x for x in np.ravel(s) if abs(x) > 1e-4), 1) > 0])
                 # here inversion can be a problem, as it may be in the center, but it's not always a normal subgroup!
                 # for now, disable the inversion symmetry reduction in even dimensions.
-                pass
+                # (the inversion is already realized in S)
+                self.inversion = False
         elif inversion and len(self.S[0]) % 2 == 0:
             # realize inversion in even dimensions
             self.S = np.concatenate([self.S, -self.S], axis=0)
-- 
2.43.0


From f36d0ebd29456a2e410f079199d962a8d714a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 014/110] fix: basis transformation of projective symmetries in
 any dimension

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index dd313dd..d09270b 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -225,7 +225,8 @@ class Symmetry:
         if self.projective:
             assert np.shape(basis_transform) == (self.dim() - 1,) * 2, "basis_transform needs to be a square matrix with matching dimension"
             # TODO test!
-            basis_transform = np.block([[basis_transform, np.zeros((3, 1))], [np.zeros((1, 3)), np.eye(1)]])
+            d = self.dim() - 1
+            basis_transform = np.block([[basis_transform, np.zeros((d, 1))], [np.zeros((1, d)), np.eye(1)]])
         else:
             assert np.shape(basis_transform) == (self.dim(),) * 2, "basis_transform needs to be a square matrix with matching dimension"
         S = np.einsum("nij,mi,jk->nmk", self.S,
-- 
2.43.0


From 05cbd9c0e54d319f71e3b69558c8133f3a260269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 015/110] fix: the transposed symmetry keeps the projective
 flag

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index d09270b..f62c816 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -130,7 +130,7 @@ class Symmetry:
 
     def transpose(self) -> 'Symmetry':
         """Get the symmetry with all the symmetry operations transposed. That is the symmetry group for the dual lattice/vector space."""
-        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion)
+        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion, self.projective)
 
     def __eq__(self, other: 'Symmetry') -> bool:
         if self.dim() != other.dim():
-- 
2.43.0


From 1da3c88a3d8ca0dd1604e50858a43fbb5909c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 016/110] fix: point group of a space group with centering
 translations has no duplicates

---
 src/tight_binding_redweasel/symmetry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index f62c816..ca9b3f7 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -952,7 +952,12 @@ class Symmetry:
             Self: A cut down symmetry if it was projective, or self (by reference)
         """
         if self.projective:
-            return Symmetry(self.S[:, :-1, :-1], self.inversion, projective=False)
+            S = []
+            for s in self.S[:, :-1, :-1]:
+                # operations which differ only by their translation are the same
+                if not any(np.linalg.norm(s - s2) < 1e-7 for s2 in S):
+                    S.append(s)
+            return Symmetry(S, self.inversion, projective=False)
         return self
 
     def __contains__(self, other: 'Symmetry') -> bool:
-- 
2.43.0


From b57b5873f9cc5e5fa9f1341c5f27e4ecdbf7dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 017/110] fix: quotients by subgroups which are not normal
 raise the documented ValueError

---
 src/tight_binding_redweasel/symmetry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index ca9b3f7..29bdc67 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -996,7 +996,11 @@ class Symmetry:
         classes = self.equivalence_classes(left)
         assert len(classes) == len(
             self) // len(rhs), "The number of left equivalence classes doesn't match the assumption of a normal subgroup"
-        # TODO check the classes for the group properties (if they have it, rhs is a normal subgroup)
+        # the classes only form a group if rhs is a normal subgroup
+        for s in self.S:
+            for c in s @ rhs_S @ np.linalg.inv(s):
+                if not np.any(np.linalg.norm(c[None] - rhs_S, axis=(1, 2)) < 1e-7):
+                    raise ValueError("The righthand side is no normal subgroup")
         # reduce the classes, while keeping the group property.
         # 1. find the class with the identity and reduce it to just that
         # 2. for each class, find the order and remove all elements,
-- 
2.43.0


From 31692ea951267f00eb420a7a9f35c443d39b92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 018/110] fix: quotients find the order of improper operations

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 29bdc67..3944bd4 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -1011,7 +1011,7 @@ class Symmetry:
                 # if more than one element reaches the identity at the same time, keep all of them in this step.
                 base = np.array(classes[i])
                 powers = np.zeros_like(base) + np.eye(d)[None, :, :]
-                for _ in range(len(self.S) + 1):  # no order bigger than the group size
+                for _ in range(len(self) + 1):  # no order bigger than the group size
                     powers = powers @ base
                     classes[i] = np.array([a for j, a in enumerate(
                         base) if np.linalg.norm(powers[j] - np.eye(d)) < 1e-7])
-- 
2.43.0


From 924a13937dc00ece94ae2ad9732b1fa8bb83d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 019/110] fix: reduce_symmetric_data removes all equivalent
 points of fine grids

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 3944bd4..12b425d 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -667,7 +667,7 @@ class Symmetry:
         assert self.is_orthogonal(), "The algorithm here only works for orthogonal symmetry operations"
         # this stable works really well
         order = np.argsort(np.round(np.linalg.norm(
-            reduced_k, axis=-1)**2, 2), kind='stable')
+            reduced_k, axis=-1)**2, 10), kind='stable')
         reduced_k = list(reduced_k[order])
         reduced = list(reduced[order])
         i = 0
@@ -687,7 +687,7 @@ class Symmetry:
                     # find all instances of k_ in reduced_k and delete them
                     j = i
                     while j < len(reduced_k):
-                        if np.linalg.norm(reduced_k[j]) > scale * 1.0001:
+                        if np.linalg.norm(reduced_k[j]) > scale * 1.0001 + 1e-4:
                             break  # * this is what makes this a good algorithm
                         if np.linalg.norm(reduced_k[j] - k_) < scale * 1e-6:
                             if checked and np.linalg.norm(reduced[j] - value) > 1e-7:
-- 
2.43.0


From 7768e4cd26b2b411eeeab7fef8adb3e460420e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 020/110] fix: complete_neighbors keeps neighbors without a
 positive version

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 12b425d..a5cfc25 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -719,9 +719,10 @@ class Symmetry:
             if tuple(n) not in used_neighbors:  # works only for exact matches
                 new_neighbors.append((n, orig_index))
                 used_neighbors.add(tuple(n))
-        # remove negative versions
+        # remove negative versions (if the positive version exists, which is not guaranteed without inversion symmetry)
+        positions = np.array([n for n, _ in new_neighbors])
         neighbors = [(n, orig_index) for n, orig_index in new_neighbors if next(
-            (x for x in n if abs(x) > 1e-7), 1) > 0]
+            (x for x in n if abs(x) > 1e-7), 1) > 0 or np.min(np.linalg.norm(positions + n, axis=-1)) > 1e-6]
         neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))
         order = [orig_index for _, orig_index in neighbors]
         neighbors = [n for n, _ in neighbors]
-- 
2.43.0


From 2cfce39e45f4d7c1b59141875cc22edef2bd450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 021/110] fix: check_neighbors accepts complete neighbor lists

---
 src/tight_binding_redweasel/symmetry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a5cfc25..a704339 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -745,16 +745,18 @@ class Symmetry:
         neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
         count = [0] * len(neighbors)
         for i, r in enumerate(neighbors):
-            for s in zip(self.S):
+            for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
                 r_ = np.transpose(s) @ r
                 # here only the neighbors with an index similar to i need to be checked
                 # TODO replace this search by the KD-Trees
                 start = max(i - len(self.S) * 3, 0)
                 end = min(i + len(self.S) * 3, len(neighbors))
-                j = start + np.argmin(np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                                 np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1)))
-                count[j] += 1
+                dist = np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
+                                  np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1))
+                j = np.argmin(dist)
+                if dist[j] < 1e-6:
+                    count[start + j] += 1
         for c in count:
             if c != len(self.S):
                 raise ValueError(f"neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers {count}")
-- 
2.43.0


From f506eb214c2e062e3de9147ae2ead3e6b69a70d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 022/110] fix: find_classes respects the inversion symmetry

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a704339..0e00542 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -817,7 +817,7 @@ class Symmetry:
         # build the symmetry graph for the neighbor list
         for i, r in enumerate(points):
             rep_class = set()
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 r_ = s @ r
                 dist = np.linalg.norm(points - r_[None, :], axis=-1)
                 j = np.argmin(dist)
-- 
2.43.0


From 72010a5b664519076d50a5496cde1fcb0d916a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 023/110] fix: check_neighbors finds equivalent neighbors in
 long lists

---
 src/tight_binding_redweasel/symmetry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 0e00542..0ffb68d 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -744,19 +744,16 @@ class Symmetry:
         neighbors = np.asarray(neighbors)
         neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
         count = [0] * len(neighbors)
-        for i, r in enumerate(neighbors):
+        for r in neighbors:
             for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
                 r_ = np.transpose(s) @ r
-                # here only the neighbors with an index similar to i need to be checked
                 # TODO replace this search by the KD-Trees
-                start = max(i - len(self.S) * 3, 0)
-                end = min(i + len(self.S) * 3, len(neighbors))
-                dist = np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                  np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1))
+                dist = np.minimum(np.linalg.norm(neighbors - r_[None, :], axis=-1),
+                                  np.linalg.norm(neighbors + r_[None, :], axis=-1))
                 j = np.argmin(dist)
                 if dist[j] < 1e-6:
-                    count[start + j] += 1
+                    count[j] += 1
         for c in count:
             if c != len(self.S):
                 raise ValueError(f"neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers {count}")
-- 
2.43.0


From ef4a0770087ed7123178d4544662ea3ff30c122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 024/110] fix: tensor symmetrisation includes the inversion
 symmetry

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 0ffb68d..2df3832 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -845,13 +845,14 @@ class Symmetry:
         in_letters = letters[:rank[0] + rank[1]]
         out_letters = letters[-rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
-        for s in self.S:
+        operations = self.get_symmetry_operations() # including inversion, which matters for odd ranks and pseudo tensors
+        for s in operations:
             inv_s = np.linalg.inv(s)
             sign = 1
             if pseudo_tensor:
                 sign = np.sign(np.linalg.det(s))  # what happens with unitary groups where this can be from U(1)?
             res += np.einsum(einsum_str, *rank[0] * (inv_s,), *rank[1] * (s,), orig * sign, optimize="optimal")
-        res /= len(self.S)
+        res /= len(operations)
         return res
 
     def equivalence_classes(self, equiv_relation: Callable[[np.ndarray, np.ndarray], bool]) -> list:
-- 
2.43.0


From d9c4f68f93e4b9a850e295c58f3b4dc9bc2081c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 025/110] fix: scalars can be symmetrized

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 2df3832..513fee6 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -843,7 +843,7 @@ class Symmetry:
         # hacky but simple...
         letters = "abcdefghijklmnopqrstuvwxyz"
         in_letters = letters[:rank[0] + rank[1]]
-        out_letters = letters[-rank[0] - rank[1]:]
+        out_letters = letters[len(letters) - rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
         operations = self.get_symmetry_operations() # including inversion, which matters for odd ranks and pseudo tensors
         for s in operations:
-- 
2.43.0


From 4ad293a299751a37e108098fe3540dbe14a2894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 026/110] fix: generated representations cover the whole group
 for all generators

---
 .../unitary_representations.py                | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..27999af 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -52,8 +52,9 @@ class UnitaryRepresentation:
         """
         Nk = len(S_G[0])
         N = len(U_G[0])
-        S = S_G.copy()
-        U = U_G.copy()
+        # start with the identity, otherwise only products with certain numbers of generators are found
+        S = [np.eye(Nk, dtype=np.asarray(S_G).dtype), *S_G]
+        U = [np.eye(N), *U_G]
         # exponentiate the group n times to form the full group
         for _ in range(1000):
             S_new = np.array(S)
@@ -82,9 +83,21 @@ class UnitaryRepresentation:
             assert len(S) < 1000 # limitation to avoid endless loops
             if len(S) <= prev_len:
                 break
-        u_repr = UnitaryRepresentation(_sym.Symmetry(np.array(S), inversion), N)
+        S = np.array(S)
+        U = np.array(U)
+        u_repr = UnitaryRepresentation(_sym.Symmetry(S, inversion), N)
         u_repr.inv_split = 0 if negate_inversion else N
-        u_repr.U = np.array(U)
+        if len(u_repr.sym.S) > len(U):
+            # the inversion got realized in the symmetry operations (even dimensions)
+            U = np.concatenate([U, -U if negate_inversion else U], axis=0)
+        elif len(u_repr.sym.S) < len(U):
+            # the inversion was already generated, so it got separated from the symmetry operations (odd dimensions)
+            inv_U = next(u for s, u in zip(S, U) if np.linalg.norm(s + np.eye(Nk)) < 1e-7)
+            u_repr.inv_split = int(np.sum(np.real(np.diagonal(inv_U)) > 0))
+            if np.linalg.norm(inv_U - np.diag([1] * u_repr.inv_split + [-1] * (N - u_repr.inv_split))) > 1e-7:
+                raise ValueError("The inversion needs to be represented by a diagonal matrix with all 1 entries in front of the -1 entries")
+            U = U[np.linalg.det(S) > 0]
+        u_repr.U = U
         return u_repr
     
     def match_sym(self, sym: _sym.Symmetry):
-- 
2.43.0


From 3dd3e95cf92eff0d2886c8d9e7f2c228c40c523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 027/110] fix: product of two unitary representations

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 27999af..792166c 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -515,8 +515,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res)):
-                    res.U[i] = np.kron(self.U[i], res.U[i])
+                res.U = np.array([np.kron(u1, u2) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
                     # flip inversion symmetry if self has it
@@ -525,8 +524,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res)):
-                    res.U[i] = np.kron(res.U[i], self.U[i])
+                res.U = np.array([np.kron(u2, u1) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
                     # flip inversion symmetry if self has it
-- 
2.43.0


From bcb546c03a9d697d0a24aa387d1844918a590888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 028/110] fix: symmetrize with the inversion if it is the only
 symmetry operation

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 792166c..adc56fc 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -192,7 +192,7 @@ class UnitaryRepresentation:
         Returns:
             arraylike(N_r, dim, dim): The changed H_r, which respects the symmetry.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return H_r # do nothing if self.U is empty, which stands for all U being the unit matrix
         result = np.zeros_like(H_r) # all U_S are real, so no worries about type here
         # add up all symmetries
@@ -257,7 +257,7 @@ class UnitaryRepresentation:
         Returns:
             function: A function which takes a `H_r` and returns the symmetrized version, just like `self.symmetrize` would.
         """
-        if len(self.U) <= 1:
+        if len(self.U) <= 1 and not self.sym.inversion:
             return lambda x: x # do nothing if self.U is empty, which stands for all U being the unit matrix
         assert len(self.sym.S) == len(self.U)
         neighbor_func = _sym.neighbor_function(neighbors)
-- 
2.43.0


From 84936fe9412b2db8375d990fa5a154e77fa64985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 029/110] fix: symmetrizer of representations without inversion
 or without center neighbor

---
 src/tight_binding_redweasel/unitary_representations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index adc56fc..8ead780 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -301,14 +301,12 @@ class UnitaryRepresentation:
             if c != len(self.sym.S):
                 raise ValueError("neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers " + str(count))
         # task_list_r0 should only contain one index, so check that and simplify
-        task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).T)
-        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
+        # (it is empty, if there is no inversion symmetry or no center in the neighbors)
+        assert all(i == j == task_list_r0[0][0] for i, j, _ in task_list_r0)
         r0_index = task_list_r0[0][0] if len(task_list_r0) else None
         # the rest can stay as is, just numpyify them
-        task_list_rinv = np.reshape(task_list_rinv, (-1, 3))
-        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]])].T)
-        task_list_r = np.reshape(task_list_r, (-1, 3))
-        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]])].T)
+        task_list_rinv = tuple(np.reshape([t for t in task_list_rinv if t[0] in classes], (-1, 3)).astype(int).T)
+        task_list_r = tuple(np.reshape([t for t in task_list_r if t[0] in classes], (-1, 3)).astype(int).T)
         class_copy = []
         class_invcopy = []
         for i, class_other in classes.items():
-- 
2.43.0


From c9c5b7d3c7572eb474aa443c31846a4556152667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 030/110] fix: permuting a predefined representation keeps the
 symmetry operations

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 8ead780..ee54fe2 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -540,7 +540,7 @@ class UnitaryRepresentation:
         """O(3) with inversion -1 for cubic symmetry O_h."""
         sym = _sym.Symmetry.cubic(True)
         u_repr = UnitaryRepresentation(sym, 3)
-        u_repr.U = np.asarray(sym.S)
+        u_repr.U = np.array(sym.S)
         u_repr.inv_split = 0 # no 1 eigenvalues in inversion
         return u_repr
     
@@ -549,7 +549,7 @@ class UnitaryRepresentation:
         """SO(3) with 1 on inversion for cubic symmetry O_h."""
         sym = _sym.Symmetry.cubic(True)
         u_repr = UnitaryRepresentation(sym, 3)
-        u_repr.U = np.asarray(sym.S)
+        u_repr.U = np.array(sym.S)
         u_repr.inv_split = 3 # all 1 eigenvalues in inversion
         return u_repr
     
-- 
2.43.0


From e96652e5e4434b054b04f1449d8098738f26229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 031/110] fix: direct sum of complex representations

---
 src/tight_binding_redweasel/unitary_representations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index ee54fe2..56263ad 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -473,6 +473,7 @@ class UnitaryRepresentation:
         rhs = rhs.copy()
         rhs.match_sym(self.sym)
         u_repr = UnitaryRepresentation(self.sym, self.dim() + rhs.dim())
+        u_repr.U = u_repr.U.astype(np.result_type(self.U, rhs.U, u_repr.U))
         # one of the two representations must fully commit to -1 or 1 on inversion
         if self.inv_split == 0:
             # self is commited to -1 on inversion
-- 
2.43.0


From 9d663687af45a0e0df3e217acd433942eb7691f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 032/110] fix: symmetry test of representations checks generic
 points and the inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 56263ad..293a4ef 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -434,17 +434,19 @@ class UnitaryRepresentation:
         """
         # random sample points
         k_smpl = np.random.random((50, len(self.sym.S[0])))
-        k_smpl = ((0.0, 0.5, 0.0),)
+        inv_U = np.diag([1] * self.inv_split + [-1] * (self.dim() - self.inv_split))
         for k in k_smpl:
             values = []
             for s, u in zip(self.sym.S, self.U):
                 values.append(np.conj(u.T) @ hamilton([s @ k])[0] @ u)
+                if self.sym.inversion:
+                    u = inv_U @ u
+                    values.append(np.conj(u.T) @ hamilton([-s @ k])[0] @ u)
             if np.linalg.norm(np.std(values, axis=0)) > 1e-7:
                 print("symmetry error")
                 #print(np.std(values, axis=0))
                 print((np.std(values, axis=0) > 1e-7).astype(np.int8)) # patterns more clear
                 return False
-        # TODO check inversion symmetry
         return True
     
     def subspaces(self):
-- 
2.43.0


From c439618e749d39ef8836d4cc06432c3dbd86c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 033/110] fix: realized matrices transform with the
 representation of their operation including inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 293a4ef..d26b741 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -399,16 +399,18 @@ class UnitaryRepresentation:
                 continue
             used_k = [k]
             for inv in [1, -1] if self.sym.inversion else [1]:
+                inv_U = np.diag([1] * self.inv_split + [inv] * (self.dim() - self.inv_split))
                 for s, u in zip(self.sym.S, self.U):
                     k_ = s @ k * inv
+                    u = inv_U @ u
                     # * this is why this algorithm is asymtotically slow for large symmetry groups
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
                     used_k.append(k_)
                     if inverse:
-                        full.append(u @ data @ np.conj(u.T))
-                    else:
                         full.append(np.conj(u.T) @ data @ u)
+                    else:
+                        full.append(u @ data @ np.conj(u.T))
                     full_k.append(k_)
         # sort by x, y, z compatible with reshape to meshgrid
         full_k = np.array(full_k)
-- 
2.43.0


From 92a6a471cd0d26a3faab19a39a8b8262d5af461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 034/110] fix: generator sets with duplicates generate the
 whole group

---
 src/tight_binding_redweasel/unitary_representations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index d26b741..d186ba9 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -63,7 +63,7 @@ class UnitaryRepresentation:
             U_new = np.reshape(U_new.reshape(-1, 1, N, N) @ U_new.reshape(1, -1, N, N), (-1, N, N))
             # TODO why does the above not work?
             # convert back to tuples and reduce
-            prev_len = len(S)
+            prev_len = len({tuple([tuple(s_) for s_ in s]) for s in S}) # generators can be listed twice
             S = {}
             for s, u in zip(S_new, U_new):
                 s_key = tuple([tuple(s_) for s_ in s])
-- 
2.43.0


From 3bc71ea7315007ad5a4f2f7f98361237e9703c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 035/110] fix: copy of a HamiltonianSymmetry

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index cbb4012..505c629 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -58,8 +58,8 @@ class HamiltonianSymmetry:
         return sum((u.dim() for u in self.U))
     
     def copy(self) -> Self:
-        u_repr = HamiltonianSymmetry(self.sym.copy(), 1)
-        u_repr.inv = np.array(self.inv)
+        u_repr = HamiltonianSymmetry(self.sym.copy())
+        u_repr.translation = np.array(self.translation)
         u_repr.U = [u.copy() for u in self.U]
         u_repr.pos = [x.copy() for x in self.pos]
         u_repr.names = self.names.copy()
-- 
2.43.0


From d4cd7d3a1703f40cff8a38a84b13627b3392064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 036/110] fix: applying a symmetry operation to a hamiltonian
 uses the right phase and inversion

---
 .../hamiltonian_symmetry.py                   | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 505c629..5381ec2 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -24,7 +24,7 @@ class HamiltonianSymmetry:
     There is an additional phase added to each individual unitary representation.
     The total symmetry can be expressed as:
 
-    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
     In solid state physics, the most important example for this
     is the **system hamiltonian**, which gives the class its name.
@@ -241,7 +241,7 @@ class HamiltonianSymmetry:
         """Apply the unitary transformation for one symmetry operation
         at the given k-point to the hermitian operator to get
 
-        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
         Args:
             k (arraylike): The spacial point
@@ -251,21 +251,23 @@ class HamiltonianSymmetry:
                                         (not covered by the index alone). Defaults to False.
 
         Returns:
-            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(ik(1+S)(r_1-r_2))`
+            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
         """
         # apply inversion first, as that is the simple part
         hamiltonian_inv = np.array(hamiltonian)
-        n1 = 0
-        for u1, r1 in zip(self.U, self.pos):
-            d1 = u1.dim()
-            u1 = 1 if u1.inv_split > 0 else -1
-            if u1 < 0:
-                # TODO use r1 !?!
-                hamiltonian_inv[n1:n1+d1,:] *= -1
-                hamiltonian_inv[:,n1:n1+d1] *= -1
+        if inversion:
+            n1 = 0
+            for u1 in self.U:
+                d1 = u1.dim()
+                if u1.inv_split == 0:
+                    hamiltonian_inv[n1:n1+d1,:] *= -1
+                    hamiltonian_inv[:,n1:n1+d1] *= -1
+                n1 += d1
         # now apply the symmetry operation
-        result = np.zeros_like(hamiltonian)
-        s = self.sym.S[s_index]
+        result = np.zeros_like(hamiltonian, dtype=complex)
+        k = np.asarray(k)
+        # phase difference between the atom in the unit cell and the atom, to which it is moved by the symmetry operation
+        s_inv = np.linalg.inv(self.sym.S[s_index]) * (-1 if inversion else 1)
         n1 = 0
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
@@ -274,8 +276,7 @@ class HamiltonianSymmetry:
                 d2 = u2.dim()
                 u1_ = u1.U[s_index]
                 u2_ = u2.U[s_index]
-                fac = np.exp(2j*np.pi * k @ (r1 - s @ r2)) # TODO check again!
-                fac *= np.exp(-2j*np.pi * k @ (r2 - s @ r1))
+                fac = np.exp(2j*np.pi * (k @ (s_inv @ (r1 - r2) - (r1 - r2))))
                 result[n1:n1+d1,n2:n2+d2] += fac * u1_ @ hamiltonian_inv[n1:n1+d1,n2:n2+d2] @ np.conj(u2_.T)
                 n2 += d2
             n1 += d1
-- 
2.43.0


From a1ee702d620db2c20b99086f119b9529a73edf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 037/110] fix: symmetric points of non orthogonal symmetries
 match their hamiltonian

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 5381ec2..3fc02d6 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -542,7 +542,7 @@ class HamiltonianSymmetry:
             used_k = [k]
             for inv in [1, -1] if self.sym.inversion else [1]:
                 for s_index, s in enumerate(self.sym.S):
-                    k_ = s @ k * inv
+                    k_ = np.linalg.inv(s).T @ k * inv
                     # * this is why this algorithm is asymtotically slow
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
-- 
2.43.0


From e47c501da21545fe8cba3ee8be1f402202760616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 038/110] fix: symmetrised hamiltonians keep the inversion if
 the neighbors do not cover it

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 3fc02d6..3403a4b 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -373,7 +373,8 @@ class HamiltonianSymmetry:
                         u1_ = u1.U[k]
                         u2_ = u2.U[k]
                         j, mirror = neighbor_func(s @ (r + r2 - r1) - r2 + r1)
-                        if j is not None:
+                        # the inversion of every symmetric neighbor needs to be available as well
+                        if j is not None and (not self.sym.inversion or neighbor_func(-s @ (r + r2 - r1) - r2 + r1)[0] is not None):
                             h = H_r3[j]
                             if mirror:
                                 h = np.conj(h.T)
@@ -443,7 +444,8 @@ class HamiltonianSymmetry:
                     s_table = {}
                     for k, s in enumerate(self.sym.S):
                         j, mirror = neighbor_func(s @ (r - r1 + r2) + r1 - r2)
-                        if j is not None:
+                        # the inversion of every symmetric neighbor needs to be available as well
+                        if j is not None and (not self.sym.inversion or neighbor_func(-s @ (r - r1 + r2) + r1 - r2)[0] is not None):
                             # reduce total_table by merging entries which have the same effect (based on the given self.U)
                             # doing this makes it go from 8448 to 8019 entries in my testcase
                             # NOTE: only works if the U are exact... rounding causes a race condition
-- 
2.43.0


From 6f810cadc70f5bfdaf32e2f5108c608b62a7d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 039/110] fix: sphere smearing with gradients of left handed
 lattices

---
 src/tight_binding_redweasel/smearing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index 8e5bcbd..f316bff 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -490,7 +490,7 @@ class SphereSmearing(SmearingMethod):
             # gradients are in k_space, we want them to remain there,
             # as the lattice is assumed to be well spaced in reciprocal space.
             # that means the total volume is not 1, but np.linalg.det(B).
-            volume = np.linalg.det(B)
+            volume = np.abs(np.linalg.det(B))
             cell_volume = volume / len(positions[...,0].flat)
             # to counteract that, one can scale the gradients
             self.grads = np.moveaxis(grads, -1, 0) * cell_volume**(1/3)
-- 
2.43.0


From a9ba3d9bb807bea63fb17578b8968a93215c02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 040/110] fix: band ranges of the density of states contain the
 sampled bands

---
 src/tight_binding_redweasel/density_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9c2eb21..cd30310 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -290,7 +290,9 @@ class DensityOfStates:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
                 # compute min/max values and store them
-                self.bands_range.append(tuple(model(np.array([min_k, max_k]))[:, i]))
+                # (the Newton step may also miss the extrema, so keep the sampled ones in that case)
+                min_e, max_e = model(np.array([min_k, max_k]))[:, i]
+                self.bands_range.append((min(min_e, np.min(self.bands[..., i])), max(max_e, np.max(self.bands[..., i]))))
         else:
             self.bands_range = [(np.min(self.bands[..., i]), np.max(self.bands[..., i])) for i in range(self.bands.shape[-1])]
         # TODO add bands_range_k_points, because that is useful information in some contexts
-- 
2.43.0


From 4b6f00dcfe8104be732a111c02a947ba694cefbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 041/110] fix: the fermi energy is found for all electron
 counts without a jump of the states

---
 .../density_of_states.py                       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index cd30310..70ed7a4 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -489,13 +489,23 @@ class DensityOfStates:
         e_index = list(states_smpl > electrons).index(True) - 1
         fermi_energy = (electrons - states_smpl[e_index]) / (states_smpl[e_index + 1] - states_smpl[e_index]) * (e_smpl[e_index + 1] - e_smpl[e_index]) + e_smpl[e_index]
         # now do a couple newton steps to find the exact value
+        # (with bisection steps whenever the newton step leaves the interval of the solution or density = 0)
+        e_low, e_high = e_smpl[e_index], e_smpl[e_index + 1]
         for _ in range(maxsteps):
             states, density = self.states_density(fermi_energy)
-            # TODO handle density = 0 in metals
-            fermi_energy -= (states - electrons) / density
-            if abs((states - electrons) / density) <= tol:
+            if states == electrons:
                 return fermi_energy
-        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs((states - electrons) / density)} > {tol}.")
+            if states < electrons:
+                e_low = fermi_energy
+            else:
+                e_high = fermi_energy
+            step = (states - electrons) / density if density > 0 else np.inf
+            if abs(step) <= tol:
+                return fermi_energy - step
+            fermi_energy -= step
+            if not (e_low < fermi_energy < e_high):
+                fermi_energy = (e_low + e_high) / 2
+        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs(step)} > {tol}.")
 
     def bandgap(self, electrons: float) -> float:
         """Return the (already precomputed) bandgap.
-- 
2.43.0


From d1a744b300a3cb06b172e6d012b451b16db2e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 042/110] fix: the naive fermi energy lies between the last
 filled and the first empty state

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 70ed7a4..3fbe2a8 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -180,7 +180,7 @@ def int_poly(x0, x1, a, b, c):
 
 def naive_fermi_energy(bands, electrons):
     i = round(np.prod(np.shape(bands)[:-1]) * electrons)
-    return np.mean(np.sort(np.ravel(bands))[i:i + 2])
+    return np.mean(np.sort(np.ravel(bands))[max(i - 1, 0):i + 1])
 
 
 def naive_energy(bands, mu, T, spin_factor=2):
-- 
2.43.0


From 8f0077a20fd706b6d0b1bfc338669c53329296e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 043/110] fix: chemical potential of insulators at low
 temperatures is not nan

---
 src/tight_binding_redweasel/density_of_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 3fbe2a8..9bf57f4 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -128,6 +128,8 @@ def secant(y, f, a, b, tol=1e-16, max_i=100):
     """
     fa = f(a) - y
     fb = f(b) - y
+    if fa == fb or (abs(fa) < tol and abs(fb) < tol):
+        return b
     for i in range(max_i):
         x = (a * fb - b * fa) / (fb - fa)
         if a == x or b == x:
@@ -574,7 +576,7 @@ class DensityOfStates:
                 res.append(fermi_energy)
             elif T >= T_lin:
                 beta = 1 / (k_B * T)  # 1/eV
-                res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat'), fermi_energy, fermi_energy + 0.1, tol, maxsteps))
+                res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat'), fermi_energy + 0.1, fermi_energy, tol, maxsteps))
             else:
                 new_beta = 1 / (k_B * T)  # 1/eV
                 if abs(beta - new_beta) / new_beta > 5e-2:
@@ -585,7 +587,7 @@ class DensityOfStates:
                     states = np.array([self.states_below(energy) for energy in energy_smpl])
                 # keep distribution if it doesn't cause too big errors (performance)
                 beta = new_beta
-                res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl, states, beta, extrapolation='flat', extrapolation_point=(e1, self.model_bandcount())), fermi_energy, fermi_energy + 1 / beta, tol, maxsteps))
+                res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl, states, beta, extrapolation='flat', extrapolation_point=(e1, self.model_bandcount())), fermi_energy + 1 / beta, fermi_energy, tol, maxsteps))
         return np.array(res)
 
     def energy(self, mu: float, T=0.0, N=256, spin_factor=2) -> float:
-- 
2.43.0


From fc6eea4ad332916824789f1e00f0c3d90f538198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 044/110] fix: the total energy includes the energy of
 completely filled bands correctly

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9bf57f4..b051b75 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -624,7 +624,7 @@ class DensityOfStates:
                 # Romberg extrapolation with just one more step -> ~ Simpson rule.
                 # this assumes that the density is continuous, which is the case for 3D bandstructures.
                 int2 = np.sum((states[:-2:2] + states[2::2])/2 * (e_smpl[2::2] - e_smpl[:-2:2]))
-                energy += mu * states[-1] - (int1 + (int1 - int2)/(4 - 1))
+                energy += e_smpl[-1] * states[-1] - (int1 + (int1 - int2)/(4 - 1))
         # TODO allow more than one T to be used!
         if T <= 0.0:
             # this part is pretty well convergent
-- 
2.43.0


From 80394c2aaab8c45a2372bac0579104cd68b8d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 045/110] fix: the total energy at finite temperatures does not
 depend on the zero of the energy

---
 src/tight_binding_redweasel/density_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index b051b75..d15a515 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -663,7 +663,9 @@ class DensityOfStates:
         # calculate custom distribution for precision/cost balance
         e_smpl = _samples(e0, e1, mu, beta, N)
         states = np.array([self.states_below(energy) for energy in e_smpl])
-        return (energy + accumulate(e_smpl, states) - self.density(mu) * mu*mu/2) * spin_factor
+        # mu is the sample with the index N//2, use the density of the piecewise linear N(e) for consistency
+        density = (states[N//2] - states[N//2-1]) / (e_smpl[N//2] - e_smpl[N//2-1])
+        return (energy + accumulate(e_smpl, states) - density * mu*mu/2) * spin_factor
 
     def seebeck(self, electrons: float, T_smpl: Iterable[float], N=30, h=1e-4) -> np.ndarray:
         """The derivative of the chemical potential w.r.t. temperature.
-- 
2.43.0


From 67d087143489fb720eee227bf5cdf939faa84c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 046/110] fix: wrong sign of the right extrapolation terms in
 convolve_ddf

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index d15a515..fe90ee4 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -112,10 +112,10 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
     if extrapolation == 'flat':
         if extrapolation_point is None:
             s += df(x - energy_smpl[0]) * states[..., 0]
-            s += df(energy_smpl[-1] - x) * states[..., -1]
+            s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
-            s += df(extrapolation_point[0] - x) * extrapolation_point[1]
+            s -= df(extrapolation_point[0] - x) * extrapolation_point[1]
     return s
 
 
-- 
2.43.0


From a4dce265292aabbb67e506bc801a2afb00b99135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 047/110] fix: rounded end points of the energy samples hit the
 pole of the density at the band edge

---
 src/tight_binding_redweasel/density_of_states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index fe90ee4..167dd65 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -199,7 +199,10 @@ def _samples(e0, e1, mu, beta, N):
     e0 = np.maximum(mu - 30 / beta, e0)
     e1 = np.minimum(mu + 30 / beta, e1)
     #return np.log(1 / (1e-16 + np.linspace(scipy.special.expit(-beta * (e0 - mu)), scipy.special.expit(-beta * (e1 - mu)), N)) - 1 + 1e-16) / beta + mu
-    return -scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), 0.5, N//2, endpoint=False), np.linspace(0.5, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu
+    smpl = -scipy.special.logit(np.concatenate([np.linspace(scipy.special.expit(-beta * (e0 - mu)), 0.5, N//2, endpoint=False), np.linspace(0.5, scipy.special.expit(-beta * (e1 - mu)), (N+1)//2)])) / beta + mu
+    # the end points must not be rounded into the range, as the density can have a pole there
+    smpl[0], smpl[-1] = e0, e1
+    return smpl
 
 class DensityOfStates:
     """This class represents the density of states for a given 3D bandstructure model.
-- 
2.43.0


From 5615be46cf565997be0050997f88c72f168be721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 048/110] fix: energy() was nan or wrong for chemical
 potentials outside of the bands

---
 src/tight_binding_redweasel/density_of_states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 167dd65..9a0e663 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -661,10 +661,11 @@ class DensityOfStates:
                 return -simple_term + a / 2 * int_poly((e0 - mu) * beta, (e1 - mu) * beta, 1/beta**2, 2*mu/beta, mu*mu)
             s = np.sum(segment(e_smpl[:-1], e_smpl[1:], states[:-1], states[1:]))
             # add segments/other functions as extrapolation on both side here to get correct high temperature behavior
-            s += segment(e_smpl[-1], e_smpl[-1] + 8. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
+            s += segment(e_smpl[-1], e_smpl[-1] + 40. / beta, self.model_bandcount(), self.model_bandcount()) # flat N(e) above the energy range
             return s
         # calculate custom distribution for precision/cost balance
-        e_smpl = _samples(e0, e1, mu, beta, N)
+        # (mu has to be inside of the sampled range, even if it's not inside of the bands)
+        e_smpl = _samples(min(e0, mu - 1/beta), max(e1, mu + 1/beta), mu, beta, N)
         states = np.array([self.states_below(energy) for energy in e_smpl])
         # mu is the sample with the index N//2, use the density of the piecewise linear N(e) for consistency
         density = (states[N//2] - states[N//2-1]) / (e_smpl[N//2] - e_smpl[N//2-1])
-- 
2.43.0


From 6cdd0ab37b844a5639da044b026e5543889a6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 049/110] fix: chemical potential was nan if the Fermi-energy
 is at the edge of the bands

---
 src/tight_binding_redweasel/density_of_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9a0e663..9801715 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -585,7 +585,8 @@ class DensityOfStates:
                 if abs(beta - new_beta) / new_beta > 5e-2:
                     # recalculate distribution for precision
                     beta = 0.25 / (k_B * T)  # 1/eV
-                    energy_smpl = _samples(e0, e1, fermi_energy, beta, N)
+                    # (all the samples of one side coincide, if the Fermi-energy is at the edge of the bands)
+                    energy_smpl = np.unique(_samples(e0, e1, fermi_energy, beta, N))
                     beta = new_beta
                     states = np.array([self.states_below(energy) for energy in energy_smpl])
                 # keep distribution if it doesn't cause too big errors (performance)
-- 
2.43.0


From 850d60cf49d1603127874c6a10da34c241a2f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 050/110] fix: secant left the known bracket and missed the
 chemical potential of insulators

---
 src/tight_binding_redweasel/density_of_states.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9801715..35b8a3a 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -130,11 +130,16 @@ def secant(y, f, a, b, tol=1e-16, max_i=100):
     fb = f(b) - y
     if fa == fb or (abs(fa) < tol and abs(fb) < tol):
         return b
+    # the last points on both sides of the solution, to stay in between once they are known
+    bracket = {fa > 0: a, fb > 0: b}
     for i in range(max_i):
         x = (a * fb - b * fa) / (fb - fa)
+        if len(bracket) == 2 and not (min(bracket.values()) < x < max(bracket.values()) and abs(fb) < 0.5 * abs(fa)):
+            x = (bracket[False] + bracket[True]) / 2
         if a == x or b == x:
             return x
         val = f(x) - y
+        bracket[val > 0] = x
         a = b
         fa = fb
         b = x
-- 
2.43.0


From ea62bf54aa1709a346e3f86b7a12d89f0560af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 051/110] fix: chemical potential at high temperature with a
 flat lowest band

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 35b8a3a..a33185f 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -584,7 +584,7 @@ class DensityOfStates:
                 res.append(fermi_energy)
             elif T >= T_lin:
                 beta = 1 / (k_B * T)  # 1/eV
-                res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat'), fermi_energy + 0.1, fermi_energy, tol, maxsteps))
+                res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat', extrapolation_point=(e1, self.model_bandcount())), fermi_energy + 0.1, fermi_energy, tol, maxsteps))
             else:
                 new_beta = 1 / (k_B * T)  # 1/eV
                 if abs(beta - new_beta) / new_beta > 5e-2:
-- 
2.43.0


From 44ff3ee1f73418958ab0b7b8e572240a326db580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 052/110] fix: KIntegral of an isolator at T=0 failed instead
 of giving empty integrals

---
 src/tight_binding_redweasel/bulk_properties.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index a5930bf..c7eba7b 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -212,8 +212,8 @@ class KIntegral:
                 self.integration_weights = np.array([[1]])
             else:
                 # no e_smpl, all integrals are empty for T=0
-                pass
-        self.e_smpl = np.array(self.e_smpl)
+                self.e_smpl = np.zeros(0)
+                self.integration_weights = np.zeros((len(T), 0))
         for e in self.e_smpl:
             k_smpl, band_indices, weights, _ = dos_model.fermi_surface_samples(e, improved_points=improved_points, improved_weights=False, normalize=None)
             self.k_smpl.append(k_smpl)
@@ -296,14 +296,14 @@ class KIntegral:
                 I_moments.append(I)
             return np.array(I_moments)
         else:
-            if len(self.beta) == 1 and self.beta[0] > 1e16:
+            if np.all(self.beta > 1e16):
                 # no fermi surface!
                 # to get the output shape right, evaluate g at one point
                 if hessians:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))
+                    f_res = g(self.fermi_energy, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3)))
                 else:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.zeros((1, 3))))
-                return np.array([[I]])
+                    f_res = g(self.fermi_energy, np.zeros((1, 3)), np.zeros((1, 3)))
+                return np.zeros((moments + 1, len(self.beta)) + np.shape(f_res)[1:])
             # TODO see comment in __init__
             raise NotImplementedError("integrals for isolators (semiconductors) are currently not implemented")
 
-- 
2.43.0


From d85dc95bec979a19d24182b3834c37ef5b4e3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 053/110] fix: conductivity_hall_tensor with a k-dependent or
 integer relaxation time

---
 src/tight_binding_redweasel/bulk_properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index c7eba7b..1098ed9 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -375,7 +375,7 @@ class KIntegral:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
         V_EZ = np.linalg.det(A * 1e-10)
-        if isinstance(tau, float):
+        if isinstance(tau, (int, float)):
             tau_v = tau
             tau = lambda _: tau_v
         tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
@@ -451,11 +451,11 @@ class KIntegral:
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
         V_EZ = np.linalg.det(A * 1e-10)
-        if isinstance(tau, float):
+        if isinstance(tau, (int, float)):
             tau_v = tau
             tau = lambda _: tau_v
-        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k))
-        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k)**2)
+        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
+        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1, 1))**2)
         I = self.integrate_df_A(A, lambda _e, v, h, k: tau_2(np.einsum("yds,na,ns,nbd->naby", antisym_tensor, v, v, h), k), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False)[0]
         sigma3 = 1 / V_EZ * elementary_charge**3 / eV * spin_factor * I
-- 
2.43.0


From 4b79ded36686054bd09b0d89f0e939f3bfda4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 054/110] fix: Fermi surface weights and transport coefficients
 of left handed lattices had the wrong sign

---
 src/tight_binding_redweasel/bulk_properties.py   | 10 +++++-----
 src/tight_binding_redweasel/density_of_states.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 1098ed9..c24c0cc 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -374,7 +374,7 @@ class KIntegral:
         Returns:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, (int, float)):
             tau_v = tau
             tau = lambda _: tau_v
@@ -386,7 +386,7 @@ class KIntegral:
 
     # conductivity divided by the electron scattering time tau. Assuming constant tau. Result in 1/(Ohm*m*s)
     def drude_factor(self, A: np.ndarray, spin_factor=2):
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, _k: v[:, None, :] * v[:, :, None], hessians=False)[0]
         D = spin_factor * elementary_charge**2 * I / eV / V_EZ
         return D  # result is in 1/(Ohm*m)/s
@@ -407,7 +407,7 @@ class KIntegral:
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # Somehow their units don't match the expected result unit, so I removed the division by the speed of light to make it work.
         # I canceled one e from sigma_xx with e^2 from sigma_xyz
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         # sigma_xyz = elementary_charge/c/eV * self.integrate_df_A(A, lambda _e, v, h, _k: (v[:,0]**2*h[:,1,1] - v[:,0]*v[:,1]*h[:,1,0]), hessians=True)
         I = self.integrate_df_A(A, lambda _e, v, h, _k: (v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 1, 0]), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: v[:, 0]**2, hessians=False)[0]
@@ -421,7 +421,7 @@ class KIntegral:
         # PhysRevB.45.10886 Hall effect formula with constant relaxation time over k.
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # I canceled one e from sigma_0 with e^2 from sigma_H
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, h, _k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: (v**2).sum(-1), hessians=False)[0]
         sigma_H = elementary_charge / eV * spin_factor / 6 * I
@@ -450,7 +450,7 @@ class KIntegral:
         """
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, (int, float)):
             tau_v = tau
             tau = lambda _: tau_v
diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index a33185f..1e1b3b9 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -797,7 +797,7 @@ class DensityOfStates:
             # HACK: scale up the weights to fill the entire briloun zone.
             # The assumption here is, that if the k_range is anything but [-0.5,0.5]^3,
             # then that is, because the other parts are equal and can be reproduced by symmetry
-            w *= np.linalg.det(self.A) / self.crystal_volume
+            w *= abs(np.linalg.det(self.A)) / self.crystal_volume
             if improved_points:
                 if "bands_grad" in dir(self.model):
                     # if available, evaluate the model with bands and exact gradients (way more precise!)
-- 
2.43.0


From 7821ec36228f68a41570fe4c27029d8e1a73952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 055/110] fix: KIntegral with a single Fermi surface (N=1) at
 finite temperature

---
 src/tight_binding_redweasel/bulk_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index c24c0cc..3937134 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -133,7 +133,7 @@ def _integration_points(fermi_energy: float, T_min: float, T_max: float, N: int)
 def _integration_weights(x: np.ndarray, beta_j: np.ndarray, mu_j: np.ndarray, E_min: float, E_max: float, rtol=1e-4):
     assert len(x) % 2 == 1
     if len(x) == 1:
-        return np.array([1.0])
+        return x, np.ones((len(beta_j), 1))
     b = [2 * scipy.special.zeta(n) * (1 - 2**(1 - n)) if n % 2 == 0 else 0 for n in range(len(x))]
     I_nj = lambda n, j: beta_j[j]**(-n) * b[n]
     # sum_i X_ijn w_ij = I_jn
-- 
2.43.0


From c0f6def92c1a5d4aa0952158375c0533a52cfe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 056/110] fix: bands_grad_hess of no k points, e.g. for
 energies inside of a gap

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7256c2b..7be18a3 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -815,7 +815,7 @@ class AsymTightBindingModel:
         hess1 -= dnorm + np.swapaxes(dnorm, 1, 2)
         # second order perturbation theory terms
         no_diag = np.array(df_ev)  # copy before modification (grads is a view)
-        for i in range(len(grads[0, 0])):
+        for i in range(grads.shape[-1]):
             no_diag[:, :, i, i] = 0  # zero out diagonal terms
         # dev = ev[:,None,:,:] @ (no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40))
         # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
-- 
2.43.0


From 1c7974ac3a5808d82b45f9636f13627d1b162688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 057/110] fix: windowed loss and error histogram skipped the
 last band offset (inf or crash for equal band counts)

---
 src/tight_binding_redweasel/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index 733fdec..ff849f3 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -57,7 +57,7 @@ def model_windowed_loss(bands, ref_bands, min_energy, max_energy, allow_skipped_
         select = (min_energy <= ref_bands) & (ref_bands <= max_energy)
         cost = float("inf")
         # find out bandoffset by checking all bandoffsets and finding the one with the lowest error
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands) * select[:,i:i+compare_bands]
             else:
@@ -98,7 +98,7 @@ def model_error_hist(bands, ref_bands, N=50, allow_skipped_bands=False):
         error = None
         ref_bands2 = ref_bands
         cost = float("inf")
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands)
             else:
-- 
2.43.0


From 62ffcd461c816bc9f10ec308926ac8e438eee3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 058/110] fix: printing the progress of an exact fit (all
 errors zero) failed with a ValueError

---
 src/tight_binding_redweasel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 8e6dfde..bc55a9f 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -42,7 +42,7 @@ class OptimisationLogger:
             # U+2581 = ▁ ... U+2588 = █
             scale = np.max(max_err)
             error_vis = "".join(
-                [" " if err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
+                [" " if err <= scale/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
             print(f"{iteration:3}: loss{loss:9.2e}{scale:8.1e}×[{error_vis}]", end="")
             if not self.update_line:
                 print()
-- 
2.43.0


From e7975bf088b836579260a1e1da3823ab53864038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 059/110] fix: interrupt at the start of the first iteration or
 while logging left an unbound iteration or a torn log

---
 src/tight_binding_redweasel/bandstructure.py      | 2 ++
 src/tight_binding_redweasel/logger.py             | 2 ++
 src/tight_binding_redweasel/tight_binding_asym.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index f6fb0c5..f2d8f2f 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -330,6 +330,7 @@ class BandStructureModel:
         last_add = np.zeros_like(self.params)
         self.normalize()
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -489,6 +490,7 @@ class BandStructureModel:
 
         self.normalize()
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index bc55a9f..ea6e306 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -25,6 +25,8 @@ class OptimisationLogger:
     def abort(self):
         if self.aborted:
             raise ValueError("re-aborted run")
+        # drop the half of an entry that was interrupted while it was added
+        del self.iterations[len(self.loss):]
         self.add_message("aborted")
         self.aborted = True
 
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7be18a3..c7b4cbf 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -419,6 +419,7 @@ class AsymTightBindingModel:
         last_add = np.zeros_like(self.H.H_r)
         last_add_s = np.zeros_like(self.S.H_r)
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -617,6 +618,7 @@ class AsymTightBindingModel:
 
         # loss = self.loss(k_smpl, ref_bands, band_, band_offset)
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
-- 
2.43.0


From 82c6104ad0b1eba91e62fb74bd27a5c1d4f986c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 060/110] fix: interrupting optimize_cg could keep a half
 updated model (doubled onsite matrix or lost zeros)

---
 src/tight_binding_redweasel/bandstructure.py      | 12 +++++++-----
 src/tight_binding_redweasel/tight_binding_asym.py | 10 ++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index f2d8f2f..68636ea 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -535,14 +535,16 @@ class BandStructureModel:
                 step = precond_func(conjugate_gradient_solve(A, b, err=float(np.linalg.norm(b)) * 1e-3, max_i=max_cg_iterations))
                 step *= 1 / len(k_smpl)
 
-                self.params -= step
+                # only store the complete step, such that an interrupt can't leave a half updated model
+                params = self.params - step
                 if self.symmetrizer is not None:
-                    self.params = self.symmetrizer(self.params)
+                    params = self.symmetrizer(params)
                 if keep_zeros:
-                    self.params *= H_r_mask
+                    params *= H_r_mask
                 # keep the 0 entry hermitian!
-                self.params[0] += np.conj(self.params[0].T)
-                self.params[0] /= 2
+                params[0] += np.conj(params[0].T)
+                params[0] /= 2
+                self.params = params
             else:
                 iteration = iterations
         except KeyboardInterrupt:
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index c7b4cbf..e939be7 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -673,12 +673,14 @@ class AsymTightBindingModel:
                 step = precond(conjugate_gradient_solve(A, b, x0=x0, err=np.linalg.norm(b) * 1e-3, max_i=max_cg_iterations))
                 step *= 1 / len(k_smpl)
 
-                self.H.H_r -= step
+                # only store the complete step, such that an interrupt can't leave a half updated model
+                H_r = self.H.H_r - step
                 if keep_zeros:
-                    self.H.H_r *= H_r_mask
+                    H_r *= H_r_mask
                 # keep the 0 entry hermitian!
-                self.H.H_r[0] += np.conj(self.H.H_r[0].T)
-                self.H.H_r[0] /= 2
+                H_r[0] += np.conj(H_r[0].T)
+                H_r[0] /= 2
+                self.H.H_r = H_r
                 log.add_data(iteration, loss, max_err)
             else:
                 iteration = iterations
-- 
2.43.0


From fa2b8379e2d56a4a85e31713aa2b235e595a0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 061/110] fix: fits with a symmetrizer could end with a non
 hermitian onsite matrix

---
 src/tight_binding_redweasel/bandstructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 68636ea..fbcd4dd 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -558,9 +558,11 @@ class BandStructureModel:
         """
         Apply as many transformations as possible to normalize the parameters.
         Sadly this is not enough to guarantee that two models with the same coefficient functions (neighbors) and bandstructure will have the same hamiltonian.
-        If a symmetrizer is specified in the model, then only the symmetrizer will be executed, to make sure that nothing breaks the symmetry.
+        If a symmetrizer is specified in the model, then only the symmetrizer (on a hermitian onsite matrix) will be executed, to make sure that nothing breaks the symmetry.
         """
         if self.symmetrizer is not None:
+            # the zero matrix is always hermitian
+            self.params[0] = (self.params[0] + np.conj(self.params[0].T)) / 2
             self.params = self.symmetrizer(self.params)
             # don't use the normalization if a symmetrizer is specified, as it might mess with that.
             return
-- 
2.43.0


From 5f66a4653875eb093356d77cdc16f26c28bc077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 062/110] fix: tetragonal_bc_points replaced the global
 dictionary of symmetry points

---
 src/tight_binding_redweasel/kpaths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 378fda8..abbcffe 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -406,8 +406,8 @@ def tetragonal_bc_points(c: float) -> dict:
         dict: _description_
     """
     if c == 1:
-        global points
-        return points  # cubic, is contained in the global points dict
+        # NOTE: a global statement would apply to the whole function and overwrite the global dict below
+        return globals()["points"]  # cubic, is contained in the global points dict
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['X'] = (np.array([0.5, 0.5, 0]), 'X')
-- 
2.43.0


From 512605da0a7ae94107d0a49a4b7e10bd64a6418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 063/110] fix: KPath treated an explicit start point (tuple or
 list of numbers) as list of points

---
 src/tight_binding_redweasel/kpaths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index abbcffe..1c3598a 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -43,7 +43,7 @@ class KPath(Sequence):
         self.points = points  # no copy, be careful!
         self.indices = [0]  # symmetry point indices
         additional = []
-        if isinstance(start, list) or isinstance(start, tuple):
+        if isinstance(start, (list, tuple)) and (isinstance(start[0], str) or np.ndim(start[0]) > 0):
             # accept a list of points instead of start
             additional = start[1:]
             start = start[0]
-- 
2.43.0


From dc34c718adae7c29c6027d5fea6bc486ce9d4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 064/110] fix: periodic interpolation of samples outside of the
 unit cell [-0.5, 0.5]

---
 src/tight_binding_redweasel/kpaths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 1c3598a..57524a5 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -274,6 +274,9 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
         k_smpl_orig = k_smpl
         k_smpl, bands = sym.realize_symmetric_data(
             k_smpl, bands, unit_cell=periodic, average_bad_duplicates=True)
+    elif periodic:
+        # wrap into [-0.5, 0.5[, rounding errors don't move the points at the border
+        k_smpl = (k_smpl + (0.5 + 1e-6)) % 1.0 - (0.5 + 1e-6)
     if grid is None:
         grid = (round(len(k_smpl)**(1 / kdim)),)*kdim
     else:
-- 
2.43.0


From 690df384a86d0b8b24afba6913818fa1f297d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 065/110] fix: from_disk read the atom positions with the wrong
 length unit

---
 src/tight_binding_redweasel/qespresso_interface.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..574c976 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1396,15 +1396,13 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         a1 = [float(x) for x in section.getElementsByTagName("a1")[0].firstChild.nodeValue.strip().split()]
         a2 = [float(x) for x in section.getElementsByTagName("a2")[0].firstChild.nodeValue.strip().split()]
         a3 = [float(x) for x in section.getElementsByTagName("a3")[0].firstChild.nodeValue.strip().split()]
-        A = np.array([a1, a2, a3]).T
-        if crystal.unit == "angstrom":
-            A *= bohr_to_angstrom
-        crystal.A = A
+        A_bohr = np.array([a1, a2, a3]).T
+        crystal.A = A_bohr * bohr_to_angstrom if crystal.unit == "angstrom" else A_bohr
         for atom in positions.getElementsByTagName("atom"):
             atom_type = atom.getAttribute("name")
             atom_pos = [float(x) for x in atom.firstChild.nodeValue.strip().split()]
             # convert atom_pos to crystal coordinates, as those are used by the class
-            atom_pos = np.linalg.inv(A) @ atom_pos
+            atom_pos = np.linalg.inv(A_bohr) @ atom_pos
             basis.append(atom_pos)
             types.append(atom_type)
         crystal.basis = np.array(basis)
-- 
2.43.0


From 5130b0d91182df6deba07b2b535453a75d41c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 066/110] fix: from_disk converts the energy cutoff and the
 smearing from Hartree to Rydberg

---
 src/tight_binding_redweasel/qespresso_interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 574c976..d409b55 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1407,13 +1407,13 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             types.append(atom_type)
         crystal.basis = np.array(basis)
         crystal.types = np.array(types)
-        crystal.kinetic_energy_cutoff = float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
+        # the xml file uses Hartree units, but the parameters of pw.x are in Rydberg
+        crystal.kinetic_energy_cutoff = 2 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-                # TODO check unit!
-                crystal.T = float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
+                crystal.T = 2 * float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
     if prepare_pseudopotentials:
         qe_prepare()
     return crystal
-- 
2.43.0


From fbeb863f58ef00bf7e6937aadcc2d9e58968a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 067/110] fix: lattice symmetries which are not symmetries of
 the crystal are not returned as symmetries of the bands

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index d409b55..65c2278 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -532,6 +532,10 @@ class QECrystal:
             # now find all the data in the xml file
             symmetry_list = output.getElementsByTagName("symmetry")
             for sym in symmetry_list:
+                info = sym.getElementsByTagName("info")
+                if len(info) and info[0].firstChild is not None and info[0].firstChild.nodeValue.strip() == "lattice_symmetry":
+                    # only a symmetry of the empty lattice
+                    continue
                 rot = sym.getElementsByTagName("rotation")[0]
                 # read content and convert to matrix
                 content = rot.firstChild.nodeValue
-- 
2.43.0


From a630b1351cbc277b988d283c3dd03022f0480723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 068/110] fix: charge density coefficients were misaligned,
 real and at cartesian vectors

---
 src/tight_binding_redweasel/qespresso_interface.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 65c2278..dea15ba 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -819,14 +819,15 @@ class QECrystal:
             
             mill = np.fromfile(f, dtype='int32', count=3*ngm_g)
             mill = mill.reshape((ngm_g, 3))
-            # k+G = xk + h*b1 + k*b2 + l*b3
-            g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
+            # G = h*b1 + k*b2 + l*b3
+            # mill is in "crystal coordinates", so just return that as G
 
-            rho_g = np.zeros((nspin, ngm_g))
+            rho_g = np.zeros((nspin, ngm_g), dtype="complex128")
+            f.seek(8, 1)
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
                 f.seek(8, 1)
-        return g_smpl, rho_g
+        return mill, rho_g
 
     def read_dos(self):
         """Read the data from the last dos.x run.
-- 
2.43.0


From 2445c690539fa51fbe073c2969f4027be090b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 069/110] fix: order of the spin components of noncollinear
 wavefunctions

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index dea15ba..982680b 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -783,8 +783,8 @@ class QECrystal:
                     evc[i,:] = np.fromfile(f, dtype='complex128', count=npol*igwx)
                     f.seek(8, 1)
                 
-                # TODO is this order correct???
-                evc_list.append(evc.reshape(nbnd, igwx, npol))
+                # all plane waves of the first spin component come before those of the second
+                evc_list.append(evc.reshape(nbnd, npol, igwx).swapaxes(1, 2))
                 g_smpl_list.append(mill)
         inv_order = np.zeros(len(order), dtype=np.int64)
         inv_order[np.array(order)-1] = np.arange(len(order))
-- 
2.43.0


From a25b8040f51eaab742b67d53ae2512d71427e868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 070/110] fix: orbital names of crystals with more than one
 atom

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 982680b..e91e0f1 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -600,7 +600,7 @@ class QECrystal:
                     key, _value = key_value.split("=")
                     key = key.strip()
                     if "charge" not in key and key not in ["p", "d", "f"]:
-                        if self.types:
+                        if len(self.types):
                             order.append(f"{index}{self.types[index-1]}_{key}")
                         else:
                             order.append(f"{index}_{key}")
-- 
2.43.0


From f8cd7bdc9e8ae35491c01ff76c2d66e08f5b878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 071/110] fix: mass density of left handed lattices and scaling
 of integer or shared lattice vectors

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index e91e0f1..041765a 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -401,7 +401,7 @@ class QECrystal:
         Returns:
             float: mass density in kg/m^3
         """
-        return self._mass_per_cell() / np.linalg.det(self.lattice_vectors_in_m())
+        return self._mass_per_cell() / abs(np.linalg.det(self.lattice_vectors_in_m()))
 
     def scale_to_density(self, density: float):
         """Scale the basis to match a given density.
@@ -409,7 +409,7 @@ class QECrystal:
         Args:
             density (float): The target density in kg/m^3
         """
-        self.A *= (self.mass_density() / density)**(1/3)
+        self.A = self.A * (self.mass_density() / density)**(1/3)
 
     def lattice_vectors_in_m(self) -> np.ndarray:
         """
-- 
2.43.0


From b5147ee057c14eb59be96718f91b0f737f63b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 072/110] fix: only the first character of pseudopotential
 filenames was checked before using them in a shell command

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 041765a..ea5f68c 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -108,8 +108,8 @@ def qe_prepare(pseudo_potential_files_dict=None):
             file = name + ".rel-pbesol-n-kjpaw_psl.1.0.0.UPF"
             pseudo_potential_files_dict[name] = file
         if not os.path.isfile("./pseudo/" + file):
-            # TODO sanitize "file" -> otherwise command injection is possible
-            if re.match(r"[a-zA-Z0-9\.\-]", file) is None:
+            # the filename is used in a shell command
+            if re.fullmatch(r"[a-zA-Z0-9_+\.\-]+", file) is None:
                 print("skipped file", file, "because it contains incompatible characters")
                 continue
             res = subprocess.run("wget https://pseudopotentials.quantum-espresso.org/upf_files/" + file, cwd="./pseudo", shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-- 
2.43.0


From bfaa864a0beae12cb3aef07422e18b330247a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 073/110] fix: reading bands of a calculation without listed
 symmetries

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index ea5f68c..cbfb5e8 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -562,6 +562,7 @@ class QECrystal:
             if len(S) == 0:
                 # there is always one symmetry, the trivial symmetry
                 S = np.eye(3)[None,...]
+                S_trans = [np.zeros(3)]
             # assert np.linalg.norm(np.einsum("nij,nik->njk", S, S) - np.eye(len(S[0]))) < 1e-5, "symmetries in crystal space are not orthogonal"
             assert np.linalg.norm(np.round(S) - S) < 1e-8, "symmetries in crystal space should be integers, but are not"
             assert len(S_trans) == len(S), "every symmetry needs an associated translational part if one of them has one."
-- 
2.43.0


From d759ca701f799b184f641360985ffb5626f440aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 074/110] fix: conjugate_gradient_solve modified the starting
 guess and failed for integer input

---
 src/tight_binding_redweasel/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index c4abb23..d9e568a 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -252,10 +252,11 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
         np.ndarray: The best approximation for the result `x` from `Ax=b`.
     """
     if x0 is None:
-        x = np.zeros_like(b)
-        r = -b
+        r = -np.asarray(b, dtype=np.result_type(b, np.float64))
+        x = np.zeros_like(r)
     else:
-        x = x0
+        # copy the starting guess, as x is updated in place
+        x = np.array(x0, dtype=np.result_type(x0, b, np.float64))
         r = A(x) - b
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
-- 
2.43.0


From c48d6a3de145646975fd09739d77118700288ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 075/110] fix: pointcloud_distance matched several points with
 the same partner

---
 src/tight_binding_redweasel/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index d9e568a..bb08ee1 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -206,7 +206,7 @@ def pointcloud_distance(pointcloud1, pointcloud2):
         d = np.linalg.norm(p1 - pointcloud2, axis=-1)
         min_index = np.argmin(d.flat)
         dist += d.flat[min_index]
-        d = np.delete(d.flat, min_index)
+        pointcloud2 = np.delete(pointcloud2, min_index, axis=0)
     return dist
 
 
-- 
2.43.0


From b1c2a93bdb66811792096c480c66a9e3abbf7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 076/110] fix: generalized eigenproblem of arrays of matrices
 with more than one listing dimension or a complex overlap

---
 src/tight_binding_redweasel/linalg.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index bb08ee1..7388ae8 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -72,20 +72,20 @@ def geigh(H: np.ndarray, S: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
         else:
             # TODO check if using np.linalg.cholesky to factor S and then np.linalg.eigh is faster
             res_la = np.zeros(H.shape[:-1], dtype=np.float64)
-            res_ev = np.zeros(H.shape, dtype=H.dtype)
-            for i in range(len(H)):
+            res_ev = np.zeros(H.shape, dtype=np.result_type(H, S, np.float64))
+            for i in np.ndindex(H.shape[:-2]):
                 la, ev = scipy.linalg.eigh(H[i], S[i])
                 res_la[i] = la
                 res_ev[i] = ev
-            return np.array(res_la), np.array(res_ev)
+            return res_la, res_ev
     else:
         return scipy.linalg.eigh(H, S)
 
 
 def geigvalsh(H: np.ndarray, S: np.ndarray) -> np.ndarray:
     if len(np.shape(H)) >= 3:
-        res_la = np.zeros(H.shape[:-1], dtype=np.float64)
-        for i in range(len(H)):
+        res_la = np.zeros(np.shape(H)[:-1], dtype=np.float64)
+        for i in np.ndindex(np.shape(H)[:-2]):
             res_la[i] = scipy.linalg.eigvalsh(H[i], S[i])
         return res_la
     else:
@@ -103,7 +103,7 @@ def geigh_grad(H: np.ndarray, S: np.ndarray, dH: np.ndarray, dS: np.ndarray):
     path = ['einsum_path', (0, 1), (0, 1)]  # precomputed path for best speed
     grads = np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dH, ev, optimize=path))
     # TODO check!
-    grads -= np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dS, ev, optimize=path)) * bands[:, None, :]
+    grads -= np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dS, ev, optimize=path)) * bands[..., None, :]
     return bands, grads, ev
 
 
-- 
2.43.0


From b111d72a2c30d0f5f6fcd7b69c9e3dadbb91ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 077/110] fix: supercells lost hoppings and overlaps and failed
 for most lattices

---
 src/tight_binding_redweasel/bandstructure.py  | 49 ++------------
 src/tight_binding_redweasel/symmetry.py       | 65 +++++++++++++++++++
 .../tight_binding_asym.py                     | 46 ++-----------
 3 files changed, 76 insertions(+), 84 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index fbcd4dd..5a8d4a1 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -834,8 +834,8 @@ class BandStructureModel:
         where Λ is a non singular integer valued matrix.
 
         Args:
-            A_original (arraylike(dim, dim)): The basis vectors of the real lattice **before** the supercell transformation.
-            A_new (arraylike(dim, dim)): The basis vectors of the real lattice **after** the supercell transformation.
+            A_original (arraylike(dim, dim)): The basis vectors of the real lattice **before** the supercell transformation in the units of the neighbors.
+            A_new (arraylike(dim, dim)): The basis vectors of the real lattice **after** the supercell transformation in the units of the neighbors.
             cos_reduced (bool, optional): Same as in `init_tight_binding`. Defaults to False.
             exp (bool, optional): Same as in `init_tight_binding`. Defaults to True.
 
@@ -845,49 +845,10 @@ class BandStructureModel:
         if self.neighbors is None:
             raise ValueError(
                 "This function can only be used on default tight binding models")
-        A_original = np.asarray(A_original)
-        A_new = np.asarray(A_new)
-        dim = len(self.neighbors[0])
-        assert dim == len(A_original) and dim == len(
-            A_new), "A matrix doesn't match the dimension of the model"
-        matrix = np.linalg.inv(A_original) @ A_new
-        assert np.all(np.abs(np.round(matrix) - matrix) <
-                      1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
-        det = round(np.linalg.det(matrix))
-        assert self.sym is None or len(
-            self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
-        n = len(self.params[0])
-        new_band_count = n * det
-        params = self.params_complex()
-        # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
-        box = np.stack(np.meshgrid(*[[0, 1]] * dim), axis=-1).reshape(-1, dim)
-        box = box @ matrix.T
-        bounding_box = np.min(box, axis=0), np.max(box, axis=0)
-        assert np.array(bounding_box).dtype == np.int64
-        # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d])
-                       for d in range(dim)]), axis=-1).reshape(-1, dim)
-        p_box = box @ np.linalg.inv(matrix).T
-        # internal positions + origin (0)
-        internal_positions = list(
-            p_box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)] @ A_new.T)
-        assert len(internal_positions) == det
-        # now build the new hamiltonian
-        H_r = np.zeros((len(params), new_band_count,
-                       new_band_count), dtype=np.complex128)
-        neighbor_func = try_neighbor_function(self.neighbors)
-        for k, nk in enumerate(new_neighbors):
-            for i, pi in enumerate(internal_positions):
-                for j, pj in enumerate(internal_positions):
-                    m, mirror = neighbor_func(nk + pj - pi)
-                    if m is not None:
-                        H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
-                            n] = params[m] if not mirror else np.conj(params[m].T)
+        assert self.sym is None or len(self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
+        new_neighbors, H_r = supercell_hoppings(self.neighbors, self.params_complex(), A_original, A_new)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(len(new_neighbors[0])), new_neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 513fee6..a304052 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -62,6 +62,71 @@ def try_neighbor_function(neighbors, err=1e-4) -> Callable[[np.ndarray], tuple[i
     return find
 
 
+def supercell_hoppings(neighbors, H_r, A_original, A_new) -> tuple[np.ndarray, np.ndarray]:
+    """Express the hopping matrices of a lattice using the bigger cells of the lattice A' = A Λ,
+    where Λ is a non singular integer valued matrix.
+
+    Args:
+        neighbors (arraylike(N_R, dim)): The neighbor positions in the same units as the lattice vectors. The first one is 0 and only one of r, -r is listed.
+        H_r (arraylike(N_R, N, N)): The matrices for the neighbors.
+        A_original (arraylike(dim, dim)): The basis vectors (columns) of the original lattice.
+        A_new (arraylike(dim, dim)): The basis vectors (columns) of the new lattice.
+
+    Returns:
+        (ndarray(N_R', dim), ndarray(N_R', |det Λ| N, |det Λ| N)): new neighbors sorted by length and their matrices.
+    """
+    A_original = np.asarray(A_original)
+    A_new = np.asarray(A_new)
+    H_r = np.asarray(H_r)
+    dim = len(neighbors[0])
+    assert dim == len(A_original) and dim == len(A_new), "A matrix doesn't match the dimension of the model"
+    matrix = np.linalg.inv(A_original) @ A_new
+    assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
+    matrix = np.round(matrix).astype(np.int64)
+    det = abs(round(np.linalg.det(matrix)))
+    assert det > 0, "The supercell matrix must be non singular"
+    inv_matrix = np.linalg.inv(matrix)
+    r_crystal = np.asarray(neighbors) @ np.linalg.inv(A_original).T
+    assert np.all(np.abs(np.round(r_crystal) - r_crystal) < 1e-3), "The neighbors must be lattice vectors of A_original"
+    r_crystal = np.round(r_crystal).astype(np.int64)
+    # now get all integer positions in the cell defined by matrix
+    # for that, compute the (half open) bounding box of matrix * [0,1[^3
+    box = np.stack(np.meshgrid(*[[0, 1]] * dim), axis=-1).reshape(-1, dim)
+    box = box @ matrix.T
+    bounding_box = np.min(box, axis=0), np.max(box, axis=0)
+    # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
+    box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1) for d in range(dim)]), axis=-1).reshape(-1, dim)
+    p_box = box @ inv_matrix.T
+    # internal positions + origin (0)
+    internal_positions = box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)]
+    assert len(internal_positions) == det
+    site_index = {tuple(p): i for i, p in enumerate(internal_positions)}
+    n = H_r.shape[-1]
+    cells = {(0,) * dim: np.zeros((n * det, n * det), dtype=H_r.dtype)}
+    for r, H in zip(r_crystal, H_r):
+        for i, p in enumerate(internal_positions):
+            # the hopping goes from site i in the cell 0 to site j in a (different) cell
+            cell = np.floor(inv_matrix @ (p + r) + 1e-7).astype(np.int64)
+            j = site_index[tuple(p + r - matrix @ cell)]
+            key = tuple(cell)
+            neg = tuple(-cell)
+            block = H
+            if key not in cells and neg in cells:
+                # only one of the two directions is stored
+                key = neg
+                i, j = j, i
+                block = np.conj(H.T)
+            if key not in cells:
+                cells[key] = np.zeros_like(cells[(0,) * dim])
+            cells[key][i * n:(i + 1) * n, j * n:(j + 1) * n] += block
+            if not any(key) and np.any(r):
+                # the opposite hopping is inside of the cell as well
+                cells[key][j * n:(j + 1) * n, i * n:(i + 1) * n] += np.conj(block.T)
+    new_neighbors = np.array(list(cells.keys())) @ A_new.T
+    order = np.argsort(np.linalg.norm(new_neighbors, axis=-1), kind="stable")
+    return new_neighbors[order], np.array(list(cells.values()))[order]
+
+
 class Symmetry:
     """
     class for symmetries. All symmetries (except inversion symmetry) are saved as transformation matrices
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index e939be7..9b6a7e5 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -834,49 +834,15 @@ class AsymTightBindingModel:
         where Λ is a non singular integer valued matrix.
 
         Args:
-            A_original (arraylike(dim, dim)): The basis vectors of the real lattice **before** the supercell transformation.
-            A_new (arraylike(dim, dim)): The basis vectors of the real lattice **after** the supercell transformation.
-            cos_reduced (bool, optional): Same as in `init_tight_binding`. Defaults to False.
-            exp (bool, optional): Same as in `init_tight_binding`. Defaults to True.
+            A_original (arraylike(dim, dim)): The basis vectors of the real lattice **before** the supercell transformation in the units of the neighbors.
+            A_new (arraylike(dim, dim)): The basis vectors of the real lattice **after** the supercell transformation in the units of the neighbors.
 
         Returns:
-            Self: BandStructureModel that describes the same solid, but using a bigger cell.
+            Self: AsymTightBindingModel that describes the same solid, but using a bigger cell.
         """
-        A_original = np.asarray(A_original)
-        A_new = np.asarray(A_new)
-        dim = len(self.H.neighbors[0])
-        assert dim == len(A_original) and dim == len(A_new), "A matrix doesn't match the dimension of the model"
-        matrix = np.linalg.inv(A_original) @ A_new
-        assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix).astype(np.int64)
-        det = round(np.linalg.det(matrix))
-        new_neighbors = self.H.neighbors @ matrix.T
-        n = len(self.H.H_r[0])
-        new_band_count = n * det
-        H_r = self.params_complex()
-        # now get all integer positions in the cell defined by matrix
-        # for that, compute the (half open) bounding box of matrix * [0,1[^3
-        box = np.stack(np.meshgrid(*[[0, 1]]*dim), axis=-1).reshape(-1, dim)
-        box = box @ matrix.T
-        bounding_box = np.min(box, axis=0), np.max(box, axis=0)
-        assert np.array(bounding_box).dtype == np.int64
-        # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d]) for d in range(dim)]), axis=-1).reshape(-1, dim)
-        p_box = box @ np.linalg.inv(matrix).T
-        # internal positions + origin (0)
-        internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
-        assert len(internal_positions) == det
-        # now build the new hamiltonian
-        H_r2 = np.zeros((len(H_r), new_band_count, new_band_count), dtype=np.complex128)
-        neighbor_func = try_neighbor_function(self.H.neighbors)
-        for k, nk in enumerate(new_neighbors):
-            for i, pi in enumerate(internal_positions):
-                for j, pj in enumerate(internal_positions):
-                    m, mirror = neighbor_func(nk + pj - pi)
-                    if m is not None:
-                        H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
-        model = AsymTightBindingModel(HermitianFourierSeries(new_neighbors, H_r2))
-        return model
+        H = HermitianFourierSeries(*supercell_hoppings(self.H.neighbors, self.H.H_r, A_original, A_new))
+        S = HermitianFourierSeries(*supercell_hoppings(self.S.neighbors, self.S.H_r, A_original, A_new))
+        return AsymTightBindingModel(H, S)
 
     def __add__(self, other) -> 'AsymTightBindingModel':
         if type(other) == type(self):
-- 
2.43.0


From 836333a3604c6a9c021fe88c2b56d786721cf00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 078/110] fix: training the overlap failed and batches of k
 points were paired with the wrong overlap matrices

---
 src/tight_binding_redweasel/tight_binding_asym.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 9b6a7e5..1137cb4 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -447,9 +447,11 @@ class AsymTightBindingModel:
                 H = np.einsum("nkl,in->ikl", self.H.H_r, batch_f_i)
                 H += np.conj(np.swapaxes(H, -1, -2))
                 if train_S:
-                    H = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
-                    S += np.conj(np.swapaxes(S, -1, -2))
-                eigvals, eigvecs = geigh(H, S)
+                    batch_S = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
+                    batch_S += np.conj(np.swapaxes(batch_S, -1, -2))
+                else:
+                    batch_S = S[iteration % batch_div::batch_div]
+                eigvals, eigvecs = geigh(H, batch_S)
                 eigvals = eigvals[:, band_offset:][:, :len(batch_ref[0])]
                 eigvecs = eigvecs[:, :, band_offset:][:, :, :len(batch_ref[0])]
                 eigvecs_c = np.conj(eigvecs)
-- 
2.43.0


From d925c6e2dd54056c33d277f76a0aec70aadd1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 079/110] fix: optimize_cg failed for coefficients which are
 not determined by the k points

---
 src/tight_binding_redweasel/bandstructure.py      |  3 +--
 src/tight_binding_redweasel/linalg.py             | 15 +++++++++++++++
 src/tight_binding_redweasel/tight_binding_asym.py |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 5a8d4a1..4b84fe0 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -470,8 +470,7 @@ class BandStructureModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             # E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(
-                np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            E_mat = pinv_sqrt(np.einsum("nk,nl->kl", c_i, f_i)) * len(k_smpl)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 7388ae8..53811db 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -194,6 +194,21 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     return eigvals, grads, hess
 
 
+def pinv_sqrt(A: np.ndarray) -> np.ndarray:
+    """Hermitian square root of the pseudo inverse of a positive semidefinite matrix.
+
+    Args:
+        A (ndarray(N, N)): positive semidefinite matrix, which is allowed to be singular.
+
+    Returns:
+        ndarray(N, N): The matrix E, such that `E @ E = pinv(A)`
+    """
+    la, U = np.linalg.eigh(A)
+    mask = la > len(la) * 1e-14 * la[-1]
+    U = U[:, mask]
+    return (U / la[mask]**0.5) @ np.conj(U.T)
+
+
 def pointcloud_distance(pointcloud1, pointcloud2):
     # TODO try using scipy.optimize.linear_sum_assignment
     pointcloud1 = np.asarray(pointcloud1)
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 1137cb4..78a0e7a 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -595,7 +595,7 @@ class AsymTightBindingModel:
             # TODO add k_weights in here as well!
             # TODO it seems that preconditioning like this does not always result in an improvement... why?
             #E_mat = np.linalg.pinv(np.linalg.cholesky(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
-            E_mat = np.linalg.cholesky(np.linalg.pinv(np.einsum("nk,nl->kl", c_i, f_i))) * len(k_smpl)**.5
+            E_mat = pinv_sqrt(np.einsum("nk,nl->kl", c_i, f_i)) * len(k_smpl)**.5
             E_mat_c = np.conj(E_mat)
             # precompute a contraction that comes up often
             c_i_E_mat_c = np.einsum("nk,kl->nl", c_i, E_mat_c)
-- 
2.43.0


From 481f401bf4b298dce930e2b21fde64e0080beab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 080/110] fix: BandStructureModel.optimize_cg ignored the k
 point weights

---
 src/tight_binding_redweasel/bandstructure.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 4b84fe0..e4aae34 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -443,7 +443,9 @@ class BandStructureModel:
         # reshape band_weights (no normalisation!)
         band_weights = np.broadcast_to(np.reshape([band_weights], (1, -1)), (1, N_B))
         band_weights_sqr = (band_weights * band_weights)[0]
-        weights = band_weights_sqr
+        # reshape k_smpl_weights and combine all weights
+        k_smpl_weights = np.broadcast_to(np.reshape([k_smpl_weights], (-1, 1)), (len(k_smpl), 1))
+        weights = k_smpl_weights / np.mean(k_smpl_weights) * band_weights_sqr
         # mask for keep_zeros
         if keep_zeros:
             H_r_mask = np.where(np.abs(self.params) < 1e-14, 0.0, 1.0)
@@ -456,11 +458,6 @@ class BandStructureModel:
         # so it doesn't need to be recreated in each iteration!
         fc_i = np.array([f_i, c_i])
 
-        # unsure about these k_weights...
-        # c2_i = np.linalg.pinv(f_i.T)
-        # k_weights = np.real(np.einsum("nm->n", np.einsum("nk,mk->nm", c2_i, c2_i.conj()))[:,None])
-        weights = weights[None, :]  # * k_weights
-
         if precond:
             # preconditioned CG (here) is:
             # E^+ A^+ A E y = E^+ A^+ b, x = E y, E invertible
-- 
2.43.0


From cd915e5b41dd89771b627b7fd0eb1885aec4142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 081/110] fix: least squares step size for a model which
 already fits exactly

---
 src/tight_binding_redweasel/tight_binding_asym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 78a0e7a..5b095b8 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -509,7 +509,8 @@ class AsymTightBindingModel:
                     ev_r = np.einsum("nad,nbd,lab,d->nld", eigvecs_c, eigvecs, H_r_add, band_weights[0], optimize="greedy")
                     r_AA_r = np.einsum("nk,nl,nld,nkd", batch_c_i, batch_f_i, ev_r, ev_r.conj(), optimize="greedy")
                     # factor 2 because of how the symmetrisation works above!
-                    alpha = norm * 0.5 * rr / np.real(r_AA_r)
+                    # a vanishing gradient needs no step
+                    alpha = norm * 0.5 * rr / np.real(r_AA_r) if rr else 0.0
                     #log.add_message(f"{alpha}, {0.5 / len(batch)}")
                 else:
                     alpha = 0.5 / len(batch) / band_weights_norm
-- 
2.43.0


From d88c7c59e8e7cd129792681c295e1f2ace99ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 082/110] fix: randomize failed for models with real parameters

---
 src/tight_binding_redweasel/bandstructure.py      | 2 +-
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index e4aae34..b01c711 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -154,7 +154,7 @@ class BandStructureModel:
             self.params.shape) + sigma * 1j * np.random.standard_normal(self.params.shape)
         if keep_zeros:
             dparams *= np.where(np.abs(self.params) < 1e-8, 0, 1)
-        self.params += dparams
+        self.params = self.params + dparams
 
     def f(self, k):
         """Compute the hamiltonian
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 5b095b8..ef052cf 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -311,12 +311,12 @@ class AsymTightBindingModel:
         dparams = sigma * np.random.standard_normal(self.H.H_r.shape) + sigma * 1j*np.random.standard_normal(self.H.H_r.shape)
         if keep_zeros:
             dparams *= np.where(np.abs(self.H.H_r) < 1e-8, 0, 1)
-        self.H.H_r += dparams
+        self.H.H_r = self.H.H_r + dparams
         if randomize_S:
             dparams = sigma * np.random.standard_normal(self.S.H_r.shape) + sigma * 1j*np.random.standard_normal(self.S.H_r.shape)
             if keep_zeros:
                 dparams *= np.where(np.abs(self.S.H_r) < 1e-8, 0, 1)
-            self.S.H_r += dparams
+            self.S.H_r = self.S.H_r + dparams
 
     def error(self, k_smpl, ref_bands, band_weights, band_offset):
         """
-- 
2.43.0


From bf7bc5a8267b345df42ddf90e6844851520aee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 083/110] fix: autofit_asym failed with additional bands

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index ef052cf..3500127 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -934,7 +934,7 @@ def autofit_asym(name, neighbors_src, k_smpl, ref_bands, band_weights, sym: Symm
         tb = AsymTightBindingModel.new(neighbors, add_bands_below + np.shape(ref_bands)[-1] + add_bands_above)
         tb.randomize(0.01)
         tb.normalize()
-        tb.H.H_r[0] = np.diag(ref_bands[0])
+        tb.H.H_r[0] = np.diag(np.pad(ref_bands[0], (add_bands_below, add_bands_above), mode="edge"))
         # now fit in 10 steps extending from the gamma point (0-point)
         log = logger.OptimisationLogger(update_line=False)
         for j in range(1, 11):
-- 
2.43.0


From e1b2fc9530d2ba05650226d10164f671b0b70184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 084/110] fix: recompute the energy samples of
 chemical_potential when the temperature drifts in small steps

---
 src/tight_binding_redweasel/density_of_states.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 1e1b3b9..95f056f 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -577,7 +577,7 @@ class DensityOfStates:
         T_smpl = np.asarray(T_smpl).reshape(-1)
         if np.max(T_smpl) >= T_lin:
             states_lin = np.array([self.states_below(energy) for energy in energy_smpl_lin])
-        beta = -10000.0  # invalid value
+        beta_smpl = -10000.0  # temperature of the current distribution (invalid value)
         res = []
         for T in T_smpl:
             if T <= 0:
@@ -586,16 +586,14 @@ class DensityOfStates:
                 beta = 1 / (k_B * T)  # 1/eV
                 res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat', extrapolation_point=(e1, self.model_bandcount())), fermi_energy + 0.1, fermi_energy, tol, maxsteps))
             else:
-                new_beta = 1 / (k_B * T)  # 1/eV
-                if abs(beta - new_beta) / new_beta > 5e-2:
+                beta = 1 / (k_B * T)  # 1/eV
+                # keep distribution if it doesn't cause too big errors (performance)
+                if abs(beta_smpl - beta) / beta > 5e-2:
                     # recalculate distribution for precision
-                    beta = 0.25 / (k_B * T)  # 1/eV
+                    beta_smpl = beta
                     # (all the samples of one side coincide, if the Fermi-energy is at the edge of the bands)
-                    energy_smpl = np.unique(_samples(e0, e1, fermi_energy, beta, N))
-                    beta = new_beta
+                    energy_smpl = np.unique(_samples(e0, e1, fermi_energy, 0.25 * beta, N))
                     states = np.array([self.states_below(energy) for energy in energy_smpl])
-                # keep distribution if it doesn't cause too big errors (performance)
-                beta = new_beta
                 res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl, states, beta, extrapolation='flat', extrapolation_point=(e1, self.model_bandcount())), fermi_energy + 1 / beta, fermi_energy, tol, maxsteps))
         return np.array(res)
 
-- 
2.43.0


From 00dd718908d91dae22647c76bfbd0ca93ef65ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 085/110] fix: check_symmetry tests the inversion of groups
 that contain it

---
 src/tight_binding_redweasel/symmetry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a304052..4a93551 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -582,6 +582,8 @@ class Symmetry:
             values = []
             for s in self.S:
                 values.append(foo(s @ r))
+                if self.inversion:
+                    values.append(foo(-s @ r))
             if np.linalg.norm(np.std(values, axis=0)) > tolerance:
                 if verbose:
                     print(f"symmetry error at {r}")
-- 
2.43.0


From 5218bc5f287194e8697dd78cd772415ddb4da2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 086/110] fix: scale of the plotted 3D Fermi surface (N samples
 span N-1 steps)

---
 src/tight_binding_redweasel/fermi_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 1848c83..dfd02cd 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -66,7 +66,7 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
         all_verts += 3e-2 * (all_verts - np.mean(all_verts, axis=1, keepdims=True))
         # Display resulting triangular mesh using Matplotlib. This can also be done
         # with mayavi (see skimage.measure.marching_cubes docstring).
-        mesh = Poly3DCollection(all_verts / N * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
+        mesh = Poly3DCollection(all_verts / (N - 1) * (k_range[1] - k_range[0]) + k_range[0], antialiased=False, linewidth=0, linestyle='None')
         mesh.set_edgecolor(None)
         mesh.set_facecolor(np.mean(all_rgb, axis=1))
         # TODO RendererBase.draw_gouraud_triangles exists
-- 
2.43.0


From 837b8d46c4c42142a87282a77239ffec5aecfdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 087/110] fix: Fermi surfaces with more bands than colors
 (bands were not plotted, materials not defined)

---
 src/tight_binding_redweasel/fermi_surface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index dfd02cd..0b46893 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -50,7 +50,8 @@ def plot_3D_fermi_surface_to_ax(ax, model, fermi_energy, N=32, k_range=[-0.5, 0.
     all_verts = []
     all_rgb = []
     volumes, band_indices = fermi_surface(model, fermi_energy, xyz)
-    for volume, band, color in zip(volumes, band_indices, colors):
+    for index, (volume, band) in enumerate(zip(volumes, band_indices)):
+        color = colors[index % len(colors)]
         verts, faces, normals, _ = measure.marching_cubes(volume, 0)
 
         rgb = ls.shade_normals(normals, 1.0)[..., None] * mcolors.to_rgb(color)
@@ -138,7 +139,7 @@ illum 2
             f.write(f"g Band{band}\n")
             for v in verts:
                 f.write("v %.4f %.4f %.4f\n" % tuple(v))
-            f.write(f"usemtl color{index}\n")
+            f.write(f"usemtl color{index % len(colors)}\n")
             for face in faces:
                 f.write("f")
                 for i in face:
-- 
2.43.0


From 0294498bdca5c7cf325ce05267fdf3307d8ddd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 088/110] fix: exported OBJ files in another directory
 referenced a missing material file

---
 src/tight_binding_redweasel/fermi_surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/fermi_surface.py b/src/tight_binding_redweasel/fermi_surface.py
index 0b46893..658e100 100644
--- a/src/tight_binding_redweasel/fermi_surface.py
+++ b/src/tight_binding_redweasel/fermi_surface.py
@@ -2,6 +2,7 @@
 # TODO the plot functions are not be stabilized yet
 
 # plot the fermi surface
+import os
 import numpy as np
 from matplotlib import pyplot as plt
 from collections.abc import Callable
@@ -127,7 +128,8 @@ illum 2
     # now create the obj file with the data
     with open(f"{file}.obj", 'w') as f:
         f.write("# OBJ file from tight_binding_redweasel.fermi_surface\n")
-        f.write(f"mtllib {file}.mtl\n")
+        # the path is relative to the obj file
+        f.write(f"mtllib {os.path.basename(file)}.mtl\n")
         f.write(f"o {file}\n")
         f.write("s 1\n")
 
-- 
2.43.0


From 9cfef3ad929ecac2232c3384ab6378d24b2c1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 089/110] fix: slater_koster could not be imported (typing has
 no tuple)

---
 src/tight_binding_redweasel/slater_koster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 7d29fd9..7179988 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -5,7 +5,7 @@ from . import hamiltonian_symmetry as _hsym
 from . import kpaths as _kpaths
 from . import unitary_representations as _urepr
 from . import linalg as _lin
-from typing import Callable, tuple, Self
+from typing import Callable, Self
 
 # This is an implementation of a pure Slater-Koster
 # tight-binding interpolation model.
-- 
2.43.0


From 67582172ff11c0c560404ecf5150dbe38c4ece11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 090/110] fix: orbital integrals of symmetric orbitals used the
 symmetry operation of a later loop iteration

---
 src/tight_binding_redweasel/slater_koster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 7179988..edb85aa 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -151,9 +151,9 @@ class SlaterKoster:
                                                         func = {tuple(s_op.T @ pos): res_inv * v for pos, v in func.items()}
                                                     else:
                                                         # package "func" inside a function to build the lambda expression independend of the local variable with name "func"
-                                                        def pack(func):
+                                                        def pack(func, res_inv, s_op):
                                                             return lambda x: res_inv * func(s_op @ x)
-                                                        func = pack(func)
+                                                        func = pack(func, res_inv, s_op)
                                                     # save the transformed func in orbital_integrals
                                                     # (no copy of the dict -> the instance of the input dict will get extended)
                                                     orbital_integrals[f"{name1}/{name2}:V_{sub1}_{sub2}"] = func
-- 
2.43.0


From a03d8d844340de6276ecd0740afe5512391277fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 091/110] fix: SlaterKoster.parameters missed elements below
 the diagonal

---
 src/tight_binding_redweasel/slater_koster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index edb85aa..81b37dc 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -259,14 +259,15 @@ class SlaterKoster:
                 "fac" is the factor by which to multiply the entry before symmetrisation.
         """
         # slow but complete
-        # go through every index k, i>j which has not yet been set to a value.
+        # go through every index k, i, j which has not yet been set to a value.
         found_params = dict()
         dummy_params = np.zeros(np.shape(self.model.params), dtype=complex)
         n = self.hsym.dim()
         init_value = 1.0 if real else 1.0 + 1.0j
         for k in range(len(self.neighbors)):
             for i in range(n):
-                for j in range(i, n):
+                # only the first matrix is hermitian
+                for j in range(i if k == 0 else 0, n):
                     if np.abs(dummy_params[k][i, j]) > 1e-5:
                         continue
                     dummy_params[k][i, j] = init_value
-- 
2.43.0


From 72a8c262b0b171eea28b9c829dad8f4a39536346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 092/110] fix: SlaterKoster.set_parameter averaged the value
 with the previous one

---
 src/tight_binding_redweasel/slater_koster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 81b37dc..d5467fa 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -304,8 +304,10 @@ class SlaterKoster:
             value (float, complex): value to be inserted for the specified parameter.
         """
         k, i, j, fac = parameter_tuple
-        self.model.params[k][i, j] = value / fac
-        self.model.params = self.symmetrizer(self.model.params)
+        # symmetrize only the change, as the old value must not be averaged with the new one
+        change = np.zeros(np.shape(self.model.params), dtype=complex)
+        change[k][i, j] = (value - self.model.params[k][i, j]) / fac
+        self.model.params = self.model.params + self.symmetrizer(change)
 
     def interactive_widget(self, kpath: _kpaths.KPath, ylim: tuple[float, float], ref_model: Callable=None, slider_range=5.0, slider_step=0.1, latex=False, use_complex=False):
         from matplotlib import pyplot as plt
-- 
2.43.0


From af3cad415a53f89370a44f0e18326f25dd7a4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 093/110] fix: TightBindingModel could not be constructed for
 symmetries with inversion (used params before they were set)

---
 src/tight_binding_redweasel/tight_binding.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 021a397..34d1411 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -27,21 +27,21 @@ class TightBindingModel:
         param_count = len(neighbors)
         if not self.sym.inversion:
             param_count = param_count * 2 - 1 # add separate sin Terms
-        else:
-            # make the onsite matrix blockdiagonal
-            n = unitary_repr.inv_split
-            self.params[0][:n,n:] = 0
-            self.params[0][n:,:n] = 0
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
-            self.params = np.asarray(params)
+            self.params = np.array(params)
             pshape = np.shape(self.params)
             assert len(pshape) == 3
             assert pshape[1] == pshape[2]
             assert pshape[0] == param_count
         else:
             self.params = np.zeros((param_count,) + (np.shape(unitary_repr.U)[1],)*2, dtype=np.complex128)
+        if self.sym.inversion:
+            # make the onsite matrix blockdiagonal
+            n = unitary_repr.inv_split
+            self.params[0][:n,n:] = 0
+            self.params[0][n:,:n] = 0
         # TODO sanity checks for symmetrically equivalent neighbors (those are not allowed)
     
     def band_count(self):
-- 
2.43.0


From 24d64192e50f80aadad2b060a5263391e81818b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 094/110] fix: TightBindingModel.f with inversion only worked
 for lists of k points

---
 src/tight_binding_redweasel/tight_binding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 34d1411..9406101 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -250,10 +250,10 @@ class TightBindingModel:
                 c, s = self.f_i(k, i)
                 c = np.asarray(c)[...,None,None]
                 s = np.asarray(s)[...,None,None]
-                mat[:,:n,:n] += c * params[i][...,:n,:n]
-                mat[:,n:,n:] += c * params[i][...,n:,n:]
-                mat[:,:n,n:] += s * params[i][...,:n,n:]
-                mat[:,n:,:n] += s * params[i][...,n:,:n]
+                mat[...,:n,:n] += c * params[i][...,:n,:n]
+                mat[...,n:,n:] += c * params[i][...,n:,n:]
+                mat[...,:n,n:] += s * params[i][...,:n,n:]
+                mat[...,n:,:n] += s * params[i][...,n:,:n]
         else:
             for i in range(len(self.params)):
                 mat += np.asarray(self.f_i(k, i))[...,None,None] * params[i]
-- 
2.43.0


From 96c3ef0af9c1822ff3a0ccc96b9ce423b1759cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 095/110] fix: complex coefficients of TightBindingModel were
 not the Fourier coefficients of its matrix

---
 src/tight_binding_redweasel/tight_binding.py | 42 +++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 9406101..7b7b260 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -425,31 +425,43 @@ class TightBindingModel:
         # normalize continuous DoF (TODO)
 
     # get the complex fourier coefficients H_r
+    # f(k) = H_r[0] + sum over the other r of (H_r exp(2πikr) + h.c.)
     def params_complex(self):
-        H = self.params / 2
+        n = len(self.neighbors)
+        H = np.array(self.params[:n], dtype=np.complex128) / 2
         if self.sym.inversion:
             k = self.unitary_repr.inv_split
-            H[:,:k,k:] *= 1j
-            H[:,k:,:k] *= 1j
+            H[1:,:k,k:] *= -1j
+            H[1:,k:,:k] *= -1j
+            cos_params = np.array(self.params[1:n])
+            cos_params[:,:k,k:] = 0
+            cos_params[:,k:,:k] = 0
         else:
-            H[1:] += H[(len(self.params)+1)//2:] * 1j
-            H = H[:(len(self.params)+1)//2]
+            H[1:] += self.params[n:] * -0.5j
+            cos_params = self.params[1:n]
+        # params[0] is the matrix at k=0
+        H[0] = self.params[0] - np.sum(cos_params, axis=0)
         return H
     
     # set params from the complex fourier coefficients H_r
     def set_from_complex(self, H_r):
-        # TODO doesn't work...
-        self.params = np.array(H_r)
+        H_r = np.array(H_r)
         n = len(H_r)
-        if not self.sym.inversion:
-            A = self.params + np.conj(np.swapaxes(self.params, -1, -2))
-            B = 1j*(self.params - np.conj(np.swapaxes(self.params, -1, -2)))
-            self.params = np.concatenate([A, B[1:]], axis=0)
+        A = H_r + np.conj(np.swapaxes(H_r, -1, -2))
+        B = 1j*(H_r - np.conj(np.swapaxes(H_r, -1, -2)))
+        if self.sym.inversion:
+            # even blocks have the coefficients of cos, odd blocks the coefficients of sin
+            k = self.unitary_repr.inv_split
+            A[:,:k,k:] = 0
+            A[:,k:,:k] = 0
+            B[0] = 0
+            B[:,:k,:k] = 0
+            B[:,k:,k:] = 0
+            self.params = A + B
         else:
-            self.params += np.conj(np.swapaxes(self.params, -1, -2))
-        self.params /= 2
-        self.params[0] += np.sum(self.params[1:n], axis=0)*2
-        self.params[1:] *= 2
+            self.params = np.concatenate([A, B[1:]], axis=0)
+        self.params[0] /= 2
+        self.params[0] += np.sum(A[1:], axis=0)
     
     def bands(self, k_smpl):
         return np.linalg.eigvalsh(self.f(k_smpl))
-- 
2.43.0


From 657652920285b79c60df09b43622bde23955c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 096/110] fix: TightBindingModel.copy always failed

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 7b7b260..99a1f9f 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -498,7 +498,7 @@ class TightBindingModel:
         return bands, grads, hess1 - 2*hess2
 
     def copy(self):
-        return TightBindingModel(self.f_i, self.df_i, self.params.copy())
+        return TightBindingModel(self.unitary_repr, self.neighbors, self.params)
     
     # make a tight binding model for a supercell with [nx, ny, nz] = repeats
     def copy_transformed(self, transform):
-- 
2.43.0


From 8310a9bdb43604110773343280860d3f0390f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 097/110] fix: TightBindingModel.optimize failed for more than
 one reference band (shape of the weights)

---
 src/tight_binding_redweasel/tight_binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 99a1f9f..0e26809 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -387,12 +387,12 @@ class TightBindingModel:
 
                 if iteration % 100 == 0:
                     #print(f"loss: {new_loss:.2e} alpha: {alpha:.1e}")
-                    l = self.loss(k_smpl, ref_bands, weights, band_offset)
+                    l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
                     print(f"\rloss: {l:.2e}", end="")
         except KeyboardInterrupt:
             print("\naborted")
         self.normalize()
-        l = self.loss(k_smpl, ref_bands, weights, band_offset)
+        l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
         print(f"\rfinal loss: {l:.2e}")
 
     def normalize(self):
-- 
2.43.0


From 7b1df20806e04e38d7caffc32c6cf64aa3e63949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 098/110] fix: TightBindingModel.init_from_ref lost bands when
 a degenerate level was assigned to a smaller representation

---
 src/tight_binding_redweasel/tight_binding.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 0e26809..8d98483 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -99,22 +99,19 @@ class TightBindingModel:
                 # start with small symmetries in the data and use up the additional_left in the most conservative way possible
                 dsym = sym[data_sym_size_i]
                 for s in dsym:
-                    used = False
-                    for model_sym_size_i in range(0, dim):
-                        if model_sym_size_i - data_sym_size_i > additional_left:
-                            raise ValueError(f"The given representation doesn't fit the data. There is not enough irreducible representations of dimension {data_sym_size_i} or smaller.")
+                    remaining = data_sym_size_i + 1
+                    # prefer a representation that holds all of the bands, otherwise split them onto smaller ones
+                    for model_sym_size_i in [*range(data_sym_size_i, dim), *reversed(range(data_sym_size_i))]:
                         msym = groups2[model_sym_size_i]
-                        if len(msym) > 0:
+                        while remaining > 0 and len(msym) > 0 and model_sym_size_i + 1 - remaining <= additional_left:
                             g = msym[0]
                             model_bands[np.array(g)] = s
                             del msym[0]
-                            additional_left -= max(0, model_sym_size_i - data_sym_size_i)
-                            used = True
-                            break
-                    if not used:
+                            additional_left -= max(0, model_sym_size_i + 1 - remaining)
+                            remaining -= model_sym_size_i + 1
+                    if remaining > 0:
                         # didn't find a symmetry to match
-                        # TODO make the error more explicit (can this actually happen?)
-                        raise ValueError("The given representation doesn't fit the data.")
+                        raise ValueError(f"The given representation doesn't fit the data. There is not enough irreducible representations of dimension {data_sym_size_i + 1} or smaller.")
         else:
             assert use_repr_order
             # TODO BIG PROBLEM!!! inversion symmetry sorting makes the order of unitary representations not choosable!
-- 
2.43.0


From b1f6879ef4c2a3c6d688e94a5359ef640ccb6d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 099/110] fix: diamond orbital pairs with inversion are the
 swapped representation (times parity before), d orbitals without sign

---
 .../hamiltonian_symmetry.py                        | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 3403a4b..47068dd 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -118,9 +118,9 @@ class HamiltonianSymmetry:
             # diagonal operations are allowed on inversion.
             # mixed inversion symmetry is not allowed here, so this is split up
             urepr = _urep.UnitaryRepresentation(self.sym, 1)
-            urepr.inv_split = 0 # -1 on inversion
-            self.append(urepr, pos, name+"0")
             urepr.inv_split = 1
+            self.append(urepr, pos, name+"0")
+            urepr.inv_split = 0 # -1 on inversion
             urepr.U[swap,0,0] *= -1 # -1 on rotation
             self.append(urepr, pos, name+"1")
         else:
@@ -159,9 +159,9 @@ class HamiltonianSymmetry:
         if self.sym.inversion:
             # see append_diamond_s
             # mixed inversion symmetry is not allowed here, so this is split up
-            urepr.inv_split = 3 #  1 on inversion
-            self.append(urepr, pos, name+"0")
             urepr.inv_split = 0 # -1 on inversion
+            self.append(urepr, pos, name+"0")
+            urepr.inv_split = 3 #  1 on inversion
             urepr.U[swap] *= -1 # -1 on rotation
             self.append(urepr, pos, name+"1")
         else:
@@ -209,16 +209,16 @@ class HamiltonianSymmetry:
         """
         # TODO figure out the positions...
         urepr = _urep.UnitaryRepresentation(self.sym, self.sym.dim())
-        urepr.U = np.array(self.sym.S)
+        urepr.U = self.sym.S / np.linalg.det(self.sym.S)[:,None,None]
         urepr.inv_split = 3 # 1 on inversion
         s = np.einsum("nij,j->n", self.sym.S, [1,1,1])
         swap = np.abs(np.abs(s - 1) - 2) > 1e-5
         if self.sym.inversion:
             # see append_diamond_s
             # mixed inversion symmetry is not allowed here, so this is split up
-            urepr.inv_split = 0 # -1 on inversion
-            self.append(urepr, pos, name+"0")
             urepr.inv_split = 3 #  1 on inversion
+            self.append(urepr, pos, name+"0")
+            urepr.inv_split = 0 # -1 on inversion
             urepr.U[swap] *= -1 # -1 on rotation
             self.append(urepr, pos, name+"1")
         else:
-- 
2.43.0


From 68e1cceed64dc70b8501ff259a2b732e9ca295e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 100/110] fix: the mass density counted the electrons a second
 time

---
 src/tight_binding_redweasel/qespresso_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index cbfb5e8..53db90d 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -390,9 +390,8 @@ class QECrystal:
         ax.legend()
     
     def _mass_per_cell(self) -> float:
-        nuclei_mass = 1.66053907e-27 * sum((element_masses[element_numbers[t]] for t in self.types))
-        electron_mass = 9.1093837e-31 * sum((element_numbers[t] for t in self.types))
-        return electron_mass + nuclei_mass # in kg
+        # the atomic masses already include the electrons
+        return 1.66053907e-27 * sum((element_masses[element_numbers[t]] for t in self.types)) # in kg
 
     def mass_density(self) -> float:
         """Compute the mass density based on the given crystal lattice.
-- 
2.43.0


From 9851adbc9b5f890c3bae7d3d27b4932b54e198b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 101/110] fix: TightBindingModel.init_from_ref with
 use_repr_order silently lost levels when the first or last degeneracy of the
 data exceeds the representation

---
 src/tight_binding_redweasel/tight_binding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 8d98483..c94968a 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -134,6 +134,8 @@ class TightBindingModel:
                     # allow model_sym_size to be bigger than data_sym_size
                     if model_sym_size - data_sym_size > additional_left:
                         raise ValueError("The given representation doesn't fit the data. The additional bands are used up too early.")
+                    if data_sym_size > model_sym_size:
+                        raise ValueError(f"The given representation doesn't fit the data. A representation of size {model_sym_size} can't be paired with data with degeneracy {data_sym_size}")
                     additional_left -= max(0, model_sym_size - data_sym_size)
                 else:
                     if data_sym_size != model_sym_size:
-- 
2.43.0


From 38ed2ac894ddc8d891cd6e2ada8a40732a420c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 102/110] fix: free_electron_model_orthogonal used too many
 terms in short directions and too few in long ones for different lattice
 constants

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 3500127..03fce08 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -902,7 +902,9 @@ def free_electron_model_orthogonal(a: float, b: float, c: float, neighbor_count:
     model2 = model.supercell(np.diag([a, b, c]), np.diag([a, b, c])*bands_per_direction)
     model2.H.neighbors /= bands_per_direction
     model2 *= bands_per_direction**2
-    model2.H.limit_neighbor_count(neighbor_count * 3 + 1)
+    # the terms of the other directions are not the closest ones, if a, b, c differ
+    mask = np.all(np.abs(model2.H.neighbors / [a, b, c]) < neighbor_count + 0.5, axis=-1)
+    model2.H = HermitianFourierSeries(model2.H.neighbors[mask], model2.H.H_r[mask])
 
     eV_unit = 3.80998211 * (2*np.pi)**2 # hbar^2/m_e/2 / (1Å)^2 / 1eV * (2pi)^2
     return model2, eV_unit
-- 
2.43.0


From 0d483378d28eb34c18976ba6f0bc4b97a3ac8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 103/110] fix: the Newton refined band ranges depended on the
 unit of length and the orientation of the lattice

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 95f056f..e457bb6 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -285,7 +285,7 @@ class DensityOfStates:
                     if np.any(eigvals < 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(self.A.T @ step / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     min_k -= step
                 # find maximum
@@ -296,7 +296,7 @@ class DensityOfStates:
                     if np.any(eigvals > 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(self.A.T @ step / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
                 # compute min/max values and store them
-- 
2.43.0


From a32a641408c90ed3c3932909cfac947a7d5cbc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 104/110] fix: the heat capacity depended on the zero of the
 energy

---
 src/tight_binding_redweasel/density_of_states.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index e457bb6..dd3e3a2 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -717,7 +717,9 @@ class DensityOfStates:
         # du/dT = 1/T * integral rho(e)*e*(e - mu(T) + mu'(T)*T) * w de
         # the resulting integral has terms up to e^2, for which the analytical
         # solution is implemented. To use it, the substitution e = x/beta + mu must be made.
-        # -> e*(e-mu2) -> (x/beta + mu)*(x/beta - mu'*T) = x^2/beta^2 + (mu-mu'*T)*x/beta + mu*mu'*T
+        # The number of electrons doesn't change, so integral rho(e)*(e - mu(T) + mu'(T)*T)*(-df/de) de = 0
+        # and e can be measured from mu, such that errors in rho and mu'(T) are not scaled with the arbitrary zero of energy.
+        # -> (e-mu)*(e-mu2) -> x/beta*(x/beta + mu'*T) = x^2/beta^2 + mu'*T*x/beta
         # Note that rho should be approximated linear as rho(e) = a*(e-e0)+b, which makes the integral cubic in x.
         # Then, one has to Taylor to get a quadratic approximation centered in the relevant interval.
 
@@ -737,13 +739,13 @@ class DensityOfStates:
             def segment(e0, e1, y0, y1):
                 dx = e1 - e0
                 dy = y1 - y0
-                em = (e0 + e1) / 2
+                em = (e0 + e1) / 2 - mu
                 a = dy / dx
                 b = (y0 + y1) / 2
-                # rho(e) = a*(e-em)+b
-                a0 = (a*(2*em - mu + seebeck) + b)/beta**2
-                b0 = (a*(-3*em**2 - em*seebeck - 2*mu**2 + mu*(5*em + 2*seebeck)) + b*(mu + seebeck))/beta
-                c0 = a*(em**3 - mu**3 + mu**2*(3*em + seebeck) + mu*(-3*em**2 - em*seebeck)) + b*mu*seebeck
+                # rho(e) = a*(e-mu-em)+b
+                a0 = (a*(2*em + seebeck) + b)/beta**2
+                b0 = (a*(-3*em**2 - em*seebeck) + b*seebeck)/beta
+                c0 = a*em**3
                 return int_poly((e0 - mu) * beta, (e1 - mu) * beta, a0, b0, c0)
             # above and below energy range, this is just zero, so no extrapolation needed.
             return np.sum(segment(e_smpl[:-1], e_smpl[1:], rho[:-1], rho[1:]))
-- 
2.43.0


From 7e5f5a35cd65072a044c32029b101d28b221c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:33 +0000
Subject: [PATCH 105/110] fix: AsymTightBindingModel.bands_grad_hess returned
 arbitrarily big Hessians for degenerate bands

---
 .../tight_binding_asym.py                     | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 03fce08..d13395a 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -808,28 +808,25 @@ class AsymTightBindingModel:
             (arraylike(N_k, N_b), arraylike(N_k, dim, N_b), arraylike(N_k, dim, dim, N_b)): (bands, grads, hessians)
         """
         bands, ev = geigh(self.H.f(k_smpl), self.S.f(k_smpl))
-        df = self.H.df(k_smpl)
-        ddf = self.H.ddf(k_smpl)
-        # first order perturbation theory terms (including the change of the overlap)
-        df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
-        ds_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), self.S.df(k_smpl), ev)
-        df_ev = df_ev - ds_ev * bands[:, None, None, :]
-        grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
-        hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
-        hess1 -= np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), self.S.ddf(k_smpl), ev)) * bands[:, None, None, :]
-        # change of the normalisation of the eigenvectors
-        dnorm = grads[:, :, None, :] * np.real(np.diagonal(ds_ev, axis1=2, axis2=3))[:, None, :, :]
-        hess1 -= dnorm + np.swapaxes(dnorm, 1, 2)
-        # second order perturbation theory terms
-        no_diag = np.array(df_ev)  # copy before modification (grads is a view)
-        for i in range(grads.shape[-1]):
-            no_diag[:, :, i, i] = 0  # zero out diagonal terms
-        # dev = ev[:,None,:,:] @ (no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40))
-        # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
-        db = no_diag / (bands[:, None, :, None] -
-                        bands[:, None, None, :] + 1e-40)
-        hess2 = np.real(np.einsum("mpki, mqki -> mpqi", np.conj(df_ev), db))
-        return bands, grads, hess1 - 2*hess2
+        # use the basis of the eigenvectors at k, such that H is diagonal and S is the identity
+        ev1 = ev[..., None, :, :]
+        ev1_h = np.conj(np.swapaxes(ev1, -1, -2))
+        ev2, ev2_h = ev1[..., None, :, :], ev1_h[..., None, :, :]
+        H = bands[..., None, :] * np.eye(bands.shape[-1])
+        dH, ddH = ev1_h @ self.H.df(k_smpl) @ ev1, ev2_h @ self.H.ddf(k_smpl) @ ev2
+        dS, ddS = ev1_h @ self.S.df(k_smpl) @ ev1, ev2_h @ self.S.ddf(k_smpl) @ ev2
+        # Now Hv = ESv is the standard eigenproblem of XHX with X = S^(-1/2) = 1 - (S-1)/2 + 3/8 (S-1)^2 + ...
+        # (standard, because eigh_grad_hess can also handle degenerate bands)
+        dX = -0.5 * dS
+        dS_dS = dS[..., :, None, :, :] @ dS[..., None, :, :, :]
+        ddX = -0.5 * ddS + 0.375 * (dS_dS + np.swapaxes(dS_dS, -3, -4))
+        dX_dH = dX[..., :, None, :, :] @ dH[..., None, :, :, :]
+        ddX_H = ddX @ H[..., None, None, :, :] + dX_dH + np.swapaxes(dX_dH, -3, -4)
+        ddX_H += dX[..., :, None, :, :] @ H[..., None, None, :, :] @ dX[..., None, :, :, :]
+        dX_H = dX @ H[..., None, :, :]
+        dH = dH + dX_H + np.conj(np.swapaxes(dX_H, -1, -2))
+        ddH = ddH + ddX_H + np.conj(np.swapaxes(ddX_H, -1, -2))
+        return (bands,) + tuple(eigh_grad_hess(H, dH, ddH, epsilon=1e-6)[1:3])
 
     def supercell(self, A_original, A_new) -> 'AsymTightBindingModel':
         """
-- 
2.43.0


From 3253e086a704273ac90e61127b0d2e931c227b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:27 +0000
Subject: [PATCH 106/110] fix: TightBindingModel.bands_grad_hess returned
 arbitrarily big Hessians for degenerate bands

---
 src/tight_binding_redweasel/tight_binding.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index c94968a..895e8ac 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -3,6 +3,7 @@ from matplotlib import pyplot as plt
 from .symmetry import *
 from .unitary_representations import *
 from .loss import *
+from .linalg import eigh_grad_hess
 
 def random_hermitian(n):
     h = (np.random.random((n, n)) * 2 - 1) + 1j * (2 * np.random.random((n, n)) - 1)
@@ -479,22 +480,8 @@ class TightBindingModel:
     # hessian, gradients wrt to k of the bands at k_smpl
     # returns (bands, grads, hessians)
     def bands_grad_hess(self, k_smpl):
-        bands, ev = np.linalg.eigh(self.f(k_smpl))
-        df = self.df(k_smpl)
-        ddf = self.ddf(k_smpl)
-        # first order perturbation theory terms
-        df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
-        grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
-        hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
-        # second order perturbation theory terms
-        no_diag = np.array(df_ev) # copy before modification (grads is a view)
-        for i in range(len(grads[0,0])):
-            no_diag[:,:,i,i] = 0 # zero out diagonal terms
-        #dev = ev[:,None,:,:] @ (no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40))
-        #hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
-        db = no_diag / (bands[:,None,:,None] - bands[:,None,None,:] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
-        return bands, grads, hess1 - 2*hess2
+        # (takes care of degenerate bands)
+        return tuple(eigh_grad_hess(self.f(k_smpl), self.df(k_smpl), self.ddf(k_smpl), epsilon=1e-6)[:3])
 
     def copy(self):
         return TightBindingModel(self.unitary_repr, self.neighbors, self.params)
-- 
2.43.0


From 046c6329a259f754645bbb991845e17096a832b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:27 +0000
Subject: [PATCH 107/110] fix: TightBindingModel.bands_grad failed for a single
 k and for grids of k

---
 src/tight_binding_redweasel/tight_binding.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 895e8ac..05441a7 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -3,7 +3,7 @@ from matplotlib import pyplot as plt
 from .symmetry import *
 from .unitary_representations import *
 from .loss import *
-from .linalg import eigh_grad_hess
+from .linalg import eigh_grad, eigh_grad_hess
 
 def random_hermitian(n):
     h = (np.random.random((n, n)) * 2 - 1) + 1j * (2 * np.random.random((n, n)) - 1)
@@ -472,10 +472,7 @@ class TightBindingModel:
     # gradients of the bands (group velocities) in the shape (len(k_smpl), len(k), len(bands))
     # returns (bands, bands_grad)
     def bands_grad(self, k_smpl):
-        bands, ev = np.linalg.eigh(self.f(k_smpl))
-        df = self.df(k_smpl)
-        grads = np.real(np.einsum("mji, mnjk, mki -> mni", np.conj(ev), df, ev))
-        return bands, grads
+        return tuple(eigh_grad(self.f(k_smpl), self.df(k_smpl))[:2])
     
     # hessian, gradients wrt to k of the bands at k_smpl
     # returns (bands, grads, hessians)
-- 
2.43.0


From 0c047ec53f54bb0dd7a48a38bdd05ccdcdf520b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:27 +0000
Subject: [PATCH 108/110] fix: BandStructureModel.__add__ silently evaluated
 the second model with the symmetry of the first

---
 src/tight_binding_redweasel/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index b01c711..ca2d38b 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -853,6 +853,7 @@ class BandStructureModel:
             # direct sum of the models -> combine the bandstructures
             assert self.cos_reduced == other.cos_reduced, "Bandstructure needs to be of the same type (cos_reduced is different)"
             assert self.exp == other.exp, "Bandstructure needs to be of the same type (exp is different)"
+            assert self.sym == other.sym, "Bandstructure needs to be of the same type (symmetry is different)"
             assert self.neighbors is not None
             assert other.neighbors is not None
             assert np.linalg.norm(self.neighbors - other.neighbors) < 1e-8, "Bandstructure needs to be of the same type (neighbors are different)"
-- 
2.43.0


From 30affe750a8f5ad8abfb8acc63a6fc2be027b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:54 +0000
Subject: [PATCH 109/110] fix: normalising a direct sum with symmetrizers
 removed the second model

---
 src/tight_binding_redweasel/bandstructure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ca2d38b..c43373d 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -859,6 +859,14 @@ class BandStructureModel:
             assert np.linalg.norm(self.neighbors - other.neighbors) < 1e-8, "Bandstructure needs to be of the same type (neighbors are different)"
             res = self.copy()
             res.params = direct_sum(self.params, other.params)
+            if self.symmetrizer is not None or other.symmetrizer is not None:
+                # each symmetrizer only fits to the parameters of its own model
+                n, symmetrizer_a, symmetrizer_b = self.band_count(), self.symmetrizer, other.symmetrizer
+
+                def symmetrizer(params):
+                    a, b = params[:, :n, :n], params[:, n:, n:]
+                    return direct_sum(a if symmetrizer_a is None else symmetrizer_a(a), b if symmetrizer_b is None else symmetrizer_b(b))
+                res.symmetrizer = symmetrizer
             return res
         else:
             # shift the whole bandstructure
-- 
2.43.0


From 8e66e59c6773f4bade3134eeab1bc55bd0a486bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:54 +0000
Subject: [PATCH 110/110] fix: normalising a permuted model used the
 symmetrizer of the original basis order

---
 src/tight_binding_redweasel/bandstructure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index c43373d..4b4bdd2 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -593,6 +593,11 @@ class BandStructureModel:
         for i in range(len(self.params)):
             self.params[i] = self.params[i][order]
             self.params[i] = self.params[i][:, order]
+        if self.symmetrizer is not None:
+            # the symmetrizer is defined for the original order
+            symmetrizer, order = self.symmetrizer, np.array(order)
+            inverse = np.argsort(order)
+            self.symmetrizer = lambda params: symmetrizer(params[:, inverse][:, :, inverse])[:, order][:, :, order]
 
     def params_complex(self):
         """
-- 
2.43.0

