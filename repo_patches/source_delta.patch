From acba6ea98f72d67f8824b452c7ed54071435b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 01/59] fix: argument order in dw_st_adj_supg_c (state and
 parameter were swapped)

---
 sfepy/terms/terms_adj_navier_stokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 44b0623..fdfa765 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -133,7 +133,7 @@ class SUPGCAdjStabilizationTerm(Term):
 
     function = staticmethod(terms.dw_st_adj_supg_c)
 
-    def get_fargs(self, mat, virtual, state, parameter,
+    def get_fargs(self, mat, virtual, parameter, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
         vg, _ = self.get_mapping(state)
 
-- 
2.43.0


From 3a72e6dbb34319968ec686b7bc3bc10583519760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 02/59] fix: component-by-component DOF ordering in actBfT
 (dw_vm_dot_s)

---
 sfepy/terms/extmods/terms_op.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/extmods/terms_op.c b/sfepy/terms/extmods/terms_op.c
index 64252d2..4e3474b 100644
--- a/sfepy/terms/extmods/terms_op.c
+++ b/sfepy/terms/extmods/terms_op.c
@@ -73,15 +73,15 @@ int32 actBfT(FMField *out, FMField *bf, FMField *A)
     for (iqp = 0; iqp < bf->nLev; iqp++) {
       pbf = FMF_PtrLevel(bf, iqp);
       pout = FMF_PtrLevel(out, iqp);
-      for (ii = 0; ii < nEP; ii++) {
-        pA = FMF_PtrLevel(A, iqp);
-        for (ir = 0; ir < dim; ir++) {
+      pA = FMF_PtrLevel(A, iqp);
+      for (ir = 0; ir < dim; ir++) {
+        for (ii = 0; ii < nEP; ii++) {
           for (ic = 0; ic < A->nCol; ic++) {
             pout[ic] = pbf[ii] * pA[ic];
           }
           pout += out->nCol;
-          pA += A->nCol;
         }
+        pA += A->nCol;
       }
     } // for (iqp)
   } // for (iel)
-- 
2.43.0


From 8e17f236ce46b280d1a70ccea4b0fe5e47185a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 03/59] fix: off-diagonal entries of the dw_lin_spring
 stiffness matrix

---
 sfepy/terms/terms_elastic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 4640aeb..f6e6f8a 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -890,7 +890,8 @@ class LinearSpringTerm(Term):
             eye.shape = (1, 1) + eye.shape
             out[...] = - stiffness * eye
             for k in nm.arange(dim) * 2:
-                out[..., k, k + 1] = out[..., k + 1, k] = 1
+                out[..., k, k + 1] = stiffness[..., 0, 0]
+                out[..., k + 1, k] = stiffness[..., 0, 0]
 
         return 0
 
-- 
2.43.0


From ea1b4b58e845239ab38efeffb16be60bfa176677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 04/59] fix: transform the translation-rotation coupling in the
 dw_lin_dspring_rot matrix

---
 sfepy/terms/terms_elastic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index f6e6f8a..305d8fc 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -1154,7 +1154,10 @@ class LinearDSpringTerm(LinearTrussTerm):
 
         else:
             out[...] = ke[:, None, ...]
-            membranes.transform_asm_matrices(out[..., :ntr, :ntr], mtx_t)
+            # Rotational DOFs are not transformed.
+            mtx_tr = nm.tile(nm.eye(ndof), (nel, 1, 1))
+            mtx_tr[:, :dim, :dim] = mtx_t
+            membranes.transform_asm_matrices(out, mtx_tr)
 
         return 0
 
-- 
2.43.0


From 605fedaffae134e5ee920368b8fd169ac1d55db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 05/59] fix: row upper bound in bsearch() of sparse matrix
 assembling

---
 sfepy/discrete/common/extmods/assemble.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/assemble.pyx b/sfepy/discrete/common/extmods/assemble.pyx
index 362a23a..a02934a 100644
--- a/sfepy/discrete/common/extmods/assemble.pyx
+++ b/sfepy/discrete/common/extmods/assemble.pyx
@@ -248,7 +248,7 @@ def assemble_matrix_b(float64[::1] mtx not None,
 
                 iloc = n_epc * ir + ic
 
-                ik = bsearch(_cols, _prows[irg], _prows[irg + 1], icg)
+                ik = bsearch(_cols, _prows[irg], _prows[irg + 1] - 1, icg)
                 if ik >= 0:
                     val[ik] += sign * mtx_in_el[iloc]
 
@@ -302,7 +302,7 @@ def assemble_matrix_complex_b(complex128[::1] mtx not None,
 
                 iloc = n_epc * ir + ic
 
-                ik = bsearch(_cols, _prows[irg], _prows[irg + 1], icg)
+                ik = bsearch(_cols, _prows[irg], _prows[irg + 1] - 1, icg)
                 if ik >= 0:
                     val[ik] += sign * mtx_in_el[iloc]
 
-- 
2.43.0


From 5ed97693ac50d9dffca086e37093690101895de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 06/59] fix: out-of-bounds reads in 2D contact search

---
 sfepy/mechanics/extmods/contres.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sfepy/mechanics/extmods/contres.c b/sfepy/mechanics/extmods/contres.c
index 96d44f0..2a6453a 100644
--- a/sfepy/mechanics/extmods/contres.c
+++ b/sfepy/mechanics/extmods/contres.c
@@ -912,17 +912,15 @@ void evaluateContactConstraints(float64* GPs, int32* ISN, int32* IEN, int32* N,
 		  switch (nsn) {
 		  case 2:
 		    // Tangent vectors parallel with element edges 1 and 2:
-		    // Component: X     Y      Z
-		    // Node 1:  Xm[0] Xm[2]  Xm[4]
-		    // Node 2:  Xm[1] Xm[3]  Xm[5]
+		    // Component: X     Y
+		    // Node 1:  Xm[0] Xm[2]
+		    // Node 2:  Xm[1] Xm[3]
 
 		    r_len = pow(Xm[1] - Xm[0], 2.0) +
-		      pow(Xm[3] - Xm[2], 2.0) +
-		      pow(Xm[5] - Xm[4], 2.0);
+		      pow(Xm[3] - Xm[2], 2.0);
 
 		    r = ((Xp[0] - Xm[0])  * (Xm[1] - Xm[0]) +
-			 (Xp[1] - Xm[2])  * (Xm[3] - Xm[2]) +
-			 (Xp[2] - Xm[4])  * (Xm[5] - Xm[4])) / r_len;
+			 (Xp[1] - Xm[2])  * (Xm[3] - Xm[2])) / r_len;
 		    r = 2*r-1;
 		    break;
 		  case 6:
-- 
2.43.0


From 44d0d28fb9554db6e8c215dc1163688b97d4ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 07/59] fix: undefined name in
 ElastodynamicsBasicTSC.get_initial_dt()

---
 sfepy/solvers/ts_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
-- 
2.43.0


From afda182beacb4c2a6fbec440c2cb45df634be228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 08/59] fix: TimeStepper.__eq__()

---
 sfepy/solvers/ts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 4b1f50a..d44f6cf 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -111,8 +111,8 @@ class TimeStepper(Struct):
     def __eq__(self, other):
 
         if type(other) == type(self):
-            return (abs(self.t0 == other.t0) < 1e-15) and \
-                   (abs(self.t1 == other.t1) < 1e-15) and \
+            return (abs(self.t0 - other.t0) < 1e-15) and \
+                   (abs(self.t1 - other.t1) < 1e-15) and \
                    (self.n_step == other.n_step)
         else:
             raise ValueError
-- 
2.43.0


From a721b55135e005f8a75c687399fbf42ea77f7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 09/59] fix: tangent and in-place material change in
 dw_tl_he_svk

---
 sfepy/terms/terms_hyperelastic_tl.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 40371db..ffbed4d 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -503,18 +503,16 @@ class SaintVenantKirchhoffTLTerm(HyperElasticTLBase):
     geometries = ['3_4', '3_8']
 
     def stress_function(self, out, mat, *fargs, **kwargs):
-        sym_e = fargs[0]
+        sym_e = fargs[0].copy()
         mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0])
         dim = self.region.dim
-        mat[:, :, :, dim:] *= 2 # fix shear components
+        sym_e[:, :, dim:] *= 2 # fix shear components
         out[:] = nm.einsum('ijkl,ijl...->ijk...', mat, sym_e)
         return out
 
     def tan_mod_function(self, out, mat, *fargs, **kwargs):
-        mat = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
-        dim = self.region.dim
-        mat[:, :, dim:, :] *= 2 # fix shear components
-        out[:] = mat
+        # The tangent operator uses the engineering shear strains.
+        out[:] = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
         return out
 
 class MooneyRivlinTLTerm(HyperElasticTLBase):
-- 
2.43.0


From be81bcd5fb52343635f5e80736b9ffdbc8097867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 10/59] fix: stress of dw_tl_fib_spe

---
 sfepy/terms/terms_fibres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index e02b6c2..746f1f7 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -292,7 +292,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
 
         eps = compute_fibre_strain(green_strain, omega)
 
-        tau0 = fibre_data.tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
+        tau0 = fibre_data.tau0 = sigma * (nm.exp(k * (eps - eps0)) - 1.0)
         # Stable relation for
         # tau = (1.0 / alpha) * nm.log(1.0 + nm.exp(alpha * tau0))
         tau = (1.0 / alpha) * nm.logaddexp(0, alpha * tau0)
-- 
2.43.0


From 152815f0a37207a0c57e5975cc3bb982077bfe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 11/59] fix: shear components in fibre strain of dw_tl_fib_*
 terms

---
 sfepy/terms/terms_fibres.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index 746f1f7..3673b5d 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -2,7 +2,7 @@ import numpy as nm
 
 from sfepy.base.base import Struct
 from sfepy.terms.terms_hyperelastic_tl import HyperElasticTLBase
-from sfepy.mechanics.tensors import dim2sym
+from sfepy.mechanics.tensors import dim2sym, sym2dim
 from sfepy.homogenization.utils import iter_sym
 
 def create_omega(fdir):
@@ -22,8 +22,10 @@ def compute_fibre_strain(green_strain, omega):
     Compute the Green strain projected to the fibre direction.
     """
     eps = nm.zeros_like(omega[..., :1, :])
-    for ii in range(omega.shape[2]):
-        eps[..., 0, 0] += omega[..., ii, 0] * green_strain[..., ii, 0]
+    for ii, (ir, ic) in enumerate(iter_sym(sym2dim(omega.shape[2]))):
+        # The off-diagonal components are stored once.
+        mul = 1.0 if ir == ic else 2.0
+        eps[..., 0, 0] += mul * omega[..., ii, 0] * green_strain[..., ii, 0]
 
     return eps
 
-- 
2.43.0


From 0f0c7a0eea1f248598e724406aee823702d7ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 12/59] fix: stress and tangent of dw_tl_he_ogden

---
 sfepy/terms/terms_hyperelastic_tl.py | 44 ++++++++--------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index ffbed4d..404ec96 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -318,9 +318,9 @@ class OgdenTLTerm(HyperElasticTLBase):
 
     .. math::
         S^{(k)} = J^{-2/3} \, \left(
-            \mu \, \bar\lambda^{\alpha - 2}
+            \mu \, \bar\lambda_k^{\alpha - 2}
             -\sum_{j=1}^3 \frac{\mu}{3}
-            \frac{\lambda_j^{\alpha}}{\lambda_k^2} \right) \; ,
+            \frac{\bar\lambda_j^{\alpha}}{\bar\lambda_k^2} \right) \; ,
         \quad k = 1, 2, 3 \; .
 
     and :math:`\mathbf{N}^{(k)}`, :math:`k=1, 2, 3` are the eigenvectors of
@@ -357,7 +357,7 @@ class OgdenTLTerm(HyperElasticTLBase):
     def _get_single_stress(lbds, nks, det_f, coef, exp):
         a_p = sum(lbds**exp)
         s_k = [
-            coef * det_f**(-2. / 3) *(
+            coef * det_f**(-exp / 3) *(
                 lbdi**(exp - 2) - a_p / lbdi**2 / 3)
             for lbdi, ni in zip(lbds, nks.T)]
         out = nm.sum(
@@ -387,37 +387,17 @@ class OgdenTLTerm(HyperElasticTLBase):
         return out
 
     @staticmethod
-    def _get_single_tan_mod(total_lbds, nks, det_f, coef, exp):
-        lbds = det_f**(-1/3) * total_lbds
-        _bracket = [
-            (det_f**(-1 / 3) * lbdi)**(exp - 2)
-            -sum([1. / 3 * lbdj**exp / lbdi**2 for lbdj in lbds])
-            for lbdi in lbds]
-        s_k = nm.array([
-            coef * det_f**(-2 / 3) * _bracket_ii
-            for lbdi, _bracket_ii in zip(lbds, _bracket)])
-
-        dj_dlbd = [det_f / lbdj for lbdj in lbds]
-
-        dlbd_dlbd = det_f**(-1/3) * nm.array([[
-            nm.eye(3)[ii, jj] - lbds[ii] / lbds[jj] / 3
-            for jj in range(3)] for ii, dj_dlbdi in enumerate(dj_dlbd)])
-
-        dsk_dlbd_1 = coef * nm.array([[
-            -2 / 3 * det_f**(-5 / 3) * dj_dlbd[ii] * lbds[kk]**(exp - 2)
-            +det_f**(-2/3) * (exp - 2) * lbds[kk]**(exp - 3) * dlbd_dlbd[kk, ii]
-            for ii in range(3)] for kk in range(3)])
+    def _get_single_tan_mod(lbds, nks, det_f, coef, exp):
+        a_p = sum(lbds**exp)
+        fact = coef * det_f**(-exp / 3)
+        s_k = fact * (lbds**(exp - 2) - a_p / lbds**2 / 3)
 
-        dsk_dlbd_2 = coef / 3 * nm.array([[
-            -2 / 3 * det_f**(-5 / 3) * dj_dlbd[ii] * nm.sum([
-                lbds[jj]**exp / lbds[kk]**2
-                for jj in range(3)])
-            +det_f**(-2/3) * nm.sum([
-                exp * lbds[jj]**(exp - 1) / lbds[kk]**2 * dlbd_dlbd[jj, ii]
-                -2 * lbds[jj]**exp / lbds[kk]**3 * dlbd_dlbd[kk, ii]
-                for jj in range(3)])
+        dsk_dlbd = nm.array([[
+            -exp / 3 * s_k[kk] / lbds[ii]
+            -fact * exp / 3 * lbds[ii]**(exp - 1) / lbds[kk]**2
             for ii in range(3)] for kk in range(3)])
-        dsk_dlbd = dsk_dlbd_1 - dsk_dlbd_2
+        dsk_dlbd += nm.diag(
+            fact * ((exp - 2) * lbds**(exp - 3) + 2 * a_p / lbds**3 / 3))
 
         tan_mod = nm.zeros((3, 3, 3, 3))
         for mm, nn, pp, qq in zip(*[ind.flatten()
-- 
2.43.0


From bde7d278c1e87f7dabc94296e8d1c33f9382db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 13/59] fix: component order in geme_mulT2S_AA() (3D
 dw_ul_he_mooney_rivlin)

---
 sfepy/discrete/common/extmods/geommech.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/common/extmods/geommech.c b/sfepy/discrete/common/extmods/geommech.c
index 8f8c2b1..723fad6 100644
--- a/sfepy/discrete/common/extmods/geommech.c
+++ b/sfepy/discrete/common/extmods/geommech.c
@@ -595,12 +595,12 @@ int32 geme_mulT2S_AA( FMField *R, FMField *A )
       pr[2] = pa[2]*pa[0] + pa[1]*pa[2];
       break;
     case 6:
-      pr[0] = pa[0]*pa[0] + pa[5]*pa[5] + pa[4]*pa[4];
-      pr[1] = pa[5]*pa[5] + pa[1]*pa[1] + pa[3]*pa[3];
-      pr[2] = pa[4]*pa[4] + pa[3]*pa[3] + pa[2]*pa[2];
-      pr[3] = pa[4]*pa[5] + pa[1]*pa[3] + pa[2]*pa[3];
-      pr[4] = pa[0]*pa[4] + pa[5]*pa[3] + pa[4]*pa[2];
-      pr[5] = pa[0]*pa[5] + pa[5]*pa[1] + pa[4]*pa[3];
+      pr[0] = pa[0]*pa[0] + pa[3]*pa[3] + pa[4]*pa[4];
+      pr[1] = pa[3]*pa[3] + pa[1]*pa[1] + pa[5]*pa[5];
+      pr[2] = pa[4]*pa[4] + pa[5]*pa[5] + pa[2]*pa[2];
+      pr[3] = pa[0]*pa[3] + pa[3]*pa[1] + pa[4]*pa[5];
+      pr[4] = pa[0]*pa[4] + pa[3]*pa[5] + pa[4]*pa[2];
+      pr[5] = pa[3]*pa[4] + pa[1]*pa[5] + pa[5]*pa[2];
       break;
     default:
       errput( ErrHead "ERR_Switch\n" );
-- 
2.43.0


From 0749d634369740ae3f7052047067d85393ee4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 14/59] fix: factor two in the tangent modulus of
 dw_ul_he_mooney_rivlin

---
 sfepy/terms/extmods/terms_hyperelastic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/extmods/terms_hyperelastic.c b/sfepy/terms/extmods/terms_hyperelastic.c
index e69edc0..210da92 100644
--- a/sfepy/terms/extmods/terms_hyperelastic.c
+++ b/sfepy/terms/extmods/terms_hyperelastic.c
@@ -1307,12 +1307,12 @@ int32 dq_ul_he_tan_mod_mooney_rivlin( FMField *out, FMField *mat,
     for (iqp = 0; iqp < nQP; iqp++) {
       detF23 = exp( -2.0/3.0 * log( pdetF[iqp] ) );
       detF43 = detF23 * detF23;
-      F1 = 16.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F2 = -8.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
-      F3 = 4.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F4 = 4.0 * pkappa[iqp] * detF43;
-      F5 = -2.0 * pkappa[iqp] * detF43;
-      F6 = 8.0/3.0 * pkappa[iqp] * detF43;
+      F1 = 8.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F2 = -4.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
+      F3 = 2.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F4 = 2.0 * pkappa[iqp] * detF43;
+      F5 = - pkappa[iqp] * detF43;
+      F6 = 4.0/3.0 * pkappa[iqp] * detF43;
       for (ir = 0; ir < sym; ir++) {
         for (ic = 0; ic < sym; ic++) {
           pd[sym*ir+ic]
-- 
2.43.0


From 7122c1f74525f8f2547ff1886f97a9907b255454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 15/59] fix: do not modify the cached variable evaluation in
 ev_integrate

---
 sfepy/terms/terms_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index f4c7f0b..cb295ea 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -85,7 +85,7 @@ class IntegrateTerm(Term):
 
         val_qp = self.get(parameter, 'val')
         if material is not None:
-            val_qp *= material
+            val_qp = val_qp * material
 
         fmode = {'eval' : 0, 'el_avg' : 1, 'qp' : 2}.get(mode, 1)
         if term_mode == 'flux':
-- 
2.43.0


From d611ee542b68e4ad1ff3ab61e099ea0567205bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 16/59] fix: transposed material in eval mode of
 dw_v_dot_grad_s

---
 sfepy/terms/terms_dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 1d23b3e..3e6716d 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -342,7 +342,7 @@ class VectorDotGradScalarTerm(Term):
             grad = self.get(svar, 'grad')
             val = self.get(vvar, 'val')
 
-            return coef, grad, val, vvg
+            return coef, val, grad, vvg
 
         else:
             raise ValueError('unsupported evaluation mode in %s! (%s)'
-- 
2.43.0


From 4ad0ac13c8335e9af64db092712cae5c50977404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 17/59] fix: transposed non-symmetric traction tensor in eval
 mode of dw_surface_ltr

---
 sfepy/terms/terms_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_surface.py b/sfepy/terms/terms_surface.py
index 1135a14..19dad54 100644
--- a/sfepy/terms/terms_surface.py
+++ b/sfepy/terms/terms_surface.py
@@ -58,7 +58,7 @@ class LinearTractionTerm(Term):
             aux = dot_sequences(val, traction, 'ATB')
 
         elif tdim == dim and tdim2 == dim: # Traction tensor - nonsymmetric
-            trn = dot_sequences(traction, sg.normal, 'ATB')
+            trn = dot_sequences(traction, sg.normal, 'AB')
             aux = dot_sequences(val, trn, 'ATB')
 
         elif tdim == sym: # Traction tensor
-- 
2.43.0


From df61a707fed2c656b75e496dc25a21ebba80413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 18/59] fix: shear components of the fibre strain in
 dw_lin_strain_fib

---
 sfepy/terms/terms_elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 305d8fc..9ed4621 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -378,6 +378,8 @@ class LinearStrainFiberTerm(Term):
         omega = nm.empty(mat1.shape[:3] + (1,), dtype=nm.float64)
         for ii, (ir, ic) in enumerate(iter_sym(mat2.shape[2])):
             omega[..., ii, 0] = mat2[..., ir, 0] * mat2[..., ic, 0]
+            if ir != ic: # Strain storage: doubled shear components.
+                omega[..., ii, 0] *= 2.0
 
         return mat1, omega, vg
 
-- 
2.43.0


From 4b7f02e9d8c75036477be53c0d0aa22047c7e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 19/59] fix: transposed velocity gradient in dw_st_adj_supg_c

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index 88e2813..5f6fd9e 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -213,8 +213,8 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
 
     // u grad.
     convect_build_vtg( fUTg, vg->bfGM, stateU );
-    // (grad u, u^T grad).
-    fmf_mulAB_nn( gUfUTg, gradU, fUTg );
+    // (grad u^T, u^T grad).
+    fmf_mulATB_nn( gUfUTg, gradU, fUTg );
     // (v grad u, u grad).
     bf_actt( fTgUfUTg, vg->bf, gUfUTg );
 
-- 
2.43.0


From b68d97f3777bba4d9c49a442dac8352a806f7f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 20/59] fix: use the Jacobian of each element in
 dw_convect_v_grad_s

---
 sfepy/terms/extmods/terms_diffusion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_diffusion.c b/sfepy/terms/extmods/terms_diffusion.c
index ea59c5a..dea05e6 100644
--- a/sfepy/terms/extmods/terms_diffusion.c
+++ b/sfepy/terms/extmods/terms_diffusion.c
@@ -654,6 +654,7 @@ int32 dw_convect_v_grad_s( FMField *out, FMField *val_v, FMField *grad_s,
   for (ii = 0; ii < out->nCell; ii++) {
     FMF_SetCell( out, ii );
     FMF_SetCellX1( svg->bf, ii );
+    FMF_SetCell( vvg->det, ii );
 
     if (isDiff == 0) {
       FMF_SetCell( val_v, ii );
-- 
2.43.0


From 15f819e126f58196e449132969c630fb20c7f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 21/59] fix: do not reuse the expression of a different
 evaluation mode in ETermBase

---
 sfepy/terms/terms_multilinear.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..784e5ce 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -829,13 +829,16 @@ class ETermBase(Term):
         timer = Timer('')
         timer.start()
 
-        einfo = self.einfos.setdefault(diff_var, Struct(
-            eargs=None,
-            ebuilder=None,
-            paths=None,
-            path_infos=None,
-            eval_einsum=None,
-        ))
+        einfo = self.einfos.get(diff_var)
+        if (einfo is None) or (einfo.mode != mode):
+            einfo = self.einfos[diff_var] = Struct(
+                mode=mode,
+                eargs=None,
+                ebuilder=None,
+                paths=None,
+                path_infos=None,
+                eval_einsum=None,
+            )
 
         if einfo.eval_einsum is not None:
             if self.verbosity:
-- 
2.43.0


From f5d96f7554292e1250a0cd4c8cd0aee46936aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 22/59] fix: keep DOFs not appearing in nodal LCBC constraints
 free in NodalLCOperator

---
 sfepy/discrete/fem/lcbc_operators.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 6389522..0214c3f 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -687,22 +687,20 @@ class NodalLCOperator(MRLCBCOperator):
 
             imasters = []
             ifixed = []
-            islaves = set()
             ccs = []
-            for key, _poly in sol.items():
-                imaster = int(key.name[1:])
-                imasters.append(imaster)
+            for key in sol:
+                imasters.append(int(key.name[1:]))
 
-                if not isinstance(_poly, sm.Float):
-                    poly = _poly.as_poly()
+            # All the other DOFs are independent.
+            islaves = [ii for ii in range(dpn) if ii not in imasters]
+
+            for imaster, _poly in zip(imasters, sol.values()):
+                if not _poly.is_number:
+                    poly = _poly.as_poly(*us)
 
                     # Workaround for poly.all_coeffs() not applicable to
                     # multivariate polynomials.
-                    coefs = []
-                    for ii, uu in enumerate(us):
-                        if poly.has(uu):
-                            coefs.append(poly.coeff_monomial(uu))
-                            islaves.add(ii)
+                    coefs = [poly.coeff_monomial(us[ii]) for ii in islaves]
                     coefs.append(poly.TC())
                     ccs.append(coefs)
 
@@ -710,8 +708,6 @@ class NodalLCOperator(MRLCBCOperator):
                     ifixed.append(imaster)
                     ccs.append([float(_poly)])
 
-            islaves = sorted(islaves)
-
             for ii, imaster in enumerate(imasters):
                 coefs = ccs[ii]
 
@@ -721,12 +717,12 @@ class NodalLCOperator(MRLCBCOperator):
                 if imaster in ifixed: continue
 
                 # Master DOF is expressed in terms of slave DOFs.
-                for ii, islave in enumerate(islaves):
-                    es = ii + n_new
+                for ic, islave in enumerate(islaves):
+                    es = ic + n_new
 
                     rows.append(em)
                     cols.append(es)
-                    data.append(coefs[ii])
+                    data.append(coefs[ic])
 
             # Slave DOFs are copied.
             for ii, islave in enumerate(islaves):
-- 
2.43.0


From 47063d722c8aa70e566daa6c9f75b9ff3706ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 23/59] fix: update constrained equations and new DOF count of
 LCBCs combined with EPBCs

---
 sfepy/discrete/fem/lcbc_operators.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 0214c3f..1d3df69 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -84,19 +84,24 @@ class MRLCBCOperator(LCBCOperator):
         master = nm.intersect1d(dofs, master)
         if len(master) == 0: return
 
-        # Remove rows with master DOFs.
-        remove = nm.searchsorted(nm.sort(dofs), master)
-        keep = nm.setdiff1d(nm.arange(len(dofs)), remove)
+        # Remove rows with master DOFs that share equations with other
+        # constrained DOFs (their slaves).
+        is_master = nm.isin(dofs, master)
+        remove = is_master & nm.isin(self.ameq, self.ameq[~is_master])
+        keep = nm.nonzero(~remove)[0]
 
         mtx = self.mtx[keep]
 
         # Remove empty columns, update new DOF count.
-        mtx = mtx.tocsc()
+        mtx = sp.csc_array(mtx)
         indptr = nm.unique(mtx.indptr)
         self.mtx = sp.csc_array((mtx.data, mtx.indices, indptr),
                                 shape=(mtx.shape[0], indptr.shape[0] - 1))
+        self.ameq = self.ameq[keep]
         self.n_mdof = self.mtx.shape[0]
-        self.n_dof_new = self.mtx.shape[1]
+        self.n_new_dof = self.mtx.shape[1]
+        if self.get('rhs', None) is not None:
+            self.rhs = self.rhs[keep]
 
 def _create_spin_matrix(coors):
     n_nod, dim = coors.shape
-- 
2.43.0


From 81a657c492a459ea0f15b8e876f96cd272f557cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 24/59] fix: AverageForceOperator without rotation DOFs

---
 sfepy/discrete/fem/lcbc_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 1d3df69..e067608 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -319,7 +319,7 @@ class AverageForceOperator(LCBCOperator):
 
         else:
             # As above, but S = I(dim) -> simplified code.
-            mtx_ws = (nm.eye(dim) * sweights[..., None])
+            mtx_ws = (nm.eye(dim) * sweights[:, :dim, None])
             mtx_ix = mtx_ws.sum(axis=0)
             mtx_x = nm.linalg.inv(mtx_ix)
 
-- 
2.43.0


From 3f56f05001cc79b8a6a53a2a24c1ef8b26c27428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 25/59] fix: direction of the thread advance in
 RigidTwistOperator

---
 sfepy/discrete/fem/lcbc_operators.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index e067608..1a5185b 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -384,12 +384,12 @@ class RigidTwistOperator(MRLCBCOperator):
 
     Constraints:
 
-    - master DOFs: :math:`u_M = u_A + R^M o_A - 1/2 (R^M + h) a \phi`
-    - slave DOFs: :math:`u_S = u_A + R^S o_A + 1/2 (R^S + h) a \phi`
+    - master DOFs: :math:`u_M = u_A + R^M o_A - 1/2 (R^M a + h a) \phi`
+    - slave DOFs: :math:`u_S = u_A + R^S o_A + 1/2 (R^S a + h a) \phi`
 
     Then with the :math:`2 d + 1` new DOFs denoted by :math:`q = [u_A, o_A,
     \phi]`, the constraints can be expressed as :math:`u = [I, R, \pm W] q`,
-    where :math:`W = 1/2 (R + h) a`.
+    where :math:`W = 1/2 (R a + h a)`.
     """
     kind = 'rigid_twist'
 
@@ -428,8 +428,11 @@ class RigidTwistOperator(MRLCBCOperator):
         mtx_mr = _create_spin_matrix(mr).reshape((n_mnod * dim, -1))
         mtx_sr = _create_spin_matrix(sr).reshape((n_snod * dim, -1))
 
-        mtx_mw = -0.5 * (mtx_mr + thread) @ self.axis
-        mtx_sw = 0.5 * (mtx_sr + thread) @ self.axis
+        # The relative motion is a screw: rotation around and translation along
+        # the axis (perpendicular to the plane in 2D).
+        pitch = thread * self.axis if dim == 3 else nm.zeros(dim)
+        mtx_mw = -0.5 * (mtx_mr @ self.axis + nm.tile(pitch, n_mnod))
+        mtx_sw = 0.5 * (mtx_sr @ self.axis + nm.tile(pitch, n_snod))
 
         mtx = nm.vstack((
             nm.hstack((mtx_me, mtx_mr, mtx_mw[:, None])),
-- 
2.43.0


From d1b963c270c28b45f777f798bfd1f44a11a9f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 26/59] fix: evaluation by terms with several terms of the same
 name in an equation

---
 sfepy/discrete/equations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 7cdfb01..ce1f025 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -860,10 +860,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
@@ -956,10 +956,10 @@ class Equations(Container):
                 for it, term in enumerate(eq.terms):
                     if select_term:
                         _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                                        and (x is term))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
-- 
2.43.0


From 41f1a7b80aa0a821dda970243ea1dd3c3ae26891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 27/59] fix: infinite loop in matrix graph creation for small
 chunk sizes

---
 sfepy/discrete/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index ce1f025..6074d36 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -114,7 +114,7 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
         # N - k C >= 0.5 C, k = N // Cmax, compute C.
         n_cell = srdc.shape[0]
-        cs = int(n_cell / (n_cell // chunk_size + 0.5))
+        cs = max(int(n_cell / (n_cell // chunk_size + 0.5)), 1)
         for ichunk, (_rdc, _cdc) in enumerate(chunk_arrays((srdc, scdc), cs)):
             if ichunk == 0:
                 block = create_dof_graph(_rdc, _cdc, shape, active_only)
-- 
2.43.0


From 63846b5951c1d108dd1c5a15323f306ba6fb630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 28/59] fix: gradients of Bernstein simplex basis on element
 boundary

---
 sfepy/discrete/fem/poly_spaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index f3b7a52..cd1cf57 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -1159,6 +1159,8 @@ class BernsteinSimplexPolySpace(FEPolySpace):
                     dval = 0.0
                     for ib in range(dim + 1):
                         ex = node[ib]
+                        if ex == 0: continue
+
                         val = coef
                         for im in range(dim + 1):
                             if ib == im:
-- 
2.43.0


From 6d6741bf674b1a08edffcc2f9855f574bbb09678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 29/59] fix: node coordinates of wedge Lagrange elements of
 order 2 and higher

---
 sfepy/discrete/fem/poly_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index cd1cf57..b8baef4 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -715,7 +715,7 @@ class LagrangeWedgePolySpace(FEPolySpace):
         self.nts = nm.vstack([ps2.nts, ps1.nts])
         self.nts[ps2.n_nod:, 1] += ps2.n_nod
 
-        self.node_coors = nm.empty((n_nod, 3), nm.int32)
+        self.node_coors = nm.empty((n_nod, 3), nm.float64)
         self.node_coors[:, :2] = nm.tile(ps2.node_coors, (ps1.n_nod, 1))
         self.node_coors[:, 2] = nm.repeat(ps1.node_coors, ps2.n_nod,
                                           axis=0)[:, 0]
-- 
2.43.0


From 37b2736401db94f043ace517496b4f5d03346225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 30/59] fix: sticky error state after evaluating a Lagrange
 basis outside of the element

---
 sfepy/discrete/fem/extmods/bases.pyx  | 10 ++++++++--
 sfepy/discrete/fem/extmods/lagrange.c |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/extmods/bases.pyx b/sfepy/discrete/fem/extmods/bases.pyx
index 2b157e2..e6360fc 100644
--- a/sfepy/discrete/fem/extmods/bases.pyx
+++ b/sfepy/discrete/fem/extmods/bases.pyx
@@ -16,6 +16,7 @@ from sfepy.discrete.common.extmods.types cimport int32, float64, complex128
 cdef extern from 'common.h':
     void *pyalloc(size_t size)
     void pyfree(void *pp)
+    void _errclear 'errclear'()
 
 cdef extern from 'lagrange.h':
     ctypedef struct LagrangeContext:
@@ -215,7 +216,7 @@ cdef class CLagrangeContext:
         cdef int32 n_coor = coors.shape[0]
         cdef int32 n_nod = self.ctx.n_nod
         cdef int32 dim = coors.shape[1]
-        cdef int32 bdim
+        cdef int32 bdim, ret
         cdef FMField[1] _out, _coors
 
         ctx = self.ctx
@@ -235,6 +236,11 @@ cdef class CLagrangeContext:
         _f.array2fmfield3(_out, out)
         _f.array2fmfield2(_coors, coors)
 
-        self.ctx.eval_basis(_out, _coors, diff, ctx)
+        ret = self.ctx.eval_basis(_out, _coors, diff, ctx)
+        if ret:
+            # Clear the error state so that the next evaluations are not
+            # affected.
+            _errclear()
+            raise ValueError('basis evaluation failed! (see above)')
 
         return out
diff --git a/sfepy/discrete/fem/extmods/lagrange.c b/sfepy/discrete/fem/extmods/lagrange.c
index 0fa5949..b0765a4 100644
--- a/sfepy/discrete/fem/extmods/lagrange.c
+++ b/sfepy/discrete/fem/extmods/lagrange.c
@@ -362,7 +362,8 @@ int32 eval_basis_lagrange(FMField *out, FMField *coors, int32 diff,
       fmf_set_qp(coor, iqp, _coors);
       fmf_set_qp(bf1, iqp, out);
 
-      get_barycentric_coors(bc, coor, _ctx);
+      ret = get_barycentric_coors(bc, coor, _ctx);
+      ERR_CheckGo(ret);
       eval_lagrange_simplex(bf1, ctx->order, diff, _ctx);
 
       if (ctx->is_bubble) {
@@ -407,7 +408,8 @@ int32 eval_basis_lagrange(FMField *out, FMField *coors, int32 diff,
         FMF_SetCell(bc, ii);
         // slice [:,ii:ii+1].
         fmf_pretend_nc(_coor, 1, 1, 1, coor->nCol, coor->val + ii);
-        get_barycentric_coors(bc, _coor, ctx);
+        ret = get_barycentric_coors(bc, _coor, ctx);
+        ERR_CheckGo(ret);
       }
 
       eval_lagrange_tensor_product(bf1, ctx->order, diff, ctx);
-- 
2.43.0


From c913eb8dbf8168f9afa355493fddf5f6ebf4be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 31/59] fix: second derivatives of Lagrange simplex basis with
 bubble functions

---
 sfepy/discrete/fem/poly_spaces.py | 35 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index b8baef4..0424955 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -377,10 +377,17 @@ class LagrangeSimplexPolySpace(LagrangePolySpace):
 
         return nodes, nts, node_coors
 
-    def _eval_hessian(self, coors):
+    def _eval_hessian(self, coors, nodes=None, order=None):
         """
-        Evaluate the second derivatives of the basis.
+        Evaluate the second derivatives of the basis. Optionally, the nodes and
+        the corresponding order can be given.
         """
+        if nodes is None:
+            nodes = self.nodes
+
+        if order is None:
+            order = self.order
+
         def get_bc(coor):
             rhs = nm.concatenate((coor, [1]))
             bc = nm.dot(self.mtx_i, rhs)
@@ -393,7 +400,7 @@ class LagrangeSimplexPolySpace(LagrangePolySpace):
                 if i1 in omit: continue
 
                 for i2 in range(node[i1]):
-                    val *= (self.order * bc[i1] - i2) / (i2 + 1.0)
+                    val *= (order * bc[i1] - i2) / (i2 + 1.0)
 
             return val
 
@@ -405,9 +412,9 @@ class LagrangeSimplexPolySpace(LagrangePolySpace):
                 aux = nm.ones(1, nm.float64)
                 for i2 in range(node1):
                     if (i1 == i2) or (i2 in omit): continue
-                    aux *= (self.order * bc1 - i2) / (i2 + 1.0)
+                    aux *= (order * bc1 - i2) / (i2 + 1.0)
 
-                val += aux * self.order / (i1 + 1.0)
+                val += aux * order / (i1 + 1.0)
 
             return val
 
@@ -415,13 +422,13 @@ class LagrangeSimplexPolySpace(LagrangePolySpace):
         dim = n_v - 1
 
         mi = self.mtx_i[:, :dim]
-        bfgg = nm.zeros((coors.shape[0], dim, dim, self.n_nod),
+        bfgg = nm.zeros((coors.shape[0], dim, dim, nodes.shape[0]),
                         dtype=nm.float64)
 
         for ic, coor in enumerate(coors):
             bc = get_bc(coor)
 
-            for ii, node in enumerate(self.nodes):
+            for ii, node in enumerate(nodes):
                 for ig1, bc1 in enumerate(bc): # 1. derivative w.r.t. bc1.
                     for ig2, bc2 in enumerate(bc): # 2. derivative w.r.t. bc2.
                         if ig1 == ig2:
@@ -430,7 +437,7 @@ class LagrangeSimplexPolySpace(LagrangePolySpace):
                             vv = 0.0
                             for i1 in range(node[ig1]):
                                 aux = get_der(bc2, node[ig2], omit=[i1])
-                                vv += aux * self.order / (i1 + 1.0)
+                                vv += aux * order / (i1 + 1.0)
 
                             val *= vv
 
@@ -489,6 +496,18 @@ class LagrangeSimplexBPolySpace(LagrangeSimplexPolySpace):
 
         return ctx
 
+    def _eval_hessian(self, coors):
+        """
+        Evaluate the second derivatives of the basis.
+        """
+        evh = LagrangeSimplexPolySpace._eval_hessian
+
+        bubble = evh(self, coors, nodes=self.bnode, order=self.bnode.sum())
+        bfgg = evh(self, coors, nodes=self.nodes[:-1])
+        bfgg -= bubble / (self.n_nod - 1)
+
+        return nm.concatenate((bfgg, bubble), axis=-1)
+
 class LagrangeTensorProductPolySpace(LagrangePolySpace):
     """Lagrange polynomial space on a tensor product domain."""
     name = 'lagrange_tensor_product'
-- 
2.43.0


From 0be653682bc2167c15178504d8a13be0b5ba42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:31 +0000
Subject: [PATCH 32/59] fix: full order quadratures of tensor product elements
 above the tabulated orders

---
 sfepy/discrete/quadratures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index 14de4f2..e7ec96d 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -152,9 +152,9 @@ class QuadraturePoints(Struct):
             qp.order = order
 
         else:
+            order1d = order
+            dim = int(geometry[0])
             if not full_order:
-                order1d = order
-                dim = int(geometry[0])
                 order = dim * order1d
 
             if order <= max_orders[geometry]:
-- 
2.43.0


From f8edf46e112dccb8050a6d779cb4bc4cb6d462c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:00 +0000
Subject: [PATCH 33/59] fix: identify quadratures in caches by their points,
 not only by the order

---
 sfepy/discrete/common/fields.py        |  2 +-
 sfepy/discrete/fem/fields_base.py      | 12 ++++++------
 sfepy/discrete/integrals.py            | 15 +++++++++++++++
 sfepy/postprocess/plot_quadrature.py   |  2 +-
 sfepy/terms/terms.py                   |  6 +++---
 sfepy/terms/terms_contact.py           |  2 +-
 sfepy/terms/terms_hyperelastic_base.py |  2 +-
 7 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index f5d3262..4b7f0a8 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -230,7 +230,7 @@ class Field(Struct):
         key : tuple
             The key of the mapping in `mappings` or `mappings0`.
         """
-        key = (region.name, integral.order, integration)
+        key = (region.name, integral.key, integration)
 
         if get_saved:
             out = self.mappings0.get(key, None)
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..6253139 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -634,7 +634,7 @@ class FEField(Field):
         :func:`FEField.create_bqp()`, usually through
         :func:`FEField.create_mapping()`.
         """
-        qpkey = (integral.order, key)
+        qpkey = (integral.key, key)
 
         if qpkey not in self.qp_coors:
             if key[0] == 'b':
@@ -745,7 +745,7 @@ class FEField(Field):
             ps = self.poly_space
 
         _key = key if not from_geometry else 'g' + key
-        bf_key = (integral.order, _key, derivative)
+        bf_key = (integral.key, _key, derivative)
 
         if bf_key not in self.bf:
             ori = self.ori
@@ -766,7 +766,7 @@ class FEField(Field):
         gel = self.gel
 
         sd = self.extra_data[f'sd_{region_name}']
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(sd.face_type, integral)
 
@@ -783,7 +783,7 @@ class FEField(Field):
         gel = self.gel
         sd_bkey, face_type = f'b{bkey}', f's{bkey}'
 
-        bqpkey = (integral.order, sd_bkey)
+        bqpkey = (integral.key, sd_bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(face_type, integral)
 
@@ -1314,7 +1314,7 @@ class FEField(Field):
                     fc_map = efc_map[sd.fis[:, 1]] * (-1)
                     for ikey, bkey in enumerate(bkeys):
                         idx = efc_map == bkey
-                        qp0 = self.qp_coors[(integral.order, f'b{bkey}')]
+                        qp0 = self.qp_coors[(integral.key, f'b{bkey}')]
                         nqp0 = qp0.vals.shape[1]
                         qp.vals[idx, :nqp0, :] = qp0.vals[idx]
                         qp.weights[idx, :nqp0] = qp0.weights
@@ -1349,7 +1349,7 @@ class FEField(Field):
                                               fc_bf_map=(fc_map, fcaxes))
                 else:
                     self.create_bqp(region.name, integral)
-                    qp = self.qp_coors[(integral.order, esd.bkey)]
+                    qp = self.qp_coors[(integral.key, esd.bkey)]
 
                     abf = ps.eval_basis(qp.vals[0], transform=transform)
                     bf = abf[..., self.efaces[0]]
diff --git a/sfepy/discrete/integrals.py b/sfepy/discrete/integrals.py
index d2b5ff5..fd8e78f 100644
--- a/sfepy/discrete/integrals.py
+++ b/sfepy/discrete/integrals.py
@@ -104,6 +104,21 @@ class Integral(Struct):
         else:
             self.order = int(order)
 
+    @property
+    def key(self):
+        """
+        The key identifying uniquely the quadrature points and weights. It is
+        the integration order for the default built-in quadratures.
+        """
+        if self.mode == 'builtin':
+            return (self.order, True) if self.full_order else self.order
+
+        coors = nm.ascontiguousarray(self.coors)
+        weights = nm.ascontiguousarray(self.weights)
+        return (self.order, coors.shape, coors.tobytes(), weights.tobytes(),
+                repr(self.bounds), repr(self.tp_fix), repr(self.weight_fix),
+                self.symmetric)
+
     def get_qp(self, geometry):
         """
         Get quadrature point coordinates and corresponding weights for given
diff --git a/sfepy/postprocess/plot_quadrature.py b/sfepy/postprocess/plot_quadrature.py
index ba3a5e4..166f9c3 100644
--- a/sfepy/postprocess/plot_quadrature.py
+++ b/sfepy/postprocess/plot_quadrature.py
@@ -44,7 +44,7 @@ def _get_bqp(geometry, order):
     field.create_bqp('Surf', integral)
 
     sd = field.extra_data['sd_Surf']
-    qp = field.qp_coors[(integral.order, sd.bkey)]
+    qp = field.qp_coors[(integral.key, sd.bkey)]
 
     output('geometry:', geometry, 'order:', order, 'num. points:',
            qp.vals.shape[1], 'true_order:',
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index f608130..733c6f6 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -873,7 +873,7 @@ class Term(Struct):
             arg_types = ats
         args = []
 
-        region_name, iorder = self.region.name, self.integral.order
+        region_name, ikey = self.region.name, self.integral.key
         for at in arg_types:
             ii = ats.index(at)
             arg_name = self.arg_names[ii]
@@ -887,7 +887,7 @@ class Term(Struct):
             else:
                 mat, par_name = self.args[ii]
                 if mat is not None:
-                    mat_data = mat.get_data((region_name, iorder), par_name)
+                    mat_data = mat.get_data((region_name, ikey), par_name)
 
                 else:
                     mat_data = None
@@ -1070,7 +1070,7 @@ class Term(Struct):
         """
         Return a key identifying uniquely the term quadrature points.
         """
-        return (self.region.name, self.integral.order)
+        return (self.region.name, self.integral.key)
 
     def get_physical_qps(self):
         """
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 56d7256..dd10895 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -28,7 +28,7 @@ class ContactInfo(Struct):
         gname = state.field.gel.name
         ib = 3 if gname == '3_8' else 0
 
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         state.field.create_bqp(region.name, integral)
         bqp = state.field.qp_coors[bqpkey]
 
diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..0705b98 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -53,7 +53,7 @@ class HyperElasticFamilyData(Struct):
         step_cache = state.evaluate_cache.setdefault(self.cache_name, {})
         cache = step_cache.setdefault(step, {})
 
-        key = (region.name, integral.order, geometry_type)
+        key = (region.name, integral.key, geometry_type)
         data_key = key + (derivative,)
 
         if data_key in cache:
-- 
2.43.0


From 04cf744194469f13de88a1c269eb3c4f2673956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 34/59] fix: transformation of inclined and downward facing
 surface elements in 3D

---
 sfepy/discrete/fem/mappings.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index d970967..f8ef05b 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -29,7 +29,11 @@ def transform_coors_to_lower_dim(coors, to_dim):
         sphi = ab / b
 
         mtxR = nm.eye(3, 3) * cphi[:, None, None]
-        idxs = nm.where(nm.abs(ab) > 1e-16)[0]
+        is_inclined = ab > 1e-16 * b
+        # Rotate downward facing elements around the X axis.
+        mtxR[~is_inclined & (cphi < 0.0)] = nm.diag([1.0, -1.0, -1.0])
+
+        idxs = nm.where(is_inclined)[0]
 
         if len(idxs) > 0:
             u1 = bv[idxs, 1] / ab[idxs]
@@ -40,7 +44,7 @@ def transform_coors_to_lower_dim(coors, to_dim):
             R0 = nm.array([
                 [u1**2 * cphi1, u1 * u2 * cphi1, u2 * sphi],
                 [u1 * u2 * cphi1, u2**2 * cphi1, -u1 * sphi],
-                [-u2 * sphi, u1 * sphi, 0]
+                [-u2 * sphi, u1 * sphi, nm.zeros_like(sphi)]
             ]).transpose(2, 0, 1)
             mtxR[idxs, ...] += R0
 
-- 
2.43.0


From 0b5262613182b16f1f889f547f0b6a2cf6618c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 35/59] fix: facet normals of small facets are normalized

---
 sfepy/discrete/fem/mappings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index f8ef05b..0cc0ad5 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -73,7 +73,7 @@ def transform_coors_to_lower_dim(coors, to_dim):
 
 
 def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
-                            ebf_g=None, is_face=False, eps=1e-15,
+                            ebf_g=None, is_face=False, eps=0.0,
                             se_conn=None, se_bf_bg=None, ecoors=None):
     """
     Evaluate mapping data.
@@ -139,7 +139,7 @@ def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
             c1, c2 = mtxRM[..., 0], mtxRM[..., 1]
             det0 = nm.sqrt(c1**2 + c2**2).reshape(n_el, n_qp, 1, 1)
             det = det0 * weights[..., None, None]
-            det0[nm.abs(det0) < eps] = 1.0
+            det0[nm.abs(det0) <= eps] = 1.0
             normal[..., 0, :] = c2
             normal[..., 1, :] = -c1
             normal /= det0
@@ -151,7 +151,7 @@ def eval_mapping_data_in_qp(coors, conn, bf_g, weights,
             c3 = (j012[0] * j345[1] - j345[0] * j012[1]).T
             det0 = nm.sqrt(c1**2 + c2**2 + c3**2).reshape(n_el, n_qp, 1, 1)
             det = det0 * weights[..., None, None]
-            det0[nm.abs(det0) < eps] = 1.0
+            det0[nm.abs(det0) <= eps] = 1.0
             normal[..., 0, 0] = c1
             normal[..., 1, 0] = -c2
             normal[..., 2, 0] = c3
-- 
2.43.0


From 7486ad7c1621b0c204620e001db5b55641cd53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 36/59] fix: facet Jacobians and normals of hexahedra and
 wedges in the same points as the basis

---
 sfepy/discrete/fem/fields_base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 6253139..bc183aa 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1340,10 +1340,16 @@ class FEField(Field):
                         bkey = efc_map[ifc]
                         bf[ifc, ..., :bkey] = abf[ifc, ...][..., efc[:bkey]]
 
+                    # The facet vertices for gradients are reversed -> swap the
+                    # in-plane coordinates to stay in the same points.
+                    gqp = qp.vals[ffcidxs]
+                    for ikey, fcax in fcaxes.items():
+                        gqp[ikey][:, fcax] = gqp[ikey][:, fcax[::-1]]
+
                     mapping.set_basis_indices(indxs)
                     weights = nm.ascontiguousarray(qp.weights[ffcidxs][fc_map])
                     bf = nm.ascontiguousarray(bf[ffcidxs][fc_map])
-                    out = mapping.get_mapping(qp.vals[ffcidxs], weights, bf,
+                    out = mapping.get_mapping(gqp, weights, bf,
                                               extra=(None, None, None),
                                               is_face=True,
                                               fc_bf_map=(fc_map, fcaxes))
@@ -1369,7 +1375,13 @@ class FEField(Field):
                     else:
                         se_bf_bg, se_ebf_bg, se_conn = None, None, None
 
-                    out = mapping.get_mapping(qp.vals[0], qp.weights, bf,
+                    gqp = qp.vals[0]
+                    if self.gel.dim == 3:
+                        # Swap the in-plane coordinates to stay in the same
+                        # points as bf with the reversed facet vertices.
+                        gqp = nm.ascontiguousarray(gqp[:, [1, 0, 2]])
+
+                    out = mapping.get_mapping(gqp, qp.weights, bf,
                         extra=(se_conn, se_bf_bg, se_ebf_bg), is_face=True)
 
             else:
-- 
2.43.0


From d40bd73847ce2415847cb9bd751d72747d823542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 37/59] fix: PID time step controller shrinking time step of
 systems at rest

---
 sfepy/solvers/ts_controllers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 0cefc61..3a693e1 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -219,8 +219,10 @@ class ElastodynamicsPIDTSC(ElastodynamicsBasicTSC):
             dt, vec0, vec1, conf.eps_a, conf.eps_r, unpack,
         )
         emax = max(u_err, v_err)
+        # Avoid division by zero errors (0 * inf) for systems at rest.
+        emax_pos = max(emax, nm.finfo(nm.float64).eps)
 
-        c1 = 1 if b1 == 0 else emax**b1
+        c1 = 1 if b1 == 0 else emax_pos**b1
         c2 = 1 if b2 == 0 else self.emax0**b2
         c3 = 1 if b3 == 0 else self.emax00**b3
         new_dt = dt * min(fmax, max(fmin, fsafety * c1 * c2 * c3))
@@ -229,7 +231,7 @@ class ElastodynamicsPIDTSC(ElastodynamicsBasicTSC):
         status.result = 'accept' if emax <= 1 else 'reject'
 
         self.emax00 = self.emax0
-        self.emax0 = emax
+        self.emax0 = emax_pos
 
         return new_dt, status
 
-- 
2.43.0


From feb7df88618ec92ef2e538f8a8a4b7e9f16284dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 38/59] fix: Bathe method loads and boundary conditions shifted
 by half time step

---
 sfepy/solvers/ts_solvers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..35e8f9e 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -1311,12 +1311,18 @@ class BatheTS(ElastodynamicsBaseTS):
         """
         dt = ts.dt
         ut, vt, at = unpack(vec)
+
+        # The current time is t_{n+1}, set time to t_{n+1} - dt/2.
+        ts.set_substep_time(-0.5 * dt)
+        prestep_fun(ts, vec)
+
         nlst1 = self.create_nlst1(nls, dt, ut, vt, at)
         ut1 = nlst1(ut)
         vt1 = nlst1.v(ut1)
         at1 = nlst1.a(vt1)
 
-        ts.set_substep_time(0.5 * dt)
+        # Restore t_{n+1}.
+        ts.restore_step_time()
 
         vec1 = pack(ut1, vt1, at1)
         vec1 = prestep_fun(ts, vec1)
@@ -1326,8 +1332,6 @@ class BatheTS(ElastodynamicsBaseTS):
         vt2 = nlst2.v(ut2)
         at2 = nlst2.a(vt2)
 
-        ts.restore_step_time()
-
         vec2 = pack(ut2, vt2, at2)
 
         return vec2
-- 
2.43.0


From 4e9e561839a714b53f34c5bf81b41bbe91496a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 39/59] fix: elastodynamics solvers using matrices of other
 than initial time step

---
 sfepy/solvers/ts_solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 35e8f9e..34d8e1f 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -710,6 +710,10 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
         ts = self.ts
         dt0 = self.tsc.get_initial_dt(ts, vec, unpack=unpack)
         if not isinstance(self.tsc, FixedTSC):
+            if dt0 != ts.dt:
+                self.clear_lin_solver(
+                    clear_constant_matrices=self.conf.has_time_derivatives,
+                )
             ts.set_time_step(dt0, update_time=True)
         while 1:
             output(self.format % (ts.time, ts.step + 1, ts.n_step),
-- 
2.43.0


From f8a7da63c3016748be34234de97533e15e71cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 40/59] fix: elastodynamics solvers returned state of last but
 one step

---
 sfepy/solvers/ts_solvers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 34d8e1f..a455ec0 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -749,7 +749,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
                 ts.set_time_step(new_dt, update_time=True)
 
             # Current step state q(t_{n+1}).
-            vect = poststep_fun(ts, vect)
+            vec = poststep_fun(ts, vect)
 
             if ts.nt >= 1:
                 break
@@ -758,8 +758,6 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
                 ts.set_time_step(new_dt, update_time=False)
             ts.advance()
 
-            vec = vect
-
         return vec
 
 class VelocityVerletTS(ElastodynamicsBaseTS):
-- 
2.43.0


From 13b7811e3d794402de5d4b0783177254e94fbca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:08 +0000
Subject: [PATCH 41/59] fix: Newton solver with give_up_warp raised
 UnboundLocalError

---
 sfepy/solvers/nls.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..b24570b 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -198,6 +198,8 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                # Return the last state with a correct residual.
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -366,6 +368,8 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                # Return the last state with a correct residual.
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -642,14 +646,14 @@ class Newton(NonlinearSolver):
             if (self.log is not None) and ('iteration' in conf.log_vlines):
                 self.log.plot_vlines([1], color='g', linewidth=0.5)
 
-            condition = conv_test(conf, it, err, err0)
-            if condition >= 0:
-                break
-
             if (not ok) and conf.give_up_warp:
                 condition = 2
                 break
 
+            condition = conv_test(conf, it, err, err0)
+            if condition >= 0:
+                break
+
             timers.matrix.start()
             if not conf.is_linear:
                 if (is_new_jacobian(it, it_jac, vec_r, vec_r_last, vec_x,
-- 
2.43.0


From 2872bab50fdd5161aad510ddb73676bd1e45505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:08 +0000
Subject: [PATCH 42/59] fix: Jacobian of non-smooth mode of semi-smooth Newton
 solver

---
 sfepy/solvers/semismooth_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..93ed6d5 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -308,7 +308,7 @@ class SemismoothNewton(Newton):
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
         else:
-            iz = nm.where(vec_a_r > vec_b_r)[0]
+            iz = nm.where(vec_a_r < vec_b_r)[0]
             mul_a = nm.zeros_like(vec_a_r)
             mul_b = nm.ones_like(mul_a)
 
-- 
2.43.0


From 4fa9b8eb108ed1503732874245c2bb1525bbd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:03 +0000
Subject: [PATCH 43/59] fix: equations of elastodynamics transformed with lost
 terms and coefficients

Terms without state variables (loads) were dropped, terms with several state
variables were duplicated, coefficients of the mass and damping terms were
lost, and test variables given as the first argument were not replaced.
---
 sfepy/solvers/ts_solvers.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index a455ec0..b2e0118 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -402,22 +402,21 @@ def transform_equations_ed(equations, materials):
     variables = equations.variables
     for eq in equations:
         for term in eq.terms:
+            order = 0
             for name in term.names.state:
                 der = term.arg_derivatives[name]
-                if ((der is not None) and
-                    isinstance(der, int) and
-                    (der > 0)):
+                if isinstance(der, int) and (der > 0):
                     new_var_primary.add(name)
-                    if der == 2:
-                        eq_mass.append(term)
+                    order = max(order, der)
 
-                    else:
-                        eq_damping.append(term)
+            if order == 2:
+                eq_mass.append(term)
 
-                else:
-                    eq_other.append(term)
+            elif order == 1:
+                eq_damping.append(term)
 
-                continue
+            else: # Including terms without a state variable.
+                eq_other.append(term)
 
     assert len(new_var_primary) == 1
     uname = new_var_primary.pop()
@@ -440,9 +439,10 @@ def transform_equations_ed(equations, materials):
                       primary_var_name=dduname),
     ])
     for it, term in enumerate(eq_mass.copy()):
-        aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
-        arg_str = aux.replace(f',{vname},', f',{ddvname},')
+        args = [ii.strip() for ii in term.arg_str.split(',')]
+        arg_str = ','.join([ddvname if ii == vname else ii for ii in args])
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
@@ -450,9 +450,10 @@ def transform_equations_ed(equations, materials):
         eq_mass[it] = new_term
 
     for it, term in enumerate(eq_damping.copy()):
-        aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
-        arg_str = aux.replace(f',{vname},', f',{dvname},')
+        args = [ii.strip() for ii in term.arg_str.split(',')]
+        arg_str = ','.join([dvname if ii == vname else ii for ii in args])
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
-- 
2.43.0


From 65411b7d0d01867316547972bf969d936bfad8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:11 +0000
Subject: [PATCH 44/59] fix: sign of correction of plane stress dielectric
 tensor

---
 sfepy/mechanics/matcoefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mechanics/matcoefs.py b/sfepy/mechanics/matcoefs.py
index 115b40d..f16095e 100644
--- a/sfepy/mechanics/matcoefs.py
+++ b/sfepy/mechanics/matcoefs.py
@@ -447,7 +447,7 @@ class TransformToPlane(Struct):
             c2 = c3[tuple(mg(self.i_ms, self.i_ms))] \
                  - nm.dot(Feps.T, nm.dot(Ainv, Feps))
             d2 = d3[tuple(mg(self.i_m, self.i_m))] \
-                 - nm.dot(FE.T, nm.dot(Ainv, FE))
+                 + nm.dot(FE.T, nm.dot(Ainv, FE))
             b2 = b3[tuple(mg(self.i_m, self.i_ms))].T \
                  - nm.dot(FE.T, nm.dot(Ainv, Feps))
 
-- 
2.43.0


From 39b71f15b74887d97f45e904fac1c6e8a8894255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:42 +0000
Subject: [PATCH 45/59] fix: Poisson ratio from zero first Lame parameter and
 Young modulus was not a number

---
 sfepy/mechanics/elastic_constants.py | 2 +-
 sfepy/mechanics/matcoefs.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/mechanics/elastic_constants.py b/sfepy/mechanics/elastic_constants.py
index 253c57b..77fb053 100644
--- a/sfepy/mechanics/elastic_constants.py
+++ b/sfepy/mechanics/elastic_constants.py
@@ -26,7 +26,7 @@ relations = {
     ('bulk', 'poisson', 'young') : 3*bulk - 6*bulk*poisson,
     ('lam', 'mu', 'young') : (3*lam*mu + 2*mu**2)/(lam + mu),
     ('lam', 'p_wave', 'young') : (lam*p_wave + p_wave**2 - 2*lam**2)/(lam + p_wave),
-    ('lam', 'young', 'poisson') : (-lam - young + (2*lam*young + young**2 + 9*lam**2)**(1/2))/(4*lam),
+    ('lam', 'young', 'poisson') : 2*lam/(lam + young + (2*lam*young + young**2 + 9*lam**2)**(1/2)),
     ('bulk', 'mu', 'young') : 9*bulk*mu/(mu + 3*bulk),
     ('mu', 'young', 'p_wave') : (-mu*young + 4*mu**2)/(-young + 3*mu),
     ('bulk', 'poisson', 'mu') : (3*bulk - 6*bulk*poisson)/(2 + 2*poisson),
diff --git a/sfepy/mechanics/matcoefs.py b/sfepy/mechanics/matcoefs.py
index f16095e..9fb1df4 100644
--- a/sfepy/mechanics/matcoefs.py
+++ b/sfepy/mechanics/matcoefs.py
@@ -291,8 +291,8 @@ class ElasticConstants(Struct):
                                      / ((1 + poisson) * (1 - 2 * poisson)))))
         # Choose the correct root.
         ## relations[('lam', 'young', 'poisson')] \
-        ##                   = (lam + young - (2*lam*young + young**2 +
-        ##                                     9*(lam**2))**(0.5))/(-4*lam)
+        ##                   = 2*lam / (lam + young + (2*lam*young + young**2 +
+        ##                                             9*(lam**2))**(0.5))
         _expand_keys(sm.solve(mu - (young / (2 * (1 + poisson)))))
 
         _expand_keys(sm.solve(bulk - (young * mu / (3 * (3 * mu - young)))))
-- 
2.43.0


From a7f49794b411a9326391df59d9824a722fbef2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 46/59] fix: selection of points outside of tube and ball
 shell, in-place normalization in get_perpendiculars()

---
 sfepy/linalg/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/linalg/geometry.py b/sfepy/linalg/geometry.py
index 55c4e63..7fb8397 100644
--- a/sfepy/linalg/geometry.py
+++ b/sfepy/linalg/geometry.py
@@ -257,7 +257,7 @@ def get_perpendiculars(vec):
     mutually perpendicular unit vectors perpendicular to it in 3D.
     """
     nvec = nm.linalg.norm(vec)
-    vec /= nvec
+    vec = vec / nvec
 
     if vec.shape[0] == 2:
         out = nm.array([vec[1], -vec[0]], dtype=nm.float64)
@@ -431,7 +431,7 @@ def get_coors_in_tube(coors, centre, axis, radius_in, radius_out, length,
 
     else:
         out = nm.where((dl >= -l2) & (dl <= l2) &
-                       (dr <= radius_in) & (dr >= radius_out))[0]
+                       ((dr <= radius_in) | (dr >= radius_out)))[0]
 
     return out
 
@@ -468,6 +468,6 @@ def get_coors_in_ball(coors, centre, radius, radius2=None, inside=True):
             out = nm.where((nvec <= radius) & (nvec >= radius2))[0]
 
         else:
-            out = nm.where((nvec >= radius) & (nvec <= radius2))[0]
+            out = nm.where((nvec >= radius) | (nvec <= radius2))[0]
 
     return out
-- 
2.43.0


From 720d77bba81a64b3db2c6c952040d9f55e7b51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 47/59] fix: dot_sequences() of vectors in BT modes raised
 ValueError

---
 sfepy/linalg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/linalg/utils.py b/sfepy/linalg/utils.py
index 7d3d18f..5ab8d1a 100644
--- a/sfepy/linalg/utils.py
+++ b/sfepy/linalg/utils.py
@@ -458,7 +458,7 @@ def dot_sequences(mtx, vec, mode='AB'):
         squeeze = True
         vec = vec[..., None]
 
-    if 'BT' in mode:
+    if ('BT' in mode) and not squeeze:
         ax = list(range(vec.ndim))
         vec = vec.transpose((ax[:-2]) + [ax[-1], ax[-2]])
 
-- 
2.43.0


From bfe4904fef8a41eddda0d4f6b2c123ba89e22f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 48/59] fix: contact sphere normals with a point in the centre

---
 sfepy/mechanics/contact_bodies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/mechanics/contact_bodies.py b/sfepy/mechanics/contact_bodies.py
index ff62a73..19bedc1 100644
--- a/sfepy/mechanics/contact_bodies.py
+++ b/sfepy/mechanics/contact_bodies.py
@@ -83,8 +83,8 @@ class ContactSphere(Struct):
         dist = la.norm_l2_along_axis(vecs)
         # Prevent zero division.
         ii = dist > 1e-8
-        normals = nm.where(ii[:, None], vecs[ii] / dist[ii][:, None],
-                           vecs[ii])
+        normals = vecs.copy()
+        normals[ii] = vecs[ii] / dist[ii][:, None]
         return self.radius - dist, normals
 
     def _get_derivatives(self, points):
-- 
2.43.0


From c8d6246d457d26123958a006057e1f24aa148408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 49/59] fix: text output of CSC matrices raised NameError

---
 sfepy/linalg/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/linalg/sparse.py b/sfepy/linalg/sparse.py
index 5da7fa6..154155c 100644
--- a/sfepy/linalg/sparse.py
+++ b/sfepy/linalg/sparse.py
@@ -20,7 +20,7 @@ def save_sparse_txt(filename, mtx, fmt='%d %d %f\n'):
     elif mtx.format == 'csc':
         indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
         for ic in range(mtx.shape[0]):
-            for ii in range(indptr[ir], indptr[ir+1]):
+            for ii in range(indptr[ic], indptr[ic+1]):
                 fd.write(fmt % (indices[ii], ic, data[ii]))
 
     else:
-- 
2.43.0


From e2bb2d973256e337b3dd6f3525acdaec0589706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:39 +0000
Subject: [PATCH 50/59] fix: region kinds with entities set up from higher
 dimensions

The cells-defined regions could not have a lower dimensional kind when
their vertices were not accessed before (e.g. copy r.Omega with the kind
facet - RecursionError), and the vertices-defined regions could not have
the *_only kinds (no entities).
---
 sfepy/discrete/common/region.py | 34 ++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index bd8f097..d02eec5 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -281,11 +281,43 @@ class Region(Struct):
             self.can_edges = can[1]
             self.can_faces = can[2]
 
+        self.set_kind_tdim()
+        self._keep_kind_entities()
+
         for ii, ican in enumerate(self.can):
             if not ican:
                 self.entities[ii] = nm.empty(0, dtype=nm.uint32)
 
-        self.set_kind_tdim()
+    def _keep_kind_entities(self):
+        """
+        Helper to initialize the entities corresponding to the region kind,
+        before the entities not allowed by that kind are removed, if it cannot
+        be done later.
+        """
+        dims = [idim for idim in range(self.tdim, -1, -1)
+                if self.entities[idim] is not None]
+        if (self.kind_tdim in dims) or not len(dims): return
+
+        used = [idim for idim in dims if self.entities[idim].shape[0] > 0]
+        if 0 not in dims and (not len(used) or (used[0] > self.kind_tdim)):
+            # Only entities of higher dimensions are available.
+            if len(used):
+                self.setup_from_highest(self.kind_tdim)
+
+            else:
+                self.entities[self.kind_tdim] = nm.empty(0, dtype=nm.uint32)
+
+        elif not self.can[0]:
+            # The vertices are going to be removed.
+            vertices = self.entities[0]
+            if vertices is None:
+                incident = self.cmesh.get_incident(0, self.entities[used[0]],
+                                                   used[0])
+                vertices = nm.unique(incident)
+
+            self.cmesh.setup_connectivity(self.kind_tdim, 0)
+            self.entities[self.kind_tdim] = self.cmesh.get_complete(
+                self.kind_tdim, vertices, 0)
 
     def set_kind_tdim(self):
         if 'vertex' in self.true_kind:
-- 
2.43.0


From 8e951de4d6f29626ac6e17b8ed2eb2674cbb7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:39 +0000
Subject: [PATCH 51/59] fix: cell indices in regions without true cells

Region.get_cell_indices() searched in the unsorted list of cells incident
to facets.
---
 sfepy/discrete/common/region.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index d02eec5..9f0fa0c 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -667,7 +667,9 @@ class Region(Struct):
         if not iin.all():
             raise ValueError(f'some cells are not in region {self.name} cells!')
 
-        iis = nm.searchsorted(fcells, cells)
+        # The cells incident to facets need not to be sorted.
+        isort = nm.argsort(fcells, kind='stable')
+        iis = isort[nm.searchsorted(fcells, cells, sorter=isort)]
         assert_((fcells[iis[iin]] == cells[iin]).all())
 
         ii = nm.where(iin, iis, -1)
-- 
2.43.0


From e53ffe92c3200ce9d59fbab90f26fdd0115ce3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:16 +0000
Subject: [PATCH 52/59] fix: SemismoothNewton takes the steepest descent from
 the residual in the restored state, reports the number of iterations

---
 sfepy/solvers/semismooth_newton.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 93ed6d5..18dc484 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -129,8 +129,6 @@ class SemismoothNewton(Newton):
                         vec_semismooth_r = nm.where(vec_a_r < vec_b_r,
                                                     vec_a_r, vec_b_r)
 
-                    r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_semismooth_r)
-
                     ok = True
 
                 time_stats['residual'] = timer.stop()
@@ -173,8 +171,7 @@ class SemismoothNewton(Newton):
                     if step_mode == 'regular':
                         output('restore previous state')
                         vec_x = vec_x_last.copy()
-                        (vec_smooth_r, vec_a_r, vec_b_r,
-                         vec_semismooth_r) = r_last
+                        vec_smooth_r, vec_a_r, vec_b_r, vec_r = r_last
                         err = err_last
                         reuse_matrix = True
 
@@ -203,6 +200,7 @@ class SemismoothNewton(Newton):
 
             err_last = err;
             vec_x_last = vec_x.copy()
+            r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_r)
 
             condition = conv_test(conf, it, err, err0)
             if condition >= 0:
@@ -250,6 +248,7 @@ class SemismoothNewton(Newton):
             status['time_stats'] = time_stats
             status['err0'] = err0
             status['err'] = err
+            status['n_iter'] = it
             status['condition'] = condition
 
         if conf.log.plot is not None:
-- 
2.43.0


From 3e4acbd6f94f8aa68867467dfc9c869d46fcaf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:34 +0000
Subject: [PATCH 53/59] fix: refine_1_2 of meshes with unsorted cells

---
 sfepy/discrete/fem/refine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/refine.py b/sfepy/discrete/fem/refine.py
index 1053ec7..29ca9fa 100644
--- a/sfepy/discrete/fem/refine.py
+++ b/sfepy/discrete/fem/refine.py
@@ -16,15 +16,17 @@ def refine_1_2(mesh_in):
 
     cmesh = mesh_in.cmesh
     c_centres = cmesh.get_centroids(cmesh.tdim)
+    # The cells need not be sorted.
+    ii = nm.argsort(c_centres[:, 0])
     new_coors = nm.zeros((2*mesh_in.n_nod - 1, 1))
     new_coors[0::2] = mesh_in.coors
-    new_coors[1::2] = c_centres
+    new_coors[1::2] = c_centres[ii]
 
     n_nod = len(new_coors)
 
     new_conn = nm.arange(n_nod, dtype=nm.uint32).repeat(2)[1:-1].reshape((-1, 2))
 
-    new_mat_id = cmesh.cell_groups.repeat(2)
+    new_mat_id = cmesh.cell_groups[ii].repeat(2)
 
     mesh = Mesh.from_data(mesh_in.name + '_r', new_coors, None, [new_conn],
                           [new_mat_id], mesh_in.descs)
-- 
2.43.0


From 311f7d41ab8c45a5e1db480f4558327e9a97fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:34 +0000
Subject: [PATCH 54/59] fix: refine() with hanging nodes keeps edge-only
 substitutions

---
 sfepy/discrete/fem/fields_nodal.py   |  6 ++++--
 sfepy/discrete/fem/refine_hanging.py | 18 +++++-------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index ef2ed5a..58b7358 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -194,12 +194,13 @@ class H1NodalMixin(H1Mixin, GlobalNodalLikeBasis):
 
                 return key
 
+            gedges = self.gel.edges
+
             if subs[0] is not None:
                 ef = self.efaces
                 epf = self.gel.get_edges_per_face()
                 nde = self.node_desc.edge
                 ndf = self.node_desc.face
-                gedges = self.gel.edges
                 gfaces = self.gel.faces
 
                 for ii, sub in enumerate(subs[0]):
@@ -327,7 +328,8 @@ class H1NodalMixin(H1Mixin, GlobalNodalLikeBasis):
             fsubs = subs[0]
             esubs = subs[1]
 
-            assign_transform(transform, bf, fsubs, rffield.efaces)
+            if fsubs is not None:
+                assign_transform(transform, bf, fsubs, rffield.efaces)
             if esubs is not None:
                 assign_transform(transform, bf, esubs, rffield.eedges)
 
diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index 3106b19..de5b684 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -313,20 +313,12 @@ def refine(domain0, refine, subs=None, ret_sub_cells=False):
         subs1e = find_facet_substitutions(facets[oe:], cells[oe:],
                                           sub_cells, refine_edges_3_8)
 
-        if subs is None:
-            subs = (subs1f if len(subs1f) else None,
-                    subs1e if len(subs1f) else None) # !!!
-
-        elif len(subs1f):
-            subsf, subse = subs
-
-            subsf = nm.r_[subsf, subs1f]
-
-            if len(subse):
-                if len(subs1e):
-                    subse = nm.r_[subse, subs1e]
+        def _append(subs0, subs1):
+            if not len(subs1): return subs0
+            return subs1 if subs0 is None else nm.r_[subs0, subs1]
 
-            subs = (subsf, subse)
+        subsf, subse = subs if subs is not None else (None, None)
+        subs = (_append(subsf, subs1f), _append(subse, subs1e))
 
         if (isinstance(subs, tuple)
             and (subs[0] is None) and (subs[1] is None)): subs = None
-- 
2.43.0


From 64b8aa67919f6c280995d243d4246c3fa5c3f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:34 +0000
Subject: [PATCH 55/59] fix: hanging nodes of spectral element fields use their
 own basis

---
 sfepy/discrete/fem/fields_nodal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index 58b7358..5cbe0ec 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -286,11 +286,13 @@ class H1NodalMixin(H1Mixin, GlobalNodalLikeBasis):
                               [gel.name])
         cdomain = FEDomain('d', mesh)
         comega = cdomain.create_region('Omega', 'all')
-        rcfield = Field.from_args('rc', self.dtype, 1, comega, approx_order=ao)
+        rcfield = Field.from_args('rc', self.dtype, 1, comega, approx_order=ao,
+                                  poly_space_basis=self.poly_space_basis)
 
         fdomain = cdomain.refine()
         fomega = fdomain.create_region('Omega', 'all')
-        rffield = Field.from_args('rf', self.dtype, 1, fomega, approx_order=ao)
+        rffield = Field.from_args('rf', self.dtype, 1, fomega, approx_order=ao,
+                                  poly_space_basis=self.poly_space_basis)
 
         def assign_transform(transform, bf, subs, ef):
             if not len(subs): return
-- 
2.43.0


From 5f00cc7281a19740da082e60cf4e8329e5f986da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:36 +0000
Subject: [PATCH 56/59] fix: B-spline basis at the end of the knot range

---
 sfepy/mesh/bspline.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 561d5f8..3dda23d 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -92,11 +92,6 @@ class BSpline(Struct):
         """
         self.t = to_ndarray(t)
 
-        if self.knots is not None:
-            endval = self.knots[-(self.degree + 1)]
-            idxs = nm.where(self.t == endval)[0]
-            self.t[idxs] -= nm_f64_eps
-
     def set_param_n(self, n=100, knot_range=(0.0, 1.0)):
         """
         Generate the B-spline parametric vector using the number of steps.
@@ -107,7 +102,6 @@ class BSpline(Struct):
             The number of steps in the B-spline parametric vector.
         """
         self.t = nm.linspace(knot_range[0], knot_range[1], n)
-        self.t[-1] -= nm_f64_eps
 
     @staticmethod
     def basis_function_dg0(t, knots, n):
@@ -135,6 +129,11 @@ class BSpline(Struct):
                                            t < knots[ii + 1]))[0]
             bfun[idxs,ii] = 1.0
 
+        # The last non-empty interval is closed.
+        knots = nm.asarray(knots)
+        ii = nm.where(knots[:n] < knots[n])[0][-1]
+        bfun[nm.where(t == knots[n])[0],ii] = 1.0
+
         return bfun
 
     @staticmethod
@@ -441,7 +440,7 @@ class BSpline(Struct):
         dista = nm.power(dist, alpha)
         self.t = nm.zeros((coors.shape[0],), dtype=nm.float64)
         self.t[1:] += dista.cumsum() / dista.sum()
-        self.t[-1] -= nm_f64_eps
+        self.t[-1] = 1.0
 
         while True:
             self.basis = self.basis_function_dg(dg, self.t,
-- 
2.43.0


From 2a98a3d935e3607a27f33e9eb92513332d2ca447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:36 +0000
Subject: [PATCH 57/59] fix: cyclic knot vector with a general knot range

---
 sfepy/mesh/bspline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 3dda23d..452bc08 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -201,10 +201,10 @@ class BSpline(Struct):
         n_inter = n_knots - 2 * dg
         aux = nm.linspace(knot_range[0], knot_range[1], n_inter)
         if knot_type == '' or knot_type == 'cyclic':
-            dd = aux[1]
-            self.knots = nm.hstack((nm.arange(-dg, 0) * dd,
+            dd = aux[1] - aux[0]
+            self.knots = nm.hstack((nm.arange(-dg, 0) * dd + aux[0],
                                     aux,
-                                    nm.arange(1, dg + 1) * dd + 1))
+                                    nm.arange(1, dg + 1) * dd + aux[-1]))
 
         elif knot_type == 'clamped':
             self.knots = nm.array([aux[0]]* dg + list(aux) + [aux[-1]]* dg,
-- 
2.43.0


From ad163f546b638976252bd1d70013e8528c4cfef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:36 +0000
Subject: [PATCH 58/59] fix: BSpline.insert_knot()

---
 sfepy/mesh/bspline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/mesh/bspline.py b/sfepy/mesh/bspline.py
index 452bc08..3a4b2c6 100644
--- a/sfepy/mesh/bspline.py
+++ b/sfepy/mesh/bspline.py
@@ -254,6 +254,7 @@ class BSpline(Struct):
         idx = nm.where(nm.logical_and(kn[:-1] <= new, new < kn[1:]))[0]
 
         if len(idx) > 0:
+            idx = idx[0]
             multi = len(nm.where(kn == new)[0])
             if multi < dg:
                 # new knot
-- 
2.43.0


From fed890ded0d0fefae448d8f7902ee3e360bd56a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:05 +0000
Subject: [PATCH 59/59] fix: IGDomain data keep the Bezier mesh vertices of
 regions

The vertices of regions were stored in terms of the topological mesh, but
from_data() expects the Bezier mesh vertices, so the regions of restored
domains of degree two and more were wrong.
---
 sfepy/discrete/iga/domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/iga/domain.py b/sfepy/discrete/iga/domain.py
index 25a89b9..75db610 100644
--- a/sfepy/discrete/iga/domain.py
+++ b/sfepy/discrete/iga/domain.py
@@ -166,8 +166,12 @@ class IGDomain(Domain):
         bweights = self.bmesh.weights
         bconn = self.bmesh.conn
 
+        # The regions are given in terms of the Bezier mesh vertices.
+        regions = {key : self.bezier_vertices[val]
+                   for key, val in self.vertex_set_bcs.items()}
+
         return (knots, degrees, cps, weights, cs, conn,
-                bcps, bweights, bconn, self.vertex_set_bcs)
+                bcps, bweights, bconn, regions)
 
     @staticmethod
     def from_data(knots, degrees, cps, weights, cs, conn,
@@ -199,6 +203,7 @@ class IGDomain(Domain):
 
         tconn = iga.get_bezier_topology(bmesh.conn, nurbs.degrees)
         itc = nm.unique(tconn)
+        self.bezier_vertices = itc
 
         remap = prepare_remap(itc, bmesh.conn.max() + 1)
 
-- 
2.43.0

