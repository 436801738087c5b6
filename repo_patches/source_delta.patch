From 7bb8d467c45ff4735f7437ec0f3ce68d2a0e6675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 01/16] fix: SLFM-only and independent-only grid kernels had a
 spurious identity term

---
 runlmc/lmc/grid_kernel.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..7dd3c13 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -32,9 +32,8 @@ class GridKernel(Matrix):
         elif ktype == 'bt':
             self.grid_K = _gen_bt_grid(functional_kernel, grid_k, active_dim)
         elif ktype == 'slfm':
-            m = interpolant.shape[1]
             self.grid_K = _gen_slfm_grid(
-                functional_kernel, grid_k, m, active_dim)
+                functional_kernel, grid_k, active_dim)
         else:
             assert False, ktype
 
@@ -74,18 +73,19 @@ def gen_grid_kernel(fk, grid_dists, interpolants, lens_per_output):
     return SumMatrix(ls), grid_kerns
 
 
-def _gen_slfm_grid(functional_kernel, grid_k, m, active_dim):
-    coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, m, active_dim)
-    diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, m, active_dim)
-    return SumMatrix([coreg_Ks, diag_Ks])
+def _gen_slfm_grid(functional_kernel, grid_k, active_dim):
+    coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, active_dim)
+    diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, active_dim)
+    # a part without any kernels contributes nothing
+    return SumMatrix([K for K in (coreg_Ks, diag_Ks) if K is not None])
 
 
-def _gen_coreg_Ks(fk, grid_k, m, active_dim):
+def _gen_coreg_Ks(fk, grid_k, active_dim):
     kidxs = fk.active_dims[active_dim]
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return None
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -100,9 +100,9 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     return coreg_Ks
 
 
-def _gen_diag_Ks(fk, grid_k, m, active_dim):
+def _gen_diag_Ks(fk, grid_k, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return None
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From 35832e302e49eaa8cdfa13c64508d9263f1d80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 02/16] fix: prior gradient omitted the Jacobian term for all
 but the last prior

---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From b68e5aa17ae1585e32ad22fe39d208f6f677e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 03/16] fix: FunctionalKernel without LMC kernels raised
 TypeError

---
 runlmc/lmc/functional_kernel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index d1bb0eb..b9f0e38 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -95,17 +95,18 @@ class FunctionalKernel(Parameterized):
         if not lmc_kernels and not slfm_kernels and not indep_gp:
             raise ValueError('Number of kernels should be >0')
 
+        lmc_kernels = lmc_kernels or []
+        lmc_ranks = lmc_ranks or []
+        slfm_kernels = slfm_kernels or []
+        indep_gp = indep_gp or []
+        indep_gp_index = indep_gp_index or range(len(indep_gp))
+
         if len(lmc_kernels) != len(lmc_ranks):
             raise ValueError('# LMC kernels should equal # LMC ranks')
 
         if not all(map(lambda rank: rank > 0, lmc_ranks)):
             raise ValueError('LMC ranks not positive')
 
-        lmc_kernels = lmc_kernels or []
-        slfm_kernels = slfm_kernels or []
-        indep_gp = indep_gp or []
-        indep_gp_index = indep_gp_index or range(len(indep_gp))
-
         if len(indep_gp) != len(indep_gp_index):
             raise ValueError('indep GP number of kernels should match indices')
 
-- 
2.43.0


From fd0929a378ce4c761eb12f4f08f5abc3da80fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 04/16] fix: prediction with the Identity kernel failed on a
 scalar zero distance

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..37dca4b 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -307,7 +307,8 @@ class InterpolatedLLGP(MultiGP):
                                  for per_output
                                  in self._functional_kernel.coreg_vecs)
         coregs += np.column_stack(self._functional_kernel.coreg_diags)
-        zero_dist = {v: 0 for v in self._functional_kernel.active_dims}
+        zero_dist = {v: np.zeros(1)
+                     for v in self._functional_kernel.active_dims}
         kernels = self._functional_kernel.eval_kernels(zero_dist)
         native_output_var = coregs.dot(kernels).reshape(-1)
         native_var = native_output_var + self._functional_kernel.noise
-- 
2.43.0


From df31c6045eabaab4daac4bc2ac9e78e5265d47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 05/16] fix: Scaled kernel did not link its scale, so it was
 never optimised

---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From 11ec755a245e307b71aa8f7df6850425fa710b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 06/16] fix: map_entries permuted entries of arrays not in C
 order

---
 runlmc/util/numpy_convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index b22445c..b2c9ae8 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -22,7 +22,7 @@ def map_entries(f, nparr):
     """
     if nparr.size == 0:
         return nparr
-    it = np.nditer(nparr)
+    it = np.nditer(nparr, order='C')
     shape = nparr.shape
     dtype = nparr.dtype
     return np.fromiter(map(f, it), dtype).reshape(shape)
-- 
2.43.0


From 0852951a8fd0bccfd1f6ab6ede8cddbef2e22098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 07/16] fix: autogrid modified the grid size array of the
 caller

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..d873ae0 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -202,7 +202,7 @@ def autogrid(Xs, lo, hi, m):
     if m is None:
         m = np.ones(P) * (sum(len(X) for X in Xs) // len(Xs))
     else:
-        m = np.asarray(m)
+        m = np.array(m)  # copy, since modified below
     lo = (max_lo if lo is None else np.minimum(lo, max_lo)).astype(float)
     hi = (min_hi if hi is None else np.maximum(hi, min_hi)).astype(float)
 
-- 
2.43.0


From 53f3c9a1b16f7d3e9f1674d5f23bc3ccb481cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 08/16] fix: SKI eigenvalue bound used an undefined attribute

---
 runlmc/approx/ski.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runlmc/approx/ski.py b/runlmc/approx/ski.py
index ed095c6..f3683b8 100644
--- a/runlmc/approx/ski.py
+++ b/runlmc/approx/ski.py
@@ -20,4 +20,7 @@ class SKI(Composition):
         return self.W.dot(WKT.T)
 
     def upper_eig_bound(self):
-        return self.K.upper_eig_bound() * self.shape[0] / self.m
+        # ||W||_2^2 <= ||W||_1 * ||W||_inf
+        absW = abs(self.W)
+        wnorm_sq = absW.sum(axis=0).max() * absW.sum(axis=1).max()
+        return self.K.upper_eig_bound() * wnorm_sq
-- 
2.43.0


From 54222a41e6b52fb329b89c67a328ab7db98513cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 09/16] fix: precompute prediction failed if all kernels share
 a strict subset of dimensions

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 37dca4b..2618c02 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -370,7 +370,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        (W, WT), = self.interpolants.values()
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From 3cc3737b24b7848e5b7532929e0f753d007a0d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 10/16] fix: interpolation accepted grids that are not
 equispaced

---
 runlmc/approx/interpolation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index d873ae0..3eb706d 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -53,6 +53,13 @@ def cubic_kernel(x):
     return y
 
 
+def _check_equispaced(grid):
+    delta = (grid[-1] - grid[0]) / (grid.size - 1)
+    deviation = np.fabs(grid - np.linspace(grid[0], grid[-1], grid.size)).max()
+    if not (delta > 0 and deviation <= 1e-3 * delta):
+        raise ValueError('grid is not an increasing equispaced sequence')
+
+
 def interp_cubic(grid, samples):
     """
     Given a one dimensional grid `grid` of size `m` (that's sorted) and
@@ -91,6 +98,8 @@ def interp_cubic(grid, samples):
     if grid_size < 4:
         raise ValueError('grid size {} must be >=4'.format(grid_size))
 
+    _check_equispaced(grid)
+
     if samples.min() <= grid[0] or samples.max() >= grid[-1]:
         _LOG.warning('range of samples [%f, %f] outside grid range [%f, %f]',
                      samples.min(), samples.max(), grid[0], grid[-1])
@@ -247,6 +256,7 @@ def interp_bicubic(gridx, gridy, samples):  # pylint: disable=too-many-locals
             raise ValueError('{} dim {} should be 1'.format(s, grid.ndim))
         if grid.size < 4:
             raise ValueError('grid size {} must be >=4'.format(grid.size))
+        _check_equispaced(grid)
 
     if samples.ndim != 2 or samples.shape[1] != 2:
         raise ValueError(
-- 
2.43.0


From 69f5062849e4d1c98843af7015c3d10c8081dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 11/16] fix: constant outputs were accepted when their std was
 nonzero by rounding

---
 runlmc/models/multigp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/multigp.py b/runlmc/models/multigp.py
index c27a512..589837a 100644
--- a/runlmc/models/multigp.py
+++ b/runlmc/models/multigp.py
@@ -221,7 +221,8 @@ class MultiGP(Model):
                 'Found inputs of varying dimensions {}'.format(dims))
 
         for i, Y in enumerate(Ys):
-            if np.std(Y) == 0:
+            # np.std can be nonzero for constant outputs, by rounding
+            if np.ptp(Y) == 0:
                 raise ValueError('Output {} has std dev 0'.format(i))
 
         return dims.pop(), len(Xs)
-- 
2.43.0


From cc660dc35307f8fdfc2a04beb2107f04bec7167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 12/16] fix: on-the-fly prediction failed if no points were
 queried

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 2618c02..2a4faaa 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -392,7 +392,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls))
+        inverted = inverted.reshape(K_test_X.shape).T
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0


From 6bfa7e0e8dfb1e98f8015e97fadfcd601baf7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:57 +0000
Subject: [PATCH 13/16] fix: independent GP indices out of range were not
 rejected with ValueError

---
 runlmc/lmc/functional_kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index b9f0e38..ed77107 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -110,6 +110,9 @@ class FunctionalKernel(Parameterized):
         if len(indep_gp) != len(indep_gp_index):
             raise ValueError('indep GP number of kernels should match indices')
 
+        if not all(map(lambda d: 0 <= d < D, indep_gp_index)):
+            raise ValueError('indep GP indices should be output numbers')
+
         self._kernels = lmc_kernels + slfm_kernels + indep_gp
         for k in self._kernels:
             self.link_parameter(k)
-- 
2.43.0


From ca4869275ff8216db4efc95367dca79a32d5a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:03 +0000
Subject: [PATCH 14/16] fix: GPy-backed model was wrong for inputs of more than
 one dimension

---
 runlmc/kern/identity.py        |  2 +-
 runlmc/kern/matern32.py        |  6 ++++--
 runlmc/kern/rbf.py             |  6 ++++--
 runlmc/kern/scaled.py          |  2 +-
 runlmc/kern/stationary_kern.py |  4 +++-
 runlmc/kern/std_periodic.py    |  8 +++++---
 runlmc/models/gpy_lmc.py       | 18 ++++++++++++------
 7 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/runlmc/kern/identity.py b/runlmc/kern/identity.py
index 179e4cc..9405f1a 100644
--- a/runlmc/kern/identity.py
+++ b/runlmc/kern/identity.py
@@ -29,7 +29,7 @@ class Identity(StationaryKern):
     def from_dist(self, dists):
         return (dists == 0.0).astype(float)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         raise NotImplementedError('requires manual impl')
 
     def kernel_gradient(self, dists):
diff --git a/runlmc/kern/matern32.py b/runlmc/kern/matern32.py
index 006d9bf..2219107 100644
--- a/runlmc/kern/matern32.py
+++ b/runlmc/kern/matern32.py
@@ -40,11 +40,13 @@ class Matern32(StationaryKern):
         scaled_dist = dists * np.sqrt(3) * self.inv_lengthscale
         return (1 + scaled_dist) * np.exp(-scaled_dist)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         import GPy
         l = 1 / float(self.inv_lengthscale[0])
+        if self.active_dims is not None:
+            input_dim = len(self.active_dims)
         gpy = GPy.kern.Matern32(
-            input_dim=1, variance=1, lengthscale=l, name=self.name,
+            input_dim=input_dim, variance=1, lengthscale=l, name=self.name,
             active_dims=self.active_dims)
         gpy.variance.constrain_fixed(1)
         return gpy
diff --git a/runlmc/kern/rbf.py b/runlmc/kern/rbf.py
index c83d77d..760e83a 100644
--- a/runlmc/kern/rbf.py
+++ b/runlmc/kern/rbf.py
@@ -39,11 +39,13 @@ class RBF(StationaryKern):
     def from_dist(self, dists):
         return np.exp(-0.5 * np.square(dists) * self.inv_lengthscale)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         import GPy
         l = float(self.inv_lengthscale[0]) ** -0.5
+        if self.active_dims is not None:
+            input_dim = len(self.active_dims)
         gpy = GPy.kern.RBF(
-            input_dim=1, variance=1, lengthscale=l, name=self.name,
+            input_dim=input_dim, variance=1, lengthscale=l, name=self.name,
             active_dims=self.active_dims)
         gpy.variance.constrain_fixed(1)
         return gpy
diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 59731f9..04fee7e 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -23,7 +23,7 @@ class Scaled(StationaryKern):
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         raise NotImplementedError
 
     def kernel_gradient(self, dists):
diff --git a/runlmc/kern/stationary_kern.py b/runlmc/kern/stationary_kern.py
index 82b5bb0..5cbf901 100644
--- a/runlmc/kern/stationary_kern.py
+++ b/runlmc/kern/stationary_kern.py
@@ -57,8 +57,10 @@ class StationaryKern(Parameterized):
         """
         raise NotImplementedError
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         """
+        :param input_dim: input dimension, used when the kernel is active on
+            all dimensions (i.e., `active_dims` is `None`)
         :return: GPy version of this kernel.
         """
         raise NotImplementedError
diff --git a/runlmc/kern/std_periodic.py b/runlmc/kern/std_periodic.py
index 56fa720..084ba1e 100644
--- a/runlmc/kern/std_periodic.py
+++ b/runlmc/kern/std_periodic.py
@@ -47,13 +47,15 @@ class StdPeriodic(StationaryKern):
         sin = np.sin((np.pi / self.period) * dists)
         return np.exp(-0.5 * np.square(sin) * self.inv_lengthscale)
 
-    def to_gpy(self):
+    def to_gpy(self, input_dim=1):
         import GPy
         l = float(self.inv_lengthscale[0]) ** -0.5
         p = float(self.period[0])
+        if self.active_dims is not None:
+            input_dim = len(self.active_dims)
         gpy = GPy.kern.StdPeriodic(
-            input_dim=1, variance=1, lengthscale=l, period=p, name=self.name,
-            active_dims=self.active_dims)
+            input_dim=input_dim, variance=1, lengthscale=l, period=p,
+            name=self.name, active_dims=self.active_dims)
         gpy.variance.constrain_fixed(1)
         return gpy
 
diff --git a/runlmc/models/gpy_lmc.py b/runlmc/models/gpy_lmc.py
index a1c38f8..034ad29 100644
--- a/runlmc/models/gpy_lmc.py
+++ b/runlmc/models/gpy_lmc.py
@@ -106,17 +106,23 @@ class GPyLMC(MultiGP):
     @staticmethod
     def _construct_gpy(Xs, Ys, kernels, ranks, sparse):
         import GPy.models as models
-        from GPy.util.multioutput import ICM
+        from GPy.kern import Coregionalize
 
-        kernels = [k.to_gpy() for k in kernels]
-        input_dim = 1
+        input_dim = Xs[0].shape[1]
+        kernels = [k.to_gpy(input_dim) for k in kernels]
         num_outputs = len(Ys)
         Ys = [Y.reshape(-1, 1) for Y in Ys]
 
-        K = ICM(input_dim, num_outputs, kernels[0], ranks[0], name='ICM0')
+        def ICM(kernel, rank, idx):
+            # GPy's ICM() only allows kernels active on all dimensions. The
+            # output index follows the inputs, as the last column.
+            B = Coregionalize(
+                1, num_outputs, rank, active_dims=[input_dim], name='B')
+            return kernel.prod(B, name='ICM{}'.format(idx))
+
+        K = ICM(kernels[0], ranks[0], 0)
         for kernel, rank, idx in zip(kernels[1:], ranks[1:], count(1)):
-            K += ICM(
-                input_dim, num_outputs, kernel, rank, name='ICM{}'.format(idx))
+            K += ICM(kernel, rank, idx)
         K.name = 'LCM'
         if sparse > 0:
             return models.SparseGPCoregionalizedRegression(
-- 
2.43.0


From 425b284a87979fe6ae3fc14f0a0fefb61865ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:03 +0000
Subject: [PATCH 15/16] fix: sparse GPy models shared the inducing points of
 the first one

---
 runlmc/models/gpy_lmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/gpy_lmc.py b/runlmc/models/gpy_lmc.py
index 034ad29..2f2f902 100644
--- a/runlmc/models/gpy_lmc.py
+++ b/runlmc/models/gpy_lmc.py
@@ -125,6 +125,8 @@ class GPyLMC(MultiGP):
             K += ICM(kernel, rank, idx)
         K.name = 'LCM'
         if sparse > 0:
+            # GPy appends to its default Z_list, so that a second model would
+            # get the inducing points of the first
             return models.SparseGPCoregionalizedRegression(
-                Xs, Ys, kernel=K, num_inducing=sparse)
+                Xs, Ys, Z_list=[], kernel=K, num_inducing=sparse)
         return models.GPCoregionalizedRegression(Xs, Ys, kernel=K)
-- 
2.43.0


From 3fa9c31ac904b46300ee08c4b95787a352d5f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 16/16] fix: RBF kernel overflowed on narrow integer distances

---
 runlmc/kern/rbf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runlmc/kern/rbf.py b/runlmc/kern/rbf.py
index 760e83a..54f1260 100644
--- a/runlmc/kern/rbf.py
+++ b/runlmc/kern/rbf.py
@@ -37,7 +37,8 @@ class RBF(StationaryKern):
         self.link_parameter(self.inv_lengthscale)
 
     def from_dist(self, dists):
-        return np.exp(-0.5 * np.square(dists) * self.inv_lengthscale)
+        sqdists = np.square(dists, dtype=float)
+        return np.exp(-0.5 * sqdists * self.inv_lengthscale)
 
     def to_gpy(self, input_dim=1):
         import GPy
@@ -51,7 +52,7 @@ class RBF(StationaryKern):
         return gpy
 
     def kernel_gradient(self, dists):
-        sqdists = np.square(dists)
+        sqdists = np.square(dists, dtype=float)
         exp = np.exp(-0.5 * sqdists * self.inv_lengthscale)
         return [exp * -0.5 * sqdists]
 
-- 
2.43.0

