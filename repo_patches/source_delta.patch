From 1cb348382eacd999df294570461710af53d890ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:52 +0000
Subject: [PATCH 01/35] fix: accept a right-hand-side vector in
 non_negative_rightsolve

---
 src/tenkit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..a23ce0e 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -18,7 +18,7 @@ def non_negative_rightsolve(A, B):
     """
     # Discussion tracking in Enron Email Using PARAFAC has non negative updates
     if len(B.shape) == 1:
-        B = B[np.newaxis, B]
+        B = B[np.newaxis, :]
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-- 
2.43.0


From 0fe689cf442ad19086068b2b8328e4b15115c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:40 +0000
Subject: [PATCH 02/35] fix: let integer weights be normalised

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..7637ba6 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -125,7 +125,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'There must be as many weights as there are columns in the factor matrices.'
                     f'The factor matrices has {self.rank} columns, but there are {len(weights)} weights.'
                 )
-        self.weights = np.asarray(weights)
+        self.weights = np.asarray(weights, dtype=float)
     
     @property
     def shape(self):
-- 
2.43.0


From 7e50986996bb96d2b6157a16fbb0eea9ecf6a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 03/35] fix: extract single PARAFAC2 components from slices of
 different widths

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 7637ba6..15304a9 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -698,7 +698,7 @@ class Parafac2Tensor(EvolvingTensor):
 
     def get_single_component_decomposition(self, component):
         A = self.A[:, component, np.newaxis]
-        B = self.B[:, ..., component, np.newaxis]
+        B = [B_k[:, component, np.newaxis] for B_k in self.B]
         C = self.C[:, component, np.newaxis]
 
         single_component_decomposition = EvolvingTensor(
-- 
2.43.0


From 77d387c3e5e74ee81397ea15a1ef3eca20ac8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 04/35] fix: keep the weights when converting a Kruskal tensor
 to an evolving tensor

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 15304a9..895d49c 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -336,7 +336,7 @@ class EvolvingTensor(BaseDecomposedTensor):
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
         A = ktensor.factor_matrices[0]
         B = ktensor.factor_matrices[1]
-        C = ktensor.factor_matrices[2]
+        C = ktensor.weights*ktensor.factor_matrices[2]
 
         B = np.ones((len(C), 1, 1))*B[np.newaxis]
 
-- 
2.43.0


From c34a468299fc242556665130044accec9a5f8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 05/35] fix: load stored evolving tensors

---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 895d49c..d5d8a64 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From 825cb7ee90b844beefe3155b626fa9bde23b8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:34 +0000
Subject: [PATCH 06/35] fix: solve the least squares problem itself when a mode
 is regularised or constrained

---
 src/tenkit/decomposition/cp.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..e780008 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -351,8 +351,22 @@ class CP_ALS(BaseCP):
         self._matrix_khatri_rao_product_cache = None
         # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
+    def _has_penalty_or_constraint(self, mode):
+        """Whether the factor matrix of this mode is regularised or constrained."""
+        return (
+            self.ridge_penalties is not None
+            or self.non_negativity_constraints[mode]
+            or self.orthonormality_constraints[mode]
+        )
+
     def _get_als_lhs(self, skip_mode):
-        """Compute left hand side of least squares problem."""
+        """Compute left hand side of least squares problem.
+
+        The normal equations are only equivalent to the least squares problem
+        when the factor matrix is neither regularised nor constrained.
+        """
+        if self._has_penalty_or_constraint(skip_mode):
+            return base.khatri_rao(*self.factor_matrices, skip=skip_mode).T
         V = np.ones((self.rank, self.rank))
         for i, factor in enumerate(self.factor_matrices):
             if i == skip_mode:
@@ -361,6 +375,8 @@ class CP_ALS(BaseCP):
         return V
     
     def _get_als_rhs(self, mode):
+        if self._has_penalty_or_constraint(mode):
+            return base.unfold(self.X, mode)
         return base.matrix_khatri_rao_product(self.X, self.factor_matrices, mode)
 
     def _get_rightsolve(self, mode):
@@ -390,7 +406,10 @@ class CP_ALS(BaseCP):
         rightsolve = self._get_rightsolve(mode)
 
         self._last_updated_mode = mode
-        self._matrix_khatri_rao_product_cache = rhs
+        if self._has_penalty_or_constraint(mode):
+            self._matrix_khatri_rao_product_cache = rhs @ lhs.T
+        else:
+            self._matrix_khatri_rao_product_cache = rhs
 
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
-- 
2.43.0


From a6abd17a4a39bd31ad08f5f54a4f5ca23294af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:45 +0000
Subject: [PATCH 07/35] fix: count all entries of the slices in the mean
 squared error of PARAFAC2

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index d5d8a64..7a32fa7 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -322,7 +322,7 @@ class EvolvingTensor(BaseDecomposedTensor):
         self.warning = warning
         self.all_same_size = self._check_all_same_size(B)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B]
-        self.num_elements = sum((shape[1] for shape in self.slice_shapes))
+        self.num_elements = sum((shape[0]*shape[1] for shape in self.slice_shapes))
 
     @classmethod
     def from_kruskaltensor(cls, ktensor, allow_same_class=False):
@@ -599,7 +599,7 @@ class Parafac2Tensor(EvolvingTensor):
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B] 
-        self.num_elements = sum(shape[1] for shape in self.slice_shapes)
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
         self.warning = warning
 
-- 
2.43.0


From 59606abdb665088d4887678ec2a9677841e17f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 08/35] fix: compute the squared error of CP models from the
 current decomposition

---
 src/tenkit/decomposition/cp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index e780008..016405a 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -86,6 +86,10 @@ class BaseCP(BaseDecomposer):
         self.ridge_penalties = ridge_penalties
         self.rel_loss_tol = rel_loss_tol
 
+    def set_target(self, X):
+        super().set_target(X)
+        self._last_updated_mode = None
+
     def init_random(self):
         """Random initialisation of the factor matrices.
 
@@ -168,7 +172,7 @@ class BaseCP(BaseDecomposer):
     @property
     def SSE(self):
         """Sum Squared Error"""
-        if hasattr(self, '_last_updated_mode') and self._last_updated_mode is not None:
+        if self._last_updated_mode is not None:
             # ||X - Y||_F^2 = ||X||_F^2 + ||Y||_F^2 - 2<X, Y>_F
             # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
             
@@ -445,6 +449,9 @@ class CP_ALS(BaseCP):
         if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
             self.store_checkpoint()
 
+        # The decomposition can be modified by the user from now on
+        self._last_updated_mode = None
+
     def init_random(self):
         super().init_random()
         if self.non_negativity_constraints is None:
-- 
2.43.0


From f03a79c05d3cbe216e6082ea1f66bdbf4238d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:10 +0000
Subject: [PATCH 09/35] fix: do not keep old weights when the factor matrices
 of CP models are updated

---
 src/tenkit/decomposition/cp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 016405a..76ad00b 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -420,6 +420,7 @@ class CP_ALS(BaseCP):
 
     def _update_als_factors(self):
         """Updates factors with alternating least squares."""
+        self.decomposition.reset_weights()
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
             self._update_als_factor(mode)
-- 
2.43.0


From 4e0853ca1da438d22a8af66c326387ef7a5f5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 10/35] fix: checkpoint the last iteration once, under its own
 number

---
 src/tenkit/decomposition/base_decomposer.py | 56 +++++++++++++++------
 src/tenkit/decomposition/cp.py              |  3 +-
 src/tenkit/decomposition/parafac2.py        |  7 +--
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..04fcaca 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -175,21 +175,37 @@ class BaseDecomposer(ABC):
             self.max_its = max_its
         self._fit()
     
-    def store_checkpoint(self):
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
-            else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
+    def store_checkpoint(self, iteration=None):
+        """Store the decomposition and the logs in the checkpoint file.
 
-            h5.attrs['final_iteration'] = self.current_iteration
-            h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
+        Arguments
+        ---------
+        iteration : int (optional)
+            The iteration (counted from zero) that led to the decomposition.
+            The current iteration by default.
+        """
+        if iteration is None:
+            iteration = self.current_iteration
+
+        with h5py.File(self.checkpoint_path, 'a') as h5:
+            # An existing checkpoint is replaced, but not until the new one is complete.
+            group_name = f'checkpoint_{iteration:05d}'
+            unfinished_name = f'unfinished_{group_name}'
+            if unfinished_name in h5:
+                del h5[unfinished_name]
+            self.decomposition.store_in_hdf5_group(h5.create_group(unfinished_name))
+            if group_name in h5:
+                del h5[group_name]
+            h5.move(unfinished_name, group_name)
 
             for logger in self.loggers:
                 logger.write_to_hdf5_group(h5)
-    
+
+            checkpoint_its = [it for it in h5.attrs.get('checkpoint_its', []) if it != iteration]
+            h5.attrs['checkpoint_its'] = [*checkpoint_its, iteration]
+            h5.attrs['decomposition_type'] = type(self).__name__
+            h5.attrs['final_iteration'] = iteration
+
     @abstractmethod
     def _check_valid_components(self, decomposition):
         pass
@@ -206,7 +222,6 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -217,13 +232,24 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
-    
+        # Checkpoints are numbered by the iteration they were stored in.
+        self.current_iteration = load_it + 1
+
     def _after_fit_iteration(self):
         for logger in self.loggers:
             logger.log(self)
 
         it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        if (
+            self.checkpoint_path is not None
+            and self.checkpoint_frequency > 0
+            and (it+1) % self.checkpoint_frequency == 0
+        ):
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+        self.current_iteration += 1
+
+    def _after_fit(self):
+        """Checkpoint the last iteration."""
+        if self.checkpoint_path is not None and self.current_iteration > 0:
+            self.store_checkpoint(self.current_iteration - 1)
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 76ad00b..5003d3e 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -447,8 +447,7 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._after_fit()
 
         # The decomposition can be modified by the user from now on
         self._last_updated_mode = None
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..3fa8a29 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -402,12 +402,7 @@ class Parafac2_ALS(BaseParafac2):
 
             self._after_fit_iteration()
 
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
+        self._after_fit()
 
     def _update_convergence(self):
         loss = self.loss
-- 
2.43.0


From c539c144aee4198a346a9b3dc06ab40c80ab3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 11/35] fix: pass the arguments of PARAFAC2's fit_transform on
 to fit

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 3fa8a29..8515390 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -205,7 +205,7 @@ class BaseParafac2(BaseDecomposer):
         self._fit()
 
     def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition
 
     @property
-- 
2.43.0


From df5567eaf1d2ad870078a77adc630195ad8ba31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 12/35] fix: allow a print frequency of zero for PARAFAC2

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 8515390..3d2591e 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -396,7 +396,7 @@ class Parafac2_ALS(BaseParafac2):
             self._update_parafac2_factors()
             self._update_convergence()
 
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
                 print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                       f'improvement is {self._rel_function_change:g}')
 
-- 
2.43.0


From b5545476792e17481de5b992c3dafd60a144dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 13/35] fix: give each slice its own projection matrix with CP
 initialisation

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 3d2591e..d3f3076 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -127,7 +127,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From 61d5273153efd804b8be535420c67906b4716819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 14/35] fix: keep the PARAFAC2 factor matrices that are
 constrained to be orthonormal up to date

---
 src/tenkit/decomposition/cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 5003d3e..a0a0847 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -347,7 +347,7 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+                fm[...] = np.linalg.qr(fm)[0]
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 1ad8349ae72468c05d7daf0fc80076e77c93c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 15/35] fix: make SVD initialisation of PARAFAC2 work

---
 src/tenkit/decomposition/parafac2.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index d3f3076..ba4420a 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -102,19 +102,17 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        I, J, K = self.X_shape
+        Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J[k], self.rank) for k in range(K)]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From 9274de24180338e67316706beb2cbe714e3edffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 16/35] fix: update non-negative modes of coupled models

---
 src/tenkit/decomposition/cmtf.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..a2a4001 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -144,12 +144,7 @@ class CMTF_ALS(CP_ALS):
         return self.decomposition, [[A,V] for A, V in zip(self.coupled_factor_matrices, self.uncoupled_factor_matrices)]
 
     def _update_als_factors(self):
-        num_modes = len(self.X.shape) # TODO: Should this be cashed?
-        for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+        super()._update_als_factors()
         self._update_uncoupled_matrix_factors()
 
     def _get_als_lhs(self, mode):
-- 
2.43.0


From c91b27ed23a46e9e475bcb2bbe14023b3428ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 17/35] fix: use every coupled matrix of a mode

---
 src/tenkit/decomposition/cmtf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index a2a4001..e47779a 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -150,25 +150,23 @@ class CMTF_ALS(CP_ALS):
     def _get_als_lhs(self, mode):
         if mode in self.mode_to_cm_idx:
             khatri_rao_product= base.khatri_rao(*self.factor_matrices, skip=mode)
-            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
-            return np.concatenate([khatri_rao_product, V], axis=0).T
+            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
+            return np.concatenate([khatri_rao_product, *V], axis=0).T
         else:
             return super()._get_als_lhs(mode)
     
     def _get_als_rhs(self, mode):
         if mode in self.mode_to_cm_idx:
             unfolded_X = base.unfold(self.X, mode)
-            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
+            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
 
-            return np.concatenate([unfolded_X, coupled_Y], axis=1)
+            return np.concatenate([unfolded_X, *coupled_Y], axis=1)
         else:
             return super()._get_als_rhs(mode)
 
 
     def _update_uncoupled_matrix_factors(self):
-        for mode, cm_idx in self.mode_to_cm_idx.items():
-            cm_idx = self.mode_to_cm_idx[mode][0]
-            
+        for cm_idx, mode in enumerate(self.coupling_modes):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-- 
2.43.0


From e91c7be74eb512ab86c636cc3819844e88a7f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 18/35] fix: fit coupled models with unit weights

---
 src/tenkit/decomposition/cmtf.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index e47779a..c4c0786 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -76,10 +76,6 @@ class CMTF_ALS(CP_ALS):
     def _init_fit(self, X, coupled_matrices, coupling_modes, max_its, initial_decomposition):
         self.set_coupled_matrices(coupled_matrices, coupling_modes)
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self._rel_function_change = np.inf
-        self.prev_SSE = self.SSE
-        
-        self.decomposition.normalize_components()
 
     def _fit(self):
         super()._fit()
@@ -143,7 +139,18 @@ class CMTF_ALS(CP_ALS):
                  y=y, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition, [[A,V] for A, V in zip(self.coupled_factor_matrices, self.uncoupled_factor_matrices)]
 
+    def _absorb_weights(self):
+        """Move the weights into the first factor matrix without changing the model."""
+        weights = self.weights.copy()
+        self.factor_matrices[0][...] = self.factor_matrices[0]*weights
+        weights[weights == 0] = 1
+        for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
+            if coupling_mode == 0:
+                uncoupled_matrix[...] = uncoupled_matrix/weights
+        self.decomposition.reset_weights()
+
     def _update_als_factors(self):
+        self._absorb_weights()
         super()._update_als_factors()
         self._update_uncoupled_matrix_factors()
 
-- 
2.43.0


From fd9851ff72107116dedff30c80f3cd08e2a779e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 19/35] fix: checkpoint coupled models like the others

---
 src/tenkit/decomposition/cmtf.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index c4c0786..cbd9798 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -1,4 +1,3 @@
-import h5py
 import numpy as np
 from .cp import CP_ALS
 
@@ -8,15 +7,7 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
+    #TODO: store the matrices in the checkpoints as well
 
     @property
     def coupled_factor_matrices(self):
@@ -77,9 +68,9 @@ class CMTF_ALS(CP_ALS):
         self.set_coupled_matrices(coupled_matrices, coupling_modes)
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
 
-    def _fit(self):
-        super()._fit()
+    def _after_fit(self):
         self._normalize_components()
+        super()._after_fit()
     
     def _normalize_components(self):
         for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
-- 
2.43.0


From 44503ac7706180262dbd20a86b8abcd811b4b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 20/35] fix: count the entries of the coupled matrices in the
 mean squared error

---
 src/tenkit/decomposition/cmtf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index cbd9798..9829ed4 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -38,7 +38,7 @@ class CMTF_ALS(CP_ALS):
     def MSE(self):
         #raise NotImplementedError('Not implemented') 
         # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
-- 
2.43.0


From 1727c94551da1f9705f47345a744194f7c07c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 21/35] fix: add the ridge penalties to the loss of coupled
 models

---
 src/tenkit/decomposition/cmtf.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 9829ed4..2ad3e31 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -45,10 +45,6 @@ class CMTF_ALS(CP_ALS):
     def RMSE(self):
         return np.sqrt(self.MSE)
 
-    @property
-    def loss(self):
-        return self.SSE  # TODO: skal det være property?
-
     def set_coupled_matrices(self, coupled_matrices, coupling_modes):
         self.coupled_matrices = coupled_matrices
         self.coupling_modes = coupling_modes
-- 
2.43.0


From 6c1310642847840b94ae977b5c407fd0f168ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:47 +0000
Subject: [PATCH 22/35] fix: keep orthonormal factor matrices when CP fits are
 resumed

---
 src/tenkit/decomposition/cp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index a0a0847..e743d57 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -347,7 +347,9 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                fm[...] = np.linalg.qr(fm)[0]
+                q, r = np.linalg.qr(fm)
+                # Keep the signs, so that orthonormal factor matrices are left as they are
+                fm[...] = q*np.where(np.diag(r) < 0, -1, 1)
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 56aef7642beffa19cf90dcfe692588186fe69a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 23/35] fix: start CP models from the whole initial
 decomposition, its weights included

---
 src/tenkit/decomposition/cp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index e743d57..5a4dec6 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -339,11 +339,17 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.decomposition.reset_weights()
         if self.non_negativity_constraints is None:
             self.non_negativity_constraints = [False]*len(self.factor_matrices)
         if self.orthonormality_constraints is None:
             self.orthonormality_constraints = [False]*len(self.factor_matrices)
+
+        # The weights of the initial decomposition are moved to a factor matrix that can hold them
+        for fm, orthogonality in zip(self.factor_matrices, self.orthonormality_constraints):
+            if not orthogonality:
+                fm[...] = fm*self.weights
+                self.decomposition.reset_weights()
+                break
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-- 
2.43.0


From 8feb8a08e5088c97623f169c83cc9956b5e93e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:53 +0000
Subject: [PATCH 24/35] fix: reject initial CP decompositions with another
 number of modes than the data

---
 src/tenkit/decomposition/cp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 5a4dec6..30ccc28 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -118,6 +118,12 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        if len(decomposition.factor_matrices) != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({len(decomposition.factor_matrices)})"
+                f" is not the same as the number of modes of X ({len(self.X.shape)})."
+            )
+
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
-- 
2.43.0


From 886a4fae0eba8dd1df3d0b4464ce53e651fa9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:53 +0000
Subject: [PATCH 25/35] fix: reject initial PARAFAC2 decompositions whose
 projection or blueprint does not fit

---
 src/tenkit/decomposition/parafac2.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index ba4420a..601fe54 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -158,6 +158,17 @@ class BaseParafac2(BaseDecomposer):
                     f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
                 )
         
+        if decomposition.blueprint_B.shape != (self.rank, self.rank):
+            raise ValueError(
+                f"The shape of the blueprint of B ({decomposition.blueprint_B.shape}) does not agree with the models rank ({self.rank})"
+            )
+
+        if len(decomposition.projection_matrices) != len(self.X):
+            raise ValueError(
+                f"The number of projection matrices ({len(decomposition.projection_matrices)})"
+                f" is not the same as the number of slices of X ({len(self.X)})"
+            )
+
         for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
             if B.shape[0] != X_slice.shape[1]:
                 raise ValueError(
-- 
2.43.0


From 14c6a0279d7967a3b95cc6e4f05b1da58dbdfadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:53 +0000
Subject: [PATCH 26/35] fix: reject SVD initialisation of PARAFAC2 models with
 more components than rows

---
 src/tenkit/decomposition/parafac2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 601fe54..05fc4f2 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -103,6 +103,11 @@ class BaseParafac2(BaseDecomposer):
         """SVD initalisation
         """
         I, J, K = self.X_shape
+        if self.rank > I:
+            raise ValueError(
+                "SVD initialisation does not work when rank is larger than the number of rows of X."
+                f" (rank:{self.rank}, number of rows: {I})"
+            )
         Y = np.zeros([I, I])
 
         for k in range(K):
-- 
2.43.0


From 6c78af53945c6e982097f1c866b2d4cab6d55168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:46 +0000
Subject: [PATCH 27/35] fix: import the sibling modules of
 base_tensor_decomposition from the package

---
 src/tenkit/base_tensor_decomposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/base_tensor_decomposition.py b/src/tenkit/base_tensor_decomposition.py
index 89bc5f7..fe2fb3f 100644
--- a/src/tenkit/base_tensor_decomposition.py
+++ b/src/tenkit/base_tensor_decomposition.py
@@ -1,6 +1,6 @@
 import numpy as np
-import base
-import utils
+from . import base
+from . import utils
 
 
 class BaseTensorDecomposition:
-- 
2.43.0


From 671fbb2bb5dc8f7db941ba7ace752dafd3708e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:46 +0000
Subject: [PATCH 28/35] fix: create test data without the removed base.ktensor

---
 src/tenkit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..896e87b 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -37,7 +37,7 @@ def create_random_factors(sizes, rank):
 
 def create_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
@@ -55,7 +55,7 @@ def create_random_uniform_factors(sizes, rank):
 
 def create_non_negative_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
-- 
2.43.0


From a728466dd4efdc49fed01105730148d785ee90bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:46 +0000
Subject: [PATCH 29/35] fix: call get_signs with the arguments it has in the
 sign fixing helpers

---
 src/tenkit/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 896e87b..c8a9a43 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -189,10 +189,10 @@ def get_signs(factor_matrix, X):
     return np.sign(sign_weight), sign_weight
     
 def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
-    fixed_evolving_factor = evolving_factor.copy()
+    fixed_evolving_factor = deepcopy(evolving_factor)
     fixed_evolve_over_factor = evolve_over_factor.copy()
     for k in range(len(evolving_factor)):
-        signs = get_signs(data_tensor[k], evolving_factor[k], data_driven=data_driven)[0]
+        signs = get_signs(evolving_factor[k], data_tensor[k].T if data_driven else None)[0]
         
         fixed_evolving_factor[k] *= signs
         fixed_evolve_over_factor[k] *= signs
@@ -201,7 +201,7 @@ def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, d
 
 def signfix_normal_factors(data_tensor, fixing_factors, flipping_factors, data_driven=True):
     unfolded_data_tensor = data_tensor.reshape(data_tensor.shape[0], -1)
-    signs = get_signs(unfolded_data_tensor, fixing_factors, data_driven)[0]
+    signs = get_signs(fixing_factors, unfolded_data_tensor if data_driven else None)[0]
     
     return fixing_factors*signs[np.newaxis], flipping_factors*signs[np.newaxis]
 
-- 
2.43.0


From 268a75dc9e44921a8eda8d7a7d45622ba9bf262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:46 +0000
Subject: [PATCH 30/35] fix: call the mode-wise factor match score of Kruskal
 tensors by its name

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 7a32fa7..f0922e5 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -217,7 +217,7 @@ class KruskalTensor(BaseDecomposedTensor):
                                           fms_reduction=fms_reduction)
     
     def seperate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
-        return metrics.seperate_mode_factor_match_score(self.factor_matrices,
+        return metrics.separate_mode_factor_match_score(self.factor_matrices,
                                                         decomposition.factor_matrices, 
                                                         fms_reduction=fms_reduction)
     def get_sign_scores(self, X):
-- 
2.43.0


From a3f6e97d1aadc780a5f46408776b0d8424640011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:46 +0000
Subject: [PATCH 31/35] fix: convert Kruskal tensors with the method that
 exists in the mode-wise factor match score

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f0922e5..5f4d920 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -471,7 +471,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
     def separate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
         if not isinstance(decomposition, EvolvingTensor):
-            decomposition = decomposition.to_evolving_tensor()
+            decomposition = EvolvingTensor.from_kruskaltensor(decomposition)
         return metrics.separate_mode_factor_match_score([self.A, self.B_unfolded, self.C],
                                                       [decomposition.A, decomposition.B_unfolded, decomposition.C], 
                                                        fms_reduction=fms_reduction)
-- 
2.43.0


From 6bed78558063b2d9ac1ed504958789d779e9f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:42 +0000
Subject: [PATCH 32/35] fix: compute the factor match score of PARAFAC2 tensors
 with slices of different widths

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 5f4d920..d110f77 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -687,8 +687,8 @@ class Parafac2Tensor(EvolvingTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        factors1 = [self.A, np.array(self.B).reshape(-1, self.rank), self.C]
-        factors2 = [decomposition.A, np.array(decomposition.B).reshape(-1, self.rank), decomposition.C]
+        factors1 = [self.A, self.B_unfolded, self.C]
+        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]
 
         return metrics.factor_match_score(factors1, 
                                           factors2, 
-- 
2.43.0


From 145e9e3d3fddc3c7ca1fbbed1a42b7e7555724b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:42 +0000
Subject: [PATCH 33/35] fix: count the weights of Kruskal tensors in their
 factor match score

---
 src/tenkit/decomposition/decompositions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index d110f77..4cf03b4 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -211,8 +211,9 @@ class KruskalTensor(BaseDecomposedTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        return metrics.factor_match_score(self.factor_matrices, 
-                                          decomposition.factor_matrices, 
+        return metrics.factor_match_score([self.weights*self.factor_matrices[0], *self.factor_matrices[1:]],
+                                          [decomposition.weights*decomposition.factor_matrices[0],
+                                           *decomposition.factor_matrices[1:]],
                                           weight_penalty=weight_penalty, 
                                           fms_reduction=fms_reduction)
     
-- 
2.43.0


From fd7fa9080377467bfe80d0298abd1adef70e1d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:47 +0000
Subject: [PATCH 34/35] fix: KruskalTensor.core_consistency ignored the weights

---
 src/tenkit/decomposition/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 4cf03b4..7fbf2d3 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -274,7 +274,8 @@ class KruskalTensor(BaseDecomposedTensor):
     def core_consistency(self, X, normalized=False):
         if len(self.factor_matrices) != 3:
             raise ValueError('Core consistency is only implemented for third order tensors')
-        return metrics.core_consistency(X, *self.factor_matrices, normalized=normalized)
+        return metrics.core_consistency(X, self.weights*self.factor_matrices[0], *self.factor_matrices[1:],
+                                        normalized=normalized)
         
 
 class EvolvingTensor(BaseDecomposedTensor):
-- 
2.43.0


From 4b69cd5589f1c05fac939eebc866ef6f790eca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:02 +0000
Subject: [PATCH 35/35] fix: go through checkpoints in order when their
 iterations have more than five digits

---
 src/tenkit/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index c8a9a43..4f0a600 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -218,7 +218,8 @@ def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
     return fixed_evolving_tensor
 
 def iter_checkpoints(h5_checkpoint_file):
-    for groupname in sorted(h5_checkpoint_file):
+    # Shorter names first, since the iteration of a checkpoint can have more than five digits
+    for groupname in sorted(h5_checkpoint_file, key=lambda name: (len(name), name)):
         if groupname.startswith('checkpoint'):
             yield h5_checkpoint_file[groupname]
     
\ No newline at end of file
-- 
2.43.0

