From a6323bedb872fa058fda3745832e93e6487e09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 01/37] fix: accept FurthestSum options when fitting KernelAA
 and MTDConvexCoding

start_index, n_extra_steps and exclude were forwarded to the initialisers of
the weights and lag parameters, which do not take them (TypeError).
---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 67f1750..9779f7c 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -136,7 +136,7 @@ def _initialize_kernel_aa(kernel, n_components, init='furthest_sum',
         kernel, n_components, init=init, random_state=rng, **kwargs)
 
     weights = _initialize_kernel_aa_weights(
-        kernel, n_components, init=init, random_state=rng, **kwargs)
+        kernel, n_components, init=init, random_state=rng)
 
     return dictionary, weights
 
@@ -704,7 +704,7 @@ class KernelAA():
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
                 kernel, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 84490e5..fdf4d98 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -581,7 +581,7 @@ class GPNHConvexCoding():
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
                 data, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 78d7d81..15d6a60 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -803,7 +803,7 @@ class MTDConvexCoding():
             else:
                 weights = _initialize_mtd_convex_coding_weights(
                     data, self.n_components, init=self.init,
-                    random_state=self.random_state, **kwargs)
+                    random_state=self.random_state)
 
             if not update_parameters:
                 _check_init_order_weights(order_weights, (n_lags,),
@@ -816,7 +816,7 @@ class MTDConvexCoding():
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
                         data, self.n_components, init=self.init, order=n_lags,
-                        random_state=self.random_state, **kwargs)
+                        random_state=self.random_state)
 
         self.X = data.copy()
         self.Gamma = weights.copy()
-- 
2.43.0


From cc97d5fea2765b3ec59b6ca4b59a25d5f9fd5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:15 +0000
Subject: [PATCH 02/37] fix: allow transform on models fitted from custom
 initial values

transform passes no weights, which the init='custom' path rejected; start the
weights from the default initialisation when only they are to be found.
---
 src/reor/archetypal_analysis.py | 5 +++--
 src/reor/gpnh_convex_coding.py  | 5 +++--
 src/reor/mtd_convex_coding.py   | 6 ++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 9779f7c..8027105 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -694,7 +694,7 @@ class KernelAA():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        if self.init == 'custom' and (update_dictionary or weights is not None):
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
@@ -703,7 +703,8 @@ class KernelAA():
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
-                kernel, self.n_components, init=self.init,
+                kernel, self.n_components,
+                init=None if self.init == 'custom' else self.init,
                 random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index fdf4d98..d3a7064 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -571,7 +571,7 @@ class GPNHConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        if self.init == 'custom' and (update_dictionary or weights is not None):
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -580,7 +580,8 @@ class GPNHConvexCoding():
             _check_init_dictionary(dictionary, (self.n_components, n_features),
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
-                data, self.n_components, init=self.init,
+                data, self.n_components,
+                init=None if self.init == 'custom' else self.init,
                 random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 15d6a60..c9f1e9b 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -777,7 +777,8 @@ class MTDConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        if self.init == 'custom' and (update_dictionary or update_parameters or
+                                      weights is not None):
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_mtd_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -802,7 +803,8 @@ class MTDConvexCoding():
                                     '_mtd_convex_coding (input weights)')
             else:
                 weights = _initialize_mtd_convex_coding_weights(
-                    data, self.n_components, init=self.init,
+                    data, self.n_components,
+                    init=None if self.init == 'custom' else self.init,
                     random_state=self.random_state)
 
             if not update_parameters:
-- 
2.43.0


From e8264102856cc88439f79cc11eb145e7f3a9bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 03/37] fix: warn when a fit stops at the iteration limit

The index of the last iteration was compared with max_iterations, which it
can never reach, so the warning was never issued.
---
 src/reor/archetypal_analysis.py | 2 +-
 src/reor/fembv.py               | 2 +-
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 8027105..b2f9d81 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -727,7 +727,7 @@ class KernelAA():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter + 1 == self.max_iterations and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1d42197..660035b 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -328,7 +328,7 @@ class FEMBV():
         cost, n_iter = self._iterate(update_parameters=update_parameters,
                                      update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter + 1 == self.max_iterations and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index d3a7064..f5d5cd9 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -604,7 +604,7 @@ class GPNHConvexCoding():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter + 1 == self.max_iterations and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index c9f1e9b..31fba6d 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -833,7 +833,7 @@ class MTDConvexCoding():
             update_weights=update_weights,
             update_parameters=update_parameters)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
+        if n_iter + 1 == self.max_iterations and self.tolerance > 0:
             warnings.warn('Maximum number of iterations %d reached.' %
                           self.max_iterations, UserWarning)
 
-- 
2.43.0


From afd648164f038ff59f29fde6f29d231a1d15782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 04/37] fix: convert integer input to floating point instead of
 truncating or rejecting it

---
 src/reor/_validation.py         |  8 ++++++++
 src/reor/archetypal_analysis.py | 15 +++++++++++----
 src/reor/fembv.py               |  7 +++++--
 src/reor/fembv_kmeans.py        |  4 ++--
 src/reor/fembv_varx.py          |  6 +++---
 src/reor/gpnh_convex_coding.py  | 11 +++++++----
 src/reor/mtd_convex_coding.py   | 15 +++++++++------
 src/reor/pwvarx.py              |  4 ++++
 8 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/reor/_validation.py b/src/reor/_validation.py
index f5f7177..e4125e8 100644
--- a/src/reor/_validation.py
+++ b/src/reor/_validation.py
@@ -20,3 +20,11 @@ def _check_array_shape(A, shape, whom):
         raise ValueError(
             'Array with wrong shape passed to %s. '
             'Expected %s, but got %s' % (whom, shape, A.shape))
+
+
+def _as_float_array(A):
+    """Return a floating-point copy of the given array."""
+    A = np.array(A, order='C')
+    if not np.issubdtype(A.dtype, np.floating):
+        A = A.astype('f8')
+    return A
diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index b2f9d81..88e69ee 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -18,7 +18,8 @@ from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -674,6 +675,8 @@ class KernelAA():
                    update_dictionary=True, update_weights=True, **kwargs):
         """Perform kernel archetypal analysis."""
 
+        kernel = _as_float_array(kernel)
+
         n_samples = kernel.shape[0]
 
         if kernel.shape[1] != n_samples:
@@ -717,9 +720,9 @@ class KernelAA():
                 kernel, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
 
-        self.K = kernel.copy()
-        self.S = weights.copy()
-        self.C = dictionary.copy()
+        self.K = kernel
+        self.S = _as_float_array(weights)
+        self.C = _as_float_array(dictionary)
 
         self._initialize_workspace()
 
@@ -932,6 +935,8 @@ class ArchetypalAnalysis(KernelAA):
         weights : array-like, shape (n_components, n_samples)
             Representation of the data.
         """
+        data = _as_float_array(data)
+
         if self.kernel_func is None:
             kernel = np.dot(data, data.T)
         else:
@@ -963,6 +968,8 @@ class ArchetypalAnalysis(KernelAA):
             Representation of the data.
         """
 
+        data = _as_float_array(data)
+
         if self.kernel_func is None:
             kernel = data.dot(data.T)
         else:
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 660035b..593ca03 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -15,7 +15,8 @@ import cvxpy as cp
 from sklearn.utils import check_array, check_random_state
 
 from reor._random_matrix import right_stochastic_matrix
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -174,7 +175,7 @@ class FEMBV():
         if init == 'custom' and weights is not None:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_initialize_weights (input weights)')
-            self.Gamma = weights.copy()
+            self.Gamma = _as_float_array(weights)
         else:
             self.Gamma = _initialize_fembv_weights(
                 n_samples, n_components=self.n_components, unused_init=init,
@@ -307,6 +308,8 @@ class FEMBV():
                    update_parameters=True, update_weights=True, **kwargs):
         """Calculate FEM-BV fit."""
 
+        data = _as_float_array(data)
+
         n_samples, n_features = data.shape
 
         if self.n_components is None:
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5c2f978..357a81b 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -8,7 +8,7 @@ import numpy as np
 from sklearn.utils import check_random_state
 from sklearn.utils.validation import check_array
 from reor.fembv import FEMBV
-from reor._validation import _check_array_shape
+from reor._validation import _as_float_array, _check_array_shape
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -155,7 +155,7 @@ class FEMBVKMeans(FEMBV):
                 parameters, shape=(self.n_components, n_features),
                 whom='_initialize_components (input parameters)')
 
-            self.Theta = parameters.copy()
+            self.Theta = _as_float_array(parameters)
         else:
             self.Theta = _initialize_fembv_kmeans_random(
                 self.X, self.n_components, random_state=self.random_state)
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index aa97aba..cbb8178 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -8,7 +8,7 @@ import numpy as np
 from sklearn.utils.validation import check_array
 
 from reor.fembv import FEMBV
-from reor._validation import _check_array_shape
+from reor._validation import _as_float_array
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -23,7 +23,7 @@ class FEMBVVARXLocalLinearModel():
 
         self.p = p
 
-        self._y = check_array(y)
+        self._y = _as_float_array(check_array(y))
 
         n_samples, n_features = self._y.shape
 
@@ -37,7 +37,7 @@ class FEMBVVARXLocalLinearModel():
             self.A = None
 
         if u is not None:
-            self._u = check_array(u)
+            self._u = _as_float_array(check_array(u))
 
             if self._u.shape[0] != n_samples:
                 raise ValueError(
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index f5d5cd9..e678a9a 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -16,7 +16,8 @@ from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -556,6 +557,8 @@ class GPNHConvexCoding():
                             **kwargs):
         """Calculate GPNH-regularized convex coding of dataset."""
 
+        data = _as_float_array(data)
+
         n_samples, n_features = data.shape
 
         if self.n_components is None:
@@ -594,9 +597,9 @@ class GPNHConvexCoding():
                 data, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
 
-        self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
+        self.X = data
+        self.Gamma = _as_float_array(weights)
+        self.S = _as_float_array(dictionary)
 
         self._initialize_workspace()
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 31fba6d..5089b36 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -18,7 +18,8 @@ from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_rows,
                                      simplex_project_vector)
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_as_float_array, _check_array_shape,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -761,6 +762,8 @@ class MTDConvexCoding():
                            update_parameters=True, **kwargs):
         """Calculate MTD-regularized convex coding of dataset."""
 
+        data = _as_float_array(data)
+
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
@@ -820,11 +823,11 @@ class MTDConvexCoding():
                         data, self.n_components, init=self.init, order=n_lags,
                         random_state=self.random_state)
 
-        self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
-        self.order_weights = order_weights.copy()
-        self.transition_matrices = transition_matrices.copy()
+        self.X = data
+        self.Gamma = _as_float_array(weights)
+        self.S = _as_float_array(dictionary)
+        self.order_weights = _as_float_array(order_weights)
+        self.transition_matrices = _as_float_array(transition_matrices)
 
         self._initialize_workspace()
 
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 91867f3..31ddcec 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -11,6 +11,8 @@ import numpy as np
 from sklearn.cluster import KMeans
 from sklearn.svm import SVC
 
+from reor._validation import _as_float_array
+
 
 class ClusterPWVARX():
     """Piecewise VARX model with clustering of phase space.
@@ -190,6 +192,8 @@ class ClusterPWVARX():
             Representation of the data.
         """
 
+        endog = _as_float_array(endog)
+
         if endog.ndim == 1:
             n_endog = 1
         else:
-- 
2.43.0


From f432244c57a7e550c8192b1d4ac79ac629b59071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 05/37] fix: avoid NaN FurthestSum dissimilarities for (nearly)
 coincident samples

---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 4 ++--
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 88e69ee..9602f75 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -72,10 +72,10 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index e678a9a..c4a0c2e 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -63,10 +63,10 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 5089b36..3e2c1cb 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -75,10 +75,10 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
-- 
2.43.0


From 193f3b9cac74dae8e3b91958c27be3bb132e25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 06/37] fix: handle out-of-range and duplicated FurthestSum
 indices

---
 src/reor/furthest_sum.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index 4b68d71..f15f18a 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -56,9 +56,9 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
         exclude = []
 
     n_samples = dissimilarity_matrix.shape[0]
-    n_excluded = len(exclude)
+    n_excluded = len({i for i in exclude if 0 <= i < n_samples})
 
-    if start_index >= n_samples:
+    if not 0 <= start_index < n_samples:
         raise ValueError('Start index %r is out of bounds (n_samples = %d)' %
                          (start_index, n_samples))
 
@@ -66,7 +66,7 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
         if index == start_index:
             raise ValueError('Start index %r is excluded' % start_index)
 
-    if n_excluded < n_samples and n_components > n_samples - n_excluded:
+    if n_components > n_samples - n_excluded:
         raise ValueError(
             'Too few point available to select requested number of components '
             '(n_components=%d, n_samples=%d, n_excluded=%d)' %
@@ -89,12 +89,10 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
 
         return is_valid
 
-    q = [None] * (n_samples - n_excluded - 1)
-    pos = 0
+    q = []
     for i in range(n_samples):
         if is_valid_candidate(i):
-            q[pos] = [i, dissimilarity_matrix[i, start_index]]
-            pos += 1
+            q.append([i, dissimilarity_matrix[i, start_index]])
 
     for i in range(1, n_components):
         selected[i] = _get_furthest_index(q)
-- 
2.43.0


From cfd7ea0b7d7a700d22c02bd048c8c8abea0429ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:04 +0000
Subject: [PATCH 07/37] fix: do not abort fits when the cost rises by rounding
 error only

---
 src/reor/_validation.py             |  6 ++++++
 src/reor/archetypal_analysis.py     | 11 ++++++++---
 src/reor/gpnh_convex_coding.py      | 22 +++++++++++++++++++---
 src/reor/gpnh_convex_coding_crom.py |  4 +++-
 src/reor/mtd_convex_coding.py       | 25 +++++++++++++++++++++----
 5 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/reor/_validation.py b/src/reor/_validation.py
index e4125e8..6216358 100644
--- a/src/reor/_validation.py
+++ b/src/reor/_validation.py
@@ -22,6 +22,12 @@ def _check_array_shape(A, shape, whom):
             'Expected %s, but got %s' % (whom, shape, A.shape))
 
 
+def _is_cost_increase(old_cost, new_cost, scale):
+    """Check for a cost increase exceeding the rounding error at given scale."""
+    scale = max(abs(scale), abs(old_cost))
+    return new_cost - old_cost > 1e3 * np.finfo('f8').eps * scale
+
+
 def _as_float_array(A):
     """Return a floating-point copy of the given array."""
     A = np.array(A, order='C')
diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 9602f75..871d7ec 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -19,7 +19,7 @@ from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
 from reor._validation import (_as_float_array, _check_array_shape,
-                              _check_unit_axis_sums)
+                              _check_unit_axis_sums, _is_cost_increase)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -636,6 +636,9 @@ class KernelAA():
         old_cost = self._evaluate_cost()
         new_cost = old_cost
 
+        cost_scale = (self.S.shape[0] * np.abs(self.K).max() *
+                      (1 + self.delta) ** 2)
+
         for n_iter in range(self.max_iterations):
             start_time = time.perf_counter()
 
@@ -644,14 +647,16 @@ class KernelAA():
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        _is_cost_increase(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        _is_cost_increase(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index c4a0c2e..3a51650 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -17,7 +17,7 @@ from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
 from reor._validation import (_as_float_array, _check_array_shape,
-                              _check_unit_axis_sums)
+                              _check_unit_axis_sums, _is_cost_increase)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -321,6 +321,19 @@ class GPNHConvexCoding():
         return (self._evaluate_loss_function() +
                 self._evaluate_dictionary_penalty())
 
+    def _evaluate_cost_scale(self):
+        """Evaluate magnitude of the terms summed in the cost function."""
+
+        n_samples, n_features = self.X.shape
+
+        scale = self.trace_XtX / n_samples + self.SSt.trace()
+
+        if self.n_components > 1:
+            scale += (2.0 * self.epsilon_states * self.SSt.trace() /
+                      (self.n_components - 1.0))
+
+        return scale / n_features
+
     def _dictionary_penalty_gradient(self):
         """Evaluate gradient of dictionary penalty."""
 
@@ -521,18 +534,21 @@ class GPNHConvexCoding():
             start_time = time.perf_counter()
 
             old_cost = new_cost
+            cost_scale = self._evaluate_cost_scale()
 
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        _is_cost_increase(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        _is_cost_increase(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index f4fde05..99fc3ba 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -12,6 +12,7 @@ from reor._random_matrix import left_stochastic_matrix
 from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
+from reor._validation import _is_cost_increase
 
 
 class GPNHConvexCodingCROM(GPNHConvexCoding):
@@ -306,7 +307,8 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
             self._update_parameters()
             new_cost = self._evaluate_fit_residual()
-            if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+            if (self.require_monotonic_cost_decrease and
+                    _is_cost_increase(old_cost, new_cost, 1)):
                 raise RuntimeError(
                     'factorization cost increased after parameters update')
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 3e2c1cb..42b9d02 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -19,7 +19,7 @@ from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
 from reor._validation import (_as_float_array, _check_array_shape,
-                              _check_unit_axis_sums)
+                              _check_unit_axis_sums, _is_cost_increase)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -380,6 +380,19 @@ class MTDConvexCoding():
                 self._evaluate_dictionary_penalty() +
                 self._evaluate_weights_penalty())
 
+    def _evaluate_cost_scale(self):
+        """Evaluate magnitude of the terms summed in the cost function."""
+
+        n_samples, n_features = self.X.shape
+
+        scale = self.trace_XtX / n_samples + self.SSt.trace()
+
+        if self.n_components > 1:
+            scale += (2.0 * self.epsilon_states * self.SSt.trace() /
+                      (self.n_components - 1.0))
+
+        return scale / n_features + self.epsilon_weights
+
     def _dictionary_penalty_gradient(self):
         """Evaluate gradient of dictionary penalty."""
 
@@ -718,25 +731,29 @@ class MTDConvexCoding():
             start_time = time.perf_counter()
 
             old_cost = new_cost
+            cost_scale = self._evaluate_cost_scale()
 
             if update_dictionary:
                 self._update_dictionary()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        _is_cost_increase(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after dictionary update')
 
             if update_weights:
                 self._update_weights()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        _is_cost_increase(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after weights update')
 
             if update_parameters:
                 self._update_parameters()
                 new_cost = self._evaluate_cost()
-                if (new_cost > old_cost) and self.require_monotonic_cost_decrease:
+                if (self.require_monotonic_cost_decrease and
+                        _is_cost_increase(old_cost, new_cost, cost_scale)):
                     raise RuntimeError(
                         'factorization cost increased after parameters update')
 
-- 
2.43.0


From fc8a424d0cafb8b42b2c8f1e6af140c1e9a04838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 08/37] fix: optimise the archetype scale factors when delta is
 non-zero

---
 src/reor/archetypal_analysis.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 871d7ec..e002389 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -237,7 +237,7 @@ class KernelAA():
         self.K = None
         self.S = None
         self.C = None
-        self.alpha = np.ones(n_components, dtype='f8')
+        self.alpha = None
 
         self.trace_K = 0.0
         self.CK = None
@@ -512,7 +512,7 @@ class KernelAA():
         current_cost = (self.trace_K - 2 * self.CKS.dot(diag_alpha).trace() +
                         self.StS.dot(CKCt_tmp).trace())
 
-        diag_alpha_old = diag_alpha.copy()
+        self.alpha_old = self.alpha.copy()
 
         self.f_alpha_mem.popleft()
         self.f_alpha_mem.append(current_cost)
@@ -525,7 +525,8 @@ class KernelAA():
         incr_norm = (self.incr_alpha * self.grad_alpha).sum()
         step_size = 1
 
-        diag_alpha = diag_alpha_old + self.incr_alpha
+        self.alpha = self.alpha_old + self.incr_alpha
+        diag_alpha = np.diag(self.alpha)
 
         CKCt_tmp = self.CKCt.dot(diag_alpha)
         CKCt_tmp = diag_alpha.dot(CKCt_tmp)
@@ -541,7 +542,8 @@ class KernelAA():
                 sigma_one=self.line_search_sigma_one,
                 sigma_two=self.line_search_sigma_two)
 
-            diag_alpha = diag_alpha_old + step_size * self.incr_alpha
+            self.alpha = self.alpha_old + step_size * self.incr_alpha
+            diag_alpha = np.diag(self.alpha)
 
             CKCt_tmp = self.CKCt.dot(diag_alpha)
             CKCt_tmp = diag_alpha.dot(CKCt_tmp)
@@ -597,10 +599,10 @@ class KernelAA():
 
             self._update_scale_factors_gradient()
 
-            self.incr_alpha = diag_alpha - self.alpha_alpha * self.grad_alpha
-            self.incr_alpha = np.fmin(self.incr_alpha, 1 - self.delta)
-            self.incr_alpha = np.fmax(self.incr_alpha, 1 + self.delta)
-            self.incr_alpha -= diag_alpha
+            self.incr_alpha = self.alpha - self.alpha_alpha * self.grad_alpha
+            self.incr_alpha = np.fmax(self.incr_alpha, 1 - self.delta)
+            self.incr_alpha = np.fmin(self.incr_alpha, 1 + self.delta)
+            self.incr_alpha -= self.alpha
 
             scales_error, step_size = self._scale_factors_line_search()
 
@@ -677,7 +679,8 @@ class KernelAA():
         return new_cost, n_iter
 
     def _kernel_aa(self, kernel, dictionary=None, weights=None,
-                   update_dictionary=True, update_weights=True, **kwargs):
+                   update_dictionary=True, update_weights=True,
+                   scale_factors=None, **kwargs):
         """Perform kernel archetypal analysis."""
 
         kernel = _as_float_array(kernel)
@@ -731,6 +734,9 @@ class KernelAA():
 
         self._initialize_workspace()
 
+        if scale_factors is not None:
+            self.alpha = scale_factors
+
         cost, n_iter = self._iterate(
             update_dictionary=update_dictionary,
             update_weights=update_weights)
@@ -807,7 +813,8 @@ class KernelAA():
         self._kernel_aa(
             kernel=kernel,
             dictionary=self.C,
-            update_dictionary=False, update_weights=True)
+            update_dictionary=False, update_weights=True,
+            scale_factors=self.alpha)
 
         return self.S
 
@@ -981,6 +988,7 @@ class ArchetypalAnalysis(KernelAA):
             kernel = self.kernel_func(data)
 
         self._kernel_aa(kernel=kernel, dictionary=self.C,
-                        update_dictionary=False, update_weights=True)
+                        update_dictionary=False, update_weights=True,
+                        scale_factors=self.alpha)
 
         return self.S
-- 
2.43.0


From 571beb9bf043a86bd4c893419daf67f9baaee2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 09/37] fix: honour the init setting of FEM-BV models

---
 src/reor/fembv.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 593ca03..b9d9900 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -21,6 +21,8 @@ from reor._validation import (_as_float_array, _check_array_shape,
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
+INITIALIZATION_METHODS = (None, 'random', 'custom')
+
 
 def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
@@ -325,6 +327,14 @@ class FEMBV():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if init is None:
+            init = self.init
+
+        if init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (init, INITIALIZATION_METHODS))
+
         self._initialize(data, parameters=parameters, weights=weights,
                          init=init, **kwargs)
 
-- 
2.43.0


From 59ab3e5ac318676d2fa363a093ad2e01e08d361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 10/37] fix: assign data to the fitted components in FEM-BV
 transform

---
 src/reor/fembv.py        | 14 +++++--
 src/reor/fembv_kmeans.py |  4 ++
 src/reor/fembv_varx.py   | 81 ++++++++++++++++++++++++++++++++++------
 3 files changed, 84 insertions(+), 15 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index b9d9900..40aad6f 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -192,6 +192,10 @@ class FEMBV():
         """Generate initial guess for component parameters."""
         raise NotImplementedError()
 
+    def _get_fitted_parameters(self):
+        """Return fitted component parameters, or None if not available."""
+        return None
+
     def _initialize(self, data, parameters=None, weights=None, init=None,
                     **kwargs):
         """Generate initial guess for parameters and weights."""
@@ -393,7 +397,7 @@ class FEMBV():
         self.fit_transform(data, **kwargs)
         return self
 
-    def transform(self, data):
+    def transform(self, data, **kwargs):
         """Transform data according to the fitted factorization.
 
         Parameters
@@ -407,7 +411,11 @@ class FEMBV():
             Representation of the data.
         """
 
-        self._fembv_fit(data=data, update_parameters=False,
-                        update_weights=True)
+        parameters = self._get_fitted_parameters()
+
+        self._fembv_fit(data=data, parameters=parameters,
+                        init=None if parameters is None else 'custom',
+                        update_parameters=False, update_weights=True,
+                        **kwargs)
 
         return self.Gamma
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 357a81b..366388e 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -162,6 +162,10 @@ class FEMBVKMeans(FEMBV):
 
         self._evaluate_distance_matrix()
 
+    def _get_fitted_parameters(self):
+        """Return fitted centroids."""
+        return self.Theta
+
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index cbb8178..b6db583 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -8,7 +8,7 @@ import numpy as np
 from sklearn.utils.validation import check_array
 
 from reor.fembv import FEMBV
-from reor._validation import _as_float_array
+from reor._validation import _as_float_array, _check_array_shape
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -89,6 +89,27 @@ class FEMBVVARXLocalLinearModel():
 
         self.residuals = np.zeros_like(self._y)
 
+    def set_parameters(self, mu, A=None, B0=None):
+        """Set intercept and coefficients, and update residuals to match."""
+
+        presample_length = max(self.p, self.s)
+
+        self.mu = np.array(mu, dtype=self._y.dtype)
+        predicted = self.mu + np.zeros_like(self._y[presample_length:])
+
+        if self.p > 0:
+            self.A = np.array(A[:self.p], dtype=self._y.dtype)
+            for i in range(1, self.p + 1):
+                predicted += np.dot(self._y[presample_length - i:-i],
+                                    self.A[i - 1].T)
+
+        if self._u is not None:
+            self.B0 = np.array(B0, dtype=self._y.dtype)
+            predicted += np.dot(self._u[presample_length:], self.B0.T)
+
+        self.residuals[presample_length:] = (
+            self._y[presample_length:] - predicted)
+
     def fit(self, weights=None):
         n_samples, n_features = self._y.shape
 
@@ -326,6 +347,8 @@ class FEMBVVARX(FEMBV):
         if self.u is not None:
             self.B0 = np.zeros((self.n_components, n_features, n_external),
                                dtype=self.X.dtype)
+        else:
+            self.B0 = None
 
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
@@ -333,10 +356,32 @@ class FEMBVVARX(FEMBV):
             u=self.u, s=0)
             for i in range(self.n_components)]
 
-        # Initialize models by performing unweighted fits to
-        # given data
-        for i in range(self.n_components):
-            self.models[i].fit()
+        if init == 'custom' and parameters is not None:
+            for key, current in (('mu', self.mu), ('A', self.A),
+                                 ('B0', self.B0)):
+                values = parameters.get(key, None)
+                if current is None and values is None:
+                    continue
+                if current is None or values is None:
+                    raise ValueError(
+                        'Initial values for %s do not match model' % key)
+                _check_array_shape(np.asarray(values), current.shape,
+                                   '_initialize_components (input %s)' % key)
+                current[:] = values
+
+            for i in range(self.n_components):
+                if self.memory[i] < presample_length:
+                    self.A[i, self.memory[i]:] = 0
+                self.models[i].set_parameters(
+                    self.mu[i],
+                    A=self.A[i] if presample_length > 0 else None,
+                    B0=self.B0[i] if self.u is not None else None)
+        else:
+            # Initialize models by performing unweighted fits to
+            # given data
+            for i in range(self.n_components):
+                self.models[i].fit()
+                self._store_model_parameters(i)
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
@@ -344,6 +389,24 @@ class FEMBVVARX(FEMBV):
 
         self._evaluate_distance_matrix()
 
+    def _store_model_parameters(self, i):
+        """Store parameters of the given local model."""
+
+        self.mu[i] = self.models[i].mu
+
+        if self.memory[i] > 0:
+            self.A[i, :self.memory[i]] = self.models[i].A
+
+        if self.u is not None:
+            self.B0[i] = self.models[i].B0
+
+    def _get_fitted_parameters(self):
+        """Return fitted intercepts and coefficients."""
+        if self.models is None:
+            return None
+
+        return {'mu': self.mu, 'A': self.A, 'B0': self.B0}
+
     def _update_parameters(self):
         """Update component parameters."""
 
@@ -358,11 +421,5 @@ class FEMBVVARX(FEMBV):
             weights[self.memory[i]:] = self.Gamma[:, i]
 
             self.models[i].fit(weights=weights)
+            self._store_model_parameters(i)
 
-            self.mu[i] = self.models[i].mu
-
-            if self.memory[i] > 0:
-                self.A[i, :self.memory[i]] = self.models[i].A
-
-            if self.u is not None:
-                self.B0[i] = self.models[i].B0
-- 
2.43.0


From b9f349b47678cfc0976e2d3e19d1b47afafa7470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 11/37] fix: keep centroids of FEM-BV k-means components
 without affiliated samples

---
 src/reor/fembv_kmeans.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 366388e..d92450e 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -169,8 +169,14 @@ class FEMBVKMeans(FEMBV):
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
-        self.Theta = np.dot(self.Gamma.T, self.X)
         normalizations = np.sum(self.Gamma, axis=0)
-        self.Theta = self.Theta / normalizations[:, np.newaxis]
+
+        # Components without any affiliated samples keep their centroids
+        nonempty = normalizations > 0
+
+        Theta = self.Theta.copy()
+        Theta[nonempty] = (np.dot(self.Gamma.T[nonempty], self.X) /
+                           normalizations[nonempty, np.newaxis])
+        self.Theta = Theta
 
         self._evaluate_distance_matrix()
-- 
2.43.0


From 5c5024f77ceb774c33179df8e9af63373c104cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 12/37] fix: do not invert the residual covariance of perfectly
 predicted VARX data

---
 src/reor/fembv_varx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index b6db583..b83a83e 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -167,8 +167,9 @@ class FEMBVVARXLocalLinearModel():
             self.Sigma_u = np.dot(weighted_residuals.T,
                                   weighted_residuals) / df
 
-        self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
-
+    @property
+    def Sigma_u_inv(self):
+        return np.linalg.inv(self.Sigma_u)
 
 
 class FEMBVVARX(FEMBV):
@@ -308,7 +309,7 @@ class FEMBVVARX(FEMBV):
     def _evaluate_distance_matrix(self):
         presample_length = np.max(self.memory)
         for i in range(self.n_components):
-            metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
+            metric = np.eye(self.X.shape[1])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
                 self.models[i].residuals[presample_length:],
-- 
2.43.0


From 68e60ad32cfec4afd80d36c52cf3608d2dad84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 13/37] fix: align FEM-BV-VARX components with different
 memories

---
 src/reor/fembv_varx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index b83a83e..166a195 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -312,9 +312,9 @@ class FEMBVVARX(FEMBV):
             metric = np.eye(self.X.shape[1])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
-                self.models[i].residuals[presample_length:],
+                self.models[i].residuals[self.memory[i]:],
                 metric,
-                self.models[i].residuals[presample_length:])
+                self.models[i].residuals[self.memory[i]:])
 
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
@@ -354,7 +354,8 @@ class FEMBVVARX(FEMBV):
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
-            u=self.u, s=0)
+            u=(None if self.u is None else
+               self.u[presample_length - self.memory[i]:]), s=0)
             for i in range(self.n_components)]
 
         if init == 'custom' and parameters is not None:
-- 
2.43.0


From 495f9bcf289c7675824f40668db9e4d6ab91256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 14/37] fix: accept n_components=None and validate memory in
 FEMBVVARX

---
 src/reor/fembv_varx.py | 51 +++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 166a195..bace3ba 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -278,24 +278,36 @@ class FEMBVVARX(FEMBV):
                          random_state=random_state, **kwargs)
 
         if memory is None:
-            self.memory = np.full((n_components,), 0, dtype='i8')
-        else:
-            if isinstance(memory, INTEGER_TYPES):
-                if memory < 0:
+            memory = 0
+
+        if isinstance(memory, INTEGER_TYPES):
+            if memory < 0:
+                raise ValueError(
+                    'Maximum memory must be a non-negative integer;'
+                    ' got (memory=%d)' % memory)
+
+            # A common memory applies to all components, the number of
+            # which may only be known once fitting
+            self.memory = np.asarray(memory, dtype='i8')
+        elif isinstance(memory, (list, tuple)):
+            for value in memory:
+                if not isinstance(value, INTEGER_TYPES) or value < 0:
                     raise ValueError(
                         'Maximum memory must be a non-negative integer;'
-                        ' got (memory=%d)' % memory)
-
-                self.memory = np.full((n_components,), memory, dtype='i8')
-            elif isinstance(memory, (list, tuple)):
-                self.memory = np.asarray(memory, dtype='i8')
-                if self.memory.shape != (n_components,):
-                    raise ValueError('Memory must be a 1-dimensional array; '
-                                     'got shape %r' % list(self.memory.shape))
-            else:
-                raise ValueError(
-                    'Memory must be a non-negative integer or tuple; '
-                    ' got %r' % type(memory))
+                        ' got (memory=%r)' % value)
+
+            self.memory = np.asarray(memory, dtype='i8')
+            if n_components is not None and self.memory.shape != (n_components,):
+                raise ValueError('Memory must be a 1-dimensional array; '
+                                 'got shape %r' % list(self.memory.shape))
+        else:
+            raise ValueError(
+                'Memory must be a non-negative integer or tuple; '
+                ' got %r' % type(memory))
+
+        if (isinstance(n_components, INTEGER_TYPES) and n_components > 0 and
+                self.memory.ndim == 0):
+            self.memory = np.full((n_components,), memory, dtype='i8')
 
         self.name = 'FEM-BV-VARX'
         self.X = None
@@ -328,6 +340,13 @@ class FEMBVVARX(FEMBV):
 
         n_samples, n_features = self.X.shape
 
+        if self.memory.ndim == 0:
+            self.memory = np.full((self.n_components,), self.memory,
+                                  dtype='i8')
+
+        _check_array_shape(self.memory, (self.n_components,),
+                           '_initialize_components (memory)')
+
         if self.u is not None:
             n_external = self.u.shape[1]
             if self.u.shape[0] != n_samples:
-- 
2.43.0


From c444d72ea9ea9105ef0bbf0b283917e6f257c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 15/37] fix: accept lists of lags and default component numbers
 in GPNHConvexCodingCROM

---
 src/reor/gpnh_convex_coding_crom.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 99fc3ba..546cd84 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -7,7 +7,7 @@ from collections import deque
 import time
 import numpy as np
 
-from reor.gpnh_convex_coding import GPNHConvexCoding
+from reor.gpnh_convex_coding import INTEGER_TYPES, GPNHConvexCoding
 from reor._random_matrix import left_stochastic_matrix
 from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
@@ -75,15 +75,18 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
     def __init__(self, n_components, lags=None, **kwargs):
         super().__init__(n_components, **kwargs)
 
-        if lags is None:
-            self.lags = np.array([1], dtype='i8')
+        if lags is not None:
+            for lag in lags:
+                if not isinstance(lag, INTEGER_TYPES) or lag < 1:
+                    raise ValueError('Lag must be a positive integer; '
+                                     'got (lag=%r)' % lag)
+            self.lags = np.array(lags, dtype='i8')
         else:
-            self.lags = lags
+            self.lags = np.array([1], dtype='i8')
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-        self.transition_matrices = np.empty(
-            (n_lags, n_components, n_components), dtype='f8')
+        self.transition_matrices = None
         self.Z = None
 
         self.order_weights_old = None
-- 
2.43.0


From 44345151f4a80610acff7f156293e324f4b093be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 16/37] fix: fit lag models to data no longer than the largest
 lag

---
 src/reor/gpnh_convex_coding_crom.py | 4 ++--
 src/reor/mtd_convex_coding.py       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 546cd84..209fbcb 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -152,7 +152,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
 
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         value += np.linalg.norm(self.Gamma[max_lag:] - self.Z[max_lag:]) ** 2
 
@@ -163,7 +163,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
         max_lag = self.lags.max()
         n_samples = self.X.shape[0]
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         residual = self.Gamma[max_lag:] - self.Z[max_lag:]
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 42b9d02..fd9745b 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -357,7 +357,7 @@ class MTDConvexCoding():
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
 
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         value += np.linalg.norm(self.Gamma[max_lag:] - self.Z[max_lag:]) ** 2
 
@@ -498,7 +498,7 @@ class MTDConvexCoding():
 
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         residual = self.Gamma - self.Z
         for i, lag in enumerate(self.lags):
@@ -599,7 +599,7 @@ class MTDConvexCoding():
 
         max_lag = self.lags.max()
         n_samples = self.X.shape[0]
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         residual = self.Gamma[max_lag:] - self.Z[max_lag:]
 
-- 
2.43.0


From 522c78f00006ebdb833614308d100af82906b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 17/37] fix: make the k-means Markov CROM usable for
 fit_predict, predict and absorbing clusters

---
 src/reor/crom.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 38dac8b..8606ef7 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -38,6 +38,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Fitted Markov transition matrix.
     """
 
+    if n_clusters is None:
+        n_clusters = 2
+
     kmeans = KMeans(n_clusters=n_clusters, **kwargs).fit(
         X, sample_weight=sample_weight)
 
@@ -55,7 +58,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
             Tk = np.array(labels == k, dtype='i8')
             n_jk = (Tj[1:] * Tk[:-1]).sum()
             n_k = Tk[:-1].sum()
-            transition_matrix[j, k] = n_jk / n_k
+            # Use a uniform distribution if no transitions are observed
+            transition_matrix[j, k] = (
+                n_jk / n_k if n_k > 0 else 1.0 / n_clusters)
 
     return kmeans, transition_matrix
 
@@ -150,7 +155,7 @@ class KMeansMarkovCROM():
             Array of labels for each sample
         """
 
-        return self.kmeans_.fit_predict(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).labels_
 
     def fit_transform(self, X, sample_weight=None):
         """Perform model reduction and transform data to cluster-distance space.
@@ -170,7 +175,7 @@ class KMeansMarkovCROM():
             Array of distances of each sample to the cluster centroids.
         """
 
-        return self.kmeans_.fit_transform(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).transform(X)
 
     def predict(self, X, sample_weight=None, horizon=0):
         """Predict cluster assignment of each sample for the given horizon.
@@ -202,9 +207,9 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
-        initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
+        initial_labels = self.kmeans_.predict(X)
 
-        n_clusters = self.n_clusters
+        n_clusters = self.transition_matrix_.shape[0]
         n_samples = initial_labels.size
 
         labels = np.zeros((n_samples, n_clusters), dtype='f8')
-- 
2.43.0


From 734702cfcf7344e58e8b347ebabfa15e4670f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 18/37] fix: accept single-column endogenous data in
 ClusterPWVARX

---
 src/reor/pwvarx.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 31ddcec..a8e64b4 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -194,14 +194,9 @@ class ClusterPWVARX():
 
         endog = _as_float_array(endog)
 
-        if endog.ndim == 1:
-            n_endog = 1
-        else:
-            n_endog = endog.shape[1]
-
         presample_length = max(self.p, self.s)
 
-        if n_endog == 1:
+        if endog.ndim == 1:
             y = np.expand_dims(endog[presample_length:], -1)
         else:
             y = endog[presample_length:]
-- 
2.43.0


From 6a3ef5cd06b9d9f9cade218c8472a7d134fd5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 19/37] fix: honour random_state and single-regime fits in
 ClusterPWVARX

---
 src/reor/pwvarx.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index a8e64b4..12a70d2 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 import numpy as np
 
 from sklearn.cluster import KMeans
+from sklearn.dummy import DummyClassifier
 from sklearn.svm import SVC
 
 from reor._validation import _as_float_array
@@ -55,6 +56,10 @@ class ClusterPWVARX():
         self.include_trend = include_trend
         self.clusterer = clusterer
         self.classifier = classifier
+        self.random_state = kwargs.get('random_state', None)
+
+        self._use_default_clusterer = clusterer is None
+        self._use_default_classifier = classifier is None
 
         self.mu = None
         self.A = None
@@ -104,8 +109,9 @@ class ClusterPWVARX():
 
         z = np.hstack([x, y])
 
-        if self.clusterer is None:
-            self.clusterer = KMeans(n_clusters=self.n_components)
+        if self._use_default_clusterer:
+            self.clusterer = KMeans(n_clusters=self.n_components,
+                                    random_state=self.random_state)
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
 
@@ -205,8 +211,12 @@ class ClusterPWVARX():
 
         self._cluster(y, x)
 
-        if self.classifier is None:
-            self.classifier = SVC()
+        if self._use_default_classifier:
+            if np.unique(self.cluster_labels_).size > 1:
+                self.classifier = SVC()
+            else:
+                # Nothing to discriminate between
+                self.classifier = DummyClassifier()
 
         self.classifier.fit(x, self.cluster_labels_)
         labels = self.classifier.predict(x)
-- 
2.43.0


From ff171846d5a92a479e5357d9c7cfde6eb33d60ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:24 +0000
Subject: [PATCH 20/37] fix: validate ClusterPWVARX settings and accept default
 component number

---
 src/reor/pwvarx.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 12a70d2..90e8f1a 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -6,6 +6,7 @@ Provides routines for fitting piecewise VARX models.
 from __future__ import division
 
 from copy import deepcopy
+import numbers
 import numpy as np
 
 from sklearn.cluster import KMeans
@@ -15,6 +16,9 @@ from sklearn.svm import SVC
 from reor._validation import _as_float_array
 
 
+INTEGER_TYPES = (numbers.Integral, np.integer)
+
+
 class ClusterPWVARX():
     """Piecewise VARX model with clustering of phase space.
 
@@ -78,6 +82,13 @@ class ClusterPWVARX():
             n_endog = endog.shape[1]
 
         if exog is not None:
+            exog = np.asarray(exog)
+
+            if exog.shape[0] != n_samples:
+                raise ValueError(
+                    'Number of exogeneous factor samples does not match '
+                    'number of endogeneous samples')
+
             if exog.ndim == 1:
                 n_exog = 1
                 exog = np.expand_dims(exog, -1)
@@ -134,6 +145,7 @@ class ClusterPWVARX():
             self.B = np.zeros((self.n_components, self.s, n_endog, n_exog))
         else:
             n_exog = 0
+            self.B = None
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
         self.residuals = np.zeros_like(y)
@@ -200,6 +212,19 @@ class ClusterPWVARX():
 
         endog = _as_float_array(endog)
 
+        if self.n_components is None:
+            self.n_components = 1 if endog.ndim == 1 else endog.shape[1]
+
+        if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
+            raise ValueError('Number of components must be a positive integer;'
+                             ' got (n_components=%r)' % self.n_components)
+        if not isinstance(self.p, INTEGER_TYPES) or self.p < 0:
+            raise ValueError('VAR order must be a non-negative integer;'
+                             ' got (p=%r)' % self.p)
+        if not isinstance(self.s, INTEGER_TYPES) or self.s < 0:
+            raise ValueError('Exogeneous VAR order must be a non-negative '
+                             'integer; got (s=%r)' % self.s)
+
         presample_length = max(self.p, self.s)
 
         if endog.ndim == 1:
@@ -255,6 +280,6 @@ class ClusterPWVARX():
             Labels of the given data.
         """
 
-        x = self._stack_predictors(endog, exog=exog)
+        x = self._stack_predictors(np.asarray(endog), exog=exog)
 
         return self.classifier.predict(x)
-- 
2.43.0


From b4ab4b8a01b1637f9a55ab881a4d7f4c91f514f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 21/37] fix: infer the default component number anew for every
 fit

---
 src/reor/archetypal_analysis.py |  3 ++-
 src/reor/fembv.py               |  3 ++-
 src/reor/fembv_varx.py          | 15 +++++++++------
 src/reor/gpnh_convex_coding.py  |  3 ++-
 src/reor/mtd_convex_coding.py   |  3 ++-
 src/reor/pwvarx.py              |  3 ++-
 6 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index e002389..048bfcd 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -218,6 +218,7 @@ class KernelAA():
 
     def __init__(self, n_components, **kwargs):
         self.n_components = n_components
+        self._infer_n_components = n_components is None
         self.delta = kwargs.get('delta', 0.0)
         self.init = kwargs.get('init', None)
         self.tolerance = kwargs.get('tolerance', 1e-4)
@@ -692,7 +693,7 @@ class KernelAA():
                 'Expected square kernel matrix in %s. '
                 'Got shape %s' % ('kernel_aa', kernel.shape))
 
-        if self.n_components is None:
+        if self._infer_n_components:
             self.n_components = n_samples
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 40aad6f..053e3ea 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -49,6 +49,7 @@ class FEMBV():
                  max_iterations=500,
                  tolerance=1e-4, verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
+        self._infer_n_components = n_components is None
         self.max_tv_norm = max_tv_norm
         self.init = init
         self.max_iterations = max_iterations
@@ -318,7 +319,7 @@ class FEMBV():
 
         n_samples, n_features = data.shape
 
-        if self.n_components is None:
+        if self._infer_n_components:
             self.n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index bace3ba..5a9b99e 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -288,7 +288,7 @@ class FEMBVVARX(FEMBV):
 
             # A common memory applies to all components, the number of
             # which may only be known once fitting
-            self.memory = np.asarray(memory, dtype='i8')
+            self._common_memory = memory
         elif isinstance(memory, (list, tuple)):
             for value in memory:
                 if not isinstance(value, INTEGER_TYPES) or value < 0:
@@ -296,6 +296,7 @@ class FEMBVVARX(FEMBV):
                         'Maximum memory must be a non-negative integer;'
                         ' got (memory=%r)' % value)
 
+            self._common_memory = None
             self.memory = np.asarray(memory, dtype='i8')
             if n_components is not None and self.memory.shape != (n_components,):
                 raise ValueError('Memory must be a 1-dimensional array; '
@@ -305,9 +306,11 @@ class FEMBVVARX(FEMBV):
                 'Memory must be a non-negative integer or tuple; '
                 ' got %r' % type(memory))
 
-        if (isinstance(n_components, INTEGER_TYPES) and n_components > 0 and
-                self.memory.ndim == 0):
-            self.memory = np.full((n_components,), memory, dtype='i8')
+        if self._common_memory is not None:
+            if isinstance(n_components, INTEGER_TYPES) and n_components > 0:
+                self.memory = np.full((n_components,), memory, dtype='i8')
+            else:
+                self.memory = None
 
         self.name = 'FEM-BV-VARX'
         self.X = None
@@ -340,8 +343,8 @@ class FEMBVVARX(FEMBV):
 
         n_samples, n_features = self.X.shape
 
-        if self.memory.ndim == 0:
-            self.memory = np.full((self.n_components,), self.memory,
+        if self._common_memory is not None:
+            self.memory = np.full((self.n_components,), self._common_memory,
                                   dtype='i8')
 
         _check_array_shape(self.memory, (self.n_components,),
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 3a51650..b4400a2 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -218,6 +218,7 @@ class GPNHConvexCoding():
                  tolerance=1e-6, max_iterations=1000,
                  verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
+        self._infer_n_components = n_components is None
         self.epsilon_states = epsilon_states
         self.init = init
         self.tolerance = tolerance
@@ -577,7 +578,7 @@ class GPNHConvexCoding():
 
         n_samples, n_features = data.shape
 
-        if self.n_components is None:
+        if self._infer_n_components:
             self.n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index fd9745b..9fb4575 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -196,6 +196,7 @@ class MTDConvexCoding():
                  verbose=0, random_state=None, **kwargs):
 
         self.n_components = n_components
+        self._infer_n_components = n_components is None
 
         if lags is not None:
             for lag in lags:
@@ -784,7 +785,7 @@ class MTDConvexCoding():
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
-        if self.n_components is None:
+        if self._infer_n_components:
             self.n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 90e8f1a..e99e71a 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -55,6 +55,7 @@ class ClusterPWVARX():
                  clusterer=None, classifier=None, **kwargs):
 
         self.n_components = n_components
+        self._infer_n_components = n_components is None
         self.p = p
         self.s = s
         self.include_trend = include_trend
@@ -212,7 +213,7 @@ class ClusterPWVARX():
 
         endog = _as_float_array(endog)
 
-        if self.n_components is None:
+        if self._infer_n_components:
             self.n_components = 1 if endog.ndim == 1 else endog.shape[1]
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
-- 
2.43.0


From 583f0a0dbd1fc559a0ba1fecb13925a51eeb92c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 22/37] fix: project vectors of any magnitude onto the simplex

---
 src/reor/simplex_projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reor/simplex_projection.py b/src/reor/simplex_projection.py
index 3d69c12..fa37420 100644
--- a/src/reor/simplex_projection.py
+++ b/src/reor/simplex_projection.py
@@ -9,6 +9,10 @@ import numpy as np
 def simplex_project_vector(x, out=None):
     """Project vector onto standard simplex."""
 
+    # The projection is invariant under shifts; measuring from the largest
+    # element retains accuracy for elements of any magnitude
+    x = x - 1.0 * np.max(x)
+
     sorted_x = np.sort(x)
 
     n = sorted_x.size
-- 
2.43.0


From ff03ac9b409d74fdf89335a836b7735cb32cadc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 23/37] fix: report the number of iterations performed by
 convex coding and FEM-BV fits

---
 src/reor/fembv.py              | 2 +-
 src/reor/gpnh_convex_coding.py | 2 +-
 src/reor/mtd_convex_coding.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 053e3ea..1a05e66 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -379,7 +379,7 @@ class FEMBV():
 
         self.n_components_ = self.Gamma.shape[1]
         self.cost_ = cost
-        self.n_iter_ = n_iter
+        self.n_iter_ = n_iter + 1
 
         return self.Gamma
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index b4400a2..803a1f5 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -660,7 +660,7 @@ class GPNHConvexCoding():
         self.n_components_ = self.S.shape[0]
         self.cost_ = cost_
         self.dictionary_ = self.S
-        self.n_iter_ = n_iter_
+        self.n_iter_ = n_iter_ + 1
 
         return self.Gamma
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 9fb4575..bcdbbe7 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -890,7 +890,7 @@ class MTDConvexCoding():
         self.n_components_ = self.S.shape[0]
         self.cost_ = cost_
         self.dictionary_ = self.S
-        self.n_iter_ = n_iter_
+        self.n_iter_ = n_iter_ + 1
 
         return self.Gamma
 
-- 
2.43.0


From e53c80b2bf7a616e52e93e73e0b78d83c7619b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 24/37] fix: use supplied factors when all updates are switched
 off

---
 src/reor/archetypal_analysis.py | 5 +++++
 src/reor/gpnh_convex_coding.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 048bfcd..ff62318 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -711,6 +711,11 @@ class KernelAA():
                                 '_kernel_aa (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
                                    '_kernel_aa (input dictionary)')
+        elif not (update_dictionary or update_weights):
+            _check_init_weights(weights, (n_samples, self.n_components),
+                                '_kernel_aa (input weights)')
+            _check_init_dictionary(dictionary, (self.n_components, n_samples),
+                                   '_kernel_aa (input dictionary)')
         elif not update_dictionary and update_weights:
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
                                    '_kernel_aa (input dictionary)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 803a1f5..606f1ab 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -596,6 +596,11 @@ class GPNHConvexCoding():
                                 '_gpnh_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
                                    '_gpnh_convex_coding (input dictionary)')
+        elif not (update_dictionary or update_weights):
+            _check_init_weights(weights, (n_samples, self.n_components),
+                                '_gpnh_convex_coding (input weights)')
+            _check_init_dictionary(dictionary, (self.n_components, n_features),
+                                   '_gpnh_convex_coding (input dictionary)')
         elif not update_dictionary and update_weights:
             _check_init_dictionary(dictionary, (self.n_components, n_features),
                                    '_gpnh_convex_coding (input dictionary)')
-- 
2.43.0


From 6bcfb48f28bfe1c49f2681db1989212fbb6e738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 25/37] fix: compute in double precision whatever the precision
 of the input

---
 src/reor/_validation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/reor/_validation.py b/src/reor/_validation.py
index 6216358..c2a02cd 100644
--- a/src/reor/_validation.py
+++ b/src/reor/_validation.py
@@ -29,8 +29,5 @@ def _is_cost_increase(old_cost, new_cost, scale):
 
 
 def _as_float_array(A):
-    """Return a floating-point copy of the given array."""
-    A = np.array(A, order='C')
-    if not np.issubdtype(A.dtype, np.floating):
-        A = A.astype('f8')
-    return A
+    """Return a double precision copy of the given array."""
+    return np.array(A, dtype='f8', order='C')
-- 
2.43.0


From ba392f39d42fc49b6094a1cad5505e6dc047cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 26/37] fix: use integer sample weights of local VARX models in
 full precision

---
 src/reor/fembv_varx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 5a9b99e..a414366 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -119,6 +119,8 @@ class FEMBVVARXLocalLinearModel():
             params = np.linalg.lstsq(
                 self._z, self._y[presample_length:], rcond=None)[0]
         else:
+            weights = _as_float_array(weights)
+
             if weights.shape != (n_samples,):
                 raise ValueError('Number of weights does not match '
                                  'number of samples')
-- 
2.43.0


From bcacbf68810ae5527b71f08fac90ab5aaf009f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 27/37] fix: predict from data in another precision than the
 k-means training data

---
 src/reor/crom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 8606ef7..1f9ea3b 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -7,6 +7,7 @@ from __future__ import division
 import numpy as np
 
 from sklearn.cluster import KMeans
+from sklearn.utils import check_array
 
 
 def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
@@ -207,6 +208,8 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
+        X = check_array(X, accept_sparse='csr',
+                        dtype=self.cluster_centers_.dtype)
         initial_labels = self.kmeans_.predict(X)
 
         n_clusters = self.transition_matrix_.shape[0]
-- 
2.43.0


From 6fef076b5118ece550751e7325b8febfa65f2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 28/37] fix: do not consume the global random state in a seeded
 ClusterPWVARX

---
 src/reor/pwvarx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index e99e71a..a135823 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -239,7 +239,7 @@ class ClusterPWVARX():
 
         if self._use_default_classifier:
             if np.unique(self.cluster_labels_).size > 1:
-                self.classifier = SVC()
+                self.classifier = SVC(random_state=self.random_state)
             else:
                 # Nothing to discriminate between
                 self.classifier = DummyClassifier()
-- 
2.43.0


From 2a7749ba67a8c9674ef524483808bfb2e453784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 29/37] fix: default to no total variation bound in FEM-BV
 models, as documented

---
 src/reor/fembv.py        | 2 +-
 src/reor/fembv_kmeans.py | 2 +-
 src/reor/fembv_varx.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1a05e66..727b096 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -45,7 +45,7 @@ def _initialize_fembv_weights(n_samples, n_components, unused_init='random',
 class FEMBV():
     """Base class for FEM-BV clustering algorithms."""
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500,
                  tolerance=1e-4, verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index d92450e..d846321 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -122,7 +122,7 @@ class FEMBVKMeans(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index a414366..39ef58e 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -271,7 +271,7 @@ class FEMBVVARX(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, memory=None, init='random',
+    def __init__(self, n_components, max_tv_norm=None, memory=None, init='random',
                  max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
-- 
2.43.0


From 95bfb02c1b8b4176b4ec8d559fc4069c1eb5b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 30/37] fix: document the default tolerance and the import of
 KernelAA correctly

---
 src/reor/archetypal_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index ff62318..a711193 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -173,7 +173,7 @@ class KernelAA():
 
         - 'custom': use custom matrices for dictionary and weights.
 
-    tolerance: float, default: 1e-6
+    tolerance: float, default: 1e-4
         Tolerance of the stopping condition.
 
     max_iterations : integer, default: 1000
@@ -205,7 +205,7 @@ class KernelAA():
     import numpy as np
     X = np.random.rand(10, 4)
     K = np.dot(X, X.T)
-    from reor import KernelAA
+    from reor.archetypal_analysis import KernelAA
     model = KernelAA(n_components=2, init='furthest_sum', random_state=0)
     weights = model.fit_transform(K)
     dictionary = model.dictionary_
@@ -882,7 +882,7 @@ class ArchetypalAnalysis(KernelAA):
 
         - 'custom': use custom matrices for dictionary and weights.
 
-    tolerance: float, default: 1e-6
+    tolerance: float, default: 1e-4
         Tolerance of the stopping condition.
 
     max_iterations : integer, default: 1000
-- 
2.43.0


From c4200aefb68078f18e194971877039a796e594c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 31/37] fix: honour max_iterations, tolerance and verbose in
 ClusterPWVARX

---
 src/reor/pwvarx.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index a135823..72aa7f2 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -61,6 +61,9 @@ class ClusterPWVARX():
         self.include_trend = include_trend
         self.clusterer = clusterer
         self.classifier = classifier
+        self.max_iterations = kwargs.get('max_iterations', 500)
+        self.tolerance = kwargs.get('tolerance', 1e-4)
+        self.verbose = kwargs.get('verbose', 0)
         self.random_state = kwargs.get('random_state', None)
 
         self._use_default_clusterer = clusterer is None
@@ -123,6 +126,9 @@ class ClusterPWVARX():
 
         if self._use_default_clusterer:
             self.clusterer = KMeans(n_clusters=self.n_components,
+                                    max_iter=self.max_iterations,
+                                    tol=self.tolerance,
+                                    verbose=self.verbose,
                                     random_state=self.random_state)
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
@@ -225,6 +231,12 @@ class ClusterPWVARX():
         if not isinstance(self.s, INTEGER_TYPES) or self.s < 0:
             raise ValueError('Exogeneous VAR order must be a non-negative '
                              'integer; got (s=%r)' % self.s)
+        if not isinstance(self.max_iterations, INTEGER_TYPES) or self.max_iterations <= 0:
+            raise ValueError('Maximum number of iterations must be a positive '
+                             'integer; got (max_iterations=%r)' % self.max_iterations)
+        if not isinstance(self.tolerance, numbers.Number) or self.tolerance < 0:
+            raise ValueError('Tolerance for stopping criteria must be '
+                             'positive; got (tolerance=%r)' % self.tolerance)
 
         presample_length = max(self.p, self.s)
 
-- 
2.43.0


From f121c559b3d637ec03645425ebf522f475360255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 32/37] fix: refuse missing custom MTD parameters and accept
 them as lists

---
 src/reor/mtd_convex_coding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index bcdbbe7..ed5b434 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -39,11 +39,13 @@ def _check_init_dictionary(dictionary, shape, whom):
 
 
 def _check_init_order_weights(order_weights, shape, whom):
+    order_weights = _as_float_array(order_weights)
     _check_array_shape(order_weights, shape, whom)
     _check_unit_axis_sums(order_weights, whom, axis=0)
 
 
 def _check_init_transition_matrices(transition_matrices, shape, whom):
+    transition_matrices = _as_float_array(transition_matrices)
     _check_array_shape(transition_matrices, shape, whom)
     _check_unit_axis_sums(transition_matrices, whom, axis=1)
 
-- 
2.43.0


From bea51f40c782ac46eac08c2cda74851dfc4d9d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 33/37] fix: FurthestSum sums dissimilarities in double
 precision

Sums accumulated in narrow integer types overflowed, so that different
samples were selected than for the same values in floating point.
---
 src/reor/furthest_sum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index f15f18a..0431a6d 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -8,6 +8,8 @@ __all__ = ['furthest_sum']
 
 import numpy as np
 
+from reor._validation import _as_float_array
+
 
 def _update_distance_sums(dissimilarity_matrix, new_index, current_distances):
     for i, qi in enumerate(current_distances):
@@ -154,6 +156,9 @@ def furthest_sum(dissimilarity_matrix, n_components, start_index,
             'Dissimilarity matrix must be square, but got shape %r' %
             list(dissimilarity_matrix.shape))
 
+    # Sums of dissimilarities may exceed the range of narrow integer types
+    dissimilarity_matrix = _as_float_array(dissimilarity_matrix)
+
     return _furthest_sum_impl(
         dissimilarity_matrix, n_components, start_index,
         exclude=exclude, extra_steps=extra_steps)
-- 
2.43.0


From 7a811a553e6e4721ad09fa13d65aec084f191264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:40 +0000
Subject: [PATCH 34/37] fix: draw the default FurthestSum start index from the
 samples that are not excluded

---
 src/reor/archetypal_analysis.py | 7 ++++---
 src/reor/gpnh_convex_coding.py  | 7 ++++---
 src/reor/mtd_convex_coding.py   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index a711193..5abcb02 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -65,12 +65,13 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
     rng = check_random_state(random_state)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 606f1ab..d384929 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -56,12 +56,13 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index ed5b434..96be11e 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -70,12 +70,13 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        candidates = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = candidates[rng.randint(candidates.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
-- 
2.43.0


From 594e8bd888c9f1e2c006e6498a73bed46ef46b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 35/37] fix: solve FEM-BV weights problem independently of the
 units of the distances

The solver's tolerances are absolute; distances of very large or very small
magnitude (data in the thousands, say) gave suboptimal affiliations or an
error.
---
 src/reor/fembv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 727b096..79583f0 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -231,6 +231,12 @@ class FEMBV():
         c = np.zeros((n_weight_parameters,))
         c[:self.Gamma.size] = self.distance_matrix.ravel()
 
+        # The solution does not depend on the units of the distances, unlike
+        # the tolerances of the solver
+        scale = np.max(np.abs(c))
+        if scale > 0:
+            c /= scale
+
         constraints = [self.A_eq @ gamma_vec == self.b_eq,
                        self.A_ub @ gamma_vec <= self.b_ub]
 
-- 
2.43.0


From fb91d7a4b8e75d25213346c0e66b1a7afdd2d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:34 +0000
Subject: [PATCH 36/37] fix: keep the fitted FEM-BV-VARX parameters when a
 transform is refused

The parameters were reset before the given data were checked, so that after a
refused transform (external factors left out, say) the model silently assigned
data to components with vanishing parameters.
---
 src/reor/fembv_varx.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 39ef58e..395e004 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -363,19 +363,20 @@ class FEMBVVARX(FEMBV):
 
         presample_length = np.max(self.memory)
 
-        self.mu = np.zeros((self.n_components, n_features),
-                           dtype=self.X.dtype)
+        # Existing parameters are only replaced once the given data and
+        # parameters have been found to be valid
+        mu = np.zeros((self.n_components, n_features), dtype=self.X.dtype)
+        A = None
         if presample_length > 0:
-            self.A = np.zeros((self.n_components, presample_length,
-                               n_features, n_features),
-                              dtype=self.X.dtype)
+            A = np.zeros((self.n_components, presample_length,
+                          n_features, n_features),
+                         dtype=self.X.dtype)
+        B0 = None
         if self.u is not None:
-            self.B0 = np.zeros((self.n_components, n_features, n_external),
-                               dtype=self.X.dtype)
-        else:
-            self.B0 = None
+            B0 = np.zeros((self.n_components, n_features, n_external),
+                          dtype=self.X.dtype)
 
-        self.models = [FEMBVVARXLocalLinearModel(
+        models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
             u=(None if self.u is None else
@@ -383,8 +384,7 @@ class FEMBVVARX(FEMBV):
             for i in range(self.n_components)]
 
         if init == 'custom' and parameters is not None:
-            for key, current in (('mu', self.mu), ('A', self.A),
-                                 ('B0', self.B0)):
+            for key, current in (('mu', mu), ('A', A), ('B0', B0)):
                 values = parameters.get(key, None)
                 if current is None and values is None:
                     continue
@@ -397,12 +397,16 @@ class FEMBVVARX(FEMBV):
 
             for i in range(self.n_components):
                 if self.memory[i] < presample_length:
-                    self.A[i, self.memory[i]:] = 0
-                self.models[i].set_parameters(
-                    self.mu[i],
-                    A=self.A[i] if presample_length > 0 else None,
-                    B0=self.B0[i] if self.u is not None else None)
+                    A[i, self.memory[i]:] = 0
+                models[i].set_parameters(
+                    mu[i],
+                    A=A[i] if presample_length > 0 else None,
+                    B0=B0[i] if self.u is not None else None)
+
+            self.mu, self.A, self.B0, self.models = mu, A, B0, models
         else:
+            self.mu, self.A, self.B0, self.models = mu, A, B0, models
+
             # Initialize models by performing unweighted fits to
             # given data
             for i in range(self.n_components):
-- 
2.43.0


From eec6f514833bc9322e1d2392b841c5308d24212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:34 +0000
Subject: [PATCH 37/37] fix: keep the fitted scale factors when a transform is
 interrupted

The factors were reset to one and restored later.
---
 src/reor/archetypal_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 5abcb02..d5d1714 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -289,10 +289,13 @@ class KernelAA():
         return (self.StS.dot(self.CKCt).trace() -
                 2 * self.S.dot(self.CK).trace() + self.K.trace())
 
-    def _initialize_workspace(self):
+    def _initialize_workspace(self, scale_factors=None):
         """Initialize temporary variables."""
 
-        self.alpha = np.ones(self.n_components, dtype='f8')
+        if scale_factors is None:
+            scale_factors = np.ones(self.n_components, dtype='f8')
+
+        self.alpha = scale_factors
 
         self.trace_K = self.K.trace()
         self.CK = self.C.dot(self.K)
@@ -739,10 +742,7 @@ class KernelAA():
         self.S = _as_float_array(weights)
         self.C = _as_float_array(dictionary)
 
-        self._initialize_workspace()
-
-        if scale_factors is not None:
-            self.alpha = scale_factors
+        self._initialize_workspace(scale_factors)
 
         cost, n_iter = self._iterate(
             update_dictionary=update_dictionary,
-- 
2.43.0

