From 119baf996d98416ffece9721551d2b908c3e5733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 01/19] fix: assign trailing zero-weight tasks to the last
 worker

---
 modred/parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..d827eac 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -224,6 +224,10 @@ def find_assignments(tasks, task_weights=None):
             new_max_task_index = np.abs(np.cumsum(
                 task_weights[first_unassigned_index:]) -\
                 work_per_worker).argmin() + first_unassigned_index
+            # The last worker takes all remaining tasks.  (With zero-weight
+            # tasks at the end, the closest index might not be the last one.)
+            if num_remaining_workers == 1:
+                new_max_task_index = len(tasks) - 1
             # Append all tasks up to and including new_max_task_index
             task_assignments.append(tasks[first_unassigned_index:\
                 new_max_task_index+1])
-- 
2.43.0


From c36dd020a50e81570ac5be94084462867e53bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 02/19] fix: do not subtract a stale cached base vector

---
 modred/vectors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..bf68c6e 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -31,7 +31,7 @@ class VecHandle(object):
         vec = self._get()
         if self.__base_vec_handle is None:
             return self.__scale_vec(vec)
-        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
+        if self.__base_vec_handle is VecHandle.cached_base_vec_handle:
             base_vec = VecHandle.cached_base_vec
         else:
             base_vec = self.__base_vec_handle.get()
@@ -43,6 +43,10 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # The cached base vector may be read from the same place that is about
+        # to be overwritten, so do not use it anymore.
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
-- 
2.43.0


From a4b359df6ed4574f09a560cc62f9d9339cdeb0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 03/19] fix: allow real and complex basis vectors in one linear
 combination

---
 modred/vectorspace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..3c7f404 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -1043,8 +1043,9 @@ class VectorSpaceHandles(object):
                                 sum_layers[
                                     sum_index-start_sum_index] = sum_layer
                             else:
-                                sum_layers[
-                                    sum_index - start_sum_index] += sum_layer
+                                sum_layers[sum_index - start_sum_index] = (
+                                    sum_layers[sum_index - start_sum_index] +
+                                    sum_layer)
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From f9d8b43ae6243c51997a05f4f33e043da839d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 04/19] fix: save the values of arrays that are not C-ordered
 doubles

---
 modred/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..54bf264 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -82,6 +82,13 @@ def save_array_text(array, file_name, delimiter=None):
     elif array.ndim > 2:
         raise RuntimeError('Cannot save an array with >2 dimensions')
 
+    # Force a contiguous array of (double-precision) floats or complex numbers,
+    # so that it can be viewed as an array of floats.
+    if np.iscomplexobj(array):
+        array = np.ascontiguousarray(array, dtype=complex)
+    else:
+        array = np.ascontiguousarray(array, dtype=float)
+
     # Save data
     if delimiter is None:
         np.savetxt(file_name, array.view(float))
-- 
2.43.0


From 15b50754af18b04b22f8d1bef15abad293bfe1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 05/19] fix: allow atol=None in eigh when there are negative
 eigenvalues

---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 54bf264..b742add 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -284,7 +284,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() < 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From e65ffa094af8477d052eb867ef2463a96d67ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 06/19] fix: apply the relative tolerance in DMD
 eigendecompositions

---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..699a687 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1282,7 +1282,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1764,7 +1764,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1783,7 +1783,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From 66ed257a6c0fbb2c9bbfbbda983433f51ec79d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 07/19] fix: conjugate eigenvectors in TLSqrDMD spectral
 coefficients

---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 699a687..e5b0edd 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From c31491088b16c002702960332b67647131a0ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 08/19] fix: raise the intended ValueError in
 compute_exact_modes

---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index e5b0edd..384e31c 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From c6b29c18e265e5385cbbb12a0f5921e1240d82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 09/19] fix: forget advanced vectors of a previous dataset in
 compute_decomp

---
 modred/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 384e31c..985a3d6 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1870,8 +1870,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From f930d175c134467e1d92e8b8c579c72f1b4e9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 10/19] fix: keep a single eigenvalue or singular value in a 1D
 array

---
 modred/bpod.py |  4 ++--
 modred/dmd.py  | 20 ++++++++++----------
 modred/pod.py  |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..d9736fe 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,8 +210,8 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
-            self.get_array, sing_vals_src))
+        self.sing_vals = np.atleast_1d(np.squeeze(parallel.call_and_bcast(
+            self.get_array, sing_vals_src)))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
         self.R_sing_vecs = parallel.call_and_bcast(
diff --git a/modred/dmd.py b/modred/dmd.py
index 985a3d6..e2b80be 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -557,15 +557,15 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, correlation_array_eigvals_src)))
+            self.get_array, correlation_array_eigvals_src))))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, correlation_array_eigvecs_src)
 
@@ -1977,20 +1977,20 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, sum_correlation_array_eigvals_src)))
+            self.get_array, sum_correlation_array_eigvals_src))))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, proj_correlation_array_eigvals_src)))
+            self.get_array, proj_correlation_array_eigvals_src))))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvecs_src)
 
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..1d6c3a2 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,8 +264,8 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
-            self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
 
-- 
2.43.0


From 6e607b46b8adf4eac4f068d396268c2ce287bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 11/19] fix: keep the spectral coefficients in a 1D array

---
 modred/dmd.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index e2b80be..86c4753 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -595,7 +595,8 @@ class DMDHandles(object):
         Args:
             ``src``: Source from which to retrieve spectral coefficients.
         """
-        self.spectral_coeffs = parallel.call_and_bcast(self.get_array, src)
+        self.spectral_coeffs = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, src))))
 
 
     def get_proj_coeffs(self, src, adv_src):
@@ -1074,7 +1075,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1325,7 +1326,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -2146,7 +2147,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
-- 
2.43.0


From 9e9f48cbfc9ecf003b158b1dca3335ba693372d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 12/19] fix: do not reject large vectors in the sanity check

---
 modred/vectorspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 3c7f404..c0db03e 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -166,6 +166,9 @@ class VectorSpaceHandles(object):
         vec_copy = copy.deepcopy(test_vec)
         vec_copy_mag_sq = self.inner_product(vec_copy, vec_copy)
 
+        # The tolerance is relative for vectors with large inner products
+        tol = tol * max(1., abs(vec_copy_mag_sq))
+
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
         vec_mult = test_vec * scale_factor
-- 
2.43.0


From 8aaf01c008a6595b27e3bd3ce412e896fe3885e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 13/19] fix: accept the inner product weight of one-element
 vectors

---
 modred/vectorspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index c0db03e..c0a80a8 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -19,7 +19,7 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights).squeeze()
+            self.weights = np.atleast_1d(np.array(self.weights).squeeze())
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
-- 
2.43.0


From c65a131391d2371c548f380cd9a60bc91dfc44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 14/19] fix: do not lose parts of inner products when the first
 one is real or integer

---
 modred/vectorspace.py | 61 ++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index c0a80a8..01b50de 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -64,6 +64,17 @@ class VectorSpaceArrays(object):
         return not self.__eq__(other)
 
 
+def _set_IP(IP_array, row_index, col_index, IP):
+    """Sets an element of an inner product array, changing the type of the array
+    if necessary (e.g., inner products can be real or complex).  Returns the
+    array."""
+    IP_type = np.result_type(IP_array.dtype, np.asarray(IP).dtype)
+    if IP_type != IP_array.dtype:
+        IP_array = IP_array.astype(IP_type)
+    IP_array[row_index, col_index] = IP
+    return IP_array
+
+
 class VectorSpaceHandles(object):
     """Provides efficient, parallel implementations of vector space operations,
     using handles.
@@ -453,12 +464,12 @@ class VectorSpaceHandles(object):
                     if len(row_vecs) > 0:
                         for row_index in range(start_row_index, end_row_index):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - start_row_index],
-                                    col_vec)
+                                IP_array = _set_IP(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - start_row_index],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
@@ -607,16 +618,18 @@ class VectorSpaceHandles(object):
                 for row_index in range(proc_row_tasks[0],
                     proc_row_tasks[-1] + 1):
                     # Diagonal term
-                    IP_array[row_index, row_index] = self.inner_product(
-                        row_vecs[row_index - proc_row_tasks[0]],
-                        row_vecs[row_index - proc_row_tasks[0]])
+                    IP_array = _set_IP(
+                        IP_array, row_index, row_index, self.inner_product(
+                            row_vecs[row_index - proc_row_tasks[0]],
+                            row_vecs[row_index - proc_row_tasks[0]]))
 
                     # Off-diagonal terms
                     for col_index in range(
                         row_index + 1, proc_row_tasks[-1] + 1):
-                        IP_array[row_index, col_index] = self.inner_product(
-                            row_vecs[row_index - proc_row_tasks[0]],
-                            row_vecs[col_index - proc_row_tasks[0]])
+                        IP_array = _set_IP(
+                            IP_array, row_index, col_index, self.inner_product(
+                                row_vecs[row_index - proc_row_tasks[0]],
+                                row_vecs[col_index - proc_row_tasks[0]]))
 
             # Number of square chunks to fill in is n * (n-1) / 2.  At each
             # iteration we fill in n of them, so we need (n-1) / 2
@@ -684,12 +697,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             my_row_indices[0], my_row_indices[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    my_col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - my_row_indices[0]],
-                                    col_vec)
+                                IP_array = _set_IP(
+                                    IP_array, row_index,
+                                    my_col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - my_row_indices[0]],
+                                        col_vec))
                             if (
                                 (time() - self.prev_print_time) >
                                 self.print_interval):
@@ -772,12 +785,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             proc_row_tasks[0], proc_row_tasks[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - proc_row_tasks[0]],
-                                    col_vec)
+                                IP_array = _set_IP(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - proc_row_tasks[0]],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From 2900fe9fa6508af37fe3fea0a51a3f74d7838e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 15/19] fix: use the Hankel array dimensions given to ERA

---
 modred/era.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index f22a091..e3de30a 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -144,6 +144,8 @@ class ERA(object):
         self.put_array = put_array
         self.mc = mc
         self.mo = mo
+        self._default_mc = mc
+        self._default_mo = mo
         self.outputs = None
         self.verbosity = verbosity
         self.A = None
@@ -190,8 +192,8 @@ class ERA(object):
         :math:`dt`.  You can account for this by multiplying B by :math:`dt`.
         """
         self._set_Markovs(np.array(Markovs))
-        self.mc = mc
-        self.mo = mo
+        self.mc = self._default_mc if mc is None else mc
+        self.mo = self._default_mo if mo is None else mo
 
         self._assemble_Hankel()
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
@@ -320,10 +322,11 @@ class ERA(object):
         # For additional output times, (nt-2)/4 rounds down, so
         # we use this formula.
 
-        if self.mo is None or self.mc is None:
-            # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        if self.mo is None:
             self.mo = (self.num_time_steps-2)//4
-            self.mc = self.mo
+        if self.mc is None:
+            self.mc = (self.num_time_steps-2)//4
 
         if (self.mo + self.mc) + 2 > self.num_time_steps:
             raise ValueError(
-- 
2.43.0


From 837e62c45f89e2c2bc9794d29b8d42cb2428a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 16/19] fix: use all of the data in ERA by default, check that
 there is enough of it

---
 modred/era.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index e3de30a..f713a96 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -315,23 +315,23 @@ class ERA(object):
         # To understand the default choice of mc and mo,
         # consider (let sample_interval=P=1 w.l.o.g.)
         # sequences
-        # [0 1 1 2 2 3] => H = [[0 1][1 2]]   H2 = [[1 2][2 3]], mc=mo=1, nt=6
+        # [0 1 1 2 2 3] => H = [[0 1][1 2]]   H2 = [[1 2][2 3]], mc=mo=2, nt=6
         # [0 1 1 2 2 3 3 4 4 5] => H=[[0 1 2][1 2 3][2 3 4]]
-        # and H2=[[1 2 3][2 3 4][3 4 5]], mc=mo=2,nt=10
-        # Thus, using all available data means mc=mo=(nt-2)/4.
-        # For additional output times, (nt-2)/4 rounds down, so
+        # and H2=[[1 2 3][2 3 4][3 4 5]], mc=mo=3,nt=10
+        # Thus, using all available data means mc=mo=(nt+2)/4.
+        # For additional output times, (nt+2)/4 rounds down, so
         # we use this formula.
 
         # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
         if self.mo is None:
-            self.mo = (self.num_time_steps-2)//4
+            self.mo = (self.num_time_steps+2)//4
         if self.mc is None:
-            self.mc = (self.num_time_steps-2)//4
+            self.mc = (self.num_time_steps+2)//4
 
-        if (self.mo + self.mc) + 2 > self.num_time_steps:
+        if 2 * (self.mo + self.mc) - 2 > self.num_time_steps:
             raise ValueError(
-                'mo + mc + 2= %d and must be <= than the number of samples %d'
-                % (self.mo + self.mc + 2, self.num_time_steps))
+                '2 * (mo + mc) - 2 = %d and must be <= the number of samples %d'
+                % (2 * (self.mo + self.mc) - 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
             (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-- 
2.43.0


From 6e51542b90a9afe483d484fd0e33094bd6b44bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 17/19] fix: keep the imaginary parts of Markov parameters in
 ERA

---
 modred/era.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index f713a96..5fa28a0 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -43,7 +43,9 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
 
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
-    Markovs_corr = np.zeros((num_time_steps_corr, num_Markovs, num_inputs))
+    Markovs_corr = np.zeros(
+        (num_time_steps_corr, num_Markovs, num_inputs),
+        dtype=np.result_type(Markovs.dtype, float))
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
@@ -334,8 +336,9 @@ class ERA(object):
                 % (2 * (self.mo + self.mc) - 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
-            (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-        self.Hankel_array2 = np.zeros(self.Hankel_array.shape)
+            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
+            dtype=np.result_type(self.Markovs.dtype, float))
+        self.Hankel_array2 = np.zeros_like(self.Hankel_array)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0


From 5fd17e574a39862a5fa70041eefd09a1a08e28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 18/19] fix: balance the discrete-time Gramians in
 balanced_truncation

---
 modred/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index b742add..9929738 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -371,20 +371,21 @@ def balanced_truncation(
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    gram_cont = scipy.linalg.solve_lyapunov(A, B.dot(B.transpose().conj()))
-    gram_obsv = scipy.linalg.solve_lyapunov(A.transpose().conj(),
-        C.transpose().conj().dot(C))
+    gram_cont = scipy.linalg.solve_discrete_lyapunov(
+        A, B.dot(B.transpose().conj()))
+    gram_obsv = scipy.linalg.solve_discrete_lyapunov(
+        A.transpose().conj(), C.transpose().conj().dot(C))
     Uc, Ec, Vc = svd(gram_cont)
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().dot(Lc))
+    U, E, V = svd(Lo.transpose().conj().dot(Lc))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
     SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
-    A_bal_trunc = SL.transpose().dot(A).dot(SR)
-    B_bal_trunc = SL.transpose().dot(B)
+    A_bal_trunc = SL.transpose().conj().dot(A).dot(SR)
+    B_bal_trunc = SL.transpose().conj().dot(B)
     C_bal_trunc = C.dot(SR)
     if return_sing_vals:
         return A_bal_trunc, B_bal_trunc, C_bal_trunc, E
-- 
2.43.0


From ba77ff12fe1e53e1243b9ba81721abe8ea6484e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 19/19] fix: number the samples consecutively in
 make_sampled_format

Times that deviate from uniform ones within dt_tol could give wrong time
steps (e.g. [0 1 1 2 2 4]) as their deviations from the first step add up.
---
 modred/era.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/era.py b/modred/era.py
index 5fa28a0..8963bd3 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -41,7 +41,8 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
     if np.amax(np.abs(np.diff(times)-dt)) > dt_tol:
         raise ValueError('Data is not equally spaced in time')
 
-    time_steps = np.round((times-times[0])/dt)
+    # Steps may deviate from dt (within the tolerance), so do not divide by it.
+    time_steps = np.arange(num_time_steps)
     num_time_steps_corr = (num_time_steps - 1)*2
     Markovs_corr = np.zeros(
         (num_time_steps_corr, num_Markovs, num_inputs),
-- 
2.43.0

