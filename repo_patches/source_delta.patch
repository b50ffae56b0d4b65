From 1a2faa297d2475b2dd2f323314ad2ee1b12b2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 01/32] fix: find_assignments dropped trailing tasks of zero
 weight

---
 modred/parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..5c0966f 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -224,6 +224,10 @@ def find_assignments(tasks, task_weights=None):
             new_max_task_index = np.abs(np.cumsum(
                 task_weights[first_unassigned_index:]) -\
                 work_per_worker).argmin() + first_unassigned_index
+            # The last worker must take everything that is left, including
+            # trailing tasks whose weights are (numerically) zero
+            if num_remaining_workers == 1:
+                new_max_task_index = task_weights.size - 1
             # Append all tasks up to and including new_max_task_index
             task_assignments.append(tasks[first_unassigned_index:\
                 new_max_task_index+1])
-- 
2.43.0


From bf9fa6674f1fd30d5dc6f74d415dc67787892eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 02/32] fix: save_array_text corrupted non-double data and
 rejected Fortran-ordered data

---
 modred/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..c878715 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -82,6 +82,13 @@ def save_array_text(array, file_name, delimiter=None):
     elif array.ndim > 2:
         raise RuntimeError('Cannot save an array with >2 dimensions')
 
+    # Make sure viewing the data as floats below is valid, by casting to double
+    # precision and C-contiguous memory
+    if np.iscomplexobj(array):
+        array = np.ascontiguousarray(array, dtype=complex)
+    else:
+        array = np.ascontiguousarray(array, dtype=float)
+
     # Save data
     if delimiter is None:
         np.savetxt(file_name, array.view(float))
-- 
2.43.0


From 7f0ee8af5e55ff5b7571549f566c7aef489b3563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 03/32] fix: decompositions with a single eigenvalue or
 singular value collapsed to 0-d arrays

---
 modred/bpod.py |  4 ++--
 modred/dmd.py  | 30 +++++++++++++++---------------
 modred/pod.py  |  4 ++--
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..d9736fe 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,8 +210,8 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
-            self.get_array, sing_vals_src))
+        self.sing_vals = np.atleast_1d(np.squeeze(parallel.call_and_bcast(
+            self.get_array, sing_vals_src)))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
         self.R_sing_vecs = parallel.call_and_bcast(
diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..31f021f 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -557,15 +557,15 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, correlation_array_eigvals_src)))
+            self.get_array, correlation_array_eigvals_src))))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, correlation_array_eigvecs_src)
 
@@ -1076,7 +1076,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -1979,20 +1979,20 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, sum_correlation_array_eigvals_src)))
+            self.get_array, sum_correlation_array_eigvals_src))))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, proj_correlation_array_eigvals_src)))
+            self.get_array, proj_correlation_array_eigvals_src))))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvecs_src)
 
@@ -2148,7 +2148,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..1d6c3a2 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,8 +264,8 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
-            self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
 
-- 
2.43.0


From 3ad8232f9dee91d805becfa3e89f61afa1047d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 04/32] fix: eigh failed for positive definite arrays when atol
 is None

---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index c878715..f075bbf 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -284,7 +284,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() < 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From 4c22537530e937030198f88ecb7b091404200b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 05/32] fix: compute_exact_modes raised TypeError instead of
 the intended ValueError

---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 31f021f..dc2d283 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From a9bf90d7f62f39440d49ce9f6675cae9892a28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 06/32] fix: DMD and total-least-squares DMD ignored the
 relative tolerance rtol

---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index dc2d283..d4d5797 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1280,7 +1280,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1762,7 +1762,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1781,7 +1781,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From 5d3cf703e50c38013cd5abaf513bd7ff1bc8c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 07/32] fix: spectral coefficients of TLSqrDMD snapshot method
 were wrong for complex data

---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index d4d5797..7ee770d 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1325,7 +1325,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T)))
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From dd9f99061bdb5b6886b0354f5aad940480619668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 08/32] fix: DMD of a sequential dataset reused advanced
 vectors of a previous decomposition

---
 modred/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 7ee770d..6cc5156 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1870,8 +1870,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From 3f8e8d8bdaf59264ba26f69085b2b364a597d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 09/32] fix: vector handles could subtract a stale or different
 base vector

---
 modred/vectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..c8b8600 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -31,7 +31,7 @@ class VecHandle(object):
         vec = self._get()
         if self.__base_vec_handle is None:
             return self.__scale_vec(vec)
-        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
+        if self.__base_vec_handle is VecHandle.cached_base_vec_handle:
             base_vec = VecHandle.cached_base_vec
         else:
             base_vec = self.__base_vec_handle.get()
@@ -43,6 +43,9 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # The vector being overwritten may be the cached base vector
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
-- 
2.43.0


From c1aa059b36caa62173cd47f58d7fa6bd7cd3c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 10/32] fix: ERA ignored the mc and mo given to its constructor

---
 modred/era.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index f22a091..c2cf159 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -144,6 +144,8 @@ class ERA(object):
         self.put_array = put_array
         self.mc = mc
         self.mo = mo
+        self._default_mc = mc
+        self._default_mo = mo
         self.outputs = None
         self.verbosity = verbosity
         self.A = None
@@ -190,8 +192,8 @@ class ERA(object):
         :math:`dt`.  You can account for this by multiplying B by :math:`dt`.
         """
         self._set_Markovs(np.array(Markovs))
-        self.mc = mc
-        self.mo = mo
+        self.mc = self._default_mc if mc is None else mc
+        self.mo = self._default_mo if mo is None else mo
 
         self._assemble_Hankel()
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
-- 
2.43.0


From fc9a9c198286e19d62f5275aa4e789e6a23f62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 11/32] fix: ERA raised IndexError instead of ValueError for
 too few samples

---
 modred/era.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index c2cf159..80fdb78 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -327,10 +327,12 @@ class ERA(object):
             self.mo = (self.num_time_steps-2)//4
             self.mc = self.mo
 
-        if (self.mo + self.mc) + 2 > self.num_time_steps:
+        # The last Markov parameter used is number 2 * (mo + mc - 2) + 1.
+        if 2 * (self.mo + self.mc) - 2 > self.num_time_steps:
             raise ValueError(
-                'mo + mc + 2= %d and must be <= than the number of samples %d'
-                % (self.mo + self.mc + 2, self.num_time_steps))
+                '2 * (mo + mc) - 2= %d and must be <= than the number of '
+                'samples %d'
+                % (2 * (self.mo + self.mc) - 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
             (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-- 
2.43.0


From db37523331989e84e1bdb962ecb38209bd9e34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 12/32] fix: ERA discarded the imaginary part of complex Markov
 parameters

---
 modred/era.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index 80fdb78..ada65ab 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -43,7 +43,8 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
 
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
-    Markovs_corr = np.zeros((num_time_steps_corr, num_Markovs, num_inputs))
+    Markovs_corr = np.zeros(
+        (num_time_steps_corr, num_Markovs, num_inputs), dtype=Markovs.dtype)
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
@@ -335,8 +336,10 @@ class ERA(object):
                 % (2 * (self.mo + self.mc) - 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
-            (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-        self.Hankel_array2 = np.zeros(self.Hankel_array.shape)
+            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
+            dtype=self.Markovs.dtype)
+        self.Hankel_array2 = np.zeros(
+            self.Hankel_array.shape, dtype=self.Markovs.dtype)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0


From a8d8b2a4edcb57a0e3f932846d77095310eb5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 13/32] fix: balanced_truncation used continuous-time Gramians
 for discrete-time systems

---
 modred/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index f075bbf..13c5ef3 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -371,8 +371,9 @@ def balanced_truncation(
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    gram_cont = scipy.linalg.solve_lyapunov(A, B.dot(B.transpose().conj()))
-    gram_obsv = scipy.linalg.solve_lyapunov(A.transpose().conj(),
+    gram_cont = scipy.linalg.solve_discrete_lyapunov(
+        A, B.dot(B.transpose().conj()))
+    gram_obsv = scipy.linalg.solve_discrete_lyapunov(A.transpose().conj(),
         C.transpose().conj().dot(C))
     Uc, Ec, Vc = svd(gram_cont)
     Uo, Eo, Vo = svd(gram_obsv)
-- 
2.43.0


From 2d041b9c15b5a39c20bb005c372e2f7c432f1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 14/32] fix: inner product weights of vectors with one element
 were rejected

---
 modred/vectorspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..c4c2499 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -19,7 +19,7 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights).squeeze()
+            self.weights = np.atleast_1d(np.array(self.weights).squeeze())
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
-- 
2.43.0


From a067f09a72acf9d33051977498f9e109a69cb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 15/32] fix: Hankel failed when last_row is a list

---
 modred/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 13c5ef3..e9778ed 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -589,7 +589,7 @@ def Hankel(first_col, last_row=None):
     if last_row is None:
         last_row = np.zeros(first_col.shape)
     else:
-        last_row = last_row.flatten()
+        last_row = np.array(last_row).flatten()
 
     unique_vals = np.concatenate((first_col, last_row[1:]))
     a, b = np.ogrid[0:len(first_col), 0:len(last_row)]
-- 
2.43.0


From d684be607e8a1b9dc29ab2e2e00fc8355cee48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 16/32] fix: load_multiple_signals did not name the
 inconsistent file

---
 modred/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index e9778ed..f68bddc 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -563,8 +563,8 @@ def load_multiple_signals(signal_paths, delimiter=None):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
         if not np.allclose(time_values_read, time_values):
-            raise ValueError('Time values in %s are inconsistent with '
-                'other files')
+            raise ValueError(('Time values in %s are inconsistent with '
+                'other files') % signal_path)
         all_signals[path_num] = signals
 
     return time_values, all_signals
-- 
2.43.0


From 734d9f2f9c1dfa82ca1f51bf739d0ad8742d4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 17/32] fix: sanity_check rejected valid vectors of large
 magnitude

---
 modred/vectorspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index c4c2499..6a99157 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -152,9 +152,6 @@ class VectorSpaceHandles(object):
         # TODO: Other things which could be tested:
         # ``get``/``put`` doesn't affect other vecs (memory problems)
 
-        # Set tolerance
-        tol = 1e-12
-
         # Check inner product properties
         self._check_inner_product()
 
@@ -166,6 +163,9 @@ class VectorSpaceHandles(object):
         vec_copy = copy.deepcopy(test_vec)
         vec_copy_mag_sq = self.inner_product(vec_copy, vec_copy)
 
+        # Set tolerance, relative to the size of the vector
+        tol = 1e-12 * max(1., abs(vec_copy_mag_sq))
+
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
         vec_mult = test_vec * scale_factor
-- 
2.43.0


From 286007cd16cb0d8dfcc111ce32532dfe20eac8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 18/32] fix: inner product arrays of vectors with mixed types
 lost fractional or imaginary parts

---
 modred/vectorspace.py | 62 ++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 6a99157..cfc589a 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -220,6 +220,16 @@ class VectorSpaceHandles(object):
         self.print_msg('Passed the sanity check.')
 
 
+    def _insert_IP(self, IP_array, row_index, col_index, IP):
+        """Inserts an inner product into ``IP_array`` and returns the array,
+        promoting its type first if it could not hold the value."""
+        IP_type = np.result_type(IP_array.dtype, np.asarray(IP).dtype)
+        if IP_type != IP_array.dtype:
+            IP_array = IP_array.astype(IP_type)
+        IP_array[row_index, col_index] = IP
+        return IP_array
+
+
     def compute_inner_product_array(self, row_vec_handles, col_vec_handles):
         """Computes array whose elements are inner products of the vector
         objects in ``row_vec_handles`` and ``col_vec_handles``.
@@ -450,12 +460,12 @@ class VectorSpaceHandles(object):
                     if len(row_vecs) > 0:
                         for row_index in range(start_row_index, end_row_index):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - start_row_index],
-                                    col_vec)
+                                IP_array = self._insert_IP(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - start_row_index],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
@@ -604,16 +614,20 @@ class VectorSpaceHandles(object):
                 for row_index in range(proc_row_tasks[0],
                     proc_row_tasks[-1] + 1):
                     # Diagonal term
-                    IP_array[row_index, row_index] = self.inner_product(
-                        row_vecs[row_index - proc_row_tasks[0]],
-                        row_vecs[row_index - proc_row_tasks[0]])
+                    IP_array = self._insert_IP(
+                        IP_array, row_index, row_index,
+                        self.inner_product(
+                            row_vecs[row_index - proc_row_tasks[0]],
+                            row_vecs[row_index - proc_row_tasks[0]]))
 
                     # Off-diagonal terms
                     for col_index in range(
                         row_index + 1, proc_row_tasks[-1] + 1):
-                        IP_array[row_index, col_index] = self.inner_product(
-                            row_vecs[row_index - proc_row_tasks[0]],
-                            row_vecs[col_index - proc_row_tasks[0]])
+                        IP_array = self._insert_IP(
+                            IP_array, row_index, col_index,
+                            self.inner_product(
+                                row_vecs[row_index - proc_row_tasks[0]],
+                                row_vecs[col_index - proc_row_tasks[0]]))
 
             # Number of square chunks to fill in is n * (n-1) / 2.  At each
             # iteration we fill in n of them, so we need (n-1) / 2
@@ -681,12 +695,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             my_row_indices[0], my_row_indices[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    my_col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - my_row_indices[0]],
-                                    col_vec)
+                                IP_array = self._insert_IP(
+                                    IP_array, row_index,
+                                    my_col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - my_row_indices[0]],
+                                        col_vec))
                             if (
                                 (time() - self.prev_print_time) >
                                 self.print_interval):
@@ -769,12 +783,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             proc_row_tasks[0], proc_row_tasks[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - proc_row_tasks[0]],
-                                    col_vec)
+                                IP_array = self._insert_IP(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - proc_row_tasks[0]],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From e4e6f441e889a25e42fb17f8190afa0be19da099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 19/32] fix: linear combinations of vectors with mixed real and
 complex types failed

---
 modred/vectorspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index cfc589a..15cfb32 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -1057,8 +1057,10 @@ class VectorSpaceHandles(object):
                                 sum_layers[
                                     sum_index-start_sum_index] = sum_layer
                             else:
-                                sum_layers[
-                                    sum_index - start_sum_index] += sum_layer
+                                # Not in place, types of layers may differ
+                                sum_layers[sum_index - start_sum_index] = (
+                                    sum_layers[sum_index - start_sum_index] +
+                                    sum_layer)
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From b51b087183b17e7f0a1c25da11a119102c272559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 20/32] fix: print_from_rank_zero ignored output_channel

---
 modred/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/parallel.py b/modred/parallel.py
index 5c0966f..022f563 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -4,7 +4,7 @@ import codecs
 
 import numpy as np
 
-from .py2to3 import range
+from .py2to3 import print_msg, range
 
 
 # Check to see if MPI is available by importing MPI-related modules
@@ -106,7 +106,7 @@ def barrier():
 def print_from_rank_zero(msg, output_channel='stdout'):
     """Prints ``msg`` from rank zero processor/MPI worker only."""
     if is_rank_zero():
-        print(msg)
+        print_msg(str(msg), output_channel=output_channel)
 
 
 def call_from_rank_zero(func, *args, **kwargs):
-- 
2.43.0


From 6333daa5e21f5ae23806d01967c85a61ae74e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 21/32] fix: lsim and impulse discarded the imaginary parts of
 complex systems

---
 modred/util.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index f68bddc..8e5cbf1 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -6,7 +6,6 @@ import numpy as np
 from numpy import polymul, polyadd
 import scipy
 import scipy.linalg
-import scipy.signal
 
 from .py2to3 import range
 
@@ -467,10 +466,17 @@ def lsim(A, B, C, inputs, initial_condition=None):
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    ss = scipy.signal.StateSpace(A, B, C,
-                                 np.zeros((C.shape[0], B.shape[1])), dt=1)
-    tout_dum, outputs, xout_dum = scipy.signal.dlsim(
-        ss, inputs, x0=initial_condition)
+    inputs = atleast_2d_col(inputs)
+    if initial_condition is None:
+        initial_condition = np.zeros(A.shape[0])
+    dtype = np.result_type(
+        A, B, C, inputs, np.array(initial_condition), float)
+    state = np.zeros(A.shape[0], dtype=dtype)
+    state[:] = initial_condition
+    outputs = np.zeros((inputs.shape[0], C.shape[0]), dtype=dtype)
+    for step in range(inputs.shape[0]):
+        outputs[step] = C.dot(state)
+        state = A.dot(state) + B.dot(inputs[step])
     return outputs
 
 
@@ -490,14 +496,18 @@ def impulse(A, B, C, num_time_steps=None):
     No D array is included, but one can simply be prepended to the output if
     it is non-zero.
     """
-    ss = scipy.signal.StateSpace(A, B, C, np.zeros((C.shape[0], B.shape[1])), dt=1)
-    if num_time_steps is not None:
-        dum, Markovs = scipy.signal.dimpulse(ss, n=num_time_steps+1)
-    else:
-        dum, Markovs = scipy.signal.dimpulse(ss)
-    # Remove the first element, which is 0, since we define C*B as first output
-    # of impulse response, i.e., x(0) == B.
-    Markovs = np.array(Markovs).swapaxes(0, 1).swapaxes(1, 2)[1:]
+    A = np.array(A)
+    B = np.array(B)
+    C = np.array(C)
+    if num_time_steps is None:
+        num_time_steps = 99
+    dtype = np.result_type(A, B, C, float)
+    Markovs = np.zeros((num_time_steps, C.shape[0], B.shape[1]), dtype=dtype)
+    # We define C*B as first output of impulse response, i.e., x(0) == B.
+    state = B.astype(dtype)
+    for step in range(num_time_steps):
+        Markovs[step] = C.dot(state)
+        state = A.dot(state)
     return Markovs
 
 def load_signals(signal_path, delimiter=None):
-- 
2.43.0


From e8991c00f90c5b905d6d771746bbd9f4fe00b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 22/32] fix: OKID discarded the imaginary parts of complex data

---
 modred/okid.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modred/okid.py b/modred/okid.py
index 25334af..eb37efe 100644
--- a/modred/okid.py
+++ b/modred/okid.py
@@ -49,7 +49,9 @@ def OKID(inputs, outputs, num_Markovs):
     # Convenience variable
     num_inouts = num_inputs + num_outputs
 
-    V = np.zeros((num_inputs + num_inouts * num_Markovs, num_samples))
+    dtype = np.result_type(inputs, outputs, float)
+    V = np.zeros(
+        (num_inputs + num_inouts * num_Markovs, num_samples), dtype=dtype)
     V[:num_inputs] = inputs
 
     inputs_outputs = np.concatenate((inputs, outputs), axis=0)
@@ -60,8 +62,8 @@ def OKID(inputs, outputs, num_Markovs):
     # Ybar in book
     #Markov_aug = np.dot(outputs, np.array(np.linalg.pinv(V, cutoff)))
     # Using least squares for better numerical conditioning? outputs = M V, so
-    # outputs.T = V.T M.T, solve for M = Markovs_aug.
-    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.T)[0].conj().T
+    # outputs^* = V^* M^*, solve for M = Markovs_aug.
+    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.conj().T)[0].conj().T
 
     D = Markov_aug[:, :num_inputs]
 
@@ -85,11 +87,11 @@ def OKID(inputs, outputs, num_Markovs):
                 Markov_num * num_inouts + num_inouts])
 
     # Estimate the Markov parameters of the system
-    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs))
+    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs), dtype=dtype)
     Markov_est[0] = D
 
     for Markov_num in range(1, num_Markovs):
-        summation_term = np.zeros((num_outputs, num_inputs))
+        summation_term = np.zeros((num_outputs, num_inputs), dtype=dtype)
         for i in range(1, Markov_num + 1):
             summation_term += Markov_aug_output[i].dot(
                 Markov_est[Markov_num- i , :, :])
-- 
2.43.0


From cfbe28fb6ef2f1103590f71251fafa34f1dc86c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 23/32] fix: balanced_truncation was wrong for complex systems

---
 modred/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 8e5cbf1..e4a2dda 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -378,13 +378,13 @@ def balanced_truncation(
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().dot(Lc))
+    U, E, V = svd(Lo.transpose().conj().dot(Lc))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
     SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
-    A_bal_trunc = SL.transpose().dot(A).dot(SR)
-    B_bal_trunc = SL.transpose().dot(B)
+    A_bal_trunc = SL.transpose().conj().dot(A).dot(SR)
+    B_bal_trunc = SL.transpose().conj().dot(B)
     C_bal_trunc = C.dot(SR)
     if return_sing_vals:
         return A_bal_trunc, B_bal_trunc, C_bal_trunc, E
-- 
2.43.0


From 744a06b83a920b2fda623cbf8ed3e79934a8d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 24/32] fix: load_multiple_signals repeated the signals of
 files with fewer channels

---
 modred/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index e4a2dda..5249548 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -575,6 +575,9 @@ def load_multiple_signals(signal_paths, delimiter=None):
         if not np.allclose(time_values_read, time_values):
             raise ValueError(('Time values in %s are inconsistent with '
                 'other files') % signal_path)
+        if signals.shape != all_signals.shape[1:]:
+            raise ValueError(('Number of signals in %s is inconsistent with '
+                'other files') % signal_path)
         all_signals[path_num] = signals
 
     return time_values, all_signals
-- 
2.43.0


From d49359cdefbd055c0a4bbbe3ab539874a4a23daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 25/32] fix: ERA default Hankel sizes did not use all samples

---
 modred/era.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index ada65ab..c8f3e4c 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -316,16 +316,16 @@ class ERA(object):
         # To understand the default choice of mc and mo,
         # consider (let sample_interval=P=1 w.l.o.g.)
         # sequences
-        # [0 1 1 2 2 3] => H = [[0 1][1 2]]   H2 = [[1 2][2 3]], mc=mo=1, nt=6
+        # [0 1 1 2 2 3] => H = [[0 1][1 2]]   H2 = [[1 2][2 3]], mc=mo=2, nt=6
         # [0 1 1 2 2 3 3 4 4 5] => H=[[0 1 2][1 2 3][2 3 4]]
-        # and H2=[[1 2 3][2 3 4][3 4 5]], mc=mo=2,nt=10
-        # Thus, using all available data means mc=mo=(nt-2)/4.
-        # For additional output times, (nt-2)/4 rounds down, so
+        # and H2=[[1 2 3][2 3 4][3 4 5]], mc=mo=3,nt=10
+        # Thus, using all available data means mc=mo=(nt+2)/4.
+        # For additional output times, (nt+2)/4 rounds down, so
         # we use this formula.
 
         if self.mo is None or self.mc is None:
             # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
-            self.mo = (self.num_time_steps-2)//4
+            self.mo = (self.num_time_steps+2)//4
             self.mc = self.mo
 
         # The last Markov parameter used is number 2 * (mo + mc - 2) + 1.
-- 
2.43.0


From 8415d5d3438bb955ea7c22f1df696bca77918acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 26/32] fix: ERA with too few samples returned an empty model

---
 modred/era.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modred/era.py b/modred/era.py
index c8f3e4c..8dbe761 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -328,6 +328,11 @@ class ERA(object):
             self.mo = (self.num_time_steps+2)//4
             self.mc = self.mo
 
+        if self.mo < 1 or self.mc < 1:
+            raise ValueError(
+                'mo= %d and mc= %d must be at least 1 (number of samples %d)'
+                % (self.mo, self.mc, self.num_time_steps))
+
         # The last Markov parameter used is number 2 * (mo + mc - 2) + 1.
         if 2 * (self.mo + self.mc) - 2 > self.num_time_steps:
             raise ValueError(
-- 
2.43.0


From cd0b0590dbdc7d78612c2944cb5e3d9dca009a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 27/32] fix: ERA ignored mc or mo when only one of them was
 given

---
 modred/era.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modred/era.py b/modred/era.py
index 8dbe761..9481f26 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -323,10 +323,15 @@ class ERA(object):
         # For additional output times, (nt+2)/4 rounds down, so
         # we use this formula.
 
-        if self.mo is None or self.mc is None:
+        if self.mo is None and self.mc is None:
             # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
             self.mo = (self.num_time_steps+2)//4
             self.mc = self.mo
+        # If only one is given, use as many samples as possible.
+        elif self.mo is None:
+            self.mo = (self.num_time_steps + 2) // 2 - self.mc
+        elif self.mc is None:
+            self.mc = (self.num_time_steps + 2) // 2 - self.mo
 
         if self.mo < 1 or self.mc < 1:
             raise ValueError(
-- 
2.43.0


From e7ba750e85a7cfbe6a9e497b3d2280aa49c3e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:00 +0000
Subject: [PATCH 28/32] fix: direct POD with weights of more than two
 dimensions failed with UnboundLocalError

---
 modred/pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modred/pod.py b/modred/pod.py
index 1d6c3a2..c159773 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -195,6 +195,8 @@ def compute_POD_arrays_direct_method(
         #modes = np.linalg.solve(sqrt_weights, modes_weighted[:, mode_indices])
         inv_sqrt_weights = np.linalg.inv(sqrt_weights)
         modes = inv_sqrt_weights.dot(modes_weighted[:, mode_indices])
+    else:
+        raise ValueError('Weights must be None, 1D, or 2D')
 
     # Compute projection coefficients
     eigvals = sing_vals ** 2.
-- 
2.43.0


From ff259901f2237540d8301537f0fe378c0f246d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 29/32] fix: balanced_truncation dropped states of systems with
 small gains

---
 modred/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 5249548..b51f378 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -374,11 +374,12 @@ def balanced_truncation(
         A, B.dot(B.transpose().conj()))
     gram_obsv = scipy.linalg.solve_discrete_lyapunov(A.transpose().conj(),
         C.transpose().conj().dot(C))
-    Uc, Ec, Vc = svd(gram_cont)
-    Uo, Eo, Vo = svd(gram_obsv)
+    # Relative tolerances, so that the units of inputs and outputs don't matter
+    Uc, Ec, Vc = svd(gram_cont, atol=0., rtol=1e-13)
+    Uo, Eo, Vo = svd(gram_obsv, atol=0., rtol=1e-13)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().conj().dot(Lc))
+    U, E, V = svd(Lo.transpose().conj().dot(Lc), atol=0., rtol=1e-13)
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
-- 
2.43.0


From 86dd04b41ee43d8698a10024c1635d5e775224ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 30/32] fix: compare time values of signal files in any unit of
 time

---
 modred/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index b51f378..1697203 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -573,7 +573,10 @@ def load_multiple_signals(signal_paths, delimiter=None):
     for path_num, signal_path in enumerate(signal_paths):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
-        if not np.allclose(time_values_read, time_values):
+        # Tolerance relative to the times, so that their units don't matter
+        if not np.allclose(
+            time_values_read, time_values,
+            atol=1e-8 * min(1., abs(time_values).max())):
             raise ValueError(('Time values in %s are inconsistent with '
                 'other files') % signal_path)
         if signals.shape != all_signals.shape[1:]:
-- 
2.43.0


From f91c225fcee2e8a6f2c511f22424f9b5d3b10c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 31/32] fix: do not read with a base vector cached before
 another worker put it

VecHandle.get keeps the last base vector, and put forgets it, but only on the
worker which puts.  In a distributed run the others kept subtracting the old
base vector.  Read the base vector every time when there are other workers.
---
 modred/vectors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index c8b8600..0d2dfa0 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -8,7 +8,7 @@ import pickle
 
 import numpy as np
 
-from . import util
+from . import parallel, util
 
 
 class VecHandle(object):
@@ -31,6 +31,10 @@ class VecHandle(object):
         vec = self._get()
         if self.__base_vec_handle is None:
             return self.__scale_vec(vec)
+        if parallel.is_distributed():
+            # Another worker may have put the base vector since it was cached
+            VecHandle.cached_base_vec_handle = None
+            VecHandle.cached_base_vec = None
         if self.__base_vec_handle is VecHandle.cached_base_vec_handle:
             base_vec = VecHandle.cached_base_vec
         else:
-- 
2.43.0


From f2e6058721312a4cd485a9ce5aac0d542d49c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:35 +0000
Subject: [PATCH 32/32] fix: balanced_truncation failed when no state is both
 reachable and observable

---
 modred/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 1697203..9656d40 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -230,7 +230,7 @@ def svd(array, atol=1e-13, rtol=None):
         num_nonzeros_atol = (abs(S) > atol).sum()
     else:
         num_nonzeros_atol = S.size
-    if rtol is not None:
+    if rtol is not None and S.size > 0:
         num_nonzeros_rtol = (
             abs(S[:num_nonzeros_atol]) / abs(S[0]) > rtol).sum()
         num_nonzeros = min(num_nonzeros_atol, num_nonzeros_rtol)
-- 
2.43.0

