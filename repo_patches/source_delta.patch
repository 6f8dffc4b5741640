From 1566e255ff43fcd885ca9b35955193c186ffc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 01/17] fix: DMD/TLSqrDMD eigendecompositions honour the rtol
 argument

---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..699a687 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1282,7 +1282,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1764,7 +1764,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1783,7 +1783,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From efa1ba35b6362459fe854c2b56536f465b92b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 02/17] fix: exact DMD modes report bad handles with
 ValueError, not TypeError

---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 699a687..729f664 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From 49055d089f8c69fd3ce2c819f1ef4320630c165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 03/17] fix: sequential DMD decomposition forgets advanced
 handles of an earlier one

---
 modred/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 729f664..5fd493b 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1870,8 +1870,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From 77ad158cd605d27bf3f88ebe8dc4679eb2873edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 04/17] fix: TLSqrDMD spectral coefficients of complex data
 (method of snapshots)

---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 5fd493b..985a3d6 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1325,7 +1325,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From d237fae187b9079f70d1470a167a3d9f07cf3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 05/17] fix: DMD spectral coefficients stay 1D for a single
 mode

---
 modred/dmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 985a3d6..b26f35b 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -1074,7 +1074,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1325,7 +1325,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -2146,7 +2146,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
-- 
2.43.0


From 94802258f7e7d6aede94ca45c54c6ccb8486c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 06/17] fix: decompositions of a single mode can be read back

---
 modred/bpod.py |  4 ++--
 modred/dmd.py  | 20 ++++++++++----------
 modred/pod.py  |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..d9736fe 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,8 +210,8 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
-            self.get_array, sing_vals_src))
+        self.sing_vals = np.atleast_1d(np.squeeze(parallel.call_and_bcast(
+            self.get_array, sing_vals_src)))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
         self.R_sing_vecs = parallel.call_and_bcast(
diff --git a/modred/dmd.py b/modred/dmd.py
index b26f35b..6cc5156 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -557,15 +557,15 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, correlation_array_eigvals_src)))
+            self.get_array, correlation_array_eigvals_src))))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, correlation_array_eigvecs_src)
 
@@ -1977,20 +1977,20 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, sum_correlation_array_eigvals_src)))
+            self.get_array, sum_correlation_array_eigvals_src))))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, proj_correlation_array_eigvals_src)))
+            self.get_array, proj_correlation_array_eigvals_src))))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvecs_src)
 
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..1ad5a09 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,8 +264,8 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
-            self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(parallel.call_and_bcast(
+            self.get_array, eigvals_src))))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
 
-- 
2.43.0


From da0d30061790d89c8db3ecbcdf06cd6f8ad4468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/17] fix: eigh with atol=None drops negative eigenvalues
 instead of failing

---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..06ed05f 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -277,7 +277,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() < 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From 58d42159ebec45496bd564f68ca0504873ab3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 08/17] fix: text files of integer, single precision or
 Fortran-ordered arrays

---
 modred/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index 06ed05f..c5bb9b6 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -82,6 +82,10 @@ def save_array_text(array, file_name, delimiter=None):
     elif array.ndim > 2:
         raise RuntimeError('Cannot save an array with >2 dimensions')
 
+    # Make the real numbers (or real and imaginary parts) contiguous doubles
+    array = np.ascontiguousarray(
+        array, dtype=complex if np.iscomplexobj(array) else float)
+
     # Save data
     if delimiter is None:
         np.savetxt(file_name, array.view(float))
-- 
2.43.0


From dd127bd2c8251c38571615f9e22fa371943c8f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 09/17] fix: balanced truncation uses the Gramians of the
 discrete-time system

---
 modred/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index c5bb9b6..131ebd8 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -368,20 +368,20 @@ def balanced_truncation(
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    gram_cont = scipy.linalg.solve_lyapunov(A, B.dot(B.transpose().conj()))
-    gram_obsv = scipy.linalg.solve_lyapunov(A.transpose().conj(),
+    gram_cont = scipy.linalg.solve_discrete_lyapunov(A, B.dot(B.transpose().conj()))
+    gram_obsv = scipy.linalg.solve_discrete_lyapunov(A.transpose().conj(),
         C.transpose().conj().dot(C))
     Uc, Ec, Vc = svd(gram_cont)
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().dot(Lc))
+    U, E, V = svd(Lo.conj().transpose().dot(Lc))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
     SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
-    A_bal_trunc = SL.transpose().dot(A).dot(SR)
-    B_bal_trunc = SL.transpose().dot(B)
+    A_bal_trunc = SL.conj().transpose().dot(A).dot(SR)
+    B_bal_trunc = SL.conj().transpose().dot(B)
     C_bal_trunc = C.dot(SR)
     if return_sing_vals:
         return A_bal_trunc, B_bal_trunc, C_bal_trunc, E
-- 
2.43.0


From 8f1e57439a6a28f3fd9403324bfbca6c52c0e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 10/17] fix: tasks of (relatively) zero weight are assigned too

---
 modred/parallel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..a689866 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -224,6 +224,9 @@ def find_assignments(tasks, task_weights=None):
             new_max_task_index = np.abs(np.cumsum(
                 task_weights[first_unassigned_index:]) -\
                 work_per_worker).argmin() + first_unassigned_index
+            # The last worker takes all that is left, however small its weight
+            if num_remaining_workers == 1:
+                new_max_task_index = len(tasks) - 1
             # Append all tasks up to and including new_max_task_index
             task_assignments.append(tasks[first_unassigned_index:\
                 new_max_task_index+1])
-- 
2.43.0


From 616cd07da4a27386d499790df928abea1c1a9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 11/17] fix: inner product weights for vectors of length one

---
 modred/vectorspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..ca20711 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -19,7 +19,9 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights).squeeze()
+            self.weights = np.array(self.weights)
+            if self.weights.ndim > 0:
+                self.weights = np.atleast_1d(self.weights.squeeze())
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
-- 
2.43.0


From 3b595b3e839dbd01062b130a92677d7d0d5164fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 12/17] fix: ERA honours the Hankel dimensions given to its
 constructor or one at a time

---
 modred/era.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index f22a091..cce804d 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -144,6 +144,8 @@ class ERA(object):
         self.put_array = put_array
         self.mc = mc
         self.mo = mo
+        self._init_mc = mc
+        self._init_mo = mo
         self.outputs = None
         self.verbosity = verbosity
         self.A = None
@@ -190,8 +192,8 @@ class ERA(object):
         :math:`dt`.  You can account for this by multiplying B by :math:`dt`.
         """
         self._set_Markovs(np.array(Markovs))
-        self.mc = mc
-        self.mo = mo
+        self.mc = self._init_mc if mc is None else mc
+        self.mo = self._init_mo if mo is None else mo
 
         self._assemble_Hankel()
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
@@ -320,10 +322,11 @@ class ERA(object):
         # For additional output times, (nt-2)/4 rounds down, so
         # we use this formula.
 
-        if self.mo is None or self.mc is None:
-            # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        if self.mo is None:
             self.mo = (self.num_time_steps-2)//4
-            self.mc = self.mo
+        if self.mc is None:
+            self.mc = (self.num_time_steps-2)//4
 
         if (self.mo + self.mc) + 2 > self.num_time_steps:
             raise ValueError(
-- 
2.43.0


From 6a7ee3f449979d48d53fdd0b765c3a02a53239ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 13/17] fix: base vectors are cached per handle, and not across
 puts

---
 modred/vectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..e96dd5f 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -31,7 +31,7 @@ class VecHandle(object):
         vec = self._get()
         if self.__base_vec_handle is None:
             return self.__scale_vec(vec)
-        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
+        if self.__base_vec_handle is VecHandle.cached_base_vec_handle:
             base_vec = VecHandle.cached_base_vec
         else:
             base_vec = self.__base_vec_handle.get()
@@ -43,6 +43,9 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # What was put may be what the cached base vector is made from
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
-- 
2.43.0


From 5476ef824c2fd1a22973b7be6ba08a6fc76a4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 14/17] fix: load_multiple_signals refuses files of different
 sizes instead of broadcasting them

---
 modred/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index 131ebd8..d02ec36 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -558,6 +558,9 @@ def load_multiple_signals(signal_paths, delimiter=None):
     for path_num, signal_path in enumerate(signal_paths):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
+        if signals.shape != all_signals.shape[1:]:
+            raise ValueError('Data in %s has a different size than in other '
+                'files' % signal_path)
         if not np.allclose(time_values_read, time_values):
             raise ValueError('Time values in %s are inconsistent with '
                 'other files')
-- 
2.43.0


From f2035a6f7a9aaed3aec78beee8418c8e4f067599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 15/17] fix: inner product arrays hold every type of inner
 product, not only that of the first

---
 modred/vectorspace.py | 63 ++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index ca20711..c82aff6 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -139,6 +139,17 @@ class VectorSpaceHandles(object):
             print_msg(msg, output_channel=output_channel)
 
 
+    def _set_entry(self, array, row_index, col_index, value):
+        """Sets an entry of an inner product array and returns the array, first
+        converting it if its type (that of the first inner product) can't hold
+        the value, e.g., a complex value in a real array."""
+        dtype = np.result_type(array.dtype, np.asarray(value).dtype)
+        if dtype != array.dtype:
+            array = array.astype(dtype)
+        array[row_index, col_index] = value
+        return array
+
+
     def sanity_check(self, test_vec_handle):
         """Checks that user-supplied vector handle and vector satisfy
         requirements.
@@ -452,12 +463,12 @@ class VectorSpaceHandles(object):
                     if len(row_vecs) > 0:
                         for row_index in range(start_row_index, end_row_index):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - start_row_index],
-                                    col_vec)
+                                IP_array = self._set_entry(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - start_row_index],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
@@ -606,16 +617,20 @@ class VectorSpaceHandles(object):
                 for row_index in range(proc_row_tasks[0],
                     proc_row_tasks[-1] + 1):
                     # Diagonal term
-                    IP_array[row_index, row_index] = self.inner_product(
-                        row_vecs[row_index - proc_row_tasks[0]],
-                        row_vecs[row_index - proc_row_tasks[0]])
+                    IP_array = self._set_entry(
+                        IP_array, row_index, row_index,
+                        self.inner_product(
+                            row_vecs[row_index - proc_row_tasks[0]],
+                            row_vecs[row_index - proc_row_tasks[0]]))
 
                     # Off-diagonal terms
                     for col_index in range(
                         row_index + 1, proc_row_tasks[-1] + 1):
-                        IP_array[row_index, col_index] = self.inner_product(
-                            row_vecs[row_index - proc_row_tasks[0]],
-                            row_vecs[col_index - proc_row_tasks[0]])
+                        IP_array = self._set_entry(
+                            IP_array, row_index, col_index,
+                            self.inner_product(
+                                row_vecs[row_index - proc_row_tasks[0]],
+                                row_vecs[col_index - proc_row_tasks[0]]))
 
             # Number of square chunks to fill in is n * (n-1) / 2.  At each
             # iteration we fill in n of them, so we need (n-1) / 2
@@ -683,12 +698,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             my_row_indices[0], my_row_indices[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    my_col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - my_row_indices[0]],
-                                    col_vec)
+                                IP_array = self._set_entry(
+                                    IP_array, row_index,
+                                    my_col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - my_row_indices[0]],
+                                        col_vec))
                             if (
                                 (time() - self.prev_print_time) >
                                 self.print_interval):
@@ -771,12 +786,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             proc_row_tasks[0], proc_row_tasks[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - proc_row_tasks[0]],
-                                    col_vec)
+                                IP_array = self._set_entry(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - proc_row_tasks[0]],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From b41d9139d27679db570da654e5a3b00a553d9d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 16/17] fix: linear combinations of vectors of different types
 (real and complex)

---
 modred/vectorspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index c82aff6..b5beb09 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -1060,8 +1060,10 @@ class VectorSpaceHandles(object):
                                 sum_layers[
                                     sum_index-start_sum_index] = sum_layer
                             else:
-                                sum_layers[
-                                    sum_index - start_sum_index] += sum_layer
+                                # Not in place, as the sum's type may differ.
+                                sum_layers[sum_index - start_sum_index] = (
+                                    sum_layers[sum_index - start_sum_index] +
+                                    sum_layer)
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From f00b5cb1d533a8735b3103081a782916eecf673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 17/17] fix: ERA keeps complex Markov parameters complex

---
 modred/era.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index cce804d..1bde134 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -43,7 +43,9 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
 
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
-    Markovs_corr = np.zeros((num_time_steps_corr, num_Markovs, num_inputs))
+    Markovs_corr = np.zeros(
+        (num_time_steps_corr, num_Markovs, num_inputs),
+        dtype=np.result_type(float, Markovs))
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
@@ -334,8 +336,9 @@ class ERA(object):
                 % (self.mo + self.mc + 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
-            (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-        self.Hankel_array2 = np.zeros(self.Hankel_array.shape)
+            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
+            dtype=np.result_type(float, self.Markovs))
+        self.Hankel_array2 = np.zeros_like(self.Hankel_array)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0

