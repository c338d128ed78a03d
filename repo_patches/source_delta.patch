From fc254957a814f43f8d1e0b5a4020a7b726710669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:13 +0000
Subject: [PATCH 001/105] fix: optimal amplitudes of projected modes ignored
 mode rescaling

With opt=True and exact=False the right-hand side of the optimal amplitude
system was built from the unscaled low-rank eigenvectors, so any rescale_mode
gave amplitudes unrelated to the modes. Use the modes themselves.
---
 pydmd/dmdbase.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 2397a38..755b4c4 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -8,7 +8,6 @@ from copy import copy, deepcopy
 import numpy as np
 
 from .dmdoperator import DMDOperator
-from .utils import compute_svd
 
 
 class ActivationBitmaskProxy:
@@ -692,17 +691,10 @@ _set_initial_time_dictionary() has not been called, did you call fit()?"""
             else:
                 X = self.snapshots[:, :-1]
 
-            _, s, V = compute_svd(X, self.modes.shape[-1])
-
             q = np.conj(
                 np.diag(
                     np.linalg.multi_dot(
-                        [
-                            vander[:, : X.shape[1]],
-                            V,
-                            np.diag(s).conj(),
-                            self.operator.eigenvectors,
-                        ]
+                        [vander[:, : X.shape[1]], X.conj().T, self.modes]
                     )
                 )
             )
-- 
2.43.0


From f071eae79476de86bcbab3b5891407072ce8ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:38 +0000
Subject: [PATCH 002/105] fix: automatic rescaling reused the first fit's
 singular values on refit

compute_operator() overwrote rescale_mode='auto' with the singular values of
the first data set, so a second fit() was scaled with stale factors (or
rejected when the rank changed).
---
 pydmd/dmdoperator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdoperator.py b/pydmd/dmdoperator.py
index 5495f8d..c6553e1 100644
--- a/pydmd/dmdoperator.py
+++ b/pydmd/dmdoperator.py
@@ -59,6 +59,9 @@ class DMDOperator:
         self._sorted_eigs = sorted_eigs
         self._tikhonov_regularization = tikhonov_regularization
         self._norm_X = None
+        self._auto_rescale = isinstance(rescale_mode, str) and (
+            rescale_mode == "auto"
+        )
 
     def compute_operator(self, X, Y):
         """
@@ -90,7 +93,7 @@ class DMDOperator:
                 msg = "Casting atilde from np.complex256 to np.complex128"
                 logging.info(msg)
 
-        if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
+        if self._auto_rescale:
             self._rescale_mode = s
 
         self._Atilde = atilde
-- 
2.43.0


From a70f06ea78499abe9a1cba7cb88f019d1b4e8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 003/105] fix: Tikhonov regularization crashed in compressed
 and randomized DMD

The norm of the (compressed) data used by the regularized operator was never
computed, so every fit with tikhonov_regularization set raised TypeError.
---
 pydmd/cdmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 973b22e..ea3fc22 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -79,6 +79,8 @@ class CDMDOperator(DMDOperator):
 
         U, s, V = compute_svd(compressedX, svd_rank=self._svd_rank)
 
+        if self._tikhonov_regularization is not None:
+            self._norm_X = np.linalg.norm(compressedX)
         atilde = self._least_square_operator(U, s, V, compressedY)
 
         if self._forward_backward:
-- 
2.43.0


From 576252fe4a013760b0b8c50ac295917e9db72359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 004/105] fix: documented rescale_mode='auto' rejected by CDMD,
 RDMD and SubspaceDMD

---
 pydmd/cdmd.py        | 3 +++
 pydmd/subspacedmd.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index ea3fc22..69c66ce 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -89,6 +89,9 @@ class CDMDOperator(DMDOperator):
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
+        if self._auto_rescale:
+            self._rescale_mode = s
+
         self._Atilde = atilde
         self._compute_eigenquantities()
         self._compute_modes(nonCompressedY, U, s, V)
diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 0818e1b..0fd8129 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -90,6 +90,9 @@ class SubspaceDMDOperator(DMDOperator):
 
         U, S, V = reducedsvd(Uq1)
 
+        if self._auto_rescale:
+            self._rescale_mode = S
+
         self._Atilde = self._least_square_operator(U, S, V, Uq2)
         self._compute_eigenquantities()
 
-- 
2.43.0


From 7dfa85cac859a63275d277febb6debde4427cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 005/105] fix: SubspaceDMD(opt=True).fit raised AttributeError

---
 pydmd/subspacedmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 0fd8129..e1df0e4 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -160,6 +160,7 @@ class SubspaceDMD(DMDBase):
         self._original_time = None
         self._dmd_time = None
         self._opt = opt
+        self._exact = True
 
         self._b = None
         self._snapshots_holder = None
-- 
2.43.0


From a5c453d9ba74ca4a32baeb0d84b3a9bb02dc5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 006/105] fix: RDMD reused the random test matrix of a previous
 fit

The test matrix drawn for the first data set was kept as if the user had
provided it, so refitting on other data used a stale (or wrongly shaped) one.
---
 pydmd/rdmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/rdmd.py b/pydmd/rdmd.py
index 1eb8aa0..a5ffa6a 100644
--- a/pydmd/rdmd.py
+++ b/pydmd/rdmd.py
@@ -71,7 +71,7 @@ class RDMD(CDMD):
         :return: the compressed snapshots
         :rtype: numpy.ndarray
         """
-        Q, B, test_matrix = compute_rqb(
+        Q, B, _ = compute_rqb(
             self.snapshots,
             self._svd_rank,
             self._oversampling,
@@ -80,6 +80,5 @@ class RDMD(CDMD):
             self._seed,
         )
         self._compression_matrix = Q.conj().T
-        self._test_matrix = test_matrix
 
         return B
-- 
2.43.0


From 90619981464fb2d5bffa2666c3732f62371655fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 007/105] fix: SVD projection of complex snapshots used the
 plain transpose

The projection onto the left singular vectors lacked the conjugation, so
HODMD and the SVD-projection wrapper did not reproduce complex data.
---
 pydmd/preprocessing/svd_projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/svd_projection.py b/pydmd/preprocessing/svd_projection.py
index 7c6dc08..2d4bff3 100644
--- a/pydmd/preprocessing/svd_projection.py
+++ b/pydmd/preprocessing/svd_projection.py
@@ -52,7 +52,7 @@ class _SvdProjectionPrePostProcessing(PrePostProcessing):
             svd_rank = self._svd_rank
         projection_matrix, _, _ = compute_svd(X, svd_rank)
 
-        return projection_matrix, projection_matrix.T.dot(X)
+        return projection_matrix, projection_matrix.conj().T.dot(X)
 
     @override
     def post_processing(
-- 
2.43.0


From b9dd46a663a54dfa090330848012401a940307d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:39 +0000
Subject: [PATCH 008/105] fix: finite differences of complex data dropped the
 imaginary part

---
 pydmd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/utils.py b/pydmd/utils.py
index 5f8927f..ff2f396 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -313,7 +313,7 @@ def differentiate(X, dt):
         raise ValueError("Please ensure that input data is a 1D or 2D array.")
     if X.ndim == 1:
         X = X[None]
-    X_prime = np.empty(X.shape)
+    X_prime = np.empty(X.shape, dtype=np.result_type(X.dtype, float))
     X_prime[:, 1:-1] = (X[:, 2:] - X[:, :-2]) / (2 * dt)
     X_prime[:, 0] = (-3 * X[:, 0] + 4 * X[:, 1] - X[:, 2]) / (2 * dt)
     X_prime[:, -1] = (3 * X[:, -1] - 4 * X[:, -2] + X[:, -3]) / (2 * dt)
-- 
2.43.0


From 0929c78afcaccc4dd37ad994681daf20864a97bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:09 +0000
Subject: [PATCH 009/105] fix: OptDMD dropped modes of eigenvalues with
 non-positive real part

pinv_diag() compared complex entries with an ordering and stored them in a
real array, so modes with such eigenvalues were zero and all others scaled by
the real part of the reciprocal only.
---
 pydmd/optdmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 0ed6527..deef0c6 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -30,9 +30,10 @@ def pinv_diag(x):
     factor = {"f": 1e2, "d": 1e4}
     rcond = factor[t] * np.finfo(t).eps
 
-    y = np.zeros(*x.shape)
+    y = np.zeros(x.shape, dtype=x.dtype)
 
-    y[x > rcond] = np.reciprocal(x[x > rcond])
+    mask = np.abs(x) > rcond
+    y[mask] = np.reciprocal(x[mask])
 
     return np.diag(y)
 
-- 
2.43.0


From b4ab7010a0c84a1a0514d90e119521d9526bdfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:09 +0000
Subject: [PATCH 010/105] fix: OptDMD.predict crashed with the default
 factorization

The eigendecomposition branch read a missing attribute, used the eigenvalues
in place of the left eigenvectors and normalized the latter with the wrong
conjugation.
---
 pydmd/optdmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index deef0c6..ec0c102 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -125,7 +125,7 @@ class DMDOptOperator(DMDOperator):
 
         # --> Rescale the left eigenvectors.
         m = np.diag(left_vecs.T.conj().dot(right_vecs))
-        left_vecs = left_vecs.dot(pinv_diag(m))
+        left_vecs = left_vecs.dot(pinv_diag(m.conj()))
 
         self._eigenvalues = vals
         self._eigenvectors = left_vecs
@@ -229,7 +229,7 @@ class OptDMD(DMDBase):
 
         elif self.factorization == "evd":
             # --> Compute DMD eigenvalues and right/left eigenvectors
-            self._input_space = self.eigs
+            self._input_space = self.operator.eigenvectors
             self._output_space = self.operator.right_eigenvectors
 
         return self
@@ -250,7 +250,7 @@ class OptDMD(DMDBase):
             Y = np.linalg.multi_dot(
                 [
                     self._output_space,
-                    np.diag(self._eigs),
+                    np.diag(self.eigs),
                     self._input_space.T.conj(),
                     X,
                 ]
-- 
2.43.0


From e5bc135e49131641d4782fcfd42aa53ddc9fa0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:44 +0000
Subject: [PATCH 011/105] fix: round-off added a time instant beyond the end of
 the time window

With non-integer dt the arange-based grids (e.g. t0=1, tend=1.3, dt=0.1)
contained an extra instant, so reconstructions had one snapshot too many.
---
 pydmd/dmdbase.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 755b4c4..6762933 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -102,6 +102,21 @@ class ActivationBitmaskProxy:
         return self._amplitudes
 
 
+def _time_grid(time_dict):
+    """
+    Time instants from `t0` to `tend` (included) with step `dt`. The number of
+    steps is computed up to a small tolerance, such that round-off in `tend`
+    and `dt` does not add an instant beyond `tend`.
+
+    :param dict time_dict: time dictionary.
+    :return: the time instants.
+    :rtype: numpy.ndarray
+    """
+    t0, tend, dt = time_dict["t0"], time_dict["tend"], time_dict["dt"]
+    n_steps = int(np.ceil((tend - t0) / dt - 1e-6))
+    return t0 + dt * np.arange(n_steps + 1)
+
+
 class DMDBase:
     """
     Dynamic Mode Decomposition base class.
@@ -203,11 +218,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.dmd_time["t0"],
-            self.dmd_time["tend"] + self.dmd_time["dt"],
-            self.dmd_time["dt"],
-        )
+        return _time_grid(self.dmd_time)
 
     @property
     def original_timesteps(self):
@@ -217,11 +228,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.original_time["t0"],
-            self.original_time["tend"] + self.original_time["dt"],
-            self.original_time["dt"],
-        )
+        return _time_grid(self.original_time)
 
     @property
     def modes(self):
-- 
2.43.0


From 4305cbf151e8fdcc37fd6ad98789782a7d93d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:44 +0000
Subject: [PATCH 012/105] fix: HankelDMD did not flatten multi-dimensional or
 list snapshots

The raw input, instead of the flattened snapshots, was handed over to the
delay embedding.
---
 pydmd/hankeldmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index d9c73d0..86913f5 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -222,7 +222,7 @@ class HankelDMD(DMDBase):
 Expected at least d."""
             raise ValueError(msg.format(self._d))
 
-        self._sub_dmd.fit(X)
+        self._sub_dmd.fit(self.snapshots)
 
         # Default timesteps
         self._set_initial_time_dictionary(
-- 
2.43.0


From af37f50ad9b1d6047f8f19c4760f10586e89903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:44 +0000
Subject: [PATCH 013/105] fix: HankelDMD time windows wrong for t0 != 0 or
 non-integer dt

The initial time was subtracted twice (as a time and as an index), and floor
division of floats lost one step to round-off, so shifted or rescaled time
windows were truncated or returned the wrong snapshots.
---
 pydmd/hankeldmd.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index 86913f5..3e63b46 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -127,10 +127,18 @@ class HankelDMD(DMDBase):
         :rtype: int
         """
         assert isinstance(time, Number) or np.asarray(time).ndim == 1
-        return max(
-            0,
-            (time - self.original_time["t0"]) // self.dmd_time["dt"]
-            - (self.original_time["t0"] + self._d - 1),
+        return max(0, self._time_index(time) - (self._d - 1))
+
+    def _time_index(self, time):
+        """
+        Number of timesteps between the first input snapshot and `time`.
+
+        :param time: The time corresponding to the requested snapshot.
+        :return: The (rounded) number of timesteps.
+        :rtype: int
+        """
+        return int(
+            np.round((time - self.original_time["t0"]) / self.dmd_time["dt"])
         )
 
     def _update_sub_dmd_time(self):
@@ -152,13 +160,7 @@ class HankelDMD(DMDBase):
         self._update_sub_dmd_time()
 
         # we want to return only the requested timesteps
-        time_index = min(
-            self._d - 1,
-            int(
-                (self.dmd_time["t0"] - self.original_time["t0"])
-                // self.dmd_time["dt"]
-            ),
-        )
+        time_index = min(self._d - 1, self._time_index(self.dmd_time["t0"]))
         return self._sub_dmd.reconstructed_data[
             :, time_index : time_index + len(self.dmd_timesteps)
         ]
-- 
2.43.0


From 2f412cd96caefe28a613f2ebadc2391a1ece0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:55 +0000
Subject: [PATCH 014/105] fix: EDMD eigenfunctions crashed for models fitted on
 one time series

Without a separate Y the last snapshot is not part of the feature matrix, but
it was used to evaluate the kernel, giving mismatched dimensions.
---
 pydmd/edmd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index b4374d8..091f122 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -259,9 +259,15 @@ class EDMD(DMD):
         if not isinstance(x, np.ndarray) or np.ndim(x) != 1:
             raise ValueError("Input x must be a 1-D numpy array.")
 
+        # Only the right-hand side snapshots enter the feature matrix.
+        if self.snapshots_y is None:
+            X = self.snapshots[:, :-1]
+        else:
+            X = self.snapshots
+
         K_xx = pairwise_kernels(
             x[None],
-            self.snapshots.T,
+            X.T,
             self._kernel_metric,
             **self._kernel_params,
         )
-- 
2.43.0


From f5108ec220ecc56eb836d4cd9e246a8b56628160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:07 +0000
Subject: [PATCH 015/105] fix: select_modes discarded the wrong modes when some
 modes were already inactive

---
 pydmd/dmd_modes_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index e8c3388..af6abf5 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -69,7 +69,8 @@ def select_modes(
 
     if len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
-        tmp[cut_indexes] = False
+        # the criteria sees only the modes which are currently active
+        tmp[np.where(tmp)[0][cut_indexes]] = False
         dmd.modes_activation_bitmask = tmp
 
     if return_indexes:
-- 
2.43.0


From bdadf58d140976d809cd4810925f79aee7b16a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:07 +0000
Subject: [PATCH 016/105] fix: select_modes ignored nullify_amplitudes

---
 pydmd/dmd_modes_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index af6abf5..0ca0d39 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -67,7 +67,9 @@ def select_modes(
     all_indexes = set(np.arange(len(dmd.eigs)))
     cut_indexes = np.array(list(all_indexes - set(selected_indexes)))
 
-    if len(cut_indexes) > 0:
+    if len(cut_indexes) > 0 and nullify_amplitudes:
+        dmd.amplitudes[cut_indexes] = 0
+    elif len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
         # the criteria sees only the modes which are currently active
         tmp[np.where(tmp)[0][cut_indexes]] = False
-- 
2.43.0


From 614a2abc466f348d84c57e5ce9259474596ff450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:07 +0000
Subject: [PATCH 017/105] fix: module threshold selector excluded its
 documented inclusive bounds

---
 pydmd/dmd_modes_tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 0ca0d39..5bd136a 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -182,8 +182,8 @@ class ModesSelectors:
         eigs_module = np.abs(dmd.eigs)
 
         return np.logical_and(
-            eigs_module < up_threshold,
-            eigs_module > low_threshold,
+            eigs_module <= up_threshold,
+            eigs_module >= low_threshold,
         )
 
     @staticmethod
-- 
2.43.0


From 4f4a6450eae722a786e8e7c4aa54501069795fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:07 +0000
Subject: [PATCH 018/105] fix: integral_contribution(0) selected every mode

---
 pydmd/dmd_modes_tuner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 5bd136a..63e0f18 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -352,7 +352,7 @@ and `max_distance_from_unity_outside` can be not `None`"""
             for tp in zip(modes.T, dynamics)
         ]
 
-        indexes_first_n = np.array(integral_contributions).argsort()[-n:]
+        indexes_first_n = np.array(integral_contributions).argsort()[::-1][:n]
 
         truefalse_array = np.array([False for _ in range(n_of_modes)])
         truefalse_array[indexes_first_n] = True
-- 
2.43.0


From f87c252f5039dcf32dc2347e422536dcb8727329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:27 +0000
Subject: [PATCH 019/105] fix: stable_modes treated a zero distance as not
 given

---
 pydmd/dmd_modes_tuner.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 63e0f18..b33beb7 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -278,18 +278,24 @@ class ModesSelectors:
             the criteria of stability.
         """
 
-        if max_distance_from_unity and max_distance_from_unity_inside:
+        if (
+            max_distance_from_unity is not None
+            and max_distance_from_unity_inside is not None
+        ):
             raise ValueError(
                 """Only one between `max_distance_from_unity`
 and `max_distance_from_unity_inside` can be not `None`"""
             )
-        if max_distance_from_unity and max_distance_from_unity_outside:
+        if (
+            max_distance_from_unity is not None
+            and max_distance_from_unity_outside is not None
+        ):
             raise ValueError(
                 """Only one between `max_distance_from_unity`
 and `max_distance_from_unity_outside` can be not `None`"""
             )
 
-        if max_distance_from_unity:
+        if max_distance_from_unity is not None:
             max_distance_from_unity_outside = max_distance_from_unity
             max_distance_from_unity_inside = max_distance_from_unity
 
-- 
2.43.0


From f2e07173a270514c632ec7f0a9df15fb8139af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:30 +0000
Subject: [PATCH 020/105] fix: frequency of real negative eigenvalues reported
 as zero

---
 pydmd/dmdbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 6762933..f30613a 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -383,7 +383,8 @@ class DMDBase:
         :return: the array that contains the frequencies of the eigenvalues.
         :rtype: numpy.ndarray
         """
-        return np.log(self.eigs).imag / (2 * np.pi * self.original_time["dt"])
+        eigs = np.asarray(self.eigs, dtype=complex)
+        return np.log(eigs).imag / (2 * np.pi * self.original_time["dt"])
 
     @property
     def growth_rate(self):  # To check
-- 
2.43.0


From a2ad3bf921ca1f9c48459f9f7f46f37c35f640c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:30 +0000
Subject: [PATCH 021/105] fix: dynamics between samples were NaN for real
 negative eigenvalues

---
 pydmd/dmdbase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index f30613a..bc7bbae 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -304,6 +304,10 @@ class DMDBase:
         # Therefore tpow must be scaled appropriately.
         tpow = self._translate_eigs_exponent(tpow)
 
+        if np.any(tpow % 1):
+            # fractional powers of negative eigenvalues are complex
+            temp = temp.astype(complex)
+
         return np.power(temp, tpow) * self.amplitudes[:, None]
 
     def _translate_eigs_exponent(self, tpow):
-- 
2.43.0


From 80c419081eb9bc436cb5555dbc290fe0892d6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:48 +0000
Subject: [PATCH 022/105] fix: forward-backward CDMD crashed when the backward
 data had a different rank

---
 pydmd/cdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 69c66ce..942983b 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -85,7 +85,7 @@ class CDMDOperator(DMDOperator):
 
         if self._forward_backward:
             # b stands for "backward"
-            bU, bs, bV = compute_svd(compressedY, svd_rank=self._svd_rank)
+            bU, bs, bV = compute_svd(compressedY, svd_rank=len(s))
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
-- 
2.43.0


From c4d497765400629b0eb38dadc0fe8da0b2196479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:44 +0000
Subject: [PATCH 023/105] fix: documented NumPy index arrays rejected when
 selecting modes

---
 pydmd/dmdbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index bc7bbae..54dda6e 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -523,7 +523,7 @@ class DMDBase:
         """
 
         if isinstance(key, (slice, int, list, np.ndarray)):
-            filter_function = lambda x: isinstance(x, int)
+            filter_function = lambda x: isinstance(x, (int, np.integer))
 
             if isinstance(key, (list, np.ndarray)):
                 if not all(map(filter_function, key)):
-- 
2.43.0


From 0cac61e751fb0fda3682dc9f48d613427e5cc4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:44 +0000
Subject: [PATCH 024/105] fix: NumPy integer ranks silently disabled the
 truncation

---
 pydmd/edmd.py  | 4 +++-
 pydmd/utils.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index 091f122..909ed56 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -172,7 +172,9 @@ class EDMDOperator(DMDOperator):
         if 0 < self._svd_rank < 1:
             cumulative_energy = np.cumsum(s**2 / (s**2).sum())
             return np.searchsorted(cumulative_energy, self._svd_rank) + 1
-        elif self._svd_rank >= 1 and isinstance(self._svd_rank, int):
+        elif self._svd_rank >= 1 and isinstance(
+            self._svd_rank, (int, np.integer)
+        ):
             return min(self._svd_rank, len(s))
         else:
             return len(s)
diff --git a/pydmd/utils.py b/pydmd/utils.py
index ff2f396..fa59f55 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -83,7 +83,7 @@ def _compute_rank(
     elif 0 < svd_rank < 1:
         cumulative_energy = np.cumsum(sigma_svd**2 / (sigma_svd**2).sum())
         rank = np.searchsorted(cumulative_energy, svd_rank) + 1
-    elif svd_rank >= 1 and isinstance(svd_rank, int):
+    elif svd_rank >= 1 and isinstance(svd_rank, (int, np.integer)):
         rank = min(svd_rank, sigma_svd.size)
     else:
         rank = min(rows, cols)
-- 
2.43.0


From 680d2477471dbaedd6558a9d3f5a501c484ff70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:44 +0000
Subject: [PATCH 025/105] fix: energy-based rank could exceed the number of
 singular values

---
 pydmd/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/utils.py b/pydmd/utils.py
index fa59f55..7bb5820 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -83,6 +83,8 @@ def _compute_rank(
     elif 0 < svd_rank < 1:
         cumulative_energy = np.cumsum(sigma_svd**2 / (sigma_svd**2).sum())
         rank = np.searchsorted(cumulative_energy, svd_rank) + 1
+        # round-off may keep the total below the requested energy
+        rank = min(rank, sigma_svd.size)
     elif svd_rank >= 1 and isinstance(svd_rank, (int, np.integer)):
         rank = min(svd_rank, sigma_svd.size)
     else:
-- 
2.43.0


From 5f7f6d4defb36fa29b07ea70b1142b9d327ceffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:31 +0000
Subject: [PATCH 026/105] fix: VarProDMD started from the reciprocals of the
 approximated eigenvalues

---
 pydmd/varprodmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 88d336e..61ce079 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -384,9 +384,10 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
     if len(time.shape) != 1:
         raise ValueError("time needs to be a 1D array")
 
-    #  y_in, z_in, data_in, u_r
+    #  z_in, y_in, data_in, u_r
     res = _varpro_preprocessing(data, time, rank, use_proj)
-    omegas = _compute_dmd_ev(res[0], res[1], res[-1].shape[-1])
+    # z = A y: the eigenvalues of A are the initial guess
+    omegas = _compute_dmd_ev(res[1], res[0], res[-1].shape[-1])
 
     if compression > 0:
         indices = select_best_samples_fast(res[2], compression)
-- 
2.43.0


From 41d07da52617b44a7775b6efe63aa0884fe95761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:31 +0000
Subject: [PATCH 027/105] fix: VarProDMD crashed when the compression left at
 most one sample

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 61ce079..f969dee 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -393,7 +393,7 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         indices = select_best_samples_fast(res[2], compression)
 
         if indices.size <= 1:
-            indices = np.arange(res[2])
+            indices = np.arange(res[2].shape[-1])
 
     else:
         indices = np.arange(res[2].shape[-1])
-- 
2.43.0


From 5ff01c8e0a0d0836ead6e879650611158ba55360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:31 +0000
Subject: [PATCH 028/105] fix: VarProDMD modes could belong to a rejected
 optimization step

---
 pydmd/varprodmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index f969dee..869675b 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -416,6 +416,10 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         opthelper,
         **optargs,
     )
+    # the last residual evaluated may belong to a rejected step
+    _compute_dmd_rho(
+        opt.x, time[indices], res[2][:, indices].T, opthelper
+    )
     omegas.real = opt.x[: opt.x.shape[-1] // 2]
     omegas.imag = opt.x[opt.x.shape[-1] // 2 :]
     xi = res[-1] @ opthelper.b_matrix.T if use_proj else opthelper.b_matrix.T
-- 
2.43.0


From 42a713e32f6f92c7ac28fa0cbd2c4e7ba5224f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:31 +0000
Subject: [PATCH 029/105] fix: VarProDMD kept the modes of a previous fit

---
 pydmd/varprodmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 869675b..397cee4 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -704,6 +704,7 @@ class VarProDMD(DMDBase):
         :rtype: object
         """
 
+        self._reset()
         self._snapshots_holder = Snapshots(X)
         (self._b, self._optres, self._indices) = self._Atilde.compute_operator(
             self._snapshots_holder.snapshots.astype(np.complex128), time
-- 
2.43.0


From 999e46601f59451ddf465c3111bd20bfe2e1d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:31 +0000
Subject: [PATCH 030/105] fix: VarProDMD.forecast ignored the modes activation
 bitmask

---
 pydmd/varprodmd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 397cee4..e3ef805 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -728,9 +728,7 @@ class VarProDMD(DMDBase):
         if not self.fitted:
             raise ValueError("Nothing fitted yet. Call fit-method first!")
 
-        return varprodmd_predict(
-            self._Atilde.modes, self._Atilde.eigenvalues, self._b, time
-        )
+        return varprodmd_predict(self.modes, self.eigs, self.amplitudes, time)
 
     @property
     def ssr(self) -> float:
-- 
2.43.0


From 778815535abb15f7870c32ba7857d6a50fce73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 031/105] fix: MrDMD kept the depth reduced by short data, and
 crashed for a list of DMDs

---
 pydmd/mrdmd.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index a1ca06f..2381e81 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -76,6 +76,7 @@ class MrDMD(DMDBase):
         self.dmd = dmd
         self.max_cycles = max_cycles
         self.max_level = max_level
+        self._requested_max_level = max_level
         self._build_tree()
 
     def __iter__(self):
@@ -207,11 +208,11 @@ class MrDMD(DMDBase):
         if callable(self.dmd):
             builder_func = self.dmd
         elif isinstance(self.dmd, (list, tuple)):
-            if len(self.dmd) != self.max_level + 1:
+            if len(self.dmd) != self._requested_max_level + 1:
                 raise ValueError(
                     """
 Expected one item per level, got {} out of {} levels.""".format(
-                        len(self.dmd), self.max_level
+                        len(self.dmd), self._requested_max_level
                     )
                 )
 
@@ -482,9 +483,11 @@ Expected one item per level, got {} out of {} levels.""".format(
         lvl_threshold = (
             int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
         )
-        if self.max_level > lvl_threshold:
-            self.max_level = lvl_threshold
+        max_level = min(self._requested_max_level, lvl_threshold)
+        if max_level != self.max_level:
+            self.max_level = max_level
             self._build_tree()
+        if max_level < self._requested_max_level:
             print(
                 "Too many levels... "
                 "Redefining `max_level` to {}".format(self.max_level)
-- 
2.43.0


From acd13ceb411d613ad686d895ca7a9c9f571f1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 032/105] fix: MrDMD truncated the residual of integer
 snapshots

---
 pydmd/mrdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 2381e81..2825625 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -496,7 +496,7 @@ Expected one item per level, got {} out of {} levels.""".format(
         def slow_modes(dmd, rho):
             return np.abs(np.log(dmd.eigs)) < rho * 2 * np.pi
 
-        X = self.snapshots.copy()
+        X = self.snapshots.astype(np.result_type(self.snapshots, float))
         for level in self.dmd_tree.levels:
             n_leaf = 2**level
             Xs = np.array_split(X, n_leaf, axis=1)
-- 
2.43.0


From 095eecfad14fa0e002d31becd839e30ffd328df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 033/105] fix: BOPDMD stable constraint modified the caller's
 initial guess in place

---
 pydmd/bopdmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index b0f7fbd..70c511c 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -348,6 +348,7 @@ class BOPDMDOperator(DMDOperator):
             eigenvalues = np.copy(new_eigs)
 
         if "stable" in self._eig_constraints:
+            eigenvalues = np.copy(eigenvalues)
             right_half = eigenvalues.real > 0.0
             eigenvalues[right_half] = 1j * eigenvalues[right_half].imag
         elif "imag" in self._eig_constraints:
-- 
2.43.0


From 2015fea30b9e11a9386ab1a715448a7fb6254a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:58 +0000
Subject: [PATCH 034/105] fix: LANDO kept the modes and operator of a previous
 fixed point analysis

---
 pydmd/lando.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index ea487e7..cd35949 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -184,6 +184,13 @@ class LANDOOperator(DMDOperator):
 
         # Initialize values if fitting for the first time.
         if not updating:
+            # Discard the fixed point analysis of any previous model.
+            self._eigenvalues = None
+            self._eigenvectors = None
+            self._modes = None
+            self._Atilde = None
+            self._A = None
+
             # Initialize the Cholesky factorization routine.
             ind_0 = parsing_inds[0]
             x_0 = X[:, ind_0][..., None]
@@ -275,6 +282,7 @@ class LANDOOperator(DMDOperator):
             self._A = self.weights.dot(kernel_grad)
             self._Atilde = np.linalg.multi_dot([U.conj().T, self._A, U])
         else:
+            self._A = None
             self._Atilde = np.linalg.multi_dot(
                 [U.conj().T, self.weights, kernel_grad, U]
             )
@@ -830,6 +838,9 @@ class LANDO(DMDBase):
             self._x_rescale,
         )
 
+        # Discard the modes and amplitudes of any previous analysis.
+        self._modes_activation_bitmask_proxy = None
+        self._b = None
         self._b = self._compute_amplitudes()
 
     def update(self, X, Y=None):
@@ -878,6 +889,8 @@ class LANDO(DMDBase):
                 self.kernel_gradient,
                 self._x_rescale,
             )
+            self._modes_activation_bitmask_proxy = None
+            self._b = None
             self._b = self._compute_amplitudes()
 
         # Flag this model as updated.
-- 
2.43.0


From 4242f5a2a2658d8f7377894e843b6fd533362700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:58 +0000
Subject: [PATCH 035/105] fix: LANDO gradient of the RBF kernel had the wrong
 sign

---
 pydmd/lando.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index cd35949..eb8ea1e 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -590,7 +590,7 @@ class LANDO(DMDBase):
         # Kernel metric is RBF.
         centered_X = X - y[..., None]
         return np.diag(
-            -2
+            2
             * gamma
             * np.exp(-gamma * np.linalg.norm(centered_X, 2, axis=0) ** 2)
         ).dot(centered_X.T)
-- 
2.43.0


From a5e46e1eb54c45505801629a465e751bab45bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:58 +0000
Subject: [PATCH 036/105] fix: LANDO.predict crashed for multidimensional
 snapshots

---
 pydmd/lando.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index eb8ea1e..8479e93 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -931,7 +931,7 @@ class LANDO(DMDBase):
         if continuous:
 
             def ode_sys(xt, x):
-                return self.f(x[..., None]).flatten()
+                return self.f(x.reshape(*self.snapshots_shape, 1)).flatten()
 
             if solve_ivp_opts is None:
                 solve_ivp_opts = {}
@@ -952,7 +952,9 @@ class LANDO(DMDBase):
         Y = np.empty((len(x0), tend))
         Y[:, 0] = x0
         for i in range(tend - 1):
-            Y[:, i + 1] = self.f(Y[:, i][..., None]).flatten()
+            Y[:, i + 1] = self.f(
+                Y[:, i].reshape(*self.snapshots_shape, 1)
+            ).flatten()
 
         return Y
 
-- 
2.43.0


From f83c34420ff10f9b30646506aada3916685573b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:58 +0000
Subject: [PATCH 037/105] fix: LANDO.predict could return more data points than
 requested

---
 pydmd/lando.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 8479e93..4a76432 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -936,7 +936,7 @@ class LANDO(DMDBase):
             if solve_ivp_opts is None:
                 solve_ivp_opts = {}
 
-            t_eval = np.arange(0, tend * dt, dt)
+            t_eval = np.arange(tend) * dt
 
             sol = solve_ivp(
                 ode_sys,
-- 
2.43.0


From a1f0871754bbf005983b7a87b3b1c6ca90648684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:37 +0000
Subject: [PATCH 038/105] fix: LANDO could not be refitted with a
 multidimensional x_rescale

---
 pydmd/lando.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 4a76432..d1c2bcb 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -509,7 +509,8 @@ class LANDO(DMDBase):
             lstsq=lstsq,
         )
 
-        # Keep track of the data rescaling factor.
+        # Keep track of the data rescaling factor, as given and flattened.
+        self._x_rescale_input = x_rescale
         self._x_rescale = x_rescale
 
         # Keep track of the last fixed point analysis.
@@ -987,16 +988,17 @@ class LANDO(DMDBase):
         or a numpy array. Also ensures that if `x_rescale` is an array, then it
         must possess the same shape as the flattened input snapshots.
         """
-        if not isinstance(self._x_rescale, (int, float, np.ndarray)):
+        x_rescale = self._x_rescale_input
+        if not isinstance(x_rescale, (int, float, np.ndarray)):
             raise TypeError("x_rescale must be a float or a numpy array.")
-        if isinstance(self._x_rescale, np.ndarray):
-            if self._x_rescale.shape != self.snapshots_shape:
+        if isinstance(x_rescale, np.ndarray):
+            if x_rescale.shape != self.snapshots_shape:
                 msg = (
                     "If a numpy array, x_rescale must have the "
                     "same shape {} as the input features X."
                 )
                 raise ValueError(msg.format(self.snapshots_shape))
-            self._x_rescale = self._x_rescale.flatten()
+            self._x_rescale = x_rescale.flatten()
 
     def _test_kernel_inputs(self, kernel_metric, kernel_params):
         """
-- 
2.43.0


From ba88b73f167e73b7ff0b3b27c2d6d5f46660ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:45 +0000
Subject: [PATCH 039/105] fix: fit of a pre/post-processed DMD returned the
 bare wrapped instance

---
 pydmd/preprocessing/pre_post_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 7ff0253..2d6e638 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,7 +98,8 @@ class PrePostProcessingDMD(Generic[S]):
         new_args, new_kwargs = PrePostProcessingDMD._replace_training_data(
             pre_processed_training_data, *args, **kwargs
         )
-        return self._dmd.fit(*new_args, **new_kwargs)
+        self._dmd.fit(*new_args, **new_kwargs)
+        return self
 
     def _reconstructed_data_with_post_processing(self) -> np.ndarray:
         data = self._dmd.reconstructed_data
-- 
2.43.0


From a6f11ea1f5241aa1e8b7b8a2a29212065d06f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:45 +0000
Subject: [PATCH 040/105] fix: assigning dmd_time to a pre/post-processed DMD
 had no effect

---
 pydmd/preprocessing/pre_post_processing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 2d6e638..a951e88 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -90,6 +90,14 @@ class PrePostProcessingDMD(Generic[S]):
     def modes_activation_bitmask(self, value):
         self._dmd.modes_activation_bitmask = value
 
+    @property
+    def dmd_time(self):
+        return self._dmd.dmd_time
+
+    @dmd_time.setter
+    def dmd_time(self, value):
+        self._dmd.dmd_time = value
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From f59734a026612ccdaf2f6d71aa8e43a336947c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:45 +0000
Subject: [PATCH 041/105] fix: HAVOK.compute_threshold crashed for an integer p

---
 pydmd/havok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 9325af8..3fe8efd 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -565,7 +565,7 @@ class HAVOK:
             # Use Gaussian intersection.
             a = gauss - hy
             sgn = np.sign(a)
-            ind_signchange = np.where(sgn(a[:-1]) * sgn(a[1:]) > 0)[0]
+            ind_signchange = np.where(sgn[:-1] * sgn[1:] < 0)[0]
             thres_1 = np.abs(hx[ind_signchange])
             thres_2 = np.abs(hx[ind_signchange + 1])
             threshold_candidates = np.sort(0.5 * (thres_1 + thres_2))
-- 
2.43.0


From 6e0c00e6a7ef0000ab9b0c01fbae0bc7446e31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:38 +0000
Subject: [PATCH 042/105] fix: COSTS and mrCOSTS shared and modified the
 caller's pydmd_kwargs

---
 pydmd/costs.py   | 2 +-
 pydmd/mrcosts.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 040322b..c3354fb 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -125,7 +125,7 @@ class COSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index b2de48a..fa16ec8 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -95,7 +95,7 @@ class mrCOSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
-- 
2.43.0


From 2bf75f3bb8e7548bcc84c1e6e10c7bc595958fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:38 +0000
Subject: [PATCH 043/105] fix: COSTS reused the rank computed for the data of a
 previous fit

---
 pydmd/costs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c3354fb..18aad4c 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -92,6 +92,7 @@ class COSTS:
         self._window_length = None
         self._n_components = n_components
         self._svd_rank = svd_rank
+        self._requested_svd_rank = svd_rank
         self._global_svd = global_svd
         self._initialize_artificially = initialize_artificially
         self._use_last_freq = use_last_freq
@@ -454,6 +455,9 @@ class COSTS:
         :type corner_sharpness: float or int
         """
 
+        # Discard the rank computed for the data of a previous fit.
+        self._svd_rank = self._requested_svd_rank
+
         # Prepare window and data properties.
         self._window_length = window_length
         self._step_size = step_size
@@ -1523,6 +1527,7 @@ class COSTS:
         self._time_array = ds.time.values
         self._n_slides = ds.attrs["n_slides"]
         self._svd_rank = ds.attrs["svd_rank"]
+        self._requested_svd_rank = self._svd_rank
         self._n_data_vars = ds.attrs["n_data_vars"]
         self._n_time_steps = ds.attrs["n_time_steps"]
         self._n_components = ds.attrs["num_frequency_bands"]
-- 
2.43.0


From 97936d26c34457f5cb7e79085c9a16342ff08065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:38 +0000
Subject: [PATCH 044/105] fix: mrCOSTS could not be refitted after a cluster
 sweep

---
 pydmd/mrcosts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index fa16ec8..c64595b 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -59,6 +59,7 @@ class mrCOSTS:
         transform_method=None,
     ):
         self._n_components_array = n_components_array
+        self._n_components_swept = False
         self._step_size_array = step_size_array
         self._window_length_array = window_length_array
         self._svd_rank_array = svd_rank_array
@@ -288,7 +289,10 @@ class mrCOSTS:
 
         # Check for the n_components array and cluster sweeping.
         if self._cluster_sweep:
-            if self._n_components_array is not None:
+            if (
+                self._n_components_array is not None
+                and not self._n_components_swept
+            ):
                 raise ValueError(
                     (
                         "Only one of `cluster_sweep` and `n_components_array` "
@@ -296,6 +300,7 @@ class mrCOSTS:
                     )
                 )
             self._n_components_array = np.zeros(self._n_decompositions) * np.nan
+            self._n_components_swept = True
 
         # Set the global_svd flag if none was provided.
         if self._global_svd_array is None:
-- 
2.43.0


From 108894075e38b0759170072f7b38b4c8b496cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:31 +0000
Subject: [PATCH 045/105] fix: BOPDMD reused the rank, basis and initial guess
 of a previous fit

---
 pydmd/bopdmd.py | 24 ++++++++++++++++++------
 pydmd/costs.py  |  3 +++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 70c511c..379bcec 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1044,11 +1044,12 @@ class BOPDMD(DMDBase):
         bag_maxfail=200,
         varpro_opts_dict=None,
     ):
-        self._svd_rank = svd_rank
+        # The given values, and the ones used by the last fit.
+        self._given_svd_rank = self._svd_rank = svd_rank
+        self._given_init_alpha = self._init_alpha = init_alpha
+        self._given_proj_basis = self._proj_basis = proj_basis
         self._compute_A = compute_A
         self._use_proj = use_proj
-        self._init_alpha = init_alpha
-        self._proj_basis = proj_basis
         self._num_trials = num_trials
         self._trial_size = trial_size
         self._eig_sort = eig_sort
@@ -1096,7 +1097,7 @@ class BOPDMD(DMDBase):
 
     @svd_rank.setter
     def svd_rank(self, value):
-        self._svd_rank = value
+        self._given_svd_rank = self._svd_rank = value
 
     @property
     def compute_A(self):
@@ -1134,7 +1135,7 @@ class BOPDMD(DMDBase):
 
         :param value: The new eigenvalue guess.
         """
-        self._init_alpha = value
+        self._given_init_alpha = self._init_alpha = value
 
     @property
     def proj_basis(self):
@@ -1156,7 +1157,7 @@ class BOPDMD(DMDBase):
 
         :param new_proj_basis: The new projection basis to assign.
         """
-        self._proj_basis = new_proj_basis
+        self._given_proj_basis = self._proj_basis = new_proj_basis
 
     @property
     def num_trials(self):
@@ -1404,6 +1405,7 @@ class BOPDMD(DMDBase):
         """
         # Process the input data and convert to numpy.ndarrays.
         self._reset()
+        self._reset_computed_parameters()
         self._snapshots_holder = Snapshots(X)
         self._time = np.array(t).squeeze()
 
@@ -1476,6 +1478,15 @@ class BOPDMD(DMDBase):
 
         return self
 
+    def _reset_computed_parameters(self):
+        """
+        Helper function that discards the rank, the initial guess, and the
+        projection basis that were computed for the data of a previous fit.
+        """
+        self._svd_rank = self._given_svd_rank
+        self._init_alpha = self._given_init_alpha
+        self._proj_basis = self._given_proj_basis
+
     def fit_econ(self, s, V, t):
         """
         Compute the Optimized Dynamic Mode Decomposition using the
@@ -1495,6 +1506,7 @@ class BOPDMD(DMDBase):
         :type t: numpy.ndarray
         """
         self._reset()
+        self._reset_computed_parameters()
         self._time = np.asarray(t).squeeze()
         s = np.asarray(s).squeeze()
 
diff --git a/pydmd/costs.py b/pydmd/costs.py
index 18aad4c..d28357a 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -615,6 +615,9 @@ class COSTS:
                 # is much more computationally expensive.
                 elif self._reset_alpha_init:
                     optdmd.init_alpha = None
+            else:
+                # Use the initial guess of the first window for every window.
+                optdmd.init_alpha = optdmd.init_alpha
 
     def get_window_indices(self, k):
         """Returns the window indices for slide `k`.
-- 
2.43.0


From 45bb03d52ce2c65a82a1ced992b28e87eda51884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 046/105] fix: a VarProDMD with default optimizer arguments
 could not be saved or copied

---
 pydmd/varprodmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index e3ef805..579c3eb 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -680,7 +680,8 @@ class VarProDMD(DMDBase):
         # not used.
 
         if optargs is None:
-            optargs = OPT_DEF_ARGS
+            # a mapping proxy can be neither copied nor pickled
+            optargs = dict(OPT_DEF_ARGS)
 
         self._Atilde = VarProOperator(
             svd_rank, exact, sorted_eigs, compression, optargs
-- 
2.43.0


From 572daf87916a8ef36768bde78e48ba089681f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:33 +0000
Subject: [PATCH 047/105] fix: plot_summary crashed for models that delay the
 data themselves

---
 pydmd/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index 0dc2ec7..1d7ecd7 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -678,7 +678,7 @@ def plot_summary(
 
     # By default, snapshots_shape is the flattened space dimension.
     if snapshots_shape is None:
-        snapshots_shape = (len(dmd.snapshots) // d,)
+        snapshots_shape = (len(dmd.modes) // d,)
     # If provided, snapshots_shape must contain 2 entires.
     elif len(snapshots_shape) != 2:
         raise ValueError("snapshots_shape must be None or 2-D.")
-- 
2.43.0


From 1152bbdf2fffc389b498dc91e26fc437c601a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:48 +0000
Subject: [PATCH 048/105] fix: BOPDMD ensemble forecast crashed after fit_econ
 and for a single instant

---
 pydmd/bopdmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 379bcec..e1ac30b 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1599,7 +1599,7 @@ class BOPDMD(DMDBase):
         :rtype: numpy.ndarray or numpy.ndarray, numpy.ndarray
         """
         # Process the input data and convert to numpy.ndarray.
-        t = np.array(t).squeeze()
+        t = np.atleast_1d(np.array(t).squeeze())
 
         # Reject the input time vector if it isn't one-dimensional.
         if t.ndim > 1:
@@ -1609,7 +1609,7 @@ class BOPDMD(DMDBase):
         if self.operator.eigenvalues_std is not None:
             # Compute num_trials many forecasts.
             all_x = np.empty(
-                (self._num_trials, self.snapshots.shape[0], len(t)),
+                (self._num_trials, self.modes.shape[0], len(t)),
                 dtype="complex",
             )
 
-- 
2.43.0


From f7994b493d0926181b87143fc69fd1b62a8cb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:54 +0000
Subject: [PATCH 049/105] fix: BOPDMD uncertainties ignored the modes
 activation bitmask

---
 pydmd/bopdmd.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index e1ac30b..64a0301 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1236,7 +1236,9 @@ class BOPDMD(DMDBase):
         if not self.fitted:
             raise ValueError("You need to call fit() before.")
 
-        return self.operator.amplitudes_std
+        if self.operator.amplitudes_std is None:
+            return None
+        return self.operator.amplitudes_std[self.modes_activation_bitmask]
 
     @property
     def eigenvalues_std(self):
@@ -1249,7 +1251,9 @@ class BOPDMD(DMDBase):
         if not self.fitted:
             raise ValueError("You need to call fit() before.")
 
-        return self.operator.eigenvalues_std
+        if self.operator.eigenvalues_std is None:
+            return None
+        return self.operator.eigenvalues_std[self.modes_activation_bitmask]
 
     @property
     def modes_std(self):
@@ -1262,7 +1266,9 @@ class BOPDMD(DMDBase):
         if not self.fitted:
             raise ValueError("You need to call fit() before.")
 
-        return self.operator.modes_std
+        if self.operator.modes_std is None:
+            return None
+        return self.operator.modes_std[:, self.modes_activation_bitmask]
 
     @property
     def eig_constraints(self):
@@ -1617,11 +1623,11 @@ class BOPDMD(DMDBase):
                 # Draw eigenvalues and amplitudes from random distribution.
                 eigs_k = self.eigs + np.multiply(
                     np.random.randn(*self.eigs.shape),
-                    self.operator.eigenvalues_std,
+                    self.eigenvalues_std,
                 )
                 b_k = self.amplitudes + np.multiply(
                     np.random.randn(*self.amplitudes.shape),
-                    self.operator.amplitudes_std,
+                    self.amplitudes_std,
                 )
                 # Compute forecast using average modes and eigs_k, b_k.
                 all_x[k] = np.linalg.multi_dot(
-- 
2.43.0


From 917c80735b36913f949501439fb16ac97c266382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:27 +0000
Subject: [PATCH 050/105] fix: saving a pre/post-processed DMD dropped the
 pre/post-processing

---
 pydmd/preprocessing/pre_post_processing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index a951e88..f3414b1 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,6 +98,14 @@ class PrePostProcessingDMD(Generic[S]):
     def dmd_time(self, value):
         self._dmd.dmd_time = value
 
+    def save(self, fname):
+        """
+        Save this instance (including the pre/post-processing) to `fname`.
+
+        :param str fname: the name of file where this instance will be saved.
+        """
+        DMDBase.save(self, fname)
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From fca2c2dea35484b85522b758bdc2115147f172fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 051/105] fix: structured HAVOK differentiated singular vectors
 of inconsistent signs

---
 pydmd/havok.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 3fe8efd..7c40ac4 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -384,7 +384,10 @@ class HAVOK:
         if self._structured:
             U, s, V = compute_svd(hankel_matrix[:, :-1], self._svd_rank)
             self._r = len(s)
-            V2 = compute_svd(hankel_matrix[:, 1:], self._r)[-1]
+            U2, _, V2 = compute_svd(hankel_matrix[:, 1:], self._r)
+            # The signs of singular vectors are arbitrary, make them consistent
+            # in order to obtain a meaningful difference.
+            V2 = V2 * np.where(np.sum(U * U2, axis=0) < 0, -1, 1)
             V_dot = (V2 - V) / dt
 
         # Perform standard HAVOK.
-- 
2.43.0


From ab60526345b899d975638872d688e1c27352c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 052/105] fix: HankelDMD reconstruction wrong before the first
 snapshot and for other timesteps

---
 pydmd/hankeldmd.py | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index 3e63b46..a337c5c 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -127,7 +127,9 @@ class HankelDMD(DMDBase):
         :rtype: int
         """
         assert isinstance(time, Number) or np.asarray(time).ndim == 1
-        return max(0, self._time_index(time) - (self._d - 1))
+        index = self._time_index(time)
+        # nothing precedes the instants before the first input snapshot
+        return min(index, max(0, index - (self._d - 1)))
 
     def _time_index(self, time):
         """
@@ -138,7 +140,9 @@ class HankelDMD(DMDBase):
         :rtype: int
         """
         return int(
-            np.round((time - self.original_time["t0"]) / self.dmd_time["dt"])
+            np.round(
+                (time - self.original_time["t0"]) / self.original_time["dt"]
+            )
         )
 
     def _update_sub_dmd_time(self):
@@ -158,12 +162,37 @@ class HankelDMD(DMDBase):
     @property
     def reconstructed_data(self):
         self._update_sub_dmd_time()
+        t0, dt = self.original_time["t0"], self.original_time["dt"]
+
+        # Delayed copies of a snapshot are one *original* timestep apart, hence
+        # we reconstruct together the requested timesteps which have the same
+        # distance (`phase`) from the original ones.
+        steps = (self.dmd_timesteps - t0) / dt
+        phases = np.round(steps % 1, 6) % 1
+        columns = np.round(steps - phases).astype(int)
+
+        reconstruction = None
+        for phase in np.unique(phases):
+            requested = np.flatnonzero(phases == phase)
+            first = self._hankel_first_occurrence(
+                t0 + columns[requested[0]] * dt
+            )
+            last = self._hankel_first_occurrence(
+                t0 + columns[requested[-1]] * dt
+            )
+            self._sub_dmd.dmd_time["t0"] = first + phase
+            self._sub_dmd.dmd_time["tend"] = last + phase
+            data = self._sub_dmd.reconstructed_data
+
+            # we want to return only the requested timesteps
+            data = data[:, columns[requested] - first]
+            if reconstruction is None:
+                reconstruction = np.empty(
+                    (data.shape[0], len(steps)), dtype=data.dtype
+                )
+            reconstruction[:, requested] = data
 
-        # we want to return only the requested timesteps
-        time_index = min(self._d - 1, self._time_index(self.dmd_time["t0"]))
-        return self._sub_dmd.reconstructed_data[
-            :, time_index : time_index + len(self.dmd_timesteps)
-        ]
+        return reconstruction
 
     @property
     def modes(self):
-- 
2.43.0


From 29aea4c3d2598bcadf75c5943ae8064858d2adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 053/105] fix: weights given as a list rejected when
 reconstructing delayed data

---
 pydmd/preprocessing/hankel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/hankel.py b/pydmd/preprocessing/hankel.py
index 6686776..e13d1b7 100644
--- a/pydmd/preprocessing/hankel.py
+++ b/pydmd/preprocessing/hankel.py
@@ -119,7 +119,7 @@ class _HankelPrePostProcessing(PrePostProcessing):
                 result = _first_reconstructions(rec, d=self._d)
             elif self._reconstruction_method == "mean":
                 result = np.nanmean(rec, axis=1).T
-        elif isinstance(self._reconstruction_method, np.ndarray):
+        elif isinstance(self._reconstruction_method, (list, tuple, np.ndarray)):
             result = np.ma.average(
                 rec, axis=1, weights=self._reconstruction_method
             ).T
-- 
2.43.0


From 2473a59f6e73abf81352a7a970f28cc8a61a85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 054/105] fix: HAVOK.compute_threshold modified the caller's
 plot_kwargs

---
 pydmd/havok.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 7c40ac4..0535490 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -581,8 +581,7 @@ class HAVOK:
 
         if plot:
             # Set the plotting parameters first.
-            if plot_kwargs is None:
-                plot_kwargs = {}
+            plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
             if "figsize" not in plot_kwargs:
                 plot_kwargs["figsize"] = (5, 4)
             if "semilogy" not in plot_kwargs:
-- 
2.43.0


From 705010dc47ff62f7b1eb1ae632032b4019f16f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:28 +0000
Subject: [PATCH 055/105] fix: HAVOK applied the initial condition at time zero
 instead of at the first time

---
 pydmd/havok.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 0535490..3e38b5f 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -792,11 +792,12 @@ class HAVOK:
         D = 0.0 * self.B
         havok_system = StateSpace(self.A, self.B, C, D)
 
-        # Reconstruct the linear dynamics using the HAVOK system.
+        # Reconstruct the linear dynamics using the HAVOK system. Note that V0
+        # is the initial condition at the first time, while lsim assumes t=0.
         embeddings = lsim(
             havok_system,
             U=forcing,
-            T=time,
+            T=np.asarray(time) - time[0],
             X0=V0,
         )[1]
 
-- 
2.43.0


From 2479cb7c954deabc1925b927c4e021eeb179ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 056/105] fix: HAVOK with a single linear embedding could not
 be reconstructed

---
 pydmd/havok.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 3e38b5f..3511231 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -801,7 +801,8 @@ class HAVOK:
             X0=V0,
         )[1]
 
-        return embeddings
+        # A single embedding is squeezed by lsim.
+        return embeddings.reshape(-1, len(self.A))
 
     def _embeddings_to_original(self, V):
         """
-- 
2.43.0


From 55d852903cbd7472e94feeaa9fc2fa33656a7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:24 +0000
Subject: [PATCH 057/105] fix: DMDc rejected the control matrix B given as a
 list

---
 pydmd/dmdc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index 63572a8..f19857d 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -326,6 +326,7 @@ class DMDc(DMDBase):
                 X, Y, self._controlin
             )
         else:
+            B = np.asarray(B)
             self._Atilde = DMDBKnownOperator(**self._dmd_operator_kwargs)
             U, _, _ = self.operator.compute_operator(X, Y, B, self._controlin)
 
-- 
2.43.0


From 3f8a9e704ea1d0d25fbc6fefd46247e6187260c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 058/105] fix: PiDMD symmetric and circulant fits of complex
 data were not the best fit

---
 pydmd/pidmd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 181e0fb..a8e9fb8 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -118,7 +118,7 @@ def compute_symmetric(X, Y, svd_rank, skew_symmetric=False):
                 atilde[i, j] /= s[i] ** 2 + s[j] ** 2
         atilde += -atilde.conj().T - 1j * np.diag(np.diag(atilde.imag))
     else:  # symmetric
-        atilde = np.diag(np.diagonal(C).real / s)[:r, :r]
+        atilde = np.diag(np.diagonal(C).real / s)[:r, :r].astype(C.dtype)
         for i in range(r):
             for j in range(i + 1, r):
                 atilde[i, j] = s[i] * np.conj(C[j, i]) + s[j] * C[i, j]
@@ -184,7 +184,7 @@ def compute_circulant(X, Y, circulant_opt, svd_rank, compute_A):
     flag is not True. Returns a dictionary of computed values.
     """
     nx = len(X)
-    fX = fft(X, axis=0)
+    fX = fft(X.conj(), axis=0)
     fY = fft(Y.conj(), axis=0)
     fX_norm = np.linalg.norm(fX, axis=1)
     eigenvalues = np.divide(np.diag(fX.dot(fY.conj().T)), fX_norm**2)
-- 
2.43.0


From e35088b59358305ebb6cda9c12d2bf916d136893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 059/105] fix: PiDMD triangular operators were not triangular
 for few snapshots

---
 pydmd/pidmd_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index a8e9fb8..6b9f324 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -35,6 +35,12 @@ def compute_uppertriangular(X, Y):
     uppertriangular matrix A that solves the relationship Y = AX.
     Returns a dictionary containing A.
     """
+    nx, nt = X.shape
+    if nt < nx:
+        # R is not triangular, solve the underdetermined problem by rows.
+        ind_mat = np.stack([np.ones(nx), nx - np.arange(nx)], axis=1)
+        return compute_diagonal(X, Y, -1, ind_mat, True)
+
     R, Q = rq(X, mode="economic")
     Ut = np.triu(Y.dot(Q.conj().T))
     A = np.linalg.lstsq(R.T, Ut.T, rcond=None)[0].T
-- 
2.43.0


From c02c15edeac16a152872782fd9d9af08fbdb0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 060/105] fix: PiDMD diagonal and tridiagonal fits crashed
 without truncation

---
 pydmd/pidmd_utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 6b9f324..64e6a72 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -102,7 +102,20 @@ def compute_diagonal(X, Y, svd_rank, manifold_opt, compute_A):
     if compute_A:
         return {"A": A_sparse.toarray()}
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    return _leading_eigenpairs(A_sparse, r)
+
+
+def _leading_eigenpairs(A_sparse, r):
+    """
+    Compute the r eigenvalues of largest magnitude of a sparse matrix, and the
+    corresponding eigenvectors. Returns a dictionary of computed values.
+    """
+    if r < A_sparse.shape[0] - 1:
+        eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
+    else:  # not supported by sparse eigensolvers
+        eigenvalues, modes = np.linalg.eig(A_sparse.toarray())
+        ind = np.argsort(-np.abs(eigenvalues), kind="stable")[:r]
+        eigenvalues, modes = eigenvalues[ind], modes[:, ind]
     return {"eigenvalues": eigenvalues, "modes": modes}
 
 
@@ -271,8 +284,7 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
         return {"A": A_sparse.toarray()}
 
     r = compute_rank(X, svd_rank)
-    eigenvalues, modes = sparse.linalg.eigs(A_sparse, k=r)
-    return {"eigenvalues": eigenvalues, "modes": modes}
+    return _leading_eigenpairs(A_sparse, r)
 
 
 def compute_BCCB(X, Y, block_shape, bccb_opt, svd_rank):
-- 
2.43.0


From 2e09cde3893f23b6e082d32fac255df3da41824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 061/105] fix: PiDMD tridiagonal fit of complex data was not
 the best fit

---
 pydmd/pidmd_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 64e6a72..6bd34bf 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -246,11 +246,11 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
     T1 = sparse.diags(T1e)
 
     # Form the second and third blocks.
-    T2e = np.diag(X[1:].dot(X[:-1].T))
+    T2e = np.diag(X[1:].dot(X[:-1].conj().T))
     T2 = sparse.spdiags([T2e, T2e], diags=[-1, 0], m=nx, n=nx - 1)
 
     # Form the final block.
-    T3e = np.insert(np.diag(X[2:].dot(X[:-2].T)), 0, 0)
+    T3e = np.insert(np.diag(X[2:].dot(X[:-2].conj().T)), 0, 0)
     T3_offdiag = sparse.spdiags(T3e, diags=1, m=nx - 1, n=nx - 1)
     T3 = (
         sparse.spdiags(T1e[:-1] + T1e[1:], diags=0, m=nx - 1, n=nx - 1)
@@ -266,8 +266,9 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
     # Solve for c in the system Tc = d.
     d = np.concatenate(
         (
-            np.diag(X.dot(Y.T)),
-            np.diag(X[:-1].dot(Y[1:].T)) + np.diag(X[1:].dot(Y[:-1].T)),
+            np.diag(X.dot(Y.conj().T)),
+            np.diag(X[:-1].dot(Y[1:].conj().T))
+            + np.diag(X[1:].dot(Y[:-1].conj().T)),
         ),
         axis=None,
     )
-- 
2.43.0


From 955b184ec82695a11859723630b327b76b07499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 062/105] fix: PiDMD tridiagonal fit stopped far from the
 solution for badly scaled data

---
 pydmd/pidmd_utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 6bd34bf..6b487fa 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -272,7 +272,19 @@ def compute_symtridiagonal(X, Y, svd_rank, compute_A):
         ),
         axis=None,
     )
-    c = sparse.linalg.lsqr(T.real, d.real)[0]
+    # Equilibrate the system and solve it up to roundoff, the default tolerances
+    # of the solver are reached far from the solution for badly scaled data.
+    scale = np.sqrt(T.diagonal().real)
+    scale = np.divide(1.0, scale, out=np.ones(len(scale)), where=scale > 0)
+    T = sparse.diags(scale).dot(T.real).dot(sparse.diags(scale))
+    c = scale * sparse.linalg.lsqr(
+        T,
+        scale * d.real,
+        atol=1e-15,
+        btol=1e-15,
+        conlim=0,
+        iter_lim=100 * len(d),
+    )[0]
 
     # Form the solution matrix A.
     A_sparse = (
-- 
2.43.0


From 0b975419d386b0d1defc182ece86148c4e7ac719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 063/105] fix: PiDMD circulant fits crashed for data without
 one of the frequencies

---
 pydmd/pidmd_utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 6b487fa..917a870 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -206,6 +206,8 @@ def compute_circulant(X, Y, circulant_opt, svd_rank, compute_A):
     fX = fft(X.conj(), axis=0)
     fY = fft(Y.conj(), axis=0)
     fX_norm = np.linalg.norm(fX, axis=1)
+    # Frequencies which do not appear in the data have no effect.
+    fX_norm[fX_norm == 0] = 1
     eigenvalues = np.divide(np.diag(fX.dot(fY.conj().T)), fX_norm**2)
 
     if circulant_opt == "unitary":
@@ -217,10 +219,7 @@ def compute_circulant(X, Y, circulant_opt, svd_rank, compute_A):
 
     # Remove the least important eigenvalues.
     r = compute_rank(X, svd_rank)
-    res = np.divide(
-        np.diag(np.abs(fX.dot(fY.conj().T))),
-        np.linalg.norm(fX.conj().T, 2, axis=0).T,
-    )
+    res = np.divide(np.diag(np.abs(fX.dot(fY.conj().T))), fX_norm)
     ind_exclude = np.argpartition(res, nx - r)[: nx - r]
     eigenvalues[ind_exclude] = 0
 
@@ -325,12 +324,15 @@ def compute_BCCB(X, Y, block_shape, bccb_opt, svd_rank):
     nx = len(X)
     fX = fft_block2d(X.conj())
     fY = fft_block2d(Y.conj())
+    fX_norm = np.linalg.norm(fX, axis=1)
+    # Frequencies which do not appear in the data have no effect.
+    fX_norm[fX_norm == 0] = 1
     d = np.zeros(nx, dtype="complex")
 
     if not bccb_opt:
         for j in range(nx):
             d[j] = np.dot(fX[j], fY[j].conj()).conj()
-            d[j] /= np.linalg.norm(fX[j].conj(), 2) ** 2
+            d[j] /= fX_norm[j] ** 2
     else:
         for j in range(nx):
             dp = np.linalg.lstsq(fX[j, :, None], fY[j, :, None], rcond=None)[0][
@@ -345,10 +347,7 @@ def compute_BCCB(X, Y, block_shape, bccb_opt, svd_rank):
 
     # Remove the least important eigenvalues.
     r = compute_rank(X, svd_rank)
-    res = np.divide(
-        np.diag(np.abs(fX.dot(fY.conj().T))),
-        np.linalg.norm(fX.conj().T, 2, axis=0).T,
-    )
+    res = np.divide(np.diag(np.abs(fX.dot(fY.conj().T))), fX_norm)
     d[np.argpartition(res, nx - r)[: nx - r]] = 0
     A = fft_block2d(np.multiply(d.conj(), fft_block2d(np.eye(nx)).conj().T).T)
     return {"A": A}
-- 
2.43.0


From 60ae17e4fefa3d4651bce3c842c3158542b756fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:01 +0000
Subject: [PATCH 064/105] fix: PiDMD triangular operators were not triangular
 for low-rank data

---
 pydmd/pidmd_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 917a870..e33892a 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -35,9 +35,9 @@ def compute_uppertriangular(X, Y):
     uppertriangular matrix A that solves the relationship Y = AX.
     Returns a dictionary containing A.
     """
-    nx, nt = X.shape
-    if nt < nx:
-        # R is not triangular, solve the underdetermined problem by rows.
+    nx = len(X)
+    if np.linalg.matrix_rank(X) < nx:
+        # A is not determined by the triangular factors, solve by rows.
         ind_mat = np.stack([np.ones(nx), nx - np.arange(nx)], axis=1)
         return compute_diagonal(X, Y, -1, ind_mat, True)
 
-- 
2.43.0


From 845eae5c440f5b178ad31c7d62e03b1a3af751fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:03 +0000
Subject: [PATCH 065/105] fix: BOPDMD trials that start below the tolerance
 were reported as not converged

---
 pydmd/bopdmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 64a0301..b34ac70 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -595,6 +595,7 @@ class BOPDMDOperator(DMDOperator):
 
         # Initialize iteration progress indicators.
         residual, objective, error = compute_error(B, alpha)
+        converged = error < tol
 
         for itr in range(maxiter):
             # Build Jacobian matrix, looping over alpha indices.
-- 
2.43.0


From d4407f413279c4d965061134c009d05256d39d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:45 +0000
Subject: [PATCH 066/105] fix: BOPDMD.fit_econ rejected rank-one data

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index b34ac70..ba8eae3 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1515,7 +1515,7 @@ class BOPDMD(DMDBase):
         self._reset()
         self._reset_computed_parameters()
         self._time = np.asarray(t).squeeze()
-        s = np.asarray(s).squeeze()
+        s = np.atleast_1d(np.asarray(s).squeeze())
 
         if self._proj_basis is None or not self._use_proj:
             msg = """
-- 
2.43.0


From a71bcb4c213a6b85e758cfbcdadfcddca0ccc141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:19 +0000
Subject: [PATCH 067/105] fix: VarProDMD automatic sorting ignored the
 documented absolute values

---
 pydmd/varprodmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 579c3eb..f4ced2a 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -576,8 +576,8 @@ class VarProOperator(DMDOperator):
 
         if isinstance(self._sorted_eigs, str):
             if self._sorted_eigs == "auto":
-                eigs_real = self._eigenvalues.real
-                eigs_imag = self._eigenvalues.imag
+                eigs_real = np.abs(self._eigenvalues.real)
+                eigs_imag = np.abs(self._eigenvalues.imag)
                 _eigs_abs = np.abs(self._eigenvalues)
                 var_real = np.var(eigs_real)
                 var_imag = np.var(eigs_imag)
-- 
2.43.0


From 21176400ee162c17da42cd5ffd16d4a796913401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:02 +0000
Subject: [PATCH 068/105] fix: MrDMD reported no amplitudes and "not fitted"
 after a fit

---
 pydmd/mrdmd.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 2825625..2a3d093 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -117,6 +117,27 @@ class MrDMD(DMDBase):
         """
         return np.concatenate([dmd.eigs for dmd in self])
 
+    @property
+    def amplitudes(self):
+        """
+        Get the amplitudes of the modes of all the levels.
+
+        :return: the array that contains the amplitudes coefficient.
+        :rtype: numpy.ndarray
+        """
+        if self.fitted:
+            return np.concatenate([dmd.amplitudes for dmd in self])
+
+    @property
+    def fitted(self):
+        """
+        Check whether this instance has been fitted.
+
+        :return: `True` is the instance has been fitted, `False` otherwise.
+        :rtype: bool
+        """
+        return all(dmd.fitted for dmd in self)
+
     @property
     def modes_activation_bitmask(self):
         raise RuntimeError("This feature has not been implemented yet.")
-- 
2.43.0


From c61e05b1d8b0043a223f1c8c5cf9c9527a51c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:02 +0000
Subject: [PATCH 069/105] fix: MrDMD partial reconstruction returned delayed
 copies for delay-embedding DMDs

---
 pydmd/mrdmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 2a3d093..27e5dcc 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -443,10 +443,10 @@ Expected one item per level, got {} out of {} levels.""".format(
         :return: the selected reconstruction from dmd operators
         :rtype: numpy.ndarray
         """
-        modes = self.partial_modes(level, node)
-        dynamics = self.partial_dynamics(level, node)
-
-        return modes.dot(dynamics)
+        leaves = self.dmd_tree.index_leaves(level) if node is None else [node]
+        return np.hstack(
+            [self.dmd_tree[level, leaf].reconstructed_data for leaf in leaves]
+        )
 
     def partial_time_interval(self, level, leaf):
         """
-- 
2.43.0


From 1f3442b38a6964672a942082a87b9e81ceb3133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:10 +0000
Subject: [PATCH 070/105] fix: EDMD was wrong for data with repeated singular
 values, such as periodic data

---
 pydmd/edmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index 909ed56..c4675da 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -137,13 +137,13 @@ class EDMDOperator(DMDOperator):
             extended feature matrix.
         :rtype: numpy.ndarray, numpy.ndarray
         """
-        G_eigenvalues, G_eigenvectors = np.linalg.eig(Gramian)
+        # Note: The Gramian is symmetric, and its eigenvectors have to be
+        # orthogonal even in the presence of repeated eigenvalues.
+        G_eigenvalues, G_eigenvectors = np.linalg.eigh(Gramian)
 
         # Note: The eigenvalues of the Gramian are the singular values of the
         # feature embedding matrix, squared. Hence in theory, the eigenvalues
-        # should be real and non-negative, so we discard imaginary components
-        # and flip the sign of negative eigenvalues.
-        G_eigenvalues = G_eigenvalues.real
+        # should be non-negative, so we flip the sign of negative eigenvalues.
         negative_inds = G_eigenvalues < 0
         G_eigenvectors[:, negative_inds] *= -1
         G_eigenvalues[negative_inds] *= -1
-- 
2.43.0


From 0124f993e653344d89994a450aa4059246dc1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:38 +0000
Subject: [PATCH 071/105] fix: unknown reconstruction method of the Hankel
 pre-processing ended in UnboundLocalError

---
 pydmd/preprocessing/hankel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/preprocessing/hankel.py b/pydmd/preprocessing/hankel.py
index e13d1b7..636e6d0 100644
--- a/pydmd/preprocessing/hankel.py
+++ b/pydmd/preprocessing/hankel.py
@@ -119,6 +119,10 @@ class _HankelPrePostProcessing(PrePostProcessing):
                 result = _first_reconstructions(rec, d=self._d)
             elif self._reconstruction_method == "mean":
                 result = np.nanmean(rec, axis=1).T
+            else:
+                raise ValueError(
+                    f"{self._reconstruction_method=} not recognized"
+                )
         elif isinstance(self._reconstruction_method, (list, tuple, np.ndarray)):
             result = np.ma.average(
                 rec, axis=1, weights=self._reconstruction_method
-- 
2.43.0


From 531925c9a081d02f5862289528738da5ad021bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 072/105] fix: integral contribution of pre/post-processed DMDs
 depended on the current time window

---
 pydmd/preprocessing/pre_post_processing.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index f3414b1..a578c90 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,6 +98,15 @@ class PrePostProcessingDMD(Generic[S]):
     def dmd_time(self, value):
         self._dmd.dmd_time = value
 
+    # The mode selectors replace temporarily the time window.
+    @property
+    def _dmd_time(self):
+        return self._dmd._dmd_time
+
+    @_dmd_time.setter
+    def _dmd_time(self, value):
+        self._dmd._dmd_time = value
+
     def save(self, fname):
         """
         Save this instance (including the pre/post-processing) to `fname`.
-- 
2.43.0


From 592575b96a46795760c7e1635e5a7bb5a7199180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:18 +0000
Subject: [PATCH 073/105] fix: LANDO could not analyze fixed points with the
 kernel default gamma=None

---
 pydmd/lando.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index d1c2bcb..fa647d0 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -570,9 +570,8 @@ class LANDO(DMDBase):
             return X.T
 
         # Kernel metric must be polynomial or RBF.
-        if "gamma" in self._kernel_params:
-            gamma = self._kernel_params["gamma"]
-        else:  # set the pairwise_kernels gamma default
+        gamma = self._kernel_params.get("gamma")
+        if gamma is None:  # set the pairwise_kernels gamma default
             gamma = 1.0 / X.shape[0]
 
         if self._kernel_metric == "poly":
-- 
2.43.0


From a15a27953d72683e32cc5d84e5e8e6de4807ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:33 +0000
Subject: [PATCH 074/105] fix: mrCOSTS global bands misplaced or crashed on
 eigenvalues in no window's high bands

---
 pydmd/mrcosts.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index c64595b..e636099 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -385,10 +385,8 @@ class mrCOSTS:
             dim="window_time_means"
         ).values[0]
 
-        # Backwards fill the last non-NaN to the beginning of the first window
-        first_window = da_interp.dropna(
-            dim="window_time_means", how="all"
-        ).isel(window_time_means=0)
+        # Backwards fill the first window to its beginning
+        first_window = da.isel(window_time_means=0, drop=True)
 
         da_interp = xr.where(
             (
@@ -400,10 +398,8 @@ class mrCOSTS:
             da_interp,
         )
 
-        # Forward fill the last non-NaN to the end of the last window
-        last_window = da_interp.dropna(dim="window_time_means", how="all").isel(
-            window_time_means=-1
-        )
+        # Forward fill the last window to its end
+        last_window = da.isel(window_time_means=-1, drop=True)
 
         da_interp = xr.where(
             (
@@ -428,9 +424,7 @@ class mrCOSTS:
         """
         ds_list = [c.to_xarray() for c in self._costs_array]
         # Remove the low-frequency bands.
-        da_to_concat = [
-            ds_list[0].omega.where(ds_list[0].omega_classes > 0, drop=True)
-        ]
+        da_to_concat = [ds_list[0].omega.where(ds_list[0].omega_classes > 0)]
 
         # Interpolate the larger decomposition levels to the timestep of the
         # smallest decomposition level.
@@ -441,7 +435,7 @@ class mrCOSTS:
         # prior to discovering this mistake, but is more explicit than the
         # previous version.
         for ds in ds_list[1:]:
-            da = ds.omega.where(ds.omega_classes > 0, drop=True)
+            da = ds.omega.where(ds.omega_classes > 0)
             da_real = da.real
             da_imag = da.imag
 
@@ -456,8 +450,8 @@ class mrCOSTS:
             )
 
             # Complete the interpolation of the first and last window
-            da_imag = self.interp_fill(da_imag, da)
-            da_real = self.interp_fill(da_real, da)
+            da_imag = self.interp_fill(da_imag, da.imag)
+            da_real = self.interp_fill(da_real, da.real)
 
             da = da_real + 1j * da_imag
             da_to_concat.append(da)
-- 
2.43.0


From 9ac52e2a110ea6954d0d80d421a085e8a47e1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 075/105] fix: mrCOSTS clustered the eigenvalues of a previous
 fit after a refit

---
 pydmd/mrcosts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index e636099..e5bb6d2 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -307,6 +307,9 @@ class mrCOSTS:
             self._global_svd_array = [True] * n_decompositions
 
         self._costs_array = []
+        # Discard the global clustering of a previous fit.
+        self._da_omega = None
+        self._omega_classes = None
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         x_iter = data
-- 
2.43.0


From 53e94ea538af1f2c79ced6a4319145e9f0a48092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 076/105] fix: mrCOSTS loaded from file forgot its transform
 method

---
 pydmd/mrcosts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index e5bb6d2..60a6a3a 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -554,6 +554,7 @@ class mrCOSTS:
             global_svd_array=global_svd_array,
             pydmd_kwargs=pydmd_kwargs,
             n_components_array=n_components_array,
+            transform_method=mrd_list[0]._transform_method,
         )
 
         # Initialize variables that are defined in fitting.
-- 
2.43.0


From 4eedfe2b1845531f2fd1ea5746f4d248c8898696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 077/105] fix: COSTS could not cluster with the default
 transform method

---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index d28357a..a3ed86d 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -761,7 +761,7 @@ class COSTS:
         :rtype: numpy.ndarray
         """
         # Apply a transformation to omega to improve frequency band separation
-        if transform_method == "absolute":
+        if transform_method is None or transform_method == "absolute":
             omega_transform = np.abs(omega_array.imag.astype("float"))
             self._omega_label = r"$|\omega|$"
             self._hist_kwargs = {"bins": 64}
-- 
2.43.0


From dc3044c567819eeda4806a8115ac106ff236b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 078/105] fix: COSTS restored from xarray could not be
 clustered again

---
 pydmd/costs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index a3ed86d..38c9b37 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1527,6 +1527,7 @@ class COSTS:
         self._modes_array = ds.modes.values
         self._window_means_array = ds.window_means.values
         self._cluster_centroids = ds.cluster_centroids.values
+        self._svd_rank_pre_allocate = self._omega_array.shape[1]
         self._time_array = ds.time.values
         self._n_slides = ds.attrs["n_slides"]
         self._svd_rank = ds.attrs["svd_rank"]
-- 
2.43.0


From 9deb97036872c26a62cec6928d30a26dc4340e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 079/105] fix: COSTS with window-dependent ranks could not be
 exported or globally clustered

---
 pydmd/costs.py   | 2 +-
 pydmd/mrcosts.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 38c9b37..68417f1 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1482,7 +1482,7 @@ class COSTS:
             coords={
                 "window_time_means": np.mean(self.time_array, axis=1),
                 "slide": ("window_time_means", np.arange(self._n_slides)),
-                "svd_rank": np.arange(self.svd_rank),
+                "svd_rank": np.arange(self._svd_rank_pre_allocate),
                 "space": np.arange(self._n_data_vars),
                 "frequency_band": np.arange(self.n_components),
                 "window_index": np.arange(self._window_length),
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 60a6a3a..d88056a 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -1054,9 +1054,8 @@ class mrCOSTS:
 
             omega_classes = omega_classes_list[n_mrd]
 
-            if mrd.svd_rank < np.max(self._svd_rank_array):
-                truncate_slice = slice(None, mrd.svd_rank)
-                omega_classes = omega_classes[:, truncate_slice]
+            # Levels with a lower rank are padded to the largest rank.
+            omega_classes = omega_classes[:, : mrd.omega_array.shape[1]]
 
             # Iterate over each window slide performed.
             for k in range(mrd.n_slides):
-- 
2.43.0


From 22838d7fb611341c70a318cacca67fc947cf0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 080/105] fix: COSTS took the highest frequencies as the slow
 band when clustering by period

---
 pydmd/costs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 68417f1..c1f3cef 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -736,8 +736,10 @@ class COSTS:
         )
         cluster_centroids = clustering.cluster_centers_.flatten()
 
-        # Sort the clusters by the centroid magnitude.
+        # Sort the clusters by the centroid magnitude, i.e., by frequency.
         idx = np.argsort(cluster_centroids)
+        if transform_method == "period":
+            idx = idx[::-1]
         lut = np.zeros_like(idx)
         lut[idx] = np.arange(n_components)
         omega_classes = lut[omega_classes]
@@ -1008,7 +1010,7 @@ class COSTS:
                 ).real
 
                 # Add the constant offset to the lowest frequency cluster.
-                if include_means and j == np.argmin(self._cluster_centroids):
+                if include_means and j == 0:
                     xr_sep_window[j] += c
                 xr_sep_window[j] = xr_sep_window[j] * recon_filter
 
-- 
2.43.0


From c695bcf05d7f7e307d87b22cb92955b1ecdef983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:48 +0000
Subject: [PATCH 081/105] fix: clustering methods without fit_predict ended in
 AttributeError

---
 pydmd/costs.py   | 4 +---
 pydmd/mrcosts.py | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c1f3cef..9c46770 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -714,9 +714,7 @@ class COSTS:
             kmeans_kwargs["random_state"] = kmeans_kwargs.get(
                 "random_state", random_state
             )
-        if not hasattr(method, "fit_predict") and callable(
-            getattr(method, "fit_predict")
-        ):
+        if not callable(getattr(method, "fit_predict", None)):
             raise ValueError(
                 "Clustering method must have `fit_predict()` method."
             )
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index d88056a..d410911 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -829,9 +829,7 @@ class mrCOSTS:
                 "random_state", random_state
             )
         clustering = method(n_clusters=n_components, **clustering_kwargs)
-        if not hasattr(clustering, "fit_predict") and callable(
-            getattr(clustering, "fit_predict")
-        ):
+        if not callable(getattr(clustering, "fit_predict", None)):
             raise ValueError(
                 "Clustering method must have `fit_predict()` method."
             )
-- 
2.43.0


From 85754821a320828c784abad5a92bcfa9bd5e2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:41 +0000
Subject: [PATCH 082/105] fix: COSTS reconstructed refitted data with the
 frequency bands of a previous fit

---
 pydmd/costs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 9c46770..3610480 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -455,8 +455,9 @@ class COSTS:
         :type corner_sharpness: float or int
         """
 
-        # Discard the rank computed for the data of a previous fit.
+        # Discard the rank and the frequency bands of a previous fit.
         self._svd_rank = self._requested_svd_rank
+        self._omega_classes = None
 
         # Prepare window and data properties.
         self._window_length = window_length
-- 
2.43.0


From 55f7bb1cbb43941785a7e37b9259d44cdc76a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 083/105] fix: mrCOSTS could not globally cluster a level with
 a single window

---
 pydmd/mrcosts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index d410911..135cd6a 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -384,6 +384,10 @@ class mrCOSTS:
         :return: Interpolated eigenvalues with filled first and last windows.
         :rtype: xarray.DataArray
         """
+        # A single window spans all of the data.
+        if da.window_time_means.size == 1:
+            return da_interp.fillna(da.isel(window_time_means=0, drop=True))
+
         window_delta = da.window_time_means.diff(
             dim="window_time_means"
         ).values[0]
-- 
2.43.0


From 5657888c80da6050493e507516fbcba17ef8f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 084/105] fix: mrCOSTS lost or swapped the classes of windows
 off the time grid of the first level

---
 pydmd/mrcosts.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 135cd6a..ea83ef7 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -434,7 +434,11 @@ class mrCOSTS:
         da_to_concat = [ds_list[0].omega.where(ds_list[0].omega_classes > 0)]
 
         # Interpolate the larger decomposition levels to the timestep of the
-        # smallest decomposition level.
+        # smallest decomposition level. The window centers of all levels are
+        # included so that each window is represented by its own eigenvalues.
+        window_time_means = np.unique(
+            np.concatenate([ds.window_time_means.values for ds in ds_list])
+        )
 
         # Previously there was a mistake in the frequencies squared omega
         # transformation which made this step particularly likely to fail
@@ -447,12 +451,12 @@ class mrCOSTS:
             da_imag = da.imag
 
             da_real = da_real.interp(
-                window_time_means=ds_list[0].window_time_means,
+                window_time_means=window_time_means,
                 method="nearest",
             )
 
             da_imag = da_imag.interp(
-                window_time_means=ds_list[0].window_time_means,
+                window_time_means=window_time_means,
                 method="nearest",
             )
 
@@ -466,6 +470,7 @@ class mrCOSTS:
         da_omega = xr.concat(
             da_to_concat,
             dim="window_length",
+            join="outer",
         )
         da_omega.coords["window_length"] = self._window_length_array
         da_omega.coords["decomposition_level"] = (
-- 
2.43.0


From 8b172d4421f827f898ff0c98f9f6c6480f290b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 085/105] fix: COSTS lost the window means when the slow band
 was empty

---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 3610480..7a63477 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -998,7 +998,7 @@ class COSTS:
             xr_sep_window = np.zeros(
                 (self._n_components, self._n_data_vars, self._window_length)
             )
-            for j in np.unique(self._omega_classes):
+            for j in range(self._n_components):
                 class_index = classification == j
                 xr_sep_window[j] = np.linalg.multi_dot(
                     [
-- 
2.43.0


From 2e6fbb489998896ddfa9396d72198879add8bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:16 +0000
Subject: [PATCH 086/105] fix: COSTS restored from file split a single
 eigenvalue constraint into letters

---
 pydmd/costs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 7a63477..cbbc361 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1548,9 +1548,15 @@ class COSTS:
                 self._pydmd_kwargs[new_attr_name] = self._xarray_unsanitize(
                     ds.attrs[attr]
                 )
-                if new_attr_name == "eig_constraints":
+                # Files return lists with a single element as a scalar.
+                if (
+                    new_attr_name == "eig_constraints"
+                    and self._pydmd_kwargs[new_attr_name] is not None
+                ):
                     self._pydmd_kwargs[new_attr_name] = set(
-                        self._pydmd_kwargs[new_attr_name]
+                        np.atleast_1d(
+                            self._pydmd_kwargs[new_attr_name]
+                        ).tolist()
                     )
             elif "omega_transformation" in attr:
                 self._transform_method = self._xarray_unsanitize(ds.attrs[attr])
-- 
2.43.0


From d696f318fcd85c26d8fc9ea0e8a732701a2fbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:16 +0000
Subject: [PATCH 087/105] fix: COSTS with varpro options could not be saved to
 file

---
 pydmd/costs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index cbbc361..861b2b9 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -8,6 +8,7 @@ multiscale nonlinear physics. Physics Review E, 99(6),
 """
 
 import copy
+import json
 
 import numpy as np
 from sklearn.cluster import MiniBatchKMeans
@@ -1548,6 +1549,12 @@ class COSTS:
                 self._pydmd_kwargs[new_attr_name] = self._xarray_unsanitize(
                     ds.attrs[attr]
                 )
+                if new_attr_name == "varpro_opts_dict" and isinstance(
+                    self._pydmd_kwargs[new_attr_name], str
+                ):
+                    self._pydmd_kwargs[new_attr_name] = json.loads(
+                        self._pydmd_kwargs[new_attr_name]
+                    )
                 # Files return lists with a single element as a scalar.
                 if (
                     new_attr_name == "eig_constraints"
@@ -1578,6 +1585,8 @@ class COSTS:
             value = "None"
         elif isinstance(value, set):
             value = list(value)
+        elif isinstance(value, dict):
+            value = json.dumps(value)
         elif callable(value):
             value = f"Custom function {value.__name__}"
         return value
-- 
2.43.0


From 5ce61cb4dce653a87a1e5faa31f7ed194781735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:40 +0000
Subject: [PATCH 088/105] fix: mrCOSTS loaded from file handed the basis of its
 first level to the others

---
 pydmd/mrcosts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index ea83ef7..04f0a2b 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -553,7 +553,10 @@ class mrCOSTS:
 
         # mrCOSTS currently does not support variable pydmd_kwargs
         # for each level.
-        pydmd_kwargs = mrd_list[0]._pydmd_kwargs
+        pydmd_kwargs = dict(mrd_list[0]._pydmd_kwargs)
+        # The basis of a global svd is specific to the level.
+        if global_svd_array[0]:
+            pydmd_kwargs["proj_basis"] = None
 
         # Initialize the mrcosts object.
         self.__init__(
-- 
2.43.0


From 7cfc838513f8f414fc384c06cb62b41dd46c9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:43 +0000
Subject: [PATCH 089/105] fix: partitioned ParametricDMD could not use BOPDMD

---
 pydmd/paramdmd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 6c0d969..6f0310e 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -481,9 +481,12 @@ Property not available now, did you call `fit()`?"""
         :rtype: numpy.ndarray
         """
         if self.is_partitioned:
-            for dmd in self._dmd:
-                # we want to "bound" this DMD objects' dmd_time
-                dmd.dmd_time = self._reference_dmd.dmd_time
+            # DMD variants without a time dictionary (e.g. BOPDMD) always
+            # reconstruct the time instants passed to `fit`
+            if hasattr(self._reference_dmd, "dmd_time"):
+                for dmd in self._dmd:
+                    # we want to "bound" this DMD objects' dmd_time
+                    dmd.dmd_time = self._reference_dmd.dmd_time
             return np.vstack(
                 list(map(lambda dmd: dmd.reconstructed_data, self._dmd))
             )
-- 
2.43.0


From da1aeb86531dcbdf280d4af8b1061ba27cfc330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 090/105] fix: 2D plots scrambled modes and snapshots which are
 not square

---
 pydmd/plotter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index 1d7ecd7..660e66f 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -382,8 +382,8 @@ def plot_modes_2D(
     # If domain dimensions have not been passed as argument,
     # use the snapshots dimensions
     if x is None and y is None:
-        x = np.arange(snapshots_shape[0])
-        y = np.arange(snapshots_shape[1])
+        x = np.arange(snapshots_shape[1])
+        y = np.arange(snapshots_shape[0])
 
     xgrid, ygrid = np.meshgrid(x, y)
 
@@ -497,8 +497,8 @@ def plot_snapshots_2D(
     # If domain dimensions have not been passed as argument,
     # use the snapshots dimensions
     if x is None and y is None:
-        x = np.arange(snapshots_shape[0])
-        y = np.arange(snapshots_shape[1])
+        x = np.arange(snapshots_shape[1])
+        y = np.arange(snapshots_shape[0])
 
     xgrid, ygrid = np.meshgrid(x, y)
 
-- 
2.43.0


From fcc9ec2d4379065b4a9f86873e5403660384c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 091/105] fix: plot_eigs_mrdmd drew every level when level 0
 was requested

---
 pydmd/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index 660e66f..8166e98 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -241,7 +241,7 @@ def plot_eigs_mrdmd(
             "You have to perform the fit method."
         )
 
-    if level:
+    if level is not None:
         peigs = dmd.partial_eigs(level=level, node=node)
     else:
         peigs = dmd.eigs
@@ -251,7 +251,7 @@ def plot_eigs_mrdmd(
     plt.gcf()
     ax = plt.gca()
 
-    if not level:
+    if level is None:
         cmap = plt.get_cmap("viridis")
         colors = [cmap(i) for i in np.linspace(0, 1, len(dmd.dmd_tree.levels))]
 
@@ -306,7 +306,7 @@ def plot_eigs_mrdmd(
         )
 
     # legend
-    if level:
+    if level is not None:
         labels = [f"Eigenvalues - level {level}"]
     else:
         labels = [f"Eigenvalues - level {i}" for i in range(len(points))]
-- 
2.43.0


From ea6c279a89d65e8f5f1807d1c73da4015ca68b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 092/105] fix: plot_summary crashed for a time window other
 than the original one

---
 pydmd/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/plotter.py b/pydmd/plotter.py
index 8166e98..e308b1f 100644
--- a/pydmd/plotter.py
+++ b/pydmd/plotter.py
@@ -750,7 +750,7 @@ def plot_summary(
                 )
         else:
             try:
-                time = dmd.original_timesteps
+                time = dmd.dmd_timesteps
                 dt = dmd.original_time["dt"]
             except AttributeError:
                 warnings.warn(
-- 
2.43.0


From f55952a2159cedd5cae7e8f3cb9bcd8870156845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 093/105] fix: HAVOK.plot_summary crashed when the forcing
 never exceeds the threshold

---
 pydmd/havok.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 3511231..84c699d 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -827,6 +827,9 @@ class HAVOK:
             >>> _get_index_slices(a, min_jump_dist=2)
             [(2, 5), (10, 12), (25, 28)]
         """
+        if len(x) == 0:
+            return []
+
         # Get the locations within x where a significant jump occurs.
         jumps = x[1:] - x[:-1] > min_jump_dist
         jump_starts = np.insert(x[1:][jumps], 0, x[0])
-- 
2.43.0


From 72dbc1dfe4eecc44d736156d153240dd61e99419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 094/105] fix: COSTS plots modified the caller's plotting
 options

---
 pydmd/costs.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 861b2b9..0acb9b2 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1098,19 +1098,16 @@ class COSTS:
             scale_reconstruction_kwargs
         )
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = {} if fig_kwargs is None else dict(fig_kwargs)
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get("figsize", (6, 4))
 
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = {} if hf_plot_kwargs is None else dict(hf_plot_kwargs)
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_high_frequency).max()
         )
@@ -1202,8 +1199,7 @@ class COSTS:
 
         xr_sep = self.scale_reconstruction(**scale_reconstruction_kwargs)
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = {} if fig_kwargs is None else dict(fig_kwargs)
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get(
             "figsize", (6, 1.5 * len(self._cluster_centroids) + 1)
@@ -1211,15 +1207,13 @@ class COSTS:
 
         # Low frequency and input data often require separate plotting
         # parameters.
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
         # High frequency components often require separate plotting parameters.
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = {} if hf_plot_kwargs is None else dict(hf_plot_kwargs)
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_sep[1:, :, :]).max()
         )
@@ -1303,8 +1297,7 @@ class COSTS:
         """
         if scale_reconstruction_kwargs is None:
             scale_reconstruction_kwargs = {}
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = {} if plot_kwargs is None else dict(plot_kwargs)
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -3)
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", 3)
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "RdBu_r")
-- 
2.43.0


From a28840c5b1f68f6768eb53335a65b835424a2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:17 +0000
Subject: [PATCH 095/105] fix: COSTS.plot_time_series residual was off by the
 mean of the data

---
 pydmd/costs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 0acb9b2..8bf9b0d 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1412,7 +1412,7 @@ class COSTS:
         )
         if include_residual:
             ax.plot(
-                ground_truth - xr_sep.sum(axis=0)[space_index, :],
+                data[space_index, :] - xr_sep.sum(axis=0)[space_index, :],
                 label="Residual",
             )
             ax.set_title(
-- 
2.43.0


From d355574d2ede999d3f5d94733a21f1b077f86162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:33 +0000
Subject: [PATCH 096/105] fix: mrCOSTS plots show the data the level was fitted
 on

With costs_recon_kwargs the levels are fitted on the slow band
reconstructed with these options, but the plots of a level compared its
bands with a slow band reconstructed with the default options.
---
 pydmd/mrcosts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 04f0a2b..f0241d7 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -625,7 +625,9 @@ class mrCOSTS:
                     )
                 )
             if level > 0:
-                x_iter, _ = self.costs_array[level - 1].scale_separation()
+                x_iter, _ = self.costs_array[level - 1].scale_separation(
+                    scale_reconstruction_kwargs=self._costs_recon_kwargs
+                )
 
         if not x_iter.shape == (self._n_data_vars, self._n_time_steps):
             raise ValueError("Input data has the wrong shape.")
-- 
2.43.0


From 97c0abd86ff66da0a8ebe6bc1b3c33fa51080f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:41 +0000
Subject: [PATCH 097/105] fix: changing the time window of a selection of modes
 changed the original instance

---
 pydmd/dmdbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 54dda6e..588a02c 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -544,6 +544,8 @@ class DMDBase:
         mask[key] = True
 
         shallow_copy = copy(self)
+        if hasattr(self, "_dmd_time"):  # the time window can be edited in place
+            shallow_copy._dmd_time = copy(self._dmd_time)
         shallow_copy._allocate_modes_bitmask_proxy()
         shallow_copy.modes_activation_bitmask = mask
 
-- 
2.43.0


From b7702bafe2093f4573a99b28f84517dcecd4641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:21 +0000
Subject: [PATCH 098/105] fix: OptDMD dropped the data of small magnitude

---
 pydmd/optdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index ec0c102..d852f7a 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -32,7 +32,7 @@ def pinv_diag(x):
 
     y = np.zeros(x.shape, dtype=x.dtype)
 
-    mask = np.abs(x) > rcond
+    mask = np.abs(x) > rcond * np.abs(x).max()
     y[mask] = np.reciprocal(x[mask])
 
     return np.diag(y)
-- 
2.43.0


From 9b8f3fd126f4ea8756ade4652f1b3f2746bc69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:42 +0000
Subject: [PATCH 099/105] fix: conjugate_pairs constraint paired eigenvalues of
 the same half plane without conjugating them

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index ba8eae3..213340f 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -343,7 +343,7 @@ class BOPDMDOperator(DMDOperator):
                 a = 0.5 * (eig_1.real + eig_2.real)
                 b = 0.5 * (np.abs(eig_1.imag) + np.abs(eig_2.imag))
                 new_eigs[ind_1] = a + 1j * (b * np.sign(eig_1.imag))
-                new_eigs[ind_2] = a + 1j * (b * np.sign(eig_2.imag))
+                new_eigs[ind_2] = np.conj(new_eigs[ind_1])
 
             eigenvalues = np.copy(new_eigs)
 
-- 
2.43.0


From 24812eee6d1505b4b015e43255e77279e1baf0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:49 +0000
Subject: [PATCH 100/105] fix: mrCOSTS kept the global band centroids of
 earlier data after a refit

---
 pydmd/mrcosts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index f0241d7..0777e9f 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -310,6 +310,7 @@ class mrCOSTS:
         # Discard the global clustering of a previous fit.
         self._da_omega = None
         self._omega_classes = None
+        self._cluster_centroids = None
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         x_iter = data
-- 
2.43.0


From 81832b6fdcb7e692550c4b24f15118f3392e857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:39 +0000
Subject: [PATCH 101/105] fix: EDMD.eigenfunctions kept the eigenfunctions of
 discarded zero eigenvalues

---
 pydmd/edmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index c4675da..a469d44 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -121,7 +121,7 @@ class EDMDOperator(DMDOperator):
 
         # Store Sigma and V_hat for eigenfunction computations.
         self._svd_vals = np.diag(Sigma)
-        self._eigenvectors = V_hat
+        self._eigenvectors = V_hat[:, nonzero_inds]
 
         return Q, Sigma, V_hat
 
-- 
2.43.0


From d7eaa9772c86f781fb96a4d7dee3c0b2d905b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:39 +0000
Subject: [PATCH 102/105] fix: VarProDMD results changed when the caller
 overwrote its time vector

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index f4ced2a..0cf1149 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -710,7 +710,7 @@ class VarProDMD(DMDBase):
         (self._b, self._optres, self._indices) = self._Atilde.compute_operator(
             self._snapshots_holder.snapshots.astype(np.complex128), time
         )
-        self._original_time = time
+        self._original_time = np.array(time)
         self._dmd_time = time[self._indices]
 
         return self
-- 
2.43.0


From 027803ff665ed0c560c1f7e4b091fd35ab19c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:39 +0000
Subject: [PATCH 103/105] fix: ParametricDMD results changed when the caller
 overwrote its parameters

---
 pydmd/paramdmd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydmd/paramdmd.py b/pydmd/paramdmd.py
index 6f0310e..31f1cad 100644
--- a/pydmd/paramdmd.py
+++ b/pydmd/paramdmd.py
@@ -193,8 +193,7 @@ class ParametricDMD:
         :param numpy.ndarray: A 2D array which contains the original
             parameters.
         """
-        if isinstance(params, list):
-            params = np.array(params)
+        params = np.array(params)
         if params.ndim == 1:
             params = params[:, None]
         if params.ndim > 2:
@@ -236,8 +235,7 @@ class ParametricDMD:
 
     @parameters.setter
     def parameters(self, value):
-        if isinstance(value, list):
-            value = np.array(value)
+        value = np.array(value)
         if value.ndim == 1:
             value = value[:, None]
         elif value.ndim > 2:
-- 
2.43.0


From b65798440b207657952f7939454f8dc2fe323434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:39 +0000
Subject: [PATCH 104/105] fix: DMDc results changed when the caller overwrote
 its control inputs

---
 pydmd/dmdc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index f19857d..5f6cea8 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -305,7 +305,7 @@ class DMDc(DMDBase):
         :type B: numpy.ndarray or iterable
         """
         self._reset()
-        self._controlin = np.atleast_2d(np.asarray(I))
+        self._controlin = np.atleast_2d(np.array(I))
 
         self._snapshots_holder = Snapshots(X)
         n_samples = self.snapshots.shape[-1]
@@ -326,7 +326,7 @@ class DMDc(DMDBase):
                 X, Y, self._controlin
             )
         else:
-            B = np.asarray(B)
+            B = np.array(B)
             self._Atilde = DMDBKnownOperator(**self._dmd_operator_kwargs)
             U, _, _ = self.operator.compute_operator(X, Y, B, self._controlin)
 
-- 
2.43.0


From 1124a9cc2e426a4fb4ad56e145dbd7cddabf3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:39 +0000
Subject: [PATCH 105/105] fix: BOPDMD.fit_econ results changed when the caller
 overwrote its time vector

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 213340f..75e9b8d 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1514,7 +1514,7 @@ class BOPDMD(DMDBase):
         """
         self._reset()
         self._reset_computed_parameters()
-        self._time = np.asarray(t).squeeze()
+        self._time = np.array(t).squeeze()
         s = np.atleast_1d(np.asarray(s).squeeze())
 
         if self._proj_basis is None or not self._use_proj:
-- 
2.43.0

