From 2aef39964cc28ea103eaee31390d174732935a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 01/71] fix: ShiftScaleTransformer.inverse_transform with locs
 when byrow=True and scaling=None

---
 src/opinf/pre/_shiftscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..a0cf4fa 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -1269,7 +1269,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         shift_, scale_ = self.shift_, self.scale_
         if locs is not None:
             locs = self._check_locs(locs, states_transformed)
-            if self.byrow:
+            if self.byrow and self.scaling is not None:
                 shift_ = shift_[locs]
                 scale_ = scale_[locs]
         else:
-- 
2.43.0


From 90e54dd0c835fde9b857cf4b645dc78be51e4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 02/71] fix: PolynomialLifter.lift_ddts returns zeros, not NaN,
 for order 0 at zero states

---
 src/opinf/lift/_polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..c2c6cc9 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -161,7 +161,10 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                p * states ** (p - 1) * ddts if p != 0 else np.zeros_like(ddts)
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
-- 
2.43.0


From 4f90445569f9820688920ce717280b98fcfaccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 03/71] fix: TransformerPipeline accepts a tuple of
 transformers, as documented

---
 src/opinf/pre/_multi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..f757533 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -42,9 +42,7 @@ class TransformerPipeline(TransformerTemplate):
         """Set the transformers."""
         super().__init__(name=name)
 
-        if isinstance(transformers, list):
-            transformers = tuple(transformers)
-        else:
+        if not isinstance(transformers, (list, tuple)):
             raise TypeError("'transformers' should be a list or tuple")
 
         statedims = set()
-- 
2.43.0


From fdf8705d6ff7c64a6d46d92ca37671bad2c111c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 04/71] fix: TransformerPipeline.load() restores name=None

---
 src/opinf/pre/_multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index f757533..e334072 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -167,7 +167,7 @@ class TransformerPipeline(TransformerTemplate):
                 for i in range(num_transformers)
             ]
 
-            return cls(transformers, name=name)
+            return cls(transformers, name=(None if name == "None" else name))
 
 
 # Vertical joining ============================================================
-- 
2.43.0


From c4da0ec37bffbabd6fc02079ac8396be22baa114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 05/71] fix: allow TransformerPipeline objects with unknown
 dimension in TransformerMulti

---
 src/opinf/pre/_multi.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index e334072..386e954 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -86,6 +86,13 @@ class TransformerPipeline(TransformerTemplate):
                 return r
         return None
 
+    @state_dimension.setter
+    def state_dimension(self, n):
+        """Set the state dimension of transformers that do not have one yet."""
+        for tf in self.transformers:
+            if tf.state_dimension is None:
+                tf.state_dimension = n
+
     def __str__(self):
         lines = super().__str__().split("\n  ")
         lines.append(f"num_transformers: {self.num_transformers}")
@@ -587,7 +594,10 @@ class TransformerMulti:
                     f"the number of variables n_q = {self.num_variables}"
                 )
             for tf in self.transformers:
-                TransformerTemplate.state_dimension.fset(tf, nx)
+                if tf.state_dimension is None:
+                    tf.state_dimension = nx
+                else:
+                    TransformerTemplate.state_dimension.fset(tf, nx)
 
         new_states = np.concatenate(
             [
-- 
2.43.0


From 102ca7630b668014021d66b5496a99ad0ac6d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 06/71] fix: method_of_snapshots() keeps the smallest
 eigenvalue when it is positive

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..ccff633 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -123,7 +123,7 @@ def method_of_snapshots(
     # By definition the Gramian is symmetric positive semi-definite.
     # If any eigenvalues are smaller than zero, they are only measuring
     # numerical error and can be truncated.
-    positives = eigvals > max(minthresh, abs(np.min(eigvals)))
+    positives = eigvals > max(minthresh, -np.min(eigvals))
     eigvecs = eigvecs[:, positives]
     eigvals = eigvals[positives]
 
-- 
2.43.0


From 517c00e51417ffdd81726f2d7169f419c9857786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 07/71] fix: PODBasis residual_energy and projection_error
 criteria select the smallest dimension at ties

---
 src/opinf/basis/_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ccff633..998ed25 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -578,7 +578,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "residual_energy":
-            r = np.count_nonzero(1 - energy >= value) + 1
+            r = np.count_nonzero(1 - energy > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "residual energy is being estimated from only "
@@ -586,7 +586,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "projection_error":
-            r = np.count_nonzero(np.sqrt(1 - energy) >= value) + 1
+            r = np.count_nonzero(np.sqrt(1 - energy) > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "projection error is being estimated from only "
-- 
2.43.0


From b1e114cc1ad5c1663b0d49a11197b9df47ee042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 08/71] fix: setting PODBasis.reduced_state_dimension survives
 refitting and saving

---
 src/opinf/basis/_pod.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 998ed25..a14f8de 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -527,13 +527,21 @@ class PODBasis(LinearBasis):
         """
         r = int(r)
 
+        # From now on (e.g., when fit() is called) there will be r vectors.
+        self._set_dimension_selection_criterion(num_vectors=r)
+
         # No basis data yet, but when fit() is called there will be r vectors.
         if self.svdvals is None:
-            self._set_dimension_selection_criterion(num_vectors=r)
             BasisTemplate.reduced_state_dimension.fset(self, r)
             return
 
         # Basis data already exists, change the dimension and update.
+        self._update_dimension(r)
+
+    def _update_dimension(self, r):
+        """Set the entries to the first r left singular vectors and update the
+        singular value energies, without changing the selection criterion.
+        """
         if r > (k := self.max_vectors):
             warnings.warn(
                 "selected reduced dimension exceeds number of stored vectors, "
@@ -594,7 +602,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
 
-        self.reduced_state_dimension = r
+        self._update_dimension(int(r))
 
     def set_dimension(
         self,
-- 
2.43.0


From 9b9629d8258aaa848f6cec20fd918235922b76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 09/71] fix: PODBasis with weights can switch svdsolver away
 from the method of snapshots

---
 src/opinf/basis/_pod.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index a14f8de..bedab0e 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -286,23 +286,35 @@ class PODBasis(LinearBasis):
         self.__residual_energy = None
 
         # Store weights (separate from LinearBasis.__weights)
+        self.__sqrt_weights = None
         if (
             weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
-            if weights.ndim == 1:
-                self.__sqrt_weights = np.sqrt(weights)
-            else:  # (weights.ndim == 2, checked by LinearBasis)
-                if sparse.issparse(weights):
-                    weights = weights.toarray()
-                if weights.shape[0] > 100:  # pragma: no cover
-                    warnings.warn(
-                        "computing the square root of a large weight matrix, "
-                        "consider using svdsolver='method-of-snapshots'",
-                        errors.OpInfWarning,
-                    )
-                self.__sqrt_weights = la.sqrtm(weights)
-                self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
+            self._set_sqrt_weights(weights)
+
+    def _set_sqrt_weights(self, weights):
+        """Compute the square root of the weight matrix, which is needed by
+        every SVD solver except the method of snapshots.
+        """
+        if sparse.issparse(weights):
+            if weights.count_nonzero() == np.count_nonzero(
+                diagonal := weights.diagonal()
+            ):
+                weights = diagonal
+            else:
+                weights = weights.toarray()
+        if weights.ndim == 1:
+            self.__sqrt_weights = np.sqrt(weights)
+        else:  # (weights.ndim == 2, checked by LinearBasis)
+            if weights.shape[0] > 100:  # pragma: no cover
+                warnings.warn(
+                    "computing the square root of a large weight matrix, "
+                    "consider using svdsolver='method-of-snapshots'",
+                    errors.OpInfWarning,
+                )
+            self.__sqrt_weights = la.sqrtm(weights)
+            self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
 
     @classmethod
     def from_svd(
@@ -708,6 +720,8 @@ class PODBasis(LinearBasis):
             self.weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
+            if self.__sqrt_weights is None:
+                self._set_sqrt_weights(self.weights)
             if states.shape[0] != (nW := self.__sqrt_weights.shape[0]):
                 raise errors.DimensionalityError(
                     f"states not aligned with weights, should have {nW:d} rows"
-- 
2.43.0


From 17bc5f056b662df75a663404055cb78ca8bfb3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 10/71] fix: saving and comparing linear bases with sparse
 weights that are not a dia_array diagonal

---
 src/opinf/basis/_linear.py | 34 ++++++++++++++++++++++++++--------
 src/opinf/basis/_pod.py    | 10 ++++------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 4334ff3..1cf5805 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -5,6 +5,7 @@ __all__ = [
     "LinearBasis",
 ]
 
+import h5py
 import warnings
 import numpy as np
 import scipy.sparse as sparse
@@ -20,6 +21,23 @@ requires_entries = utils.requires2(
 )
 
 
+def _save_weights(hf, weights):
+    """Save (dense or sparse) weights to an open HDF5 file."""
+    if not sparse.issparse(weights):
+        hf.create_dataset("weights", data=weights)
+    elif isinstance(weights, sparse.dia_array) and not np.any(weights.offsets):
+        hf.create_dataset("weights", data=weights.diagonal())
+    else:
+        utils.save_sparray(hf.create_group("weights"), weights)
+
+
+def _load_weights(hf):
+    """Load weights stored with _save_weights()."""
+    if isinstance(hf["weights"], h5py.Group):
+        return utils.load_sparray(hf["weights"])
+    return hf["weights"][:]
+
+
 class LinearBasis(BasisTemplate):
     r"""Linear low-dimensional state approximation.
 
@@ -242,9 +260,11 @@ class LinearBasis(BasisTemplate):
         if (w1 := self.weights) is not None:
             if (w2 := other.weights) is None:
                 return False
-            if sparse.issparse(w1) and sparse.issparse(w2):
-                w1, w2 = w1.data[0], w2.data[0]
-            if not np.allclose(w1, w2):
+            if sparse.issparse(w1) or sparse.issparse(w2):
+                w1, w2 = sparse.csr_array(w1), sparse.csr_array(w2)
+                if not (abs(w1 - w2) - 1e-5 * abs(w2)).max() <= 1e-8:
+                    return False
+            elif not np.allclose(w1, w2):
                 return False
         return np.all(self.entries == other.entries)
 
@@ -265,10 +285,8 @@ class LinearBasis(BasisTemplate):
                 meta = hf.create_dataset("meta", shape=(0,))
                 meta.attrs["name"] = self.name
             hf.create_dataset("entries", data=self.entries)
-            if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+            if self.weights is not None:
+                _save_weights(hf, self.weights)
 
     @classmethod
     def load(cls, loadfile: str):
@@ -288,5 +306,5 @@ class LinearBasis(BasisTemplate):
             if "meta" in hf:
                 name = hf["meta"].attrs["name"]
             entries = hf["entries"][:]
-            weights = hf["weights"][:] if "weights" in hf else None
+            weights = _load_weights(hf) if "weights" in hf else None
             return cls(entries, weights, name=name)
diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index bedab0e..3947a16 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -20,7 +20,7 @@ import matplotlib.pyplot as plt
 
 from .. import errors, utils
 from ._base import BasisTemplate
-from ._linear import LinearBasis
+from ._linear import LinearBasis, _save_weights, _load_weights
 
 
 # Helper functions ============================================================
@@ -1001,10 +1001,8 @@ class PODBasis(LinearBasis):
                     data=[self.__max_vectors_desired],
                 )
 
-            if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+            if self.weights is not None:
+                _save_weights(hf, self.weights)
 
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
@@ -1040,7 +1038,7 @@ class PODBasis(LinearBasis):
                 kwargs["max_vectors"] = hf["max_vectors"][0]
 
             if "weights" in hf:
-                kwargs["weights"] = hf["weights"][:]
+                kwargs["weights"] = _load_weights(hf)
 
             if "leftvecs" in hf:
                 if (r := max_vectors) is not None:
-- 
2.43.0


From 764657e1c07a06b2b682be0a1ea1c17147dd63dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 11/71] fix: load_sparray() returns a sparse array, not a
 sparse matrix

---
 src/opinf/utils/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 5de10ff..bf3e583 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -232,7 +232,7 @@ def load_sparray(group: h5py.Group) -> sparse.sparray:
       (np.int32(0), np.int32(5))    12.0
       (np.int32(4), np.int32(1))    123.456
     """
-    A = sparse.coo_matrix(
+    A = sparse.coo_array(
         (group["data"], (group["row"], group["col"])),
         shape=group.attrs["shape"],
     )
-- 
2.43.0


From a25a414e2d3be1919ccc9c3b25797e38e23ea875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 12/71] fix: PODBasis objects without right singular vectors
 can be saved and loaded

---
 src/opinf/basis/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 3947a16..b99f59a 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1007,7 +1007,8 @@ class PODBasis(LinearBasis):
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1047,7 +1048,8 @@ class PODBasis(LinearBasis):
                         kwargs["num_vectors"] = r
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 return cls.from_svd(**kwargs)
 
             return cls(**kwargs)
-- 
2.43.0


From b9234ae388f895c6895a0010b7b8f4f914a230a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 13/71] fix: PODBasis.load(max_vectors) does not increase the
 saved reduced dimension

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index b99f59a..4859443 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1045,7 +1045,7 @@ class PODBasis(LinearBasis):
                 if (r := max_vectors) is not None:
                     r = min(r, hf["leftvecs"].shape[1])
                     if "num_vectors" in kwargs:
-                        kwargs["num_vectors"] = r
+                        kwargs["num_vectors"] = min(r, kwargs["num_vectors"])
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
                 if "rightvecs" in hf:
-- 
2.43.0


From 448d824d5854735f8175149902319e5f683a632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 14/71] fix: svdval_decay() accepts integer singular values

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 4859443..f69ffdd 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1160,7 +1160,7 @@ def svdval_decay(
         Number of singular values greater than the cutoff value(s).
     """
     singular_values = np.sort(singular_values)[::-1]
-    singular_values /= singular_values[0]
+    singular_values = singular_values / singular_values[0]
 
     # Calculate the number of singular values above the cutoff value(s).
     if threshold:
-- 
2.43.0


From 0914cc1e70012344c182c83bc48fb4acd099bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 15/71] fix: ddt_uniform() does not truncate the derivatives of
 integer-valued states

---
 src/opinf/ddt/_finite_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..f9b3a49 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -1047,7 +1047,7 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    ddts = np.empty(states.shape, dtype=np.result_type(states, float))
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From ac9b467f1695ac577067b6666e8cd68dfe881fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 16/71] fix: InterpDerivativeEstimator.mask() accepts
 one-dimensional arrays

---
 src/opinf/ddt/_interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index a6177c1..2330c6a 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -226,11 +226,14 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
         if self.new_time_domain is None:
             return arr
 
-        # Interpolate to the new time domain.
+        # Interpolate to the new time domain (time is the last axis of arr).
+        options = dict(self.options)
+        if options.get("axis") == 1:
+            options["axis"] = -1
         statespline = self.InterpolatorClass(
             self.time_domain,
             arr,
-            **self.options,
+            **options,
         )
         return statespline(self.new_time_domain)
 
-- 
2.43.0


From d01c4d3c4b1023aeffaadc0a12d79748b03f3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 17/71] fix: UniformFiniteDifferencer rejects nonuniform time
 domains with small time steps

---
 src/opinf/ddt/_finite_difference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index f9b3a49..704f0b9 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -824,9 +824,10 @@ class UniformFiniteDifferencer(DerivativeEstimatorTemplate):
         """Store the time domain and set the finite difference scheme."""
         DerivativeEstimatorTemplate.__init__(self, time_domain)
 
-        # Check for uniform spacing.
+        # Check for uniform spacing, up to rounding in the time domain.
         diffs = np.diff(time_domain)
-        if not np.allclose(diffs, diffs[0]):
+        rounding = 4 * np.finfo(float).eps * np.max(np.abs(time_domain))
+        if not np.allclose(diffs, diffs[0], atol=rounding):
             raise ValueError("time domain must be uniformly spaced")
 
         # Set the finite difference scheme.
-- 
2.43.0


From 1e3e35d4858fc2dab7abb15fac017afdae17e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 18/71] fix: PolynomialOperator.jacobian() is the derivative of
 apply(), not zero

---
 src/opinf/operators/_polynomial_operator.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..37fee41 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -221,6 +221,22 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    @utils.requires("entries")
+    def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
+        r"""Construct the state Jacobian of the operator. Input is not used.
+        See OpInfOperator.jacobian for description.
+        """
+        if self.polynomial_order == 0:
+            return 0
+
+        # Product rule for x^p = x (x) x^(p - 1), without redundant terms.
+        x, identity = np.atleast_1d(state), np.eye(self.state_dimension)
+        xp, dxp = x, identity
+        for kept in self.nonredudant_entries[2:]:
+            dxp = np.kron(identity, xp[:, None]) + np.kron(x[:, None], dxp)
+            xp, dxp = np.kron(x, xp)[kept], dxp[kept]
+        return self.entries @ dxp
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From c77d3a8095a6673cdec9eeccf5c4b5096d08e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 19/71] fix: PolynomialOperator can be copied, added, compared,
 saved, and loaded

---
 src/opinf/operators/_polynomial_operator.py | 48 +++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 37fee41..851b0d3 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -237,6 +237,54 @@ class PolynomialOperator(OpInfOperator):
             xp, dxp = np.kron(x, xp)[kept], dxp[kept]
         return self.entries @ dxp
 
+    # Magic methods -----------------------------------------------------------
+    def __eq__(self, other):
+        """Two polynomial operators are equal if they have the same
+        ``polynomial_order`` and the same ``entries`` array.
+        """
+        return super().__eq__(other) and (
+            self.polynomial_order == other.polynomial_order
+        )
+
+    def __add__(self, other):
+        """Operators of the same polynomial order are linear in their entries."""
+        if other.__class__ is not self.__class__:
+            raise TypeError(
+                f"can't add object of type '{other.__class__.__name__}' "
+                f"to object of type '{self.__class__.__name__}'"
+            )
+        if self.polynomial_order != other.polynomial_order:
+            raise ValueError("can't add operators of different polynomial order")
+        return self.__class__(
+            self.polynomial_order, self.entries + other.entries
+        )
+
+    # Persistence -------------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file. See OpInfOperator.save()."""
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            super().save(hf)
+            hf["meta"].attrs["polynomial_order"] = self.polynomial_order
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file. See OpInfOperator.load()."""
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            if (ClassName := hf["meta"].attrs["class"]) != cls.__name__:
+                raise TypeError(
+                    f"file '{loadfile}' contains '{ClassName}' "
+                    f"object, use '{ClassName}.load()"
+                )
+            return cls(
+                int(hf["meta"].attrs["polynomial_order"]),
+                hf["entries"][:] if "entries" in hf else None,
+            )
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From e294bf179a3a32d4859280f84326a541be4373a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 20/71] fix: ConstantOperator.apply() does not truncate to the
 integer type of the state

---
 src/opinf/operators/_nonparametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..dda56d7 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,7 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full(np.shape(state), self.entries[0])  # r = 1, k > 1.
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From 2fb0b415a3144b8366d2ebb7142df639ab18017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 21/71] fix: models can be evaluated at integer-valued states

---
 src/opinf/models/mono/_nonparametric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..a6b3804 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -356,7 +356,7 @@ class _NonparametricModel(_OpInfModel):
         out : (r,) ndarray
             Evaluation of the right-hand side of the model.
         """
-        out = np.zeros_like(state)
+        out = np.zeros_like(state, dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.apply(state, input_)
         return out
@@ -385,7 +385,7 @@ class _NonparametricModel(_OpInfModel):
             State Jacobian of the right-hand side of the model.
         """
         r = self.state_dimension
-        out = np.zeros_like(state, shape=(r, r))
+        out = np.zeros((r, r), dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.jacobian(state, input_)
         return out
-- 
2.43.0


From 448a12a7d53bcd475041b728cac822f59a50f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 22/71] fix: operators with sparse entries can be saved,
 loaded, and compared

---
 src/opinf/operators/_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..7878d15 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -617,6 +617,8 @@ class OpInfOperator(OperatorTemplate):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
+            if sparse.issparse(self.entries) and sparse.issparse(other.entries):
+                return (self.entries != other.entries).nnz == 0
             return np.all(self.entries == other.entries)
         return True
 
@@ -796,7 +798,9 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
     @classmethod
@@ -816,6 +820,8 @@ class OpInfOperator(OperatorTemplate):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
+            if "entries" in hf and "arrtype" in hf["entries"].attrs:
+                return cls(utils.load_sparray(hf["entries"]))
             return cls(hf["entries"][:] if "entries" in hf else None)
 
     # Verification ------------------------------------------------------------
-- 
2.43.0


From 56e4bae12185311707f387b3618d29fe726f4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 23/71] fix: interpolated operators with unsorted training
 parameters can be copied, projected, loaded, and refit

---
 src/opinf/operators/_interpolate.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..84649c1 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -267,12 +267,19 @@ class _InterpOperator(ParametricOpInfOperator):
             if InterpolatorClass is None:
                 if (dim := params.ndim) == 1:
                     InterpolatorClass = spinterp.CubicSpline
-                    paramsort = np.argsort(params)
-                    params = params[paramsort]
-                    entries = self.entries[paramsort]
                 elif dim == 2:
                     InterpolatorClass = spinterp.LinearNDInterpolator
 
+            # Some one-dimensional interpolators require sorted data.
+            if params.ndim == 1 and InterpolatorClass in (
+                spinterp.CubicSpline,
+                spinterp.PchipInterpolator,
+                spinterp.Akima1DInterpolator,
+            ):
+                paramsort = np.argsort(params)
+                params = params[paramsort]
+                entries = entries[paramsort]
+
             # Do the interpolation.
             self.__interpolator = InterpolatorClass(params, entries)
 
-- 
2.43.0


From 98f21ecd1a806c32a31af7525c10b4d82db9fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 24/71] fix: galerkin() preserves the parameter dimension of
 affine operators

---
 src/opinf/operators/_affine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..12767e7 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -306,7 +306,7 @@ class _AffineOperator(ParametricOpInfOperator):
         op : operator
             New object of the same class as ``self``.
         """
-        return self.__class__(
+        op = self.__class__(
             coeffs=self.coeffs,
             nterms=self.nterms,
             entries=[
@@ -315,6 +315,9 @@ class _AffineOperator(ParametricOpInfOperator):
             ],
             fromblock=False,
         )
+        if self.parameter_dimension is not None:
+            op.parameter_dimension = self.parameter_dimension
+        return op
 
     # Operator inference ------------------------------------------------------
     def operator_dimension(self, s: int, r: int, m: int) -> int:
-- 
2.43.0


From 719ecb5415e263244c553e9519aa867bbe380559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 25/71] fix: affine operators with integer coeffs can be loaded

---
 src/opinf/operators/_affine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index 12767e7..ae84e59 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -502,7 +502,9 @@ class _AffineOperator(ParametricOpInfOperator):
 
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
-            if (key := "parameter_dimension") in hf["meta"].attrs:
+            if (
+                key := "parameter_dimension"
+            ) in hf["meta"].attrs and op.parameter_dimension is None:
                 op.parameter_dimension = int(hf["meta"].attrs[key])
             return op
 
-- 
2.43.0


From 376e34104e493a322bfba8f2735d883ecbedc49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 26/71] fix: copies of trained models keep their solver and
 which operators are learned

---
 src/opinf/models/mono/_base.py       | 19 +++++++++++++++++--
 src/opinf/models/mono/_parametric.py | 14 +++++++++++++-
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..9c3d994 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -316,8 +316,23 @@ class _Model(abc.ABC):
     # Model persistence -------------------------------------------------------
     def copy(self):
         """Make a copy of the model."""
-        sol = self.solver.copy() if self.solver is not None else None
-        return self.__class__([op.copy() for op in self.operators], solver=sol)
+        model = self.__class__([op.copy() for op in self.operators])
+        self._copy_learning_structure(model)
+        return model
+
+    def _copy_learning_structure(self, model):
+        """Copy the solver and the record of which operators are learned from
+        data to ``model``, which has copies of the operators of this model.
+        """
+        model._indices_of_operators_to_infer = list(
+            self._indices_of_operators_to_infer
+        )
+        model._indices_of_known_operators = list(
+            self._indices_of_known_operators
+        )
+        model._fully_intrusive = self._fully_intrusive
+        if self.solver is not None:
+            model.solver = self.solver.copy()
 
 
 class _OpInfModel(_Model):
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..e971454 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -29,6 +29,7 @@ class _ParametricModel(_OpInfModel):
     """Base class for parametric monolithic models."""
 
     _ModelClass = NotImplemented  # Must be specified by child classes.
+    __s = None  # Number of training parameters, set by fit().
 
     # ModelClass properties ---------------------------------------------------
     @property
@@ -391,6 +392,11 @@ class _ParametricModel(_OpInfModel):
         self._fit_solver(parameters, states, lhs, inputs)
         return self.refit()
 
+    # Model persistence -------------------------------------------------------
+    def _copy_learning_structure(self, model):
+        super()._copy_learning_structure(model)
+        model.__s = self.__s
+
     # Parametric evaluation ---------------------------------------------------
     def evaluate(self, parameter):
         """Construct a nonparametric model by fixing the parameter value.
@@ -1310,10 +1316,16 @@ class _InterpModel(_ParametricModel):
 
     def copy(self):
         """Make a copy of the model."""
-        return self.__class__(
+        model = self.__class__(
             operators=[op.copy() for op in self.operators],
             InterpolatorClass=self.__InterpolatorClass,
         )
+        self._copy_learning_structure(model)
+        if self._submodels is not None:
+            model._submodels = [mdl.copy() for mdl in self._submodels]
+            model.solvers = [mdl.solver for mdl in model._submodels]
+            model._training_parameters = self._training_parameters
+        return model
 
 
 class InterpDiscreteModel(_ParametricDiscreteMixin, _InterpModel):
-- 
2.43.0


From cfbe3b26cbd3b06723e2a457a5af69a7cc0c8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 27/71] fix: parametric models can be fit when an interpolated
 operator is known in advance

---
 src/opinf/models/mono/_parametric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index e971454..ab7096d 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -276,8 +276,8 @@ class _ParametricModel(_OpInfModel):
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
 
         # Set training_parameters for interpolatory operators.
-        for op in self.operators:
-            if oputils.is_interpolated(op):
+        for i in self._indices_of_operators_to_infer:
+            if oputils.is_interpolated(op := self.operators[i]):
                 op.set_training_parameters(parameters_)
 
         # Set up non-intrusive learning.
-- 
2.43.0


From 77dce2c8695b4764fefab297793b1c8018f42408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 28/71] fix: InterpModel subtracts operators known in advance
 once, at the training parameters, and keeps them

---
 src/opinf/models/mono/_parametric.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index ab7096d..0dcec78 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1139,7 +1139,7 @@ class _InterpModel(_ParametricModel):
         (
             parameters_,
             states_,
-            lhs_,
+            _,
             inputs_,
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
         n_datasets = len(parameters)
@@ -1149,16 +1149,19 @@ class _InterpModel(_ParametricModel):
         for i in range(n_datasets):
             model_i = self._ModelFitClass(
                 operators=[
-                    op._OperatorClass(
-                        op.entries[i] if op.entries is not None else None
+                    (
+                        op._OperatorClass()
+                        if op.entries is None
+                        else op.evaluate(parameters_[i])
                     )
                     for op in self.operators
                 ],
                 solver=self.solver.copy(),
             )
+            # The submodel accounts for the known operators (use lhs here).
             model_i._fit_solver(
                 states_[i],
-                lhs_[i],
+                lhs[i],
                 inputs_[i],
             )
             nonparametric_models.append(model_i)
@@ -1178,7 +1181,8 @@ class _InterpModel(_ParametricModel):
             submodel.refit()
 
         # Interpolate the resulting operators.
-        for ell, op in enumerate(self.operators):
+        for ell in self._indices_of_operators_to_infer:
+            op = self.operators[ell]
             op._clear()
             op.set_training_parameters(self._training_parameters)
             op.set_entries(
-- 
2.43.0


From 5941c3e89990a04df41b9433e4c5f414ddbf9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 29/71] fix: loading a model restores its solver and which
 operators are learned

---
 src/opinf/models/mono/_base.py          | 12 ++++++++++++
 src/opinf/models/mono/_nonparametric.py |  5 ++++-
 src/opinf/models/mono/_parametric.py    |  9 ++++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 9c3d994..85b7948 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -383,6 +383,18 @@ class _OpInfModel(_Model):
         self.__solver = solver
 
     # Validation methods ------------------------------------------------------
+    def _load_solver(self, hf):
+        """Set the solver of a model with operators loaded from the open HDF5
+        file ``hf``, using the default if no (known) solver was saved.
+        """
+        self._fully_intrusive = len(self._indices_of_operators_to_infer) == 0
+        solver = None
+        if "solver" in hf and not self._fully_intrusive:
+            name = hf["solver"].attrs.get("class", "")
+            if hasattr(lstsq, name):
+                solver = getattr(lstsq, name).load(hf["solver"])
+        self.solver = solver
+
     def _check_inputargs(self, u, argname):
         """Check that the model structure agrees with input arguments."""
         if self._has_inputs and u is None:
diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index a6b3804..73553d4 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -430,7 +430,9 @@ class _NonparametricModel(_OpInfModel):
             for i, op in enumerate(self.operators):
                 op.save(hf.create_group(f"operator_{i}"))
             if self.solver is not None:
-                self.solver.save(hf.create_group("solver"))
+                group = hf.create_group("solver")
+                self.solver.save(group)
+                group.attrs["class"] = self.solver.__class__.__name__
 
     @classmethod
     def load(cls, loadfile: str):
@@ -468,6 +470,7 @@ class _NonparametricModel(_OpInfModel):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
                 model.input_dimension = m
+            model._load_solver(hf)
 
         return model
 
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 0dcec78..917ff31 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -20,7 +20,7 @@ from ._nonparametric import (
     _FrozenDiscreteModel,
     _FrozenContinuousModel,
 )
-from ... import errors, utils, operators as _operators
+from ... import errors, lstsq, utils, operators as _operators
 from ...operators import _utils as oputils
 
 
@@ -1248,6 +1248,12 @@ class _InterpModel(_ParametricModel):
                 for i, op in enumerate(self.operators):
                     op.save(hf.create_group(f"operator_{i}"))
 
+            # Solver settings (only for solver classes that can be loaded).
+            if hasattr(lstsq, name := self.solver.__class__.__name__):
+                group = hf.create_group("solver")
+                self.solver.save(group)
+                group.attrs["class"] = name
+
     @classmethod
     def load(cls, loadfile: str, InterpolatorClass: type = None):
         """Load a serialized model from an HDF5 file, created previously from
@@ -1315,6 +1321,7 @@ class _InterpModel(_ParametricModel):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
                 model.input_dimension = m
+            model._load_solver(hf)
 
         return model
 
-- 
2.43.0


From 7ef52e3180a462742a7d27f8372002c01de50153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 30/71] fix: interpolated operators know their parameter
 dimension after being cleared and reset

---
 src/opinf/operators/_interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 84649c1..fb6a715 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -215,6 +215,9 @@ class _InterpOperator(ParametricOpInfOperator):
                 "call set_training_parameters() first"
             )
 
+        if self.parameter_dimension is None:
+            self._set_parameter_dimension_from_values(self.__parameters)
+
         # Extract / verify the entries.
         n_params = len(self.__parameters)
         if fromblock:
-- 
2.43.0


From b1d3d8c4dd02568d81356c26b38b3b1b4c912e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 31/71] fix: TruncatedSVDSolver resolves num_svdmodes at each
 fit() instead of remembering the first data set

---
 src/opinf/lstsq/_tsvd.py | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2432800..14a50f4 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -70,24 +70,23 @@ class TruncatedSVDSolver(SolverTemplate):
     @property
     def num_svdmodes(self) -> int:
         """Number of singular value decomposition modes to retain."""
-        return self.__nmodes
+        n = self.__nmodes
+        if self.data_matrix is None:
+            return n
+        d = self.max_modes
+        if n is None:
+            return d
+        return min(n if n > 0 else d + n, d)
 
     @num_svdmodes.setter
     def num_svdmodes(self, nmodes: int):
         """Set the number of columns."""
-        if nmodes is None:
-            self.__nmodes = self.max_modes
-            return
-
-        if not isinstance(nmodes, int):
-            raise TypeError("num_svdmodes must be an integer")
-
-        if self.data_matrix is not None:
-            d = self.max_modes
-            if nmodes <= 0:
-                nmodes = d + nmodes
-            if nmodes > d:
+        if nmodes is not None:
+            if not isinstance(nmodes, int):
+                raise TypeError("num_svdmodes must be an integer")
+            if self.data_matrix is not None and nmodes > (d := self.max_modes):
                 raise ValueError(f"only {d} SVD modes available")
+        # Store what was asked for, fit() may be called again with new data.
         self.__nmodes = nmodes
 
     @property
@@ -129,20 +128,13 @@ class TruncatedSVDSolver(SolverTemplate):
         self._ZPhi = self.lhs_matrix @ Phi
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
 
-        # Reset num_svdmodes.
-        d = self._ZPhi.shape[1]
-        if (n := self.num_svdmodes) is None:
-            n = d
-        if n <= 0:
-            n = d + n
-        if n > d:
+        d = self.max_modes
+        if (n := self.__nmodes) is not None and n > d:
             warnings.warn(
                 f"only {d} SVD modes available, "
                 f"setting num_svdmodes={d} (was {n})",
                 errors.OpInfWarning,
             )
-            n = d
-        self.__nmodes = n
 
         return self
 
@@ -183,7 +175,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.__nmodes is not None:
+                hf.create_dataset("num_svdmodes", data=[self.__nmodes])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
@@ -207,7 +200,9 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             options = cls._load_dict(hf, "options")
-            num_svdmodes = int(hf["num_svdmodes"][0])
+            num_svdmodes = None
+            if "num_svdmodes" in hf:
+                num_svdmodes = int(hf["num_svdmodes"][0])
             solver = cls(num_svdmodes, lapack_driver=options["lapack_driver"])
             if "data_matrix" in hf:
                 D = hf["data_matrix"][:]
@@ -220,7 +215,7 @@ class TruncatedSVDSolver(SolverTemplate):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            num_svdmodes=self.num_svdmodes,
+            num_svdmodes=self.__nmodes,
             lapack_driver=self.options["lapack_driver"],
         )
         if self.data_matrix is not None:
-- 
2.43.0


From ab875ef3b537c3c84cb0c6c819406cff444f5f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 32/71] fix: regcond() of L2 solvers accounts for the null
 space of underdetermined data

---
 src/opinf/lstsq/_tikhonov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..c7c3a82 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -392,7 +392,9 @@ class L2Solver(_BaseRegularizedSolver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer**2
+        # There are d singular values, but zeros are not stored if k < d.
+        svals = np.pad(self._svals, (0, self.d - self._svals.size))
+        svals2 = svals**2 + self.regularizer**2
         return np.sqrt(svals2.max() / svals2.min())
 
     @_require_trained
@@ -617,7 +619,9 @@ class L2DecoupledSolver(L2Solver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer.reshape((-1, 1)) ** 2
+        # There are d singular values, but zeros are not stored if k < d.
+        svals = np.pad(self._svals, (0, self.d - self._svals.size))
+        svals2 = svals**2 + self.regularizer.reshape((-1, 1)) ** 2
         return np.sqrt(svals2.max(axis=1) / svals2.min(axis=1))
 
     def regresidual(self, Ohat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 8459da9864e5598357ae94c23879727e430ddfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 33/71] fix: TikhonovDecoupledSolver uses its options in
 solve()

---
 src/opinf/lstsq/_tikhonov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index c7c3a82..d65121b 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1215,7 +1215,9 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(
+                    Dpad, self._ZtPad[:, i], **self.options
+                )[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From 338f105ed37e01b6d8077b828566034a44e7c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 34/71] fix: TimedBlock restores the console output that was
 current when the block was entered

---
 src/opinf/utils/_timer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index af7e39f..bfc91f7 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -104,8 +104,6 @@ class TimedBlock:
         """Store print/log message."""
         if not message:
             message = ""
-        self.__original_stdout = sys.stdout
-        self.__new_buffer = None
         self.__front = "\n" if message.endswith("\n") else ""
         self.message = "" if message is None else message.rstrip()
         self.__back = "\n" if "\r" not in message else ""
@@ -129,12 +127,16 @@ class TimedBlock:
         raise TimeoutError("timed out!")
 
     def _reset_stdout(self):
+        if self.__new_buffer is None:
+            return
         text = self.__new_buffer.getvalue()
         sys.stdout = self.__original_stdout
         print(text, end="", flush=True)
 
     def __enter__(self):
         """Print the message and record the current time."""
+        self.__original_stdout = sys.stdout
+        self.__new_buffer = None
         if self.rebuffer:
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
@@ -157,8 +159,7 @@ class TimedBlock:
                     print(flush=True)
                 report = f"TIMED OUT after {elapsed:.2f} s."
                 logging.info(f"{self.message}...{report}")
-                if self.rebuffer:
-                    self._reset_stdout()
+                self._reset_stdout()
                 raise TimeoutError(report)
             print(f"{exc_type.__name__}: {exc_value}")
             logging.info(self.message)
@@ -166,16 +167,14 @@ class TimedBlock:
                 f"({exc_type.__name__}) {exc_value} "
                 f"(raised after {elapsed:.6f} s)"
             )
-            if self.rebuffer:
-                self._reset_stdout()
+            self._reset_stdout()
             raise
         else:  # If no exception, report execution time.
             if self.verbose and self.message:
                 print(f"done in {elapsed:.2f} s.", flush=True, end=self.__back)
             logging.info(f"{self.message}...done in {elapsed:.6f} s.")
         self.__elapsed = elapsed
-        if self.rebuffer:
-            self._reset_stdout()
+        self._reset_stdout()
         return
 
     @classmethod
-- 
2.43.0


From 3a429ad8f08f70cad3f9dd68bb0dbf1e79e8896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 35/71] fix: TimedBlock propagates the exception it is given,
 not the one being handled

---
 src/opinf/utils/_timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index bfc91f7..c4410eb 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -168,7 +168,7 @@ class TimedBlock:
                 f"(raised after {elapsed:.6f} s)"
             )
             self._reset_stdout()
-            raise
+            return False  # Propagate the exception.
         else:  # If no exception, report execution time.
             if self.verbose and self.message:
                 print(f"done in {elapsed:.2f} s.", flush=True, end=self.__back)
-- 
2.43.0


From 346d0b58e81552073a45468c38e2a910fc51f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 36/71] fix: TimedBlock time limits can be nested

---
 src/opinf/utils/_timer.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index c4410eb..f33080a 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -126,6 +126,32 @@ class TimedBlock:
     def _signal_handler(signum, frame):
         raise TimeoutError("timed out!")
 
+    def _start_alarm(self):
+        """Start the time limit. An alarm that is already set (such as the time
+        limit of an enclosing block) stays in place if it is due first, and is
+        put back at the end of this block otherwise.
+        """
+        self.__enclosing = None
+        due = signal.getitimer(signal.ITIMER_REAL)[0]
+        if 0 < due <= self.timelimit:
+            return
+        handler = signal.signal(signal.SIGALRM, self._signal_handler)
+        self.__enclosing = (handler, time.monotonic() + due if due else None)
+        signal.alarm(self.timelimit)
+
+    def _cancel_alarm(self):
+        """Cancel the time limit, restoring the enclosing alarm (if any)."""
+        if self.__enclosing is None:
+            return
+        signal.alarm(0)
+        handler, due = self.__enclosing
+        self.__enclosing = None
+        if handler is not None:
+            signal.signal(signal.SIGALRM, handler)
+        if due is not None:
+            remaining = max(due - time.monotonic(), 0.001)
+            signal.setitimer(signal.ITIMER_REAL, remaining)
+
     def _reset_stdout(self):
         if self.__new_buffer is None:
             return
@@ -143,15 +169,14 @@ class TimedBlock:
             print(f"{self.message}...", end=self.__front, flush=True)
         self._tic = time.process_time()
         if self.timelimit is not None:
-            signal.signal(signal.SIGALRM, self._signal_handler)
-            signal.alarm(self.timelimit)
+            self._start_alarm()
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
         self._toc = time.process_time()
         if self.timelimit is not None:
-            signal.alarm(0)
+            self._cancel_alarm()
         elapsed = self._toc - self._tic
         if exc_type:  # Report an exception if present.
             if self.timelimit is not None and exc_type is TimeoutError:
-- 
2.43.0


From 7d4488b61608eceb275fc4c0f473054f1fd5e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 37/71] fix: TimedBlock restores the console output if its time
 limit cannot be set

---
 src/opinf/utils/_timer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index f33080a..7a29c25 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -169,7 +169,11 @@ class TimedBlock:
             print(f"{self.message}...", end=self.__front, flush=True)
         self._tic = time.process_time()
         if self.timelimit is not None:
-            self._start_alarm()
+            try:
+                self._start_alarm()
+            except ValueError:  # Not in the main thread.
+                self._reset_stdout()
+                raise
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
-- 
2.43.0


From cacdd74ad5c0a3555b690faaee4caa3e4962d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 38/71] fix: Lp_error() does not overflow for integer data

---
 src/opinf/post/_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/post/_errors.py b/src/opinf/post/_errors.py
index 05bbe07..7164d40 100644
--- a/src/opinf/post/_errors.py
+++ b/src/opinf/post/_errors.py
@@ -214,7 +214,7 @@ def Lp_error(Qtrue, Qapprox, t=None, p=2):
             raise ValueError("Qtrue not aligned with time t")
 
         def pnorm(Z):
-            Zpnorm = np.sum(np.abs(Z) ** p, axis=0)
+            Zpnorm = np.sum(np.abs(Z).astype(float) ** p, axis=0)
             return spintegrate.trapezoid(Zpnorm, t) ** (1 / p)
 
     else:  # p == np.inf
-- 
2.43.0


From 6406ace686a0db10328c6d91a280015fb8301760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 39/71] fix: operator posteriors specified by covariances (or
 loaded) can be sampled

---
 src/opinf/roms/_bayes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..bdf99bb 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -93,7 +93,12 @@ class OperatorPosterior:
                 raise ValueError(f"means[{i}] and precisions[{i}] not aligned")
 
             # Make a multivariate Normal distribution for this operator row.
-            if not alreadyinverted:
+            if alreadyinverted:
+                cov_i = scipy.stats.Covariance.from_precision(
+                    np.linalg.inv(cov_i),
+                    covariance=cov_i,
+                )
+            else:
                 cov_i = scipy.stats.Covariance.from_precision(cov_i)
             self.__randomvariables.append(
                 scipy.stats.multivariate_normal(mean=mean_i, cov=cov_i)
@@ -156,7 +161,9 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [
+            np.reshape(rv.rvs(), rv.mean.shape) for rv in self.randomvariables
+        ]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From f68cbff444f541b165865565b673ef4c439654a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 40/71] fix: regularization selection resets the solver before
 refitting

The reset (needed if the basis dimension changed between calls) never took
place because the model, which has no reset() method, was asked for it
instead of its solver.
---
 src/opinf/roms/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..ba28817 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -671,7 +671,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -894,7 +894,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From bf60d09c11607ba58c51e53980578986a58f0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:24 +0000
Subject: [PATCH 41/71] fix: decode(locs) works for reduced-order models
 without a basis

Without a basis, the locations were ignored or, if there is a transformer,
all but trivial ones were rejected.
---
 src/opinf/roms/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index ba28817..6bce99c 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -251,6 +251,8 @@ class _BaseROM(abc.ABC):
         if self.basis is not None:
             inplace = True
             states = self.basis.decompress(states, locs=locs)
+        elif locs is not None:
+            states = states[locs]
 
         # Reverse preprocessing.
         if self.transformer is not None:
-- 
2.43.0


From 11b8c3f1bf09227f4597216968ed7153d1ecf8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 42/71] fix: discrete regularization selection uses the whole
 training trajectories

The last snapshot of each trajectory was left out of the training error, and
stability was required for one iteration less than num_test_iters.
---
 src/opinf/roms/_base.py  | 3 ++-
 src/opinf/roms/_bayes.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 6bce99c..2be439d 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -900,7 +900,7 @@ class _BaseROM(abc.ABC):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-        states_ = self._fit_model(
+        self._fit_model(
             parameters=parameters,
             states=states,
             lhs=None,
@@ -909,6 +909,7 @@ class _BaseROM(abc.ABC):
             fit_basis=fit_basis,
             solver_only=True,
         )
+        states_ = [self.encode(Q) for Q in states]
 
         # Set up the regularization selection.
         shifts, limits = self._get_stability_limits(states_, stability_margin)
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index bdf99bb..2469e09 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -454,7 +454,7 @@ class _BayesianROMMixin:
         # Fit the model for the first time.
         if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
-        states_ = self._fit_model(
+        self._fit_model(
             parameters=parameters,
             states=states,
             lhs=None,
@@ -463,6 +463,7 @@ class _BayesianROMMixin:
             fit_basis=fit_basis,
             solver_only=True,
         )
+        states_ = [self.encode(Q) for Q in states]
 
         # Set up the regularization selection.
         shifts, limits = self._get_stability_limits(states_, stability_margin)
-- 
2.43.0


From 739b8aaebf477e1bc36be9b53d408b8aba4486ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 43/71] fix: a loaded row-wise ScaleTransformer of one row
 stays row-wise

---
 src/opinf/pre/_shiftscale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index a0cf4fa..a35a6d0 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -634,6 +634,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -643,7 +644,7 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            if scaler.shape == (1,) and not meta.attrs.get("byrow", False):
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From c8bbe899fe758667f283576ffad39a958edf877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 44/71] fix: copies of Tikhonov solvers have their own
 regularizer

---
 src/opinf/lstsq/_tikhonov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index d65121b..f61c4bf 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -9,6 +9,7 @@ __all__ = [
 ]
 
 import abc
+import copy
 import types
 import warnings
 import numpy as np
@@ -1084,7 +1085,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            regularizer=self.regularizer,
+            regularizer=copy.deepcopy(self.regularizer),
             method=self.method,
             cond=self.options["cond"],
             lapack_driver=self.options["lapack_driver"],
-- 
2.43.0


From eb831ecff837da6e314a6b987c266958f04a0461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 45/71] fix: loaded untrained bases keep their preset
 dimensions

---
 src/opinf/basis/_pod.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index f69ffdd..01df151 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1009,6 +1009,10 @@ class PODBasis(LinearBasis):
                 hf.create_dataset("svdvals", data=self.svdvals)
                 if self.rightvecs is not None:
                     hf.create_dataset("rightvecs", data=self.rightvecs)
+            else:
+                for key in ("full_state_dimension", "reduced_state_dimension"):
+                    if (dim := getattr(self, key)) is not None:
+                        meta.attrs[key] = dim
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1052,7 +1056,11 @@ class PODBasis(LinearBasis):
                     kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 return cls.from_svd(**kwargs)
 
-            return cls(**kwargs)
+            basis = cls(**kwargs)
+            for key in ("full_state_dimension", "reduced_state_dimension"):
+                if key in attrs:
+                    getattr(BasisTemplate, key).fset(basis, int(attrs[key]))
+            return basis
 
 
 # Functional API ==============================================================
-- 
2.43.0


From 201d49fbadf94a2e504f2e43d4ee856dbe8bf24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 46/71] fix: the total least-squares solution is not the
 solver's own array

---
 src/opinf/lstsq/_total.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 253954d..5a0686b 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -121,7 +121,7 @@ class TotalLeastSquaresSolver(SolverTemplate):
         Ohat : (r, d) ndarray
             Operator matrix :math:`\Ohat` (not its transpose!).
         """
-        return self._Ohat
+        return self._Ohat.copy()
 
     # Post-processing ---------------------------------------------------------
     @property
-- 
2.43.0


From fd056650db6e7db4ef70f0c1563da46b64a02293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 47/71] fix: shift transformers check the shape of time
 derivatives

---
 src/opinf/pre/_shiftscale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index a35a6d0..29ccf5f 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -301,6 +301,7 @@ class ShiftTransformer(TransformerTemplate):
         ValueError
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
+        self._check_shape(ddts)
         return ddts if inplace else ddts.copy()
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
-- 
2.43.0


From 85afbf5c157ecd3af972dccb4cdfc467da56f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 48/71] fix: a rejected fit does not leave a
 ShiftScaleTransformer half trained

---
 src/opinf/pre/_shiftscale.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 29ccf5f..c2eab45 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -1048,7 +1048,12 @@ class ShiftScaleTransformer(TransformerTemplate):
         """
         if states.ndim != 2:
             raise ValueError("2D array required to fit transformer")
+        if not np.issubdtype(states.dtype, np.inexact):
+            if inplace and (self.centering or self.scaling):
+                raise TypeError("inplace=True requires floating point states")
+            states = states if inplace else states.astype(float)
         self.state_dimension = states.shape[0]
+        self.__qbar, self.__alpha, self.__beta = None, None, None
 
         Y = states if inplace else states.copy()
         axis = 1 if self.byrow else None
-- 
2.43.0


From 5e392c8128a319fb8e9076b4771c083fe0562054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 49/71] fix: multi-variable fits do not keep dimensions of
 rejected states

---
 src/opinf/basis/_multi.py | 17 ++++++++++++-----
 src/opinf/pre/_multi.py   | 27 +++++++++++++++++----------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index a4e59bf..ec24868 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -222,8 +222,8 @@ class BasisMulti:
             raise AttributeError("dimension attributes not set")
         raise errors.DimensionalityError(
             f"states.shape[0] must be "
-            f"full_state_dimension (n = {n:d}) or "
-            f"reduced_state_dimension (r = {r:d})"
+            f"full_state_dimension (n = {n}) or "
+            f"reduced_state_dimension (r = {r})"
         )
 
     def _slices(self, varindex: int = None, reduced: bool = False):
@@ -315,7 +315,7 @@ class BasisMulti:
         -------
         self
         """
-        if self.full_state_dimension is None:
+        if None in (sizes := self.full_variable_sizes):
             # Assume all state dimensions are equal.
             nx, remainder = divmod(states.shape[0], self.num_variables)
             if remainder != 0:
@@ -327,8 +327,15 @@ class BasisMulti:
                 BasisTemplate.full_state_dimension.fset(basis, nx)
 
         self._check_shape_full(states)
-        for basis, Q in zip(self.bases, self.split(states)):
-            basis.fit(Q)
+        try:
+            for basis, Q in zip(self.bases, self.split(states)):
+                basis.fit(Q)
+        except Exception:
+            # Do not keep dimensions that were inferred from rejected states.
+            if None in sizes:
+                for basis, n in zip(self.bases, sizes):
+                    BasisTemplate.full_state_dimension.fset(basis, n)
+            raise
 
         return self
 
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 386e954..f5c33e4 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -585,7 +585,7 @@ class TransformerMulti:
         states_transformed: (n, k) ndarray
             Matrix of `k` transformed `n`-dimensional snapshots.
         """
-        if self.state_dimension is None:
+        if None in (sizes := self.variable_sizes):
             # Assume all state dimensions are equal.
             nx, remainder = divmod(states.shape[0], self.num_variables)
             if remainder != 0:
@@ -599,15 +599,22 @@ class TransformerMulti:
                 else:
                     TransformerTemplate.state_dimension.fset(tf, nx)
 
-        new_states = np.concatenate(
-            [
-                transformer.fit_transform(state_variable, inplace=inplace)
-                for transformer, state_variable in zip(
-                    self.transformers, self.split(states)
-                )
-            ],
-            axis=0,
-        )
+        try:
+            new_states = np.concatenate(
+                [
+                    transformer.fit_transform(state_variable, inplace=inplace)
+                    for transformer, state_variable in zip(
+                        self.transformers, self.split(states)
+                    )
+                ],
+                axis=0,
+            )
+        except Exception:
+            # Do not keep dimensions that were inferred from rejected states.
+            if None in sizes:
+                for tf, n in zip(self.transformers, sizes):
+                    TransformerTemplate.state_dimension.fset(tf, n)
+            raise
         return states if inplace else new_states
 
     def transform(self, states, inplace=False):
-- 
2.43.0


From c57cc3efc2c20605c2cfbb062738a41ac19fd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 50/71] fix: rejected data and regularizers do not replace
 those of a solver

---
 src/opinf/lstsq/_tikhonov.py |  8 ++++++++
 src/opinf/lstsq/_total.py    |  1 +
 src/opinf/lstsq/_tsvd.py     |  1 +
 src/opinf/utils/_requires.py | 19 +++++++++++++++++++
 4 files changed, 29 insertions(+)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index f61c4bf..67d4c54 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -64,6 +64,7 @@ class _BaseRegularizedSolver(SolverTemplate):
         raise NotImplementedError  # pragma: no cover
 
     # Main methods ------------------------------------------------------------
+    @utils.restores_on_error
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and save the data matrices.
 
@@ -255,6 +256,7 @@ class L2Solver(_BaseRegularizedSolver):
         return self.__reg
 
     @regularizer.setter
+    @utils.restores_on_error
     def regularizer(self, reg):
         """Set the regularization constant."""
         if reg is not None:
@@ -290,6 +292,7 @@ class L2Solver(_BaseRegularizedSolver):
         )
 
     # Main methods ------------------------------------------------------------
+    @utils.restores_on_error
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and compute the singular value decomposition of
         the data matrix in preparation to solve the least-squares problem.
@@ -523,6 +526,7 @@ class L2DecoupledSolver(L2Solver):
         return self.__regs
 
     @regularizer.setter
+    @utils.restores_on_error
     def regularizer(self, regs):
         """Set the regularization constants."""
         if regs is not None:
@@ -538,6 +542,7 @@ class L2DecoupledSolver(L2Solver):
             self._check_regularizer_shape()
 
     # Main methods ------------------------------------------------------------
+    @utils.restores_on_error
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and compute the singular value decomposition of
         the data matrix in preparation to solve the least-squares problem.
@@ -763,6 +768,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
         return self.__reg
 
     @regularizer.setter
+    @utils.restores_on_error
     def regularizer(self, G):
         """Set the regularization matrix."""
         if G is not None:
@@ -914,6 +920,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
         self.__method = method
 
     # Main routines -----------------------------------------------------------
+    @utils.restores_on_error
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and precompute quantities in preparation to
         solve the least-squares problem.
@@ -1175,6 +1182,7 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         return self.__regs
 
     @regularizer.setter
+    @utils.restores_on_error
     def regularizer(self, Gs):
         """Set the regularization matrices."""
         regs = None
diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 5a0686b..f13413e 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -75,6 +75,7 @@ class TotalLeastSquaresSolver(SolverTemplate):
         return start + f"\n  SVD solver: scipy.linalg.svd({kwargs})"
 
     # Main methods ------------------------------------------------------------
+    @utils.restores_on_error
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions, compute the singular value decomposition of
         the data matrix, and solve the problem.
diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 14a50f4..80fe47e 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -119,6 +119,7 @@ class TruncatedSVDSolver(SolverTemplate):
         return f"{start}\n  " + "\n  ".join(out)
 
     # Main methods ------------------------------------------------------------
+    @utils.restores_on_error
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         """Save data matrices and prepare to solve the regression problem."""
         SolverTemplate.fit(self, data_matrix, lhs_matrix)
diff --git a/src/opinf/utils/_requires.py b/src/opinf/utils/_requires.py
index b4c5b38..ffecbd5 100644
--- a/src/opinf/utils/_requires.py
+++ b/src/opinf/utils/_requires.py
@@ -4,6 +4,7 @@
 __all__ = [
     "requires",
     "requires2",
+    "restores_on_error",
 ]
 
 import typing
@@ -43,3 +44,21 @@ def requires(attr: str) -> typing.Callable:
     """
 
     return requires2(attr, f"required attribute '{attr}' not set")
+
+
+def restores_on_error(func: typing.Callable) -> typing.Callable:
+    """Wrapper for methods that should not change an object if they raise an
+    exception: the attributes of the object are set to what they were before.
+    """
+
+    @functools.wraps(func)
+    def _decorator(self, *args, **kwargs):
+        attributes = self.__dict__.copy()
+        try:
+            return func(self, *args, **kwargs)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(attributes)
+            raise
+
+    return _decorator
-- 
2.43.0


From e1c7c50ca83cbcc7e475a07486f3860431681388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 51/71] fix: polynomial operators reject states of the wrong
 dimension

Quadratic, cubic, and quartic operators selected entries of the state by
index, so a state with too many entries gave numbers that ignored the rest.
---
 src/opinf/operators/_base.py          | 8 ++++++++
 src/opinf/operators/_nonparametric.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 7878d15..33007ca 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -636,6 +636,14 @@ class OpInfOperator(OperatorTemplate):
         return out + f"\n  entries.shape:   {self.shape}"
 
     # Evaluation --------------------------------------------------------------
+    def _check_state_dimension(self, state):
+        """Ensure the first dimension of a state array is ``r``."""
+        r = self.state_dimension
+        if (shape := np.shape(state))[:1] != (r,):
+            raise errors.DimensionalityError(
+                f"state.shape = {shape} not aligned with state_dimension = {r}"
+            )
+
     @utils.requires("entries")
     def jacobian(self, state, input_=None) -> np.ndarray:  # pragma: no cover
         r"""Construct the state Jacobian of the operator.
diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index dda56d7..a498f65 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -492,6 +492,7 @@ class QuadraticOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**2  # r = 1
+        self._check_state_dimension(state)
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
@@ -977,6 +978,7 @@ class CubicOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**3  # r = 1.
+        self._check_state_dimension(state)
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
@@ -1452,6 +1454,7 @@ class QuarticOperator(OpInfOperator):
         """
         if self.entries.shape[0] == 1:
             return self.entries[0, 0] * state**4  # r = 1.
+        self._check_state_dimension(state)
         return self.entries @ np.prod(state[self._mask], axis=1)
 
     @utils.requires("entries")
-- 
2.43.0


From cf1a6adbe19c1279064927123bcbe31b1fddbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 52/71] fix: PolynomialOperator validates its entries and
 requires them in apply()

---
 src/opinf/operators/_polynomial_operator.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 851b0d3..8731b7d 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -63,6 +63,23 @@ class PolynomialOperator(OpInfOperator):
 
         super().__init__(entries=entries)
 
+    def set_entries(self, entries) -> None:
+        r"""Set the operator matrix :math:`\Phat`.
+
+        Parameters
+        ----------
+        entries : (r, (r + p - 1 choose p)) ndarray
+            Operator matrix :math:`\Phat`.
+        """
+        self._validate_entries(entries)
+        r = np.shape(entries)[0] if np.ndim(entries) > 0 else 0
+        valid = [(r, self.operator_dimension(r))]
+        if self.polynomial_order == 0:
+            valid.append((r,))
+        if np.shape(entries) not in valid:
+            raise ValueError("invalid PolynomialOperator entries dimensions")
+        OpInfOperator.set_entries(self, entries)
+
     def operator_dimension(self, r: int, m=None) -> int:
         """
         computes the number of non-redundant terms in a vector of length r
@@ -189,6 +206,7 @@ class PolynomialOperator(OpInfOperator):
                 kept[p]
             ]
 
+    @utils.requires("entries")
     def apply(self, state: np.ndarray, input_=None) -> np.ndarray:
         r"""Apply the operator to the given state. Input is not used.
         See OpInfOperator.apply for description.
-- 
2.43.0


From e91255c4d8376a21e51bd4ff564eebbf2b0168a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 53/71] fix: rejected operators, entries, and parameters do not
 replace earlier ones

- A model keeps its operators (and what it knows about them) when new ones are
  rejected; so does an interpolatory operator whose interpolator cannot be
  constructed.
- The parameter dimension of an affine operator is settled by an evaluation or
  by training data, not by an attempt that was rejected.
---
 src/opinf/models/mono/_base.py       | 3 ++-
 src/opinf/models/mono/_parametric.py | 4 +++-
 src/opinf/operators/_affine.py       | 5 +++--
 src/opinf/operators/_interpolate.py  | 1 +
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 85b7948..07bc68c 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -7,7 +7,7 @@ import abc
 import warnings
 import numpy as np
 
-from ... import errors, lstsq, operators as _operators
+from ... import errors, lstsq, utils, operators as _operators
 from ...operators import _utils as oputils
 
 
@@ -70,6 +70,7 @@ class _Model(abc.ABC):
         return self.__operators
 
     @operators.setter
+    @utils.restores_on_error
     def operators(self, ops):
         """Set the operators."""
         if self._isvalidoperator(ops):
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 917ff31..f26b892 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -93,6 +93,7 @@ class _ParametricModel(_OpInfModel):
         return _OpInfModel.operators.fget(self)
 
     @operators.setter
+    @utils.restores_on_error
     def operators(self, ops):
         """Set the operators."""
         _OpInfModel.operators.fset(self, ops)
@@ -182,7 +183,6 @@ class _ParametricModel(_OpInfModel):
             raise errors.DimensionalityError(
                 "'parameters' must be a sequence of scalars or 1D arrays"
             )
-        self._synchronize_parameter_dimensions(p)
         n_datasets = len(parameters)
 
         def _check_valid_dimension0(dataset, label):
@@ -239,6 +239,8 @@ class _ParametricModel(_OpInfModel):
         elif inputs is None:
             inputs = [None] * n_datasets
 
+        self._synchronize_parameter_dimensions(p)
+
         # Subtract known operator evaluations from the LHS.
         for ell in self._indices_of_known_operators:
             op = self.operators[ell]
diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index ae84e59..f24d059 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -247,10 +247,11 @@ class _AffineOperator(ParametricOpInfOperator):
         op : nonparametric :mod:`opinf.operators` operator
             Nonparametric operator corresponding to the parameter value.
         """
+        if self.parameter_dimension is not None:
+            self._check_parametervalue_dimension(parameter)
+        theta_mus = self.coeffs(parameter)
         if self.parameter_dimension is None:
             self._set_parameter_dimension_from_values([parameter])
-        self._check_parametervalue_dimension(parameter)
-        theta_mus = self.coeffs(parameter)
         if self.nterms == 1 and np.isscalar(theta_mus):
             theta_mus = [theta_mus]
         entries = sum([tm * A for tm, A in zip(theta_mus, self.entries)])
diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index fb6a715..c1715cf 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -195,6 +195,7 @@ class _InterpOperator(ParametricOpInfOperator):
         """
         return ParametricOpInfOperator.entries.fget(self)
 
+    @utils.restores_on_error
     def set_entries(self, entries, fromblock: bool = False) -> None:
         r"""Set the operator matrices at the training parameter values.
 
-- 
2.43.0


From a1e17ffb4f17b43981f5f2870a59da6e27ad13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 54/71] fix: parametric discrete models do not ignore extra
 input trajectories

---
 src/opinf/models/mono/_parametric.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index f26b892..95ff24b 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -602,6 +602,11 @@ class _ParametricDiscreteMixin:
             nextstates = [Q[:, 1:] for Q in states]
             states = [Q[:, :-1] for Q in states]
         if inputs is not None:
+            if len(inputs) != len(states):
+                raise errors.DimensionalityError(
+                    f"len(inputs) = {len(inputs)} "
+                    f"!= {len(states)} = len(states)"
+                )
             inputs = [U[..., : Q.shape[1]] for U, Q in zip(inputs, states)]
         return super().fit(parameters, states, nextstates, inputs)
 
-- 
2.43.0


From 531770824f0e8c7e7952221484f9ad9ddfa8cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 55/71] fix: affine operators check the number of coefficients

The coefficients were paired with the operator matrices up to the shorter of
the two, dropping terms of the expansion.
---
 src/opinf/operators/_affine.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index f24d059..3e2e3d6 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -233,6 +233,18 @@ class _AffineOperator(ParametricOpInfOperator):
         return "\n".join(lines)
 
     # Evaluation --------------------------------------------------------------
+    def _evaluate_coeffs(self, parameter):
+        """Evaluate the coefficient functions, one value for each term."""
+        theta_mus = self.coeffs(parameter)
+        if self.nterms == 1 and np.isscalar(theta_mus):
+            theta_mus = [theta_mus]
+        if (n_coeffs := len(theta_mus)) != self.nterms:
+            raise errors.DimensionalityError(
+                f"{self.nterms} = nterms != len(coeffs(parameter)) "
+                f"= {n_coeffs}"
+            )
+        return theta_mus
+
     @utils.requires("entries")
     def evaluate(self, parameter):
         r"""Evaluate the operator at the given parameter value.
@@ -249,11 +261,9 @@ class _AffineOperator(ParametricOpInfOperator):
         """
         if self.parameter_dimension is not None:
             self._check_parametervalue_dimension(parameter)
-        theta_mus = self.coeffs(parameter)
+        theta_mus = self._evaluate_coeffs(parameter)
         if self.parameter_dimension is None:
             self._set_parameter_dimension_from_values([parameter])
-        if self.nterms == 1 and np.isscalar(theta_mus):
-            theta_mus = [theta_mus]
         entries = sum([tm * A for tm, A in zip(theta_mus, self.entries)])
         return self._OperatorClass(entries)
 
@@ -412,9 +422,7 @@ class _AffineOperator(ParametricOpInfOperator):
         blockcolumns = []
         for mu, Q, U in zip(parameters, states, inputs):
             Di = self._OperatorClass.datablock(Q, U)
-            theta_mus = self.coeffs(mu)
-            if self.nterms == 1 and np.isscalar(theta_mus):
-                theta_mus = [theta_mus]
+            theta_mus = self._evaluate_coeffs(mu)
             blockcolumns.append(np.vstack([theta * Di for theta in theta_mus]))
         return np.hstack(blockcolumns)
 
-- 
2.43.0


From 592ce0a0bf9967c66b3a5c40e3fb46143c5d93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 56/71] fix: ROMs check that training trajectories are aligned
 before fitting

Left-hand sides, inputs, time domains, or parameters in excess of the state
trajectories were dropped, and trajectories whose lengths differed from the
lengths of their inputs or left-hand sides were accepted as long as the totals
agreed (or, for discrete models, the inputs were long enough), pairing
snapshots with data of other times.
---
 src/opinf/roms/_base.py  | 44 ++++++++++++++++++++++++++++++++++++----
 src/opinf/roms/_bayes.py |  4 ++++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 2be439d..87f9aa3 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -310,6 +310,39 @@ class _BaseROM(abc.ABC):
                 "argument 'inputs' required (model depends on external inputs)"
             )
 
+    def _check_data_alignment(self, parameters, states, lhs, inputs):
+        """Verify that each training trajectory has a parameter, left-hand
+        side data, and input data (when given) of the corresponding length.
+        """
+        for data, label in (
+            (parameters, "parameters"),
+            (lhs, "lhs"),
+            (inputs, "inputs"),
+        ):
+            if data is not None and len(data) != len(states):
+                raise errors.DimensionalityError(
+                    f"len({label}) = {len(data)} "
+                    f"!= {len(states)} = len(states)"
+                )
+
+        for i, Q in enumerate(states):
+            k = np.shape(Q)[-1]
+            if lhs is not None and (kl := np.shape(lhs[i])[-1]) != k:
+                raise errors.DimensionalityError(
+                    f"lhs[{i}].shape[-1] = {kl} != {k} = states[{i}].shape[-1]"
+                )
+            if inputs is not None:
+                ku = np.shape(inputs[i])[-1]
+                if self._iscontinuous:
+                    aligned = ku == k
+                else:  # Discrete models ignore inputs after the last snapshot.
+                    aligned = ku >= (k - 1 if lhs is None else k)
+                if not aligned:
+                    raise errors.DimensionalityError(
+                        f"inputs[{i}].shape[-1] = {ku} not aligned with "
+                        f"states[{i}].shape[-1] = {k}"
+                    )
+
     @staticmethod
     def _fix_single_trajectory(states, lhs, inputs):
         """If data comes from a single trajectory, ``states``, ``lhs``, and/or
@@ -429,10 +462,8 @@ class _BaseROM(abc.ABC):
             else:
                 lhs = [Q[:, 1:] for Q in states]
                 states = [Q[:, :-1] for Q in states]
-                if inputs is not None:
-                    inputs = [
-                        U[..., : Q.shape[1]] for Q, U in zip(states, inputs)
-                    ]
+        if inputs is not None and not self._iscontinuous:
+            inputs = [U[..., : Q.shape[1]] for Q, U in zip(states, inputs)]
 
         return states, lhs, inputs
 
@@ -499,6 +530,7 @@ class _BaseROM(abc.ABC):
             states, lhs, inputs = self._fix_single_trajectory(
                 states, lhs, inputs
             )
+        self._check_data_alignment(parameters, states, lhs, inputs)
 
         states, lhs, inputs = self._process_training_data(
             states=states,
@@ -648,6 +680,10 @@ class _BaseROM(abc.ABC):
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if (nt := len(train_time_domains)) != (ns := len(states)):
+            raise errors.DimensionalityError(
+                f"{ns} state trajectories but {nt} time domains detected"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 2469e09..10ee80b 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -276,6 +276,10 @@ class _BayesianROMMixin:
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if (nt := len(train_time_domains)) != (ns := len(states)):
+            raise errors.DimensionalityError(
+                f"{ns} state trajectories but {nt} time domains detected"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
-- 
2.43.0


From 2f1fd406d96573c42984b4cd3143f2ab7815fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 57/71] fix: the Jacobian of a PolynomialOperator rejects
 misaligned states

---
 src/opinf/operators/_polynomial_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 8731b7d..f73b451 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -248,6 +248,7 @@ class PolynomialOperator(OpInfOperator):
             return 0
 
         # Product rule for x^p = x (x) x^(p - 1), without redundant terms.
+        self._check_state_dimension(np.atleast_1d(state))
         x, identity = np.atleast_1d(state), np.eye(self.state_dimension)
         xp, dxp = x, identity
         for kept in self.nonredudant_entries[2:]:
-- 
2.43.0


From 78ed86bedc06e6dc976ed7336990dc1911b39abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 58/71] fix: ROMs check the rows of left-hand sides and inputs
 before fitting

The transformer and basis were already refit when the mismatch was noticed.
---
 src/opinf/roms/_base.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 87f9aa3..ea1a860 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -312,7 +312,7 @@ class _BaseROM(abc.ABC):
 
     def _check_data_alignment(self, parameters, states, lhs, inputs):
         """Verify that each training trajectory has a parameter, left-hand
-        side data, and input data (when given) of the corresponding length.
+        side data, and input data (when given) of the corresponding shape.
         """
         for data, label in (
             (parameters, "parameters"),
@@ -326,13 +326,18 @@ class _BaseROM(abc.ABC):
                 )
 
         for i, Q in enumerate(states):
-            k = np.shape(Q)[-1]
-            if lhs is not None and (kl := np.shape(lhs[i])[-1]) != k:
+            k = (Qshape := np.shape(Q))[-1]
+            if lhs is not None and (Zshape := np.shape(lhs[i])) != Qshape:
                 raise errors.DimensionalityError(
-                    f"lhs[{i}].shape[-1] = {kl} != {k} = states[{i}].shape[-1]"
+                    f"lhs[{i}].shape = {Zshape} "
+                    f"!= {Qshape} = states[{i}].shape"
                 )
             if inputs is not None:
-                ku = np.shape(inputs[i])[-1]
+                m, ku = np.atleast_2d(inputs[i]).shape
+                if m != np.atleast_2d(inputs[0]).shape[0]:
+                    raise errors.DimensionalityError(
+                        f"inputs[{i}] and inputs[0] not aligned"
+                    )
                 if self._iscontinuous:
                     aligned = ku == k
                 else:  # Discrete models ignore inputs after the last snapshot.
-- 
2.43.0


From 06e77c72a6e5110ece9e44c9b6760f5a12be6652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 59/71] fix: regularization selection checks its arguments
 before resetting the solver

A rejected call left the solver without a regularizer, or the stages refit.
Surplus input functions are no longer ignored.
---
 src/opinf/roms/_base.py  | 39 ++++++++++++++++++++++++++++-----------
 src/opinf/roms/_bayes.py | 15 +++++++++++----
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index ea1a860..4f20520 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -477,22 +477,30 @@ class _BaseROM(abc.ABC):
         test_cases,
         TestCaseClass: utils._gridsearch._RegTest,
     ):
+        return [
+            tcase.copy(self.encode(tcase.initial_conditions))
+            for tcase in self._check_test_cases(test_cases, TestCaseClass)
+        ]
+
+    @staticmethod
+    def _check_test_cases(
+        test_cases,
+        TestCaseClass: utils._gridsearch._RegTest,
+    ):
+        """Verify the types of the test cases and return them as a list."""
         if test_cases is None:
             return []
 
         if isinstance(test_cases, TestCaseClass):
             test_cases = [test_cases]
-        processed_test_cases = []
+        test_cases = list(test_cases)
         for tcase in test_cases:
             if not isinstance(tcase, TestCaseClass):
                 raise TypeError(
                     "test cases must be "
                     f"'utils.{TestCaseClass.__name__}' objects"
                 )
-            processed_test_cases.append(
-                tcase.copy(self.encode(tcase.initial_conditions))
-            )
-        return processed_test_cases
+        return test_cases
 
     def _get_stability_limits(self, states, stability_margin):
         shifts = [np.mean(Q, axis=1).reshape((-1, 1)) for Q in states]
@@ -537,6 +545,10 @@ class _BaseROM(abc.ABC):
             )
         self._check_data_alignment(parameters, states, lhs, inputs)
 
+        # Reset the solver (in case the basis dimension changed between calls).
+        if solver_only and hasattr(self.model.solver, "reset"):
+            self.model.solver.reset()
+
         states, lhs, inputs = self._process_training_data(
             states=states,
             lhs=lhs,
@@ -697,6 +709,11 @@ class _BaseROM(abc.ABC):
         if input_functions is not None:
             if callable(input_functions):  # one global input function.
                 input_functions = [input_functions] * len(states)
+            if (nu := len(input_functions)) != (ns := len(states)):
+                raise errors.DimensionalityError(
+                    f"{ns} state trajectories but {nu} input functions "
+                    "detected"
+                )
             if not callable(input_functions[0]):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
@@ -709,13 +726,13 @@ class _BaseROM(abc.ABC):
             inputs = None
         if test_time_length < 0:
             raise ValueError("argument 'test_time_length' must be nonnegative")
+        test_cases = self._check_test_cases(
+            test_cases, utils.ContinuousRegTest
+        )
         if regularizer_factory is None:
             regularizer_factory = _identity
 
-        # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model.solver, "reset"):
-            self.model.solver.reset()
 
         # Fit the model for the first time.
         self._fit_model(
@@ -932,13 +949,13 @@ class _BaseROM(abc.ABC):
                         "argument 'inputs' must contain enough data for "
                         f"{num_test_iters} iterations after the training data"
                     )
+        test_cases = self._check_test_cases(
+            test_cases, utils.DiscreteRegTest
+        )
         if regularizer_factory is None:
             regularizer_factory = _identity
 
-        # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model.solver, "reset"):
-            self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
         self._fit_model(
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 10ee80b..79bbc7b 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -288,6 +288,11 @@ class _BayesianROMMixin:
         if input_functions is not None:
             if callable(input_functions):  # one global input function.
                 input_functions = [input_functions] * len(states)
+            if (nu := len(input_functions)) != (ns := len(states)):
+                raise errors.DimensionalityError(
+                    f"{ns} state trajectories but {nu} input functions "
+                    "detected"
+                )
             if not callable(input_functions[0]):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
@@ -300,12 +305,13 @@ class _BayesianROMMixin:
             inputs = None
         if test_time_length < 0:
             raise ValueError("argument 'test_time_length' must be nonnegative")
+        test_cases = self._check_test_cases(
+            test_cases, utils.ContinuousRegTest
+        )
         if regularizer_factory is None:
             regularizer_factory = _identity
 
         # Fit the model for the first time.
-        if hasattr(self.model.solver, "reset"):
-            self.model.solver.reset()
         self._fit_model(
             parameters=parameters,
             states=states,
@@ -452,12 +458,13 @@ class _BayesianROMMixin:
                         "argument 'inputs' must contain enough data for "
                         f"{num_test_iters} iterations after the training data"
                     )
+        test_cases = self._check_test_cases(
+            test_cases, utils.DiscreteRegTest
+        )
         if regularizer_factory is None:
             regularizer_factory = _identity
 
         # Fit the model for the first time.
-        if hasattr(self.model.solver, "reset"):
-            self.model.solver.reset()
         self._fit_model(
             parameters=parameters,
             states=states,
-- 
2.43.0


From 41ccd34d8bafee7eeaf5ab2353fc779039a42c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 60/71] fix: PolynomialLifter does not truncate a single
 fractional order

---
 src/opinf/lift/_polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index c2c6cc9..0eb2b04 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
-- 
2.43.0


From d6205252f7b122d91ef212b03da66e06e983877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 61/71] fix: derivative estimator verify() compares estimates
 with the truth at their own times

---
 src/opinf/ddt/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index bca7c1a..afbe094 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -283,7 +283,7 @@ class DerivativeEstimatorTemplate(abc.ABC):
 
             # Use new states to infer the indices of the returns.
             start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
             )
             s = slice(start, start + Q_est.shape[1])
             truth = dQdt[:, s]
-- 
2.43.0


From 62a7974064ee75dd4ae5012a7e616e3731abf97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 62/71] fix: PolynomialOperator passes its own verify()

---
 src/opinf/operators/_base.py                | 7 +++++--
 src/opinf/operators/_polynomial_operator.py | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 33007ca..2af91f5 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -540,6 +540,9 @@ class OpInfOperator(OperatorTemplate):
       See :class:`ParametricOpInfOperator`.
     """
 
+    # True if operator_dimension() and datablock() must be static methods.
+    _static_data = True
+
     # Initialization ----------------------------------------------------------
     def __init__(self, entries=None):
         """Initialize an empty operator."""
@@ -869,7 +872,7 @@ class OpInfOperator(OperatorTemplate):
         consistent.
         """
         # Verify operator_dimension() - - - - - - - - - - - - - - - - - - - - -
-        if not isinstance(
+        if self._static_data and not isinstance(
             self.operator_dimension, types.FunctionType
         ):  # pragma: no cover
             raise errors.VerificationError(
@@ -882,7 +885,7 @@ class OpInfOperator(OperatorTemplate):
             )
 
         # Verify datablock() - - - - - - - - - - - - - - - - - - - - - - - - -
-        if not isinstance(
+        if self._static_data and not isinstance(
             self.datablock, types.FunctionType
         ):  # pragma: no cover
             raise errors.VerificationError(
diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index f73b451..d9b1e17 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -49,6 +49,9 @@ class PolynomialOperator(OpInfOperator):
     True
     """
 
+    # The data block depends on the polynomial order of the instance.
+    _static_data = False
+
     def __init__(self, polynomial_order: int, entries=None):
         """Initialize an empty operator."""
         if polynomial_order < 0 or (
-- 
2.43.0


From c4b24a5dfedeb7b998c36bdfa0f3174017584987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 63/71] fix: a failed verify() of a derivative estimator
 restores its time domains

---
 src/opinf/ddt/_base.py          | 46 +++++++++++++++++----------------
 src/opinf/ddt/_interpolation.py |  7 ++---
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index afbe094..f979e1d 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -271,28 +271,31 @@ class DerivativeEstimatorTemplate(abc.ABC):
         estimation_errors["dts"] = dts
 
         t_base = np.arange(1001)
-        for dt in dts:
-            # Construct test cases.
-            t = 1 + (dt * t_base)
-            Q = np.array([test[1](t) for test in self.__tests])
-            dQdt = np.array([test[2](t) for test in self.__tests])
-            self.__t = t
-
-            # Call the derivative estimator.
-            Q_est, dQdt_est = self.estimate(Q, None)
-
-            # Use new states to infer the indices of the returns.
-            start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
-            )
-            s = slice(start, start + Q_est.shape[1])
-            truth = dQdt[:, s]
+        try:
+            for dt in dts:
+                # Construct test cases.
+                t = 1 + (dt * t_base)
+                Q = np.array([test[1](t) for test in self.__tests])
+                dQdt = np.array([test[2](t) for test in self.__tests])
+                self.__t = t
+
+                # Call the derivative estimator.
+                Q_est, dQdt_est = self.estimate(Q, None)
+
+                # Use new states to infer the indices of the returns.
+                start = np.argmin(
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
+                )
+                s = slice(start, start + Q_est.shape[1])
+                truth = dQdt[:, s]
 
-            # Calculate the relative error of the time derivative estimate.
-            denom = la.norm(truth, axis=1)
-            errs = la.norm(dQdt_est - truth, axis=1) / denom
-            for test, err in zip(self.__tests, errs):
-                estimation_errors[test[0]].append(err)
+                # Calculate the relative error of the time derivative estimate.
+                denom = la.norm(truth, axis=1)
+                errs = la.norm(dQdt_est - truth, axis=1) / denom
+                for test, err in zip(self.__tests, errs):
+                    estimation_errors[test[0]].append(err)
+        finally:
+            self.__t = time_domain  # Restore original time domain.
 
         if plot:
             _, ax = plt.subplots(1, 1)
@@ -325,6 +328,5 @@ class DerivativeEstimatorTemplate(abc.ABC):
                 for dt, err in zip(dts, estimation_errors[name]):
                     print(f"dt = {dt:.1e}:\terror = {err:.4e}")
 
-        self.__t = time_domain  # Restore original time domain.
         if return_errors:
             return estimation_errors
diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index 2330c6a..8c4b4ff 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -241,6 +241,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
     def verify(self, plot=False, return_errors=False):
         new_time_domain = self.__t2
         self.__t2 = None
-        out = super().verify(plot, return_errors)
-        self.__t2 = new_time_domain
-        return out
+        try:
+            return super().verify(plot, return_errors)
+        finally:
+            self.__t2 = new_time_domain
-- 
2.43.0


From 278aa6fc327fb827b1b70f379a4a6dbd00f1fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 64/71] fix: comparing an OperatorPosterior with another type
 of object is False

---
 src/opinf/roms/_bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 79bbc7b..2534d69 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -141,6 +141,8 @@ class OperatorPosterior:
         return [rv.cov for rv in self.randomvariables]
 
     def __eq__(self, other):
+        if not isinstance(other, self.__class__):
+            return False
         if self.nrows != other.nrows:
             return False
         for m1, m2 in zip(self.means, other.means):
-- 
2.43.0


From 6f1f7e3a48362ce59972887b6a02e4efef7e698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 65/71] fix: comparing multivariable transformers or bases with
 another type of object is False

---
 src/opinf/basis/_multi.py | 2 +-
 src/opinf/pre/_multi.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index ec24868..0dbfab1 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -153,7 +153,7 @@ class BasisMulti:
 
     def __eq__(self, other) -> bool:
         """Test two BasisMulti objects for equality."""
-        if not (
+        if not isinstance(other, BasisMulti) or not (
             isinstance(other, self.__class__)
             or isinstance(self, other.__class__)
         ):
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index f5c33e4..2c233d0 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -449,7 +449,7 @@ class TransformerMulti:
 
     def __eq__(self, other) -> bool:
         """Test two TransformerMulti objects for equality."""
-        if not (
+        if not isinstance(other, TransformerMulti) or not (
             isinstance(other, self.__class__)
             or isinstance(self, other.__class__)
         ):
-- 
2.43.0


From 2a095aa6d5e58d23060c310394892128a20c344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 66/71] fix: comparing bases handles vector weights and weights
 of different sizes

---
 src/opinf/basis/_linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 1cf5805..efbefc3 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -260,6 +260,12 @@ class LinearBasis(BasisTemplate):
         if (w1 := self.weights) is not None:
             if (w2 := other.weights) is None:
                 return False
+            w1, w2 = [
+                sparse.diags_array(w) if np.ndim(w) == 1 else w
+                for w in (w1, w2)
+            ]
+            if w1.shape != w2.shape:
+                return False
             if sparse.issparse(w1) or sparse.issparse(w2):
                 w1, w2 = sparse.csr_array(w1), sparse.csr_array(w2)
                 if not (abs(w1 - w2) - 1e-5 * abs(w2)).max() <= 1e-8:
-- 
2.43.0


From ccd5d8728fc3920dfe02b7e10e18654215af4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 67/71] fix: comparing shift-scale transformers is symmetric
 and handles partly set attributes

---
 src/opinf/pre/_shiftscale.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index c2eab45..ab5fede 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -977,17 +977,14 @@ class ShiftScaleTransformer(TransformerTemplate):
                 return False
         if self.state_dimension != other.state_dimension:
             return False
-        if self.centering and self.mean_ is not None:
-            if other.mean_ is None:
+        attrs = ["mean_"] if self.centering else []
+        attrs += ["scale_", "shift_"] if self.scaling else []
+        for attr in attrs:
+            mine, theirs = getattr(self, attr), getattr(other, attr)
+            if (mine is None) is not (theirs is None):
                 return False
-            if not np.all(self.mean_ == other.mean_):
+            if mine is not None and not np.all(mine == theirs):
                 return False
-        if self.scaling and self.scale_ is not None:
-            for attr in ("scale_", "shift_"):
-                if (oat := getattr(other, attr)) is None:
-                    return False
-                if not np.all(getattr(self, attr) == oat):
-                    return False
         return True
 
     # Printing ----------------------------------------------------------------
-- 
2.43.0


From eafdba528dc21d9bc289c0839a2bfbc9fe63cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 68/71] fix: get_var() with negative or out-of-range variable
 indices

---
 src/opinf/basis/_multi.py | 3 ++-
 src/opinf/pre/_multi.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index 0dbfab1..50920af 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -252,7 +252,8 @@ class BasisMulti:
         dimsum = np.cumsum((0,) + ds)
 
         if varindex is not None:
-            return slice(dimsum[varindex], dimsum[varindex + 1])
+            i = range(self.num_variables)[varindex]
+            return slice(dimsum[i], dimsum[i + 1])
 
         return [
             slice(dimsum[i], dimsum[i + 1]) for i in range(self.num_variables)
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 2c233d0..4b86006 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -503,7 +503,8 @@ class TransformerMulti:
         """
         dimsum = np.cumsum((0,) + self.variable_sizes)
         if varindex is not None:
-            return slice(dimsum[varindex], dimsum[varindex + 1])
+            i = range(self.num_variables)[varindex]
+            return slice(dimsum[i], dimsum[i + 1])
 
         return tuple(
             [
-- 
2.43.0


From 2f762ffd666f7c724ec28b54bbe6a4ce5ea14f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 69/71] fix: str() of a PODBasis whose SVD solver is a callable
 without a name

---
 src/opinf/basis/_pod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 01df151..e2677f7 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -483,7 +483,9 @@ class PODBasis(LinearBasis):
         elif self.__svdsolverlabel == "randomized":
             out.append("SVD solver: sklearn.utils.extmath.randomized_svd()")
         elif self.__svdsolverlabel == "custom":
-            if (name := self.__svdengine.__name__) == "<lambda>":
+            engine = self.__svdengine
+            name = getattr(engine, "__name__", type(engine).__name__)
+            if name == "<lambda>":
                 out.append("SVD solver: custom lambda function")
             else:
                 out.append(f"SVD solver: {name}()")
-- 
2.43.0


From 58339a2088788e4b9ed27f2328d2a537e28eb6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 70/71] fix: transformer pipelines with a member without
 transform_ddts()

---
 src/opinf/pre/_multi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 4b86006..4268529 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -133,7 +133,12 @@ class TransformerPipeline(TransformerTemplate):
         return Y
 
     def transform_ddts(self, ddts, inplace=False):
-        return self._chain("transform_ddts", ddts, inplace=inplace)
+        for tf in self.transformers:
+            ddts = tf.transform_ddts(ddts, inplace=inplace)
+            if ddts is NotImplemented:
+                return NotImplemented
+            inplace = True
+        return ddts
 
     # Model persistence -------------------------------------------------------
     def save(self, savefile: str, overwrite: bool = False):
-- 
2.43.0


From 9f0ae80472e746bb75925bf207c94a501928a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 71/71] fix: verify() of operators with sparse entries

---
 src/opinf/operators/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 2af91f5..a7ffe13 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -331,6 +331,8 @@ class OperatorTemplate(abc.ABC):
         def _finite_difference_check(f, df, x, hs=None):
             """Compare analytical and numerical derivatives."""
             dfx = df(x)
+            if sparse.issparse(dfx):
+                dfx = dfx.toarray()
             if hs is None:
                 hs = np.logspace(-10, -1, 10)[::-1]
             return hs, np.array(
@@ -344,7 +346,9 @@ class OperatorTemplate(abc.ABC):
         else:
             if np.isscalar(out) and out == 0:  # pragma: no cover
                 print("jacobian() = 0")
-            elif not isinstance(out, np.ndarray) or out.shape != (
+            elif not (
+                isinstance(out, np.ndarray) or sparse.issparse(out)
+            ) or out.shape != (
                 r,
                 r,
             ):  # pragma: no cover
-- 
2.43.0

