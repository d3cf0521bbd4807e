From 4828c4474c3364b62b1a95e7ce13ac0658f6f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 01/21] fix: a rejected KernelMatrix.attach_to no longer
 corrupts the current attachment

attach_to() replaced the sample before validating the second one, so after the
ValueError the instance mixed cached values of the old sample with the new one.
---
 kernelmethods/base.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..9b7cb50 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,16 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        # validating everything before changing any state, so a rejected sample
+        #   leaves this instance attached to the previous one
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two,
+                                           ensure_dtype=sample_two.dtype)
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +272,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
-- 
2.43.0


From d4cb5f6993d4f34f5a8bbe8a88c5c4fc4b737c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 02/21] fix: never cache an incomplete, sparse or
 upper-triangular kernel matrix as the full one

The partially filled (after a kernel evaluation failed, or while another thread
was still evaluating), sparse (after KM[:, :]) or upper-triangular (after
.full_sparse) matrix was cached and later served by .full, .centered, .normed_km
and .frob_norm.
---
 kernelmethods/base.py | 65 +++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 9b7cb50..1855dc1 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -21,7 +21,7 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
                                  ensure_ndarray_2D, get_callable_name, not_symmetric)
-from scipy.sparse import issparse, lil_matrix
+from scipy.sparse import lil_matrix
 
 
 class BaseKernelFunction(ABC):
@@ -628,7 +628,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
@@ -712,13 +712,17 @@ class KernelMatrix(object):
         #   so we need only to STORE half the matrix!
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
-        if not self._populated_fully and not hasattr(self, '_full_km'):
+        # only the complete dense matrix is kept: the kernel values needed for the
+        #   other forms are available from the internal dict
+        if dense_fmt and self._populated_fully:
+            full_km = self._full_km
+        else:
             if not dense_fmt:
-                self._full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
+                full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
             else:
                 # filling with nan to avoid unexpected usage!
-                self._full_km = np.full(self.shape, fill_value=np.nan,
-                                        dtype=cfg.km_dtype)
+                full_km = np.full(self.shape, fill_value=np.nan,
+                                  dtype=cfg.km_dtype)
 
             try:
                 # kernel matrix is symmetric (in a single sample case)
@@ -728,40 +732,41 @@ class KernelMatrix(object):
                 #   refers to sample_two in the two_samples case
                 for ix_one in range(self.shape[0]): # number of rows!
                     for ix_two in range(ix_one, self.shape[1]): # from second sample!
-                        self._full_km[ix_one, ix_two] = \
+                        full_km[ix_one, ix_two] = \
                             self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to fully compute the kernel matrix!')
-            else:
-                self._populated_fully = True
 
-        if fill_lower_tri and not self._lower_tri_km_filled:
-            try:
-                # choosing k=-1 as main diag is already covered above (nested for
-                # loop)
-                ix_lower_tri = np.tril_indices(self.shape[0], m=self.shape[1], k=-1)
-
-                if not self._two_samples and self.shape[0] == self.shape[1]:
-                    self._full_km[ix_lower_tri] = self._full_km.T[ix_lower_tri]
-                else:
-                    # evaluating it for the lower triangle as well!
-                    for ix_one, ix_two in zip(*ix_lower_tri):
-                        self._full_km[ix_one, ix_two] = self._eval_kernel(ix_one,
-                                                                          ix_two)
-            except:
-                raise RuntimeError('Unable to symmetrize the kernel matrix!')
-            else:
+            if fill_lower_tri:
+                try:
+                    # choosing k=-1 as main diag is already covered above (nested for
+                    # loop)
+                    ix_lower_tri = np.tril_indices(self.shape[0], m=self.shape[1],
+                                                   k=-1)
+
+                    if not self._two_samples and self.shape[0] == self.shape[1]:
+                        full_km[ix_lower_tri] = full_km.T[ix_lower_tri]
+                    else:
+                        # evaluating it for the lower triangle as well!
+                        for ix_one, ix_two in zip(*ix_lower_tri):
+                            full_km[ix_one, ix_two] = self._eval_kernel(ix_one,
+                                                                        ix_two)
+                except:
+                    raise RuntimeError('Unable to symmetrize the kernel matrix!')
+
+            if dense_fmt and fill_lower_tri:
+                # exposed only once it is complete, as the evaluation above can fail
+                #   or be requested again from another thread in the meantime
+                self._full_km = full_km
                 self._lower_tri_km_filled = True
+                self._populated_fully = True
 
-        if issparse(self._full_km) and dense_fmt:
-            self._full_km = self._full_km.todense()
-
-        if contains_nan_inf(self._full_km):
+        if contains_nan_inf(full_km):
             warn('Kernel matrix computation resulted in Inf or NaN values!'
                  ' Check your parameters and data!\n Kernel function: {}'
                  ''.format(self.kernel), KernelMethodsWarning)
 
-        return self._full_km
+        return full_km
 
 
     def __str__(self):
-- 
2.43.0


From 123e093d59b7ff991eeab6eace973309c72d1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 03/21] fix: format() and f-strings work on kernels, kernel
 matrices and their collections

__format__ was aliased to __str__, which does not accept the format spec, so
formatting raised TypeError (incl. the NaN/Inf warning of a KernelFromCallable).
---
 kernelmethods/base.py | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 1855dc1..ce032f4 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -142,10 +142,15 @@ class KernelFromCallable(BaseKernelFunction):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
 class KernelMatrix(object):
     """
     KernelMatrix is a self-contained class for the Gram matrix induced by a kernel
@@ -782,10 +787,15 @@ class KernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     # TODO implement arithmetic operations on kernel matrices
     def __add__(self, other):
         """Addition"""
@@ -871,10 +881,15 @@ class KernelMatrixPrecomputed(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
 class ConstantKernelMatrix(object):
     """Custom KernelMatrix (KM) to efficiently represent a constant.
 
@@ -1041,10 +1056,15 @@ class ConstantKernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
 VALID_KERNEL_MATRIX_TYPES = (KernelMatrix, KernelMatrixPrecomputed, np.ndarray)
 
 
@@ -1256,10 +1276,15 @@ class KernelSet(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     def __iter__(self):
         """Making an iterable."""
 
@@ -1440,10 +1465,15 @@ class CompositeKernel(ABC):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
 class SumKernel(CompositeKernel):
     """Class to define and compute a weighted sum kernel from a KernelSet
 
-- 
2.43.0


From 631c6cb0c32fb52c90f64ee157c6c5e8b6c207de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 04/21] fix: empty selection on a ConstantKernelMatrix raises
 KMAccessError, not NameError

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index ce032f4..066b748 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1040,7 +1040,7 @@ class ConstantKernelMatrix(object):
 
         # slice object returns empty list if all specified are out of range
         if len(indices) == 0:
-            raise KMAccessError('No samples were selected in dim {}'.format(dim))
+            raise KMAccessError('No samples were selected!')
 
         # removing duplicates and sorting
         indices = sorted(list(set(indices)))
-- 
2.43.0


From 94b510abf84d268d30861710b6acfa45dd3294aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 05/21] fix: a non-square matrix is not symmetric

np.isclose() broadcasts a (1, n) matrix against its transpose, so a constant row
was accepted as a precomputed kernel matrix.
---
 kernelmethods/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 779354d..736c014 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -135,7 +135,7 @@ def _ensure_min_eps(x):
 def not_symmetric(matrix):
     """Returns true if the input matrix is not symmetric."""
 
-    if not np.isclose(matrix, matrix.T).all():
+    if matrix.shape != matrix.T.shape or not np.isclose(matrix, matrix.T).all():
         return True
     else:
         return False
-- 
2.43.0


From 64c399adc9b43af91313f30cf8d90e44015b2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 06/21] fix: numeric kernels compute in floating point for
 integer-valued input

Unsigned or small integer types (e.g. uint8 images) wrapped around in x - y and in
the inner products, giving wrong and asymmetric kernel values.
---
 kernelmethods/numeric_kernels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/numeric_kernels.py b/kernelmethods/numeric_kernels.py
index 41d937c..09456a9 100644
--- a/kernelmethods/numeric_kernels.py
+++ b/kernelmethods/numeric_kernels.py
@@ -65,7 +65,7 @@ class HadamardKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         abs_x_a = np.power(np.abs(x), self.alpha)
         abs_y_a = np.power(np.abs(y), self.alpha)
@@ -139,7 +139,7 @@ class PolyKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return (self.b + self.gamma * np.dot(x, y)) ** self.degree
 
@@ -197,7 +197,7 @@ class GaussianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.exp(-self.gamma * np.linalg.norm(x - y, ord=2) ** 2)
 
@@ -251,7 +251,7 @@ class LaplacianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.exp(-self.gamma * np.sum(np.abs(x - y)))
 
@@ -391,7 +391,7 @@ class SigmoidKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.tanh(self.offset + (self.gamma * np.dot(x, y)))
 
@@ -435,7 +435,7 @@ class LinearKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return x.dot(y.T)
 
-- 
2.43.0


From 17397e72d97089b63a364702f3672f416dcf6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 07/21] fix: KernelSet.set_attr sets a single-element value on
 all members, as documented

---
 kernelmethods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 066b748..4df3f58 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1365,6 +1365,8 @@ class KernelSet(object):
 
         if not isinstance(values, Iterable) or isinstance(values, str):
             values = [values] * self.size
+        elif len(values) == 1:
+            values = list(values) * self.size
         elif len(values) != self.size:
             raise ValueError('Values must be single element, or '
                              'of the same size as this KernelSet ({}), '
-- 
2.43.0


From 36136c0ffa654fd8a30b9b9ac6fa9ffbdc0610db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 08/21] fix: KernelSet.get_kernel_funcs returns a tuple, as
 documented, not a one-shot generator

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 4df3f58..e633f8f 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1248,7 +1248,7 @@ class KernelSet(object):
 
         indices = self._check_indices(indices)
 
-        return (self._km_set[index].kernel for index in indices)
+        return tuple(self._km_set[index].kernel for index in indices)
 
 
     def _check_indices(self, indices):
-- 
2.43.0


From c0965f70f06138444bd50f00599ff579f38c870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 09/21] fix: KernelSet.attach_to accepts categorical samples,
 and is a no-op when it rejects one

---
 kernelmethods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index e633f8f..6c01b88 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1312,10 +1312,12 @@ class KernelSet(object):
 
         """
 
-        self.sample = ensure_ndarray_2D(sample)
+        # not restricting to numeric dtypes, to support e.g. categorical kernels
+        ensured_sample = ensure_ndarray_2D(sample, ensure_dtype=sample.dtype)
         if self._num_samples is not None and sample.shape[0] != self._num_samples:
             raise ValueError('Number of samples in input differ from this KernelSet')
         else:
+            self.sample = ensured_sample
             self._num_samples = sample.shape[0]
 
         for index in range(self.size):
-- 
2.43.0


From e50365bfa4c60a7606778b42945a48076407abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 10/21] fix: KernelMatrix.normalize honours the requested
 method when attached to two samples

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 6c01b88..c587ac5 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -507,7 +507,8 @@ class KernelMatrix(object):
                 # diagonal
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
-                                                       KM_YY.diagonal())
+                                                       KM_YY.diagonal(),
+                                                       method=method)
             self._is_normed = True
 
             if contains_nan_inf(self._normed_km):
-- 
2.43.0


From c86054fa2ac11dfea2443f23fdbda1cdb64ec494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 11/21] fix: scikit-learn recognizes KernelMachine as
 classifier and KernelMachineRegressor as regressor

With the mixin listed after the base estimator, the estimator type was never set:
regressors rounded their predictions to integers when the training targets were
integers, and classifiers did not expose classes_.
---
 kernelmethods/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..c48f540 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -184,11 +184,11 @@ class BaseKernelMachine(BaseEstimator):
             return dict()
 
 
-class KernelMachine(BaseKernelMachine, ClassifierMixin):
+class KernelMachine(ClassifierMixin, BaseKernelMachine):
     """Classifier version of the KernelMachine"""
 
 
-class KernelMachineRegressor(BaseKernelMachine, RegressorMixin):
+class KernelMachineRegressor(RegressorMixin, BaseKernelMachine):
     """Regressor version of the KernelMachine
 
     Parameters
-- 
2.43.0


From 06f064acd8f391002f852ef28646299007698668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 12/21] fix: OptimalKernelSVC/SVR can rank kernels with
 method='align/corr'

Their estimator_name was passed on to alignment_centered(), raising TypeError.
---
 kernelmethods/ranking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..f463d9d 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -87,6 +87,8 @@ def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):
                                   ''.format(cfg.VALID_RANKING_METHODS))
 
     if method in ("align/corr",):
+        # the base learner is relevant only for the CV-based ranking
+        method_params.pop('estimator_name', None)
         return alignment_ranking(kernel_bucket, targets, **method_params)
     elif method in ('cv_risk', 'cv'):
         return CV_ranking(kernel_bucket, targets, **method_params)
-- 
2.43.0


From 2bfa4fc0896d096685ba8b47c80c13fa31ef986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 13/21] fix: kernels whose matrix has NaN/Inf values neither
 win nor abort the kernel ranking

np.argmax() returned the first NaN, selecting an unusable kernel as the optimal
one, and the CV-based ranking failed on all kernels if one of them was unusable,
e.g. the default bucket on features within [0, 1].
---
 kernelmethods/ranking.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index f463d9d..e63ae68 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -12,7 +12,7 @@ import numpy as np
 from kernelmethods import config as cfg
 from kernelmethods.operations import alignment_centered
 from kernelmethods.sampling import KernelBucket
-from kernelmethods.utils import min_max_scale
+from kernelmethods.utils import contains_nan_inf, min_max_scale
 
 
 def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
@@ -52,7 +52,8 @@ def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
     kernel_bucket.attach_to(sample=sample)
     metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
 
-    return kernel_bucket[np.argmax(metric)]
+    # kernels that could not be evaluated (NaN) can not be optimal
+    return kernel_bucket[np.nanargmax(metric)]
 
 
 def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):
@@ -122,6 +123,11 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
 
     cv_scores = list()
     for km in kernel_bucket:
+        if contains_nan_inf(km.full):
+            # no estimator can be trained e.g. normalization of a non-PSD kernel
+            cv_scores.append(np.nan)
+            continue
+
         estimator, param_grid = get_estimator(estimator_name)
         gs = GridSearchCV(estimator=estimator,
                           param_grid=param_grid,
@@ -130,7 +136,11 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
         cv_scores.append(gs.best_score_)
 
     # scaling helps compare across multiple metrics
-    return 100 * min_max_scale(cv_scores)
+    cv_scores = np.array(cv_scores)
+    valid = ~np.isnan(cv_scores)
+    cv_scores[valid] = 100 * min_max_scale(cv_scores[valid])
+
+    return cv_scores
 
 
 def alignment_ranking(kernel_bucket, targets, **method_params):
-- 
2.43.0


From 94ede470c653e64ab601cc516e9597add075faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 14/21] fix: OptimalKernelSVC/SVR train the SVM on the optimal
 kernel itself

The kernel matrix was passed to an SVM with its default RBF kernel, i.e. its rows
were treated as features of another Gaussian kernel.
---
 kernelmethods/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index c48f540..622e30f 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -355,6 +355,9 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self.opt_kernel_ = self._find_optimal_kernel()
 
+        # the input below is the kernel matrix itself. Setting this here, and not
+        # during init, to avoid issues with cross_val_score and safe_split
+        self.kernel = 'precomputed'
         super().fit(X=self.opt_kernel_.full, y=self._train_y,
                     sample_weight=sample_weight)
 
-- 
2.43.0


From b4c3d9639e1f1d0e9817066e3d8579e20b1b4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:02 +0000
Subject: [PATCH 15/21] fix: normalization, Frobenius product and alignment are
 exact for small integer matrices

---
 kernelmethods/operations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 7c597e8..4ff1686 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -175,7 +175,8 @@ def normalize_km(KM, method='cosine'):
     try:
         method = method.lower()
         if method == 'cosine':
-            km_diag = KM.diagonal()
+            # float, as e.g. sqrt() of 8-bit integers has only half precision
+            km_diag = np.asarray(KM.diagonal(), dtype=np.result_type(KM, np.float64))
             if np.isclose(km_diag, 0.0).any():
                 raise KMNormError(
                     'Some diagnoal entries in KM are [close to] zero - '
@@ -252,8 +253,9 @@ def normalize_km_2sample(cross_K_XY, diag_K_XX, diag_K_YY, method='cosine'):
                 'during Cosine normalization of KM!')
 
         # using diagflat to explicitly construct a matrix from diag values
-        diag_factor_xx = np.diagflat(1 / np.sqrt(diag_K_XX))
-        diag_factor_yy = np.diagflat(1 / np.sqrt(diag_K_YY))
+        # in float64, as e.g. sqrt() of 8-bit integers has only half precision
+        diag_factor_xx = np.diagflat(1 / np.sqrt(diag_K_XX.astype(np.float64)))
+        diag_factor_yy = np.diagflat(1 / np.sqrt(diag_K_YY.astype(np.float64)))
         # notice @ is matrix multiplication operator
         normed_km = diag_factor_xx @ cross_K_XY @ diag_factor_yy
     else:
@@ -289,7 +291,10 @@ def frobenius_product(A, B):
                          'to compute Frobenious product! They differ: {}, {}'
                          ''.format(A.shape, B.shape))
 
-    return np.sum(elem_wise_multiply(A, B), axis=None)
+    # in floating point, as products of small integer types can overflow
+    dtype = np.result_type(A, B, np.float64)
+
+    return np.sum(elem_wise_multiply(A, B, dtype=dtype), axis=None)
 
 
 def frobenius_norm(A):
-- 
2.43.0


From 88d3ff50071c574569eb4039bbe2fb4419caef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:02 +0000
Subject: [PATCH 16/21] fix: the target kernel is right for targets of small
 integer types

---
 kernelmethods/ranking.py  | 2 ++
 kernelmethods/sampling.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index e63ae68..f629485 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -153,6 +153,8 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
     """
 
     targets = np.asarray(targets)
+    # in floating point, as products of small integer types (e.g. int8) can overflow
+    targets = targets.astype(np.result_type(targets, np.float64))
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
 
diff --git a/kernelmethods/sampling.py b/kernelmethods/sampling.py
index a93e771..b300b77 100644
--- a/kernelmethods/sampling.py
+++ b/kernelmethods/sampling.py
@@ -264,6 +264,8 @@ def ideal_kernel(targets):
     """
 
     targets = np.array(targets).reshape((-1, 1))  # row vector
+    # in floating point, as products of small integer types (e.g. int8) can overflow
+    targets = targets.astype(np.result_type(targets, np.float64))
 
     return targets.dot(targets.T)
 
-- 
2.43.0


From 74aa77c9091d13381828da15c4418395f2a69ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:40 +0000
Subject: [PATCH 17/21] fix: concurrent predictions of a fitted estimator no
 longer mix up their test data

predict() kept the test-by-train kernel matrix in the estimator (self._km, or the
sample attached to opt_kernel_), so two threads predicting with the same fitted
estimator could get predictions for each other's points.
---
 kernelmethods/algorithms.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 622e30f..97bd346 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -141,14 +141,14 @@ class BaseKernelMachine(BaseEstimator):
 
         test_X = check_array(X)
 
-        # this is a fresh new KM
-        self._km = KernelMatrix(self.k_func, name='test_km',
-                                normalized=self.normalized)
+        # this is a fresh new KM, local to this call as there can be concurrent ones
+        test_km = KernelMatrix(self.k_func, name='test_km',
+                               normalized=self.normalized)
 
         # sample_one must be test data to get the right shape for sklearn X
-        self._km.attach_to(sample_one=test_X, sample_two=self._train_X)
+        test_km.attach_to(sample_one=test_X, sample_two=self._train_X)
 
-        predicted_y = self._estimator.predict(self._km.full)
+        predicted_y = self._estimator.predict(test_km.full)
 
         return np.asarray(predicted_y, dtype=self._train_y.dtype)
 
@@ -389,9 +389,13 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         X = check_array(X)
 
+        # this is a fresh new KM, local to this call as there can be concurrent ones
+        test_km = KernelMatrix(self.opt_kernel_.kernel, name='test_km',
+                               normalized=self.opt_kernel_._keep_normed)
+
         # sample_one must be test data to get the right shape for sklearn X
-        self.opt_kernel_.attach_to(sample_one=X, sample_two=self._train_X)
-        test_train_KM = self.opt_kernel_.full
+        test_km.attach_to(sample_one=X, sample_two=self._train_X)
+        test_train_KM = test_km.full
         predicted_y = super().predict(test_train_KM)
 
         # data type coversion is done in child class, esp. for classification
-- 
2.43.0


From 8166e820662bb8e2bc4fc1257c28aae58656fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:26 +0000
Subject: [PATCH 18/21] fix: a fitted KernelMachineRegressor is recognized as
 fitted by scikit-learn

It had no attribute set by fit() following the naming convention of scikit-learn, so
that a Pipeline ending in it refused to predict after being fitted.
---
 kernelmethods/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 97bd346..ccf8032 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -117,6 +117,9 @@ class BaseKernelMachine(BaseEstimator):
         if is_classifier(self):
             self.classes_ = self._estimator.classes_
 
+        # also lets scikit-learn (e.g. Pipeline) recognize this estimator as fitted
+        self.n_features_in_ = self._train_X.shape[1]
+
         return self
 
 
-- 
2.43.0


From 7a2a2cd0de1c06573a874faa1ff8fb2b692d42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:38 +0000
Subject: [PATCH 19/21] fix: a failed refit no longer leaves an estimator with
 parts of two fits

---
 kernelmethods/algorithms.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index ccf8032..2801eae 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -106,13 +106,17 @@ class BaseKernelMachine(BaseEstimator):
         else:
             self._train_X, self._train_y = check_X_y(X, y)
 
-        self._km = KernelMatrix(self.k_func, name='train_km',
-                                normalized=self.normalized)
-        self._km.attach_to(self._train_X)
+        # not fitted until the end, so a failure can not leave parts of two fits
+        self.__dict__.pop('_km', None)
+
+        km = KernelMatrix(self.k_func, name='train_km',
+                          normalized=self.normalized)
+        km.attach_to(self._train_X)
 
         self._estimator, self.param_grid = get_estimator(self.learner_id)
-        self._estimator.fit(X=self._km.full, y=self._train_y,
+        self._estimator.fit(X=km.full, y=self._train_y,
                             sample_weight=sample_weight)
+        self._km = km
 
         if is_classifier(self):
             self.classes_ = self._estimator.classes_
@@ -356,13 +360,17 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
 
-        self.opt_kernel_ = self._find_optimal_kernel()
+        # not fitted until the end, so a failure can not leave parts of two fits
+        self.__dict__.pop('opt_kernel_', None)
+
+        opt_kernel = self._find_optimal_kernel()
 
         # the input below is the kernel matrix itself. Setting this here, and not
         # during init, to avoid issues with cross_val_score and safe_split
         self.kernel = 'precomputed'
-        super().fit(X=self.opt_kernel_.full, y=self._train_y,
+        super().fit(X=opt_kernel.full, y=self._train_y,
                     sample_weight=sample_weight)
+        self.opt_kernel_ = opt_kernel
 
         # temporary hack to pass sklearn estimator checks till a bug is fixed
         # for more see: https://github.com/scikit-learn/scikit-learn/issues/14712
-- 
2.43.0


From 8ccde3dd89f5c7290bf721beb0d0b47867c9112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:59 +0000
Subject: [PATCH 20/21] fix: a failed refit no longer leaves a composite kernel
 with a partial result

---
 kernelmethods/base.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index c587ac5..2d6181f 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1510,10 +1510,11 @@ class SumKernel(CompositeKernel):
                                  'Must be an array of length exactly {}'
                                  ''.format(self.km_set.size))
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(kernel_weights, self.km_set):
-            self.KM = self.KM + weight * km.full
+            KM = KM + weight * km.full
 
+        self.KM = KM
         self._is_fitted = True
 
 
@@ -1540,10 +1541,11 @@ class ProductKernel(CompositeKernel):
     def fit(self):
         """Computes the product kernel."""
 
-        self.KM = np.ones((self.num_samples, self.num_samples))
+        KM = np.ones((self.num_samples, self.num_samples))
         for km in self.km_set:
-            self.KM = self.KM * km.full  # * is element-wise multiplication here
+            KM = KM * km.full  # * is element-wise multiplication here
 
+        self.KM = KM
         self._is_fitted = True
 
 
@@ -1569,13 +1571,14 @@ class AverageKernel(CompositeKernel):
     def fit(self):
         """Computes the average kernel"""
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        KM = np.zeros((self.num_samples, self.num_samples))
         for km in self.km_set:
-            self.KM = self.KM + km.full  # * is element-wise multiplication here
+            KM = KM + km.full  # * is element-wise multiplication here
 
         # dividing by N, to make it an average
-        self.KM = self.KM / self.km_set.size
+        KM = KM / self.km_set.size
 
+        self.KM = KM
         self._is_fitted = True
 
 
@@ -1612,8 +1615,9 @@ class WeightedAverageKernel(CompositeKernel):
     def fit(self):
         """Computes the weighted average kernel"""
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(self.weights, self.km_set):
-            self.KM = self.KM + weight * km.full
+            KM = KM + weight * km.full
 
+        self.KM = KM
         self._is_fitted = True
-- 
2.43.0


From 20a5d348744e8d0683c36c5c57c03786345b4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 21/21] fix: Gaussian kernel followed a different width for
 sigma beyond 4.7e7

---
 kernelmethods/numeric_kernels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/numeric_kernels.py b/kernelmethods/numeric_kernels.py
index 09456a9..46e7bec 100644
--- a/kernelmethods/numeric_kernels.py
+++ b/kernelmethods/numeric_kernels.py
@@ -186,9 +186,10 @@ class GaussianKernel(BaseKernelFunction):
         super().__init__(name='gaussian')
 
         # TODO implement param check
-        # ensuring values of gamma/gamma is eps or larger to avoid zero division
+        # ensuring value of sigma is eps or larger to avoid zero division
         self.sigma = _ensure_min_eps(sigma)
-        self.gamma = _ensure_min_eps(1.0 / (2 * self.sigma ** 2))
+        # gamma must not be restricted further, as it is rightly tiny for large sigma
+        self.gamma = 1.0 / (2 * self.sigma ** 2)
 
         self.skip_input_checks = skip_input_checks
 
-- 
2.43.0

