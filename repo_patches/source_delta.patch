From 26c59cc1bba994929da86e9d6b9698036ff9bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 01/17] fix: reject asymmetric covariance matrices

---
 src/bmi/samplers/_splitmultinormal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 1465923..1254c65 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -10,7 +10,8 @@ from bmi.samplers.base import BaseSampler, cast_to_rng
 
 def _can_be_covariance(mat):
     """Checks if `mat` can be a covariance matrix (positive-definite and symmetric)."""
-    if np.all(mat != mat.transpose()):
+    # Allow for the rounding errors (relative to the scale of the matrix)
+    if not np.all(np.abs(mat - mat.transpose()) <= 1e-5 * np.max(np.abs(mat))):
         raise ValueError("Covariance matrix is not symmetric.")
 
     if not np.all(np.linalg.eigvals(mat) > 0):
-- 
2.43.0


From 098877471b4df0df78647a3d8576149398e98cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 02/17] fix: use log-determinants in the Gaussian entropy to
 avoid under- and overflows

---
 src/bmi/samplers/_splitmultinormal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 1254c65..bc5af5a 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -31,8 +31,8 @@ class _Multinormal:
         self._mean = np.asarray(mean)
         self._covariance = np.asarray(covariance)
 
-        # The determinant of the covariance, used to calculate entropy
-        self._det_covariance: float = np.linalg.det(self._covariance)
+        # The log-determinant of the covariance, used to calculate entropy
+        _, self._log_det_covariance = np.linalg.slogdet(self._covariance)
 
         # Dimensionality of the space
         self._dim = self._mean.shape[0]
@@ -68,7 +68,7 @@ class _Multinormal:
 
     def entropy(self) -> float:
         """Entropy in nats."""
-        return 0.5 * (np.log(self._det_covariance) + self.dim * (1 + np.log(2 * np.pi)))
+        return 0.5 * (self._log_det_covariance + self.dim * (1 + np.log(2 * np.pi)))
 
 
 class SplitMultinormal(BaseSampler):
-- 
2.43.0


From 4a198ff508203f6328c259994fd6a9b098f199f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 03/17] fix: finite Student-t entropy for large and infinite
 degrees of freedom

---
 src/bmi/samplers/_split_student_t.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index acb8ff1..e0d3218 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
-from scipy.special import digamma, gamma
+from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
 from bmi.samplers.base import BaseSampler
@@ -18,10 +18,13 @@ def _differential_entropy(k: int, dof: int) -> float:
       Skew-Elliptical Distributions,
       Scandinavian Journal of Statistics, vol. 40, pp. 46-47, 2013
     """
+    if np.isinf(dof):  # The Gaussian limit
+        return 0.5 * k * (1.0 + np.log(2 * np.pi))
+
     half_sum = 0.5 * (dof + k)
     digamma_term = half_sum * (digamma(half_sum) - digamma(0.5 * dof))
 
-    log_term = -np.log(gamma(half_sum)) + np.log(gamma(0.5 * dof)) + 0.5 * k * np.log(dof * np.pi)
+    log_term = -gammaln(half_sum) + gammaln(0.5 * dof) + 0.5 * k * np.log(dof * np.pi)
 
     return log_term + digamma_term
 
@@ -124,6 +127,8 @@ class SplitStudentT(BaseSampler):
             raise ValueError(
                 f"For degrees of freedom {self.df} <= 2 the covariance is not defined."
             )
+        elif np.isinf(self.df):
+            return self._dispersion
         else:
             return self.df * self._dispersion / (self.df - 2.0)
 
-- 
2.43.0


From 356ed526fc8ad29f55fd3ef527c9925f52389f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 04/17] fix: let the Student-t sampler accept JAX keys

---
 src/bmi/samplers/_split_student_t.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index e0d3218..03ce868 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -1,11 +1,13 @@
-from typing import Optional
+from typing import Optional, Union
 
+import jax
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
 from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
+from bmi.interface import KeyArray
 from bmi.samplers.base import BaseSampler
 
 
@@ -29,6 +31,16 @@ def _differential_entropy(k: int, dof: int) -> float:
     return log_term + digamma_term
 
 
+def _cast_to_random_state(rng: Union[KeyArray, int]) -> Union[int, np.random.RandomState]:
+    """SciPy does not understand JAX keys. The key constructed from
+    an integer seed and this seed result in the same samples."""
+    if isinstance(rng, (int, np.integer)):
+        return int(rng)
+
+    words = np.asarray(jax.random.key_data(rng), dtype=np.uint32)
+    return np.random.RandomState(words) if words[0] else int(words[1])
+
+
 class SplitStudentT(BaseSampler):
     """Multivariate Student-t distribution.
 
@@ -89,7 +101,7 @@ class SplitStudentT(BaseSampler):
 
         self._dispersion = np.asarray(dispersion)
 
-    def sample(self, n_points: int, rng: int) -> tuple[np.ndarray, np.ndarray]:
+    def sample(self, n_points: int, rng: Union[KeyArray, int]) -> tuple[np.ndarray, np.ndarray]:
         """Sampling from multivariate Student distribution.
 
         Note:
@@ -100,7 +112,7 @@ class SplitStudentT(BaseSampler):
             shape=self._dispersion,
             df=self._degrees_of_freedom,
             size=n_points,
-            random_state=rng,
+            random_state=_cast_to_random_state(rng),
         )
         assert xy.shape == (
             n_points,
-- 
2.43.0


From e9bb7d841e153bc783a672df637b63df1e106155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 05/17] fix: Student-t samples of size one

---
 src/bmi/samplers/_split_student_t.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index 03ce868..1e2bfc0 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -114,6 +114,7 @@ class SplitStudentT(BaseSampler):
             size=n_points,
             random_state=_cast_to_random_state(rng),
         )
+        xy = np.atleast_2d(xy)  # SciPy squeezes a sample of size one
         assert xy.shape == (
             n_points,
             self.dim_total,
-- 
2.43.0


From 91a48ec7fb5fad84d556c72fd1cf26d29c00c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 06/17] fix: set the dimensions of the zero-inflated
 Poissonization sampler

---
 src/bmi/samplers/_discrete_continuous.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 64bc246..4a49855 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -132,6 +132,8 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
         Args:
             p: zero-inflation parameter. Must be in [0, 1).
         """
+        super().__init__(dim_x=1, dim_y=1)
+
         if p < 0 or p >= 1:
             raise ValueError(f"p must be in [0, 1), was {p}.")
         self._p = float(p)
-- 
2.43.0


From 4f15cab59d2ac3f90b3ef96f34b141e4a8555af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 07/17] fix: Monte Carlo mutual information of a sampler is
 never negative

---
 src/bmi/samplers/_tfp/_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_tfp/_wrapper.py b/src/bmi/samplers/_tfp/_wrapper.py
index 61b6d64..3e29314 100644
--- a/src/bmi/samplers/_tfp/_wrapper.py
+++ b/src/bmi/samplers/_tfp/_wrapper.py
@@ -49,7 +49,9 @@ class BMMSampler(BaseSampler):
             return self._mi
         else:
             rng = cast_to_rng(self._mi_estimate_seed)
-            self._mi, self._mi_stderr = monte_carlo_mi_estimate(
+            mi, self._mi_stderr = monte_carlo_mi_estimate(
                 key=rng, dist=self._dist, n=self._mi_estimate_sample
             )
+            # The Monte Carlo estimate may be slightly negative
+            self._mi = jax.numpy.maximum(mi, 0.0)
             return self._mi
-- 
2.43.0


From 17d6893581b0e64284c5da358d3db7fd37869630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 08/17] fix: repeated neighborhoods in the KSG ensemble are
 counted once

---
 src/bmi/estimators/ksg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index 43c7250..ac1a5c1 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -106,7 +106,7 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
             # Shape is also (batch_size, n_points)
             closest_points = np.argsort(distances_xy, axis=-1)
 
-            for k in self._params.neighborhoods:
+            for k in digammas_dict:
                 # Note that the points are 0-indexed and that the "0th neighbor"
                 # is the point itself (as distance(x, x) = 0 is the smallest possible)
                 # Hence, the kth neighbour is at index k
-- 
2.43.0


From c310967ced199a3a77c94cca4b68b196b8955980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 09/17] fix: KSG neighbor counts are never negative for tied
 points

---
 src/bmi/estimators/ksg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index ac1a5c1..96abcf2 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -117,8 +117,10 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
                 ]  # Shape (batch_size,)
 
                 # Don't include the `i`th point itself in n_x and n_y
-                n_x = (distances_x < distances_k[:, None]).sum(axis=1) - 1  # Shape (batch_size,)
-                n_y = (distances_y < distances_k[:, None]).sum(axis=1) - 1  # Shape (batch_size,)
+                # (for tied points the distance is zero, so that it has not been counted)
+                n_x = (distances_x < distances_k[:, None]).sum(axis=1)  # Shape (batch_size,)
+                n_y = (distances_y < distances_k[:, None]).sum(axis=1)  # Shape (batch_size,)
+                n_x, n_y = np.maximum(n_x - 1, 0), np.maximum(n_y - 1, 0)
 
                 digammas = _DIGAMMA(n_x + 1) + _DIGAMMA(n_y + 1)  # Shape (batch_size,)
                 # We calculate mean(digammas) over all the points rather than the batch
@@ -219,8 +221,9 @@ class KSGEnsembleFirstEstimatorSlow(IMutualInformationPointEstimator):
                 distance = distances_z[kth_neighbour]
 
                 # Don't include the `i`th point itself in n_x and n_y
-                n_x = (distances_x < distance).sum() - 1
-                n_y = (distances_y < distance).sum() - 1
+                # (for tied points the distance is zero, so that it has not been counted)
+                n_x = max(0, (distances_x < distance).sum() - 1)
+                n_y = max(0, (distances_y < distance).sum() - 1)
 
                 digammas_per_point = _DIGAMMA(n_x + 1) + _DIGAMMA(n_y + 1)
                 digammas_dict[k].append(digammas_per_point)
-- 
2.43.0


From 0360ac3251f99a1877db4b2c48747bb0ba127108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 10/17] fix: MINE smoothing parameter closer to 1 means less
 smoothing, as documented

---
 src/bmi/estimators/neural/_mine_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmi/estimators/neural/_mine_estimator.py b/src/bmi/estimators/neural/_mine_estimator.py
index b735a50..43a6a19 100644
--- a/src/bmi/estimators/neural/_mine_estimator.py
+++ b/src/bmi/estimators/neural/_mine_estimator.py
@@ -86,8 +86,8 @@ def _mine_value_neg_grad_log_denom(
     # compute denominator (with exponential smoothing)
     log_denom_batch = lme_T_u
     log_denom = jnp.logaddexp(
-        jnp.log(alpha) + log_denom_prev,
-        jnp.log(1.0 - alpha) + log_denom_batch,
+        jnp.log(1.0 - alpha) + log_denom_prev,
+        jnp.log(alpha) + log_denom_batch,
     )
     correction = jnp.exp(log_denom_batch - log_denom)
 
-- 
2.43.0


From 7f774135763ebd8f4fcfaddd3ce0d9beae2770b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 11/17] fix: compare smoothed training MI with its value one
 window ago

---
 src/bmi/estimators/neural/_training_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/neural/_training_log.py b/src/bmi/estimators/neural/_training_log.py
index 69a46a1..dc5a13f 100644
--- a/src/bmi/estimators/neural/_training_log.py
+++ b/src/bmi/estimators/neural/_training_log.py
@@ -149,7 +149,7 @@ class TrainingLog:
                 )
 
         train_mi_smooth_fin = float(train_mi_smooth[-1])
-        train_mi_smooth_prv = float(train_mi_smooth[-w])
+        train_mi_smooth_prv = float(train_mi_smooth[-1 - w])
         if train_mi_smooth_fin > 1.05 * train_mi_smooth_prv:
             self._additional_information["training_mi_still_increasing"] = True
             if self.verbose:
-- 
2.43.0


From 3bfd473072df5859d0b14c5b5ca2bff1aaac65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 12/17] fix: run_estimator does not modify the caller's
 dictionary

---
 src/bmi/benchmark/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/benchmark/result.py b/src/bmi/benchmark/result.py
index bc2b110..d36dc4d 100644
--- a/src/bmi/benchmark/result.py
+++ b/src/bmi/benchmark/result.py
@@ -35,7 +35,7 @@ def run_estimator(
     seed: Optional[int] = None,
     additional_information: Optional[dict] = None,
 ) -> RunResult:
-    additional_information = additional_information or {}
+    additional_information = dict(additional_information or {})
     samples_x, samples_y = read_sample(sample_path)
     n_samples = len(samples_x)
 
-- 
2.43.0


From 87b84e508cfdbad73ddd8f654692aa20df342f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 13/17] fix: allow proc=0 in the BNSL estimator

---
 src/bmi/estimators/external/r_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/r_estimators.py b/src/bmi/estimators/external/r_estimators.py
index 6c56a53..80f9dac 100644
--- a/src/bmi/estimators/external/r_estimators.py
+++ b/src/bmi/estimators/external/r_estimators.py
@@ -89,7 +89,7 @@ class RLNNEstimator(ExternalEstimator):
 
 
 class BNSLParams(BaseModel):
-    proc: pydantic.PositiveInt
+    proc: pydantic.NonNegativeInt
 
 
 class RBNSLEstimator(ExternalEstimator):
-- 
2.43.0


From b83802fa48338e7ac57d66e53310707f31832704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 14/17] fix: reading a sample does not change the values

---
 src/bmi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/utils.py b/src/bmi/utils.py
index b8d522f..6b5be92 100644
--- a/src/bmi/utils.py
+++ b/src/bmi/utils.py
@@ -50,7 +50,7 @@ def save_sample(path: Pathlike, samples_x: ArrayLike, samples_y: ArrayLike):
 
 
 def read_sample(path: Pathlike):
-    data = pd.read_csv(path)
+    data = pd.read_csv(path, float_precision="round_trip")
 
     cols_x = [col for col in data.columns if "X" in col]
     cols_y = [col for col in data.columns if "Y" in col]
-- 
2.43.0


From 72dc1cc580f86b4505e50363d080dd52d35b033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 15/17] fix: result tables use only the runs with the requested
 sample size

---
 workflows/benchmark/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workflows/benchmark/_utils.py b/workflows/benchmark/_utils.py
index 65182ce..2acfdb7 100644
--- a/workflows/benchmark/_utils.py
+++ b/workflows/benchmark/_utils.py
@@ -53,7 +53,7 @@ def create_benchmark_table(results, n_samples=None, converged_only=False):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
+    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
 
     # relative_error
     data = add_col_log_relative_error(data)
@@ -122,7 +122,7 @@ def create_convergence_table(results, n_samples=None):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
+    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
 
     data = add_col_converged(data)
     data["not_converged"] = ~data["converged"]
-- 
2.43.0


From f40fd0555aa54917b45de3e950393179b8571274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 16/17] Revert "fix: result tables use only the runs with the
 requested sample size"

This reverts commit 72dc1cc580f86b4505e50363d080dd52d35b033c.
---
 workflows/benchmark/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workflows/benchmark/_utils.py b/workflows/benchmark/_utils.py
index 2acfdb7..65182ce 100644
--- a/workflows/benchmark/_utils.py
+++ b/workflows/benchmark/_utils.py
@@ -53,7 +53,7 @@ def create_benchmark_table(results, n_samples=None, converged_only=False):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
+    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
 
     # relative_error
     data = add_col_log_relative_error(data)
@@ -122,7 +122,7 @@ def create_convergence_table(results, n_samples=None):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
+    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
 
     data = add_col_converged(data)
     data["not_converged"] = ~data["converged"]
-- 
2.43.0


From f42e0675cba695a70a461fcd750d96e52b3f6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 17/17] Revert "fix: run_estimator does not modify the caller's
 dictionary"

This reverts commit 3bfd473072df5859d0b14c5b5ca2bff1aaac65d6.
---
 src/bmi/benchmark/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/benchmark/result.py b/src/bmi/benchmark/result.py
index d36dc4d..bc2b110 100644
--- a/src/bmi/benchmark/result.py
+++ b/src/bmi/benchmark/result.py
@@ -35,7 +35,7 @@ def run_estimator(
     seed: Optional[int] = None,
     additional_information: Optional[dict] = None,
 ) -> RunResult:
-    additional_information = dict(additional_information or {})
+    additional_information = additional_information or {}
     samples_x, samples_y = read_sample(sample_path)
     n_samples = len(samples_x)
 
-- 
2.43.0

