From 0fc0db6823e546658bbc13aeaadcda3d581cba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/27] fix: KSG ensemble counted a repeated neighborhood size
 twice

---
 src/bmi/estimators/ksg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index 43c7250..ac1a5c1 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -106,7 +106,7 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
             # Shape is also (batch_size, n_points)
             closest_points = np.argsort(distances_xy, axis=-1)
 
-            for k in self._params.neighborhoods:
+            for k in digammas_dict:
                 # Note that the points are 0-indexed and that the "0th neighbor"
                 # is the point itself (as distance(x, x) = 0 is the smallest possible)
                 # Hence, the kth neighbour is at index k
-- 
2.43.0


From ffb21ce90454c6bcde3b1acd5d53e1075af645f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/27] fix: run_estimator modified the dictionary passed as
 additional_information

---
 src/bmi/benchmark/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi/benchmark/result.py b/src/bmi/benchmark/result.py
index bc2b110..72cd3d8 100644
--- a/src/bmi/benchmark/result.py
+++ b/src/bmi/benchmark/result.py
@@ -35,7 +35,8 @@ def run_estimator(
     seed: Optional[int] = None,
     additional_information: Optional[dict] = None,
 ) -> RunResult:
-    additional_information = additional_information or {}
+    # copy, so that the dictionary of the caller is not modified
+    additional_information = dict(additional_information or {})
     samples_x, samples_y = read_sample(sample_path)
     n_samples = len(samples_x)
 
-- 
2.43.0


From 3bf1e8e584944245c37ad48632bdea18638ec0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 03/27] fix: training diagnostics compared wrong window and
 misjudged negative values

---
 src/bmi/estimators/neural/_training_log.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bmi/estimators/neural/_training_log.py b/src/bmi/estimators/neural/_training_log.py
index 69a46a1..d8f584e 100644
--- a/src/bmi/estimators/neural/_training_log.py
+++ b/src/bmi/estimators/neural/_training_log.py
@@ -139,7 +139,7 @@ class TrainingLog:
 
         train_mi_smooth_max = float(train_mi_smooth.max())
         train_mi_smooth_fin = float(train_mi_smooth[-1])
-        if train_mi_smooth_max > 1.05 * train_mi_smooth_fin:
+        if train_mi_smooth_max > train_mi_smooth_fin + 0.05 * abs(train_mi_smooth_fin):
             self._additional_information["max_training_mi_decreased"] = True
             if self.verbose:
                 print(
@@ -149,8 +149,8 @@ class TrainingLog:
                 )
 
         train_mi_smooth_fin = float(train_mi_smooth[-1])
-        train_mi_smooth_prv = float(train_mi_smooth[-w])
-        if train_mi_smooth_fin > 1.05 * train_mi_smooth_prv:
+        train_mi_smooth_prv = float(train_mi_smooth[-1 - w])
+        if train_mi_smooth_fin > train_mi_smooth_prv + 0.05 * abs(train_mi_smooth_prv):
             self._additional_information["training_mi_still_increasing"] = True
             if self.verbose:
                 print(
-- 
2.43.0


From 6c3a97555a36afd88c6fbefabbfaeb46bb748894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 04/27] fix: BNSL estimator refused the documented proc=0

---
 src/bmi/estimators/external/r_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/r_estimators.py b/src/bmi/estimators/external/r_estimators.py
index 6c56a53..80f9dac 100644
--- a/src/bmi/estimators/external/r_estimators.py
+++ b/src/bmi/estimators/external/r_estimators.py
@@ -89,7 +89,7 @@ class RLNNEstimator(ExternalEstimator):
 
 
 class BNSLParams(BaseModel):
-    proc: pydantic.PositiveInt
+    proc: pydantic.NonNegativeInt
 
 
 class RBNSLEstimator(ExternalEstimator):
-- 
2.43.0


From 7f04609cb8348b0aab92d1c0ffe5aa54679b4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/27] fix: ProductSpace lacked the documented n_points
 attribute

---
 src/bmi/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi/utils.py b/src/bmi/utils.py
index b8d522f..f146e0d 100644
--- a/src/bmi/utils.py
+++ b/src/bmi/utils.py
@@ -121,6 +121,10 @@ class ProductSpace:
     def __len__(self) -> int:
         return self.x.shape[0]
 
+    @property
+    def n_points(self) -> int:
+        return len(self)
+
     @property
     def dim_x(self) -> int:
         return self._x.shape[1]
-- 
2.43.0


From 4f6344140a34d7bd9376c59e5c7e26963da70f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 06/27] fix: read_sample did not restore the saved floats
 exactly

---
 src/bmi/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi/utils.py b/src/bmi/utils.py
index f146e0d..ce51f7c 100644
--- a/src/bmi/utils.py
+++ b/src/bmi/utils.py
@@ -50,7 +50,8 @@ def save_sample(path: Pathlike, samples_x: ArrayLike, samples_y: ArrayLike):
 
 
 def read_sample(path: Pathlike):
-    data = pd.read_csv(path)
+    # the default parser may be off by one unit in the last place
+    data = pd.read_csv(path, float_precision="round_trip")
 
     cols_x = [col for col in data.columns if "X" in col]
     cols_y = [col for col in data.columns if "Y" in col]
-- 
2.43.0


From 1c8230712c7decfd31fed8ffe9b11ff44529fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 07/27] fix: asymmetric matrices were accepted as covariance
 matrices

---
 src/bmi/samplers/_splitmultinormal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 1465923..78c5d88 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -10,7 +10,8 @@ from bmi.samplers.base import BaseSampler, cast_to_rng
 
 def _can_be_covariance(mat):
     """Checks if `mat` can be a covariance matrix (positive-definite and symmetric)."""
-    if np.all(mat != mat.transpose()):
+    # The tolerance admits rounding errors of single precision matrices
+    if not np.allclose(mat, mat.transpose(), rtol=1e-4, atol=1e-6 * np.max(np.abs(mat))):
         raise ValueError("Covariance matrix is not symmetric.")
 
     if not np.all(np.linalg.eigvals(mat) > 0):
-- 
2.43.0


From 5449ec53eb536520d2f338623e0d9aed641b8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 08/27] fix: MI of a multinormal was nan or 0 when a
 determinant under- or overflowed

---
 src/bmi/samplers/_splitmultinormal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 78c5d88..7ea1b68 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -31,8 +31,9 @@ class _Multinormal:
         self._mean = np.asarray(mean)
         self._covariance = np.asarray(covariance)
 
-        # The determinant of the covariance, used to calculate entropy
-        self._det_covariance: float = np.linalg.det(self._covariance)
+        # The logarithm of the determinant of the covariance, used to calculate entropy.
+        # (The determinant itself underflows or overflows in high dimensions)
+        self._logdet_covariance: float = np.linalg.slogdet(self._covariance)[1]
 
         # Dimensionality of the space
         self._dim = self._mean.shape[0]
@@ -68,7 +69,7 @@ class _Multinormal:
 
     def entropy(self) -> float:
         """Entropy in nats."""
-        return 0.5 * (np.log(self._det_covariance) + self.dim * (1 + np.log(2 * np.pi)))
+        return 0.5 * (self._logdet_covariance + self.dim * (1 + np.log(2 * np.pi)))
 
 
 class SplitMultinormal(BaseSampler):
-- 
2.43.0


From e6274d9ca8e9841f2bf8db991cea915f1c2e1681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 09/27] fix: Student-t MI was nan or infinite for large (or
 infinite) degrees of freedom

---
 src/bmi/samplers/_split_student_t.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index acb8ff1..3459c47 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
-from scipy.special import digamma, gamma
+from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
 from bmi.samplers.base import BaseSampler
@@ -18,10 +18,13 @@ def _differential_entropy(k: int, dof: int) -> float:
       Skew-Elliptical Distributions,
       Scandinavian Journal of Statistics, vol. 40, pp. 46-47, 2013
     """
+    if np.isinf(dof):  # Gaussian distribution
+        return 0.5 * k * (1 + np.log(2 * np.pi))
+
     half_sum = 0.5 * (dof + k)
     digamma_term = half_sum * (digamma(half_sum) - digamma(0.5 * dof))
 
-    log_term = -np.log(gamma(half_sum)) + np.log(gamma(0.5 * dof)) + 0.5 * k * np.log(dof * np.pi)
+    log_term = -gammaln(half_sum) + gammaln(0.5 * dof) + 0.5 * k * np.log(dof * np.pi)
 
     return log_term + digamma_term
 
@@ -124,6 +127,8 @@ class SplitStudentT(BaseSampler):
             raise ValueError(
                 f"For degrees of freedom {self.df} <= 2 the covariance is not defined."
             )
+        elif np.isinf(self.df):
+            return self._dispersion
         else:
             return self.df * self._dispersion / (self.df - 2.0)
 
@@ -152,7 +157,8 @@ class SplitStudentT(BaseSampler):
               on the means or the dispersion
         """
 
-        return self.mi_normal() + self.mi_correction()
+        # Mutual information is always non-negative (up to rounding errors)
+        return max(0.0, self.mi_normal() + self.mi_correction())
 
     @staticmethod
     def mi_correction_function(df: int, dim_x: int, dim_y: int) -> float:
-- 
2.43.0


From 2116b406bce49557cbeeeb0ceb3f1ae057b6335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 10/27] fix: Student-t sampler could not be used with a JAX key

---
 src/bmi/samplers/_split_student_t.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index 3459c47..c7c59e3 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -1,11 +1,13 @@
-from typing import Optional
+from typing import Optional, Union
 
 import numpy as np
+from jax import random
 from numpy.typing import ArrayLike
 from scipy import stats
 from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
+from bmi.interface import KeyArray
 from bmi.samplers.base import BaseSampler
 
 
@@ -89,12 +91,17 @@ class SplitStudentT(BaseSampler):
 
         self._dispersion = np.asarray(dispersion)
 
-    def sample(self, n_points: int, rng: int) -> tuple[np.ndarray, np.ndarray]:
+    def sample(self, n_points: int, rng: Union[int, KeyArray]) -> tuple[np.ndarray, np.ndarray]:
         """Sampling from multivariate Student distribution.
 
         Note:
             This function is based on SciPy's sampling.
         """
+        if not isinstance(rng, (int, np.integer)):
+            # SciPy does not accept JAX keys
+            words = random.randint(rng, shape=(4,), minval=0, maxval=np.iinfo(np.int32).max)
+            rng = np.random.default_rng(np.asarray(words).tolist())
+
         xy = stats.multivariate_t.rvs(
             loc=self._mean,
             shape=self._dispersion,
-- 
2.43.0


From bf3081f8e2ac003ab2957dfd7109687fcf28cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 11/27] fix: Student-t sampler could not sample a single point

---
 src/bmi/samplers/_split_student_t.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index c7c59e3..460e1f2 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -109,6 +109,8 @@ class SplitStudentT(BaseSampler):
             size=n_points,
             random_state=rng,
         )
+        # SciPy drops the first axis if only one point is sampled
+        xy = np.reshape(xy, (-1, self.dim_total))
         assert xy.shape == (
             n_points,
             self.dim_total,
-- 
2.43.0


From f809a5eff394a9afb946b22c1765b5fac2c6201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 12/27] fix: zero-inflated Poissonization sampler lacked dim_x
 and dim_y

---
 src/bmi/samplers/_discrete_continuous.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 64bc246..4a49855 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -132,6 +132,8 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
         Args:
             p: zero-inflation parameter. Must be in [0, 1).
         """
+        super().__init__(dim_x=1, dim_y=1)
+
         if p < 0 or p >= 1:
             raise ValueError(f"p must be in [0, 1), was {p}.")
         self._p = float(p)
-- 
2.43.0


From 64bdcbb0d3b1049a8c58aa4502396d41fa6ef6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 13/27] fix: ground-truth MI of zero-inflated Poissonization
 was too large for p > 0

---
 src/bmi/samplers/_discrete_continuous.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 4a49855..2dfbbcd 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -3,6 +3,7 @@ from typing import Optional, Sequence, Union
 import jax.numpy as jnp
 import numpy as np
 from jax import random
+from scipy.special import xlogy
 
 from bmi.interface import KeyArray
 from bmi.samplers._independent_coordinates import IndependentConcatenationSampler
@@ -159,21 +160,24 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
     def mutual_information(self, truncation: Optional[int] = None) -> float:
         """Ground-truth mutual information is equal to
 
-        $$I(X; Y) = (1-p) \\cdot (2 \\log 2 - \\gamma - S)$$
-
+        $$I(X; Y) = (1-p) \\cdot (2 \\log 2 - \\gamma - S) - I(X; Z \\mid Y)$$
 
         where
 
         $$S = \\sum_{k=1}^{\\infty} \\log k \\cdot 2^{-k},$$
 
-        so that the approximation
+        so that the first term is approximately $(1-p) \\cdot 0.3012$.
+        It is the information about $X$ carried by $Y$ together with the indicator variable $Z$
+        of the mixture component. As an observed zero does not reveal $Z$, we need to subtract
 
-        $$I(X; Y) \\approx (1-p) \\cdot 0.3012 $$
+        $$I(X; Z \\mid Y) = (1-p) \\left( \\frac{\\log 2}{2} - \\frac 14 \\right)
+        + \\frac{1+p}{2} \\log \\frac{1+p}{2} + \\frac{1 + p}{4}
+        + \\frac{p^2 \\log p}{2(1-p)},$$
 
-        holds.
+        which vanishes for $p=0$.
 
         Args:
-            truncation: if set to None, the above approximation will be used.
+            truncation: if set to None, the above approximation of the first term will be used.
                 Otherwise, the sum will be truncated at the given value.
         """
         assert truncation is None or truncation > 0
@@ -186,7 +190,11 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
             bracket = 2 * jnp.log(2) - np.euler_gamma - s
             bracket = float(bracket)
 
-        return (1 - self._p) * bracket
+        p = self._p
+        # The information lost, as the mixture component is not observed
+        lost = (1 - p) * (0.5 * np.log(2) - 0.25) + 0.5 * (1 + p) * np.log(0.5 * (1 + p))
+        lost += 0.25 * (1 + p) + 0.5 * xlogy(p**2, p) / (1 - p)
+        return float((1 - p) * bracket - lost)
 
     @staticmethod
     def cite() -> str:
-- 
2.43.0


From 04e54c9cb35a292e090ab1c9bf6b570234cbfd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 14/27] fix: Monte Carlo ground truth could be negative, which
 made task metadata invalid

---
 src/bmi/samplers/_tfp/_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_tfp/_wrapper.py b/src/bmi/samplers/_tfp/_wrapper.py
index 61b6d64..cafb16d 100644
--- a/src/bmi/samplers/_tfp/_wrapper.py
+++ b/src/bmi/samplers/_tfp/_wrapper.py
@@ -3,6 +3,7 @@
 from typing import Optional, Union
 
 import jax
+import jax.numpy as jnp
 
 from bmi.samplers._tfp._core import JointDistribution, monte_carlo_mi_estimate
 from bmi.samplers.base import BaseSampler, KeyArray, cast_to_rng
@@ -49,7 +50,9 @@ class BMMSampler(BaseSampler):
             return self._mi
         else:
             rng = cast_to_rng(self._mi_estimate_seed)
-            self._mi, self._mi_stderr = monte_carlo_mi_estimate(
+            mi, self._mi_stderr = monte_carlo_mi_estimate(
                 key=rng, dist=self._dist, n=self._mi_estimate_sample
             )
+            # Monte Carlo estimate may be negative, contrary to the mutual information
+            self._mi = jnp.maximum(mi, 0.0)
             return self._mi
-- 
2.43.0


From 9242f5f4c2e56ebf61c536bffb835b818bae9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 15/27] fix: GMM estimator ignored its alpha parameter

---
 src/bmi/estimators/external/gmm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index 3760a7f..07dd526 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -189,7 +189,12 @@ class GMMEstimator(IMutualInformationPointEstimator):
             num_samples=self._params.mcmc_num_samples,
             num_warmup=self._params.mcmc_num_warmup,
         )
-        mcmc.run(subkey, data=space.xy, K=self._params.n_components)
+        mcmc.run(
+            subkey,
+            data=space.xy,
+            K=self._params.n_components,
+            alpha=self._params.alpha,
+        )
 
         self._mcmc = mcmc
         self._dim_x = space.dim_x
-- 
2.43.0


From 4eb78cc9dc91173cd98d7953f8ea6121dd5ba7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 16/27] fix: result tables mixed all the sample sizes, ignoring
 the requested one

---
 workflows/benchmark/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workflows/benchmark/_utils.py b/workflows/benchmark/_utils.py
index 65182ce..2acfdb7 100644
--- a/workflows/benchmark/_utils.py
+++ b/workflows/benchmark/_utils.py
@@ -53,7 +53,7 @@ def create_benchmark_table(results, n_samples=None, converged_only=False):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
+    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
 
     # relative_error
     data = add_col_log_relative_error(data)
@@ -122,7 +122,7 @@ def create_convergence_table(results, n_samples=None):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
+    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
 
     data = add_col_converged(data)
     data["not_converged"] = ~data["converged"]
-- 
2.43.0


From 98a9d342e50c2f40ad5494fcde14cc8ff2db6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 17/27] fix: stored dictionaries were misread (1e-05, None,
 nan) or crashed the reader of results

---
 workflows/benchmark/_utils.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/workflows/benchmark/_utils.py b/workflows/benchmark/_utils.py
index 2acfdb7..d82f4e3 100644
--- a/workflows/benchmark/_utils.py
+++ b/workflows/benchmark/_utils.py
@@ -1,8 +1,25 @@
+import ast
+
 import numpy as np
 import pandas as pd
 import yaml
 
 
+class _NonFinite(ast.NodeTransformer):
+    """Replaces the names `nan` and `inf` by the floats."""
+
+    def visit_Name(self, node):
+        return ast.Constant(float(node.id)) if node.id in ("nan", "inf") else node
+
+
+def _parse_dict(text: str) -> dict:
+    """Parses a dictionary, which was written to a CSV file using `str`."""
+    try:
+        return ast.literal_eval(_NonFinite().visit(ast.parse(text, mode="eval")).body)
+    except (SyntaxError, ValueError):
+        return yaml.safe_load(text)
+
+
 def read_results(
     path: str,
     unpack_task_params: bool = True,
@@ -12,7 +29,7 @@ def read_results(
 
     # read dicts
     for col in ["task_params", "additional_information"]:
-        results[col] = results[col].apply(lambda x: yaml.safe_load(x))
+        results[col] = results[col].apply(_parse_dict)
 
     # unpack
     rows = []
-- 
2.43.0


From bdd9c858dd0ed4b0d3470a4f5bc6728171079142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 18/27] Revert "fix: stored dictionaries were misread (1e-05,
 None, nan) or crashed the reader of results"

This reverts commit 98a9d342e50c2f40ad5494fcde14cc8ff2db6062.
---
 workflows/benchmark/_utils.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/workflows/benchmark/_utils.py b/workflows/benchmark/_utils.py
index d82f4e3..2acfdb7 100644
--- a/workflows/benchmark/_utils.py
+++ b/workflows/benchmark/_utils.py
@@ -1,25 +1,8 @@
-import ast
-
 import numpy as np
 import pandas as pd
 import yaml
 
 
-class _NonFinite(ast.NodeTransformer):
-    """Replaces the names `nan` and `inf` by the floats."""
-
-    def visit_Name(self, node):
-        return ast.Constant(float(node.id)) if node.id in ("nan", "inf") else node
-
-
-def _parse_dict(text: str) -> dict:
-    """Parses a dictionary, which was written to a CSV file using `str`."""
-    try:
-        return ast.literal_eval(_NonFinite().visit(ast.parse(text, mode="eval")).body)
-    except (SyntaxError, ValueError):
-        return yaml.safe_load(text)
-
-
 def read_results(
     path: str,
     unpack_task_params: bool = True,
@@ -29,7 +12,7 @@ def read_results(
 
     # read dicts
     for col in ["task_params", "additional_information"]:
-        results[col] = results[col].apply(_parse_dict)
+        results[col] = results[col].apply(lambda x: yaml.safe_load(x))
 
     # unpack
     rows = []
-- 
2.43.0


From 1bc0a106fee62d280a34669f095c9612cdf186fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 19/27] Revert "fix: result tables mixed all the sample sizes,
 ignoring the requested one"

This reverts commit 4eb78cc9dc91173cd98d7953f8ea6121dd5ba7d2.
---
 workflows/benchmark/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workflows/benchmark/_utils.py b/workflows/benchmark/_utils.py
index 2acfdb7..65182ce 100644
--- a/workflows/benchmark/_utils.py
+++ b/workflows/benchmark/_utils.py
@@ -53,7 +53,7 @@ def create_benchmark_table(results, n_samples=None, converged_only=False):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
+    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
 
     # relative_error
     data = add_col_log_relative_error(data)
@@ -122,7 +122,7 @@ def create_convergence_table(results, n_samples=None):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
+    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate"]].copy()
 
     data = add_col_converged(data)
     data["not_converged"] = ~data["converged"]
-- 
2.43.0


From 38b12c5c5ed4b154feaea228cad9cfb1b8778bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 20/27] Revert "fix: run_estimator modified the dictionary
 passed as additional_information"

This reverts commit ffb21ce90454c6bcde3b1acd5d53e1075af645f9.
---
 src/bmi/benchmark/result.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bmi/benchmark/result.py b/src/bmi/benchmark/result.py
index 72cd3d8..bc2b110 100644
--- a/src/bmi/benchmark/result.py
+++ b/src/bmi/benchmark/result.py
@@ -35,8 +35,7 @@ def run_estimator(
     seed: Optional[int] = None,
     additional_information: Optional[dict] = None,
 ) -> RunResult:
-    # copy, so that the dictionary of the caller is not modified
-    additional_information = dict(additional_information or {})
+    additional_information = additional_information or {}
     samples_x, samples_y = read_sample(sample_path)
     n_samples = len(samples_x)
 
-- 
2.43.0


From 4cdae1dfef44d3aa244f0307ba2c21f66a470d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:04 +0000
Subject: [PATCH 21/27] fix: sample with (n_points, key) in the profile and PMI
 figures

JointDistribution.sample takes the number of points first; with the arguments
swapped the rules raised a ValueError and the figures could not be made.
---
 workflows/projects/Mixtures/distinct_profiles.smk | 4 ++--
 workflows/projects/Mixtures/pmi_plot_1v1.smk      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/workflows/projects/Mixtures/distinct_profiles.smk b/workflows/projects/Mixtures/distinct_profiles.smk
index 351e5d7..248eec9 100644
--- a/workflows/projects/Mixtures/distinct_profiles.smk
+++ b/workflows/projects/Mixtures/distinct_profiles.smk
@@ -40,7 +40,7 @@ rule sample_normal:
     output: "normal.npz"
     run:
         key = jax.random.PRNGKey(0)
-        x, y = bivariate_normal.sample(key, n_samples)
+        x, y = bivariate_normal.sample(n_samples, key)
         pmi_profile = bivariate_normal.pmi(x, y)
 
         np.savez(
@@ -103,7 +103,7 @@ rule sample_u_shape:
         )
 
         key = jax.random.PRNGKey(0)
-        x, y = dist.sample(key, n_samples)
+        x, y = dist.sample(n_samples, key)
         pmi_profile = dist.pmi(x, y)
         np.savez(
             str(output),
diff --git a/workflows/projects/Mixtures/pmi_plot_1v1.smk b/workflows/projects/Mixtures/pmi_plot_1v1.smk
index e4ddf58..b21ab88 100644
--- a/workflows/projects/Mixtures/pmi_plot_1v1.smk
+++ b/workflows/projects/Mixtures/pmi_plot_1v1.smk
@@ -68,7 +68,7 @@ rule plot_pmi:
         ax.set_ylabel('y')
 
         ax = axs[0, 1]
-        x, y = dist.sample(key, 10_000)
+        x, y = dist.sample(10_000, key)
         ax.scatter(x.ravel(), y.ravel(), s=1, alpha=0.5, c="black", marker=".", rasterized=True)
         ax.set_title(f'Joint distribution')
         ax.set_xlabel('x')
-- 
2.43.0


From 093af37555a913d53a4cf61cd43fa384a743b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:04 +0000
Subject: [PATCH 22/27] fix: results table uses only the requested sample size

The filtered data was overwritten, so the means and deviations mixed all sample sizes.
---
 workflows/projects/Mixtures/v2_results_table.smk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workflows/projects/Mixtures/v2_results_table.smk b/workflows/projects/Mixtures/v2_results_table.smk
index f5291be..b9a0557 100644
--- a/workflows/projects/Mixtures/v2_results_table.smk
+++ b/workflows/projects/Mixtures/v2_results_table.smk
@@ -39,7 +39,7 @@ def create_benchmark_table(results, n_samples):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
+    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
 
     # mean over seeds
     data_mean = (
-- 
2.43.0


From 584e421e1e1878a1492335f090d6dbeee82933fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:20 +0000
Subject: [PATCH 23/27] fix: SplitStudentT keeps its own copy of the mean and
 dispersion

Arrays passed by the caller were stored without a copy, and covariance()
handed out the stored dispersion for infinite degrees of freedom, so that
changing an array in place changed the distribution that had been built.
---
 src/bmi/samplers/_split_student_t.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index 460e1f2..77359b4 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -75,7 +75,7 @@ class SplitStudentT(BaseSampler):
 
         if mean is None:
             mean = np.zeros(dim_x + dim_y)
-        self._mean = np.asarray(mean)
+        self._mean = np.array(mean)
 
         # Mutual information of multivariate Student-t contains
         # the term corresponding to the multivariate normal distribution.
@@ -89,7 +89,7 @@ class SplitStudentT(BaseSampler):
             raise ValueError("Degrees of freedom must be positive.")
         self._degrees_of_freedom = df
 
-        self._dispersion = np.asarray(dispersion)
+        self._dispersion = np.array(dispersion)
 
     def sample(self, n_points: int, rng: Union[int, KeyArray]) -> tuple[np.ndarray, np.ndarray]:
         """Sampling from multivariate Student distribution.
@@ -137,7 +137,7 @@ class SplitStudentT(BaseSampler):
                 f"For degrees of freedom {self.df} <= 2 the covariance is not defined."
             )
         elif np.isinf(self.df):
-            return self._dispersion
+            return self._dispersion.copy()
         else:
             return self.df * self._dispersion / (self.df - 2.0)
 
-- 
2.43.0


From 26eb1dce8c1b7a1c5254e367316194ff4c54c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:20 +0000
Subject: [PATCH 24/27] fix: a mixture keeps its own copy of the proportions

jnp.asarray shares memory with a NumPy array on the CPU: changing the array
in place changed the weights of the mixture that had been built.
---
 src/bmi/samplers/_tfp/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_tfp/_core.py b/src/bmi/samplers/_tfp/_core.py
index ed075af..85015da 100644
--- a/src/bmi/samplers/_tfp/_core.py
+++ b/src/bmi/samplers/_tfp/_core.py
@@ -81,7 +81,7 @@ def mixture(
     Returns:
         mixture distribution
     """
-    proportions = jnp.asarray(proportions)
+    proportions = jnp.array(proportions)
     components = list(components)
     dim_xs = set(d.dim_x for d in components)
     dim_ys = set(d.dim_y for d in components)
-- 
2.43.0


From ec7c8c1dcb4c27feb37a6b3ef22bcbb672b5bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:20 +0000
Subject: [PATCH 25/27] fix: Spiral keeps its own copy of the initial matrix

jnp.asarray shares memory with a NumPy array on the CPU: changing the array
in place changed the map that had been built.
---
 src/bmi/transforms/_rotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/transforms/_rotate.py b/src/bmi/transforms/_rotate.py
index d1bc63e..14521f0 100644
--- a/src/bmi/transforms/_rotate.py
+++ b/src/bmi/transforms/_rotate.py
@@ -53,7 +53,7 @@ class Spiral(eqx.Module):
                     f"Initial point has shape {initial.shape} while "
                     f"the generator has {self.generator.shape}."
                 )
-            self.initial = jnp.asarray(initial)
+            self.initial = jnp.array(initial)
 
     def __call__(self, x: jnp.ndarray) -> jnp.ndarray:
         """
-- 
2.43.0


From 86544209c587ed4726d87da54c902797738bf80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:39 +0000
Subject: [PATCH 26/27] fix: an interrupted KSG fit leaves the previous
 predictions intact

The dictionary of predictions was updated neighborhood by neighborhood, so a
fit cut short there left get_predictions() with values of two data sets.
---
 src/bmi/estimators/ksg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index ac1a5c1..ccdcbd4 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -125,12 +125,15 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
                 digammas_mean_contribution = np.sum(digammas / n_points)
                 digammas_dict[k].append(digammas_mean_contribution)
 
+        mi_dict = dict()
         for k, digammas in digammas_dict.items():
             # As the mean over all the points was calculated for each chunk separately,
             # we should add the contributions from each chunk
             mi_estimate = _DIGAMMA(k) - np.sum(digammas) + _DIGAMMA(n_points)
-            self._mi_dict[k] = max(0.0, mi_estimate)
+            mi_dict[k] = max(0.0, mi_estimate)
 
+        # Only now, so that an interrupted fit leaves the previous predictions intact
+        self._mi_dict = mi_dict
         self._fitted = True
 
     def get_predictions(self) -> dict[int, float]:
@@ -225,10 +228,13 @@ class KSGEnsembleFirstEstimatorSlow(IMutualInformationPointEstimator):
                 digammas_per_point = _DIGAMMA(n_x + 1) + _DIGAMMA(n_y + 1)
                 digammas_dict[k].append(digammas_per_point)
 
+        mi_dict = dict()
         for k, digammas in digammas_dict.items():
             mi_estimate = _DIGAMMA(k) - np.mean(digammas) + _DIGAMMA(n_points)
-            self._mi_dict[k] = max(0.0, mi_estimate)
+            mi_dict[k] = max(0.0, mi_estimate)
 
+        # Only now, so that an interrupted fit leaves the previous predictions intact
+        self._mi_dict = mi_dict
         self._fitted = True
 
     def get_predictions(self) -> dict[int, float]:
-- 
2.43.0


From 66e5ab6206a70686756904542161adc5571d3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:54 +0000
Subject: [PATCH 27/27] fix: an interrupted GMM fit leaves the previous
 posterior with its dimensions

---
 src/bmi/estimators/external/gmm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index 07dd526..a938195 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -196,9 +196,8 @@ class GMMEstimator(IMutualInformationPointEstimator):
             alpha=self._params.alpha,
         )
 
-        self._mcmc = mcmc
-        self._dim_x = space.dim_x
-        self._dim_y = space.dim_y
+        # At once, so that an interrupted fit leaves the previous posterior with its dimensions
+        self._mcmc, self._dim_x, self._dim_y = mcmc, space.dim_x, space.dim_y
 
     def get_bmm_distribution(self, idx: int) -> bmm.JointDistribution:
         if self._mcmc is None:
-- 
2.43.0

