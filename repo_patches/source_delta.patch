From c79c78c4516cd5c5f6865abf1df5aba68aefddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 01/16] fix: SplitStudentT.sample works for a single point

---
 src/bmi/samplers/_split_student_t.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index acb8ff1..2caacf6 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -99,6 +99,8 @@ class SplitStudentT(BaseSampler):
             size=n_points,
             random_state=rng,
         )
+        # SciPy squeezes out the first axis if there is only one point
+        xy = np.reshape(xy, (-1, self.dim_total))
         assert xy.shape == (
             n_points,
             self.dim_total,
-- 
2.43.0


From fb6ed865e1afe06bdd9c339057589f28b11297fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 02/16] fix: run_estimator does not modify the
 additional_information passed in

---
 src/bmi/benchmark/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi/benchmark/result.py b/src/bmi/benchmark/result.py
index bc2b110..69912f5 100644
--- a/src/bmi/benchmark/result.py
+++ b/src/bmi/benchmark/result.py
@@ -35,7 +35,8 @@ def run_estimator(
     seed: Optional[int] = None,
     additional_information: Optional[dict] = None,
 ) -> RunResult:
-    additional_information = additional_information or {}
+    # copy, so that neither the caller's dictionary nor records of other runs are modified
+    additional_information = dict(additional_information or {})
     samples_x, samples_y = read_sample(sample_path)
     n_samples = len(samples_x)
 
-- 
2.43.0


From 015ed7dc5869ea39fe368e03576f669562c1dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 03/16] fix: neighbour estimators publish the predictions of a
 fit at once

---
 src/bmi/estimators/ksg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index 43c7250..a08db53 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -125,12 +125,15 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
                 digammas_mean_contribution = np.sum(digammas / n_points)
                 digammas_dict[k].append(digammas_mean_contribution)
 
+        mi_dict = {}
         for k, digammas in digammas_dict.items():
             # As the mean over all the points was calculated for each chunk separately,
             # we should add the contributions from each chunk
             mi_estimate = _DIGAMMA(k) - np.sum(digammas) + _DIGAMMA(n_points)
-            self._mi_dict[k] = max(0.0, mi_estimate)
+            mi_dict[k] = max(0.0, mi_estimate)
 
+        # published at once, so that an interrupted fit cannot mix two fits
+        self._mi_dict = mi_dict
         self._fitted = True
 
     def get_predictions(self) -> dict[int, float]:
@@ -225,10 +228,13 @@ class KSGEnsembleFirstEstimatorSlow(IMutualInformationPointEstimator):
                 digammas_per_point = _DIGAMMA(n_x + 1) + _DIGAMMA(n_y + 1)
                 digammas_dict[k].append(digammas_per_point)
 
+        mi_dict = {}
         for k, digammas in digammas_dict.items():
             mi_estimate = _DIGAMMA(k) - np.mean(digammas) + _DIGAMMA(n_points)
-            self._mi_dict[k] = max(0.0, mi_estimate)
+            mi_dict[k] = max(0.0, mi_estimate)
 
+        # published at once, so that an interrupted fit cannot mix two fits
+        self._mi_dict = mi_dict
         self._fitted = True
 
     def get_predictions(self) -> dict[int, float]:
-- 
2.43.0


From a0961b0e7d37510003e695c46972bb2cf0c4e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 04/16] fix: a neighbourhood listed twice does not distort the
 fast KSG ensemble

---
 src/bmi/estimators/ksg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index a08db53..e5063f5 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -106,7 +106,7 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
             # Shape is also (batch_size, n_points)
             closest_points = np.argsort(distances_xy, axis=-1)
 
-            for k in self._params.neighborhoods:
+            for k in digammas_dict:
                 # Note that the points are 0-indexed and that the "0th neighbor"
                 # is the point itself (as distance(x, x) = 0 is the smallest possible)
                 # Hence, the kth neighbour is at index k
-- 
2.43.0


From 7acee2409733ddaf4ddf95df305efb5397b5d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 05/16] fix: ZeroInflatedPoissonizationSampler declares its
 dimensions

---
 src/bmi/samplers/_discrete_continuous.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 64bc246..4a49855 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -132,6 +132,8 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
         Args:
             p: zero-inflation parameter. Must be in [0, 1).
         """
+        super().__init__(dim_x=1, dim_y=1)
+
         if p < 0 or p >= 1:
             raise ValueError(f"p must be in [0, 1), was {p}.")
         self._p = float(p)
-- 
2.43.0


From deb0f35768e556ff871fb9f6be7d422901f9e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 06/16] fix: SplitStudentT keeps its own copies of the mean and
 dispersion

---
 src/bmi/samplers/_split_student_t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index 2caacf6..d00b609 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -70,7 +70,7 @@ class SplitStudentT(BaseSampler):
 
         if mean is None:
             mean = np.zeros(dim_x + dim_y)
-        self._mean = np.asarray(mean)
+        self._mean = np.array(mean)
 
         # Mutual information of multivariate Student-t contains
         # the term corresponding to the multivariate normal distribution.
@@ -84,7 +84,7 @@ class SplitStudentT(BaseSampler):
             raise ValueError("Degrees of freedom must be positive.")
         self._degrees_of_freedom = df
 
-        self._dispersion = np.asarray(dispersion)
+        self._dispersion = np.array(dispersion)
 
     def sample(self, n_points: int, rng: int) -> tuple[np.ndarray, np.ndarray]:
         """Sampling from multivariate Student distribution.
-- 
2.43.0


From 8aed5700318f5cccd9c3f4a2519f16d0868ce414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 07/16] fix: mixtures and spirals do not share memory with the
 arrays passed in

---
 src/bmi/samplers/_tfp/_core.py | 2 +-
 src/bmi/transforms/_rotate.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_tfp/_core.py b/src/bmi/samplers/_tfp/_core.py
index ed075af..85015da 100644
--- a/src/bmi/samplers/_tfp/_core.py
+++ b/src/bmi/samplers/_tfp/_core.py
@@ -81,7 +81,7 @@ def mixture(
     Returns:
         mixture distribution
     """
-    proportions = jnp.asarray(proportions)
+    proportions = jnp.array(proportions)
     components = list(components)
     dim_xs = set(d.dim_x for d in components)
     dim_ys = set(d.dim_y for d in components)
diff --git a/src/bmi/transforms/_rotate.py b/src/bmi/transforms/_rotate.py
index d1bc63e..14521f0 100644
--- a/src/bmi/transforms/_rotate.py
+++ b/src/bmi/transforms/_rotate.py
@@ -53,7 +53,7 @@ class Spiral(eqx.Module):
                     f"Initial point has shape {initial.shape} while "
                     f"the generator has {self.generator.shape}."
                 )
-            self.initial = jnp.asarray(initial)
+            self.initial = jnp.array(initial)
 
     def __call__(self, x: jnp.ndarray) -> jnp.ndarray:
         """
-- 
2.43.0


From cbe2ba065d16631f987481dfd232004686136537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 08/16] fix: editing the parameters passed to or handed out by
 a task does not change it

---
 src/bmi/benchmark/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmi/benchmark/task.py b/src/bmi/benchmark/task.py
index 9d500f5..bceb526 100644
--- a/src/bmi/benchmark/task.py
+++ b/src/bmi/benchmark/task.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Optional
 
 import numpy as np
@@ -31,7 +32,7 @@ class Task:
         self.sampler = sampler
         self._task_id = task_id
         self._task_name = task_name
-        self._task_params = task_params
+        self._task_params = copy.deepcopy(task_params)
 
     @property
     def metadata(self) -> TaskMetadata:
@@ -41,7 +42,7 @@ class Task:
             dim_x=self.sampler.dim_x,
             dim_y=self.sampler.dim_y,
             mi_true=self.sampler.mutual_information(),
-            task_params=self._task_params or dict(),
+            task_params=copy.deepcopy(self._task_params) or dict(),
         )
 
     @property
-- 
2.43.0


From ea28ced1084239535b592797004ce6dcd246dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 09/16] Revert "fix: editing the parameters passed to or handed
 out by a task does not change it"

This reverts commit cbe2ba065d16631f987481dfd232004686136537.
---
 src/bmi/benchmark/task.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bmi/benchmark/task.py b/src/bmi/benchmark/task.py
index bceb526..9d500f5 100644
--- a/src/bmi/benchmark/task.py
+++ b/src/bmi/benchmark/task.py
@@ -1,4 +1,3 @@
-import copy
 from typing import Optional
 
 import numpy as np
@@ -32,7 +31,7 @@ class Task:
         self.sampler = sampler
         self._task_id = task_id
         self._task_name = task_name
-        self._task_params = copy.deepcopy(task_params)
+        self._task_params = task_params
 
     @property
     def metadata(self) -> TaskMetadata:
@@ -42,7 +41,7 @@ class Task:
             dim_x=self.sampler.dim_x,
             dim_y=self.sampler.dim_y,
             mi_true=self.sampler.mutual_information(),
-            task_params=copy.deepcopy(self._task_params) or dict(),
+            task_params=self._task_params or dict(),
         )
 
     @property
-- 
2.43.0


From 57803da0abf3beffa7dcb74ec92b9b30970b8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 10/16] Revert "fix: run_estimator does not modify the
 additional_information passed in"

This reverts commit fb6ed865e1afe06bdd9c339057589f28b11297fd.
---
 src/bmi/benchmark/result.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bmi/benchmark/result.py b/src/bmi/benchmark/result.py
index 69912f5..bc2b110 100644
--- a/src/bmi/benchmark/result.py
+++ b/src/bmi/benchmark/result.py
@@ -35,8 +35,7 @@ def run_estimator(
     seed: Optional[int] = None,
     additional_information: Optional[dict] = None,
 ) -> RunResult:
-    # copy, so that neither the caller's dictionary nor records of other runs are modified
-    additional_information = dict(additional_information or {})
+    additional_information = additional_information or {}
     samples_x, samples_y = read_sample(sample_path)
     n_samples = len(samples_x)
 
-- 
2.43.0


From 2675b458619bed8f4d39b146a3623b687bb55edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 11/16] fix: a NaN in the first test evaluation does not hide
 later ones

---
 src/bmi/estimators/neural/_training_log.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi/estimators/neural/_training_log.py b/src/bmi/estimators/neural/_training_log.py
index 69a46a1..c4ab2bb 100644
--- a/src/bmi/estimators/neural/_training_log.py
+++ b/src/bmi/estimators/neural/_training_log.py
@@ -66,7 +66,9 @@ class TrainingLog:
         Args:
             mi: float or JAX's float-like, e.g., Array(0.5)
         """
-        if self._mi_test_best is None or self._mi_test_best < mi:
+        best = self._mi_test_best
+        # any number improves on NaN, which does not compare
+        if best is None or best < mi or (jnp.isnan(best) and not jnp.isnan(mi)):
             self._mi_test_best = mi
             self._logs_since_mi_test_best = 0
         else:
-- 
2.43.0


From e5ec8a9ff6cfd1414234f4113cbfa5ec1c9794ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 12/16] fix: the Gaussian mixture estimator passes its sparsity
 parameter to the model

---
 src/bmi/estimators/external/gmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index 3760a7f..c98fb16 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -189,7 +189,9 @@ class GMMEstimator(IMutualInformationPointEstimator):
             num_samples=self._params.mcmc_num_samples,
             num_warmup=self._params.mcmc_num_warmup,
         )
-        mcmc.run(subkey, data=space.xy, K=self._params.n_components)
+        mcmc.run(
+            subkey, data=space.xy, K=self._params.n_components, alpha=self._params.alpha
+        )
 
         self._mcmc = mcmc
         self._dim_x = space.dim_x
-- 
2.43.0


From 146c3edbbed787f8dac4170d1d4fd7d6e1cc3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 13/16] fix: an interrupted Gaussian mixture fit does not mix
 draws and dimensions of two fits

---
 src/bmi/estimators/external/gmm.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index c98fb16..d31313e 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -168,13 +168,16 @@ class GMMEstimator(IMutualInformationPointEstimator):
         # TODO(Pawel): Allow for JAX key
         self.key = jax.random.PRNGKey(key)
 
-        self._dim_x: int = -1
-        self._dim_y: int = -1
-        self._mcmc = None
+        # The last MCMC run and the dimensions of its data, always assigned together
+        self._fitted: Optional[tuple["MCMC", int, int]] = None
 
     def parameters(self) -> GMMEstimatorParams:
         return self._params
 
+    @property
+    def _mcmc(self) -> Optional["MCMC"]:
+        return None if self._fitted is None else self._fitted[0]
+
     def run_mcmc(self, x: ArrayLike, y: ArrayLike):
         space = ProductSpace(x=x, y=y, standardize=self._params.standardize)
 
@@ -193,21 +196,21 @@ class GMMEstimator(IMutualInformationPointEstimator):
             subkey, data=space.xy, K=self._params.n_components, alpha=self._params.alpha
         )
 
-        self._mcmc = mcmc
-        self._dim_x = space.dim_x
-        self._dim_y = space.dim_y
+        self._fitted = (mcmc, space.dim_x, space.dim_y)
 
     def get_bmm_distribution(self, idx: int) -> bmm.JointDistribution:
-        if self._mcmc is None:
+        fitted = self._fitted
+        if fitted is None:
             raise ValueError("You need to run MCMC first. See the `run_mcmc` method.")
 
-        samples = self._mcmc.get_samples()
+        mcmc, dim_x, dim_y = fitted
+        samples = mcmc.get_samples()
         return sample_into_bmm_distribution(
             means=samples["mu"][idx],
             covariances=samples["cov"][idx],
             proportions=samples["pi"][idx],
-            dim_x=self._dim_x,
-            dim_y=self._dim_y,
+            dim_x=dim_x,
+            dim_y=dim_y,
         )
 
     def get_sample_mi(self, idx: int, mc_samples: Optional[int] = None, key=None) -> float:
-- 
2.43.0


From 9f90ce65760bf70d9e96bbbce43d98557c020ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 14/16] fix: results tables hold parameters and additional
 information as YAML

---
 workflows/projects/Beyond_Normal/_core_rules.smk | 9 ++++++++-
 workflows/projects/Mixtures/_benchmark_rules.smk | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/workflows/projects/Beyond_Normal/_core_rules.smk b/workflows/projects/Beyond_Normal/_core_rules.smk
index 89310ba..dd1f2d4 100644
--- a/workflows/projects/Beyond_Normal/_core_rules.smk
+++ b/workflows/projects/Beyond_Normal/_core_rules.smk
@@ -5,6 +5,7 @@ import yaml
 import pandas as pd
 
 from bmi.benchmark import run_estimator
+from bmi.benchmark.utils.dict_dumper import DictDumper
 
 
 # ASSUMES THAT THE FOLLOWING ARE DECLARED:
@@ -32,7 +33,13 @@ rule results:
                 result['mi_true'] = task.mutual_information
                 result['task_params'] = task.params
                 results.append(result)
-        pd.DataFrame(results).to_csv(str(output), index=False)
+        results = pd.DataFrame(results)
+        # dictionaries are written as YAML, as this is how they are read back
+        for col in ['task_params', 'additional_information']:
+            results[col] = results[col].apply(
+                lambda x: yaml.dump(x, Dumper=DictDumper, default_flow_style=True)
+            )
+        results.to_csv(str(output), index=False)
 
 
 # Sample task given a seed and number of samples.
diff --git a/workflows/projects/Mixtures/_benchmark_rules.smk b/workflows/projects/Mixtures/_benchmark_rules.smk
index 717e348..4064694 100644
--- a/workflows/projects/Mixtures/_benchmark_rules.smk
+++ b/workflows/projects/Mixtures/_benchmark_rules.smk
@@ -13,6 +13,7 @@ import pandas as pd
 import bmi
 from bmi.benchmark import run_estimator
 from bmi.benchmark.tasks import transform_rescale
+from bmi.benchmark.utils.dict_dumper import DictDumper
 
 
 def scale_tasks(tasks: dict[str, bmi.Task]) -> dict[str, bmi.Task]:
@@ -48,7 +49,13 @@ rule results:
                 result['mi_true'] = task.mutual_information
                 result['task_params'] = task.params
                 results.append(result)
-        pd.DataFrame(results).to_csv(str(output), index=False)
+        results = pd.DataFrame(results)
+        # dictionaries are written as YAML, as this is how they are read back
+        for col in ['task_params', 'additional_information']:
+            results[col] = results[col].apply(
+                lambda x: yaml.dump(x, Dumper=DictDumper, default_flow_style=True)
+            )
+        results.to_csv(str(output), index=False)
 
 
 # Sample task given a seed and number of samples.
-- 
2.43.0


From 91788ebd8a2c6cd1a855660b5b7dcd61559adebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 15/16] fix: the table of the second benchmark uses only the
 selected sample size

---
 workflows/projects/Mixtures/v2_results_table.smk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workflows/projects/Mixtures/v2_results_table.smk b/workflows/projects/Mixtures/v2_results_table.smk
index f5291be..b9a0557 100644
--- a/workflows/projects/Mixtures/v2_results_table.smk
+++ b/workflows/projects/Mixtures/v2_results_table.smk
@@ -39,7 +39,7 @@ def create_benchmark_table(results, n_samples):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
+    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
 
     # mean over seeds
     data_mean = (
-- 
2.43.0


From c6839ba137d21ac51994f8f461530847426b61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:37 +0000
Subject: [PATCH 16/16] fix: sample() takes the number of points before the key
 in the PMI figure workflows

---
 workflows/projects/Mixtures/distinct_profiles.smk | 4 ++--
 workflows/projects/Mixtures/pmi_plot_1v1.smk      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/workflows/projects/Mixtures/distinct_profiles.smk b/workflows/projects/Mixtures/distinct_profiles.smk
index 351e5d7..248eec9 100644
--- a/workflows/projects/Mixtures/distinct_profiles.smk
+++ b/workflows/projects/Mixtures/distinct_profiles.smk
@@ -40,7 +40,7 @@ rule sample_normal:
     output: "normal.npz"
     run:
         key = jax.random.PRNGKey(0)
-        x, y = bivariate_normal.sample(key, n_samples)
+        x, y = bivariate_normal.sample(n_samples, key)
         pmi_profile = bivariate_normal.pmi(x, y)
 
         np.savez(
@@ -103,7 +103,7 @@ rule sample_u_shape:
         )
 
         key = jax.random.PRNGKey(0)
-        x, y = dist.sample(key, n_samples)
+        x, y = dist.sample(n_samples, key)
         pmi_profile = dist.pmi(x, y)
         np.savez(
             str(output),
diff --git a/workflows/projects/Mixtures/pmi_plot_1v1.smk b/workflows/projects/Mixtures/pmi_plot_1v1.smk
index e4ddf58..b21ab88 100644
--- a/workflows/projects/Mixtures/pmi_plot_1v1.smk
+++ b/workflows/projects/Mixtures/pmi_plot_1v1.smk
@@ -68,7 +68,7 @@ rule plot_pmi:
         ax.set_ylabel('y')
 
         ax = axs[0, 1]
-        x, y = dist.sample(key, 10_000)
+        x, y = dist.sample(10_000, key)
         ax.scatter(x.ravel(), y.ravel(), s=1, alpha=0.5, c="black", marker=".", rasterized=True)
         ax.set_title(f'Joint distribution')
         ax.set_xlabel('x')
-- 
2.43.0

