From 4049ecfe05ca7664a2f91a6fc4690014b4e14fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 01/41] fix: BaseTransformer.fit passes feature vectors, not
 (x, None) tuples, to fit_partial

---
 pysad/core/base_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/core/base_transformer.py b/pysad/core/base_transformer.py
index 62ff4e9..5d77f87 100644
--- a/pysad/core/base_transformer.py
+++ b/pysad/core/base_transformer.py
@@ -73,7 +73,7 @@ class BaseTransformer(ABC):
         Returns:
             object: The fitted transformer
         """
-        for xi in _iterate(X):
+        for xi, _ in _iterate(X):
             self.fit_partial(xi)
 
         return self
-- 
2.43.0


From cbdb02ba5023e54360abe1c3b8dba21cf8a2a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 02/41] fix: GaussianTailProbabilityCalibrator ignores
 window_size when running_statistics is False

---
 pysad/transform/probability_calibration/gaussian_tail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/probability_calibration/gaussian_tail.py b/pysad/transform/probability_calibration/gaussian_tail.py
index db9eb80..fb9e898 100644
--- a/pysad/transform/probability_calibration/gaussian_tail.py
+++ b/pysad/transform/probability_calibration/gaussian_tail.py
@@ -23,7 +23,7 @@ class GaussianTailProbabilityCalibrator(BasePostprocessor):
             self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
         else:
             self.avg_meter = AverageMeter()
-            self.var_meter = RunningStatistic(VarianceMeter, self.window_size)
+            self.var_meter = VarianceMeter()
 
     def fit_partial(self, score):
         """Fits particular (next) timestep's score to train the postprocessor.
-- 
2.43.0


From c0a164ea4bcf55395aabc62ad9467a98b7c90c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 03/41] fix: WindowedMetric configures the metric of every
 window, not only the first

---
 pysad/evaluation/windowed_metric.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysad/evaluation/windowed_metric.py b/pysad/evaluation/windowed_metric.py
index 31e93ae..0fe4471 100644
--- a/pysad/evaluation/windowed_metric.py
+++ b/pysad/evaluation/windowed_metric.py
@@ -22,15 +22,16 @@ class WindowedMetric(BaseMetric):
         self.window_size = window_size
         self.metric_cls = metric_cls
 
-        self.metric = self._init_metric(**kwargs)
+        self.metric_kwargs = kwargs
+        self.metric = self._init_metric()
 
         self.score_meter = AverageMeter()
         self.step = 0
         self.num_windows = 1
 
-    def _init_metric(self, **kwargs):
+    def _init_metric(self):
 
-        return self.metric_cls(**kwargs)
+        return self.metric_cls(**self.metric_kwargs)
 
     def update(self, y_true, y_pred):
         """Updates the score with new true label and predicted score/label.
-- 
2.43.0


From 162f949ca555d3e31689f33d9e337511108c6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 04/41] fix: RunningStatistic hands its keyword arguments to
 the wrapped statistic

---
 pysad/statistics/running_statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/running_statistic.py b/pysad/statistics/running_statistic.py
index 7b37aa3..cd8c5eb 100644
--- a/pysad/statistics/running_statistic.py
+++ b/pysad/statistics/running_statistic.py
@@ -11,9 +11,9 @@ class RunningStatistic(BaseStatistic):
     """
 
     def __init__(self, statistic_cls, window_size, **kwargs):
-        super().__init__(**kwargs)
+        super().__init__()
         self.statistic_cls = statistic_cls
-        self.statistic = self.statistic_cls()
+        self.statistic = self.statistic_cls(**kwargs)
 
         self.window_size = window_size
         self.window = []
-- 
2.43.0


From 6bee18e088733c81fb0beb45a5088cb4064ce2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 05/41] fix: HalfSpaceTrees accepts an array as
 initial_window_X

---
 pysad/models/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index ea22e9a..2aaf177 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -42,7 +42,7 @@ class HalfSpaceTrees(BaseModel):
 
         self.is_first_window = True
         self.step = 0
-        if initial_window_X:
+        if initial_window_X is not None:
             self.fit(initial_window_X)
 
     def _build_single_hs_tree(self, mins, maxes, current_depth):
-- 
2.43.0


From d8113523a48f8392f8e28d93796e0e67d4f14f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 06/41] fix: StreamhashProjector returns a vector also for
 num_components=1

---
 pysad/transform/projection/streamhash_projector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/transform/projection/streamhash_projector.py b/pysad/transform/projection/streamhash_projector.py
index 863464d..4ac2df8 100644
--- a/pysad/transform/projection/streamhash_projector.py
+++ b/pysad/transform/projection/streamhash_projector.py
@@ -47,7 +47,7 @@ class StreamhashProjector(BaseTransformer):
                        for f in feature_names]
                       for k in self.keys])
 
-        Y = np.dot(X, R.T).squeeze()
+        Y = np.dot(X, R.T).reshape(-1)
 
         return Y
 
-- 
2.43.0


From 15ab10c427943eacb6bc361c7a251d9337cc7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 07/41] fix: random projectors project every instance with the
 same random matrix

---
 pysad/transform/projection/random_projector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysad/transform/projection/random_projector.py b/pysad/transform/projection/random_projector.py
index f66a782..7210891 100644
--- a/pysad/transform/projection/random_projector.py
+++ b/pysad/transform/projection/random_projector.py
@@ -12,6 +12,7 @@ class BaseSKLearnProjector(BaseTransformer):
             num_components (int): The number of dimensions that the target will be projected into.
         """
         super().__init__(num_components)
+        self._fitted_projector = None
 
     @property
     @abstractmethod
@@ -43,7 +44,10 @@ class BaseSKLearnProjector(BaseTransformer):
         """
         x = X.reshape(1, -1)
 
-        return self._projector().fit_transform(x).reshape(-1)
+        if self._fitted_projector is None:  # The projection matrix is drawn once and shared by all instances.
+            self._fitted_projector = self._projector().fit(x)
+
+        return self._fitted_projector.transform(x).reshape(-1)
 
 
 class GaussianRandomProjector(BaseSKLearnProjector):
-- 
2.43.0


From 97eb8ea231c5216a8fad1226010ba7ffe5780dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 08/41] fix: LODA sparsifies its projections once instead of
 zeroing more of them at every fit

---
 pysad/models/loda.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysad/models/loda.py b/pysad/models/loda.py
index 5c034bb..bd211e2 100644
--- a/pysad/models/loda.py
+++ b/pysad/models/loda.py
@@ -39,14 +39,16 @@ class LODA(BaseModel):
             self.n_zero_components = self.num_features - \
                 np.int32(n_nonzero_components)
 
+            for i in range(self.n_random_cuts):
+                rands = np.random.permutation(self.num_features)[
+                    :self.n_zero_components]
+                self.projections_[i, rands] = 0.
+
             self.to_init = False
 
         X = X.reshape(1, -1)
 
         for i in range(self.n_random_cuts):
-            rands = np.random.permutation(self.num_features)[
-                :self.n_zero_components]
-            self.projections_[i, rands] = 0.
             projected_data = self.projections_[i, :].dot(X.T)
             self.histograms_[i, :], self.limits_[i, :] = np.histogram(
                 projected_data, bins=self.n_bins, density=False)
-- 
2.43.0


From 154e14f84a71629c3cd43363507fdd29d5217cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 09/41] fix: RobustRandomCutForest forgets the oldest instance
 and never exceeds tree_size

---
 pysad/models/robust_random_cut_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 9168233..76d4800 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
             object: Returns the self.
         """
         for tree in self.forest:
-            if len(tree.leaves) > self.tree_size:
+            if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
 
             tree.insert_point(X, index=self.index)
-- 
2.43.0


From dd75333a64ebf093d87d62c7d30dc7884bab2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 10/41] fix: Inqmad scores against the current density matrix,
 not the one of the first scoring call

---
 pysad/models/inqmad.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pysad/models/inqmad.py b/pysad/models/inqmad.py
index 9a9f167..4c420f2 100644
--- a/pysad/models/inqmad.py
+++ b/pysad/models/inqmad.py
@@ -242,7 +242,6 @@ class InqMeasurement():
 
   
 
-  @partial(jit, static_argnums=(0,))
   def predict(self, values):
     num_batches = InqMeasurement.obtain_params_batches(values, self.batch_size)
     results = None
-- 
2.43.0


From 390aacec772727df803f2acbfdbd78b3240a5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 11/41] fix: VarianceMeter never returns a negative variance

---
 pysad/statistics/variance_meter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/variance_meter.py b/pysad/statistics/variance_meter.py
index edfd3e5..17eedb6 100644
--- a/pysad/statistics/variance_meter.py
+++ b/pysad/statistics/variance_meter.py
@@ -1,3 +1,4 @@
+import numpy as np
 from pysad.core.base_statistic import UnivariateStatistic
 from pysad.statistics.count_meter import CountMeter
 from pysad.statistics.sum_meter import SumMeter
@@ -62,4 +63,4 @@ class VarianceMeter(UnivariateStatistic):
 
         var = (sum_squares - (sum**2) / count) / count
 
-        return var
+        return np.maximum(var, 0.0)  # Rounding must not yield a negative variance.
-- 
2.43.0


From d4a9039b514f5f78a8f74c2d8afc1bff38125996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 12/41] fix: RelativeEntropy keeps only the current window
 instead of the whole stream

---
 pysad/models/relative_entropy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index be824b2..5455cc5 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -58,6 +58,7 @@ class RelativeEntropy(BaseModel):
             object: Returns the self.
         """
         self.util.append(X)
+        self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
 
             # Extracting current window
-- 
2.43.0


From 77257b333801f54efd802b352571914761623435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 13/41] fix: KNNCAD keeps only the last dim values instead of
 the whole stream

---
 pysad/models/knn_cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d4db83f..d3c39b8 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -47,6 +47,7 @@ class KNNCAD(BaseModel):
             self.to_init = False
 
         self.buf.append(X[0])
+        self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
             return self
-- 
2.43.0


From 45b84393752915d439c4032e90a467449759c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 14/41] fix: ArrayStreamer draws its shuffled order when iter
 is called, so that Data.get_iterator honours its seed

---
 pysad/utils/array_streamer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysad/utils/array_streamer.py b/pysad/utils/array_streamer.py
index 58a502e..aba6d78 100644
--- a/pysad/utils/array_streamer.py
+++ b/pysad/utils/array_streamer.py
@@ -23,6 +23,9 @@ class ArrayStreamer(BaseStreamer):
         if self.shuffle:
             np.random.shuffle(indices)
 
+        return self._iter_indices(indices, X, y)
+
+    def _iter_indices(self, indices, X, y):
         if y is None:
             for i in indices:
                 yield X[i]
-- 
2.43.0


From eba410621c68512db0827084e0945f06c577e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 15/41] fix: KitNet supports streams with a single feature

---
 pysad/models/kitnet_model/corClust.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/kitnet_model/corClust.py b/pysad/models/kitnet_model/corClust.py
index 2514553..e7745a1 100644
--- a/pysad/models/kitnet_model/corClust.py
+++ b/pysad/models/kitnet_model/corClust.py
@@ -35,6 +35,8 @@ class corClust:
 
     # clusters the features together, having no more than maxClust features per cluster
     def cluster(self,maxClust):
+        if self.n == 1:  # a single feature forms the only cluster
+            return [[0]]
         D = self.corrDist()
         Z = linkage(D[np.triu_indices(self.n, 1)])  # create a linkage matrix based on the distance matrix
         if maxClust < 1:
-- 
2.43.0


From a237dc93b0c615125a17b346b4f18b5e5ff84fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:13 +0000
Subject: [PATCH 16/41] fix: KitNet scores 0.0 instead of NaN before its
 autoencoders are trained

---
 pysad/models/kitnet_model/dA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 09861d3..5ada6e2 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -112,7 +112,7 @@ class dA:
         return z
 
     def execute(self, x): #returns MSE of the reconstruction of x
-        if self.n < self.params.gracePeriod:
+        if self.n == 0 or self.n < self.params.gracePeriod:
             return 0.0
         else:
             # 0-1 normalize
-- 
2.43.0


From e0864c5d6c6cfe16cf0a852e85dacf7f7b2d2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:13 +0000
Subject: [PATCH 17/41] fix: xStream counts the reference window in the same
 bins that it scores with

---
 pysad/models/xstream.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 9dc8848..78882f7 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -59,6 +59,11 @@ class xStream(BaseModel):
             self.hs_chains.set_deltamax(deltamax)
             self.hs_chains.next_window()
 
+            # Recount the reference window since the bins depend on deltamax.
+            for ref_X in self.ref_window:
+                self.hs_chains.fit(ref_X)
+            self.hs_chains.next_window()
+
         return self
 
     def score_partial(self, X):
-- 
2.43.0


From 0443605c5627e376e22014550d6945a5ba199f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 18/41] fix: ReferenceWindowModel with an unlabelled initial
 window accepts labelled instances

---
 pysad/models/integrations/reference_window_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d29da6c..f3784f1 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -75,7 +75,7 @@ class ReferenceWindowModel(PYODModel):
             self.reference_window_X = self.reference_window_X[max(
                 0, len(self.reference_window_X) - self.window_size):]
 
-            if y is not None:
+            if y is not None and self.reference_window_y is not None:
                 self.reference_window_y = np.concatenate(
                     [self.reference_window_y, self.cur_window_y], axis=0)
                 self.reference_window_y = self.reference_window_y[max(
-- 
2.43.0


From 6abe444b02e67df97d602162a2b129f2d5801f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:44 +0000
Subject: [PATCH 19/41] fix: PandasStreamer draws its shuffled order when iter
 is called

---
 pysad/utils/pandas_streamer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pysad/utils/pandas_streamer.py b/pysad/utils/pandas_streamer.py
index ecd7a66..d6e542d 100644
--- a/pysad/utils/pandas_streamer.py
+++ b/pysad/utils/pandas_streamer.py
@@ -22,10 +22,8 @@ class PandasStreamer(BaseStreamer):
             y: Pandas dataframe for labels.
         """
         if y is None:
-            for x in self.array_iterator.iter(X.to_numpy()):
-                yield x
+            return self.array_iterator.iter(X.to_numpy())
         else:
             assert len(X) == len(y)
 
-            for x, yr in self.array_iterator.iter(X.to_numpy(), y.to_numpy()):
-                yield x, yr
+            return self.array_iterator.iter(X.to_numpy(), y.to_numpy())
-- 
2.43.0


From 2a1624e036b071d87d144193323924777e6bfca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:32 +0000
Subject: [PATCH 20/41] fix: LODA looks a value up in the histogram bin that
 counts it

---
 pysad/models/loda.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/models/loda.py b/pysad/models/loda.py
index bd211e2..92bb447 100644
--- a/pysad/models/loda.py
+++ b/pysad/models/loda.py
@@ -71,8 +71,8 @@ class LODA(BaseModel):
         pred_scores = np.zeros([X.shape[0], 1])
         for i in range(self.n_random_cuts):
             projected_data = self.projections_[i, :].dot(X.T)
-            inds = np.searchsorted(self.limits_[i, :self.n_bins - 1],
-                                   projected_data, side='left')
+            inds = np.searchsorted(self.limits_[i, 1:self.n_bins],
+                                   projected_data, side='right')
             pred_scores[:, 0] += -self.weights[i] * np.log(
                 self.histograms_[i, inds])
         pred_scores /= self.n_random_cuts
-- 
2.43.0


From d30ebe1628657b3b01998c8e309ec311b3e59ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:59 +0000
Subject: [PATCH 21/41] fix: Data loads text files with a single row

---
 pysad/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index 71e6036..c8ddb2e 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -53,7 +53,7 @@ class Data:
         Returns:
             X (np.float64 array of shape (num_instances, num_features)): Feature vectors.
         """
-        X = np.loadtxt(path, delimiter=",")
+        X = np.loadtxt(path, delimiter=",", ndmin=2)
 
         return X
 
-- 
2.43.0


From c9d7d34851edadf074964de8375cb54eced4874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:59 +0000
Subject: [PATCH 22/41] fix: Data loads only files ending in .mat as MAT files

---
 pysad/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/utils/data.py b/pysad/utils/data.py
index c8ddb2e..e94cd20 100644
--- a/pysad/utils/data.py
+++ b/pysad/utils/data.py
@@ -69,7 +69,7 @@ class Data:
         """
         data_path = os.path.join(self.data_base_path, data_file)
 
-        if ".mat" in data_file:
+        if data_file.endswith(".mat"):
             from scipy.io import loadmat
 
             f = loadmat(data_path)
-- 
2.43.0


From eb5477e21752128ffcfb12c90923ab743336f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:06 +0000
Subject: [PATCH 23/41] fix: ReferenceWindowModel without an initial window
 raised for window_size=1

---
 pysad/models/integrations/reference_window_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index f3784f1..d3ee62d 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -63,9 +63,9 @@ class ReferenceWindowModel(PYODModel):
         if y is not None:
             self.cur_window_y.append(y)
 
-        if not self.initial_ref_window and len(
-                self.cur_window_X) < self.window_size and (
-                self.reference_window_X is None or len(self.reference_window_X) < self.window_size):
+        if not self.initial_ref_window and (
+                self.reference_window_X is None or len(
+                    self.cur_window_X) < self.window_size and len(self.reference_window_X) < self.window_size):
             self.reference_window_X = self.cur_window_X.copy()
             self.reference_window_y = self.cur_window_y.copy() if y is not None else None
             self._fit_model()
-- 
2.43.0


From 19bcd66f29d94a947e5e986e4eb8afdb9aa856fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 24/41] fix: KitNet's decoder weights follow the encoder's in a
 copied or unpickled model

---
 pysad/models/kitnet_model/dA.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysad/models/kitnet_model/dA.py b/pysad/models/kitnet_model/dA.py
index 5ada6e2..340a99a 100644
--- a/pysad/models/kitnet_model/dA.py
+++ b/pysad/models/kitnet_model/dA.py
@@ -59,7 +59,6 @@ class dA:
 
         self.hbias = numpy.zeros(self.params.n_hidden)  # initialize h bias 0
         self.vbias = numpy.zeros(self.params.n_visible)  # initialize v bias 0
-        self.W_prime = self.W.T
 
 
     def get_corrupted_input(self, input, corruption_level):
@@ -75,7 +74,7 @@ class dA:
 
     # Decode
     def get_reconstructed_input(self, hidden):
-        return sigmoid(numpy.dot(hidden, self.W_prime) + self.vbias)
+        return sigmoid(numpy.dot(hidden, self.W.T) + self.vbias)
 
     def train(self, x):
         self.n = self.n + 1
-- 
2.43.0


From 50f886002cde3f162ab2e844880e38d528ade5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 25/41] fix: ExactStorm keeps its own copy of the instances in
 its window

---
 pysad/models/exact_storm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/exact_storm.py b/pysad/models/exact_storm.py
index 436a42e..6444470 100644
--- a/pysad/models/exact_storm.py
+++ b/pysad/models/exact_storm.py
@@ -28,6 +28,7 @@ class ExactStorm(BaseModel):
         Returns:
             object: self.
         """
+        X = np.array(X)
         self.window.update(X)
 
         return self
-- 
2.43.0


From 78f6930c376791bb300767826851c8403eeb50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 26/41] fix: ReferenceWindowModel keeps its own copy of the
 instances and the initial window

---
 pysad/models/integrations/reference_window_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysad/models/integrations/reference_window_model.py b/pysad/models/integrations/reference_window_model.py
index d3ee62d..07808ca 100644
--- a/pysad/models/integrations/reference_window_model.py
+++ b/pysad/models/integrations/reference_window_model.py
@@ -1,5 +1,6 @@
 from .pyod_model import PYODModel
 import numpy as np
+from copy import deepcopy
 
 
 class ReferenceWindowModel(PYODModel):
@@ -39,8 +40,8 @@ class ReferenceWindowModel(PYODModel):
         self.cur_window_X = []
         self.cur_window_y = []
 
-        self.reference_window_X = initial_window_X
-        self.reference_window_y = initial_window_y
+        self.reference_window_X = deepcopy(initial_window_X)
+        self.reference_window_y = deepcopy(initial_window_y)
 
         if self.reference_window_X is not None:
             self._fit_model()
@@ -58,6 +59,7 @@ class ReferenceWindowModel(PYODModel):
         Returns:
             object: self.
         """
+        X = np.array(X)
         self.cur_window_X.append(X)
 
         if y is not None:
-- 
2.43.0


From 2c9778906a0bb36408a96a0dce782c6c1f36a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 27/41] fix: MedianAbsoluteDeviation keeps its own copy of the
 fitted values

---
 pysad/models/median_absolute_deviation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/median_absolute_deviation.py b/pysad/models/median_absolute_deviation.py
index 3ff3015..364c848 100644
--- a/pysad/models/median_absolute_deviation.py
+++ b/pysad/models/median_absolute_deviation.py
@@ -1,5 +1,6 @@
 from pysad.core.base_model import BaseModel
 from pysad.statistics.median_meter import MedianMeter
+import numpy as np
 
 
 class MedianAbsoluteDeviation(BaseModel):
@@ -33,6 +34,7 @@ class MedianAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        X = np.array(X)
         self.median_meter.update(X)
         deviation = abs(X - self.median_meter.get())
         self.mad_meter.update(deviation)
-- 
2.43.0


From c9f4937dbf2dd60fba350ca6618c613fe42a2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 28/41] fix: StandardAbsoluteDeviation keeps its own copy of
 the fitted values

---
 pysad/models/standard_absolute_deviation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/standard_absolute_deviation.py b/pysad/models/standard_absolute_deviation.py
index bdfa4d8..e1d7a1c 100644
--- a/pysad/models/standard_absolute_deviation.py
+++ b/pysad/models/standard_absolute_deviation.py
@@ -2,6 +2,7 @@ from pysad.core.base_model import BaseModel
 from pysad.statistics.average_meter import AverageMeter
 from pysad.statistics.median_meter import MedianMeter
 from pysad.statistics.variance_meter import VarianceMeter
+import numpy as np
 
 
 class StandardAbsoluteDeviation(BaseModel):
@@ -40,6 +41,7 @@ class StandardAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
+        X = np.array(X)
         self.variance_meter.update(X)
         self.sub_meter.update(X)
 
-- 
2.43.0


From 76717f0597a1a24e33ff9c99a818f771db09e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 29/41] fix: RelativeEntropy keeps its own copy of the values
 in its window

---
 pysad/models/relative_entropy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysad/models/relative_entropy.py b/pysad/models/relative_entropy.py
index 5455cc5..8997bc8 100644
--- a/pysad/models/relative_entropy.py
+++ b/pysad/models/relative_entropy.py
@@ -57,6 +57,7 @@ class RelativeEntropy(BaseModel):
         Returns:
             object: Returns the self.
         """
+        X = np.array(X)
         self.util.append(X)
         self.util = self.util[-self.W:]
         if len(self.util) >= self.W:
-- 
2.43.0


From 65c277ba1b43c72d2416732377986c4474140305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 30/41] fix: RobustRandomCutForest keeps its own copy of the
 instances in its trees

---
 pysad/models/robust_random_cut_forest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 76d4800..84cba76 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -1,4 +1,5 @@
 from pysad.core.base_model import BaseModel
+import numpy as np
 
 
 class RobustRandomCutForest(BaseModel):
@@ -34,6 +35,7 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             object: Returns the self.
         """
+        X = np.array(X)
         for tree in self.forest:
             if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
-- 
2.43.0


From 983cca46e1d9f94e99d0ae0579444aff4f136482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:44 +0000
Subject: [PATCH 31/41] fix: SeasonalTrendDecomposer keeps its own copy of the
 fitted values

---
 pysad/transform/preprocessing/seasonal_trend_decomposer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/transform/preprocessing/seasonal_trend_decomposer.py b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
index 494e139..ea7e7cf 100644
--- a/pysad/transform/preprocessing/seasonal_trend_decomposer.py
+++ b/pysad/transform/preprocessing/seasonal_trend_decomposer.py
@@ -76,6 +76,7 @@ class SeasonalTrendDecomposer(BaseTransformer):
             self._init_seasonal_state(X)
 
         phase = self.num_seen % self.season_length
+        X = np.array(X)
         self.window.append(X)
         trend = self._trend()
 
@@ -119,6 +120,7 @@ class SeasonalTrendDecomposer(BaseTransformer):
             self._init_seasonal_state(X)
 
         phase = self.num_seen % self.season_length
+        X = np.array(X)
         self.window.append(X)
         trend = self._trend()
 
-- 
2.43.0


From 0c11c99e090e6762b00fd281e3fab69e4581225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 32/41] fix: LocalOutlierProbability keeps its own copy of its
 initial data

---
 pysad/models/loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysad/models/loop.py b/pysad/models/loop.py
index 4e5b299..2b2695a 100644
--- a/pysad/models/loop.py
+++ b/pysad/models/loop.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from pysad.core.base_model import BaseModel
 
 
@@ -13,6 +14,7 @@ class LocalOutlierProbability(BaseModel):
 
     def __init__(self, initial_X, num_neighbors=10, extent=3):
         from PyNomaly import loop
+        initial_X = deepcopy(initial_X)
 
         self.model = loop.LocalOutlierProbability(
             initial_X, extent=extent, n_neighbors=num_neighbors).fit()
-- 
2.43.0


From dfb5391400df95018cb103f6cd6bf8cc6589add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 33/41] fix: KNNCAD keeps its shingle in double precision, so
 that narrow integer streams do not overflow

---
 pysad/models/knn_cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/knn_cad.py b/pysad/models/knn_cad.py
index d3c39b8..f889ed1 100644
--- a/pysad/models/knn_cad.py
+++ b/pysad/models/knn_cad.py
@@ -46,7 +46,7 @@ class KNNCAD(BaseModel):
             self.sigma = np.diag(np.ones(self.dim))
             self.to_init = False
 
-        self.buf.append(X[0])
+        self.buf.append(np.float64(X[0]))
         self.buf = self.buf[-self.dim:]
         self.record_count += 1
         if len(self.buf) < self.dim:
-- 
2.43.0


From 2acd0bed08fcc25ba81eda6e5812e2ecb2a9a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 34/41] fix: MedianAbsoluteDeviation works in double precision,
 so that narrow integer streams do not overflow

---
 pysad/models/median_absolute_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/median_absolute_deviation.py b/pysad/models/median_absolute_deviation.py
index 364c848..f929e0c 100644
--- a/pysad/models/median_absolute_deviation.py
+++ b/pysad/models/median_absolute_deviation.py
@@ -34,7 +34,7 @@ class MedianAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
-        X = np.array(X)
+        X = np.array(X, dtype=np.float64)
         self.median_meter.update(X)
         deviation = abs(X - self.median_meter.get())
         self.mad_meter.update(deviation)
-- 
2.43.0


From 0d8dc8cfe307787384aa9806c10a459cff1b2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 35/41] fix: StandardAbsoluteDeviation works in double
 precision, so that narrow integer streams do not overflow

---
 pysad/models/standard_absolute_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/standard_absolute_deviation.py b/pysad/models/standard_absolute_deviation.py
index e1d7a1c..3a12746 100644
--- a/pysad/models/standard_absolute_deviation.py
+++ b/pysad/models/standard_absolute_deviation.py
@@ -41,7 +41,7 @@ class StandardAbsoluteDeviation(BaseModel):
         """
         assert len(X) == 1  # Only for time series
 
-        X = np.array(X)
+        X = np.array(X, dtype=np.float64)
         self.variance_meter.update(X)
         self.sub_meter.update(X)
 
-- 
2.43.0


From eebeb2775bc229dab1160533983d3e83ed14cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 36/41] fix: SumSquaresMeter squares in double precision, so
 that narrow integers do not overflow

---
 pysad/statistics/sum_squares_meter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysad/statistics/sum_squares_meter.py b/pysad/statistics/sum_squares_meter.py
index cef2352..2df0a43 100644
--- a/pysad/statistics/sum_squares_meter.py
+++ b/pysad/statistics/sum_squares_meter.py
@@ -1,4 +1,5 @@
 from pysad.core.base_statistic import UnivariateStatistic
+import numpy as np
 
 
 class SumSquaresMeter(UnivariateStatistic):
@@ -22,7 +23,7 @@ class SumSquaresMeter(UnivariateStatistic):
         Returns:
             object: self.
         """
-        self.sum_squares += num**2
+        self.sum_squares += np.float64(num)**2
         self.num_items += 1
 
         return self
@@ -36,7 +37,7 @@ class SumSquaresMeter(UnivariateStatistic):
         Returns:
             object: self.
         """
-        self.sum_squares -= num**2
+        self.sum_squares -= np.float64(num)**2
         self.num_items -= 1
 
         return self
-- 
2.43.0


From 49ea982b1d1121652294bed1dc507f9672c40018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 37/41] fix: MedianMeter averages the middle pair in double
 precision, so that narrow integers do not overflow

---
 pysad/statistics/median_meter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/statistics/median_meter.py b/pysad/statistics/median_meter.py
index bee26a4..0a2b5c2 100644
--- a/pysad/statistics/median_meter.py
+++ b/pysad/statistics/median_meter.py
@@ -1,5 +1,6 @@
 from heapq import heappush
 from pysad.core.base_statistic import UnivariateStatistic
+import numpy as np
 
 
 class MedianMeter(UnivariateStatistic):
@@ -50,6 +51,6 @@ class MedianMeter(UnivariateStatistic):
         """
         self.lst = sorted(self.lst)
         if self.num_items % 2 == 0:
-            return (self.lst[self.num_items // 2] + self.lst[self.num_items // 2 - 1]) / 2
+            return (np.float64(self.lst[self.num_items // 2]) + self.lst[self.num_items // 2 - 1]) / 2
         else:
             return self.lst[self.num_items // 2]
-- 
2.43.0


From 4ab3c8afde33181feb0325c99238d45e1ab8ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 38/41] fix: RSHash numbers its cells with 64-bit integers, so
 that large values do not all fall into one cell

---
 pysad/models/rs_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysad/models/rs_hash.py b/pysad/models/rs_hash.py
index b3645b2..beb0051 100644
--- a/pysad/models/rs_hash.py
+++ b/pysad/models/rs_hash.py
@@ -66,7 +66,7 @@ class RSHash(BaseModel):
                 (X[np.array(self.V[r])] + np.array(self.alpha[r])) / float(self.f[r]))
 
             mod_entry = np.insert(Y, 0, r)
-            mod_entry = tuple(mod_entry.astype(np.int32))
+            mod_entry = tuple(mod_entry.astype(np.int64))
 
             c = []
             for w in range(len(self.cmsketches)):
-- 
2.43.0


From 71eb838585c526c6bc9c45dc62ef61a56240a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 39/41] fix: xStream numbers its bins with 64-bit integers, so
 that large values do not all fall into one bin

---
 pysad/models/xstream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysad/models/xstream.py b/pysad/models/xstream.py
index 78882f7..96ea7e4 100644
--- a/pysad/models/xstream.py
+++ b/pysad/models/xstream.py
@@ -124,7 +124,7 @@ class _Chain:
             if self.is_first_window:
                 cmsketch = self.cmsketches[depth]
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin).astype(np.int64))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -137,7 +137,7 @@ class _Chain:
                 cmsketch = self.cmsketches_cur[depth]
 
                 for prebin in prebins:
-                    l_index = tuple(np.floor(prebin).astype(np.int32))
+                    l_index = tuple(np.floor(prebin).astype(np.int64))
                     if l_index not in cmsketch:
                         cmsketch[l_index] = 0
                     cmsketch[l_index] += 1
@@ -162,7 +162,7 @@ class _Chain:
 
             cmsketch = self.cmsketches[depth]
             for i, prebin in enumerate(prebins):
-                l_index = tuple(np.floor(prebin).astype(np.int32))
+                l_index = tuple(np.floor(prebin).astype(np.int64))
                 if l_index not in cmsketch:
                     scores[i, depth] = 0.0
                 else:
-- 
2.43.0


From 9d65b4bb7976359649ba0119f997118ecd03394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 40/41] fix: HalfSpaceTrees halves the ranges of integer bounds
 exactly, as those of floating-point bounds

---
 pysad/models/half_space_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysad/models/half_space_trees.py b/pysad/models/half_space_trees.py
index 2aaf177..119a85b 100644
--- a/pysad/models/half_space_trees.py
+++ b/pysad/models/half_space_trees.py
@@ -26,8 +26,8 @@ class HalfSpaceTrees(BaseModel):
         self.window_size = window_size
         self.max_depth = max_depth
         self.num_trees = num_trees
-        self.feature_maxes = feature_maxes
-        self.feature_mins = feature_mins
+        self.feature_maxes = np.asarray(feature_maxes, dtype=np.float64)
+        self.feature_mins = np.asarray(feature_mins, dtype=np.float64)
 
         self.num_dimensions = len(self.feature_maxes)
 
-- 
2.43.0


From 81d5998c9137425a4db00aa576cb9af067140f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:43 +0000
Subject: [PATCH 41/41] fix: RobustRandomCutForest grows its trees on
 floating-point points, so that integer instances do not truncate the boxes of
 later ones

---
 pysad/models/robust_random_cut_forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysad/models/robust_random_cut_forest.py b/pysad/models/robust_random_cut_forest.py
index 84cba76..db1bfe8 100644
--- a/pysad/models/robust_random_cut_forest.py
+++ b/pysad/models/robust_random_cut_forest.py
@@ -35,7 +35,7 @@ class RobustRandomCutForest(BaseModel):
         Returns:
             object: Returns the self.
         """
-        X = np.array(X)
+        X = np.array(X, dtype=np.float64)
         for tree in self.forest:
             if len(tree.leaves) >= self.tree_size:
                 tree.forget_point(self.index - self.tree_size)
@@ -56,6 +56,7 @@ class RobustRandomCutForest(BaseModel):
             float: The anomalousness score of the input instance.
         """
 
+        X = np.asarray(X, dtype=np.float64)
         score = 0.0
         for tree in self.forest:
             leaf = tree.find_duplicate(X)
-- 
2.43.0

