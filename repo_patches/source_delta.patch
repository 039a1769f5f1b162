From 0635ce99f8a1ca7dee90473bc51a8fabc6a42acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 01/20] fix: hyperplane split candidates come from the sorted
 projections

The candidate positions were computed from consecutive rows in input order but
used as positions in sorted order, so a split could fall between two points with
the same projection and admissible splits were missed.
---
 bayesian_decision_tree/hyperplane_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/hyperplane_optimization.py b/bayesian_decision_tree/hyperplane_optimization.py
index 7608640..302abc3 100644
--- a/bayesian_decision_tree/hyperplane_optimization.py
+++ b/bayesian_decision_tree/hyperplane_optimization.py
@@ -50,7 +50,7 @@ class HyperplaneOptimizationFunction:
         # compute distance of all points to the hyperplane: https://mathinsight.org/distance_point_plane
         projections = self.X @ hyperplane_normal  # up to an additive constant which doesn't matter to distance ordering
         sort_indices = np.argsort(projections)
-        split_indices = 1 + np.where(np.abs(np.diff(projections)) > self.split_precision)[0]  # we can only split between *different* data points
+        split_indices = 1 + np.where(np.abs(np.diff(projections[sort_indices])) > self.split_precision)[0]  # we can only split between *different* data points
         if len(split_indices) == 0:
             # no split possible along this dimension
             return -self.log_p_data_no_split
-- 
2.43.0


From 00dbc9fc12907fbe6414c7e0517ebf5867943d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 02/20] fix: prediction_paths follows the right rows below the
 second level

The child was given positions within the current row subset instead of row
indices of X, so from depth 3 on the paths of the wrong rows were reported.
---
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 84a8b7f..d05cb01 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -63,11 +63,11 @@ class BasePerpendicularTree(BaseTree, ABC):
 
             if len(indices1) > 0 and not self.child1_.is_leaf():
                 paths1 = [paths[i] for i in indices1]
-                self.child1_._update_prediction_paths(X, indices1, paths1)
+                self.child1_._update_prediction_paths(X, indices[indices1], paths1)
 
             if len(indices2) > 0 and not self.child2_.is_leaf():
                 paths2 = [paths[i] for i in indices2]
-                self.child2_._update_prediction_paths(X, indices2, paths2)
+                self.child2_._update_prediction_paths(X, indices[indices2], paths2)
 
     @staticmethod
     def _create_merged_paths_array(n_rows):
-- 
2.43.0


From dcaa4980c8d7a23fa0371ab29f9ec7a5b1a131fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 03/20] fix: set n_dim_ on leaf children that are not trained
 further

predict(), predict_proba() etc. on such a node failed with AttributeError.
---
 bayesian_decision_tree/base_hyperplane.py    | 2 ++
 bayesian_decision_tree/base_perpendicular.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 27e0f1d..eba0922 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -108,12 +108,14 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 else:
                     self.child1_.posterior_ = self._compute_posterior(y1, prior)
                     self.child1_.n_data_ = n_data1
+                    self.child1_.n_dim_ = n_dim
 
                 if n_data2 > 1 and len(np.unique(y2)) > 1:
                     self.child2_._fit(X2, y2, verbose, feature_names, 'front')
                 else:
                     self.child2_.posterior_ = self._compute_posterior(y2, prior)
                     self.child2_.n_data_ = n_data2
+                    self.child2_.n_dim_ = n_dim
 
         # compute posterior
         self.n_dim_ = X.shape[1]
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index d05cb01..c6bbfab 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -172,6 +172,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             else:
                 self.child1_.posterior_ = self._compute_posterior(y1, prior)
                 self.child1_.n_data_ = n_data1
+                self.child1_.n_dim_ = n_dim
 
             y2 = y[indices2]
             if n_data2 > 1 and len(np.unique(y2)) > 1:
@@ -179,6 +180,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             else:
                 self.child2_.posterior_ = self._compute_posterior(y2, prior)
                 self.child2_.n_data_ = n_data2
+                self.child2_.n_dim_ = n_dim
         else:
             self._erase_split_info_base()
             self._erase_split_info()
-- 
2.43.0


From e02238d97ba15364fb04c386fb019b6c42675597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 04/20] fix: the posterior of every leaf child updates that
 child's own prior

Leaf children that are not trained further used the parent's prior, unlike all
other nodes, so for delta > 0 their posterior did not belong to their prior.
---
 bayesian_decision_tree/base_hyperplane.py    | 4 ++--
 bayesian_decision_tree/base_perpendicular.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index eba0922..9dc1503 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -106,14 +106,14 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 if n_data1 > 1 and len(np.unique(y1)) > 1:
                     self.child1_._fit(X1, y1, verbose, feature_names, 'back ')
                 else:
-                    self.child1_.posterior_ = self._compute_posterior(y1, prior)
+                    self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                     self.child1_.n_data_ = n_data1
                     self.child1_.n_dim_ = n_dim
 
                 if n_data2 > 1 and len(np.unique(y2)) > 1:
                     self.child2_._fit(X2, y2, verbose, feature_names, 'front')
                 else:
-                    self.child2_.posterior_ = self._compute_posterior(y2, prior)
+                    self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                     self.child2_.n_data_ = n_data2
                     self.child2_.n_dim_ = n_dim
 
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index c6bbfab..0e13da5 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -170,7 +170,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             if n_data1 > 1 and len(np.unique(y1)) > 1:
                 self.child1_._fit(X, y, verbose, feature_names, 'LHS', sort_indices_by_dim_1)
             else:
-                self.child1_.posterior_ = self._compute_posterior(y1, prior)
+                self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                 self.child1_.n_data_ = n_data1
                 self.child1_.n_dim_ = n_dim
 
@@ -178,7 +178,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             if n_data2 > 1 and len(np.unique(y2)) > 1:
                 self.child2_._fit(X, y, verbose, feature_names, 'RHS', sort_indices_by_dim_2)
             else:
-                self.child2_.posterior_ = self._compute_posterior(y2, prior)
+                self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                 self.child2_.n_data_ = n_data2
                 self.child2_.n_dim_ = n_dim
         else:
-- 
2.43.0


From eafbac9c34680ec14d270aca024c854cf04d3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 05/20] fix: hyperplane trees honour delta

The documented prior-strengthening parameter was ignored by hyperplane trees
(delta=0 was hard-coded), and the default of HyperplaneClassificationTree was
None instead of the documented 0.
---
 bayesian_decision_tree/base_hyperplane.py | 4 ++--
 bayesian_decision_tree/classification.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 9dc1503..80a3ee0 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -82,8 +82,8 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 n_data2 = X2.shape[0]
 
                 # compute posteriors of children and priors for further splitting
-                prior_child1 = self._compute_posterior(y1, prior, delta=0)
-                prior_child2 = self._compute_posterior(y2, prior, delta=0)
+                prior_child1 = self._compute_posterior(y1, prior, self.delta)
+                prior_child2 = self._compute_posterior(y2, prior, self.delta)
 
                 # store split info, create children and continue training them if there's data left to split
                 self.best_hyperplane_normal_ = optimization_function.best_hyperplane_normal
diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index a60bae2..fa302e0 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -259,7 +259,7 @@ class HyperplaneClassificationTree(BaseHyperplaneTree, BaseClassificationTree):
     See `demo_classification_perpendicular.py`.
     """
 
-    def __init__(self, partition_prior=0.99, prior=None, delta=None, prune=False, optimizer=None, split_precision=0.0, level=0):
+    def __init__(self, partition_prior=0.99, prior=None, delta=0, prune=False, optimizer=None, split_precision=0.0, level=0):
         child_type = HyperplaneClassificationTree
         BaseHyperplaneTree.__init__(self, partition_prior, prior, delta, prune, child_type, False, optimizer, split_precision, level)
         BaseClassificationTree.__init__(self, partition_prior, prior, delta, prune, child_type, split_precision, level)
-- 
2.43.0


From d95e1a4f704f8c5b1bd2d0a1fa3192f609f99de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 06/20] fix: weight the data by delta consistently in the
 regression posterior

kappa, mu and alpha count each target as delta observations, but the last term of
beta divided by kappa + n instead of kappa + n*delta.
---
 bayesian_decision_tree/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index d3aa5f7..14877dd 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -99,7 +99,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
         mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post
         alpha_post = alpha + 0.5*n_delta
         beta_post = beta + 0.5 * delta * (y_squared_sum - y_sum ** 2 / n) + 0.5 * kappa * n_delta * (
-                    y_sum / n - mu) ** 2 / (kappa + n)
+                    y_sum / n - mu) ** 2 / (kappa + n_delta)
 
         return mu_post, kappa_post, alpha_post, beta_post
 
-- 
2.43.0


From cd0e87c5e98279467ff38c83f9dbe126e77bb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 07/20] fix: pruning never changes predictions

Two leaves with identical predictions were merged even if the merged node itself
predicts something else (asymmetric prior, or regression in general).
---
 bayesian_decision_tree/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 91af875..255cec8 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -152,7 +152,7 @@ class BaseTree(ABC, BaseEstimator):
         n_leaves_start = self.get_n_leaves()
 
         if self.child1_.is_leaf() and self.child2_.is_leaf():
-            if self.child1_._predict_leaf() == self.child2_._predict_leaf():
+            if self.child1_._predict_leaf() == self.child2_._predict_leaf() == self._predict_leaf():
                 # same prediction (class if classification, value if regression) -> no need to split
                 self._erase_split_info_base()
                 self._erase_split_info()
-- 
2.43.0


From abea0e1bca54ef926f0c9bc5dddb554e83dd86fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 08/20] fix: feature_importance of a tree without splits is
 zero, not NaN

---
 bayesian_decision_tree/base.py            | 4 +++-
 bayesian_decision_tree/base_hyperplane.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 255cec8..25218f2 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -118,7 +118,9 @@ class BaseTree(ABC, BaseEstimator):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        feature_importance /= feature_importance.sum()
+        total = feature_importance.sum()
+        if total > 0:
+            feature_importance /= total
 
         return feature_importance
 
diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 80a3ee0..efc6838 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -138,7 +138,9 @@ class BaseHyperplaneTree(BaseTree, ABC):
 
         feature_importance = np.zeros(self.n_dim_)
         self._update_feature_importance(feature_importance)
-        feature_importance /= feature_importance.sum()
+        total = feature_importance.sum()
+        if total > 0:
+            feature_importance /= total
 
         return feature_importance
 
-- 
2.43.0


From 17726def158e4e6569dba0afcf85cc11af57e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 09/20] fix: accept any array-like target, such as a pandas
 Series

A Series was indexed by label instead of position, which failed or silently
trained on the wrong targets.
---
 bayesian_decision_tree/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 25218f2..d29c6b1 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -54,8 +54,7 @@ class BaseTree(ABC, BaseEstimator):
         """
 
         # validation and input transformation
-        if isinstance(y, list):
-            y = np.array(y)
+        y = np.asarray(y)
 
         y = y.squeeze()
         y = self._ensure_float64(y)
-- 
2.43.0


From 341a383a264bc232cace0e3714f94c3cd878473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 10/20] fix: route every row to exactly one child, also if a
 value is NaN

Rows with NaN went to neither child, so predict() answered 0 for them and
predict_proba() failed. In training they are sorted last, i.e. to the right.
---
 bayesian_decision_tree/base_hyperplane.py    | 4 ++--
 bayesian_decision_tree/base_perpendicular.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index efc6838..87a20c5 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -63,7 +63,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
             projections = X @ optimization_function.best_hyperplane_normal \
                           - np.dot(optimization_function.best_hyperplane_normal, optimization_function.best_hyperplane_origin)
             indices1 = np.where(projections < 0)[0]
-            indices2 = np.where(projections >= 0)[0]
+            indices2 = np.where(~(projections < 0))[0]
 
             if len(indices1) > 0 and len(indices2) > 0:
                 """
@@ -125,7 +125,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
     def _compute_child1_and_child2_indices(self, X, indices, dense):
         projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)
         indices1 = np.where(projections < 0)[0]
-        indices2 = np.where(projections >= 0)[0]
+        indices2 = np.where(~(projections < 0))[0]
 
         return indices1, indices2
 
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 0e13da5..1cb6e31 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -196,7 +196,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             X_split = self._to_array(X_split)
 
         indices1 = np.where(X_split < self.split_value_)[0]
-        indices2 = np.where(X_split >= self.split_value_)[0]
+        indices2 = np.where(~(X_split < self.split_value_))[0]
 
         return indices1, indices2
 
-- 
2.43.0


From 4c507c50a0c9e2576a409ff7bfa0466716ba2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:09 +0000
Subject: [PATCH 11/20] fix: integer and boolean data trains the same tree as
 its float64 equivalent

Integers were passed through and overflowed in the computation of split values
(X) and squared sums (y). Sparse boolean matrices could not be converted at all.
---
 bayesian_decision_tree/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index d29c6b1..8e0537f 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -225,15 +225,13 @@ class BaseTree(ABC, BaseEstimator):
 
     @staticmethod
     def _ensure_float64(data):
-        if data.dtype in (
-                np.int8, np.int16, np.int32, np.int64,
-                np.uint8, np.uint16, np.uint32, np.uint64,
-                np.float32, np.float64):
+        if data.dtype in (np.float32, np.float64):
             return data
 
-        # convert to np.float64 for performance reasons (matrices with floats but of type object are very slow)
+        # convert to np.float64 because integers would overflow (e.g. when computing the middle between two points of
+        # type np.uint8), and for performance reasons (matrices with floats but of type object are very slow)
         X_float = data.astype(np.float64)
-        if not np.all(data == X_float):
+        if (data != X_float).sum() > 0:
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
         return X_float
-- 
2.43.0


From c47d2e9613562df31da6d7a7c0c701a10d267768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:09 +0000
Subject: [PATCH 12/20] fix: classification trees can be trained with the
 default prior

The target check required an explicit prior, and the default prior had one entry
per feature instead of one per class.
---
 bayesian_decision_tree/base.py               | 2 +-
 bayesian_decision_tree/base_hyperplane.py    | 2 +-
 bayesian_decision_tree/base_perpendicular.py | 3 +--
 bayesian_decision_tree/classification.py     | 8 ++++----
 bayesian_decision_tree/regression.py         | 4 ++--
 5 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index 8e0537f..f999ad5 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -295,7 +295,7 @@ class BaseTree(ABC, BaseEstimator):
         self.best_log_p_data_split_ = None
 
     @abstractmethod
-    def _get_prior(self, n_data, n_dim):
+    def _get_prior(self, y):
         raise NotImplementedError
 
     @abstractmethod
diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index 87a20c5..c32788e 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -22,7 +22,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
     def _fit(self, X, y, verbose, feature_names, side_name):
         n_data = X.shape[0]
         n_dim = X.shape[1]
-        prior = self._get_prior(n_data, n_dim)
+        prior = self._get_prior(y)
 
         if verbose:
             name = 'level {} {}'.format(self.level, side_name)
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 1cb6e31..2a1f2c6 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -99,8 +99,8 @@ class BasePerpendicularTree(BaseTree, ABC):
                 sort_indices_by_dim[dim] = np.argsort(X_dim)
 
         # compute data likelihood of not splitting and remember it as the best option so far
-        prior = self._get_prior(n_data, n_dim)
         y_any = y[sort_indices_by_dim[0]]  # any dim works as the order doesn't matter
+        prior = self._get_prior(y_any)
         log_p_data_no_split = self._compute_log_p_data_no_split(y_any, prior)
         best_log_p_data_split = log_p_data_no_split
 
@@ -136,7 +136,6 @@ class BasePerpendicularTree(BaseTree, ABC):
             indices2 = sort_indices_by_dim[best_split_dimension, best_split_index:]
 
             # compute posteriors of children and priors for further splitting
-            prior = self._get_prior(n_data, n_dim)
             prior_child1 = tuple(self._compute_posterior(y[indices1], prior, self.delta)) if self.delta != 0 else prior
             prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 else prior
 
diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index fa302e0..0490d17 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -49,16 +49,16 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
         if y.ndim != 1:
             raise ValueError('y should have 1 dimension but has {}'.format(y.ndim))
 
-        n_classes = len(self.prior)
+        n_classes = len(self.prior) if self.prior is not None else len(np.unique(y))
         if not np.all(np.unique(y) == np.arange(0, n_classes)):
             raise ValueError('Expected target values 0..{} but found {}..{}'.format(n_classes - 1, y.min(), y.max()))
 
-    def _get_prior(self, n_data, n_dim):
+    def _get_prior(self, y):
         if self.prior is not None:
             return self.prior
         else:
-            prior_pseudo_observation_count = max(1, n_data//100)
-            return prior_pseudo_observation_count * np.ones(n_dim)
+            prior_pseudo_observation_count = max(1, len(y)//100)
+            return prior_pseudo_observation_count * np.ones(len(np.unique(y)))
 
     def _compute_log_p_data_no_split(self, y, prior):
         posterior = self._compute_posterior(y, prior)
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index 14877dd..b3257d9 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -67,12 +67,12 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
         return log_p_prior + log_p_data1 + log_p_data2
 
-    def _get_prior(self, n_data, n_dim):
+    def _get_prior(self, y):
         if self.prior is not None:
             return self.prior
         else:
             # TODO: use actual data to compute mu and tau
-            prior_pseudo_observation_count = max(1, n_data//100)
+            prior_pseudo_observation_count = max(1, len(y)//100)
             mu = 0
             tau = 1
             kappa = prior_pseudo_observation_count
-- 
2.43.0


From ad91e4e10f6ccdbf65f9861629f1acde1aa9bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 13/20] fix: the split value separates the two points being
 split for all floats

The middle of two adjacent floats rounds to one of them, possibly the lower one
which was then predicted on the upper side, and the sum of large values overflowed.
---
 bayesian_decision_tree/base_perpendicular.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 2a1f2c6..7a66383 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -142,10 +142,12 @@ class BasePerpendicularTree(BaseTree, ABC):
             # store split info, create children and continue training them if there's data left to split
             self.split_dimension_ = best_split_dimension
             self.split_feature_name_ = feature_names[best_split_dimension]
-            self.split_value_ = 0.5 * (
-                    X[indices1[-1], best_split_dimension]
-                    + X[indices2[0], best_split_dimension]
-            )
+            value1 = X[indices1[-1], best_split_dimension]
+            value2 = X[indices2[0], best_split_dimension]
+            self.split_value_ = 0.5 * value1 + 0.5 * value2
+            if not value1 < self.split_value_:
+                # no representable value in between, so value1's side wouldn't be '<'
+                self.split_value_ = value2
             self.log_p_data_no_split_ = log_p_data_no_split
             self.best_log_p_data_split_ = best_log_p_data_split
 
-- 
2.43.0


From 849bc9f9dbea61a73fc1f4fdf0fa460e1c640007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 14/20] fix: raw leaf data of a tree with the default prior

The root's prior parameter is None in that case; report the prior that was used.
---
 bayesian_decision_tree/base_hyperplane.py    | 3 +++
 bayesian_decision_tree/base_perpendicular.py | 3 +++
 bayesian_decision_tree/classification.py     | 2 +-
 bayesian_decision_tree/regression.py         | 2 +-
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/base_hyperplane.py b/bayesian_decision_tree/base_hyperplane.py
index c32788e..bc48d17 100644
--- a/bayesian_decision_tree/base_hyperplane.py
+++ b/bayesian_decision_tree/base_hyperplane.py
@@ -106,6 +106,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 if n_data1 > 1 and len(np.unique(y1)) > 1:
                     self.child1_._fit(X1, y1, verbose, feature_names, 'back ')
                 else:
+                    self.child1_.prior_ = prior_child1
                     self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                     self.child1_.n_data_ = n_data1
                     self.child1_.n_dim_ = n_dim
@@ -113,6 +114,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
                 if n_data2 > 1 and len(np.unique(y2)) > 1:
                     self.child2_._fit(X2, y2, verbose, feature_names, 'front')
                 else:
+                    self.child2_.prior_ = prior_child2
                     self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                     self.child2_.n_data_ = n_data2
                     self.child2_.n_dim_ = n_dim
@@ -120,6 +122,7 @@ class BaseHyperplaneTree(BaseTree, ABC):
         # compute posterior
         self.n_dim_ = X.shape[1]
         self.n_data_ = n_data
+        self.prior_ = prior
         self.posterior_ = self._compute_posterior(y, prior)
 
     def _compute_child1_and_child2_indices(self, X, indices, dense):
diff --git a/bayesian_decision_tree/base_perpendicular.py b/bayesian_decision_tree/base_perpendicular.py
index 7a66383..f558458 100644
--- a/bayesian_decision_tree/base_perpendicular.py
+++ b/bayesian_decision_tree/base_perpendicular.py
@@ -171,6 +171,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             if n_data1 > 1 and len(np.unique(y1)) > 1:
                 self.child1_._fit(X, y, verbose, feature_names, 'LHS', sort_indices_by_dim_1)
             else:
+                self.child1_.prior_ = prior_child1
                 self.child1_.posterior_ = self._compute_posterior(y1, prior_child1)
                 self.child1_.n_data_ = n_data1
                 self.child1_.n_dim_ = n_dim
@@ -179,6 +180,7 @@ class BasePerpendicularTree(BaseTree, ABC):
             if n_data2 > 1 and len(np.unique(y2)) > 1:
                 self.child2_._fit(X, y, verbose, feature_names, 'RHS', sort_indices_by_dim_2)
             else:
+                self.child2_.prior_ = prior_child2
                 self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)
                 self.child2_.n_data_ = n_data2
                 self.child2_.n_dim_ = n_dim
@@ -189,6 +191,7 @@ class BasePerpendicularTree(BaseTree, ABC):
         # compute posterior
         self.n_dim_ = n_dim
         self.n_data_ = n_data
+        self.prior_ = prior
         self.posterior_ = self._compute_posterior(y_any, prior)  # any dim works as the order doesn't matter
 
     def _compute_child1_and_child2_indices(self, X, indices, dense):
diff --git a/bayesian_decision_tree/classification.py b/bayesian_decision_tree/classification.py
index 0490d17..9e11be7 100755
--- a/bayesian_decision_tree/classification.py
+++ b/bayesian_decision_tree/classification.py
@@ -113,7 +113,7 @@ class BaseClassificationTree(BaseTree, ABC, ClassifierMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([self.prior_, self.posterior_])
 
 
 class PerpendicularClassificationTree(BasePerpendicularTree, BaseClassificationTree):
diff --git a/bayesian_decision_tree/regression.py b/bayesian_decision_tree/regression.py
index b3257d9..e5ee704 100755
--- a/bayesian_decision_tree/regression.py
+++ b/bayesian_decision_tree/regression.py
@@ -121,7 +121,7 @@ class BaseRegressionTree(BaseTree, ABC, RegressorMixin):
 
     def _get_raw_leaf_data_internal(self):
         # prior and posterior raw data
-        return np.array([self.prior, self.posterior_])
+        return np.array([self.prior_, self.posterior_])
 
 
 class PerpendicularRegressionTree(BasePerpendicularTree, BaseRegressionTree):
-- 
2.43.0


From 0e43ba56c7dfe1e19d3f8433f18067be76d844c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 15/20] fix: compute the version at run time with the project's
 versioneer settings

_version.py was generated for another project, so the version of a checkout
differed from the one setup.py computes (style, tag prefix).
---
 bayesian_decision_tree/_version.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_decision_tree/_version.py b/bayesian_decision_tree/_version.py
index bd7951c..d1249f5 100644
--- a/bayesian_decision_tree/_version.py
+++ b/bayesian_decision_tree/_version.py
@@ -40,10 +40,10 @@ def get_config():
     # _version.py
     cfg = VersioneerConfig()
     cfg.VCS = "git"
-    cfg.style = ""
-    cfg.tag_prefix = ""
-    cfg.parentdir_prefix = "hadoop-utils-"
-    cfg.versionfile_source = "hadoop_utils/_version.py"
+    cfg.style = "pep440-pre"
+    cfg.tag_prefix = "ver-"
+    cfg.parentdir_prefix = "bayesian_decision_tree"
+    cfg.versionfile_source = "bayesian_decision_tree/_version.py"
     cfg.verbose = False
     return cfg
 
-- 
2.43.0


From 9dfb20916c168d6230499f7e78260ec3e9125289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 16/20] fix: importing the package never fails because of a
 failing git command

---
 bayesian_decision_tree/_version.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayesian_decision_tree/_version.py b/bayesian_decision_tree/_version.py
index d1249f5..81b2d76 100644
--- a/bayesian_decision_tree/_version.py
+++ b/bayesian_decision_tree/_version.py
@@ -295,11 +295,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From 07459698e15d19f149ff26e22571b6d86e3ae448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:02:20 +0000
Subject: [PATCH 17/20] fix: importing the package never fails because git
 prints no commit count

---
 bayesian_decision_tree/_version.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/_version.py b/bayesian_decision_tree/_version.py
index 81b2d76..606b3a4 100644
--- a/bayesian_decision_tree/_version.py
+++ b/bayesian_decision_tree/_version.py
@@ -297,7 +297,10 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
                                     cwd=root)
         if count_out is None:
             raise NotThisMethod("'git rev-list' failed")
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except ValueError:
+            raise NotThisMethod("'git rev-list' did not print a number")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-- 
2.43.0


From eb5b48f2c104defd93282b23a98632e74541ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:02:20 +0000
Subject: [PATCH 18/20] fix: importing the package never fails because git
 prints undecodable text

---
 bayesian_decision_tree/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/_version.py b/bayesian_decision_tree/_version.py
index 606b3a4..8e62765 100644
--- a/bayesian_decision_tree/_version.py
+++ b/bayesian_decision_tree/_version.py
@@ -95,7 +95,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        stdout = stdout.decode(errors="replace")
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
-- 
2.43.0


From de42416e0bf50ac753f71cd8c4a4925f87b6e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 19/20] fix: reject integers that np.float64 cannot hold
 instead of rounding them silently

---
 bayesian_decision_tree/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index f999ad5..aaad83c 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -231,7 +231,8 @@ class BaseTree(ABC, BaseEstimator):
         # convert to np.float64 because integers would overflow (e.g. when computing the middle between two points of
         # type np.uint8), and for performance reasons (matrices with floats but of type object are very slow)
         X_float = data.astype(np.float64)
-        if (data != X_float).sum() > 0:
+        # (comparing integers with floats happens in np.float64, so also compare in the original type)
+        if (data != X_float).sum() > 0 or (data != X_float.astype(data.dtype)).sum() > 0:
             raise ValueError('Cannot convert data matrix to np.float64 without loss of precision. Please check your data.')
 
         return X_float
-- 
2.43.0


From f0bec1a20098f37abb0f87aa64d6e75224cd1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 20/20] fix: a training set with a single row is accepted

---
 bayesian_decision_tree/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_decision_tree/base.py b/bayesian_decision_tree/base.py
index aaad83c..73d3057 100755
--- a/bayesian_decision_tree/base.py
+++ b/bayesian_decision_tree/base.py
@@ -56,7 +56,8 @@ class BaseTree(ABC, BaseEstimator):
         # validation and input transformation
         y = np.asarray(y)
 
-        y = y.squeeze()
+        if y.ndim > 1:
+            y = np.atleast_1d(y.squeeze())
         y = self._ensure_float64(y)
         self._check_target(y)
 
-- 
2.43.0

