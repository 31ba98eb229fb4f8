From 8a867566e270e9b92a3224155a47e3c7840ab181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:07 +0000
Subject: [PATCH 01/40] fix: make kamrecsys.model_selection work with
 scikit-learn >= 0.21

The private _validate_shuffle_split_init is gone, so the package could not
be imported; train_test_split validates the sizes anyway.  The options of
KFold are keyword only, and a random_state without shuffle is rejected.
---
 kamrecsys/model_selection/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..d43f5c9 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -24,7 +24,6 @@ import numpy as np
 from sklearn.utils import indexable, check_random_state
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -86,7 +85,6 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         super(ShuffleSplitWithinGroups, self).__init__()
 
-        _validate_shuffle_split_init(test_size, train_size)
         self.n_splits = int(n_splits)
         self.test_size = test_size
         self.train_size = train_size
@@ -272,7 +270,9 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(
+            n_splits=self.n_splits, shuffle=self.shuffle,
+            random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
-- 
2.43.0


From 7219e0aa83e7f338306a314e9a86d0e4672058a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:07 +0000
Subject: [PATCH 02/40] fix: accept any array-like X and groups in within-group
 splitters

Lists raised AttributeError, and a list of string labels was compared as a
whole with each label.
---
 kamrecsys/model_selection/split.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index d43f5c9..800d9d4 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -22,6 +22,7 @@ import logging
 
 import numpy as np
 from sklearn.utils import indexable, check_random_state
+from sklearn.utils.validation import _num_samples
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
 
@@ -126,11 +127,12 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples, dtype=int)
@@ -244,7 +246,7 @@ class KFoldWithinGroups(BaseCrossValidator):
         X, y, groups = indexable(X, y, groups)
 
         # get the number of samples
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
@@ -256,11 +258,12 @@ class KFoldWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples)
@@ -362,7 +365,7 @@ class InterlacedKFold(BaseCrossValidator):
             The testing set indices for that split.
         """
         X, y, groups = indexable(X, y, groups)
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
-- 
2.43.0


From ddb4c23c3c6b27724e649b88568e5f66afd10de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:49 +0000
Subject: [PATCH 03/40] fix: respect train_size in ShuffleSplitWithinGroups
 when test_size is also given

---
 kamrecsys/model_selection/split.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index 800d9d4..8fe50d5 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -121,12 +121,18 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
         # check arguments
         X, y, groups = indexable(X, y, groups)
 
-        for train, test in super(
-                ShuffleSplitWithinGroups, self).split(X, y, groups):
-            yield train, test
+        indices = np.arange(_num_samples(X))
+        for train_fold, test_fold in self._iter_masks(X, y, groups):
+            yield indices[train_fold], indices[test_fold]
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
+        for _, test_fold in self._iter_masks(X, y, groups):
+            yield test_fold
+
+    def _iter_masks(self, X, y=None, groups=None):
+        # yields mask arrays for training and test splits.  These are not
+        # complementary if both `train_size` and `test_size` are specified.
         n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
@@ -136,20 +142,23 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         # constants
         indices = np.arange(n_samples, dtype=int)
+        train_fold = np.empty(n_samples, dtype=bool)
         test_fold = np.empty(n_samples, dtype=bool)
         rng = check_random_state(self.random_state)
         group_indices = np.unique(groups)
 
         # generate training and test splits
         for fold in xrange(self.n_splits):
+            train_fold[:] = False
             test_fold[:] = False
             for i, g in enumerate(group_indices):
                 train_i, test_i = train_test_split(
                     indices[groups == g],
                     test_size=self.test_size, train_size=self.train_size,
                     shuffle=self.shuffle, random_state=rng)
+                train_fold[train_i] = True
                 test_fold[test_i] = True
-            yield test_fold
+            yield train_fold, test_fold
 
     def get_n_splits(self, X=None, y=None, groups=None):
         """Returns the number of splitting iterations in the cross-validator
-- 
2.43.0


From fac1f9f24252d6d332defb5dd9fbb4102c3a385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:35 +0000
Subject: [PATCH 04/40] fix: drop json.load's encoding argument, which was
 removed in Python 3.9

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From 7d15777883f6c5199242ee830ef62b13989f3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:38 +0000
Subject: [PATCH 05/40] fix: do not report the training file as the test file
 of a holdout test

---
 scripts/exp_recsys_util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..4d94c96 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From 52342ef48934be186fb64d1d588252caba74278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:41 +0000
Subject: [PATCH 06/40] fix: report the actual end time of testing

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 4d94c96..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
-- 
2.43.0


From b0e967d44f1de540463f1c4aed25de0e78e4fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:44 +0000
Subject: [PATCH 07/40] fix: output predictions for one test event as a list,
 the same as others

---
 scripts/exp_recsys_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..2ae1d0c 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -128,8 +128,8 @@ def testing(rec, ev):
     res_info['start_time'] = start_time.isoformat()
     logger.info("test_start_time = " + res_info['start_time'])
 
-    # prediction
-    esc = rec.predict(ev)
+    # prediction, which is a scalar if only one event is given
+    esc = np.atleast_1d(rec.predict(ev))
 
     # set end and elapsed time
     end_time = datetime.datetime.now()
-- 
2.43.0


From 949c7a8ff0c0b002086b5b74595dffa1b3f57d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:06 +0000
Subject: [PATCH 08/40] fix: convert ids before selecting event columns in
 prediction

Unknown objects are represented by the number of objects of their type, even
after n_objects of a recommender was re-arranged along event_index.
---
 kamrecsys/base/base.py  | 5 +++--
 kamrecsys/data/event.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..82f2e03 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,9 +248,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
+        ev = self.to_iid_event(eev)[:, self.event_index]
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        return np.squeeze(self.raw_predict(ev))
 
 
 # =============================================================================
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 677dcfa..9e89366 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -100,7 +100,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             Shape of an input array is illegal
         """
         if missing_values is None:
-            missing_values = self.n_objects[self.event_otypes]
+            missing_values = [len(self.iid[i]) for i in self.event_otypes]
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From beb2aba975abeb7cf6565d340a04eb41f4a95587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:08 +0000
Subject: [PATCH 09/40] fix: accept a scalar missing_values in to_iid_event as
 documented

---
 kamrecsys/data/event.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 9e89366..843aec9 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -101,6 +101,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         """
         if missing_values is None:
             missing_values = [len(self.iid[i]) for i in self.event_otypes]
+        missing_values = np.broadcast_to(missing_values, (self.s_event,))
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From daae33920532c6208e7237850d74b161d446d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:10 +0000
Subject: [PATCH 10/40] fix: predict scores of events whose external ids are
 not integers

---
 kamrecsys/base/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 82f2e03..1a7094e 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,7 +248,9 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)
+        # external ids are not always integers
+        dtype = int if np.issubdtype(self.eid[0].dtype, np.integer) else None
+        eev = check_array(np.atleast_2d(eev), dtype=dtype)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From 9398df4fbb18ae44c2ca4f964f8522be82ad4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:13 +0000
Subject: [PATCH 11/40] fix: fit matrix factorization models to data with one
 user or one item

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..d44c9cd 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..44e7e47 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From 27b8c5d0a7f9fec2fa7c77c899609a606277e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:02 +0000
Subject: [PATCH 12/40] fix: make score levels and score bins consistent for
 real-valued domains

The number of levels was truncated and bins were counted by arange, so that
rounding errors made them disagree for domains such as (0, 0.3, 0.1).
---
 kamrecsys/data/event_with_score.py   |  5 ++---
 kamrecsys/metrics/__init__.py        |  2 ++
 kamrecsys/metrics/base.py            | 23 +++++++++++++++++++++--
 kamrecsys/metrics/real.py            |  4 ++--
 kamrecsys/metrics/score_predictor.py |  9 ++++++---
 5 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..b6e6e33 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -21,7 +21,7 @@ from abc import ABCMeta
 from six import with_metaclass
 
 from . import EventData
-from ..metrics import generate_score_bins
+from ..metrics import generate_score_bins, get_n_score_levels
 
 
 # =============================================================================
@@ -154,8 +154,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
-        self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+        self.n_score_levels = get_n_score_levels(score_domain)
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/__init__.py b/kamrecsys/metrics/__init__.py
index c3da229..81e8a9d 100644
--- a/kamrecsys/metrics/__init__.py
+++ b/kamrecsys/metrics/__init__.py
@@ -18,6 +18,7 @@ from six.moves import xrange
 import logging
 
 from .base import (
+    get_n_score_levels,
     generate_score_bins,
     statistics_mean)
 from .real import (
@@ -41,6 +42,7 @@ from .item_finder import (
 # =============================================================================
 
 __all__ = [
+    'get_n_score_levels',
     'generate_score_bins',
     'statistics_mean',
     'mean_absolute_error',
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..186178a 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -42,6 +42,25 @@ __all__ = []
 # =============================================================================
 
 
+def get_n_score_levels(score_domain):
+    """
+    The number of score levels in a score_domain
+
+    Parameters
+    ----------
+    score_domain : array-like, shape=(3,)
+        a triple of the minimum, the maximum, and strides of the score
+
+    Returns
+    -------
+    n_score_levels : int
+        the number of score levels
+    """
+    # a small margin is for rounding errors of real-valued domains
+    return int(
+        (score_domain[1] - score_domain[0]) / score_domain[2] + 1e-6) + 1
+
+
 def generate_score_bins(score_domain):
     """
     Generate histogram bins for scores from score_domain
@@ -57,8 +76,8 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
+    bins = (score_domain[0] + score_domain[2] *
+            np.arange(get_n_score_levels(score_domain) - 1, dtype=float))
     bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
 
     return bins
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..af382f0 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -161,8 +161,8 @@ def score_histogram(x, score_domain=(1, 5, 1)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
+            [score_domain[0] + score_domain[2] *
+             np.arange(len(hist) - 1, dtype=float),
              score_domain[1]])
 
     # return statistics
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..44c08c7 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -25,7 +25,9 @@ from sklearn.utils import (
 
 import sklearn.metrics as skm
 
-from . import mean_absolute_error, mean_squared_error, score_histogram
+from . import (
+    mean_absolute_error, mean_squared_error, score_histogram,
+    get_n_score_levels)
 
 # =============================================================================
 # Metadata variables
@@ -142,8 +144,9 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
 
     # a list of possible score levels
     stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+        score_domain[0] + score_domain[2] *
+        np.arange(get_n_score_levels(score_domain) - 1, dtype=float),
+        score_domain[1]])
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From e6a18518cba59a69b9811162b447e8df86cf9957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:18 +0000
Subject: [PATCH 13/40] fix: accept the number of bins as a Python integer in
 score_histogram

---
 kamrecsys/metrics/real.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index af382f0..a91e26f 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -147,7 +147,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(x)
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         bins = score_domain
     else:
         assert_all_finite(score_domain)
@@ -157,7 +157,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     hist, bins = np.histogram(x, bins=bins)
 
     # candidates of possible scores
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, (int, np.integer)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-- 
2.43.0


From 5b771c419810385f90ce886a922a222c3f62def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:38 +0000
Subject: [PATCH 14/40] fix: load event and feature files of one line or of one
 object type

---
 kamrecsys/datasets/base.py      | 14 ++++++++------
 kamrecsys/datasets/movielens.py | 16 ++++++++++------
 kamrecsys/datasets/others.py    |  3 ++-
 kamrecsys/datasets/sushi3.py    |  8 +++++---
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..7c85002 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -85,11 +85,12 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events)])
+        dtype = np.dtype([('event', int, (s_events,))])
     else:
-        dtype = np.dtype([('event', int, s_events),
+        dtype = np.dtype([('event', int, (s_events,)),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -137,11 +138,12 @@ def load_event_with_score(
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events), ('score', float)])
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
     else:
-        dtype = np.dtype([('event', int, s_events), ('score', float),
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 96725de..75acf27 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -163,7 +163,8 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('age', int), ('gender', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -175,8 +176,9 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
                        ('genre', 'i1', 18),
                        ('imdb', 'U134')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -293,7 +295,8 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('gender', int), ('age', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -302,8 +305,9 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
                        ('year', int),
                        ('genre', 'i1', 18)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/others.py b/kamrecsys/datasets/others.py
index 3c13766..68fe61f 100644
--- a/kamrecsys/datasets/others.py
+++ b/kamrecsys/datasets/others.py
@@ -78,7 +78,8 @@ def load_pci_sample(infile=None):
     if infile is None:
         infile = os.path.join(SAMPLE_PATH, 'pci.event')
     dtype = np.dtype([('event', 'U18', 2), ('score', float)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data = EventWithScoreData(n_otypes=2, event_otypes=np.array([0, 1]))
     data.set_event(x['event'], x['score'], score_domain=(1.0, 5.0, 0.5))
     del x
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 8bb0d9a..693a4a6 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -189,7 +189,8 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('current_ew', int),
         ('moved', int)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -204,8 +205,9 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('price', float),
         ('supply', float)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 97564b25d023952c7b8b81c13d2ff5a1eafec671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:04 +0000
Subject: [PATCH 15/40] fix: check inputs of variance_with_gamma_prior as
 documented

ValueError was not raised for non-finite values in a float array, empty arrays
were not rejected if force_all_finite, and multi-dimensional arrays failed.
---
 kamrecsys/metrics/real.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index a91e26f..74e2465 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -217,12 +217,13 @@ def variance_with_gamma_prior(
     """
 
     # arrange inputs
+    x = np.ravel(as_float_array(np.asarray(x)))
     if force_all_finite:
-        x = as_float_array(x).ravel()
+        assert_all_finite(x)
     else:
         x = np.compress(np.isfinite(x), x)
-        if x.size < 1:
-            raise ValueError('Found array with 0 sample.')
+    if x.size < 1:
+        raise ValueError('Found array with 0 sample.')
 
     # calc variance
     n = x.size
-- 
2.43.0


From 2f30cf920e67af60b7a616591988072648898334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:07 +0000
Subject: [PATCH 16/40] fix: display reports of statistics in single precision

---
 kamrecsys/metrics/item_finder.py     | 2 +-
 kamrecsys/metrics/score_predictor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/item_finder.py b/kamrecsys/metrics/item_finder.py
index cb2feaa..b3e4065 100644
--- a/kamrecsys/metrics/item_finder.py
+++ b/kamrecsys/metrics/item_finder.py
@@ -99,7 +99,7 @@ def item_finder_report(y_true, y_pred, disp=True):
         print(
             json.dumps(
                 stats, sort_keys=True, indent=4, separators=(',', ': '),
-                ensure_ascii=False), file=sys.stderr)
+                ensure_ascii=False, default=float), file=sys.stderr)
 
     return stats
 
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 44c08c7..70ae597 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -97,7 +97,7 @@ def score_predictor_report(y_true, y_pred, disp=True):
     if disp:
         print(json.dumps(
             stats, sort_keys=True, indent=4, separators=(',', ': '),
-            ensure_ascii=False),
+            ensure_ascii=False, default=float),
             file=sys.stderr)
 
     return stats
-- 
2.43.0


From 8cd484aebddd2039d9b0f6a63aceb5c4fc792761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:09 +0000
Subject: [PATCH 17/40] fix: accept lists of arguments in statistics_mean

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 186178a..66ac4f9 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -111,7 +111,7 @@ def statistics_mean(fun, *arg_list):
             args = [arg[k] for arg in arg_list]
             stats.append(fun(*args))
 
-    elif isinstance(arg_list[0], dict):
+    elif isinstance(arg_list[0], list):
 
         # in a case of list list, collect elements at the same position
         for k in xrange(len(arg_list[0])):
-- 
2.43.0


From 9a733b39cfdaf006d2a4cd4386ed8f54592e6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:11 +0000
Subject: [PATCH 18/40] fix: reject negative internal ids in to_eid

---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..13927e2 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -89,6 +89,8 @@ class ObjectUtilMixin(object):
         ValueError
             an internal id is out of range
         """
+        if np.any(np.asarray(iid) < 0):
+            raise ValueError("Illegal internal id")
         try:
             return self.eid[otype][iid]
         except IndexError:
-- 
2.43.0


From 3fab526f0c9ea55f047920fe19c0b43535c26bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:40 +0000
Subject: [PATCH 19/40] fix: compute variance_with_gamma_prior in double
 precision

Squares of narrow integer types overflowed.
---
 kamrecsys/metrics/real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 74e2465..7696fef 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -217,7 +217,7 @@ def variance_with_gamma_prior(
     """
 
     # arrange inputs
-    x = np.ravel(as_float_array(np.asarray(x)))
+    x = np.ravel(np.asarray(x, dtype=float))
     if force_all_finite:
         assert_all_finite(x)
     else:
-- 
2.43.0


From 315c6c40b3e9c9b7dca51fb8374e99ca8d875c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:43 +0000
Subject: [PATCH 20/40] fix: do not share object id tables between a data
 container and recommenders

A fitted model was broken if set_event of its training data was called again.
---
 kamrecsys/data/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 13927e2..798a897 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -64,9 +64,9 @@ class ObjectUtilMixin(object):
             raise TypeError("input data must data.BaseData class")
 
         self.n_otypes = data.n_otypes
-        self.n_objects = data.n_objects
-        self.eid = data.eid
-        self.iid = data.iid
+        self.n_objects = data.n_objects.copy()
+        self.eid = data.eid.copy()
+        self.iid = data.iid.copy()
 
     def to_eid(self, otype, iid):
         """
-- 
2.43.0


From 9fbe6b058fbc8bd9c81d7fa930c92a614ef1b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:46 +0000
Subject: [PATCH 21/40] fix: discard object features when events are replaced

Stale features were not aligned with new internal ids.
---
 kamrecsys/data/event.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 843aec9..c12dd8d 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -209,6 +209,8 @@ class EventData(BaseData, EventUtilMixin):
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
+        # features were aligned with the replaced objects
+        self.feature = np.tile(None, self.n_otypes)
 
         self.event = np.empty_like(event, dtype=int)
         for e in xrange(self.s_event):
-- 
2.43.0


From 473eb52a3813a0dc899b3427fdf9af91e12cfa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:48 +0000
Subject: [PATCH 22/40] fix: generate a binary matrix of implicit feedback for
 any event data

Duplicated events were summed up, and event_index was applied twice.
---
 kamrecsys/item_finder/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..230550a 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -165,11 +165,11 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
             raise TypeError("illegal type of sparse matrices")
 
         # get number of objects
-        n_objects = self.n_objects[self.event_otypes[self.event_index]]
+        # these were already selected by event_index in the fit method
+        n_objects = self.n_objects
 
-        # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        # get event data, duplicated events are counted once
+        users, items = np.unique(self.event[:, :2], axis=0).T
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From eb1e6e28ce0d0a627da35bfc6d53bc7dbe11b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:29 +0000
Subject: [PATCH 23/40] fix: do not modify optimizer options given by a caller

Options dictionary was shared, so that maxiter of one recommender leaked to
another one constructed with the same dictionary.
---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index d44c9cd..fa63bc9 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -128,7 +128,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
@@ -503,7 +503,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 44e7e47..ab35b4d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -117,7 +117,7 @@ class PMF(BaseScorePredictor):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            dict(self.optimizer_kwargs.get('options', {})))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
-- 
2.43.0


From 46fd1894ec192452e8aac37f999cb5b35ac2bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:53 +0000
Subject: [PATCH 24/40] fix: load non-ASCII names of items

---
 kamrecsys/datasets/movielens.py | 4 ++--
 kamrecsys/datasets/sushi3.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 75acf27..b73d013 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -178,7 +178,7 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -307,7 +307,7 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 693a4a6..a5d62ed 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -207,7 +207,7 @@ def load_sushi3b_score(infile=None, event_dtype=None):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From dd4855b579390e11a541d06682bdb12d36042940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:19 +0000
Subject: [PATCH 25/40] fix: fit by optimizers that do not count gradient calls
 or iterations

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index fa63bc9..ff16f4a 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -381,9 +381,9 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
@@ -737,9 +737,9 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index ab35b4d..9b6e567 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -373,9 +373,9 @@ class PMF(BaseScorePredictor):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
-- 
2.43.0


From b66f75c7f9a82e8270ac9245177f8c133e3ece24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:29 +0000
Subject: [PATCH 26/40] fix: convert sparse matrices in a DOK format in
 json_decodable

---
 kamrecsys/utils/kamexputils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index c49553d..29a2fe4 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -64,14 +64,15 @@ def json_decodable(x):
 
     if isinstance(x, dict):
         for k, v in x.items():
-            if isinstance(v, (dict, list)):
+            # sparse matrices first, because dok_matrix is a subclass of dict
+            if issparse(v):
+                x[k] = v.toarray().tolist()
+                json_decodable(x[k])
+            elif isinstance(v, (dict, list)):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
                 json_decodable(x[k])
-            elif issparse(v):
-                x[k] = v.toarray().tolist()
-                json_decodable(x[k])
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
@@ -82,14 +83,15 @@ def json_decodable(x):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
-            if isinstance(v, (dict, list)):
+            # sparse matrices first, because dok_matrix is a subclass of dict
+            if issparse(v):
+                x[k] = v.toarray().tolist()
+                json_decodable(x[k])
+            elif isinstance(v, (dict, list)):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
                 json_decodable(x[k])
-            elif issparse(v):
-                x[k] = v.toarray().tolist()
-                json_decodable(x[k])
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
-- 
2.43.0


From 398cb8c91f28f38d44ca3c392fd257e18d023d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:52 +0000
Subject: [PATCH 27/40] fix: copy score domains and event indexes given by a
 caller

---
 kamrecsys/base/base.py             | 2 +-
 kamrecsys/data/event_with_score.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 1a7094e..e234b86 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -209,7 +209,7 @@ class BaseEventRecommender(
         if event_index is None:
             self.event_index = np.arange(self.s_event, dtype=int)
         else:
-            self.event_index = np.asanyarray(event_index, dtype=int)
+            self.event_index = np.array(event_index, dtype=int)
 
         # select information about events used for training
         self.event = self.event.take(self.event_index, axis=1)
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index b6e6e33..cb0d5a5 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -153,7 +153,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.min(self.score),
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
-        self.score_domain = np.asanyarray(score_domain)
+        self.score_domain = np.array(score_domain)
         self.n_score_levels = get_n_score_levels(score_domain)
 
     def digitize_score(self, score=None):
-- 
2.43.0


From d739f6b93b3f55b1c71a165279bb1d91d6546bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:29 +0000
Subject: [PATCH 28/40] fix: avoid cancellation in the variance with a gamma
 prior

---
 kamrecsys/metrics/real.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 7696fef..8d98545 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -228,9 +228,8 @@ def variance_with_gamma_prior(
     # calc variance
     n = x.size
 
-    x_sum = x.sum()
-    x_sqsum = (x ** 2).sum()
-    var = (2 * b + x_sqsum - (x_sum ** 2) / n) / (2 * a + n)
+    x_dev = x - x.sum() / n
+    var = (2 * b + (x_dev ** 2).sum()) / (2 * a + n)
     var = b / a if var <= 0. else var
 
     if full_output:
-- 
2.43.0


From 5e02bcc4c30b7f0e4731703713a7c559ed6063f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:20 +0000
Subject: [PATCH 29/40] fix: predict scores of events whose external ids are
 unsigned integers beyond signed ones

---
 kamrecsys/base/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index e234b86..ac6a73c 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,9 +248,14 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        # external ids are not always integers
-        dtype = int if np.issubdtype(self.eid[0].dtype, np.integer) else None
-        eev = check_array(np.atleast_2d(eev), dtype=dtype)
+        # external ids are not always integers, and unsigned ones may exceed
+        # the range of signed integers
+        eev = np.atleast_2d(eev)
+        dtype = int
+        if (not np.issubdtype(self.eid[0].dtype, np.integer) or
+                np.issubdtype(eev.dtype, np.unsignedinteger)):
+            dtype = None
+        eev = check_array(eev, dtype=dtype)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From c903126402e09cf178f7300a84992eab8bcd4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:12 +0000
Subject: [PATCH 30/40] fix: compute the safe sigmoid of single precision
 arguments in double precision

---
 kamrecsys/utils/kammath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/utils/kammath.py b/kamrecsys/utils/kammath.py
index 414e255..82aba39 100644
--- a/kamrecsys/utils/kammath.py
+++ b/kamrecsys/utils/kammath.py
@@ -65,6 +65,8 @@ def safe_sigmoid(x):
     # import numpy as np
     # from scipy.special import expit
 
+    # in single precision, the maximum of the domain is mapped to just 1.0
+    x = np.asarray(x, dtype=float)
     x = np.clip(x, -34.538776394910684, 34.538776394910684)
 
     return expit(x)
-- 
2.43.0


From fac935653eebe6996625e0f49b1a230a7b181070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:14 +0000
Subject: [PATCH 31/40] fix: implicit item finders are not of explicit ratings

---
 kamrecsys/item_finder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index 230550a..de6e2f1 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -137,7 +137,7 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
     """
 
     task_type = 'item_finder'
-    explicit_ratings = True
+    explicit_ratings = False
 
     def get_event_array(self, sparse_type='csr'):
         """
-- 
2.43.0


From 61c1e4448e7fb2c989c5f09c5328aa7269b0833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:01:24 +0000
Subject: [PATCH 32/40] fix: convert NumPy booleans into JSON booleans, not
 strings

---
 kamrecsys/utils/kamexputils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index 29a2fe4..6d46463 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -73,6 +73,8 @@ def json_decodable(x):
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
                 json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
@@ -92,6 +94,8 @@ def json_decodable(x):
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
                 json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
-- 
2.43.0


From ce7442a0c585a765b4d9efaf75664be33f722b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:26:56 +0000
Subject: [PATCH 33/40] fix: training of pLSA that converges in the last
 iteration is successful

---
 kamrecsys/score_predictor/topic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..f092f66 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -287,8 +287,8 @@ class MultinomialPLSA(BaseScorePredictor):
                     " {:.15g}".format(precision))
                 break
             pre_loss = cur_loss
-
-        if iter_no >= maxiter - 1:
+        else:
+            # not converged even in the last iteration
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
-- 
2.43.0


From ea8b348c09e44fdd6bd9f2b9a64308c1000e9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:54 +0000
Subject: [PATCH 34/40] fix: do not truncate real numbers queried as ids into
 ids of other objects

---
 kamrecsys/base/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index ac6a73c..aa346bc 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,12 +248,13 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        # external ids are not always integers, and unsigned ones may exceed
-        # the range of signed integers
+        # external ids are not always integers, unsigned ones may exceed the
+        # range of signed integers, and real numbers must not be truncated
         eev = np.atleast_2d(eev)
         dtype = int
         if (not np.issubdtype(self.eid[0].dtype, np.integer) or
-                np.issubdtype(eev.dtype, np.unsignedinteger)):
+                np.issubdtype(eev.dtype, np.unsignedinteger) or
+                np.issubdtype(eev.dtype, np.floating)):
             dtype = None
         eev = check_array(eev, dtype=dtype)
         ev = self.to_iid_event(eev)[:, self.event_index]
-- 
2.43.0


From 6def4b2afe41135ae6c9d90e58b304582673d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:13:42 +0000
Subject: [PATCH 35/40] fix: do not share tables of objects, layouts and
 domains

A filtered data set shared event_otypes and score_domain with its source,
and a fitted recommender shared these and the conversion tables of ids
with its training data, so that changing one in place changed the other.
---
 kamrecsys/data/base.py             | 4 ++++
 kamrecsys/data/event.py            | 4 ++--
 kamrecsys/data/event_with_score.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 798a897..8917cf1 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -16,6 +16,7 @@ from six.moves import xrange
 # =============================================================================
 
 import logging
+from copy import copy
 from abc import ABCMeta
 
 import numpy as np
@@ -67,6 +68,9 @@ class ObjectUtilMixin(object):
         self.n_objects = data.n_objects.copy()
         self.eid = data.eid.copy()
         self.iid = data.iid.copy()
+        for otype in xrange(self.n_otypes):
+            self.eid[otype] = copy(data.eid[otype])
+            self.iid[otype] = copy(data.iid[otype])
 
     def to_eid(self, otype, iid):
         """
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index c12dd8d..fba26ef 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -135,7 +135,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             raise TypeError("input data must data.EventData class")
 
         self.s_event = data.s_event
-        self.event_otypes = data.event_otypes
+        self.event_otypes = data.event_otypes.copy()
         self.n_events = data.n_events
         self.event = data.event
         self.event_feature = data.event_feature
@@ -260,7 +260,7 @@ class EventData(BaseData, EventUtilMixin):
         data.eid = self.eid.copy()
         data.iid = self.iid.copy()
         data.feature = self.feature.copy()
-        # data.event_otypes = self.event_otypes.copy()
+        data.event_otypes = self.event_otypes.copy()
 
         for otype in xrange(data.n_otypes):
 
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index cb0d5a5..a9e7b52 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -16,6 +16,7 @@ from six.moves import xrange
 # =============================================================================
 
 import logging
+from copy import copy
 import numpy as np
 from abc import ABCMeta
 from six import with_metaclass
@@ -63,7 +64,7 @@ class ScoreUtilMixin(with_metaclass(ABCMeta, object)):
         if not isinstance(data, EventWithScoreData):
             raise TypeError("input data must data.EventWithScoreData class")
 
-        self.score_domain = data.score_domain
+        self.score_domain = copy(data.score_domain)
         self.score = data.score
         self.n_score_levels = data.n_score_levels
 
@@ -232,6 +233,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
         # filter out event data
         if self.score is not None:
             data.score = self.score[filter_cond]
+        data.score_domain = copy(self.score_domain)
 
         return data
 
-- 
2.43.0


From 48fb8d1d5808c5e260ed62adea1567e5d14d4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:04:59 +0000
Subject: [PATCH 36/40] fix: do not share options of optimizers with results of
 fitting

---
 kamrecsys/item_finder/matrix_factorization.py     | 2 ++
 kamrecsys/score_predictor/matrix_factorization.py | 1 +
 kamrecsys/score_predictor/topic_model.py          | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index ff16f4a..d0ba1f3 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -343,6 +343,7 @@ class LogisticPMF(BaseExplicitItemFinder):
 
         # check optimization parameters
         optimizer_kwargs = self.optimizer_kwargs.copy()
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         optimizer_method = optimizer_kwargs.pop('method', 'CG')
 
         # get initial loss
@@ -699,6 +700,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
 
         # check optimization parameters
         optimizer_kwargs = self.optimizer_kwargs.copy()
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         optimizer_method = optimizer_kwargs.pop('method', 'CG')
 
         # get initial loss
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 9b6e567..3ec5f6d 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -335,6 +335,7 @@ class PMF(BaseScorePredictor):
 
         # check optimization parameters
         optimizer_kwargs = self.optimizer_kwargs.copy()
+        optimizer_kwargs['options'] = dict(optimizer_kwargs['options'])
         optimizer_method = optimizer_kwargs.pop('method', 'CG')
 
         # get initial loss
diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index f092f66..166af7a 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -309,7 +309,7 @@ class MultinomialPLSA(BaseScorePredictor):
         self.fit_results_['success'] = (self.fit_results_['status'] == 0)
         self.fit_results_['message'] = (
             get_fit_status_message(self.fit_results_['status']))
-        self.fit_results_['optimizer_kwargs'] = self.optimizer_kwargs
+        self.fit_results_['optimizer_kwargs'] = dict(self.optimizer_kwargs)
 
         # add parameters for unknown users and items
         self.pXgZ_ = np.r_[self.pXgZ_, np.ones((1, self.k), dtype=float)]
-- 
2.43.0


From e4c0d1f5b17c49bffdae472e651a1fc2570663b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:01 +0000
Subject: [PATCH 37/40] fix: keep options of optimizers when recommenders are
 cloned

---
 kamrecsys/base/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index aa346bc..d4f55c0 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -17,6 +17,7 @@ from six.moves import xrange
 
 import logging
 from abc import ABCMeta, abstractmethod
+from copy import deepcopy
 
 import numpy as np
 from six import with_metaclass
@@ -85,6 +86,14 @@ class BaseRecommender(with_metaclass(ABCMeta, BaseEstimator, ObjectUtilMixin)):
 
         self._rng = None
 
+    def __sklearn_clone__(self):
+        # options of an optimizer are given as keyword arguments, which are
+        # not contained in the parameters of :class:`sklearn.BaseEstimator`
+        params = deepcopy(getattr(self, 'optimizer_kwargs', {}))
+        params.update(deepcopy(self.get_params(deep=False)))
+
+        return self.__class__(**params)
+
     def fit(self, data):
         """
         fitting model
-- 
2.43.0


From c153a67a692229b366bb7cbae34bac1b6d8b18ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:48:15 +0000
Subject: [PATCH 38/40] fix: convert elements of arrays without dimensions for
 JSON

---
 kamrecsys/utils/kamexputils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index 6d46463..9ea0e81 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -71,8 +71,10 @@ def json_decodable(x):
             elif isinstance(v, (dict, list)):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
-                x[k] = v.tolist()
-                json_decodable(x[k])
+                # an array without dimensions is not converted to a list
+                elements = [v.tolist()]
+                json_decodable(elements)
+                x[k] = elements[0]
             elif isinstance(v, np.bool_):
                 x[k] = bool(v)
             elif isinstance(v, np.integer):
@@ -92,8 +94,10 @@ def json_decodable(x):
             elif isinstance(v, (dict, list)):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
-                x[k] = v.tolist()
-                json_decodable(x[k])
+                # an array without dimensions is not converted to a list
+                elements = [v.tolist()]
+                json_decodable(elements)
+                x[k] = elements[0]
             elif isinstance(v, np.bool_):
                 x[k] = bool(v)
             elif isinstance(v, np.integer):
-- 
2.43.0


From fdd38653d0bf89e22a19ca031e6b833c6054b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:56:06 +0000
Subject: [PATCH 39/40] fix: filter scores and events alike by conditions given
 as tuples

---
 kamrecsys/data/event_with_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index a9e7b52..6f82628 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -232,7 +232,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
 
         # filter out event data
         if self.score is not None:
-            data.score = self.score[filter_cond]
+            data.score = self.score[np.asarray(filter_cond)]
         data.score_domain = copy(self.score_domain)
 
         return data
-- 
2.43.0


From 7cfc59c45b543e5639944746a263fa20e106b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:07 +0000
Subject: [PATCH 40/40] fix: refuse events of internal ids that are out of
 range

---
 kamrecsys/data/event.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index fba26ef..9709376 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -61,16 +61,21 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         -------
         new_data : array_like
             array whose elements are represented by external ids
+
+        Raises
+        ------
+        ValueError
+            an internal id is out of range
         """
         if data.ndim == 1 and data.shape[0] == self.s_event:
             new_data = np.array(
-                [self.eid[self.event_otypes[e]][data[e]]
+                [self.to_eid(self.event_otypes[e], data[e])
                  for e in xrange(self.s_event)],
                 dtype=self.eid[0].dtype)
         elif data.ndim == 2 and data.shape[1] == self.s_event:
             new_data = np.empty_like(data, dtype=self.eid[0].dtype)
             for e in xrange(self.s_event):
-                new_data[:, e] = self.eid[self.event_otypes[e]][data[:, e]]
+                new_data[:, e] = self.to_eid(self.event_otypes[e], data[:, e])
         else:
             raise TypeError("Shape of input is illegal")
 
-- 
2.43.0

