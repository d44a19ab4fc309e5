From 141a3025e5a3b2b9fce2086d0ab0e542636cd6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 01/18] fix: WalkForward windows overlap and overrun on groups
 with gaps

train_end was looked up with side='left', so on groups with gaps (business days
with freq='D', missing ids) it landed on the first group of the test window:
train and test shared a group. Later windows were advanced by adding test_window
to group labels, which skips or repeats groups after a gap, and a last, shorter
test window raised IndexError. Bounds are now the last existing group inside
each window, and each window starts right after the previous test window;
results on gapless groups are unchanged.
---
 quantfinlib/train_test_split/walk_forward.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a9c6311..fc7cacb 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -115,13 +115,15 @@ class WalkForward(BaseCV):
         # Calculate the boundaries of the training set
         train_start_group = groups[0]
         train_end_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
+            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right") - 1
         ]
         # Calculate the boundaries of the test set
         test_start_group = groups[
             np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
         ]
-        test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
+        test_end_group = groups[
+            np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
+        ]
         while train_end_group < groups[-1]:
             train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
             test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
@@ -142,12 +144,12 @@ class WalkForward(BaseCV):
                 self._finalized_splits = True
                 break
             # update the boundaries of the training and test sets
+            train_end_group = test_end_group
             if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
+                train_start_group = train_end_group + time_unit - self.train_window
+            test_start_group = groups[np.searchsorted(groups, test_end_group, side="right")]
             test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
+                np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="right") - 1
             ]
 
 
-- 
2.43.0


From 616c562a7bfade040bada03878b8751fd69ac8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 02/18] fix: WalkForward.n_splits accumulated over repeated
 split() calls

get_n_splits() after k calls to split() returned k times the number of splits.
---
 quantfinlib/train_test_split/walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index fc7cacb..68d8d3f 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -107,6 +107,8 @@ class WalkForward(BaseCV):
 
         """
         super().split(X, y, groups)
+        self.n_splits = 0
+        self._finalized_splits = False
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
         groups = groups if groups is not None else np.arange(n_samples)
-- 
2.43.0


From 3715a62b80a994c15614574f66cce4ca6c1250a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 03/18] fix: splitters looked up Series groups by label instead
 of by position

groups[i] on a Series is a label lookup: WalkForward failed on groups[-1], a
Series with a permuted integer index gave folds cut at the wrong rows, and
TimeAwareKFold rejected the integer Series its annotations accept.
---
 quantfinlib/train_test_split/_base.py        | 9 +++++++++
 quantfinlib/train_test_split/kfoldpe.py      | 3 ++-
 quantfinlib/train_test_split/walk_forward.py | 3 ++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 2754fc7..3b974ad 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -131,6 +131,15 @@ def _embargo(
     return train_index
 
 
+def _to_positional_groups(groups: GroupType) -> GroupType:
+    """Return groups as a container indexed by position, dropping the labels of a Series."""
+    if not isinstance(groups, pd.Series):
+        return groups
+    if isinstance(groups.dtype, np.dtype) and groups.dtype.kind != "M":
+        return groups.to_numpy()
+    return pd.DatetimeIndex(groups)
+
+
 class BaseCV(ABC):
     """Base class for cross-validation splitters."""
 
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index cd48d6d..422daf9 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -6,7 +6,7 @@ from typing import Generator, Optional, Tuple
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _to_positional_groups
 from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
 
 
@@ -138,6 +138,7 @@ class TimeAwareKFold(BaseCV):
             n_purge = self.n_purge
         if groups is None:
             groups = np.arange(X.shape[0])
+        groups = _to_positional_groups(groups)
         indices = np.arange(X.shape[0])
         assert len(groups) == len(indices), "Groups and indices must have the same length."
         test_indices_per_fold = np.array_split(indices, self.n_folds)
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 68d8d3f..3c5fef8 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -7,7 +7,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _to_positional_groups
 from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
 
 
@@ -112,6 +112,7 @@ class WalkForward(BaseCV):
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
         groups = groups if groups is not None else np.arange(n_samples)
+        groups = _to_positional_groups(groups)
         time_unit = pd.Timedelta(1, unit=self.freq) if self.freq is not None else 1
 
         # Calculate the boundaries of the training set
-- 
2.43.0


From 7d1b7c8b71f95adda85623edc1d818708adac47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:17 +0000
Subject: [PATCH 04/18] fix: path_sample failed without a datetime index or
 without x0 on a Series

_format_ans left 'index' unbound when only column names were requested (or the
model was fitted on a container without a datetime index), and used two-axis
iloc on a Series when include_x0=False.
---
 quantfinlib/sim/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f5e78b7..96c0f7d 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -290,6 +290,7 @@ class SimBase(ABC):
             or (columns is not None)
         )
 
+        index = None
         if need_date_time_index:
             index = self._make_date_time_index(ans.shape[0], label_start, label_freq)
 
@@ -312,7 +313,7 @@ class SimBase(ABC):
             return ans
         else:
             if isinstance(ans, (pd.DataFrame, pd.Series)):
-                return ans.iloc[1:, :]
+                return ans.iloc[1:]
             else:
                 return ans[1:, :]
 
-- 
2.43.0


From 36d833b5d3656102b69bad8fb23d61f491b06857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 05/18] fix: OrnsteinUhlenbeck.fit used the last column's
 regression for every column

slope and intercept of the last loop iteration set mrr, mean and vol of all
columns, as scalars, so path_sample after fit failed on self.mean.shape.
---
 quantfinlib/sim/_ou.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 188a7d8..27cb533 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -246,9 +246,11 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         # Compute OU params from slope, intercept, residual_std
         res_std = np.std(residuals, axis=0, ddof=1, keepdims=True)
 
-        self.mrr = -np.log(slope) / dt
-        self.mean = intercept / (1 - slope)
-        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
+        slopes = slopes.reshape(1, -1)
+        intercepts = intercepts.reshape(1, -1)
+        self.mrr = -np.log(slopes) / dt
+        self.mean = intercepts / (1 - slopes)
+        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
         return self
 
-- 
2.43.0


From 2769a37a82ecd87f7177382f7770785aacb3159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 06/18] fix: OrnsteinUhlenbeck.path_sample failed for several
 variates and paths

The mean reversion factors (one per variate) were multiplied with rows holding
num_variates * num_paths values.
---
 quantfinlib/sim/_ou.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 27cb533..4b70d15 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -282,7 +282,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         _fill_with_correlated_noise(dx, loc=mean_term, scale=scale_factor, L=self.L_, random_state=random_state)
 
         # Forward step trough OU
-        mrr_factor = mrr_factor.reshape(-1)
+        mrr_factor = np.tile(mrr_factor.reshape(-1), ans.shape[1] // mrr_factor.size)
         for i in range(ans.shape[0] - 1):
             ans[i + 1, :] += ans[i, :] * mrr_factor
 
-- 
2.43.0


From e8a56577fbb2d2956fc3b9b062e0501f86098147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 07/18] fix: GeometricBrownianMotion fit and nll disagreed with
 its simulated law

Log returns are simulated with mean (drift - vol**2 / 2) * dt; fit returned
mean(dx) / dt as drift, and nll left out the factor dt.
---
 quantfinlib/sim/_gbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 2418148..afb2b65 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -179,7 +179,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
         # Mean and standard deviation of the changes
         self.vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
-        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
+        self.drift = np.mean(dx, axis=0, keepdims=True) / dt + 0.5 * self.vol**2
 
         # Optionally correlations if we have multiple columns
         if x.shape[1] > 1:
@@ -231,7 +231,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
     def _nll(self, x: np.ndarray, dt: float):
         dx = np.log(x[1:, ...] / x[:-1, ...])
-        mean_ = (self.drift - 0.5 * self.vol**2).flatten()
+        mean_ = ((self.drift - 0.5 * self.vol**2) * dt).flatten()
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-- 
2.43.0


From 327c4a4f8d93ca1115f0012351c6902ac0ab13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 08/18] fix: nll, aic and bic overwrote the fitted state of the
 model

They ran the preprocessing of fit() on the model itself: after scoring a path,
path_sample started from that path, with its dt, index and column names.
---
 quantfinlib/sim/_base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 96c0f7d..e6dff6b 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -10,6 +10,7 @@ Copyright: (c) 2024 Thijs van den Berg
 License:   MIT License
 """
 
+import copy
 import math
 from abc import ABC, abstractmethod
 from typing import Any, List, Optional, Tuple, Union
@@ -420,6 +421,10 @@ class SimBase(ABC):
 
 class SimNllMixin:
 
+    def _preprocess_nll_x_and_dt(self, x, dt):
+        # The preprocessing records what was fitted on the model: evaluate on a copy to leave self as it is.
+        return copy.copy(self)._preprocess_fit_x_and_dt(x, dt)
+
     def nll(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the negative log-likelihood (lower is better) for a given path.
 
@@ -436,7 +441,7 @@ class SimNllMixin:
             The computed negative log-likelihood.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = self._preprocess_nll_x_and_dt(x, dt)
         return self._nll(values, dt)
 
     def aic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
@@ -455,7 +460,7 @@ class SimNllMixin:
             The computed Akaike Information Criterion (AIC) value.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = self._preprocess_nll_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
 
@@ -474,6 +479,6 @@ class SimNllMixin:
         bic : float
             The computed Bayesian Information Criterion (BIC) value.
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        values, dt = self._preprocess_nll_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
-- 
2.43.0


From 66dfc4e4a470b5a8566cd51942e1cc422ecaffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:28 +0000
Subject: [PATCH 09/18] fix: aic and bic multiplied the negative log-likelihood
 by the sample count

nll already is the sum over the path: aic = 2 k + 2 nll and
bic = k log(n) + 2 nll, so model comparison ignored the parameter penalty.
---
 quantfinlib/sim/_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index e6dff6b..3fa9266 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -461,8 +461,7 @@ class SimNllMixin:
 
         """
         values, dt = self._preprocess_nll_x_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return 2 * self.num_parameters_ + 2 * self._nll(values, dt)
 
     def bic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the Bayesian Information Criterion (BIC) for a given path.
@@ -481,4 +480,4 @@ class SimNllMixin:
         """
         values, dt = self._preprocess_nll_x_and_dt(x, dt)
         num_samples = x.shape[0]
-        return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt)
-- 
2.43.0


From 161b28dd24465c56c229e682cc89f1e7eeffd199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:28 +0000
Subject: [PATCH 10/18] fix: multivariate models counted one parameter per (1,
 N) parameter array

num_parameters_ used len() of row vectors, so aic and bic penalised an
N-variate model like a univariate one, also after fit.
---
 quantfinlib/sim/_base.py | 6 ++++++
 quantfinlib/sim/_bm.py   | 5 ++---
 quantfinlib/sim/_gbm.py  | 5 ++---
 quantfinlib/sim/_ou.py   | 5 ++---
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 3fa9266..8649e7a 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -421,6 +421,12 @@ class SimBase(ABC):
 
 class SimNllMixin:
 
+    def _count_parameters(self, *parameters: np.ndarray) -> int:
+        num_parameters = sum(parameter.size for parameter in parameters)
+        if self.cor is not None:
+            num_parameters += self.cor.shape[0] * (self.cor.shape[0] - 1) // 2
+        return num_parameters
+
     def _preprocess_nll_x_and_dt(self, x, dt):
         # The preprocessing records what was fitted on the model: evaluate on a copy to leave self as it is.
         return copy.copy(self)._preprocess_fit_x_and_dt(x, dt)
diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index da188be..10e5261 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -154,9 +154,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self.num_parameters_ = self._count_parameters(self.drift, self.vol)
 
     def __repr__(self) -> str:
         """Return a string representation of the BrownianMotion instance."""
@@ -186,6 +184,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self.num_parameters_ = self._count_parameters(self.drift, self.vol)
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index afb2b65..e30f6ff 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -162,9 +162,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self.num_parameters_ = self._count_parameters(self.drift, self.vol)
 
     def __repr__(self) -> str:
         """Return a string representation of the GeometriCBrownianMotion instance."""
@@ -194,6 +192,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self.num_parameters_ = self._count_parameters(self.drift, self.vol)
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 4b70d15..ce60d66 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -184,9 +184,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = np.asarray(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.mean) * (len(self.mean) - 1) / 2
+        self.num_parameters_ = self._count_parameters(self.mean, self.mrr, self.vol)
 
     def __repr__(self):
         """Return a string representation of the OrnsteinUhlenbeck instance."""
@@ -252,6 +250,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         self.mean = intercepts / (1 - slopes)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
+        self.num_parameters_ = self._count_parameters(self.mean, self.mrr, self.vol)
         return self
 
     def _path_sample_np(
-- 
2.43.0


From d88dcd662ed32dfb9d2044cce022ee187054e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:28 +0000
Subject: [PATCH 11/18] fix: Corwin-Schultz alpha added the gamma term instead
 of subtracting it

alpha = (sqrt(2) - 1) sqrt(beta) / (3 - 2 sqrt(2)) - sqrt(gamma / (3 - 2 sqrt(2)));
the double negative made the spread grow with two-day volatility.
---
 quantfinlib/feature/micro_structure/_price_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 5a77cb7..1922423 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -457,7 +457,7 @@ def _get_alpha(beta: pd.Series, gamma: pd.Series) -> pd.Series:
     """See p. 285 of Advances in Financial Machine Learning by Marcos Lopez de Prado."""
     den = 3 - 2.0 * 2**0.5
     alpha = (2**0.5 - 1) * (beta**0.5) / den
-    alpha -= -((gamma / den) ** 0.5)
+    alpha -= (gamma / den) ** 0.5
     alpha[alpha < 0] = 0  # set negative alpha to zero
     return alpha
 
-- 
2.43.0


From 45348cce9cd1a2fddfcffb76d767862ff44b282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:28 +0000
Subject: [PATCH 12/18] fix: gap_statistic reseeded the global numpy random
 generator

The reference samples come from the same streams, now without resetting the
random state of the caller.
---
 quantfinlib/clustering/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 3eda08c..be76dd3 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -70,8 +70,7 @@ def gap_statistic(
         seed = 0
     for b in range(nb):
         # Create a reference distance matrix by drawing random samples from the distance matrix
-        np.random.seed(seed + b)
-        dist_ref = np.random.uniform(0, np.max(dist), size=(n, n))
+        dist_ref = np.random.RandomState(seed + b).uniform(0, np.max(dist), size=(n, n))
         # Make the reference distance matrix symmetric
         dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
         # Make sure the diagonal elements of reference distance matrix are zero
-- 
2.43.0


From ad94d343f47831af667da84c2f143a4ee43ed98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:41 +0000
Subject: [PATCH 13/18] fix: _eigen_values_denoise zeroed eigenvalues in the
 caller's array

---
 quantfinlib/math/cov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index a50acd5..98041ac 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -373,6 +373,7 @@ def _eigen_values_denoise(
     info["fitted"] = False
     num_assets = len(eigen_values)
     if num_assets > num_timesteps:
+        eigen_values = eigen_values.copy()
         eigen_values[-(num_assets - num_timesteps):] = 0.0
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
-- 
2.43.0


From ec87c5a23a8879257f87e1860fb80e29e8179fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:00 +0000
Subject: [PATCH 14/18] fix: information measures failed on perfectly
 anti-correlated samples

The bin count formula diverges at corr = -1 as it does at corr = 1: var_info(x, -x)
raised OverflowError, and nearly anti-correlated samples asked for huge histograms.
---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index b468fb5..06783c7 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -16,7 +16,7 @@ def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
         return _get_optimal_nb_bins(x.shape[0], None)
     else:
         corr = np.corrcoef(x, y)[0, 1]
-        if corr == 1 or abs(corr - 1) < 1e-5:
+        if abs(abs(corr) - 1) < 1e-5:
             return _get_optimal_nb_bins(x.shape[0], None)
         else:
             return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-- 
2.43.0


From 1fdca25a16ff4a25455ed4ad1bfd5d2d7ebfc35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:46 +0000
Subject: [PATCH 15/18] fix: Marchenko-Pastur density of integer eigenvalues
 was truncated to zero

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 98041ac..8163690 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -240,7 +240,7 @@ def _marchenko_pastur_pdf(var: float, num_timesteps: int, num_assets: int, eigen
 
     q = num_timesteps / num_assets
     e_min, e_max = _marcenko_pastur_support(var, num_timesteps, num_assets)
-    pdf = np.zeros_like(eigen_values)
+    pdf = np.zeros_like(eigen_values, dtype=float)
     mask = np.logical_and(eigen_values > e_min, eigen_values < e_max)
     pdf[mask] = (
         q
-- 
2.43.0


From 314a0d45d5b2e03eb6a7d9b7fa6a497a860c70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:46 +0000
Subject: [PATCH 16/18] fix: denoised integer eigenvalues were truncated,
 losing part of their sum

---
 quantfinlib/math/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index 8163690..1f4cfc5 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -391,7 +391,7 @@ def _eigen_values_denoise(
     info["k"] = k
     # All eigenvalues below "max_noise_eig_val" are considered noise components,
     # we will replace those with their mean.
-    improved_eigen_values = eigen_values.copy()
+    improved_eigen_values = eigen_values.astype(float)
     improved_eigen_values[k:] = np.mean(eigen_values[k:])
     return improved_eigen_values, info
 
-- 
2.43.0


From df0c08420405e731a3a1716ecd38ef3832a1c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 17/18] fix: a three-entry index is daily only when its steps
 are one day

---
 quantfinlib/_datatypes/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 4cf113d..eb71034 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -110,7 +110,7 @@ def time_series_freq(ts_obj) -> Optional[str]:
 
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
-    daily_resolution = len(time_deltas) - daily_count <= 2
+    daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
     if daily_resolution:
         return "D"
 
-- 
2.43.0


From 126a758259294f8c0ee72836eee71d3cffec5d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:47 +0000
Subject: [PATCH 18/18] fix: a group spanning a whole fold is an error for date
 labels too, not an empty test fold

---
 quantfinlib/train_test_split/kfoldpe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index 422daf9..4357f17 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -145,6 +145,8 @@ class TimeAwareKFold(BaseCV):
         # fix the bounds of the folds so that there is no overlap between their groups
         bound_per_fold = np.array([[test_indices[0], test_indices[-1]] for test_indices in test_indices_per_fold])
         bound_per_fold = _modify_fold_bounds(bound_per_fold=bound_per_fold, groups=groups)
+        if np.any(bound_per_fold[:, 1] < bound_per_fold[:, 0]):
+            raise ValueError("A group spans an entire fold: use fewer folds or smaller groups.")
         test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
         if self.look_forward:
             test_indices_per_fold = test_indices_per_fold[1:]
-- 
2.43.0

