From dc139888814451c03e45be5a9e38b701f5358f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 01/44] fix: draw the LTS and S starts from a local generator,
 not the global one

---
 robpy/regression/lts.py | 5 ++---
 robpy/regression/s.py   | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index fcb2ce7..7c4698f 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -169,7 +169,6 @@ class FastLTSRegression(RobustRegression):
         Returns:
             List of models, List of losses and List of h subsets.
         """
-        np.random.seed(self.random_state)
         lr_models = []
         losses = []
         h_subsets = []
@@ -214,8 +213,8 @@ class FastLTSRegression(RobustRegression):
             LinearRegression: A Linear Regression model fitted on a random subset.
         """
         n_obs, n_features = X.shape  # n, p
-        np.random.seed(random_state)
-        subset_idx = np.random.choice(n_obs, n_features + 1, replace=False)
+        rng = np.random.RandomState(random_state)
+        subset_idx = rng.choice(n_obs, n_features + 1, replace=False)
         lr_model = LinearRegression().fit(X[subset_idx], y[subset_idx])
         return lr_model
 
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index f06d0b5..455f21b 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -167,8 +167,8 @@ class SRegression(RobustRegression):
         models = []
         scales = []
         for seed in range(self.random_state, self.random_state + self.n_initial_subsets):
-            np.random.seed(seed)
-            sample_idx = np.random.choice(X.shape[0], X.shape[1] + 1, replace=False)
+            rng = np.random.RandomState(seed)
+            sample_idx = rng.choice(X.shape[0], X.shape[1] + 1, replace=False)
             model = WLS(y[sample_idx], X[sample_idx]).fit()
             residuals = model.predict(X) - y
             scale = np.median(np.abs(residuals)) / 0.6745
-- 
2.43.0


From db9dbdf14f018a6d15559d4b81f37b30b09e8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 02/44] fix: fit a copy of the passed sub-estimator, not the
 shared default itself

---
 robpy/outliers/ddc.py          | 5 ++++-
 robpy/preprocessing/scaling.py | 5 ++++-
 robpy/regression/mm.py         | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b09026c..cabb327 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 import seaborn as sns
@@ -311,8 +313,9 @@ class DDC(OutlierMixin):
 
     def _fit_scaler(self, X: pd.DataFrame):
         self.location_, self.scale_ = [], []
+        scale_estimator = deepcopy(self.scale_estimator)
         for i in range(X.shape[1]):
-            est = self.scale_estimator.fit(X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])])
+            est = scale_estimator.fit(X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])])
             self.location_.append(est.location)
             self.scale_.append(est.scale)
 
diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 68f99d0..16e6684 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 from sklearn.base import (
@@ -39,8 +41,9 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.locations_ = np.zeros(X.shape[1])
         self.scales_ = np.ones(X.shape[1])
 
+        scale_estimator = deepcopy(self.scale_estimator)
         for feature_idx in range(X.shape[1]):
-            fitted_estimator = self.scale_estimator.fit(X[:, feature_idx], ignore_nan)
+            fitted_estimator = scale_estimator.fit(X[:, feature_idx], ignore_nan)
             if self.with_centering:
                 self.locations_[feature_idx] = fitted_estimator.location
             if self.with_scaling:
diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index fc2a958..3fb652c 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 
@@ -45,7 +47,7 @@ class MMRegression(RobustRegression):
 
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
-        self.model = self.initial_estimator.fit(X, y)
+        self.model = deepcopy(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
         for i in range(self.max_iterations):
-- 
2.43.0


From 8f618720c3a5f70d0b60b7b907a0f490c7cc79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 03/44] fix: use the ROBPCA seed in its final MCD step

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a94a407..862807f 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -105,7 +105,7 @@ class ROBPCA(RobustPCA):
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
-            mcd = FastMCD().fit(self.transform(X))
+            mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
-- 
2.43.0


From b324d1e0d1e1ed67a97caecbac0e8e65e7020792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 04/44] fix: draw different Stahel-Donoho directions when a
 seed is given

---
 robpy/utils/outlyingness.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 977c90b..cfacb87 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -33,9 +33,10 @@ def stahel_donoho(
           kovarianzmatrizen (Doctoral dissertation, ETH Zurich).
     """
     # step 1: get random directions
+    rng = np.random.default_rng(random_seed)
     D = np.hstack(
         [
-            _get_random_direction(X, n_points=n_points, random_seed=random_seed).reshape(-1, 1)
+            _get_random_direction(X, n_points=n_points, random_seed=rng).reshape(-1, 1)
             for _ in range(n_dir)
         ]
     )  # (n_features, n_dir)
@@ -54,14 +55,15 @@ def stahel_donoho(
 def _get_random_direction(
     X: np.ndarray,
     n_points: int = 2,
-    random_seed: int | None = None,
+    random_seed: int | np.random.Generator | None = None,
 ) -> np.ndarray:
     """Get direction orthogonal to the hyperplane spanned by random points in X.
 
     Args:
         X (np.ndarray): data matrix (n x p).
         n_points (int, optional): number of points to determine the hyperplane. Defaults to 2.
-        random_seed (int | None, optional): can be used to provide a random seed. Defaults to None.
+        random_seed (int | Generator | None, optional): can be used to provide a random seed or
+            generator. Defaults to None.
 
     Returns:
         np.ndarray: vector of shape (p, ) indicating the direction.
-- 
2.43.0


From 1012aee731d6f5d3b2d3eec97cf07f316fc76a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 05/44] fix: ignore undefined directions through coinciding
 points in Stahel-Donoho

---
 robpy/utils/outlyingness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index cfacb87..477a784 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -45,7 +45,8 @@ def stahel_donoho(
 
     # step 3: outlyingness
     # to do: let scale and loc estimators be passed as arguments
-    return np.max(
+    # directions through coinciding points are undefined (nan) and hence ignored
+    return np.nanmax(
         np.abs(projections - np.median(projections, axis=0))
         / median_abs_deviation(projections, axis=0),
         axis=1,
-- 
2.43.0


From d6c228cf8bab87446eb27cf95d266d3963e7e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 06/44] fix: do not overwrite the alpha parameter of CellMCD
 and InitialDDCW during fit

---
 robpy/covariance/cellmcd.py      | 25 ++++++++++++++-----------
 robpy/covariance/initial_ddcw.py |  4 ++--
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5c01467..f7153a1 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -80,7 +80,7 @@ class CellMCD(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
@@ -94,10 +94,10 @@ class CellMCD(RobustCovariance):
 
         # Step 1: Check that there aren't too many marginal outliers and too many nan's.
         #         Check that there are enough observations compared to variables.
-        self._check_data(X_scaled)
+        self._check_data(X_scaled, alpha)
 
         # Step 2: calculate the initial estimates
-        ddcw = InitialDDCW(alpha=self.alpha, min_eigenvalue=self.min_eigenvalue)
+        ddcw = InitialDDCW(alpha=alpha, min_eigenvalue=self.min_eigenvalue)
         ddcw.fit(X_scaled)
         initial_location = ddcw.location_
         initial_cov = ddcw.covariance_
@@ -106,7 +106,7 @@ class CellMCD(RobustCovariance):
 
         # Step 3: MCD iterations (we work with X_scaled)
         location, cov, cov_inv, W = self._C_steps_until_convergence(
-            X_scaled, initial_location, initial_cov, initial_cov_inv
+            X_scaled, initial_location, initial_cov, initial_cov_inv, alpha
         )
         # Step 4: make prediction
         predictions, conditional_variances = self._make_predictions(
@@ -341,6 +341,7 @@ class CellMCD(RobustCovariance):
         initial_location: np.array,
         initial_cov: np.ndarray,
         initial_cov_inv: np.ndarray,
+        alpha: float,
     ):
         """Perform C-steps (update W, location and covariance) until convergence.
 
@@ -349,10 +350,11 @@ class CellMCD(RobustCovariance):
         - initial_location (np.array): initial location estimate
         - initial_cov (np.ndarray): initial covariance estimate
         - initial_cov_inv (np.ndarray): inverse of the initial covariance estimate
+        - alpha (float): fraction of the cells that must remain unflagged in each column
         """
         n, p = X_scaled.shape
 
-        h = round(self.alpha * n)
+        h = round(alpha * n)
         initial_W = np.ones([n, p])
         initial_W[np.isnan(X_scaled)] = 0
         objective_values = np.full(self.max_c_steps + 1, np.nan)
@@ -633,28 +635,29 @@ class CellMCD(RobustCovariance):
 
         return predictions, conditional_variances
 
-    def _check_data(self, X_scaled: np.ndarray):
+    def _check_data(self, X_scaled: np.ndarray, alpha: float):
         """Checks that there aren't too many nans or marginal outliers per column. Checks
         that there are enough observations.
 
         Arguments:
-            X_scaled (np.ndarray): robustly standardized data set."""
+            X_scaled (np.ndarray): robustly standardized data set.
+            alpha (float): fraction of the cells that must remain unflagged in each column."""
 
         X = np.copy(X_scaled)
 
         cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
-        if np.max(n_marginal_outliers) > 1 - self.alpha:
+        if np.max(n_marginal_outliers) > 1 - alpha:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of "
+                f"\nAt least one variable has more than {100 * (1 - alpha)}% of "
                 "marginal  outliers."
             )
 
         X[np.abs(X) > cutoff] = np.nan
         n_bad_values = np.isnan(X).sum(axis=0) / X.shape[0]
-        if np.max(n_bad_values) > 1 - self.alpha:
+        if np.max(n_bad_values) > 1 - alpha:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of nan's or "
+                f"\nAt least one variable has more than {100 * (1 - alpha)}% of nan's or "
                 "marginal outliers."
             )
 
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index a309e70..ddfe7a9 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -55,14 +55,14 @@ class InitialDDCW(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
         # DDC with constraint -> imputed and rescaled Zimp:
         ddc = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
         W = np.copy(ddc.cellwise_outliers_)
-        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha)[0]
+        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - alpha)[0]
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-- 
2.43.0


From 4ddd2ba31c5036353ce1f33749b55b6d5a5a357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 07/44] fix: make every DataCleaner.transform call independent
 of earlier calls

---
 robpy/preprocessing/data_cleaner.py | 59 +++++++++++++++--------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 49d6d82..b16ffb0 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -84,20 +84,23 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self._check_minimum_rows(n)
         self.logger.info(f"The input data has {n} rows and {p} columns.")
         X = X.replace([np.inf, -np.inf], np.nan)
-        self._set_row_numbers_cols(X)
-        self._set_missing_cols_and_rows(X)
+        cols_rownumbers = self._get_row_numbers_cols(X)
+        cols_missings, rows_missings = self._get_missing_cols_and_rows(X)
 
         X = X.drop(
             columns=(
                 self.non_numeric_cols
                 + self.cols_discrete
                 + self.cols_bad_scale
-                + self.cols_rownumbers
-                + self.cols_missings
+                + cols_rownumbers
+                + cols_missings
             ),
         )
 
-        X = X.drop(index=self.rows_missings)
+        X = X.drop(index=rows_missings)
+        self.cols_rownumbers = cols_rownumbers
+        self.cols_missings = cols_missings
+        self.rows_missings = rows_missings
 
         self.logger.info(f"The final data has {X.shape[0]} rows and {X.shape[1]} columns.")
 
@@ -161,29 +164,31 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X.apply(lambda s: pd.to_numeric(s.fillna(0), errors="coerce")).isna().any()
         ].tolist()
 
-    def _set_row_numbers_cols(self, X: pd.DataFrame):
+    def _get_row_numbers_cols(self, X: pd.DataFrame) -> list:
         """Check that no column consists of the row numbers."""
-        self.cols_rownumbers = [col for col in X.columns if np.all(X[col] == np.arange(0, len(X)))]
+        return [col for col in X.columns if np.all(X[col] == np.arange(0, len(X)))]
 
-    def _set_missing_cols_and_rows(self, X: pd.DataFrame):
-        """Clean missing values."""
-        if self.clean_na_first == "automatic":
-            self.clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+    def _get_missing_cols_and_rows(self, X: pd.DataFrame) -> tuple[list, list]:
+        """Get the columns and rows with too many missing values."""
+        clean_na_first = self.clean_na_first
+        if clean_na_first == "automatic":
+            clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
-        if self.clean_na_first == "columns":
-            self._set_missing_cols(X)
-            self._set_missing_rows(X)
-        elif self.clean_na_first == "rows":
-            self._set_missing_rows(X)
-            self._set_missing_cols(X)
+        if clean_na_first == "columns":
+            cols_missings = self._get_missing_cols(X)
+            rows_missings = self._get_missing_rows(X.drop(columns=cols_missings))
+        elif clean_na_first == "rows":
+            rows_missings = self._get_missing_rows(X)
+            cols_missings = self._get_missing_cols(X.drop(index=rows_missings))
         else:
             raise ValueError(
                 'The argument clean_na_first should be "automatic", "rows" or "columns", '
-                f'but received "{self.clean_na_first}".'
+                f'but received "{clean_na_first}".'
             )
+        return cols_missings, rows_missings
 
     def _get_discrete_columns_to_drop(self, X: pd.DataFrame):
         """Store columns with a small number of unique values (discrete columns) to drop."""
@@ -201,14 +206,10 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             <= self.min_abs_scale
         ].tolist()
 
-    def _set_missing_cols(self, X: pd.DataFrame):
-        """Remove columns with too many missings"""
-        if hasattr(self, "rows_missings"):
-            X = X.drop(index=self.rows_missings)
-        self.cols_missings = X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
-
-    def _set_missing_rows(self, X: pd.DataFrame):
-        """Remove rows with too many missings"""
-        if hasattr(self, "cols_missings"):
-            X = X.drop(columns=self.cols_missings)
-        self.rows_missings = X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
+    def _get_missing_cols(self, X: pd.DataFrame) -> list:
+        """Get the columns with too many missings"""
+        return X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
+
+    def _get_missing_rows(self, X: pd.DataFrame) -> list:
+        """Get the rows with too many missings"""
+        return X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
-- 
2.43.0


From c3ad9aad322b072def4648e47afc1d687a34b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 08/44] fix: keep the last successful S-regression model when
 an i-step fails

---
 robpy/regression/s.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 455f21b..c02d0a3 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -87,6 +87,8 @@ class SRegression(RobustRegression):
         if self.fit_intercept:
             X = add_constant(X)
         models, scales = self._get_initial_models(X, y)
+        if not models:
+            raise np.linalg.LinAlgError("The i-steps failed on all initial subsets.")
         self.logger.info(f"Fitted {len(models)} initial models.")
         best_idx = np.argsort(scales)[: self.n_best_subsets]
         best_models = []
@@ -108,7 +110,7 @@ class SRegression(RobustRegression):
                         f"Starting scale was: {previous_s}. Failed iteration = {n_iter}."
                         f"Storing model after last successfull i-step."
                     )
-                    m.n_iter = n_iter
+                    previous_m.n_iter = n_iter
                     best_models.append(previous_m)
                     best_scales.append(previous_s)
                     break
-- 
2.43.0


From 682d72c02df7a2257d5c0fe16e881235a2c13208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 09/44] fix: weight the intercept too in the weighted least
 squares steps of MMRegression

---
 robpy/regression/mm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 3fb652c..e76f8a8 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -54,9 +54,7 @@ class MMRegression(RobustRegression):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
-            self.model = LinearRegression().fit(
-                np.sqrt(weights).reshape(-1, 1) * X, np.sqrt(weights) * y
-            )
+            self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
-- 
2.43.0


From 93c561cb39d35c07ef4cd5b6bd624edac08ccb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 10/44] fix: handle zero residuals and zero scale in
 MMRegression

---
 robpy/regression/mm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index e76f8a8..b243907 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -50,9 +50,13 @@ class MMRegression(RobustRegression):
         self.model = deepcopy(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
+        if self._scale == 0:  # exact fit
+            return self
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
+            # avoid divide by 0 errors
+            scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
-- 
2.43.0


From 9f4cd03dcef31cfbb9ebc09b6dfb2068a51fc626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 11/44] fix: accept initial estimators of MMRegression that
 predict a column

---
 robpy/regression/mm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index b243907..a05becf 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -53,13 +53,13 @@ class MMRegression(RobustRegression):
         if self._scale == 0:  # exact fit
             return self
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X)
+            residuals = y - self.model.predict(X).reshape(y.shape)
             scaled_residuals = residuals / self._scale
             # avoid divide by 0 errors
             scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
-            new_residuals = y - self.model.predict(X)
+            new_residuals = y - self.model.predict(X).reshape(y.shape)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
                 break
-- 
2.43.0


From 9027856be05b1282456c62daaa50435340ba9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 12/44] fix: let S-regression terminate on (near) exact fits

---
 robpy/regression/s.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index c02d0a3..41b29c4 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -8,6 +8,8 @@ from statsmodels.regression.linear_model import RegressionResultsWrapper
 from robpy.regression.base import RobustRegression, _convert_input_to_array
 from robpy.utils.rho import BaseRho, TukeyBisquare
 
+MAX_I_STEPS = 500  # upper limit on the i-steps until convergence
+
 
 class SRegression(RobustRegression):
     def __init__(
@@ -114,7 +116,7 @@ class SRegression(RobustRegression):
                     best_models.append(previous_m)
                     best_scales.append(previous_s)
                     break
-                if self._converged(previous_m.params, m.params):
+                if n_iter >= MAX_I_STEPS or self._converged(previous_m.params, m.params):
                     m.n_iter = n_iter
                     best_models.append(m)
                     best_scales.append(s)
@@ -136,9 +138,11 @@ class SRegression(RobustRegression):
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
+        if s0 == 0:  # exact fit for at least half of the residuals
+            return 0.0
         for i in range(self.max_scale_iterations):
             new_s = s0 * np.sqrt(np.mean(self.rho.rho(residuals / s0)) / self.b)
-            if np.abs(s0 - new_s) < self.scale_tolerance:
+            if new_s == 0 or np.abs(s0 - new_s) < self.scale_tolerance:
                 break
             s0 = new_s
         return new_s
@@ -159,8 +163,13 @@ class SRegression(RobustRegression):
         if initial_scale is None:
             initial_scale = np.median(np.abs(residuals)) / 0.6745
         new_scale = self._get_scale(s0=initial_scale, residuals=residuals)
-        residuals[residuals == 0] = np.finfo(np.float64).eps  # avoid divide by 0 errors
-        weights = self.rho.psi(residuals / new_scale) / (residuals / new_scale)
+        if new_scale == 0:
+            weights = (residuals == 0).astype(float)
+        else:
+            scaled_residuals = residuals / new_scale
+            # avoid divide by 0 errors
+            scaled_residuals[scaled_residuals == 0] = np.finfo(np.float64).eps
+            weights = self.rho.psi(scaled_residuals) / scaled_residuals
         model = WLS(endog=y, exog=X, weights=weights).fit()
         model.weights = weights
         return model, new_scale
-- 
2.43.0


From 5ae2b7e60eeb15c2c86684e0f6a3e7bad2b9dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 13/44] fix: reweight LTS with the robust raw scale instead of
 the standard deviation

---
 robpy/regression/lts.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index 7c4698f..ce9ec07 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -137,7 +137,8 @@ class FastLTSRegression(RobustRegression):
         )
         if self.reweighting:
             residuals = y.reshape(-1, 1) - self.predict(X)
-            mask = (np.abs(residuals / np.std(residuals)) <= norm.ppf(0.9875)).flatten()
+            cutoff = norm.ppf(0.9875) * self._scale * get_consistency_factor(h, X.shape[0])
+            mask = (np.abs(residuals) <= cutoff).flatten()
             self.model = LinearRegression().fit(X[mask, :], y[mask])
             new_subset = np.arange(X.shape[0])[mask]
             best_loss = self._get_loss_value(X, y, new_subset, self.model)
@@ -315,6 +316,20 @@ class FastLTSRegression(RobustRegression):
         return h_subset_idx, lr_model
 
 
+def get_consistency_factor(h: int, n: int) -> float:
+    """
+    Calculate the factor that makes the raw LTS scale, based on the h smallest of n squared
+    residuals, consistent at the normal model.
+
+    References:
+     - https://github.com/cran/robustbase/blob/c4b9d21cfc4beb64653bb2ffba9e549e2dbb98ed/R/ltsReg.R
+    """
+    if h >= n:
+        return 1.0
+    q = norm.ppf((h + n) / (2 * n))
+    return 1 / np.sqrt(1 - 2 * n / h * q * norm.pdf(q))
+
+
 def get_correction_factor(p: int, n: int, alpha: float) -> float:
     """
     Calculate the small sample correction factor for the scale resulting from LTS regression when
-- 
2.43.0


From b3caa2757221b7ff067161352aa5e84e1be7260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 14/44] fix: stop the C-steps of FastLTS when the loss
 overflows

---
 robpy/regression/lts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index ce9ec07..3301f2f 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -277,7 +277,7 @@ class FastLTSRegression(RobustRegression):
                 f"Iteration {iteration}: current loss = {current_loss:.3f}, "
                 f"previous loss = {previous_loss:.3f}"
             )
-            if (previous_loss - current_loss) <= tolerance:
+            if not (previous_loss - current_loss) > tolerance:  # also stops if the loss is nan
                 break
             previous_loss = current_loss
             iteration += 1
-- 
2.43.0


From 11c93768d00716c6da53ab2ebf53244c1e93e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 15/44] fix: concentrate the best MCD subsets until convergence

---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cbc70be..11fca22 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -129,7 +129,7 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or not (subset.determinant - new_subset.determinant) >= self.tolerance
                 ):
                     break
                 subset = new_subset
@@ -340,7 +340,7 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or not (subset.determinant - new_subset.determinant) >= self.tolerance
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From 632b2efdefecf0dbf9918b0992f36b6e5bf57b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 16/44] fix: support an integer alpha in FastMCD when the data
 are partitioned

---
 robpy/covariance/mcd.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 11fca22..78a978d 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -102,6 +102,7 @@ class FastMCD(RobustCovariance):
             self.location_ = X.mean(0)
             return np.cov(X, rowvar=False)
         self.rng = np.random.default_rng(self.random_seed)
+        self._n_total = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
         partitions = self._partition_data(X)
         self.logger.info(f"Partitioned data into {len(partitions)} partitions")
@@ -195,25 +196,29 @@ class FastMCD(RobustCovariance):
 
     def _get_h(self, X: np.ndarray) -> int:
         n, p = X.shape
-        if self.alpha is None:
+        alpha = self.alpha
+        n_total = getattr(self, "_n_total", n)
+        if isinstance(alpha, int) and alpha != 1 and n < n_total:
+            alpha = alpha / n_total  # same proportion in a partition of the data
+        if alpha is None:
             return int((n + p + 1) / 2)
-        elif isinstance(self.alpha, int) and (n / 2 <= self.alpha <= n):
-            if self.alpha < int((n + p + 1) / 2):
+        elif isinstance(alpha, int) and (n / 2 <= alpha <= n):
+            if alpha < int((n + p + 1) / 2):
                 warnings.warn(
                     f"h is too small and therefore set to [(n+p+1)/2] ({int((n + p + 1) / 2)}).",
                     category=UserWarning,
                     stacklevel=2,
                 )
-            return np.max([self.alpha, int((n + p + 1) / 2)])
-        elif (isinstance(self.alpha, float) and (0.5 <= self.alpha <= 1)) or self.alpha == 1:
-            if int(self.alpha * n) < int((n + p + 1) / 2):
+            return np.max([alpha, int((n + p + 1) / 2)])
+        elif (isinstance(alpha, float) and (0.5 <= alpha <= 1)) or alpha == 1:
+            if int(alpha * n) < int((n + p + 1) / 2):
                 warnings.warn(
                     f"h = alpha*n is too small and therefore set to [(n+p+1)/2]"
                     f" ({int((n + p + 1) / 2)}).",
                     category=UserWarning,
                     stacklevel=2,
                 )
-            return np.max([int(self.alpha * n), int((n + p + 1) / 2)])
+            return np.max([int(alpha * n), int((n + p + 1) / 2)])
         else:
             raise ValueError(
                 f"alpha must be an integer between n/2 and n or"
-- 
2.43.0


From 33e314b0d5af8fbe1cf2ecd1d8ffa1cc44ddc72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 17/44] fix: let the L1 median and spherical PCA handle a point
 at the center

---
 robpy/pca/spca.py     |  2 +-
 robpy/utils/median.py | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 11cc106..7496dda 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -37,7 +37,7 @@ class PCALocantore(RobustPCA):
         self.location_ = l1median(X)
         centered_X = X - self.location_
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        w = 1 / d
+        w = np.divide(1, d, out=np.zeros_like(d), where=d > 0)
         spatial_sign_covariance = (
             np.dot((centered_X * w[:, np.newaxis]).T, (centered_X * w[:, np.newaxis])) / n
         )
diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index cfdef98..9c0a504 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -13,16 +13,26 @@ def l1median(X: np.ndarray) -> float:
           multivariate L1-median. Computational Statistics, 27, 393-410.
     """
     epsilon = 1e-7
+    max_iterations = 1000
     mu_0 = np.mean(X, axis=0)
-    while True:
+    for _ in range(max_iterations):
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = 1 / d
-        mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        coincides = d == 0
+        if np.all(coincides):
+            return mu_0
+        W = 1 / d[~coincides]
+        mu_1 = np.sum((X[~coincides] * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        if np.any(coincides):
+            # modification of Vardi & Zhang (2000) for an iterate that is one of the data points
+            pull = np.linalg.norm(np.sum(centered_X[~coincides] * W[:, np.newaxis], axis=0))
+            stay = 1.0 if pull == 0 else min(1.0, np.sum(coincides) / pull)
+            mu_1 = (1 - stay) * mu_1 + stay * mu_0
         if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
             return mu_1
         else:
             mu_0 = mu_1
+    return mu_0
 
 
 def weighted_median(X: np.ndarray, weights: np.ndarray) -> float:
-- 
2.43.0


From f111aa54bd6eecfb8e672e79f3e8c28f2b529d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 18/44] fix: do not keep a reference to the caller's data in
 CellMCD

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index f7153a1..b02ab99 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -132,7 +132,7 @@ class CellMCD(RobustCovariance):
         self.X_imputed = X_imputed
         self.residuals = residuals
         self.covariance_ = cov
-        self.X = X
+        self.X = X.copy()
 
         return cov
 
-- 
2.43.0


From 79a2ed7fac8c9f468d4c36632fa657447448d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 19/44] fix: keep the previous W in CellMCD when a C-step is
 rejected

---
 robpy/covariance/cellmcd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index b02ab99..30fb60a 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -452,6 +452,7 @@ class CellMCD(RobustCovariance):
         This is done per column."""
 
         n = W.shape[0]
+        W = W.copy()
         ordering = np.argsort(np.sum(W, axis=0), kind="stable")
         for j in ordering:
             delta = self._calculate_delta(X, W, sigma, sigma_inv, mu, j)
-- 
2.43.0


From 196e02ebbb916943b12701ba15d392a2f5f80d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 20/44] fix: support verbose DDC fits with less than 10 columns

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index cabb327..28f405b 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -337,7 +337,7 @@ class DDC(OutlierMixin):
         """
         correlation = np.ones((X.shape[1], X.shape[1]))
         for i in range(X.shape[1]):
-            if verbose and i % (X.shape[1] // 10) == 0:
+            if verbose and i % max(1, X.shape[1] // 10) == 0:
                 print(
                     f"Correlation: Processing column {i + 1} of {X.shape[1]} "
                     f"({((i + 1) / X.shape[1]):.1%})"
-- 
2.43.0


From 67f45960e651513981709be3057322a5643241eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 21/44] fix: raise the documented error when an unfitted DDC is
 queried

---
 robpy/outliers/ddc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 28f405b..c2c9e3e 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -118,7 +118,7 @@ class DDC(OutlierMixin):
             - If rowwise is False: A matrix of shape (n_samples, n_features) with cellwise outliers
               and an array containing the standardized residuals of the cells.
         """
-        if not self.is_fitted_:
+        if not getattr(self, "is_fitted_", False):
             raise ValueError("Model not fitted yet.")
         if not X.shape[1] == self.cellwise_outliers_.shape[1]:
             raise ValueError(
@@ -195,7 +195,7 @@ class DDC(OutlierMixin):
         return row_outliers
 
     def impute(self, X: pd.DataFrame, impute_outliers: bool = True) -> pd.DataFrame:
-        if not self.is_fitted_:
+        if not getattr(self, "is_fitted_", False):
             raise ValueError("Model not fitted yet.")
         if X.shape[1] != self.cellwise_outliers_.shape[1]:
             raise ValueError(
@@ -266,7 +266,7 @@ class DDC(OutlierMixin):
         Returns:
             Axes: The matplotlib axes with the heatmap.
         """
-        if not self.is_fitted_:
+        if not getattr(self, "is_fitted_", False):
             raise ValueError("Model not fitted yet.")
         if cmap == "custom":
             cmap = get_custom_cmap(vmax_clip)
-- 
2.43.0


From a4d8257b674e8ce3ca7e4d4f884e63a4cee912be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 22/44] fix: bound each value separately in the inverse power
 transformation

---
 robpy/preprocessing/transfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 776a8cf..08242d2 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -234,7 +234,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     def _handle_bounds(self, x: np.ndarray):
         lower_bound, upper_bound = self._calculate_bounds()
 
-        if lower_bound is not None and np.min(x) < lower_bound:
+        if lower_bound is not None and np.any(x < lower_bound):
             new_bound = 0.95 * lower_bound
             self.logger.info(
                 f"Some (standardized) values in x are below the range of the {self.method} "
@@ -243,7 +243,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             )
             x = np.where(x < lower_bound, new_bound, x)
 
-        if upper_bound is not None and np.max(x) > upper_bound:
+        if upper_bound is not None and np.any(x > upper_bound):
             new_bound = 0.95 * upper_bound
             self.logger.info(
                 f"Some (standardized) values in x are above the range of the {self.method} "
-- 
2.43.0


From 25159fb81b2f9bbd44c92d5b34ce7ea73235cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 23/44] fix: leave the log handlers installed by the
 application alone

---
 robpy/utils/logging.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/logging.py b/robpy/utils/logging.py
index de27ff9..6d86a56 100644
--- a/robpy/utils/logging.py
+++ b/robpy/utils/logging.py
@@ -1,4 +1,19 @@
 import logging
+import sys
+
+
+class _StderrHandler(logging.StreamHandler):
+    """Handler that writes to whatever sys.stderr currently is."""
+
+    def __init__(self):
+        logging.Handler.__init__(self)
+
+    @property
+    def stream(self):
+        return sys.stderr
+
+
+_HANDLERS: dict[str, logging.Handler] = {}
 
 
 def get_logger(name: str, level: int = logging.INFO) -> logging.Logger:
@@ -14,9 +29,8 @@ def get_logger(name: str, level: int = logging.INFO) -> logging.Logger:
     """
     logger = logging.getLogger(name)
     logger.setLevel(level)
-    if logger.hasHandlers():
-        logger.handlers.clear()
-    handler = logging.StreamHandler()
+    # one handler per logger, handlers installed by the application are left alone
+    handler = _HANDLERS.setdefault(name, _StderrHandler())
     handler.setLevel(level)
     logger.addHandler(handler)
     return logger
-- 
2.43.0


From 3b38583f2cb6a2cabdd9dddfa807f0ec2e610309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 24/44] fix: store lambda_range as given and allow it to be
 extended during the fit

---
 robpy/preprocessing/transfo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 08242d2..eb2411c 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -42,7 +42,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         self.method = method
         self.standardize = standardize
-        self.lambda_range = list(lambda_range)
+        self.lambda_range = lambda_range
         self.quantile = quantile
         self.nsteps = nsteps
         self.logger = logging.getLogger("RobustPowerTransformer")
@@ -154,7 +154,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
         while not converged:
             if self.standardize:
@@ -185,7 +185,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
         while not converged:
             if self.standardize:
-- 
2.43.0


From f39143e360fb177085f88f9e982dd9c0cdb1e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 25/44] fix: standardize only once when the lambda range has to
 be extended

---
 robpy/preprocessing/transfo.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index eb2411c..d549df0 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -156,12 +156,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
+        if self.standardize:
+            scale_boxcox = np.median(x)
+            x = x / scale_boxcox
+        else:
+            scale_boxcox = None
         while not converged:
-            if self.standardize:
-                scale_boxcox = np.median(x)
-                x = x / scale_boxcox
-            else:
-                scale_boxcox = None
             lambda_raw = self._calculate_lambda_0(x, "boxcox_rect", lambdarange)
             lambda_rew, mu_rew_boxcox, sd_rew_boxcox = self._reweighted_max_likelihood_robust(
                 x,
@@ -187,13 +187,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         lambdarange = np.array(self.lambda_range, dtype=float)
         converged = False
+        if self.standardize:
+            loc_yeojohnson = np.median(x)
+            scale_yeojohnson = median_abs_deviation(x, scale="normal")
+            x = (x - loc_yeojohnson) / scale_yeojohnson
+        else:
+            loc_yeojohnson, scale_yeojohnson = None, None
         while not converged:
-            if self.standardize:
-                loc_yeojohnson = np.median(x)
-                scale_yeojohnson = median_abs_deviation(x, scale="normal")
-                x = (x - loc_yeojohnson) / scale_yeojohnson
-            else:
-                loc_yeojohnson, scale_yeojohnson = None, None
             lambda_raw = self._calculate_lambda_0(x, "yeojohnson_rect", lambdarange)
             (
                 lambda_rew,
-- 
2.43.0


From 527055c864f15941c2c8b5a3f9cdf605708039ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 26/44] fix: let Qn terminate on data with ties

---
 robpy/univariate/qn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 949f7a5..3e92d0d 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -54,8 +54,11 @@ class Qn(RobustScale):
         nL = jhelp
         nR = n * n
         found = False
+        n_previous = np.inf
 
-        while (nR - nL) > n and (not found):
+        # stop as well when there is no more progress, due to rounding in the presence of ties
+        while n < (nR - nL) < n_previous and (not found):
+            n_previous = nR - nL
             weight = right - left + 1
             jhelp = (left + weight // 2).astype(int)
             work = y - y[n - jhelp]
-- 
2.43.0


From ead7f14378cc0eb5fad41977443faf96c7ab8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 27/44] fix: read the data set descriptions as utf-8 whatever
 the locale

---
 robpy/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/datasets/base.py b/robpy/datasets/base.py
index c672472..2f46c3b 100644
--- a/robpy/datasets/base.py
+++ b/robpy/datasets/base.py
@@ -30,7 +30,7 @@ def _load_data_and_descr(
 
     df = pd.read_csv(DATA_FOLDER / data_file_name)
 
-    with open(DESCR_FOLDER / descr_file_name, "r") as f:
+    with open(DESCR_FOLDER / descr_file_name, "r", encoding="utf-8") as f:
         fdescr = f.read()
 
     data = df[feature_names]
-- 
2.43.0


From f012217d73014c7337b75c7ac6cfe5774cf15d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 28/44] fix: let SRegression always add its intercept column

statsmodels' add_constant silently skips the column when another column of
the passed records is constant, in particular for a single record, so predict
failed or answered differently depending on the batch.
---
 robpy/regression/s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 41b29c4..19ae447 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -87,7 +87,7 @@ class SRegression(RobustRegression):
 
         X, y = _convert_input_to_array(X, y)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
         if not models:
             raise np.linalg.LinAlgError("The i-steps failed on all initial subsets.")
@@ -134,7 +134,7 @@ class SRegression(RobustRegression):
             raise NotFittedError
         X, _ = _convert_input_to_array(X)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
-- 
2.43.0


From 10d992039f7bd89376ea71ff746ef34837a452bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 29/44] fix: let DetMCD handle records at the coordinatewise
 median

Their spatial sign was computed as 0/0, so the fit failed on finite data.
---
 robpy/covariance/mcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 78a978d..2d32537 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -404,7 +404,7 @@ class DetMCD(RobustCovariance):
         S2 = np.corrcoef(R, rowvar=False)
         S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
-        w = 1 / znorm
+        w = np.divide(1, znorm, out=np.zeros(n), where=znorm > 0)  # the sign of 0 is 0
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
         S5 = np.cov(Z[idx, :], rowvar=False)
-- 
2.43.0


From 64d4f7e7d0313bb48ef7dcb4124e22cc1e1648cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 30/44] fix: PCA estimators keep the n_components parameter
 given by the user

---
 robpy/pca/base.py   |  5 +++--
 robpy/pca/robpca.py |  5 +++--
 robpy/pca/spca.py   | 16 ++++++++++------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/robpy/pca/base.py b/robpy/pca/base.py
index 27ac2b3..109fbbf 100644
--- a/robpy/pca/base.py
+++ b/robpy/pca/base.py
@@ -13,7 +13,8 @@ class RobustPCA(_BasePCA):
 
         Args:
             n_components (int | None, optional):
-                Number of components to select. If None, it is set during fit.
+                Number of components to select. If None, it is determined during fit. The number
+                of components of the fitted model is stored in n_components_.
 
         """
         self.n_components = n_components
@@ -84,7 +85,7 @@ class RobustPCA(_BasePCA):
         ax.scatter(score_distances, orthogonal_distances)
         ax.set_xlabel("Score distance")
         ax.set_ylabel("Orthogonal distance")
-        score_cutoff = np.sqrt(float(chi2.ppf(0.975, self.n_components)))
+        score_cutoff = np.sqrt(float(chi2.ppf(0.975, self.components_.shape[1])))
         od_cutoff = get_od_cutoff(orthogonal_distances)
         ax.axvline(score_cutoff, color="r", linestyle="--")
         ax.axhline(od_cutoff, color="r", linestyle="--")
diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 862807f..5712b8a 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -26,7 +26,8 @@ class ROBPCA(RobustPCA):
 
         Args:
             n_components (int | None, optional):
-                Number of components to select. If None, it is set during fit. Defaults to None.
+                Number of components to select. If None, it is determined during fit. The number
+                of components of the fitted model is stored in n_components_. Defaults to None.
             k_min_var_explained (float, optional): Minimum variance explained by the components.
                 Only used if n_components is None. Defaults to 0.8.
             alpha (float, optional): Coverage parameter, determines the robustness and efficiency
@@ -110,7 +111,7 @@ class ROBPCA(RobustPCA):
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
-        self.n_components = k
+        self.n_components_ = k
         X = pca.inverse_transform(X)
         self.components_ = loadings @ self.components_
         self.location_ = np.mean(X, axis=0)
diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 7496dda..b8b30d6 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -18,8 +18,9 @@ class PCALocantore(RobustPCA):
 
         Args:
             n_components (int | None, optional):
-                Number of components to select. If None, it is set during fit to explain the
-                minimum variance.
+                Number of components to select. If None, it is determined during fit to explain
+                the minimum variance. The number of components of the fitted model is stored in
+                n_components_.
             k_min_var_explained (float, optional):
                 Minimum variance explained by the components.
                 Only used if n_components is None. Defaults to 0.8.
@@ -46,8 +47,11 @@ class PCALocantore(RobustPCA):
         eigenvalues = np.square(median_abs_deviation(self.transform(X), axis=0, scale="normal"))
         var_explained_ratio = eigenvalues.cumsum() / eigenvalues.sum()
         if self.n_components is None:
-            self.n_components = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
-        self.components_ = self.components_[:, : self.n_components]
-        self.explained_variance_ = eigenvalues[: self.n_components]
-        self.explained_variance_ratio_ = var_explained_ratio[: self.n_components]
+            k = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
+        else:
+            k = self.n_components
+        self.n_components_ = k
+        self.components_ = self.components_[:, :k]
+        self.explained_variance_ = eigenvalues[:k]
+        self.explained_variance_ratio_ = var_explained_ratio[:k]
         return self
-- 
2.43.0


From 9f301021b29104bdf8da90ad79e7f55ad4f5b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 31/44] fix: RobustPowerTransformer keeps the method given by
 the user

---
 robpy/preprocessing/transfo.py | 38 ++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index d549df0..92f039f 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -29,7 +29,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             method (Literal str, optional): Method used for the power transformation.
                 Can be "boxcox" for Box-Cox, "yeojohnson" for Yeo-Johnson, or "auto"
                 for the solution with the lowest objective function. Box-Cox can only be used for
-                strictly positive features. Defaults to "auto".
+                strictly positive features. The method of the fitted transformer is stored in
+                method_. Defaults to "yeojohnson".
             standardize (boolean, optional): Whether to standardize the features before and after
                 the power transformation. Defaults to True.
             quantile (float, optional): Quantile used to calculate the weights. Defaults to 0.99.
@@ -57,12 +58,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         self._get_method(x)
         x_sorted = np.sort(x)
 
-        if self.method in ["boxcox", "auto"]:
+        if self.method_ in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
 
-        if self.method in ["yeojohnson", "auto"]:
+        if self.method_ in ["yeojohnson", "auto"]:
             (
                 lambda_yeojohnson,
                 mu_rew_yeojohnson,
@@ -70,16 +71,16 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 loc_yeojohnson,
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
 
-        if self.method == "auto":
+        if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-                self.method = "boxcox"
+                self.method_ = "boxcox"
             else:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 self.scale_pre = scale_boxcox
                 self.location_post = mu_rew_boxcox
@@ -102,7 +103,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
                     "The data is not strictly positive. Box-Cox transformation "
@@ -130,7 +131,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
             x = self._handle_bounds(x)
@@ -220,13 +221,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
 
         lower_bound, upper_bound = None, None
 
-        if self.method == "boxcox" and self.lambda_rew > 0.0:
+        if self.method_ == "boxcox" and self.lambda_rew > 0.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew)
-        elif self.method == "boxcox" and self.lambda_rew < 0.0:
+        elif self.method_ == "boxcox" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
-        elif self.method == "yeojohnson" and self.lambda_rew > 2.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew > 2.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew - 2.0)
-        elif self.method == "yeojohnson" and self.lambda_rew < 0.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
 
         return lower_bound, upper_bound
@@ -237,7 +238,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if lower_bound is not None and np.any(x < lower_bound):
             new_bound = 0.95 * lower_bound
             self.logger.info(
-                f"Some (standardized) values in x are below the range of the {self.method} "
+                f"Some (standardized) values in x are below the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -246,7 +247,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if upper_bound is not None and np.any(x > upper_bound):
             new_bound = 0.95 * upper_bound
             self.logger.info(
-                f"Some (standardized) values in x are above the range of the {self.method} "
+                f"Some (standardized) values in x are above the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -586,12 +587,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         return lambda_est
 
     def _get_method(self, x: np.ndarray):
+        self.method_ = self.method
         if self.method == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError("The data is not strictly positive. Box-Cox cannot be applied.")
         elif self.method == "auto":
             if np.min(x) <= 0:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
         elif self.method != "yeojohnson":
             raise ValueError(
                 'The only supported methods of transformation are "boxcox", "yeojohnson" or "auto".'
-- 
2.43.0


From 30884bfc1821c0e4058e88072b4aa4889aeb220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 32/44] fix: RobustPowerTransformer does not keep locations and
 scales from an earlier fit

---
 robpy/preprocessing/transfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 92f039f..eceea2c 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -80,6 +80,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             else:
                 self.method_ = "yeojohnson"
 
+        self.location_pre = self.scale_pre = self.location_post = self.scale_post = None
         if self.method_ == "boxcox":
             if self.standardize:
                 self.scale_pre = scale_boxcox
-- 
2.43.0


From c97a96ca69ef283b8c6e137baeae7fb17231aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 33/44] fix: let DDC fit data in which all cells of a record
 are missing

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index c2c9e3e..277b26e 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -187,7 +187,7 @@ class DDC(OutlierMixin):
         """
         raw_t_values_ = np.nanmean(chi2.cdf(standardized_residuals**2, df=1), axis=1)
         if fit:
-            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_)
+            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_, ignore_nan=True)
         standardized_t_values_ = (
             raw_t_values_ - self.t_scale_est.location
         ) / self.t_scale_est.scale
-- 
2.43.0


From 43973c928e244d3821ff0fbd495e09297ab80faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 34/44] fix: let DDC handle columns with fewer than two joint
 observations

---
 robpy/outliers/ddc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 277b26e..e3f00c9 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -345,7 +345,7 @@ class DDC(OutlierMixin):
             for j in range(i + 1, X.shape[1]):
                 xy = X.iloc[:, [i, j]].values
                 xy = xy[~(np.isnan(xy).any(axis=1)), :]
-                if xy.size == 0:
+                if len(xy) < 2:
                     correlation[i, j] = correlation[j, i] = 0
                     continue
                 x, y = xy.T
@@ -364,6 +364,9 @@ class DDC(OutlierMixin):
                     xy, np.array([0, 0]), np.array([[1, xy_corr], [xy_corr, 1]])
                 )
                 xy_subset = xy[distances < self.cutoff, :]
+                if len(xy_subset) < 2:
+                    correlation[i, j] = correlation[j, i] = 0
+                    continue
                 correlation[i, j] = correlation[j, i] = np.corrcoef(xy_subset, rowvar=False)[0, 1]
         return correlation
 
-- 
2.43.0


From 1656c916b391fc600690c561ae0e828069250b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 35/44] fix: use the marginal variances for CellMCD records
 without any clean cell

---
 robpy/covariance/cellmcd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 30fb60a..a7590ff 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -330,7 +330,7 @@ class CellMCD(RobustCovariance):
 
             else:  # all missings in the w-pattern
                 predictions, conditional_variances = self._predict_all_missing(
-                    predictions, conditional_variances, row_idx_w, mu, sigma_inv
+                    predictions, conditional_variances, row_idx_w, mu, sigma
                 )
 
         return predictions, conditional_variances
@@ -627,12 +627,12 @@ class CellMCD(RobustCovariance):
         conditional_variances: np.ndarray,
         row_idx_w: np.array,
         mu: np.array,
-        sigma_inv: np.ndarray,
+        sigma: np.ndarray,
     ):
         """Make predictions when all values in the w-pattern are missing."""
         for index in row_idx_w:
             predictions[index, :] = mu
-            conditional_variances[index, :] = np.diag(sigma_inv)
+            conditional_variances[index, :] = np.diag(sigma)
 
         return predictions, conditional_variances
 
-- 
2.43.0


From 5b2bb5dc40146e448ddfb3ceb58d06dc0c460ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 36/44] fix: use a robust center in ROBPCA

---
 robpy/pca/robpca.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 5712b8a..99474d9 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -56,7 +56,6 @@ class ROBPCA(RobustPCA):
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
-        self.location_ = np.mean(X, axis=0)
         loadings = pca.components_.T
         # step 2: stahel donoho outlyingness --> h subset
         outlyingness = stahel_donoho(X, random_seed=self.random_seed)
@@ -84,6 +83,7 @@ class ROBPCA(RobustPCA):
 
         h_index = np.argsort(outlyingness)[:h]
         h_cov = np.cov(X[h_index], rowvar=False)
+        self.location_ = np.mean(X[h_index], axis=0)
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
         sorted_eig_h_idx = np.argsort(eigvals_h)[::-1]
@@ -100,6 +100,7 @@ class ROBPCA(RobustPCA):
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
         v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
         cov_v = np.cov(X[v_index], rowvar=False)
+        self.location_ = np.mean(X[v_index], axis=0)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
@@ -107,12 +108,12 @@ class ROBPCA(RobustPCA):
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
+            self.location_ = self.location_ + self.components_ @ mcd.location_
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
         self.n_components_ = k
-        X = pca.inverse_transform(X)
+        self.location_ = pca.inverse_transform(self.location_.reshape(1, -1))[0]
         self.components_ = loadings @ self.components_
-        self.location_ = np.mean(X, axis=0)
         return self
-- 
2.43.0


From a37143f37e4d528497967923d680903b20bb1078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 37/44] fix: partition the data of FastMCD at random

---
 robpy/covariance/mcd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 2d32537..99d0e8c 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -230,8 +230,10 @@ class FastMCD(RobustCovariance):
             n_partitions = 5 if X.shape[0] > 600 else 1
         else:
             n_partitions = self.n_partitions
+        if n_partitions == 1:
+            return [X]
 
-        return np.array_split(X, n_partitions)
+        return np.array_split(self.rng.permutation(X), n_partitions)
 
     def _get_subset(
         self,
-- 
2.43.0


From f8ba5732de3f302e1b7c70aafb7e2f1e61940820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 38/44] fix: use a robust center in ROBPCA with one component
 too

---
 robpy/pca/robpca.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 99474d9..dc7b7d8 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -8,6 +8,7 @@ from robpy.pca.base import RobustPCA, get_od_cutoff
 from robpy.utils.outlyingness import stahel_donoho
 from robpy.utils.logging import get_logger
 from robpy.covariance import FastMCD
+from robpy.univariate import UnivariateMCD
 
 
 class ROBPCA(RobustPCA):
@@ -112,6 +113,9 @@ class ROBPCA(RobustPCA):
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
+        elif self.final_MCD_step:
+            mcd = UnivariateMCD().fit(self.transform(X)[:, 0])
+            self.location_ = self.location_ + mcd.location * self.components_[:, 0]
         # step 6: transform back to original X
         self.n_components_ = k
         self.location_ = pca.inverse_transform(self.location_.reshape(1, -1))[0]
-- 
2.43.0


From ad9d859166fc771ce896603eee8d3c173fbbe961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:15 +0000
Subject: [PATCH 39/44] fix: keep fractions when RobustPowerTransformer is
 given integers

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index eceea2c..4738847 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -265,7 +265,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             raise ValueError(
                 "Data values should be strictly positive for a Box-Cox transformation."
             )
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x - 1.0
@@ -343,7 +343,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.log(1.0 + x[positive_mask])
@@ -368,7 +368,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     ):
         """Rectified Yeo-Johnson transformation."""
 
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x
@@ -456,7 +456,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation inversed."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.exp(x[positive_mask]) - 1.0
-- 
2.43.0


From 2e70469e4de107f2efe4869ed31f2a25b0c39785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 40/44] fix: impute fractions into integer data in CellMCD

---
 robpy/covariance/cellmcd.py      | 2 +-
 robpy/covariance/initial_ddcw.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index a7590ff..b99ddf7 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -118,7 +118,7 @@ class CellMCD(RobustCovariance):
         location = scaler.locations_ + location * scaler.scales_
         predictions = scaler.locations_ + predictions * scaler.scales_
         conditional_stds = np.sqrt(conditional_variances) * scaler.scales_
-        X_imputed = X.copy()
+        X_imputed = X.astype(float)
         X_imputed[W == 0] = predictions[W == 0]
         residuals = (X - predictions) / conditional_stds
         scaler_residuals = RobustScaler(scale_estimator=OneStepWrapping())
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index ddfe7a9..3bf70a3 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -67,7 +67,7 @@ class InitialDDCW(RobustCovariance):
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * 0.25)], i] = True
-        Zimp = np.copy(X)
+        Zimp = np.array(X, dtype=float)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
             pd.DataFrame(X), impute_outliers=True
         ).to_numpy()[np.logical_or(W, np.isnan(X))]
-- 
2.43.0


From 0be578c5a8e34fe76da1cd88512bb433f5f4fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 41/44] fix: let DataCleaner drop only the rows with too many
 missing values

---
 robpy/preprocessing/data_cleaner.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index b16ffb0..1ba81c4 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -86,6 +86,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         X = X.replace([np.inf, -np.inf], np.nan)
         cols_rownumbers = self._get_row_numbers_cols(X)
         cols_missings, rows_missings = self._get_missing_cols_and_rows(X)
+        rows_missings_labels = X.index[rows_missings].tolist()
 
         X = X.drop(
             columns=(
@@ -97,10 +98,10 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             ),
         )
 
-        X = X.drop(index=rows_missings)
+        X = X[~rows_missings].copy()
         self.cols_rownumbers = cols_rownumbers
         self.cols_missings = cols_missings
-        self.rows_missings = rows_missings
+        self.rows_missings = rows_missings_labels
 
         self.logger.info(f"The final data has {X.shape[0]} rows and {X.shape[1]} columns.")
 
@@ -168,8 +169,8 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         """Check that no column consists of the row numbers."""
         return [col for col in X.columns if np.all(X[col] == np.arange(0, len(X)))]
 
-    def _get_missing_cols_and_rows(self, X: pd.DataFrame) -> tuple[list, list]:
-        """Get the columns and rows with too many missing values."""
+    def _get_missing_cols_and_rows(self, X: pd.DataFrame) -> tuple[list, np.ndarray]:
+        """Get the columns and (as a mask) the rows with too many missing values."""
         clean_na_first = self.clean_na_first
         if clean_na_first == "automatic":
             clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
@@ -182,7 +183,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             rows_missings = self._get_missing_rows(X.drop(columns=cols_missings))
         elif clean_na_first == "rows":
             rows_missings = self._get_missing_rows(X)
-            cols_missings = self._get_missing_cols(X.drop(index=rows_missings))
+            cols_missings = self._get_missing_cols(X[~rows_missings])
         else:
             raise ValueError(
                 'The argument clean_na_first should be "automatic", "rows" or "columns", '
@@ -210,6 +211,6 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         """Get the columns with too many missings"""
         return X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
 
-    def _get_missing_rows(self, X: pd.DataFrame) -> list:
-        """Get the rows with too many missings"""
-        return X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
+    def _get_missing_rows(self, X: pd.DataFrame) -> np.ndarray:
+        """Get a mask of the rows with too many missings"""
+        return (X.isna().mean(axis=1) >= self.max_missing_frac_rows).to_numpy()
-- 
2.43.0


From 8e6188400eb8032fe0c5eca3c0e7b8a1d0911b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 42/44] fix: leave the pandas options alone in DataCleaner.fit

---
 robpy/preprocessing/data_cleaner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 1ba81c4..00cdb05 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -161,9 +161,11 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _get_non_numeric_columns_to_drop(self, X: pd.DataFrame):
         """Store non-numeric columns to drop."""
-        self.non_numeric_cols = X.columns[
-            X.apply(lambda s: pd.to_numeric(s.fillna(0), errors="coerce")).isna().any()
-        ].tolist()
+        # not with X.apply(), which temporarily changes a pandas option of the process
+        non_numeric = [
+            pd.to_numeric(s.fillna(0), errors="coerce").isna().any() for _, s in X.items()
+        ]
+        self.non_numeric_cols = X.columns[np.array(non_numeric, dtype=bool)].tolist()
 
     def _get_row_numbers_cols(self, X: pd.DataFrame) -> list:
         """Check that no column consists of the row numbers."""
-- 
2.43.0


From a49179cefc0a6b29124d7153ac5ca0ac6bcdc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:18 +0000
Subject: [PATCH 43/44] fix: do not wrap around in Qn on integers of a narrow
 type

---
 robpy/univariate/qn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 3e92d0d..2778629 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -46,7 +46,7 @@ class Qn(RobustScale):
         n = len(X)
         h = n // 2 + 1
         k = h * (h - 1) // 2
-        y = np.sort(X)
+        y = np.sort(X).astype(float)  # differences of unsigned integers wrap around
         left = n + 1 - np.arange(n)
         right = np.full(n, n)
         jhelp = n * (n + 1) // 2
-- 
2.43.0


From 5d7aa22b93a3fc5c7788bf60e45963c4c2dd3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:30 +0000
Subject: [PATCH 44/44] fix: use full precision in RobustPowerTransformer on
 integers of a narrow type

---
 robpy/preprocessing/transfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 4738847..f3f92aa 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -55,6 +55,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        x = np.asarray(x, dtype=float)  # np.log of a narrow integer type has a low precision
         self._get_method(x)
         x_sorted = np.sort(x)
 
@@ -104,6 +105,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        if isinstance(x, np.ndarray):
+            x = x.astype(float)
         if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
@@ -132,6 +135,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        if isinstance(x, np.ndarray):
+            x = x.astype(float)
         if self.method_ == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
-- 
2.43.0

