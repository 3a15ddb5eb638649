From 76efce7afd812d90eaf723946ee2407755aa3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 01/87] fix: Triangle <= comparison evaluated as strict <

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 137f1dd..532062d 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -368,5 +368,5 @@ class TriangleDunders:
     def __le__(self, value):
         obj = self.copy()
         xp = self.get_array_module()
-        obj.values = xp.nan_to_num(obj.values) < xp.nan_to_num(value)
+        obj.values = xp.nan_to_num(obj.values) <= xp.nan_to_num(value)
         return obj
-- 
2.43.0


From 485bbcac7bd2910d13addd89d4a99ad28d488a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 02/87] fix: arithmetic between triangles whose columns are
 nested or permuted raised UnboundLocalError

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 532062d..876accd 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -115,8 +115,8 @@ class TriangleDunders:
             cols_to_add_to_y = [col for col in x.columns if col not in y.columns] 
             
             # Create new columns only if necessary
+            new_x_cols = list(x.columns) + list(cols_to_add_to_x)
             if cols_to_add_to_x:
-                new_x_cols = list(x.columns) + list(cols_to_add_to_x)
                 x = x.reindex(columns=new_x_cols, fill_value=0)
             
             if cols_to_add_to_y:
-- 
2.43.0


From dc0116bf326911bf7a24d09e31c4a4d94519cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 03/87] fix: concat silently mixed up columns that are ordered
 differently or missing, and altered the list passed to it

---
 chainladder/utils/utility_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 249ad45..1fec2bd 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -299,8 +299,7 @@ def concat(
     """
     if type(objs) not in (list, tuple):
         raise TypeError("objects to be concatenated must be in a list or tuple")
-    if type(objs) is tuple:
-        objs = list(objs)
+    objs = list(objs)
     if len(objs) == 0:
         raise ValueError("objs must contain at least one element")
     xp = objs[0].get_array_module()
@@ -318,6 +317,8 @@ def concat(
                     obj = copy.deepcopy(obj)
                     obj[col] = xp.nan
                     objs[num] = obj
+            if list(obj.columns) != all_columns:
+                objs[num] = obj[all_columns]
     objs = set_common_backend(objs)
     mapper = {0: "kdims", 1: "vdims", 2: "odims", 3: "ddims"}
     for k in mapper.keys():
-- 
2.43.0


From 17378bf9665562d515b0986719b87aae3a5c9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 04/87] fix: iloc ignored the step of a slice spanning a whole
 axis

---
 chainladder/core/slice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 9eb22bd..061c853 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -70,10 +70,10 @@ class _LocBase:
         l = []
         for n, i in enumerate(key):
             if type(i) is slice:
-                start = i.start if i.start > 0 else None
+                start = i.start if i.start > 0 or i.step < 0 else None
                 stop = i.stop if i.stop > -1 else None
                 stop = None if stop == self.obj.shape[n] else stop
-                step = None if start is None and stop is None else i.step
+                step = None if i.step == 1 else i.step
                 l.append(slice(start, stop, step))
             else:
                 l.append(i)
-- 
2.43.0


From 6b9beaa399e910c21ab2a9e2714447809b3779e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 05/87] fix: virtual column definitions were shared between a
 triangle and its copies

---
 chainladder/core/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 061c853..f8d8636 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -329,7 +329,7 @@ class Iat(Ilocation):
 class VirtualColumns:
     def __init__(self, triangle, columns=None):
         self.triangle = triangle
-        self.columns = {} if not columns else columns
+        self.columns = {} if not columns else dict(columns)
 
     def __getitem__(self, value):
         return self.columns[value](self.triangle).rename("columns", [value])
-- 
2.43.0


From 27336237eff49921a9661cbca49009cd240a74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 06/87] fix: cum_to_incr(inplace=True) left the triangle
 unchanged

---
 chainladder/core/triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 55303c3..c5e9472 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -499,17 +499,17 @@ class Triangle(TriangleBase):
                     self.values = xp.nan_to_num(self.values)
                     values = num_to_value(self.values, 1)
                     diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
-                    self = concat(
+                    self.values = concat(
                         (
                             diff,
                             self.iloc[..., -1],
                         ),
                         axis=3,
-                    )
+                    ).values
                     self.values = self.values * self.nan_triangle
                 else:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
-                    self = concat((self.iloc[..., 0], diff), axis=3)
+                    self.values = concat((self.iloc[..., 0], diff), axis=3).values
                 self.is_cumulative = False
             self.valuation_date = v
             return self
-- 
2.43.0


From aa21084014706db926ce2fa1e0e8b6efeea67a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 07/87] fix: inplace=True had no effect on dev_to_val,
 val_to_dev and grain

---
 chainladder/core/triangle.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index c5e9472..445eddd 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -525,6 +525,12 @@ class Triangle(TriangleBase):
             "Y": {"Y": 1},
         }
 
+    def _replace_with(self, obj):
+        """Mutate the existing instance so that it becomes obj"""
+        vars(self).update(vars(obj))
+        self._set_slicers()
+        return self
+
     def _val_dev(self, sign, inplace=False):
         backend = self.array_backend
         obj = self.set_backend("sparse")
@@ -575,6 +581,8 @@ class Triangle(TriangleBase):
                 return self
             else:
                 return self.copy()
+        if inplace:
+            return self._replace_with(self.dev_to_val())
         is_cumulative = self.is_cumulative
         if self.is_full:
             if is_cumulative:
@@ -616,6 +624,8 @@ class Triangle(TriangleBase):
                 return self
             else:
                 return self.copy()
+        if inplace:
+            return self._replace_with(self.val_to_dev())
         if self.is_ultimate and self.shape[-1] > 1:
             ultimate = self.iloc[..., -1:]
             ultimate.ddims = np.array([9999])
@@ -751,8 +761,7 @@ class Triangle(TriangleBase):
         obj = obj.dev_to_val() if self.is_val_tri else obj.val_to_dev()
 
         if inplace:
-            self = obj
-            return self
+            return self._replace_with(obj)
 
         return obj
 
-- 
2.43.0


From 2b6cc5e64eabb6fa0cfddead40b67fe834673804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 08/87] fix: n_periods raised KeyError for semi-annual origins
 with quarterly or monthly development

---
 chainladder/development/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index a1a2107..0bd58de 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -386,8 +386,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             val_offset = {
                 "Y": {"Y": 1},
                 "S": {"Y": 2, "S": 1},
-                "Q": {"Y": 4, "Q": 1},
-                "M": {"Y": 12, "Q": 3, "M": 1},
+                "Q": {"Y": 4, "S": 2, "Q": 1},
+                "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
             }
             if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
-- 
2.43.0


From 55429fcfcd14ea02e94c95946156264da6aa48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 09/87] fix: bootstrap process variance was not reproducible
 with random_state=0

---
 chainladder/adjustments/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index 1ad6b09..2ad8eb1 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -260,7 +260,7 @@ def _get_process_variance(self, full_triangle):
     xp = full_triangle.get_array_module()
     lower_tri = full_triangle.cum_to_incr() - self.cum_to_incr()
     random_state = xp.random.RandomState(
-        None if not self.random_state else self.random_state + 1
+        None if self.random_state is None else self.random_state + 1
     )
     lower_tri.values = random_state.gamma(
         shape=abs(lower_tri.values) / self.scale_, scale=self.scale_
-- 
2.43.0


From d57f96f6cab01046a9eef6a6326703628b9571ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 10/87] fix: BerquistSherman.set_params required
 reported_count_estimator

---
 chainladder/adjustments/berqsherm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/adjustments/berqsherm.py b/chainladder/adjustments/berqsherm.py
index a86bbb4..50ec220 100644
--- a/chainladder/adjustments/berqsherm.py
+++ b/chainladder/adjustments/berqsherm.py
@@ -213,7 +213,7 @@ class BerquistSherman(BaseEstimator, TransformerMixin, EstimatorIO):
     def set_params(self, **params):
         from chainladder.utils.utility_functions import read_json
 
-        if type(params["reported_count_estimator"]) is str:
+        if type(params.get("reported_count_estimator")) is str:
             params["reported_count_estimator"] = read_json(
                 params["reported_count_estimator"]
             )
-- 
2.43.0


From a9df8a4f9daa7f7e3cebac0ff503629035fa4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 11/87] fix: VotingChainladder without weights failed when
 origins and developments differ in number

---
 chainladder/workflow/voting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 896b838..008b23d 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -51,7 +51,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
             np.array(self.default_weighting)[np.newaxis, :],
-            repeats=X.shape[-1],
+            repeats=X.shape[2],
             axis=0
             )
 
-- 
2.43.0


From 76190ebc3b43b1eeb06bbae1ec614c79620e8567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 12/87] fix: parallelogram_olf failed for quarterly origins

---
 chainladder/utils/utility_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 1fec2bd..2dc9a3a 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -241,9 +241,9 @@ def parallelogram_olf(
     fcrl_leaps["OLF"] = crl / fcrl_leaps["OLF"]
 
     combined = fcrl_non_leaps.join(fcrl_leaps, lsuffix="_non_leaps", rsuffix="_leaps")
-    combined["is_leap"] = pd.to_datetime(
-        combined["Origin_non_leaps"], format="%Y" + ("-%M" if grain == "M" else "")
-    ).dt.is_leap_year
+    combined["is_leap"] = pd.PeriodIndex(
+        combined["Origin_non_leaps"], freq=grain
+    ).is_leap_year
     
 
     if approximation_grain == "M":
-- 
2.43.0


From c1693b30a9594e4c06470fa670c9b722aca656bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 13/87] fix: the total valuation correlation test compared the
 variance with itself and never rejected

---
 chainladder/core/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/correlation.py b/chainladder/core/correlation.py
index c852ca4..5311a2e 100644
--- a/chainladder/core/correlation.py
+++ b/chainladder/core/correlation.py
@@ -238,12 +238,12 @@ class ValuationCorrelation:
             self.z_variance.values = VarZ
         else:
             ci2 = norm.ppf(0.5 - (1 - p_critical) / 2) * xp.sqrt(xp.sum(VarZ, axis=-1))
-            self.range = (xp.sum(VarZ, axis=-1) + ci2, xp.sum(VarZ, axis=-1) - ci2)
+            self.range = (xp.sum(EZ, axis=-1) + ci2, xp.sum(EZ, axis=-1) - ci2)
             idx = triangle.index.set_index(triangle.key_labels).index
             self.z_critical = pd.DataFrame(
                 (
-                    (self.range[0] > VarZ.sum(axis=-1))
-                    | (VarZ.sum(axis=-1) > self.range[1])
+                    (self.range[0] > z.sum(axis=-1))
+                    | (z.sum(axis=-1) > self.range[1])
                 )[..., 0],
                 columns=triangle.vdims,
                 index=idx,
-- 
2.43.0


From 3b19abaf86b8681719bc3f9427defbc82b7951d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 14/87] fix: TweedieGLM ignored alpha

---
 chainladder/development/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/development/glm.py b/chainladder/development/glm.py
index 9b12136..262cae3 100644
--- a/chainladder/development/glm.py
+++ b/chainladder/development/glm.py
@@ -96,7 +96,8 @@ class TweedieGLM(DevelopmentBase):
         self.model_ = DevelopmentML(Pipeline(steps=[
             ('design_matrix', PatsyFormula(self.design_matrix)),
             ('model', TweedieRegressor(
-                    link=self.link, power=self.power, max_iter=self.max_iter,
+                    link=self.link, power=self.power, alpha=self.alpha,
+                    max_iter=self.max_iter,
                     tol=self.tol, warm_start=self.warm_start,
                     verbose=self.verbose, fit_intercept=False))]),
                     y_ml=response, weight_ml=self.weight).fit(X)
-- 
2.43.0


From 239400a3aac5f8b5f46727cd5a949c32176b0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:17 +0000
Subject: [PATCH 15/87] fix: CapeCod with groupby failed on triangles carrying
 a trend

---
 chainladder/methods/capecod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/methods/capecod.py b/chainladder/methods/capecod.py
index 8678566..df41fbf 100644
--- a/chainladder/methods/capecod.py
+++ b/chainladder/methods/capecod.py
@@ -177,7 +177,7 @@ class CapeCod(Benktander):
                         "CapeCod Trend assumption is ignored when X has a trend_ property."
                     )
                 trend_array = (
-                    X.trend_.groupby(self.groupby).latest_diagonal.sum().values
+                    X.trend_.latest_diagonal.groupby(self.groupby).mean().values
                 )
             else:
                 trend_array = (
-- 
2.43.0


From 27d9a0ffa6c2e9025777f76cf86a4eb69b80a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 16/87] fix: bootstrap hat adjustment read uninitialised memory
 where the leverage is one

---
 chainladder/adjustments/bootstrap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index 2ad8eb1..f4f18c8 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -213,7 +213,13 @@ class BootstrapODPSample(DevelopmentBase):
             ),
             weight_matrix,
         )
-        hat = xp.diagonal(xp.sqrt(xp.divide(1, abs(1 - hat), where=(1 - hat) != 0)))
+        hat = xp.diagonal(
+            xp.sqrt(
+                xp.divide(
+                    1, abs(1 - hat), out=xp.zeros_like(hat), where=(1 - hat) != 0
+                )
+            )
+        )
         total_length = X.nan_triangle.shape[0]
         reshaped_hat = xp.reshape(hat[:total_length], (1, total_length))
         indices = xp.nansum(X.nan_triangle, axis=0).cumsum().astype(int)
-- 
2.43.0


From b9d38b464800d425d98b85a9f05a33457fbf7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 17/87] fix: semi-annual development dates given as period ends
 were shifted by a quarter

---
 chainladder/core/base.py     | 27 +++++++++++++++++++++------
 chainladder/core/triangle.py |  2 +-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index 122e878..b56fa62 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -189,13 +189,13 @@ class TriangleBase(
             start=development_date.min(),
             end=development_date.max(),
             freq=development_grain,
-        ).to_timestamp(how="e")
-
-        # If the development is semi-annual, we need to adjust further because of "2Q-DEC"
-        if development_grain == "2Q-DEC":
-            from pandas.tseries.offsets import DateOffset
+        )
 
-            d = d + DateOffset(months=-3)
+        # If the development is semi-annual, these periods start in the closing
+        # quarter of each half-year
+        if development_grain.startswith("2Q"):
+            d = d.asfreq(development_grain[1:], how="s")
+        d = d.to_timestamp(how="e")
 
         c = pd.DataFrame(
             TriangleBase._cartesian_product(o, d),
@@ -323,6 +323,21 @@ class TriangleBase(
             grain = grain + "-" + end
         return grain
 
+    @staticmethod
+    def _closing_freq(dates, grain):
+        """Frequency whose period end is the end of the development period of
+        each date.  A 2Q period runs from the quarter of its date through the
+        next, so half-years dated in their closing quarter end with that quarter.
+        """
+        if not grain.startswith("2Q"):
+            return grain
+        close = pd.to_datetime(
+            "2000-" + (grain.split("-") + ["DEC"])[1].title(), format="%Y-%b"
+        ).month
+        months = dates.dt.month
+        months = months.compute() if hasattr(months, "compute") else months
+        return grain[1:] if ((close - months) % 6 < 3).all() else grain
+
     @staticmethod
     def _cartesian_product(*arrays):
         """A fast implementation of cartesian product, used for filling in gaps
diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 445eddd..c89203f 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -156,7 +156,7 @@ class Triangle(TriangleBase):
         )
 
         development_date = development_date.dt.to_period(
-            self.development_grain
+            self._closing_freq(development_date, self.development_grain)
         ).dt.to_timestamp(how="e")
 
         # Aggregate dates to the origin/development grains
-- 
2.43.0


From b11f5311a535f57f45005ac5e3098aba477c2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 18/87] fix: triangles with fiscal-year origins lost their
 cells to calendar-year origins

---
 chainladder/core/triangle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index c89203f..aec16bd 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -223,9 +223,13 @@ class Triangle(TriangleBase):
             pd.period_range(
                 start=self.odims.min(),
                 end=self.valuation_date,
-                freq=self.origin_grain.replace("S", "2Q"),
+                freq=(
+                    "M"
+                    if self.origin_grain == "M"
+                    else self.origin_grain.replace("S", "2Q") + "-" + self.origin_close
+                ),
             )
-            .to_timestamp()
+            .to_timestamp(how="s")
             .values
         )
 
-- 
2.43.0


From 30c7b2bb6025dcbda7f9729ac782aee6ea0e0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 19/87] fix: triangles without a development field lost records
 when the table has a non-default index

---
 chainladder/core/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index b56fa62..b0d5f6f 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -62,7 +62,9 @@ class TriangleBase(
             o_max = pd.Period(
                 origin_date.max(), freq=TriangleBase._get_grain(origin_date)
             ).to_timestamp(how="e")
-            development_date = pd.Series([o_max] * len(origin_date))
+            development_date = pd.Series(
+                [o_max] * len(origin_date), index=origin_date.index
+            )
 
         development_date.name = "__development__"
         if (
-- 
2.43.0


From 98061374c75eaaa1fdab88209ae2a4082cdff4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 20/87] fix: triangles with a single origin or development
 period invented amounts after the valuation date

---
 chainladder/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index b0d5f6f..f372aa2 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -213,7 +213,7 @@ class TriangleBase(
         This becomes useful when managing array arithmetic.
         """
         xp = self.get_array_module()
-        if min(self.values.shape[2:]) == 1:
+        if self.is_pattern and min(self.values.shape[2:]) == 1:
             return xp.ones(self.values.shape[2:], dtype="float16")
         val_array = np.array(self.valuation).reshape(self.shape[-2:], order="f")
         nan_triangle = np.array(pd.DataFrame(val_array) > self.valuation_date)
-- 
2.43.0


From 46b2cfdf28118cc6518cdecc54929b4358388175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 21/87] fix: cum_to_incr failed on triangles with a single
 development period

---
 chainladder/core/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index aec16bd..5339192 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -511,7 +511,7 @@ class Triangle(TriangleBase):
                         axis=3,
                     ).values
                     self.values = self.values * self.nan_triangle
-                else:
+                elif self.shape[-1] > 1:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
                     self.values = concat((self.iloc[..., 0], diff), axis=3).values
                 self.is_cumulative = False
-- 
2.43.0


From 4162eb42434d4cbdbf461f534160d77d583219c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 22/87] fix: dev_to_val and val_to_dev misplaced the cells of
 sliced triangles

---
 chainladder/core/triangle.py | 57 +++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 5339192..507ec74 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -538,26 +538,30 @@ class Triangle(TriangleBase):
     def _val_dev(self, sign, inplace=False):
         backend = self.array_backend
         obj = self.set_backend("sparse")
-        if not inplace:
-            obj.values = obj.values.copy()
-        scale = self._dstep()[obj.development_grain][obj.origin_grain]
-        offset = np.arange(obj.shape[-2]) * scale
-        min_slide = -offset.max()
-        if (obj.values.coords[-2] == np.arange(1)).all():
-            # Unique edge case #239
-            offset = offset[-1:] * sign
-        offset = offset[obj.values.coords[-2]] * sign  # [0]
-        obj.values.coords[-1] = obj.values.coords[-1] + offset
-        ddims = obj.valuation[obj.valuation <= obj.valuation_date]
-        ddims = len(ddims.drop_duplicates())
-        if ddims == 1 and sign == -1:
-            ddims = len(obj.odims)
-        if obj.values.density > 0 and obj.values.coords[-1].min() < 0:
-            obj.values.coords[-1] = obj.values.coords[-1] - min(
-                obj.values.coords[-1].min(), min_slide
-            )
-            ddims = np.max([np.max(obj.values.coords[-1]) + 1, ddims])
-        obj.values.shape = tuple(list(obj.shape[:-1]) + [ddims])
+        to_months = lambda x: np.array(x).astype("datetime64[M]").astype("int64")
+        values, origin = obj.values, to_months(obj.odims)
+        o_idx, d_idx = values.coords[-2], values.coords[-1]
+        if sign == 1:
+            new = origin[o_idx] + np.array(obj.ddims)[d_idx] - 1
+            known = obj.valuation[obj.valuation <= obj.valuation_date]
+            labels = np.union1d(to_months(known), new)
+        else:
+            new = to_months(obj.ddims)[d_idx] - origin[o_idx] + 1
+            step = self._dstep()["M"][obj.development_grain]
+            is_latest = len(obj.ddims) == 1 and obj.ddims[0] == obj.valuation_date
+            first = to_months(obj.ddims)[0] - origin[-1 if is_latest else 0] + 1
+            first = first if first > 0 else (first - 1) % step + 1
+            last = to_months(obj.ddims).max() - origin[0] + 1
+            first = min(first, new.min(initial=first))
+            last = max(last, new.max(initial=first))
+            labels = np.union1d(np.arange(first, last + 1, step), new)
+        obj.values = obj.get_array_module()(
+            np.vstack((values.coords[:-1], np.searchsorted(labels, new))),
+            values.data,
+            shape=tuple(list(obj.shape[:-1]) + [len(labels)]),
+            fill_value=values.fill_value,
+        )
+        obj.ddims = labels
         if options.AUTO_SPARSE == False or backend == "cupy":
             obj = obj.set_backend(backend)
         else:
@@ -599,8 +603,9 @@ class Triangle(TriangleBase):
         else:
             obj = self
         obj = obj._val_dev(1, inplace)
-        ddims = obj.valuation[obj.valuation <= obj.valuation_date]
-        obj.ddims = ddims.drop_duplicates().sort_values()
+        obj.ddims = pd.DatetimeIndex(
+            (obj.ddims + 1).astype("datetime64[M]").astype("datetime64[ns]")
+        ) - pd.Timedelta(1, "ns")
         if self.is_full:
             if self.is_ultimate:
                 ultimate.ddims = pd.DatetimeIndex(ultimate.valuation[0:1])
@@ -636,14 +641,6 @@ class Triangle(TriangleBase):
             obj = self.iloc[..., :-1]._val_dev(-1, inplace)
         else:
             obj = self.copy()._val_dev(-1, inplace)
-        val_0 = obj.valuation[0]
-        if self.ddims.shape[-1] == 1 and self.ddims[0] == self.valuation_date:
-            origin_0 = pd.to_datetime(obj.odims[-1])
-        else:
-            origin_0 = pd.to_datetime(obj.odims[0])
-        lag_0 = (val_0.year - origin_0.year) * 12 + val_0.month - origin_0.month + 1
-        scale = self._dstep()["M"][obj.development_grain]
-        obj.ddims = np.arange(obj.values.shape[-1]) * scale + lag_0
         prune = obj[obj.origin == obj.origin.max()]
         if self.is_ultimate and self.shape[-1] > 1:
             obj = obj.iloc[..., : (prune.valuation <= prune.valuation_date).sum()]
-- 
2.43.0


From 91f553a65f8041e2c7cfa4964655e3dd76d73a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 23/87] fix: cum_to_incr failed on patterns with a single
 development period

---
 chainladder/core/triangle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 507ec74..de40764 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -498,7 +498,9 @@ class Triangle(TriangleBase):
         if inplace:
             v = self.valuation_date
             if self.is_cumulative or self.is_cumulative is None:
-                if self.is_pattern:
+                if self.shape[-1] == 1:
+                    pass
+                elif self.is_pattern:
                     xp = self.get_array_module()
                     self.values = xp.nan_to_num(self.values)
                     values = num_to_value(self.values, 1)
@@ -511,7 +513,7 @@ class Triangle(TriangleBase):
                         axis=3,
                     ).values
                     self.values = self.values * self.nan_triangle
-                elif self.shape[-1] > 1:
+                else:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
                     self.values = concat((self.iloc[..., 0], diff), axis=3).values
                 self.is_cumulative = False
-- 
2.43.0


From 5959bad2a6280536928fa5da53ff537d5991e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 24/87] fix: grain misplaced origins and development ages of
 semi-annual and partial-year triangles

---
 chainladder/core/triangle.py | 63 +++++++++++++++---------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index de40764..dcb77a7 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -703,47 +703,36 @@ class Triangle(TriangleBase):
         obj = self.dev_to_val()
 
         if ograin_new != ograin_old:
-            freq = {"Y": "Y", "S": "2Q"}.get(ograin_new, ograin_new)
+            months = self._dstep()["M"]
+            origin = np.array(obj.odims).astype("datetime64[M]").astype("int64")
 
             if trailing or (obj.origin.freqstr[-3:] != "DEC" and ograin_old != "M"):
-                origin_period_end = self.origin[-1].strftime("%b").upper()
+                close = (origin[-1] + months[ograin_old] - 1) % 12
             else:
-                origin_period_end = "DEC"
-
-            indices = (
-                pd.Series(range(len(self.origin)), index=self.origin)
-                .resample("-".join([freq, origin_period_end]))
-                .indices
-            )
-
-            groups = pd.concat(
-                [pd.Series([k] * len(v), index=v) for k, v in indices.items()], axis=0
-            ).values
-
-            obj = obj.groupby(groups, axis=2).sum()
-
-            obj.origin_close = origin_period_end
-            d_start = pd.Period(
-                obj.valuation[0],
-                freq=(
-                    dgrain_old
-                    if dgrain_old == "M"
-                    else dgrain_old + obj.origin.freqstr[-4:]
-                ),
-            ).to_timestamp(how="s")
-
-            if len(obj.ddims) > 1 and obj.origin.to_timestamp(how="s")[0] != d_start:
-                addl_ts = (
-                    pd.period_range(obj.odims[0], obj.valuation[0], freq=dgrain_old)[
-                        :-1
-                    ]
-                    .to_timestamp()
-                    .values
+                close = 11
+
+            groups = origin - (origin - close - 1) % months[ograin_new]
+            obj = obj.groupby(
+                groups.astype("datetime64[M]").astype("datetime64[ns]"), axis=2
+            ).sum()
+            obj.origin_grain = ograin_new
+            obj.origin_close = pd.Timestamp(2000, close + 1, 1).strftime("%b").upper()
+
+            # Coarser origins can start ahead of the first known valuation
+            first = np.datetime64(obj.valuation[0], "M").astype("int64")
+            addl = np.arange(first, groups.min() - 1, -months[dgrain_old])[:0:-1]
+
+            if len(obj.ddims) > 1 and len(addl) > 0:
+                xp = obj.get_array_module()
+                obj.values = num_to_nan(
+                    xp.concatenate(
+                        (obj.values[..., :1] * 0,) * len(addl) + (obj.values,), axis=-1
+                    )
+                )
+                addl = (addl + 1).astype("datetime64[M]").astype("datetime64[ns]")
+                obj.ddims = (pd.DatetimeIndex(addl) - pd.Timedelta(1, "ns")).append(
+                    obj.ddims
                 )
-                addl = obj.iloc[..., -len(addl_ts) :] * 0
-                addl.ddims = addl_ts
-                obj = concat((addl, obj), axis=-1)
-                obj.values = num_to_nan(obj.values)
 
         if dgrain_old != dgrain_new and obj.shape[-1] > 1:
             step = self._dstep()[dgrain_old][dgrain_new]
-- 
2.43.0


From edb3d652c0554f86de3027939ed4dab100993633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 25/87] fix: assigning through iloc and loc missed negative
 positions and mixed up positions of several axes

---
 chainladder/core/slice.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index f8d8636..910ba70 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -60,10 +60,14 @@ class _LocBase:
             raise ValueError('Setting values with sparse backend requires .at or .iat')
         if isinstance(values, TriangleSlicer):
             values = values.values
-        key = tuple(
-            [slice(item, item + 1) if type(item) is int else item for item in key]
-        )
-        self.obj.values.__setitem__(self._normalize_index(key), values)
+        key = [
+            slice(item, item + 1) if isinstance(item, (int, np.integer)) else item
+            for item in self._normalize_index(key)
+        ]
+        if sum(type(item) is not slice for item in key) > 1:
+            # Each axis is addressed on its own as it is when getting values
+            key = np.ix_(*[np.arange(n)[item] for n, item in zip(self.obj.shape, key)])
+        self.obj.values.__setitem__(tuple(key), values)
 
     def _normalize_index(self, key):
         key = normalize_index(key, self.obj.shape)
@@ -167,7 +171,7 @@ class Location(_LocBase):
         return out
 
     def __setitem__(self, key, values):
-        super().__setitem__(self.key_to_slice(key), values)
+        super().__setitem__(tuple(self.key_to_slice(key)), values)
 
 class Ilocation(_LocBase):
     """ class to generate .iloc[] functionality """
-- 
2.43.0


From b5bf4069d5f191620f7d0d421974f81ed9ed6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 26/87] fix: replacing a column of a sparse triangle altered
 the assigned triangle or failed

---
 chainladder/core/slice.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 910ba70..82735da 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -224,12 +224,11 @@ class TriangleSlicer:
         if key in self.vdims:
             i = np.where(self.vdims == key)[0][0]
             if self.array_backend == "sparse":
-                before = self.drop(key).values
-                bc = before.coords[1, :]
-                before.coords[1] = np.where(bc >= i, bc + 1, bc,)
-                value.values.coords[1] = i
-                coords = np.concatenate((before.coords, value.values.coords), axis=1)
-                data = np.concatenate((before.data, value.values.data))
+                keep = self.values.coords[1] != i
+                coords = value.values.coords.copy()
+                coords[1] = i
+                coords = np.concatenate((self.values.coords[:, keep], coords), axis=1)
+                data = np.concatenate((self.values.data[keep], value.values.data))
                 self.values = xp(
                     coords, data, shape=self.shape, prune=True, fill_value=xp.nan
                 )
-- 
2.43.0


From 43a2b20982abaceed565a5a1d3104b369d1b19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 27/87] fix: arithmetic between triangles whose axes overlap
 with gaps or lack members combined cells of different labels

---
 chainladder/core/dunders.py | 98 ++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 62 deletions(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 876accd..9dd89df 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -23,10 +23,12 @@ class TriangleDunders:
             obj, other = self._compatibility_check(self, other)
             if obj.is_pattern != other.is_pattern:
                 obj.is_pattern = other.is_pattern = False
-            obj.valuation_date = max(obj.valuation_date, other.valuation_date)
+            valuation_date = max(obj.valuation_date, other.valuation_date)
             obj, other = self._prep_columns(obj, other)
             obj, other = self._prep_origin_development(obj, other)
             obj, other = self._prep_index(obj, other)
+            for item in (obj, other):
+                getattr(item, "obj", item).valuation_date = valuation_date
             if isinstance(other, TriangleDunders):
                 other = other.values
         else:
@@ -107,7 +109,7 @@ class TriangleDunders:
             y.vdims = x.vdims
         elif len(y.columns) == len(x.columns) == 1 and x.columns != y.columns:
             y.vdims = x.vdims
-        elif x.shape[1] == y.shape[1] and np.array_equal(x.columns, y.columns):
+        elif np.array_equal(x.columns, y.columns):
             return x, y
         else:            
             # Find columns to add to each triangle
@@ -136,15 +138,8 @@ class TriangleDunders:
         return x, y
 
     def _prep_origin_development(self, obj, other):
-        xp = obj.get_array_module()
-        is_broadcastable = all(
-            (m == n) or (m == 1) or (n == 1)
-            for m, n in zip(obj.shape[-2:][::-1], other.shape[-2:][::-1]))
-        if (len(obj.odims), len(obj.ddims)) == (len(other.odims), len(other.ddims)):
-            if np.all(obj.ddims != other.ddims) and len(obj.ddims) > 1:
-                is_broadcastable = False
-            if np.all(obj.odims != other.odims) and len(obj.odims) > 1:
-                is_broadcastable = False
+        obj, other = self._union_axis(obj, other, 2, "odims")
+        obj, other = self._union_axis(obj, other, 3, "ddims")
         if len(other.odims) == 1 and len(obj.odims) > 1:
             other.odims = obj.odims
             other.origin_grain = obj.origin_grain
@@ -157,57 +152,34 @@ class TriangleDunders:
         elif len(obj.ddims) == 1 and len(other.ddims) > 1:
             obj.ddims = other.ddims
             obj.development_grain = other.development_grain
-        if not is_broadcastable:
-            # If broadcasting doesn't work, union axes similar to pandas
-            ddims = pd.concat(
-                (
-                    pd.Series(obj.ddims, index=obj.ddims),
-                    pd.Series(other.ddims, index=other.ddims),
-                ),
-                axis=1,
-            ).sort_index()
-            odims = pd.concat(
-                (
-                    pd.Series(obj.odims, index=obj.odims),
-                    pd.Series(other.odims, index=other.odims),
-                ),
-                axis=1,
-            ).sort_index()
-            o_arr0, o_arr1 = odims[0].isna().values, odims[1].isna().values
-            d_arr0, d_arr1 = ddims[0].isna().values, ddims[1].isna().values
-            # rol = right hand side, origin, lower
-            rol = int(np.where(~o_arr1 == 1)[0].min())
-            roh = int(np.where(~o_arr1 == 1)[0].max() + 1)
-            rdl = int(np.where(~d_arr1 == 1)[0].min())
-            rdh = int(np.where(~d_arr1 == 1)[0].max() + 1)
-            lol = int(np.where(~o_arr0 == 1)[0].min())
-            loh = int(np.where(~o_arr0 == 1)[0].max() + 1)
-            ldl = int(np.where(~d_arr0 == 1)[0].min())
-            ldh = int(np.where(~d_arr0 == 1)[0].max() + 1)
-            if obj.array_backend != "sparse":
-                other_arr = xp.zeros((other.shape[0], other.shape[1], len(odims), len(ddims)))
-                other_arr[:] = xp.nan
-                other_arr[:, :, rol:roh, rdl:rdh] = other.values
-                obj_arr = xp.zeros((self.shape[0], self.shape[1], len(odims), len(ddims)))
-                obj_arr[:] = xp.nan
-                obj_arr[:, :, lol:loh, ldl:ldh] = obj.values
-            else:
-                obj_arr, other_arr = obj.values.copy(), other.values.copy()
-                other_arr.coords[2] = other_arr.coords[2] + rol
-                other_arr.coords[3] = other_arr.coords[3] + rdl
-                obj_arr.coords[2] = obj_arr.coords[2] + lol
-                obj_arr.coords[3] = obj_arr.coords[3] + ldl
-                other_arr.shape = (other.shape[0], other.shape[1], len(odims), len(ddims))
-                obj_arr.shape = (self.shape[0], self.shape[1], len(odims), len(ddims))
-            obj.odims = np.array(odims.index)
-            if type(obj.ddims) == pd.DatetimeIndex:
-                obj.ddims = pd.DatetimeIndex(ddims.index)
-            else:
-                obj.ddims = np.array(ddims.index)
-            obj.values = obj_arr
-            other.values = other_arr
         return obj, other
 
+    @staticmethod
+    def _union_axis(x, y, axis, name):
+        """ Unless an axis can be broadcast, union its labels similar to pandas """
+        x_dims, y_dims = getattr(x, name), getattr(y, name)
+        if min(len(x_dims), len(y_dims)) == 1 or np.array_equal(x_dims, y_dims):
+            return x, y
+        dims = pd.Index(x_dims).union(pd.Index(y_dims))
+        for item in (x, y):
+            idx = dims.get_indexer(getattr(item, name))
+            shape = list(item.values.shape)
+            shape[axis] = len(dims)
+            xp = item.get_array_module()
+            if item.array_backend == "sparse":
+                coords = item.values.coords.copy()
+                coords[axis] = idx[coords[axis]]
+                item.values = xp(
+                    coords, item.values.data, shape=tuple(shape),
+                    fill_value=item.values.fill_value
+                )
+            else:
+                values = xp.zeros(tuple(shape)) * xp.nan
+                values[(slice(None),) * axis + (idx,)] = item.values
+                item.values = values
+            setattr(item, name, dims if type(x_dims) == pd.DatetimeIndex else dims.values)
+        return x, y
+
     @staticmethod
     def _slice_or_nan(obj, other, k):
         """ Return a broadcastable slice or NaNs for missing slices """
@@ -215,7 +187,7 @@ class TriangleDunders:
             return obj.obj.iloc[obj.groups.indices[k]]
         else:
             other = other.obj.iloc[other.groups.indices[k]]
-            new_obj = obj.obj.iloc[:1] * 0
+            new_obj = obj.obj.iloc[:1] * np.nan
             labels = list(set(other.key_labels).intersection(set(new_obj.key_labels)))
             new_idx = other.index.set_index(labels).join(
                 new_obj.index.set_index(labels)).reset_index()
@@ -237,7 +209,9 @@ class TriangleDunders:
             c = bag.compute(scheduler='threads')
         else:
             c = [f(k, self, obj, other) for k in self._get_key_union(obj, other)]
-        return concat(c, 0).sort_index()
+        out = concat(c, 0).sort_index()
+        out.valuation_date = max(obj.obj.valuation_date, other.obj.valuation_date)
+        return out
 
     def __add__(self, other):
         obj, other = self._validate_arithmetic(other)
-- 
2.43.0


From a67eca3736d68e71532acefd87b54ca33a93d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 28/87] fix: rename altered the triangle it was called on

---
 chainladder/core/pandas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index abe87a3..c68a84f 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -288,15 +288,16 @@ class TrianglePandas:
             Triangle with relabeled axis.
         """
         value = [value] if type(value) is str else value
+        obj = self.copy()
         if axis == "index" or axis == 0:
-            self.index = value
+            obj.index = value
         if axis == "columns" or axis == 1:
-            self.columns = value
+            obj.columns = value
         if axis == "origin" or axis == 2:
-            self.origin = value
+            obj.origin = value
         if axis == "development" or axis == 3:
-            self.development = value
-        return self
+            obj.development = value
+        return obj
 
     def astype(self, dtype, inplace=True):
         """Copy of the array, cast to a specified type.
-- 
2.43.0


From 385f68db331ea7464c4ecb4b03049716ccad0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 29/87] fix: cumsum, grouped quantiles and sparse median, prod,
 var, std, quantile raised

---
 chainladder/core/pandas.py  | 18 ++++++++++++++----
 chainladder/utils/sparse.py | 13 +++++++++++++
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index c68a84f..a69d124 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -361,8 +361,13 @@ def add_triangle_agg_func(cls, k, v):
             axis = self._get_axis(axis)
         xp = obj.get_array_module()
         func = getattr(xp, v)
-        kwargs.update({"keepdims": True})
-        obj.values = func(obj.values, axis=axis, *args, **kwargs)
+        if k == "cumsum":
+            kwargs.pop("keepdims", None)
+            obj.values = func(obj.values, axis=axis, *args, **kwargs)
+            obj.values = obj.values * xp.nan_to_num(obj.nan_triangle)
+        else:
+            kwargs.update({"keepdims": True})
+            obj.values = func(obj.values, axis=axis, *args, **kwargs)
         if axis == 0 and obj.values.shape[axis] == 1 and len(obj.kdims) > 1:
             obj.kdims = np.array([["(All)"] * len(obj.key_labels)])
         if axis == 1 and obj.values.shape[axis] == 1 and len(obj.vdims) > 1:
@@ -398,7 +403,7 @@ def add_groupby_agg_func(cls, k, v):
             def aggregate(i, obj, axis, v):
                 return getattr(
                     obj.iloc.__getitem__(tuple([slice(None)] * axis + [i])), v
-                )(axis, auto_sparse=False, keepdims=True)
+                )(axis, *args, auto_sparse=False, keepdims=True, **kwargs)
 
             bag = db.from_sequence(self.groups.indices.values())
             bag = bag.map(aggregate, obj, self.axis, v)
@@ -408,9 +413,14 @@ def add_groupby_agg_func(cls, k, v):
                 getattr(
                     obj.iloc.__getitem__(
                         tuple([slice(None)] * self.axis + [i])), v
-                )(self.axis, auto_sparse=False, keepdims=True)
+                )(self.axis, *args, auto_sparse=False, keepdims=True, **kwargs)
                 for i in self.groups.indices.values()
             ]
+        if k == "cumsum":
+            order = np.argsort(np.concatenate(list(self.groups.indices.values())))
+            values = xp.concatenate([item.values for item in values], self.axis)
+            obj.values = values[(slice(None),) * self.axis + (order,)]
+            return obj
         obj = concat(values, axis=self.axis, ignore_index=True)
         group_index = self.groups.first().index
         if self.axis == 0:
diff --git a/chainladder/utils/sparse.py b/chainladder/utils/sparse.py
index 50533d9..7960ce2 100644
--- a/chainladder/utils/sparse.py
+++ b/chainladder/utils/sparse.py
@@ -76,6 +76,19 @@ def cumprod(a, axis=None, dtype=None, out=None):
     return array(np.cumprod(a.todense(), axis=axis, dtype=dtype, out=out))
 
 
+def dense_agg(func):
+    """Aggregates that have no sparse algorithm work off of the dense array"""
+
+    def agg(a, *args, **kwargs):
+        return array(getattr(np, func)(a.todense(), *args, **kwargs))
+
+    return agg
+
+
+for func in ["median", "prod", "var", "std", "quantile", "cumsum"]:
+    setattr(sp, "nan" + func, staticmethod(dense_agg("nan" + func)))
+
+
 def floor(x, *args, **kwargs):
     x.data = np.floor(x.data)
     return x
-- 
2.43.0


From 8b614838939dfa0e31859fd92e69f4e9b1199913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 30/87] fix: TailBondy ignored the projection period and
 development grain

The fitted factors always covered one projected period, so for
non-annual triangles or projection periods other than 12 the pattern had
fewer values than development labels.
---
 chainladder/tails/bondy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chainladder/tails/bondy.py b/chainladder/tails/bondy.py
index 11fa6fd..4e25756 100644
--- a/chainladder/tails/bondy.py
+++ b/chainladder/tails/bondy.py
@@ -112,9 +112,8 @@ class TailBondy(TailBase):
             tail = self.ldf_.values[..., 0, initial]
         tail = tail ** (self.b_ / (1 - self.b_))
         f0 = self.ldf_.values[..., 0:1, initial : initial + 1]
-        fitted = f0 ** (
-            self.b_ ** (np.arange(sum(X.ddims >= earliest_age))[None, None, None, :])
-        )
+        n_fitted = sum(X.ddims >= earliest_age) - 1 + self._ave_period[0]
+        fitted = f0 ** (self.b_ ** (np.arange(n_fitted)[None, None, None, :]))
         fitted = xp.concatenate(
             (fitted, fitted[..., -1:] ** (self.b_ / (1 - self.b_))), axis=-1
         )
@@ -124,10 +123,11 @@ class TailBondy(TailBase):
         self.earliest_ldf_ = pd.DataFrame(
             self.earliest_ldf_[..., 0, 0], index=rows, columns=X.vdims
         )
+        n_keep = sum(X.ddims <= attachment_age)
         self.ldf_.values = xp.concatenate(
             (
-                self.ldf_.values[..., : sum(X.ddims <= attachment_age)],
-                fitted[..., -sum(X.ddims >= attachment_age) :],
+                self.ldf_.values[..., :n_keep],
+                fitted[..., n_keep - self.ldf_.shape[-1] :],
             ),
             axis=-1,
         )
-- 
2.43.0


From e91b858a2a2b47f44a684a16debaad0abab432a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 31/87] fix: MackChainladder failed on triangles with several
 index members or columns

---
 chainladder/methods/mack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 09bf479..5a9a2a6 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -107,7 +107,7 @@ class MackChainladder(Chainladder):
         val = xp.broadcast_to(xp.array(avg + [avg[-1]]), X.shape)
         weight = xp.sqrt(full.values[..., : len(X.ddims)] ** (2 - val))
         obj.values = X.sigma_.values / num_to_nan(weight)
-        w = lxp.concatenate((X.w_, lxp.ones((1, 1, val.shape[2], 1))), 3)
+        w = lxp.concatenate((X.w_, lxp.ones((*X.w_.shape[:3], 1))), 3)
         w[xp.isnan(w)] = 1
         obj.values = xp.nan_to_num(obj.values) * xp.array(w)
         obj.valuation_date = full.valuation_date
-- 
2.43.0


From e9cbb881faf33485ace5ef5ccd4c5ee7ac2bbafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 32/87] fix: Mack total parameter risk failed for sparse
 triangles that revert to dense sums

---
 chainladder/methods/mack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 5a9a2a6..edea0df 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -128,7 +128,9 @@ class MackChainladder(Chainladder):
             future_std_err = (
                 X._full_triangle_ - X[X.valuation < X.valuation_date]
             ).iloc[:, :, :, : X.shape[3]] * X.std_err_.values
-            t1_t = xp.nan_to_num(future_std_err.sum("origin").values)
+            t1_t = xp.nan_to_num(
+                future_std_err.sum("origin").set_backend(X.array_backend).values
+            )
             obj.odims = obj.odims[0:1]
         else:
             nans = xp.nan_to_num(X.nan_triangle[None, None])
-- 
2.43.0


From b1623f70aff0f45cfb8a9e825e23e1803d0ac905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 33/87] fix: shift along development relabelled a valuation
 triangle with text

---
 chainladder/core/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index dcb77a7..8704420 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -913,7 +913,7 @@ class Triangle(TriangleBase):
             if axis == 3:
                 out = concat(
                     (
-                        self.iloc[..., 1:].rename("development", self.development[:-1]),
+                        self.iloc[..., 1:].rename("development", self.ddims[:-1]),
                         (self.iloc[..., -1:] * 0),
                     ),
                     axis=axis,
@@ -931,7 +931,7 @@ class Triangle(TriangleBase):
                 out = concat(
                     (
                         (self.iloc[..., :1] * 0),
-                        self.iloc[..., :-1].rename("development", self.development[1:]),
+                        self.iloc[..., :-1].rename("development", self.ddims[1:]),
                     ),
                     axis=axis,
                 )
-- 
2.43.0


From 306424fa5e9ad1fa182f05faf62f1fa1fb31d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 34/87] fix: powers of a triangle turned missing cells into
 zeros and the backends disagreed

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 9dd89df..6ad398e 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -286,7 +286,7 @@ class TriangleDunders:
             obj = self._arithmetic_mapper(obj, other, f)
         else:
             xp = obj.get_array_module()
-            obj.values = xp.nan_to_num(obj.values) ** other
+            obj.values = num_to_nan(xp.nan_to_num(obj.values) ** other)
         return obj
 
     def __round__(self, other):
-- 
2.43.0


From 187f4169d308490c775d95acf05e58b431b62139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 35/87] fix: sparse patterns lost the neutral value of missing
 factors and sparse means skipped explicit zeros

---
 chainladder/core/triangle.py           | 3 +--
 chainladder/utils/sparse.py            | 3 ++-
 chainladder/utils/utility_functions.py | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 8704420..b6e3315 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -502,8 +502,7 @@ class Triangle(TriangleBase):
                     pass
                 elif self.is_pattern:
                     xp = self.get_array_module()
-                    self.values = xp.nan_to_num(self.values)
-                    values = num_to_value(self.values, 1)
+                    self.values = num_to_value(xp.nan_to_num(self.values), 1)
                     diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
                     self.values = concat(
                         (
diff --git a/chainladder/utils/sparse.py b/chainladder/utils/sparse.py
index 7960ce2..53ce649 100644
--- a/chainladder/utils/sparse.py
+++ b/chainladder/utils/sparse.py
@@ -47,7 +47,8 @@ sp.nansum = nansum
 
 def nanmean(a, axis=None, keepdims=None, *args, **kwargs):
     n = sp.nansum(a, axis=axis, keepdims=keepdims)
-    d = sp.nansum(sp.nan_to_num(a) != 0, axis=axis, keepdims=keepdims).astype(n.dtype)
+    d = sp(data=(~np.isnan(a.data)).astype(n.dtype), coords=a.coords, fill_value=0.0, shape=a.shape)
+    d = d.sum(axis=axis, keepdims=keepdims)
     n = sp(data=n.data, coords=n.coords, fill_value=np.nan, shape=n.shape)
     d = sp(data=d.data, coords=d.coords, fill_value=np.nan, shape=d.shape)
     out = n / d
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 2dc9a3a..67e86ef 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -361,7 +361,8 @@ def num_to_value(arr, value):
             arr.data = arr.data[arr.data != 0]
 
             arr = sp(
-                coords=arr.coords, data=arr.data, fill_value=sp.nan, shape=arr.shape
+                coords=arr.coords, data=arr.data, shape=arr.shape,
+                fill_value=value if arr.fill_value == 0 else arr.fill_value,
             )
         else:
             arr = sp(num_to_nan(np.nan_to_num(arr.todense())), fill_value=value)
-- 
2.43.0


From 99822d48dc81bd0e64a3f667d3745f4985f8f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 36/87] fix: convert a single-origin valuation pattern of
 several segments to development (and so to JSON)

---
 chainladder/core/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index b6e3315..261287c 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -642,8 +642,10 @@ class Triangle(TriangleBase):
             obj = self.iloc[..., :-1]._val_dev(-1, inplace)
         else:
             obj = self.copy()._val_dev(-1, inplace)
-        prune = obj[obj.origin == obj.origin.max()]
         if self.is_ultimate and self.shape[-1] > 1:
+            prune = obj
+            if obj.shape[2] > 1:
+                prune = obj[obj.origin == obj.origin.max()]
             obj = obj.iloc[..., : (prune.valuation <= prune.valuation_date).sum()]
             obj = concat((obj, ultimate), -1)
         return obj
-- 
2.43.0


From f6ff3a30b034c6f6977b2ac5775945a28177bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 37/87] fix: keep string index labels when reading a triangle
 from JSON

---
 chainladder/utils/utility_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 67e86ef..d34e8f6 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -111,7 +111,10 @@ def read_json(json_str, array_backend=None):
         )
     elif "metadata" in json_dict.keys():
         j = json.loads(json_str)
-        y = pd.read_json(StringIO(j["data"]), orient="split", date_unit="ns")
+        # dtype=False keeps index labels that look like numbers as they are
+        y = pd.read_json(
+            StringIO(j["data"]), orient="split", date_unit="ns",
+            dtype=False, convert_dates=False)
         y["origin"] = pd.to_datetime(y["origin"])
         y.columns = [c if c != "valuation" else "development" for c in y.columns]
         y["development"] = pd.to_datetime(y["development"])
-- 
2.43.0


From 39868d7484449dd8f7cae47ac4b14ca6afe6efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 38/87] fix: drop empty edges of a single-origin pattern with
 several segments (read_json of a fitted triangle)

---
 chainladder/core/pandas.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index a69d124..accd327 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -169,8 +169,11 @@ class TrianglePandas:
         obj = self.sum(axis=0).sum(axis=1)
         xp = obj.get_array_module()
         odim = list((xp.nansum(obj.values[0, 0, :], -1) != 0).astype("int"))
-        min_odim = obj.origin[odim.index(1)]
-        max_odim = obj.origin[::-1][odim[::-1].index(1)]
+        # a single origin, labelled "(All)" in a pattern, has no edge to drop
+        single = self.shape[2] == 1
+        if not single:
+            min_odim = obj.origin[odim.index(1)]
+            max_odim = obj.origin[::-1][odim[::-1].index(1)]
         if obj.shape[-1] != 1:
             ddim = list(
                 (xp.nansum(obj.values[0, 0, :], -2) != 0).astype("int"))
@@ -179,7 +182,11 @@ class TrianglePandas:
                 (self.development >= ddim.min()) & (
                     self.development <= ddim.max())
             ]
+            if single:
+                return obj
             return obj[(self.origin >= min_odim) & (self.origin <= max_odim)]
+        if single:
+            return self.copy()
         obj = self[(self.origin >= min_odim) & (self.origin <= max_odim)]
         return obj
 
-- 
2.43.0


From 63ee7ab6b12459526df1b21ab78c485715f12d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 39/87] fix: export virtual columns with the amounts they
 compute (division by missing cells, order of definitions)

---
 chainladder/core/pandas.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index accd327..d877912 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -61,6 +61,23 @@ class TrianglePandas:
         if keepdims:
             is_val_tri = self.is_val_tri
             obj = self.val_to_dev().set_backend("sparse")
+            # a virtual column is listed with the amounts it computes
+            virtual = {
+                n: obj[col].set_backend("sparse")
+                for n, col in enumerate(obj.columns)
+                if col in obj.virtual_columns.columns
+            }
+            if virtual:
+                real = ~np.isin(obj.values.coords[1], list(virtual))
+                coords, data = [obj.values.coords[:, real]], [obj.values.data[real]]
+                for n, item in virtual.items():
+                    coords.append(item.values.coords.copy())
+                    coords[-1][1] = n
+                    data.append(item.values.data)
+                obj.values = obj.get_array_module()(
+                    np.concatenate(coords, 1), np.concatenate(data),
+                    shape=obj.shape, prune=True, fill_value=np.nan,
+                )
             out = pd.DataFrame(obj.index.iloc[obj.values.coords[0]])
             out["columns"] = obj.columns[obj.values.coords[1]]
             missing_cols = list(set(self.columns) - set(out['columns']))
@@ -101,11 +118,8 @@ class TrianglePandas:
                     col_order = ['origin', 'valuation'] + col_order
                 else:
                     col_order = ['origin', 'development'] + col_order
-            for col in set(missing_cols) - self.virtual_columns.columns.keys():
+            for col in missing_cols:
                 out[col] = np.nan
-            for col in set(missing_cols).intersection(self.virtual_columns.columns.keys()):
-                out[col] = out.fillna(0).apply(self.virtual_columns.columns[col], 1)
-                out.loc[out[col] == 0, col] = np.nan
 
             return out[col_order]
 
-- 
2.43.0


From 982b9cca5370c43c7d347d41c8cbce590e27cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 40/87] fix: a virtual column replacing a column of a sparse
 triangle removes the old amounts

---
 chainladder/core/slice.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 82735da..866195c 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -215,6 +215,13 @@ class TriangleSlicer:
                     k, v, o, d = self.values.shape
                     self.values.shape = k, v + 1, o, d
                     self.vdims = np.append(self.vdims, key)
+                else:
+                    # the amounts of the column it replaces go
+                    keep = self.values.coords[1] != list(self.vdims).index(key)
+                    self.values = xp(
+                        self.values.coords[:, keep], self.values.data[keep],
+                        shape=self.shape, prune=True, fill_value=xp.nan
+                    )
                 return
             value = (self.iloc[:, 0].copy() * xp.nan).set_backend(self.array_backend)
         else:
-- 
2.43.0


From 6c84a176f81e27b226cc476a045321a707643535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 41/87] fix: label the extended sigma_ and std_err_ of a tail
 when development is finer than origin

---
 chainladder/tails/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index 6243aeb..cd01c8a 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -35,7 +35,8 @@ class TailBase(DevelopmentBase):
             self.sigma_.values = xp.concatenate((self.sigma_.values, zeros), -1)
             self.std_err_ = getattr(obj, "std_err_").copy()
             self.std_err_.values = xp.concatenate((self.std_err_.values, zeros), -1)
-            self.sigma_.ddims = self.std_err_.ddims = self.ldf_.ddims[:obj.shape[2]]
+            self.sigma_.ddims = self.std_err_.ddims = self.ldf_.ddims[
+                : self.sigma_.values.shape[-1]]
             self.sigma_._set_slicers()
             self.std_err_._set_slicers()
         if hasattr(obj, "average_"):
-- 
2.43.0


From b0113778211e5099ae6a78f6d56ef245ff1c17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 42/87] fix: to_json keeps ultimates without further emergence
 and the amounts of virtual columns

---
 chainladder/core/io.py                 | 14 +++++++++++++-
 chainladder/utils/utility_functions.py |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 127c1f7..31c49f3 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -36,7 +36,19 @@ class TriangleIO:
             "is_pattern": self.is_pattern,
             "columns": list(self.columns),
         }
-        out = self.cum_to_incr().dev_to_val().to_frame(
+        obj = self
+        if any(c in self.virtual_columns.columns for c in self.columns):
+            # a virtual column is written with the amounts it computes
+            obj = obj.copy()
+            for c in self.columns:
+                if c in self.virtual_columns.columns:
+                    obj[c] = self[c]
+        if self.is_cumulative and self.is_ultimate and not self.is_pattern:
+            # increments to ultimate can be zero, the ultimates are written
+            metadata["cumulative_data"] = True
+        else:
+            obj = obj.cum_to_incr()
+        out = obj.dev_to_val().to_frame(
             keepdims=True, origin_as_datetime=True).fillna(0)
         x = out.reset_index().to_json(orient="split", date_unit="ns")
         json_dict = {"metadata": json.dumps(metadata), "data": x}
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index d34e8f6..c4459b6 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -127,7 +127,7 @@ def read_json(json_str, array_backend=None):
             index=index,
             columns=columns,
             pattern=json.loads(j["metadata"])["is_pattern"],
-            cumulative=False,
+            cumulative=json.loads(j["metadata"]).get("cumulative_data", False),
         )
         if json.loads(j["metadata"])["is_val_tri"]:
             tri = tri.dev_to_val()
-- 
2.43.0


From 472e76429c2aa3884ea2f4076427371de27643c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 43/87] fix: JSON keeps empty outer periods and segments, grain
 and valuation date of a triangle

---
 chainladder/core/io.py                 | 13 +++++++++
 chainladder/utils/utility_functions.py | 40 ++++++++++++++++++++++++++
 2 files changed, 53 insertions(+)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 31c49f3..848bb81 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -36,6 +36,19 @@ class TriangleIO:
             "is_pattern": self.is_pattern,
             "columns": list(self.columns),
         }
+        # the amounts alone do not tell the extent and the grain of the triangle
+        metadata["axes"] = {
+            "index": self.sort_index().index.to_json(orient="split"),
+            "origin": self.odims.astype("datetime64[ns]").astype("int64").tolist(),
+            "development": (
+                self.ddims.values.astype("datetime64[ns]").astype("int64")
+                if self.is_val_tri else self.ddims
+            ).tolist(),
+            "valuation_date": pd.Timestamp(self.valuation_date).value,
+            "origin_grain": self.origin_grain,
+            "development_grain": self.development_grain,
+            "origin_close": self.origin_close,
+        }
         obj = self
         if any(c in self.virtual_columns.columns for c in self.columns):
             # a virtual column is written with the amounts it computes
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index c4459b6..d6e84c6 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -88,6 +88,45 @@ def read_pickle(path):
         return dill.load(pkl)
 
 
+def _restore_axes(tri, axes):
+    """Gives a triangle built from its amounts the axes it was written with"""
+    if not axes:
+        return tri
+    index = pd.read_json(
+        StringIO(axes["index"]), orient="split", dtype=False, convert_dates=False)
+    kdims = [tuple(item) for item in index.values.tolist()]
+    odims = np.array(axes["origin"], dtype="datetime64[ns]")
+    if tri.is_val_tri:
+        ddims = pd.DatetimeIndex(np.array(axes["development"], dtype="datetime64[ns]"))
+    else:
+        ddims = np.array(axes["development"])
+    obj = tri.set_backend("sparse")
+    coords = obj.values.coords.copy()
+    for axis, old, new in (
+        (0, [tuple(item) for item in obj.index.values.tolist()], kdims),
+        (2, list(obj.odims), list(odims)),
+        (3, list(obj.ddims), list(ddims)),
+    ):
+        position = {label: num for num, label in enumerate(new)}
+        moved = [position.get(label, -1) for label in old]
+        coords[axis] = np.array(moved, dtype="int64")[coords[axis]]
+        if (coords[axis] < 0).any():
+            return tri
+    obj.values = obj.get_array_module()(
+        coords,
+        obj.values.data,
+        shape=(len(kdims), len(obj.vdims), len(odims), len(ddims)),
+        prune=True,
+        fill_value=np.nan,
+    )
+    obj.kdims, obj.odims, obj.ddims = index.values, odims, ddims
+    obj.valuation_date = pd.Timestamp(axes["valuation_date"])
+    for item in ("origin_grain", "development_grain", "origin_close"):
+        setattr(obj, item, axes[item])
+    obj._set_slicers()
+    return obj if tri.array_backend == "sparse" else obj.set_backend(tri.array_backend)
+
+
 def read_json(json_str, array_backend=None):
     from chainladder import Triangle
     from chainladder.workflow import Pipeline
@@ -131,6 +170,7 @@ def read_json(json_str, array_backend=None):
         )
         if json.loads(j["metadata"])["is_val_tri"]:
             tri = tri.dev_to_val()
+        tri = _restore_axes(tri, json.loads(j["metadata"]).get("axes"))
         if json.loads(j["metadata"])["is_cumulative"]:
             tri = tri.incr_to_cum()
         tri = tri[json.loads(j["metadata"])["columns"]].sort_index()
-- 
2.43.0


From 95ee04d308e4a353c4eafb8dd6a8d8408a397797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 44/87] fix: read a development triangle with amounts at one
 valuation date back from JSON

---
 chainladder/utils/utility_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index d6e84c6..3758491 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -170,6 +170,8 @@ def read_json(json_str, array_backend=None):
         )
         if json.loads(j["metadata"])["is_val_tri"]:
             tri = tri.dev_to_val()
+        else:
+            tri = tri.val_to_dev()  # as amounts at a single valuation date come
         tri = _restore_axes(tri, json.loads(j["metadata"]).get("axes"))
         if json.loads(j["metadata"])["is_cumulative"]:
             tri = tri.incr_to_cum()
-- 
2.43.0


From be24aadc774cb25cd40fca10773b927531f24917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 45/87] fix: Clark growth curves on semi-annual triangles

---
 chainladder/development/clark.py | 2 +-
 chainladder/tails/clark.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/clark.py b/chainladder/development/clark.py
index 670a12a..a00693d 100644
--- a/chainladder/development/clark.py
+++ b/chainladder/development/clark.py
@@ -129,7 +129,7 @@ class ClarkLDF(DevelopmentBase):
             sample_weight = self._set_fit_groups(sample_weight)
         else:
             self.method_ = "ldf"
-        age_offset = {"Y": 6.0, "S": 3, "Q": 1.5, "M": 0.5}[X.development_grain]
+        age_offset = {"Y": 6.0, "S": 3.0, "Q": 1.5, "M": 0.5}[X.development_grain]
         age_interval = {"Y": 12.0, "S": 6.0, "Q": 3.0, "M": 1.0}[X.development_grain]
         nans = nan_triangle.reshape(1, -1)[0]
         age = xp.tile(X.ddims, len(X.odims))[~xp.isnan(nans)].astype("float64")
diff --git a/chainladder/tails/clark.py b/chainladder/tails/clark.py
index 052c2e6..093fa99 100644
--- a/chainladder/tails/clark.py
+++ b/chainladder/tails/clark.py
@@ -79,7 +79,7 @@ class TailClark(TailBase):
         super().fit(X, y, sample_weight)
         model = ClarkLDF(growth=self.growth).fit(X, sample_weight=sample_weight)
         xp = X.get_array_module()
-        age_offset = {"Y": 6.0, "S": 3, "Q": 1.5, "M": 0.5}[X.development_grain]
+        age_offset = {"Y": 6.0, "S": 3.0, "Q": 1.5, "M": 0.5}[X.development_grain]
         fitted = 1 / model.G_(self.ldf_.ddims - age_offset)
         fitted = xp.concatenate(
             (
-- 
2.43.0


From 13c08dd14dddf4c81b03dd9ad3775fc0eae9a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 46/87] fix: regression-based development predicts the future
 of monthly, semi-annual and mixed-grain triangles

---
 chainladder/development/learning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/chainladder/development/learning.py b/chainladder/development/learning.py
index a66bcdc..b37aec3 100644
--- a/chainladder/development/learning.py
+++ b/chainladder/development/learning.py
@@ -94,9 +94,7 @@ class DevelopmentML(DevelopmentBase):
         X_r = [df]
         y_r = [preds]
         dgrain = {'Y':12, 'Q':3, 'M': 1, 'S': 6}[self.development_grain_]
-        ograin = {'Y':1, 'Q':4, 'M': 12, 'S': 6}[self.origin_grain_]
-        latest_filter = (df['origin']+1)*ograin+(df['development']-dgrain)/dgrain
-        latest_filter = latest_filter == latest_filter.max()
+        latest_filter = df['valuation'] == df['valuation'].max()
         preds=pd.DataFrame(preds.copy())[latest_filter].values
         out = df.loc[latest_filter].copy()
         dev_lags = df['development'].drop_duplicates().sort_values()
@@ -120,7 +118,9 @@ class DevelopmentML(DevelopmentBase):
         out = pd.concat((X_r,
                          pd.DataFrame(np.concatenate(y_r, 0), columns=self._get_y_names())), axis=1)
         out['origin'] = out['origin'].map({v: k for k, v in self.origin_encoder_.items()})
-        out['valuation'] = out['valuation'].map({v: k for k, v in self.valuation_encoder_.items()})
+        # whole months, as fractions of a year accumulate rounding errors
+        out['valuation'] = (out['valuation'] * 12).round().map(
+            {round(v * 12): k for k, v in self.valuation_encoder_.items()})
         return Triangle(
             out, origin='origin', development='valuation',
             index=self._key_labels, columns=self._get_y_names(),
@@ -171,11 +171,11 @@ class DevelopmentML(DevelopmentBase):
         self.development_grain_ = X.development_grain
         self.origin_encoder_ = dict(zip(
             X.origin.to_timestamp(how='s'),
-            (pd.Series(X.origin).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 6}[X.origin_grain]))
+            (pd.Series(X.origin).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 2}[X.origin_grain]))
         val = X.valuation.sort_values().unique()
         self.valuation_encoder_ = dict(zip(
             val,
-            (pd.Series(val).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 6}[X.development_grain]))
+            (pd.Series(val).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 2}[X.development_grain]))
         df = self._prep_X_ml(X)
         self.df_ = df
         # Fit model
-- 
2.43.0


From d43e9cb7ec63a3e072eb72fcc2075cd94253dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 47/87] fix: a list of n_periods, one per factor, works
 together with drop_high and drop_low

---
 chainladder/development/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 0bd58de..75f4dc2 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -95,7 +95,7 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
 
         if (self.drop_high is not None) | (self.drop_low is not None):
             n_periods_ = self._validate_assumption(X, self.n_periods, axis=3)[
-                0, 0, 0, :-1
+                0, 0, 0, : X.shape[3] - 1
             ]
 
             w_ = self._assign_n_periods_weight(X, n_periods_)
-- 
2.43.0


From fb6fbbd6a10f64e65d964e7aa91844078c31731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 48/87] fix: BootstrapODPSample.transform returns a copy of the
 resampled triangles

---
 chainladder/adjustments/bootstrap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index f4f18c8..ed0c67e 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -251,8 +251,7 @@ class BootstrapODPSample(DevelopmentBase):
         -------
             X_new: New triangle with transformed attributes.
         """
-        X_new = X.copy()
-        X_new = self.resampled_triangles_
+        X_new = self.resampled_triangles_.copy()
         X_new.scale_ = self.scale_
         X_new.random_state = self.random_state
         X_new._get_process_variance = types.MethodType(_get_process_variance, X_new)
-- 
2.43.0


From 6537b7c8abdfc54eca658fc533d8cf8caec400c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 49/87] fix: unary plus and sum() of a single triangle return a
 copy

---
 chainladder/core/dunders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 6ad398e..f155075 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -226,7 +226,7 @@ class TriangleDunders:
         return self._arithmetic_cleanup(obj)
 
     def __radd__(self, other):
-        return self if other == 0 else self.__add__(other)
+        return self.copy() if other == 0 else self.__add__(other)
 
     def __sub__(self, other):
         obj, other = self._validate_arithmetic(other)
@@ -255,7 +255,7 @@ class TriangleDunders:
         return obj
 
     def __pos__(self):
-        return self
+        return self.copy()
 
     def __abs__(self):
         obj = self.copy()
-- 
2.43.0


From 1de86d079864fba520e753ce1ea901b1b9ca4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 50/87] fix: drop_valuation drops the stated diagonal on mixed
 grains, semi-annual and fiscal triangles and for every segment

---
 chainladder/development/base.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 75f4dc2..9abcd34 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -316,19 +316,10 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             drop_valuation = [self.drop_valuation]
         else:
             drop_valuation = self.drop_valuation
-        v = pd.PeriodIndex(drop_valuation, freq=X.origin_grain).to_timestamp(how="e")
-        arr = 1 - xp.nan_to_num(X[X.valuation.isin(v)].values[0, 0] * 0 + 1)
-        ofill = X.shape[-2] - arr.shape[-2]
-        dfill = X.shape[-1] - arr.shape[-1]
-        if ofill > 0:
-            arr = xp.concatenate(
-                (arr, xp.repeat(xp.ones(arr.shape[-1])[None], ofill, 0)), 0
-            )
-        if dfill > 0:
-            arr = xp.concatenate(
-                (arr, xp.repeat(xp.ones(arr.shape[-2])[..., None], dfill, -1)), -1
-            )
-        return arr[:, :-1]
+        freq = X.origin.freqstr.replace("2Q", "Q")
+        v = pd.PeriodIndex(drop_valuation, freq=freq).to_timestamp(how="e")
+        arr = 1.0 - X.valuation.isin(v).reshape(X.shape[-2:], order="F")
+        return xp.array(arr)[:, :-1]
 
     def _drop(self, X):
         xp = X.get_array_module()
-- 
2.43.0


From 3dd0948ac25ccd7f6a1abf64d2144cd6be1b0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 51/87] fix: Development(fillna) fills missing cells instead of
 adding the amount to every cell

---
 chainladder/development/development.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/development/development.py b/chainladder/development/development.py
index e7b18a7..027d56b 100644
--- a/chainladder/development/development.py
+++ b/chainladder/development/development.py
@@ -123,7 +123,7 @@ class Development(DevelopmentBase):
         xp = obj.get_array_module()
 
         if self.fillna:
-            tri_array = num_to_nan((obj + self.fillna).values)
+            tri_array = num_to_nan(obj.fillna(self.fillna).values)
         else:
             tri_array = num_to_nan(obj.values.copy())
 
-- 
2.43.0


From e1ea09b1d0752b9cdd0e97197a9352775ee93e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 52/87] fix: Development reads its assumptions and missing-cell
 fill from the development view it fits

---
 chainladder/development/development.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/chainladder/development/development.py b/chainladder/development/development.py
index 027d56b..beaf40d 100644
--- a/chainladder/development/development.py
+++ b/chainladder/development/development.py
@@ -123,16 +123,15 @@ class Development(DevelopmentBase):
         xp = obj.get_array_module()
 
         if self.fillna:
-            tri_array = num_to_nan(obj.fillna(self.fillna).values)
-        else:
-            tri_array = num_to_nan(obj.values.copy())
+            obj = obj.fillna(self.fillna)
+        tri_array = num_to_nan(obj.values.copy())
 
-        average_ = self._validate_assumption(X, self.average, axis=3)[
-            ..., : X.shape[3] - 1
+        average_ = self._validate_assumption(obj, self.average, axis=3)[
+            ..., : obj.shape[3] - 1
         ]
         self.average_ = average_.flatten()
-        n_periods_ = self._validate_assumption(X, self.n_periods, axis=3)[
-            ..., : X.shape[3] - 1
+        n_periods_ = self._validate_assumption(obj, self.n_periods, axis=3)[
+            ..., : obj.shape[3] - 1
         ]
         x, y = tri_array[..., :-1], tri_array[..., 1:]
         exponent = xp.array(
-- 
2.43.0


From dc3ff258007c215c59885d98538c1d042d80d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 53/87] fix: sigma, standard error and residuals of ages with
 few or broken links

---
 chainladder/development/development.py   | 5 +++--
 chainladder/utils/weighted_regression.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/chainladder/development/development.py b/chainladder/development/development.py
index beaf40d..f3519e4 100644
--- a/chainladder/development/development.py
+++ b/chainladder/development/development.py
@@ -154,7 +154,8 @@ class Development(DevelopmentBase):
         self.w_ = self._assign_n_periods_weight(
             obj, n_periods_
         ) * self._drop_adjustment(obj, link_ratio)
-        w = num_to_nan(self.w_ / (x ** (exponent)))
+        # a link is only usable where both of its cells are known
+        w = num_to_nan(self.w_ / (x ** (exponent))) * (y * 0 + 1)
         params = WeightedRegression(axis=2, thru_orig=True, xp=xp).fit(x, y, w)
 
         if self.n_periods != 1:
@@ -169,7 +170,7 @@ class Development(DevelopmentBase):
         params.std_err_ = xp.nan_to_num(params.std_err_) + xp.nan_to_num(
             (1 - xp.nan_to_num(params.std_err_ * 0 + 1))
             * params.sigma_
-            / xp.swapaxes(xp.sqrt(x ** (2 - exponent))[..., 0:1, :], -1, -2)
+            / xp.sqrt(num_to_nan(xp.nansum(w * x * x, 2)))[..., None]
         )
 
         params = xp.concatenate((params.slope_, params.sigma_, params.std_err_), 3)
diff --git a/chainladder/utils/weighted_regression.py b/chainladder/utils/weighted_regression.py
index aec67d2..b7328c2 100644
--- a/chainladder/utils/weighted_regression.py
+++ b/chainladder/utils/weighted_regression.py
@@ -84,7 +84,7 @@ class WeightedRegression(BaseEstimator):
         residual = (y - fitted_value) * xp.sqrt(w)
         wss_residual = xp.nansum(residual**2, axis)
         mse_denom = xp.nansum((y * 0 + 1) * (xp.nan_to_num(w) != 0), axis) - 1
-        mse_denom = num_to_nan(mse_denom)
+        mse_denom = num_to_nan(mse_denom * (mse_denom > 0))
         mse = wss_residual / mse_denom
         std_err = xp.sqrt(mse / d)
         std_err = std_err[..., None]
-- 
2.43.0


From b14ea0bbc13b84423e4574ab286565d54b16b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 54/87] fix: chain-ladder and Benktander ultimates of
 incremental triangles on mixed grains

---
 chainladder/methods/benktander.py  | 8 ++------
 chainladder/methods/chainladder.py | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/chainladder/methods/benktander.py b/chainladder/methods/benktander.py
index 36de2b4..f5f8405 100644
--- a/chainladder/methods/benktander.py
+++ b/chainladder/methods/benktander.py
@@ -107,12 +107,8 @@ class Benktander(MethodBase):
     def _get_ultimate(self, X, expectation):
         from chainladder.utils.utility_functions import num_to_nan
 
-        if X.is_cumulative == False:
-            ld = X.sum("development")
-            ultimate = ld.val_to_dev()
-        else:
-            ld = X.latest_diagonal
-            ultimate = X.copy()
+        ultimate = X.incr_to_cum()
+        ld = ultimate.latest_diagonal
         cdf = self._align_cdf(ultimate.val_to_dev(), expectation)
         backend = cdf.array_backend
         xp = cdf.get_array_module()
diff --git a/chainladder/methods/chainladder.py b/chainladder/methods/chainladder.py
index ca5df44..7af43d4 100644
--- a/chainladder/methods/chainladder.py
+++ b/chainladder/methods/chainladder.py
@@ -69,12 +69,8 @@ class Chainladder(MethodBase):
 
     def _get_ultimate(self, X, sample_weight=None):
         """ Private method that uses CDFs to obtain an ultimate vector """
-        if X.is_cumulative == False:
-            ld = X.sum('development')
-            ultimate = ld.val_to_dev()
-        else:
-            ld = X.latest_diagonal
-            ultimate = X.copy()
+        ultimate = X.incr_to_cum()
+        ld = ultimate.latest_diagonal
         cdf = self._align_cdf(ultimate, sample_weight) 
         ultimate = ld * cdf 
         return self._set_ult_attr(ultimate)
-- 
2.43.0


From 760d0cc410f30153e45171cdc6d0d5bf8ba1a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 55/87] fix: completed and expected triangles end at the
 ultimate

---
 chainladder/core/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 54296a2..bef8f14 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -19,7 +19,7 @@ def _get_full_expectation(cdf_, ultimate_, is_cumulative=True):
         return concat((full, ultimate_.copy().rename("development", [9999])), axis=3)
 
     else:
-        tail_ = full.iloc[:, :, :, -1] - ultimate_
+        tail_ = (full.iloc[:, :, :, -1] - ultimate_) * -1
 
         return concat(
             (full.cum_to_incr(), tail_.copy().rename("development", [9999])), axis=3
@@ -29,7 +29,6 @@ def _get_full_expectation(cdf_, ultimate_, is_cumulative=True):
 def _get_full_triangle(X, ultimate, is_cumulative=True):
     """ Private method that builds full triangle"""
     # Getting the LDFs and expand for all origins
-    from chainladder.utils.utility_functions import num_to_nan
     emergence = X.ldf_.copy() * (ultimate / ultimate)
 
     # Setting LDFs for all of the known diagonals as 1
@@ -46,7 +45,10 @@ def _get_full_triangle(X, ultimate, is_cumulative=True):
     emergence.ddims = emergence.ddims + \
         {"Y": 12, "Q": 3, "S": 6, "M": 1}[emergence.development_grain]
     emergence.ddims[-1] = 9999
-    emergence.values = emergence.values / num_to_nan(emergence.values[..., -1:])
+    # where the pattern has nothing left to emerge, the ultimate emerges at once
+    total = emergence.values[..., -1:]
+    developed = total == 0
+    emergence.values = (emergence.values + developed) / (total + developed)
     ld = X.incr_to_cum().latest_diagonal
     cum_run_off = ld + emergence * (ultimate - ld)
     cum_run_off = cum_run_off[cum_run_off.valuation > X.valuation_date]
-- 
2.43.0


From 1e71e04f86290ee365b8b27e54150ec5764836db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 56/87] fix: concat matches index levels by name and joins
 virtual columns by their amounts

---
 chainladder/utils/utility_functions.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 3758491..af525c8 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -350,6 +350,26 @@ def concat(
     xp = objs[0].get_array_module()
     axis = objs[0]._get_axis(axis)
 
+    key_labels = list(objs[0].key_labels)
+    for num, obj in enumerate(objs):
+        # index levels go by name, in the order of the first triangle
+        if list(obj.key_labels) != key_labels and set(obj.key_labels) == set(key_labels):
+            obj = obj.copy()
+            obj.kdims = obj.index[key_labels].values
+            obj.key_labels = list(key_labels)
+            obj._set_slicers()
+            objs[num] = obj
+    definitions = [
+        {k: v for k, v in obj.virtual_columns.columns.items() if k in obj.columns}
+        for obj in objs
+    ]
+    for num, obj in enumerate(objs):
+        # a virtual column that is not shared by all is joined by its amounts
+        for col, func in definitions[num].items():
+            if any(item.get(col) is not func for item in definitions):
+                obj = obj.copy() if obj is objs[num] else obj
+                obj[col] = obj[col]
+        objs[num] = obj
     if axis != 1:
         all_columns = []
         for obj in objs:
-- 
2.43.0


From 8db30a730594484bf0bd122459bada85c6153672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 57/87] fix: set_backend(deep=True) leaves the attached
 triangles of the source alone

---
 chainladder/core/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index bef8f14..37cc0a8 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -189,9 +189,9 @@ class Common:
                         self.values
                     )
                 if deep:
-                    for k, v in vars(self).items():
+                    for k, v in list(vars(self).items()):
                         if isinstance(v, Common):
-                            v.set_backend(backend, inplace=True, deep=True)
+                            setattr(self, k, v.set_backend(backend, deep=True))
                 if hasattr(self, "array_backend"):
                     self.array_backend = backend
             else:
-- 
2.43.0


From b377e1ecc610319a33bb3be64a6453b84371c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 58/87] fix: Mack keeps the process variance of projected cells
 when their link was excluded from the pattern, and summarises sparse
 triangles

---
 chainladder/methods/mack.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index edea0df..02d6d7f 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -108,7 +108,12 @@ class MackChainladder(Chainladder):
         weight = xp.sqrt(full.values[..., : len(X.ddims)] ** (2 - val))
         obj.values = X.sigma_.values / num_to_nan(weight)
         w = lxp.concatenate((X.w_, lxp.ones((*X.w_.shape[:3], 1))), 3)
-        w[xp.isnan(w)] = 1
+        # only observed links can be dropped, future ones keep their variance
+        nans = X.nan_triangle
+        nans = nans.todense() if X.array_backend == "sparse" else nans
+        nans = lxp.array(nans)
+        future = lxp.isnan(lxp.concatenate((nans[:, 1:], nans[:, :1] * lxp.nan), 1))
+        w = lxp.where(lxp.isnan(w) | future, 1, w)
         obj.values = xp.nan_to_num(obj.values) * xp.array(w)
         obj.valuation_date = full.valuation_date
         obj._set_slicers()
@@ -179,11 +184,12 @@ class MackChainladder(Chainladder):
         # This might be better as a dataframe
         obj = self.ultimate_.copy()
         cols = (
-            self.X_.latest_diagonal.values,
-            self.ibnr_.values,
-            self.ultimate_.values,
-            self.mack_std_err_.values[..., -1:],
+            self.X_.latest_diagonal,
+            self.ibnr_,
+            self.ultimate_,
+            self.mack_std_err_.iloc[..., -1:],
         )
+        cols = tuple(col.set_backend(obj.array_backend).values for col in cols)
         obj.values = obj.get_array_module().concatenate(cols, 3)
         obj.ddims = ["Latest", "IBNR", "Ultimate", "Mack Std Err"]
         obj._set_slicers()
-- 
2.43.0


From 9e0a498f95685e4a23459eb5aa3415eff9c83581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 59/87] fix: tails attach at the first age when asked, and
 TailCurve fit_period lists work on sparse triangles

---
 chainladder/tails/base.py  | 2 +-
 chainladder/tails/curve.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index cd01c8a..97d28fb 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -86,7 +86,7 @@ class TailBase(DevelopmentBase):
     def _apply_decay(self, X, tail, attach_idx=None):
         """ Created Tail vector with decay over time. """
         xp = self.ldf_.get_array_module()
-        if attach_idx:
+        if attach_idx is not None:
             decay_range = self.ldf_.shape[-1] - attach_idx
         else:
             decay_range = self.ldf_.shape[-1] - X.shape[-1] + 1
diff --git a/chainladder/tails/curve.py b/chainladder/tails/curve.py
index b05ee43..7d36ee2 100644
--- a/chainladder/tails/curve.py
+++ b/chainladder/tails/curve.py
@@ -114,7 +114,7 @@ class TailCurve(TailBase):
             )
             fit_period = self.fit_period
         elif type(self.fit_period) is list:
-            fit_period = xp.array(self.fit_period)[None, None, None, :]
+            fit_period = self.fit_period
         else:
             grain = {"Y": 12, "S": 6, "Q": 3, "M": 1}[X.development_grain]
             start = (
@@ -135,7 +135,7 @@ class TailCurve(TailBase):
         if type(fit_period) is slice:
             _w[..., fit_period] = 1.0
         else:
-            _w = (_w + 1) * fit_period
+            _w = (_w + 1) * xp.array(fit_period)[None, None, None, :]
         if self.reg_threshold[0] is None:
             warnings.warn(
                 "Lower threshold for ldfs not set. Lower threshold will be set to 1.0 to ensure"
-- 
2.43.0


From 511d243e751ececd6fa479b5314b856b31287f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 60/87] fix: TailCurve with fewer extrapolated periods than
 projected ages keeps a factor for every age

---
 chainladder/tails/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index 97d28fb..c33bea9 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -70,6 +70,11 @@ class TailBase(DevelopmentBase):
     def _get_tail_prediction(self, tail_ldf):
         xp = self.ldf_.get_array_module()
         accum_point = self.ldf_.shape[-1] - 1
+        # No development beyond the extrapolated periods
+        pad = max(accum_point - tail_ldf.shape[-1], 0)
+        tail_ldf = xp.concatenate(
+            (tail_ldf, xp.zeros((*tail_ldf.shape[:-1], pad))), -1
+        )
         ave = 1 + tail_ldf[..., :accum_point]
         all = xp.prod(1 + tail_ldf[..., accum_point:], -1)[..., None]
         tail = xp.concatenate((ave, all), -1)
-- 
2.43.0


From ad1bd3d5c53243af5c56d26ee8bbb2e8972b5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 61/87] fix: exposures are matched to the triangle by index and
 column label, whatever their order

---
 chainladder/methods/base.py       | 17 +++++++++++++++++
 chainladder/methods/benktander.py |  1 +
 chainladder/methods/capecod.py    |  1 +
 3 files changed, 19 insertions(+)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 26bf84f..73e82d1 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -150,6 +150,23 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
             process_var = None
         return process_var
 
+    def _align_weight(self, X, sample_weight):
+        """ Order the index and columns of sample_weight like those of X """
+        columns = list(X.columns)
+        if list(sample_weight.columns) != columns and set(
+            sample_weight.columns
+        ) == set(columns):
+            sample_weight = sample_weight[columns]
+        if len(sample_weight) == len(X) and set(sample_weight.key_labels) == set(
+            X.key_labels
+        ):
+            order = pd.MultiIndex.from_frame(
+                sample_weight.index[list(X.key_labels)]
+            ).get_indexer(pd.MultiIndex.from_frame(X.index))
+            if (order >= 0).all() and (np.diff(order) != 1).any():
+                sample_weight = sample_weight.iloc[list(order)]
+        return sample_weight
+
     def validate_weight(self, X, sample_weight):
         if (
             sample_weight
diff --git a/chainladder/methods/benktander.py b/chainladder/methods/benktander.py
index f5f8405..ee4d87c 100644
--- a/chainladder/methods/benktander.py
+++ b/chainladder/methods/benktander.py
@@ -92,6 +92,7 @@ class Benktander(MethodBase):
     def _get_benktander_aprioris(self, X, sample_weight):
         """Private method to establish Benktander Apriori"""
         xp = X.get_array_module()
+        sample_weight = self._align_weight(X, sample_weight)
         if self.apriori_sigma != 0:
             random_state = xp.random.RandomState(self.random_state)
             apriori = random_state.normal(self.apriori, self.apriori_sigma, X.shape[0])
diff --git a/chainladder/methods/capecod.py b/chainladder/methods/capecod.py
index df41fbf..32d2bb3 100644
--- a/chainladder/methods/capecod.py
+++ b/chainladder/methods/capecod.py
@@ -99,6 +99,7 @@ class CapeCod(Benktander):
         """Private method to establish CapeCod Apriori"""
         if X.is_cumulative == False:
             X = X.sum("development").val_to_dev()
+        sample_weight = self._align_weight(X, sample_weight)
         latest = X.latest_diagonal
         len_orig = sample_weight.shape[-2]
         reported_exposure = sample_weight / self._align_cdf(X.copy(), sample_weight)
-- 
2.43.0


From f3a49a823327a2fff9f4e52b7e63de61adc86a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 62/87] fix: CapeCod cumulates incremental triangles at every
 grain and averages on-level factors within groups

---
 chainladder/methods/capecod.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/chainladder/methods/capecod.py b/chainladder/methods/capecod.py
index 32d2bb3..e018b77 100644
--- a/chainladder/methods/capecod.py
+++ b/chainladder/methods/capecod.py
@@ -97,8 +97,7 @@ class CapeCod(Benktander):
 
     def _get_capecod_aprioris(self, X, sample_weight):
         """Private method to establish CapeCod Apriori"""
-        if X.is_cumulative == False:
-            X = X.sum("development").val_to_dev()
+        X = X.incr_to_cum()
         sample_weight = self._align_weight(X, sample_weight)
         latest = X.latest_diagonal
         len_orig = sample_weight.shape[-2]
@@ -195,7 +194,11 @@ class CapeCod(Benktander):
                 olf_array = 1.0
         else:
             if hasattr(X, "olf_"):
-                olf_array = (X.olf_ * X).groupby(self.groupby).sum().values
+                latest = X.latest_diagonal
+                olf_array = (
+                    (X.olf_ * latest).groupby(self.groupby).sum()
+                    / latest.groupby(self.groupby).sum()
+                ).values
             else:
                 olf_array = 1.0
         return olf_array
-- 
2.43.0


From e654dad121525d28017303515648a27dc1b63e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 63/87] fix: full triangles of narrow or partly undetermined
 patterns keep their run-off

---
 chainladder/core/common.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 37cc0a8..6462d95 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -6,7 +6,7 @@ from chainladder.utils.cupy import cp
 from chainladder.utils.sparse import sp
 from chainladder.utils.dask import dp
 import numpy as np
-from chainladder.utils.utility_functions import concat
+from chainladder.utils.utility_functions import concat, num_to_nan, num_to_value
 from chainladder import options
 
 
@@ -26,18 +26,31 @@ def _get_full_expectation(cdf_, ultimate_, is_cumulative=True):
         )
 
 
+def _valuation_mask(X, key):
+    """ Private method that filters valuations without dropping any axis label """
+    obj = X.copy()
+    key = np.array(key).reshape(obj.shape[2:], order="f")
+    obj.values = num_to_nan(obj.values * obj.get_array_module().array(key))
+    return obj
+
+
 def _get_full_triangle(X, ultimate, is_cumulative=True):
     """ Private method that builds full triangle"""
     # Getting the LDFs and expand for all origins
-    emergence = X.ldf_.copy() * (ultimate / ultimate)
+    ldf = X.ldf_.copy()
+    # as in the CDFs, an undetermined factor is no development
+    ldf.values = num_to_value(ldf.get_array_module().nan_to_num(ldf.values), 1)
+    emergence = ldf * (ultimate / ultimate)
 
     # Setting LDFs for all of the known diagonals as 1
+    known = _valuation_mask(emergence, emergence.valuation < X.valuation_date)
+    known.valuation_date = X.valuation_date - pd.Timedelta(days=1)
     emergence = (
-        emergence[emergence.valuation < X.valuation_date] * 0
+        known * 0
         + 1
-        + emergence[emergence.valuation >= X.valuation_date]
+        + _valuation_mask(emergence, emergence.valuation >= X.valuation_date)
     )
-    
+
     emergence.valuation_date = pd.to_datetime(options.ULT_VAL)
     emergence.values = emergence.values.cumprod(axis=3) - 1 
     
@@ -51,7 +64,11 @@ def _get_full_triangle(X, ultimate, is_cumulative=True):
     emergence.values = (emergence.values + developed) / (total + developed)
     ld = X.incr_to_cum().latest_diagonal
     cum_run_off = ld + emergence * (ultimate - ld)
-    cum_run_off = cum_run_off[cum_run_off.valuation > X.valuation_date]
+    future = cum_run_off.valuation > X.valuation_date
+    keep = np.array(future).reshape(cum_run_off.shape[2:], order="f").any(0)
+    keep = keep | np.isin(cum_run_off.ddims, X.ddims)
+    cum_run_off = _valuation_mask(cum_run_off, future)
+    cum_run_off = cum_run_off.iloc[..., np.arange(len(keep))[keep]]
     cum_run_off.is_cumulative = True
 
     if is_cumulative:
-- 
2.43.0


From 715e0b209e28a2dd43adc406ce1c6ff30cde8b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 64/87] fix: CapeCod predicts on valuation triangles

---
 chainladder/methods/capecod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/methods/capecod.py b/chainladder/methods/capecod.py
index e018b77..fcc0ae9 100644
--- a/chainladder/methods/capecod.py
+++ b/chainladder/methods/capecod.py
@@ -143,7 +143,7 @@ class CapeCod(Benktander):
         """
         if sample_weight is None:
             raise ValueError("sample_weight is required.")
-        X_new = X.copy()
+        X_new = X.val_to_dev()
         _, X_new.ldf_ = self.intersection(X_new, self.ldf_)
         # If model was fit at a higher grain, then need to aggregate predicted aprioris too
         if len(set(sample_weight.key_labels) - set(self.apriori_.key_labels)) > 1:
-- 
2.43.0


From db102bcc6b665849736db18c59bd25614dfaf05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 65/87] fix: predict at an earlier valuation or on few origins
 keeps the fitted ages

---
 chainladder/methods/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 73e82d1..3378900 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -30,7 +30,9 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
         a = X.iloc[0, 0] * 0
         a = a + a.nan_triangle
         if X.array_backend == "sparse":
-            a = a - a[a.valuation < a.valuation_date]
+            latest = np.array(a.valuation == a.valuation_date)
+            latest = np.where(latest.reshape(a.shape[2:], order="f"), 1, np.nan)
+            a.values = a.values * a.get_array_module().array(latest)
         if sample_weight:
             X = X * a + sample_weight * a
         else:
@@ -109,7 +111,10 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
         X_new = X.val_to_dev()
         if sum(X_new.ddims > self.ldf_.ddims.max()) > 0:
             raise ValueError("X has ages that exceed those available in model.")
-        X_new = X_new + (self.X_.val_to_dev().iloc[0,0].sum(2) * 0)
+        # Extends X to the ages of the model without changing its valuation date
+        ages = self.X_.val_to_dev().iloc[0,0].sum(2) * 0
+        ages.valuation_date = X_new.valuation_date
+        X_new = X_new + ages
         self.validate_weight(X_new, sample_weight)
         if sample_weight:
             sample_weight = sample_weight.set_backend(X_new.array_backend)
-- 
2.43.0


From b167723d5e38726275527209ee7f0a5702690281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 66/87] fix: Mack predict takes the parameters of the
 triangle's own segments

---
 chainladder/methods/mack.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 02d6d7f..2dc7725 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -72,10 +72,14 @@ class MackChainladder(Chainladder):
 
     def predict(self, X, sample_weight=None):
         X_new = super().predict(X, sample_weight)
-        X_new.sigma_ = getattr(X_new, "sigma_", self.X_.sigma_)
-        X_new.std_err_ = getattr(X_new, "std_err_", self.X_.std_err_)
-        X_new.average_ = getattr(X_new, "average_", self.X_.average_)
-        X_new.w_ = getattr(X_new, "w_", self.X_.w_)
+        _, X_new.sigma_ = self.intersection(X_new, self.X_.sigma_)
+        _, X_new.std_err_ = self.intersection(X_new, self.X_.std_err_)
+        X_new.average_ = self.X_.average_
+        X_new.w_ = self.X_.w_
+        if self.X_.shape[:3] != X_new.shape[:3]:
+            # Exclusions belong to the cells the model was fit on
+            xp = X_new.ldf_.get_array_module()
+            X_new.w_ = xp.ones((*X_new.shape[:3], self.X_.w_.shape[-1]))
         X_new._full_triangle_ = X_new.full_triangle_
         X_new.parameter_risk_ = self._mack_recursion("parameter_risk_", X_new)
         X_new.process_risk_ = self._mack_recursion("process_risk_", X_new)
-- 
2.43.0


From 04e4380f9cfec9bfdfc3d67d6d859acb3c276187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 67/87] fix: bootstrap incremental and multi-column triangles,
 slice and pickle its simulations and accept generators

---
 chainladder/adjustments/bootstrap.py | 30 ++++++++++++++++++----------
 chainladder/methods/base.py          |  2 +-
 chainladder/methods/benktander.py    |  4 +++-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index ed0c67e..ed0583e 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -7,7 +7,6 @@ from chainladder.development import DevelopmentBase, Development
 import numpy as np
 import pandas as pd
 from warnings import warn
-import types
 
 
 class BootstrapODPSample(DevelopmentBase):
@@ -75,7 +74,10 @@ class BootstrapODPSample(DevelopmentBase):
                    for i in range(X.shape[1])]
             xp = X.get_array_module(out[0].design_matrix_)
             self.design_matrix_ = xp.concatenate([i.design_matrix_[None] for i in out], axis=0)
-            self.hat_ = xp.concatenate([i.hat_[None] for i in out], axis=0)
+            if any(i.hat_ is None for i in out):
+                self.hat_ = None
+            else:
+                self.hat_ = xp.concatenate([i.hat_[None] for i in out], axis=0)
             self.resampled_triangles_ = concat([i.resampled_triangles_ for i in out], axis=1)
             self.scale_ = xp.array([i.scale_ for i in out])
             self.w_ = out[0].w_
@@ -152,7 +154,9 @@ class BootstrapODPSample(DevelopmentBase):
         # Suggestions from Using the ODP Bootstrap Model: A Practitioners Guide
         adj_resid_dist = adj_resid_dist[adj_resid_dist != 0]
         adj_resid_dist = adj_resid_dist - xp.mean(adj_resid_dist)
-        random_state = xp.random.RandomState(self.random_state)
+        random_state = self.random_state
+        if not isinstance(random_state, np.random.RandomState):
+            random_state = xp.random.RandomState(random_state)
         resampled_residual = [
             (
                 random_state.choice(
@@ -169,8 +173,10 @@ class BootstrapODPSample(DevelopmentBase):
         b = xp.repeat(exp_incr_triangle[None, ...], self.n_sims, 0)
         resampled_triangles = (resampled_residual * xp.sqrt(abs(b)) + b).cumsum(2)
         resampled_triangles = xp.swapaxes(resampled_triangles[None, ...], 0, 1)
-        obj = X.copy()
-        obj.kdims = np.arange(self.n_sims)
+        obj = X.incr_to_cum()
+        obj.kdims = np.arange(self.n_sims)[:, None]
+        if len(obj.key_labels) > 1:
+            obj.key_labels = ["Total"]
         obj.values = resampled_triangles
         obj._set_slicers()
         return obj, scale_phi
@@ -254,7 +260,7 @@ class BootstrapODPSample(DevelopmentBase):
         X_new = self.resampled_triangles_.copy()
         X_new.scale_ = self.scale_
         X_new.random_state = self.random_state
-        X_new._get_process_variance = types.MethodType(_get_process_variance, X_new)
+        X_new._get_process_variance = _get_process_variance
         return X_new
 
 
@@ -264,10 +270,14 @@ def _get_process_variance(self, full_triangle):
     #    process_triangle = np.nan_to_num(np.array([random_state.poisson(lam=abs(item))*np.sign(np.nan_to_num(item))for item in sim_exp_incr_triangle]))
     xp = full_triangle.get_array_module()
     lower_tri = full_triangle.cum_to_incr() - self.cum_to_incr()
-    random_state = xp.random.RandomState(
-        None if self.random_state is None else self.random_state + 1
-    )
+    random_state = self.random_state
+    if not isinstance(random_state, np.random.RandomState):
+        random_state = xp.random.RandomState(
+            None if random_state is None else random_state + 1
+        )
+    # one scale parameter per column
+    scale = xp.reshape(xp.array(self.scale_), (-1, 1, 1))
     lower_tri.values = random_state.gamma(
-        shape=abs(lower_tri.values) / self.scale_, scale=self.scale_
+        shape=abs(lower_tri.values) / scale, scale=scale
     ) * xp.sign(xp.nan_to_num(lower_tri.values))
     return (lower_tri + self.cum_to_incr()).incr_to_cum()
diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 3378900..f68dba7 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -148,7 +148,7 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
     def _include_process_variance(self):
         if hasattr(self.X_, "_get_process_variance"):
             full = self.full_triangle_
-            obj = self.X_._get_process_variance(full)
+            obj = self.X_._get_process_variance(self.X_, full)
             self.ultimate_.values = obj.values[..., -1:]
             process_var = obj - full
         else:
diff --git a/chainladder/methods/benktander.py b/chainladder/methods/benktander.py
index ee4d87c..4675867 100644
--- a/chainladder/methods/benktander.py
+++ b/chainladder/methods/benktander.py
@@ -94,7 +94,9 @@ class Benktander(MethodBase):
         xp = X.get_array_module()
         sample_weight = self._align_weight(X, sample_weight)
         if self.apriori_sigma != 0:
-            random_state = xp.random.RandomState(self.random_state)
+            random_state = self.random_state
+            if not isinstance(random_state, np.random.RandomState):
+                random_state = xp.random.RandomState(random_state)
             apriori = random_state.normal(self.apriori, self.apriori_sigma, X.shape[0])
             apriori = apriori.reshape(X.shape[0], -1)[..., None, None]
             apriori = sample_weight * apriori
-- 
2.43.0


From d69800d04546aceeb45e8f41bce3477c681b7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 68/87] fix: bootstrap residual pool does not depend on
 rounding of exactly fitted cells

---
 chainladder/adjustments/bootstrap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index ed0583e..95dd312 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -152,7 +152,9 @@ class BootstrapODPSample(DevelopmentBase):
 
         adj_resid_dist = resids[xp.isfinite(resids)]  # Missing k,v dimensions
         # Suggestions from Using the ODP Bootstrap Model: A Practitioners Guide
-        adj_resid_dist = adj_resid_dist[adj_resid_dist != 0]
+        adj_resid_dist = adj_resid_dist[
+            abs(adj_resid_dist) > 1e-9 * abs(adj_resid_dist).max(initial=0)
+        ]
         adj_resid_dist = adj_resid_dist - xp.mean(adj_resid_dist)
         random_state = self.random_state
         if not isinstance(random_state, np.random.RandomState):
@@ -221,8 +223,9 @@ class BootstrapODPSample(DevelopmentBase):
         )
         hat = xp.diagonal(
             xp.sqrt(
+                # Cells fitted exactly have no residual, whatever the rounding
                 xp.divide(
-                    1, abs(1 - hat), out=xp.zeros_like(hat), where=(1 - hat) != 0
+                    1, abs(1 - hat), out=xp.zeros_like(hat), where=abs(1 - hat) > 1e-9
                 )
             )
         )
-- 
2.43.0


From 0c6aad46b82be4b914b690036f71445af0bfde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 69/87] fix: BerquistSherman does not fit the estimator
 supplied by the user

---
 chainladder/adjustments/berqsherm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/adjustments/berqsherm.py b/chainladder/adjustments/berqsherm.py
index 50ec220..610f1ec 100644
--- a/chainladder/adjustments/berqsherm.py
+++ b/chainladder/adjustments/berqsherm.py
@@ -3,7 +3,7 @@
 # file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 from chainladder.methods.chainladder import Chainladder
-from sklearn.base import BaseEstimator, TransformerMixin
+from sklearn.base import BaseEstimator, clone, TransformerMixin
 import numpy as np
 import copy
 import warnings
@@ -94,6 +94,8 @@ class BerquistSherman(BaseEstimator, TransformerMixin, EstimatorIO):
         # Paid and closed claim adjustments
         if reported_count_estimator is None:
             reported_count_estimator = Chainladder()
+        # The estimator supplied by the user is not itself fitted
+        reported_count_estimator = clone(reported_count_estimator)
         reported_count_estimator.fit(obj[reported_count])
         if reported_count_estimator.__class__.__name__ == "Pipeline":
             rep_cnt_ult = reported_count_estimator.named_steps[
-- 
2.43.0


From a93c3df9e5ac13b479838e9b06d1dbee9bec6b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 70/87] fix: on-level factors at every origin period, mid-month
 changes, single-change segments and daily approximation after leap years

---
 chainladder/adjustments/parallelogram.py | 13 +++--
 chainladder/utils/utility_functions.py   | 74 ++++++++++--------------
 2 files changed, 37 insertions(+), 50 deletions(-)

diff --git a/chainladder/adjustments/parallelogram.py b/chainladder/adjustments/parallelogram.py
index 4bf6bed..8f4e13c 100644
--- a/chainladder/adjustments/parallelogram.py
+++ b/chainladder/adjustments/parallelogram.py
@@ -71,7 +71,7 @@ class ParallelogramOLF(BaseEstimator, TransformerMixin, EstimatorIO):
         else:
             obj = X.copy()
 
-        groups = list(set(X.key_labels).intersection(self.rate_history.columns))
+        groups = [k for k in X.key_labels if k in self.rate_history.columns]
 
         if len(groups) == 0:
             idx = obj
@@ -81,15 +81,18 @@ class ParallelogramOLF(BaseEstimator, TransformerMixin, EstimatorIO):
         kw = dict(
             start_date=X.origin[0].to_timestamp(how="s"),
             end_date=X.origin[-1].to_timestamp(how="e"),
-            grain=X.origin_grain,
+            grain=X.origin.freqstr,
             vertical_line=self.vertical_line,
             approximation_grain=self.approximation_grain,
         )
 
         if len(groups) > 0:
             tris = []
-            for item in idx.index.set_index(groups).iterrows():
-                r = self.rate_history.set_index(groups).loc[item[0]].copy()
+            for n, item in enumerate(idx.index[groups].values):
+                r = self.rate_history
+                r = r[(r[groups].astype(str) == item.astype(str)).all(axis=1)].copy()
+                if len(r) == 0:
+                    raise KeyError(tuple(item))
                 r[self.change_col] = r[self.change_col] + 1
                 r = (r.groupby(self.date_col)[self.change_col].prod() - 1).reset_index()
                 date = r[self.date_col]
@@ -99,7 +102,7 @@ class ParallelogramOLF(BaseEstimator, TransformerMixin, EstimatorIO):
                 ]
                 if X.array_backend == "cupy":
                     olf = X.get_array_module().array(olf)
-                tris.append((idx.loc[item[0]] * 0 + 1) * olf)
+                tris.append((idx.iloc[n] * 0 + 1) * olf)
             self.olf_ = concat(tris, 0).latest_diagonal
         else:
             r = self.rate_history.copy()
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index af525c8..50cc69b 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -206,13 +206,15 @@ def parallelogram_olf(
     approximation_grain="M",
     vertical_line=False,
 ):
-    """Parallelogram approach to on-leveling."""
-    date = pd.to_datetime(date)
+    """Parallelogram approach to on-leveling. ``grain`` is the frequency of the
+    origin periods, which start with the one holding start_date."""
+    date = pd.DatetimeIndex(pd.to_datetime(date)).normalize()
     if not start_date:
         start_date = "{}-01-01".format(date.min().year)
     if not end_date:
         end_date = "{}-12-31".format(date.max().year)
-    start_date = pd.to_datetime(start_date) - pd.tseries.offsets.DateOffset(days=1)
+    first_date = pd.to_datetime(start_date)
+    start_date = first_date - pd.tseries.offsets.DateOffset(days=1)
 
     date_freq = {
         "M": "MS",
@@ -226,7 +228,11 @@ def parallelogram_olf(
         freq=date_freq[approximation_grain],
     )
 
-    rate_changes = pd.Series(np.array(values), np.array(date))
+    if approximation_grain == "M":
+        # A change within a month takes effect with that month
+        date = date.to_period("M").to_timestamp()
+    rate_changes = pd.Series(np.array(values), date)
+    rate_changes = (1 + rate_changes).groupby(level=0).prod() - 1
     rate_changes = rate_changes.reindex(date_idx, fill_value=0)
 
     cum_rate_changes = np.cumprod(1 + rate_changes.values)
@@ -256,40 +262,25 @@ def parallelogram_olf(
             cum_avg_rate_leaps + cum_avg_rate_leaps.shift(1).values
         ) / 2
 
-    dropdates_num = {
-        "M": 12,
-        "D": 366,
-    }
-    cum_avg_rate_non_leaps = cum_avg_rate_non_leaps.iloc[
-        dropdates_num[approximation_grain] :
-    ]
-    cum_avg_rate_leaps = cum_avg_rate_leaps.iloc[
-        dropdates_num[approximation_grain] + 1 :
-    ]
-
-    fcrl_non_leaps = (
-        cum_avg_rate_non_leaps.groupby(cum_avg_rate_non_leaps.index.to_period(grain))
-        .mean()
-        .reset_index()
-    )
-    fcrl_non_leaps.columns = ["Origin", "OLF"]
-    fcrl_non_leaps["Origin"] = fcrl_non_leaps["Origin"].astype(str)
-    fcrl_non_leaps["OLF"] = crl / fcrl_non_leaps["OLF"]
-
-    fcrl_leaps = (
-        cum_avg_rate_leaps.groupby(cum_avg_rate_leaps.index.to_period(grain))
-        .mean()
-        .reset_index()
+    def average_by_origin(rate):
+        """Average rate of each origin period"""
+        rate = rate[rate.index >= first_date]
+        period = rate.index.to_period(grain)
+        # a period may span several units of its frequency, e.g. two quarters
+        first, n = period[0].ordinal, period.freq.n
+        start = first + (period.astype("int64") - first) // n * n
+        start = pd.PeriodIndex([pd.Period(ordinal=i, freq=period.freq) for i in start])
+        return rate.groupby(start).mean()
+
+    combined = pd.DataFrame(
+        {
+            "OLF_non_leaps": crl / average_by_origin(cum_avg_rate_non_leaps),
+            "OLF_leaps": crl / average_by_origin(cum_avg_rate_leaps),
+        }
     )
-    fcrl_leaps.columns = ["Origin", "OLF"]
-    fcrl_leaps["Origin"] = fcrl_leaps["Origin"].astype(str)
-    fcrl_leaps["OLF"] = crl / fcrl_leaps["OLF"]
-
-    combined = fcrl_non_leaps.join(fcrl_leaps, lsuffix="_non_leaps", rsuffix="_leaps")
-    combined["is_leap"] = pd.PeriodIndex(
-        combined["Origin_non_leaps"], freq=grain
-    ).is_leap_year
-    
+    combined["is_leap"] = combined.index.is_leap_year
+    combined.index = combined.index.astype(str)
+    combined.index.name = "Origin"
 
     if approximation_grain == "M":
         combined["final_OLF"] = combined["OLF_non_leaps"]
@@ -298,14 +289,7 @@ def parallelogram_olf(
             combined["is_leap"], combined["OLF_leaps"], combined["OLF_non_leaps"]
         )
 
-    combined.drop(
-        ["OLF_non_leaps", "Origin_leaps", "OLF_leaps", "is_leap"],
-        axis=1,
-        inplace=True,
-    )
-    combined.columns = ["Origin", "OLF"]
-
-    return combined.set_index("Origin")
+    return combined[["final_OLF"]].rename(columns={"final_OLF": "OLF"})
 
 
 def set_common_backend(objs):
-- 
2.43.0


From 6092c481282491def9ed861aebe236b7ff503486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 71/87] fix: voting keeps its settings, ignores dropped
 members' weights and matches weights to origins; grid search clones
 estimators in its grid

---
 chainladder/workflow/gridsearch.py |  4 +++-
 chainladder/workflow/voting.py     | 24 ++++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 227a84f..43348dd 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -88,7 +88,9 @@ class GridSearch(BaseEstimator):
         grid = list(ParameterGrid(self.param_grid))
 
         def _fit_single_estimator(estimator, fit_params, X, y, scoring, item):
-            est = clone(estimator).set_params(**item)
+            # estimators in the grid are cloned too: fitting leaves them alone
+            est = clone(estimator).set_params(
+                **{k: clone(v, safe=False) for k, v in item.items()})
             model = est.fit(X, y, **fit_params)
             for score in scoring.keys():
                 item[score] = scoring[score](model)
diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 008b23d..0f9103e 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -47,10 +47,16 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     Warning: This class should not be used directly. Use derived classes
     instead.
     """
+    @property
+    def _default_weighting(self):
+        if self.default_weighting is None:
+            return (1, ) * len(self.estimators)
+        return self.default_weighting
+
     def _assum_vector_is_none(self, X, assum_vector):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
-            np.array(self.default_weighting)[np.newaxis, :],
+            np.array(self._default_weighting)[np.newaxis, :],
             repeats=X.shape[2],
             axis=0
             )
@@ -69,7 +75,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
 
     def _assum_vector_is_dict(self, X, assum_vector):
         mapping_dict = {X.origin[X.origin == k][0]: v for k, v in assum_vector.items()}
-        missing = {k: self.default_weighting for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
+        missing = {k: self._default_weighting for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
         assum_vector_ = np.array([*self.X_.origin.map({**mapping_dict, **missing})])
         return assum_vector_
 
@@ -105,8 +111,6 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     def fit(self, X, y, sample_weight=None):
         """Get common fit operations."""
         names, clfs = self._validate_estimators()
-        if self.default_weighting is None:
-            self.default_weighting = (1, ) * len(self.estimators)
         self.weights_ = self._coerce_assum_vector_to_array(X, self.weights)
         self.weights_ = self.weights_[..., np.newaxis]
         if self.weights_.shape[-3] != X.shape[2]:
@@ -338,6 +342,18 @@ class VotingChainladder(_BaseChainladderVoting, MethodBase):
                                  f' and {X.shape[1]} for X.')
             weights = self.weights_
 
+        # Weights belong to the origins the estimator was fitted on
+        rows = self.X_.origin.get_indexer(X.origin)
+        if (rows >= 0).all():
+            weights = weights[..., rows, :, :]
+        elif len(rows) != weights.shape[-3]:
+            raise ValueError('X has origin periods for which no weights'
+                             ' were set when fitting.')
+        # Dropped estimators take no part in the vote
+        voting = [i for i, (_, est) in enumerate(self.estimators)
+                  if est != 'drop']
+        weights = weights[..., voting, :]
+
         ultimate = sum([
                 est.predict(X, sample_weight).ultimate_ * weights[..., i, :]
                 for i, est in enumerate(self.estimators_)
-- 
2.43.0


From 5f638271445eff9d7626553a693c9a95dff2b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 72/87] fix: patterns carried by a triangle follow it when
 segments or columns are selected

---
 chainladder/core/slice.py   | 10 ++++++++++
 chainladder/methods/base.py |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 866195c..528a1c3 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -27,6 +27,16 @@ class _LocBase:
             obj.values = obj.values[i_idx, :, o_idx, d_idx][:, c_idx, ...]
         obj.kdims = obj.kdims[i_idx]
         obj.vdims = obj.vdims[c_idx]
+        for k in obj.subtriangles:
+            # Patterns follow the segments and columns they belong to
+            sub = getattr(obj, k)
+            if len(sub) > 1 and np.array_equal(sub.kdims, self.obj.kdims):
+                sub = sub.iloc[i_idx]
+            if sub.shape[1] > 1 and np.array_equal(sub.vdims, self.obj.vdims):
+                sub = sub.iloc[:, c_idx]
+            setattr(obj, k, sub)
+        if getattr(obj, 'w_', None) is not None and obj.w_.shape[:2] == self.obj.shape[:2]:
+            obj.w_ = obj.w_[i_idx][:, c_idx]
         obj.odims, obj.ddims = obj.odims[o_idx], obj.ddims[d_idx]
         obj.iloc, obj.loc = Ilocation(obj), Location(obj)
         obj.valuation_date = np.minimum(obj.valuation.max(), obj.valuation_date)
diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index f68dba7..8fe67f5 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -21,6 +21,11 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
             obj = Development().fit_transform(obj)
         if len(obj.ddims) - len(obj.ldf_.ddims) == 1:
             obj = TailConstant().fit_transform(obj)
+        for k in obj.subtriangles:
+            # One segment of a triangle with patterns by group of segments
+            sub = getattr(obj, k)
+            if len(obj) == 1 and len(sub) > 1:
+                setattr(obj, k, self.intersection(obj, sub)[1])
         return obj.val_to_dev()
 
     def _align_cdf(self, X, sample_weight=None):
-- 
2.43.0


From d12fd24eefc849fd0a6e6b4f046f9b65a14439c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:14 +0000
Subject: [PATCH 73/87] fix: Munich correlation leaves out development periods
 with a single link whatever the rounding

---
 chainladder/development/munich.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chainladder/development/munich.py b/chainladder/development/munich.py
index fa1ad73..83f6d46 100644
--- a/chainladder/development/munich.py
+++ b/chainladder/development/munich.py
@@ -233,9 +233,10 @@ class MunichAdjustment(DevelopmentBase):
     def _get_MCL_lambda(self, obj):
         xp = obj.get_array_module()
         k, v, o, d = self.residual_[1].shape
-        w = xp.reshape(self.residual_[1], (k, v, o * d))
-        w[w == 0] = xp.nan
-        w = w * 0 + 1
+        # A lone link equals its own average and says nothing on correlation
+        lone = xp.sum(~xp.isnan(self.residual_[1]), -2, keepdims=True) < 2
+        w = xp.where(lone, xp.nan, self.residual_[1])
+        w = xp.reshape(w, (k, v, o * d)) * 0 + 1
         lambdaI = (
             WeightedRegression(thru_orig=True, axis=-1, xp=xp)
             .fit(
-- 
2.43.0


From 17722410a777874a9b13fab78b2b511697acdda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 74/87] fix: regression-based development fits multi-column
 triangles on increments and honours fit_incrementals, autoregressive and
 weights

---
 chainladder/development/learning.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/chainladder/development/learning.py b/chainladder/development/learning.py
index b37aec3..4696fe7 100644
--- a/chainladder/development/learning.py
+++ b/chainladder/development/learning.py
@@ -33,6 +33,8 @@ class DevelopmentML(DevelopmentBase):
         Time Series aspects of the model. Predictions from one development period
         get used as featues in the next development period. Lags should be negative
         integers.
+    weight_ml: str
+        The column of the Triangle with the weight of each observation in the fit.
     fit_incrementals:
         Whether the response variable should be converted to an incremental basis
         for fitting.
@@ -138,8 +140,8 @@ class DevelopmentML(DevelopmentBase):
                 X_[i[0]] = lag[lag.valuation<=X.valuation_date]
         df_base = X.incr_to_cum().to_frame(
             keepdims=True, implicit_axis=True, origin_as_datetime=True
-            ).reset_index().iloc[:, :-1]
-        df = df_base.merge(X.cum_to_incr().to_frame(
+            ).reset_index().iloc[:, :-len(X.columns)]
+        df = df_base.merge(X_.to_frame(
                 keepdims=True, implicit_axis=True, origin_as_datetime=True
             ).reset_index(), how='left',
             on=list(df_base.columns)).fillna(0)
@@ -147,6 +149,17 @@ class DevelopmentML(DevelopmentBase):
         df['valuation'] = df['valuation'].map(self.valuation_encoder_)
         return df
 
+    def _get_weight_ml(self, X, df):
+        """ The weight column as it stands in the Triangle for each row of df """
+        weight = self.weight_ml if type(self.weight_ml) is str else self.weight_ml[0]
+        w = X[[weight]].to_frame(
+            keepdims=True, implicit_axis=True, origin_as_datetime=True
+            ).reset_index()
+        w['origin'] = w['origin'].map(self.origin_encoder_)
+        on = self._key_labels + ['origin', 'development']
+        return df[on].merge(
+            w[on + [weight]], how='left', on=on)[weight].fillna(0).values
+
     def fit(self, X, y=None, sample_weight=None):
         """Fit the model with X.
 
@@ -179,7 +192,13 @@ class DevelopmentML(DevelopmentBase):
         df = self._prep_X_ml(X)
         self.df_ = df
         # Fit model
-        self.estimator_ml.fit(df, self.y_ml_.fit_transform(df).squeeze())
+        fit_params = {}
+        if self.weight_ml:
+            step = getattr(self.estimator_ml, 'steps', None)
+            step = step[-1][0] + '__' if step else ''
+            fit_params[step + 'sample_weight'] = self._get_weight_ml(X, df)
+        self.estimator_ml.fit(
+            df, self.y_ml_.fit_transform(df).squeeze(), **fit_params)
         #return selffit_incrementals 
         self.triangle_ml_ = self._get_triangle_ml(df)
         return self
-- 
2.43.0


From 6524cd5addd2b42b16ed49c61c9cd90e85e6b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 75/87] fix: incremental additive method works on mixed grains,
 and period counts and dropped valuations apply to the stated diagonals of any
 triangle

---
 chainladder/development/base.py        | 18 ++++++++++--------
 chainladder/development/incremental.py |  9 +--------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index 9abcd34..7731e6d 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -68,8 +68,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
                 val_date_min = val_date_min.drop_duplicates().sort_values()
                 z = -n_periods * val_offset[X.development_grain][X.origin_grain] - 1
                 val_date_min = val_date_min[z]
-                w = X[X.valuation >= val_date_min]
-                return xp.nan_to_num((w / w).values) * X.nan_triangle
+                w = (X.valuation >= val_date_min).reshape(X.shape[-2:], order="F")
+                return xp.nan_to_num((X / X).values) * (w * X.nan_triangle)
 
         xp = X.get_array_module()
 
@@ -387,8 +387,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
                 val_date_min = val_date_min.drop_duplicates().sort_values()
                 z = -n_periods * val_offset[X.development_grain][X.origin_grain]
                 val_date_min = val_date_min[z]
-                w = X[X.valuation >= val_date_min]
-                return xp.nan_to_num((w / w).values) * X.nan_triangle
+                w = (X.valuation >= val_date_min).reshape(X.shape[-2:], order="F")
+                return xp.nan_to_num((X / X).values) * (w * X.nan_triangle)
 
         xp = factor.get_array_module()
 
@@ -435,14 +435,16 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
         else:
             drop_valuation_list = [self.drop_valuation]
         # turn drop_valuation to same valuation freq as factor
-        v = pd.PeriodIndex(
-            drop_valuation_list, freq=factor.development_grain
-        ).to_timestamp(how="e")
+        freq = {"Y": factor.origin.freqstr, "S": "Q"}.get(
+            factor.development_grain, factor.development_grain
+        )
+        v = pd.PeriodIndex(drop_valuation_list, freq=freq).to_timestamp(how="e")
         # warn that some drop_valuation are outside of factor
         if np.any(~v.isin(factor.valuation)):
             warnings.warn("Some valuations could not be dropped.")
         # return triangle of 0/1 where dropped factors have 0
-        b = xp.nan_to_num(factor.iloc[0, 0][~factor.valuation.isin(v)].values * 0 + 1)
+        keep = ~factor.valuation.isin(v).reshape(factor.shape[-2:], order="F")
+        b = xp.array(keep * np.nan_to_num(factor.nan_triangle))[None, None]
         # check to make sure some factors are still left
         if b.sum() == 0:
             raise Exception("The entire triangle has been dropped via drop_valuation.")
diff --git a/chainladder/development/incremental.py b/chainladder/development/incremental.py
index fb0537e..8c49e6a 100644
--- a/chainladder/development/incremental.py
+++ b/chainladder/development/incremental.py
@@ -150,14 +150,7 @@ class IncrementalAdditive(DevelopmentBase):
         #to consolidate under full_triangle_
         y_ = xp.repeat(self.zeta_.values, len(x.odims), -2)
         obj = x.copy()
-        keeps = (
-            1
-            - xp.nan_to_num(x.nan_triangle)
-            + xp.nan_to_num(
-                x[x.valuation == x.valuation_date].values[0, 0, ...] * 0 + 1
-            )
-        )
-        obj.values = y_ * keeps
+        obj.values = y_
         obj.valuation_date = obj.valuation.max()
         obj.values = obj.values * (1 - xp.nan_to_num(x.nan_triangle)) + xp.nan_to_num(
             (X.cum_to_incr().values / sample_weight.values)
-- 
2.43.0


From 7ef913052b4c290127e8acc1d36eac7e39f85132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 76/87] fix: case outstanding runs the latest case of every
 origin forward on sparse and short triangles

---
 chainladder/development/outstanding.py | 50 ++++++++------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/chainladder/development/outstanding.py b/chainladder/development/outstanding.py
index ffaa552..d152183 100644
--- a/chainladder/development/outstanding.py
+++ b/chainladder/development/outstanding.py
@@ -75,7 +75,7 @@ class CaseOutstanding(DevelopmentBase):
             Returns the instance itself.
         """
         backend = "cupy" if X.array_backend == "cupy" else "numpy"
-        self.X_ = X.copy()
+        self.X_ = X.set_backend("numpy") if backend == "numpy" else X.copy()
 
         self.paid_w_ = (
             Development(n_periods=self.paid_n_periods).fit(self.X_.sum(0).sum(1)).w_
@@ -101,45 +101,12 @@ class CaseOutstanding(DevelopmentBase):
         return self
 
     def _set_ldf(self, X):
+        if X.array_backend == "sparse":
+            X = X.set_backend("numpy")
         paid_tri = X[self.paid_to_incurred[0]]
         incurred_tri = X[self.paid_to_incurred[1]]
         case_tri = incurred_tri - paid_tri
 
-        original_val_date = case_tri.valuation_date
-
-        case_ldf_ = self.case_ldf_.copy()
-        case_ldf_.valuation_date = pd.Timestamp(options.ULT_VAL)
-        xp = case_ldf_.get_array_module()
-        # Broadcast triangle shape
-        case_ldf_ = case_ldf_ * case_tri.latest_diagonal / case_tri.latest_diagonal
-        case_ldf_.odims = case_tri.odims
-        case_ldf_.is_pattern = False
-        case_ldf_.values = xp.concatenate(
-            (xp.ones(list(case_ldf_.shape[:-1]) + [1]), case_ldf_.values), axis=-1
-        )
-
-        case_ldf_.ddims = case_tri.ddims
-        case_ldf_.valuation_date = case_ldf_.valuation.max()
-        case_ldf_ = case_ldf_.dev_to_val().set_backend(self.case_ldf_.array_backend)
-
-        # Will this work for sparse?
-        forward = case_ldf_[case_ldf_.valuation > original_val_date].values
-        forward[xp.isnan(forward)] = 1.0
-        forward = xp.cumprod(forward, -1)
-        1 / case_ldf_[case_ldf_.valuation <= original_val_date]
-
-        backward = 1 / case_ldf_[case_ldf_.valuation <= original_val_date].values
-        backward[xp.isnan(backward)] = 1.0
-        backward = xp.cumprod(backward[..., ::-1], -1)[..., ::-1][..., 1:]
-        nans = case_ldf_ / case_ldf_
-        case_ldf_.values = xp.concatenate(
-            (backward, (case_tri.latest_diagonal * 0 + 1).values, forward), -1
-        )
-        case_tri = (
-            (case_ldf_ * nans.values * case_tri.latest_diagonal.values)
-            .val_to_dev()
-            .iloc[..., : len(case_tri.ddims)]
-        )
         ld = (
             case_tri[case_tri.valuation == X.valuation_date]
             .sum("development")
@@ -149,6 +116,17 @@ class CaseOutstanding(DevelopmentBase):
         patterns = (1 - np.nan_to_num(X.nan_triangle[..., 1:])) * (
             self.paid_ldf_ * ld
         ).values
+        # Run the latest case reserve of each origin through the case ratios
+        forward = (1 - np.nan_to_num(X.nan_triangle[..., 1:])) * np.nan_to_num(
+            (self.case_ldf_ * ld).values, nan=1.0
+        )
+        case = np.nan_to_num(case_tri.values)
+        for i in range(case.shape[-1] - 1):
+            case[..., i + 1] += case[..., i] * forward[..., i]
+        case_tri = case_tri.copy()
+        case_tri.values = num_to_nan(case)
+        case_tri.valuation_date = case_tri.valuation.max()
+        case_tri._set_slicers()
         paid = case_tri.iloc[..., :-1] * patterns
         paid.ddims = case_tri.ddims[1:]
         paid.valuation_date = pd.Timestamp(options.ULT_VAL)
-- 
2.43.0


From c78af53791e70bc25a3527afa91e37043bc5e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 77/87] fix: Mack's sigma extrapolation runs through
 consecutive missing values and tail regressions skip ages without one

---
 chainladder/utils/weighted_regression.py | 39 ++++++------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/chainladder/utils/weighted_regression.py b/chainladder/utils/weighted_regression.py
index b7328c2..a34aa2a 100644
--- a/chainladder/utils/weighted_regression.py
+++ b/chainladder/utils/weighted_regression.py
@@ -21,7 +21,7 @@ class WeightedRegression(BaseEstimator):
     def infer_x_w(self):
         xp = self.xp
         if self.w is None:
-            self.w = xp.ones(self.y.shape)
+            self.w = xp.nan_to_num(self.y * 0 + 1)
         if self.x is None:
             self.x = xp.cumsum(xp.ones(self.y.shape), self.axis)
         return self
@@ -126,39 +126,18 @@ class WeightedRegression(BaseEstimator):
     def mack_interpolation(self, y):
         """Use Mack's approximation to fill last element of sigma_ which is the
         same as loglinear extrapolation using the preceding two element to
-        the missing value. This function needs a recursive definition...
+        the missing value, extrapolated values included.
         """
         from chainladder.utils.utility_functions import num_to_nan
 
         xp = self.xp
         ly = y.copy()
         ly = xp.where(ly == 0, 1e-320, ly)
-        w = xp.nan_to_num(ly * 0 + 1)
-        slicer_n, slicer_d, slicer_a = (
-            ([slice(None)] * 4),
-            ([slice(None)] * 4),
-            ([slice(None)] * 4),
-        )
-        slicer_n[self.axis], slicer_d[self.axis], slicer_a[self.axis] = (
-            slice(1, -1, 1),
-            slice(0, -2, 1),
-            slice(0, 2, 1),
-        )
-        slicer_n, slicer_d, slicer_a = (
-            tuple(slicer_n),
-            tuple(slicer_d),
-            tuple(slicer_a),
-        )
-        fill_ = xp.sqrt(
-            abs(
-                xp.minimum(
-                    (ly[slicer_n] ** 4 / ly[slicer_d] ** 2),
-                    xp.minimum(ly[slicer_d] ** 2, ly[slicer_n] ** 2),
-                )
-            )
-        )
-        fill_ = xp.concatenate((w[slicer_a], xp.nan_to_num(fill_)), axis=self.axis) * (
-            1 - w
-        )
-        out = xp.nan_to_num(ly) + fill_
+        out = xp.moveaxis(xp.nan_to_num(ly), self.axis, -1)
+        missing = xp.moveaxis(xp.isnan(ly), self.axis, -1)
+        for i in range(2, out.shape[-1]):
+            n, d = num_to_nan(out[..., i - 1]), num_to_nan(out[..., i - 2])
+            fill_ = xp.sqrt(abs(xp.minimum(n**4 / d**2, xp.minimum(d**2, n**2))))
+            out[..., i] = xp.where(missing[..., i], xp.nan_to_num(fill_), out[..., i])
+        out = xp.moveaxis(out, -1, self.axis)
         return num_to_nan(out)
-- 
2.43.0


From 80aae778ebd776c7e407c6dac2284b337c5ac4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 78/87] fix: Clark's curves reach their likelihood optimum at
 any scale, share one exposure column, count zero increments, report Cape Cod
 expected losses and leave the ages they are given alone

---
 chainladder/development/clark.py | 44 ++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/chainladder/development/clark.py b/chainladder/development/clark.py
index a00693d..9a7cf16 100644
--- a/chainladder/development/clark.py
+++ b/chainladder/development/clark.py
@@ -60,6 +60,7 @@ class ClarkLDF(DevelopmentBase):
             theta = self.theta_.values[..., None, None]
         if omega is None:
             omega = self.omega_.values[..., None, None]
+        age = xp.array(age, dtype="float64")
         age[age == 0.0] = xp.nan
         if self.growth == "loglogistic":
             out = 1 + (theta ** omega) * (age ** (-omega))
@@ -127,6 +128,8 @@ class ClarkLDF(DevelopmentBase):
         if sample_weight:
             self.method_ = "cape_cod"
             sample_weight = self._set_fit_groups(sample_weight)
+            exposure = sample_weight.set_backend("numpy").values
+            exposure = xp.broadcast_to(exposure, obj.shape[:3] + (1,))
         else:
             self.method_ = "ldf"
         age_offset = {"Y": 6.0, "S": 3.0, "Q": 1.5, "M": 0.5}[X.development_grain]
@@ -146,9 +149,9 @@ class ClarkLDF(DevelopmentBase):
         sorted_index = xp.searchsorted(sorted_latest_origin, origin)
         map_index = xp.take(index, sorted_index, mode="clip")
 
-        increments = obj.cum_to_incr().values.reshape(X.shape[0], X.shape[1], -1, 1)[
-            :, :, ~xp.isnan(nans), 0
-        ]
+        increments = xp.nan_to_num(obj.cum_to_incr().values).reshape(
+            X.shape[0], X.shape[1], -1, 1
+        )[:, :, ~xp.isnan(nans), 0]
 
         params = []
         for idx in range(len(X.index)):
@@ -160,7 +163,7 @@ class ClarkLDF(DevelopmentBase):
                     ldf = lambda age: self._G(age, theta=x[..., 1], omega=x[..., 0])
                     if sample_weight:
                         ult = (
-                            sample_weight.values[idx : idx + 1, col : col + 1, ::-1, 0]
+                            exposure[idx : idx + 1, col : col + 1, ::-1, 0]
                             * x[..., 2]
                         )
                     else:
@@ -177,15 +180,20 @@ class ClarkLDF(DevelopmentBase):
                     )
                     return -xp.sum((xp.nan_to_num(mle.flatten())))
 
+                # optimise parameters and likelihood of order one whatever the
+                # scale of the ages, amounts and exposures
+                total = xp.nansum(abs(latest_diagonal[idx, col])) or 1.0
+                unit = xp.array([1.0, age_interval])
                 if sample_weight:
-                    x0 = xp.array([[[[1.0, age_interval, 1.0]]]])
-                    bounds = ((1e-6, None), (1e-6, None), (1e-6, None))
-                else:
-                    x0 = xp.array([[[[1.0, age_interval]]]])
-                    bounds = ((1e-6, None), (1e-6, None))
-                idx_params.append(
-                    minimize(fun=solver, x0=x0.flatten(), bounds=bounds).x.reshape(1, 1, 1, -1)
+                    base = xp.nansum(abs(exposure[idx, col])) or total
+                    unit = xp.append(unit, total / base)
+                fit = minimize(
+                    fun=lambda x: solver(x * unit) / total,
+                    x0=xp.ones(len(unit)),
+                    bounds=[(1e-6, None)] * len(unit),
+                    options={"ftol": 1e-13, "gtol": 1e-9},
                 )
+                idx_params.append((fit.x * unit).reshape(1, 1, 1, -1))
             params.append(xp.concatenate(idx_params, axis=1))
         params = xp.concatenate(params, axis=0)
         cdf = self._G(
@@ -204,10 +212,13 @@ class ClarkLDF(DevelopmentBase):
         self.theta_ = pd.DataFrame(params[..., 0, 1], index=rows, columns=X.vdims)
         if sample_weight:
             self.elr_ = pd.DataFrame(params[..., 0, 2], index=rows, columns=X.vdims)
-        ultimate_ = (
-            xp.swapaxes(self._G(age=(latest_age - age_offset)[::-1]), -1, -2)
-            * ld.values
-        )
+        if sample_weight:
+            ultimate_ = exposure * params[..., 2:3]
+        else:
+            ultimate_ = (
+                xp.swapaxes(self._G(age=(latest_age - age_offset)[::-1]), -1, -2)
+                * ld.values
+            )
         self.incremental_fits_ = X.copy()
         self.incremental_fits_.array_backend = "numpy"
         self.incremental_fits_.values = (
@@ -285,7 +296,8 @@ class ClarkLDF(DevelopmentBase):
 
     @property
     def norm_resid_(self):
-        resid = (self.incremental_act_.values - self.incremental_fits_.values) / (
+        act = np.nan_to_num(self.incremental_act_.values)
+        resid = (act - self.incremental_fits_.values) / (
             np.sqrt(self.scale_.values[..., None, None] * self.incremental_fits_.values)
         )
         obj = self.incremental_fits_.copy()
-- 
2.43.0


From 0c2528b1eff16d7bffae102af0357e915fdbbbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:48 +0000
Subject: [PATCH 79/87] fix: refitting Clark's method without exposure forgets
 the earlier expected loss ratio

---
 chainladder/development/clark.py | 2 ++
 chainladder/tails/clark.py       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/chainladder/development/clark.py b/chainladder/development/clark.py
index 9a7cf16..c9ac5de 100644
--- a/chainladder/development/clark.py
+++ b/chainladder/development/clark.py
@@ -212,6 +212,8 @@ class ClarkLDF(DevelopmentBase):
         self.theta_ = pd.DataFrame(params[..., 0, 1], index=rows, columns=X.vdims)
         if sample_weight:
             self.elr_ = pd.DataFrame(params[..., 0, 2], index=rows, columns=X.vdims)
+        elif hasattr(self, "elr_"):
+            del self.elr_
         if sample_weight:
             ultimate_ = exposure * params[..., 2:3]
         else:
diff --git a/chainladder/tails/clark.py b/chainladder/tails/clark.py
index 093fa99..b619c80 100644
--- a/chainladder/tails/clark.py
+++ b/chainladder/tails/clark.py
@@ -102,6 +102,8 @@ class TailClark(TailBase):
         self.incremental_fits_ = model.incremental_fits_
         if hasattr(model, "elr_"):
             self.elr_ = model.elr_
+        elif hasattr(self, "elr_"):
+            del self.elr_
         self.norm_resid_ = model.norm_resid_
         if self.truncation_age:
             self.ldf_.values[..., -1:] = self.ldf_.values[..., -1:] * self.G_(self.truncation_age).values
-- 
2.43.0


From c838467aa0bead27a5262c1551fbe1b2ab710c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:54 +0000
Subject: [PATCH 80/87] fix: link ratios are single divisions, so that equal
 ratios stay equal

---
 chainladder/core/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 261287c..cd1f823 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -411,7 +411,9 @@ class Triangle(TriangleBase):
     @property
     def link_ratio(self):
         if not self.is_pattern:
-            obj = (1 / self.iloc[..., :-1]) * self.iloc[..., 1:].values
+            # dividing once keeps equal ratios equal
+            obj = self.iloc[..., :-1].copy()
+            obj.values = self.iloc[..., 1:].values / num_to_nan(obj.values)
             if not obj.is_full:
                 obj = obj[obj.valuation < obj.valuation_date]
             if hasattr(obj, "w_"):
-- 
2.43.0


From 1883d349b9fe387b8387b0165225c08f900f47cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 81/87] fix: settings json cannot express come back from an
 estimator's text, fitted regression models can be pickled

---
 chainladder/core/io.py                 | 58 +++++++++++++++++++++++---
 chainladder/utils/utility_functions.py | 27 +++++++++---
 chainladder/workflow/gridsearch.py     |  6 ++-
 3 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 848bb81..617a3c6 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -2,12 +2,61 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at https://mozilla.org/MPL/2.0/.
 import pandas as pd
-from sklearn.base import BaseEstimator
+import numpy as np
 import json
 import joblib
 import dill
 
 
+def _pack(v):
+    """ A setting in terms of what json can express.  What json would read back as
+    something else is tagged with its type, ``_unpack`` restores it. """
+    if isinstance(v, (EstimatorIO, TriangleIO)):
+        return {"__json__": v.to_json()}
+    if isinstance(v, pd.DataFrame):
+        return {"__frame__": [
+            _pack(list(v.columns)), _pack(list(v.index)),
+            [_pack(list(v.iloc[:, i])) for i in range(v.shape[1])]]}
+    if isinstance(v, pd.Timestamp):
+        return {"__timestamp__": v.isoformat()}
+    if isinstance(v, np.ndarray):
+        return {"__array__": _pack(v.tolist())}
+    if isinstance(v, np.generic):
+        return v.item()
+    if isinstance(v, dict):
+        return {"__dict__": [[_pack(k), _pack(x)] for k, x in v.items()]}
+    if isinstance(v, tuple):
+        return {"__tuple__": [_pack(x) for x in v]}
+    if isinstance(v, list):
+        return [_pack(x) for x in v]
+    return v
+
+
+def _unpack(v):
+    """ The setting that ``_pack`` wrote """
+    if isinstance(v, list):
+        return [_unpack(x) for x in v]
+    tag = list(v)[0] if isinstance(v, dict) and len(v) == 1 else None
+    if tag == "__json__":
+        from chainladder.utils.utility_functions import read_json
+
+        return read_json(v[tag])
+    if tag == "__frame__":
+        columns, index, data = _unpack(v[tag])
+        out = pd.DataFrame(dict(enumerate(data)), index=index)
+        out.columns = columns
+        return out
+    if tag == "__timestamp__":
+        return pd.Timestamp(v[tag])
+    if tag == "__array__":
+        return np.array(_unpack(v[tag]))
+    if tag == "__dict__":
+        return {k: x for k, x in _unpack(v[tag])}
+    if tag == "__tuple__":
+        return tuple(_unpack(v[tag]))
+    return v
+
+
 class TriangleIO:
     def to_pickle(self, path, protocol=None):
         """ Serializes triangle object to pickle.
@@ -101,7 +150,6 @@ class EstimatorIO:
         -------
             string representation of object in json format
         """
-        params = self.get_params(deep=False)
-        j = lambda v: v.to_json() if isinstance(v, BaseEstimator) else v
-        params = {k: j(v) for k, v in params.items()}
-        return json.dumps({"params": params, "__class__": self.__class__.__name__})
+        return json.dumps({
+            "params": {k: _pack(v) for k, v in self.get_params(deep=False).items()},
+            "__class__": self.__class__.__name__})
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 50cc69b..dca4ab4 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -127,6 +127,15 @@ def _restore_axes(tri, axes):
     return obj if tri.array_backend == "sparse" else obj.set_backend(tri.array_backend)
 
 
+def _read_estimator(json_dict):
+    """Gives the estimator with the settings it was written with"""
+    import chainladder as cl
+    from chainladder.core.io import _unpack
+
+    params = {k: _unpack(v) for k, v in json_dict["params"].items()}
+    return cl.__dict__[json_dict["__class__"]](**params).set_params(**params)
+
+
 def read_json(json_str, array_backend=None):
     from chainladder import Triangle
     from chainladder.workflow import Pipeline
@@ -137,13 +146,11 @@ def read_json(json_str, array_backend=None):
         array_backend = options.ARRAY_BACKEND
     json_dict = json.loads(json_str)
     if type(json_dict) is list:
-        import chainladder as cl
-
         return Pipeline(
             steps=[
                 (
                     item["name"],
-                    cl.__dict__[item["__class__"]]().set_params(**item["params"]),
+                    _read_estimator(item),
                 )
                 for item in json_dict
             ]
@@ -192,9 +199,7 @@ def read_json(json_str, array_backend=None):
         else:
             return tri
     else:
-        import chainladder as cl
-
-        return cl.__dict__[json_dict["__class__"]]().set_params(**json_dict["params"])
+        return _read_estimator(json_dict)
 
 
 def parallelogram_olf(
@@ -469,8 +474,18 @@ class PatsyFormula(BaseEstimator, TransformerMixin):
     def fit(self, X, y=None, sample_weight=None):
         self._check_X(X)
         self.design_info_ = dmatrix(self.formula, X).design_info
+        self._X = X
         return self
 
+    def __getstate__(self):
+        # patsy does not pickle a design, the data gives it back
+        return {k: v for k, v in self.__dict__.items() if k != "design_info_"}
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        if "_X" in state:
+            self.fit(self._X)
+
     def transform(self, X):
         self._check_X(X)
         return dmatrix(self.design_info_, X)
diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 43348dd..b07e102 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -5,7 +5,7 @@ from sklearn.model_selection import ParameterGrid
 from sklearn.base import BaseEstimator
 from sklearn.pipeline import Pipeline as PipelineSL
 from sklearn.base import clone
-from chainladder.core.io import EstimatorIO
+from chainladder.core.io import EstimatorIO, _pack
 from joblib import Parallel, delayed
 import pandas as pd
 import json
@@ -165,7 +165,9 @@ class Pipeline(PipelineSL, EstimatorIO):
             [
                 {
                     "name": item[0],
-                    "params": item[1].get_params(),
+                    "params": {
+                        k: _pack(v) for k, v in item[1].get_params(deep=False).items()
+                    },
                     "__class__": item[1].__class__.__name__,
                 }
                 for item in self.steps
-- 
2.43.0


From ddb5c57bc82b6efa3ea53561bab3eb0debee35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 82/87] fix: virtual columns keep their definition when
 renamed, their amounts when sliced from their sources and count in totals
 over columns

---
 chainladder/core/pandas.py   |  4 ++++
 chainladder/core/slice.py    | 17 +++++++++++++++++
 chainladder/core/triangle.py |  6 +++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index d877912..0527338 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -17,6 +17,8 @@ class TriangleGroupBy:
     def __init__(self, obj, by, axis=0, **kwargs):
         self.obj = obj.copy()
         self.axis = self.obj._get_axis(axis)
+        if self.axis == 1:
+            self.obj = self.obj._store_virtual()
         self.by = by
         if kwargs.get("groups", None):
             self.groups = kwargs.get("groups", None)
@@ -380,6 +382,8 @@ def add_triangle_agg_func(cls, k, v):
                 axis = min([num for num, _ in enumerate(obj.shape) if _ != 1])
         else:
             axis = self._get_axis(axis)
+        if axis == 1:
+            obj = obj._store_virtual()
         xp = obj.get_array_module()
         func = getattr(xp, v)
         if k == "cumsum":
diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 528a1c3..715c72e 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -40,6 +40,15 @@ class _LocBase:
         obj.odims, obj.ddims = obj.odims[o_idx], obj.ddims[d_idx]
         obj.iloc, obj.loc = Ilocation(obj), Location(obj)
         obj.valuation_date = np.minimum(obj.valuation.max(), obj.valuation_date)
+        if len(obj.vdims) < len(self.obj.vdims):
+            obj.virtual_columns.columns = {
+                k: v for k, v in obj.virtual_columns.columns.items() if k in obj.vdims}
+            for k in list(obj.virtual_columns.columns):
+                try:
+                    obj[k]
+                except (KeyError, ValueError):
+                    # what it is computed from is not part of the slice
+                    obj[k] = self.obj[k].iloc[i_idx, :, o_idx, d_idx]
         return obj
 
     @staticmethod
@@ -262,6 +271,14 @@ class TriangleSlicer:
                 conc = (self.values, (self.iloc[:, 0] * 0 + value).values)
                 self.values = xp.concatenate(conc, axis=1)
 
+    def _store_virtual(self):
+        """ private method giving the triangle with its virtual columns computed """
+        virtual = [c for c in self.columns if c in self.virtual_columns.columns]
+        obj = self.copy()
+        for c in virtual:
+            obj[c] = self[c]
+        return obj
+
     def _slice_valuation(self, key):
         """ private method for handling of valuation slicing """
         obj = self.copy()
diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index cd1f823..b547674 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -324,7 +324,11 @@ class Triangle(TriangleBase):
     @columns.setter
     def columns(self, value):
         self._len_check(self.columns, value)
-        self.vdims = [value] if type(value) is str else value
+        value = [value] if type(value) is str else value
+        names, virtual = dict(zip(self.vdims, value)), self.virtual_columns.columns
+        self.virtual_columns.columns = {
+            names[k]: v for k, v in virtual.items() if k in names}
+        self.vdims = value
         if type(self.vdims) is list:
             self.vdims = np.array(self.vdims)
         self._set_slicers()
-- 
2.43.0


From a0f12e96e12c7fd7928df64f43da136cbb0d5d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:03 +0000
Subject: [PATCH 83/87] fix: model diagnostics report latest amounts, calendar
 movements and emergence of future periods

---
 chainladder/utils/utility_functions.py | 74 ++++++++++----------------
 1 file changed, 28 insertions(+), 46 deletions(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index dca4ab4..b8b4f99 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -511,67 +511,49 @@ def model_diagnostics(model, name=None, groupby=None):
     """
     from chainladder import Pipeline
 
-    if isinstance(model, Pipeline):
-        obj = copy.deepcopy(model.steps[-1][-1])
-    else:
-        obj = copy.deepcopy(model)
-    if groupby is not None:
-        obj.X_ = obj.X_.groupby(groupby).sum().cum_to_incr()
-        obj.ultimate_ = obj.ultimate_.groupby(groupby).sum()
-        if hasattr(obj, "expectation_"):
-            obj.expectation_ = obj.expectation_.groupby(groupby).sum()
-    else:
-        obj.X_ = obj.X_.incr_to_cum()
-    val = obj.X_.valuation
-    latest = obj.X_.sum("development")
-    run_off = obj.full_expectation_.iloc[..., :-1].dev_to_val().cum_to_incr()
-    run_off = run_off[run_off.development > str(obj.X_.valuation_date)]
+    obj = model.steps[-1][-1] if isinstance(model, Pipeline) else model
+    # everything derives from the fitted model before it is summarized
+    group = lambda x: x if groupby is None else x.groupby(groupby).sum()
+    X, ultimate, ibnr = [
+        group(item) for item in (obj.X_.cum_to_incr(), obj.ultimate_, obj.ibnr_)]
+    if hasattr(obj, "expectation_"):
+        expectation = group(obj.expectation_)
+    latest = X.sum("development")
+    run_off = group(obj.full_expectation_.iloc[..., :-1]).dev_to_val().cum_to_incr()
+    past = int((run_off.ddims <= X.valuation_date).sum())
     run_off = run_off.iloc[
-        ..., : {"M": 12, "S": 6, "Q": 4, "Y": 1}[obj.X_.development_grain]
+        ..., past : past + {"M": 12, "S": 6, "Q": 4, "Y": 1}[X.development_grain]
     ]
 
+    def since(freq):
+        """Movement since the start of the period of the valuation date"""
+        start = pd.Period(X.valuation_date, freq=freq).to_timestamp(how="s")
+        mask = (X.valuation >= start).reshape(X.shape[-2:], order="f")
+        out = X.copy()
+        out.values = num_to_nan(out.values * out.get_array_module().array(mask))
+        return out.sum("development")
+
     triangles = []
-    for col in obj.ultimate_.columns:
+    for col in ultimate.columns:
         idx = latest.index
         idx["Measure"] = col
         idx["Model"] = obj.__class__.__name__ if name is None else name
         idx = idx[list(idx.columns[-2:]) + list(idx.columns[:-2])]
         out = latest[col].rename("columns", ["Latest"])
-        if obj.X_.development_grain in ["M"]:
-            out["Month Incremental"] = obj.X_[col][val == obj.X_.valuation_date].sum(
-                "development"
-            )
-        if (
-            obj.X_.development_grain in ["M", "Q"]
-            and pd.Period(out.valuation_date, freq="Q").to_timestamp(how="s")
-            > val.min()
-        ):
-            out["Quarter Incremental"] = (
-                obj.X_
-                - obj.X_[
-                    val
-                    < pd.Period(out.valuation_date, freq="Q")
-                    .to_timestamp(how="s")
-                    .strftime("%Y-%m")
-                ]
-            ).sum("development")[col]
+        if X.development_grain in ["M"]:
+            out["Month Incremental"] = since("M")[col]
+        if X.development_grain in ["M", "Q"]:
+            out["Quarter Incremental"] = since("Q")[col]
         else:
             out["Quarter Incremental"] = 0
-        if pd.Period(out.valuation_date, freq="Y").to_timestamp(how="s") > val.min():
-            out["Year Incremental"] = (
-                obj.X_ - obj.X_[val < str(obj.X_.valuation_date.year)]
-            ).sum("development")[col]
-        else:
-            out["Year Incremental"] = 0
-        out["IBNR"] = obj.ibnr_[col]
-        out["Ultimate"] = obj.ultimate_[col]
+        out["Year Incremental"] = since("Y")[col]
+        out["IBNR"] = ibnr[col]
+        out["Ultimate"] = ultimate[col]
         for i in range(run_off.shape[-1]):
             out["Run Off " + str(i + 1)] = run_off[col].iloc[..., i]
         if hasattr(obj, "expectation_"):
             out["Apriori"] = (
-                obj.expectation_
-                if obj.expectation_.shape[1] == 1
-                else obj.expectation_[col]
+                expectation if expectation.shape[1] == 1 else expectation[col]
             )
         out.index = idx
         triangles.append(out)
-- 
2.43.0


From 74ec26dfd8d15ece85eec990ae3cd7773d62bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:09 +0000
Subject: [PATCH 84/87] fix: supplied patterns keep their factors at ages no
 origin has reached

---
 chainladder/development/constant.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/development/constant.py b/chainladder/development/constant.py
index 405655c..33dde89 100644
--- a/chainladder/development/constant.py
+++ b/chainladder/development/constant.py
@@ -58,7 +58,8 @@ class DevelopmentConstant(DevelopmentBase):
         else:
             obj = self._set_fit_groups(X).val_to_dev().copy()
         xp = obj.get_array_module()
-        obj = obj.iloc[..., :1, :-1]*0+1
+        obj = obj.iloc[..., :1, :-1]
+        obj.values = xp.ones(obj.shape)  # also at ages that are not observed yet
         if callable(self.patterns):
             ldf = obj.index.apply(self.patterns, axis=self.callable_axis)
             ldf = (
-- 
2.43.0


From 4840bcd1b18d97a7f6c37096ce5b8bbba1154caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 85/87] fix: latest diagonal and IBNR of a single origin remain
 triangles

---
 chainladder/core/common.py   | 2 +-
 chainladder/core/triangle.py | 3 ++-
 chainladder/methods/base.py  | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 6462d95..20aeca5 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -117,7 +117,7 @@ class Common:
             ld = self.latest_diagonal
         else:
             ld = self.latest_diagonal if self.is_cumulative else self.sum(
-                axis=3)
+                axis=3, keepdims=True)
         ibnr = self.ultimate_ - ld
         ibnr.vdims = self.ultimate_.vdims
         return ibnr
diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index b547674..520a8a3 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -410,7 +410,8 @@ class Triangle(TriangleBase):
 
     @property
     def latest_diagonal(self):
-        return self[self.valuation == self.valuation_date].sum("development")
+        return self[self.valuation == self.valuation_date].sum(
+            "development", keepdims=True)
 
     @property
     def link_ratio(self):
diff --git a/chainladder/methods/base.py b/chainladder/methods/base.py
index 8fe67f5..934fee9 100644
--- a/chainladder/methods/base.py
+++ b/chainladder/methods/base.py
@@ -70,7 +70,7 @@ class MethodBase(BaseEstimator, EstimatorIO, Common):
         if self.X_.is_cumulative:
             return self.X_.latest_diagonal
         else:
-            return self.X_.sum('development')
+            return self.X_.sum('development', keepdims=True)
 
     def fit(self, X, y=None, sample_weight=None):
         """Applies the chainladder technique to triangle **X**
-- 
2.43.0


From 7537e0c21a017f5a70412f0c811b1fe815ffe7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 86/87] fix: Clark's method fits every origin at its own latest
 age and starts from a usable curve

---
 chainladder/development/clark.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/chainladder/development/clark.py b/chainladder/development/clark.py
index c9ac5de..6928fb3 100644
--- a/chainladder/development/clark.py
+++ b/chainladder/development/clark.py
@@ -123,7 +123,6 @@ class ClarkLDF(DevelopmentBase):
         X = self._set_fit_groups(X)
         xp = obj.get_array_module()
         nan_triangle = obj.nan_triangle
-        ld = obj.latest_diagonal
         self.incremental_act_ = obj.cum_to_incr()
         if sample_weight:
             self.method_ = "cape_cod"
@@ -139,10 +138,10 @@ class ClarkLDF(DevelopmentBase):
         age_end = age - age_offset
         age_start = xp.maximum(age_end - age_interval, 0).astype("float64")
         origin = np.repeat(X.odims, len(X.ddims))[~xp.isnan(nans)]
-        latest_diagonal = obj[X.valuation == X.valuation_date].sum("origin")
-        latest_age = latest_diagonal.ddims.astype("float64")
+        latest = (~xp.isnan(nan_triangle)).sum(-1) - 1
+        latest_age = X.ddims[latest].astype("float64")
         latest_origin = X.odims
-        latest_diagonal = latest_diagonal.values[..., 0, :]
+        latest_diagonal = obj.values[..., xp.arange(len(latest)), latest]
 
         index = xp.argsort(latest_origin)
         sorted_latest_origin = latest_origin[index]
@@ -163,7 +162,7 @@ class ClarkLDF(DevelopmentBase):
                     ldf = lambda age: self._G(age, theta=x[..., 1], omega=x[..., 0])
                     if sample_weight:
                         ult = (
-                            exposure[idx : idx + 1, col : col + 1, ::-1, 0]
+                            exposure[idx : idx + 1, col : col + 1, :, 0]
                             * x[..., 2]
                         )
                     else:
@@ -171,11 +170,11 @@ class ClarkLDF(DevelopmentBase):
                             ldf(age=latest_age - age_offset)
                             * latest_diagonal[idx : idx + 1, col : col + 1]
                         )
-                    increment_fit = ult[..., ::-1][..., map_index] * (
+                    increment_fit = ult[..., map_index] * (
                         1 / ldf(age=age_end) - 1 / ldf(age=age_start)
                     )
                     mle = (
-                        increments[idx : idx + 1, col : col + 1] * xp.log(increment_fit)
+                        increments[idx : idx + 1, col : col + 1] * xp.log(xp.maximum(increment_fit, 1e-300))
                         - increment_fit
                     )
                     return -xp.sum((xp.nan_to_num(mle.flatten())))
@@ -187,9 +186,12 @@ class ClarkLDF(DevelopmentBase):
                 if sample_weight:
                     base = xp.nansum(abs(exposure[idx, col])) or total
                     unit = xp.append(unit, total / base)
+                # start with a curve that is not flat before the last age
+                start = xp.ones(len(unit))
+                start[1] = max(1.0, len(X.ddims) / 20)
                 fit = minimize(
                     fun=lambda x: solver(x * unit) / total,
-                    x0=xp.ones(len(unit)),
+                    x0=start,
                     bounds=[(1e-6, None)] * len(unit),
                     options={"ftol": 1e-13, "gtol": 1e-9},
                 )
@@ -197,7 +199,7 @@ class ClarkLDF(DevelopmentBase):
             params.append(xp.concatenate(idx_params, axis=1))
         params = xp.concatenate(params, axis=0)
         cdf = self._G(
-            latest_age - age_offset, theta=params[..., 1:2], omega=params[..., 0:1]
+            X.ddims - age_offset, theta=params[..., 1:2], omega=params[..., 0:1]
         )
         obj.values = cdf[..., :-1] / cdf[..., 1:]
         obj.ddims = X.link_ratio.ddims
@@ -218,8 +220,8 @@ class ClarkLDF(DevelopmentBase):
             ultimate_ = exposure * params[..., 2:3]
         else:
             ultimate_ = (
-                xp.swapaxes(self._G(age=(latest_age - age_offset)[::-1]), -1, -2)
-                * ld.values
+                xp.swapaxes(self._G(age=latest_age - age_offset), -1, -2)
+                * latest_diagonal[..., None]
             )
         self.incremental_fits_ = X.copy()
         self.incremental_fits_.array_backend = "numpy"
@@ -228,7 +230,7 @@ class ClarkLDF(DevelopmentBase):
                 1 / self._G(X.ddims - age_offset)
                 - 1 / self._G(xp.maximum(X.ddims - age_offset - age_interval, 0))
             )
-            * ultimate_[..., ::-1]
+            * ultimate_
             * nan_triangle
         )
         self.incremental_fits_.is_cumulative = False
-- 
2.43.0


From f1fcac08bf6f5f349def39fd8d28ee958c7d657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 87/87] fix: autoregressive features are lagged on the basis
 and by the periods they were fitted with

---
 chainladder/development/learning.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/chainladder/development/learning.py b/chainladder/development/learning.py
index 4696fe7..11bdb10 100644
--- a/chainladder/development/learning.py
+++ b/chainladder/development/learning.py
@@ -97,23 +97,19 @@ class DevelopmentML(DevelopmentBase):
         y_r = [preds]
         dgrain = {'Y':12, 'Q':3, 'M': 1, 'S': 6}[self.development_grain_]
         latest_filter = df['valuation'] == df['valuation'].max()
-        preds=pd.DataFrame(preds.copy())[latest_filter].values
         out = df.loc[latest_filter].copy()
         dev_lags = df['development'].drop_duplicates().sort_values()
         for d in dev_lags[1:]:
             out['development'] = out['development'] + dgrain
             out['valuation'] = out['valuation'] + dgrain / 12
-            if len(preds.shape) == 1:
-                preds = preds[:, None]
             if self.autoregressive:
-                for num, col in enumerate(self.autoregressive):
-                    out[col[0]]=preds[:, num]
+                for col in self.autoregressive:
+                    out[col[0]] = self._get_lag_ml(X_r, y_r, out, col)
             out = out[out['development']<=dev_lags.max()]
             if len(out) == 0:
                 continue
             X_r.append(out.copy())
-            preds = self.estimator_ml.predict(out)
-            y_r.append(preds.copy())
+            y_r.append(self.estimator_ml.predict(out))
         X_r = pd.concat(X_r, axis=0).reset_index(drop=True)
         if True:
             X_r = X_r.drop(self._get_y_names(), axis=1)
@@ -128,6 +124,17 @@ class DevelopmentML(DevelopmentBase):
             index=self._key_labels, columns=self._get_y_names(),
             cumulative=not self.fit_incrementals).dropna()
 
+    def _get_lag_ml(self, X_r, y_r, df, col):
+        """ The predictions made so far, lagged to each row of df """
+        dgrain = {'Y':12, 'Q':3, 'M': 1, 'S': 6}[self.development_grain_]
+        on = self._key_labels + ['origin', 'development']
+        known = pd.concat(X_r, axis=0)[on]
+        preds = np.concatenate(y_r, 0).reshape(len(known), -1)
+        known = known.assign(
+            development=known['development'] - col[1] * dgrain,
+            lag=preds[:, list(self._get_y_names()).index(col[2])])
+        return df[on].merge(known, how='left', on=on)['lag'].fillna(0).values
+
     def _prep_X_ml(self, X):
         """ Preps Triangle data ahead of the pipeline """
         if self.fit_incrementals:
@@ -136,7 +143,7 @@ class DevelopmentML(DevelopmentBase):
             X_ = X.copy()
         if self.autoregressive:
             for i in self.autoregressive:
-                lag = X[i[2]].shift(i[1])
+                lag = X_[i[2]].shift(i[1])
                 X_[i[0]] = lag[lag.valuation<=X.valuation_date]
         df_base = X.incr_to_cum().to_frame(
             keepdims=True, implicit_axis=True, origin_as_datetime=True
-- 
2.43.0

