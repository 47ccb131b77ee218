From a11417741670e5711998568f4c8190b9f0dc73fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 01/56] fix: get_model_outliers crashed on series without
 outliers

---
 anticipy/forecast_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a15ac6f..e14aee6 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1338,6 +1338,9 @@ def get_model_outliers(df, window=3):
     # Now identify the changes
     dfo['ischange'] = ((dfo.dif < thr_low) | (dfo.dif > thr_hi)).astype(int)
 
+    if not dfo.ischange.any():  # No outliers - nothing to do
+        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
+
     # Whenever there are two or more consecutive changes
     # (that is, within `window` samples), we group them together
     dfo['ischange_group'] = (
-- 
2.43.0


From 1a55327360dada66878fe30c86cf7f27f188b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 02/56] fix: forecast of numeric series was shifted when x does
 not start at 0

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a87c88f..be91cb5 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -215,7 +215,7 @@ def get_s_x_extrapolate(
             index=index,
             data=np.arange(
                 x_start_actuals,
-                x_start_actuals + index.size)) + x_start_actuals
+                x_start_actuals + index.size))
     if model_requires_scaling(model):
         s_x = s_x / scaling_factor
     return s_x
-- 
2.43.0


From 685f7bdae1533cab2bf8f3be5129ffd9182b9de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 03/56] fix: forecast of numeric series did not cover the last
 actuals sample

---
 anticipy/model_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index be91cb5..456f7a9 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -208,9 +208,10 @@ def get_s_x_extrapolate(
         index = pd.Index(
             np.arange(
                 date_start_actuals,
-                date_end_actuals +
-                100 *
-                extrapolate_years))
+                # np.arange excludes its end point: add 1 to cover the last
+                # actuals sample
+                date_end_actuals + 1 +
+                math.floor(100 * extrapolate_years)))
         s_x = pd.Series(
             index=index,
             data=np.arange(
-- 
2.43.0


From bfcbe6a4d85eb35d93a105f71f4853d7c9a7973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 04/56] fix: forecast horizon in months, quarters and years

Fractional numbers of years and quarterly series raised an exception,
month-end and quarter-end forecasts could be one sample short
---
 anticipy/model_utils.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 456f7a9..d4cb5fe 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -105,15 +105,6 @@ dict_freq_units_per_year = dict(
     H=24 * 365.0
 )
 
-dict_dateoffset_input = dict(
-    Y='years',
-    A='years',
-    M='months',
-    W='weeks',
-    D='days',
-    H='hours'
-)
-
 
 def get_normalized_x_from_date(s_date):
     """Get column of days since Monday of first date"""
@@ -186,11 +177,15 @@ def get_s_x_extrapolate(
         # freq_units_per_year = 52.0 if freq_short=='W' else 365.0
         # Todo: change to dict to support more frequencies
         freq_units_per_year = dict_freq_units_per_year.get(freq_short, 365.0)
-        extrapolate_units = extrapolate_years * freq_units_per_year
-        offset_input = {dict_dateoffset_input.get(freq_short):
-                            extrapolate_units}
-        date_end_forecast = date_end_actuals + \
-                            pd.DateOffset(**offset_input)
+        # Number of additional samples, rounded down
+        extrapolate_units = math.floor(
+            extrapolate_years * freq_units_per_year)
+        date_end_forecast = date_end_actuals
+        if extrapolate_units > 0:
+            # Count samples in units of freq: calendar units have varying
+            # length, e.g. 6 months after 2020-06-30 is 2020-12-31
+            date_end_forecast += \
+                extrapolate_units * pd.tseries.frequencies.to_offset(freq)
 
         i_date = pd.date_range(
             date_start_actuals,
-- 
2.43.0


From c2cede7535312f787e6290ecf2536e6f5e4681a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 05/56] fix: get_pi crashed if sampling frequency is unknown

E.g. a source with a single sample. Also, prediction intervals of quarterly
series widened as if the series was daily
---
 anticipy/forecast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0a4143a..382d5db 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1563,8 +1563,12 @@ class ForecastInput:
 
 
 def _get_days_from_freq(freq):
-    if freq.startswith('Y'):
+    if freq is None:  # Unknown sampling frequency, e.g. a single sample
+        return 1
+    elif freq.startswith('Y'):
         return 365
+    elif freq.startswith('Q'):
+        return 91
     elif freq.startswith('M'):
         return 30
     elif freq.startswith('W'):
-- 
2.43.0


From 2a9c56adb528d2de1f8b021c16058dd4eb2c33be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 06/56] fix: run_forecast crashed if a source has no samples
 after date_start_actuals

---
 anticipy/forecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 382d5db..79b1183 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1737,7 +1737,7 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     if df_residuals.empty:  # May happen if no forecast could be generated
         logger.warning(
             'No forecast data for source %s',
-            df_forecast.source.head(1).iloc[0])
+            df_forecast.source.unique())
         return df_actuals_unfiltered[l_cols + ['is_actuals', 'model', 'y']]
 
     # Generate table with prediction interval
-- 
2.43.0


From d09268a1c8289052f7370a040b4f9ec83313210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 07/56] fix: run_forecast crashed on series sampled at the
 start of each quarter

---
 anticipy/model_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index d4cb5fe..3c63b58 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -319,7 +319,13 @@ def detect_freq(a_date):
             return 'M'
     elif min_date_delta >= pd.Timedelta(89, unit='d') and \
             min_date_delta <= pd.Timedelta(92, unit='d'):
-        return 'Q'
+        # QS is quarter start, Q is quarter end. We use QS if all dates match
+        # first of quarter
+        if s_date.dt.day.max() == 1 and \
+                s_date.dt.month.isin([1, 4, 7, 10]).all():
+            return 'QS'
+        else:
+            return 'Q'
     elif min_date_delta >= pd.Timedelta(365, unit='d') and \
             min_date_delta <= pd.Timedelta(366, unit='d'):
         # YS is month start, Y is month end. We use MS if all dates match first
-- 
2.43.0


From 1651cbd426ea6aca1a2088a83d4a585b5bc078cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 08/56] fix: get_aic_c crashed on a perfect fit of a long
 series (log of 0)

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 3c63b58..ea02415 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -269,7 +269,7 @@ def get_aic_c(fit_error, n, n_params):
             # multiple perfect fits - we use a patch instead
             # aicc = -float("inf")
             fit_error = 10 ** -320
-            aicc = n * math.log(fit_error / n) + 2 * n_params + \
+            aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
                 (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     else:
-- 
2.43.0


From 33c22d6275f286adafc97458179f3833e5e189e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 09/56] fix: simplify_model crashed if bounds are lists

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index e14aee6..5264f50 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1902,7 +1902,7 @@ def simplify_model(f_model, a_x=None, a_y=None, a_date=None):
         return f_model
     else:  # We make parameters fixed if their min and max bounds are equal
         params_fixed = np.full(f_model.n_params, np.NaN)
-        params_fixed[i_diff_zero, ] = bounds_max[i_diff_zero, ]
+        params_fixed[i_diff_zero] = np.array(bounds_max)[i_diff_zero]
         f_model = fix_params_fmodel(f_model, params_fixed)
         logger.info(
             'Some min and max bounds are equal - generating fixed model: %s',
-- 
2.43.0


From 89d99f44ff2ee893c593bd718815c49367620a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 10/56] fix: run_forecast extrapolated models with fixed bounds
 using the wrong model

---
 anticipy/forecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 79b1183..120a403 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1361,6 +1361,8 @@ def run_forecast_single(df_y,
         l_df_optimize_info += [df_optimize_info]
         source_long = df_metadata_tmp.source_long.iloc[0]
         params = df_metadata_tmp.params.iloc[0]
+        # Model used for the fit - params fixed by its bounds are not in params
+        model = df_metadata_tmp.model_obj.iloc[0]
 
         if df_metadata_tmp.is_fit.iloc[0]:  # If model is fit
 
-- 
2.43.0


From 0bf1c9010cb61cf691894f19dd59b84de37f36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 11/56] fix: date_start_actuals was ignored in series without
 dates

---
 anticipy/forecast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 120a403..08e7ae5 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1192,8 +1192,11 @@ def run_forecast_single(df_y,
     df_y_unfiltered = df_y.copy()
 
     # Filter: only actuals after date_start_actuals
-    if date_start_actuals is not None and 'date' in df_y.columns:
-        df_y = df_y.loc[df_y.date >= date_start_actuals]
+    if date_start_actuals is not None:
+        if 'date' in df_y.columns:
+            df_y = df_y.loc[df_y.date >= date_start_actuals]
+        else:
+            df_y = df_y.loc[df_y.x >= date_start_actuals]
 
     date_start_actuals = df_y.date.min() \
         if 'date' in df_y.columns else df_y.x.min()
-- 
2.43.0


From 6e329bda06b85b6e1dfa490b9444cb2f111ac7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 12/56] fix: normalize_df rejected a series without a name

---
 anticipy/forecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 08e7ae5..b4611f0 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -328,7 +328,9 @@ def normalize_df(df_y,
         return None
 
     if isinstance(df_y, pd.Series):
-        df_y = df_y.to_frame()
+        # A series without a name takes the name of the value column
+        df_y = df_y.to_frame() if df_y.name is not None \
+            else df_y.to_frame(col_name_y)
     assert isinstance(df_y, pd.DataFrame)
     assert col_name_y in df_y.columns, \
         'Dataframe needs to have a column named "{}"'.format(
-- 
2.43.0


From a3679685078bc4a8509c4a9603ae8c8bb8ae41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 13/56] fix: run_forecast crashed on series without dates and
 without valid samples

---
 anticipy/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index b4611f0..4ce4135 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -496,9 +496,9 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
     # Get first and last actuals date, for metadata. If no a_date, use a_x
     # instead.
     date_start_actuals = i_date.min().date()\
-        if i_date is not None else a_x.min()
+        if i_date is not None else pd.Series(a_x).min()
     date_end_actuals = i_date.max().date()\
-        if i_date is not None else a_x.max()
+        if i_date is not None else pd.Series(a_x).max()
     actuals_x_range = '{}::{}'.format(date_start_actuals, date_end_actuals)
 
     if df_y.empty:
-- 
2.43.0


From 00405dd08cf3ed81325fcb6492a35643302c1d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 14/56] fix: normalize_df ignored the numeric index of a series
 without x, date

---
 anticipy/forecast.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 4ce4135..0fee700 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -374,6 +374,13 @@ def normalize_df(df_y,
             df_y_tmp[col_name_date] = df_y_tmp[col_name_date].pipe(
                 pd.to_datetime)
 
+        # With no date or x columns, extract column x from a numeric index
+        if col_name_x not in df_y_tmp.columns and \
+                col_name_date not in df_y_tmp.columns and \
+                not multiple_sources and \
+                pd.api.types.is_numeric_dtype(df_y_tmp.index):
+            df_y_tmp[col_name_x] = df_y_tmp.index
+
         # if isinstance(df_y_tmp.index, pd.DatetimeIndex):
         # We don't need a date index after this point
         df_y_tmp = df_y_tmp.reset_index(drop=True)
@@ -382,7 +389,7 @@ def normalize_df(df_y,
             if col_name_date in df_y_tmp.columns:
                 df_y_tmp[col_name_x] = model_utils.get_normalized_x_from_date(
                     df_y_tmp[col_name_date])
-            else:  # With no date, extract column x from a numeric index
+            else:  # Without a numeric index, use position of each sample
                 df_y_tmp[col_name_x] = df_y_tmp.index
 
         l_df_results += [df_y_tmp]
-- 
2.43.0


From 9ff14a59448d818889000ea31f033beb9f773a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 15/56] fix: app wrote its output next to the folder in
 path_out

---
 anticipy/app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index 05511cc..509dc1a 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -56,7 +56,8 @@ def run_forecast_app(path_in, path_out=None, forecast_years=2.0,
         path_out = path_in
     assert os.path.exists(path_out)
 
-    path_folder = os.path.dirname(path_out)
+    path_folder = path_out if os.path.isdir(path_out) \
+        else os.path.dirname(path_out)
 
     logger_info('dir name', path_folder)
 
-- 
2.43.0


From 546e8027512625c05be0df6d18160f65ab8a60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 16/56] fix: model_spike returned arrays of the wrong size with
 fractional positions

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 5264f50..6dd8e36 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -676,7 +676,7 @@ def _f_model_spike(a_x, a_date, params, is_mult=False, **kwargs):
         c = 0
     y = np.concatenate((
         np.full(int(x_min), c),
-        np.full(int(x_max - x_min), A),
+        np.full(int(x_max) - int(x_min), A),
         np.full(len(a_x) - int(x_max), c)
     ))
     return y
-- 
2.43.0


From 3445ffdd7c2ff1fd9a2e833c9e146a67a88a9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 17/56] fix: model_sigmoid_step initial parameters could be
 outside its bounds

---
 anticipy/forecast_models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 6dd8e36..85792c2 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1024,6 +1024,11 @@ def _f_init_params_sigmoid_step(
         c = df.nlargest(1, 'diff').index[0]
         b = df.loc[c, 'y']
         d = b * b
+        if a_x is not None:  # Initial values need to be within bounds
+            (b_min, c_min, _), (b_max, c_max, _) = \
+                _f_init_bounds_sigmoid_step(a_x, a_y)
+            b = min(max(b, b_min), b_max)
+            c = min(max(c, c_min), c_max)
         return b, c, d
 
 
-- 
2.43.0


From 7314ab494b284a8a19a4cb66bb60b0668974aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 18/56] fix: model_ramp initial parameters could be outside its
 bounds with duplicate samples

---
 anticipy/forecast_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 85792c2..f35d140 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1121,6 +1121,8 @@ def _f_init_bounds_ramp(a_x=None, a_y=None, a_date=None):
         a_max = np.inf
     else:
         # a_min = np.min(a_x)
+        # Ignore multiple samples per x value, see _f_init_params_ramp()
+        a_x = np.unique(a_x)
         nfirst_last = int(np.ceil(0.15 * a_x.size))
         a_min = a_x[nfirst_last]
         a_max = a_x[-nfirst_last]
-- 
2.43.0


From 986b2ba85561b9a25b68123871971d169a2b1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 19/56] fix: interpolate_df did not mark gap-filled hourly
 samples

---
 anticipy/model_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index ea02415..93f548f 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -394,7 +394,10 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
     if 'x' in df.columns:
         df_result['x'] = df_result['x'].interpolate().astype(df.x.dtype)
         if include_mask:
-            df_result['is_gap_filled'] = ~df_result.x.isin(df.x)
+            # Several samples may share x, e.g. with hourly dates
+            col_axis = 'date' if 'date' in df.columns else 'x'
+            df_result['is_gap_filled'] = ~df_result[col_axis].isin(
+                df[col_axis])
     return df_result
 
 
-- 
2.43.0


From c77f83292a6d004e56b93068854087eda825b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 20/56] fix: model_naive repeated one sample per day on hourly
 series

---
 anticipy/forecast_models.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index f35d140..8390382 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -572,19 +572,24 @@ model_constant = ForecastModel(
 def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
-    df_out_tmp = pd.DataFrame({'date': a_date, 'x': a_x})
+    # Use dates if available - samples within the same day share x
+    if a_date is not None and 'date' in df_actuals.columns:
+        col_axis, a_axis = 'date', a_date
+    else:
+        col_axis, a_axis = 'x', a_x
+    df_out_tmp = pd.DataFrame({col_axis: a_axis})
     df_out = (
         # This is not really intended to work with multiple values per sample
-        df_actuals.drop_duplicates('x')
+        df_actuals[[col_axis, 'y']].drop_duplicates(col_axis)
         .merge(df_out_tmp, how='outer')
-        .sort_values('x')
+        .sort_values(col_axis)
     )
     df_out['y'] = (
         df_out.y.shift(1)
         .fillna(method='ffill')
         .fillna(method='bfill')
     )
-    df_out = df_out.loc[df_out.x.isin(a_x)]
+    df_out = df_out.loc[df_out[col_axis].isin(a_axis)]
     # df_out = df_out_tmp.merge(df_out, how='left')
     # TODO: CHECK THAT X,DATE order is preserved
     # TODO: df_out = df_out.merge(df_out_tmp, how='right')
-- 
2.43.0


From bc9713cb10d23b7f179d4c33163dffc9e624bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 21/56] fix: ignored samples that share x with a used sample
 affected naive models

---
 anticipy/forecast.py        |  6 +++---
 anticipy/forecast_models.py | 19 ++++++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0fee700..94dd444 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1335,12 +1335,12 @@ def run_forecast_single(df_y,
     #  used for extrapolation, naive model fitting
     df_actuals_interpolated = (
         df_y_unfiltered
+            # Update weight column in df_actuals_interpolated, sample by
+            # sample: several samples may share x
+            .assign(weight=df_y['weight'])
             .pipe(model_utils.interpolate_df, interpolate_y=False)
             .sort_values(['x'])
             .reset_index(drop=True)
-            # Update weight column in df_actuals_interpolated
-            .drop(columns=['weight'], errors='ignore')
-            .merge(df_y[['x', 'weight']], how='left')
     )
     df_actuals_interpolated['weight'] = \
         df_actuals_interpolated.weight.fillna(0)
diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 8390382..315bddb 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -569,6 +569,18 @@ model_constant = ForecastModel(
 # regression. We still pass it to forecast.fit_model() for consistency
 # with the rest of the library
 
+def _drop_duplicate_actuals(df_actuals, col_axis):
+    """Keep the first sample for each x or date, ignoring null samples
+    unless there is nothing else"""
+    return (
+        df_actuals
+        .assign(is_null=df_actuals.y.isnull())
+        .sort_values([col_axis, 'is_null'], kind='mergesort')
+        .drop_duplicates(col_axis)
+        .drop(columns='is_null')
+    )
+
+
 def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
@@ -580,7 +592,7 @@ def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
     df_out_tmp = pd.DataFrame({col_axis: a_axis})
     df_out = (
         # This is not really intended to work with multiple values per sample
-        df_actuals[[col_axis, 'y']].drop_duplicates(col_axis)
+        _drop_duplicate_actuals(df_actuals[[col_axis, 'y']], col_axis)
         .merge(df_out_tmp, how='outer')
         .sort_values(col_axis)
     )
@@ -618,7 +630,7 @@ def _fillna_wday(df):
         df
         .assign(wday=df.date.dt.weekday)
         .groupby('wday', as_index=False).apply(add_col_y_out)
-        .sort_values(['x'])
+        .sort_values(['date'])
         .reset_index(drop=True)
     )
     return df_out
@@ -631,7 +643,8 @@ def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
 
     # df_actuals_model - table with actuals samples,
     #  adding y_out column with naive model values
-    df_actuals_model = _fillna_wday(df_actuals.drop_duplicates('x'))
+    df_actuals_model = _fillna_wday(
+        _drop_duplicate_actuals(df_actuals, 'date'))
 
     # df_last_week - table with naive model values from last actuals week,
     #  to use in extrapolation
-- 
2.43.0


From bf3656269dcd8c4b66d98d831e374ffc2ec44829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 22/56] fix: naive models crashed if composed with models that
 use cache variables

---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 315bddb..80c6fde 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -581,7 +581,8 @@ def _drop_duplicate_actuals(df_actuals, col_axis):
     )
 
 
-def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_naive(
+        a_x, a_date, params, is_mult=False, df_actuals=None, **kwargs):
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
     # Use dates if available - samples within the same day share x
@@ -636,7 +637,8 @@ def _fillna_wday(df):
     return df_out
 
 
-def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_snaive_wday(
+        a_x, a_date, params, is_mult=False, df_actuals=None, **kwargs):
     """Naive model - takes last valid weekly sample"""
     if df_actuals is None:
         raise ValueError('model_snaive_wday requires a df_actuals argument')
-- 
2.43.0


From b1ed4a2f476b483b37e85d0ef8b49164c8db293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 23/56] fix: models with fixed parameters did not pass on
 df_actuals

---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 80c6fde..e708ede 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1314,7 +1314,8 @@ def get_fixed_model(forecast_model, params_fixed, is_mult=False):
         forecast_model.name + '_fixed', 0,
         f_model=lambda a_x, a_date, params, is_mult=is_mult, **kwargs:
         forecast_model.f_model(
-            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult))
+            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult,
+            **kwargs))
 
 
 def get_iqr_thresholds(s_diff, low=0.25, high=0.75):
@@ -1879,7 +1880,8 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
     def f_model_fixed(a_x, a_date, params, is_mult=False, **kwargs):
         params_long = l_params_fixed
         params_long[i_null] = params
-        return forecast_model.f_model(a_x, a_date, params_long, is_mult)
+        return forecast_model.f_model(
+            a_x, a_date, params_long, is_mult, **kwargs)
 
     def f_init_params_fixed(a_x=None, a_y=None, a_date=None, is_mult=False):
         # return params short
-- 
2.43.0


From 5736e687e77badc93fe809661cdd0815281566ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 24/56] fix: model_snaive_wday crashed if x of a sample is not
 its number of days

---
 anticipy/forecast_models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index e708ede..c0d1cce 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -666,15 +666,16 @@ def _f_model_snaive_wday(
         df_out_tmp
         .loc[~df_out_tmp.date.isin(df_actuals_model.date)]
         .merge(df_last_week, how='left')
-        .sort_values('x')
+        .sort_values('date')
     )
     # Filter actuals table - only samples in a_x, a_date
     df_out_actuals_filtered = (
         # df_actuals_model.loc[df_actuals_model.x.isin(a_x)]
         # Using merge rather than simple filtering to account for
         #  dates with multiple samples
-        df_actuals_model.merge(df_out_tmp, how='inner')
-        .sort_values('x')
+        # Match by date: x may be different, e.g. on gap-filled samples
+        df_actuals_model.merge(df_out_tmp[['date']], how='inner')
+        .sort_values('date')
     )
     df_out = (
         pd.concat(
-- 
2.43.0


From 91777ec54e99735b9d8d0894d323d46364a3d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:30 +0000
Subject: [PATCH 25/56] fix: model_spike used positions instead of x

The spike of a series (or forecast) whose x does not start at 0, or has
gaps, was at the wrong samples.
---
 anticipy/forecast_models.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index c0d1cce..4c2b039 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -695,11 +695,7 @@ def _f_model_spike(a_x, a_date, params, is_mult=False, **kwargs):
         c = 1
     else:
         c = 0
-    y = np.concatenate((
-        np.full(int(x_min), c),
-        np.full(int(x_max) - int(x_min), A),
-        np.full(len(a_x) - int(x_max), c)
-    ))
+    y = np.where((a_x >= x_min) & (a_x < x_max), A, c)
     return y
 
 
-- 
2.43.0


From b938b2c58ed4503e289414b816cac17f4f302d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 26/56] fix: validation functions that return False did not
 reject the input

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 4c2b039..81676de 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -510,7 +510,8 @@ class ForecastModel:
                         for f_validate_input in self.l_f_validate_input]
         except AssertionError:
             return False
-        return True
+        # Functions that only make assertions return None for valid input
+        return all(result is None or result for result in l_result)
 
     def init_cache(self, a_x, a_date):
         dict_cache_vars = dict()
-- 
2.43.0


From ca0d349d4a048a915e10b6fd82bb462d38eed136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 27/56] fix: fit_model crashed on compositions of models
 without parameters

---
 anticipy/forecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 94dd444..f20bd17 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -565,7 +565,7 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
             # 0-parameter model, no fit required
             time_start = datetime.now()
             a_residuals = get_residuals(
-                None,
+                np.array([]),
                 model,
                 a_x,
                 a_y,
-- 
2.43.0


From 239ba1a61d0cf867beae0383565a9608b2e5cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 28/56] fix: models listed twice (e.g. as naive and trend) were
 tried and reported twice

---
 anticipy/forecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index f20bd17..78963e1 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1323,7 +1323,8 @@ def run_forecast_single(df_y,
         # Default naive model. To force no naive models, use l_model_naive=[]
         l_model_naive = [forecast_models.model_snaive_wday] if freq == 'D' \
             else [forecast_models.model_naive]
-    l_model = l_model_naive + l_model
+    # Models may be listed several times, e.g. as naive and as trend model
+    l_model = list(dict.fromkeys(l_model_naive + l_model))
 
     # exclude samples with weight = 0
     df_y = df_y.loc[df_y.weight > 0]
-- 
2.43.0


From 49f6e72a6b3aaf0586732b11c96d5a1e1dcf8856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 29/56] fix: a model without finite residuals or derivatives
 aborted the forecast of all models

---
 anticipy/forecast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 78963e1..169066d 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -192,8 +192,10 @@ def optimize_least_squares(
             'message': result['message'],
             'params': [result['x']]
         }
-    except LinAlgError as e:
-        logger.info('LinAlgError: Model did not converge - %s', model)
+    except (LinAlgError, ValueError) as e:
+        # ValueError: the model has no finite value or derivative
+        logger.info('%s: Model did not converge - %s',
+                    type(e).__name__, model)
         dict_result_df = {
             'optimality': 0.,
             'success': False,
@@ -201,7 +203,7 @@ def optimize_least_squares(
             'iterations': 0.,
             'jac_evals': 0.,
             'status': 0,
-            'message': 'LinAlgError',
+            'message': type(e).__name__,
             'params': None
         }
 
-- 
2.43.0


From 6b147bc55951684f74e4e7b273a1796d749cdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 30/56] fix: yearly seasonality models aborted the forecast of
 series without dates

---
 anticipy/forecast_models.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 81676de..26ab55e 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1202,6 +1202,10 @@ model_season_wday = ForecastModel(
 
 
 # - Month seasonality
+def _f_validate_input_date(a_x, a_y, a_date):
+    assert a_date is not None
+
+
 def _f_init_params_season_month(
         a_x=None,
         a_y=None,
@@ -1240,11 +1244,13 @@ model_season_month = ForecastModel(
     11,
     _f_model_season_month,
     _f_init_params_season_month,
+    l_f_validate_input=_f_validate_input_date,
     l_cache_vars=['a_month']
 )
 
 model_season_month_old = ForecastModel(
-    'season_month_old', 11, _f_model_season_month)
+    'season_month_old', 11, _f_model_season_month,
+    l_f_validate_input=_f_validate_input_date)
 
 
 def _f_model_yearly_season_fourier(
@@ -1297,6 +1303,7 @@ model_season_fourier_yearly = ForecastModel(
     f_model=_f_model_yearly_season_fourier,
     f_init_params=_f_init_params_fourier,
     f_bounds=_f_init_bounds_fourier_yearly,
+    l_f_validate_input=_f_validate_input_date,
     l_cache_vars='a_t_fourier'
 )
 
-- 
2.43.0


From 5bc4840ff8e8572f582f3a3db0c8a30f9dd8b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:31 +0000
Subject: [PATCH 31/56] fix: model_linear initial parameters were not finite if
 all samples share x

---
 anticipy/forecast_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 26ab55e..b1ad7ab 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -783,6 +783,8 @@ def _f_init_params_linear(a_x=None, a_y=None, a_date=None, is_mult=False):
             a_x_size = np.unique(a_x).size - 1
         else:
             a_x_size = a_y.size - 1
+        # All samples may share x, e.g. with hourly dates
+        a_x_size = max(a_x_size, 1)
         A = (a_y[-1] - a_y[0]) / a_x_size
         B = a_y[0]
         # Uniform low= 0*m, high = 1*m
-- 
2.43.0


From cd54005e3f973c268ffa30faf4d4db2022c7785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 32/56] fix: model_ramp aborted the forecast of series with
 less than 4 distinct x

---
 anticipy/forecast_models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index b1ad7ab..160a361 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1166,12 +1166,18 @@ def _f_init_bounds_ramp(a_x=None, a_y=None, a_date=None):
     return ([a_min, b_min], [a_max, b_max])
 
 
+def _f_validate_input_ramp(a_x, a_y, a_date):
+    # The change of slope takes place away from the first and last x
+    assert np.unique(a_x).size >= 4
+
+
 model_ramp = ForecastModel(
     'ramp',
     2,
     _f_ramp,
     _f_init_params_ramp,
-    _f_init_bounds_ramp)
+    _f_init_bounds_ramp,
+    l_f_validate_input=_f_validate_input_ramp)
 
 
 # - Weekday seasonality
-- 
2.43.0


From 71bcbff365489e60fb6d6694d8e13f4d59b59ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 33/56] fix: ignored samples affected the automatic choice of
 composition

---
 anticipy/model_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 93f548f..39340fb 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -471,6 +471,10 @@ def is_multiplicative(df, freq='M'):
     - If date information is unavailable (only x column), use additive
     - If less than 2 periods worth of data are available, use additive
     """
+    # Samples with null value or no weight are ignored
+    df = df.loc[~df.y.pipe(pd.isna)]
+    if 'weight' in df.columns:
+        df = df.loc[df.weight > 0]
     if (df.y <= 0).any():
         return False
     if 'date' not in df.columns:
@@ -478,10 +482,7 @@ def is_multiplicative(df, freq='M'):
     if (df.date.max() - df.date.min()) < pd.Timedelta('60 days'):
         return False
     # Check for series size
-    df_filtered = df.loc[~df.y.pipe(pd.isna)]
-    if 'weight' in df_filtered.columns:
-        df_filtered = df_filtered.loc[df_filtered.weight > 0]
-    if df_filtered.index.size < 4:  # Not enough samples to fit a linear model
+    if df.index.size < 4:  # Not enough samples to fit a linear model
         return False
     df_stats = _get_mult_sum_stats(df, freq)
     # Column corr_mean_to_var is constant
-- 
2.43.0


From 6d040bff613e251812aa0016abc55a7bd8f83576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 34/56] fix: normalize_df mixed up unrelated columns that have
 a default name

---
 anticipy/forecast.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 169066d..309d544 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -347,7 +347,13 @@ def normalize_df(df_y,
         col_name_date: 'date',
         col_name_source: 'source'
     }
-    df_y = df_y.copy().rename(rename_col_dict, axis=1)
+    # A column with a default name is unrelated data if another column is
+    # used in its place
+    l_unrelated = [
+        col_new for col_old, col_new in rename_col_dict.items()
+        if col_old != col_new and col_old in df_y.columns and
+        col_new not in rename_col_dict and col_new in df_y.columns]
+    df_y = df_y.drop(l_unrelated, axis=1).rename(rename_col_dict, axis=1)
 
     # Placeholder - need to replace all references to col_name_z with z
     col_name_y = 'y'
-- 
2.43.0


From 164040171de5eee5414f91b34a36331f65384fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 35/56] fix: get_model_outliers did not group changes at the
 last samples

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 160a361..bbd516a 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1385,7 +1385,8 @@ def get_model_outliers(df, window=3):
     # Whenever there are two or more consecutive changes
     # (that is, within `window` samples), we group them together
     dfo['ischange_group'] = (
-        dfo.ischange.rolling(window, win_type=None, center=True).max().fillna(
+        dfo.ischange.rolling(
+            window, win_type=None, center=True, min_periods=1).max().fillna(
             0).astype(int)
     )
 
-- 
2.43.0


From d58312dd316b10c21bb29681dde478e90e29650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 36/56] fix: get_model_outliers truncated fractional x of
 outliers

---
 anticipy/forecast_models.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index bbd516a..8ceb52c 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1460,9 +1460,6 @@ def get_model_outliers(df, window=3):
                             (dfo.date >= pd.to_datetime(dfo.outl_start)) &
                             (dfo.date <= pd.to_datetime(dfo.outl_end)))
     else:
-        # For non-date x values, we fill na's and convert to int
-        dfo['outl_start'] = dfo.outl_start.fillna(0).astype(int)
-        dfo['outl_end'] = dfo.outl_end.fillna(0).astype(int)
         # Create the mask for spikes and steps
         dfo['mask_spike'] = (dfo['is_spike'] &
                              (dfo.x >= dfo.outl_start) &
-- 
2.43.0


From 08cbab3d5197ba83589f69570b7973b4baae14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 37/56] fix: ignored samples affected the search for outliers

---
 anticipy/forecast.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 309d544..c8bb2d8 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1222,7 +1222,13 @@ def run_forecast_single(df_y,
 
     # If we find outliers, we add a model with dummy variables for the outliers
     if find_outliers:
-        mask_step, mask_spike = forecast_models.get_model_outliers(df_y)
+        # Ignored samples don't affect the search for outliers
+        mask_used = ~df_y.y.isnull()
+        if 'weight' in df_y.columns:
+            mask_used = mask_used & (df_y.weight > 0)
+        mask_spike = np.full(df_y.index.size, False)
+        _, mask_spike[mask_used.values] = \
+            forecast_models.get_model_outliers(df_y.loc[mask_used])
         # Make weight = 0 to ignore spike outliers
         if 'weight' in df_y.columns:
             df_y['weight'] = df_y['weight'] * (~mask_spike).astype(float)
-- 
2.43.0


From 493ea81a23b8d1b16a9c6954f59a144f6b9a612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 38/56] fix: prediction intervals of hourly series widened as
 if daily

---
 anticipy/forecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index c8bb2d8..502b018 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1602,6 +1602,8 @@ def _get_days_from_freq(freq):
         return 30
     elif freq.startswith('W'):
         return 7
+    elif freq.startswith('H'):
+        return 1. / 24
     else:
         return 1
 
-- 
2.43.0


From 9183a7f164671a0d134c591912f5030e56f57ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 39/56] fix: prediction intervals used residuals of ignored
 samples

---
 anticipy/forecast.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 502b018..9458c7f 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1730,30 +1730,14 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     else:
         l_cols = ['date']
 
-    if 'weight' in df_forecast.columns and (df_forecast.weight == 0).any():
-
-        # Filter out dates for outliers with weight=0
-        df_filtered_dates = (
-            df_forecast.loc[(df_forecast.weight > 0) &
-                            (df_forecast.is_actuals)]
-            [['date', 'source']]
-        )
-
-        # Take filtered actuals
-        df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
-                                                ~df_forecast.y.isnull()]
-        df_actuals = (df_actuals_unfiltered[['date', 'y']]
-                      .merge(df_filtered_dates, how='inner')
-                      .rename({'y': 'actuals'}, axis=1)
-                      )
-        date_last_actuals = df_actuals.date.max()
-    else:  # No weight data - use all actuals rows
-        df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
-                                                ~df_forecast.y.isnull()]
-        df_actuals = (df_actuals_unfiltered[['date', 'y']]
-                      .rename({'y': 'actuals'}, axis=1)
-                      )
-        date_last_actuals = df_actuals.date.max()
+    df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
+                                            ~df_forecast.y.isnull()]
+    # Ignore actuals without weight, e.g. outliers
+    df_actuals = df_actuals_unfiltered
+    if 'weight' in df_actuals.columns:
+        df_actuals = df_actuals.loc[df_actuals.weight > 0]
+    df_actuals = df_actuals[['date', 'y']].rename({'y': 'actuals'}, axis=1)
+    date_last_actuals = df_actuals.date.max()
     # Compute residuals for filtered actuals
     df_residuals_tmp = df_forecast.loc[
         ~df_forecast.is_actuals & ~df_forecast.y.pipe(
-- 
2.43.0


From 8befa056a7fcd8d301a89e8f8af14a7aeff0079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 40/56] fix: get_pi crashed without source column if there are
 no residuals

---
 anticipy/forecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 9458c7f..9075e82 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1752,7 +1752,8 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     if df_residuals.empty:  # May happen if no forecast could be generated
         logger.warning(
             'No forecast data for source %s',
-            df_forecast.source.unique())
+            df_forecast.source.unique()
+            if 'source' in df_forecast.columns else None)
         return df_actuals_unfiltered[l_cols + ['is_actuals', 'model', 'y']]
 
     # Generate table with prediction interval
-- 
2.43.0


From 52cb724781c6856683ae7b6520ea4ea2e42b93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 41/56] fix: decreasing series were left unfitted by the
 non-decreasing linear model

The search started on the bound; with the first value 0 and values in the
thousands it stopped there, at a constant 0.
---
 anticipy/forecast_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 8ceb52c..ff4c0eb 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -804,8 +804,9 @@ def f_init_params_linear_nondec(
         a_date=None,
         is_mult=False):
     params = _f_init_params_linear(a_x, a_y, a_date)
-    if params[0] < 0:
-        params[0] = 0
+    if params[0] <= 0:
+        # Start inside of the bounds, at the scale of the series
+        params[0] = 0 if a_y is None else np.abs(a_y).max() / a_y.size
     return params
 
 
-- 
2.43.0


From 0235fb05090926c69e22d9b468c583e3266248f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 42/56] fix: linear fits stayed at zero for large series that
 begin and end at zero

---
 anticipy/forecast_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index ff4c0eb..b219ce0 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -787,6 +787,9 @@ def _f_init_params_linear(a_x=None, a_y=None, a_date=None, is_mult=False):
         a_x_size = max(a_x_size, 1)
         A = (a_y[-1] - a_y[0]) / a_x_size
         B = a_y[0]
+        if A == 0 and B == 0:
+            # The solver needs a start at the scale of the series
+            B = a_y[np.argmax(np.abs(a_y))]
         # Uniform low= 0*m, high = 1*m
         return np.array([A, B])
 
-- 
2.43.0


From 098b910fb0aa03143d5573d32478c3db03511078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 43/56] fix: weekday seasonality of large values was not fitted

Its initial parameters were random values below 1, whose effect on values
of 1e8 and more is below the precision of numerical derivatives.
---
 anticipy/forecast_models.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index b219ce0..9e5a605 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1204,10 +1204,20 @@ def _f_validate_input_season_wday(a_x, a_y, a_date):
     assert a_date.weekday.drop_duplicates().size == 7
 
 
+def _f_init_params_season_wday(
+        a_x=None, a_y=None, a_date=None, is_mult=False):
+    params = np.random.uniform(low=0.001, high=1, size=6)
+    if a_y is not None and not is_mult:
+        # The solver needs a start at the scale of the series
+        params = params * max(1.0, np.abs(a_y).max())
+    return params
+
+
 model_season_wday = ForecastModel(
     'season_wday',
     6,
     _f_model_season_wday,
+    _f_init_params_season_wday,
     l_f_validate_input=_f_validate_input_season_wday,
     l_cache_vars=['a_weekday']
 )
-- 
2.43.0


From 29ad26d00c889beae1b182e04ae835c9dd5a2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 44/56] fix: plot_forecast reports failure if the plotting
 library is missing

---
 anticipy/forecast_plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index a8df364..0c51bc4 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -447,6 +447,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please install matplotlib library to enable this '
                          'feature.')
+            return 1
     elif output == 'html':
         if _plotly_imported:
             fig = _plotly_forecast_create(df_fcast, subplots, sources, nrows,
@@ -460,6 +461,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please install plotly library to enable this '
                          'feature.')
+            return 1
     elif output == 'jupyter':
         if _plotly_imported and _ipython_imported:
             py.offline.init_notebook_mode(connected=True)
@@ -472,6 +474,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         else:
             logger.error('Please make sure that both plotly and ipython '
                          'libraries are installed to enable this feature.')
+            return 1
     else:
         logger.error('Wrong exporting format provided. Either png, html or '
                      'jupyter formats are supported at the moment.')
-- 
2.43.0


From 8f9a225fefd211f2fccc031145243f7eac2bd26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 45/56] fix: png plots of default size

---
 anticipy/forecast_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 0c51bc4..ef74fba 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -93,7 +93,7 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     act_col = '#00BFC4'
     for_col = '#F8766D'
     plt.style.use('ggplot')
-    figsize = (width / dpi, height / dpi)
+    figsize = (width / dpi, height / dpi) if width and height else None
 
     # Clean actuals - weights do not get plotted
     df_fcast = df_fcast.loc[df_fcast.model != 'weight']
-- 
2.43.0


From 1ac9f47bf61e0682cb861ae2e84905a440512bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 46/56] fix: plot_forecast reports success of notebook plots

---
 anticipy/forecast_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index ef74fba..2fde694 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -470,7 +470,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
                                           show_legend,
                                           add_rangeslider,
                                           include_interval, pi_q1, pi_q2)
-            return py.offline.iplot(fig, show_link=False)
+            py.offline.iplot(fig, show_link=False)
         else:
             logger.error('Please make sure that both plotly and ipython '
                          'libraries are installed to enable this feature.')
-- 
2.43.0


From 22ff4a3d67d6e8667c11296b366d5ee06eeffec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 47/56] fix: plot sources without actuals

---
 anticipy/forecast_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 2fde694..2f268e9 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -416,7 +416,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
 
     if 'source' in df_fcast.columns and df_fcast.source.nunique() > 1:
         subplots = True
-        sources = df_fcast.loc[df_fcast['is_actuals'], 'source'].unique()
+        sources = df_fcast['source'].dropna().unique()
         num_plots = len(sources)
         nrows = int(np.ceil(np.sqrt(num_plots)))
         ncols = int(np.ceil(1. * num_plots / nrows))
-- 
2.43.0


From 90a0a63fa46dfacaad005564c1da2caf0ae00879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 48/56] fix: png plots show the requested prediction intervals

---
 anticipy/forecast_plot.py | 48 ++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 2f268e9..32c0565 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -54,7 +54,9 @@ except ImportError:
 def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
                                 width=None, height=None, title=None, dpi=70,
                                 show_legend=True,
-                                include_interval=False):
+                                include_interval=False,
+                                pi_q1=5,
+                                pi_q2=20):
     """
     Creates matplotlib plot from forecast dataframe
 
@@ -83,6 +85,13 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     :type dpi: int
     :param show_legend: Indicates whether legends will be displayed
     :type show_legend: bool
+    :param include_interval: Indicates whether prediction intervals will be
+        displayed
+    :type include_interval: bool
+    :param pi_q1: Percentile for outer prediction interval (defaults to 5%-95%)
+    :type pi_q1: int
+    :param pi_q2: Percentile for inner prediction interval (defaults to 20%-80%)
+    :type pi_q2: int
 
     :return: The plot
     :rtype: matplotlib plot instance
@@ -123,27 +132,20 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
             df_fcast.loc[source_filt & ~df_fcast['is_actuals'], 'y'],
             color=for_col, marker='None', linestyle='solid', label='Forecast')
 
-        # Fill area between 5th and 95th prediction interval
-        if include_interval and \
-                ('q5' in df_fcast.columns) and ('q95' in df_fcast.columns):
-            where_to_fill = (source_filt &
-                             (~df_fcast['is_actuals']) &
-                             (~df_fcast['q5'].isnull()) &
-                             (~df_fcast['q95'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q5'], df_fcast['q95'],
-                            where=where_to_fill,
-                            facecolor=for_col, alpha=0.2)
-
-        if include_interval and\
-                ('q20' in df_fcast.columns) and ('q80' in df_fcast.columns):
-            # Fill area between 20th and 80th prediction interval
-            where_to_fill_2 = (source_filt &
-                               (~df_fcast['is_actuals']) &
-                               (~df_fcast['q20'].isnull()) &
-                               (~df_fcast['q80'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q20'], df_fcast['q80'],
-                            where=where_to_fill_2,
-                            facecolor=for_col, alpha=0.2)
+        # Fill areas of outer and inner prediction intervals
+        for pi_q in [pi_q1, pi_q2]:
+            str_q_low = 'q{}'.format(pi_q)
+            str_q_hi = 'q{}'.format(100 - pi_q)
+            if include_interval and \
+                    (str_q_low in df_fcast.columns) and \
+                    (str_q_hi in df_fcast.columns):
+                where_to_fill = (source_filt &
+                                 (~df_fcast['is_actuals']) &
+                                 (~df_fcast[str_q_low].isnull()) &
+                                 (~df_fcast[str_q_hi].isnull()))
+                ax.fill_between(df_fcast.index, df_fcast[str_q_low],
+                                df_fcast[str_q_hi], where=where_to_fill,
+                                facecolor=for_col, alpha=0.2)
 
         if subplots:
             # Set the title of each subplot as per source name
@@ -432,7 +434,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
             fig = _matplotlib_forecast_create(df_fcast, subplots, sources,
                                               nrows, ncols, width, height,
                                               title, dpi, show_legend,
-                                              include_interval)
+                                              include_interval, pi_q1, pi_q2)
 
             path = '{}.png'.format(path)
             dirname, fname = os.path.split(path)
-- 
2.43.0


From 4642d67da19ba9a3d790e34d5fae8bd29ccd935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 49/56] fix: app could not be imported or run as a module of
 the package

---
 anticipy/app.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index 509dc1a..39474de 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -16,9 +16,8 @@
 import logging
 import pandas as pd
 import os
-import forecast
-import forecast_plot
 import argparse
+from anticipy import forecast, forecast_plot
 
 # -- Private Imports
 
-- 
2.43.0


From e3ff4cd02db5a0ed0e7f0738137349a21408a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 50/56] fix: plot_forecast crashed on forecasts of series
 without dates

---
 anticipy/forecast_plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 32c0565..a244feb 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -416,6 +416,10 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
         logger.error('No export path provided.')
         return 1
 
+    if 'date' not in df_fcast.columns and 'x' in df_fcast.columns:
+        # Series without dates are plotted along the x axis
+        df_fcast = df_fcast.rename(columns={'x': 'date'})
+
     if 'source' in df_fcast.columns and df_fcast.source.nunique() > 1:
         subplots = True
         sources = df_fcast['source'].dropna().unique()
-- 
2.43.0


From de3e57d357098c31adb9229f93314fa031a7bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 51/56] fix: model_spike had one initial parameter instead of
 three without series

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 9e5a605..1f9f2ea 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -704,7 +704,7 @@ def _f_init_params_spike(a_x=None, a_y=None, a_date=None, is_mult=False):
     """ params are spike height, x start, x end """
     # if not a_y.any():
     if a_y is None:
-        return [1] + np.random.uniform(0, 1, 1) + [2]
+        return np.concatenate([[1], np.random.uniform(0, 1, 1), [2]])
     else:
         diffs = np.diff(a_y)
         # if diffs:
-- 
2.43.0


From cd8ff9ff77c70d1ea31b5d8e5e86a98eb1cb8b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 52/56] fix: monthly seasonality could not be fitted to series
 without samples in some month

---
 anticipy/forecast_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 1f9f2ea..30c3e08 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1242,10 +1242,11 @@ def _f_init_params_season_month(
         l_params = l_params_long[:-1]
         if not is_mult:
             l_params_add = l_params - l_baseline
-            return l_params_add
+            # Months may have no samples
+            return np.where(np.isfinite(l_params_add), l_params_add, 0)
         else:
             l_params_mult = l_params / l_baseline
-            return l_params_mult
+            return np.where(np.isfinite(l_params_mult), l_params_mult, 1)
 
 
 def _f_model_season_month(
-- 
2.43.0


From 1dbaf6b1b20d7b2344c27ab5e9196f0ac789c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 53/56] fix: models that need dates aborted the forecast of
 series without dates

---
 anticipy/forecast_models.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 30c3e08..3912782 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -151,6 +151,10 @@ def _f_validate_input_default(a_x, a_y, a_date):
     return True
 
 
+def _f_validate_input_date(a_x, a_y, a_date):
+    assert a_date is not None
+
+
 def _as_list(l):
     return l if isinstance(l, (list,)) else [l]
 
@@ -763,7 +767,8 @@ def get_model_spike_date(date_start, date_end):
             pd.to_datetime(date_end).date()),
         1,
         f_model,
-        _f_init_params_spike)
+        _f_init_params_spike,
+        l_f_validate_input=_f_validate_input_date)
     return model_spike_date
 
 
@@ -949,7 +954,8 @@ def get_model_step_date(date_start):
         _f_model_step_date(a_x, a_date, params, date_start, is_mult)
     )
     model_step_date = ForecastModel('step_date[{}]'.format(date_start.date()),
-                                    1, f_model, _f_init_params_step_date)
+                                    1, f_model, _f_init_params_step_date,
+                                    l_f_validate_input=_f_validate_input_date)
     return model_step_date
 
 
@@ -1224,10 +1230,6 @@ model_season_wday = ForecastModel(
 
 
 # - Month seasonality
-def _f_validate_input_date(a_x, a_y, a_date):
-    assert a_date is not None
-
-
 def _f_init_params_season_month(
         a_x=None,
         a_y=None,
@@ -1673,23 +1675,28 @@ def get_model_dummy(name, dummy, **kwargs):
     _validate_f_dummy(f_dummy)
     f_model_dummy = _get_f_model_dummy(f_dummy, mask_name)
     dict_f_cache = {mask_name: f_dummy}
+    if isinstance(dummy, (Holiday, AbstractHolidayCalendar)):
+        kwargs.setdefault('l_f_validate_input', _f_validate_input_date)
     return ForecastModel(
         name, 1, f_model_dummy, dict_f_cache=dict_f_cache, **kwargs)
 
 
 model_season_wday_2 = get_model_dummy(
     'season_wday_2', lambda a_x, a_date, **kwargs:
-    (a_date.weekday < 5).astype(float))
+    (a_date.weekday < 5).astype(float),
+    l_f_validate_input=_f_validate_input_date)
 
 # Example dummy model - checks if it is Christmas
 model_dummy_christmas = get_model_dummy(
     'dummy_christmas', lambda a_x, a_date, **kwargs:
-    ((a_date.month == 12) & (a_date.day == 25)).astype(float))
+    ((a_date.month == 12) & (a_date.day == 25)).astype(float),
+    l_f_validate_input=_f_validate_input_date)
 
 # Example dummy model - checks if it is first day of month
 model_dummy_month_start = get_model_dummy(
     'dummy_month_start', lambda a_x, a_date, **kwargs:
-    (a_date.day == 1).astype(float))
+    (a_date.day == 1).astype(float),
+    l_f_validate_input=_f_validate_input_date)
 
 
 class CalendarBankHolUK(AbstractHolidayCalendar):
@@ -1803,6 +1810,7 @@ def get_model_from_calendars(l_calendar, name=None):
         len(l_model_dummy),
         _f_model_calendar,
         _f_init_params_calendar,
+        l_f_validate_input=_f_validate_input_date,
         l_cache_vars=f_model_sum.l_cache_vars,
         dict_f_cache=f_model_sum.dict_f_cache
     )
@@ -1927,7 +1935,9 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
         n_params,
         f_model_fixed,
         f_init_params_fixed,
-        f_bounds_fixed)
+        f_bounds_fixed,
+        l_f_validate_input=getattr(
+            forecast_model, 'l_f_validate_input', None))
     return model_result
 
 
-- 
2.43.0


From 5152ceca8cb7e2a2a77e70b73242e08386741921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 54/56] fix: run_l_forecast crashed if an input has no samples

---
 anticipy/forecast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 9075e82..f8b9f09 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1535,8 +1535,11 @@ def run_l_forecast(l_fcast_input,
             find_outliers=find_outliers,
             use_cache=use_cache
         )
-        l_dict_result += [dict_result]
+        if dict_result is not None:  # None for empty input
+            l_dict_result += [dict_result]
 
+    if not l_dict_result:  # Empty input
+        return None
     # Generate output
     return aggregate_forecast_dict_results(l_dict_result)
 
-- 
2.43.0


From 749fba7b501fb45495fac0aceda5826e90b5553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 55/56] fix: key of the best criterion was a position, or
 crashed if several are -inf

---
 anticipy/model_utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 39340fb..1309d34 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -281,16 +281,10 @@ def get_aic_c(fit_error, n, n_params):
 
 
 def get_s_aic_c_best_result_key(s_aic_c):
-    # Required because aic_c can be -inf, that value is not compatible with
-    # pd.Series.argmin()
+    # aic_c can be -inf, for one or several results
     if s_aic_c.empty or s_aic_c.isnull().all():
         return None
-    if (s_aic_c.values == -np.inf).any():
-        (key_best_result,) = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
-        key_best_result = s_aic_c.index[key_best_result.min()]
-    else:
-        key_best_result = s_aic_c.argmin()
-    return key_best_result
+    return s_aic_c.idxmin()
 
 
 def detect_freq(a_date):
-- 
2.43.0


From 9fe06421c85fd19b09f93e872111154f7076ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 56/56] fix: key of the best criterion could be that of a null
 value

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 1309d34..9abcd6b 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -284,7 +284,7 @@ def get_s_aic_c_best_result_key(s_aic_c):
     # aic_c can be -inf, for one or several results
     if s_aic_c.empty or s_aic_c.isnull().all():
         return None
-    return s_aic_c.idxmin()
+    return s_aic_c.dropna().idxmin()
 
 
 def detect_freq(a_date):
-- 
2.43.0

