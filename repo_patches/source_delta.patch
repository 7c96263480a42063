From ff5f2bb07061bc2868b3b636d394168407c79684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 01/22] fix: deseason no longer modifies the attributes of its
 input array

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 779af5d..7a2e01c 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -741,8 +741,8 @@ def deseason(arr, tdim="time", output_format="residuals"):
     # this function only works on xarray DataArray objects
     assert isinstance(arr, xr.DataArray), "Input must be an xarray DataArray"
 
-    # store array attributes for reassignment at the end
-    attrs = arr.attrs
+    # store a copy of the array attributes for reassignment at the end
+    attrs = dict(arr.attrs)
 
     # check that the specified time dimension exists
     core_dims = list(arr.dims)
-- 
2.43.0


From b09ff4eaf5d500fedab51c0b2ca69ea551ab5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 02/22] fix: validate_dataset rejects a reference dataset with
 a time coordinate

The check compared bound methods (`x.lower`) to a string and never fired.
---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 1b56c6a..451947a 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -727,7 +727,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
     if reference:
         try:
             assert "time" not in [
-                x.lower for x in list(dset.coords)
+                x.lower() for x in list(dset.coords)
             ], "Reference dataset cannot contain a time coordinate"
         except AssertionError as e:
             exceptions.append(e)
-- 
2.43.0


From e72cf4c600da4b607af016abbecdb571d95a1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 03/22] fix: extract_tidegauge compares the y dimensions with
 the x dimensions

---
 src/momlevel/tidegauge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index 3aec20e..a03ae51 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -102,7 +102,7 @@ def extract_tidegauge(
 
     # Check that dimensions are the same for x/y coords
     _xdims = tuple(_xcoord.dims)
-    _ydims = tuple(_xcoord.dims)
+    _ydims = tuple(_ycoord.dims)
     assert _xdims == _ydims
 
     # Make sure mask does not have missing values
-- 
2.43.0


From 92b62c5c933f4d3ea7163999d0ddceb4d2b5c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 04/22] fix: calc_n2 and calc_wave_speed pass the vertical
 coordinate name on

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 67b61b9..9d90fb9 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -406,7 +406,7 @@ def calc_n2(
         "units": "s-2",
     }
 
-    n2 = adjust_negative_n2(n2) if adjust_negative else n2
+    n2 = adjust_negative_n2(n2, zcoord=zcoord) if adjust_negative else n2
 
     return n2
 
@@ -817,7 +817,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
         in units of m s-1
     """
 
-    result = (np.sqrt(adjust_negative_n2(n2)) * dz).sum(zcoord) / np.pi
+    result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
     result = xr.where(n2[0].isnull(), np.nan, result)
 
     result.attrs = {
-- 
2.43.0


From cf67ccf063c0f5ec5eb5230fa88ffa3f85a63f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 05/22] fix: annual averages honour the requested time
 coordinate name

---
 src/momlevel/steric.py | 2 +-
 src/momlevel/util.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index abe23cb..6deee08 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -179,7 +179,7 @@ def steric(
             result[var].attrs = dset[var].attrs
 
     if annual:
-        result = annual_average(result)
+        result = annual_average(result, tcoord=tcoord)
 
     return (result, reference)
 
diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 451947a..29b1ca8 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -87,8 +87,8 @@ def annual_average(xobj, tcoord="time"):
             groups[grp].weighted(groups[grp][tcoord].dt.days_in_month).mean(tcoord)
         )
 
-    result = xr.concat(_annuals, dim="time")
-    result = result.transpose("time", ...)
+    result = xr.concat(_annuals, dim=tcoord)
+    result = result.transpose(tcoord, ...)
 
     def _find_ann_midpoint(year, calendar=calendar):
         """finds the midpoint of the year along the time dimension"""
@@ -102,7 +102,7 @@ def annual_average(xobj, tcoord="time"):
         for x in dict(groups).keys()
     ]
 
-    result = result.assign_coords({"time": new_time_axis})
+    result = result.assign_coords({tcoord: new_time_axis})
 
     if isinstance(xobj, xr.core.dataset.Dataset):
         for var in list(result.variables):
-- 
2.43.0


From b2e522a9b9afc20be2b9435738c158ed2f14d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 06/22] fix: broadcast_trend subtracts the first step of the
 given dimension

---
 src/momlevel/trend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 7a2e01c..064fa99 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -106,8 +106,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Subtract first time step if asked to
     if subtract_time_zero:
-        tdim = "time"
-        result = result - result.isel({tdim: 0})
+        result = result - result.isel({dim_name: 0})
 
     return result
 
-- 
2.43.0


From 065b97d645ff9adac7db4ebe867c159c5ce65f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 07/22] fix: seasonal_model honours the requested time
 coordinate name

---
 src/momlevel/trend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 064fa99..41d6e39 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -412,19 +412,19 @@ def seasonal_model(da_timeseries, tcoord="time", return_model=False):
 
     model_da = xr.DataArray(
         model,
-        dims=["coeff", "time"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=["coeff", tcoord],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     model_da = model_da.expand_dims(dim=hashable_coords)
 
     pmodel_da = xr.DataArray(
         pmodel,
-        dims=["time", "coeff"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=[tcoord, "coeff"],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     pmodel_da = pmodel_da.expand_dims(dim=hashable_coords)
 
-    mcoeff = pmodel_da.dot(da_timeseries, dims="time")
+    mcoeff = pmodel_da.dot(da_timeseries, dims=tcoord)
 
     smodel = model_da.dot(mcoeff, dims="coeff")
     residuals = da_timeseries - smodel
-- 
2.43.0


From b74cd3f8c8f831ab5b99888441b74f0fc8be4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 08/22] fix: deseason honours the requested time dimension name

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 41d6e39..341dc95 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -772,7 +772,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         [
             366 if x is True else 365
             for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr.time.values)
+                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
             ]
         ]
     )
@@ -821,7 +821,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         result = result.assign_coords(coeff=coeff_coords)
         result = result.transpose("coeff", ...)
     else:
-        result = result.transpose("time", ...)
+        result = result.transpose(tdim, ...)
 
     # Calculate if original input array was not a dask array
     if keep_lazy is False:
-- 
2.43.0


From 19e38b990f49c4130ce7974a91c33c83436620b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 09/22] fix: geolocate_points honours loc_coords when building
 its result

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 29b1ca8..ca8faab 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -361,8 +361,8 @@ def geolocate_points(
     df2["dim_vals"] = list(df1.index)
 
     # Clean up coordinates
-    df2["real_coords"] = list(zip(df2["lat"].values, df2["lon"].values))
-    df2 = df2.drop(["yrad", "xrad", "lat", "lon"], axis=1)
+    df2["real_coords"] = list(zip(df2[ycoord2].values, df2[xcoord2].values))
+    df2 = df2.drop(["yrad", "xrad", ycoord2, xcoord2], axis=1)
 
     return df2
 
-- 
2.43.0


From d5dd56f4618b81982a6ba8af0193bad4949f9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 10/22] fix: geolocate_points only warns about locations that
 it drops

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index ca8faab..2bac683 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -343,7 +343,7 @@ def geolocate_points(
     df2["distance"] = df2["distance"] * rad_earth
 
     if not disable_warning:
-        df_missing = df2[df2["distance"] >= threshold]
+        df_missing = df2[df2["distance"] > threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
                 warnings.warn(
-- 
2.43.0


From 0e544d87e749d39773c726871332cb303ed1e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 11/22] fix: linear EOS alpha and beta are not truncated for
 integer input

np.full_like(T, ...) took the dtype of T, so that integer temperatures
rounded the density derivative to zero.
---
 src/momlevel/eos/linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/eos/linear.py b/src/momlevel/eos/linear.py
index 300ae72..52a5e74 100644
--- a/src/momlevel/eos/linear.py
+++ b/src/momlevel/eos/linear.py
@@ -8,8 +8,6 @@ __all__ = [
     "beta",
 ]
 
-import numpy as np
-
 # In a linear equation of state, the density derivatives are typically not
 # calculated and are fixed parameters.
 
@@ -133,7 +131,7 @@ def alpha(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return -1.0 * (np.full_like(T, fill_value=DRHO_DT) / density(T, S, p))
+    return -1.0 * (drho_dtemp(T, S, p) / density(T, S, p))
 
 
 def beta(T, S, p):
@@ -159,4 +157,4 @@ def beta(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return np.full_like(T, fill_value=DRHO_DS) / density(T, S, p)
+    return drho_dsal(T, S, p) / density(T, S, p)
-- 
2.43.0


From 09ad9b693a374c1d0019f9503c6f15275d0428bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 12/22] fix: seasonal_cycle_model uses a scalar daysinyear
 instead of 365

---
 src/momlevel/trend.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 341dc95..0863d1f 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -497,10 +497,7 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
     """
 
     time_length = ts.shape[0]
-    if isinstance(daysinyear, float) or isinstance(daysinyear, int):
-        time_dec = np.arange(time_length) / 365.0
-    else:
-        time_dec = np.arange(time_length) / daysinyear
+    time_dec = np.arange(time_length) / daysinyear
 
     assert len(ts) == len(
         time_dec
-- 
2.43.0


From 8f434a995e55a6938c33a3e8e74a171c7d4a115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 13/22] fix: linear_detrend accepts variables with inverse
 units

The units of a velocity, e.g. `m s-1`, were taken for a second time unit
of its trend, and detrending failed.
---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 0863d1f..47aa39d 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -185,8 +185,8 @@ def _detrend_array(arr, dim="time", order=1, mode="remove"):
     slope = ds_trend[f"{varname}_slope"]
     intercept = ds_trend[f"{varname}_intercept"]
 
-    # construct the fitted line
-    fit_x = broadcast_trend(slope, arr[dim])
+    # construct the fitted line (a time trend without `time_units` is in ns-1)
+    fit_x = broadcast_trend(slope.assign_attrs({"units": "ns-1"}), arr[dim])
 
     if mode not in ["remove", "correct"]:
         raise ValueError(f"Unknown detrend mode '{mode}'")
-- 
2.43.0


From 47068c48fa068f4e5c0801b1d1123a12161625a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 14/22] fix: trend time units are honoured on a datetime64 time
 axis

The conversion was only applied for cftime axes; on datetime64 axes the
slope stayed in ns-1, whatever units were requested or declared.
---
 src/momlevel/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 47aa39d..e5da01c 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -3,6 +3,7 @@
 import warnings
 import cftime
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 from xarray.core.missing import get_clean_interp_index
@@ -56,7 +57,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Determine if we have time trend. If so, check the units and convert
     # to nanoseconds if necessary
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(dim_arr.indexes[dim_name], x) for x in time_indexes]):
         # Flag to throw default behavior warning
         warn_time_units = False
@@ -265,7 +266,7 @@ def calc_linear_trend(arr, dim="time", time_units=None):
     intercept = intercept.rename(f"{varname}_intercept")
 
     # determine slope units
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(arr.indexes[dim], x) for x in time_indexes]):
         time_units = "ns" if time_units is None else time_units
 
-- 
2.43.0


From a0446c3dd5bdfdb346aab4bcb5a873a46b321ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:01 +0000
Subject: [PATCH 15/22] fix: deseason keeps the phase of the seasonal cycle
 across leap years

The time in years was the day number divided by the length of the current
year, and jumped by days at each change between leap and common years.
---
 src/momlevel/trend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index e5da01c..3c24d78 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -498,7 +498,9 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
     """
 
     time_length = ts.shape[0]
-    time_dec = np.arange(time_length) / daysinyear
+    # elapsed years; the length of the year can differ from sample to sample
+    years_per_step = np.ones(time_length) / daysinyear
+    time_dec = np.cumsum(years_per_step) - years_per_step[0]
 
     assert len(ts) == len(
         time_dec
-- 
2.43.0


From 94f85f4656484d319f2ea38df87c9f7b17ba06b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:26 +0000
Subject: [PATCH 16/22] fix: each step of the seasonal fit takes the length of
 the year it starts in

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 3c24d78..778257e 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -500,7 +500,7 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
     time_length = ts.shape[0]
     # elapsed years; the length of the year can differ from sample to sample
     years_per_step = np.ones(time_length) / daysinyear
-    time_dec = np.cumsum(years_per_step) - years_per_step[0]
+    time_dec = np.cumsum(years_per_step) - years_per_step
 
     assert len(ts) == len(
         time_dec
-- 
2.43.0


From ae57814cf6454c8502e46cbfadf0c55dc6806229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:57 +0000
Subject: [PATCH 17/22] fix: the seasonal fits use the year length of the
 data's own calendar

---
 src/momlevel/trend.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 778257e..280beca 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -357,6 +357,16 @@ def linear_detrend(xobj, dim="time", order=1, mode="remove"):
     return result
 
 
+def _days_in_year(time):
+    """Returns the length, in days, of the calendar year of each time step"""
+    calendar = time.dt.calendar
+    if calendar == "360_day":
+        return np.full(len(time), 360)
+    return np.array(
+        [366 if cftime.is_leap_year(x, calendar) else 365 for x in time.dt.year.values]
+    )
+
+
 def seasonal_model(da_timeseries, tcoord="time", return_model=False):
     """Function to calculate a seasonal cycle in a time series
     This function creates a modelled time series that includes
@@ -397,7 +407,7 @@ def seasonal_model(da_timeseries, tcoord="time", return_model=False):
     time_dec = (
         da_timeseries[tcoord].dt.year
         + (da_timeseries[tcoord].dt.dayofyear - 1 + da_timeseries[tcoord].dt.hour / 24)
-        / 365
+        / _days_in_year(da_timeseries[tcoord])
     )
 
     model = np.array(
@@ -768,14 +778,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
             arr = arr.chunk({tdim: len(arr[tdim])})
 
     # determine an array of the days in a year
-    daysinyear = np.array(
-        [
-            366 if x is True else 365
-            for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
-            ]
-        ]
-    )
+    daysinyear = _days_in_year(arr[tdim])
 
     # reorder the dimensions so that the time dimension is the last in the list
     if tdim in core_dims:
-- 
2.43.0


From 5296089eb73963432c25b3d3828c4f51b1adae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:29 +0000
Subject: [PATCH 18/22] fix: mark annual steric results for output in the
 requested data type

---
 src/momlevel/steric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 6deee08..273d700 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -180,6 +180,8 @@ def steric(
 
     if annual:
         result = annual_average(result, tcoord=tcoord)
+        for var in result.data_vars:
+            result[var].encoding["dtype"] = dtype
 
     return (result, reference)
 
-- 
2.43.0


From 70159605b0f3eecf83a2b5989d491650dee1fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:02 +0000
Subject: [PATCH 19/22] fix: keep the coordinate attributes of the inputs in
 density and spice calculations

xr.apply_ufunc drops attributes by default, and with the coordinates shared
between inputs and output it emptied those of the caller's arrays as well.
---
 src/momlevel/derived.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 9d90fb9..85ff25d 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -104,6 +104,7 @@ def calc_alpha(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     alpha.attrs = {
@@ -148,6 +149,7 @@ def calc_beta(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     beta.attrs = {
@@ -627,6 +629,7 @@ def calc_rho(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
     rho.attrs = {
@@ -700,6 +703,7 @@ def calc_spice(thetao, so):
         thetao,
         so,
         dask="allowed",
+        keep_attrs=True,
     )
 
     pi.attrs = {
-- 
2.43.0


From 13a24a863b329bcc3612b7acb812454b96d840da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:51 +0000
Subject: [PATCH 20/22] fix: give the Rossby radius and the wave speed a
 long_name

The attribute was spelled "long name", so neither result had the long_name
that plots, tables and all other diagnostics rely on.
---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 85ff25d..99e0b5d 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -589,7 +589,7 @@ def calc_rossby_rd(wave_speed, coriolis):
 
     radius = wave_speed / np.abs(coriolis)
     radius.attrs = {
-        "long name": "Rossby radius of deformation",
+        "long_name": "Rossby radius of deformation",
         "units": "m",
     }
     radius = radius.rename(None)
@@ -825,7 +825,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     result = xr.where(n2[0].isnull(), np.nan, result)
 
     result.attrs = {
-        "long name": "Ocean gravity wave speed of the first baroclinic mode",
+        "long_name": "Ocean gravity wave speed of the first baroclinic mode",
         "units": "m s-1",
     }
 
-- 
2.43.0


From 8df7a90be5173271f61df31f74975667d95fdc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:19 +0000
Subject: [PATCH 21/22] fix: the reference state keeps horizontal dimensions of
 size one

---
 src/momlevel/reference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/reference.py b/src/momlevel/reference.py
index ea44af3..53e89f2 100644
--- a/src/momlevel/reference.py
+++ b/src/momlevel/reference.py
@@ -56,15 +56,15 @@ def setup_reference_state(
     # initialize reference dataset
     reference = xr.Dataset()
 
-    # extract requested time level and squeeze the arrays
+    # extract requested time level
     reference["thetao"] = (
-        dset["thetao"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["thetao"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["so"] = (
-        dset["so"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["so"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["volcello"] = (
-        dset["volcello"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["volcello"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
 
     # calculate in situ reference density
-- 
2.43.0


From b789e7dd15cea43cd90bd3cf2f684b0603676140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:43 +0000
Subject: [PATCH 22/22] fix: deseason gives the coefficients of a single series

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 280beca..302aec4 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -606,7 +606,7 @@ def _detrend_deseason_chunk(chunk, axis=-1, daysinyear=365, output_format="resid
     if output_format == "coeff":
         # Reshape the chunk to 2D: (spatial_points, time)
         original_shape = chunk.shape
-        n_spatial_points = np.prod(original_shape[:-1])
+        n_spatial_points = np.prod(original_shape[:-1], dtype=int)
         chunk_2d = chunk.reshape(n_spatial_points, original_shape[-1])
 
         # Apply the function to each spatial point
-- 
2.43.0

