From 00f69d0ff7b6cd6c32db0723814ca64e18d946d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:49 +0000
Subject: [PATCH 01/26] fix: linear EOS alpha/beta were zero for integer
 temperatures

---
 src/momlevel/eos/linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/eos/linear.py b/src/momlevel/eos/linear.py
index 300ae72..bdad54a 100644
--- a/src/momlevel/eos/linear.py
+++ b/src/momlevel/eos/linear.py
@@ -8,8 +8,6 @@ __all__ = [
     "beta",
 ]
 
-import numpy as np
-
 # In a linear equation of state, the density derivatives are typically not
 # calculated and are fixed parameters.
 
@@ -133,7 +131,7 @@ def alpha(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return -1.0 * (np.full_like(T, fill_value=DRHO_DT) / density(T, S, p))
+    return -1.0 * (DRHO_DT / density(T, S, p))
 
 
 def beta(T, S, p):
@@ -159,4 +157,4 @@ def beta(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return np.full_like(T, fill_value=DRHO_DS) / density(T, S, p)
+    return DRHO_DS / density(T, S, p)
-- 
2.43.0


From f47a7e82c84b987e32ffd72a4a1cc8202d9800f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 02/26] fix: validate_dataset never noticed a time coordinate
 in a reference dataset

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 1b56c6a..451947a 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -727,7 +727,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
     if reference:
         try:
             assert "time" not in [
-                x.lower for x in list(dset.coords)
+                x.lower() for x in list(dset.coords)
             ], "Reference dataset cannot contain a time coordinate"
         except AssertionError as e:
             exceptions.append(e)
-- 
2.43.0


From b5ba197dc1d50ca26413c245dcb1b5af580ab83e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 03/26] fix: deseason modified the attributes of its input
 array

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 779af5d..333ab5e 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -741,8 +741,8 @@ def deseason(arr, tdim="time", output_format="residuals"):
     # this function only works on xarray DataArray objects
     assert isinstance(arr, xr.DataArray), "Input must be an xarray DataArray"
 
-    # store array attributes for reassignment at the end
-    attrs = arr.attrs
+    # copy array attributes for reassignment at the end
+    attrs = dict(arr.attrs)
 
     # check that the specified time dimension exists
     core_dims = list(arr.dims)
-- 
2.43.0


From bf37bc6f437764db8690276c272da74b190ec698 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 04/26] fix: deseason ignored tdim and failed for time
 dimensions not named time

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 333ab5e..fdbbe2c 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -773,7 +773,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         [
             366 if x is True else 365
             for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr.time.values)
+                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
             ]
         ]
     )
@@ -822,7 +822,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         result = result.assign_coords(coeff=coeff_coords)
         result = result.transpose("coeff", ...)
     else:
-        result = result.transpose("time", ...)
+        result = result.transpose(tdim, ...)
 
     # Calculate if original input array was not a dask array
     if keep_lazy is False:
-- 
2.43.0


From 0094a5164772f3ba6a08ff323124577447654474 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:25 +0000
Subject: [PATCH 05/26] fix: broadcast_trend(subtract_time_zero=True) failed
 for dimensions not named time

---
 src/momlevel/trend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index fdbbe2c..ebe0f34 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -106,8 +106,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Subtract first time step if asked to
     if subtract_time_zero:
-        tdim = "time"
-        result = result - result.isel({tdim: 0})
+        result = result - result.isel({dim_name: 0})
 
     return result
 
-- 
2.43.0


From ac4c9d89899dd04c08f84e8dd25c62a8a440e302 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:31 +0000
Subject: [PATCH 06/26] fix: seasonal_model ignored tcoord and failed for time
 coordinates not named time

---
 src/momlevel/trend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index ebe0f34..e273387 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -412,19 +412,19 @@ def seasonal_model(da_timeseries, tcoord="time", return_model=False):
 
     model_da = xr.DataArray(
         model,
-        dims=["coeff", "time"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=["coeff", tcoord],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     model_da = model_da.expand_dims(dim=hashable_coords)
 
     pmodel_da = xr.DataArray(
         pmodel,
-        dims=["time", "coeff"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=[tcoord, "coeff"],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     pmodel_da = pmodel_da.expand_dims(dim=hashable_coords)
 
-    mcoeff = pmodel_da.dot(da_timeseries, dims="time")
+    mcoeff = pmodel_da.dot(da_timeseries, dims=tcoord)
 
     smodel = model_da.dot(mcoeff, dims="coeff")
     residuals = da_timeseries - smodel
-- 
2.43.0


From 13eeccd5e1194249e4dee015b88d30f2a2010ba5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:35 +0000
Subject: [PATCH 07/26] fix: linear_detrend failed for data whose own units
 contain an inverse unit, e.g. m s-1

---
 src/momlevel/trend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index e273387..22c422e 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -186,7 +186,8 @@ def _detrend_array(arr, dim="time", order=1, mode="remove"):
     intercept = ds_trend[f"{varname}_intercept"]
 
     # construct the fitted line
-    fit_x = broadcast_trend(slope, arr[dim])
+    # (the slope is per ns here; the units of the data may contain other inverse units)
+    fit_x = broadcast_trend(slope.assign_attrs(units="ns-1"), arr[dim])
 
     if mode not in ["remove", "correct"]:
         raise ValueError(f"Unknown detrend mode '{mode}'")
-- 
2.43.0


From db006c459c4f11aa6e16df697c4b5878bd8c941e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:57 +0000
Subject: [PATCH 08/26] fix: time units of trends were ignored for datetime64
 time axes

---
 src/momlevel/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 22c422e..c905f51 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -3,6 +3,7 @@
 import warnings
 import cftime
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 from xarray.core.missing import get_clean_interp_index
@@ -56,7 +57,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Determine if we have time trend. If so, check the units and convert
     # to nanoseconds if necessary
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(dim_arr.indexes[dim_name], x) for x in time_indexes]):
         # Flag to throw default behavior warning
         warn_time_units = False
@@ -266,7 +267,7 @@ def calc_linear_trend(arr, dim="time", time_units=None):
     intercept = intercept.rename(f"{varname}_intercept")
 
     # determine slope units
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(arr.indexes[dim], x) for x in time_indexes]):
         time_units = "ns" if time_units is None else time_units
 
-- 
2.43.0


From ea5a8dcdfcd0ffd100af6dd8f2d6786fc32e19ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 09/26] fix: seasonal_cycle_model ignored a scalar daysinyear
 and its time went backwards at leap years

---
 src/momlevel/trend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index c905f51..a51f8ec 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -499,10 +499,11 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
     """
 
     time_length = ts.shape[0]
-    if isinstance(daysinyear, float) or isinstance(daysinyear, int):
-        time_dec = np.arange(time_length) / 365.0
-    else:
+    if np.ndim(daysinyear) == 0:
         time_dec = np.arange(time_length) / daysinyear
+    else:
+        # decimal years: each day advances time by the inverse of its year length
+        time_dec = np.cumsum(1.0 / daysinyear) - 1.0 / daysinyear[0]
 
     assert len(ts) == len(
         time_dec
-- 
2.43.0


From 800443fc1bfeecf1fc770d67f5d54eee56dfaa38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:42 +0000
Subject: [PATCH 10/26] fix: deseason assumed a 365-day year for the 360_day
 calendar

---
 src/momlevel/trend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index a51f8ec..05f25f9 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -773,10 +773,12 @@ def deseason(arr, tdim="time", output_format="residuals"):
     # determine an array of the days in a year
     daysinyear = np.array(
         [
-            366 if x is True else 365
-            for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
-            ]
+            (
+                360
+                if x.calendar == "360_day"
+                else 366 if cftime.is_leap_year(x.year, x.calendar) else 365
+            )
+            for x in list(arr[tdim].values)
         ]
     )
 
-- 
2.43.0


From 661ba0afef34431602017321b6c0aa0ed13cf7ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 11/26] fix: annual averages of data with a time coordinate not
 named time

---
 src/momlevel/steric.py | 2 +-
 src/momlevel/util.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index abe23cb..6deee08 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -179,7 +179,7 @@ def steric(
             result[var].attrs = dset[var].attrs
 
     if annual:
-        result = annual_average(result)
+        result = annual_average(result, tcoord=tcoord)
 
     return (result, reference)
 
diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 451947a..29b1ca8 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -87,8 +87,8 @@ def annual_average(xobj, tcoord="time"):
             groups[grp].weighted(groups[grp][tcoord].dt.days_in_month).mean(tcoord)
         )
 
-    result = xr.concat(_annuals, dim="time")
-    result = result.transpose("time", ...)
+    result = xr.concat(_annuals, dim=tcoord)
+    result = result.transpose(tcoord, ...)
 
     def _find_ann_midpoint(year, calendar=calendar):
         """finds the midpoint of the year along the time dimension"""
@@ -102,7 +102,7 @@ def annual_average(xobj, tcoord="time"):
         for x in dict(groups).keys()
     ]
 
-    result = result.assign_coords({"time": new_time_axis})
+    result = result.assign_coords({tcoord: new_time_axis})
 
     if isinstance(xobj, xr.core.dataset.Dataset):
         for var in list(result.variables):
-- 
2.43.0


From 76b61c866cf530048a4fd732cca8b54cbf9fba1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:51 +0000
Subject: [PATCH 12/26] fix: steric(annual=True) ignored the requested output
 dtype

---
 src/momlevel/steric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 6deee08..273d700 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -180,6 +180,8 @@ def steric(
 
     if annual:
         result = annual_average(result, tcoord=tcoord)
+        for var in result.data_vars:
+            result[var].encoding["dtype"] = dtype
 
     return (result, reference)
 
-- 
2.43.0


From 48fdb9ba8c71154477882c785d795836d534eaa6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:55 +0000
Subject: [PATCH 13/26] fix: averaging routines failed on string and datetime64
 variables instead of skipping them

---
 src/momlevel/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 29b1ca8..77ac7ee 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -73,7 +73,7 @@ def annual_average(xobj, tcoord="time"):
         variables = set(xobj.variables) - dim_coords
         _xobj = xr.Dataset()
         for var in variables:
-            if xobj[var].dtype not in ["object", "timedelta64[ns]"]:
+            if xobj[var].dtype.kind in "biufc":
                 _xobj[var] = xobj[var]
     else:
         _xobj = xobj
@@ -152,7 +152,7 @@ def annual_cycle(xobj, tcoord="time", func="mean", time_axis_year=None):
         variables = set(xobj.variables) - dim_coords
         _xobj = xr.Dataset()
         for var in variables:
-            if xobj[var].dtype not in ["object", "timedelta64[ns]"]:
+            if xobj[var].dtype.kind in "biufc":
                 _xobj[var] = xobj[var]
     else:
         _xobj = xobj
@@ -477,7 +477,7 @@ def monthly_average(xobj, tcoord="time"):
         variables = set(xobj.variables) - dim_coords
         _xobj = xr.Dataset()
         for var in variables:
-            if xobj[var].dtype not in ["object", "timedelta64[ns]"]:
+            if xobj[var].dtype.kind in "biufc":
                 _xobj[var] = xobj[var]
     else:
         _xobj = xobj
-- 
2.43.0


From 533c4ad0e439db984ea294c592aba33b9b3ee0e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:00 +0000
Subject: [PATCH 14/26] fix: geolocate_points ignored loc_coords when it
 assembled its result

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 77ac7ee..88c8784 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -361,8 +361,8 @@ def geolocate_points(
     df2["dim_vals"] = list(df1.index)
 
     # Clean up coordinates
-    df2["real_coords"] = list(zip(df2["lat"].values, df2["lon"].values))
-    df2 = df2.drop(["yrad", "xrad", "lat", "lon"], axis=1)
+    df2["real_coords"] = list(zip(df2[ycoord2].values, df2[xcoord2].values))
+    df2 = df2.drop(["yrad", "xrad", ycoord2, xcoord2], axis=1)
 
     return df2
 
-- 
2.43.0


From 30cc6fed0b327a2dd8588b647a1f1d83e9ea44e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:00 +0000
Subject: [PATCH 15/26] fix: density, dz and steric routines erased the
 coordinate attributes of their inputs

---
 src/momlevel/derived.py | 23 ++++++++++++++++-------
 src/momlevel/steric.py  |  5 ++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 67b61b9..33f49f2 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -52,11 +52,11 @@ def adjust_negative_n2(n2, zcoord="z_l"):
     """
 
     # save original data mask and attributes
-    mask = xr.where(n2.isnull(), np.nan, 1.0)
+    mask = xr.where(n2.isnull(), np.nan, 1.0, keep_attrs="override")
     attrs = n2.attrs
 
     # mask out negative values of N2
-    adjusted = xr.where(n2 <= 0.0, np.nan, n2)
+    adjusted = xr.where(n2 <= 0.0, np.nan, n2, keep_attrs="override")
 
     # set negative surface values of N^2 to 1.e-8
     adjusted[0] = adjusted[0].fillna(1.0e-8)
@@ -104,8 +104,10 @@ def calc_alpha(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
+    alpha = alpha.rename(None)
     alpha.attrs = {
         "long_name": "Thermal expansion coefficient",
         "comment": f"calculated with the {eos} equation of state",
@@ -148,8 +150,10 @@ def calc_beta(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
+    beta = beta.rename(None)
     beta.attrs = {
         "long_name": "Haline contraction coefficient",
         "comment": f"calculated with the {eos} equation of state",
@@ -309,17 +313,17 @@ def calc_dz(levels, interfaces, depth, top=0.0, bottom=None, fraction=False):
 
     # calculate partial cell based on bottom boundary
     part = depth - ztop
-    part = xr.where(part < 0.0, 0.0, part)
+    part = xr.where(part < 0.0, 0.0, part, keep_attrs="override")
     result = np.minimum(part, dz_field)
 
     # calculate partial cell based on top boundary
     part = zbot - top
-    part = xr.where(part < 0.0, 0.0, part)
+    part = xr.where(part < 0.0, 0.0, part, keep_attrs="override")
     result = np.minimum(part, result)
 
     if fraction:
-        _dz_field = xr.where(dz_field == 0, np.nan, dz_field)
-        _dz_part = xr.where(result == 0, np.nan, result)
+        _dz_field = xr.where(dz_field == 0, np.nan, dz_field, keep_attrs="override")
+        _dz_part = xr.where(result == 0, np.nan, result, keep_attrs="override")
         result = _dz_part / _dz_field
 
     return result
@@ -627,8 +631,10 @@ def calc_rho(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs=True,
     )
 
+    rho = rho.rename(None)
     rho.attrs = {
         "standard_name": "sea_water_density",
         "long_name": "In situ sea water density",
@@ -700,8 +706,10 @@ def calc_spice(thetao, so):
         thetao,
         so,
         dask="allowed",
+        keep_attrs=True,
     )
 
+    pi = pi.rename(None)
     pi.attrs = {
         "long_name": "Sea water spiciness",
         "comment": "calculated based on Flament 2002 methodology",
@@ -818,7 +826,8 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     """
 
     result = (np.sqrt(adjust_negative_n2(n2)) * dz).sum(zcoord) / np.pi
-    result = xr.where(n2[0].isnull(), np.nan, result)
+    result = xr.where(n2[0].isnull(), np.nan, result, keep_attrs="override")
+    result = result.rename(None)
 
     result.attrs = {
         "long name": "Ocean gravity wave speed of the first baroclinic mode",
diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 273d700..045546d 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -149,7 +149,10 @@ def steric(
     # otherwise calculate the change in density relative to the reference
     else:
         delta_rho = xr.where(
-            reference["volcello"].notnull(), rho - reference["rho"], np.nan
+            reference["volcello"].notnull(),
+            rho - reference["rho"],
+            np.nan,
+            keep_attrs="override",
         )
         delta_rho = delta_rho.transpose(tcoord, ...)
         delta_rho.attrs = {
-- 
2.43.0


From 037a171811ba4840dd0aa3fe603aca9d086d9f5e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:38 +0000
Subject: [PATCH 16/26] fix: calc_n2 and calc_wave_speed did not pass zcoord to
 the adjustment of negative values

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 33f49f2..87fe2fe 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -410,7 +410,7 @@ def calc_n2(
         "units": "s-2",
     }
 
-    n2 = adjust_negative_n2(n2) if adjust_negative else n2
+    n2 = adjust_negative_n2(n2, zcoord=zcoord) if adjust_negative else n2
 
     return n2
 
@@ -825,7 +825,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
         in units of m s-1
     """
 
-    result = (np.sqrt(adjust_negative_n2(n2)) * dz).sum(zcoord) / np.pi
+    result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
     result = xr.where(n2[0].isnull(), np.nan, result, keep_attrs="override")
     result = result.rename(None)
 
-- 
2.43.0


From 3839478c48545eff43991a672f15ca50519f57e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:02 +0000
Subject: [PATCH 17/26] fix: extract_tidegauge misplaced masks and coordinates
 whose dimensions are in a different order

---
 src/momlevel/tidegauge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index 3aec20e..4f9aecd 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -102,7 +102,7 @@ def extract_tidegauge(
 
     # Check that dimensions are the same for x/y coords
     _xdims = tuple(_xcoord.dims)
-    _ydims = tuple(_xcoord.dims)
+    _ydims = tuple(_ycoord.dims)
     assert _xdims == _ydims
 
     # Make sure mask does not have missing values
@@ -110,6 +110,10 @@ def extract_tidegauge(
     if mask.name != "mask":
         mask = mask.rename("mask")
 
+    # Rows are matched by position in the dimension order of the coordinates
+    if set(mask.dims) == set(_xdims):
+        mask = mask.transpose(*_xdims)
+
     # Create pandas.DataFrame of model coordinate info
     df_model = pd.concat(
         [
-- 
2.43.0


From d13325cdfdb6b238bbc1c1cd4fd9eb0af4e95e02 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:39 +0000
Subject: [PATCH 18/26] fix: steric calculations failed for grids with a
 dimension of length one

---
 src/momlevel/reference.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/momlevel/reference.py b/src/momlevel/reference.py
index ea44af3..ea79ebc 100644
--- a/src/momlevel/reference.py
+++ b/src/momlevel/reference.py
@@ -56,16 +56,12 @@ def setup_reference_state(
     # initialize reference dataset
     reference = xr.Dataset()
 
-    # extract requested time level and squeeze the arrays
-    reference["thetao"] = (
-        dset["thetao"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
-    )
-    reference["so"] = (
-        dset["so"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
-    )
-    reference["volcello"] = (
-        dset["volcello"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
-    )
+    # extract requested time level; only the time dimension is dropped since
+    # the other dimensions are valid even when they have a length of one
+    for var in ["thetao", "so", "volcello"]:
+        field = dset[var].isel({tcoord: time_index})
+        field = field.squeeze(tcoord) if tcoord in field.dims else field
+        reference[var] = field.reset_coords(drop=True)
 
     # calculate in situ reference density
     reference["rho"] = calc_rho(reference.thetao, reference.so, pres, eos=eos)
-- 
2.43.0


From a09bcdab4119b406fc08f43e97960d0ac807a85e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:03 +0000
Subject: [PATCH 19/26] fix: deseason(output_format="coeff") failed for
 one-dimensional series

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 05f25f9..6c6ed4f 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -599,7 +599,7 @@ def _detrend_deseason_chunk(chunk, axis=-1, daysinyear=365, output_format="resid
     if output_format == "coeff":
         # Reshape the chunk to 2D: (spatial_points, time)
         original_shape = chunk.shape
-        n_spatial_points = np.prod(original_shape[:-1])
+        n_spatial_points = int(np.prod(original_shape[:-1]))
         chunk_2d = chunk.reshape(n_spatial_points, original_shape[-1])
 
         # Apply the function to each spatial point
-- 
2.43.0


From 5f937d5e5607d333571d8ef6de71a40e161950a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:20 +0000
Subject: [PATCH 20/26] fix: Rossby radius and wave speed carried a misspelled
 long_name attribute

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 87fe2fe..f1b64cb 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -591,7 +591,7 @@ def calc_rossby_rd(wave_speed, coriolis):
 
     radius = wave_speed / np.abs(coriolis)
     radius.attrs = {
-        "long name": "Rossby radius of deformation",
+        "long_name": "Rossby radius of deformation",
         "units": "m",
     }
     radius = radius.rename(None)
@@ -830,7 +830,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     result = result.rename(None)
 
     result.attrs = {
-        "long name": "Ocean gravity wave speed of the first baroclinic mode",
+        "long_name": "Ocean gravity wave speed of the first baroclinic mode",
         "units": "m s-1",
     }
 
-- 
2.43.0


From 7e307e621d9ffc20cc8fed5388d1ffe3d5dc22bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:48 +0000
Subject: [PATCH 21/26] fix: calc_pv interpolated N2 by position when its
 labels were in another order

---
 src/momlevel/derived.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index f1b64cb..89b4808 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -545,7 +545,7 @@ def calc_pv(
         grid = util.get_xgcm_grid(_dset, coord_dict=coord_dict, symmetric=symmetric)
 
         # interpolate N2 to the corner points
-        n2 = grid.interp(n2, axis=["X", "Y"], boundary="fill")
+        n2 = grid.interp(_dset["n2"], axis=["X", "Y"], boundary="fill")
 
     # calculate potential vorticity
     swpotvort = (zeta + coriolis) * (n2 / gravity)
-- 
2.43.0


From f0b0aa3f82821cdb4bbeaf450618f8765e6555d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:58 +0000
Subject: [PATCH 22/26] fix: geolocate_points(disable_warning=False) failed
 without a distance threshold

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 88c8784..e499d6c 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -342,7 +342,7 @@ def geolocate_points(
     df2["distance"], df2["mod_index"] = ball.query(df2[["yrad", "xrad"]].values, k=1)
     df2["distance"] = df2["distance"] * rad_earth
 
-    if not disable_warning:
+    if not disable_warning and threshold is not None:
         df_missing = df2[df2["distance"] >= threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
-- 
2.43.0


From 9e60e78f8e21183a5bb026e1e03b68c2fd92f443 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:06 +0000
Subject: [PATCH 23/26] fix: geolocate_points warned about sites exactly at the
 threshold although they are mapped

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index e499d6c..fe9993a 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -343,7 +343,7 @@ def geolocate_points(
     df2["distance"] = df2["distance"] * rad_earth
 
     if not disable_warning and threshold is not None:
-        df_missing = df2[df2["distance"] >= threshold]
+        df_missing = df2[df2["distance"] > threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
                 warnings.warn(
-- 
2.43.0


From 0924978e873f41c1f90b8499ff8291d036c8b4ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:10 +0000
Subject: [PATCH 24/26] fix: validate_dataset reported areacello when rho has
 the wrong number of dimensions

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index fe9993a..b40d729 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -797,7 +797,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
             try:
                 assert (
                     len(dset["rho"].dims) == 3
-                ), "Variable areacello must have exactly 3 dimensions (z,y,x)"
+                ), "Variable rho must have exactly 3 dimensions (z,y,x)"
             except AssertionError as e:
                 exceptions.append(e)
 
-- 
2.43.0


From b17a6bbe9268b94baa01aafa5ae76f7aa0c81e32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:25 +0000
Subject: [PATCH 25/26] fix: calc_n2 on interfaces always failed because the
 vertical axis was declared periodic

---
 src/momlevel/derived.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 89b4808..fcef097 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -393,7 +393,7 @@ def calc_n2(
 
     if interfaces is not None:
         _ds = xr.Dataset({"thetao": thetao, "so": so})
-        grid = xgcm.Grid(_ds, coords={"Z": {"center": zcoord}})
+        grid = xgcm.Grid(_ds, coords={"Z": {"center": zcoord}}, periodic=False)
         thetao = grid.transform(thetao, "Z", interfaces, method="linear")
         so = grid.transform(so, "Z", interfaces, method="linear")
         zcoord = interfaces.name
-- 
2.43.0


From 4caf6467991c5f3f2e6b571871ae57d543b74d86 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:58 +0000
Subject: [PATCH 26/26] fix: calc_pv ignored interp_n2 given as a NumPy boolean

The flag was compared with 'is True', so numpy.True_ (and 1) silently
skipped the interpolation of N2 to the corner points.
---
 src/momlevel/derived.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index fcef097..d3df675 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -539,7 +539,7 @@ def calc_pv(
     calc_rel_vort : Calculate relative vorticity (zeta)
     """
 
-    if interp_n2 is True:
+    if interp_n2:
         # create an internal dataset for xgcm purposes
         _dset = xr.Dataset({"zeta": zeta, "coriolis": coriolis, "n2": n2})
         grid = util.get_xgcm_grid(_dset, coord_dict=coord_dict, symmetric=symmetric)
-- 
2.43.0

