From df7b6b22717230630bfb3ba65810b21341a062cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 01/31] fix: pci gives February its own days

The second cumulative month bound was February's length instead of the
day of year on which February ends, so Jan. 30-31 were counted twice and
February's rain was merged into March.
---
 src/climate_indices/indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index fc7118a..1a9afd0 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -535,7 +535,7 @@ def pci(
 
     # make sure we're not dealing with a NaN or out-of-range or less than the expected rainfall value
     if len(rainfall_mm) == 366 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 29, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
+        m = [31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
         start = 0
         numerator = 0
         denominator = 0
@@ -549,7 +549,7 @@ def pci(
         return np.array([(numerator / (denominator**2)) * 100])
 
     if len(rainfall_mm) == 365 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 28, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
+        m = [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
         start = 0
         numerator = 0
         denominator = 0
-- 
2.43.0


From 424d732af9f1f8ec4e6416709cb91314f709d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 02/31] fix: do not overwrite the caller's input arrays

Fitting a gamma distribution turned the zeros of the caller's array into
NaN, and Thornthwaite PET turned its negative temperatures into zero. In
the spi script, which fits on views of shared memory, this made later
scales and distributions see zeros as missing values.
---
 src/climate_indices/compute.py | 6 ++++--
 src/climate_indices/eto.py     | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index df766f9..ba9c260 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -681,7 +681,8 @@ def gamma_parameters(
     # validate (and possibly reshape) the input array
     values = _validate_array(values, periodicity)
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs, in a copy so that the caller's array is left as it was
+    values = values.astype(float)
     values[values == 0] = np.nan
 
     # determine the end year of the values array
@@ -804,7 +805,8 @@ def transform_fitted_gamma(
     zeros = (values == 0).sum(axis=0)
     probabilities_of_zero = zeros / values.shape[0]
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs, in a copy so that the caller's array is left as it was
+    values = values.astype(float)
     values[values == 0] = np.nan
 
     # compute fitting parameters if none were provided
diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index d723780..f31f5b5 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -249,6 +249,8 @@ def eto_thornthwaite(
     # TODO this sometimes throws a RuntimeWarning for invalid value,
     #  perhaps as a result of a NaN, somehow use masking and/or NaN
     #  pre-check to eliminate the cause of this warning
+    # (in a copy so that the caller's array is left as it was)
+    monthly_temps_celsius = monthly_temps_celsius.copy()
     monthly_temps_celsius[monthly_temps_celsius < 0] = 0.0
 
     # mean the monthly temperature values over the month axis,
-- 
2.43.0


From 486ff9aa10a2e7c817d73577ea81527e44c097fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 03/31] fix: clip negative precipitation when values are
 missing too

np.amin is NaN as soon as one value is missing, and the comparison with
zero then never asks for the clipping.
---
 src/climate_indices/compute.py | 2 +-
 src/climate_indices/indices.py | 4 ++--
 src/climate_indices/palmer.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index ba9c260..577a6e9 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -736,7 +736,7 @@ def scale_values(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.nanmin(values) < 0.0:
         _logger.warn("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 1a9afd0..f652a3e 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -125,7 +125,7 @@ def spi(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.nanmin(values) < 0.0:
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
@@ -270,7 +270,7 @@ def spei(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips_mm) < 0.0:
+    if np.nanmin(precips_mm) < 0.0:
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         precips_mm = np.clip(precips_mm, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 39d8a26..7081112 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -867,7 +867,7 @@ def pdsi(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips) < 0.0:
+    if np.nanmin(precips) < 0.0:
         _logger.warning(
             "Input contains negative values -- all negatives clipped to zero"
         )
-- 
2.43.0


From e947e39ee6a9ddb97ccda43f7951b7b4e05d9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 04/31] fix: pet accepts latitudes of exactly 90 degrees north
 or south

The documented valid range is inclusive.
---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index f652a3e..ba51585 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -494,7 +494,7 @@ def pet(
         latitude_degrees = latitude_degrees.flat[0]
 
     # make sure we're not dealing with a NaN or out-of-range latitude value
-    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 < latitude_degrees < 90.0):
+    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 <= latitude_degrees <= 90.0):
         # compute and return the PET values using Thornthwaite's equation
         return eto.eto_thornthwaite(
             temperature_celsius,
-- 
2.43.0


From 3a1876e9772ed72e7e49acc4fe087d57c453265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 05/31] fix: eto_hargreaves accepts arrays of equal size

The size check compared a size with arrays, which raises for any arrays
of more than one value, and only the mean temperatures of 1-D inputs were
reshaped to years.
---
 src/climate_indices/eto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index f31f5b5..5f94de9 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -315,7 +315,7 @@ def eto_hargreaves(
     """
 
     # validate the input data arrays
-    if daily_tmin_celsius.size != daily_tmax_celsius != daily_tmean_celsius:
+    if not (daily_tmin_celsius.size == daily_tmax_celsius.size == daily_tmean_celsius.size):
         message = "Incompatible array sizes"
         _logger.error(message)
         raise ValueError(message)
@@ -324,6 +324,8 @@ def eto_hargreaves(
     original_length = daily_tmean_celsius.size
 
     # reshape to 2-D with 366 days per year, if not already in this shape
+    daily_tmin_celsius = utils.reshape_to_2d(daily_tmin_celsius, 366)
+    daily_tmax_celsius = utils.reshape_to_2d(daily_tmax_celsius, 366)
     daily_tmean_celsius = utils.reshape_to_2d(daily_tmean_celsius, 366)
 
     # at this point we assume that our dataset array has shape (years, 366)
-- 
2.43.0


From 8ecf361c6ec73860741d1391921eb896c91d74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 06/31] fix: the last year of the data is not the year after it

A calibration period ending in the year after the last year of the data
was taken to lie within the data, and was silently cut short instead of
being replaced with the full period of record.
---
 src/climate_indices/compute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 577a6e9..d523196 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -290,7 +290,7 @@ def pearson_parameters(
     """
     values = reshape_values(values, periodicity)
     time_steps_per_year = validate_values_shape(values)
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
     calibration_start_year, calibration_end_year = adjust_calibration_years(
         data_start_year, data_end_year, calibration_start_year, calibration_end_year
     )
@@ -612,7 +612,7 @@ def transform_fitted_pearson(
     # compute the Pearson Type III fitting values if none were provided
     if any(param_arg is None for param_arg in pearson_param_args):
         # determine the end year of the values array
-        data_end_year = data_start_year + values.shape[0]
+        data_end_year = data_start_year + values.shape[0] - 1
 
         # make sure that we have data within the full calibration period,
         # otherwise use the full period of record
@@ -686,7 +686,7 @@ def gamma_parameters(
     values[values == 0] = np.nan
 
     # determine the end year of the values array
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
 
     # make sure that we have data within the full calibration period,
     # otherwise use the full period of record
-- 
2.43.0


From 93cb8e1232a229c1bc41b11c5b813c862b242bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 07/31] fix: sliding sums over a scale longer than the data are
 all missing

np.convolve swaps its arguments when the second is the longer one, so
that the result had the wrong length and contained meaningless sums.
---
 src/climate_indices/compute.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index d523196..37e84dc 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -150,6 +150,11 @@ def sum_to_scale(
     if scale == 1:
         return values
 
+    # no window of this size fits into the array, and
+    # np.convolve would swap the two arrays' roles
+    if scale > values.size:
+        return np.full(values.shape, np.nan)
+
     # get the valid sliding summations with 1D convolution
     sliding_sums = np.convolve(values, np.ones(scale), mode="valid")
 
-- 
2.43.0


From c9cacd3eddbecc1dcc70f201da8234572cdc3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 08/31] fix: get_tolerance supports a coordinate of a single
 value

SPEI of a grid with a single row or column failed to validate with
'zero-size array to reduction operation minimum'.
---
 src/climate_indices/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 74dac1a..ffa35a9 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -115,7 +115,9 @@ def get_tolerance(dim: np.ndarray) -> float:
     derived from (smallest) absolute grid size along dimension dim.
     Always greater than zero.
     """
-    tol = np.abs(np.diff(dim)).min() / 10
+    deltas = np.abs(np.diff(dim))
+    # a single coordinate value has no grid size to derive a tolerance from
+    tol = (deltas.min() if deltas.size > 0 else np.float64(0.0)) / 10
     return max(tol, np.finfo(tol.dtype).resolution)
 
 
-- 
2.43.0


From 0851886e786641b2366abd7a3df5dcb5bb27f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 09/31] fix: pdsi keeps room for more than 40 undecided months

The arrays of months that await backtracking were grown too late, so that
pdsi raised an IndexError after 40 undecided months.
---
 src/climate_indices/palmer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 7081112..b29f273 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -535,7 +535,7 @@ def _statement_200(data: dict) -> None:
     # At that time, the assign method backtracs through choosing
     # the appropriate x1 or x2 to be that month's x.
     #_logger.debug(f"no value assigned; will backtrack later k8:{data['k8']},y:{year},m:{month}")
-    if data["k8"] >= data["sx"].shape[0]+1:
+    if data["k8"] >= data["sx"].shape[0] - 1:
         vals = [0] * (data["k8"] - data["sx"].shape[0] + 2)
         data["sx"] = np.append(data["sx"], vals)
         data["sx1"] = np.append(data["sx1"], vals)
-- 
2.43.0


From 6b4b6594473579c67cc383347e4ccae431e22c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 10/31] fix: do not split a single time series between worker
 processes

The chunks given to the workers were pieces of the time axis, each of
which was then treated as a record starting in the first year of the data,
so that the result depended on the number of worker processes.
---
 src/climate_indices/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4e0eceb..61450fa 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1172,6 +1172,9 @@ def _parallel_process(
     # if there are fewer chunks than the available number of processes
     # then only create the necessary number of tasks
     required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
+    # the only axis of a single time series is time, which can't be split
+    if input_type == InputType.timeseries:
+        required_processes = 1
     d, m = divmod(shape[0], required_processes)
     split_indices = list(range(0, ((d + 1) * (m + 1)), (d + 1)))
     if d != 0:
-- 
2.43.0


From cba8e28154dff0959860d87d833df254d107e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 11/31] fix: use at least one worker process on a single-CPU
 machine

All but one of one CPU is no worker process at all, and the default
multiprocessing option failed with a ZeroDivisionError.
---
 src/climate_indices/__main__.py | 4 ++--
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 61450fa..e864c53 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -16,7 +16,7 @@ import xarray as xr
 from climate_indices import compute, indices, utils
 
 # the number of worker processes we'll use for process pools
-_NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+_NUMBER_OF_WORKER_PROCESSES = max(multiprocessing.cpu_count() - 1, 1)
 # shared memory array dictionary keys
 _KEY_ARRAY = "array"
 _KEY_SHAPE = "shape"
@@ -1634,7 +1634,7 @@ def process_climate_indices(
         elif arguments.multiprocessing == "all":
             _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+            _NUMBER_OF_WORKER_PROCESSES = max(multiprocessing.cpu_count() - 1, 1)
 
         # compute SPI if specified
         if arguments.index in ["spi", "scaled", "all"]:
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 0f4bfc9..54ee5cc 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -1408,7 +1408,7 @@ def main():  # type: () -> None
         elif arguments.multiprocessing == "all":
             number_of_workers = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            number_of_workers = multiprocessing.cpu_count() - 1
+            number_of_workers = max(multiprocessing.cpu_count() - 1, 1)
 
         # prepare precipitation NetCDF in case dimensions not (lat, lon, time) or if any coordinates are descending
         netcdf_precip = _prepare_file(arguments.netcdf_precip, arguments.var_name_precip)
-- 
2.43.0


From 99124e608f49610222503deb29cedd59a1adbd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 12/31] fix: allocate the result array anew for each
 computation

A second run within the same process kept the array of the first, and
failed or wrote misplaced values when the shape of its input differed.
---
 src/climate_indices/__main__.py | 10 +++++-----
 src/climate_indices/__spi__.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index e864c53..2f8c932 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -993,11 +993,11 @@ def _compute_write_index(keyword_arguments):
 
     else:
         # add an array to hold results to the dictionary of arrays
-        if _KEY_RESULT not in _global_shared_arrays:
-            _global_shared_arrays[_KEY_RESULT] = {
-                _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
-                _KEY_SHAPE: output_shape,
-            }
+        # (a new one, since the shape of an earlier computation's may differ)
+        _global_shared_arrays[_KEY_RESULT] = {
+            _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
+            _KEY_SHAPE: output_shape,
+        }
 
         if keyword_arguments["index"] in ["spi", "pnp"]:
             # apply the SPI function along the time axis (axis=2)
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 54ee5cc..7a058b9 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -633,11 +633,11 @@ def _compute_write_index(keyword_arguments):
 
     # add an array to hold index computation results
     # to our dictionary of shared memory arrays
-    if _KEY_RESULT not in _global_shared_arrays:
-        _global_shared_arrays[_KEY_RESULT] = {
-            _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
-            _KEY_SHAPE: output_shape,
-        }
+    # (a new one, since the shape of an earlier computation's may differ)
+    _global_shared_arrays[_KEY_RESULT] = {
+        _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
+        _KEY_SHAPE: output_shape,
+    }
 
     for scale in keyword_arguments["scales"]:
         for distribution in [indices.Distribution.gamma, indices.Distribution.pearson]:
-- 
2.43.0


From c56bb0fde13c8b35ea5abafd1d813c8c5a3e6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 13/31] fix: do not write the computed PET file into the
 caller's arguments

A second run with the same arguments was rejected for having both a
temperature and a PET file.
---
 src/climate_indices/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 2f8c932..6ef2c15 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1625,6 +1625,9 @@ def process_climate_indices(
     # ...
 
     try:
+        # the PET file we may compute is an argument to us alone, not to a later run of the caller
+        arguments = argparse.Namespace(**vars(arguments))
+
         # validate the arguments and determine the input type
         input_type = _validate_args(arguments)
 
-- 
2.43.0


From eec79463d982f2790c444014e078e263c11f4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:09 +0000
Subject: [PATCH 14/31] fix: do not outer-join coordinates that match within
 the tolerance

Coordinates of the input files are validated as matching within a tolerance,
but then joined as if they had to be equal, so that grid cells whose
coordinates differ slightly were treated as different cells.
---
 src/climate_indices/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 6ef2c15..8689f3a 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -710,7 +710,8 @@ def _compute_write_index(keyword_arguments):
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
     # Since multiple variables can be in the same file, de-duplicate the filelist.
-    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks)
+    # Coordinates were validated as matching within a tolerance, they're not to be joined as different ones.
+    dataset = xr.open_mfdataset(list(dict.fromkeys(files)), chunks=chunks, join="override")
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
-- 
2.43.0


From f7ba05bfbb6bb1e70968c3dea18bca7e3aae156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 15/31] fix: reorder dimensions before computing along the
 final axis

Inputs whose time dimension comes first are accepted, and the documentation
of _prepare_file promises a temporary file with reordered dimensions, but
none was made: such grids failed, and such climate divisions were silently
processed along the wrong axis.
---
 src/climate_indices/__main__.py | 11 +++++++++++
 src/climate_indices/__spi__.py  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 8689f3a..e3168e8 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -7,6 +7,7 @@ from enum import Enum
 import logging
 import multiprocessing
 import os
+import tempfile
 from typing import Any, Dict, List, Tuple
 
 import numpy as np
@@ -1474,6 +1475,16 @@ def _prepare_file(
         _logger.error(message)
         raise ValueError(message)
 
+    # write the variable to a temporary file if its dimensions need to be reordered
+    if dimensions != expected_dims:
+        var_names = [var_name] + [name for name in ds.data_vars if name == "lat"]
+        ds = ds[var_names].transpose(..., *expected_dims)
+        for variable in ds.variables.values():
+            variable.encoding.pop("chunksizes", None)
+        file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
+        os.close(file_descriptor)
+        ds.to_netcdf(netcdf_file)
+
     return netcdf_file
 
 
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 7a058b9..db2119c 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -8,6 +8,7 @@ from enum import Enum
 import logging
 import multiprocessing
 import os
+import tempfile
 from typing import Dict, List
 
 import numpy as np
@@ -1296,6 +1297,16 @@ def _prepare_file(netcdf_file, var_name):
         _logger.error(message)
         raise ValueError(message)
 
+    # write the variable to a temporary file if its dimensions need to be reordered
+    if dimensions != expected_dims:
+        var_names = [var_name] + [name for name in ds.data_vars if name == "lat"]
+        ds = ds[var_names].transpose(..., *expected_dims)
+        for variable in ds.variables.values():
+            variable.encoding.pop("chunksizes", None)
+        file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
+        os.close(file_descriptor)
+        ds.to_netcdf(netcdf_file)
+
     return netcdf_file
 
 
-- 
2.43.0


From 17e3edfc8b4f5d873ff1c1cf6966018a3c3edb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 16/31] fix: compute SPEI for a single time series

Precipitation and PET files with a single time series are accepted as
inputs, but every worker then failed with 'Unsupported input type'.
---
 src/climate_indices/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index e3168e8..d7efd6c 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1355,6 +1355,10 @@ def _apply_along_axis_double(
     output_array = _global_shared_arrays[params["output_var_name"]][_KEY_ARRAY]
     computed_array = np.frombuffer(output_array.get_obj()).reshape(shape)[start_index:end_index]
 
+    if (params["input_type"] == InputType.timeseries) and (params["index"] == "spei"):
+        computed_array[:] = func1d(sub_array_1, sub_array_2, parameters=params["args"])
+        return
+
     for i, (x, y) in enumerate(zip(sub_array_1, sub_array_2)):
         if params["input_type"] == InputType.grid:
             for j in range(x.shape[0]):
-- 
2.43.0


From 56cb295a71a58581236e368f154dc01b9eb5a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 17/31] fix: percentage_of_normal refuses too long a daily
 calibration period

The length of the calibration period was compared with the data as if every
series were monthly.
---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index ba51585..f24d406 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -416,7 +416,7 @@ def percentage_of_normal(
             "Invalid start year arguments (data and/or calibration): "
             "calibration start year is before the data start year",
         )
-    if ((calibration_end_year - calibration_start_year + 1) * 12) > values.size:
+    if ((calibration_end_year - calibration_start_year + 1) * periodicity) > values.size:
         raise ValueError(
             "Invalid calibration period specified: total calibration years "
             "exceeds the actual number of years of data",
-- 
2.43.0


From acd9dbd2c3020b6bbbd087b4ffbe6feb64fbcab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 18/31] fix: refuse an empty list of scales

---
 src/climate_indices/__main__.py | 2 +-
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index d7efd6c..d74130d 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -432,7 +432,7 @@ def _validate_args(args):
                     raise ValueError(msg)
 
     if args.index in ["spi", "spei", "scaled", "pnp"]:
-        if args.scales is None:
+        if not args.scales:
             msg = (
                 "Scaled indices (SPI, SPEI, and/or PNP) specified without "
                 + "including one or more time scales (missing --scales argument)"
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index db2119c..4ba9ffb 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -187,7 +187,7 @@ def _validate_args(args):
             "precipitation",
         )
 
-    if args.scales is None:
+    if not args.scales:
         msg = "Missing one or more time scales (missing --scales argument)"
         _logger.error(msg)
         raise ValueError(msg)
-- 
2.43.0


From b615bac8f594f6a9185253da675da1470132f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 19/31] fix: refuse to compute the PET for SPEI from daily
 temperatures

---
 src/climate_indices/__main__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index d74130d..fccdceb 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -279,6 +279,15 @@ def _validate_args(args):
             _logger.error(msg)
             raise ValueError(msg)
 
+        elif args.periodicity is not compute.Periodicity.monthly:
+            # PET can only be computed from monthly temperatures
+            msg = (
+                "Invalid periodicity argument for PET: "
+                + f"'{args.periodicity}' -- only 'monthly' is supported"
+            )
+            _logger.error(msg)
+            raise ValueError(msg)
+
         else:
             # validate the temperature file
             with xr.open_dataset(args.netcdf_temp) as dataset_temp:
-- 
2.43.0


From 4fc356a1c73988ecdaa837574d0bedc85ff785d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 20/31] fix: convert whole-number amounts in inches to
 millimeters

---
 src/climate_indices/__main__.py | 4 ++--
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index fccdceb..928265b 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -772,7 +772,7 @@ def _compute_write_index(keyword_arguments):
         if precip_unit not in ("mm", "millimeters", "millimeter", "mm/dy"):
             if precip_unit in ("inches", "inch"):
                 # inches to mm conversion (1 inch == 25.4 mm)
-                dataset[precip_var_name].values *= 25.4
+                dataset[precip_var_name].values = dataset[precip_var_name].values * 25.4
             else:
                 raise ValueError(f"Unsupported precipitation units: {precip_unit}")
 
@@ -804,7 +804,7 @@ def _compute_write_index(keyword_arguments):
         if pet_unit not in ("mm", "millimeters", "millimeter"):
             if pet_unit in ("inches", "inch"):
                 # inches to mm conversion (1 inch == 25.4 mm)
-                dataset[pet_var_name].values *= 25.4
+                dataset[pet_var_name].values = dataset[pet_var_name].values * 25.4
             else:
                 raise ValueError(f"Unsupported PET units: {dataset[pet_var_name].units}")
 
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 4ba9ffb..b58129e 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -600,7 +600,7 @@ def _compute_write_index(keyword_arguments):
         if precip_unit not in ("mm", "millimeters", "millimeter", "mm/dy"):
             if precip_unit in ("inches", "inch"):
                 # inches to mm conversion (1 inch == 25.4 mm)
-                ds_precip[precip_var_name].values *= 25.4
+                ds_precip[precip_var_name].values = ds_precip[precip_var_name].values * 25.4
             else:
                 raise ValueError(f"Unsupported precipitation units: {precip_unit}")
 
-- 
2.43.0


From 32044b0f32346b8dcdbd93d6209f7f7a810b7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 21/31] fix: write daily results when the last year of the
 input is unfinished

---
 src/climate_indices/__main__.py |  2 +-
 src/climate_indices/__spi__.py  | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 928265b..b0f8d48 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1080,7 +1080,7 @@ def _compute_write_index(keyword_arguments):
                 len(output_dims) - 1,
                 index_values,
                 keyword_arguments["data_start_year"],
-            )
+            )[..., : len(dataset["time"])]
 
         # create a new variable to contain the index values, assign into the dataset
         variable = xr.Variable(
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index b58129e..f37ef62 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -621,14 +621,8 @@ def _compute_write_index(keyword_arguments):
     if keyword_arguments["periodicity"] == compute.Periodicity.monthly:
         output_shape = ds_precip[keyword_arguments["var_name_precip"]].shape
     elif keyword_arguments["periodicity"] == compute.Periodicity.daily:
-        # TODO convert the data to 366 days in order to
-        #  get the correct intermediate output shape
-        time_length_366day = utils.gregorian_length_as_366day(len(ds_precip["time"]), data_start_year)
-        output_shape = (
-            len(ds_precip["lat"]),
-            len(ds_precip["lon"]),
-            time_length_366day,
-        )
+        # the shape of the data converted into whole years of 366 days
+        output_shape = _global_shared_arrays[keyword_arguments["var_name_precip"]][_KEY_SHAPE]
     else:
         raise ValueError(f'Unsupported periodicity argument value: {keyword_arguments["periodicity"]}')
 
@@ -759,7 +753,7 @@ def build_dataset_spi_grid(
             len(ds_example.dims) - 1,
             index_values,
             data_start_year,
-        )
+        )[..., : len(ds_example["time"])]
 
     # create a new variable to contain the SPI values, assign into the dataset
     var_attrs = _get_variable_attributes(distribution, scale, periodicity)
@@ -810,7 +804,7 @@ def build_dataset_spi_divisions(
             len(ds_example.dims) - 1,
             index_values,
             data_start_year,
-        )
+        )[..., : len(ds_example["time"])]
 
     # create a new variable to contain the SPI values, assign into the dataset
     var_attrs = _get_variable_attributes(distribution, scale, periodicity)
-- 
2.43.0


From 57120a29f3d7f0dcce3cd596f87d9c9b62f133f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 22/31] fix: spi accepts coordinates without units

---
 src/climate_indices/__spi__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index f37ef62..af5918e 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -430,10 +430,10 @@ def build_dataset_fitting_grid(
         "example usage.",
         "geospatial_lat_min": float(np.amin(ds_example.lat)),
         "geospatial_lat_max": float(np.amax(ds_example.lat)),
-        "geospatial_lat_units": ds_example.lat.units,
+        "geospatial_lat_units": ds_example.lat.attrs.get("units", "degrees_north"),
         "geospatial_lon_min": float(np.amin(ds_example.lon)),
         "geospatial_lon_max": float(np.amax(ds_example.lon)),
-        "geospatial_lon_units": ds_example.lon.units,
+        "geospatial_lon_units": ds_example.lon.attrs.get("units", "degrees_east"),
     }
     times = np.array(range(period_times))
     time_coord = periodicity.unit()
@@ -726,10 +726,10 @@ def build_dataset_spi_grid(
         f"{_GITHUB_URL}.",
         "geospatial_lat_min": float(np.amin(ds_example.lat)),
         "geospatial_lat_max": float(np.amax(ds_example.lat)),
-        "geospatial_lat_units": ds_example.lat.units,
+        "geospatial_lat_units": ds_example.lat.attrs.get("units", "degrees_north"),
         "geospatial_lon_min": float(np.amin(ds_example.lon)),
         "geospatial_lon_max": float(np.amax(ds_example.lon)),
-        "geospatial_lon_units": ds_example.lon.units,
+        "geospatial_lon_units": ds_example.lon.attrs.get("units", "degrees_east"),
     }
     coords = {
         "lat": ds_example.lat,
-- 
2.43.0


From 9e2b0dbaa9ee4fd4847ce088a9550c483cb7de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 23/31] fix: compute the PET asked for although a PET file is
 given too

---
 src/climate_indices/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index b0f8d48..686b9cd 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1695,8 +1695,8 @@ def process_climate_indices(
                 os.remove(netcdf_precip)
 
         if arguments.index in ["pet", "spei", "scaled", "palmers", "all"]:
-            # run PET computation only if we've not been provided with a PET file
-            if arguments.netcdf_pet is None:
+            # run PET computation if it's asked for, or if needed and we've not been provided with a PET file
+            if arguments.index == "pet" or arguments.netcdf_pet is None:
                 # prepare temperature NetCDF in case dimensions not (lat, lon, time)
                 # or if coordinates are descending
                 netcdf_temp = _prepare_file(arguments.netcdf_temp, arguments.var_name_temp)
-- 
2.43.0


From 515894713862d878a07976057e376e628c9dd58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 24/31] fix: pad whole-number series of an unfinished year

---
 src/climate_indices/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index ffa35a9..fa54a8f 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -228,6 +228,9 @@ def reshape_to_2d(
     final_year_values = shape[0] % second_axis_length
     if final_year_values > 0:
         pads = second_axis_length - final_year_values
+        if values.dtype.kind in "iu":
+            # integers can't be padded with missing values
+            values = values.astype(float)
         values = np.pad(values, pad_width=(0, pads), mode="constant", constant_values=np.nan)
 
     # we should have an ordinal number of years now
-- 
2.43.0


From 02e28cc7f8a819596ea50c6ee6de3c090c9d10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 25/31] fix: the unfinished last year of daily data may end
 before March

---
 src/climate_indices/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index fa54a8f..0502790 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -351,6 +351,12 @@ def transform_to_366day(
     # including a faux Feb 29 for non-leap years
     all_leap = np.full((total_years * 366,), np.nan)
 
+    # the final year may be an unfinished common year, its remaining days are missing
+    year_lengths = [366 if calendar.isleap(year_start + i) else 365 for i in range(total_years)]
+    unfinished = sum(year_lengths) - len(original)
+    if year_lengths and year_lengths[-1] == 365 and 0 < unfinished < 365:
+        original = np.pad(original.astype(float), (0, unfinished), mode="constant", constant_values=np.nan)
+
     # index of the first day of the year within the original and all_leap arrays
     original_index = 0
     all_leap_index = 0
-- 
2.43.0


From e1b89925af50aaf0c8538d363b57e86c787f54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 26/31] fix: compute daily indices for climate divisions

---
 src/climate_indices/__main__.py | 36 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 686b9cd..34d3ffd 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -638,12 +638,16 @@ def _drop_data_into_shared_arrays_grid(
 def _drop_data_into_shared_arrays_divisions(
     dataset: xr.Dataset,
     var_names: List[str],
+    periodicity: compute.Periodicity,
+    data_start_year: int,
 ) -> Tuple[int, ...]:
     """
     Drop data into shared arrays for use in the index computations.
 
     :param dataset:
     :param var_names:
+    :param periodicity: daily values are converted into 366-day years
+    :param data_start_year: initial year of the data
     :return:
     """
     output_shape = None
@@ -665,21 +669,34 @@ def _drop_data_into_shared_arrays_divisions(
             _logger.error(message)
             raise ValueError(message)
 
+        # convert daily values into 366-day years
+        var_values = dataset[var_name].values
+        if (periodicity == compute.Periodicity.daily) and (len(dims) == 2):
+            initial_year = int(str(dataset["time"][0].data)[0:4])
+            final_year = int(str(dataset["time"][-1].data)[0:4])
+            var_values = np.apply_along_axis(
+                utils.transform_to_366day,
+                len(dims) - 1,
+                var_values,
+                data_start_year,
+                final_year - initial_year + 1,
+            )
+
         # create a shared memory array, wrap it as a numpy array and
         # copy the data (values) from this variable's DataArray
-        shared_array = multiprocessing.Array("d", int(np.prod(dataset[var_name].shape)))
-        shared_array_np = np.frombuffer(shared_array.get_obj()).reshape(dataset[var_name].shape)
-        np.copyto(shared_array_np, dataset[var_name].values)
+        shared_array = multiprocessing.Array("d", int(np.prod(var_values.shape)))
+        shared_array_np = np.frombuffer(shared_array.get_obj()).reshape(var_values.shape)
+        np.copyto(shared_array_np, var_values)
 
         # add to the dictionary of arrays
         _global_shared_arrays[var_name] = {
             _KEY_ARRAY: shared_array,
-            _KEY_SHAPE: dataset[var_name].shape,
+            _KEY_SHAPE: var_values.shape,
         }
 
         # we know we'll want the output for divisions to be 2-D
-        if len(dataset[var_name].shape) == 2:
-            output_shape = dataset[var_name].shape
+        if len(var_values.shape) == 2:
+            output_shape = var_values.shape
 
         # drop the variable from the dataset (we're assuming this frees the memory)
         dataset = dataset.drop_vars(names=[var_name])
@@ -809,7 +826,12 @@ def _compute_write_index(keyword_arguments):
                 raise ValueError(f"Unsupported PET units: {dataset[pet_var_name].units}")
 
     if input_type == InputType.divisions:
-        output_shape = _drop_data_into_shared_arrays_divisions(dataset, input_var_names)
+        output_shape = _drop_data_into_shared_arrays_divisions(
+            dataset,
+            input_var_names,
+            keyword_arguments["periodicity"],
+            keyword_arguments["data_start_year"],
+        )
     else:
         output_shape = _drop_data_into_shared_arrays_grid(
             dataset,
-- 
2.43.0


From 8a7e731899c877d1b07ece07c0b32b89d1d16a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 27/31] fix: compute SPEI of unsigned integer arrays without
 wrapping around

---
 src/climate_indices/indices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index f24d406..6c85b0e 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -274,6 +274,9 @@ def spei(
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         precips_mm = np.clip(precips_mm, a_min=0.0, a_max=None)
 
+    # unsigned integers would wrap around where the PET exceeds the precipitation
+    pet_mm = pet_mm.astype(float)
+
     # subtract the PET from precipitation, adding an offset
     # to ensure that all values are positive
     p_minus_pet = (precips_mm.flatten() - pet_mm.flatten()) + 1000.0
-- 
2.43.0


From 8345531ea7d69dec7720b184571a82cf802e70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 28/31] fix: average 28 February and 1 March of integer arrays
 without overflow

---
 src/climate_indices/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 0502790..6eb3895 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -347,6 +347,9 @@ def transform_to_366day(
         _logger.error(message)
         raise ValueError(message)
 
+    # narrow integers would overflow where neighbouring days are averaged
+    original = original.astype(float)
+
     # allocate the new array for 366 daily values per year,
     # including a faux Feb 29 for non-leap years
     all_leap = np.full((total_years * 366,), np.nan)
-- 
2.43.0


From e292dc2d73a98507ec252ca4ff5a8ec0e6fdf6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 29/31] fix: accept any whole number of years in
 reshape_to_divs_years_months

The function reshapes 2-D arrays (divisions, months) to (divisions, years, 12)
but refused every array of more than one year.
---
 src/climate_indices/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 6eb3895..c4958fa 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -272,9 +272,9 @@ def reshape_to_divs_years_months(
         raise ValueError(message)
 
     # otherwise make sure that we've been passed in a 2-D array
-    # of values with the final dimension size == 12
-    elif shape[1] != 12:
-        message = "Values array has an invalid shape (second dimension " + "should be 12, but is not): " + str(shape)
+    # of values with the final dimension made of whole years of 12 months
+    elif shape[1] % 12 != 0:
+        message = "Values array has an invalid shape (second dimension " + "should be whole years of 12): " + str(shape)
         _logger.error(message)
         raise ValueError(message)
 
-- 
2.43.0


From b24277708485796fef96b7f0d01eb3de118f3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 30/31] fix: describe fitting parameters of daily runs as
 computed from days

The descriptions of alpha and beta said "-month" whatever the periodicity.
---
 src/climate_indices/__spi__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index af5918e..ab90534 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -554,11 +554,11 @@ def _compute_write_index(keyword_arguments):
                 "alpha": {
                     "description": "shape parameter of the gamma distribution (also "
                     "referred to as the concentration) computed from "
-                    f"the {scale}-month scaled precipitation values",
+                    f"the {scale}-{keyword_arguments['periodicity'].unit()} scaled precipitation values",
                 },
                 "beta": {
                     "description": "1 / scale of the distribution (also referred to "
-                    f"as the rate) computed from the {scale}-month "
+                    f"as the rate) computed from the {scale}-{keyword_arguments['periodicity'].unit()} "
                     "scaled precipitation values",
                 },
                 "prob_zero": {"description": "probability of zero values within calibration period"},
-- 
2.43.0


From f717b6e802d4cd4a8fa53a0988512a69ee9d1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 31/31] fix: pdsi ends with the last month of a record whose
 last year is partial

---
 src/climate_indices/palmer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index b29f273..cb25aa2 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -635,6 +635,9 @@ def _calc_zindex(data: dict) -> None:
     """
     for year in range(data["n_years"]):
         for month in range(12):
+            # the last year may be partial, its padding is not part of the record
+            if 12 * year + month >= data["n_months"]:
+                return
             data["year"] = year
             data["month"] = month
             k8 = int(data["k8"])
@@ -702,10 +705,11 @@ def _finish_up(data: dict) -> None:
 
     :param data: dictionary of parameters (intialized in pdsi)
     """
+    # the last month of the record, which may end within a year
+    i_end, j_end = divmod(data["n_months"] - 1, 12)
     for k8 in range(data["k8max"]):
         i = int(data["indexj"][k8])
         j = int(data["indexm"][k8])
-        i_end = data["precips"].shape[0] - 1
         data["pdsi"][i, j] = data["x"][i, j]
         data["phdi"][i, j] = data["px3"][i, j]
 
@@ -713,10 +717,10 @@ def _finish_up(data: dict) -> None:
             data["phdi"][i, j] = data["x"][i, j]
 
         data["wplm"][i, j] = _case(
-            data["ppr"][i_end, 11],
-            data["px1"][i_end, 11],
-            data["px2"][i_end, 11],
-            data["px3"][i_end, 11],
+            data["ppr"][i_end, j_end],
+            data["px1"][i_end, j_end],
+            data["px2"][i_end, j_end],
+            data["px3"][i_end, j_end],
         )
 
 
@@ -774,6 +778,7 @@ def _initialize_data(
     data["awc"] = awc
     data["awc_bot"] = _get_awc_bot(awc)
     data["n_years"] = n_years
+    data["n_months"] = precips.size
     data["n_calb_years"] = calibration_year_final - calibration_year_initial + 1
     data["calibration_year_initial_idx"] = calibration_year_initial - data_start_year
     data["calibration_year_final_idx"] = calibration_year_final - data_start_year
-- 
2.43.0

