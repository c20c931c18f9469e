From a685dd6f6b98518b2a65699d247a80d63a8fabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 01/13] fix: do not modify the caller's arrays when fitting
 gamma or computing Thornthwaite PET

gamma_parameters(), transform_fitted_gamma() and eto_thornthwaite() wrote NaNs
and zeros through reshaped views of the arrays they were given. Besides changing
the caller's data, the spi command's fitting and SPI steps share one precipitation
array, so every result computed after the 1-month gamma fitting was wrong.
---
 src/climate_indices/compute.py | 8 ++++++--
 src/climate_indices/eto.py     | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index df766f9..b6178a9 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -681,7 +681,9 @@ def gamma_parameters(
     # validate (and possibly reshape) the input array
     values = _validate_array(values, periodicity)
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, as this array
+    # may well be a view of the array passed by the caller)
+    values = values.copy()
     values[values == 0] = np.nan
 
     # determine the end year of the values array
@@ -804,7 +806,9 @@ def transform_fitted_gamma(
     zeros = (values == 0).sum(axis=0)
     probabilities_of_zero = zeros / values.shape[0]
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, as this array
+    # may well be a view of the array passed by the caller)
+    values = values.copy()
     values[values == 0] = np.nan
 
     # compute fitting parameters if none were provided
diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index d723780..41a46c6 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -249,6 +249,8 @@ def eto_thornthwaite(
     # TODO this sometimes throws a RuntimeWarning for invalid value,
     #  perhaps as a result of a NaN, somehow use masking and/or NaN
     #  pre-check to eliminate the cause of this warning
+    # (in a copy, as this array may well be a view of the caller's array)
+    monthly_temps_celsius = monthly_temps_celsius.copy()
     monthly_temps_celsius[monthly_temps_celsius < 0] = 0.0
 
     # mean the monthly temperature values over the month axis,
-- 
2.43.0


From f8488ad679cef65274b5aeab31f51a645526a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 02/13] fix: use at least one worker process on a single-CPU
 machine

The default --multiprocessing all_but_one gave zero workers there, and both
commands failed with a ZeroDivisionError.
---
 src/climate_indices/__main__.py | 4 ++--
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4e0eceb..220ef3a 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -16,7 +16,7 @@ import xarray as xr
 from climate_indices import compute, indices, utils
 
 # the number of worker processes we'll use for process pools
-_NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+_NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 # shared memory array dictionary keys
 _KEY_ARRAY = "array"
 _KEY_SHAPE = "shape"
@@ -1631,7 +1631,7 @@ def process_climate_indices(
         elif arguments.multiprocessing == "all":
             _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+            _NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 
         # compute SPI if specified
         if arguments.index in ["spi", "scaled", "all"]:
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 0f4bfc9..f90b98e 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -1408,7 +1408,7 @@ def main():  # type: () -> None
         elif arguments.multiprocessing == "all":
             number_of_workers = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            number_of_workers = multiprocessing.cpu_count() - 1
+            number_of_workers = max(1, multiprocessing.cpu_count() - 1)
 
         # prepare precipitation NetCDF in case dimensions not (lat, lon, time) or if any coordinates are descending
         netcdf_precip = _prepare_file(arguments.netcdf_precip, arguments.var_name_precip)
-- 
2.43.0


From 15e265f1b17b0275465c2d7db2cff3870224ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 03/13] fix: do not split the time axis of a timeseries among
 worker processes

Each worker fitted SPI/PNP to its own piece of the series, so the result was
wrong and depended upon the number of CPUs.
---
 src/climate_indices/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 220ef3a..bb14b14 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1172,6 +1172,9 @@ def _parallel_process(
     # if there are fewer chunks than the available number of processes
     # then only create the necessary number of tasks
     required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
+    # a timeseries has no axis other than time, and so can't be split
+    if input_type == InputType.timeseries:
+        required_processes = 1
     d, m = divmod(shape[0], required_processes)
     split_indices = list(range(0, ((d + 1) * (m + 1)), (d + 1)))
     if d != 0:
-- 
2.43.0


From dce352938927651831375d386122aebc222b4944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 04/13] fix: do not reuse a result array left by an earlier
 call for a different grid

The shared result array stays in a module global, so a second call within one
process used the shape of the first call's dataset and failed or wrote a
misshaped result.
---
 src/climate_indices/__main__.py | 8 ++++++--
 src/climate_indices/__spi__.py  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index bb14b14..d19d8e5 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -992,8 +992,12 @@ def _compute_write_index(keyword_arguments):
         dataset.to_netcdf(netcdf_file_name)
 
     else:
-        # add an array to hold results to the dictionary of arrays
-        if _KEY_RESULT not in _global_shared_arrays:
+        # add an array to hold results to the dictionary of arrays, unless
+        # there's already one of the required shape to be reused
+        if (
+            _KEY_RESULT not in _global_shared_arrays
+            or _global_shared_arrays[_KEY_RESULT][_KEY_SHAPE] != output_shape
+        ):
             _global_shared_arrays[_KEY_RESULT] = {
                 _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
                 _KEY_SHAPE: output_shape,
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index f90b98e..dcf48b8 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -632,8 +632,12 @@ def _compute_write_index(keyword_arguments):
         raise ValueError(f'Unsupported periodicity argument value: {keyword_arguments["periodicity"]}')
 
     # add an array to hold index computation results
-    # to our dictionary of shared memory arrays
-    if _KEY_RESULT not in _global_shared_arrays:
+    # to our dictionary of shared memory arrays, unless
+    # there's already one of the required shape to be reused
+    if (
+        _KEY_RESULT not in _global_shared_arrays
+        or _global_shared_arrays[_KEY_RESULT][_KEY_SHAPE] != output_shape
+    ):
         _global_shared_arrays[_KEY_RESULT] = {
             _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
             _KEY_SHAPE: output_shape,
-- 
2.43.0


From 910948b4a1215470087840dc9a6aaddeb6ded92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 05/13] fix: do not modify the arguments object passed to
 process_climate_indices

When PET is computed from temperature the PET file was stored into the caller's
arguments, so calling again with the same arguments was refused because both a
temperature and a PET file are then specified.
---
 src/climate_indices/__main__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index d19d8e5..a10911a 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -2,6 +2,7 @@
 
 import argparse
 from collections import Counter
+import copy
 from datetime import datetime
 from enum import Enum
 import logging
@@ -1629,6 +1630,10 @@ def process_climate_indices(
     # ...
 
     try:
+        # work on a copy of the arguments, since below we'll replace the PET file
+        # argument and the caller may well use these same arguments again
+        arguments = copy.copy(arguments)
+
         # validate the arguments and determine the input type
         input_type = _validate_args(arguments)
 
-- 
2.43.0


From 7e2601546b122ea813cdfc6ddb7f9e6ab5259fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 06/13] fix: open the input files in a fixed order

The order of a set of strings varies from run to run, and with it the file that
the attributes and chunk sizes of the output are taken from.
---
 src/climate_indices/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index a10911a..01eeda0 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -711,7 +711,7 @@ def _compute_write_index(keyword_arguments):
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
     # Since multiple variables can be in the same file, de-duplicate the filelist.
-    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks)
+    dataset = xr.open_mfdataset(list(dict.fromkeys(files)), chunks=chunks)
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
-- 
2.43.0


From c642972c9585e88578d5a72bbed3175702602a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 07/13] fix: do not outer-join coordinates that match only to
 within the tolerance

Coordinates of precipitation and PET/temperature files are accepted if they match
to within a tolerance (e.g. float32 versus float64 values), but were then joined
exactly, giving a larger output grid filled with missing values.
---
 src/climate_indices/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 01eeda0..41fb2ab 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -711,7 +711,9 @@ def _compute_write_index(keyword_arguments):
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
     # Since multiple variables can be in the same file, de-duplicate the filelist.
-    dataset = xr.open_mfdataset(list(dict.fromkeys(files)), chunks=chunks)
+    # The coordinates have been validated as matching to within a tolerance, so we use those
+    # of the first file rather than an outer join of coordinates that aren't exactly equal.
+    dataset = xr.open_mfdataset(list(dict.fromkeys(files)), chunks=chunks, join="override")
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
-- 
2.43.0


From c997ea99b59c181e2d5aeb0062c76053e3a4375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 08/13] fix: allow a grid with a single latitude or longitude
 when matching coordinates

get_tolerance() failed on a dimension with one element, so SPEI could not be
computed for a grid with a single row or column.
---
 src/climate_indices/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 74dac1a..0fa87c0 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -115,6 +115,9 @@ def get_tolerance(dim: np.ndarray) -> float:
     derived from (smallest) absolute grid size along dimension dim.
     Always greater than zero.
     """
+    if np.size(dim) < 2:
+        # there's no grid size along a dimension with a single element
+        return np.finfo(float).resolution
     tol = np.abs(np.diff(dim)).min() / 10
     return max(tol, np.finfo(tol.dtype).resolution)
 
-- 
2.43.0


From 9ea62bb92ae713bb2dd4271a373c1dff41626df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 09/13] fix: reorder dimensions of the input rather than
 compute along the wrong axis

Validation accepts (time, lat, lon) and (time, division), but time was assumed to
be the last dimension: a (time, division) dataset gave an index computed across
divisions, and the spi command mixed up the axes of a (time, lat, lon) grid.
---
 src/climate_indices/__main__.py | 9 ++++++++-
 src/climate_indices/__spi__.py  | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 41fb2ab..f395944 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -29,6 +29,9 @@ _KEY_RESULT_PHDI = "result_array_phdi"
 _KEY_RESULT_PMDI = "result_array_pmdi"
 _KEY_RESULT_ZINDEX = "result_array_zindex"
 
+# the order of dimensions with which the indices are computed and written
+_DIMENSIONS_ORDER = ("division", "lat", "lon", "time")
+
 # global dictionary to contain shared arrays for use by worker processes
 _global_shared_arrays = {}
 
@@ -722,10 +725,14 @@ def _compute_write_index(keyword_arguments):
         for da in dataset.data_vars.values():
             if not da.encoding.get("contiguous", True):
                 # tuple of chunksizes, respectively by dimension
-                output_chunksizes = da.encoding.get("chunksizes", ())
+                chunksizes = dict(zip(da.dims, da.encoding.get("chunksizes", ())))
+                output_chunksizes = tuple(chunksizes[dim] for dim in _DIMENSIONS_ORDER if dim in chunksizes)
             if output_chunksizes:
                 break
 
+    # make sure that we have the dimensions in the order expected by the index computations
+    dataset = dataset.transpose(*_DIMENSIONS_ORDER, ..., missing_dims="ignore")
+
     # trim out all data variables from the dataset except the ones we'll need
     input_var_names = []
     if "var_name_precip" in keyword_arguments:
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index dcf48b8..7715afa 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -521,6 +521,9 @@ def _compute_write_index(keyword_arguments):
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
     ds_precip = xr.open_dataset(keyword_arguments["netcdf_precip"], chunks=chunks)
 
+    # make sure that we have the dimensions in the order expected by the index computations
+    ds_precip = ds_precip.transpose("division", "lat", "lon", "time", ..., missing_dims="ignore")
+
     # trim out all data variables from the dataset except the ones we'll need
     input_var_names = []
     if "var_name_precip" in keyword_arguments:
-- 
2.43.0


From b18fdec2efb12db987907dafec4e0eba314922ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 10/13] fix: raise an error rather than hang when a worker
 process dies

multiprocessing.Pool.map() never returns if a worker is killed (for example by
the out-of-memory killer), since the task that it had is lost.
---
 src/climate_indices/__main__.py | 15 +++++++++------
 src/climate_indices/__spi__.py  | 27 ++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index f395944..236165d 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -2,6 +2,7 @@
 
 import argparse
 from collections import Counter
+from concurrent.futures import ProcessPoolExecutor
 import copy
 from datetime import datetime
 from enum import Enum
@@ -1266,18 +1267,20 @@ def _parallel_process(
     else:
         raise ValueError("Unsupported index: {index}".format(index=index))
 
-    # instantiate a process pool
-    with multiprocessing.Pool(
-        processes=_NUMBER_OF_WORKER_PROCESSES,
+    # instantiate a process pool (we use an executor since it raises an error if a worker
+    # process dies, for which multiprocessing.Pool.map() would instead wait forever)
+    with ProcessPoolExecutor(
+        max_workers=required_processes,
         initializer=_init_worker,
         initargs=(arrays_dict,),
     ) as pool:
+        # getting the results raises the error of any failed application
         if index in ["spei", "pet"]:
-            pool.map(_apply_along_axis_double, chunk_params)
+            list(pool.map(_apply_along_axis_double, chunk_params))
         elif index == "palmers":
-            pool.map(_apply_along_axis_palmers, chunk_params)
+            list(pool.map(_apply_along_axis_palmers, chunk_params))
         else:
-            pool.map(_apply_along_axis, chunk_params)
+            list(pool.map(_apply_along_axis, chunk_params))
 
 
 def _apply_along_axis(params):
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 7715afa..6246e12 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -2,6 +2,7 @@
 
 import argparse
 from collections import Counter
+from concurrent.futures import ProcessPoolExecutor
 import copy
 from datetime import datetime
 from enum import Enum
@@ -899,9 +900,15 @@ def _parallel_spi(
 
         chunk_params.append(params)
 
-    # instantiate a process pool
-    with multiprocessing.Pool(processes=number_of_workers, initializer=_init_worker, initargs=(arrays_dict,)) as pool:
-        pool.map(_apply_to_subarray_spi, chunk_params)
+    # instantiate a process pool (we use an executor since it raises an error if a worker
+    # process dies, for which multiprocessing.Pool.map() would instead wait forever)
+    with ProcessPoolExecutor(
+        max_workers=len(chunk_params),
+        initializer=_init_worker,
+        initargs=(arrays_dict,),
+    ) as pool:
+        # getting the results raises the error of any failed application
+        list(pool.map(_apply_to_subarray_spi, chunk_params))
 
 
 def _parallel_fitting(
@@ -961,12 +968,18 @@ def _parallel_fitting(
 
         chunk_params.append(params)
 
-    # instantiate a process pool
-    with multiprocessing.Pool(processes=number_of_workers, initializer=_init_worker, initargs=(shared_arrays,)) as pool:
+    # instantiate a process pool (we use an executor since it raises an error if a worker
+    # process dies, for which multiprocessing.Pool.map() would instead wait forever)
+    with ProcessPoolExecutor(
+        max_workers=len(chunk_params),
+        initializer=_init_worker,
+        initargs=(shared_arrays,),
+    ) as pool:
+        # getting the results raises the error of any failed application
         if distribution == indices.Distribution.gamma:
-            pool.map(_apply_to_subarray_gamma, chunk_params)
+            list(pool.map(_apply_to_subarray_gamma, chunk_params))
         elif distribution == indices.Distribution.pearson:
-            pool.map(_apply_to_subarray_pearson, chunk_params)
+            list(pool.map(_apply_to_subarray_pearson, chunk_params))
         else:
             raise ValueError(f"Unsupported distribution: {distribution}")
 
-- 
2.43.0


From 7bce4d258687e6680bb11c65d1e1737e46f48a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 11/13] fix: replace output files only once they're completely
 written

An output file was written in place, so a failure or crash while writing left a
truncated file under the final name (which may be readable, with missing pieces
read as zeros) and lost the complete file that was there from an earlier run.
---
 src/climate_indices/__main__.py | 12 ++++++------
 src/climate_indices/__spi__.py  |  4 ++--
 src/climate_indices/utils.py    | 29 +++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 236165d..925d58b 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -928,7 +928,7 @@ def _compute_write_index(keyword_arguments):
 
         # write the dataset as NetCDF
         netcdf_file_name = keyword_arguments["output_file_base"] + "_" + var_name_scpdsi + ".nc"
-        dataset.to_netcdf(netcdf_file_name)
+        utils.write_netcdf(dataset, netcdf_file_name)
 
         # create a new variable to contain the PDSI values, assign into the dataset
         long_name = "Palmer Drought Severity Index"
@@ -946,7 +946,7 @@ def _compute_write_index(keyword_arguments):
 
         # write the dataset as NetCDF
         netcdf_file_name = keyword_arguments["output_file_base"] + "_" + var_name_pdsi + ".nc"
-        dataset.to_netcdf(netcdf_file_name)
+        utils.write_netcdf(dataset, netcdf_file_name)
 
         # create a new variable to contain the PHDI values, assign into the dataset
         long_name = "Palmer Hydrological Drought Index"
@@ -964,7 +964,7 @@ def _compute_write_index(keyword_arguments):
 
         # write the dataset as NetCDF
         netcdf_file_name = keyword_arguments["output_file_base"] + "_" + var_name_phdi + ".nc"
-        dataset.to_netcdf(netcdf_file_name)
+        utils.write_netcdf(dataset, netcdf_file_name)
 
         # create a new variable to contain the PMDI values, assign into the dataset
         long_name = "Palmer Modified Drought Index"
@@ -982,7 +982,7 @@ def _compute_write_index(keyword_arguments):
 
         # write the dataset as NetCDF
         netcdf_file_name = keyword_arguments["output_file_base"] + "_" + var_name_pmdi + ".nc"
-        dataset.to_netcdf(netcdf_file_name)
+        utils.write_netcdf(dataset, netcdf_file_name)
 
         # create a new variable to contain the Z-Index values, assign into the dataset
         long_name = "Palmer Z-Index"
@@ -1000,7 +1000,7 @@ def _compute_write_index(keyword_arguments):
 
         # write the dataset as NetCDF
         netcdf_file_name = keyword_arguments["output_file_base"] + "_" + var_name_zindex + ".nc"
-        dataset.to_netcdf(netcdf_file_name)
+        utils.write_netcdf(dataset, netcdf_file_name)
 
     else:
         # add an array to hold results to the dictionary of arrays, unless
@@ -1107,7 +1107,7 @@ def _compute_write_index(keyword_arguments):
 
         # write the dataset as NetCDF
         netcdf_file_name = keyword_arguments["output_file_base"] + "_" + output_var_name + ".nc"
-        dataset.to_netcdf(netcdf_file_name)
+        utils.write_netcdf(dataset, netcdf_file_name)
 
         return netcdf_file_name, output_var_name
 
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 6246e12..0a789f2 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -707,7 +707,7 @@ def _compute_write_index(keyword_arguments):
 
             # write the SPI dataset to NetCDF file
             netcdf_file_name = keyword_arguments["output_file_base"] + "_" + spi_var_name + ".nc"
-            ds_spi.to_netcdf(netcdf_file_name)
+            utils.write_netcdf(ds_spi, netcdf_file_name)
 
         # dump the fitting variable arrays from shared-memory
         # into the DataArrays of the fitting Dataset
@@ -721,7 +721,7 @@ def _compute_write_index(keyword_arguments):
     # if requested then we write the distribution fittings dataset to NetCDF
     if keyword_arguments["save_params"] is not None:
         # write the fitting parameters dataset to NetCDF file
-        ds_fitting.to_netcdf(keyword_arguments["save_params"])
+        utils.write_netcdf(ds_fitting, keyword_arguments["save_params"])
 
 
 def build_dataset_spi_grid(
diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 0fa87c0..6de47f3 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -3,6 +3,7 @@
 import calendar
 from datetime import datetime
 import logging
+import os
 
 import numpy as np
 
@@ -20,6 +21,7 @@ __all__ = [
     "sign_change",
     "transform_to_366day",
     "transform_to_gregorian",
+    "write_netcdf",
 ]
 
 
@@ -498,3 +500,30 @@ def transform_to_gregorian(
 
 
 _logger = get_logger(__name__, logging.DEBUG)
+
+
+def write_netcdf(
+    dataset,
+    netcdf_file_name: str,
+) -> None:
+    """
+    Write a dataset as a NetCDF file, in such a way that the named file is either
+    complete or isn't there, or is the previous file of this name if there was one,
+    regardless of when the writing may fail or be interrupted.
+
+    :param dataset: the xarray.Dataset to be written
+    :param netcdf_file_name: the name of the file to write
+    """
+
+    # write into a temporary file in the same directory, and once this has
+    # been completely written to storage then move it into place
+    temporary_file_name = f"{netcdf_file_name}.{os.getpid()}.tmp"
+    try:
+        dataset.to_netcdf(temporary_file_name)
+        with open(temporary_file_name, "rb+") as temporary_file:
+            os.fsync(temporary_file.fileno())
+        os.replace(temporary_file_name, netcdf_file_name)
+    except BaseException:
+        if os.path.exists(temporary_file_name):
+            os.remove(temporary_file_name)
+        raise
-- 
2.43.0


From 37661d15c43b3dcb322aebf46f6b10a22891c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 12/13] fix: refuse fitting parameters of other locations (SPI
 program)

Loading parameters that were fitted for another grid either applied them to
locations which they don't belong to or failed within a worker process.
---
 src/climate_indices/__spi__.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 0a789f2..ede485e 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -154,8 +154,6 @@ def _validate_args(args):
                 _logger.error(msg)
                 raise ValueError(msg)
 
-            # TODO compare against the lats_precip, lons_precip, etc.
-
     # make sure a precipitation file was specified
     if args.netcdf_precip is None:
         msg = "Missing the required precipitation file argument"
@@ -187,6 +185,24 @@ def _validate_args(args):
             "precipitation",
         )
 
+        # the fitting parameters to be loaded have to be those of the same locations
+        if args.load_params and input_type == InputType.grid:
+            with xr.open_dataset(args.load_params) as dataset_fittings:
+                for coord_name in ("lat", "lon"):
+                    coords_precip = dataset_precip[coord_name].values
+                    coords_fittings = dataset_fittings[coord_name].values
+                    if coords_precip.shape != coords_fittings.shape or not np.allclose(
+                        coords_precip,
+                        coords_fittings,
+                        atol=utils.get_tolerance(coords_precip),
+                    ):
+                        msg = (
+                            "Precipitation and fitting parameter variables contain "
+                            f"non-matching coordinates: '{coord_name}'"
+                        )
+                        _logger.error(msg)
+                        raise ValueError(msg)
+
     if args.scales is None:
         msg = "Missing one or more time scales (missing --scales argument)"
         _logger.error(msg)
-- 
2.43.0


From b4a64e0de2cc2cdd8e59b2fb881f87129509d6fa Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 13/13] fix: close the input datasets when a command has ended

They were left open for the garbage collector, so that a process which executes
commands repeatedly held the files of earlier ones (also those that had been
replaced or removed meanwhile).
---
 src/climate_indices/__main__.py | 27 +++++++++++++++++++++------
 src/climate_indices/__spi__.py  | 26 ++++++++++++++++++++------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 925d58b..940c486 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -717,7 +717,21 @@ def _compute_write_index(keyword_arguments):
     # Since multiple variables can be in the same file, de-duplicate the filelist.
     # The coordinates have been validated as matching to within a tolerance, so we use those
     # of the first file rather than an outer join of coordinates that aren't exactly equal.
-    dataset = xr.open_mfdataset(list(dict.fromkeys(files)), chunks=chunks, join="override")
+    with xr.open_mfdataset(list(dict.fromkeys(files)), chunks=chunks, join="override") as dataset:
+        return _compute_write_dataset(dataset, input_type, keyword_arguments)
+
+
+def _compute_write_dataset(dataset, input_type, keyword_arguments):
+    """
+    Computes a climate index from an open dataset and writes the result into
+    a corresponding NetCDF.
+
+    param dataset: xarray Dataset of the input variables
+    param input_type:
+    param keyword_arguments:
+    return:
+    """
+
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
@@ -829,7 +843,8 @@ def _compute_write_index(keyword_arguments):
         if ("netcdf_awc" not in keyword_arguments) or ("var_name_awc" not in keyword_arguments):
             raise ValueError("Missing the AWC file and/or variable name argument(s)")
 
-        awc_dataset = xr.open_dataset(keyword_arguments["netcdf_awc"])
+        with xr.open_dataset(keyword_arguments["netcdf_awc"]) as awc_dataset:
+            awc_dataset.load()
 
         # create a shared memory array, wrap it as a numpy array and
         # copy the data (values) from this variable's DataArray
@@ -1464,8 +1479,8 @@ def _prepare_file(
     """
 
     # make sure we have lat, lon, and time as variable dimensions, regardless of order
-    ds = xr.open_dataset(netcdf_file)
-    dimensions = ds[var_name].dims
+    with xr.open_dataset(netcdf_file) as ds:
+        dimensions = ds[var_name].dims
     if "division" in dimensions:
         if len(dimensions) == 1:
             expected_dims = ("division",)
@@ -1485,8 +1500,8 @@ def _prepare_file(
             _logger.error(message)
             raise ValueError()
 
-    if Counter(ds[var_name].dims) != Counter(expected_dims):
-        message = f"Invalid dimensions for variable '{var_name}': {ds[var_name].dims}"
+    if Counter(dimensions) != Counter(expected_dims):
+        message = f"Invalid dimensions for variable '{var_name}': {dimensions}"
         _logger.error(message)
         raise ValueError(message)
 
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index ede485e..f85b8d9 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -536,7 +536,20 @@ def _compute_write_index(keyword_arguments):
             chunks = {"time": -1}
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
-    ds_precip = xr.open_dataset(keyword_arguments["netcdf_precip"], chunks=chunks)
+    with xr.open_dataset(keyword_arguments["netcdf_precip"], chunks=chunks) as ds_precip:
+        _compute_write_dataset(ds_precip, input_type, keyword_arguments)
+
+
+def _compute_write_dataset(ds_precip, input_type, keyword_arguments):
+    """
+    Computes a climate index from an open dataset and writes the result into
+    a corresponding NetCDF.
+
+    :param ds_precip: xarray Dataset of the precipitation
+    :param input_type:
+    :param keyword_arguments:
+    :return:
+    """
 
     # make sure that we have the dimensions in the order expected by the index computations
     ds_precip = ds_precip.transpose("division", "lat", "lon", "time", ..., missing_dims="ignore")
@@ -555,7 +568,8 @@ def _compute_write_index(keyword_arguments):
     # if we're not loading fitting parameters
     # then we'll build a Dataset to contain them
     if keyword_arguments["load_params"] is not None:
-        ds_fitting = xr.open_dataset(keyword_arguments["load_params"])
+        with xr.open_dataset(keyword_arguments["load_params"]) as ds_fitting:
+            ds_fitting.load()
     else:
         ds_fitting = build_dataset_fitting_grid(ds_precip, keyword_arguments["periodicity"])
 
@@ -1306,8 +1320,8 @@ def _prepare_file(netcdf_file, var_name):
     """
 
     # make sure we have lat, lon, and time as variable dimensions, regardless of order
-    ds = xr.open_dataset(netcdf_file)
-    dimensions = ds[var_name].dims
+    with xr.open_dataset(netcdf_file) as ds:
+        dimensions = ds[var_name].dims
     if "division" in dimensions:
         if len(dimensions) == 1:
             expected_dims = ("division",)
@@ -1327,8 +1341,8 @@ def _prepare_file(netcdf_file, var_name):
             _logger.error(message)
             raise ValueError()
 
-    if Counter(ds[var_name].dims) != Counter(expected_dims):
-        message = f"Invalid dimensions for variable '{var_name}': {ds[var_name].dims}"
+    if Counter(dimensions) != Counter(expected_dims):
+        message = f"Invalid dimensions for variable '{var_name}': {dimensions}"
         _logger.error(message)
         raise ValueError(message)
 
-- 
2.43.0

