From f189fec045a27409b9d99558aecde86706c035c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 001/116] fix: histogram counted the maximum out of bounds with
 num_bins and indexed with NaN data

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 561cca7..d935009 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -99,11 +99,14 @@ def get_hist(
         bin_divider = bin_max - bin_min
     # Now loop through the data
     for idx in range(data.size):
-        # Check if its inside the range we set
-        if data[idx] < min or data[idx] > max:
+        # Check if its inside the range we set (NaNs are never inside)
+        if not (data[idx] >= min and data[idx] <= max):
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # With num_bins the maximum is the upper edge of the last bin
+        if bin_i > n:
+            bin_i = n
         # Add to the histogram
         hist[bin_i] += 1
     return hist
@@ -209,11 +212,14 @@ def get_ri(
     counter = 0
     for idx in range(data.size):
         # Check if its inside the range we set
-        if data[idx] < min or data[idx] > max:
+        if not (data[idx] >= min and data[idx] <= max):
             counter += 1
             continue
         # Calculate the index for indices and histogram
         bin_i = int(n * (data[idx] - bin_min) / bin_divider)
+        # With num_bins the maximum is the upper edge of the last bin
+        if bin_i > n:
+            bin_i = n
         # Record the current index and update the tracking array
         ri[tracker[bin_i]] = idx
         tracker[bin_i] += 1
@@ -282,7 +288,9 @@ def histogram(
     bins = get_bins(min, max, bin_size)
     # However, if we set a max, we must adjust the last bin to max according to IDL specifications
     # And we only do this in the case max was by an argument
-    if (bins[-1] > max) or num_bins is not None:
+    if num_bins is not None:
+        bins = bins[:num_bins]
+    elif bins[-1] > max:
         bins = bins[:-1]
     # Flatten the data
     data_flat = data.flatten()
-- 
2.43.0


From 4bc04908ea74d03c85422a78542dedb8f8bde0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 002/116] fix: array_match failed without a second array and
 lost values listed more than once

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index d935009..ecd08cc 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -768,8 +768,8 @@ def array_match(
         # If the second array wasn't supplied
         min_use = np.min(array_1)
         max_use = np.max(array_1)
-        # Supply a second hist
-        hist2 = np.arange(max_use - min_use + 1)
+        # Supply an empty second hist
+        hist2 = np.zeros(int(max_use - min_use) + 1, dtype=np.int64)
     # Get the histogram for the first
     hist1, _, ri1 = histogram(array_1, min=min_use, max=max_use)
     # Arrays should be the same size, does addition
@@ -781,7 +781,7 @@ def array_match(
     omin = bins_v1[0]
     omax = bins_v1[-1]
     hist_v2, _, _ = histogram(value_match, min=omin, max=omax)
-    vals = np.nonzero(np.bitwise_and(hist_v1, hist_v2))[0] + omin - min_use
+    vals = np.nonzero(np.logical_and(hist_v1, hist_v2))[0] + omin - min_use
     n_match = vals.size
 
     if n_match == 0:
-- 
2.43.0


From 61b8918d5e4044dfa733c33c7975ae9f695a3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 003/116] fix: rebin failed on single-row arrays, dropped
 sampled rows and averaged unrelated rows when mixing enlargement and
 reduction

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index ecd08cc..33446a2 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -558,14 +558,25 @@ def rebin(
         return a
     if len(old_shape) == 1:
         old_shape = (1, old_shape[0])
+    elif old_shape[0] == 1:
+        # A single row is treated the same as a 1D array
+        a = a[0]
     # Sample the original array using rebin
     if sample:
+        for old, new in zip(old_shape, shape):
+            if max(old, new) % min(old, new) != 0:
+                raise ValueError(
+                    "Your new shape should be a factor or multiple of the original shape"
+                )
         # If its a 1D array then...
         if old_shape[0] == 1:
             if shape[1] > old_shape[1]:
                 rebinned = np.repeat(a, shape[1] // old_shape[1], axis=0)
             else:
                 rebinned = a[:: old_shape[1] // shape[1]]
+            # Repeat the row if more than one has been asked for
+            if shape[0] > 1:
+                rebinned = np.tile(rebinned, (shape[0], 1))
         # Assume its a 2D array
         else:
             # Do the Rows first
@@ -593,10 +604,10 @@ def rebin(
             raise ValueError("Your new shape should be a factor of the original shape")
         # If we are increasing the rows or columns and reducing the other, increase them now and change the old shape
         if shape[0] > old_shape[0]:
-            a = np.tile(a, (shape[0], 1))
+            a = rebin(a, (shape[0], old_shape[1]))
             old_shape = a.shape
         elif shape[1] > old_shape[1]:
-            a = np.tile(a, (1, shape[1]))
+            a = rebin(a, (old_shape[0], shape[1]))
             old_shape = a.shape
         # Create the shape we need (rows, rows that can fit in old_shape, cols, cols that can fit into old_shape)
         sh = shape[0], old_shape[0] // shape[0], shape[1], old_shape[1] // shape[1]
-- 
2.43.0


From 2dc66dc0b459f830de7f8c53a48ebbd4556d2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 004/116] fix: idl_median returned the element above the middle
 for odd lengths

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 33446a2..dedf947 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1399,7 +1399,8 @@ def idl_median(
         if even:
             return np.median(x)
         else:
-            med_index = int(np.ceil(len(x) / 2))
+            # The middle value, or the higher of the two middle values
+            med_index = len(x) // 2
 
             return np.sort(x)[med_index]
 
-- 
2.43.0


From 1da716775415b5541fbb24016533a1951f083f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 005/116] fix: splitting the cross polarisation overwrote the
 imaginary half before copying it

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index dedf947..e47b233 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1579,7 +1579,7 @@ def crosspol_split_real_imaginary(
     pol_names : list[str]|None]
         _description_
     """
-    crosspol_image: NDArray[np.complex128] = image[2]
+    crosspol_image: NDArray[np.complex128] = np.copy(image[2])
     image[2] = crosspol_image.real
     image[3] = crosspol_image.imag
 
-- 
2.43.0


From 44e6de21a9493b8d839358871c80e0531b3479ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 006/116] fix: weight_invert truncated the inverses of integer
 weights

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index e47b233..84c61e5 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -690,10 +690,12 @@ def weight_invert(
     # IDL is able to treat one number as an array (because every number is aprrently an array of size 1?)
     # As such we need to check if it's a number less than or equal to 0 and make a zeros array of size 1
     if np.isscalar(weights):
-        result = np.zeros(1, dtype=type(weights))
         weights = np.array([weights], dtype=type(weights))
-    else:
+    # The inverses of integers aren't integers
+    if np.issubdtype(weights.dtype, np.inexact):
         result = np.zeros_like(weights, dtype=weights.dtype)
+    else:
+        result = np.zeros_like(weights, dtype=np.float64)
     weights_use = weights
     if use_abs or np.iscomplexobj(weights_use):
         """
-- 
2.43.0


From 2e9aef502f8e56ca35a3d32d2d88da272384288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 007/116] fix: load failed on every stored string and on empty
 arrays of strings

---
 PyFHD/io/pyfhd_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 99f70d2..afbfe37 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -448,10 +448,12 @@ def load_dataset(
             value = dataset[()]
         else:
             value = dataset[:]
-        if value.dtype.kind == "S":
-            value = _decode_byte_arr(value)
+        # A single string is read as a bytes object
         if isinstance(value, bytes):
             value = value.decode()
+        elif value.dtype.kind == "S":
+            # Got an error with the vectorized functions on empty arrays
+            value = _decode_byte_arr(value) if value.size else value.astype(np.str_)
         return value
 
 
-- 
2.43.0


From 8821eb915e0a0bb56e6e5d10fc32ee61f172b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 008/116] fix: load failed on files of a dictionary whose only
 key holds a value, string, None or dictionary

---
 PyFHD/io/pyfhd_io.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index afbfe37..eb28380 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -519,13 +519,20 @@ def load(
     if lazy_load:
         return h5_file
     try:
-        if len(h5_file.keys()) == 1:
+        # Only a dataset with dimensions is an array, a single value, string, None or
+        # group comes from a dictionary with one key
+        key = next(iter(h5_file.keys()), None)
+        if (
+            len(h5_file.keys()) == 1
+            and isinstance(h5_file[key], h5py.Dataset)
+            and h5_file[key].shape
+        ):
             # Assume that it contains only one numpy array, in which case read the array
-            key = list(h5_file.keys())[0]
             if logger:
                 logger.info(f"Loading {key} from {file_name} into an array")
-            array = h5_file[key][:]
-            return array
+            if key in h5_file.attrs:
+                return load_dataset(h5_file, key, h5_file[key])
+            return h5_file[key][:]
         else:
             return_dict = {}
             if logger:
-- 
2.43.0


From cfdf77fe167d809e1ccfb3f6da61e5a31b22c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 009/116] fix: save failed on arrays without dimensions

---
 PyFHD/io/pyfhd_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index eb28380..e364bef 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -241,12 +241,13 @@ def save_dataset(
                     compression="gzip",
                 )
             else:
+                # HDF5 can't compress datasets without dimensions
                 h5py_obj.create_dataset(
                     key,
                     shape=value.shape,
                     data=value,
                     dtype=value_dtype,
-                    compression="gzip",
+                    compression="gzip" if value.ndim else None,
                 )
         case list():
             # Was easier to convert to a NumPy array to get vectorization
-- 
2.43.0


From 91b82aecdde6da4ae476951c79732b48bc4b84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 010/116] fix: save replaced the None values of the caller's
 arrays

---
 PyFHD/io/pyfhd_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index e364bef..90dfdc1 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -136,15 +136,16 @@ def format_array(array: NDArray[Any]) -> NDArray[Any]:
             return array.astype(np.bytes_)
         else:
             return array
+    # The None values are replaced in a copy, the array belongs to the caller
+    array = array.copy()
     if np.any(_is_string(array)):
         # This avoids the np.where deprecation warning
-        # Also replaces any None values in place, no copies of the array are made
         array[array == None] = ""
         array = array.astype(bytes)
     else:
         try:
             if array.dtype == object:
-                # Replace any Nones with NaN's in place, no copies made
+                # Replace any Nones with NaN's
                 array[array == None] = np.nan
                 if np.any(_is_complex(array)):
                     # Set the type to complex128 to be sure its double precision complex
@@ -227,6 +228,7 @@ def save_dataset(
             else:
                 # Since we're dealing with variable length arrays, we need to use a special dtype
                 # and process each array individually
+                value = value.copy()
                 for i, arr in enumerate(value):
                     value[i] = format_array(arr)
                 value_dtype = variable_lengths[key]
-- 
2.43.0


From e7659195c9c5ae73574b4c4ae4b31edc1a8ab66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 011/116] fix: restarting from a calibration checkpoint looked
 up an option that does not exist

---
 PyFHD/pyfhd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 063bbb3..4bbcff1 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -338,7 +338,7 @@ def main():
                 )
     else:
         # Load the calibration checkpoint
-        if pyfhd_config["calibration_checkpoint"]:
+        if pyfhd_config["calibrate_checkpoint"]:
             cal_checkpoint = load(pyfhd_config["calibrate_checkpoint"], logger=logger)
             obs = cal_checkpoint["obs"]
             params = cal_checkpoint["params"]
-- 
2.43.0


From 59fbd91956f2cf25226a10cc8946b01bf8d6850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 012/116] fix: flag_visibilities called vis_flag without its
 logger

---
 PyFHD/pyfhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 4bbcff1..c59eb91 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -304,7 +304,9 @@ def main():
 
             if pyfhd_config["flag_visibilities"]:
                 flag_start = time.time()
-                vis_weights, obs = vis_flag(vis_arr, vis_weights, obs, params)
+                vis_weights, obs = vis_flag(
+                    vis_arr, vis_weights, obs, params, logger
+                )
                 flag_end = time.time()
                 _print_time_diff(flag_start, flag_end, "Visibilities Flagged", logger)
 
-- 
2.43.0


From ffba847c4ca3d003a58c6a8c20bede680bd73e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 013/116] fix: saving the weights without the visibilities
 failed as their directory was not set

---
 PyFHD/pyfhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index c59eb91..996b6ef 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -132,11 +132,13 @@ def main():
         )
 
         # Save the raw visibilities and weights if the option is set
-        if pyfhd_config["save_visibilities"]:
+        if pyfhd_config["save_visibilities"] or pyfhd_config["save_weights"]:
             pyfhd_config["visibilities_path"] = Path(
                 pyfhd_config["output_dir"], "visibilities"
             )
             pyfhd_config["visibilities_path"].mkdir(exist_ok=True)
+
+        if pyfhd_config["save_visibilities"]:
             raw_vis_arr_path = Path(
                 pyfhd_config["visibilities_path"],
                 f"{pyfhd_config['obs_id']}_raw_vis_arr.h5",
-- 
2.43.0


From 51305f8d2e9e3403153522d2f6861748c664efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 014/116] fix: exporting without calibration used a calibration
 dictionary that was never set

---
 PyFHD/pyfhd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 996b6ef..a7d388e 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -264,6 +264,9 @@ def main():
             logger,
         )
 
+        # There are no gains to export when the visibilities aren't calibrated
+        cal = None
+
         # Skipped initializing the cal structure as it mostly just copies values from the obs, params, config and the skymodel from FHD
         # However, there is resulting cal structure for logging and output purposes to store the resulting gain and any other associated
         # arrays
-- 
2.43.0


From 51923bd781e2d55924d3ffa2d63275be19b25c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 015/116] fix: exporting images without recalculate_grid used
 gridded planes that were never made

---
 PyFHD/pyfhd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index a7d388e..a0d87a8 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -410,7 +410,10 @@ def main():
         finish_pyfhd(pyfhd_start, logger, psf, pyfhd_config)
         exit(0)
 
-    if pyfhd_config["recalculate_grid"] and pyfhd_config["gridding_checkpoint"] is None:
+    # Exporting the images needs the gridded uv planes
+    if pyfhd_config["gridding_checkpoint"] is None and (
+        pyfhd_config["recalculate_grid"] or pyfhd_config["export_images"]
+    ):
         grid_start = time.time()
         image_uv = np.empty(
             (obs["n_pol"], obs["elements"], obs["dimension"]), dtype=np.complex128
-- 
2.43.0


From 10b2e2a72ee34537558f13ff9c6bb96b0cfe0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 016/116] fix: the gridding checkpoint did not hold the
 observation metadata gridding updates

---
 PyFHD/pyfhd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index a0d87a8..169477e 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -473,6 +473,7 @@ def main():
                 model_uv = crosspol_reformat(model_uv)
         if pyfhd_config["save_checkpoints"]:
             checkpoint = {
+                "obs": obs,
                 "image_uv": image_uv,
                 "weights_uv": weights_uv,
                 "variance_uv": variance_uv,
@@ -497,6 +498,9 @@ def main():
     else:
         if pyfhd_config["gridding_checkpoint"]:
             grid_checkpoint = load(pyfhd_config["gridding_checkpoint"], logger=logger)
+            # Gridding updates the observation metadata
+            if "obs" in grid_checkpoint:
+                obs = grid_checkpoint["obs"]
             image_uv = grid_checkpoint["image_uv"]
             weights_uv = grid_checkpoint["weights_uv"]
             variance_uv = grid_checkpoint["variance_uv"]
-- 
2.43.0


From d796cf145b1d7322b1d59696332fdd41b38deacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 017/116] fix: beam_per_baseline was never turned off for a
 single valued beam

---
 PyFHD/pyfhd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd.py b/PyFHD/pyfhd.py
index 169477e..d30f5db 100644
--- a/PyFHD/pyfhd.py
+++ b/PyFHD/pyfhd.py
@@ -209,7 +209,7 @@ def main():
 
     if (
         psf["image_info"]["image_power_beam_arr"] is not None
-        and psf["image_info"]["image_power_beam_arr"].shape == 1
+        and psf["image_info"]["image_power_beam_arr"].size == 1
     ):
         # Turn off beam_per_baseline if image_power_beam_arr is
         # only one value
-- 
2.43.0


From 997fad3350ba888535fe8092fcbdec8d9bb7c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 018/116] fix: splitting the cross polarisation renamed the
 observation's polarisations or truncated the new names

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 84c61e5..eb285e3 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1586,6 +1586,9 @@ def crosspol_split_real_imaginary(
     image[3] = crosspol_image.imag
 
     if pol_names is not None:
+        # Copy into a list, the names belong to the caller and a string array would
+        # truncate the new names
+        pol_names = list(pol_names)
         crosspol_name: str = pol_names[2]
         pol_names[2] = f"{crosspol_name}_real"
         pol_names[3] = f"{crosspol_name}_imag"
-- 
2.43.0


From d08fc6c49203fc8e9a948c74ba117081f51a9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 019/116] fix: every uv weights FITS file held the planes of
 all polarisations

---
 PyFHD/io/pyfhd_quickview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 4d18bf6..a9bee7c 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -410,7 +410,7 @@ def quickview(
             Path(fits_output, f"{pyfhd_config['obs_id']}_beam_{pol_names[pol_i]}.fits"),
             overwrite=True,
         )
-        fits_file_uv.data = np.abs(weights_uv) * obs["n_vis"]
+        fits_file_uv.data = np.abs(weights_uv[pol_i]) * obs["n_vis"]
         fits_file_uv.writeto(
             Path(
                 fits_output,
-- 
2.43.0


From 8f797e5022904a5a45c2840a1a3dce2bf40c7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 020/116] fix: imaging multiplied the caller's uv planes by the
 masks and filters

---
 PyFHD/gridding/gridding_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 69438e2..ac18ad1 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -362,7 +362,8 @@ def dirty_image_generate(
 
     # dimension is columns, elements is rows
     elements, dimension = dirty_image_uv.shape
-    di_uv_use = dirty_image_uv
+    # Work on a copy, the plane belongs to the caller
+    di_uv_use = dirty_image_uv.copy()
     # If the baseline threshold has been set
     if baseline_threshold is not None:
         if width_smooth is None:
-- 
2.43.0


From 26422b9a6fa39ff3488d00ee6d030ac0a664a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 021/116] fix: the imaginary halves of the cross polarisation
 images were dropped before they were split

---
 PyFHD/io/pyfhd_quickview.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index a9bee7c..68bb4e1 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -244,8 +244,12 @@ def quickview(
     beam_i = np.nonzero(beam_mask)
 
     # Generate our dirty images of the uv planes
-    instr_dirty_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
-    instr_model_arr = np.empty([obs["n_pol"], obs["dimension"], obs["elements"]])
+    # The images of the cross polarizations are complex until they have been split
+    image_dtype = np.complex128 if obs["n_pol"] >= 4 else np.float64
+    instr_dirty_arr = np.empty(
+        [obs["n_pol"], obs["dimension"], obs["elements"]], dtype=image_dtype
+    )
+    instr_model_arr = np.empty_like(instr_dirty_arr)
     filter_arr = np.zeros([obs["n_pol"], obs["dimension"], obs["elements"]])
     for pol_i in range(obs["n_pol"]):
         complex_flag = pol_i > 1
@@ -295,6 +299,10 @@ def quickview(
         )
         instr_model_arr, _ = crosspol_split_real_imaginary(instr_model_arr)
         instr_residual_arr, _ = crosspol_split_real_imaginary(instr_residual_arr)
+        # Each half is real now
+        instr_dirty_arr = instr_dirty_arr.real
+        instr_model_arr = instr_model_arr.real
+        instr_residual_arr = instr_residual_arr.real
         # The weights should have been saved at this point and we only need them like this from here
         weights_uv, _ = crosspol_split_real_imaginary(weights_uv)
 
-- 
2.43.0


From b6881995751427c8ec6fe660048fc7bb62e506b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 022/116] fix: the collated configuration used names the parser
 does not know and unescaped quotes

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index c84f8a2..ebeda2e 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1061,9 +1061,17 @@ def write_collated_yaml_config(
 
     """
 
-    # for group in parser._action_groups:
-    # group_dict={a.dest:getattr(args,a.dest,None) for a in group._group_actions}
-    # arg_groups[group.title]=argparse.Namespace(**group_dict)
+    # The names of the options as the parser reads them from a configuration file,
+    # anything else in the config has been set internally
+    option_names = {
+        action.dest: option.lstrip("-")
+        for action in pyfhd_parser()._actions
+        for option in reversed(action.option_strings)
+        if option.startswith("--")
+    }
+    def quote(value) -> str:
+        # Single quotes are escaped by doubling them in YAML
+        return "'" + str(value).replace("'", "''") + "'"
 
     with open(
         f"{output_dir}/{pyfhd_config['log_name']}{description}.yaml", "w"
@@ -1079,13 +1087,16 @@ def write_collated_yaml_config(
                 "log_time",
                 "commit",
                 "obs_id",
+                "config",
                 "config_file",
                 "grid_psf_file_sav",
                 "grid_psf_file_npz",
             ]:
                 pass
+            elif key not in option_names:
+                pass
             else:
-                yaml_key = key.replace("_", "-")
+                yaml_key = option_names[key]
                 if pyfhd_config[key] == None:
                     outfile.write(f"{yaml_key} : ~\n")
                 elif type(pyfhd_config[key]) == float or type(pyfhd_config[key]) == int:
@@ -1098,16 +1109,14 @@ def write_collated_yaml_config(
                     if len(pyfhd_config[key]) == 0:
                         pass
                     else:
-                        line = f"{key} : ["
-                        line += f"'{pyfhd_config[key][0]}'"
-                        for item in pyfhd_config[key][1:]:
-                            line += f", '{item}'"
+                        line = f"{yaml_key} : ["
+                        line += ", ".join(quote(item) for item in pyfhd_config[key])
                         line += "]\n"
                         # for item in pyfhd_config[key]:
                         #     outfile.write(f"{key} : {item}\n")
                         outfile.write(line)
                 else:
-                    outfile.write(f"{yaml_key} : '{pyfhd_config[key]}'\n")
+                    outfile.write(f"{yaml_key} : {quote(pyfhd_config[key])}\n")
 
 
 def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
-- 
2.43.0


From 94f75455604147827006bef66def53c16bfbfa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 023/116] fix: the default of memory-threshold could not be
 read back as an int

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index ebeda2e..fb9283c 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -187,7 +187,7 @@ def pyfhd_parser():
     parser.add_argument(
         "--memory-threshold",
         type=int,
-        default=1e8,
+        default=int(1e8),
         help="Set a memory threshold for each chunk in set in bytes. By default it is set at ~100MB",
     )
     parser.add_argument(
-- 
2.43.0


From e05921a8167c3b2f5b0308ab51095dbfc7e0c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 024/116] fix: list options split their values into characters

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index fb9283c..7181ba3 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -483,7 +483,7 @@ def pyfhd_parser():
         "-ft",
         "--flag-tiles",
         default=[],
-        type=list,
+        type=str,
         action="append",
         help="A list of tile names to manually flag. I repeat, a list of tile names, NOT tile indices",
     )
@@ -514,7 +514,8 @@ def pyfhd_parser():
     )
     flag.add_argument(
         "--time-cut",
-        type=list,
+        type=float,
+        nargs="+",
         default=None,
         help="Seconds to cut (rounded up to next time integration step) from the beginning of the observation. Can also specify a negative time to cut off the end of the observation. Specify a vector to cut at both the start and end.",
     )
@@ -867,7 +868,8 @@ def pyfhd_parser():
     )
     sim.add_argument(
         "--tile-flag-list",
-        type=list,
+        type=str,
+        nargs="+",
         help="A string array of tile names to manually flag tiles. Note that this is an array of tile names, not tile indices!",
     )
     sim.add_argument(
@@ -928,7 +930,7 @@ def pyfhd_parser():
     )
     healpix.add_argument(
         "--ps-tile-flag-list",
-        type=list,
+        type=str,
         default=[],
         action="append",
         help="A list of tile names to manually flag in the healpix export. I repeat, a list of tile names, NOT tile indices.",
-- 
2.43.0


From 8cd51cdbadf37d9469cc0827b904b057616c9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 025/116] fix: export-images could not be turned off

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 7181ba3..99f45ca 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -730,7 +730,7 @@ def pyfhd_parser():
     export.add_argument(
         "--export-images",
         help="Export fits files and images of the sky.",
-        action="store_true",
+        action=argparse.BooleanOptionalAction,
         default=True,
     )
     export.add_argument(
-- 
2.43.0


From 89788abb3fae1e972838f424a92ac5392a300a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 026/116] fix: the files of a sav model were never validated

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 99f45ca..b28f68e 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1475,7 +1475,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     if pyfhd_config["model_file_path"]:
         errors += _check_file_exists(pyfhd_config, "model_file_path")
 
-    if pyfhd_config["model_file_path"] == "sav":
+    if pyfhd_config["model_file_path"] and pyfhd_config["model_file_type"] == "sav":
         # We're expecting to find a params file, then a vis_model_XX and vis_model_YY at the very least
         if not Path.exists(
             Path(
@@ -1493,7 +1493,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
             file_path for file_path in files_in_model_path if regex.match(file_path)
         ]
         if len(matching_files) <= 2:
-            errors + 1
+            errors += 1
             logger.error(
                 f"You are missing some required files to read in the model visibilities from sav files, here is the list of found sav files: {matching_files}."
             )
-- 
2.43.0


From 03404662d6bfeb6d4b18ba57750afca765dc7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 027/116] fix: enhance_eor was refused exactly when
 eor_vis_filepath was used

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index b28f68e..5f8f080 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1531,7 +1531,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     errors += _check_file_exists(pyfhd_config, "eor_vis_filepath")
 
     # enhance_eor depends on eor_vis_filepath when its not 1
-    if pyfhd_config["enhance_eor"] > 1 and pyfhd_config["eor_vis_filepath"]:
+    if pyfhd_config["enhance_eor"] > 1 and not pyfhd_config["eor_vis_filepath"]:
         logger.error(
             "enhance_eor is only used when importing general visibilities for a simulation, it should stay as 1 when eor_vis_filepath is not being used"
         )
-- 
2.43.0


From 0b67e509c46291d682894f237da4c386c9dcb701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 028/116] fix: conflicting cable reflection modes were never
 settled

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 5f8f080..105b97e 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1397,13 +1397,9 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
 
     # cal_reflection_mode_theory and cal_reflection_mode_delay cannot be on at the same time, prioritise mode_theory (Warning)
     logic_test = (
-        1
-        if pyfhd_config["cal_reflection_mode_file"]
-        else (
-            0 + 1
-            if pyfhd_config["cal_reflection_mode_delay"]
-            else 0 + 1 if pyfhd_config["cal_reflection_mode_theory"] else 0
-        )
+        bool(pyfhd_config["cal_reflection_mode_file"])
+        + bool(pyfhd_config["cal_reflection_mode_delay"])
+        + bool(pyfhd_config["cal_reflection_mode_theory"])
     )
     if logic_test > 1:
         logger.warning(
@@ -1412,7 +1408,9 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         warnings += 1
         pyfhd_config["cal_reflection_mode_file"] = False
         pyfhd_config["cal_reflection_mode_delay"] = False
-        pyfhd_config["cal_reflection_mode_theory"] = True
+        # Keep the cable lengths that were asked for
+        if not pyfhd_config["cal_reflection_mode_theory"]:
+            pyfhd_config["cal_reflection_mode_theory"] = 1.0
 
     # cal_adaptive_calibration_gain impacts cal_base_gain if cal_base_gain isn't set
     if pyfhd_config["cal_base_gain"] == None:
-- 
2.43.0


From 2e0377e191436ea6354dee3b43aa49eaeeaf45d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 029/116] fix: allow_sidelobe_model_sources failed on an option
 that does not exist

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 105b97e..847c9d4 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1461,7 +1461,7 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     # allow_sidelobe_model_sources depends on model_visibilities (Error)
     if (
         pyfhd_config["allow_sidelobe_model_sources"]
-        and not pyfhd_config["model_visibilities"]
+        and not pyfhd_config.get("model_visibilities", False)
     ):
         logger.error(
             "allow_sidelobe_model_sources shouldn't be True when model_visibilities is not, check if you meant to turn on model_visibilities"
-- 
2.43.0


From cb6989071081a30d130c9779e487b2c36ff79722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 030/116] fix: the beam file, the checkpoints and the extra
 visibilities were not checked before starting

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index 847c9d4..f7e08f0 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1330,6 +1330,12 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
         )
         errors += 1
 
+    # The beam and the checkpoints depend on files (Error)
+    errors += _check_file_exists(pyfhd_config, "beam_file_path")
+    errors += _check_file_exists(pyfhd_config, "obs_checkpoint")
+    errors += _check_file_exists(pyfhd_config, "calibrate_checkpoint")
+    errors += _check_file_exists(pyfhd_config, "gridding_checkpoint")
+
     # Force PyFHD to recalculate the beam, gridding and mapping functions
     if pyfhd_config["recalculate_all"]:
         pyfhd_config["recalculate_beam"] = True
@@ -1538,6 +1544,9 @@ def pyfhd_setup(options: argparse.Namespace) -> Tuple[dict, logging.Logger]:
     # sim_noise depends on a file (Error)
     errors += _check_file_exists(pyfhd_config, "sim_noise")
 
+    # extra_vis_filepath depends on a file (Error)
+    errors += _check_file_exists(pyfhd_config, "extra_vis_filepath")
+
     # restrict_healpix_inds depends on a file (Error)
     if (
         pyfhd_config["healpix_inds"] is not None
-- 
2.43.0


From 0432b8f5645675db06914d2b14ab779b9a388dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 031/116] fix: an output path below a missing directory stopped
 PyFHD

---
 PyFHD/pyfhd_tools/pyfhd_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_setup.py b/PyFHD/pyfhd_tools/pyfhd_setup.py
index f7e08f0..624998b 100644
--- a/PyFHD/pyfhd_tools/pyfhd_setup.py
+++ b/PyFHD/pyfhd_tools/pyfhd_setup.py
@@ -1223,7 +1223,7 @@ def pyfhd_logger(pyfhd_config: dict) -> Tuple[logging.Logger, Path]:
             f"Output path specified by `--output-path={pyfhd_config['output_path']}` does not exist. Attempting to create now."
         )
         output_dir = Path(pyfhd_config["output_path"])
-        Path.mkdir(output_dir)
+        output_dir.mkdir(parents=True)
         print(f"Successfully created directory: {pyfhd_config['output_path']}")
 
     # Create the output directory path. If the user has selected a description,
-- 
2.43.0


From 73683d7581f3269287304d08841f2ab8ffbf61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 032/116] fix: flagging tiles by name failed, and would have
 flagged all tiles but the last of their baselines

---
 PyFHD/flagging/flagging.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index d876691..5f31cd0 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -1,7 +1,7 @@
 import numpy as np
 from numpy.typing import NDArray, ArrayLike
 from logging import Logger
-from PyFHD.pyfhd_tools.pyfhd_utils import idl_median, histogram
+from PyFHD.pyfhd_tools.pyfhd_utils import idl_median
 
 
 def vis_flag_tiles(
@@ -37,27 +37,14 @@ def vis_flag_tiles(
             flag_idx = np.where(obs["baseline_info"]["tile_names"] == flag.strip())[0][
                 0
             ]
-            tile_flag_list_use.append(flag_idx + 1)
+            tile_flag_list_use = np.append(tile_flag_list_use, flag_idx + 1)
         else:
             logger.warning(
                 f"{flag} wasn't found in obs['baseline_info']['tile_names'], skipping it"
             )
-    hist_a, _, ra = histogram(obs["baseline_info"]["tile_a"], min=1)
-    hist_b, _, rb = histogram(obs["baseline_info"]["tile_b"], min=1)
-    hist_c, _, _ = histogram(tile_flag_list_use, min=1)
-    # hist_A and hist_b should be the same size
-    hist_ab = hist_a + hist_b
-    n_bin = min(np.size(hist_ab), np.size(hist_c))
-    tile_cut_i = np.where((hist_ab[0:n_bin] > 0) | (hist_c[0:n_bin] > 0))[0]
-    if np.size(tile_cut_i) > 0:
-        for cut_idx in range(np.size(tile_cut_i)):
-            ti = tile_cut_i[cut_idx]
-            na = ra[ra[ti + 1] - 1] - ra[ra[ti]]
-            if na > 0:
-                vis_weight_arr[:, :, ra[ra[ti] : ra[ti + 1] - 1]] = 0
-            nb = rb[rb[ti + 1] - 1] - rb[rb[ti]]
-            if nb > 0:
-                vis_weight_arr[:, :, rb[rb[ti] : rb[ti + 1] - 1]] = 0
+    baseline_cut = np.isin(obs["baseline_info"]["tile_a"], tile_flag_list_use)
+    baseline_cut |= np.isin(obs["baseline_info"]["tile_b"], tile_flag_list_use)
+    vis_weight_arr[:, :, baseline_cut] = 0
     return vis_weight_arr
 
 
-- 
2.43.0


From 7228d7b9acf0150f964b8ae15c18675385340dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 033/116] fix: basic flagging left the last baseline of a
 flagged time unflagged

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index 5f31cd0..cf5e607 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -176,7 +176,7 @@ def vis_flag_basic(
         time_bin = np.zeros(np.size(obs["baseline_info"]["tile_a"]))
         for ti in range(obs["n_time"]):
             if obs["baseline_info"]["time_use"][ti] <= 0:
-                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1] - 1] = 0
+                vis_weight_arr[:, :, bin_offset[ti] : bin_offset[ti + 1]] = 0
 
     tile_use_indexes = np.where((tile_use) & (obs["baseline_info"]["tile_use"]))[0]
     tile_use_zeros = np.zeros_like(obs["baseline_info"]["tile_use"])
-- 
2.43.0


From 9e2c5c7e7c03b3f2663b815c3f8f836a8da5bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 034/116] fix: vis_flag failed once it found a time to flag

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index cf5e607..9d920b3 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -338,7 +338,7 @@ def vis_flag(
     )[0]
     for ti in range(time_cut.size):
         ti_cut = np.where(time_bin == time_cut[ti])
-        if ti_cut.size > 0:
+        if ti_cut[0].size > 0:
             vis_weights[: obs["n_pol"], :, ti_cut] = 0
 
     obs["n_vis"] = (np.where(vis_weights[0] > 0)[0]).size
-- 
2.43.0


From d9104e209e398ea43d40e33f0d1bf285cccea663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 035/116] fix: vis_flag summed the tile deviations on top of
 uninitialised memory

---
 PyFHD/flagging/flagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index 9d920b3..32b2bae 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -240,7 +240,7 @@ def vis_flag(
     if cut_baselines_i.size > 0:
         vis_weights[: obs["n_pol"], :, cut_baselines_i] = 0
 
-    tile_fom = np.empty(n_tiles_use)
+    tile_fom = np.zeros(n_tiles_use)
     for tile_i in range(n_tiles_use):
         tile_ai = np.where((obs["baseline_info"]["tile_a"] - 1) == tile_i)
         tile_bi = np.where((obs["baseline_info"]["tile_b"] - 1) == tile_i)
-- 
2.43.0


From 3e1e314813b5516fe064046463e108666540282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 036/116] fix: vis_flag kept the outliers in the statistics it
 finds outliers with

---
 PyFHD/flagging/flagging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/flagging/flagging.py b/PyFHD/flagging/flagging.py
index 32b2bae..2c10ac9 100644
--- a/PyFHD/flagging/flagging.py
+++ b/PyFHD/flagging/flagging.py
@@ -279,10 +279,10 @@ def vis_flag(
 
     # We actually want the complements of the where from IDL translation, adjusted conditions accordingly
     tile_cut0 = np.where(
-        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) | (tile_fom != 0)
+        (np.abs(tile_mean - tile_fom) <= 2 * flag_nsigma * tile_dev) & (tile_fom != 0)
     )[0]
     freq_cut0 = np.where(
-        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) | (freq_fom != 0)
+        (np.abs(freq_mean - freq_fom) <= 2 * flag_nsigma * freq_dev) & (freq_fom != 0)
     )[0]
     tile_mean2 = idl_median(tile_fom[tile_cut0])
     tile_dev2 = np.std(tile_fom[tile_cut0])
@@ -329,7 +329,7 @@ def vis_flag(
     time_mean = idl_median(time_fom[time_nonzero])
     time_dev = np.std(time_fom[time_nonzero])
     time_cut0 = np.where(
-        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) | (time_fom != 0)
+        (np.abs(time_mean - time_fom) <= 2 * flag_nsigma * time_dev) & (time_fom != 0)
     )
     time_mean2 = idl_median(time_fom[time_cut0])
     time_dev2 = np.std(time_fom[time_cut0])
-- 
2.43.0


From ab800b67c853aac96ed83f413a4253fa448a91bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 037/116] fix: calibration flagging never flagged the channels
 and tiles without any gain variation

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 205ded3..f1eb4ad 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -231,11 +231,11 @@ def vis_calibration_flag(
         freq_cut_i = np.where(gain_freq_fom == 0)[0]
         freq_uncut_i = np.nonzero(gain_freq_fom)[0]
         if freq_cut_i.size > 0:
-            freq_use[freq_use_i][freq_cut_i] = 0
+            freq_use[freq_use_i[freq_cut_i]] = 0
         tile_cut_i = np.where(gain_tile_fom == 0)[0]
         tile_uncut_i = np.nonzero(gain_tile_fom)[0]
         if tile_cut_i.size > 0:
-            obs["baseline_info"]["tile_use"][tile_use_i][tile_cut_i] = 0
+            obs["baseline_info"]["tile_use"][tile_use_i[tile_cut_i]] = 0
         if freq_uncut_i.size == 0 or tile_uncut_i.size == 0:
             logger.error(
                 "The frequency and tile flagging inside calibration found some values not detected in previous flagging or calibration"
-- 
2.43.0


From 0c7b75cd27dd4d459b1f3e639511040d245b52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 038/116] fix: the flag counts were not updated when no
 visibility is left

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index eb285e3..22e4f82 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1218,6 +1218,10 @@ def vis_weights_update(
         xmin[flag_i] = -1
         ymin[flag_i] = -1
 
+    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
+    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
+    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
+
     if min(np.max(xmin), np.max(ymin)) < 0:
         obs["n_vis"] = 0
         return vis_weights, obs
@@ -1225,10 +1229,6 @@ def vis_weights_update(
     bin_n, _, _ = histogram(xmin + ymin * obs["dimension"], min=0)
     obs["n_vis"] = np.sum(bin_n)
 
-    obs["n_time_flag"] = np.sum(1 - obs["baseline_info"]["time_use"])
-    obs["n_tile_flag"] = np.sum(1 - obs["baseline_info"]["tile_use"])
-    obs["n_freq_flag"] = np.sum(1 - obs["baseline_info"]["freq_use"])
-
     return vis_weights, obs
 
 
-- 
2.43.0


From 88a5d8a89f53f8725361a1b0940f038c107b4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 039/116] fix: splitting the weights only used the first half
 of the integrations

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 22e4f82..f43cd75 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1264,7 +1264,7 @@ def split_vis_weights(
     )
     bin_end[-1] = int(nb - 1)
     bin_i = np.full(nb, -1, dtype=np.int64)
-    for t_i in range(obs["n_time"] // 2):
+    for t_i in range(obs["n_time"]):
         bin_i[obs["baseline_info"]["bin_offset"][t_i] : bin_end[t_i] + 1] = t_i
 
     time_start_i = int(np.min(np.nonzero(obs["baseline_info"]["time_use"])[0]))
@@ -1284,7 +1284,11 @@ def split_vis_weights(
             if bin_i_cut.size > 0:
                 bin_i[bin_i_cut] = -1
 
-    bi_use = [np.where(bin_i % 2 == 0)[0], np.where(bin_i % 2 == 1)[0]]
+    # -1 marks the baselines that aren't part of a pair of integrations
+    bi_use = [
+        np.where((bin_i >= 0) & (bin_i % 2 == 0))[0],
+        np.where((bin_i >= 0) & (bin_i % 2 == 1))[0],
+    ]
 
     # Here we ensure that both even and odd samples are the same size by
     # ensuring both arrays match the smallest size
-- 
2.43.0


From bafa229d36d9b79dda98311ef4f41d3af2576001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 040/116] fix: calculating the noise replaced the weights of
 the pipeline with the even odd split weights

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index f43cd75..164597d 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1343,7 +1343,8 @@ def vis_noise_calc(
         return noise_arr
 
     if bi_use is None:
-        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights)
+        # The split changes the weights it is given
+        vis_weights_use, bi_use = split_vis_weights(obs, vis_weights.copy())
     else:
         vis_weights_use = vis_weights
 
-- 
2.43.0


From cb0a84c40d87146e743bb7819418d3f0d432476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 041/116] fix: gridding took the kernels of other channels and
 baselines

---
 PyFHD/gridding/visibility_grid.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 4632878..4d5a26b 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -6,7 +6,7 @@ from PyFHD.gridding.gridding_utils import (
     grid_beam_per_baseline,
     conjugate_mirror,
 )
-from PyFHD.pyfhd_tools.pyfhd_utils import weight_invert, rebin, l_m_n, idl_argunique
+from PyFHD.pyfhd_tools.pyfhd_utils import weight_invert, l_m_n, idl_argunique
 from logging import Logger
 import h5py
 
@@ -150,7 +150,6 @@ def visibility_grid(
         psf_resolution = psf_resolution[0]
         group_arr = group_arr[:]
     n_baselines = obs["n_baselines"]
-    n_samples = obs["n_time"]
     # New group_arr code that is consistent with the FHD version
     # We go upto n_baselines in the case we have less baselines in the
     # observation than the transferred in beam. In most cases we're only
@@ -159,14 +158,12 @@ def visibility_grid(
     # beams have been done per baseline so if you get an error, sorry!
     group_arr_baselines = np.min([n_baselines, group_arr.shape[-1]])
     group_arr = group_arr[polarization, freq_bin_i, :group_arr_baselines]
-    # REBIN in IDL when expanding dimensions repeats 2D arrays after expanding
-    group_arr = np.expand_dims(rebin(group_arr, (n_f_use, group_arr_baselines)), axis=0)
-    group_arr = np.repeat(group_arr, n_samples, axis=0)
-    group_arr = np.reshape(group_arr, (n_f_use, n_samples * group_arr_baselines))
-    n_freq_use = frequency_array.size
     psf_dim2 = 2 * psf_dim
     psf_dim3 = psf_dim**2
+    n_bi_use = bi_use.size
     bi_use_reduced = bi_use % n_baselines
+    # The group of every visibility, in the shape of the visibilities that are used
+    group_arr = group_arr[:, bi_use_reduced % group_arr_baselines]
 
     # Flags have been defined in the function definition
     # Instead of reading the flags and then setting them.
@@ -255,12 +252,12 @@ def visibility_grid(
         ymin_use = ymin.flat[ind0]
 
         # Find the frequency group per index
-        freq_i = inds % n_freq_use
+        freq_i = inds // n_bi_use
         fbin = freq_bin_i[freq_i]
 
         # Calculate the number of selected visibilities and their baseline index
         vis_n = bin_n[bin_i[bi]]
-        baseline_inds = bi_use_reduced[((inds / n_f_use) % n_baselines).astype(int)]
+        baseline_inds = bi_use_reduced[inds % n_bi_use]
 
         if interp_flag:
             # Calculate the interpolated kernel on the uv-grid given the derivatives to baseline locations
@@ -364,10 +361,8 @@ def visibility_grid(
                     model_box = model_use.flat[inds]
                 vis_box = vis_arr_use.flat[inds]
                 psf_weight = np.ones(vis_n)
-                # IDL had integer / integer i.e. 2015 / 336 == 5, used flooring divider instead in python
-                # ALso do take note that each were very close always within 0.01 of their next number.
-                # e.g. 2015 / 336 = 5.99, should ceiling be be used instead?
-                bt_index = inds // n_freq_use
+                # The arrays are ordered by frequency, then baseline (the reverse of IDL)
+                bt_index = inds % n_bi_use
 
             box_matrix = np.zeros((vis_n, psf_dim3), dtype=arr_type)
             if pyfhd_config["beam_per_baseline"]:
-- 
2.43.0


From 3f08d0e200f036306d12da3d3cb06aeaff0b281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 042/116] fix: gridding the spectral index of a model failed

---
 PyFHD/gridding/visibility_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 4d5a26b..86768b9 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -433,7 +433,7 @@ def visibility_grid(
                 )
                 spectral_model_A[
                     ymin_use : ymin_use + psf_dim, xmin_use : xmin_use + psf_dim
-                ] += term_Am_box
+                ].flat += term_Am_box
 
         if model is not None:
             # If model visibilities are being gridded, calculate the product of the model vis and the beam kernel
-- 
2.43.0


From cf4c9afdd09eb28eb44b2d6c8bcdf7e41982aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 043/116] fix: the grid locations swapped the lengths of the
 axes of rectangular grids

---
 PyFHD/gridding/gridding_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index ac18ad1..261ea3b 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -225,12 +225,12 @@ def baseline_grid_locations(
         baselines_dict["dx1dy1_arr"] = dx_arr * dy_arr
 
     # The minimum pixel in the uv-grid (bottom left of the kernel) that each baseline contributes to
-    xmin = (np.floor(xcen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
-    ymin = (np.floor(ycen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    xmin = (np.floor(xcen) + dimension / 2 - (psf_dim / 2 - 1)).astype(np.int64)
+    ymin = (np.floor(ycen) + elements / 2 - (psf_dim / 2 - 1)).astype(np.int64)
 
     # Set the minimum pixel value of baselines which fall outside of the uv-grid tom -1 to exclude them
-    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= elements - 1))
-    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= dimension - 1))
+    range_test_x_i = np.where((xmin <= 0) | (xmin + psf_dim - 1 >= dimension - 1))
+    range_test_y_i = np.where((ymin <= 0) | (ymin + psf_dim - 1 >= elements - 1))
     if range_test_x_i[0].size > 0:
         xmin[range_test_x_i] = -1
         ymin[range_test_x_i] = -1
-- 
2.43.0


From cfefa6360175871b6f44f1d27a38a0e33872da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 044/116] fix: without a selection the frequency split took the
 indexes of channels for those of baselines

---
 PyFHD/healpix/healpix_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index b46edc8..380d5e4 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -512,12 +512,11 @@ def vis_model_freq_split(
     if bi_use is None:
         if obs["n_pol"] > 1:
             flag_test = np.maximum(np.maximum(vis_weights[0], vis_weights[1]), 0)
-            # Double check the axis used
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
         else:
             flag_test = np.maximum(vis_weights[0], 0)
-            flag_test = np.sum(flag_test, axis=1)
+            flag_test = np.sum(flag_test, axis=0)
             bi_use = np.where(flag_test > 0)[0]
 
     n_vis_use = 0
-- 
2.43.0


From 08e7dcca59c7219d917072b9787cf964c03ebf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 045/116] fix: the frequency split dropped the imaginary parts
 of the uv planes when it is not asked for images

---
 PyFHD/healpix/healpix_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 380d5e4..ce8b417 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -498,10 +498,12 @@ def vis_model_freq_split(
         model_uv_arr = np.zeros(
             [nf, obs["dimension"], obs["dimension"]], dtype=np.complex128
         )
-    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
-    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]])
+    # Images are real, uv planes are not
+    arr_type = np.float64 if fft else np.complex128
+    dirty_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    weights_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
+    model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
     vis_n_arr = np.zeros([nf])
     if pyfhd_config["rephase_weights"]:
         rephase_use = phase_shift_uv_image(obs)
-- 
2.43.0


From af9f6cf773ae87d3251850835b551f40f01e57e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 046/116] fix: the beams per baseline took the columns of a
 rectangular grid for its rows

---
 PyFHD/gridding/visibility_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 86768b9..851d753 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -175,7 +175,7 @@ def visibility_grid(
         vv = params["vv"][bi_use]
         ww = params["ww"][bi_use]
         x = (np.arange(dimension) - dimension / 2) * obs["kpix"]
-        y = x.copy()
+        y = (np.arange(elements) - elements / 2) * obs["kpix"]
         psf_intermediate_res = np.min(
             [np.ceil(np.sqrt(psf_resolution) / 2) * 2, psf_resolution]
         )
-- 
2.43.0


From 661ff06b0cac6d5105b93f8d85686702f130d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 047/116] fix: applying the calibration to four polarisations
 looked up a key the observation does not have

---
 PyFHD/calibration/calibration_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index f1eb4ad..d67dad5 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1435,10 +1435,10 @@ def vis_calibration_apply(
             # Use the xx flags (yy should be identitical at this point)
 
             # this is num baselines per time step
-            n_baselines = int(len(tile_a_i) / obs["n_times"])
+            n_baselines = int(len(tile_a_i) / obs["n_time"])
             # reshape from (n_freq, n_baselines*n_times) to (n_freq, n_times, n_baselines). Turns out due to the row major vs col major difference
             # between IDL and python, this shape also changes
-            new_shape = (obs["n_freq"], obs["n_times"], n_baselines)
+            new_shape = (obs["n_freq"], obs["n_time"], n_baselines)
             weights_use = np.reshape(vis_weights[0, :, :], new_shape)
             # carried over from FHD code
             weights_use = np.maximum(weights_use, np.zeros_like(weights_use))
-- 
2.43.0


From 786696b68ce697d7aae1e6bbfa3d58f89c159c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 048/116] fix: the polynomial fit without a bandpass was given
 the observation for the calibration

---
 PyFHD/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibrate.py b/PyFHD/calibration/calibrate.py
index 565a3c5..6084529 100644
--- a/PyFHD/calibration/calibrate.py
+++ b/PyFHD/calibration/calibrate.py
@@ -125,7 +125,7 @@ def calibrate(
         if pyfhd_config["auto_ratio_calibration"]:
             cal = cal_auto_ratio_remultiply(cal, auto_ratio, auto_tile_i)
     elif pyfhd_config["calibration_polyfit"]:
-        cal = vis_cal_polyfit(cal, obs, None, pyfhd_config, logger)
+        cal = vis_cal_polyfit(obs, cal, None, pyfhd_config, logger)
 
     # Get the gain residuals
     if pyfhd_config["calibration_auto_fit"]:
-- 
2.43.0


From 704112202d4e8715d22bd3c940ceb6d527bbc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 049/116] fix: the gain solver failed when every tile has the
 same number of equations

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 616ec74..2607405 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -287,9 +287,6 @@ def vis_calibrate_subroutine(
                     A_ind_arr.append(-1)
                 # NEED SOMETHING MORE IN CASE INDIVIDUAL TILES ARE FLAGGED FOR ONLY A FEW FREQUENCIES!!
                 n_arr[tile_i] = inds.size
-            # I suspect a list of lists maybe faster than the object array, check during optimization
-            # Although I doubt it will make a huge difference.
-            A_ind_arr = np.array(A_ind_arr, dtype=object)
             # For tiles which don't satisfy the minimum number of solutions, pre-emptively set them to 0
             # in order to prevent certain failure in meeting strict convergence threshold
             inds_min_cal = np.where(n_arr < min_cal_solutions)[0]
-- 
2.43.0


From 0f593f182c2b31afebdd2c7fe14ea6012dcbeeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 050/116] fix: the gain solver gave the data of flagged tiles
 to the first tile

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 2607405..a398c17 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -210,6 +210,13 @@ def vis_calibrate_subroutine(
         tile_use_flag = obs["baseline_info"]["tile_use"]
         freq_use_flag = obs["baseline_info"]["freq_use"]
 
+        # The baselines of flagged tiles don't take part
+        flag_tile_cut = np.where(
+            (tile_use_flag[tile_A_i] <= 0) | (tile_use_flag[tile_B_i] <= 0)
+        )[0]
+        if flag_tile_cut.size > 0:
+            weight[:, flag_tile_cut] = 0
+
         freq_weight = np.sum(weight, axis=1)
         baseline_weight = np.sum(weight, axis=0)
         freq_use = np.where((freq_weight > 0) & (freq_use_flag > 0))[0]
-- 
2.43.0


From c44396a5935d5b2f5a896e3b1b0bf831a322e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 051/116] fix: a channel in which the reference tile has no
 gain stopped the gain solver

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index a398c17..1b9f971 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -368,6 +368,9 @@ def vis_calibrate_subroutine(
                     gain_curr *= np.conj(gain_curr[ref_tile_use]) / np.abs(
                         gain_curr[ref_tile_use]
                     )
+                    if np.all(np.isnan(gain_curr)):
+                        # The reference tile has no gain in this channel
+                        break
                 convergence_strict = np.max(
                     np.abs(gain_curr - gain_old) * weight_invert(np.abs(gain_old))
                 )
@@ -434,14 +437,12 @@ def vis_calibrate_subroutine(
                 )
             del A_ind_arr
             gain_arr[fi, tile_use] = gain_curr
-        nan_i = np.where(np.isnan(gain_curr))[0]
-        if nan_i.size > 0:
-            # any gains with NANs -> all tiles for that freq will have NANs
-            freq_nan_i = nan_i % n_freq
-            freq_nan_i = freq_nan_i[np.unique(freq_nan_i)]
-            vis_weight_ptr_use[pol_i][:, freq_nan_i] = 0
-            weight[:, freq_nan_i] = 0
-            gain_arr[nan_i] = 0
+        # any gains with NANs -> all tiles for that freq will have NANs
+        freq_nan_i = np.where(np.isnan(gain_arr[:, tile_use]).any(axis=1))[0]
+        if freq_nan_i.size > 0:
+            vis_weight_ptr_use[pol_i][freq_nan_i] = 0
+            weight[freq_nan_i] = 0
+            gain_arr[freq_nan_i] = 0
         if tile_flag.size > 0:
             # set flagged tiles to NAN to remove from calculations
             gain_arr[:, tile_flag] = np.nan
-- 
2.43.0


From ce466c79b4f7579083d68164dfb7baed398d8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 052/116] fix: averaging the auto-correlations of a single time
 failed

---
 PyFHD/calibration/calibration_utils.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index d67dad5..1f2559e 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -70,22 +70,16 @@ def vis_extract_autocorr(
                 for tile_i in range(auto_tile_i_single.size):
                     baseline_i = np.where(auto_tile_i == auto_tile_i_single[tile_i])[0]
                     baseline_i = baseline_i[time_inds]
-                    if time_inds.size > 1:
-                        # OK, auto_vals is of shape (n_freq, n_autos)
-                        # We want to average a subset of baseline_i within auto_vals,
-                        # to average a specific auto-correlation over time
-                        auto_single[:, tile_i] = (
-                            np.sum(
-                                auto_vals[:, baseline_i][np.arange(obs["n_freq"]), :],
-                                axis=1,
-                            )
-                            / time_inds.size
+                    # OK, auto_vals is of shape (n_freq, n_autos)
+                    # We want to average a subset of baseline_i within auto_vals,
+                    # to average a specific auto-correlation over time
+                    auto_single[:, tile_i] = (
+                        np.sum(
+                            auto_vals[:, baseline_i][np.arange(obs["n_freq"]), :],
+                            axis=1,
                         )
-
-                    else:
-                        auto_single[:, tile_i] = auto_vals[:, baseline_i][
-                            np.arange(obs["n_freq"]), :
-                        ]
+                        / time_inds.size
+                    )
                 auto_vals = auto_single
             auto_corr[pol_i, :, :] = auto_vals
         if pyfhd_config["cal_time_average"]:
-- 
2.43.0


From 673ff0749902a474c384153fac7f903f57330fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 053/116] fix: tiles without auto-correlations were divided by
 uninitialised memory

---
 PyFHD/calibration/calibration_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 1f2559e..3551068 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1578,11 +1578,15 @@ def cal_auto_ratio_divide(
         visibilities normalized via a reference tile.
     """
 
-    auto_ratio = np.empty([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # Tiles without auto-correlations are left alone
+    auto_ratio = np.ones([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
+    # The auto-correlations are ordered as auto_tile_i, and might not be there for every tile
+    ref_i = np.where(auto_tile_i == cal["ref_antenna"])[0]
+    ref_i = ref_i[0] if ref_i.size > 0 else 0
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-        v0 = vis_auto[pol_i, :, auto_tile_i[cal["ref_antenna"]]]
+        v0 = vis_auto[pol_i, :, ref_i]
         auto_ratio[pol_i, :, auto_tile_i] = np.sqrt(
             vis_auto[pol_i, :, np.arange(auto_tile_i.size)] * weight_invert(v0)
         )
-- 
2.43.0


From 7c755f62be6f24e6ba0c82c674ff0a33caa4fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 054/116] fix: the auto-correlation fit averaged uninitialised
 memory and failed for one polarisation

---
 PyFHD/calibration/calibration_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 3551068..a733c86 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1302,8 +1302,8 @@ def vis_cal_auto_fit(
         vis_auto[: cal["n_pol"]] * weight_invert(vis_auto_model[: cal["n_pol"]])
     )
     gain_cross = cal["gain"]
-    fit_slope = np.empty((cal["n_pol"], obs["n_tile"]))
-    fit_offset = np.empty_like(fit_slope)
+    fit_slope = np.zeros((cal["n_pol"], obs["n_tile"]))
+    fit_offset = np.zeros_like(fit_slope)
 
     # Didn't vectorize as the polyfit won't be vectorized
     for pol_i in range(cal["n_pol"]):
@@ -1339,7 +1339,7 @@ def vis_cal_auto_fit(
             fit_slope[pol_i, tile_idx] = fit_single[0]
             fit_offset[pol_i, tile_idx] = fit_single[1]
     cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tile_i.size
-    cal["auto_params"] = np.empty([cal["n_pol"], cal["n_pol"], obs["n_tile"]])
+    cal["auto_params"] = np.empty([2, cal["n_pol"], obs["n_tile"]])
     cal["auto_params"][0, :, :] = fit_offset
     cal["auto_params"][1, :, :] = fit_slope
     return cal
-- 
2.43.0


From a94fb2c885a4e3a4a94a1b19c4921fdb59389655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 055/116] fix: the amplitude fit left out its highest term and
 failed for gains that are zero

---
 PyFHD/calibration/calibration_utils.py | 45 ++++++++++++++++++--------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index a733c86..b2a97e2 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -847,6 +847,33 @@ def vis_cal_bandpass(
     return cal_bandpass, cal_remainder
 
 
+def _polynomial_fit(
+    x: NDArray[np.integer], y: NDArray[np.float64], degree: int
+) -> NDArray[np.float64]:
+    """
+    The degree + 1 coefficients of the polynomial fit, lowest first. NumPy leaves out trailing
+    coefficients that are zero.
+
+    Parameters
+    ----------
+    x : NDArray[np.int\_]
+        The positions of the samples
+    y : NDArray[np.float64]
+        The samples
+    degree : int
+        The degree of the polynomial
+
+    Returns
+    -------
+    params : NDArray[np.float64]
+        The coefficients of the polynomial
+    """
+    params = np.zeros(degree + 1)
+    coef = np.polynomial.Polynomial.fit(x, y, deg=degree).convert().coef
+    params[: coef.size] = coef
+    return params
+
+
 def vis_cal_polyfit(
     obs: dict,
     cal: dict,
@@ -990,27 +1017,19 @@ def vis_cal_polyfit(
                     )
             # Fit for amplitude
             else:
-                fit_params = (
-                    np.polynomial.Polynomial.fit(
-                        freq_use, gain, deg=pyfhd_config["cal_amp_degree_fit"]
-                    )
-                    .convert()
-                    .coef
+                fit_params = _polynomial_fit(
+                    freq_use, gain, pyfhd_config["cal_amp_degree_fit"]
                 )
                 cal["amp_params"][pol_i, tile_i, :] = fit_params
-                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                for di in range(fit_params.size):
                     gain_fit += fit_params[di] * np.arange(obs["n_freq"]) ** di
 
             gain_residual[pol_i, :, tile_i] = gain_amp[:, tile_i] - gain_fit
 
             # Fit for phase
             phase_use = np.unwrap(np.squeeze(gain_phase[freq_use, tile_i]))
-            phase_params = (
-                np.polynomial.Polynomial.fit(
-                    freq_use, phase_use, pyfhd_config["cal_phase_degree_fit"]
-                )
-                .convert()
-                .coef
+            phase_params = _polynomial_fit(
+                freq_use, phase_use, pyfhd_config["cal_phase_degree_fit"]
             )
             cal["phase_params"][pol_i, tile_i, :] = phase_params
             phase_fit = np.zeros(obs["n_freq"])
-- 
2.43.0


From 11a8827edbc9712bd479fc017b7af037f9e21246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 056/116] fix: the fit on both sides of the digital gain jump
 failed

---
 PyFHD/calibration/calibration_utils.py | 78 +++++++++++---------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index b2a97e2..469c6f1 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -946,12 +946,22 @@ def vis_cal_polyfit(
     gain_residual = np.empty((cal["n_pol"], obs["n_freq"], obs["n_tile"]))
     # create amp_params with the shape of (n_pol, n_tile, amp_degree + 1)
     # If we're using the digital_gain_jump_polyfit add extra dimension to amp_params
-    if pyfhd_config["digital_gain_jump_polyfit"]:
+    freq_jump = obs["baseline_info"]["freq"][freq_use] < 187.515e6
+    digital_gain_jump = (
+        pyfhd_config["digital_gain_jump_polyfit"]
+        and np.any(freq_jump)
+        and not np.all(freq_jump)
+    )
+    if pyfhd_config["digital_gain_jump_polyfit"] and not digital_gain_jump:
+        logger.warning(
+            "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+        )
+    if digital_gain_jump:
         cal["amp_params"] = np.empty(
             (
                 cal["n_pol"],
                 obs["n_tile"],
-                pyfhd_config["cal_amp_degree_fit"],
+                2,
                 pyfhd_config["cal_amp_degree_fit"],
             )
         )
@@ -970,51 +980,31 @@ def vis_cal_polyfit(
             gain = np.squeeze(gain_amp[freq_use, tile_i])
             gain_fit = np.zeros(obs["n_freq"])
             # Pre and post digital gain jump separately for highband MWA data
-            if pyfhd_config["digital_gain_jump_polyfit"]:
-                pre_dig_inds = np.where(
-                    obs["baseline_info"]["freq"][freq_use] < 187.515e6
+            if digital_gain_jump:
+                f_d = np.max(np.where(freq_jump)[0])
+                f_end = freq_use.size
+                fit_params1 = _polynomial_fit(
+                    freq_use[0 : f_d + 1],
+                    gain[0 : f_d + 1],
+                    pyfhd_config["cal_amp_degree_fit"] - 1,
                 )
-                if pre_dig_inds[0].size > 0:
-                    f_d = np.max(pre_dig_inds[0])
-                    f_end = freq_use.size
-                    fit_params1 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[0 : f_d + 1],
-                            gain[0 : f_d + 1],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
-                    )
-                    fit_params2 = (
-                        np.polynomial.Polynomial.fit(
-                            freq_use[f_d + 1 : f_end],
-                            gain[f_d + 1 : f_end],
-                            deg=pyfhd_config["cal_amp_degree_fit"] - 1,
-                        )
-                        .convert()
-                        .coef
+                fit_params2 = _polynomial_fit(
+                    freq_use[f_d + 1 : f_end],
+                    gain[f_d + 1 : f_end],
+                    pyfhd_config["cal_amp_degree_fit"] - 1,
+                )
+                for di in range(pyfhd_config["cal_amp_degree_fit"]):
+                    gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
+                        np.arange(freq_use[0], freq_use[f_d] + 1) ** di
                     )
-                    for di in range(pyfhd_config["cal_amp_degree_fit"]):
-                        gain_fit[freq_use[0] : freq_use[f_d] + 1] += fit_params1[di] * (
-                            np.arange(freq_use[f_d]) ** di
-                        )
-                        gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
-                            fit_params2[di]
-                            * (
-                                np.arange(freq_use[f_end - 1] - freq_use[f_d + 1] + 1)
-                                + freq_use[f_d + 1]
-                            )
-                            ** di
-                        )
-                    # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
-                    # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
-                    fit_params = np.vstack([fit_params1, fit_params2])
-                    cal["amp_params"][pol_i, tile_i] = fit_params
-                else:
-                    logger.warning(
-                        "digital_gain_jump_polyfit only works with highband mwa data. Full band polyfit applied instead."
+                    gain_fit[freq_use[f_d + 1] : freq_use[f_end - 1] + 1] += (
+                        fit_params2[di]
+                        * np.arange(freq_use[f_d + 1], freq_use[f_end - 1] + 1) ** di
                     )
+                # Do notice this is saving the coefficients on a per row basis, so fit_params1 a,b will be [pol_i, tile_i, 0, :]
+                # While fit_params2 a, b coefficients will be in [pol_i, tile_i, 1, :]
+                fit_params = np.vstack([fit_params1, fit_params2])
+                cal["amp_params"][pol_i, tile_i] = fit_params
             # Fit for amplitude
             else:
                 fit_params = _polynomial_fit(
-- 
2.43.0


From 0fcf0d602a06f72206068fdf172f027b1687048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 057/116] fix: the cable reflection modes from a file or the
 delay spectrum failed or used a single channel

---
 PyFHD/calibration/calibration_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 469c6f1..8ef52c3 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1052,10 +1052,11 @@ def vis_cal_polyfit(
             # Modes in fourier transform units
             mode_i_arr = np.zeros((cal["n_pol"], obs["n_tile"]))
             mode_i_arr[0, :] = tile_mode_X * tile_ref_flag
-            mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
+            if cal["n_pol"] > 1:
+                mode_i_arr[1, :] = tile_mode_Y * tile_ref_flag
 
             amp_arr = np.vstack([tile_amp_X, tile_amp_Y])
-            phase_arr = np.vstack[[tile_phase_X, tile_phase_Y]]
+            phase_arr = np.vstack([tile_phase_X, tile_phase_Y])
 
         elif pyfhd_config["cal_reflection_mode_theory"]:
             logger.info(
@@ -1099,7 +1100,7 @@ def vis_cal_polyfit(
             for pol_i in range(cal["n_pol"]):
                 for ti in range(tile_use.size):
                     tile_i = tile_use[ti]
-                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, tile_i]))
+                    spec0 = np.abs(np.fft.fftn(gain_residual[pol_i, :, tile_i]))
                     mode_test += spec0[spec_inds]
             psf_mask = np.zeros(obs["n_freq"] // 2)
 
-- 
2.43.0


From f74103181be2d25a4ee986a39efe239054ca6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 058/116] fix: the amplitude of a fitted cable reflection was
 not normalised

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 8ef52c3..f4939e7 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1239,7 +1239,7 @@ def vis_cal_polyfit(
                             np.exp(1j * 2 * np.pi / obs["n_freq"] * mode_i * freq_use)
                             * gain_arr[freq_use, tile_i]
                         )
-                        amp_use = np.abs(mode_fit) / freq_use[0].size
+                        amp_use = np.abs(mode_fit) / freq_use.size
                         phase_use = np.arctan2(mode_fit.imag, mode_fit.real)
 
                     gain_mode_fit = amp_use * np.exp(
-- 
2.43.0


From 0936f31017a7539871ec9f4de1461d6038c2a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 059/116] fix: the cable reflection parameters of tiles without
 a reflection were uninitialised memory

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index f4939e7..8b2bd62 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1134,7 +1134,7 @@ def vis_cal_polyfit(
                 tile_ref_flag[cable_cut] = 0
             mode_i_arr *= tile_ref_flag
 
-        cal["mode_params"] = np.empty([cal["n_pol"], obs["n_tile"], 3])
+        cal["mode_params"] = np.zeros([cal["n_pol"], obs["n_tile"], 3])
         for pol_i in range(cal["n_pol"]):
             # Divide the polyfit to reveal the residual cable reflections better
             gain_arr = og_gain_arr[pol_i] / cal["gain"][pol_i]
-- 
2.43.0


From a70c4b6c600952dc298302705b81b1472273a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 060/116] fix: the gain solver swapped the lengths of the axes
 of rectangular grids

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 1b9f971..5df5c9a 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -176,8 +176,8 @@ def vis_calibrate_subroutine(
         if calibration_weights:
             flag_dist_cut = np.where(
                 (dist_arr < min_baseline)
-                | (xcen > (elements / 2))
-                | (ycen > (dimension / 2))
+                | (xcen > (dimension / 2))
+                | (ycen > (elements / 2))
             )
             if min_cal_baseline > min_baseline:
                 taper_min = np.maximum(
@@ -196,8 +196,8 @@ def vis_calibrate_subroutine(
             flag_dist_cut = np.where(
                 (dist_arr < min_cal_baseline)
                 | (dist_arr > max_cal_baseline)
-                | (xcen > (elements / 2))
-                | (ycen > (dimension / 2))
+                | (xcen > (dimension / 2))
+                | (ycen > (elements / 2))
             )
         # Remove kx_arr, ky_arr and dist_arr from the namespace, allow garbage collector to do its work
         del (kx_arr, ky_arr, dist_arr)
-- 
2.43.0


From 431e306f76fd7f2ab35146fca22cf181a1376481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 061/116] fix: the gain solver failed when a polarisation has
 no usable equations

---
 PyFHD/calibration/vis_calibrate_subroutine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyFHD/calibration/vis_calibrate_subroutine.py b/PyFHD/calibration/vis_calibrate_subroutine.py
index 5df5c9a..111fcb6 100644
--- a/PyFHD/calibration/vis_calibrate_subroutine.py
+++ b/PyFHD/calibration/vis_calibrate_subroutine.py
@@ -246,10 +246,11 @@ def vis_calibrate_subroutine(
         ref_tile_use = np.where(reference_tile == tile_use)
         if ref_tile_use[0].size == 0:
             ref_tile_use = 0
-            cal["ref_antenna"] = tile_use[ref_tile_use]
-            cal["ref_antenna_name"] = obs["baseline_info"]["tile_names"][
-                cal["ref_antenna"]
-            ]
+            if tile_use.size > 0:
+                cal["ref_antenna"] = tile_use[ref_tile_use]
+                cal["ref_antenna_name"] = obs["baseline_info"]["tile_names"][
+                    cal["ref_antenna"]
+                ]
         else:
             # Extract out value to avoid any weird stuff happening
             ref_tile_use = ref_tile_use[0][0]
-- 
2.43.0


From e879bf65f9355e9e9a6c8f16b74d376b577c5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 062/116] fix: the auto-correlation ratio compared different
 times of the tile and the reference

---
 PyFHD/calibration/calibration_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 8b2bd62..17c38d9 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1590,9 +1590,10 @@ def cal_auto_ratio_divide(
 
     # Tiles without auto-correlations are left alone
     auto_ratio = np.ones([cal["n_pol"], obs["n_freq"], obs["n_tile"]])
-    # The auto-correlations are ordered as auto_tile_i, and might not be there for every tile
-    ref_i = np.where(auto_tile_i == cal["ref_antenna"])[0]
-    ref_i = ref_i[0] if ref_i.size > 0 else 0
+    # The auto-correlations are ordered as auto_tile_i, and might not be there for every tile.
+    # Without an average over the times the ratio is that of the last time
+    ref_tile = cal["ref_antenna"] if cal["ref_antenna"] in auto_tile_i else auto_tile_i[0]
+    ref_i = np.where(auto_tile_i == ref_tile)[0][-1]
     # This should be possible to Vectorize if it's slow
     for pol_i in range(cal["n_pol"]):
         # fhd_struct_init_cal puts the ref_antenna as 1 if it's not set, which is never appears to be
-- 
2.43.0


From 3de07033c98dffc15ca384fefc77af9c91ad01a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 063/116] fix: the auto-correlation fit was repeated on its own
 result for every time

---
 PyFHD/calibration/calibration_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 17c38d9..4aa59ea 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1315,10 +1315,12 @@ def vis_cal_auto_fit(
     fit_slope = np.zeros((cal["n_pol"], obs["n_tile"]))
     fit_offset = np.zeros_like(fit_slope)
 
+    # Without an average over the times every tile is there once per time
+    auto_tiles = np.unique(auto_tile_i)
     # Didn't vectorize as the polyfit won't be vectorized
     for pol_i in range(cal["n_pol"]):
-        for tile in range(auto_tile_i.size):
-            tile_idx = auto_tile_i[tile]
+        for tile in range(auto_tiles.size):
+            tile_idx = auto_tiles[tile]
             phase_cross_single = np.arctan2(
                 gain_cross[pol_i, :, tile_idx].imag, gain_cross[pol_i, :, tile_idx].real
             )
@@ -1348,7 +1350,7 @@ def vis_cal_auto_fit(
             ) * np.exp(1j * phase_cross_single)
             fit_slope[pol_i, tile_idx] = fit_single[0]
             fit_offset[pol_i, tile_idx] = fit_single[1]
-    cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tile_i.size
+    cal["auto_scale"] = np.sum(fit_slope, axis=1) / auto_tiles.size
     cal["auto_params"] = np.empty([2, cal["n_pol"], obs["n_tile"]])
     cal["auto_params"][0, :, :] = fit_offset
     cal["auto_params"][1, :, :] = fit_slope
-- 
2.43.0


From 3ae72f1f8a87cc5375a0c17c83e45d39d4b0a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 064/116] fix: extracting the auto-correlations failed with an
 abstract integer type

---
 PyFHD/calibration/calibration_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 4aa59ea..387ef13 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -49,7 +49,7 @@ def vis_extract_autocorr(
     if autocorr_i.size > 0:
         auto_tile_i = obs["baseline_info"]["tile_a"][autocorr_i] - 1
         # As auto_tile_i is used for indexing we need to make it an integer array
-        auto_tile_i = auto_tile_i.astype(np.integer)
+        auto_tile_i = auto_tile_i.astype(np.int64)
         auto_tile_i_single = np.unique(auto_tile_i)
         # expect it as a list of 2D arrays, so there might be trouble
         if not pyfhd_config["cal_time_average"]:
-- 
2.43.0


From 161053f77d5ba4e6daecb64335f73b182169a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 065/116] fix: the calibration's baseline histogram compared
 different samples where the model is zero

---
 PyFHD/calibration/calibration_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyFHD/calibration/calibration_utils.py b/PyFHD/calibration/calibration_utils.py
index 387ef13..3577ee2 100644
--- a/PyFHD/calibration/calibration_utils.py
+++ b/PyFHD/calibration/calibration_utils.py
@@ -1535,6 +1535,7 @@ def vis_baseline_hist(
                 wh_noflag = np.where(np.abs(model_vals) > 0)[0]
                 if wh_noflag.size > 0:
                     inds = inds[wh_noflag]
+                    model_vals = model_vals[wh_noflag]
                 else:
                     continue
                 # if Keyword_Set(calibration_visibilities_subtract) THEN BEGIN
-- 
2.43.0


From ef2649aea4e7ee0b2c7cd6cb607cbbeaeeeb5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 066/116] fix: the site of an observation was looked up when
 its header gives it, with a broken fallback

---
 PyFHD/data_setup/uvfits.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 7c38c33..5a01955 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -103,15 +103,16 @@ def extract_header(
     # If you want to see the list of current site names using EarthLocation.get_site_names()
     # If you want to use PyFHD with HERA in the future
     # and make it compatible you might have to put in the lat/lon/alt yourself
-    try:
-        location = EarthLocation.of_site(pyfhd_config["instrument"])
-    except astropy.coordinates.errors.UnknownSiteException:
-        # If the site isn't known then select MWA, which no longer uses inbuilt corrdinates from the FHD repo.
-        logger.info(
-            f"Failed to load in the {pyfhd_config['instrument']} instrument location from astropy. If lon/lat/alt are not in the UVFITS things will fail."
-        )
-        # Can also do MWA or Murchison Widefield Array
-        location = EarthLocation("mwa")
+    if not all(key in params_header for key in ("lon", "lat", "alt")):
+        try:
+            location = EarthLocation.of_site(pyfhd_config["instrument"])
+        except astropy.coordinates.errors.UnknownSiteException:
+            # If the site isn't known then select MWA, which no longer uses inbuilt corrdinates from the FHD repo.
+            logger.info(
+                f"Failed to load in the {pyfhd_config['instrument']} instrument location from astropy. Using the MWA location for lon/lat/alt not in the UVFITS."
+            )
+            # Can also do MWA or Murchison Widefield Array
+            location = EarthLocation.of_site("mwa")
 
     try:
         pyfhd_header["lon"] = params_header["lon"]
-- 
2.43.0


From 22c2cc2dee1cc4d6ec037de378003e05ab381805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 067/116] fix: the baseline or the date as the first group
 parameter counted as missing

---
 PyFHD/data_setup/uvfits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 5a01955..79c53d7 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -168,15 +168,17 @@ def extract_header(
     pyfhd_header["ant2_i"] = "ANTENNA2" in param_list
 
     if not pyfhd_header["ant1_i"] or not pyfhd_header["ant2_i"]:
-        pyfhd_header["baseline_i"] = param_list.index("BASELINE")
-        if not pyfhd_header["baseline_i"]:
+        if "BASELINE" in param_list:
+            pyfhd_header["baseline_i"] = param_list.index("BASELINE")
+        else:
             logger.error(
                 "Group parameter BASELINE (or ANTENNA1 and ANTENNA2) not found within uvfits params_header PTYPE keywords"
             )
             params_valid = False
 
-    pyfhd_header["date_i"] = param_list.index("DATE")
-    if not pyfhd_header["date_i"]:
+    if "DATE" in param_list:
+        pyfhd_header["date_i"] = param_list.index("DATE")
+    else:
         logger.error(
             "Group parameter DATE not found within uvfits params_header PTYPE keywords"
         )
-- 
2.43.0


From d663054e8d28a1413ec90644c9b3059af0b7a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 068/116] fix: the number of tiles was always that of the MWA

---
 PyFHD/data_setup/uvfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 79c53d7..c1697b5 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -71,7 +71,7 @@ def extract_header(
     pyfhd_header["real_index"] = 0
     pyfhd_header["imaginary_index"] = 1
     pyfhd_header["weights_index"] = 2
-    pyfhd_header["n_tile"] = 128
+    pyfhd_header["n_tile"] = antenna_header["naxis2"]
     pyfhd_header["naxis"] = params_header["naxis"]
     pyfhd_header["n_params"] = params_header["pcount"]
     pyfhd_header["n_baselines"] = params_header["gcount"]
-- 
2.43.0


From 4afd76bee454ea734e4a0d5bde67210d5ee80065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 069/116] fix: baselines were decoded with a base guessed from
 the smallest one

---
 PyFHD/data_setup/uvfits.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index c1697b5..3330b79 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -264,18 +264,15 @@ def create_params(
             params["antenna2"] = params_data["ANTENNA2"]
         # Else calculate it from the baseline array
         else:
-            # Calculate antenna_mod_index to check for bad fits
             params["baseline_arr"] = params_data["BASELINE"]
-            baseline_min = np.min(params["baseline_arr"])
-            exponent = np.log(np.min(baseline_min)) / np.log(2)
-            antenna_mod_index = 2 ** np.floor(exponent)
-            tile_B_test = np.min(baseline_min) % antenna_mod_index
-            if tile_B_test > 1:
-                if baseline_min % 2 == 1:
-                    antenna_mod_index /= 2 ** np.floor(np.log(tile_B_test) / np.log(2))
+            # The UVFITS encoding is 256 * antenna1 + antenna2, with more than 255 antennas
+            # it is 2048 * antenna1 + antenna2 + 65536
+            extended = params["baseline_arr"] > 65536
+            antenna_mod_index = np.where(extended, 2048, 256)
+            baseline_code = params["baseline_arr"] - np.where(extended, 65536, 0)
             # Tile numbers start from 1
-            params["antenna1"] = np.floor(params["baseline_arr"] / antenna_mod_index)
-            params["antenna2"] = np.fix(params["baseline_arr"] % antenna_mod_index)
+            params["antenna1"] = np.floor(baseline_code / antenna_mod_index)
+            params["antenna2"] = np.fix(baseline_code % antenna_mod_index)
 
     except KeyError as error:
         logger.error(
-- 
2.43.0


From 08f9885229b0aee90b2752e3c557e57741dd611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 070/116] fix: the second date of a sample was left out of its
 time

---
 PyFHD/data_setup/uvfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 3330b79..1a7adaa 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -195,7 +195,7 @@ def extract_header(
         # This needs testing as Astropy scales automatically, which affects the DATE data read in, this should be the same though
         pyfhd_header["jd0"] = (
             params_header["PZERO{}".format(pyfhd_header["date_i"] + 1)]
-            + params_data["DATE"][0]
+            + params_data.par("DATE")[0]
             - params_data.columns[pyfhd_header["date_i"]].bzero
         )
     else:
@@ -256,7 +256,10 @@ def create_params(
         params["vv"] = params_data["VV"].astype(np.float64)
         params["ww"] = params_data["WW"].astype(np.float64)
         # Astropy has already normalized the values by PZEROx, time in Julian
+        # When there are two DATE parameters the time is the sum of the two
         params["time"] = params_data["DATE"]
+        if "_DATE" in params_data.dtype.names:
+            params["time"] = params["time"] + params_data["_DATE"]
         # Get baseline and antenna arrays
         # The antenna arrays already exist then take those
         if pyfhd_header["ant1_i"] and pyfhd_header["ant2_i"]:
-- 
2.43.0


From 5a29bae0b94f269b5371016566b756ba2eeacea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 071/116] fix: extracting the visibilities failed for a single
 channel, polarisation or row

---
 PyFHD/data_setup/uvfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index 1a7adaa..fa43db4 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -319,7 +319,11 @@ def extract_visibilities(
     extract_header : Extracts the header from the UVFITS file and returns the header and data
     """
 
-    data_array = np.squeeze(params_data["DATA"])
+    data_array = params_data["DATA"]
+    # Remove the coordinate (and spectral window) axes of length one
+    for axis in range(data_array.ndim - 4, 0, -1):
+        if data_array.shape[axis] == 1:
+            data_array = np.squeeze(data_array, axis=axis)
     # Set the number of polarizations
     if pyfhd_config["n_pol"] == 0:
         n_pol = pyfhd_header["n_pol"]
-- 
2.43.0


From 2c0730736918a586b417777c11e15b4866ef9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 072/116] fix: the layout had no leap seconds and too few
 antenna numbers when they are not in the file

---
 PyFHD/data_setup/uvfits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/uvfits.py b/PyFHD/data_setup/uvfits.py
index fa43db4..c2685ae 100644
--- a/PyFHD/data_setup/uvfits.py
+++ b/PyFHD/data_setup/uvfits.py
@@ -501,6 +501,7 @@ def create_layout(
             logger.warning(
                 "Number of Leap Seconds is missing and the time system isn't IAT so we can't know the leap seconds, setting as -1"
             )
+            layout["nleap_sec"] = -1
 
     # Polarization Type
     try:
@@ -539,10 +540,10 @@ def create_layout(
     try:
         layout["antenna_numbers"] = antenna_data["nosta"]
     except KeyError:
-        layout.warning(
+        logger.warning(
             "Antenna Numbers missing replacing with an array of numbers of range 1: n_antenna"
         )
-        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"])
+        layout["antenna_numbers"] = np.arange(1, layout["n_antenna"] + 1)
 
     # Antenna Coordinates
     try:
-- 
2.43.0


From 889b88e96d0bef9b2d93f681f553aa90d940c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 073/116] fix: describing an observation with a single
 integration failed

---
 PyFHD/data_setup/obs.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index a5abab6..62a639f 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -62,10 +62,7 @@ def create_obs(
     b0i = idl_argunique(time)
     obs["n_time"] = b0i.size
     bin_width = np.empty(obs["n_time"])
-    if obs["n_time"] > 1:
-        bin_width[0 : obs["n_time"]] = b0i + 1
-    else:
-        bin_width = time.size
+    bin_width[0 : obs["n_time"]] = b0i + 1
     b0i_range = np.arange(1, obs["n_time"])
     bin_width[b0i_range] = b0i[b0i_range] - b0i[b0i_range - 1]
     baseline_info["bin_offset"] = np.zeros(obs["n_time"], dtype=np.int64)
-- 
2.43.0


From e5afd81b92fb2cbc9c67034385fcf7c2c1d055d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 074/116] fix: the field of view did not set the resolution

---
 PyFHD/data_setup/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 62a639f..99400d6 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -159,9 +159,9 @@ def create_obs(
     max_baseline = max(np.max(np.abs(kx_arr)), np.max(np.abs(ky_arr)))
 
     # Determine the imaging parameters to use
-    if pyfhd_config["FoV"] is not None:
+    if pyfhd_config["FoV"]:
         obs["kpix"] = (180 / pi) / pyfhd_config["FoV"]
-    if pyfhd_config["kbinsize"] is None:
+    elif pyfhd_config["kbinsize"] is None:
         obs["kpix"] = 0.5
     else:
         obs["kpix"] = pyfhd_config["kbinsize"]
-- 
2.43.0


From ba85efd7b8fb16f9f0f995a454cf3ae05bc926dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 075/116] fix: the pixel size could not be derived without a
 given dimension

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 99400d6..56687ce 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -184,7 +184,7 @@ def create_obs(
     # Ensure both dimension and elements are ints to prevent issues down the pipeline
     obs["dimension"] = int(obs["dimension"])
     obs["elements"] = int(obs["elements"])
-    obs["degpix"] = (180 / pi) / (obs["kpix"] * pyfhd_config["dimension"])
+    obs["degpix"] = (180 / pi) / (obs["kpix"] * obs["dimension"])
 
     # Set the max and min baseline
     max_baseline_inds = np.where(
-- 
2.43.0


From 272fe3abcab7960fcebf16005f7dc9e9679ea671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 076/116] fix: antenna numbers were mapped to tiles again after
 being mapped

---
 PyFHD/data_setup/obs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 56687ce..1e3c20c 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -92,8 +92,9 @@ def create_obs(
 
     antenna_flag = True
     if np.max(params["antenna1"]) > 0 and (np.max(params["antenna2"]) > 0):
-        baseline_info["tile_a"] = params["antenna1"]
-        baseline_info["tile_b"] = params["antenna2"]
+        # Copies, as the antenna numbers are still needed while they are mapped to indices
+        baseline_info["tile_a"] = params["antenna1"].copy()
+        baseline_info["tile_b"] = params["antenna2"].copy()
         antenna_flag = False
     if antenna_flag:
         # 256 tile upper limit is hard-coded in CASA format
-- 
2.43.0


From b3c349830ff18d243b9bc5a311b483dad9ba92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 077/116] fix: cutting times from the observation failed

---
 PyFHD/data_setup/obs.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 1e3c20c..25ad205 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -207,20 +207,14 @@ def create_obs(
     # Specify negative time_cut to cut time off the end. Specify a vector to cut at both the start and end
     if pyfhd_config["time_cut"] is not None:
         time_cut = pyfhd_config["time_cut"]
-        for ti in time_cut:
-            if time_cut[ti] < 0:
-                ti_start = min(
-                    obs["n_time"]
-                    - max(np.ceil(np.abs(time_cut[ti]) / meta["time_res"]), 0),
-                    obs["n_time"] - 1,
-                )
+        for cut in np.atleast_1d(time_cut):
+            n_cut = int(np.ceil(np.abs(cut) / meta["time_res"]))
+            if cut < 0:
+                ti_start = max(obs["n_time"] - n_cut, 0)
                 ti_end = obs["n_time"] - 1
             else:
                 ti_start = 0
-                ti_end = min(
-                    np.ceil(np.abs(time_cut[ti])) / meta["time_res"] - 1,
-                    obs["n_time"] - 1,
-                )
+                ti_end = min(n_cut - 1, obs["n_time"] - 1)
             if ti_end >= ti_start:
                 baseline_info["time_use"][ti_start : ti_end + 1] = 0
     obs["n_time_flag"] = obs["n_time"] - np.sum(baseline_info["time_use"])
-- 
2.43.0


From 13a5546dc2df93eaa572c95de3cd1daa313d82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 078/116] fix: an observation without a metafits file could not
 be described

---
 PyFHD/data_setup/obs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 25ad205..dc824a2 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -348,6 +348,8 @@ def read_metafits(
         meta["phasera"] = pyfhd_header["obsra"]
         meta["phasedec"] = pyfhd_header["obsdec"]
         meta["delays"] = None
+        hdr = {}
+        data = None
 
     # Store an origin/target phase ra/dec
     meta["orig_phasera"] = (
-- 
2.43.0


From 0e651eeb8d69dfc5abc3d35d1d2384db63e397db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 079/116] fix: an observation with every tile flagged was not
 refused

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index dc824a2..25c72bb 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -311,7 +311,7 @@ def read_metafits(
         meta["tile_names"] = data["tile"][single_i]
         meta["tile_height"] = data["height"][single_i] - pyfhd_header["alt"]
         meta["tile_flag"] = data["flag"][single_i]
-        if np.sum(meta["tile_flag"]) == meta["tile_flag"].size - 1:
+        if np.sum(meta["tile_flag"]) >= meta["tile_flag"].size - 1:
             if pyfhd_config["run_simulation"]:
                 logger.warning("All tiles flagged in metadata")
             else:
-- 
2.43.0


From a9530cbe8e057ac24b706a221a1001518dda7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 080/116] fix: updating the observation put the channels of the
 last beam bin in the first

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 25c72bb..c6c6de9 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -519,7 +519,7 @@ def update_obs(
     freq_bin = beam_nfreq_avg * obs["freq_res"]
     freq_hist, _, freq_ri = histogram(obs["baseline_info"]["freq"], bin_size=freq_bin)
     freq_bin_i = np.zeros(obs["n_freq"], dtype=np.int64)
-    for bin in range(freq_hist.size - 1):
+    for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
     # Adjust the obs dictionary based on the new dimension and kbinsize
-- 
2.43.0


From 542d91a76b61286cf4f55854e9cc8be452c8c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 081/116] fix: quickview changed the observation the later
 stages use

---
 PyFHD/data_setup/obs.py     | 7 +++++++
 PyFHD/io/pyfhd_quickview.py | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index c6c6de9..9a89c1f 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -1,5 +1,6 @@
 import numpy as np
 import logging
+from copy import deepcopy
 from math import pi, log10
 from PyFHD.pyfhd_tools.pyfhd_utils import (
     idl_argunique,
@@ -522,6 +523,12 @@ def update_obs(
     for bin in range(freq_hist.size):
         if freq_ri[bin] < freq_ri[bin + 1]:
             freq_bin_i[freq_ri[freq_ri[bin] : freq_ri[bin + 1]]] = bin
+    # The original observation is still needed, so only change a copy of what is updated
+    obs = {
+        **obs,
+        "astr": deepcopy(obs["astr"]),
+        "baseline_info": obs["baseline_info"].copy(),
+    }
     # Adjust the obs dictionary based on the new dimension and kbinsize
     obs["dimension"] = dimension
     obs["elements"] = dimension
diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index 68bb4e1..f6e55ee 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -247,7 +247,7 @@ def quickview(
     # The images of the cross polarizations are complex until they have been split
     image_dtype = np.complex128 if obs["n_pol"] >= 4 else np.float64
     instr_dirty_arr = np.empty(
-        [obs["n_pol"], obs["dimension"], obs["elements"]], dtype=image_dtype
+        [obs["n_pol"], obs_out["dimension"], obs_out["elements"]], dtype=image_dtype
     )
     instr_model_arr = np.empty_like(instr_dirty_arr)
     filter_arr = np.zeros([obs["n_pol"], obs["dimension"], obs["elements"]])
-- 
2.43.0


From a73eb7b14afec493984fefad06acda68b9061980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 082/116] fix: checking the antenna numbers failed with NumPy
 versions without in1d

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 9a89c1f..998ee1b 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -126,7 +126,7 @@ def create_obs(
     # from the uvfits antenna table
     all_ants = np.hstack([params["antenna1"], params["antenna2"]])
     all_ants = np.unique(all_ants)
-    if not (np.all(np.in1d(all_ants, layout["antenna_numbers"]))):
+    if not (np.all(np.isin(all_ants, layout["antenna_numbers"]))):
         logger.warning("Antenna arrays contain number(s) not found in antenna table")
 
     # fhd expects antenna1 and antenna2 arrays containing indices that are one-indexed.
-- 
2.43.0


From f497b8a88311b5a729daac184edfe4ed01d76831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 083/116] fix: antenna columns that only hold zeros were
 decoded from baselines that are not there

---
 PyFHD/data_setup/obs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 998ee1b..9b5c3ce 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -92,7 +92,9 @@ def create_obs(
     obs["freq_center"] = np.median(baseline_info["freq"])
 
     antenna_flag = True
-    if np.max(params["antenna1"]) > 0 and (np.max(params["antenna2"]) > 0):
+    if "baseline_arr" not in params or (
+        np.max(params["antenna1"]) > 0 and np.max(params["antenna2"]) > 0
+    ):
         # Copies, as the antenna numbers are still needed while they are mapped to indices
         baseline_info["tile_a"] = params["antenna1"].copy()
         baseline_info["tile_b"] = params["antenna2"].copy()
-- 
2.43.0


From 4e34b04d062b42cd19ef0dffc390d79f6f8e1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 084/116] fix: the grid could not be derived from the data

---
 PyFHD/data_setup/obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/data_setup/obs.py b/PyFHD/data_setup/obs.py
index 9b5c3ce..38edb51 100644
--- a/PyFHD/data_setup/obs.py
+++ b/PyFHD/data_setup/obs.py
@@ -173,7 +173,7 @@ def create_obs(
     # Determine observation resolution/extent parameters given number of pixels in x direction (dimension)
     if pyfhd_config["dimension"] is None and pyfhd_config["elements"] is None:
         obs["dimension"] = 2 ** int(
-            (log10((2 * max_baseline) / pyfhd_config["kpix"]) / log10(2))
+            (log10((2 * max_baseline) / obs["kpix"]) / log10(2))
         )
         obs["elements"] = obs["dimension"]
     elif pyfhd_config["dimension"] is not None and pyfhd_config["elements"] is None:
-- 
2.43.0


From a585aa2adec1df0d88af57660df55e7cf251b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 085/116] fix: the time offset of a model was added also when
 the model is late

---
 PyFHD/source_modeling/vis_model_transfer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 0c73a24..b53275a 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -270,9 +270,8 @@ def flag_model_visibilities(
     time_offsets = []
     for time in flaginfo_data.unique_times:
         # convert from julian to seconds via 24*60*60
-        time_offsets.append(
-            np.min(np.abs(flaginfo_model.unique_times - time)) * (24.0 * 60 * 60)
-        )
+        offsets = time - flaginfo_model.unique_times
+        time_offsets.append(offsets[np.argmin(np.abs(offsets))] * (24.0 * 60 * 60))
 
     # The highest time resolution data we'll be dealing with. If the offset is
     # less than half of this, could be error in calculations rather than an
@@ -288,8 +287,8 @@ def flag_model_visibilities(
     # that add the `rounded_offset` (our calculated QUACK time) to the model
     # to work out which time steps are closest between model and data
     if (
-        rounded_offset >= min_integration / 2.0
-        and rounded_offset <= obs["time_res"] / 2.0
+        np.abs(rounded_offset) >= min_integration / 2.0
+        and np.abs(rounded_offset) <= obs["time_res"] / 2.0
     ):
         flaginfo_model.unique_times += rounded_offset / (24.0 * 60 * 60)
 
-- 
2.43.0


From bdb9209f6bec3ee25c3ccfb62762405d0e77bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 086/116] fix: refusing a model failed when its path is a Path

---
 PyFHD/source_modeling/vis_model_transfer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index b53275a..ac99161 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -309,7 +309,7 @@ def flag_model_visibilities(
     if flaginfo_data.num_times != len(np.unique(model_times_to_use)):
 
         data_path = pyfhd_config["input_path"], pyfhd_config["obs_id"] + ".uvfits"
-        model_path = pyfhd_config["model_file_path"] + pyfhd_config["model_file_type"]
+        model_path = f"{pyfhd_config['model_file_path']} ({pyfhd_config['model_file_type']})"
         logger.error(
             f"Could not match the time steps in the data uvfits: {data_path}"
             f" and model uvfits {model_path}. Please check the model "
@@ -325,7 +325,7 @@ def flag_model_visibilities(
     # If less antennas in the model than the data, we can't calibrate the whole
     # dataset so just error for now
     if flaginfo_model.num_ants < flaginfo_data.num_ants:
-        model_path = pyfhd_config["model_file_path"] + pyfhd_config["model_file_type"]
+        model_path = f"{pyfhd_config['model_file_path']} ({pyfhd_config['model_file_type']})"
         logger.error(
             f"There are less antennas (tiles) in the model "
             f"{model_path} than in the data, so cannot calibrate the "
-- 
2.43.0


From c89ed7ca9e9ec0c79fc3138951895640a01bbf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 087/116] fix: a model without some of the data's tiles was
 used when it has other tiles

---
 PyFHD/source_modeling/vis_model_transfer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index ac99161..a3997f8 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -324,11 +324,18 @@ def flag_model_visibilities(
 
     # If less antennas in the model than the data, we can't calibrate the whole
     # dataset so just error for now
-    if flaginfo_model.num_ants < flaginfo_data.num_ants:
+    data_ant1, data_ant2 = params_data["antenna1"], params_data["antenna2"]
+    # Tile names (see below) are turned into indices, as the model has indices
+    tile_names = np.asarray(obs["baseline_info"]["tile_names"])
+    if np.max(flaginfo_data.ant_names) > len(tile_names):
+        order = np.argsort(tile_names)
+        data_ant1 = order[np.searchsorted(tile_names, data_ant1, sorter=order)] + 1
+        data_ant2 = order[np.searchsorted(tile_names, data_ant2, sorter=order)] + 1
+    if not np.all(np.isin(np.append(data_ant1, data_ant2), flaginfo_model.ant_names)):
         model_path = f"{pyfhd_config['model_file_path']} ({pyfhd_config['model_file_type']})"
         logger.error(
-            f"There are less antennas (tiles) in the model "
-            f"{model_path} than in the data, so cannot calibrate the "
+            f"There are antennas (tiles) missing in the model "
+            f"{model_path} that are in the data, so cannot calibrate the "
             "whole dataset. Please check the model "
             "and try again. Exiting now."
         )
-- 
2.43.0


From 4e6db52ae4cc8d6a517ee97bf7b3d7deab324840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 088/116] fix: model visibilities were matched to the data by
 position, and failed with auto-correlations

---
 PyFHD/source_modeling/vis_model_transfer.py | 97 ++++-----------------
 1 file changed, 19 insertions(+), 78 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index a3997f8..5e4c370 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -194,35 +194,6 @@ class _FlaggingInfoCounter(object):
         self.auto_locs = params["antenna1"] == params["antenna2"]
         self.num_autos = np.count_nonzero(self.auto_locs)
 
-        if self.num_autos == 0:
-            self.num_autos_per_time = 0
-        else:
-            self.num_autos_per_time = self.num_ants
-
-        # indexes of the cross-correlations
-        self.cross_locs = params["antenna1"] != params["antenna2"]
-
-        # how many cross-correlations there should be per time step
-        self.num_cross_per_time = int((self.num_ants * (self.num_ants - 1)) / 2)
-
-        # number of visibilities per time step
-        self.num_visi_per_time_step = self.num_cross_per_time + self.num_autos_per_time
-
-        # within a single time step, where the cross-correlations are indexed
-        # can use this while iterating over time to select the crosses only
-        self.cross_locs_per_time = np.where(
-            self.cross_locs[: self.num_visi_per_time_step]
-        )[0]
-
-        # within a single time step, where the cross-correlations are indexed
-        # can use this while iterating over time to select the crosses only
-        self.auto_locs_per_time = np.where(
-            self.auto_locs[: self.num_visi_per_time_step]
-        )[0]
-
-        self.ant1_single_time = params["antenna1"][: self.num_visi_per_time_step]
-        self.ant2_single_time = params["antenna2"][: self.num_visi_per_time_step]
-
 
 def flag_model_visibilities(
     vis_model_arr: NDArray[np.complex128],
@@ -398,66 +369,36 @@ def flag_model_visibilities(
             f"Found flagged tiles {flag_indexes} in the data, flagging from the model"
         )
 
-    # This gives us true/false if the visibilities should be included
-    # for a single time step based on antenna1 and antenna2
-    include_per_time_ant1 = np.isin(
-        flaginfo_model.ant1_single_time, flag_indexes, invert=True
-    )
-    include_per_time_ant2 = np.isin(
-        flaginfo_model.ant2_single_time, flag_indexes, invert=True
-    )
-
-    # Doing a logic union combines info from ant1 and ant2
-    include_per_time = include_per_time_ant1 & include_per_time_ant2
-
-    # To get indexes of cross-correlations to use, ensure ant1 != ant2
-    # These are now indexes of unflagged cross-correlations to grab from model
-    # However we need the actual indexes, so we use include_per_time and
-    # check for where there is non_zeros. This previously check where they didn't
-    # match but that resulted in us getting the indexes of the antenna arrays rather
-    # than the baseline indexes
-    include_cross_per_time = np.nonzero(include_per_time)[0]
-
-    # To get indexes of auto-correlations to use, ensure ant1 == ant2
-    # These are now indexes of unflagged auto-correlations to grab from model
-    include_auto_per_time = np.where(
-        flaginfo_model.ant1_single_time[include_per_time]
-        == flaginfo_model.ant2_single_time[include_per_time]
-    )[0]
-
     # empty holder for the flagged model - this should be the same shape
     vis_model_arr_flagged = np.zeros(
         (obs["n_pol"], obs["n_freq"], flaginfo_data.num_visis), dtype=np.complex128
     )
 
+    # The rows of a time step are matched by their tile pair, as the data and the model
+    # can order them differently, and flagged tiles are in one of them only
+    pair_base = np.int64(np.max(flaginfo_model.ant_names)) + 1
+    data_pairs = data_ant1 * pair_base + data_ant2
+    model_pairs = params_model["antenna1"] * pair_base + params_model["antenna2"]
+    model_times = np.unique(params_model["time"])
+    data_use = np.ones(flaginfo_data.num_visis, dtype=bool)
+    if not include_autos:
+        data_use[flaginfo_data.auto_locs] = False
+
     # For each time step that matches the data, copy across any visibilities
     # that aren't to be flagged
     for t_data_ind, t_model_ind in enumerate(model_times_to_use):
 
-        # Subset of cross-corrs from flagged model to select for this time step
-        t_flag_inds = (
-            t_data_ind * flaginfo_data.num_visi_per_time_step
-            + flaginfo_data.cross_locs_per_time
-        )
-        # Subset of cross-corrs from full model to select for this time step
-        t_model_inds = (
-            t_model_ind * flaginfo_model.num_visi_per_time_step + include_cross_per_time
+        t_data_rows = np.nonzero(
+            (params_data["time"] == flaginfo_data.unique_times[t_data_ind]) & data_use
+        )[0]
+        t_model_rows = np.nonzero(params_model["time"] == model_times[t_model_ind])[0]
+        _, t_flag_inds, t_model_inds = np.intersect1d(
+            data_pairs[t_data_rows], model_pairs[t_model_rows], return_indices=True
         )
         # Stick it in the flagged model
-        vis_model_arr_flagged[:, :, t_flag_inds] = vis_model_arr[:, :, t_model_inds]
-
-        # If we're doing autocorrelations, jam them in as well
-        if include_autos:
-            t_flag_inds = (
-                t_data_ind * flaginfo_data.num_visi_per_time_step
-                + flaginfo_data.auto_locs_per_time
-            )
-            t_model_inds = (
-                t_model_ind * flaginfo_model.num_visi_per_time_step
-                + include_auto_per_time
-            )
-
-            vis_model_arr_flagged[:, :, t_flag_inds] = vis_model_arr[:, :, t_model_inds]
+        vis_model_arr_flagged[:, :, t_data_rows[t_flag_inds]] = vis_model_arr[
+            :, :, t_model_rows[t_model_inds]
+        ]
 
     return vis_model_arr_flagged
 
-- 
2.43.0


From 1827baa4a1514069642e2f0187e02e259360b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 089/116] fix: a model of a single visibility was taken for a
 pointer

---
 PyFHD/source_modeling/vis_model_transfer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/source_modeling/vis_model_transfer.py b/PyFHD/source_modeling/vis_model_transfer.py
index 5e4c370..22f24eb 100644
--- a/PyFHD/source_modeling/vis_model_transfer.py
+++ b/PyFHD/source_modeling/vis_model_transfer.py
@@ -90,7 +90,7 @@ def import_vis_model_from_sav(
         elif isinstance(curr_vis_model, np.recarray):
             curr_vis_model = curr_vis_model.vis_model_ptr
         # Sometimes arrays a packed in via a pointer, if so extract it
-        if curr_vis_model.size == 1:
+        if curr_vis_model.dtype == object:
             curr_vis_model = curr_vis_model[0]
         curr_vis_model = curr_vis_model.transpose().astype(np.complex128)
         # The shape should be n_pol, n_freq, n_time * n_baselines
@@ -109,7 +109,7 @@ def import_vis_model_from_sav(
                 # Should be a rec array containing one item vis_model_ptr
                 curr_vis_model = curr_vis_model.vis_model_ptr
             # Sometimes arrays a packed in via a pointer, if so extract it
-            if curr_vis_model.size == 1:
+            if curr_vis_model.dtype == object:
                 curr_vis_model = curr_vis_model[0]
             vis_model_arr[pol_i] = curr_vis_model.transpose().astype(np.complex128)
     except FileNotFoundError as e:
-- 
2.43.0


From 917f8a75069fba27a0e187e955a844615a8abdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 090/116] fix: a pixel on the image's lines lost its value to a
 contribution of zero

---
 PyFHD/healpix/healpix_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index ce8b417..26a812d 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -50,7 +50,10 @@ def healpix_cnv_apply(
         i_use = hpx_cnv["i_use"][i]
         # Transpose is always True when used inside healpix_cnv_apply when using
         # sprsax2, so we can ignore the transpose keyword
-        hpx_map[hpx_cnv["ija"][i]] += hpx_cnv["sa"][i] * image_vector[i_use]
+        # A HEALPix pixel can be there more than once
+        np.add.at(
+            hpx_map, hpx_cnv["ija"][i], hpx_cnv["sa"][i] * image_vector[i_use]
+        )
     return hpx_map
 
 
-- 
2.43.0


From f2f7a3300b4163301a0c46ddf5f3a6ce0a073200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 091/116] fix: the HEALPix pixels could not be selected without
 restricting them to a file

---
 PyFHD/healpix/healpix_utils.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 26a812d..c4e2441 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -176,9 +176,9 @@ def healpix_cnv_generate(
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
     else:
         cen_coords = ang2vec(obs["obsra"], obs["obsdec"], lonlat=True)
-        hpx_inds = query_disc(nside, cen_coords, hpx_radius)
-        pix_coords = np.vstack(pix2vec(nside, hpx_inds)).T
-        pix_dec, pix_ra = vec2ang(pix_coords, lonlat=True)
+        hpx_inds = query_disc(int(nside), cen_coords, np.radians(hpx_radius))
+        pix_coords = np.vstack(pix2vec(int(nside), hpx_inds)).T
+        pix_ra, pix_dec = vec2ang(pix_coords, lonlat=True)
         xv_hpx, yv_hpx = radec_to_pixel(pix_ra, pix_dec, obs["astr"])
         # slightly more restrictive boundary here ('LT' and 'GT' instead of 'LE' and 'GE')
         pix_i_use = np.where(
@@ -186,19 +186,24 @@ def healpix_cnv_generate(
             & (xv_hpx < obs["dimension"] - 1)
             & (yv_hpx > 0)
             & (yv_hpx < obs["elements"] - 1)
-        )
+        )[0]
         xv_hpx = xv_hpx[pix_i_use]
         yv_hpx = yv_hpx[pix_i_use]
-        hpx_mask00 = mask[np.floor(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask01 = mask[np.floor(xv_hpx), np.ceil(yv_hpx)]
-        hpx_mask10 = mask[np.ceil(xv_hpx), np.floor(yv_hpx)]
-        hpx_mask11 = mask[np.ceil(xv_hpx), np.ceil(yv_hpx)]
+        # The images are indexed by y and then x
+        x_floor, x_ceil = np.int64(np.floor(xv_hpx)), np.int64(np.ceil(xv_hpx))
+        y_floor, y_ceil = np.int64(np.floor(yv_hpx)), np.int64(np.ceil(yv_hpx))
+        hpx_mask00 = mask[y_floor, x_floor]
+        hpx_mask01 = mask[y_ceil, x_floor]
+        hpx_mask10 = mask[y_floor, x_ceil]
+        hpx_mask11 = mask[y_ceil, x_ceil]
         hpx_mask = hpx_mask00 * hpx_mask01 * hpx_mask10 * hpx_mask11
-        pix_i_use2 = np.nonzero(hpx_mask)
+        pix_i_use2 = np.nonzero(hpx_mask)[0]
         xv_hpx = xv_hpx[pix_i_use2]
         yv_hpx = yv_hpx[pix_i_use2]
         pix_i_use = pix_i_use[pix_i_use2]
         hpx_inds = hpx_inds[pix_i_use]
+        pix_ra = pix_ra[pix_i_use]
+        pix_dec = pix_dec[pix_i_use]
 
     # Test for pixels past the horizon. We don't need to be precise with this, so turn off precession, etc..
     # Get the location from instrument name
-- 
2.43.0


From 29d841e412ad9d93a0ff59a7045e2b4b7d1975fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 092/116] fix: generating a HEALPix map changed the observation
 it was derived from

---
 PyFHD/healpix/healpix_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index c4e2441..e36d992 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -292,6 +292,8 @@ def healpix_cnv_generate(
         ija[i] = ija0
 
     hpx_cnv = {"nside": nside, "ija": ija, "sa": sa, "i_use": i_use, "inds": hpx_inds}
+    # The rest of the description can be shared with other observations
+    obs["healpix"] = obs["healpix"].copy()
     obs["healpix"]["nside"] = nside
     if pyfhd_config["restrict_healpix_inds"]:
         obs["healpix"]["ind_list"] = None
-- 
2.43.0


From f4f7973bc533aae7d43528e6c58a04e3d3b9663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 093/116] fix: the phase shift of a uv plane used the wrong
 length for y

---
 PyFHD/healpix/healpix_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index e36d992..80aa8e0 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -427,7 +427,7 @@ def phase_shift_uv_image(obs: dict) -> NDArray[np.complex128]:
     # uv_mask is not applied in FHD examples or docs decided not to translate it, if you want it put it here
 
     dx = (x - (obs["dimension"] / 2)) * (2 * np.pi / obs["dimension"])
-    dy = (y - (obs["elements"] / 2)) * (2 * np.pi / obs["dimension"])
+    dy = (y - (obs["elements"] / 2)) * (2 * np.pi / obs["elements"])
 
     xvals = meshgrid(obs["dimension"], obs["elements"], 1) - (obs["dimension"] / 2)
     yvals = meshgrid(obs["dimension"], obs["elements"], 2) - (obs["elements"] / 2)
-- 
2.43.0


From ab54cf051b97732158372a8174769ead924677e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 094/116] fix: HEALPix cubes could only be exported when split
 into even and odd

---
 PyFHD/healpix/export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 26a72c9..17e3548 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -135,7 +135,9 @@ def healpix_snapshot_cube_generate(
         n_iter = 1
         uvf_name = [""]
         obs_out["vis_noise"] = vis_noise_calc(obs_out, vis_arr, vis_weights)
-        bi_use = np.zeros(1, dtype=np.int64)
+        vis_weights_use = vis_weights
+        # Use all of the baselines that have not been flagged
+        bi_use = [None]
 
     # Looks like this is set to False by default?
     residual_flag = obs_out["residual"]
-- 
2.43.0


From 8afb53ee24754ceaf31978405ddd46d362d70523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 095/116] fix: the default for ps_kspan gave HEALPix cubes
 without pixels

---
 PyFHD/healpix/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/healpix/export.py b/PyFHD/healpix/export.py
index 17e3548..9c0e768 100644
--- a/PyFHD/healpix/export.py
+++ b/PyFHD/healpix/export.py
@@ -70,7 +70,7 @@ def healpix_snapshot_cube_generate(
 
     fov_use = (180 / np.pi) / kbinsize
 
-    if pyfhd_config["ps_kspan"] is not None:
+    if pyfhd_config["ps_kspan"]:
         dimension_use = pyfhd_config["ps_kspan"] / kbinsize
     elif pyfhd_config["ps_dimension"] is not None:
         dimension_use = pyfhd_config["ps_dimension"]
-- 
2.43.0


From 11f993521901cd322ebf8195d2210e4521c667c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 096/116] fix: the nearest angle was the larger one, of mixed
 units

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 164597d..4b69452 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1,7 +1,7 @@
 import subprocess
 from copy import deepcopy
 from logging import Logger
-from math import factorial, pi
+from math import factorial
 from sys import exit
 import h5py
 import numpy as np
@@ -964,7 +964,7 @@ def angle_difference(
     # Use built in astropy separtion instead of calculating it
     relative_angle = coord1.separation(coord2).value
     if nearest:
-        return max(relative_angle, 2 * pi - relative_angle)
+        return min(relative_angle, 360 - relative_angle)
     else:
         return relative_angle
 
-- 
2.43.0


From ecfa47fd36d94a5db611931adf2ee9c8d21afd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 097/116] fix: a beam without a response at the centre of the
 image failed

---
 PyFHD/healpix/healpix_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 80aa8e0..b2df01d 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -391,7 +391,8 @@ def beam_image_cube(
                 high=np.max(beam_single),
             )
             beam_mask1 = np.zeros([obs["dimension"], obs["elements"]])
-            beam_mask1.flat[beam_i] = 1
+            if beam_i is not None:
+                beam_mask1.flat[beam_i] = 1
             beam_mask *= beam_mask1
     return beam_arr, beam_mask
 
-- 
2.43.0


From df4ac614cf1699b9874591231f851640e23ca421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 098/116] fix: a beam cube for given frequencies failed

---
 PyFHD/healpix/healpix_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index b2df01d..3478312 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -363,8 +363,8 @@ def beam_image_cube(
 
     if np.median(freq_i_arr) > obs["n_freq"]:
         freq_i_use = np.interp(
-            np.arange(obs["n_freq"]), obs["baseline_info"]["freq"], freq_i_arr
-        )
+            freq_i_arr, obs["baseline_info"]["freq"], np.arange(obs["n_freq"])
+        ).astype(np.int64)
     else:
         freq_i_use = freq_i_arr
 
-- 
2.43.0


From dcf717991b439ae8831efc19e1b9e66534897332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 099/116] fix: a flagged tile without baselines flagged the
 last baseline

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 4b69452..d4bc8db 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1197,7 +1197,8 @@ def vis_weights_update(
             tile_cut_i[0] + 1,
             obs["baseline_info"]["tile_b"],
         )
-        if np.size(bi_cut) > 0:
+        # A match of -1 means that no baseline has any of these tiles
+        if np.min(bi_cut) >= 0:
             vis_weights[0 : obs["n_pol"], :, bi_cut] = 0
 
     time_cut_i = np.where(obs["baseline_info"]["time_use"] == 0)[0]
-- 
2.43.0


From 045fe92d676fb933f756650964eceeea233f160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 100/116] fix: channels without data kept the visibility counts
 of what was gridded before

---
 PyFHD/healpix/healpix_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyFHD/healpix/healpix_utils.py b/PyFHD/healpix/healpix_utils.py
index 3478312..edf457b 100644
--- a/PyFHD/healpix/healpix_utils.py
+++ b/PyFHD/healpix/healpix_utils.py
@@ -516,6 +516,8 @@ def vis_model_freq_split(
     variance_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
     model_arr = np.zeros([nf, obs["dimension"], obs["dimension"]], dtype=arr_type)
     vis_n_arr = np.zeros([nf])
+    # Count the visibilities of this polarization and these baselines only
+    obs["nf_vis"] = np.zeros(obs["n_freq"], dtype=np.int64)
     if pyfhd_config["rephase_weights"]:
         rephase_use = phase_shift_uv_image(obs)
     else:
-- 
2.43.0


From 88e1c7f3af6146b5fc3a71baa3fb0404334393af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 101/116] fix: the reference pixel of the uv weights is that of
 their own plane, not of the padded image

---
 PyFHD/io/pyfhd_quickview.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/io/pyfhd_quickview.py b/PyFHD/io/pyfhd_quickview.py
index f6e55ee..fc74d92 100644
--- a/PyFHD/io/pyfhd_quickview.py
+++ b/PyFHD/io/pyfhd_quickview.py
@@ -362,10 +362,10 @@ def quickview(
     fits_file_uv.header.set("CD1_2", 0.0, "Wavelengths / Pixel")
     fits_file_uv.header.set("CD2_2", obs["kpix"], "Wavelengths / Pixel")
     fits_file_uv.header.set(
-        "CRPIX1", obs_out["dimension"] / 2 + 1, "Reference Pixel in X"
+        "CRPIX1", obs["dimension"] / 2 + 1, "Reference Pixel in X"
     )
     fits_file_uv.header.set(
-        "CRPIX2", obs_out["elements"] / 2 + 1, "Reference Pixel in Y"
+        "CRPIX2", obs["elements"] / 2 + 1, "Reference Pixel in Y"
     )
     fits_file_uv.header.set("CRVAL1", 0.0, "Wavelengths (u)")
     fits_file_uv.header.set("CRVAL2", 0.0, "Wavelengths (v)")
-- 
2.43.0


From 00e5069c349c5529391411c8f4f914bd88bd7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 102/116] fix: beam images of more than one group of baselines
 failed

---
 PyFHD/beam_setup/beam_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index a8d7244..1121ab3 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -131,7 +131,7 @@ def beam_image(
     yh = elements / 2 - psf_dim / 2 + psf_dim
 
     group_n, _, ri_id = histogram(group_id, min=0)
-    gi_use = np.nonzero(group_n)
+    gi_use = np.nonzero(group_n)[0]
     # Most likely going to be 1 as PyFHD does only one beam mostly
     n_groups = np.count_nonzero(group_n)
 
-- 
2.43.0


From 5785505b65402d52744e0f65215751e0f6536b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 103/116] fix: beam images from kernels failed on slices that
 are no integers

---
 PyFHD/beam_setup/beam_utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 1121ab3..60044ee 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -124,11 +124,12 @@ def beam_image(
         psf_dim = psf_dim[0]
         freq_norm = freq_norm[:]
         pix_horizon = pix_horizon[0]
-    dimension = elements = obs["dimension"]
-    xl = dimension / 2 - psf_dim / 2 + 1
-    xh = dimension / 2 - psf_dim / 2 + psf_dim
-    yl = elements / 2 - psf_dim / 2 + 1
-    yh = elements / 2 - psf_dim / 2 + psf_dim
+    psf_dim = int(psf_dim)
+    dimension = elements = int(obs["dimension"])
+    xl = dimension // 2 - psf_dim // 2 + 1
+    xh = dimension // 2 - psf_dim // 2 + psf_dim
+    yl = elements // 2 - psf_dim // 2 + 1
+    yh = elements // 2 - psf_dim // 2 + psf_dim
 
     group_n, _, ri_id = histogram(group_id, min=0)
     gi_use = np.nonzero(group_n)[0]
-- 
2.43.0


From 0f63f46cddb560994a2781a90fdd0ceee746e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 104/116] fix: beam images from kernels were all of the first
 polarisation

---
 PyFHD/beam_setup/beam_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 60044ee..271a10b 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -186,7 +186,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
                 beam_single /= np.sum(group_n[gi_use])
                 if abs:
@@ -229,7 +229,7 @@ def beam_image(
             else:
                 for gi in range(n_groups):
                     beam_single += (
-                        psf["beam_ptr"][0, fbin, rbin, rbin] * group_n[gi_use[gi]]
+                        psf["beam_ptr"][pol_i, fbin, rbin, rbin] * group_n[gi_use[gi]]
                     ).reshape([psf_dim, psf_dim])
             beam_single /= np.sum(group_n[gi_use])
             beam_base_uv += beam_single
-- 
2.43.0


From e8339bf8b229cee92d2cfec90251648770d99e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 105/116] fix: beam images from kernels were divided by the
 number of pixels

---
 PyFHD/beam_setup/beam_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 271a10b..ee3b0f5 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -194,7 +194,7 @@ def beam_image(
                 beam_base_uv1 = np.zeros([dimension, elements], np.complex128)
                 beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_single
                 beam_base_single = np.fft.fftshift(
-                    np.fft.ifftn(np.fft.fftshift(beam_base_uv1))
+                    np.fft.ifftn(np.fft.fftshift(beam_base_uv1), norm="forward")
                 )
                 beam_base += (
                     nf_bin * (beam_base_single * np.conjugate(beam_base_single)).real
@@ -238,7 +238,7 @@ def beam_image(
         if beam_gaussian_params is None:
             beam_base_uv1 = np.zeros([dimension, elements], dtype=np.complex128)
             beam_base_uv1[xl : xh + 1, yl : yh + 1] = beam_base_uv
-            beam_base = np.fft.fftshift(np.fft.ifftn(np.fft.fftshift(beam_base_uv1)))
+            beam_base = np.fft.fftshift(np.fft.ifftn(np.fft.fftshift(beam_base_uv1), norm="forward"))
         else:
             beam_base = beam_base_uv
 
-- 
2.43.0


From d2978a2dc091f2e08cffba2399799728a20c2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 106/116] fix: squared beams of several frequency bins kept the
 beams of the bins before

---
 PyFHD/beam_setup/beam_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index ee3b0f5..1646076 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -159,11 +159,12 @@ def beam_image(
         fbin_use = np.sort(np.unique(freq_bin_use))
         nbin = fbin_use.size
 
-        if beam_gaussian_params is not None:
-            beam_single = np.zeros([dimension, elements])
-        else:
-            beam_single = np.zeros([psf_dim, psf_dim], dtype=np.complex128)
         for bin_i in range(nbin):
+            # Every frequency bin has a beam of its own
+            if beam_gaussian_params is not None:
+                beam_single = np.zeros([dimension, elements])
+            else:
+                beam_single = np.zeros([psf_dim, psf_dim], dtype=np.complex128)
             fbin = fbin_use[bin_i]
             nf_bin = np.count_nonzero(freq_bin_use == fbin)
             if beam_gaussian_params is not None:
-- 
2.43.0


From 1d6b409b940ad1f85163e406bf7a1f0d20e4369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 107/116] fix: a beam image of a single frequency failed unless
 squared

---
 PyFHD/beam_setup/beam_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 1646076..69b8c2d 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -150,10 +150,9 @@ def beam_image(
     n_bin_use = 0
     # We assume freq_i is an int when provided (i.e. a single frequency index)
     if freq_i is not None:
-        freq_i_use = freq_i
+        freq_i_use = np.atleast_1d(freq_i)
 
     if square:
-        # Do note freq_i_use could be an integer or an array if freq_i is supplied or not
         beam_base = np.zeros([dimension, elements])
         freq_bin_use = freq_bin_i[freq_i_use]
         fbin_use = np.sort(np.unique(freq_bin_use))
-- 
2.43.0


From 0c1deef42cfb76d50abf42c16ca131b8c9316c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 108/116] fix: a beam file written by PyFHD itself could not be
 read lazily

---
 PyFHD/beam_setup/beam_utils.py    |  4 ++--
 PyFHD/gridding/gridding_utils.py  | 10 +++++-----
 PyFHD/gridding/visibility_grid.py |  4 ++--
 PyFHD/pyfhd_tools/pyfhd_utils.py  |  2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/PyFHD/beam_setup/beam_utils.py b/PyFHD/beam_setup/beam_utils.py
index 69b8c2d..9a74e97 100644
--- a/PyFHD/beam_setup/beam_utils.py
+++ b/PyFHD/beam_setup/beam_utils.py
@@ -121,9 +121,9 @@ def beam_image(
     rbin = 0
     # If we lazy loaded psf, get actual numbers out of the datasets
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = np.ravel(psf_dim[()])[0]
         freq_norm = freq_norm[:]
-        pix_horizon = pix_horizon[0]
+        pix_horizon = np.ravel(pix_horizon[()])[0]
     psf_dim = int(psf_dim)
     dimension = elements = int(obs["dimension"])
     xl = dimension // 2 - psf_dim // 2 + 1
diff --git a/PyFHD/gridding/gridding_utils.py b/PyFHD/gridding/gridding_utils.py
index 261ea3b..6f4b6e4 100644
--- a/PyFHD/gridding/gridding_utils.py
+++ b/PyFHD/gridding/gridding_utils.py
@@ -144,8 +144,8 @@ def baseline_grid_locations(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = np.ravel(psf_dim[()])[0]
+        psf_resolution = np.ravel(psf_resolution[()])[0]
 
     # Frequency information of the visibilities
     if fill_model_visibilities:
@@ -593,8 +593,8 @@ def grid_beam_per_baseline(
     psf_dim = psf["dim"]
     psf_resolution = psf["resolution"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = np.ravel(psf_dim[()])[0]
+        psf_resolution = np.ravel(psf_resolution[()])[0]
     # Loop over all visibilities that fall within the chosen visibility box
     for ii in range(vis_n):
         # Pixel center offset phases
@@ -738,7 +738,7 @@ def visibility_count(
     elements = int(obs["elements"])
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = np.ravel(psf_dim[()])[0]
 
     baselines_dict = baseline_grid_locations(
         obs,
diff --git a/PyFHD/gridding/visibility_grid.py b/PyFHD/gridding/visibility_grid.py
index 851d753..a999c8d 100644
--- a/PyFHD/gridding/visibility_grid.py
+++ b/PyFHD/gridding/visibility_grid.py
@@ -146,8 +146,8 @@ def visibility_grid(
     psf_resolution = psf["resolution"]
     group_arr = psf["id"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
-        psf_resolution = psf_resolution[0]
+        psf_dim = np.ravel(psf_dim[()])[0]
+        psf_resolution = np.ravel(psf_resolution[()])[0]
         group_arr = group_arr[:]
     n_baselines = obs["n_baselines"]
     # New group_arr code that is consistent with the FHD version
diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index d4bc8db..42eb119 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1161,7 +1161,7 @@ def vis_weights_update(
         ky_arr[conj_i] = -ky_arr[conj_i]
     psf_dim = psf["dim"]
     if isinstance(psf, h5py.File):
-        psf_dim = psf_dim[0]
+        psf_dim = np.ravel(psf_dim[()])[0]
     xcen = np.outer(obs["baseline_info"]["freq"], kx_arr)
     xmin = np.floor(xcen) + obs["dimension"] / 2 - (psf_dim / 2 - 1)
     ycen = np.outer(obs["baseline_info"]["freq"], ky_arr)
-- 
2.43.0


From ea514e4758363d2c79a2270e92e110312cb4e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 109/116] fix: the parallactic angle lost its quadrant (and was
 NaN at the zenith)

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 42eb119..78e8c76 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -992,7 +992,7 @@ def parallactic_angle(latitude: float, hour_angle: float, dec: float) -> float:
     x_term = np.cos(np.radians(dec)) * np.tan(np.radians(latitude)) - np.sin(
         np.radians(dec)
     ) * np.cos(np.radians(hour_angle))
-    return np.degrees(np.arctan(y_term / x_term))
+    return np.degrees(np.arctan2(y_term, x_term))
 
 
 def simple_deproject_w_term(
-- 
2.43.0


From 64ad7d3fd58bacd401ff13a2c86142bbcd7269b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 110/116] fix: the w-term deprojection failed for every
 visibility array

---
 PyFHD/pyfhd_tools/pyfhd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyFHD/pyfhd_tools/pyfhd_utils.py b/PyFHD/pyfhd_tools/pyfhd_utils.py
index 78e8c76..4b8e1ae 100644
--- a/PyFHD/pyfhd_tools/pyfhd_utils.py
+++ b/PyFHD/pyfhd_tools/pyfhd_utils.py
@@ -1026,7 +1026,8 @@ def simple_deproject_w_term(
     zcen = np.outer(params["ww"], obs["baseline_info"]["freq"])
     sign = 1 if direction > 0 else -1
     phase = np.exp(direction * icomp * zcen)
-    vis_arr[: obs["n_pol"], :, :] *= np.tile(phase, (obs["n_pol"], 1))
+    # The phase is per baseline and frequency, the visibilities per polarization, frequency and baseline
+    vis_arr[: obs["n_pol"], :, :] *= phase.T
 
     sign_str = " +1" if sign > 0 else " -1"
     logger.info(f"Applying simple w-term deprojection:{sign_str}")
-- 
2.43.0


From 5c7680a5da90902ad8259fd72799011ac2d32a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 111/116] fix: the pixel of an array of one direction failed

---
 PyFHD/pyfhd_tools/unit_conv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyFHD/pyfhd_tools/unit_conv.py b/PyFHD/pyfhd_tools/unit_conv.py
index 0fd9a00..72e0e50 100644
--- a/PyFHD/pyfhd_tools/unit_conv.py
+++ b/PyFHD/pyfhd_tools/unit_conv.py
@@ -147,8 +147,8 @@ def radec_to_pixel(ra: float, dec: float, astr: dict) -> tuple[float, float]:
     x, y = wcs_astr.world_to_pixel(
         SkyCoord(ra=ra * u.deg, dec=dec * u.deg, frame=astr["radecsys"].lower())
     )
-    # AstroPy returns values as an array, cast to float
-    if np.size(x) == 1:
+    # AstroPy returns the values of a single direction as a 0-dimensional array, cast to float
+    if np.ndim(x) == 0:
         return float(x), float(y)
     else:
         return x, y
-- 
2.43.0


From ade50d40bf2fc0a7ad3030058e523cc48a76723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 112/116] fix: calibration plots left out the tiles beyond the
 last full page and misnamed those of later pages

---
 PyFHD/plotting/calibration.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyFHD/plotting/calibration.py b/PyFHD/plotting/calibration.py
index bec9810..7d7e6d7 100644
--- a/PyFHD/plotting/calibration.py
+++ b/PyFHD/plotting/calibration.py
@@ -87,7 +87,7 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
     # Multiple pages will be required beyond 128 stations
     n_rows = 8
     n_cols = 16
-    n_pages = obs["n_tile"] // (n_cols * n_rows)
+    n_pages = int(np.ceil(obs["n_tile"] / (n_cols * n_rows)))
 
     # Create dictionary for the subplot grid to create reliable, static plots
     gridspec_kw = {
@@ -103,10 +103,9 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
         for page_i in range(n_pages):
 
             # Calculate number of stations for this page
-            if obs["n_tile"] // (n_cols * n_rows * (page_i + 1)) == 0:
-                page_tiles = obs["n_tile"] - (n_cols * n_rows * (page_i + 1))
-            else:
-                page_tiles = n_cols * n_rows
+            page_tiles = min(
+                obs["n_tile"] - (n_cols * n_rows * page_i), n_cols * n_rows
+            )
 
             # Define the subplots, add extra rows on the figsize to account for labels
             fig_amp, ax_amp = plt.subplots(
@@ -151,11 +150,11 @@ def plot_cals(obs: dict, cal: dict, pyfhd_config: dict):
                 row = (tile_i - page_i * (n_cols * n_rows)) // n_cols
 
                 ax_amp[row, col].set_title(
-                    str(obs["baseline_info"]["tile_names"][(page_i + 1) * tile_i]),
+                    str(obs["baseline_info"]["tile_names"][tile_i]),
                     fontsize=9,
                 )
                 ax_phase[row, col].set_title(
-                    str(obs["baseline_info"]["tile_names"][(page_i + 1) * tile_i]),
+                    str(obs["baseline_info"]["tile_names"][tile_i]),
                     fontsize=9,
                 )
 
-- 
2.43.0


From cd5786bfa12e86de3c94595dcd0d7f30a94cce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 113/116] fix: the colours of linearly scaled images were
 compared with the data range

---
 PyFHD/plotting/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyFHD/plotting/image.py b/PyFHD/plotting/image.py
index b3831fa..aabc9cc 100644
--- a/PyFHD/plotting/image.py
+++ b/PyFHD/plotting/image.py
@@ -197,10 +197,10 @@ def quick_image(
         print(data_range, data_color_range, data_n_colors)
 
         # Handle out-of-bounds values
-        wh_low = np.where(image < data_range[0])
+        wh_low = np.where(image < data_color_range[0])
         if len(wh_low[0]) > 0:
             image[wh_low] = data_color_range[0]
-        wh_high = np.where(image > data_range[1])
+        wh_high = np.where(image > data_color_range[1])
         if len(wh_high[0]) > 0:
             image[wh_high] = data_color_range[1]
 
@@ -210,7 +210,7 @@ def quick_image(
 
         cb_ticks = np.linspace(data_color_range[0], data_color_range[1], num=5)
         cb_ticknames = [
-            f"{tick * (data_range[1] - data_range[0]) / (data_n_colors - 1) + data_range[0]:.2g}"
+            f"{(tick - data_color_range[0]) * (data_range[1] - data_range[0]) / (data_n_colors - 1) + data_range[0]:.2g}"
             for tick in cb_ticks
         ]
         print(cb_ticks, cb_ticknames)
-- 
2.43.0


From 96dc3bb73e7ba2cf14b9cf57676da99f80585f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 114/116] fix: plotting an image with missing values changed
 the image (or failed for integers)

---
 PyFHD/plotting/image.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyFHD/plotting/image.py b/PyFHD/plotting/image.py
index aabc9cc..787c69b 100644
--- a/PyFHD/plotting/image.py
+++ b/PyFHD/plotting/image.py
@@ -158,9 +158,10 @@ def quick_image(
     if missing_value is not None:
         wh_missing = np.where(image == missing_value)
         count_missing = len(wh_missing[0])
+        missing_color = 0
         if count_missing > 0:
+            image = image.astype(np.float64)
             image[wh_missing] = np.nan
-            missing_color = 0
     else:
         count_missing = 0
         wh_missing = None
@@ -360,7 +361,7 @@ def log_color_calc(
     # Handle data_range
     if data_range is None:
         no_input_data_range = True
-        data_range = [np.min(data), np.max(data)]
+        data_range = [np.nanmin(data), np.nanmax(data)]
     else:
         if len(data_range) != 2:
             raise ValueError("data_range must be a 2-element vector")
-- 
2.43.0


From 8c92e1cef8fca475f136e9595b5c04a71fabfb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 115/116] fix: the extension of an image's file name was
 repeated

---
 PyFHD/plotting/image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyFHD/plotting/image.py b/PyFHD/plotting/image.py
index 787c69b..f425151 100644
--- a/PyFHD/plotting/image.py
+++ b/PyFHD/plotting/image.py
@@ -132,6 +132,9 @@ def quick_image(
             png = True
 
         # Append the appropriate file extension
+        root, extension = os.path.splitext(savefile)
+        if extension.lower() in (".png", ".pdf", ".eps"):
+            savefile = root
         if png:
             savefile += ".png"
         elif pdf:
-- 
2.43.0


From e8a2c0d0ebbd0177945433687abcd72f1e64dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 116/116] fix: values of IDL structures were lost, changed or
 refused on conversion

---
 PyFHD/io/pyfhd_io.py | 162 ++++++++++++++++++++++---------------------
 1 file changed, 84 insertions(+), 78 deletions(-)

diff --git a/PyFHD/io/pyfhd_io.py b/PyFHD/io/pyfhd_io.py
index 90dfdc1..27a5eb6 100644
--- a/PyFHD/io/pyfhd_io.py
+++ b/PyFHD/io/pyfhd_io.py
@@ -74,25 +74,6 @@ def _is_string(value: Any) -> bool:
     return isinstance(value, str)
 
 
-@np.vectorize
-def _is_none(value: Any) -> bool:
-    """
-    Checks for a none object and is vectorized to work across any numpy array
-    even if it's an object array.
-
-    Parameters
-    ----------
-    value : Any
-        A value to be checked if None
-
-    Returns
-    -------
-    bool
-        True if value is None, otherwise False
-    """
-    return value is None
-
-
 @np.vectorize
 def _decode_byte_arr(value: NDArray[np.byte]) -> str:
     """
@@ -552,6 +533,88 @@ def load(
             h5_file.close()
 
 
+def _convert_object(value: Any) -> Any:
+    """
+    Converts a single value from readsav. Record arrays become dictionaries, byte strings become strings,
+    and object arrays become multidimensional arrays or lists, everything else is left as is.
+
+    Parameters
+    ----------
+    value : Any
+        The value to convert
+
+    Returns
+    -------
+    value : Any
+        The converted value
+    """
+    if isinstance(value, np.recarray):
+        return recarray_to_dict(value)
+    elif isinstance(value, bytes):
+        return value.decode()
+    elif type(value) == np.ndarray and value.dtype.kind in "OS":
+        return _convert_object_array(value)
+    return value
+
+
+def _convert_object_array(array: NDArray[np.object_]) -> NDArray | list:
+    """
+    Converts an object array from readsav, the elements of which can be None, strings, numbers, record arrays,
+    arrays, or other object arrays. If all of the elements are numbers or arrays of numbers of the same shape
+    they're put into one multidimensional array, where the elements which are None are filled with NaNs.
+    In any other case the (nested) list of the converted elements is returned.
+
+    Parameters
+    ----------
+    array : NDArray[np.object_]
+        The object array to convert
+
+    Returns
+    -------
+    NDArray | list
+        A multidimensional array if the elements allow for it, otherwise a list
+    """
+    shape = array.shape
+    values = list(array.flat)
+    # Flatten object arrays inside of the object array, as long as they're all of the same shape. Crucially this
+    # assumes the resulting array can fit in memory! If you're doing the beam_ptr conversion take this into consideration
+    while values and all(
+        type(value) == np.ndarray
+        and value.dtype == object
+        and value.shape == values[0].shape
+        for value in values
+    ):
+        shape += values[0].shape
+        values = [inner for value in values for inner in value.flat]
+    values = [_convert_object(value) for value in values]
+    numbers = [value for value in values if value is not None]
+    # If all of the values were None, then the array will be float64 (as we don't know what dtype it actually was)
+    if not numbers:
+        return np.full(shape, np.nan)
+    if all(isinstance(value, (np.ndarray, np.number)) for value in numbers) and all(
+        value.shape == numbers[0].shape for value in numbers
+    ):
+        dtype = numbers[0].dtype
+        if any(value.dtype != dtype for value in numbers):
+            dtype = np.result_type(*{value.dtype for value in numbers})
+        # Only floats are able to hold the NaNs
+        if len(numbers) == len(values) or np.issubdtype(dtype, np.inexact):
+            # numpy will stack the axes, which isn't desired here as we want to maintain the multidimensional
+            # nature of the data. So we'll create an array of the desired size using the shape of the first element.
+            new_array = np.empty([len(values), *numbers[0].shape], dtype=dtype)
+            for idx, value in enumerate(values):
+                new_array[idx] = np.nan if value is None else value
+            return new_array.reshape(shape + numbers[0].shape)
+    new_array = np.empty(len(values), dtype=object)
+    for idx, value in enumerate(values):
+        if value is None:
+            value = np.nan
+        elif isinstance(value, str):
+            value = value.strip()
+        new_array[idx] = value
+    return new_array.reshape(shape).tolist()
+
+
 def recarray_to_dict(data: np.recarray | dict) -> dict:
     """
     Turns a record array into a dict, but does it as a deep convert. This was needed due to scipy's readsav
@@ -588,65 +651,8 @@ def recarray_to_dict(data: np.recarray | dict) -> dict:
         # These are not useful so I will extract the element out
         if type(data[key]) == np.ndarray and data[key].size == 1:
             data[key] = data[key][0]
-        # Sometimes the recarray is in a standard numpy object array and other times its not for some reason...
-        if type(data[key]) == np.recarray:
-            data[key] = recarray_to_dict(data[key])
-        elif type(data[key]) == np.ndarray and type(data[key][0]) == np.recarray:
-            data[key] = recarray_to_dict(data[key][0])
-        # We found a single array with only None
-        elif type(data[key]) == np.ndarray and isinstance(data[key][0], type(None)):
-            # Get all the None values and turn them into NaNs
-            none_values = np.where(data[key] == None)
-            if np.size(none_values) > 0:
-                data[key][none_values] = np.nan
-            # If all of the values were None, then set the array dtype to float64
-            # (as we don't know what dtype it actually was), probably only relevant for testing
-            if np.size(none_values) == np.size(data[key]):
-                data[key] = data[key].astype(np.float64)
-        # Assume we found a string array since it's bytes, convert to a string list
-        elif type(data[key]) == np.ndarray and isinstance(data[key].flat[0], bytes):
-            data[key] = [x.decode().strip() for x in data[key]]
-        # Found only bytes, assume it's a string, convert the string
-        elif isinstance(data[key], bytes):
-            data[key] = data[key].decode()
-        # You can also get object arrays which themselves contain numpy arrays, it's best to turn these
-        # into multidimensional arrays. If they can't turn into multidimensional arrays due to them
-        # being different types or not of the same size then it will convert the numpy object array
-        # into a list of objects instead.
-        elif (
-            type(data[key]) == np.ndarray
-            and data[key].dtype == object
-            and type(data[key][0]) == np.ndarray
-        ):
-            try:
-                # Get all the None values and turn them into NaNs
-                none_values = np.nonzero(_is_none(data[key]))
-                if np.size(none_values) > 0:
-                    data[key][none_values] = np.nan
-                # If all of the values were None, then set the array dtype to float64
-                # (as we don't know what dtype it actually was), probably only relevant for testing
-                if (np.size(none_values) // len(data[key].shape)) == np.size(data[key]):
-                    data[key] = data[key].astype(np.float64)
-                # If it's not an object array, numpy will stack the axes, which isn't desired here
-                # as we want to maintain the multidimensional nature of the data. So we'll create an
-                # array of the desired size using the shape of the first element.
-                elif data[key][0].dtype != object:
-                    new_array = np.empty(
-                        [data[key].size, *data[key][0].shape], dtype=data[key][0].dtype
-                    )
-                    for idx in range(new_array.shape[0]):
-                        new_array[idx] = data[key][idx]
-                    data[key] = new_array
-                else:
-                    # For an object array you can flatten it, and stack all inner arrays together until it's not an object array
-                    # Crucially this assumes the array not as an object array can fit in memory! If you're doing the beam_ptr
-                    # conversion take this into consideration
-                    while data[key].dtype == object:
-                        data[key] = np.vstack(data[key].flatten()).reshape(
-                            list(data[key].shape) + list(data[key].flat[0].shape)
-                        )
-            except ValueError:
-                data[key] = list(x for x in data[key])
+        # Record arrays, pointers to them, strings, and object arrays
+        data[key] = _convert_object(data[key])
     return data
 
 
-- 
2.43.0

