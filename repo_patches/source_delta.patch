From 70933f5fc2c0125666d28303d9e285bf28d10bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 01/44] fix: calculate_ab returned a nested tuple when the
 ellipse is degenerate

The conditional expression bound to the second element only, so velocity_correlation crashed.
---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From 33853b242e27d7f5eec3cdd0512a4e7c9c60ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 02/44] fix: cdf truncated integer input to 0 or 1 and failed
 on scalars

skewtest and kurtotest pass a scalar, so both always crashed.
---
 proadv/statistics/distributions/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..3a69544 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -47,13 +47,13 @@ def cdf(array):
     """
 
     from math import erf, erfc
-    array_cdf = np.copy(array)
+    array_cdf = np.array(array, dtype=float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
+    if array_cdf.ndim != 1:
         array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
-- 
2.43.0


From 8b2ce53009403363530130f9d71569f20afe0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 03/44] fix: skewtest reported a nonzero statistic for
 perfectly symmetric data

---
 proadv/statistics/distributions/normal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 3a69544..3ec4c00 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -196,9 +196,6 @@ def skewtest(data, alternative='two-sided'):
     # Calculate the alpha constant
     alpha = np.sqrt(2.0 / (w2 - 1))
 
-    # Ensure adjusted skewness is not zero for calculation
-    adjusted_skewness = np.where(adjusted_skewness == 0, 1, adjusted_skewness)
-
     # Calculate the z score
     z = delta * np.log(adjusted_skewness / alpha + np.sqrt((adjusted_skewness / alpha) ** 2 + 1))
 
-- 
2.43.0


From 9a5294de4238f60edfb44cb46319f758a9d02ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 04/44] fix: kurtotest took a fractional power of a negative
 number for strongly platykurtic data

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 3ec4c00..b45d795 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -291,7 +291,7 @@ def kurtotest(data, alternative='two-sided'):
     elif np.isscalar(denom) and denom == 0.0:
         denom = np.ma.masked
 
-    term2 = np.ma.power((1 - 2.0 / a) / denom, 1 / 3.0)
+    term2 = np.sign(denom) * np.ma.power((1 - 2.0 / a) / np.abs(denom), 1 / 3.0)
 
     # Final z-score calculation
     z_score_final = (term1 - term2) / np.ma.sqrt(2 / (9.0 * a))
-- 
2.43.0


From 934f2bc04999a1fcc26aff9110d6a170bcf9fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 05/44] fix: kalman_filter replacement indexed a list and
 returned nothing

---
 proadv/filtration/replacement/replacements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..1b4d725 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -360,8 +360,12 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     # Use kalman_filter function
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
 
+    # The filter yields one state matrix per sample
+    filtered_data = np.reshape(filtered_data, modified_data.shape)
+
     # Replace values at spikes indices with the kalman_filter values
     modified_data[spike_indices] = filtered_data[spike_indices]
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From 77e65b3522f65e0e81f627040c081d0a70782e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 06/44] fix: linear_interpolation failed on empty, unsorted or
 duplicated spike indices and integer data

A leading spike sequence now gets the mean of the dataset, as documented.
---
 proadv/filtration/replacement/replacements.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 1b4d725..18bb897 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -121,7 +121,15 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
     """
 
     # Create a copy of the velocity data to avoid modifying the original array
+    velocities = np.asarray(velocities)
     modified_data = np.copy(velocities)
+    if not np.issubdtype(modified_data.dtype, np.floating):
+        modified_data = modified_data.astype(float)
+
+    # The spike sequences below rely on sorted, distinct indices
+    spike_indices = np.unique(np.asarray(spike_indices, dtype=int))
+    if spike_indices.size == 0:
+        return np.around(modified_data, decimals=decimals)
 
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
@@ -146,13 +154,9 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
             # Apply linear interpolation across the spike sequence
             for i, idx in enumerate(range(start, end + 1)):
                 modified_data[idx] = valid_start + step * (i + 1)
-        elif np.isnan(valid_end):  # Handle spike sequences at the end of the data
-            # Replace end spikes with the mean of non-NaN values in the dataset
+        else:  # Handle spike sequences at the beginning or the end of the data
+            # Replace these spikes with the mean of non-NaN values in the dataset
             modified_data[start: end + 1] = mean(velocities[~np.isnan(velocities)])
-        else:
-            # Use the mean of valid start and end points as a fallback
-            fallback_value = np.nanmean([valid_start, valid_end])
-            modified_data[start: end + 1] = fallback_value
 
     # Round the interpolated values to the specified number of decimal places
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 6a713e8c35f9da7dd053ecab5a56fdd14aac04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 07/44] fix: polynomial_replacement crashed on a single spike
 and skipped index 10

It also interpolated indices 1 to 9 through raw spikes at 10 and 11.
---
 proadv/filtration/replacement/replacements.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 18bb897..79969ee 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -420,18 +420,19 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     """
 
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
+    spike_indices = np.unique(np.asarray(spike_indices, dtype=int))
     a = 0
-    for i in spike_indices.squeeze():
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
         elif 1 <= i <= 10:
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
-                modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                interpolated_data = linear_interpolation(velocities, spike_indices, decimals)
                 a += 1  # "a" is to run this algorithm only once.
+            modified_data[i] = interpolated_data[i]
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
             modified_data[i] = _create_model(modified_data[:i], np.arange(i), i, degree=degree).squeeze()
-- 
2.43.0


From eb2e1101b9f1a31f5006bb98f54a0e9d5b128c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 08/44] fix: cubic_12points_polynomial interpolated a shifted
 window through raw spikes

The 12 preceding samples were taken one step too early, runs of spikes used wrong positions,
trailing runs crashed, and invalid indices did not raise the documented ValueError.
---
 proadv/filtration/replacement/replacements.py | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 79969ee..950a34a 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -194,26 +194,31 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     """
 
     # Make a copy of velocities to preserve original data
-    modified_data = velocities.copy()
+    modified_data = np.array(velocities, dtype=float)
+    if modified_data.ndim != 1:
+        raise ValueError("Velocities must be a one-dimensional array.")
+    spike_indices = np.unique(np.asarray(spike_indices, dtype=int))
+    if np.any(spike_indices < 0) or np.any(spike_indices >= modified_data.size):
+        raise ValueError("Spike indices must lie within the velocity array.")
+
+    # Linear interpolation, for the spikes near the boundaries
+    linear = linear_interpolation(modified_data, spike_indices, decimals)
 
     # Replace spike indices with NaN values
     modified_data[spike_indices] = np.nan
 
-    # Generate x values for interpolation
-    x = np.array(list(range(1, 13)) + list(range(14, 26)))
-
     for i in spike_indices:
+        # Positions of the next 12 valid data points
+        following = i + np.flatnonzero(~np.isnan(modified_data[i:]))[0:12]
         # Check if index is near the boundaries
-        if i <= 30 or i >= (len(velocities) - 30):
+        if i <= 30 or i >= (len(velocities) - 30) or following.size < 12:
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+            modified_data[i] = linear[i]
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
-            f = interp1d(x, yint, 3)
-            modified_data[i] = f(13)
+            x = np.append(np.arange(i - 12, i), following)
+            f = interp1d(x, modified_data[x], 3)
+            modified_data[i] = f(i)
     return np.around(modified_data, decimals=decimals)
 
 
-- 
2.43.0


From 8a10df51edfb21354dc86c0faf25796a9b8fe41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 09/44] fix: last_valid_data wrapped around at index 0 and
 copied spikes for unsorted indices

---
 proadv/filtration/replacement/replacements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 950a34a..f104f64 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -25,8 +25,14 @@ def last_valid_data(velocities, spike_indices):
     modified_data = np.copy(velocities)
 
     # Replace values at spikes indices with the last valid value
+    spike_indices = np.unique(np.asarray(spike_indices, dtype=int))
     for idx in spike_indices:
-        modified_data[idx] = modified_data[idx - 1]
+        if idx == 0:
+            # No sample comes before the first one: use the first valid sample after it
+            valid = np.delete(modified_data, spike_indices)
+            modified_data[idx] = valid[0] if valid.size > 0 else modified_data[idx]
+        else:
+            modified_data[idx] = modified_data[idx - 1]
 
     return modified_data
 
-- 
2.43.0


From 1a779ec2dae36cc0dd23224c339c1fd3f42ba228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 10/44] fix: phasespace_thresholding_premodification never
 removed anything

No sample is both above and below the threshold. Also accept array_like data and leave it unmodified.
---
 proadv/filtration/detection/phasespace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..e9d2eee 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -1,5 +1,6 @@
 import numpy as np
 from proadv.filtration.detection.poincare import calculate_rho
+from proadv.filtration.replacement.replacements import last_valid_data
 from proadv.statistics.spread import std
 
 
@@ -153,6 +154,7 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
         >>> phasespace_thresholding_premodification(data)
     """
 
+    data = np.asarray(data)
     data_size = data.size
     theta = np.median(np.absolute(data - np.median(data)))
 
@@ -163,11 +165,10 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
-    for i in removable_indices:
-        data[i] = data[i - 1]
+    data = last_valid_data(data, removable_indices)
 
     return data, unremovable_indices
-- 
2.43.0


From 2c4df23d515d353cae75977d3bbae0490789300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 11/44] fix: pollution_rate mirrored the filtered signal in its
 lower threshold

---
 proadv/filtration/detection/pollution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..fff19fc 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -17,11 +17,14 @@ def pollution_rate(x, xfil, k):
     pollution (float): Pollution rate as a percentage.
     """
     
+    x = np.asarray(x)
+    xfil = np.asarray(xfil)
+
     # Find positions where x exceeds the threshold
     pos = np.nonzero(x > xfil + k * std(x))
     
     # Find positions where x is below the negative threshold
-    neg = np.nonzero(x < -xfil - k * std(x))
+    neg = np.nonzero(x < xfil - k * std(x))
     
     # Concatenate positive and negative noises
     noises = np.concatenate((pos, neg), axis=None)
-- 
2.43.0


From 22260b332d5706968d3822c716d2422e5526c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 12/44] fix: power_spectra used the overlap percentage as a
 number of samples

---
 proadv/statistics/signal/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/spectrum.py b/proadv/statistics/signal/spectrum.py
index aab687f..27d70cc 100644
--- a/proadv/statistics/signal/spectrum.py
+++ b/proadv/statistics/signal/spectrum.py
@@ -24,6 +24,6 @@ def power_spectra(data, sampling_frequency, overlap=50, block=2048, onesided=Tru
     win=hann(block, True)
 
     # Compute power spectral density
-    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=overlap, nfft=block, return_onesided=onesided)
+    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=int(block * overlap / 100), nfft=block, return_onesided=onesided)
     
     return fxu, fyu
-- 
2.43.0


From 9b0a06ef13c5605f3df89ba8ea3972eea7d7e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 13/44] fix: mean dropped convertible strings that follow a
 non-numeric one

Input without any number now yields the documented message instead of an error or nan.
---
 proadv/statistics/descriptive.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index 50f90c5..ddab21f 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -206,19 +206,20 @@ def mean(array):
         return mean_array  # Returns the average if all the items are an int or float
 
     # if at least one of the items in our list is not an int or float:
-    if not isinstance(array, (int, float)) and np.size(np.array(array)) != 0:
-        for item in array:
-            if isinstance(item, str):
+    if not isinstance(array, (int, float, str)) and np.size(np.array(array)) != 0:
+        if any(isinstance(item, str) for item in array):
+            numbers = []
+            for item in array:
                 # Trys to convert the string to a float
                 try:
-                    array = list(array)
-                    index = array.index(item)
-                    array[index] = float(item)
+                    numbers.append(float(item))
 
                 except ValueError:
                     # If conversion fails, it's not a number, so we take out the invalid data and calculate the rest
-                    array = [item for item in array if isinstance(item, (int, float))]
                     continue
+            array = numbers
+        if np.size(array) == 0:
+            return "Invalid input."  # none of the items is a number
         mean_array = np.sum(array) / np.size(array)
         return mean_array
 
-- 
2.43.0


From f3afc888d21270ddeab3bfc0e0f97138e58ab3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 14/44] fix: fminbound returned the last point tried instead of
 the minimum

---
 proadv/statistics/optimize/optimize.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..3c940ad 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -328,7 +328,6 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
         convergence_flag = 2
 
     # Set the final optimal value and function value
-    x_optimal = x_current
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From 2249058ed149e507c59b01b24da5d9bdafa09d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 15/44] fix: brentq broke its documented results at endpoint
 roots and without convergence

full_output returned a tuple at an endpoint root, the function calls were off by one,
and an unconverged point was returned as if it were a root.
---
 proadv/statistics/optimize/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 3c940ad..c5b6a35 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -65,10 +65,10 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     fcur = f(xcur)
 
     # Check if we already have a root at the endpoints
-    if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
-    if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+    if fpre == 0 or fcur == 0:
+        root = xa if fpre == 0 else xb
+        result = {'root': root, 'function_calls': 2, 'iterations': 0, 'converged': True, 'flag': 'converged'}
+        return result if full_output else root
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
@@ -142,15 +142,15 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
-        'iterations': i + 1,
+        'function_calls': maxiter + 2,
+        'iterations': maxiter,
         'converged': False,
         'flag': 'convergence not achieved'
     }
     if full_output:
         return result
     else:
-        return result['root']
+        raise ValueError("Failed to converge within {} iterations.".format(maxiter))
 
 
 def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
-- 
2.43.0


From cd209024e5a1f0ea65c9f300754feb75c9a2950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 16/44] fix: phase-space ellipse axes took the square root of
 the numerator only

---
 proadv/filtration/detection/phasespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index e9d2eee..321acd8 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -73,8 +73,8 @@ def calculate_parameters(c, dc, dc2):
     a2 = lambda_ * std_dc
     b2 = lambda_ * std_dc2
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
-    a3 = np.sqrt(a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact
-    b3 = np.sqrt(b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact
+    a3 = np.sqrt((a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact)
+    b3 = np.sqrt((b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact)
     return std_c, std_dc, std_dc2, lambda_, theta, a1, b1, a2, b2, a3, b3
 
 
-- 
2.43.0


From ed8c1b3219fa85ebf2c10d80a97bb3172f267540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 17/44] fix: three-dimensional phase-space rotation angle used
 the wrong derivatives

The principal axis is rotated in the plane of the signal and its second derivative.
---
 proadv/filtration/detection/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index bc27337..25204fc 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -167,7 +167,7 @@ def spherical_phasespace_thresholding(c, iteration, c_mean):
     dc, dc2 = _gradients(c)
 
     # Calculaterotation angle
-    theta = np.around(np.arctan2(np.sum(c * dc), np.sum(dc2 ** 2)), 4)
+    theta = np.around(np.arctan2(np.sum(c * dc2), np.sum(c ** 2)), 4)
 
     # Rotate data
     x, y, z = _rotation(c, dc, dc2, theta)
-- 
2.43.0


From f909a8ee36c189f5b597ff8e831e4ba236bee548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 18/44] fix: three-dimensional phase-space missed spikes whose
 rounded projection leaves the ellipsoid

The square root of a slightly negative number made the comparison false.
---
 proadv/filtration/detection/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/spherical.py b/proadv/filtration/detection/spherical.py
index 25204fc..1282553 100644
--- a/proadv/filtration/detection/spherical.py
+++ b/proadv/filtration/detection/spherical.py
@@ -121,7 +121,7 @@ def _spike_indices(x, y, z, a, b, c):
         z1 = z[i]
         x2 = np.around(a * b * c * x1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
         y2 = np.around(a * b * c * y1 / np.sqrt((a * c * y1) ** 2 + b ** 2 * (c ** 2 * x1 ** 2 + a ** 2 * z1 ** 2)), 4)
-        zt = np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4)
+        zt = np.maximum(np.around(c ** 2 * (1 - (x2 / a) ** 2 - (y2 / b) ** 2), 4), 0)
         if z1 < 0:
             z2 = -np.around(np.sqrt(zt), 4)
         elif z1 > 0:
-- 
2.43.0


From 4da60d7873ef25aa88b00e6587781efb7d997895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 19/44] fix: bivariate_kernel did not return a density

The cosine transform ran along the wrong axis, was applied forward a second time instead of being
inverted, and the samples were binned one cell too high.
---
 proadv/kernel/bivariate.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index dd2b010..7be48b8 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy import optimize
+from scipy import fft, optimize
 
 
 def _rotation(x, y):
@@ -130,7 +130,7 @@ def _histogram(trans, grid):
     
     # Iterate over each column and compute the bins
     for i in range(cols):
-        bins[:, i] = np.digitize(trans[:, i], hist, 1)
+        bins[:, i] = np.digitize(trans[:, i], hist) - 1
         bins[:, i] = np.minimum(bins[:, i], grid - 1)
         
     # Accumulate the binned data
@@ -154,10 +154,10 @@ def _discrete_cosine_1d(data, weight):
     """
     
     # Reorder the data for the discrete cosine transform
-    reordered = np.vstack((data[::2, :], data[::-2, :]))
+    reordered = np.vstack((data[::2, :], data[1::2, :][::-1, :]))
     
     # Compute the discrete cosine transform using FFT
-    transform = np.real(weight * np.fft.fft(reordered))
+    transform = np.real(weight * np.fft.fft(reordered, axis=0))
     
     return transform
 
@@ -193,6 +193,27 @@ def _discrete_cosine_2d(data):
     return discrete
 
 
+def _inverse_discrete_cosine_2d(data):
+    """
+    Compute the inverse of the 2D discrete cosine transform of the input square data.
+
+    Parameters
+    ------
+    data (array_like): 2D discrete cosine transform.
+
+    Returns
+    ------
+    inverse (array_like): Data whose 2D discrete cosine transform is the input.
+    """
+
+    # The transform does not double its first coefficient, scipy does
+    coefficients = data.copy()
+    coefficients[0, :] *= 2
+    coefficients[:, 0] *= 2
+
+    return fft.idctn(coefficients)
+
+
 def _k(s_indices):
     """
     Compute the k-value based on the given indices.
@@ -423,7 +444,7 @@ def bivariate_kernel(data, hx, hy, grid):
     a_t = np.matmul(v1, v2) * discrete
     
     # Compute density matrix
-    density_mx = _discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
+    density_mx = _inverse_discrete_cosine_2d(a_t) * (a_t.size / np.prod(scale))
     density_mx[density_mx < 0] = np.finfo(float).eps
     
     # Create vectors for x and y values
-- 
2.43.0


From 4892fadda098099031981a9fc061594c207e99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 20/44] fix: kernel estimated the density of the unrotated data
 on the rotated grid

---
 proadv/filtration/detection/trivariatekernel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index b12cd3e..28eab4c 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -472,14 +472,13 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
-    dataset = np.array([u1, w1])
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
     uf, wf = _profile(mesh_u, mesh_w)
     positions, values = _position(mesh_u, mesh_w, ut, wt)
     evals = _density(values)
-    evole = _evolve(dataset, positions, evals)
+    evole = _evolve(values, positions, evals)
     estimation = _estimation(evole.T, mesh_u)
     density = np.reshape(kde(values)(positions).T, mesh_u.shape)
     peak, up, wp, fu, fw = _peak(density)
-- 
2.43.0


From c6587c3c16e2430f5ed12f4e2abd2ed6d27da5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 21/44] fix: lower cutoff fell back to the second point of the
 profile

With the peak at the first point the lower cutoff ended up above the peak.
---
 proadv/filtration/detection/bivariatekernel.py  | 2 +-
 proadv/filtration/detection/trivariatekernel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/bivariatekernel.py b/proadv/filtration/detection/bivariatekernel.py
index 31126d0..ae18622 100644
--- a/proadv/filtration/detection/bivariatekernel.py
+++ b/proadv/filtration/detection/bivariatekernel.py
@@ -37,7 +37,7 @@ def _cutoff(density_profile, velocity_profile, c1_threshold, c2_threshold, force
             lower_cutoff_index = i
             break
     else:
-        lower_cutoff_index = 1
+        lower_cutoff_index = 0
 
     # Find upper cutoff index
     for i in range(peak_index + 1, profile_length - 1):
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index 28eab4c..412c993 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -441,7 +441,7 @@ def _cutoff(density_profile, velocity_profile, c1_threshold, c2_threshold, force
             lower_cutoff_index = i
             break
     else:
-        lower_cutoff_index = 1
+        lower_cutoff_index = 0
 
     # Find upper cutoff index
     for i in range(peak_index + 1, profile_length - 1):
-- 
2.43.0


From ead996d7d682b7e0d7363db4a83846522eaef588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 22/44] fix: synthetic_noise never returned when asked for more
 than 100 percent

---
 proadv/statistics/signal/synthetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proadv/statistics/signal/synthetic.py b/proadv/statistics/signal/synthetic.py
index 203bf56..604fd35 100644
--- a/proadv/statistics/signal/synthetic.py
+++ b/proadv/statistics/signal/synthetic.py
@@ -16,6 +16,9 @@ def _random_index(data_size, percent):
     randoms (np.ndarray): An array containing randomly selected indexes.
     """
 
+    if percent > 100:
+        raise ValueError("Percent must not be greater than 100.")
+
     randoms = []
     iteration = 0
     while iteration < len(range(int(data_size * percent / 100))):
-- 
2.43.0


From cccf6ddd3b366d20835b3d0c4c9d5884c12e9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 23/44] fix: variance, std and median rejected array_like data
 such as lists

---
 proadv/statistics/descriptive.py | 1 +
 proadv/statistics/spread.py      | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index ddab21f..a6eed62 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -270,6 +270,7 @@ def median(data):
     29.0
     """
 
+    data = np.asarray(data)
     if data.ndim != 1:  # Optional check for 1D array
         raise ValueError("Data array must be a 1D array.")
     for i in data:
diff --git a/proadv/statistics/spread.py b/proadv/statistics/spread.py
index 483e94a..0c9803f 100644
--- a/proadv/statistics/spread.py
+++ b/proadv/statistics/spread.py
@@ -44,6 +44,7 @@ def variance(data):
     18.666666666666668
     """
 
+    data = np.asarray(data)
     if data.ndim != 1:  # Optional check for 1D array
         raise ValueError("Data array must be a 1D array.")
     for i in data:
@@ -105,6 +106,7 @@ def std(data):
     2.0
     """
 
+    data = np.asarray(data)
     if data.ndim != 1:  # Optional check for 1D array
         raise ValueError("Data array must be a 1D array.")
 
-- 
2.43.0


From 066b86523e3d277b487e40bbe3f82b8491829fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 24/44] fix: moving averages and ssa rejected array_like data
 such as lists

---
 proadv/statistics/series.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index ef5a1b1..cedda34 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -43,6 +43,8 @@ def moving_average(data, window_size=20):
 
     """
 
+    data = np.asarray(data)
+
     if window_size <= 0:
         raise ValueError("Window size must be greater than zero.")
 
@@ -117,6 +119,8 @@ def exponential_moving_average(data, alpha=0.2):
     if alpha <= 0 or alpha > 1:
         raise ValueError("Alpha must be between 0 and 1 (inclusive).")
 
+    data = np.asarray(data)
+
     # Initialize the exponential moving average array with zeros
     ema = np.zeros_like(data)
 
@@ -179,6 +183,8 @@ def weighted_moving_average(data, period=20):
     >>> data = np.random.rand(300)
     >>> wma = weighted_moving_average(data)    
     """
+    data = np.asarray(data)
+
     if period <= 0:
         raise ValueError("Period must be greater than zero.")
 
@@ -308,6 +314,7 @@ def ssa(x, fs, f):
     """
 
     # Compute the window length L that should be greater than fs/f
+    x = np.asarray(x)
     window_length = int(np.ceil(fs / f))
     array_size = x.size
     k = array_size - window_length + 1
-- 
2.43.0


From 3bb18671bbcd04518244b56e8039258b63bf070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 25/44] fix: phase-space and kernel detection truncated the
 derivatives of integer data

They also rejected array_like data such as lists.
---
 proadv/filtration/detection/phasespace.py       | 3 +++
 proadv/filtration/detection/trivariatekernel.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 321acd8..e2816d9 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -102,6 +102,9 @@ def phasespace_thresholding(c):
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
 
+    # Integer data would truncate the derivatives
+    c = np.asarray(c, dtype=float)
+
     # Calculate first and second order derivatives of the input data
     dc, dc2 = calculate_derivatives(c)
 
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index 412c993..9d34aac 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -472,6 +472,8 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
+    u1 = np.asarray(u1)
+    w1 = np.asarray(w1)
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
@@ -512,6 +514,8 @@ def three_dimensional_kernel(data, grid):
     ------
     Spikes  indices.
     """
+    # Integer data would truncate the derivatives
+    data = np.asarray(data, dtype=float)
     dc, dc2 = _derivatives(data)
     x1, _ = kernel(data, dc, grid)
     x2, _ = kernel(data, dc2, grid)
-- 
2.43.0


From 4136d02454e32fd9a6313db0f40e75925102575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 26/44] fix: synthetic_noise and bivariate_kernel rejected
 array_like data such as lists

---
 proadv/kernel/bivariate.py            | 1 +
 proadv/statistics/signal/synthetic.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index 7be48b8..690c265 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -401,6 +401,7 @@ def bivariate_kernel(data, hx, hy, grid):
     """
     
     # Compute scaling parameters
+    data = np.asarray(data)
     data_size = data.size
     max_co, min_co, scale = _scaling(data)
     
diff --git a/proadv/statistics/signal/synthetic.py b/proadv/statistics/signal/synthetic.py
index 604fd35..a5a3a0d 100644
--- a/proadv/statistics/signal/synthetic.py
+++ b/proadv/statistics/signal/synthetic.py
@@ -45,6 +45,7 @@ def synthetic_noise(data, percent):
     synthetic_polluted_data (np.ndarray): Synthetic data with added noise.
     """
 
+    data = np.asarray(data)
     synthetic_data = _random_index(data.size, percent)
 
     r = np.random.normal(0, 0.05, data.size)  # Nosie Vector
-- 
2.43.0


From 46622ff3647a5ad0644f39c7e62d09a54f636b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 27/44] fix: weighted_moving_average returned a list when the
 period equals the data size

Replacing an empty set of spikes with that period then raised a TypeError.
---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index cedda34..49d7582 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -191,7 +191,7 @@ def weighted_moving_average(data, period=20):
     if period > data.size:
         raise ValueError("Data array size must be greater than period.")
 
-    wma = []
+    wma = np.array([])
 
     for i in range(period, data.size):
         """
-- 
2.43.0


From 826d14ab6eb81e728e68f99d0c9015dc48d463f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:10 +0000
Subject: [PATCH 28/44] fix: xyz_to_sop failed with IndexError when real and
 complex roots had to be kept apart

---
 proadv/statistics/signal/butter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/proadv/statistics/signal/butter.py b/proadv/statistics/signal/butter.py
index f149932..db5f776 100644
--- a/proadv/statistics/signal/butter.py
+++ b/proadv/statistics/signal/butter.py
@@ -364,7 +364,7 @@ def xyz_to_sop(x, y, z, pg=None, *, ag=False):
                 x1 = x[x1_i]
                 x = np.delete(x, x1_i)
                 sop[ci] = _lone_xyzsop([x1, 0], [y1, 0], 1)
-            elif len(x) > 0:
+            elif np.isreal(x).any():
                 x1_i = _closest_real_complex_i(x, y1, 'real')
                 x1 = x[x1_i]
                 x = np.delete(x, x1_i)
@@ -395,9 +395,10 @@ def xyz_to_sop(x, y, z, pg=None, *, ag=False):
             else:
                 y2 = y1.conj()
 
-            # find closest zero
+            # find closest zero (a last real zero has no partner while complex ones remain)
             if len(x) > 0:
-                x1_i = _closest_real_complex_i(x, y1, 'any')
+                lone = len(x) > 1 and np.isreal(x).sum() == 1
+                x1_i = _closest_real_complex_i(x, y1, 'complex' if lone else 'any')
                 x1 = x[x1_i]
                 x = np.delete(x, x1_i)
 
-- 
2.43.0


From e8470b241a09da24b98a3034b2658366b3bf6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 29/44] fix: replacement methods rejected spike indices given
 as a tuple

---
 proadv/filtration/replacement/replacements.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index f104f64..70f2b3f 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -58,7 +58,7 @@ def mean_value(velocities, spike_indices):
     modified_data = np.copy(velocities)
 
     # Replace values at spikes indices with the mean value
-    modified_data[spike_indices] = mean(velocities)
+    modified_data[list(spike_indices)] = mean(velocities)
 
     return modified_data
 
@@ -84,7 +84,7 @@ def median_value(velocities, spike_indices):
     modified_data = np.copy(velocities)
 
     # Replace values at spikes indices with the median value
-    modified_data[spike_indices] = median(velocities)
+    modified_data[list(spike_indices)] = median(velocities)
 
     return modified_data
 
@@ -254,7 +254,7 @@ def simple_moving_average(velocities, spike_indices, window_size=20):
     sma = ma(modified_data, window_size)
 
     # Replace values at spikes indices with the simple_moving_average values
-    modified_data[spike_indices] = sma[spike_indices]
+    modified_data[list(spike_indices)] = sma[list(spike_indices)]
     return modified_data
 
 
@@ -284,7 +284,7 @@ def exponential_moving_average(velocities, spike_indices, alpha=0.2):
     ema = expo(modified_data, alpha)
 
     # Replace values at spikes indices with the exponential_moving_average values
-    modified_data[spike_indices] = ema[spike_indices]
+    modified_data[list(spike_indices)] = ema[list(spike_indices)]
     return modified_data
 
 
@@ -314,7 +314,7 @@ def weighted_moving_average(velocities, spike_indices, period=20):
     wma = wm(modified_data, period)
 
     # Replace values at spikes indices with the weighted_moving_average values
-    modified_data[spike_indices] = wma[spike_indices]
+    modified_data[list(spike_indices)] = wma[list(spike_indices)]
     return modified_data
 
 
@@ -344,7 +344,7 @@ def ssa(velocities, spike_indices, fs, f):
     xf = sa(modified_data, fs, f)
 
     # Replace values at spikes indices with the singular spectrum analysis values
-    modified_data[spike_indices] = xf[spike_indices]
+    modified_data[list(spike_indices)] = xf[list(spike_indices)]
     return modified_data
 
 
@@ -379,7 +379,7 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     filtered_data = np.reshape(filtered_data, modified_data.shape)
 
     # Replace values at spikes indices with the kalman_filter values
-    modified_data[spike_indices] = filtered_data[spike_indices]
+    modified_data[list(spike_indices)] = filtered_data[list(spike_indices)]
     return modified_data
 
 
-- 
2.43.0


From 847907280c573a6bcace51af0579e01f59bfd2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:35 +0000
Subject: [PATCH 30/44] fix: calculate_rho rejected array_like components such
 as lists

---
 proadv/filtration/detection/poincare.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 3240550..f36cb83 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -41,6 +41,8 @@ def calculate_rho(x, y, theta, a, b):
     ------
         rho (array_like): Rho value calculated for poincare map.
     """
+    x = np.asarray(x)
+    y = np.asarray(y)
     xp = x * np.cos(theta) + y * np.sin(theta)
     yp = y * np.cos(theta) - x * np.sin(theta)
     return (xp / a) ** 2 + (yp / b) ** 2
-- 
2.43.0


From 898f94b53942a13b62f5a0034fe226fbb9e01bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:26 +0000
Subject: [PATCH 31/44] fix: acceleration_thresholding overflowed on narrow
 integer data

---
 proadv/filtration/detection/acceleration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/acceleration.py b/proadv/filtration/detection/acceleration.py
index a993c36..de1bf6d 100644
--- a/proadv/filtration/detection/acceleration.py
+++ b/proadv/filtration/detection/acceleration.py
@@ -46,7 +46,8 @@ def acceleration_thresholding(velocities, frequency, tag, gravity=980, k_gravity
             "Despiking acoustic Doppler velocimeter data."
             Journal of hydraulic engineering 128.1 (2002): 117-126.
     """
-    velocities = np.asarray(velocities)
+    # Narrow integers would overflow in the differences
+    velocities = np.asarray(velocities, dtype=float)
 
     # Calculate velocity differences and multiply by frequency to obtain acceleration
     differences = np.concatenate((np.array([0]), np.diff(velocities) * frequency))
-- 
2.43.0


From 528d05a61c449f7bb0b431f2538cdad6e1c19b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:26 +0000
Subject: [PATCH 32/44] fix: moving_average overflowed on narrow integer data

---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index 49d7582..11e6ab2 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -43,7 +43,7 @@ def moving_average(data, window_size=20):
 
     """
 
-    data = np.asarray(data)
+    data = np.asarray(data, dtype=float)
 
     if window_size <= 0:
         raise ValueError("Window size must be greater than zero.")
-- 
2.43.0


From 5d0487c3cceacfdc2c41db800b58c032e0b0fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:59 +0000
Subject: [PATCH 33/44] fix: kernel overflowed on narrow integer data

---
 proadv/filtration/detection/trivariatekernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index 9d34aac..9f3b1f7 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -472,8 +472,8 @@ def kernel(u1, w1, grid):
     Spieks Indices and estimation.
     """
 
-    u1 = np.asarray(u1)
-    w1 = np.asarray(w1)
+    u1 = np.asarray(u1, dtype=float)
+    w1 = np.asarray(w1, dtype=float)
     theta = _rotation(u1, w1)
     ut, wt = _transform(u1, w1, theta)
     mesh_u, mesh_w = _scaling(ut, wt, grid)
-- 
2.43.0


From d29319065d44c618a3a26395874e9233548e2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:59 +0000
Subject: [PATCH 34/44] fix: bivariate_kernel overflowed on narrow integer data

---
 proadv/kernel/bivariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/kernel/bivariate.py b/proadv/kernel/bivariate.py
index 690c265..325e9eb 100644
--- a/proadv/kernel/bivariate.py
+++ b/proadv/kernel/bivariate.py
@@ -401,7 +401,7 @@ def bivariate_kernel(data, hx, hy, grid):
     """
     
     # Compute scaling parameters
-    data = np.asarray(data)
+    data = np.asarray(data, dtype=float)
     data_size = data.size
     max_co, min_co, scale = _scaling(data)
     
-- 
2.43.0


From 93003a4bbdadc4e35d739c82bf8a2322a27577c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:59 +0000
Subject: [PATCH 35/44] fix: pdf overflowed on narrow integer data

---
 proadv/statistics/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index b45d795..ebeeccc 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -127,7 +127,7 @@ def pdf(array, std=1, mean=0):
     if np.isnan(array).any():
         raise TypeError('array cannot contain NaN values.')
     x = (-0.5 * np.log(2 * np.pi)) - np.log(std)
-    y = np.power(array - mean, 2) / (2 * (std * std))
+    y = np.power(np.subtract(array, mean, dtype=float), 2) / (2 * (std * std))
     array_pdf = np.exp(x - y)
     return array_pdf
 
-- 
2.43.0


From aae7afac40468459fb12ee3b2e1d847dc97f9511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:59 +0000
Subject: [PATCH 36/44] fix: calculate_derivatives truncated the derivatives of
 integer data

---
 proadv/filtration/detection/phasespace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index e2816d9..a8a1293 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -17,6 +17,9 @@ def calculate_derivatives(c):
         dc (array_like): First derivative of the input data.
         dc2 (array_like): Second derivative of the input data.
     """
+    # Integer data would truncate the derivatives
+    c = np.asarray(c, dtype=float)
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(c)
     dc2 = np.zeros_like(c)
-- 
2.43.0


From 01116b9f05ea9db7c1afc74b7add95dc7b08fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:24 +0000
Subject: [PATCH 37/44] fix: brentq divided by zero when the interpolation
 denominator underflows

---
 proadv/statistics/optimize/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index c5b6a35..0c26d10 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -112,7 +112,9 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
                 # Extrapolation
                 dpre = (fpre - fcur) / (xpre - xcur)
                 dblk = (fblk - fcur) / (xblk - xcur)
-                stry = -fcur * (fblk * dblk - fpre * dpre) / (dblk * dpre * (fblk - fpre))
+                denominator = dblk * dpre * (fblk - fpre)
+                # The product may underflow: bisect then
+                stry = -fcur * (fblk * dblk - fpre * dpre) / denominator if denominator != 0 else sbis
 
             # Decide if we accept the interpolation/extrapolation
             if 2 * abs(stry) < min(abs(spre), 3 * abs(sbis) - delta):
-- 
2.43.0


From 981635719ca707caaf9b197aee251712fa1eff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:52 +0000
Subject: [PATCH 38/44] fix: calculate_parameters of the phase-space and
 correlation filters accept array-likes

---
 proadv/filtration/detection/correlation.py | 2 +-
 proadv/filtration/detection/phasespace.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/correlation.py b/proadv/filtration/detection/correlation.py
index 2d81cd2..6cffabd 100644
--- a/proadv/filtration/detection/correlation.py
+++ b/proadv/filtration/detection/correlation.py
@@ -20,7 +20,7 @@ def calculate_parameters(up, vp, wp):
         std_v (float): Standard deviation of the transverse velocity component.
         std_w (float): Standard deviation of the vertical velocity component.
     """
-    data_size = up.size
+    data_size = np.size(up)
     std_u = std(up)
     std_v = std(vp)
     std_w = std(wp)
diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index a8a1293..519f877 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -59,6 +59,9 @@ def calculate_parameters(c, dc, dc2):
         a3 (float): Coefficient 'a3'.
         b3 (float): Coefficient 'b3'.
     """
+    # The sums below need arrays of floats, whatever array-like is given
+    c, dc, dc2 = (np.asarray(x, dtype=float) for x in (c, dc, dc2))
+
     # Calculate standard deviations
     std_c = std(c)
     std_dc = std(dc)
-- 
2.43.0


From 666c1271faddeca690994922c4070fbd79c040cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 39/44] fix: mean of a single numpy integer or float32 raised
 TypeError

---
 proadv/statistics/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/descriptive.py b/proadv/statistics/descriptive.py
index a6eed62..63c43da 100644
--- a/proadv/statistics/descriptive.py
+++ b/proadv/statistics/descriptive.py
@@ -194,7 +194,7 @@ def mean(array):
     'Invalid input.'
     """
 
-    if isinstance(array, (int, float)):
+    if isinstance(array, (int, float, np.number)):
         return array  # If it's a single number, return it as the mean
 
     elif np.size(np.array(array)) != 0 and type(array) != str and all(isinstance(item, (int, float)) for item in array):
-- 
2.43.0


From 566eed6a88c0a673d1be061ecc7ec5d06f3fcccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 40/44] fix: kurtosis flattens data that is not
 one-dimensional, as documented

---
 proadv/statistics/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/moment.py b/proadv/statistics/moment.py
index 4944be2..4351125 100644
--- a/proadv/statistics/moment.py
+++ b/proadv/statistics/moment.py
@@ -105,7 +105,7 @@ def kurtosis(x):
     """
 
     # Convert data to a numpy array
-    x = np.array(x)
+    x = np.array(x).flatten()
 
     # Calculate the mean
     average = mean(x)
-- 
2.43.0


From 01804374e2efd2cec2803386dbfc2a91ad4fa844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 41/44] fix: replacement values were truncated when the
 velocities are integers

---
 proadv/filtration/replacement/replacements.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 70f2b3f..b7057b9 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -55,7 +55,7 @@ def mean_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the mean value
     modified_data[list(spike_indices)] = mean(velocities)
@@ -81,7 +81,7 @@ def median_value(velocities, spike_indices):
     """
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Replace values at spikes indices with the median value
     modified_data[list(spike_indices)] = median(velocities)
@@ -248,7 +248,7 @@ def simple_moving_average(velocities, spike_indices, window_size=20):
     from proadv.statistics.series import moving_average as ma
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use moving_average function
     sma = ma(modified_data, window_size)
@@ -278,7 +278,7 @@ def exponential_moving_average(velocities, spike_indices, alpha=0.2):
     from proadv.statistics.series import exponential_moving_average as expo
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use exponential_moving_average function
     ema = expo(modified_data, alpha)
@@ -308,7 +308,7 @@ def weighted_moving_average(velocities, spike_indices, period=20):
     from proadv.statistics.series import weighted_moving_average as wm
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use weighted_moving_average function
     wma = wm(modified_data, period)
@@ -338,7 +338,7 @@ def ssa(velocities, spike_indices, fs, f):
     from proadv.statistics.series import ssa as sa
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use ssa function
     xf = sa(modified_data, fs, f)
@@ -370,7 +370,7 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
     from proadv.statistics.series import kalman_filter as kl
 
     # Create a copy of the original data
-    modified_data = np.copy(velocities)
+    modified_data = np.array(velocities, dtype=float)
 
     # Use kalman_filter function
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
-- 
2.43.0


From 86ed160f2caa0d60d4a0aec5bd96cfbd44adda09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 42/44] fix: exponential_moving_average truncated to whole
 numbers on integer data

---
 proadv/statistics/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index 11e6ab2..5b86d81 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -119,7 +119,7 @@ def exponential_moving_average(data, alpha=0.2):
     if alpha <= 0 or alpha > 1:
         raise ValueError("Alpha must be between 0 and 1 (inclusive).")
 
-    data = np.asarray(data)
+    data = np.asarray(data, dtype=float)
 
     # Initialize the exponential moving average array with zeros
     ema = np.zeros_like(data)
-- 
2.43.0


From 65e0751fd74e2acd43319a8d041695c241037065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 43/44] fix: Butterworth order given as an unsigned integer no
 longer wraps around

---
 proadv/statistics/signal/butter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proadv/statistics/signal/butter.py b/proadv/statistics/signal/butter.py
index db5f776..911c816 100644
--- a/proadv/statistics/signal/butter.py
+++ b/proadv/statistics/signal/butter.py
@@ -267,6 +267,7 @@ def buttap(number):
     """
     if np.abs(int(number)) != number:
         raise ValueError("Filter order must be a nonnegative integer")
+    number = int(number)
     x = np.array([])
     y = np.arange(-number + 1, number, 2)
     # Middle value is 0 to ensure an exactly real pole
-- 
2.43.0


From 8def70d2fdadd6849277d7df9071bf1e40996eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 44/44] fix: refuse more than two critical frequencies for a
 band filter

---
 proadv/statistics/signal/butter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proadv/statistics/signal/butter.py b/proadv/statistics/signal/butter.py
index 911c816..0330732 100644
--- a/proadv/statistics/signal/butter.py
+++ b/proadv/statistics/signal/butter.py
@@ -643,6 +643,9 @@ def butterworth(q, w, btype='bp', ag=False, output='nd', sr=None):
         elif btype == 'hp':
             zero, poles, system = low_to_high(zero, poles, system, dc=dc)
     elif btype in ('bp', 'bs'):
+        if np.size(w) > 2:
+            raise ValueError('w must specify only start and stop frequencies for '
+                             'bandpass or bandstop filter')
         try:
             pw = dc[1] - dc[0]
             g = np.sqrt(dc[0] * dc[1])
-- 
2.43.0

