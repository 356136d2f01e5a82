From 2e076fcc6339cf62f5af498ed396ca3dbf1e3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 01/22] fix: noise variance after downsampling by a
 near-integer factor

The k - 1 input samples with unit weight contribute k - 1 to the variance, not
(k - 1)^2, which made the S/N too low for downsampling factors of 3 and above.
---
 riptide/cpp/downsample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index f0d780d..f9f3c81 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -34,7 +34,7 @@ double downsampled_variance(size_t num_samples, double f)
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return pow(k-1, 2) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return (k - 1) + 2.0/3.0 * pow(x, 2) - x + 1.0;
     }
 
 
-- 
2.43.0


From 297663c599599b0b84456ffe8503e124056912b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 02/22] fix: circular_prefix_sum output must have nsum elements

The output array had as many elements as the input: summing over more elements
wrote past its end, over fewer left elements uninitialised.
---
 riptide/cpp/python_bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..65d0314 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,9 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    if (!size)
+        throw std::invalid_argument("Input array must not be empty");
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From c1a8774d399d5142753671614b875725b1d5c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 03/22] fix: refuse empty arrays in ffa2, rollback and
 fused_rollback_add

ffa2 recursed without end on zero rows and all of them divided by zero on
zero columns.
---
 riptide/cpp/python_bindings.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index 65d0314..5da31cf 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -30,6 +30,14 @@ py::array_t<T> new_cstyle_array(std::initializer_list<size_t> shape) {
 }
 
 
+template<typename T>
+void assert_not_empty(py::array_t<T> arr)
+{
+    if (!arr.size())
+        throw std::invalid_argument("Input array must not be empty");
+}
+
+
 template<typename T>
 void assert_c_contiguous(py::array_t<T> arr)
 {
@@ -44,6 +52,7 @@ void assert_c_contiguous(py::array_t<T> arr)
 py::array_t<float> rollback(py::array_t<float> arr_x, size_t shift)
 {
     assert_c_contiguous(arr_x);
+    assert_not_empty(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
     auto arr_output = new_cstyle_array<float>({size});
@@ -60,6 +69,7 @@ py::array_t<float> fused_rollback_add(py::array_t<float> arr_x, py::array_t<floa
     }
     assert_c_contiguous(arr_x);
     assert_c_contiguous(arr_y);
+    assert_not_empty(arr_x);
     
     auto x = arr_x.unchecked<1>();
     auto y = arr_y.unchecked<1>();
@@ -73,10 +83,9 @@ py::array_t<float> fused_rollback_add(py::array_t<float> arr_x, py::array_t<floa
 py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
 {
     assert_c_contiguous(arr_x);
+    assert_not_empty(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    if (!size)
-        throw std::invalid_argument("Input array must not be empty");
     auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
@@ -86,6 +95,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
 py::array_t<float> ffa2(py::array_t<float> arr_input)
 {
     assert_c_contiguous(arr_input);
+    assert_not_empty(arr_input);
     auto input = arr_input.unchecked<2>();
     const size_t rows = input.shape(0);
     const size_t cols = input.shape(1);
-- 
2.43.0


From 45ff86494dc22ec86e15cd7a520927658552cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 04/22] fix: check the trial widths of a periodogram, refuse an
 empty list of widths

An empty list of widths was read out of bounds; widths not smaller than the
number of phase bins gave NaN S/N in periodogram() where snr1/snr2 refuse them.
---
 riptide/cpp/periodogram.hpp | 1 +
 riptide/cpp/snr.hpp         | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index bcea0ea..fc89e8e 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -129,6 +129,7 @@ void periodogram(
     float* __restrict__ snr)
     {
     periodogram_check_arguments(size, tsamp, period_min, period_max, bins_min, bins_max);
+    check_trial_widths(widths, num_widths, bins_min);
 
     // Initial downsampling factor
     // We want: ds_ini * tsamp * bmin = period_min
diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..97cfd44 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -26,6 +26,9 @@ void check_trial_widths(const size_t* widths, size_t num_widths, size_t bins)
         [bins](size_t w){return (w > 0) & (w < bins);}
         );
 
+    if (!num_widths)
+        throw std::invalid_argument("there must be at least one trial width");
+
     if (!b)
         throw std::invalid_argument("trial widths must be all > 0 and < columns");
     }
-- 
2.43.0


From ea453a848b9301435e222d853e0bf178b7ff4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 05/22] fix: stop the search when the maximum allowable trial
 period is reached

With a period_max so large that a downsampling factor exceeds the number of
samples, periodogram() threw instead of stopping as documented.
---
 riptide/cpp/periodogram.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index fc89e8e..37969bf 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -158,6 +158,10 @@ void periodogram(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Maximum allowable trial period reached
+        if (n < bins_min)
+            break;
+
         // downsample() requires f > 1, but we still allow searching the data at their
         // original resolution.
         if (f == 1) {
-- 
2.43.0


From 26d5fe87ff5a576c1bdf27ca95b3952d28e8fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 06/22] fix: keep single precision data when normalising
 in-place

---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..ed91d6f 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 405853902aeff3ce2a52d34e78f31ddb6ac2a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 07/22] fix: update the tobs metadata when downsampling
 in-place

---
 riptide/time_series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ed91d6f..a7edef7 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -141,6 +141,7 @@ class TimeSeries(object):
         if inplace:
             self._data = downsample(self.data, factor)
             self._tsamp *= factor
+            self.metadata['tobs'] = self.length
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From ea2506d45595a88624c9042766dcc5310b7f452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 08/22] fix: rseek: rmed_minpts is an integer

---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From 94e875a59af7d4e2650d5930dc8d14b7b4d1a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 09/22] fix: accept null candidate subints in the pipeline
 configuration, as documented

---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d0a298..6f79692 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -48,7 +48,9 @@ SEARCH_RANGE_SCHEMA = Schema({
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-        'subints': And(int, strictly_positive, error="candidates.subints must be an int > 0"),
+        'subints': Or(
+            And(int, strictly_positive), None,
+            error="candidates.subints must be an int > 0 or null/blank"),
         },
 })
 
-- 
2.43.0


From 229ea94adfee8b389992a4381d7c03f8919d0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 10/22] fix: refuse a null find_peaks.clrad, which find_peaks()
 cannot process

---
 riptide/pipeline/config_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 6f79692..9bc663f 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -42,8 +42,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             int, strictly_positive, error="minseg must be an int > 0"),
         Optional('polydeg'): And(
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
-        Optional('clrad'): Or(
-            And(Use(float), strictly_positive), None, error="clrad must be a number > 0"),
+        Optional('clrad'): And(
+            Use(float), strictly_positive, error="clrad must be a number > 0"),
         },
 
     'candidates': {
-- 
2.43.0


From 6cd1e1f5f443312fadfe6d1b89b4be1e4e31373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 11/22] fix: plot candidates folded with a single
 sub-integration

---
 riptide/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 56fbe0e..2ef9383 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -223,6 +223,8 @@ def plot_subints(X, T):
     T : float
         Integration time in seconds
     """
+    # A single sub-integration is stored as a 1D array
+    X = np.atleast_2d(X)
     __, nbins = X.shape
 
     X = np.hstack((X, X[:, :nbins//2]))
-- 
2.43.0


From c02e8fbdf664a051b4406cfe9b5e8e3d113046ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 12/22] fix: fold() could return one sub-integration less than
 requested

---
 riptide/folding.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/riptide/folding.py b/riptide/folding.py
index 78c8f08..18c8f32 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -16,6 +16,15 @@ def downsample_vertical(X, factor):
     return np.ascontiguousarray(out.T)
 
 
+def exact_factor(num_in, num_out):
+    """
+    Factor by which to downsample num_in samples in order to get num_out samples,
+    rounded down if necessary so that the last output sample is never lost
+    """
+    factor = num_in / num_out
+    return factor if num_in / factor >= num_out else np.nextafter(factor, 0.0)
+
+
 def fold(ts, period, bins, subints=None):
     """
     Fold TimeSeries at given period
@@ -77,5 +86,5 @@ def fold(ts, period, bins, subints=None):
         return folded
     else:
         # vertical downsampling factor
-        vf = m / subints
+        vf = exact_factor(m, subints)
         return downsample_vertical(folded, vf)
-- 
2.43.0


From b5b9143a809be155a7b3b3e68cb042bfc76d657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 13/22] fix: fold() could lose the last period of the data to
 rounding errors

---
 riptide/folding.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptide/folding.py b/riptide/folding.py
index 18c8f32..0288f10 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -71,6 +71,13 @@ def fold(ts, period, bins, subints=None):
             raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
 
     factor = tbin / ts.tsamp
+
+    # If the data are an exact number of bins long, rounding errors on the factor
+    # must not cost the last bin, and thus the last period
+    nbins_total = int(round(ts.nsamp / factor))
+    if nbins_total < ts.nsamp and abs(nbins_total * factor - ts.nsamp) < 1e-9 * ts.nsamp:
+        factor = exact_factor(ts.nsamp, nbins_total)
+
     tsdown = ts.downsample(factor)
     m = tsdown.nsamp // bins
     nsamp_eff = m * bins
-- 
2.43.0


From 0d91451a199fb45722da9522d7ce908e3736c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 14/22] fix: results of an earlier run leaked into later runs
 of a Pipeline

---
 riptide/pipeline/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/pipeline/pipeline.py b/riptide/pipeline/pipeline.py
index c0a1ee1..4396662 100644
--- a/riptide/pipeline/pipeline.py
+++ b/riptide/pipeline/pipeline.py
@@ -190,6 +190,7 @@ class Pipeline(object):
 
     @timing
     def cluster_peaks(self):
+        self.clusters = []
         if not self.peaks:
             log.info("No peaks found: skipping clustering")
             return
@@ -292,6 +293,7 @@ class Pipeline(object):
     @timing
     def build_candidates(self):
         log.info("Building candidates")      
+        self.candidates = []
         clusters_decreasing_snr = sorted(self.clusters_filtered, key=lambda c: c.centre.snr, reverse=True)
 
         if not clusters_decreasing_snr:
-- 
2.43.0


From d62bbda9e540d7aa23ef6af9ba08a6696709b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 15/22] fix: fold() refused bins of exactly one sample, or lost
 a period to rounding

---
 riptide/folding.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/riptide/folding.py b/riptide/folding.py
index 0288f10..b533c4b 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -58,7 +58,11 @@ def fold(ts, period, bins, subints=None):
         raise ValueError("Period exceeds data length")
 
     tbin = period / bins
-    if not tbin > ts.tsamp:
+    factor = tbin / ts.tsamp
+
+    # Bins exactly one sample long are fine, and require no downsampling
+    one_sample = abs(factor - 1.0) < 1e-9
+    if not (factor > 1.0 or one_sample):
         raise ValueError("Bin width is shorter than sampling time")
 
     if subints is not None:
@@ -70,15 +74,13 @@ def fold(ts, period, bins, subints=None):
         if subints > full_periods:
             raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
 
-    factor = tbin / ts.tsamp
-
     # If the data are an exact number of bins long, rounding errors on the factor
     # must not cost the last bin, and thus the last period
     nbins_total = int(round(ts.nsamp / factor))
     if nbins_total < ts.nsamp and abs(nbins_total * factor - ts.nsamp) < 1e-9 * ts.nsamp:
         factor = exact_factor(ts.nsamp, nbins_total)
 
-    tsdown = ts.downsample(factor)
+    tsdown = ts.copy() if one_sample else ts.downsample(factor)
     m = tsdown.nsamp // bins
     nsamp_eff = m * bins
     
-- 
2.43.0


From 094bea302c811db6b87491ee8b70ce11c4425a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 16/22] fix: plot candidates whose metadata are incomplete

---
 riptide/candidate.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 2ef9383..5ace44f 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -160,7 +160,9 @@ class TableEntry(TableEntryBase):
         assert(len(X) == 3)
         fmt = "{{:{}}}".format(self.formatter)
         plt.text(X[0], y, self.name, **kwargs)
-        plt.text(X[1], y, fmt.format(self.value), ha='right', **kwargs)
+        # Metadata items can be missing, in which case their value is None
+        text = fmt.format(self.value) if self.value is not None else 'N/A'
+        plt.text(X[1], y, text, ha='right', **kwargs)
         plt.text(X[2], y, self.unit, **kwargs)
 
 
@@ -169,13 +171,18 @@ def plot_table(params, tsmeta):
     """
     plt.axis('off')
     coord = tsmeta['skycoord']
-    ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
-    dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
+    ra_hms = dec_hms = None
+    if coord is not None:
+        ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
+        dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
 
     # TODO: Check that the scale is actually UTC in the general case
     # PRESTO, SIGPROC and other packages may not have the same
     # date/time standard
-    obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+    mjd = utc = None
+    if tsmeta['mjd'] is not None:
+        obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+        mjd, utc = obsdate.mjd, obsdate.iso
 
     blank = TableEntry(name='', value='', formatter='s', unit='')
 
@@ -189,8 +196,8 @@ def plot_table(params, tsmeta):
         TableEntry(name='Source', value=tsmeta['source_name'], formatter='s', unit=''),
         TableEntry(name='RA', value=ra_hms, formatter='s', unit=''),
         TableEntry(name='Dec', value=dec_hms, formatter='s', unit=''),
-        TableEntry(name='MJD', value=obsdate.mjd, formatter='.6f', unit=''),
-        TableEntry(name='UTC', value=obsdate.iso, formatter='s', unit=''),
+        TableEntry(name='MJD', value=mjd, formatter='.6f', unit=''),
+        TableEntry(name='UTC', value=utc, formatter='s', unit=''),
     ]
 
     y0 = 0.94  # Y coordinate of first line
@@ -202,6 +209,11 @@ def plot_table(params, tsmeta):
 
 
 def plot_dm_curve(dm, snr):
+    # Peaks found in data with an unspecified DM are not part of the DM curve
+    if not len(dm):
+        plt.axis('off')
+        return
+
     dm_min = dm.min()
     dm_max = dm.max()
     plt.plot(dm, snr, color='r', marker='o', markersize=3)
-- 
2.43.0


From 7af906c7cfd1345be0a8a82d651a719c2c7bfb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 17/22] fix: tables with missing values were saved as
 unreadable JSON

---
 riptide/serialization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 122d778..01f5c3f 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -32,6 +32,8 @@ class JSONEncoder(json.JSONEncoder):
 
         # See: https://stackoverflow.com/questions/27909658/json-encoder-and-decoder-for-complex-numpy-arrays
         if isinstance(obj, np.ndarray):
+            if obj.dtype.hasobject:
+                raise TypeError("Arrays of python objects are not JSON serializable")
             b64_bytes = base64.b64encode(np.ascontiguousarray(obj).data)
             b64_str = b64_bytes.decode()
             return {
@@ -49,9 +51,11 @@ class JSONEncoder(json.JSONEncoder):
             return float(obj)
 
         if isinstance(obj, pandas.DataFrame):
+            # Tables with missing values or text are saved as a list of rows
+            values = obj.values
             return {
                 '__type__': 'pandas.DataFrame',
-                'values': self.default(obj.values),
+                'values': values.tolist() if values.dtype.hasobject else self.default(values),
                 'columns': list(obj.columns)
             }
 
-- 
2.43.0


From 689753183ab1f808365c7874bc7f69b6eccdebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 18/22] fix: data loaded from JSON could not be processed in
 place

---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 01f5c3f..ab43a12 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -92,7 +92,8 @@ def object_hook(items):
     if typename == 'numpy.ndarray':
         b64_bytes = items['data'].encode()
         data = base64.b64decode(b64_bytes)
-        return np.frombuffer(data, items['dtype']).reshape(items['shape'])
+        # np.frombuffer() returns a read-only view, hence the copy
+        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
 
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
-- 
2.43.0


From 286b17f385677af697c8530ffdcc8eb4f8730814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 19/22] fix: find_peaks() failed on a single trial, or segments
 narrower than the trial spacing

---
 riptide/peak_detection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/peak_detection.py b/riptide/peak_detection.py
index 1949504..a8dd0ea 100644
--- a/riptide/peak_detection.py
+++ b/riptide/peak_detection.py
@@ -68,7 +68,9 @@ def segment_stats(f, s, T, segwidth=5.0):
     #log.debug("Segment width (Hz): {:.6f}".format(w))
 
     # NOTE: the spacing of frequency trials is almost constant
+    # Every segment must contain at least one point
     m = ceil(abs(f[-1] - f[0]) / w) # number of segments
+    m = min(max(m, 1), len(f))
     #log.debug("Segments: {:d}".format(m))
 
     p = len(f) // m # number of complete segments
-- 
2.43.0


From 62e4760d06e50d6cd676562c61c42c08e5eb7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 20/22] fix: refuse to save arrays of records, which
 load_json() cannot restore

---
 riptide/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index ab43a12..ef2d61e 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -32,8 +32,8 @@ class JSONEncoder(json.JSONEncoder):
 
         # See: https://stackoverflow.com/questions/27909658/json-encoder-and-decoder-for-complex-numpy-arrays
         if isinstance(obj, np.ndarray):
-            if obj.dtype.hasobject:
-                raise TypeError("Arrays of python objects are not JSON serializable")
+            if obj.dtype.hasobject or obj.dtype.names:
+                raise TypeError("Arrays of python objects or records are not JSON serializable")
             b64_bytes = base64.b64encode(np.ascontiguousarray(obj).data)
             b64_str = b64_bytes.decode()
             return {
-- 
2.43.0


From b4abe60c2c921aa7236a98936578fb892971f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 21/22] fix: refuse to save objects of other classes, which
 load_json() cannot restore

---
 riptide/serialization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index ef2d61e..6a4da75 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -17,9 +17,9 @@ def get_riptide_version():
 
 # NOTE: it is implicitly assumed that any JSON-serializable riptide class is in
 # the *base* riptide module
-def get_class(clsname):
+def get_class(clsname, *default):
     riptide = importlib.import_module('riptide')
-    return getattr(riptide, clsname)
+    return getattr(riptide, clsname, *default)
 
 
 class JSONEncoder(json.JSONEncoder):
@@ -67,9 +67,9 @@ class JSONEncoder(json.JSONEncoder):
                 'frame': 'icrs'
             }
 
-        # If we reach that point, we assume that anything with a to_dict() method 
-        # is a riptide serializable object
-        if hasattr(obj, 'to_dict'):
+        # If we reach that point, we assume that any riptide class with a to_dict()
+        # method is serializable. Other classes could not be found when loading
+        if hasattr(obj, 'to_dict') and get_class(type(obj).__name__, None) is type(obj):
             items = obj.to_dict()
             items['__type__'] = type(obj).__name__
 
-- 
2.43.0


From fd2a9b8ef97600c7abcc43fde6ea895c82d43fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 22/22] fix: plot candidates whose coordinates are not
 equatorial

---
 riptide/candidate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 5ace44f..717c564 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -173,8 +173,8 @@ def plot_table(params, tsmeta):
     coord = tsmeta['skycoord']
     ra_hms = dec_hms = None
     if coord is not None:
-        ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
-        dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
+        ra_hms = coord.icrs.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
+        dec_hms = coord.icrs.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
 
     # TODO: Check that the scale is actually UTC in the general case
     # PRESTO, SIGPROC and other packages may not have the same
-- 
2.43.0

