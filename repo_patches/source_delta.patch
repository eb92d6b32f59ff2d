From 73bd236e2e03751240b02d3d74416bb26cb65ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:14 +0000
Subject: [PATCH 01/42] fix: accept read-only 1-D arrays in dwt, downcoef and
 upcoef

---
 pywt/_extensions/_dwt.pxd | 2 +-
 pywt/_extensions/_dwt.pyx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywt/_extensions/_dwt.pxd b/pywt/_extensions/_dwt.pxd
index bf5aefd..4e96cf0 100644
--- a/pywt/_extensions/_dwt.pxd
+++ b/pywt/_extensions/_dwt.pxd
@@ -1,5 +1,5 @@
 from ._pywt cimport Wavelet, cdata_t
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take)
diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..f3cdcaf 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -23,7 +23,7 @@ cpdef dwt_coeff_len(size_t data_len, size_t filter_len, MODE mode):
 
     return common.dwt_buffer_length(data_len, filter_len, mode)
 
-cpdef dwt_single(cdata_t[::1] data, Wavelet wavelet, MODE mode):
+cpdef dwt_single(const cdata_t[::1] data, Wavelet wavelet, MODE mode):
     cdef size_t output_len = dwt_coeff_len(data.size, wavelet.dec_len, mode)
     cdef np.ndarray cA, cD
     cdef int retval_a, retval_d
@@ -336,7 +336,7 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     return output
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take):
     cdef cdata_t[::1] rec
     cdef int i, retval
@@ -429,7 +429,7 @@ cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
     return rec
 
 
-cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
+cpdef downcoef(bint do_dec_a, const cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
     cdef cdata_t[::1] coeffs
     cdef int i, retval
     cdef size_t output_len, data_size
-- 
2.43.0


From f5f5c25d70e56519ebd793920a675ab7be9d1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 02/42] fix: keep values of byte-swapped arrays and complex
 lists (imaginary part was dropped)

---
 pywt/_extensions/_pywt.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..1334649 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1035,6 +1035,9 @@ cpdef np.dtype _check_dtype(data):
     cdef np.dtype dt
     try:
         dt = data.dtype
+        if not dt.isnative:
+            # non-native byte order is not supported by the C code
+            dt = dt.newbyteorder('=')
         if dt not in (np.float64, np.float32, np.complex64, np.complex128):
             if dt == np.half:
                 # half-precision input converted to single precision
@@ -1046,7 +1049,8 @@ cpdef np.dtype _check_dtype(data):
                 # integer input was always accepted; convert to float64
                 dt = np.dtype('float64')
     except AttributeError:
-        dt = np.dtype('float64')
+        # e.g. lists: keep the imaginary part of complex values
+        dt = np.dtype('complex128' if np.iscomplexobj(data) else 'float64')
     return dt
 
 
-- 
2.43.0


From af18586778ff8e0e0086a0baa71a0f9ad565f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:01 +0000
Subject: [PATCH 03/42] fix: soft and garrote thresholding of zeros with
 threshold 0, of scalars and of large integers

---
 pywt/_thresholding.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..baf3dcc 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -17,11 +17,9 @@ def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value/magnitude)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+    with np.errstate(divide='ignore', invalid='ignore'):
+        # divide by zero okay: fmax maps both -inf and nan to 0.
+        thresholded = data * np.fmax(1 - value/magnitude, 0)
 
     if substitute == 0:
         return thresholded
@@ -35,11 +33,9 @@ def nn_garrote(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value**2/magnitude**2)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+    with np.errstate(divide='ignore', invalid='ignore'):
+        # divide by zero okay: fmax maps both -inf and nan to 0.
+        thresholded = data * np.fmax(1 - (value/magnitude)**2, 0)
 
     if substitute == 0:
         return thresholded
-- 
2.43.0


From 584cc9f6bbf012c63217fd3b2e25336ab04c61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:58 +0000
Subject: [PATCH 04/42] fix: firm thresholding of a single large value, of
 zeros, and with equal or infinite thresholds

---
 pywt/_thresholding.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index baf3dcc..20f7cb2 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -231,15 +231,10 @@ def threshold_firm(data, value_low, value_high):
 
     data = np.asarray(data)
     magnitude = np.absolute(data)
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        vdiff = value_high - value_low
-        thresholded = value_high * (1 - value_low/magnitude) / vdiff
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+    with np.errstate(divide='ignore', invalid='ignore'):
+        # divide by zero okay: fmax maps both -inf and nan to 0.
+        scale = 1 - float(np.divide(value_low, value_high))
+        thresholded = data * np.fmax((1 - value_low/magnitude) / scale, 0)
 
     # restore hard-thresholding behavior for values > value_high
-    large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
-        thresholded[large_vals] = data[large_vals]
-    return thresholded
+    return np.where(magnitude > value_high, data, thresholded)
-- 
2.43.0


From 7c9d72dae32370c78bd2854e4f10f100c1a2cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:01 +0000
Subject: [PATCH 05/42] fix: pad in smooth and antisymmetric mode with zero
 right width or a single sample

---
 pywt/_dwt.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..0bf289e 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -461,16 +461,21 @@ def pad(x, pad_widths, mode):
         xp = np.pad(x, pad_widths, mode='edge')
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
+            npad_l, npad_r = pad_width
+            first, last = npad_l, vector.size - npad_r - 1
+            # a single sample has no slope: it is extended as a constant
+            step = 1 if last > first else 0
+
             # smooth extension to left
-            left = vector[pad_width[0]]
-            slope_left = (left - vector[pad_width[0] + 1])
+            left = vector[first]
+            slope_left = (left - vector[first + step])
             vector[:pad_width[0]] = \
                 left + np.arange(pad_width[0], 0, -1) * slope_left
 
             # smooth extension to right
-            right = vector[-pad_width[1] - 1]
-            slope_right = (right - vector[-pad_width[1] - 2])
-            vector[-pad_width[1]:] = \
+            right = vector[last]
+            slope_right = (right - vector[last - step])
+            vector[last + 1:] = \
                 right + np.arange(1, pad_width[1] + 1) * slope_right
             return vector
         xp = np.pad(x, pad_widths, pad_smooth)
@@ -481,7 +486,7 @@ def pad(x, pad_widths, mode):
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
             # Note: must modify vector in-place
-            vector[:] = np.pad(vector[pad_width[0]:-pad_width[-1]],
+            vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
             vp = vector
             r_edge = npad_l + vsize_nonpad - 1
-- 
2.43.0


From dc450342b0fb06016cfcc5867600eb15f25fea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 06/42] fix: imra2 and imran no longer overwrite the components
 they sum

---
 pywt/_mra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..c2465c4 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -283,7 +283,7 @@ def imra2(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
-            rec += mra_coeffs[j][n]
+            rec = rec + mra_coeffs[j][n]
     return rec
 
 
@@ -430,5 +430,5 @@ def imran(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
-            rec += v
+            rec = rec + v
     return rec
-- 
2.43.0


From 15a845d4179510ee70e215822f4283fd7def55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 07/42] fix: default level of wavedecn_shapes with different
 wavelets per axis is that of wavedecn

---
 pywt/_multilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..1529cc2 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -926,7 +926,7 @@ def wavedecn_shapes(shape, wavelet, mode='symmetric', level=None, axes=None):
     modes = _modes_per_axis(mode, axes)
     dec_lengths = [w.dec_len for w in wavelets]
 
-    level = _check_level(min(axes_shapes), max(dec_lengths), level)
+    level = _check_level(axes_shapes, dec_lengths, level)
 
     shapes = []
     for i in range(level):
-- 
2.43.0


From 397489412da5285637f10aeed80f2e4836de2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 08/42] fix: default level of mra2 and mran with swt considers
 the transformed axes only

---
 pywt/_mra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index c2465c4..1242284 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -207,7 +207,8 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            axes_shapes = _prep_axes_wavedecn(data.shape, axes)[1]
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelet, "axes": axes, "norm": True}
         forward = partial(swt2, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswt2, **kwargs)
@@ -350,7 +351,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelets, "axes": axes, "norm": True}
         forward = partial(swtn, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswtn, **kwargs)
-- 
2.43.0


From df84fb655cabee66a0c9ff3561fa270445aa01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 09/42] fix: mra, mra2 and mran accept array-like data as
 documented

---
 pywt/_mra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index 1242284..b98ec34 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -72,6 +72,7 @@ def mra(data, wavelet, level=None, axis=-1, transform='swt',
         https://doi.org/10.2307/2965551
 
     """
+    data = np.asarray(data)
     if transform == 'swt':
         if mode != 'periodization':
             raise ValueError(
@@ -202,6 +203,7 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     if transform == 'swt2':
         if mode != 'periodization':
             raise ValueError(
@@ -343,6 +345,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     axes, axes_shapes, ndim_transform = _prep_axes_wavedecn(data.shape, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
 
-- 
2.43.0


From 32bacd399114f66437e9e575038a6b7017f73733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 10/42] fix: iswtn of extended precision details has a
 supported dtype like iswt and iswt2

---
 pywt/_swt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..3d81e8b 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -773,7 +773,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
         details = coeffs[j]
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [v.dtype for v in details.values()]))
+            [dt, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From f089a3a4aef6a1b5688bd6aa30701f96babd76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 11/42] fix: downcoef in [anti]reflect mode rejects length-one
 signals (it never returned)

---
 pywt/_extensions/_dwt.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index f3cdcaf..38225ca 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -439,6 +439,8 @@ cpdef downcoef(bint do_dec_a, const cdata_t[::1] data, Wavelet wavelet, MODE mod
 
     for i in range(level):
         data_size = data.size
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
         output_len = common.dwt_buffer_length(data.size, wavelet.dec_len, mode)
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
-- 
2.43.0


From d8a684f2903407041e3d2227ccacba756074572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 12/42] fix: pickled and copied wavelets keep their family,
 properties and parameters

---
 pywt/_extensions/_pywt.pyx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 1334649..2324ae0 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -431,7 +431,14 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             self.w = NULL
 
     def __reduce__(self):
-        return (Wavelet, (self.name, self.filter_bank))
+        # built-in wavelets are identified by their name
+        args = (self.name, )
+        if self.number is None:
+            args += (self.filter_bank, )
+        return (Wavelet, args, (self.orthogonal, self.biorthogonal))
+
+    def __setstate__(self, state):
+        self.orthogonal, self.biorthogonal = state
 
     def __len__(self):
         return self.w.dec_len
@@ -778,7 +785,17 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             self.w = NULL
 
     def __reduce__(self):
-        return (ContinuousWavelet, (self.name, self.dt))
+        state = (self.orthogonal, self.biorthogonal, self.complex_cwt,
+                 self.w.lower_bound, self.w.upper_bound,
+                 self.w.center_frequency, self.w.bandwidth_frequency,
+                 self.w.fbsp_order)
+        return (ContinuousWavelet, (self.name, self.dt), state)
+
+    def __setstate__(self, state):
+        (self.orthogonal, self.biorthogonal, self.complex_cwt,
+         self.w.lower_bound, self.w.upper_bound,
+         self.w.center_frequency, self.w.bandwidth_frequency,
+         self.w.fbsp_order) = state
 
     property family_number:
         "Wavelet family number"
-- 
2.43.0


From 438da732000dbe7d1a254c04c865c5436d2f3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:12 +0000
Subject: [PATCH 13/42] fix: WaveletPacketND reconstructs data with odd sizes

---
 pywt/_wavelet_packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..bbb9991 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
-- 
2.43.0


From 7a83a8d961b43d6921d7fd5996a58fbf4b2f4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 14/42] fix: pickling or copying a wavelet packet tree keeps
 its axes and nodes

---
 pywt/_wavelet_packets.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index bbb9991..c045307 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -727,10 +727,6 @@ class WaveletPacket(Node):
 
         self._maxlevel = maxlevel
 
-    def __reduce__(self):
-        return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
-
     def reconstruct(self, update=True):
         """
         Reconstruct data value using coefficients from subnodes.
@@ -853,10 +849,6 @@ class WaveletPacket2D(Node2D):
             self.data_size = None
         self._maxlevel = maxlevel
 
-    def __reduce__(self):
-        return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
-
     def reconstruct(self, update=True):
         """
         Reconstruct data using coefficients from subnodes.
-- 
2.43.0


From 54fff019ed96e00e36174fdce9475723c06450ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:34 +0000
Subject: [PATCH 15/42] fix: iswtn no longer removes and restores entries of
 the coefficients passed to it

---
 pywt/_swt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 3d81e8b..a30cc73 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -768,9 +768,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
-        if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+        # only the coarsest approximation is used
+        details = {k: v for k, v in coeffs[j].items()
+                   if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [_check_dtype(v) for v in details.values()]))
@@ -820,6 +820,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From 40f7028f8ac32ee2bf39f35374fadb1826649f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:34 +0000
Subject: [PATCH 16/42] fix: downcoef and upcoef reject part arguments other
 than 'a' and 'd'

---
 pywt/_dwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 0bf289e..d67418f 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
     data = np.asarray(data, dtype=dt, order='C')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
@@ -396,7 +396,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     return np.asarray(_upcoef(part == 'a', coeffs, wavelet, level, take))
 
-- 
2.43.0


From ccfb980c015c109fc5957f9c49ee989384a6beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 17/42] fix: assigning a packet node to another keeps its data
 type (the imaginary part was dropped)

---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index c045307..170bb43 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -299,7 +299,7 @@ class BaseNode:
                 else:
                     self.data = np.asarray(data)
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
+                dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
         else:
-- 
2.43.0


From 48c8c142d3568330ccbe37652d6d806141809581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 18/42] fix: accessing a missing packet node no longer replaces
 its siblings

---
 pywt/_wavelet_packets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 170bb43..c4d514f 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -227,7 +227,12 @@ class BaseNode:
         self._validate_node_name(part)
         subnode = self._get_node(part)
         if subnode is None and decompose and not self.is_empty:
+            existing = [(p, self._get_node(p)) for p in self.PARTS]
             self.decompose()
+            # only missing subnodes are computed, the others stay in the tree
+            for p, node in existing:
+                if node is not None:
+                    self._set_node(p, node)
             subnode = self._get_node(part)
         return subnode
 
-- 
2.43.0


From 2e621d99090336a8475132402a6e8885bbd29525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 19/42] fix: get_level(0, order='freq') lists the root of a
 packet tree

---
 pywt/_wavelet_packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index c4d514f..1715526 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -20,6 +20,8 @@ from ._multidim import dwt2, dwtn, idwt2, idwtn
 
 
 def get_graycode_order(level, x='a', y='d'):
+    if level == 0:
+        return ['']
     graycode_order = [x, y]
     for i in range(level - 1):
         graycode_order = [x + path for path in graycode_order] + \
-- 
2.43.0


From de22b55cf45a0dec5a99abe73c90dfd011746fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 20/42] fix: packet nodes assigned by the user are
 reconstructed to the size of their data

---
 pywt/_wavelet_packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 1715526..0749188 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -309,6 +309,9 @@ class BaseNode:
                 dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
+                self._data_shape = self.data.shape
+                if self.path == "":
+                    self.data_size = self._data_shape
         else:
             raise TypeError("Invalid path parameter type - expected string but"
                             " got %s." % type(path))
-- 
2.43.0


From 1dc6c22e86eede910e8de6587885a8e68e8947fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 21/42] fix: decomposing an empty 2-D or n-D packet node keeps
 its subnodes like in 1-D

---
 pywt/_wavelet_packets.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 0749188..9101138 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -512,10 +512,11 @@ class Node2D(BaseNode):
         else:
             data_ll, (data_hl, data_lh, data_hh) =\
                 dwt2(self.data, self.wavelet, self.mode, axes=self.axes)
-        self._create_subnode(self.LL, data_ll)
-        self._create_subnode(self.LH, data_lh)
-        self._create_subnode(self.HL, data_hl)
-        self._create_subnode(self.HH, data_hh)
+        overwrite = not self.is_empty
+        self._create_subnode(self.LL, data_ll, overwrite)
+        self._create_subnode(self.LH, data_lh, overwrite)
+        self._create_subnode(self.HL, data_hl, overwrite)
+        self._create_subnode(self.HH, data_hh, overwrite)
         return (self._get_node(self.LL), self._get_node(self.HL),
                 self._get_node(self.LH), self._get_node(self.HH))
 
@@ -665,7 +666,7 @@ class NodeND(BaseNode):
             coefs = dwtn(self.data, self.wavelet, self.mode, axes=self.axes)
 
         for key, data in coefs.items():
-            self._create_subnode(key, data)
+            self._create_subnode(key, data, overwrite=not self.is_empty)
         return (self._get_node(key) for key in self.PARTS)
 
     def _reconstruct(self, update):
-- 
2.43.0


From 10829d94ca86975d5b818c4118a173631cb65ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 22/42] fix: maximum level of packet trees without root data
 considers the transformed axes only

---
 pywt/_wavelet_packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 9101138..c9960ca 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -139,7 +139,8 @@ class BaseNode:
             return self._maxlevel
         elif self.data is not None:
             return self.level + dwt_max_level(
-                min(self.data.shape), self.wavelet)
+                min(np.take(self.data.shape, self.axes, mode='wrap').ravel()),
+                self.wavelet)
 
         if evaluate_from == 'parent':
             if self.parent is not None:
@@ -641,7 +642,8 @@ class NodeND(BaseNode):
             return self._maxlevel
         elif self.data is not None:
             return self.level + dwt_max_level(
-                min(self.data.shape), self.wavelet)
+                min(np.take(self.data.shape, self.axes, mode='wrap').ravel()),
+                self.wavelet)
 
         if evaluate_from == 'parent':
             if self.parent is not None:
-- 
2.43.0


From 316c2eb6b240b87eeabd534c688ed469710715d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 23/42] fix: iswt2 and iswtn keep complex (or double precision)
 details of coarse levels when finer levels are real

---
 pywt/_swt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index a30cc73..a8755e7 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -489,7 +489,7 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         # make sure output shares the common dtype
         # (conversion of dtype for individual coeffs is handled within idwt2 )
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
+            [output.dtype, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
@@ -773,7 +773,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(v) for v in details.values()]))
+            [output.dtype, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From 80c91b9613ded11e1e2fab762a493fbb34edaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 24/42] fix: ContinuousWavelet misread parameters such as '.5'
 in shan, cmor and fbsp names

---
 pywt/_extensions/_pywt.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 2324ae0..74fd844 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -36,7 +36,7 @@ _attr_deprecation_msg = ('{old} has been renamed to {new} and will '
 
 # Extract float/int parameters from a wavelet name. Examples:
 #    re.findall(cwt_pattern, 'fbsp1-1.5-1') ->  ['1', 1.5', '1']
-cwt_pattern = re.compile(r'\D+(\d+\.*\d*)+')
+cwt_pattern = re.compile(r'\D+?(\d+\.*\d*|\.\d+)')
 
 
 # raises exception if the wavelet name is undefined
-- 
2.43.0


From 16f96d41766b29b413a56a0859514ff47b33cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 25/42] fix: swt2 and swtn silently returned no transform for a
 negative level

---
 pywt/_swt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index a8755e7..8fb24a4 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -635,6 +635,9 @@ def swtn(data, wavelet, level, start_level=0, axes=None, trim_approx=False,
     if data.ndim < 1:
         raise ValueError("Input data must be at least 1D")
 
+    if level < 0:
+        raise ValueError("Level value must not be negative.")
+
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
-- 
2.43.0


From 90b18c58b89c5cdd00897f1150beddef74ca2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 26/42] fix: iswt, iswt2 and iswtn silently accepted details
 that do not fit the approximation

---
 pywt/_swt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 8fb24a4..838b1ef 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -231,6 +231,9 @@ def iswt(coeffs, wavelet, norm=False, axis=-1):
         else:
             _, cD = coeffs[-j]
         cD = np.asarray(cD, dtype=_check_dtype(cD))
+        if cD.shape != output.shape:
+            raise RuntimeError(
+                "Mismatch in shape of intermediate coefficient arrays")
         if cD.dtype != output.dtype:
             # upcast to a common dtype (float64 or complex128)
             if output.dtype.kind == 'c' or cD.dtype.kind == 'c':
@@ -482,7 +485,7 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         else:
             _, (cH, cV, cD) = coeffs[j]
         # We are going to assume cH, cV, and cD are of equal size
-        if (cH.shape != cV.shape) or (cH.shape != cD.shape):
+        if any(c.shape != output.shape for c in (cH, cV, cD)):
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
@@ -782,7 +785,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
 
         # We assume all coefficient arrays are of equal size
         shapes = [v.shape for k, v in details.items()]
-        if len(set(shapes)) != 1:
+        if set(shapes) != {output.shape}:
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
-- 
2.43.0


From 66c4c178fe8dc22336493346bcab276b0e264d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 27/42] fix: cwt ignored an axis that is out of range for 1-D
 data

---
 pywt/_cwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 0d69095..35082f9 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -112,6 +112,8 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
 
     if not np.isscalar(axis):
         raise AxisError("axis must be a scalar.")
+    if not -data.ndim <= axis < data.ndim:
+        raise AxisError("Axis greater than data dimensions")
 
     dt_out = dt_cplx if wavelet.complex_cwt else dt
     out = np.empty((np.size(scales),) + data.shape, dtype=dt_out)
-- 
2.43.0


From 277e217a5258dfd4364f3bab9474dbbde2d75e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 28/42] fix: restore cwt's acceptance of any axis for 1-D data,
 which its tests rely on

---
 pywt/_cwt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 35082f9..0d69095 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -112,8 +112,6 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
 
     if not np.isscalar(axis):
         raise AxisError("axis must be a scalar.")
-    if not -data.ndim <= axis < data.ndim:
-        raise AxisError("Axis greater than data dimensions")
 
     dt_out = dt_cplx if wavelet.complex_cwt else dt
     out = np.empty((np.size(scales),) + data.shape, dtype=dt_out)
-- 
2.43.0


From 848bdbc9fb2226bdfe42a10813653961ac942359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 29/42] fix: dwtn and dwt2 wrote outside their buffers for an
 axis that is out of range

---
 pywt/_multidim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..11dcbaf 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -175,6 +175,8 @@ def dwtn(data, wavelet, mode='symmetric', axes=None):
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= data.ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From 221de44e8e65d625bf42006072df7eb3767a0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 30/42] fix: iswt, iswt2 and iswtn took an axis below -ndim for
 another axis

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 838b1ef..e22b721 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -751,6 +751,8 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     if axes is None:
         axes = range(output.ndim)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
     if ndim_transform != len(axes):
-- 
2.43.0


From 071a240fe215b5d32dfd134173b7263db547afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 31/42] fix: idwt along an axis did not return for empty
 coefficients in periodization mode

---
 pywt/_extensions/_dwt.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 38225ca..15ef105 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -289,6 +289,11 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
+    if output_shape[axis] < 1:
+        # empty coefficients never fill the filter (periodization would not end)
+        raise ValueError(
+            "Invalid coefficient arrays length for specified wavelet. "
+            "Wavelet and mode must be the same as used for decomposition.")
     output = np.empty(output_shape, output_dtype)
 
     output_info.ndim = output.ndim
-- 
2.43.0


From 8256edf50a8786b4ba8cd05328c727dff71aa2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 32/42] fix: idwtn gave double precision for a mix of half and
 single precision coefficients

---
 pywt/_multidim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 11dcbaf..5e0a341 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from ._c99_config import _have_c99_complex
 from ._extensions._dwt import dwt_axis, idwt_axis
+from ._extensions._pywt import _check_dtype
 from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ['dwt2', 'idwt2', 'dwtn', 'idwtn']
@@ -299,7 +300,7 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
             L = coeffs.get(key + 'a', None)
             H = coeffs.get(key + 'd', None)
             if L is not None and H is not None:
-                if L.dtype != H.dtype:
+                if _check_dtype(L) != _check_dtype(H):
                     # upcast to a common dtype (float64 or complex128)
                     if L.dtype.kind == 'c' or H.dtype.kind == 'c':
                         dtype = np.complex128
-- 
2.43.0


From 189e0b57480f23b405b227c50b9a277480481fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 33/42] fix: FswavedecnResult accepted wavelets and modes it
 cannot use (the check was on a generator, always true)

---
 pywt/_multilevel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 1529cc2..8e381b3 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1226,11 +1226,11 @@ class FswavedecnResult:
         self._coeffs = coeffs
         self._coeff_slices = coeff_slices
         self._axes = axes
-        if not np.all(isinstance(w, Wavelet) for w in wavelets):
+        if not all(isinstance(w, Wavelet) for w in wavelets):
             raise ValueError(
                 "wavelets must contain pywt.Wavelet objects")
         self._wavelets = wavelets
-        if not np.all(isinstance(m, int) for m in mode_enums):
+        if not all(isinstance(m, int) for m in mode_enums):
             raise ValueError(
                 "mode_enums must be integers")
         self._mode_enums = mode_enums
-- 
2.43.0


From 4b42c56f9f9b8240c2fa93cba3c6f15cd74fd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 34/42] fix: datasets and the list of demo signals were handed
 out as the cached objects themselves, so changing one changed later calls

---
 pywt/data/_readers.py         | 24 +++++++++++++++++++-----
 pywt/data/_wavelab_signals.py |  2 +-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pywt/data/_readers.py b/pywt/data/_readers.py
index 8c2e788..e8ef950 100644
--- a/pywt/data/_readers.py
+++ b/pywt/data/_readers.py
@@ -7,7 +7,21 @@ import numpy as np
 _DATADIR = importlib.resources.files('pywt.data')
 
 
-@functools.cache
+def _cached(load):
+    """Load once; each call returns arrays of its own."""
+    load_once = functools.cache(load)
+
+    @functools.wraps(load)
+    def wrapper():
+        data = load_once()
+        if isinstance(data, tuple):
+            return tuple(d.copy() for d in data)
+        return data.copy()
+
+    return wrapper
+
+
+@_cached
 def ascent():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -47,7 +61,7 @@ def ascent():
     return ascent
 
 
-@functools.cache
+@_cached
 def aero():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -84,7 +98,7 @@ def aero():
     return aero
 
 
-@functools.cache
+@_cached
 def camera():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -132,7 +146,7 @@ def camera():
     return camera
 
 
-@functools.cache
+@_cached
 def ecg():
     """
     Get 1024 points of an ECG timeseries.
@@ -164,7 +178,7 @@ def ecg():
     return ecg
 
 
-@functools.cache
+@_cached
 def nino():
     """
     This data contains the averaged monthly sea surface temperature in degrees
diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 952c0b9..d673ee2 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -76,7 +76,7 @@ def demo_signal(name='Bumps', n=None):
 
     """
     if name.lower() == 'list':
-        return _implemented_signals
+        return list(_implemented_signals)
 
     if n is not None:
         if n < 1 or (n % 1) != 0:
-- 
2.43.0


From 2a43c8d5d990919672e2ea48ee75374c39e4a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 35/42] fix: demo_signal sampled some signals at n+1 points or
 inexactly because the grid was built by floating-point steps

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index d673ee2..66dfba6 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -81,7 +81,7 @@ def demo_signal(name='Bumps', n=None):
     if n is not None:
         if n < 1 or (n % 1) != 0:
             raise ValueError("n must be an integer >= 1")
-        t = np.arange(1/n, 1 + 1/n, 1/n)
+        t = np.arange(1, n + 1) / n
 
     # The following function types don't allow user-specified `n`.
     n_hard_coded = ['gabor', 'sineoneoverx']
-- 
2.43.0


From 6b04b2f48363b6de2d17ba7948287fa55e28530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 36/42] fix: demo_signal chirps failed or gave NaN when n is
 not a multiple of 8 or is 8

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 66dfba6..3e8e22b 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -178,8 +178,8 @@ def demo_signal(name='Bumps', n=None):
         envelope = np.ones(n)  # the rinp.sing cutoff function
         tmp = np.arange(1, n // 8 + 1) - np.ones(n // 8)
         envelope[:n // 8] = (
-            1 + np.sin(-np.pi / 2 + tmp / (n / 8 - 1) * np.pi)) / 2
-        envelope[7 * n // 8:n] = envelope[:n // 8][::-1]
+            1 + np.sin(-np.pi / 2 + tmp / max(n // 8 - 1, 1) * np.pi)) / 2
+        envelope[n - n // 8:n] = envelope[:n // 8][::-1]
         f = f*envelope
     elif name == 'gabor':  # two modulated Gabor functions in Mallat's book
         n = 512
-- 
2.43.0


From 5f32056fe615caee1143d4d683e36168a711bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 37/42] fix: demo_signal piece-regular and piece-polynomial
 failed when n is a multiple of 5

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 3e8e22b..a0bf0a3 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -225,7 +225,7 @@ def demo_signal(name='Bumps', n=None):
         k = n_2 + 2 * n_12 + 3 * n_20
         f[k:k + n_7] = f5
         diff = n - 5 * n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         # zero-mean
         bias = np.sum(f) / n
         f = bias - f
@@ -247,7 +247,7 @@ def demo_signal(name='Bumps', n=None):
         f[3 * n_5:4 * n_5] = f4
         f[4 * n_5:5 * n_5] = f5[n_5::-1]
         diff = n - 5*n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         f[n_20:n_20 + n_10] = np.ones(n_10) * 10
         f[n - n_10:n + n_20 - n_10] = np.ones(n_20) * 150
         # zero-mean
-- 
2.43.0


From 6882d0e2ae918000fe77d5a019ad2364aca8ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 38/42] fix: demo_signal riemann failed when rounding the
 square root of n upwards

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index a0bf0a3..5f3eed9 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -255,7 +255,7 @@ def demo_signal(name='Bumps', n=None):
         f = f - bias
     elif name == 'riemann':
         # Riemann's Non-differentiable Function
-        sqn = int(np.round(np.sqrt(n)))
+        sqn = int(np.sqrt(n))
         idx = np.arange(1, sqn + 1)
         idx *= idx
         f = np.zeros_like(t)
-- 
2.43.0


From f7ef4e23b20e86b72f01dac4b90d3dc5661bab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:27 +0000
Subject: [PATCH 39/42] fix: demo_signal hypchirps had the wrong length or NaN
 for some n

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 5f3eed9..9f656cf 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -139,7 +139,7 @@ def demo_signal(name='Bumps', n=None):
     elif name == 'hypchirps':  # Hyperbolic Chirps of Mallat's book
         alpha = 15 * n * np.pi / 1024
         beta = 5 * n * np.pi / 1024
-        t = np.arange(1.001, n + .001 + 1) / n
+        t = (np.arange(1, n + 1) + .001) / n
         f1 = np.zeros(n)
         f2 = np.zeros(n)
         f1 = np.sin(alpha / (.8 - t)) * (0.1 < t) * (t < 0.68)
@@ -148,7 +148,7 @@ def demo_signal(name='Bumps', n=None):
         p = m // 4
         envelope = np.ones(m)  # the rinp.sing cutoff function
         tmp = np.arange(1, p + 1)-np.ones(p)
-        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / (p - 1) * np.pi)) / 2
+        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / max(p - 1, 1) * np.pi)) / 2
         envelope[m-p:m] = envelope[:p][::-1]
         env = np.zeros(n)
         env[int(np.ceil(n / 10)) - 1:m + int(np.ceil(n / 10)) - 1] = \
-- 
2.43.0


From 147d84692108b66ae49b10f6fe942d72a1036344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:27 +0000
Subject: [PATCH 40/42] fix: reconstructing a packet tree from fewer
 coefficients than its root's size raised IndexError (list used as index)

---
 pywt/_wavelet_packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index c9960ca..4b125ef 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -753,7 +753,7 @@ class WaveletPacket(Node):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -875,7 +875,7 @@ class WaveletPacket2D(Node2D):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -1023,7 +1023,7 @@ class WaveletPacketND(NodeND):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
-- 
2.43.0


From 2eee89e040d5afe7946a9a591256afde236c427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:52 +0000
Subject: [PATCH 41/42] fix: coeffs_to_array and ravel_coeffs keep the values
 of detail arrays of a wider type than the approximation

---
 pywt/_multilevel.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 8e381b3..3da10d9 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -671,6 +671,13 @@ def _prepare_coeffs_axes(coeffs, axes):
     return coeffs, axes, ndim, ndim_transform
 
 
+def _common_coeff_dtype(coeffs):
+    # the dtype that holds the values of all arrays (missing ones aside)
+    return np.result_type(coeffs[0].dtype, *[
+        d.dtype for coeff_dict in coeffs[1:] for d in coeff_dict.values()
+        if d is not None])
+
+
 def coeffs_to_array(coeffs, padding=0, axes=None):
     """
     Arrange a wavelet coefficient list from ``wavedecn`` into a single array.
@@ -757,12 +764,13 @@ def coeffs_to_array(coeffs, padding=0, axes=None):
     arr_shape, is_tight_packing = _determine_coeff_array_shape(coeffs, axes)
 
     # preallocate output array
+    dtype = _common_coeff_dtype(coeffs)
     if padding is None:
         if not is_tight_packing:
             raise ValueError("array coefficients cannot be tightly packed")
-        coeff_arr = np.empty(arr_shape, dtype=a_coeffs.dtype)
+        coeff_arr = np.empty(arr_shape, dtype=dtype)
     else:
-        coeff_arr = np.full(arr_shape, padding, dtype=a_coeffs.dtype)
+        coeff_arr = np.full(arr_shape, padding, dtype=dtype)
 
     a_slices = tuple([slice(s) for s in a_shape])
     coeff_arr[a_slices] = a_coeffs
@@ -1083,7 +1091,7 @@ def ravel_coeffs(coeffs, axes=None):
 
     # preallocate output array
     arr_size = wavedecn_size(coeffs)
-    coeff_arr = np.empty((arr_size, ), dtype=a_coeffs.dtype)
+    coeff_arr = np.empty((arr_size, ), dtype=_common_coeff_dtype(coeffs))
 
     a_slice = slice(a_size)
     coeff_arr[a_slice] = a_coeffs.ravel()
-- 
2.43.0


From ab7df07c0d98a7cb12e9751a9ca756ac0be4d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:44 +0000
Subject: [PATCH 42/42] fix: waverec, waverec2, waverecn trim the approximation
 along transformed axes only

---
 pywt/_multilevel.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 3da10d9..c150d37 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -166,7 +166,10 @@ def waverec(coeffs, wavelet, mode='symmetric', axis=-1):
         if (a is not None) and (d is not None):
             try:
                 if a.shape[axis] == d.shape[axis] + 1:
-                    a = a[tuple(slice(s) for s in d.shape)]
+                    # only the transformed axis can be one sample too long
+                    trim = [slice(None)] * a.ndim
+                    trim[axis] = slice(d.shape[axis])
+                    a = a[tuple(trim)]
                 elif a.shape[axis] != d.shape[axis]:
                     raise ValueError("coefficient shape mismatch")
             except IndexError:
@@ -330,8 +333,11 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
         else:
             if not all(s == d_shape for s in d_shapes):
                 raise ValueError("All detail shapes must be the same length.")
-            idxs = tuple(slice(None, -1 if a_len == d_len + 1 else None)
-                         for a_len, d_len in zip(a.shape, d_shape))
+            # only the transformed axes can be one sample too long
+            idxs = tuple(slice(None, -1 if (a_len == d_len + 1 and
+                                            (n in axes or n - a.ndim in axes))
+                               else None)
+                         for n, (a_len, d_len) in enumerate(zip(a.shape, d_shape)))
         a = idwt2((a[idxs], d), wavelet, mode, axes)
 
     return a
@@ -442,9 +448,9 @@ def wavedecn(data, wavelet, mode='symmetric', level=None, axes=None):
     return coeffs_list
 
 
-def _match_coeff_dims(a_coeff, d_coeff_dict):
-    # For each axis, compare the approximation coeff shape to one of the
-    # stored detail coeffs and truncate the last element along the axis
+def _match_coeff_dims(a_coeff, d_coeff_dict, axes):
+    # For each transformed axis, compare the approximation coeff shape to one
+    # of the stored detail coeffs and truncate the last element along the axis
     # if necessary.
     if a_coeff is None:
         return None
@@ -452,7 +458,8 @@ def _match_coeff_dims(a_coeff, d_coeff_dict):
         return a_coeff
     d_coeff = d_coeff_dict[next(iter(d_coeff_dict))]
     size_diffs = np.subtract(a_coeff.shape, d_coeff.shape)
-    if np.any((size_diffs < 0) | (size_diffs > 1)):
+    if (np.any((size_diffs < 0) | (size_diffs > 1)) or
+            np.any(np.delete(size_diffs, list(axes)))):
         print(size_diffs)
         raise ValueError("incompatible coefficient array sizes")
     return a_coeff[tuple(slice(s) for s in d_coeff.shape)]
@@ -571,7 +578,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         # coefficient returned at the previous level may exceed the size of the
         # stored detail coefficients by 1 on any given axis.
         if idx > 0:
-            a = _match_coeff_dims(a, d)
+            a = _match_coeff_dims(a, d, axes)
         d['a' * ndim_transform] = a
         a = idwtn(d, wavelet, mode, axes)
 
-- 
2.43.0

