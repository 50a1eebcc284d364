From c546c9383b44ebb98eaa2e04753f8dfa7efabd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 01/27] fix: discover plug-in modules without the removed
 finder API

The importers' find_module() no longer exists, so importing
waveform_reducers or spectrum_fitters failed and no reducer or fitter
could be found.
---
 CHECLabPy/spectrum_fitters/__init__.py  | 5 +++--
 CHECLabPy/waveform_reducers/__init__.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/spectrum_fitters/__init__.py b/CHECLabPy/spectrum_fitters/__init__.py
index 575a152..cfb34df 100644
--- a/CHECLabPy/spectrum_fitters/__init__.py
+++ b/CHECLabPy/spectrum_fitters/__init__.py
@@ -6,9 +6,10 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for _, name, _ in pkgutil.iter_modules(__path__, __name__ + '.'):
+    module = import_module(name)
 
     for name, value in inspect.getmembers(module):
         if name.startswith('__'):
diff --git a/CHECLabPy/waveform_reducers/__init__.py b/CHECLabPy/waveform_reducers/__init__.py
index 4c780a9..cfdb3d1 100644
--- a/CHECLabPy/waveform_reducers/__init__.py
+++ b/CHECLabPy/waveform_reducers/__init__.py
@@ -13,12 +13,13 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for _, name, _ in pkgutil.iter_modules(__path__, __name__ + '.'):
+    module = import_module(name)
 
     for key, value in inspect.getmembers(module):
-        if name.startswith('__'):
+        if key.startswith('__'):
             continue
 
         globals()[key] = value
-- 
2.43.0


From 8bbcb99af80a8f068d52f2512959a572612effec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 02/27] fix: let loaded and adopted fit parameters reach the
 next fit

load_config and update_initial changed the SpectrumParameters, but the
arguments handed to the minimiser were not rebuilt, so the next fit
still used the old values.
---
 CHECLabPy/core/spectrum_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 746c03f..2dbde8a 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -162,6 +162,7 @@ class SpectrumFitter:
                     param.limits = tuple(d['limits'].pop(param.name, param.limits))
                 if 'fixed' in d:
                     param.fixed = d['fixed'].pop(param.name, param.fixed)
+            self.parameters.update(self.parameters)
             if 'initial' in d and not d['initial']:
                 d.pop('initial')
             if 'limits' in d and not d['limits']:
@@ -252,6 +253,7 @@ class SpectrumFitter:
                 param.initial = self.fit_result_values[f"{param.name}{illumination}"]
             else:
                 param.initial = self.fit_result_values[param.name]
+        self.parameters.update(self.parameters)
 
     def apply(self, *charges):
         """
-- 
2.43.0


From 527507bb9a84bb7634b2512e4680b4b28855c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 03/27] fix: do not read outside the waveform for a peak at its
 edge

extract_pulse_time read the sample before the first or after the last
one when the peak was at the edge of the waveform.
---
 CHECLabPy/waveform_reducers/cross_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 94078d9..948d372 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -16,6 +16,9 @@ from numba import guvectorize, float64, float32, int64
 )
 def extract_pulse_time(waveforms, peak_index, ret):
     n_samples = waveforms.size
+    if peak_index < 1 or peak_index >= n_samples - 1:
+        ret[0] = peak_index
+        return
     y0 = waveforms[peak_index - 1]
     y1 = waveforms[peak_index]
     y2 = waveforms[peak_index + 1]
-- 
2.43.0


From 19f9dc5505112bd66ac22a009f19efe944e988dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 04/27] fix: keep the rounded pulse time inside the waveform

A pulse time within half a sample of the end was rounded up to the
number of samples, and the sample past the end was read.
---
 CHECLabPy/waveform_reducers/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ec6019c..8f78f73 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -43,7 +43,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         t_pulse = t + peakpos
         if not 0 <= t_pulse < n_samples:
             continue
-        i_pulse = int(np.round(t_pulse))
+        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)
 
         ###############################
         # __Obtain FWHM and Rise Time__
-- 
2.43.0


From c5b77a50b91fe8efff4424becf9094b043b5dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 05/27] fix: allow time corrections that are whole samples

For a whole number x1 and x2 were the same sample and the interpolation
divided by zero.
---
 CHECLabPy/calib/time_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/time_calibrator.py b/CHECLabPy/calib/time_calibrator.py
index 63c4314..40ed92e 100644
--- a/CHECLabPy/calib/time_calibrator.py
+++ b/CHECLabPy/calib/time_calibrator.py
@@ -1,7 +1,7 @@
 import pandas as pd
 from CHECLabPy.calib import get_calib_data
 from numba import njit, prange, float64, float32
-from math import floor, ceil
+from math import floor
 
 
 @njit([
@@ -16,7 +16,7 @@ def apply_t_cor(waveforms, t_cor):
         for isample in prange(n_samples):
             x = isample - correction
             x1 = floor(x)
-            x2 = ceil(x)
+            x2 = x1 + 1
             if x1 < 0:
                 x1 = 0
                 x2 = 1
-- 
2.43.0


From a19bdd089effb45e3d57b54559af63ab2020e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 06/27] fix: do not use the t_event column flag as the
 saturation start time

"t_event" is the on/off switch of a column of the Timing reducer, so
within a chain the start of the sum became sample -3 or -4. The setting
for a fixed extraction time is called t_extract, as in the other
reducers.
---
 CHECLabPy/waveform_reducers/saturation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 188413e..0ac111d 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -18,8 +18,8 @@ class Saturation(WaveformReducer):
         Sum of the waveform samples from the start of the pulse to the end of
         the waveform.
         """
-        if "t_event" in self.kwargs:
-            t_event = self.kwargs['t_event']
+        if "t_extract" in self.kwargs:
+            t_event = self.kwargs['t_extract']
         else:
             avg = np.mean(self.waveforms, axis=0)
             t_event = np.argmax(avg)
-- 
2.43.0


From b7aa08479a1e2ed0da46ccc811a652242b883d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 07/27] fix: open files with tables that have no metadata of
 the default name

A table whose metadata was only stored under another name made the
reader raise AttributeError when listing the contents of the file.
---
 CHECLabPy/core/io/hdf5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index 57ccb84..e804f11 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -48,7 +48,7 @@ class HDF5Reader:
             key = key[1:]
             try:
                 n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']
-            except KeyError:
+            except (AttributeError, KeyError):
                 n_bytes = 0
             if key in ['mapping']:
                 continue
-- 
2.43.0


From 1390f50bc6fed9e5374fada540bdea3eaf749bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 08/27] fix: include the existing rows in the recorded size
 after appending

Appending to a table replaced its recorded size with the size of the
new rows only, which also disabled the guard against loading tables
that are too large.
---
 CHECLabPy/core/io/hdf5_appender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 78d7268..58340c7 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -35,6 +35,8 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         self.n_bytes = defaultdict(int)
 
         self._generate_contents_list()
+        for key in self.dataframe_keys:
+            self.n_bytes[key] = self.get_n_bytes(key)
 
         if parse(self.version).release[0] < parse(__version__).release[0]:
             warnings.warn(
@@ -72,13 +74,11 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        total_bytes = self.get_metadata()['total_bytes']
         for key in self.keys:
             self._append_to_store(key)
             self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
         self.add_metadata(
-            total_bytes=total_bytes,
+            total_bytes=sum(self.n_bytes.values()),
             version=__version__,
         )
         self._save_metadata()
-- 
2.43.0


From 0e290da86421e32295f3803196fd2567419b2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 09/27] fix: look up the camera version in the mapping metadata
 as stored

The metadata of a mapping is a dict, attribute access failed.
---
 CHECLabPy/core/io/dl1_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index e7a68a7..6eb1ef0 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,7 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata.version
+        version = self.mapping.metadata['version']
         camera_config = CameraConfiguration(version)
         return camera_config.GetMapping(self.n_modules == 1)
 
-- 
2.43.0


From 26a3840bf71ced794f0b66527d51d043e8d3e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 10/27] fix: mark calibrated waveforms with the flag the
 waveforms carry

The calibration flag of Waveforms is is_r1.
---
 CHECLabPy/calib/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/waveform.py b/CHECLabPy/calib/waveform.py
index 9043f5d..8f07691 100644
--- a/CHECLabPy/calib/waveform.py
+++ b/CHECLabPy/calib/waveform.py
@@ -16,7 +16,7 @@ class WaveformCalibrator:
         fci = np.full(self.n_pixels, fci, dtype=np.uint16)
         calibrated_wfs = waveforms.astype(np.float32, copy=True)
         self.calibrator.ApplyEvent(waveforms, fci, calibrated_wfs)
-        calibrated_wfs.r1 = True
+        calibrated_wfs.is_r1 = True
         return calibrated_wfs
 
     @classmethod
-- 
2.43.0


From ce66d4f34856e1c1989198704ee15d1d7a0f9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 11/27] fix: read the mapping metadata as the dictionary it is

---
 CHECLabPy/utils/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index a0dfd14..9ca40f3 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -70,8 +70,8 @@ def get_tc_mapping_from_clp_mapping(mapping):
 
     """
     from target_calib import Mapping
-    cfgfile = mapping.metadata.cfgfile
-    is_single_module = mapping.metadata.is_single_module
+    cfgfile = mapping.metadata['cfgfile']
+    is_single_module = mapping.metadata['is_single_module']
     return Mapping(cfgfile, is_single_module)
 
 
-- 
2.43.0


From 5db53fa65085cb13cf6495733c798ac74c4868b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 12/27] fix: take the camera version from the run metadata that
 stores it

---
 CHECLabPy/core/io/dl1_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index 6eb1ef0..34c3a66 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,8 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata['version']
-        camera_config = CameraConfiguration(version)
+        camera_config = CameraConfiguration(self.camera_version)
         return camera_config.GetMapping(self.n_modules == 1)
 
     @property
-- 
2.43.0


From 0b7bab881755b809907ca6cf3507c0f977df6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 13/27] fix: do not pass as_index to the aggregation functions

---
 CHECLabPy/utils/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index 9ca40f3..f5f9940 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -122,7 +122,7 @@ def get_tm_mapping(mapping):
     df = mapping[['slot', 'row', 'col', 'xpix', 'ypix']]
     f_rowcol = lambda v: v.values[0] // 8
     f = dict(row=f_rowcol, col=f_rowcol, xpix='mean', ypix='mean')
-    df = df.groupby('slot').agg(f, as_index=False).reset_index()
+    df = df.groupby('slot').agg(f).reset_index()
     with warnings.catch_warnings():
         warnings.simplefilter('ignore', UserWarning)
         df.metadata = mapping.metadata.copy()
-- 
2.43.0


From b90435032d905141a1c1581319aaeb49fcd72ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 14/27] fix: replace names the installed numpy, pandas and
 matplotlib lack

---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 CHECLabPy/calib/pixel_masks.py       | 6 +++---
 CHECLabPy/core/io/simtel.py          | 4 ++--
 CHECLabPy/plotting/camera.py         | 8 ++++----
 CHECLabPy/plotting/spe.py            | 2 +-
 CHECLabPy/scripts/extract_dl1.py     | 2 +-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index b291737..7ad6476 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -50,7 +50,7 @@ class AmplitudeMatcher:
         self.starting_dacs = starting_dacs.ravel()
 
         if bad_hv is None:
-            self.sp_mask = np.zeros(n_superpixels, dtype=np.bool)
+            self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
                 bad_hv.reshape((n_superpixels, 4)).all(1)
diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index eab3dfc..71db956 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -28,9 +28,9 @@ class PixelMasks:
         path : str
             OPTIONAL specify a particular pixel mask file to load
         """
-        self.dead = np.zeros(N_PIXELS, dtype=np.bool)
-        self.low = np.zeros(N_PIXELS, dtype=np.bool)
-        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=np.bool)
+        self.dead = np.zeros(N_PIXELS, dtype=bool)
+        self.low = np.zeros(N_PIXELS, dtype=bool)
+        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=bool)
         self._load_file(path=path, merge=False)
 
     def _load_file(self, path=None, merge=False):
diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index fdc695b..dd8e3dd 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -68,8 +68,8 @@ class SimtelReader(WaveformReader):
         pix_x = engineering_geom.pix_x.value
         pix_y = engineering_geom.pix_y.value
         row, col = get_row_column(pix_x, pix_y)
-        camera_2d = np.zeros((n_rows, n_columns), dtype=np.int)
-        camera_2d[row, col] = np.arange(self.n_pixels, dtype=np.int)
+        camera_2d = np.zeros((n_rows, n_columns), dtype=int)
+        camera_2d[row, col] = np.arange(self.n_pixels, dtype=int)
         self.pixel_order = camera_2d[self.mapping['row'], self.mapping['col']]
 
         self.reference_pulse_path = self._camera_config.GetReferencePulsePath()
diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index 2a14f7a..b6f8d9d 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -227,8 +227,8 @@ class CameraImage(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             pix_size = self._mapping.metadata['size']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
@@ -493,8 +493,8 @@ class CameraImageImshow(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             n_rows = m.metadata['n_rows']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
diff --git a/CHECLabPy/plotting/spe.py b/CHECLabPy/plotting/spe.py
index ffe3146..17bb1b4 100644
--- a/CHECLabPy/plotting/spe.py
+++ b/CHECLabPy/plotting/spe.py
@@ -14,7 +14,7 @@ class SpectrumFitPlotter(Plotter):
     def plot(self, hist_x, hist_y, hist_edges, fit_x, fit_y, values, errors, initial):
         for i in range(self.n_illuminations):
             label = f"λ_{i} = {values[f'lambda_{i}']:.3f} ± {errors[f'lambda_{i}']:.3f} p.e."
-            color = next(self.ax._get_lines.prop_cycler)['color']
+            color = self.ax._get_lines.get_next_color()
             self.ax.hist(
                 hist_x,  weights=hist_y[i], bins=hist_edges,
                 histtype='step', color=color
diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index c5b665b..132641f 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -138,7 +138,7 @@ class DL1Extractor:
             source=self.source,
             run_id=self.reader.run_id,
             is_mc=self.reader.is_mc,
-            date_generated=pd.datetime.now(),
+            date_generated=pd.Timestamp.now(),
             input_path=self.reader.path,
             n_modules=self.reader.n_modules,
             n_pixels=self.reader.n_pixels,
-- 
2.43.0


From 8a7e12f232ad9045c83ab98e68d0fbede9926691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 15/27] fix: use the superpixel mask obtained from a pixel mask

---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 7ad6476..d1fb7d9 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -53,7 +53,7 @@ class AmplitudeMatcher:
             self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
-                bad_hv.reshape((n_superpixels, 4)).all(1)
+                bad_hv = bad_hv.reshape((n_superpixels, 4)).all(1)
             self.sp_mask = bad_hv.ravel()
 
         self.illumination_profile = illumination_profile
-- 
2.43.0


From d64dd36ae6d598486234cd7dfdf9d49231cb1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 16/27] fix: return the final DACs in the documented shape

---
 CHECLabPy/calib/amplitude_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index d1fb7d9..f3161c3 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -175,7 +175,8 @@ class AmplitudeMatcher:
             self.global_stage += 1
 
         if self.global_stage == GLOBALSTAGE.FINISH:
-            return self.current_dac, average_amplitude_pix, True
+            next_dac = self.current_dac.reshape((32, 16))
+            return next_dac, average_amplitude_pix, True
 
         next_dac = self._get_next_dac(distance, direction)
         finished = (self.stage == STAGE.FINISH).all()
-- 
2.43.0


From dcfffec95b25f2acc222f1cff4efa166db673abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 17/27] fix: store the fit results in pixel order

---
 CHECLabPy/scripts/extract_spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index efc908a..92dec9f 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -153,9 +153,9 @@ def main():
     df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))
     df_errors = pd.DataFrame(list(pixel_fitter.pixel_errors.values()))
     df_arrays = pd.DataFrame(list(pixel_fitter.pixel_arrays.values()))
-    df_values = df_values.set_index('pixel')
-    df_errors = df_errors.set_index('pixel')
-    df_arrays = df_arrays.set_index('pixel')
+    df_values = df_values.set_index('pixel').sort_index()
+    df_errors = df_errors.set_index('pixel').sort_index()
+    df_arrays = df_arrays.set_index('pixel').sort_index()
 
     with HDF5Writer(output_path) as writer:
         with warnings.catch_warnings():
-- 
2.43.0


From 43c65d79395c4815591262488a97eeb61137fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 18/27] fix: store the number of pixels of the fitted file

---
 CHECLabPy/scripts/extract_spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index 92dec9f..fa08eff 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -170,7 +170,7 @@ def main():
             files=input_paths,
             fitter=fitter.__class__.__name__,
             n_illuminations=n_illuminations,
-            n_pixels=charges[0].shape,
+            n_pixels=charges[0].shape[1],
             initial=initial,
         )
 
-- 
2.43.0


From 95274bcbb56a6e5cda42027229ba81a1cc41128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 19/27] fix: generate the configuration with the default
 activation

---
 CHECLabPy/scripts/generate_dl1_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/generate_dl1_config.py b/CHECLabPy/scripts/generate_dl1_config.py
index a24c3a3..05c928c 100644
--- a/CHECLabPy/scripts/generate_dl1_config.py
+++ b/CHECLabPy/scripts/generate_dl1_config.py
@@ -39,7 +39,7 @@ def main():
                 doc = re.sub(r'(\n\s*)', '\n#  ', doc).strip()[:-1]
                 f.writelines(doc)
             for c in r.columns:
-                f.writelines("{}: {}\n".format(c, default.get(c, True)))
+                f.writelines("{}: {}\n".format(c, default.get(c, False)))
                 doc = column.registry[c].__doc__
                 if doc and not bare:
                     doc = re.sub(r'(\n\s*)', '\n#    ', doc).strip()[:-1]
-- 
2.43.0


From 1003e4f019d0734ae59eeacc7206170e6e90ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 20/27] fix: report files that no reader can open

---
 CHECLabPy/core/io/waveform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CHECLabPy/core/io/waveform.py b/CHECLabPy/core/io/waveform.py
index ce2d732..9024edd 100644
--- a/CHECLabPy/core/io/waveform.py
+++ b/CHECLabPy/core/io/waveform.py
@@ -140,3 +140,4 @@ class WaveformReader(ABC):
         for subclass in child_subclasses(cls):
             if subclass.is_compatible(path):
                 return subclass(path, max_events)
+        raise IOError(f"No reader is compatible with the file: {path}")
-- 
2.43.0


From 2e76b941531853d6f22bc36ca9d157ecc85e29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 21/27] fix: close the default figure when it is replaced

---
 CHECLabPy/plotting/waveform.py | 2 ++
 CHECLabPy/scripts/plot_spe.py  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/CHECLabPy/plotting/waveform.py b/CHECLabPy/plotting/waveform.py
index 6c36297..4d1bf75 100644
--- a/CHECLabPy/plotting/waveform.py
+++ b/CHECLabPy/plotting/waveform.py
@@ -58,6 +58,7 @@ class CameraTMWaveformPlotter(Plotter):
         n_rows = self.tm_mapping.metadata['n_rows']
         n_cols = self.tm_mapping.metadata['n_columns']
 
+        plt.close(self.fig)
         self.fig = plt.figure(figsize=(8.27, 11.69 - 3.5))
         self.fig.subplots_adjust(hspace=0.0, wspace=0.0)
         self.fig.suptitle(title, fontsize=14)
@@ -202,6 +203,7 @@ class CameraPixelWaveformPlotter(Plotter):
         n_cols_tm = n_cols // 6
         n_tmpix = self.mapping.index.size // self.mapping.metadata['n_modules']
 
+        plt.close(self.fig)
         self.fig = plt.figure(figsize=(8.27, 11.69 - 3.5))
         self.fig.subplots_adjust(hspace=0.0, wspace=0.0)
 
diff --git a/CHECLabPy/scripts/plot_spe.py b/CHECLabPy/scripts/plot_spe.py
index 9108921..69418fc 100644
--- a/CHECLabPy/scripts/plot_spe.py
+++ b/CHECLabPy/scripts/plot_spe.py
@@ -15,6 +15,7 @@ class SPECamera(Plotter):
     def __init__(self, mapping):
         super().__init__()
 
+        plt.close(self.fig)
         self.fig = plt.figure(figsize=(8, 3))
         self.ax_values = self.fig.add_subplot(1, 2, 1)
         self.ax_errors = self.fig.add_subplot(1, 2, 2)
-- 
2.43.0


From 73a3ac56d8e7c109b850df5df077e5fac98aa38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 22/27] fix: allow the folder to appear while it is created

---
 CHECLabPy/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/files.py b/CHECLabPy/utils/files.py
index 5041cb8..b55f19a 100644
--- a/CHECLabPy/utils/files.py
+++ b/CHECLabPy/utils/files.py
@@ -8,7 +8,7 @@ def create_directory(directory):
     if directory:
         if not os.path.exists(directory):
             print("Creating directory: {}".format(directory))
-            os.makedirs(directory)
+            os.makedirs(directory, exist_ok=True)
 
 
 def read_runlist_old(path):
-- 
2.43.0


From 552f8b669b51c743aaa7f48b79d17beb399659a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 23/27] fix: take the event index from the event

---
 CHECLabPy/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 72bf977..9baae33 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -169,7 +169,7 @@ def obtain_dead_pixel_list_r1(source, threshold_percent=0.1, max_events=100):
     n_samples = source.n_samples
     array = np.zeros((n_events, n_pixels, n_samples))
     for waveforms in source:
-        iev = source.index
+        iev = waveforms.iev
         if iev >= n_events:
             break
         array[iev] = waveforms
-- 
2.43.0


From 86859880ac61bef4807ab5b7155ff1ee4c6d103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 24/27] fix: plot the column that the charge resolution
 provides

---
 CHECLabPy/plotting/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/plotting/resolutions.py b/CHECLabPy/plotting/resolutions.py
index 3584104..e943939 100644
--- a/CHECLabPy/plotting/resolutions.py
+++ b/CHECLabPy/plotting/resolutions.py
@@ -44,7 +44,7 @@ class ChargeResolutionPlotter(Plotter):
     def plot_pixel(self, pixel, label=''):
         df_pixel = self.df_pixel.loc[self.df_pixel['pixel'] == pixel]
         x = df_pixel['true']
-        y = df_pixel['rmse']
+        y = df_pixel['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
@@ -53,7 +53,7 @@ class ChargeResolutionPlotter(Plotter):
 
     def plot_camera(self, label=''):
         x = self.df_camera['true']
-        y = self.df_camera['rmse']
+        y = self.df_camera['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
-- 
2.43.0


From 10f46f8e91e9ba67e2095eb6727f95c03e952b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 25/27] fix: never write the DL1 file over the input or another
 output

---
 CHECLabPy/scripts/extract_dl1.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 132641f..69b4cc2 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -3,6 +3,7 @@ Executable for processing the R1 waveforms, and storing the reduced parameters
 into a HDF5 file, readable as a `pandas.DataFrame`.
 """
 import argparse
+import os
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
@@ -38,6 +39,9 @@ class DL1Writer(HDF5Writer):
                                                                      '.h5')
             if reader.is_mc:
                 output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
+        if os.path.realpath(output_path) == os.path.realpath(reader.path):
+            raise ValueError("Output path is the input file, please specify "
+                             "another output path: {}".format(output_path))
 
         with cls(output_path) as writer:
             n_events_processed = 0
@@ -202,6 +206,8 @@ def main():
 
     input_paths = args.input_paths
     n_files = len(input_paths)
+    if n_files > 1 and args.output_path:
+        parser.error("--output can only be specified for a single input file")
     for i_path, input_path in enumerate(input_paths):
         print("PROGRESS: Reducing file {}/{}".format(i_path + 1, n_files))
         reader = WaveformReader.from_path(input_path, args.max_events)
-- 
2.43.0


From 301b0312cc61879f97f0ce9d6dd09059f938e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 26/27] fix: skip level crossings between equal samples in the
 pulse timing

---
 CHECLabPy/waveform_reducers/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index 8f78f73..fd46067 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -62,7 +62,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi + 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                 break
 
@@ -71,13 +71,13 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi - 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 if not fwhm_l:  # Only set on first time
                     fwhm_l = xi + (half_max - yi) * (xj - xi) / (yj - yi)
-            if yi >= _90percent >= yj:
+            if yi >= _90percent >= yj and yi > yj:
                 if not rt_90:  # Only set on first time
                     rt_90 = xi + (_90percent - yi) * (xj - xi) / (yj - yi)
-            if yi >= _10percent >= yj:
+            if yi >= _10percent >= yj and yi > yj:
                 if not rt_10:  # Only set on first time
                     rt_10 = xi + (_10percent - yi) * (xj - xi) / (yj - yi)
             if fwhm_l and rt_90 and rt_10:
-- 
2.43.0


From a63b4418e47ea0158833c4d2ff27a42f0125b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 27/27] fix: do not cut the Gentile spectrum before its first
 significant peak

For a large illumination every weight at one photo-electron is below the
limit for insignificant probabilities, so the weight and the largest weight
so far are both zero, and the sum stopped with only the pedestal in it.
---
 CHECLabPy/spectrum_fitters/gentile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/spectrum_fitters/gentile.py b/CHECLabPy/spectrum_fitters/gentile.py
index 776b118..0f8feaa 100644
--- a/CHECLabPy/spectrum_fitters/gentile.py
+++ b/CHECLabPy/spectrum_fitters/gentile.py
@@ -110,7 +110,7 @@ def sipm_gentile_spe(x, eped, eped_sigma, spe, spe_sigma, opct, lambda_):
         # Skip insignificant probabilities
         if pk > pk_max:
             pk_max = pk
-        elif pk < 1e-4:
+        elif pk < pk_max and pk < 1e-4:
             break
 
         # Combine spread of pedestal and pe peaks
-- 
2.43.0

