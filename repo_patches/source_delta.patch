From 635b84208ddc46ee15c32ef3565ddd2859a9d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:13 +0000
Subject: [PATCH 01/53] fix: altitude sign of scalar ECEF positions at the
 south pole

---
 dedop/proc/geo/ecef2lla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/geo/ecef2lla.py b/dedop/proc/geo/ecef2lla.py
index cbe6279..1953751 100644
--- a/dedop/proc/geo/ecef2lla.py
+++ b/dedop/proc/geo/ecef2lla.py
@@ -88,7 +88,7 @@ def ecef2lla(ecef: Sequence[float], cst: ConstantsFile) -> Tuple[float, float, f
 
     if isinstance(alt, numbers.Number):
         if abs(x)<1 and abs(y)<1:
-            alt = z - b
+            alt = abs(z) - b
     else:
         k = logical_and(abs(x)<1, abs(y)<1)
         alt[k] = abs(z[k]) - b
-- 
2.43.0


From 18a753a66184ad56c9b29e7db38d7b1eb46052d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:08 +0000
Subject: [PATCH 02/53] fix: interpolate antenna weights between the
 neighbouring pattern angles

---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..ac1d249 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -212,7 +212,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - weight_left) / self.chd.antenna_angles_spacing
+            alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From b814fa4a48360ab68e248df330905f49559759de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:34 +0000
Subject: [PATCH 03/53] fix: hamming and hanning azimuth windows were swapped

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index 7e4e869..c2bfd0e 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -60,10 +60,10 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
             window[start:end] = 1.
         elif window_shape == AzimuthWindowingMethod.hamming:
             n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
         elif window_shape == AzimuthWindowingMethod.hanning:
             n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
         else:
             raise NotImplementedError(
                 "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-- 
2.43.0


From 34211cea4d348f472be4d1aea96d41c03e18d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:34 +0000
Subject: [PATCH 04/53] fix: angle between opposite vectors is pi, not nan,
 when rounding exceeds -1

---
 dedop/proc/functions/vectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/functions/vectors.py b/dedop/proc/functions/vectors.py
index 0f8f7b8..9e3263a 100644
--- a/dedop/proc/functions/vectors.py
+++ b/dedop/proc/functions/vectors.py
@@ -10,5 +10,7 @@ def angle_between(vec1: np.ndarray, vec2: np.ndarray) -> float:
           (norm(vec1) * norm(vec2))
     if arg > 1:
         arg = 1
+    elif arg < -1:
+        arg = -1
 
     return np.arccos(arg)
-- 
2.43.0


From ce7a05110c2a94ebcf75fe7c091642823a333be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 05/53] fix: calibrate the first burst after a gap only once

---
 dedop/proc/sar/processor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..9e80c9f 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -201,9 +201,10 @@ class L1BProcessor(BaseProcessor):
                         monitor.progress(1)
 
                 if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
+                    # apply calibrations (a packet kept back by a gap has already been calibrated)
+                    if not gap_resume:
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
 
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
-- 
2.43.0


From ac518968c0c84385f76161d8029bad29a10c4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 06/53] fix: skip unusable input records instead of treating
 them as the end of the input

---
 dedop/proc/sar/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 9e80c9f..e9030ee 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -200,6 +200,10 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
+                        # records that are invalid or outside of the ROI are skipped
+                        if input_packet is None:
+                            continue
+
                 if input_packet is not None:
                     # apply calibrations (a packet kept back by a gap has already been calibrated)
                     if not gap_resume:
-- 
2.43.0


From c167a4e2afd58d66a12fbc66bc2ba9ffb9d8831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 07/53] fix: process a short last segment after a gap instead
 of failing

---
 dedop/proc/sar/processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index e9030ee..bb044f8 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -171,6 +171,7 @@ class L1BProcessor(BaseProcessor):
         prev_time = None
         gap_processing = False
         gap_resume = False
+        gap_found = False
         sub_monitor = None
 
         index = -1
@@ -195,8 +196,10 @@ class L1BProcessor(BaseProcessor):
                         input_packet = next(self.l1a_file)
                     except StopIteration:
                         input_packet = None
-                        if not surface_processing:
+                        if not surface_processing and not gap_found:
                             raise Exception("insufficient input records")
+                        # a short segment after a gap is processed like a short segment before one
+                        surface_processing = True
                     else:
                         monitor.progress(1)
 
@@ -223,6 +226,7 @@ class L1BProcessor(BaseProcessor):
 
                     else:
                         gap_processing = True
+                        gap_found = True
                         prev_time = None
                         sub_monitor = monitor.child(1)
                         sub_monitor.start("processing gap", len(self.surf_locs))
-- 
2.43.0


From 4b3ba5f2e811af7c531f1439c2ec3f88d24f64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 08/53] fix: restart the beam angles trend after a gap

---
 dedop/proc/sar/processor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index bb044f8..ecd073c 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -278,6 +278,8 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    self.beam_angles_list_size_prev = -1
+                    self.beam_angles_trend_prev = -1
                     sub_monitor.done()
                 else:
                     # the end of the input has been reached
-- 
2.43.0


From 0ac8c1f7b7f6f4fd7e31ec7721f86e45ecf52c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 09/53] fix: do not carry surfaces, bursts and focusing state
 over to the next input file

---
 dedop/proc/sar/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ecd073c..5d92a74 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -133,6 +133,9 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_list_size_prev = -1
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
+        self._surfaces = []
+        self._packets = []
+        self.surface_locations_algorithm.focus_found = False
 
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
-- 
2.43.0


From 730ef55385bd7bbdccee58f939ba1a2f436d8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 10/53] fix: give the first surface location its own UTC
 reference

---
 dedop/proc/sar/algorithms/surface_locations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..01f0411 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,11 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = self.cst.sec_in_day
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From 1f99a1e15d889c199748d3137f0fc69d293ff7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 11/53] fix: region of interest includes its last record and
 may be empty

---
 dedop/data/input/l1a/l1a_dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..7340a5c 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -115,8 +115,12 @@ class L1ADataset(InputDataset):
                 )
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
-            self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            if indexes.size:
+                self._start_index = indexes.min()
+                self._final_index = indexes.max() + 1
+            else:
+                self._start_index = 0
+                self._final_index = 0
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 1cac5ee4c70e5f292221d7ca8aa58923f5da4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:33 +0000
Subject: [PATCH 12/53] fix: approximate azimuth processing of a burst that
 sees no surface

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index c2bfd0e..7993f70 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -84,6 +84,10 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
         :param windowed_wfm: the input waveform with windowing applied
         :param wavelength_ku: signal wavelength
         """
+        # a burst that sees none of the surfaces has no beams to focus
+        if len(packet.beam_angles_list) == 0:
+            return
+
         # find the nadir beam angle
         nadir_beam_angle = self.get_nadir_beam_angle(packet)
 
-- 
2.43.0


From b5858acaab4ea4e31ced9018741352d2f5210fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:11 +0000
Subject: [PATCH 13/53] fix: stack standard deviation is not negative

The fitted curve depends on the square of the width only, so the fit may
return it with either sign; the negative ones were written to the unsigned
output variables as huge values.
---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index ac1d249..24adb36 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -137,7 +137,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
         fit_params_l = gauss_fit(look_angles_surf_center, beam_power_center)
         self.stack_max = fit_params_l[0]
         self.look_angle_centre = fit_params_l[1]
-        self.stack_std = fit_params_l[2] / 2
+        self.stack_std = abs(fit_params_l[2]) / 2
 
         fit_params_p = gauss_fit(pointing_angles_surf_center, beam_power_center)
         self.pointing_angle_centre = fit_params_p[1]
-- 
2.43.0


From 0eb9b3459873b55ef5aaac87fa01a9b3f8bd633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:11 +0000
Subject: [PATCH 14/53] fix: characterise a stack without any power instead of
 failing

curve_fit raises ValueError when no finite sample is left, which ended the
processing of the whole file for one fully masked stack.
---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 24adb36..4f9f478 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -33,7 +33,7 @@ def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
             fit_params, _ = curve_fit(
                 gauss, x, y
             )
-        except (RuntimeError, OptimizeWarning, TypeError):
+        except (RuntimeError, OptimizeWarning, TypeError, ValueError):
             return [1, 1, 1]
 
     return fit_params
-- 
2.43.0


From 705ef740493b1eda58733c3dad0ecceb5388f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:09 +0000
Subject: [PATCH 15/53] fix: look angles of the extended L1B product do not
 overflow

Look angles are close to zero; with an offset of 1.57 rad they did not fit
the 16 bit variable and came out as unrelated values.
---
 dedop/data/output/l1b_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index ca199f2..49352b6 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -699,7 +699,7 @@ class L1BWriterExtended(NetCDFWriter):
             comment="the useful values of the table are the first n_useful values where n_useful is"
                     "the number of waveforms summed in the stack",
             scale_factor=1.0e-06,
-            add_offset=1.57,
+            add_offset=0.00,
             units="rad",
             fill_value=32767
         )
-- 
2.43.0


From c4d9eea2b25bef7e4841ffdadb8d1711e0e43a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:09 +0000
Subject: [PATCH 16/53] fix: attitude angles of the L1BS product are in
 degrees, as their units say

---
 dedop/data/output/l1bs_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 5699eb3..8c02486 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -667,9 +667,9 @@ class L1BSWriter(NetCDFWriter):
             meas_x_pos_l1bs_echo_sar_ku=surface_location_data.x_surf,
             meas_y_pos_l1bs_echo_sar_ku=surface_location_data.y_surf,
             meas_z_pos_l1bs_echo_sar_ku=surface_location_data.z_surf,
-            roll_sat_pointing_l1bs_echo_sar_ku=surface_location_data.roll_sat,
-            pitch_sat_pointing_l1bs_echo_sar_ku=surface_location_data.pitch_sat,
-            yaw_sat_pointing_l1bs_echo_sar_ku=surface_location_data.yaw_sat,
+            roll_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.roll_sat),
+            pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.pitch_sat),
+            yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.yaw_sat),
             roll_sral_mispointing_l1bs_echo_sar_ku=closest_burst.roll_sral_mispointing,
             pitch_sral_mispointing_l1bs_echo_sar_ku=closest_burst.pitch_sral_mispointing,
             yaw_sral_mispointing_l1bs_echo_sar_ku=closest_burst.yaw_sral_mispointing,
-- 
2.43.0


From a84d70b946c19b3238eb89764f418b9fd3fc774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:09 +0000
Subject: [PATCH 17/53] fix: L1BS surface type is that of the closest burst

It was the internal type of the stack, which is never set, so that every
record claimed open ocean.
---
 dedop/data/output/l1bs_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 8c02486..20f1209 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -654,7 +654,7 @@ class L1BSWriter(NetCDFWriter):
             UTC_sec_l1bs_echo_sar_ku=utc_secs,
             lat_l1bs_echo_sar_ku=degrees(surface_location_data.lat_surf),
             lon_l1bs_echo_sar_ku=degrees(surface_location_data.lon_surf),
-            surf_type_l1bs_echo_sar_ku=surface_location_data.surface_type.value,
+            surf_type_l1bs_echo_sar_ku=closest_burst.surf_type,
             records_count_l1bs_echo_sar_ku=surface_location_data.surface_counter,
             alt_l1bs_echo_sar_ku=surface_location_data.alt_sat,
             orb_alt_rate_l1bs_echo_sar_ku=surface_location_data.alt_rate_sat,
-- 
2.43.0


From 321a99f11ddf9c0bd855bfc75dbf7a69e56f65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:56 +0000
Subject: [PATCH 18/53] fix: a run that fails does not leave its output files
 open

---
 dedop/data/output/netcdf_writer.py |  4 ++++
 dedop/proc/sar/processor.py        | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/dedop/data/output/netcdf_writer.py b/dedop/data/output/netcdf_writer.py
index 62b07e9..b3096dc 100644
--- a/dedop/data/output/netcdf_writer.py
+++ b/dedop/data/output/netcdf_writer.py
@@ -119,6 +119,10 @@ class NetCDFWriter(metaclass=ABCMeta):
     def file_path(self):
         return self._file_path
 
+    @property
+    def is_open(self) -> bool:
+        return self._root.isopen()
+
     def __enter__(self):
         """
         enables use of 'with' statements to ensure file
diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 5d92a74..f8fe7fe 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -63,6 +63,8 @@ class L1BProcessor(BaseProcessor):
         self.out_path = out_path
         self.name = name
         self.l1a_file = None
+        self.l1b_file = None
+        self.l1bs_file = None
 
         # init. surface & packets arrays
         self._surfaces = []
@@ -114,7 +116,12 @@ class L1BProcessor(BaseProcessor):
         t0 = time.time()
 
         with monitor.starting('processing', total_work=len(self.l1a_file)):
-            status = self._process(l1a_file, monitor)
+            try:
+                status = self._process(l1a_file, monitor)
+            except Exception:
+                # do not leave the output files open
+                self._close_outputs()
+                raise
 
         dt = time.time() - t0
 
@@ -126,6 +133,14 @@ class L1BProcessor(BaseProcessor):
 
         return status
 
+    def _close_outputs(self) -> None:
+        """
+        close the output files of a run that has failed
+        """
+        for output in (self.l1b_file, self.l1bs_file):
+            if output is not None and output.is_open:
+                output.close()
+
     def _process(self, l1a_file, monitor):
         running = True
         surface_processing = False
-- 
2.43.0


From c116909375efbd0a1906b6e10907b7c32253c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:56 +0000
Subject: [PATCH 19/53] fix: process a product without the product_name
 attribute

---
 dedop/data/input/l1a/l1a_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 7340a5c..23fb5a2 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -76,9 +76,13 @@ class L1AGlobals:
             attrs.get('product_name')
 
     def get_l1b_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '____')
 
     def get_l1bs_product_name(self):
+        if self.product_name is None:
+            return None
         return self.product_name.replace('_A__', '_BS_')
 
 
-- 
2.43.0


From bd305f497509ec1feb7f9609429d40bc67ac9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:46 +0000
Subject: [PATCH 20/53] fix: a new CryoSat configuration is of the current
 version

---
 dedop/ui/data/cryosat_config/CHD.json | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/data/cryosat_config/CHD.json b/dedop/ui/data/cryosat_config/CHD.json
index b19c160..79127ff 100644
--- a/dedop/ui/data/cryosat_config/CHD.json
+++ b/dedop/ui/data/cryosat_config/CHD.json
@@ -15,10 +15,31 @@
                 "comment": "initial version",
                 "parameters": [],
                 "version": 0
+            },
+            {
+                "comment": "added new parameters for update to sigma-0 algorithm",
+                "parameters": [
+                    [
+                        "ratio_trc_ku_chd",
+                        "+",
+                        "required for sigma-0 scaling factor"
+                    ],
+                    [
+                        "fft_step_freq_ku_chd",
+                        "+",
+                        "required for sigma-0 scaling factor"
+                    ],
+                    [
+                        "ptr_width_chd",
+                        "+",
+                        "required for sigma-0 scaling factor"
+                    ]
+                ],
+                "version": 1
             }
         ],
         "description": "DeDop Characterisation File",
-        "version": 0
+        "version": 1
     },
     "alt_freq_multiplier_chd": {
         "description": "Factor to convert from USO frequency to altimeter frequency",
-- 
2.43.0


From f848d0ba98f0881d1bbfb55e8abc93430927d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:46 +0000
Subject: [PATCH 21/53] fix: tell the current workspace and its directory

---
 dedop/ui/workspace_manager.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..6b4ac0b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -97,7 +97,9 @@ class WorkspaceManager:
 
     def get_current_workspace(self) -> Workspace:
         current_workspace = _readline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME))
-        return Workspace(None, current_workspace)
+        if not current_workspace:
+            return Workspace(None, current_workspace)
+        return Workspace(self.get_workspace_path(current_workspace), current_workspace, is_current=True)
 
     def set_current_workspace_name(self, workspace_name: str):
         self._assert_workspace_exists(workspace_name)
@@ -180,10 +182,9 @@ class WorkspaceManager:
     def get_workspaces(self) -> List[str]:
         workspaces_dir = self._workspaces_dir
         if os.path.exists(workspaces_dir):
-            workspaces = [
-                Workspace(os.path.join(workspaces_dir, name), name).to_json_dict() if name != '.current' else None
-                for name in os.listdir(workspaces_dir)]
-            return list(filter(None, workspaces))
+            current_name = self.get_current_workspace().name
+            return [Workspace(os.path.join(workspaces_dir, name), name, is_current=name == current_name).to_json_dict()
+                    for name in self.get_workspace_names()]
 
     def config_exists(self, workspace_name: str, config_name: str) -> bool:
         config_dir = self.get_config_path(workspace_name, config_name)
-- 
2.43.0


From 2e63058b5ff2a2691ae6c275c9f722409f1721b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:46 +0000
Subject: [PATCH 22/53] fix: renaming a workspace does not move it into an
 existing one

---
 dedop/ui/workspace_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 6b4ac0b..112af5b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -162,6 +162,8 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        if self.workspace_exists(new_workspace_name):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
-- 
2.43.0


From 6f371b81b134358194ea36d2af0b06294405f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:46 +0000
Subject: [PATCH 23/53] fix: an empty name is not a workspace or configuration
 to delete or copy

---
 dedop/ui/workspace_manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 112af5b..2f9c2d6 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -102,7 +102,8 @@ class WorkspaceManager:
         return Workspace(self.get_workspace_path(current_workspace), current_workspace, is_current=True)
 
     def set_current_workspace_name(self, workspace_name: str):
-        self._assert_workspace_exists(workspace_name)
+        if workspace_name:
+            self._assert_workspace_exists(workspace_name)
         _writeline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME), workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
         return Workspace(workspace_dir, workspace_name, is_current=True)
@@ -287,7 +288,8 @@ class WorkspaceManager:
 
     def set_current_config_name(self, workspace_name: str, config_name: str):
         self._assert_workspace_exists(workspace_name)
-        self._assert_config_exists(workspace_name, config_name)
+        if config_name:
+            self._assert_config_exists(workspace_name, config_name)
         _writeline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME), config_name)
 
     def get_config_version(self, workspace_name: str, config_name: str, config_file_key: str) -> int:
@@ -677,10 +679,10 @@ class WorkspaceManager:
             '...' + name[3 - max_len:] if mode == 'r' else name[:max_len - 3] + '...')
 
     def _assert_workspace_exists(self, workspace_name):
-        if not os.path.exists(self.get_workspace_path(workspace_name)):
+        if not workspace_name or not os.path.exists(self.get_workspace_path(workspace_name)):
             raise WorkspaceError('workspace "%s" does not exist' % workspace_name)
 
     def _assert_config_exists(self, workspace_name, config_name):
-        if not os.path.exists(self.get_config_path(workspace_name, config_name)):
+        if not config_name or not os.path.exists(self.get_config_path(workspace_name, config_name)):
             raise WorkspaceError(
                 'DDP configuration "%s" of workspace "%s" does not exist' % (config_name, workspace_name))
-- 
2.43.0


From 5521ae1de34e88984d408a12d446c079ddf3b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:46 +0000
Subject: [PATCH 24/53] fix: list a file once if several patterns match it

---
 dedop/ui/workspace_manager.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 2f9c2d6..e2080ef 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -645,12 +645,7 @@ class WorkspaceManager:
         if isinstance(pattern, str):
             fn_list = [fn for fn in fn_list if fnmatch.fnmatch(fn, pattern)]
         elif pattern:
-            new_fn_list = []
-            for fn in fn_list:
-                for p in pattern:
-                    if fnmatch.fnmatch(fn, p):
-                        new_fn_list.append(fn)
-            fn_list = new_fn_list
+            fn_list = [fn for fn in fn_list if any(fnmatch.fnmatch(fn, p) for p in pattern)]
         return sorted(fn_list)
 
     @classmethod
-- 
2.43.0


From f5b238da519e163ffbe90afc7d58bb672d59dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:05 +0000
Subject: [PATCH 25/53] fix: a configuration without a name is not created in
 the configs directory itself

---
 dedop/ui/workspace_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index e2080ef..072367a 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -200,6 +200,8 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be added
         """
         self._assert_workspace_exists(workspace_name)
+        if not config_name:
+            raise WorkspaceError('no configuration name is specified')
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
         config_dir = self.get_config_path(workspace_name, config_name)
-- 
2.43.0


From 00cd2c9420dba02c2602aa4c27cf6afbf0ec43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:05 +0000
Subject: [PATCH 26/53] fix: a workspace without configurations has an empty
 list of them

---
 dedop/ui/workspace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 072367a..9269132 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -282,7 +282,7 @@ class WorkspaceManager:
         configs_dir = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME)
         if os.path.exists(configs_dir):
             return sorted([name for name in os.listdir(configs_dir) if os.path.isdir(os.path.join(configs_dir, name))])
-        return None
+        return []
 
     def get_current_config_name(self, workspace_name: str) -> str:
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From a9760856cbadff6e91e0aa4113081ba329d1b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:41 +0000
Subject: [PATCH 27/53] fix: notebooks for products with quotes in their path
 are valid

---
 dedop/ui/workspace_manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9269132..74b8327 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -474,7 +474,7 @@ class WorkspaceManager:
     def inspect_l1b_product(self, workspace_name: str, l1b_path: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'inspect-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH__', repr(l1b_path).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH__', self._to_json_text(l1b_path))
         product_name = ntpath.basename(l1b_path)
         return self._launch_notebook_from_template(workspace_name,
                                                    'inspect-%s' % product_name,
@@ -485,8 +485,8 @@ class WorkspaceManager:
     def compare_l1b_products(self, workspace_name, l1b_path_1: str, l1b_path_2: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'compare-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH_1__', repr(l1b_path_1).replace('\\', '\\\\')) \
-            .replace('__L1B_FILE_PATH_2__', repr(l1b_path_2).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH_1__', self._to_json_text(l1b_path_1)) \
+            .replace('__L1B_FILE_PATH_2__', self._to_json_text(l1b_path_2))
         product1_name = ntpath.basename(l1b_path_1)
         product2_name = ntpath.basename(l1b_path_2)
         return self._launch_notebook_from_template(workspace_name,
@@ -495,6 +495,11 @@ class WorkspaceManager:
                                                    'compare - [%s] [%s]' % (self._limit_title(l1b_path_1, 30),
                                                                             self._limit_title(l1b_path_2, 30),))
 
+    @staticmethod
+    def _to_json_text(path: str) -> str:
+        # a Python string literal, escaped so that it can be put into a JSON string
+        return json.dumps(repr(path))[1:-1]
+
     def _launch_notebook_from_template(self,
                                        workspace_name: str,
                                        notebook_basename: str,
-- 
2.43.0


From 6e7088502869726b01291a0c11a8220e1d5f9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:30 +0000
Subject: [PATCH 28/53] fix: compare L1B products given by a path and a name,
 or one with the same name

---
 dedop/cli/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..ebcfe9d 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -958,8 +958,8 @@ class ManageOutputsCommand(SubCommandCommand):
             if not os.path.exists(l1b_path_1):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
-            l1b_filename_2 = command_args.l1b_filename_2
-            if os.path.dirname(l1b_filename_1):
+            l1b_filename_2 = command_args.l1b_filename_2 if command_args.l1b_filename_2 else l1b_filename_1
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
@@ -972,7 +972,7 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('Second L1B product not found: %s' % l1b_path_2)
 
             if os.path.samefile(l1b_path_1, l1b_path_2):
-                print('warning: comparing "%s" with itself')
+                print('warning: comparing "%s" with itself' % l1b_path_1)
 
             _WORKSPACE_MANAGER.compare_l1b_products(workspace_name_1, l1b_path_1, l1b_path_2)
         except WorkspaceError as error:
-- 
2.43.0


From 6318b7dfb3dbb532a1e9725d9aa167166bf0f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:30 +0000
Subject: [PATCH 29/53] fix: version and upgrade without a current
 configuration are refused with a message

---
 dedop/cli/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index ebcfe9d..9542a1a 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -604,6 +604,9 @@ class ManageConfigsCommand(SubCommandCommand):
         workspace_name, config_name = _get_workspace_and_config_name(command_args)
         if not workspace_name:
             raise CommandError('no current workspace, use option -w to name a WORKSPACE')
+        if not config_name:
+            raise CommandError(
+                'no current configuration, use "dedop config add CONFIG" or "dedop config cur CONFIG"')
         if _require_upgrade(workspace_name, config_name):
             chd_version, cnf_version, cst_version = _WORKSPACE_MANAGER.upgrade_all_config(workspace_name, config_name)
             print("Upgrade successful!")
@@ -617,6 +620,9 @@ class ManageConfigsCommand(SubCommandCommand):
         workspace_name, config_name = _get_workspace_and_config_name(command_args)
         if not workspace_name:
             raise CommandError('no current workspace, use option -w to name a WORKSPACE')
+        if not config_name:
+            raise CommandError(
+                'no current configuration, use "dedop config add CONFIG" or "dedop config cur CONFIG"')
         chd_version, cnf_version, cst_version = _WORKSPACE_MANAGER.get_all_config_version(workspace_name, config_name)
         print("Workspace name :", workspace_name)
         print("Config name    :", config_name)
-- 
2.43.0


From e7d90200555e70a4b0649f262822c207f6148f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:30 +0000
Subject: [PATCH 30/53] fix: a child monitor without a known amount of work
 passes on progress

---
 dedop/util/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index ab8317b..0afedf0 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -195,7 +195,7 @@ class ChildMonitor(Monitor):
         self._parent_monitor.progress(work=parent_work, msg=self._label)
 
     def progress(self, work: float = None, msg: str = None):
-        parent_work = self._partial_work * (work / self._total_work) if work is not None else None
+        parent_work = self._partial_work * (work / self._total_work) if work is not None and self._total_work else None
         parent_msg = '%s: %s' % (self._label, msg) if msg is not None else None
         self._parent_monitor.progress(work=parent_work, msg=parent_msg)
 
-- 
2.43.0


From dd2ccc320ef68afdbbd6f06da01347f1548253be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:44 +0000
Subject: [PATCH 31/53] fix: coordinates of a product without records or
 positions are empty

---
 dedop/webapi/websocket.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index e3596c9..434f955 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -174,8 +174,8 @@ class WebSocketService:
         longitude = ds['lon_l1a_echo_sar_ku'][:].tolist() if 'lon_l1a_echo_sar_ku' in ds.variables.keys() else []
         ds.close()
         return {
-            "lat": [latitude[0], latitude[-1]],
-            "lon": [longitude[0], longitude[-1]]
+            "lat": [latitude[0], latitude[-1]] if latitude else [],
+            "lon": [longitude[0], longitude[-1]] if longitude else []
         }
 
     @staticmethod
-- 
2.43.0


From fda1b54d8ea2c91968a1c9f08e37d13d47822067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:44 +0000
Subject: [PATCH 32/53] fix: numeric global attributes are JSON-serializable

---
 dedop/webapi/websocket.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index 434f955..636f7f0 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -181,6 +181,8 @@ class WebSocketService:
     @staticmethod
     def get_global_attributes(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        global_attributes = ds.__dict__
+        # numbers are given as NumPy objects, which are not JSON-serializable
+        global_attributes = {name: value.tolist() if hasattr(value, 'tolist') else value
+                             for name, value in ds.__dict__.items()}
         ds.close()
         return global_attributes
-- 
2.43.0


From 4488e660f1779a8345edd2171c4967f3440e6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 33/53] fix: inspect and compare products with Bokeh versions
 without bokeh.util.platform

---
 dedop/ui/compare.py | 1 -
 dedop/ui/inspect.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 4e92a34..0d09a90 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -6,7 +6,6 @@ import bokeh
 import bokeh.io
 import bokeh.model
 import bokeh.plotting
-import bokeh.util.platform
 import matplotlib.pyplot as plt
 import pyproj
 from bokeh.models import ColumnDataSource, Circle
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 97a6f6a..63628d6 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -4,7 +4,6 @@ import bokeh
 import bokeh.io
 import bokeh.model
 import bokeh.plotting
-import bokeh.util.platform
 import ipywidgets as widgets
 import matplotlib.pyplot as plt
 import numpy as np
-- 
2.43.0


From 1c7ea2a79aee3f38eef882eae1657c0471d946d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 34/53] fix: time range of an inspected product is that of its
 numeric times

---
 dedop/ui/inspect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 63628d6..90b2a28 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -113,7 +113,7 @@ class L1bProductInspector:
         time = time_var[:]
         self.time = num2date(time, time_var.units, calendar=time_var.calendar)
         self.time_0 = num2date(time.mean(), time_var.units, calendar=time_var.calendar)
-        self.time_range = self.time.min(), self.time.max()
+        self.time_range = tuple(num2date([time.min(), time.max()], time_var.units, calendar=time_var.calendar))
 
         waveform_counts = dataset['i2q2_meas_ku_%s_echo_sar_ku' % product_type][:]
         waveform_scaling = dataset['scale_factor_ku_%s_echo_sar_ku' % product_type][:]
-- 
2.43.0


From 99abde588579eefa135fbe98b3b2ca9e334e1ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 35/53] fix: image plots of a variable show that variable, not
 the waveform

---
 dedop/ui/inspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 90b2a28..fe2c72b 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -373,7 +373,7 @@ class L1bProductInspectorPlots:
         zmin = zmin if zmin else var_data.min()
         zmax = zmax if zmax else var_data.max()
         plt.figure(figsize=(10, 10))
-        plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
+        plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
         plt.xlabel('%s (index)' % var.dimensions[1])
         plt.ylabel('%s (index)' % var.dimensions[0])
@@ -586,7 +586,7 @@ class L1bProductInspectorPlots:
             # fig.axes.remove(ax2)
             ax2.remove()
 
-        im = ax3.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto',
+        im = ax3.imshow(var_data, interpolation='nearest', aspect='auto',
                         vmin=zmin, vmax=zmax, cmap=cmap)
         if has_xind:
             ax3.axvline(x=xind)
-- 
2.43.0


From 255d729091cf2429f42c81733902c76b2f94f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 36/53] fix: value limits of a plot are the ones given, zero
 included

---
 dedop/ui/compare.py | 20 ++++++++++----------
 dedop/ui/inspect.py | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 0d09a90..5793939 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -200,8 +200,8 @@ class L1bProductComparatorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveforms_delta_im(self, vmin=None, vmax=None, cmap='RdBu_r'):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._comparator.waveforms_delta, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax,
                    cmap=cmap)
@@ -226,8 +226,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -266,8 +266,8 @@ class L1bProductComparatorPlots:
         :param bins: Number of bins
         :param log: Show logarithms of bin counts
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -289,8 +289,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -309,8 +309,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index fe2c72b..9609fbe 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -209,8 +209,8 @@ class L1bProductInspectorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveform_im(self, vmin=None, vmax=None, cmap='jet'):
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax, cmap=cmap)
         plt.xlabel('Echo Sample Index')
@@ -293,8 +293,8 @@ class L1bProductInspectorPlots:
         :param log: Show logarithms of bin counts
         :param color: Color of the histogram bars, e.g. 'green'
         """
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -354,7 +354,7 @@ class L1bProductInspectorPlots:
                         name_options.extend(var_names)
                 name_options = sorted(name_options)
                 # TODO (forman, 20160709): add sliders for zmin, zmax
-                interact(self._plot_im, z_name=name_options, zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                interact(self._plot_im, z_name=name_options, zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
             else:
                 raise ValueError('name must be given')
         else:
@@ -370,8 +370,8 @@ class L1bProductInspectorPlots:
             return
         var_data = var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
         plt.figure(figsize=(10, 10))
         plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
@@ -531,11 +531,11 @@ class L1bProductInspectorPlots:
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-                         zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                         zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
         else:
             if not z:
                 raise ValueError('z_name must be given')
-            self._plot_im_line(z, zmin=zmin, zmax=zmin, xind=xind, yind=yind, cmap=cmap)
+            self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
 
     def _plot_im_line(self, z_name, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
         assert z_name
@@ -549,8 +549,8 @@ class L1bProductInspectorPlots:
 
         var_data = z_var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
 
         x_title = '%s (index)' % z_var.dimensions[1]
         y_title = '%s (index)' % z_var.dimensions[0]
-- 
2.43.0


From facaac0d5e2be15045423afd6dbcb2c01c5346b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 37/53] fix: histograms and 3D plots with current Matplotlib
 versions

---
 dedop/ui/compare.py | 6 +++---
 dedop/ui/inspect.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 5793939..ffc2c02 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -237,7 +237,7 @@ class L1bProductComparatorPlots:
                  log=log,
                  facecolor=color1,
                  alpha=alpha,
-                 normed=True,
+                 density=True,
                  label='Waveform 1')
         plt.hist(self._comparator.p2.waveform.flatten(),
                  range=(vmin, vmax),
@@ -245,7 +245,7 @@ class L1bProductComparatorPlots:
                  log=log,
                  facecolor=color2,
                  alpha=alpha,
-                 normed=True,
+                 density=True,
                  label='Waveform 2')
 
         plt.xlabel('Waveform')
@@ -277,7 +277,7 @@ class L1bProductComparatorPlots:
                  log=log,
                  facecolor=color,
                  alpha=1,
-                 normed=True)
+                 density=True)
 
         plt.xlabel('Waveforms Delta')
         plt.ylabel('Counts')
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 9609fbe..a81b6ca 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -233,7 +233,7 @@ class L1bProductInspectorPlots:
 
     def _waveform_3d(self, fig_type, zmin, zmax, alpha, cmap):
         fig = plt.figure(figsize=(10, 10))
-        ax = fig.gca(projection='3d')
+        ax = fig.add_subplot(projection='3d')
 
         num_times = self._inspector.num_times
         num_samples = self._inspector.num_samples
@@ -304,7 +304,7 @@ class L1bProductInspectorPlots:
                  log=log,
                  facecolor=color,
                  alpha=1,
-                 normed=True)
+                 density=True)
 
         plt.xlabel('Waveform')
         plt.ylabel('Counts')
-- 
2.43.0


From 99e7f53984bf720a8ae233e245a1bbfac0d2427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:38 +0000
Subject: [PATCH 38/53] fix: map of product locations with current Bokeh
 versions

---
 dedop/ui/compare.py | 4 ++--
 dedop/ui/inspect.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index ffc2c02..54d83be 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -9,7 +9,7 @@ import bokeh.plotting
 import matplotlib.pyplot as plt
 import pyproj
 from bokeh.models import ColumnDataSource, Circle
-from bokeh.tile_providers import STAMEN_TERRAIN
+from bokeh.tile_providers import STAMEN_TERRAIN, get_provider
 from netCDF4 import Dataset
 from numpy import ndarray
 
@@ -184,7 +184,7 @@ class L1bProductComparatorPlots:
                                     toolbar_location='above')
         fig.axis.visible = False
         # fig.add_tile(STAMEN_TONER)
-        fig.add_tile(STAMEN_TERRAIN)
+        fig.add_tile(get_provider(STAMEN_TERRAIN))
         fig.title.text = "L1B Footprints"
         # fig.title = 'L1B Footprint'
         fig.add_glyph(source1, circle1)
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index a81b6ca..3ed4285 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -10,7 +10,7 @@ import numpy as np
 import pyproj
 from IPython.display import display
 from bokeh.models import ColumnDataSource, Circle
-from bokeh.tile_providers import STAMEN_TERRAIN
+from bokeh.tile_providers import STAMEN_TERRAIN, get_provider
 from ipywidgets import interact, fixed
 from matplotlib.collections import LineCollection, PolyCollection
 # noinspection PyUnresolvedReferences
@@ -194,7 +194,7 @@ class L1bProductInspectorPlots:
         fig = bokeh.plotting.figure(x_range=(x.min(), x.max()), y_range=(y.min(), y.max()), toolbar_location='above')
         fig.axis.visible = False
         # fig.add_tile(STAMEN_TONER)
-        fig.add_tile(STAMEN_TERRAIN)
+        fig.add_tile(get_provider(STAMEN_TERRAIN))
         fig.title.text = 'L1B Locations'
         # fig.title = 'L1B Footprint'
         fig.add_glyph(source, circle)
-- 
2.43.0


From 716b98972175e94d03de43afad55e76b4205ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 39/53] fix: a console monitor starts every task without the
 message of the one before

---
 dedop/util/monitor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index 0afedf0..88b8ce0 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -237,6 +237,7 @@ class ConsoleMonitor(Monitor):
         self._label = label
         self._worked = 0.
         self._percentage = None
+        self._msg = None
         self._total_work = total_work
         self._old_ctrl_c_handler = signal.signal(signal.SIGINT, self._on_ctrl_c)
         # if self._stay_in_line:
-- 
2.43.0


From d08fd7864c24e7277d502437337e0e3e07f03d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:28 +0000
Subject: [PATCH 40/53] fix: angles just below the end of the antenna pattern
 are weighted

---
 dedop/proc/sar/algorithms/multilooking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 4f9f478..4fd46ba 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -205,7 +205,8 @@ class MultilookingAlgorithm(BaseAlgorithm):
             # angle is within range - interpolate value
             weight_index = (angle - self.chd.antenna_angles[0]) / self.chd.antenna_angles_spacing
 
-            index_left = int(weight_index)
+            # (rounding must not select an interval past the end of the pattern)
+            index_left = min(int(weight_index), len(self.chd.antenna_weights) - 2)
             index_right = index_left + 1
 
             weight_left = self.chd.antenna_weights[index_left]
-- 
2.43.0


From 39e02b168afadd21fcab5154dc3fede07d70f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:02 +0000
Subject: [PATCH 41/53] fix: bursts before a gap do not contribute to surfaces
 after it

---
 dedop/proc/sar/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index f8fe7fe..e61c922 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -296,6 +296,7 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    self._packets = []  # bursts before the gap do not contribute to surfaces after it
                     self.beam_angles_list_size_prev = -1
                     self.beam_angles_trend_prev = -1
                     sub_monitor.done()
-- 
2.43.0


From d540b07efc4db1cba13a5cf6d747eee12dcf3919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:18 +0000
Subject: [PATCH 42/53] fix: notebooks whose path contains braces can be
 launched

---
 dedop/ui/workspace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 74b8327..08392d3 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -569,7 +569,7 @@ class WorkspaceManager:
             elif shutil.which("xterm"):
                 launch_notebook_command_template = 'xterm  -T "{title}" -e \'{command}\''
             else:
-                launch_notebook_command_template = notebook_command_with_prefix
+                launch_notebook_command_template = '{command}'
                 launch_notebook_in_new_terminal = False
 
         command_file = ''
-- 
2.43.0


From 8510f3a15dbb0570ec7925034bd6934ef912365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:18 +0000
Subject: [PATCH 43/53] fix: launching a notebook in KDE does not need a shell
 that knows disown

---
 dedop/ui/workspace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 08392d3..63220bc 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -562,7 +562,7 @@ class WorkspaceManager:
                 launch_notebook_command_template = 'open -a Terminal "{command_file}"'
             elif shutil.which("konsole"):
                 # KDE
-                launch_notebook_command_template = 'konsole -p tabtitle="{title}" -e \'{command}\' & disown'
+                launch_notebook_command_template = 'konsole -p tabtitle="{title}" -e \'{command}\' &'
             elif shutil.which("gnome-terminal"):
                 # GNOME / Ubuntu
                 launch_notebook_command_template = 'gnome-terminal -e \'{command}\''
-- 
2.43.0


From cb05d52ed3ebb6fec7eb018c48b73bb369be4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 44/53] fix: sliders of im_line cover the variable shown from
 the start

---
 dedop/ui/inspect.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 3ed4285..a0cf28b 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -516,18 +516,22 @@ class L1bProductInspectorPlots:
                     value = z if z and z in valid_var_names else valid_var_names[0]
                     widget_var = widgets.Dropdown(options=valid_var_names, value=value, description='Var:')
 
-                    # noinspection PyUnusedLocal
-                    def on_widget_var_change(change):
-                        variable = self._inspector.dataset[widget_var.value]
-                        if xind is None:
-                            widget_xind.max = variable.shape[1] - 1
-                        if yind is None:
-                            widget_yind.max = variable.shape[0] - 1
-
-                    widget_var.observe(on_widget_var_change, names='value')
                 else:
                     widget_var = fixed(z)
 
+                # noinspection PyUnusedLocal
+                def on_widget_var_change(change=None):
+                    variable = self._inspector.dataset.variables.get(widget_var.value)
+                    if variable is None or len(variable.shape) != 2:
+                        return
+                    if xind is None:
+                        widget_xind.max = variable.shape[1] - 1
+                    if yind is None:
+                        widget_yind.max = variable.shape[0] - 1
+
+                on_widget_var_change()
+                widget_var.observe(on_widget_var_change, names='value')
+
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-- 
2.43.0


From 7f6b5bfb0a156e3ad5088fb2329d4ee685d3804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:09 +0000
Subject: [PATCH 45/53] fix: im_line draws in a notebook if nothing is left to
 choose

---
 dedop/ui/inspect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index a0cf28b..918c414 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -536,6 +536,8 @@ class L1bProductInspectorPlots:
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
                          zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
+            else:
+                self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
         else:
             if not z:
                 raise ValueError('z_name must be given')
-- 
2.43.0


From 366d403ba12e49223b25689b77077fd683fff6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:31 +0000
Subject: [PATCH 46/53] fix: another dimension can be chosen for line plots in
 a notebook

---
 dedop/ui/inspect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 918c414..1efa8ce 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -426,7 +426,7 @@ class L1bProductInspectorPlots:
                     def on_widget_dim_change(change):
                         nonlocal widget_x, widget_y
                         widget_y.options = sorted(list(self._inspector.dim_names_to_var_names[(widget_dim.value,)]))
-                        widget_x.options = ['index'] + widget_y.options
+                        widget_x.options = ['index'] + list(widget_y.options)
                         widget_y.value = widget_y.options[0]
                         widget_x.value = widget_x.options[0]
 
-- 
2.43.0


From 7e051acdd80434cb088d3e80c8fcd972bef83d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:31 +0000
Subject: [PATCH 47/53] fix: only variables of the dimension of x are offered
 for y from the start

---
 dedop/ui/inspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 1efa8ce..d8ab590 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -447,8 +447,6 @@ class L1bProductInspectorPlots:
                     widget_y_options = valid_var_names
                     widget_x = widgets.Dropdown(options=widget_x_options, value=widget_x_options[0], description='X:')
                     widget_y = widgets.Dropdown(options=widget_y_options, value=widget_y_options[0], description='Y:')
-                    widget_x.value = x if x and x in widget_x_options else widget_x_options[0]
-                    widget_y.value = y if y and y in widget_y_options else widget_y_options[0]
 
                     # noinspection PyUnusedLocal
                     def on_widget_x_change(change):
@@ -461,6 +459,8 @@ class L1bProductInspectorPlots:
                         widget_y.value = widget_y.options[0]
 
                     widget_x.observe(on_widget_x_change, names='value')
+                    widget_x.value = x if x and x in widget_x_options else widget_x_options[0]
+                    widget_y.value = y if y and y in widget_y.options else widget_y.options[0]
                     interact(self._plot_line, x_name=widget_x, y_name=widget_y)
 
             else:
-- 
2.43.0


From 3cc97e40ed33940c505b410e033ce12f73c2a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:03 +0000
Subject: [PATCH 48/53] fix: functions in a configuration file can use the
 names defined in it

---
 dedop/util/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedop/util/config.py b/dedop/util/config.py
index 7f472b4..da9b6ee 100644
--- a/dedop/util/config.py
+++ b/dedop/util/config.py
@@ -78,8 +78,9 @@ def read_python_config(file):
     try:
         config = {}
         code = compile(fp.read(), file if isinstance(file, str) else '<NO FILE>', 'exec')
-        exec(code, None, config)
-        return config
+        exec(code, config)
+        # functions of the file still look up their names in "config", so return a copy
+        return {name: value for name, value in config.items() if name != '__builtins__'}
     finally:
         if fp is not file:
             fp.close()
-- 
2.43.0


From 3b60bc60da61c16b533f0255bd566a5c830a727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:03 +0000
Subject: [PATCH 49/53] fix: the pitch of the satellite is read in degrees like
 the other angles

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 23fb5a2..3cf9ee2 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -174,7 +174,7 @@ class L1ADataset(InputDataset):
         # construct waveform
         waveform = (self.get_value(L1AVariables.i_meas_ku_l1a_echo_sar_ku, index) +
                     1j * self.get_value(L1AVariables.q_meas_ku_l1a_echo_sar_ku, index)) / scale_factor
-        zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)) *\
+        zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))) *\
                self.get_value(L1AVariables.cog_cor_l1a_echo_sar_ku, index)
         range = self.get_value(L1AVariables.range_ku_l1a_echo_sar_ku, index) + zcog
 
-- 
2.43.0


From a88e8a2d579c5f732a151d683f2697ceeac7c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:52 +0000
Subject: [PATCH 50/53] fix: the progress of a run with gaps does not exceed
 its total

---
 dedop/proc/sar/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index e61c922..f63db4c 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -246,7 +246,7 @@ class L1BProcessor(BaseProcessor):
                         gap_processing = True
                         gap_found = True
                         prev_time = None
-                        sub_monitor = monitor.child(1)
+                        sub_monitor = monitor.child(0)  # the work is to read the records
                         sub_monitor.start("processing gap", len(self.surf_locs))
 
             elif sub_monitor is not None:
-- 
2.43.0


From 42eac82f86bdd833fb572f7f6f26c0ce5c55e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:07 +0000
Subject: [PATCH 51/53] fix: a notebook that cannot be created is reported

---
 dedop/ui/workspace_manager.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 63220bc..e16f6d5 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -505,12 +505,13 @@ class WorkspaceManager:
                                        notebook_basename: str,
                                        notebook_json: str,
                                        title: str):
+        self._assert_workspace_exists(workspace_name)
         notebook_dir = self.get_workspace_path(workspace_name, 'notebooks')
         if not os.path.exists(notebook_dir):
             try:
                 os.mkdir(notebook_dir)
             except (IOError, OSError) as e:
-                return 60, str(e)
+                raise WorkspaceError(str(e))
 
         index = 0
         while True:
@@ -521,9 +522,12 @@ class WorkspaceManager:
                 break
 
         # noinspection PyUnboundLocalVariable
-        with open(notebook_path, 'w') as fp:
-            fp.write(notebook_json)
-            print('wrote notebook file "%s"' % notebook_path)
+        try:
+            with open(notebook_path, 'w') as fp:
+                fp.write(notebook_json)
+        except (IOError, OSError) as e:
+            raise WorkspaceError(str(e))
+        print('wrote notebook file "%s"' % notebook_path)
 
         self.launch_notebook(title, notebook_dir, notebook_path=notebook_path)
 
-- 
2.43.0


From 311675d28d2fdcb7590126d6ed982148ff08291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 52/53] fix: the dummy processor can raise its error

Inputs named ERR make it fail, but the exception it raises was not imported (NameError).
---
 dedop/model/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/model/processor.py b/dedop/model/processor.py
index 7da95b5..d690d01 100644
--- a/dedop/model/processor.py
+++ b/dedop/model/processor.py
@@ -2,6 +2,7 @@ import os.path
 import time
 from abc import ABCMeta, abstractmethod
 
+from dedop.model.exception import ProcessorException
 from dedop.util.monitor import Monitor
 
 
-- 
2.43.0


From 66dbe791f444d292d29094c60f23373c8be16006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 53/53] fix: a file that cannot be written keeps its content

Saving a configuration, or setting the current workspace or configuration,
emptied the file before the new content could be written; without space on the
disk the old content was lost, and saving ended in an OSError.
---
 dedop/ui/workspace_manager.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index e16f6d5..a04cf9b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -38,9 +38,19 @@ def _readline(file_path: str) -> str or None:
 
 
 def _writeline(file_path: str, text: str):
+    # the old content is kept until the new one is complete
+    file_path = os.path.realpath(file_path)
+    temp_path = file_path + '.new'
     try:
-        with open(file_path, 'w') as fp:
-            fp.write(text)
+        try:
+            with open(temp_path, 'w') as fp:
+                fp.write(text)
+            if os.path.exists(file_path):
+                shutil.copymode(file_path, temp_path)
+            os.replace(temp_path, file_path)
+        finally:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
     except (IOError, OSError) as e:
         raise WorkspaceError(str(e))
 
@@ -272,10 +282,9 @@ class WorkspaceManager:
 
     def write_config_file(self, workspace_name: str, config_name: str, config_file_key: str, configuration: str):
         file_path = self.get_config_file(workspace_name, config_name, config_file_key)
-        with open(file_path, 'r+') as f:
-            f.seek(0)
-            f.write(configuration)
-            f.truncate()
+        self._assert_workspace_exists(workspace_name)
+        self._assert_config_exists(workspace_name, config_name)
+        _writeline(file_path, configuration)
 
     def get_config_names(self, workspace_name: str) -> List[str]:
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0

