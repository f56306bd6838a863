From 5d7dcddb08ac6560d7037cfba90feb12c7ed5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 01/46] fix: run_simulation without a processor lost samples
 when sim_buffer < 4

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..f6084a9 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -286,7 +286,7 @@ class Simulator:
 
         # the else value (which happens when there is no processor) can be changed to just about anything. Could be set to 1, or 
         # set to a high value that can be used to speed up. 
-        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else self.sim_info.sim_buffer // 4  
+        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else max(1, self.sim_info.sim_buffer // 4)
 
         print("SIM START")
         self.n_tot = 0
-- 
2.43.0


From 96a749908031b3821e3a8769cee13beb2ac3028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 02/46] fix: initial microphone sample was written to the whole
 pre-buffer

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index f6084a9..44e29a6 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From be532534669baf25ae8db59044bb16dd49a8ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 03/46] fix: get_values_from_selection returned all values when
 none were before max_idx

---
 src/aspsim/diagnostics/core.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..f8dc66e 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -527,11 +527,7 @@ def get_values_from_selection(signal, time_indices, max_idx):
         assert signal.shape[-1] == 0
         return signal, time_indices
 
-    above_max_idx = np.argmax(time_indices >= max_idx)
-    if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
-            above_max_idx = len(time_indices)
-
-    time_indices = time_indices[:above_max_idx]
-    signal = signal[:,:above_max_idx]
+    below_max_idx = time_indices < max_idx
+    time_indices = time_indices[below_max_idx]
+    signal = signal[:,below_max_idx]
     return signal, time_indices
-- 
2.43.0


From ed47d8a0a04c04a94734231d8c78afdb270c82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 04/46] fix: exports after the last recorded sample of a
 diagnostic were never written

---
 src/aspsim/diagnostics/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index f8dc66e..f518ac5 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -55,6 +55,7 @@ class Logger:
         self.diagnostics = {}
 
         self.upcoming_export = 0
+        self.saved_global_idx = 0
 
     def __contains__(self, key):
         return key in self.diagnostics
@@ -81,6 +82,7 @@ class Logger:
         self.diagnostics[name] = diagnostic
 
     def save_data(self, processors, sig, idx, global_idx, last_block_on_chunk):
+        self.saved_global_idx = global_idx
         for diag_name, diag in self.diagnostics.items():
             start, end = diag.next_save()
             num_samples = end - start
@@ -109,7 +111,11 @@ class Logger:
     def export_this_idx(self):
         diag_names = []
         for dg_name, dg in self.diagnostics.items():
-            if dg.next_export() <= dg.save_at.saved_until: # all relevant data have been saved
+            next_export = dg.next_export()
+            # all relevant data have been saved, either because it was recorded up to the export index,
+            # or because the export index is reached and nothing more is to be recorded before it
+            nothing_left_to_save = next_export <= self.saved_global_idx and next_export <= dg.next_save()[0]
+            if next_export <= dg.save_at.saved_until or nothing_left_to_save:
                 assert dg_name not in diag_names
                 diag_names.append(dg_name)
         return diag_names
-- 
2.43.0


From 9720e09d03c7987839e304f7eb8acc41f5810e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 05/46] fix: Sequence end modes 'zeros' (missing) and 'raise'
 (raised one sample early, ignored amp_factor)

---
 src/aspsim/signal/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..c0ae6e0 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -80,14 +80,15 @@ class Sequence(Source):
                 self.current_sample = (self.current_sample + block_len) % self.tot_samples
                 i += block_len
         elif self.end_mode == "zeros":
-            raise NotImplementedError
+            block_len = min(num_samples, self.tot_samples - self.current_sample)
+            sig[:,:block_len] = self.audio[:,self.current_sample:self.current_sample+block_len]
+            self.current_sample += block_len
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
             sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From 83c3f82ba5751cc0bea8c76cb4b9bbc936b4d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 06/46] fix: MLS ignored the start state

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index c0ae6e0..8eff971 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -403,7 +403,7 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
-- 
2.43.0


From 391ff959e986e3204e2218a8311253205dc1259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 07/46] fix: Counter source returned samples without a channel
 axis

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 8eff971..9567db8 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -162,7 +162,7 @@ class Counter(Source):
         self.metadata["start number"] = start_number 
 
     def get_samples(self, num_samples):
-        values = np.arange(self.current_number, self.current_number+num_samples)
+        values = np.arange(self.current_number, self.current_number+num_samples)[None,:]
         self.current_number += num_samples
         return values
 
-- 
2.43.0


From fbbc010ac6f30a9b9f652cdfecef2b1c30b38347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 08/46] fix: LinearTrajectory constant_time counted one segment
 too many and rested at the end of each period

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..262617b 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments+1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From fbe92ba82bbe680467e8691d9730ea1dcd6fff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 09/46] fix: CircularTrajectory.plot failed for periods shorter
 than 1000 samples

---
 src/aspsim/room/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index 262617b..e94a53a 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -252,7 +252,7 @@ class CircularTrajectory(Trajectory):
         
         approx_num_points = 1000
         max_samples = self.samplerate*max(self.radial_period, self.angle_period)
-        samples_per_point = max_samples // approx_num_points
+        samples_per_point = max(1, max_samples // approx_num_points)
         t = np.arange(0, max_samples, samples_per_point)
         num_points = t.shape[0]
 
-- 
2.43.0


From c9949003a28746c88fccd7da08cfa8d7aa7aea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 10/46] fix: Rectangle and Disc in 3D reported no point inside
 as soon as one point was outside the plane

---
 src/aspsim/room/region.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 277f53a..c6945fd 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -201,13 +201,14 @@ class Rectangle(Region):
             True if the coordinate is within the region, False otherwise.
         """
         if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
+            is_in_plane = np.isclose(coordinates[:,2], self.center[2])
+        else:
+            is_in_plane = True
 
         is_in_coord_wise = np.logical_and(coordinates[:,:2] >= self.low_lim[None,:]-padding,
                                         coordinates[:,:2] <= self.high_lim[None,:]+padding)
         is_in = np.logical_and(is_in_coord_wise[:,0], is_in_coord_wise[:,1])
-        return is_in
+        return np.logical_and(is_in, is_in_plane)
 
     def equally_spaced_points(self):
         """Returns a grid of points within the region
@@ -271,13 +272,14 @@ class Disc(Region):
 
     def is_in_region(self, coordinates):
         if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
+            is_in_plane = np.isclose(coordinates[:,2], self.center[2])
+        else:
+            is_in_plane = True
 
         centered_coords = coordinates[:,:2] - self.center[None,:2]
         norm_coords = np.sqrt(np.sum(np.square(centered_coords), axis=-1))
         is_in = norm_coords <= self.radius
-        return is_in
+        return np.logical_and(is_in, is_in_plane)
 
     def equally_spaced_points(self):
         point_dist = self.point_spacing
-- 
2.43.0


From bfcd63010c06fe59abd2b1eedc24a2b665e3505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 11/46] fix: CombinedRegion.is_in_region always raised
 TypeError

---
 src/aspsim/room/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index c6945fd..5b1feb4 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -48,7 +48,7 @@ class CombinedRegion(Region):
         return False
 
     def is_in_region(self, coordinate):
-        return np.logical_or([reg.is_in_region(coordinate) for reg in self.regions])
+        return np.any([reg.is_in_region(coordinate) for reg in self.regions], axis=0)
 
     def equally_spaced_points(self):
         return np.concatenate([reg.equally_spaced_points() for reg in self.regions], axis=0)
-- 
2.43.0


From 7e718b19b2dcf633010672a4789e6a4030d78dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 12/46] fix: CombinedRegion.sample_points gave each region the
 share of another region

---
 src/aspsim/room/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 5b1feb4..c604b01 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -57,8 +57,8 @@ class CombinedRegion(Region):
         vol_ratio = self.volumes / self.volume
         sample_limit = np.cumsum(vol_ratio)
         test_val = self.rng.uniform(0,1,num_points)
-        sample_result = test_val[None,:] < sample_limit[:,None]
-        reg_idx = np.sum(sample_result, axis=0) - 1
+        sample_result = test_val[None,:] >= sample_limit[:-1,None]
+        reg_idx = np.sum(sample_result, axis=0)
         unique, counts = np.unique(reg_idx, return_counts=True)
         sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                         for idx, num in zip(unique, counts)])
-- 
2.43.0


From 2bfc7d061402c75cdcd307a81b110c52ea27c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 13/46] fix: equidistant_rectangle lost a point when offset is
 1

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index cb01379..277216f 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -181,7 +181,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     circumference = 2 * np.sum(side_lengths)
     pos_on_circumference = np.linspace(0, circumference, num_points, endpoint = False)
     mic_distance = circumference / num_points
-    pos_on_circumference += offset * mic_distance
+    pos_on_circumference = np.mod(pos_on_circumference + offset * mic_distance, circumference)
 
     x_extent = np.array([-side_lengths[0], side_lengths[0]]) / 2
     y_extent = np.array([-side_lengths[1], side_lengths[1]]) / 2
-- 
2.43.0


From 0025d66ff22a780f3c1c779a97d5a62c053b5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 14/46] fix: equidistant_rectangle did not alternate correctly
 on the flipped third side

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 277216f..5502aa6 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -209,7 +209,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     pos_side = -pos_side
     pos_fixed = np.full(num_points, fixed_side[2])
     pos_fixed[np.arange(num_points) % 2 == 1] -= extra_side_lengths[1] / 2
-    pos_fixed = pos_fixed[idxs[2]]
+    pos_fixed = np.flip(pos_fixed[idxs[2]])
     points.append(np.stack([pos_side, pos_fixed], axis=-1))
 
     pos_side = pos_on_circumference[idxs[3]] - breakpoints[3] - y_extent[1]
-- 
2.43.0


From a82dafe01404451eaad57e6931932d4471854eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 15/46] fix: sunflower_pattern ignored offset_angle

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 5502aa6..bdb52cc 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -295,7 +295,7 @@ def sunflower_pattern(N, radius, offset_angle=0):
     # golden ratio
     k = np.arange(1, N + 1)
     r = radius * np.sqrt(k - (1 / 2)) / np.sqrt(N - 1 / 2)
-    theta = k * 2 * np.pi / phisq
+    theta = k * 2 * np.pi / phisq + offset_angle
     [x, y] = pol2cart(r, theta)
     return np.stack((x, y)).T
 
-- 
2.43.0


From 62341b6c50cc66bb00062aac366b87429f443d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 16/46] fix: equidistant_rectangle lost a point when rounding
 put it beyond the last side

---
 src/aspsim/room/generatepoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index bdb52cc..e9a0a28 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -189,7 +189,8 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
 
     points = np.zeros((num_points, 2))
     breakpoints = np.cumsum(np.array([0, side_lengths[0], side_lengths[1], side_lengths[0], side_lengths[1]]))
-    idxs = [np.logical_and(breakpoints[i] <= pos_on_circumference, pos_on_circumference < breakpoints[i+1]) for i in range(4)]
+    idxs = [np.logical_and(breakpoints[i] <= pos_on_circumference, pos_on_circumference < breakpoints[i+1]) for i in range(3)]
+    idxs.append(breakpoints[3] <= pos_on_circumference) # no upper limit, as the sum of the side lengths can be rounded to less than the circumference
     
     points = []
     pos_side = pos_on_circumference[idxs[0]] - breakpoints[0] - x_extent[1]
-- 
2.43.0


From 4ab8ae71ba96e4d98569a5511b8b8b165f6b96ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 17/46] fix: PhaseCounter never left the last finite phase

---
 src/aspsim/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..452790f 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -59,6 +59,9 @@ class PhaseCounter:
 
         self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
         self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        if None in self.start_idxs: # after the last phase, if it is finite
+            self._phase_names.append(None)
+            self._start_idxs.append(self.start_idxs[None])
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From 43516c4a1324e143804f3ad305af877823c5c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 18/46] fix: a path set by the user to or from a moving array
 stopped the simulation with an AssertionError

---
 src/aspsim/array.py           | 4 ++--
 src/aspsim/saveloadsession.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..ed8ed2c 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -304,12 +304,12 @@ class ArrayCollection():
         for ar_name in changed_arrays:
             if self.arrays[ar_name].is_mic:
                 for src in self.sources():
-                    if not src.name in already_updated:
+                    if not src.name in already_updated and self.path_type[src.name][ar_name] != "modified":
                         self.update_path(src, self.arrays[ar_name])
                 self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
-                    if not mic.name in already_updated:
+                    if not mic.name in already_updated and self.path_type[ar_name][mic.name] != "modified":
                         self.update_path(self.arrays[ar_name], mic)
             else:
                 raise ValueError("Array must be mic or source")
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..21e5311 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -33,6 +33,11 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
     loaded_sim_info = configutil.load_from_file(session_path_to_load)
 
+    # Paths of moving arrays must be generated again, as they otherwise would be considered set by the user
+    for src, mic in loaded_arrays.mic_src_combos():
+        if (src.dynamic or mic.dynamic) and loaded_arrays.path_type[src.name].get(mic.name) != "modified":
+            loaded_arrays.paths[src.name].pop(mic.name, None)
+
     if new_folder_path is not None:
         copy_sim_metadata(session_path_to_load, new_folder_path)
         loaded_sim_info.save_to_file(new_folder_path)
-- 
2.43.0


From 2e4cbeb818caf499fa2a00faf72e3cf9dd7c50f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 19/46] fix: a moving microphone array without any source
 stopped the simulation

---
 src/aspsim/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index ed8ed2c..45906dd 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -306,7 +306,7 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated and self.path_type[src.name][ar_name] != "modified":
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                    self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated and self.path_type[ar_name][mic.name] != "modified":
-- 
2.43.0


From e169c02fb5f3edf9e54e9efe66a5040a67c36e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 20/46] fix: comparing with a stored session failed if a path
 set by the user had another length

---
 src/aspsim/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 45906dd..415676b 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -450,6 +450,8 @@ def prototype_equals(prototype, initialized):
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
         if prototype.path_type[src.name][mic.name] == "modified":
+            if prototype.paths[src.name][mic.name].shape != initialized.paths[src.name][mic.name].shape:
+                return False
             if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
                 return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
-- 
2.43.0


From 5e0ca19576407811823e28878c126012d48fc1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 21/46] fix: a stored session was used although the highpass
 cutoff or the length of random paths differed

---
 src/aspsim/configutil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..9932ce0 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -63,7 +63,8 @@ def equal_audio(info1, info2, path_types):
     same_audio =  info1.samplerate == info2.samplerate and \
                 info1.c == info2.c and \
                 info1.spatial_dims == info2.spatial_dims and \
-                info1.reverb == info2.reverb
+                info1.reverb == info2.reverb and \
+                info1.highpass_cutoff == info2.highpass_cutoff
     
     if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
         same_audio = same_audio and \
@@ -72,7 +73,9 @@ def equal_audio(info1, info2, path_types):
             info1.rt60 == info2.rt60 and \
             info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
+
+    if any("random" in src_path_types.values() for src_path_types in path_types.values()):
+        same_audio = same_audio and info1.max_room_ir_length == info2.max_room_ir_length
     return same_audio
 
-- 
2.43.0


From 5d72091367949509bd8153d3c269925314816d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 22/46] fix: a loaded session replaced the trajectories, groups
 and settings of the current arrays

---
 src/aspsim/saveloadsession.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 21e5311..39c7935 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -4,6 +4,7 @@ import json
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
 import aspsim.array as ar
+import aspsim.room.roomimpulseresponse as rir
 
 
 
@@ -24,10 +25,14 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    # Only the paths are taken from the stored session. The properties that do not 
+    # affect the initial paths, such as trajectories and sources, might be different.
+    for src, mic in chosen_arrays.mic_src_combos():
+        chosen_arrays.paths[src.name][mic.name] = loaded_arrays.paths[src.name][mic.name]
+    chosen_arrays.path_info = loaded_arrays.path_info
+    chosen_arrays.sim_info = chosen_sim_info
+    chosen_arrays.path_generator = rir.PathGenerator(chosen_sim_info, chosen_arrays)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 9c9122ea025ae3b52072890cf18a86968826b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 23/46] fix: load_from_path failed with a figure folder, as no
 session has simulation metadata

---
 src/aspsim/saveloadsession.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 39c7935..20f5563 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -49,9 +49,10 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     return loaded_sim_info, loaded_arrays
 
 def copy_sim_metadata(from_folder, to_folder):
-    shutil.copy(
-        from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
-    )
+    if from_folder.joinpath("metadata_sim.json").exists(): # not written by all sessions
+        shutil.copy(
+            from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
+        )
 
 
 class MatchingSessionNotFoundError(ValueError): pass
-- 
2.43.0


From 2b262aa17bb72bcd435c4f037153843da8c09c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 24/46] fix: changing the setup changed simulators already
 created from it

---
 src/aspsim/simulator.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 44e29a6..001c535 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -182,26 +182,27 @@ class SimulatorSetup:
         """
         assert not self.arrays.empty()
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        sim_info = copy.deepcopy(self.sim_info)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
-        if self.sim_info.auto_save_load and self.session_folder is not None:
+        if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From 061a212325abd194c2d57f5091bad45d54161429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 25/46] fix: keep the exact paths set by the user when a
 session is loaded

---
 src/aspsim/saveloadsession.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 20f5563..94b1db3 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -28,7 +28,8 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     # Only the paths are taken from the stored session. The properties that do not 
     # affect the initial paths, such as trajectories and sources, might be different.
     for src, mic in chosen_arrays.mic_src_combos():
-        chosen_arrays.paths[src.name][mic.name] = loaded_arrays.paths[src.name][mic.name]
+        if chosen_arrays.path_type[src.name][mic.name] != "modified":
+            chosen_arrays.paths[src.name][mic.name] = loaded_arrays.paths[src.name][mic.name]
     chosen_arrays.path_info = loaded_arrays.path_info
     chosen_arrays.sim_info = chosen_sim_info
     chosen_arrays.path_generator = rir.PathGenerator(chosen_sim_info, chosen_arrays)
-- 
2.43.0


From 77d96a43f2ae9f8c4d33d9a4df61f54759297a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:36 +0000
Subject: [PATCH 26/46] fix: a configuration with reverb 'random' could be
 saved but not loaded

---
 src/aspsim/configutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 9932ce0..76c3322 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -37,7 +37,7 @@ class SimulatorInfo:
         assert len(self.room_size) == self.spatial_dims
         assert len(self.room_center) == self.spatial_dims
 
-        assert self.reverb in ("none", "direct", "ism")
+        assert self.reverb in ("none", "direct", "random", "ism")
 
 
     def save_to_file(self, path):
-- 
2.43.0


From 2f967f0c727297a8359428145cc7a89b0b330fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 27/46] fix: keys containing '.', '[' or ']' selected the wrong
 value or failed in attritemgetter

---
 src/aspsim/diagnostics/core.py | 36 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index f518ac5..1a0dd65 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -470,21 +470,31 @@ def attritemgetter(name):
     
     """
     assert name[0] != "["
-    attributes = name.replace("]", "")
-    attributes = attributes.split(".")
-    attributes = [attr.split("[") for attr in attributes]
+    accesses = []
+    pos = 0
+    while pos < len(name):
+        if name.startswith("['", pos):
+            end = name.find("']", pos + 2)
+            if end == -1:
+                raise ValueError("Unmatched apostrophes")
+            accesses.append((True, name[pos+2:end]))
+            pos = end + 2
+        elif name[pos] == "[":
+            end = name.index("]", pos)
+            accesses.append((True, int(name[pos+1:end])))
+            pos = end + 1
+        else:
+            if name[pos] == ".":
+                pos += 1
+            end = pos
+            while end < len(name) and name[end] not in (".", "["):
+                end += 1
+            accesses.append((False, name[pos:end]))
+            pos = end
 
     def getter (obj):
-        for sub_list in attributes:
-            obj = getattr(obj, sub_list[0])
-            for item in sub_list[1:]:
-                if item[0] == "'":
-                    if not item[-1] == "'":
-                        raise ValueError("Unmatched apostrophes")
-                    item = item.replace("'", "")
-                else:
-                    item = int(item)
-                obj = obj[item]
+        for is_item, key in accesses:
+            obj = obj[key] if is_item else getattr(obj, key)
         return obj
     return getter
 
-- 
2.43.0


From 9f3c7ebf8a44ee6402386642336c9b4315249930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:36 +0000
Subject: [PATCH 28/46] fix: get_multiple_unique_folder_names returned existing
 folders if there was a gap in the numbering

---
 src/aspsim/fileutilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 67f1878..c3d1a06 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -48,8 +48,12 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     base_name = sub_folder_name[:-start_idx_len]
 
     folder_names = []
-    for i in range(num_names):
-        folder_names.append(base_folder.joinpath(base_name + str(i + start_idx)))
+    idx = start_idx
+    while len(folder_names) < num_names:
+        folder_name = base_folder.joinpath(base_name + str(idx))
+        if not folder_name.exists():
+            folder_names.append(folder_name)
+        idx += 1
 
     return folder_names
 
-- 
2.43.0


From 01c8872871789b2f8c48f85ceaaff5624fa76fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:36 +0000
Subject: [PATCH 29/46] fix: get_highest_numbered_file returned a file that
 does not exist if the number was written as e.g. 007

---
 src/aspsim/fileutilities.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index c3d1a06..d79f0d4 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -60,6 +60,7 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
 
 def get_highest_numbered_file(folder, prefix, suffix):
     highest_file_idx = -1
+    highest_file = None
     for file_path in folder.iterdir():
         if file_path.name.startswith(prefix) and file_path.name.endswith(suffix):
             summary_idx = file_path.name[len(prefix) : len(file_path.name) - len(suffix)]
@@ -67,14 +68,11 @@ def get_highest_numbered_file(folder, prefix, suffix):
                 summary_idx = int(summary_idx)
                 if summary_idx > highest_file_idx:
                     highest_file_idx = summary_idx
+                    highest_file = file_path
             except ValueError:
                 print("Warning: check prefix and suffix")
 
-    if highest_file_idx == -1:
-        return None
-    else:
-        fname = prefix + str(highest_file_idx) + suffix
-        return folder.joinpath(fname)
+    return highest_file
 
 
 def find_all_earlier_files(
-- 
2.43.0


From 863bd7fbbac4199fe9c4be6efb214d609b37d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 30/46] fix: StatePower swapped its save frequency and export
 frequency

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..7fbb78e 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From d0d5fe14a88506cb8342443ed5d9d73388a47902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 31/46] fix: SoundfieldPower failed as processors have no
 common signals

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 7fbb78e..29a5ef2 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
-- 
2.43.0


From c465b94cc275845e65304cd931f70c62e8da7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 32/46] fix: SignalPowerRatio restarted its smoothing with each
 chunk

---
 src/aspsim/diagnostics/diagnostics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 29a5ef2..65da0b6 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,13 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,sim_info.output_smoothing)) / sim_info.output_smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,sim_info.output_smoothing)) / sim_info.output_smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From 06e3a0635cff117537de484be7a73d358cfcdfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 33/46] fix: RecordState failed for matrix states (state_dim a
 tuple)

---
 src/aspsim/diagnostics/core.py        | 7 +++----
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 1a0dd65..419a617 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -530,14 +530,13 @@ def get_values_from_selection(signal, time_indices, max_idx):
     max_idx is exlusive
     """
     signal = np.atleast_2d(signal)
-    assert signal.ndim == 2
-    nan_filter = np.logical_not(np.isnan(signal))
+    nan_filter = np.logical_not(np.isnan(signal)).reshape(-1, signal.shape[-1])
     assert np.isclose(nan_filter, nan_filter[0, :]).all()
     nan_filter = nan_filter[0, :]
 
     assert time_indices.shape[-1] == signal.shape[-1]
     time_indices = time_indices[nan_filter]
-    signal = signal[:,nan_filter]
+    signal = signal[...,nan_filter]
 
     if len(time_indices) == 0:
         assert signal.shape[-1] == 0
@@ -545,5 +544,5 @@ def get_values_from_selection(signal, time_indices, max_idx):
 
     below_max_idx = time_indices < max_idx
     time_indices = time_indices[below_max_idx]
-    signal = signal[:,below_max_idx]
+    signal = signal[...,below_max_idx]
     return signal, time_indices
diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 65da0b6..d1c246f 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From ced4555f21a2be5be06da4cfdeb3e451e3b24ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 34/46] fix: npz, text and audio exports stopped the simulation
 if there is no figure folder

---
 src/aspsim/diagnostics/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index f3b3f09..72c2542 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -204,6 +204,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
     """Keeps only the latest save.
     Assumes that the data in previous
     saves is present in the current data"""
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -219,6 +221,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def txt(name, diags, time_idx, folder, preprocess, print_method="pdf"):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -316,6 +320,8 @@ def matshow(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=None):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes the signal even if time indices are provided
-- 
2.43.0


From d9af1fa3fc520bda35a6f64b4279df3a3dae3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 35/46] fix: paths of moving arrays used the speed of sound and
 delay of the simulator created last

---
 src/aspsim/room/roomimpulseresponse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..85922aa 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -74,8 +74,6 @@ class PathGenerator:
             The simulation info object
         
         """
-        pra.constants.set("c", sim_info.c)
-
         room_center = np.array(sim_info.room_center)
         room_size = np.array(sim_info.room_size)
 
@@ -93,11 +91,10 @@ class PathGenerator:
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-        frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
-        pra.constants.set("frac_delay_length",frac_dly_len)
+        self.frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
         #if verbose:
-        if frac_dly_len < 20:
-            print("WARNING: fractional delay length: ",frac_dly_len)
+        if self.frac_dly_len < 20:
+            print("WARNING: fractional delay length: ",self.frac_dly_len)
 
 
 
@@ -131,6 +128,9 @@ class PathGenerator:
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
             if sim_info.spatial_dims == 3:
+                # global settings, which can have been changed by the PathGenerator of another simulation
+                pra.constants.set("c", sim_info.c)
+                pra.constants.set("frac_delay_length", self.frac_dly_len)
                 path = ir_room_image_source_3d(
                         src.pos, 
                         mic.pos, 
-- 
2.43.0


From 1190fb07bcd043c3aeedee849c4129820a19e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 36/46] fix: image-source responses were nan without extra
 delay

---
 src/aspsim/room/roomimpulseresponse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index 85922aa..e8af7fe 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -90,7 +90,9 @@ class PathGenerator:
             shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
-        self.min_dly = 0
+        # An interpolation filter of a single sample gives nan. Therefore the shortest filter is 3 samples
+        # long, where the first sample of the responses, which is due to the filter, is removed
+        self.min_dly = 1 if sim_info.extra_delay == 0 else 0
         self.frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
         #if verbose:
         if self.frac_dly_len < 20:
@@ -323,7 +325,7 @@ def ir_room_image_source_3d(
         room.compute_rir()
         for to_idx, receiver in enumerate(room.rir):
             for from_idx, single_rir in enumerate(receiver):
-                ir_len_to_use = np.min((len(single_rir), ir_len)) - min_dly
+                ir_len_to_use = np.min((len(single_rir) - min_dly, ir_len))
                 ir[from_idx, num_computed + to_idx, :ir_len_to_use] = np.array(single_rir)[
                     min_dly:ir_len_to_use+min_dly
                 ]
-- 
2.43.0


From d2925764917939bf518bd7b8537418e3bd8e961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 37/46] Revert "fix: image-source responses were nan without
 extra delay"

This reverts commit 1190fb07bcd043c3aeedee849c4129820a19e45a.
---
 src/aspsim/room/roomimpulseresponse.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index e8af7fe..85922aa 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -90,9 +90,7 @@ class PathGenerator:
             shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
-        # An interpolation filter of a single sample gives nan. Therefore the shortest filter is 3 samples
-        # long, where the first sample of the responses, which is due to the filter, is removed
-        self.min_dly = 1 if sim_info.extra_delay == 0 else 0
+        self.min_dly = 0
         self.frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
         #if verbose:
         if self.frac_dly_len < 20:
@@ -325,7 +323,7 @@ def ir_room_image_source_3d(
         room.compute_rir()
         for to_idx, receiver in enumerate(room.rir):
             for from_idx, single_rir in enumerate(receiver):
-                ir_len_to_use = np.min((len(single_rir) - min_dly, ir_len))
+                ir_len_to_use = np.min((len(single_rir), ir_len)) - min_dly
                 ir[from_idx, num_computed + to_idx, :ir_len_to_use] = np.array(single_rir)[
                     min_dly:ir_len_to_use+min_dly
                 ]
-- 
2.43.0


From 13b77501ce14b24bd54d30703b400b4ac45fe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 38/46] fix: band-limited noise of several channels does not
 depend on the request sizes

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 9567db8..4828e16 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -233,7 +233,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = (self.amplitude * self.rng.normal(size=(num_samples, self.num_channels))).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
-- 
2.43.0


From 68b5e4347817d749290c4a71392ad789e2dacc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 39/46] fix: autocorrelation source of several channels does
 not depend on the request sizes

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 4828e16..ed94445 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -382,7 +382,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From 4feb08f5b562c4552a976dd2c58b1c726972d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 40/46] fix: sine source takes one power per channel

---
 src/aspsim/signal/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index ed94445..7714b5c 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -124,6 +124,8 @@ class SineSource(Source):
         super().__init__(num_channels, rng)
         self.power = power
         self.amplitude = np.sqrt(2 * self.power)
+        if isinstance(self.amplitude, np.ndarray) and self.amplitude.ndim == 1:
+            self.amplitude = self.amplitude[:, None]
         # p = a^2 / 2
         # 2p = a^2
         # sqrt(2p) = a
-- 
2.43.0


From fedbee7b7f27eba94bbd7e9a5c8f2dd28e1b9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 41/46] fix: Gold sequences of order above 11 used a helper
 that does not exist

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 7714b5c..0c7cdde 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -453,7 +453,7 @@ class GoldSequenceSource(Source):
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
             seq1 = mls1.get_samples(2**order - 1)
-            k = util.getSmallestCoprime(order)
+            k = coreutil.get_smallest_coprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
             seq2 = np.copy(seq1[decimatedIndices])
-- 
2.43.0


From fdc7386b42729630c59dc6bfbddfe16a58194f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 42/46] fix: audio export of silent or empty recordings

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 72c2542..64a6356 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -348,7 +348,8 @@ def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=N
         #         fileName = "_".join((name, proc_name, audio_name, str(time_idx)))
         #     file_path = folder.joinpath(fileName + ".wav")
 
-        signal_to_write = signal / np.max(np.abs(signal))
+        peak = np.max(np.abs(signal), initial=0)
+        signal_to_write = signal / peak if peak > 0 else np.zeros(signal.shape)
         
 
         ramp_length = min(int(0.2*samplerate), int(0.1 * signal_to_write.shape[-1]))
-- 
2.43.0


From d85d6f9635c80b15619761557011a76a3573d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 43/46] fix: audio files can be loaded without rate or channel
 count, and with one channel

---
 src/aspsim/signal/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 0c7cdde..9ae648c 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -289,7 +289,7 @@ class PulseTrain(Source):
 
 
 def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=False):
-    audio, audio_sr = sf.read(file_name)
+    audio, audio_sr = sf.read(file_name, always_2d=True)
     assert audio.ndim == 2
     audio = audio.T
     #raise NotImplementedError("Check which axis is audio and which is channel. \
@@ -297,14 +297,14 @@ def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=Fal
     if num_channels is not None:
         audio = audio[:num_channels, :]
 
-    if desired_sr != audio_sr:
+    if desired_sr is not None and desired_sr != audio_sr:
         assert audio_sr > desired_sr
         if audio_sr % desired_sr == 0:
             down_factor = audio_sr // desired_sr
             up_factor = 1
         else:
             up_factor, down_factor = coreutil.simplify_ratio(desired_sr, audio_sr)
-        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(num_channels)]
+        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(audio.shape[0])]
         audio = np.stack(audio_downsampled, axis=0)
         # srAudio = srAudio // downsamplingFactor
         if verbose:
-- 
2.43.0


From da0d0dfbbc40d961fa32fd1efffa377419bdd218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 44/46] fix: a stored session was used although the directivity
 of the microphones differed

---
 src/aspsim/array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 415676b..282ee0d 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -446,6 +446,11 @@ def prototype_equals(prototype, initialized):
             return False
         if not np.allclose(ar.pos,initialized[ar_name].pos):
             return False
+        if list(ar.directivity_type) != list(initialized[ar_name].directivity_type):
+            return False
+        if any(dir_type != "omni" for dir_type in ar.directivity_type):
+            if not np.allclose(ar.directivity_dir, initialized[ar_name].directivity_dir):
+                return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
-- 
2.43.0


From 946514145f1f4bc5e306f90bb12719772cd2445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 45/46] fix: a plot of several channels repeated its label in
 the legend if the name contains an underscore

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 64a6356..8adb57b 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -193,8 +193,9 @@ def legend_without_duplicates(ax, loc):
     handles, labels = ax.get_legend_handles_labels()
     newLabels, newHandles = [], []
     for handle, label in zip(handles, labels):
+      label = label.replace("_", "\_")
       if label not in newLabels:
-        newLabels.append(label.replace("_", "\_"))
+        newLabels.append(label)
         newHandles.append(handle)
 
     ax.legend(newHandles, newLabels, loc=loc)
-- 
2.43.0


From da1efecab8fa6e86218c097078156edd9d59ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 46/46] fix: trajectories of a simulator changed with the
 points and trajectory of the setup it was created from

---
 src/aspsim/room/trajectory.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index e94a53a..d9e6e83 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -1,3 +1,5 @@
+import types
+
 import numpy as np
 
 import aspsim.room.generatepoints as gp
@@ -72,8 +74,7 @@ class LinearTrajectory(Trajectory):
             if 'constant_time', each segment will take equal time, and the speed will
             therefore go up for long segments and down for short segments.
         """
-        if isinstance(points, (list, tuple)):
-            points = np.array(points)
+        points = np.array(points)
         #self.num_pos = 1
 
         if not np.allclose(points[-1,:], points[0,:]):
@@ -102,7 +103,8 @@ class LinearTrajectory(Trajectory):
         #cycle_start = 0
         self.cumulative_samples = np.concatenate(([0], np.cumsum(self.samples_per_segment)))
 
-        def pos_func(n):
+        def pos_func(self, n):
+            points = self.anchor_points
             period_samples = n % (period * samplerate)
 
             point_idx = np.argmax(period_samples < self.cumulative_samples)
@@ -110,7 +112,8 @@ class LinearTrajectory(Trajectory):
             ip_factor = time_this_segment / self.samples_per_segment[point_idx-1]
             pos = points[point_idx-1,:]*(1-ip_factor) + points[point_idx,:]*ip_factor
             return pos[None,:]
-        return pos_func
+        # bound to the object, so that a copy of the trajectory does not follow changes to the original
+        return types.MethodType(pos_func, self)
     
     def _constant_time_pos_func(self, points, period, samplerate):
         num_segments = points.shape[0] - 1
@@ -123,7 +126,8 @@ class LinearTrajectory(Trajectory):
 
         self.cumulative_samples = np.arange(num_segments+1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
-        def pos_func(n):
+        def pos_func(self, n):
+            points = self.anchor_points
             period_samples = n % (period * samplerate)
 
             point_idx = np.argmax(period_samples < self.cumulative_samples)
@@ -131,7 +135,8 @@ class LinearTrajectory(Trajectory):
             ip_factor = time_this_segment / self.samples_per_segment
             pos = points[point_idx-1,:]*(1-ip_factor) + points[point_idx,:]*ip_factor
             return pos[None,:]
-        return pos_func
+        # bound to the object, so that a copy of the trajectory does not follow changes to the original
+        return types.MethodType(pos_func, self)
 
     def plot(self, ax, symbol, label, tot_samples=None):
         if tot_samples is None:
@@ -225,7 +230,8 @@ class CircularTrajectory(Trajectory):
         self.radius_diff = self.radius[1] - self.radius[0]
         assert self.radius_diff >= 0
 
-        def pos_func(t):
+        def pos_func(self, t):
+            radius, center = self.radius, self.center
             angle_period_samples = t % (angle_period * samplerate)
             radial_period_samples = t % (radial_period * samplerate)
 
@@ -243,7 +249,8 @@ class CircularTrajectory(Trajectory):
             (x,y) = gp.pol2cart(rad, angle)
             return np.array([[x,y,0]]) + center
 
-        super().__init__(pos_func)
+        # bound to the object, so that a copy of the trajectory does not follow changes to the original
+        super().__init__(types.MethodType(pos_func, self))
 
     def plot(self, ax, symbol="o", label="", tot_samples=None):
         #if tot_samples is not None:
-- 
2.43.0

