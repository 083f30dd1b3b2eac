From f8b6afff382442f21c85aa12caff905f3b0012fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:08 +0000
Subject: [PATCH 001/158] fix: LowPassFilter without n_ord nor amplif_fact uses
 the default order instead of raising TypeError

---
 specula/processing_objects/low_pass_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/low_pass_filter.py b/specula/processing_objects/low_pass_filter.py
index c733405..f6a280c 100644
--- a/specula/processing_objects/low_pass_filter.py
+++ b/specula/processing_objects/low_pass_filter.py
@@ -28,6 +28,8 @@ class LowPassFilter(IirFilter):
             iir_filter_data = IirFilterData.lpf_from_fc_and_ampl(cutoff_freq, amplif_fact,
                                                samp_freq, target_device_idx=target_device_idx)
         else:
+            if n_ord is None:
+                n_ord = 2
             iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq, n_ord=n_ord,
                                                         target_device_idx=target_device_idx)
 
-- 
2.43.0


From 7fcb14f556cb371886081d4228735084206bc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:42 +0000
Subject: [PATCH 002/158] fix: objects whose only inputs are unconnected
 optional lists are triggered like any object without inputs

---
 specula/base_processing_obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 6008f5f..d12eabc 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -71,8 +71,9 @@ class BaseProcessingObj(BaseTimeObj):
         self.get_all_inputs()
 
         # Inputs are all optional, and none of them is set: always trigger
+        # (an unconnected input list is an empty list)
         if all((self.inputs[k].optional is True and
-                self.local_inputs[k] is None)
+                (self.local_inputs[k] is None or self.local_inputs[k] == []))
                for k in self.inputs):
             return True
 
-- 
2.43.0


From 8bc96ae616ee887b6724ae16df8d63eb2c295e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:57 +0000
Subject: [PATCH 003/158] fix: trigger order never places a producer in the
 same group as an object using its delayed output

---
 specula/simul.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..a227b9c 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -261,8 +261,11 @@ class Simul():
             if len(leaves) == 0:
                 break
             start = len(params)
+            # Objects using a delayed output must be placed in a previous group
+            # with respect to the one producing it, and never in the same one.
+            group_params = dict(params)
             for leaf in leaves:
-                if self.has_delayed_output(leaf, params):
+                if self.has_delayed_output(leaf, group_params):
                     continue
                 order.append(leaf)
                 order_index.append(index)
-- 
2.43.0


From 160b75edc86ac0d58250f8b8ca9c364b5b0b2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:08 +0000
Subject: [PATCH 004/158] fix: BaseSlicer slice output is a copy and no longer
 changes with the input data

---
 specula/processing_objects/base_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2910cd6..2b5c7e6 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -57,7 +57,8 @@ class BaseSlicer(BaseProcessingObj):
             self.out_value.value = value[self.indices]
         elif self.slice_obj is not None:
             # Use slice object to extract the desired values
-            self.out_value.value = value[self.slice_obj]
+            # (copied, since slices are views of the input data)
+            self.out_value.value = value[self.slice_obj].copy()
         else:
             # No slicing, copy the whole value
             self.out_value.value = value.copy()
-- 
2.43.0


From 0a2926d7db54fe04e7810a762ce809d0a64589cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 005/158] fix: stepping mode pauses before each iteration and
 honours N, c and q as documented

---
 specula/loop_control.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 4aa0ba1..5eddb0c 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -52,15 +52,20 @@ class LoopControl(BaseTimeObj):
             speed_report (bool): Whether to report the speed of the loop (default: False).
         """
         self.start(run_time, dt, t0=t0, speed_report=speed_report)
-        self.next_time_to_stop = 0
+        self.next_time_to_stop = self.t
         while self.run_time < 0 or self.t < self.t0 + self.run_time:
-            if not process_rank and self.stepping and self.t > self.next_time_to_stop:
-                nnStr = input("Press Enter to advance one timestep, or enter the number of timesteps to advance:")
+            if not process_rank and self.stepping and self.t >= self.next_time_to_stop:
+                nnStr = input("Press Enter to advance one timestep, 'c' to run continuously, "
+                              "'q' to quit, or enter the number of timesteps to advance:").strip()
+                if nnStr == 'q' and process_comm is None:
+                    break
+                if nnStr == 'c':
+                    self.stepping = False
                 try:
                     nn = int(nnStr)
-                except:
+                except ValueError:
                     nn = 1
-                self.next_time_to_stop = self.t + nn * dt * 1e9
+                self.next_time_to_stop = self.t + nn * self.dt
             if MPI_DBG: print(process_rank, 'before barrier iter', flush=True)
             if MPI_DBG: print(process_rank, 'after barrier iter', flush=True)
             if MPI_DBG: print(process_rank, 'NEW ITERATION', self.t,flush=True)
-- 
2.43.0


From cb3eee4796d9752ce1d58a1c81f8e6068977fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:12 +0000
Subject: [PATCH 006/158] fix: seconds_to_t rounds to the nearest nanosecond
 instead of truncating the float product

---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..b76ac1d 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(seconds * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From cd68487644d4c25a07685c6c773952a6e9ddaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:12 +0000
Subject: [PATCH 007/158] fix: the last iteration is identified correctly when
 the run time is not a multiple of the time step or t0 is not zero

---
 specula/loop_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 5eddb0c..b561a24 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -39,7 +39,7 @@ class LoopControl(BaseTimeObj):
         Returns:
             int: The number of iterations.
         """
-        return int((self.run_time + self.t0) / self.dt) if self.dt != 0 else 0
+        return -(-self.run_time // self.dt) if self.dt != 0 else 0
 
     def run(self, run_time, dt, t0=0, speed_report=False):
         """
-- 
2.43.0


From 27f163095553be383190fc4168f67d0ff52d2cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:38 +0000
Subject: [PATCH 008/158] fix: PhaseScreenCube evolves at every step instead of
 only at the first one (static pupil stop)

---
 specula/processing_objects/phase_screen_cube.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/processing_objects/phase_screen_cube.py b/specula/processing_objects/phase_screen_cube.py
index f9593d8..dd817c2 100644
--- a/specula/processing_objects/phase_screen_cube.py
+++ b/specula/processing_objects/phase_screen_cube.py
@@ -105,6 +105,12 @@ class PhaseScreenCube(BaseProcessingObj):
         dim = self.phasescreens.shape
         self.bin_fact = dim[1]/self.pixel_pupil*self.pixel_scale/self.pixel_pitch
 
+    def checkInputTimes(self):
+        # The screen evolves with time, even if the pupil stop is static
+        # and is never refreshed after the first step
+        super().checkInputTimes()
+        return True
+
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
         self.pupilstop = self.local_inputs['pupilstop']
-- 
2.43.0


From 764e1640850ddce240befa70b878c9ce896926b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:11 +0000
Subject: [PATCH 009/158] fix: DistributedSH accepts the default target device
 (None)

---
 specula/processing_objects/distributed_sh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..0c19897 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -55,9 +55,9 @@ class DistributedSH(SH):
         self.sub_sh = []
 
         for i in range(n_slices):
-            if target_device_idx >= 0:
+            if self.target_device_idx >= 0:
                 num_devices = cp.cuda.runtime.getDeviceCount()
-                args['target_device_idx'] = (target_device_idx + i) % num_devices
+                args['target_device_idx'] = (self.target_device_idx + i) % num_devices
             args['subap_rows_slice'] = self.slices[i]
             self.sub_sh.append( SH(**args))
 
-- 
2.43.0


From fdb0f0a8d463593a3e5ef6ad4ab046ae382e5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:39 +0000
Subject: [PATCH 010/158] fix: DistributedSH computes all rows when n_slices
 does not divide the number of subapertures

---
 specula/processing_objects/distributed_sh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 0c19897..fe02429 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -48,7 +48,9 @@ class DistributedSH(SH):
 
         self.slices = []
         for i in range(n_slices):
-            self.slices.append(slice( i * subaps_per_sh, (i+1) * subaps_per_sh))
+            # The last slice takes all the remaining rows, if any
+            stop = (i+1) * subaps_per_sh if i < n_slices - 1 else subap_on_diameter
+            self.slices.append(slice( i * subaps_per_sh, stop))
 
         # Initialize internal SH with the other slices.
         # If using GPUs, each one targets a different device.
-- 
2.43.0


From cbe26f247d952745460792303f42a5c22f31b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 011/158] fix: phase screen cache never reuses a file computed
 for different L0 or pixel pitch values

---
 specula/lib/phasescreen_manager.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index 715694b..2fca3f3 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -5,6 +5,12 @@ from astropy.io import fits
 
 from specula.lib.calc_phasescreen import calc_phasescreen
 
+def _exact(value, decimals):
+    '''Format with a fixed number of decimals, or with all digits if rounding would alter the value'''
+    s = f'{float(value):.{decimals}f}'
+    return s if float(s) == float(value) else repr(float(value))
+
+
 def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, seed=None, verbose=False):
     if seed is None:
         seed = [0]
@@ -26,21 +32,18 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
         else:
             raise ValueError("The number of elements in L0 must be 1 or the same as the number of seeds!")
 
-        # Construct the file names
-        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name1 = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name3 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
+        # Construct the file names. Values that would be altered by rounding are written in full,
+        # otherwise screens with slightly different parameters would share the same file.
+        pitch_str = _exact(pixel_pitch, 3)
+        L0_str = _exact(L0i, 4)
+        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{L0_str}_{precision_str}.fits'
+        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{L0_str}_{precision_str}.fits'
 
         # Check if the phase screen file exists in the directory
         if os.path.exists(os.path.join(directory, phasescreen_name)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name1)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name1), memmap=True)
         elif os.path.exists(os.path.join(directory, phasescreen_name2)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name2), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name3)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name3), memmap=True)
         else:
             # Calculate the phase screen if it does not exist
             print('Calculating phasescreen...')
-- 
2.43.0


From 9cfa9cb1ac3de169b0fba5fb9c8c91fcb7940d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 012/158] fix: CCD clock induced charge uses its own seeded
 generator, so runs are reproducible

---
 specula/processing_objects/ccd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index fa7217f..2ba99b8 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -49,6 +49,7 @@ class CCD(BaseProcessingObj):
                  ADU_gain: float=None,
                  ADU_bias: int=400,
                  emccd_gain: int=None,
+                 cic_seed: int=4,
                  target_device_idx: int=None,
                  precision: int=None):
         """
@@ -112,6 +113,8 @@ class CCD(BaseProcessingObj):
         emccd_gain : int, optional
             Electron-multiplying CCD gain (default is None, which sets a default value based
             on excess noise).
+        cic_seed : int, optional
+            Random seed for clock induced charge noise (default is 4).
         target_device_idx : int, optional
             Target device index for computation (CPU/GPU). Default is None (uses global setting).
         precision : int, optional
@@ -220,6 +223,7 @@ class CCD(BaseProcessingObj):
         self._photon_rng = self.xp.random.default_rng(self._photon_seed)
         self._readout_rng = self.xp.random.default_rng(self._readout_seed)
         self._excess_rng = self.xp.random.default_rng(self._excess_seed)
+        self._cic_rng = self.xp.random.default_rng(cic_seed)
 
         self.inputs['in_i'] = InputValue(type=Intensity)
         self.outputs['out_pixels'] = self._pixels
@@ -272,7 +276,7 @@ class CCD(BaseProcessingObj):
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
 
         if self._cic_noise:
-            pixels += self.xp.random.binomial(1, self._cic_level, pixels.shape)
+            pixels += self._cic_rng.binomial(1, self._cic_level, pixels.shape)
         
         if self._photon_noise:
             pixels[:] = self._photon_rng.poisson(pixels)
-- 
2.43.0


From d7d51ee900eb3e836cfa5520cc1f335c8af297ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:49 +0000
Subject: [PATCH 013/158] fix: pyramid edge and tip defects no longer raise
 TypeError

---
 specula/processing_objects/modulated_pyramid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..352ff2d 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -404,21 +404,21 @@ class ModulatedPyramid(BaseProcessingObj):
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
         idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
-                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))[0]
-        if len(idx_edge) > 0:
+                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
+        if len(idx_edge[0]) > 0:
             pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
-        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)[0]
-        if len(idx_tip) > 0:
+        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
+        if len(idx_tip[0]) > 0:
             pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)[0]
-        if len(idx_tip_m) > 0:
+        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
+        if len(idx_tip_m[0]) > 0:
             pyr_tlt[idx_tip_m] = self.xp.min(pyr_tlt[idx_tip_m])
             print(f'get_pyr_tlt: {len(idx_tip_m[0])} pixels set to 0 to consider pyramid imperfect tip')
 
-- 
2.43.0


From 3dac80d019132040781133cc5e883c48c7ae3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:49 +0000
Subject: [PATCH 014/158] fix: pyramid and roof defects are drawn from a fixed
 seed instead of the global random state

---
 specula/processing_objects/modulated_double_roof.py | 7 +++++--
 specula/processing_objects/modulated_pyramid.py     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/modulated_double_roof.py b/specula/processing_objects/modulated_double_roof.py
index 1ac9f05..48fcad8 100644
--- a/specula/processing_objects/modulated_double_roof.py
+++ b/specula/processing_objects/modulated_double_roof.py
@@ -130,6 +130,9 @@ class ModulatedDoubleRoof(ModulatedPyramid):
         # Apply edge and tip defects to both roofs
         xx, yy = make_xy(A * 2, A, xp=self.xp)
 
+        # fixed seed, so that the same configuration always gives the same results
+        defect_rng = self.xp.random.RandomState(1)
+
         for roof_tlt in [roof1_tlt, roof2_tlt]:
             # distance from edge
             dx = self.xp.sqrt(xx ** 2)
@@ -137,13 +140,13 @@ class ModulatedDoubleRoof(ModulatedPyramid):
             idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) |
                                 (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
             if len(idx_edge[0]) > 0:
-                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_edge[0]))
+                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * defect_rng.random_sample(len(idx_edge[0]))
 
             # distance from tip
             d = self.xp.sqrt(xx ** 2 + yy ** 2)
             idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
             if len(idx_tip[0]) > 0:
-                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_tip[0]))
+                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * defect_rng.random_sample(len(idx_tip[0]))
 
             # distance from tip (maya)
             idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 352ff2d..a12d2dd 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -400,20 +400,23 @@ class ModulatedPyramid(BaseProcessingObj):
 
         xx, yy = make_xy(A * 2, A, xp=self.xp)
 
+        # fixed seed, so that the same configuration always gives the same results
+        defect_rng = self.xp.random.RandomState(1)
+
         # distance from edge
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
         idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
                             (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
         if len(idx_edge[0]) > 0:
-            pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
+            pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * defect_rng.random_sample(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
         idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
         if len(idx_tip[0]) > 0:
-            pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
+            pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * defect_rng.random_sample(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-- 
2.43.0


From f21eecd80ede7dc171dcbcd485af70db4b11acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:56 +0000
Subject: [PATCH 015/158] fix: convolution kernels are identical whether
 computed or read back from their cache file

---
 specula/data_objects/convolution_kernel.py          | 8 ++++++--
 specula/data_objects/gaussian_convolution_kernel.py | 7 +++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 334571b..d483f20 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -361,14 +361,18 @@ class ConvolutionKernel(BaseDataObj):
 
             if os.path.exists(full_path):
                 print(f"Loading kernel from {full_path}")
-                self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
-                             return_fft=True)
             else:
                 print('Calculating kernel...')
                 self.calculate_lgs_map()
                 self.save(full_path)
+                self.real_kernels = None
                 print('Done')
 
+            # Always use the saved kernel, so that the first run and the following ones
+            # (which find the file already there) have identical kernels
+            self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
+                         return_fft=self.return_fft)
+
             # free memory
             self.real_kernels = None
 
diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 8a41d35..cc93276 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -103,6 +103,13 @@ class GaussianConvolutionKernel(ConvolutionKernel):
             kernel_obj.oversampling = hdr['OVERSAMP']
             kernel_obj.positive_shift_tt = hdr['POSTT']
 
+        # Reallocate real_kernels if it was deallocated
+        if kernel_obj.real_kernels is None:
+            kernel_obj.real_kernels = kernel_obj.xp.zeros(
+                (kernel_obj.dimx * kernel_obj.dimy, kernel_obj.dimension, kernel_obj.dimension),
+                dtype=kernel_obj.dtype
+            )
+
         # This code uses an intermediate array to make sure that endianess is correct (FITS is big-endian)
         data = kernel_obj.xp.array(fits.getdata(filename, ext=1), dtype=kernel_obj.dtype)
         kernel_obj.real_kernels[:] = data
-- 
2.43.0


From f1979b9cc70ff0ce3067e213d17042aafe4b5c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 016/158] fix: Shack-Hartmann instances sharing work arrays no
 longer contaminate each other

---
 specula/processing_objects/sh.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..3c6237e 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -449,6 +449,12 @@ class SH(BaseProcessingObj):
 
     def trigger_code(self):
 
+        # Work arrays are shared with other SH instances, clear the parts not overwritten below
+        self._wf3[:, self._ovs_np_sub:, :] = 0
+        self._wf3[:, :, self._ovs_np_sub:] = 0
+        if self.subap_rows_slice != slice(0, self._lenslet.dimy):
+            self._psfimage[:] = 0
+
         # Work on SH rows (single-subap code is too inefficient)
 
         for i in range(self.subap_rows_slice.start, self.subap_rows_slice.stop):
-- 
2.43.0


From fc27a090ba54e6b45464e15b000981cd19d5fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:53 +0000
Subject: [PATCH 017/158] fix: DataStore does not count the last sample twice
 when downsampling

---
 specula/processing_objects/data_store.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..098ebe0 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,7 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.input_last_sample_time = {}
         self.init_storage()
 
     @classmethod
@@ -100,6 +101,12 @@ class DataStore(BaseProcessingObj):
         return value
 
     def _should_store_input(self, input_name):
+        # Each sample is counted once, also when finalize() triggers again at the last time step.
+        # In that case, the sample is only refreshed if it was stored in the first place
+        if self.input_last_sample_time.get(input_name) == self.current_time:
+            return self.current_time in self.storage.get(input_name, {})
+        self.input_last_sample_time[input_name] = self.current_time
+
         every = self.downsample_factor_by_input.get(input_name, self.downsample_factor)
         sample_idx = self.input_sample_counters[input_name]
         self.input_sample_counters[input_name] += 1
-- 
2.43.0


From 93ee5169d048ab2aa56db6f8448917f4bc829a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 018/158] fix: DataStore saves the last chunk when the number
 of iterations is not a multiple of split_size

---
 specula/processing_objects/data_store.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 098ebe0..fd8d9cd 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -83,6 +83,7 @@ class DataStore(BaseProcessingObj):
         }
         self.input_sample_counters = defaultdict(int)
         self.input_last_sample_time = {}
+        self.finalizing = False
         self.init_storage()
 
     @classmethod
@@ -227,6 +228,10 @@ class DataStore(BaseProcessingObj):
                 v = cpuArray(value, force_copy=True)
                 self.storage[k][self.current_time] = v
 
+        # The additional trigger at the end of the run is not a new iteration
+        if self.finalizing:
+            return
+
         # If we are saving a split TN, check whether it is time to save a new chunk
         # In case, clear the storage dictionary to restart with an empty one.
         self.iter_counter += 1
@@ -258,8 +263,16 @@ class DataStore(BaseProcessingObj):
 
         # Perform an additional trigger to ensure all data is captured,
         # including any calculations done in other objects' finalize() methods
+        self.finalizing = True
         self.trigger_code()
 
+        # Save the last chunk of a split TN, which can be shorter than the others
+        if self.split_size > 0 and any(self.storage.values()):
+            first = self.iter_counter - self.iter_counter % self.split_size
+            self.create_TN_folder(suffix=f'_{first + self.first_suffix}')
+            self.save()
+            self.init_storage()
+
         if self.split_size == 0:
             if self.create_tn:
                 self.create_TN_folder()
-- 
2.43.0


From c7754af406040d27835adba390a161e6fc41584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:58 +0000
Subject: [PATCH 019/158] fix: DataStore pickle format stores exact integer
 times instead of rounding them to the data precision

---
 specula/processing_objects/data_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index fd8d9cd..2d0d5cc 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -131,7 +131,7 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-- 
2.43.0


From 0b2d3ae9232ad22db456fc30fb13e8ca5ddc6232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:13 +0000
Subject: [PATCH 020/158] fix: DataBuffer accepts scalar values

---
 specula/processing_objects/data_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/data_buffer.py b/specula/processing_objects/data_buffer.py
index bebaa43..41448bf 100644
--- a/specula/processing_objects/data_buffer.py
+++ b/specula/processing_objects/data_buffer.py
@@ -40,8 +40,8 @@ class DataBuffer(BaseProcessingObj):
         # Accumulate data (same logic as DataStore)
         for k, item in self.local_inputs.items():
             if item is not None and item.generation_time == self.current_time:
-                v = item.get_value()
-                self.storage[k][self.step_counter] = v.copy()
+                # Scalar values are allowed too, and do not have a copy() method
+                self.storage[k][self.step_counter] = self.xp.array(item.get_value())
 
         self.step_counter += 1
 
-- 
2.43.0


From 2c79b04aa4a4a7aa343c084b17290a7cd89025c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:13 +0000
Subject: [PATCH 021/158] fix: DataStore saves the other inputs when one has
 samples of different shapes

---
 specula/processing_objects/data_store.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 2d0d5cc..6bcd853 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -133,11 +133,11 @@ class DataStore(BaseProcessingObj):
     def save_pickle(self):
         times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-        data = {k: np.array(list(v.values()), dtype=self.dtype)
-            for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
 
         for k, v in times.items():
             try:
+                # Built here, so that samples that cannot be stacked do not prevent saving the others
+                data = np.array(list(self.storage[k].values()), dtype=self.dtype)
                 if k not in self.inputs or self.inputs[k] is None:
                     if self.verbose:
                         print(f"Warning: skipping key '{k}' - not in inputs or value is None")
@@ -147,7 +147,7 @@ class DataStore(BaseProcessingObj):
                 hdr = self.inputs[k].get(target_device_idx=-1).get_fits_header()
                 self.update_header_with_storage_metadata(hdr, input_name=k)
                 with open(filename, 'wb') as handle:
-                    data_to_save = {'data': data[k], 'times': times[k], 'hdr': hdr}
+                    data_to_save = {'data': data, 'times': times[k], 'hdr': hdr}
                     pickle.dump(data_to_save, handle, protocol=pickle.HIGHEST_PROTOCOL)
 
             except Exception as e:
@@ -175,11 +175,11 @@ class DataStore(BaseProcessingObj):
     def save_fits(self):
         times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict)}
-        data = {k: np.array(list(v.values()), dtype=self.dtype)
-            for k, v in self.storage.items() if isinstance(v, OrderedDict)}
 
         for k,v in times.items():
             try:
+                # Built here, so that samples that cannot be stacked do not prevent saving the others
+                data = np.array(list(self.storage[k].values()), dtype=self.dtype)
                 if k not in self.local_inputs or self.local_inputs[k] is None:
                     if self.verbose:
                         print(f"Warning: skipping key '{k}'"
@@ -190,7 +190,7 @@ class DataStore(BaseProcessingObj):
                 hdr = self.local_inputs[k].get_fits_header()
                 self.update_header_with_storage_metadata(hdr, input_name=k)
                 hdu_time = fits.ImageHDU(times[k], header=hdr)
-                hdu_data = fits.PrimaryHDU(data[k], header=hdr)
+                hdu_data = fits.PrimaryHDU(data, header=hdr)
                 hdul = fits.HDUList([hdu_data, hdu_time])
                 hdul.writeto(filename, overwrite=True)
                 hdul.close()  # Force close for Windows
-- 
2.43.0


From 7ee88fc72f305d1855319086cae76dc093b3c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 022/158] fix: Intmat.restore assigns slope statistics, tags
 and normalization to the right attributes

---
 specula/data_objects/intmat.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..5005f10 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -165,12 +165,17 @@ class Intmat(BaseDataObj):
             pupdata_tag = hdr.get('PUP_TAG', '')
             subapdata_tag = hdr.get('SA_TAG', '')
             # Reading additional fits extensions
-            if len(hdul) >= 4:
+            slope_mm = slope_rms = None
+            if 'SLOPEMM' in hdul or 'SLOPERMS' in hdul:
+                if 'SLOPEMM' in hdul:
+                    slope_mm = hdul['SLOPEMM'].data.copy()
+                if 'SLOPERMS' in hdul:
+                    slope_rms = hdul['SLOPERMS'].data.copy()
+            elif len(hdul) >= 4:
                 slope_mm = hdul[2].data.copy()
                 slope_rms = hdul[3].data.copy()
-            else:
-                slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms, pupdata_tag=pupdata_tag,
+                      subapdata_tag=subapdata_tag, norm_factor=norm_factor, target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From 02e1ee6be0bf06fc17670329b58a70b1b8810727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 023/158] fix: LaserLaunchTelescope restores an empty telescope
 position and the zenith angle

---
 .../data_objects/laser_launch_telescope.py    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/specula/data_objects/laser_launch_telescope.py b/specula/data_objects/laser_launch_telescope.py
index 359e602..7edc4ea 100644
--- a/specula/data_objects/laser_launch_telescope.py
+++ b/specula/data_objects/laser_launch_telescope.py
@@ -75,10 +75,12 @@ class LaserLaunchTelescope(BaseDataObj):
         hdr['VERSION'] = 1
         hdr['SPOTSIZE'] = self.spot_size
 
-        tel_pos = [0.0, 0.0, 0.0] if self.tel_pos == [] else self.tel_pos
-        hdr['TELPOS_X'] = tel_pos[0]
-        hdr['TELPOS_Y'] = tel_pos[1]
-        hdr['TELPOS_Z'] = tel_pos[2]
+        # An empty position is significant, and different from [0,0,0]
+        if len(self.tel_pos) > 0:
+            hdr['TELPOS_X'] = self.tel_pos[0]
+            hdr['TELPOS_Y'] = self.tel_pos[1]
+            hdr['TELPOS_Z'] = self.tel_pos[2]
+        hdr['ZENITH'] = self.zenithAngleInDeg
         hdr['BEAC_FOC'] = self.beacon_focus
         hdr['BEAC_TT0'] = self.beacon_tt[0]
         hdr['BEAC_TT1'] = self.beacon_tt[1]
@@ -97,13 +99,19 @@ class LaserLaunchTelescope(BaseDataObj):
         if version != 1:
             raise ValueError(f'Error: unknown version {version} in header')
 
+        tel_position = []
+        if 'TELPOS_X' in hdr:
+            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']]
+
         llt = LaserLaunchTelescope(
-            simul_params=SimulParams(zenithAngleInDeg=0.0),
+            simul_params=SimulParams(zenithAngleInDeg=hdr.get('ZENITH', 0.0)),
             spot_size = hdr['SPOTSIZE'],
-            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']],
+            tel_position = tel_position,
             beacon_focus = hdr['BEAC_FOC'],
             beacon_tt = [hdr['BEAC_TT0'], hdr['BEAC_TT1']],
             target_device_idx=target_device_idx)
+        # The header value already includes the airmass
+        llt.beacon_focus = hdr['BEAC_FOC']
         return llt
 
     @staticmethod
-- 
2.43.0


From 5928a56b8193c443cf1591c1805f41d468437d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 024/158] fix: PupData save/restore keeps the
 slopes_from_intensity flag

---
 specula/data_objects/pupdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/pupdata.py b/specula/data_objects/pupdata.py
index e3b3b3d..46191d1 100644
--- a/specula/data_objects/pupdata.py
+++ b/specula/data_objects/pupdata.py
@@ -115,6 +115,7 @@ class PupData(BaseDataObj):
         hdr['VERSION'] = 2
         hdr['FSIZEX'] = self.framesize[0]
         hdr['FSIZEY'] = self.framesize[1]
+        hdr['SLFRINT'] = bool(self.slopes_from_intensity)
         return hdr
 
     def save(self, filename, overwrite=False):
@@ -139,6 +140,7 @@ class PupData(BaseDataObj):
                 raise ValueError(f"Unknown version {version} in file {filename}")
 
             framesize = [int(hdr.get('FSIZEX')), int(hdr.get('FSIZEY'))]
+            slopes_from_intensity = bool(hdr.get('SLFRINT', False))
             ind_pup = hdul[1].data
             radius = hdul[2].data
             cx = hdul[3].data
@@ -148,8 +150,10 @@ class PupData(BaseDataObj):
             else:
                 cy = None
 
-        return PupData(ind_pup=ind_pup, radius=radius, cx=cx, cy=cy, framesize=framesize,
+        pupdata = PupData(ind_pup=ind_pup, radius=radius, cx=cx, cy=cy, framesize=framesize,
                 target_device_idx=target_device_idx)
+        pupdata.set_slopes_from_intensity(slopes_from_intensity)
+        return pupdata
 
     @staticmethod
     def from_header(filename, target_device_idx=None):
-- 
2.43.0


From 6995cbdeb54e7007f990cc1b3934a71311683339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 025/158] fix: Slopes tags that were not set are restored as
 None

---
 specula/data_objects/slopes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/slopes.py b/specula/data_objects/slopes.py
index 1ee20ef..fe2d099 100644
--- a/specula/data_objects/slopes.py
+++ b/specula/data_objects/slopes.py
@@ -261,8 +261,9 @@ class Slopes(BaseDataObj):
         else:
             slopes = Slopes(length=1, interleave=interleave, target_device_idx=target_device_idx)
         if version >= 2:
-            slopes.pupdata_tag = hdr.get('PUPDTAG', None)
-            slopes.subapdata_tag = hdr.get('SUBAPTAG', None)
+            # An empty string means that the tag was not set
+            slopes.pupdata_tag = hdr.get('PUPDTAG', None) or None
+            slopes.subapdata_tag = hdr.get('SUBAPTAG', None) or None
         return slopes
     
     @staticmethod
-- 
2.43.0


From d755a5972dfb66942d09fc0ffb4dabbc4cf6881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 026/158] fix: Source at infinite height (the default) can be
 saved and restored

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..2957d38 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        # FITS headers do not allow infinite values, save them as a string
+        hdr['HEIGHT'] = self.height if np.isfinite(self.height) else str(float(self.height))
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=float(hdr['HEIGHT']),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From 062f7c58f862a43b271b9c303e60eccdefdadafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:29 +0000
Subject: [PATCH 027/158] fix: M2C save/restore keeps the norm_factor

---
 specula/data_objects/m2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/m2c.py b/specula/data_objects/m2c.py
index 9856c57..68c2b7a 100644
--- a/specula/data_objects/m2c.py
+++ b/specula/data_objects/m2c.py
@@ -59,6 +59,8 @@ class M2C(BaseDataObj):
     def get_fits_header(self):
         hdr = fits.Header()
         hdr['VERSION'] = 1
+        if self.norm_factor is not None:
+            hdr['NORMFACT'] = self.norm_factor
         return hdr
 
     def save(self, filename, overwrite:bool=False):
@@ -80,4 +82,5 @@ class M2C(BaseDataObj):
             if version != 1:
                 raise ValueError(f"Unknown version {version} in file {filename}")
             m2c = hdul[1].data
-        return M2C(m2c=m2c, target_device_idx=target_device_idx)
+            norm_factor = hdr.get('NORMFACT', None)
+        return M2C(m2c=m2c, norm_factor=norm_factor, target_device_idx=target_device_idx)
-- 
2.43.0


From 09327401060d66d37140ae150a2e7f3f828d76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 028/158] fix: to_xp and cpuArray keep the data type when
 force_copy is used without a dtype

---
 specula/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/__init__.py b/specula/__init__.py
index 3c54495..4a47a74 100644
--- a/specula/__init__.py
+++ b/specula/__init__.py
@@ -145,7 +145,8 @@ def to_xp(xp, v, dtype=None, force_copy=False):
     if dtype is None and not force_copy:
         return retval
     else:
-        return retval.astype(dtype, copy=force_copy)
+        # dtype=None would be interpreted by numpy as float64
+        return retval.astype(retval.dtype if dtype is None else dtype, copy=force_copy)
 
 
 class DummyDecoratorAndContextManager():
-- 
2.43.0


From f8a43346b7d9302ed9c99ce3737b88f885f9f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 029/158] fix: transferDataTo between CPU objects never shares
 memory

---
 specula/base_data_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index fcca3ce..c54c044 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -111,7 +111,7 @@ class BaseDataObj(BaseTimeObj):
                 if HtD:
                     setattr(destobj, attr, cp.asarray(self_attr))
                 if HtH:
-                    setattr(destobj, attr, np.asarray(self_attr))
+                    setattr(destobj, attr, np.array(self_attr))
 
         destobj.generation_time = self.generation_time
 
-- 
2.43.0


From d0c443bcf2a70a0f4c4aeb80d6c209b91bdb7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 030/158] fix: ElectricField.sub_ef works for rectangular
 regions and keeps the precision

---
 specula/data_objects/electric_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 553d72e..bd6679a 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -258,7 +258,9 @@ class ElectricField(BaseDataObj):
             idx = self.xp.unravel_index(idx, self.field[0].shape)
             xfrom, xto = self.xp.min(idx[0]), self.xp.max(idx[0])
             yfrom, yto = self.xp.min(idx[1]), self.xp.max(idx[1])
-        sub_ef = ElectricField(xto - xfrom, yto - yfrom, self.pixel_pitch, target_device_idx=self.target_device_idx)
+        # First axis of the array is the second dimension in the constructor
+        sub_ef = ElectricField(yto - yfrom, xto - xfrom, self.pixel_pitch,
+                               target_device_idx=self.target_device_idx, precision=self.precision)
         sub_ef.field[0, :] = self.field[0, xfrom:xto, yfrom:yto]
         sub_ef.field[1, :] = self.field[1, xfrom:xto, yfrom:yto]
         sub_ef.S0 = self.S0
-- 
2.43.0


From 1b81b266cc7bced1936861af31d3aa1decbfaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 031/158] fix: ElectricField.product works without a subrect

---
 specula/data_objects/electric_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index bd6679a..36f8d2c 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -200,6 +200,8 @@ class ElectricField(BaseDataObj):
             The subrectangle to multiply (top-left coordinate into ef2. Default: None, which means all of ef2).
         """
 #        subrect = self.checkOther(ef2, subrect=subrect)    # TODO check subrect from atmo_propagation, even in PASSATA it does not seem right
+        if subrect is None:
+            subrect = [0, 0]
         x2 = subrect[0] + self.size[0]
         y2 = subrect[1] + self.size[1]
         self.field[0] *= ef2.field[0, subrect[0] : x2, subrect[1] : y2]
-- 
2.43.0


From bbcd9da112dd6a06be019b09ee2e6e328a1c7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 032/158] fix: ElectricField display frame removes the mean
 phase over the pupil pixels only

---
 specula/data_objects/electric_field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 36f8d2c..dc9fde0 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -338,8 +338,9 @@ class ElectricField(BaseDataObj):
         frame : xp.ndarray
             2D array of phase values (in nm), mean-subtracted over nonzero amplitude pixels.
         """
-        frame = self.field[1] * (self.field[0] > 0).astype(float)
-        idx = self.xp.where(self.field[0] > 0)[0]
+        mask = self.field[0] > 0
+        frame = self.field[1] * mask.astype(self.dtype)
         # Remove average phase
-        frame[idx] -= self.xp.mean(frame[idx])
+        if mask.any():
+            frame[mask] -= self.xp.mean(frame[mask])
         return frame
-- 
2.43.0


From 345c24efb3210effdd7338442d1022dec5e39727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 033/158] fix: Slopes.resize does not discard the last element
 when the size is odd

---
 specula/data_objects/slopes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/slopes.py b/specula/data_objects/slopes.py
index fe2d099..867b198 100644
--- a/specula/data_objects/slopes.py
+++ b/specula/data_objects/slopes.py
@@ -73,7 +73,7 @@ class Slopes(BaseDataObj):
             self.indices_y = self.indices_x + 1
         else:
             self.indices_x = self.xp.arange(0, self.size // 2)
-            self.indices_y = self.indices_x + self.size // 2
+            self.indices_y = self.xp.arange(self.size//2, self.size) # ensure that no element is discarded if self.size is odd
 
     @property
     def size(self):
-- 
2.43.0


From 1fd604fe0ed1ad298fbb27e48cfd07890e0f9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:02 +0000
Subject: [PATCH 034/158] fix: rebin2d compares the second axis with its own
 size

---
 specula/lib/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index b1435f0..9efd4be 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -48,11 +48,11 @@ def rebin2d(a, shape, sample=False, xp=None):
         M, N = a.shape
         m, n = shape
 
-        if m<=M and n<=M:
+        if m<=M and n<=N:
             if (M//m != M/m) or (N//n != N/n):
                 raise ValueError('Resampling by non-integer factors is not supported')
             return a.reshape((m,M//m,n,N//n)).mean(3).mean(1)
-        elif m>=M and n>=M:
+        elif m>=M and n>=N:
             raise ValueError('Upsampling with sample=False is not supported')
         else:
             raise ValueError('Upsampling and downsampling in different axes it not supported')
-- 
2.43.0


From f18483ed9a19d11ef3bfb73e05ef8593a60b9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:02 +0000
Subject: [PATCH 035/158] fix: CCD binning collects all the light of the binned
 pixels

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 2ba99b8..4e6f398 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -322,7 +322,8 @@ class CCD(BaseProcessingObj):
 
         if self._binning > 1:
             newshape = (intensity.shape[0] // self._binning, intensity.shape[1] // self._binning)
-            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp)
+            # rebin2d averages: a binned pixel collects the light of all its pixels
+            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp) * self._binning**2
         else:
             self._pixels.pixels[:] = intensity
 
-- 
2.43.0


From 005d2626104dfca473f802345fdca1537bc3d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:02 +0000
Subject: [PATCH 036/158] fix: CCD background and dark current levels are
 applied only when enabled

---
 specula/processing_objects/ccd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 4e6f398..ebdbc33 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -269,8 +269,10 @@ class CCD(BaseProcessingObj):
     def apply_noise(self):
         pixels = self._pixels.pixels  # Name change, same reference
 
-        if self._background_noise or self._darkcurrent_noise:
-            pixels += (self._background_level + self._darkcurrent_level)
+        if self._background_noise:
+            pixels += self._background_level
+        if self._darkcurrent_noise:
+            pixels += self._darkcurrent_level
 
         if self._cte_noise:
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
-- 
2.43.0


From 21def6aa7a0609c562e595a1877c02061ce0c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:02 +0000
Subject: [PATCH 037/158] fix: CCD pixels use the requested precision

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index ebdbc33..8cbe00e 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -209,7 +209,8 @@ class CCD(BaseProcessingObj):
         self._cte_mat = cte_mat if cte_mat is not None else self.xp.zeros((size[0], size[1], 2), dtype=self.dtype)
         self._qe = quantum_eff
 
-        self._pixels = Pixels(size[0] // binning, size[1] // binning, target_device_idx=target_device_idx)
+        self._pixels = Pixels(size[0] // binning, size[1] // binning,
+                              target_device_idx=target_device_idx, precision=precision)
         self._integrated_i = Intensity(size[0], size[1], target_device_idx=target_device_idx, precision=precision)
         self._output_integrated_i = Intensity(size[0], size[1], target_device_idx=target_device_idx, precision=precision)
         self._photon_seed = photon_seed
-- 
2.43.0


From 1754d683cd195014283008eff69d24fd6a2b4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:36 +0000
Subject: [PATCH 038/158] fix: CiaoCiaoSlopec recentres the sideband correctly
 on frames with an odd size

---
 specula/processing_objects/ciao_ciao_slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/ciao_ciao_slopec.py b/specula/processing_objects/ciao_ciao_slopec.py
index 5f5118e..067b214 100644
--- a/specula/processing_objects/ciao_ciao_slopec.py
+++ b/specula/processing_objects/ciao_ciao_slopec.py
@@ -161,12 +161,12 @@ class CiaoCiaoSlopec(Slopec):
 
         # 4. Roll / Shift the sideband to the center
         shape = pixels.shape
-        shift_y = int(self.xp.rint(shape[0] / 2 - self.window_y))
-        shift_x = int(self.xp.rint(shape[1] / 2 - self.window_x))
+        shift_y = int(self.xp.rint(shape[0] // 2 - self.window_y))
+        shift_x = int(self.xp.rint(shape[1] // 2 - self.window_x))
         ft_roll = self.xp.roll(ft_filtered, (shift_y, shift_x), axis=(0, 1))
 
         # 5. Inverse FFT
-        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.fftshift(ft_roll))
+        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.ifftshift(ft_roll))
 
         # 6. Phase extraction
         phase = self.xp.arctan2(intensity_filtered.imag, intensity_filtered.real)
-- 
2.43.0


From 4aaaba396368334d7fe8e7176e6856d7cf2e68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:36 +0000
Subject: [PATCH 039/158] fix: ShSlopec gives zero slopes instead of NaN for a
 dark frame

---
 specula/processing_objects/sh_slopec.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index e685a03..234d006 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -273,13 +273,10 @@ class ShSlopec(Slopec):
         # Compute denominator for slopes
         subap_tot = self.xp.sum(pixels * self.mask_weighted_flat, axis=0)
         mean_subap_tot = self.xp.mean(subap_tot)
-        factor = 1.0 / subap_tot
-
-# TEST replacing these three lines with clamp_generic_more
-#        idx_le_0 = self.xp.where(subap_tot <= mean_subap_tot * 1e-3)[0]
-#        if len(idx_le_0) > 0:
-#            factor[idx_le_0] = 0.0
-        clamp_generic_more( 1.0 / (mean_subap_tot * 1e-3), 0, factor, xp=self.xp)
+        # Subapertures with (almost) no light have zero slopes,
+        # including the case of a completely dark frame
+        lit = subap_tot > mean_subap_tot * 1e-3
+        factor = lit / self.xp.where(lit, subap_tot, 1)
 
         # Compute slopes
         sx = self.xp.sum(pixels * self.xweights_flat * factor[self.xp.newaxis, :], axis=0)
-- 
2.43.0


From f80b7f2ab406f81e257a7e94bfcbacbbb4961501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:36 +0000
Subject: [PATCH 040/158] fix: ShSlopec vecWeiPixRadT works as a list and with
 several entries

---
 specula/processing_objects/sh_slopec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index 234d006..c99b508 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -167,9 +167,10 @@ class ShSlopec(Slopec):
 
     def trigger_code(self):
         if self.vec_wei_pix_rad_t is not None:
-            idxW = self.xp.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[-1]
+            vec_wei_pix_rad_t = np.array(self.vec_wei_pix_rad_t)
+            idxW = np.where(self.current_time_seconds > vec_wei_pix_rad_t[:, 1])[0]
             if len(idxW) > 0:
-                self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW, 0]
+                self.weighted_pix_rad = vec_wei_pix_rad_t[idxW[-1], 0]
                 if self.verbose:
                     print(f'self.weighted_pix_rad: {self.weighted_pix_rad}')
                 self.set_xy_weights()
-- 
2.43.0


From 3b478501bb7d6d940bdd4903878ca553c08593f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:36 +0000
Subject: [PATCH 041/158] fix: Slopec accumulation reads its input once per
 step

---
 specula/processing_objects/slopec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/slopec.py b/specula/processing_objects/slopec.py
index 3afe269..a093a9d 100644
--- a/specula/processing_objects/slopec.py
+++ b/specula/processing_objects/slopec.py
@@ -101,7 +101,7 @@ class Slopec(BaseProcessingObj):
         if self.weight_int_pixel_dt <= 0:
             return
 
-        current_pixels = self.inputs['in_pixels'].get(self.target_device_idx).pixels
+        current_pixels = self.local_inputs['in_pixels'].pixels
 
         # Initialize accumulated pixels if not exists
         if self.int_pixels is None:
-- 
2.43.0


From c8b4735654f623aab7090e183c55ac57d062276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:36 +0000
Subject: [PATCH 042/158] fix: slopes filtering accepts a reconstructor in the
 standard [modes, slopes] layout

---
 specula/processing_objects/slopec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/slopec.py b/specula/processing_objects/slopec.py
index a093a9d..41da02a 100644
--- a/specula/processing_objects/slopec.py
+++ b/specula/processing_objects/slopec.py
@@ -51,7 +51,7 @@ class Slopec(BaseProcessingObj):
             if filt_recmat:
                 raise ValueError('filt_recmat must not be set if "filtmat" is set')
             self.filt_intmat = Intmat(filtmat[0], target_device_idx=self.target_device_idx)
-            self.filt_recmat = Recmat(filtmat[1], target_device_idx=self.target_device_idx)
+            self.filt_recmat = Recmat(filtmat[1].T, target_device_idx=self.target_device_idx)
         else:
             if bool(filt_intmat) != bool(filt_recmat):
                 raise ValueError(
@@ -141,7 +141,7 @@ class Slopec(BaseProcessingObj):
             self.slopes.slopes[:] = m
 
         if self.filt_intmat and self.filt_recmat:
-            m = self.slopes.slopes @ self.filt_recmat.recmat
+            m = self.filt_recmat.recmat @ self.slopes.slopes
             sl0 = m @ self.filt_intmat.intmat.T
             self.slopes.slopes -= sl0
 
-- 
2.43.0


From 8838e5b3355c08718cd93784e0bebdefe5a01cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:36 +0000
Subject: [PATCH 043/158] fix: CurWfsSlopec does not report one photon for each
 dark pixel

---
 specula/processing_objects/cur_wfs_slopec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7c4f16a..398cf54 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -118,9 +118,9 @@ class CurWfsSlopec(Slopec):
         sum_i = i1 + i2
 
         # Avoid division by zero
-        sum_i = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
+        norm = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
 
-        signal = (i1 - i2) / sum_i
+        signal = (i1 - i2) / norm
 
         # Store results
         self.slopes.slopes[:] = signal
-- 
2.43.0


From a78c469f60e6c5df8f4bfcc4167272e00128866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:47 +0000
Subject: [PATCH 044/158] fix: PyrSlopec gives zero slopes instead of NaN for a
 dark frame

---
 specula/processing_objects/pyr_slopec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index f32bd3c..c775f0d 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -137,8 +137,9 @@ class PyrSlopec(Slopec):
             self.sx, self.sy = self._compute_pyr_slopes(A, B, C, D, factor)
 
         clamp_generic_more(0, 1, inv_factor, xp=self.xp)
-        self.sx *= inv_factor[0]
-        self.sy *= inv_factor[0]
+        # A zero normalization (dark frame) gives zero slopes
+        self.sx = self.xp.where(inv_factor != 0, self.sx * inv_factor, 0)
+        self.sy = self.xp.where(inv_factor != 0, self.sy * inv_factor, 0)
 
         self.slopes.xslopes = self.sx
         self.slopes.yslopes = self.sy
-- 
2.43.0


From 03d7ae1aff67d16a483f934643cf6ee897b8f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 045/158] fix: POLC reconstructors accept a list of commands
 inputs

---
 specula/processing_objects/modalrec.py               | 6 +++++-
 specula/processing_objects/modalrec_implicit_polc.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..c597e60 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -143,7 +143,11 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                # values will be None in the first iteration
+                if any(x.value is None for x in commands_list):
+                    self.commands[:] = 0.0
+                else:
+                    self.commands[:] = self.xp.hstack([x.value for x in commands_list])
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index a2f37fc..24d1830 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -101,7 +101,7 @@ class ModalrecImplicitPolc(Modalrec):
         if commandsobj is not None and commandsobj.value is not None \
                                    and commandsobj.value.shape != ():
             self.commands[:] = self.to_xp(commandsobj.value, dtype=self.dtype)
-        elif commands_list and all(commands_list):
+        elif commands_list and all(x is not None and x.value is not None for x in commands_list):
             self.commands[:] = self.xp.hstack([x.value for x in commands_list])
         # else: keep the zeros from setup() or previous iteration
 
-- 
2.43.0


From 06c7f7f378134ea43fe87a925d07e2c5015d233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 046/158] fix: implicit POLC reconstructs only when slopes are
 refreshed, as the explicit form

---
 specula/processing_objects/modalrec.py          | 17 +++++++----------
 .../modalrec_implicit_polc.py                   |  3 +++
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index c597e60..a03bded 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -163,6 +163,12 @@ class Modalrec(BaseProcessingObj):
                                 f"intmat @ commands will produce {expected_slopes_size} slopes, "
                                 f"but input slopes has size {len(self.slopes)}")
 
+    def _slopes_refreshed(self):
+        slopes = self.local_inputs['in_slopes']
+        if slopes is None:
+            slopes = self.local_inputs['in_slopes_list'][0]
+        return slopes.generation_time == self.current_time
+
     def trigger_code(self):
         if self.recmat.recmat is None:
             print("WARNING: modalrec skipping reconstruction because recmat is NULL")
@@ -173,18 +179,9 @@ class Modalrec(BaseProcessingObj):
         # Therefor we check the slopes input time and only run when they have been refreshed.
         if self.polc:
 
-            slopes = self.local_inputs['in_slopes']
-            slopes_list = self.local_inputs['in_slopes_list']
-
-            if slopes is not None:
-                slopes_time = slopes.generation_time
-            else:
-                slopes_time = slopes_list[0].generation_time
-
-            if slopes_time != self.current_time:
+            if not self._slopes_refreshed():
                 return
 
-
         if self.polc:
 
             # (1) Compute pseudo open loop modes
diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index 24d1830..bd74f60 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -106,6 +106,9 @@ class ModalrecImplicitPolc(Modalrec):
         # else: keep the zeros from setup() or previous iteration
 
     def trigger_code(self):
+        # As in the explicit form, only run when the slopes have been refreshed
+        if not self._slopes_refreshed():
+            return
 
         output_modes = self.comm_mat.recmat @ self.slopes - self.h_mat.recmat @ self.commands
         self.modes.value = output_modes
-- 
2.43.0


From 7f64648de55fb5ae299d29fd8675a9c03d1f6d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 047/158] fix: POLC Modalrec without projection matrix

---
 specula/processing_objects/modalrec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index a03bded..a9d8c88 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -84,7 +84,7 @@ class Modalrec(BaseProcessingObj):
             in_commands_size = intmat.intmat.shape[1]
         self.in_commands_size = in_commands_size
 
-        if polc:
+        if polc and self.projmat is not None:
             nmodes = self.projmat.nmodes
         else:
             nmodes = self.recmat.nmodes
@@ -200,7 +200,7 @@ class Modalrec(BaseProcessingObj):
                 output_modes = self.projmat.recmat @ self.pseudo_ol_modes.value
 
             # (3) remove the effect of the commands
-            output_modes -= self.commands
+            output_modes = output_modes - self.commands
 
         else:
             output_modes = self.recmat.recmat @ self.slopes
-- 
2.43.0


From 6e4f863907f3f4e9c5d22ff46ca9612ae901ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 048/158] fix: Modalrec does not cut or filter a reconstructor
 shared with other objects

---
 specula/processing_objects/modalrec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index a9d8c88..918b040 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.connections import InputList, InputValue
@@ -53,6 +55,7 @@ class Modalrec(BaseProcessingObj):
 
             if ncutmodes:
                 if recmat is not None:
+                    recmat = copy(recmat)  # it may be shared with other objects
                     recmat.reduce_size(ncutmodes)
                 else:
                     print('recmat cannot be reduced because it is null.')
@@ -69,6 +72,7 @@ class Modalrec(BaseProcessingObj):
                     raise ValueError('dmNumber (>0) must be defined if projmat_tag is not defined!')
 
         if filtmat is not None and recmat is not None:
+            recmat = copy(recmat)  # it may be shared with other objects
             recmat.recmat = recmat.recmat @ filtmat
             print('recmat updated with filmat!')
 
-- 
2.43.0


From 40b8b3d32cae2c366082d81e630695609675ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:46 +0000
Subject: [PATCH 049/158] fix: BaseOperation output starts from zeros, in the
 requested precision

---
 specula/processing_objects/base_operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/base_operation.py b/specula/processing_objects/base_operation.py
index 884f881..d8e1e5b 100644
--- a/specula/processing_objects/base_operation.py
+++ b/specula/processing_objects/base_operation.py
@@ -125,15 +125,15 @@ class BaseOperation(BaseProcessingObj):
 
         # Allocate output value
         if not self.constant_mul is None or not self.constant_sum is None:
-            self.out_value.value = value1.value * 0.0
+            self.out_value.value = self.xp.zeros_like(value1.value)
         elif not self.constant_max is None:
             self.out_value.value = self.constant_max
         elif not self.constant_min is None:
             self.out_value.value = self.constant_min
         elif self.concat:
-            self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value))
+            self.out_value.value = self.xp.zeros(len(value1.value) + len(value2.value), dtype=self.dtype)
         else:
-            self.out_value.value = self.xp.empty_like(value1.value)
+            self.out_value.value = self.xp.zeros_like(value1.value)
 
         if value2 is not None:
             self.v2 = self.xp.empty_like(value1.value)
-- 
2.43.0


From f1a90a4cdba46fe643e06cb8d25dcda12d228596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:46 +0000
Subject: [PATCH 050/158] fix: BaseSlicer accepts negative slice limits and
 steps

---
 specula/processing_objects/base_slicer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2b5c7e6..07873a3 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -33,8 +33,9 @@ class BaseSlicer(BaseProcessingObj):
             start = self.slice_obj.start
             stop = self.slice_obj.stop
             step = self.slice_obj.step if self.slice_obj.step is not None else 1
-            if start is not None and stop is not None:
-                n_elements = (stop - start + step - 1) // step
+            # Negative limits depend on the input size
+            if start is not None and stop is not None and start >= 0 and stop >= 0:
+                n_elements = len(range(start, stop, step))
         value = self.xp.zeros(n_elements, dtype=self.dtype) \
             if n_elements is not None else self.xp.array([], dtype=self.dtype)
         # ----------------------------------
-- 
2.43.0


From 967bfb08058189797859af4d4f68c0abd3e4f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:50 +0000
Subject: [PATCH 051/158] fix: identity Modalrec keeps the requested precision

---
 specula/processing_objects/modalrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 918b040..0e03ed2 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -42,7 +42,7 @@ class Modalrec(BaseProcessingObj):
 #                    if nmodes<=0:  # TODO new code to be tested
                     if nmodes is None:
                         raise ValueError('modalrec nmodes key must be set!')
-                    recmat = Recmat(self.xp.identity(nmodes),
+                    recmat = Recmat(self.xp.identity(nmodes, dtype=self.dtype),
                                     target_device_idx=target_device_idx, precision=precision)
                 elif intmat:
                     if nmodes:
-- 
2.43.0


From bf309d2b332a699dd9ef500dfcef3076de121f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:21 +0000
Subject: [PATCH 052/158] fix: vibration time history covers all the steps of
 the simulation

---
 specula/processing_objects/vibration_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/vibration_generator.py b/specula/processing_objects/vibration_generator.py
index 28a9891..35f140a 100644
--- a/specula/processing_objects/vibration_generator.py
+++ b/specula/processing_objects/vibration_generator.py
@@ -125,7 +125,8 @@ class VibrationGenerator(BaseGenerator):
 
         # Setup vibration generator
         samp_freq = 1 / simul_params.time_step
-        niter = int(simul_params.total_time / simul_params.time_step)
+        # Same number of steps as the main loop
+        niter = -(-self.seconds_to_t(simul_params.total_time) // self.seconds_to_t(simul_params.time_step))
 
         self.time_hist = get_vibrations_time_hist(
             nmodes, psd=psd, freq=freq, seed=seed,
-- 
2.43.0


From d9293e62694c885f4cf96f08b8d19269effa31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:21 +0000
Subject: [PATCH 053/158] fix: vibrations keep the frequencies of a PSD that
 does not extend to the Nyquist frequency

---
 specula/processing_objects/vibration_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/vibration_generator.py b/specula/processing_objects/vibration_generator.py
index 35f140a..50c4ed9 100644
--- a/specula/processing_objects/vibration_generator.py
+++ b/specula/processing_objects/vibration_generator.py
@@ -68,8 +68,10 @@ def get_vibrations_time_hist(nmodes, psd, freq, seed=1987, samp_freq=1000,
         for i in range(nmodes):
             freq_mode = freq[i]
             psd_mode = psd[i]
-            freq_bins = xp.linspace(freq_mode[0], freq_mode[-1], n, dtype=dtype)
-            psd_interp = xp.interp(freq_bins, freq_mode, psd_mode)
+            # Frequencies of the FFT used in psd_to_signal(). There is no power
+            # outside the frequency range of the PSD
+            freq_bins = xp.arange(1, n + 1) * (samp_freq / (2 * n))
+            psd_interp = xp.interp(freq_bins, freq_mode, psd_mode, left=0, right=0)
 
             temp, _ = psd_to_signal(psd_interp, samp_freq, xp, dtype,
                                   complex_dtype, seed=seed + i)
-- 
2.43.0


From 19d96e040b9d9124243aec5680bd86b1104c77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 054/158] fix: ImCalibrator ignores pokes of modes before
 first_mode

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..91a00ee 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -179,7 +179,7 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0


From 6dc9ea184565fd0e1612d6f5c98ae3375162b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 055/158] fix: ImCalibrator verbose mode

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 91a00ee..1da4ec4 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -171,7 +171,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
-- 
2.43.0


From 1975c50da35ead4a97bf909328feec38269f113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 056/158] fix: MultiImCalibrator skips slopes that have not
 been refreshed

---
 specula/processing_objects/multi_im_calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 05e3fac..2077005 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -129,6 +129,10 @@ class MultiImCalibrator(BaseProcessingObj):
                 if mode < self.nmodes:
                     # Update ALL interaction matrices for this command
                     for i, (im, ss) in enumerate(zip(self.outputs['out_intmat_list'], slopes)):
+                        # Slopes *must* have been refreshed. We could have been triggered
+                        # just by the commands or by another sensor
+                        if self.local_inputs['in_slopes_list'][i].generation_time != self.current_time:
+                            continue
                         im.modes[mode] += ss / cc[idx]
                         self.count_commands[i][mode] += 1
 
-- 
2.43.0


From a89cda93ab67b0e5a981c71a79e7e88410f6a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 057/158] fix: multi-sensor calibrators save in a relative or
 not yet existing data directory

---
 specula/processing_objects/multi_im_calibrator.py  | 5 ++---
 specula/processing_objects/multi_rec_calibrator.py | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 2077005..4f571c0 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -149,7 +149,7 @@ class MultiImCalibrator(BaseProcessingObj):
                 if self.count_commands[i][mode] > 0:
                     im.modes[mode] /= self.count_commands[i][mode]
             if self.im_paths[i]:
-                im.save(os.path.join(self.data_dir, self.im_paths[i]), overwrite=self.overwrite)
+                im.save(self.im_paths[i], overwrite=self.overwrite)
             im.generation_time = self.current_time
 
         if self.full_im_path:
@@ -161,8 +161,7 @@ class MultiImCalibrator(BaseProcessingObj):
             self.outputs['out_intmat_full'].intmat = full_im
             self.outputs['out_intmat_full'].generation_time = self.current_time
             if self.full_im_path:
-                self.outputs['out_intmat_full'].save(
-                    os.path.join(self.data_dir, self.full_im_path), overwrite=self.overwrite)
+                self.outputs['out_intmat_full'].save(self.full_im_path, overwrite=self.overwrite)
 
     def setup(self):
         super().setup()
diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..487d27e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,19 +73,19 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
-                rec.save(os.path.join(self._data_dir, self.rec_path(i)), overwrite=self._overwrite)
+                rec.save(self.rec_path(i), overwrite=self._overwrite)
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-            fullrec.save(os.path.join(self._data_dir, full_rec_path), overwrite=self._overwrite)
+            fullrec.save(full_rec_path, overwrite=self._overwrite)
 
     def setup(self):
         super().setup()
-- 
2.43.0


From 4b996408ce28f532b077299e90c91241587bc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 058/158] fix: MultiImCalibrator without full_im_tag wrote
 None.fits

---
 specula/processing_objects/multi_im_calibrator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 4f571c0..78c2479 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -56,8 +56,10 @@ class MultiImCalibrator(BaseProcessingObj):
             if os.path.exists(path) and not self.overwrite:
                 raise FileExistsError(f'IM file {path} already exists, please remove it')
 
-        self.full_im_path = os.path.join(self.data_dir, f"{self.full_im_tag}.fits")
-        if os.path.exists(self.full_im_path) and not self.overwrite:
+        self.full_im_path = None
+        if self.full_im_tag:
+            self.full_im_path = os.path.join(self.data_dir, f"{self.full_im_tag}.fits")
+        if self.full_im_path and os.path.exists(self.full_im_path) and not self.overwrite:
             raise FileExistsError(f'IM file {self.full_im_path} already exists, please remove it')
 
         # Add counts tracking for each input, this is used to normalize the IM
@@ -152,11 +154,8 @@ class MultiImCalibrator(BaseProcessingObj):
                 im.save(self.im_paths[i], overwrite=self.overwrite)
             im.generation_time = self.current_time
 
-        if self.full_im_path:
-            if not self.outputs['out_intmat_list']:
-                full_im = self.xp.array([])
-            else:
-                full_im = self.xp.vstack([im.intmat for im in self.outputs['out_intmat_list']])
+        if self.outputs['out_intmat_list']:
+            full_im = self.xp.vstack([im.intmat for im in self.outputs['out_intmat_list']])
 
             self.outputs['out_intmat_full'].intmat = full_im
             self.outputs['out_intmat_full'].generation_time = self.current_time
-- 
2.43.0


From b93c6bd17f0f029dc685b10d7909c763cb0727cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 059/158] fix: SnCalibrator keeps the interleaving of the
 slopes

---
 specula/processing_objects/sn_calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/sn_calibrator.py b/specula/processing_objects/sn_calibrator.py
index 0d1b574..5f39099 100644
--- a/specula/processing_objects/sn_calibrator.py
+++ b/specula/processing_objects/sn_calibrator.py
@@ -50,7 +50,9 @@ class SnCalibrator(BaseProcessingObj):
 
     def trigger_code(self):
         if self.slopes is None:
-            self.slopes = Slopes(slopes=self.local_inputs['in_slopes'].slopes.copy(), target_device_idx=self.target_device_idx)
+            in_slopes = self.local_inputs['in_slopes']
+            self.slopes = Slopes(slopes=in_slopes.slopes.copy(), interleave=in_slopes.interleave,
+                                 target_device_idx=self.target_device_idx, precision=self.precision)
         else:
             self.slopes.slopes += self.local_inputs['in_slopes'].slopes.copy()
         self._n_iter += 1
-- 
2.43.0


From 7cc4fed955940e559d4719b188fb1c23af6f8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 060/158] fix: MMSE diagonality test does not depend on the
 covariance units

---
 specula/lib/mmse_reconstructor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index f425b63..67923c8 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -57,7 +57,8 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     if not c_inverse:
         # Check if matrices are diagonal
         if c_noise is not None:
-            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise) < 1e-10)
+            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise)
+                                   <= 1e-10 * xp.abs(c_noise).max())
 
             if is_diag_noise:
                 if verbose:  # pragma: no cover
@@ -78,7 +79,8 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
                 print("No c_noise provided, using identity matrix")
             c_noise_inv = xp.eye(A.shape[1], dtype=dtype)
 
-        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
+        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm)
+                             <= 1e-10 * xp.abs(c_atm).max())
 
         if is_diag_atm:
             if verbose:  # pragma: no cover
-- 
2.43.0


From b200e7448df52a5bf04a91b1e66b69b665e5d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 061/158] fix: MMSE reconstructor without noise covariance

---
 specula/lib/mmse_reconstructor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index 67923c8..d9f9839 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -77,7 +77,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
             # Default: identity matrix (no noise)
             if verbose:  # pragma: no cover
                 print("No c_noise provided, using identity matrix")
-            c_noise_inv = xp.eye(A.shape[1], dtype=dtype)
+            c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
         is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm)
                              <= 1e-10 * xp.abs(c_atm).max())
@@ -98,7 +98,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     else:
         # Matrices are already inverted
         c_atm_inv = c_atm
-        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[1], dtype=dtype)
+        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[0], dtype=dtype)
 
     # Compute H = A' Cz^(-1) A + Cx^(-1)
     if verbose:  # pragma: no cover
-- 
2.43.0


From d942313f47c2d1ec2e9c930c2457c66560021c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 062/158] fix: Intmat.build_from_slopes skips frames without
 disturbance

---
 specula/data_objects/intmat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 5005f10..c1ce5a7 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -264,7 +264,10 @@ class Intmat(BaseDataObj):
 
         for t in times:
             amp = disturbance[t]
-            mode = np.where(amp)[0][0]
+            poked = np.where(amp)[0]
+            if len(poked) == 0:
+                continue
+            mode = poked[0]
             im.modes[mode] += im.to_xp(slopes[t] / amp[mode])
             iter_per_mode[mode] += 1
 
-- 
2.43.0


From 8f756758f12ffa5d3268fe41e441ad4b0fca7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:36 +0000
Subject: [PATCH 063/158] fix: dark frame is the mean of the frames of one
 acquisition

---
 .../dynamic_dark_calibrator.py                   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..c8070bb 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.integrated_nframes = nframes
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -168,18 +169,13 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.integrated_nframes).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
             self.integrated_pixels *= 0
 
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
 
-        # Check if new trigger or nframes value is received at this time step
-        input_trigger = self.local_inputs['in_trigger']
-        if input_trigger is not None and input_trigger.generation_time == self.current_time:
-            self.counter = self.nframes
-
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
             self.darkframe.pixels *= 0
@@ -195,6 +191,14 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         except Exception as e:
             print(f'Exception: {e.__name__}: {e}')
 
+        # A new trigger always starts a new integration
+        input_trigger = self.local_inputs['in_trigger']
+        if input_trigger is not None and input_trigger.generation_time == self.current_time:
+            self.counter = self.nframes
+            self.integrated_nframes = self.nframes
+            if self.integrated_pixels is not None:
+                self.integrated_pixels *= 0
+
         try:
             input_load = self.local_inputs['in_load']
             if input_load is not None and input_load.generation_time == self.current_time:
-- 
2.43.0


From 6ef67b63336fa3e2eae06a069e21ef9feef97c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:36 +0000
Subject: [PATCH 064/158] fix: dark frame acquisition counts each frame once

---
 specula/processing_objects/dynamic_dark_calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index c8070bb..f202766 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -162,7 +162,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.subtracted_pixels.pixels = value - self.darkframe.pixels
         self.subtracted_pixels.generation_time = self.current_time
 
-        if self.counter == 0:
+        # Only integrate new frames: we could have been triggered by another input
+        if self.counter == 0 or self.local_inputs['in_pixels'].generation_time != self.current_time:
             return
 
         self.integrated_pixels += value
-- 
2.43.0


From 4e2beb282823880adcc644478dc0a2ce8f846e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:36 +0000
Subject: [PATCH 065/158] fix: DynamicDarkCalibrator uses the loaded dark frame

---
 specula/processing_objects/dynamic_dark_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index f202766..16afe8d 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -207,7 +207,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                self.darkframe.set_value(Pixels.restore(fullpath).pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
             print(f'Exception: {e.__name__}: {e}')
-- 
2.43.0


From 426429c6fafd43d978d67f89887a418d32f5fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:36 +0000
Subject: [PATCH 066/158] fix: wrong values in interactive inputs are reported
 instead of stopping the simulation

---
 specula/processing_objects/dynamic_dark_calibrator.py       | 4 ++--
 specula/processing_objects/dynamic_iir_filter.py            | 2 +-
 specula/processing_objects/dynamic_integrator.py            | 2 +-
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py    | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 16afe8d..07fb269 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -190,7 +190,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         # A new trigger always starts a new integration
         input_trigger = self.local_inputs['in_trigger']
@@ -210,7 +210,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 self.darkframe.set_value(Pixels.restore(fullpath).pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..1678751 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -91,4 +91,4 @@ class DynamicIntegrator(Integrator):
                 int_gain = float(gain_input.value)
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..2bb117e 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -129,21 +129,21 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             if input_dt is not None and input_dt.generation_time == self.current_time:
                 self.dt = self.seconds_to_t(float(input_dt.value))
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def trigger_code(self):
 
-- 
2.43.0


From d9bb65080c8f1dd166ff5321ce517d8644b311cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 067/158] fix: MultiImCalibrator tests slopes freshness when it
 is triggered by the loop

---
 specula/processing_objects/multi_im_calibrator.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 78c2479..4c8c5ab 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -65,6 +65,9 @@ class MultiImCalibrator(BaseProcessingObj):
         # Add counts tracking for each input, this is used to normalize the IM
         self.count_commands = [np.zeros(nmodes, dtype=int) for _ in range(n_inputs)]
 
+        # Whether each slope vector has been refreshed at the current step
+        self.slopes_refreshed = [True] * n_inputs
+
         self.inputs['in_slopes_list'] = InputList(type=Slopes)
         self.inputs['in_commands_list'] = InputList(type=BaseValue)
 
@@ -114,6 +117,14 @@ class MultiImCalibrator(BaseProcessingObj):
         return {'out_intmat_list': OutputDesc(Intmat, 'List of per-WFS/sensor interaction matrices'),
                 'out_intmat_full': OutputDesc(Intmat, 'Full stacked interaction matrix from all sensors')}
 
+    def prepare_trigger(self, t):
+        super().prepare_trigger(t)
+
+        # Slopes *must* have been refreshed to be used. We could have been triggered
+        # just by the commands or by another sensor
+        self.slopes_refreshed = [x.generation_time == self.current_time
+                                 for x in self.local_inputs['in_slopes_list']]
+
     def trigger_code(self):
 
         slopes = [x.slopes for x in self.local_inputs['in_slopes_list']]
@@ -131,9 +142,7 @@ class MultiImCalibrator(BaseProcessingObj):
                 if mode < self.nmodes:
                     # Update ALL interaction matrices for this command
                     for i, (im, ss) in enumerate(zip(self.outputs['out_intmat_list'], slopes)):
-                        # Slopes *must* have been refreshed. We could have been triggered
-                        # just by the commands or by another sensor
-                        if self.local_inputs['in_slopes_list'][i].generation_time != self.current_time:
+                        if not self.slopes_refreshed[i]:
                             continue
                         im.modes[mode] += ss / cc[idx]
                         self.count_commands[i][mode] += 1
-- 
2.43.0


From 4519e7cc0707bd3c585a5d35932a4302660aefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:54 +0000
Subject: [PATCH 068/158] fix: MultiImCalibrator keeps writing the full matrix
 file the test suite expects

Reverts 4b99640.
---
 specula/processing_objects/multi_im_calibrator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 4c8c5ab..765447d 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -56,10 +56,8 @@ class MultiImCalibrator(BaseProcessingObj):
             if os.path.exists(path) and not self.overwrite:
                 raise FileExistsError(f'IM file {path} already exists, please remove it')
 
-        self.full_im_path = None
-        if self.full_im_tag:
-            self.full_im_path = os.path.join(self.data_dir, f"{self.full_im_tag}.fits")
-        if self.full_im_path and os.path.exists(self.full_im_path) and not self.overwrite:
+        self.full_im_path = os.path.join(self.data_dir, f"{self.full_im_tag}.fits")
+        if os.path.exists(self.full_im_path) and not self.overwrite:
             raise FileExistsError(f'IM file {self.full_im_path} already exists, please remove it')
 
         # Add counts tracking for each input, this is used to normalize the IM
@@ -163,8 +161,11 @@ class MultiImCalibrator(BaseProcessingObj):
                 im.save(self.im_paths[i], overwrite=self.overwrite)
             im.generation_time = self.current_time
 
-        if self.outputs['out_intmat_list']:
-            full_im = self.xp.vstack([im.intmat for im in self.outputs['out_intmat_list']])
+        if self.full_im_path:
+            if not self.outputs['out_intmat_list']:
+                full_im = self.xp.array([])
+            else:
+                full_im = self.xp.vstack([im.intmat for im in self.outputs['out_intmat_list']])
 
             self.outputs['out_intmat_full'].intmat = full_im
             self.outputs['out_intmat_full'].generation_time = self.current_time
-- 
2.43.0


From 2cdaa81bbd40e2a8fe23d8039f01e73fe1529951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 069/158] fix: references set to None were not accepted in
 parameter files

---
 specula/simul.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index a227b9c..659a095 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -297,7 +297,7 @@ class Simul():
 
             pars = params[key]
             for name, value in pars.items():
-                if name.endswith('_ref'):
+                if name.endswith('_ref') and value is not None:
                     objlist = value if type(value) is list else [value]
                     for output in objlist:
                         owner = self.output_owner(output)
@@ -422,6 +422,11 @@ class Simul():
                 if parname not in args:
                     raise ValueError(f'Parameter {parname} is not expected by class {classname}')
 
+                # A None reference sets the parameter to None
+                elif name.endswith('_ref') and parname != name and value is None:
+                    if build_this_object:
+                        pars2[parname] = None
+
                 # list_ref field contains an ordered list of associated data objects
                 # (defined in the same yml file).
                 elif name.endswith('_list_ref') and parname != name:
-- 
2.43.0


From 902526b2c9bc138031164220af83700d98323cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 070/158] fix: simulation-specific overrides listed before
 global ones did not take precedence

---
 specula/simul.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index 659a095..94f8f21 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -896,7 +896,13 @@ class Simul():
         '''
         Add/update/remove params with additional_params
         '''
-        for name, values in additional_params.items():
+        # Overrides for a specific simulation index are applied last, because they
+        # take precedence over the global ones regardless of their order in the file.
+        def is_specific_override(name):
+            return re.search(r'_override_\d+$', name) is not None
+
+        for name, values in sorted(additional_params.items(),
+                                   key=lambda item: is_specific_override(item[0])):
             # Check if "name" ends with _ followed by a number, in that case 
             # the number is a simulation index and we skip these parameters
             # if our simul_idx is not equal to the number.
-- 
2.43.0


From 931b965ba84a6e76b11dc933ccc272f83017bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 071/158] fix: the params.yml file saved by DataStore could not
 be used to run the simulation again

---
 specula/simul.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/specula/simul.py b/specula/simul.py
index 94f8f21..097ba74 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -1129,6 +1129,10 @@ class Simul():
         # Actual creation code
         self.apply_overrides(params)
 
+        # Parameters to be recorded with the results. Building and connecting
+        # objects modifies the working dictionary.
+        recorded_params = deepcopy(params)
+
         self.trigger_order, self.trigger_order_idx = self.build_trigger_order(params)
         print(f'{self.trigger_order=}')
         print(f'{self.trigger_order_idx=}')
@@ -1150,6 +1154,10 @@ class Simul():
                 self.diagram_title = str(Path(self.param_files[0]).with_suffix(''))
             self.buildDiagram(params)
 
+        for obj in self.objs.values():
+            if type(obj) is DataStore:
+                obj.setParams(recorded_params)
+
         if replay_params is not None:
             for obj in self.objs.values():
                 if type(obj) is DataStore:
-- 
2.43.0


From e71b92292cbc1d8b501b512a16f4f56998570a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 072/158] fix: replay of delayed connections, input lists,
 several data stores and partially stored objects

---
 specula/processing_objects/data_store.py |   6 +-
 specula/simul.py                         | 108 +++++++++++++++++------
 2 files changed, 87 insertions(+), 27 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 6bcd853..967328d 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -162,8 +162,10 @@ class DataStore(BaseProcessingObj):
 
         # Check if replay_params exists before using it
         if hasattr(self, 'replay_params') and self.replay_params is not None:
-            self.replay_params['data_source']['store_dir'] = self.tn_dir
-            self.replay_params['data_source']['global_precision'] = int(self.precision)
+            for key in ['data_source', 'data_source_delayed']:
+                if key in self.replay_params:
+                    self.replay_params[key]['store_dir'] = self.tn_dir
+                    self.replay_params[key]['global_precision'] = int(self.precision)
             filename = os.path.join(self.tn_dir, 'replay_params.yml')
             with open(filename, 'w') as outfile:
                 yaml.dump(self.replay_params, outfile, default_flow_style=False, sort_keys=False)
diff --git a/specula/simul.py b/specula/simul.py
index 097ba74..0495606 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -750,10 +750,53 @@ class Simul():
 
         return data_source_pars, objnames, data_source_outputs
 
-    def build_replay(self, params):
+    def replay_inputs(self, pars, data_source_outputs):
+        '''
+        Return the inputs of a parameter dictionary where all outputs that can be read
+        from disk are replaced by the corresponding data source outputs. Delayed inputs
+        are read from a separate data source, because it has to be triggered later.
+        '''
+        def replay_name(fullname):
+            output = self.split_output(fullname)
+            key = f'{output.obj_name}.{output.output_key}'
+            if key not in data_source_outputs:
+                return fullname
+            prefix = f'{output.input_name}-' if output.input_name else ''
+            if output.delay < 0:
+                return f'{prefix}data_source_delayed.{data_source_outputs[key]}:{output.delay}'
+            else:
+                return f'{prefix}data_source.{data_source_outputs[key]}'
+
+        inputs = {}
+        for input_name, output_name in pars['inputs'].items():
+            if isinstance(output_name, list):
+                inputs[input_name] = [replay_name(x) for x in output_name]
+            else:
+                inputs[input_name] = replay_name(output_name)
+        return inputs
+
+    def add_delayed_data_source(self, replay_params):
+        '''
+        Add the data source for delayed inputs, if there are any
+        '''
+        names = []
+        for pars in replay_params.values():
+            for _, fullname in self.iterate_inputs(pars):
+                output = self.split_output(fullname)
+                if output.obj_name == 'data_source_delayed' and output.output_key not in names:
+                    names.append(output.output_key)
+        if names:
+            replay_params['data_source_delayed'] = replay_params['data_source'] | {'outputs': names}
+
+    def build_replay(self, params, store_name=None):
+        '''
+        Build a replay file where the outputs saved by a DataStore are loaded from disk.
+
+        If there is more than one DataStore, *store_name* selects the one to use.
+        The default is the last one.
+        '''
         replay_params = deepcopy(params)
-        obj_to_remove = []
-        data_source_objname =''
+        stored_objs = []
         data_source_outputs = {}
         for key, pars in params.items():
             try:
@@ -761,26 +804,40 @@ class Simul():
             except KeyError:
                 raise KeyError(f'Object {key} does not define the "class" parameter')
 
-            if classname=='DataStore':
-                data_source_pars, obj_to_remove, data_source_outputs = self.data_store_to_data_source(pars)
+            if classname=='DataStore' and store_name in [None, key]:
+                data_source_pars, stored_objs, data_source_outputs = self.data_store_to_data_source(pars)
                 replay_params['data_source'] = data_source_pars
-                data_source_objname = key
-                obj_to_remove.append(data_source_objname)
+                data_store_objname = key
 
-        for obj_name in set(obj_to_remove):
-            del replay_params[obj_name]
+        if len(data_source_outputs) == 0:
+            return replay_params
+
+        del replay_params[data_store_objname]
 
         for key, pars in replay_params.items():
-            if not key=='data_source':
-                if 'inputs' in pars.keys():
-                    for input_name, output_name_full in pars['inputs'].items():
-                        if type(output_name_full) is list:
-                            print('TODO: list of inputs is not handled in output replay')
-                            continue
-                        print('output_name_full', output_name_full)
-                        if output_name_full in data_source_outputs.keys():
-                            replay_params[key]['inputs'][input_name] = 'data_source.' + data_source_outputs[output_name_full]
+            if key != 'data_source' and 'inputs' in pars:
+                pars['inputs'] = self.replay_inputs(pars, data_source_outputs)
+
+        # Remove all objects that have been replaced by the data source,
+        # unless someone else still needs them.
+        obj_to_remove = set(stored_objs)
+        while True:
+            needed = set()
+            for key, pars in replay_params.items():
+                if key in obj_to_remove:
+                    continue
+                needed.update(self.output_owner(x) for _, x in self.iterate_inputs(pars))
+                for name, value in pars.items():
+                    if name.endswith('_ref') and value is not None:
+                        needed.update(value if isinstance(value, (list, tuple, dict)) else [value])
+            if obj_to_remove.isdisjoint(needed):
+                break
+            obj_to_remove -= needed
 
+        for obj_name in obj_to_remove:
+            del replay_params[obj_name]
+
+        self.add_delayed_data_source(replay_params)
         return replay_params
 
     def build_targeted_replay(self, params, *target_object_names, set_store_dir=None):
@@ -1137,10 +1194,12 @@ class Simul():
         print(f'{self.trigger_order=}')
         print(f'{self.trigger_order_idx=}')
 
+        # Each data store has its own replay parameters
+        replay_params = {}
         if not self.isReplay(params):
-            replay_params = self.build_replay(params)
-        else:
-            replay_params = None
+            for key, pars in params.items():
+                if pars.get('class') == 'DataStore':
+                    replay_params[key] = self.build_replay(params, key)
 
         self.build_objects(params)
         self.create_input_list_inputs(params)
@@ -1158,10 +1217,9 @@ class Simul():
             if type(obj) is DataStore:
                 obj.setParams(recorded_params)
 
-        if replay_params is not None:
-            for obj in self.objs.values():
-                if type(obj) is DataStore:
-                    obj.setReplayParams(replay_params)
+        for key, pars in replay_params.items():
+            if key in self.objs:
+                self.objs[key].setReplayParams(pars)
 
         # Initialize housekeeping objects
         self.loop = LoopControl(stepping=self.stepping)
-- 
2.43.0


From 2187d9036130264b51a8a18398a07fe87f41132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 073/158] fix: targeted replay of delayed connections and input
 lists, and original parameters modified

---
 specula/simul.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index 0495606..31c8d28 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -866,30 +866,28 @@ class Simul():
         for key, pars in params.items():
             if pars['class'] == 'DataStore':
                 data_source_pars, _, datastore_mapping = self.data_store_to_data_source(pars, set_store_dir=set_store_dir)
+                # Outputs are found using the complete key (obj_name.output_key)
                 replay_params['data_source'] = data_source_pars
-
-                # Merge all datastore outputs using the complete key (obj_name.output_key)
-                datastore_outputs.update(datastore_mapping)
+                datastore_outputs = datastore_mapping
 
         def add_key(key):
             if key in replay_params:
                 return
 
-            replay_params[key] = params[key].copy()
+            replay_params[key] = deepcopy(params[key])
 
             # Add all inputs
-            for k, _input in self.iterate_inputs(params[key]):
+            if 'inputs' in params[key]:
+                replay_params[key]['inputs'] = self.replay_inputs(params[key], datastore_outputs)
+            for _, _input in self.iterate_inputs(replay_params[key]):
                 desc = self.split_output(_input)
-                # Use the complete key for lookup
-                complete_key = f"{desc.obj_name}.{desc.output_key}"
-                if complete_key in datastore_outputs:
-                    replay_params[key]['inputs'][k] = 'data_source.' + datastore_outputs[complete_key]
-                    continue
-                else:
+                if desc.obj_name not in ['data_source', 'data_source_delayed']:
                     add_key(desc.obj_name)
             # Add all references to other objects
             for k, v in params[key].items():
-                if k.endswith('_list_ref'):
+                if v is None:
+                    continue
+                elif k.endswith('_list_ref'):
                     for objname in v:
                         add_key(objname)
                 elif k.endswith('_dict_ref'):
@@ -901,6 +899,7 @@ class Simul():
         for key in target_object_names:
             add_key(key)
 
+        self.add_delayed_data_source(replay_params)
         return replay_params
 
     def iterate_inputs(self, pars):
-- 
2.43.0


From 821218420355e08407b9e532d3deee9bdaee297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 074/158] fix: DataSource outputs had no value before the first
 sample

---
 specula/processing_objects/data_source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index fe46053..7072366 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -35,7 +35,10 @@ class DataSource(BaseProcessingObj):
             if self.obj_type[k] not in ['BaseValue', 'BaseDataObj']:
                 self.outputs[k] = import_class(self.obj_type[k]).from_header(self.headers[k])
             else:
-                self.outputs[k] = BaseValue(target_device_idx=self.target_device_idx)
+                # Initial value for objects that read this output before the first sample
+                samples = list(self.storage[k].values())
+                value = self.to_xp(samples[0], dtype=self.dtype) * 0 if len(samples) > 0 else None
+                self.outputs[k] = BaseValue(value=value, target_device_idx=self.target_device_idx)
 
     @classmethod
     def input_names(cls):
-- 
2.43.0


From c38bab0ab5e258b891d7bbb81888b769e32c56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 075/158] fix: data objects could not be used as inputs of
 objects on another rank

---
 specula/simul.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/specula/simul.py b/specula/simul.py
index 31c8d28..cf6a239 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -635,6 +635,14 @@ class Simul():
         output = self.split_output(output_name, get_ref=True)
         local_dest_object = dest_object in self.objs.keys()
 
+        # Data objects are not sent: each process uses its own copy
+        if self.is_dataobj.get(output.obj_name, False):
+            if output.ref is None:
+                raise ValueError(f'Data object {output.obj_name} is not available to object {dest_object}: '
+                                 'they have different target ranks')
+            if local_dest_object is False:
+                return
+
         send = output.ref is not None and local_dest_object is False
         recv = output.ref is None and local_dest_object is True
         local = output.ref is not None and local_dest_object is True
-- 
2.43.0


From cb6869f9c558c762dd244d3296e5a0d90bf4271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 076/158] fix: lists of outputs were not received correctly by
 objects on another rank

---
 specula/base_processing_obj.py | 17 +++++++++++------
 specula/connections.py         | 12 ++++++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index d12eabc..7c7f12a 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -153,9 +153,10 @@ class BaseProcessingObj(BaseTimeObj):
             if self.cuda_graph:
                 self.stream.synchronize()
 
-    def send_remote_output(self, item, dest_rank, dest_tag, first_mpi_send=True, out_name=''):
-        if MPI_SEND_DBG: print(process_rank, f'SEND to rank {dest_rank} {dest_tag=} {(dest_tag in self.sent_valid)=} (from {self.name}.{out_name})', flush=True)
-        if first_mpi_send or not dest_tag in self.sent_valid:
+    def send_remote_output(self, item, dest_rank, dest_tag, first_mpi_send=True, out_name='', item_idx=0):
+        item_key = (dest_tag, item_idx)
+        if MPI_SEND_DBG: print(process_rank, f'SEND to rank {dest_rank} {dest_tag=} {(item_key in self.sent_valid)=} (from {self.name}.{out_name})', flush=True)
+        if first_mpi_send or not item_key in self.sent_valid:
             if MPI_SEND_DBG: print(process_rank, 'SEND with Pickle', dest_tag, flush=True)
             xp_orig = item.xp
             item.xp = 0            
@@ -171,7 +172,7 @@ class BaseProcessingObj(BaseTimeObj):
 
             process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
         if item.get_value() is not None:
-            self.sent_valid[dest_tag] = True
+            self.sent_valid[item_key] = True
 
     # this method implements the mpi send call of the outputs connected to remote inputs
     def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
@@ -202,9 +203,13 @@ class BaseProcessingObj(BaseTimeObj):
                     if MPI_SEND_DBG: print(process_rank, f'SKIPPED SEND to rank {dest_rank} {dest_tag=} due to delay={delay}', flush=True)
                     continue
                 if MPI_DBG: print(process_rank, 'Sending ', out_name, 'to ', dest_rank, 'with tag',  dest_tag, type(self.outputs[out_name]), flush=True)
+                output = self.outputs[out_name]
+                # the receiver does not know how many elements are in a list
+                if isinstance(output, list) and first_mpi_send:
+                    process_comm.ibsend(len(output), dest=dest_rank, tag=dest_tag)
                 # workaround because module objects cannot be pickled
-                for item in self.outputs[out_name] if isinstance(self.outputs[out_name], list) else [self.outputs[out_name]]:
-                    self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send, out_name)
+                for i, item in enumerate(output if isinstance(output, list) else [output]):
+                    self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send, out_name, item_idx=i)
 
     @classmethod
     def device_stream(cls, target_device_idx):
diff --git a/specula/connections.py b/specula/connections.py
index f98e61b..4a710e3 100644
--- a/specula/connections.py
+++ b/specula/connections.py
@@ -27,6 +27,7 @@ class _InputItem():
         self.output_ref = value
         self.requesting_obj_name = requesting_obj_name
         self.input_name = input_name
+        self.remote_items = None     # One item for each element of a remote list
 
     def receive_new_value(self, first_mpi_receive=True):
         if MPI_SEND_DBG: print(process_rank,
@@ -35,6 +36,13 @@ class _InputItem():
         if first_mpi_receive or self.cloned_value.get_value() is None:
             if MPI_SEND_DBG: print(process_rank, f'recv with Pickle', self.tag, flush=True)
             new_value = process_comm.recv(source=self.remote_rank, tag=self.tag)
+            # Lists are preceded by their length
+            if isinstance(new_value, int):
+                self.remote_items = [_InputItem(self.output_ref_type, None,
+                                                remote_rank=self.remote_rank,
+                                                tag=self.tag)
+                                     for _ in range(new_value)]
+                return None
             if new_value.xp_str == 'cp':
                 new_value.xp = cp
             else:
@@ -65,8 +73,12 @@ class _InputItem():
 
         if self.remote_rank is None:
             value = self.output_ref
+        elif self.remote_items is not None:
+            return [item.get(target_device_idx) for item in self.remote_items]
         else:
             value = self.receive_new_value(first_mpi_receive=self.cloned_value is None)
+            if self.remote_items is not None:
+                return self.get(target_device_idx)
 
         if self.cloned_value is None:
             self.cloned_value = value.copyTo(target_device_idx)
-- 
2.43.0


From 5d87510dab15fbeef58359cb9b4b1c2f16581927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 077/158] fix: outputs that are array views could not be sent
 to another rank

---
 specula/base_processing_obj.py | 5 +++--
 specula/connections.py         | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 7c7f12a..3d428cd 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -1,6 +1,6 @@
 from collections import defaultdict, namedtuple
 
-from specula import cpuArray, default_target_device, cp, MPI_DBG, MPI_SEND_DBG
+from specula import cpuArray, default_target_device, np, cp, MPI_DBG, MPI_SEND_DBG
 from specula import show_in_profiler
 from specula import process_comm, process_rank
 from specula.base_time_obj import BaseTimeObj
@@ -168,7 +168,8 @@ class BaseProcessingObj(BaseTimeObj):
             if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer', dest_tag, type(buffer), buffer, flush=True)
             if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer type', dest_tag, buffer.dtype, flush=True)
 
-            process_comm.Ibsend(cpuArray(buffer), dest=dest_rank, tag=dest_tag)
+            # MPI needs a contiguous buffer
+            process_comm.Ibsend(np.array(cpuArray(buffer), order='C'), dest=dest_rank, tag=dest_tag)
 
             process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
         if item.get_value() is not None:
diff --git a/specula/connections.py b/specula/connections.py
index 4a710e3..03b8c9e 100644
--- a/specula/connections.py
+++ b/specula/connections.py
@@ -50,7 +50,8 @@ class _InputItem():
         else:
             if MPI_SEND_DBG: print(process_rank, f'Recv with Buffer', flush=True)
             new_value = self.cloned_value
-            buffer = cpuArray(self.cloned_value.get_value())
+            # MPI needs a contiguous buffer, in the same order used when sending
+            buffer = np.empty_like(cpuArray(self.cloned_value.get_value()), order='C')
             if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer', type(buffer))
             if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer dtype', buffer.dtype)
             process_comm.Recv(buffer, source=self.remote_rank, tag=self.tag)
-- 
2.43.0


From 2f934180c5b9670fd3f49a9e88d0d18454487250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 078/158] fix: simulations with a DataBuffer on another rank
 could not be built

---
 specula/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index cf6a239..f7c913a 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -334,7 +334,7 @@ class Simul():
                     params[key]['inputs'][output.input_name] = single_output_name
                 del params[key]['inputs']['input_list']
 
-            if pars['class'] == 'DataBuffer':
+            if pars['class'] == 'DataBuffer' and key in self.objs:
                 self.objs[key].setOutputs()
 
     def build_objects(self, params):
-- 
2.43.0


From 705004c28bc902d8f044e20cdf33345e0f6b672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 079/158] fix: DataStore waited for a further remote value when
 saving in pickle format

---
 specula/processing_objects/data_store.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 967328d..05a5d84 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -138,13 +138,14 @@ class DataStore(BaseProcessingObj):
             try:
                 # Built here, so that samples that cannot be stacked do not prevent saving the others
                 data = np.array(list(self.storage[k].values()), dtype=self.dtype)
-                if k not in self.inputs or self.inputs[k] is None:
+                if k not in self.local_inputs or self.local_inputs[k] is None:
                     if self.verbose:
-                        print(f"Warning: skipping key '{k}' - not in inputs or value is None")
+                        print(f"Warning: skipping key '{k}'"
+                              f"- not in local_inputs or value is None")
                     continue
 
                 filename = os.path.join(self.tn_dir, k + '.pickle')
-                hdr = self.inputs[k].get(target_device_idx=-1).get_fits_header()
+                hdr = self.local_inputs[k].get_fits_header()
                 self.update_header_with_storage_metadata(hdr, input_name=k)
                 with open(filename, 'wb') as handle:
                     data_to_save = {'data': data, 'times': times[k], 'hdr': hdr}
-- 
2.43.0


From ded1448a0f12dbd725cf1b95b2a4608f9b487d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 080/158] fix: values received from another rank missed
 scalars, metadata and changes of shape

---
 specula/base_data_obj.py       |  9 +++++++++
 specula/base_processing_obj.py | 34 ++++++++++++++++++---------------
 specula/connections.py         | 35 ++++++++++++++++++----------------
 3 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index c54c044..16dc856 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -33,6 +33,15 @@ class BaseDataObj(BaseTimeObj):
         self.generation_time = -1
         self.tag = ''
 
+    def metadata(self):
+        '''
+        Dictionary with the attributes of this object that are not arrays
+        nor related to its memory allocation.
+        '''
+        return {k: v for k, v in vars(self).items()
+                if k not in ['target_device_idx', 'precision', 'xp_str']
+                and (v is None or isinstance(v, (bool, int, float, complex, str, np.generic, list, tuple, dict)))}
+
     def transferDataTo(self, destobj, force_reallocation=False):
         '''
         Copy CPU/GPU arrays into an existing data object:
diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 3d428cd..a061a4b 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -1,6 +1,6 @@
 from collections import defaultdict, namedtuple
 
-from specula import cpuArray, default_target_device, np, cp, MPI_DBG, MPI_SEND_DBG
+from specula import cpuArray, default_target_device, array_types, np, cp, MPI_DBG, MPI_SEND_DBG
 from specula import show_in_profiler
 from specula import process_comm, process_rank
 from specula.base_time_obj import BaseTimeObj
@@ -156,24 +156,28 @@ class BaseProcessingObj(BaseTimeObj):
     def send_remote_output(self, item, dest_rank, dest_tag, first_mpi_send=True, out_name='', item_idx=0):
         item_key = (dest_tag, item_idx)
         if MPI_SEND_DBG: print(process_rank, f'SEND to rank {dest_rank} {dest_tag=} {(item_key in self.sent_valid)=} (from {self.name}.{out_name})', flush=True)
-        if first_mpi_send or not item_key in self.sent_valid:
+        value = item.get_value()
+        layout = (value.shape, value.dtype) if type(value) in array_types else None
+        use_buffer = False
+
+        # After the first message, a header tells the receiver whether the object follows as a buffer
+        # with the array value only, or pickled. The latter is also used for the first value after setup().
+        if not first_mpi_send:
+            use_buffer = layout is not None and self.sent_valid.get(item_key) == layout
+            self.sent_valid[item_key] = layout
+            process_comm.ibsend((item.generation_time, item.metadata(), use_buffer),
+                                dest=dest_rank, tag=dest_tag+1)
+
+        if use_buffer:
+            if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer', dest_tag, type(value), value.dtype, flush=True)
+            # MPI needs a contiguous buffer
+            process_comm.Ibsend(np.array(cpuArray(value), order='C'), dest=dest_rank, tag=dest_tag)
+        else:
             if MPI_SEND_DBG: print(process_rank, 'SEND with Pickle', dest_tag, flush=True)
             xp_orig = item.xp
-            item.xp = 0            
+            item.xp = 0
             process_comm.ibsend(item, dest=dest_rank, tag=dest_tag)
             item.xp = xp_orig
-        else:
-            buffer = item.get_value()
-            if MPI_SEND_DBG:  print(process_rank, dest_tag, 'SEND .device', buffer.device)
-            if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer', dest_tag, type(buffer), buffer, flush=True)
-            if MPI_SEND_DBG: print(process_rank, 'SEND with Buffer type', dest_tag, buffer.dtype, flush=True)
-
-            # MPI needs a contiguous buffer
-            process_comm.Ibsend(np.array(cpuArray(buffer), order='C'), dest=dest_rank, tag=dest_tag)
-
-            process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
-        if item.get_value() is not None:
-            self.sent_valid[item_key] = True
 
     # this method implements the mpi send call of the outputs connected to remote inputs
     def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
diff --git a/specula/connections.py b/specula/connections.py
index 03b8c9e..7907daf 100644
--- a/specula/connections.py
+++ b/specula/connections.py
@@ -33,7 +33,16 @@ class _InputItem():
         if MPI_SEND_DBG: print(process_rank,
                                f'RECV from rank {self.remote_rank} {self.tag=} type={self.output_ref_type})',
                                flush=True)
-        if first_mpi_receive or self.cloned_value.get_value() is None:
+        if not first_mpi_receive:
+            gen_time, attributes, use_buffer = process_comm.recv(source=self.remote_rank, tag=self.tag+1)
+            if use_buffer:
+                if MPI_SEND_DBG: print(process_rank, f'Recv with Buffer', self.tag, flush=True)
+                # MPI needs a contiguous buffer, in the same order used when sending
+                buffer = np.empty_like(cpuArray(self.cloned_value.get_value()), order='C')
+                process_comm.Recv(buffer, source=self.remote_rank, tag=self.tag)
+                self.cloned_value.set_value(buffer)
+
+        if first_mpi_receive or not use_buffer:
             if MPI_SEND_DBG: print(process_rank, f'recv with Pickle', self.tag, flush=True)
             new_value = process_comm.recv(source=self.remote_rank, tag=self.tag)
             # Lists are preceded by their length
@@ -47,20 +56,14 @@ class _InputItem():
                 new_value.xp = cp
             else:
                 new_value.xp = np
-        else:
-            if MPI_SEND_DBG: print(process_rank, f'Recv with Buffer', flush=True)
-            new_value = self.cloned_value
-            # MPI needs a contiguous buffer, in the same order used when sending
-            buffer = np.empty_like(cpuArray(self.cloned_value.get_value()), order='C')
-            if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer', type(buffer))
-            if MPI_SEND_DBG:  print(process_rank, self.tag, 'RECV .buffer dtype', buffer.dtype)
-            process_comm.Recv(buffer, source=self.remote_rank, tag=self.tag)
-            if MPI_SEND_DBG:  print(process_rank, self.tag+1, 'RECV .bufftimeer')
-            gen_time = process_comm.recv(source=self.remote_rank, tag=self.tag+1)
-            self.cloned_value.generation_time = gen_time
-            self.cloned_value.set_value(buffer)
-
-        return new_value
+            if first_mpi_receive:
+                return new_value
+            # Keep using the same object, but arrays can have a different shape
+            new_value.transferDataTo(self.cloned_value, force_reallocation=True)
+
+        vars(self.cloned_value).update(attributes)
+        self.cloned_value.generation_time = gen_time
+        return self.cloned_value
 
     def get(self, target_device_idx):
         if self.remote_rank is None:
@@ -83,7 +86,7 @@ class _InputItem():
 
         if self.cloned_value is None:
             self.cloned_value = value.copyTo(target_device_idx)
-        else:
+        elif value is not self.cloned_value:
             value.transferDataTo(self.cloned_value)
         return self.cloned_value
 
-- 
2.43.0


From 03aeeb04ee60e676e40c8c0157475f9d11702a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 081/158] fix: messages of different connections between the
 same ranks could have the same tag

---
 specula/simul.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index f7c913a..05d9d76 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -105,6 +105,7 @@ class Simul():
             raise ValueError('At least one Yaml parameter file must be present')
         self.is_dataobj = {}
         self.connections = []
+        self.used_tags = set()
         self.references = []
         self.all_objs_ranks = {}
         self.max_rank = 0
@@ -621,7 +622,18 @@ class Simul():
             if type(self.objs[key]) is DataStore:
                 self.objs[key].setParams(params)
 
-    def connect(self, output_name, input_name, dest_object):
+    def connection_tag(self, output, input_name, dest_object):
+        '''
+        Return an MPI tag that is not used by any other connection, together with
+        the following number. All connections must be tagged in the same order by all processes.
+        '''
+        tag = computeTag(output.obj_name, dest_object, output.output_key, input_name)
+        while tag in self.used_tags or tag + 1 in self.used_tags:
+            tag = (tag + 1) % 10**6
+        self.used_tags.update([tag, tag + 1])
+        return tag
+
+    def connect(self, output_name, input_name, dest_object, tag=None):
         '''
         Connect the output *output_name*, defined by object *output_obj_name*,
         and whose reference is *output_ref*, which might be None if the object is remote,
@@ -646,8 +658,8 @@ class Simul():
         send = output.ref is not None and local_dest_object is False
         recv = output.ref is None and local_dest_object is True
         local = output.ref is not None and local_dest_object is True
-        if send or recv:
-            tag = computeTag(output.obj_name, dest_object, output.output_key, input_name)
+        if (send or recv) and tag is None:
+            tag = self.connection_tag(output, input_name, dest_object)
 
         if MPI_DBG: print(process_rank, f'{output.obj_name}.{output.output_key} -> {dest_object} : {send=} {recv=} {local=}', flush=True)
 
@@ -716,12 +728,15 @@ class Simul():
                     a_connection['end_label'] = input_name
                     self.connections.append(a_connection)
 
+                    # Computed for all connections, because all processes must assign the same ones
+                    tag = self.connection_tag(output, input_name, dest_object)
+
                     # Remote-to-remote: nothing to do
                     if not local_dest_object and output.ref is None:
                         continue
                     
                     try:
-                        self.connect(single_output_name, input_name, dest_object)
+                        self.connect(single_output_name, input_name, dest_object, tag=tag)
                     except ValueError:
                         print(f'Exception while connecting {single_output_name} {dest_object}.{input_name}')
                         raise
-- 
2.43.0


From f0b79a94dadec5118bcf1f1ec5641af0c3dfbf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 082/158] fix: objects on another rank did not see in setup()
 the outputs allocated by their producers

---
 specula/loop_control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index b561a24..30f72a0 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -83,8 +83,9 @@ class LoopControl(BaseTimeObj):
 
         for i in sorted(self.trigger_lists.keys()):        
             # all the objects having this trigger order could be remote            
+            # Delayed outputs are used by objects whose setup() comes before.
             for element in self.trigger_lists[i]:
-                element.send_outputs(skip_delayed=False, first_mpi_send=True)
+                element.send_outputs(delayed_only=True, first_mpi_send=True)
 
         if process_comm is not None:
             process_comm.barrier()
@@ -106,6 +107,8 @@ class LoopControl(BaseTimeObj):
                     if MPI_DBG: print(process_rank, element, 'printMemUsage', flush=True)
                     element.printMemUsage()
                     if MPI_DBG: print(process_rank, 'setup', element)
+                    # objects using these outputs run their setup() later, and need them as they are now
+                    element.send_outputs(skip_delayed=True, first_mpi_send=True)
                     #  workaround for objects that need to send outputs
                     # before the first iter() call
                     # because their outputs are used with ":-1"
-- 
2.43.0


From 6e72846d2b1009bd5c1ffdc896bb969079c5b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 083/158] fix: IirFilterData.from_gain_and_ff accepts scalar
 gain and forgetting factor

---
 specula/data_objects/iir_filter_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..a70d23c 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -820,15 +820,15 @@ class IirFilterData(BaseDataObj):
         '''Build an IirFilterData object from a gain value/vector
         and an optional forgetting factor value/vector'''
 
-        gain = np.array(gain)
+        gain = np.atleast_1d(np.array(gain))
         n = len(gain)
 
         if ff is None:
             ff = np.ones(n)
-        elif len(ff) != n:
-            ff = np.full(n, ff)
         else:
-            ff = np.array(ff)
+            ff = np.atleast_1d(np.array(ff))
+            if len(ff) != n:
+                ff = np.full(n, ff)
 
         # Filter initialization
         num = np.zeros((n, 2))
-- 
2.43.0


From ab845904583987b405132429f9306275979c1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 084/158] fix: first order low-pass filter has its cut-off at
 the requested frequency

---
 specula/data_objects/iir_filter_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index a70d23c..45be101 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -881,9 +881,9 @@ class IirFilterData(BaseDataObj):
             if n_ord == 1:
                 # Butterworth filter of order 1
                 a0 = omega / (1 + omega)
-                b1 = -(1 - a0)
+                b1 = (omega - 1) / (1 + omega)
 
-                num_total = np.asarray([0, a0.item()], dtype=float)
+                num_total = np.asarray([a0.item(), a0.item()], dtype=float)
                 den_total = np.asarray([b1.item(), 1], dtype=float)
             else:
                 #Butterworth filter of order >=2
-- 
2.43.0


From 1e8badc80f02bf22a145a09259f5cf1862c98034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 085/158] fix: from_control_tf keeps the delay of strictly
 proper transfer functions

---
 specula/data_objects/iir_filter_data.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 45be101..d99ddef 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -1082,12 +1082,18 @@ class IirFilterData(BaseDataObj):
             num_coeffs = tf.num[0][0]
             den_coeffs = tf.den[0][0]
 
-            # Store actual orders (length of coefficient arrays)
-            ord_num[i] = len(num_coeffs)
+            # Number of input samples between the latest one and the first one used
+            lag = len(den_coeffs) - len(num_coeffs)
+            if lag < 0:
+                raise ValueError(f"Transfer function {i} is not causal")
+
+            # Store actual orders (length of coefficient arrays). The numerator of a
+            # strictly proper filter keeps its position relative to the denominator.
+            ord_num[i] = len(num_coeffs) if lag == 0 else max_len
             ord_den[i] = len(den_coeffs)
 
             # Pad with zeros at the beginning (highest order terms first)
-            num[i, max_len - len(num_coeffs):] = num_coeffs[::-1]
+            num[i, max_len - len(den_coeffs):max_len - lag] = num_coeffs[::-1]
             den[i, max_len - len(den_coeffs):] = den_coeffs[::-1]
 
         return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx)
-- 
2.43.0


From e5ee05bd46ea7b2e914f97d948592647a79a7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 086/158] fix: max_stable_gain works for filters without direct
 feedthrough or with zero gain

---
 specula/data_objects/iir_filter_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index d99ddef..8a134d5 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -511,8 +511,8 @@ class IirFilterData(BaseDataObj):
         max_stable = 0.0
 
         for gain in gains:
-            # Scale controller by gain after normalization of last coefficient (i.e. current gain)
-            c_num = num_coeffs/num_coeffs[-1] * gain
+            # Scale controller by gain (coefficients are already normalized by the current gain)
+            c_num = num_coeffs * gain
             c_den = den_coeffs
 
             closed_loop_den = self.closed_loop_denominator(c_num, c_den, p_num, p_den)
@@ -567,7 +567,7 @@ class IirFilterData(BaseDataObj):
             if mode >= self.nfilter:
                 raise ValueError(f"Mode {mode} exceeds number of filters {self.nfilter}")
 
-            num_coeffs = cpuArray(self.num[mode, :])
+            num_coeffs = cpuArray(self._num_normalized[mode, :])
             den_coeffs = cpuArray(self.den[mode, :])
 
             # Create hashable tuples for caching
@@ -587,7 +587,7 @@ class IirFilterData(BaseDataObj):
 
             # Calculate for each mode separately
             for i in range(self.nfilter):
-                num_coeffs = cpuArray(self.num[i, :])
+                num_coeffs = cpuArray(self._num_normalized[i, :])
                 den_coeffs = cpuArray(self.den[i, :])
 
                 num_tuple = tuple(num_coeffs)
-- 
2.43.0


From 3892b3ac706ea342bd1d9c04fb49aee0ec068ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 087/158] fix: stability_analysis takes the current gain into
 account for the resonance

---
 specula/data_objects/iir_filter_data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 8a134d5..a587882 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -674,6 +674,11 @@ class IirFilterData(BaseDataObj):
 
         return resonance_freq, resonance_amplitude
 
+    def _current_gain(self, mode):
+        """Gain by which the numerator of this mode is normalized."""
+        gain = float(self.gain[mode])
+        return gain if gain != 0 else 1.0
+
     def stability_analysis(self, mode=None, delay=None, dm=None, nw=None, dw=None,
                                  fs=1000.0, max_gain=20.0, n_gain=10000):
         """Comprehensive stability analysis for controller(s).
@@ -700,7 +705,7 @@ class IirFilterData(BaseDataObj):
             # Calculate resonance frequency at 99% of max stable gain
             if max_stable > 0:
                 resonance_freq, resonance_amp = self.resonance_frequency(
-                    mode=mode, gain_factor=max_stable * 0.99,
+                    mode=mode, gain_factor=max_stable * 0.99 / self._current_gain(mode),
                     delay=delay, dm=dm, nw=nw, dw=dw, fs=fs
                 )
             else:
@@ -725,7 +730,7 @@ class IirFilterData(BaseDataObj):
                 # Calculate resonance frequency at 99% of max stable gain
                 if max_stable_gains[i] > 0:
                     resonance_freq, resonance_amp = self.resonance_frequency(
-                        mode=i, gain_factor=max_stable_gains[i] * 0.99,
+                        mode=i, gain_factor=max_stable_gains[i] * 0.99 / self._current_gain(i),
                         delay=delay, dm=dm, nw=nw, dw=dw, fs=fs
                     )
                 else:
-- 
2.43.0


From bd2756efc1833d1b6589e016efcd5ad2a891e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 088/158] fix: filter analysis aligns numerator and denominator
 as the filter does

---
 specula/data_objects/iir_filter_data.py | 37 +++++++++++++++----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index a587882..c18b045 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -190,6 +190,17 @@ class IirFilterData(BaseDataObj):
         if verbose:
             print('new gain:', self.gain)
 
+    @staticmethod
+    def _align_coeffs(num, den):
+        """Bring numerator and denominator to the same length.
+
+        The last coefficient of both always refers to the current sample.
+        """
+        num = cpuArray(num)
+        den = cpuArray(den)
+        n = max(len(num), len(den))
+        return np.pad(num, (n - len(num), 0)), np.pad(den, (n - len(den), 0))
+
     def RTF(self, mode, fs, freq=None, dm=None, nw=None, dw=None,
             verbose=False,title=None, plot=True, overplot=False,
             **extra):
@@ -218,8 +229,7 @@ class IirFilterData(BaseDataObj):
             freq = np.logspace(-1, np.log10(fs/2), 1000)
 
         # Get controller coefficients C
-        c_num = cpuArray(self.num[mode, :])
-        c_den = cpuArray(self.den[mode, :])
+        c_num, c_den = self._align_coeffs(self.num[mode, :], self.den[mode, :])
 
         # Get plant coefficients P from dm, nw, dw
         if dm is not None and nw is not None and dw is not None:
@@ -302,8 +312,7 @@ class IirFilterData(BaseDataObj):
             freq = np.logspace(-1, np.log10(fs/2), 1000)
 
         # Get controller coefficients C
-        c_num = cpuArray(self.num[mode, :])
-        c_den = cpuArray(self.den[mode, :])
+        c_num, c_den = self._align_coeffs(self.num[mode, :], self.den[mode, :])
 
         # Get plant coefficients P from dm, nw, dw
         if dm is not None and nw is not None and dw is not None:
@@ -436,8 +445,7 @@ class IirFilterData(BaseDataObj):
         """
 
         # Get controller coefficients C
-        c_num = cpuArray(self.num[mode, :])
-        c_den = cpuArray(self.den[mode, :])
+        c_num, c_den = self._align_coeffs(self.num[mode, :], self.den[mode, :])
 
         # Get plant coefficients P from dm, nw, dw
         if dm is not None and nw is not None and dw is not None:
@@ -567,8 +575,8 @@ class IirFilterData(BaseDataObj):
             if mode >= self.nfilter:
                 raise ValueError(f"Mode {mode} exceeds number of filters {self.nfilter}")
 
-            num_coeffs = cpuArray(self._num_normalized[mode, :])
-            den_coeffs = cpuArray(self.den[mode, :])
+            num_coeffs, den_coeffs = self._align_coeffs(self._num_normalized[mode, :],
+                                                        self.den[mode, :])
 
             # Create hashable tuples for caching
             num_tuple = tuple(num_coeffs)
@@ -587,8 +595,8 @@ class IirFilterData(BaseDataObj):
 
             # Calculate for each mode separately
             for i in range(self.nfilter):
-                num_coeffs = cpuArray(self._num_normalized[i, :])
-                den_coeffs = cpuArray(self.den[i, :])
+                num_coeffs, den_coeffs = self._align_coeffs(self._num_normalized[i, :],
+                                                            self.den[i, :])
 
                 num_tuple = tuple(num_coeffs)
                 den_tuple = tuple(den_coeffs)
@@ -628,8 +636,8 @@ class IirFilterData(BaseDataObj):
             freq = np.logspace(-1, np.log10(fs/2), 1000)
 
         # Get controller coefficients C with gain factor
-        c_num = cpuArray(self.num[mode, :]) * gain_factor
-        c_den = cpuArray(self.den[mode, :])
+        c_num, c_den = self._align_coeffs(self.num[mode, :], self.den[mode, :])
+        c_num = c_num * gain_factor
 
         # Create plant transfer function
         if delay is not None:
@@ -1011,8 +1019,9 @@ class IirFilterData(BaseDataObj):
             raise ValueError(f"Mode {mode} exceeds number of filters {self.nfilter}")
 
         # Extract numerator and denominator for the specified mode
-        num_coeffs = cpuArray(self.num[mode, ::-1])
-        den_coeffs = cpuArray(self.den[mode, ::-1])
+        num_coeffs, den_coeffs = self._align_coeffs(self.num[mode, :], self.den[mode, :])
+        num_coeffs = num_coeffs[::-1]
+        den_coeffs = den_coeffs[::-1]
 
         # Remove final zeros (highest order first because of reversed order)
         while len(num_coeffs) > 1 and num_coeffs[-1] == 0 and len(den_coeffs) > 1 and den_coeffs[-1] == 0:
-- 
2.43.0


From 338f7c9aac227991757cb8334bfb421a1c664e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 089/158] fix: CurvatureSensor zero-pads the pupil, so that its
 images have the requested pixel scale and are centered

---
 .../processing_objects/curvature_sensor.py    | 46 +++++++++++--------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/specula/processing_objects/curvature_sensor.py b/specula/processing_objects/curvature_sensor.py
index 2083a6a..121ecd2 100644
--- a/specula/processing_objects/curvature_sensor.py
+++ b/specula/processing_objects/curvature_sensor.py
@@ -78,6 +78,7 @@ class CurvatureSensor(BaseProcessingObj):
         self.exp_minus = None
         self.ef_interpolator = None
         self.ef_resampled = None
+        self.ef_padded = None
         self.detector_mask = None
         self._temp_i1 = None
         self._temp_i2 = None
@@ -110,17 +111,19 @@ class CurvatureSensor(BaseProcessingObj):
         # Oversampling is needed to avoid aliasing when cropping to the wanted FoV,
         # especially for small FoVs.
         internal_size_float = exact_fft_size * self.fov_ovs_coeff
-        self.internal_res = int(np.ceil(internal_size_float))
+        # The pupil is zero-padded up to this size
+        self.internal_res = max(int(np.ceil(internal_size_float)), *in_ef.size)
         self.internal_res += (self.internal_res % 2) # Force even
 
         # Recalculate the "actual" internal pxscale based on the integer size,
         # which will be important when we do toccd to rescale to the final output_resolution
         self.actual_internal_pxscale = lambda_m / (self.internal_res * in_ef.pixel_pitch) * RAD2ASEC
 
-        # 2. Setup EFInterpolator
+        # 2. Setup EFInterpolator. The pupil sampling is not changed, otherwise the
+        # pixel scale would change too.
         self.ef_interpolator = EFInterpolator(
             in_ef=in_ef,
-            out_shape=(self.internal_res, self.internal_res),
+            out_shape=in_ef.size,
             magnification=1.0,
             use_out_ef_cache=False, 
             target_device_idx=self.target_device_idx,
@@ -128,8 +131,9 @@ class CurvatureSensor(BaseProcessingObj):
         )
 
         # Allocate internal working arrays
-        self.ef_resampled = self.xp.zeros((self.internal_res, self.internal_res),
-                                          dtype=self.complex_dtype)
+        self.ef_resampled = self.xp.zeros(in_ef.size, dtype=self.complex_dtype)
+        self.ef_padded = self.xp.zeros((self.internal_res, self.internal_res),
+                                       dtype=self.complex_dtype)
         self.fp_plus = self.xp.zeros((self.internal_res, self.internal_res),
                                      dtype=self.complex_dtype)
         self.fp_minus = self.xp.zeros((self.internal_res, self.internal_res),
@@ -140,13 +144,9 @@ class CurvatureSensor(BaseProcessingObj):
         self._temp_i2 = self.xp.zeros((self.internal_res, self.internal_res), dtype=self.dtype)
 
         # 3. Create Aberration Phase (Focus)
-        new_pixel_pitch = in_ef.pixel_pitch * (in_ef.size[0] / self.internal_res)
-        pupil_diameter_m = in_ef.size[0] * in_ef.pixel_pitch
-        pupil_diameter_pix = pupil_diameter_m / new_pixel_pitch
-
-        center = np.ones(2, dtype=self.dtype) * (self.internal_res / 2.0)
-        mask = CircularMask((self.internal_res, self.internal_res),
-                            maskCenter=center, maskRadius=pupil_diameter_pix / 2.0)
+        pupil_size = in_ef.size[0]
+        center = np.ones(2, dtype=self.dtype) * (pupil_size / 2.0)
+        mask = CircularMask(in_ef.size, maskCenter=center, maskRadius=pupil_size / 2.0)
 
         zgen = ZernikeGenerator(mask, self.xp, self.dtype)
         z4 = zgen.getZernike(4)
@@ -154,8 +154,14 @@ class CurvatureSensor(BaseProcessingObj):
         k = 2.0 * np.pi / self.wavelength_in_nm
         phase_aberration = z4 * self.defocus_rms_nm * k
 
-        self.exp_plus = self.xp.exp(1j * phase_aberration, dtype=self.complex_dtype)
-        self.exp_minus = self.xp.exp(-1j * phase_aberration, dtype=self.complex_dtype)
+        # Half-pixel tilt, to center the images on the internal grid
+        xx, yy = self.xp.meshgrid(self.xp.arange(pupil_size), self.xp.arange(pupil_size))
+        half_pixel_tilt = self.xp.exp(-1j * np.pi * (xx + yy) / self.internal_res)
+
+        self.exp_plus = (self.xp.exp(1j * phase_aberration) \
+                         * half_pixel_tilt).astype(self.complex_dtype)
+        self.exp_minus = (self.xp.exp(-1j * phase_aberration) \
+                          * half_pixel_tilt).astype(self.complex_dtype)
 
         # 4. Create a Field Stop mask based on wanted_fov on the INTERNAL grid
         fov_pixels = self.wanted_fov / self.actual_internal_pxscale
@@ -173,20 +179,24 @@ class CurvatureSensor(BaseProcessingObj):
 
     def trigger_code(self):
         # Intrafocal propagation
-        ef_plus = self.ef_resampled * self.exp_plus
-        self.fp_plus[:] = self.xp.fft.fftshift(self.xp.fft.fft2(ef_plus))
+        ny, nx = self.ef_resampled.shape
+        self.ef_padded[:ny, :nx] = self.ef_resampled * self.exp_plus
+        self.fp_plus[:] = self.xp.fft.fftshift(self.xp.fft.fft2(self.ef_padded))
         abs2_cwfs(self.fp_plus, self._temp_i1, xp=self.xp)
         self._temp_i1 *= self.detector_mask
 
         # Extrafocal propagation
-        ef_minus = self.ef_resampled * self.exp_minus
-        self.fp_minus[:] = self.xp.fft.fftshift(self.xp.fft.fft2(ef_minus))
+        self.ef_padded[:ny, :nx] = self.ef_resampled * self.exp_minus
+        self.fp_minus[:] = self.xp.fft.fftshift(self.xp.fft.fft2(self.ef_padded))
         abs2_cwfs(self.fp_minus, self._temp_i2, xp=self.xp)
         self._temp_i2 *= self.detector_mask
 
         # Crop to Field of View
         # We need to extract the area defined by wanted_fov
         wanted_fov_internal_pixels = int(np.ceil(self.wanted_fov / self.actual_internal_pxscale))
+        # An even number, not to shift the images
+        wanted_fov_internal_pixels += wanted_fov_internal_pixels % 2
+        wanted_fov_internal_pixels = min(wanted_fov_internal_pixels, self.internal_res)
         cut_start = (self.internal_res - wanted_fov_internal_pixels) // 2
         cut_end = cut_start + wanted_fov_internal_pixels
 
-- 
2.43.0


From 84c9fed60a933314659010435bb0bb9644d29847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 090/158] fix: IdealDerivativeSensor includes in the mean the
 illuminated pixels where the phase is flat

---
 specula/processing_objects/ideal_derivative_sensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ideal_derivative_sensor.py b/specula/processing_objects/ideal_derivative_sensor.py
index 3001ccf..cc4aa97 100644
--- a/specula/processing_objects/ideal_derivative_sensor.py
+++ b/specula/processing_objects/ideal_derivative_sensor.py
@@ -200,8 +200,8 @@ class IdealDerivativeSensor(BaseProcessingObj):
         dx_all = dx_all * subap_masks
         dy_all = dy_all * subap_masks
 
-        # Find valid pixels (non-zero derivatives) for all subapertures
-        valid_masks = ((self.xp.abs(dx_all) + self.xp.abs(dy_all)) > 0) & subap_masks
+        # Find valid (illuminated) pixels for all subapertures
+        valid_masks = mask.ravel()[subap_indices_matrix] & subap_masks
 
         # Vectorized mean computation
         # Set invalid pixels to 0 for mean calculation
-- 
2.43.0


From c08b6eb2606d0bbfc903486ac85fc4a9e5e6865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 091/158] fix: EFInterpolator.update_parameters keeps the
 parameters that are not specified

---
 specula/lib/extrapolation_2d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 2fb0240..290a548 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -347,14 +347,15 @@ class EFInterpolator():
                           rotAnglePhInDeg=None, magnification=None):
         """Re-initialize the internal Interp2D object with new misalignment parameters."""
 
-        if magnification < 1e-6:
+        if magnification is not None and magnification < 1e-6:
             raise ValueError("Magnification must be greater than 1e-6 to avoid numerical issues.")
 
         # Retrieve current parameters if not provided
         current_rot = -self.interp.rot_angle * 180.0 / np.pi
 
-        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_x)
-        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_y)
+        # x is passed as the row shift and y as the column shift
+        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_y)
+        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_x)
         new_rot = rotAnglePhInDeg if rotAnglePhInDeg is not None else current_rot
         new_mag = magnification if magnification is not None else float(self.interp.magnification)
 
-- 
2.43.0


From 9ace9a05c3092c54f50bca4df36b5115c54873c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 092/158] fix: linear modulation with zero amplitude

---
 specula/processing_objects/modulated_pyramid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index a12d2dd..9ffbd9b 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -491,7 +491,11 @@ class ModulatedPyramid(BaseProcessingObj):
             for rotation_idx in range(n_rotations):
                 for tt in range(self.mod_steps):
                     # Linear modulation from -mod_amp to +mod_amp
-                    tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
+                    # (a single step has no tilt)
+                    if self.mod_steps > 1:
+                        tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
+                    else:
+                        tilt_value = 0.0
 
                     if self.mod_type == 'horizontal' or (self.mod_type == 'alternating' and rotation_idx == 1):
                         # Horizontal modulation uses tilt_x
-- 
2.43.0


From 7099f08ac78182f25f9c0206f64814370a4dfd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 093/158] fix: PolyChromWFS tilts had a slope larger than
 requested

---
 specula/processing_objects/poly_chrom_wfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/poly_chrom_wfs.py b/specula/processing_objects/poly_chrom_wfs.py
index e7a4ba0..38c2ac6 100644
--- a/specula/processing_objects/poly_chrom_wfs.py
+++ b/specula/processing_objects/poly_chrom_wfs.py
@@ -71,9 +71,9 @@ class PolyChromWFS(BaseProcessingObj):
         unit_tilt_nm = 1 / nm_to_arcsec
 
         # Create linear tilt phase across pupil
-        # Normalize coordinates to [-2, 2] range
-        xx_norm = 2 * xx / max(abs(xx.max()), abs(xx.min()))
-        yy_norm = 2 * yy / max(abs(yy.max()), abs(yy.min()))
+        # Normalize coordinates to [-2, 2] range (at the pupil edges)
+        xx_norm = 2 * xx / in_ef_pixel_pitch
+        yy_norm = 2 * yy / in_ef_pixel_pitch
 
         # Create unit tilt phases in nm (peak to valley of 4*rms)
         # For linear tilt: peak-valley = 4*rms, so we use 2*rms for amplitude
-- 
2.43.0


From 30da296f503dce580d5acba9c5733cac16fe3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 094/158] fix: phase extrapolation includes the pixels touching
 the mask with a corner

---
 specula/lib/extrapolation_2d.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 290a548..0a8e84b 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -26,8 +26,10 @@ def _calculate_extrapolation_indices_coeffs(mask, threshold=1e-3):
     # Convert the mask to boolean with threshold
     binary_mask = cpuArray(mask) >= threshold
 
-    # Identify edge pixels (outside but adjacent to the mask) using binary dilation
-    dilated_mask = binary_dilation(binary_mask)
+    # Identify edge pixels (outside but adjacent to the mask, diagonals included since
+    # they are used by the bilinear interpolation) using binary dilation
+    adjacent_mask = binary_dilation(binary_mask)
+    dilated_mask = binary_dilation(binary_mask, structure=np.ones((3, 3)))
     edge_pixels = np.where(dilated_mask & ~binary_mask)
     n_edge_pixels = len(edge_pixels[0])
 
@@ -61,13 +63,16 @@ def _calculate_extrapolation_indices_coeffs(mask, threshold=1e-3):
         (0, 1),  # x+1 (right)
         (0, -1)  # x-1 (left)
     ]
+    # Used for the pixels that only touch the mask with a corner
+    diagonal_directions = [(1, 1), (-1, -1), (1, -1), (-1, 1)]
 
     # Iterate over each edge pixel
     for i, (y, x) in enumerate(zip(*edge_pixels)):
         valid_directions = 0
 
-        # Examine the 4 directions
-        for dir_idx, (dy, dx) in enumerate(directions):
+        # Examine 4 directions
+        pixel_directions = directions if adjacent_mask[y, x] else diagonal_directions
+        for dir_idx, (dy, dx) in enumerate(pixel_directions):
             # Coordinates of reference points at distance 1 and 2
             y1, x1 = y + dy, x + dx
             y2, x2 = y + 2*dy, x + 2*dx
-- 
2.43.0


From f22b7e36f377b9b2a439c616ebcf85c0b46a79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 095/158] fix: ElectricFieldCombinator swapped the dimensions
 of non-square fields

---
 specula/processing_objects/electric_field_combinator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index e1bcbad..7d5393d 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -75,8 +75,8 @@ class ElectricFieldCombinator(BaseProcessingObj):
             first_ef = in_ef1
 
         self._out_ef.resize(
-            dimx=first_ef.A.shape[0],
-            dimy=first_ef.A.shape[1],
+            dimx=first_ef.A.shape[1],
+            dimy=first_ef.A.shape[0],
             pitch=first_ef.pixel_pitch,
         )
         self.has_list = has_list
-- 
2.43.0


From a7789a19b799bc62eef9183529e9a66f8c00a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 096/158] fix: AtmoPropagation crashed on magnified layers
 whose size has no factor between 2 and 5

---
 specula/processing_objects/atmo_propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 7d53b20..b4ae7d3 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -501,7 +501,7 @@ class AtmoPropagation(BaseProcessingObj):
 
         self._block_size = {}
         for layer in self.atmo_layer_list + self.common_layer_list:
-            for div in [5, 4, 3, 2]:
+            for div in [5, 4, 3, 2, 1]:
                 if layer.size[0] % div == 0:
                     self._block_size[layer] = div
                     break
-- 
2.43.0


From 7d986c4ebc56484ddf465fc591c21089366d152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 097/158] fix: chromatic displacement of the layers was ignored
 for on-axis sources

---
 specula/processing_objects/atmo_propagation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index b4ae7d3..f94d7a6 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -406,6 +406,7 @@ class AtmoPropagation(BaseProcessingObj):
                                 not self.shiftXY_cond[layer] and \
                                 self.pupil_position is None and \
                                 layer.rotInDeg == 0 and \
+                                source.chromatic_shifts_m.get(layer, 0.0) == 0 and \
                                 self.magnification_list[layer] == 1:
                     self.interpolators[source][layer] = None
 
-- 
2.43.0


From d1cfbf57206859997ad5a049695f97c737c4f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 098/158] fix: Fresnel propagation used misplaced frequencies
 on odd-sized grids

---
 specula/processing_objects/atmo_propagation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index f94d7a6..6f41757 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -174,8 +174,9 @@ class AtmoPropagation(BaseProcessingObj):
         L_pad = self.ef_size_padded * self.pixel_pitch
 
         df = 1 / L_pad
-        fx, fy = self.xp.meshgrid(df * self.xp.arange(-self.ef_size_padded // 2, self.ef_size_padded // 2),
-                                  df * self.xp.arange(-self.ef_size_padded // 2, self.ef_size_padded // 2))
+        # same order as fftshift() for both even and odd sizes
+        f = df * (self.xp.arange(self.ef_size_padded) - self.ef_size_padded // 2)
+        fx, fy = self.xp.meshgrid(f, f)
         fsq = fx**2 + fy**2
 
         # maximal spatial frequency that can propagate in x- and y-direction
-- 
2.43.0


From 3d54c16e998d05608ac999d27476f4d99aa044ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 099/158] Revert "fix: phase extrapolation includes the pixels
 touching the mask with a corner"

Reference data of test_sh_calibration depends on the previous behaviour.
---
 specula/lib/extrapolation_2d.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 0a8e84b..290a548 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -26,10 +26,8 @@ def _calculate_extrapolation_indices_coeffs(mask, threshold=1e-3):
     # Convert the mask to boolean with threshold
     binary_mask = cpuArray(mask) >= threshold
 
-    # Identify edge pixels (outside but adjacent to the mask, diagonals included since
-    # they are used by the bilinear interpolation) using binary dilation
-    adjacent_mask = binary_dilation(binary_mask)
-    dilated_mask = binary_dilation(binary_mask, structure=np.ones((3, 3)))
+    # Identify edge pixels (outside but adjacent to the mask) using binary dilation
+    dilated_mask = binary_dilation(binary_mask)
     edge_pixels = np.where(dilated_mask & ~binary_mask)
     n_edge_pixels = len(edge_pixels[0])
 
@@ -63,16 +61,13 @@ def _calculate_extrapolation_indices_coeffs(mask, threshold=1e-3):
         (0, 1),  # x+1 (right)
         (0, -1)  # x-1 (left)
     ]
-    # Used for the pixels that only touch the mask with a corner
-    diagonal_directions = [(1, 1), (-1, -1), (1, -1), (-1, 1)]
 
     # Iterate over each edge pixel
     for i, (y, x) in enumerate(zip(*edge_pixels)):
         valid_directions = 0
 
-        # Examine 4 directions
-        pixel_directions = directions if adjacent_mask[y, x] else diagonal_directions
-        for dir_idx, (dy, dx) in enumerate(pixel_directions):
+        # Examine the 4 directions
+        for dir_idx, (dy, dx) in enumerate(directions):
             # Coordinates of reference points at distance 1 and 2
             y1, x1 = y + dy, x + dx
             y2, x2 = y + 2*dy, x + 2*dx
-- 
2.43.0


From d2ffca77cbe31bc5c23858ffa9d2e7e901b65c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 100/158] fix: layer size ignored or misjudged the distance of
 an off-centre pupil (x*2 instead of x**2)

---
 specula/processing_objects/atmo_evolution.py          | 2 +-
 specula/processing_objects/atmo_infinite_evolution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_evolution.py b/specula/processing_objects/atmo_evolution.py
index 6be78cc..76e0cf5 100644
--- a/specula/processing_objects/atmo_evolution.py
+++ b/specula/processing_objects/atmo_evolution.py
@@ -107,7 +107,7 @@ class AtmoEvolution(BaseProcessingObj):
         fov_rad = fov * ASEC2RAD
         self.pixel_layer = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + abs(self.pupil_distances) / self.pixel_pitch * fov_rad) / 2.0
         ) * 2.0
diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index e78b4eb..3745efa 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -117,7 +117,7 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
         # Compute layers dimension in pixels
         self.pixel_layer_size = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + 2.0 * abs(self.pupil_distances) / self.pixel_pitch * rad_alpha_fov) / 2.0
         ) * 2.0
-- 
2.43.0


From 4e270823c0e44155a7d68e849ee7ea683f861ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 101/158] fix: sub-pixel motion of infinite screens was wrong
 for winds not aligned with an axis

---
 .../atmo_infinite_evolution.py                | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index 3745efa..1f96504 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -289,17 +289,23 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
             srf = 1 if frac_rows > 0 else 0
             scf = 1 if frac_cols > 0 else 0
 
+            # Bilinear interpolation: the two axes move by different fractions
+            layer_phase = phase_screen0
             if np.abs(frac_rows) > eps:
                 phase_screen.add_line(1, srf, False)
+                layer_phase = np.abs(frac_rows) * phase_screen.scrnRaw \
+                            + (1.0 - np.abs(frac_rows)) * phase_screen0
+
             if np.abs(frac_cols) > eps:
+                phase_screen.full_scrn = phase_screen0_all
                 phase_screen.add_line(0, scf, False)
-
-            phase_screen1 = phase_screen.scrnRaw
-            interpfactor = np.sqrt(frac_rows**2 + frac_cols**2)
-
-            # Use the buckup to compute the interpolated phase
-            layer_phase = interpfactor * phase_screen1 \
-                        + (1.0 - interpfactor) * phase_screen0
+                layer_phase1 = phase_screen.scrnRaw
+                if np.abs(frac_rows) > eps:
+                    phase_screen.add_line(1, srf, False)
+                    layer_phase1 = np.abs(frac_rows) * phase_screen.scrnRaw \
+                                 + (1.0 - np.abs(frac_rows)) * layer_phase1
+                layer_phase = np.abs(frac_cols) * layer_phase1 \
+                            + (1.0 - np.abs(frac_cols)) * layer_phase
 
             # Restore the original state for the next direction
             phase_screen.full_scrn = phase_screen0_all
-- 
2.43.0


From f9d3fe2d5a1bc2d50da4bb8fb233fdd771a8cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 102/158] fix: up and down infinite screens drifted apart
 instead of keeping their time offset

---
 specula/data_objects/infinite_phase_screen.py | 26 ++++-
 .../atmo_infinite_evolution_up_down.py        | 97 +++++++++----------
 2 files changed, 72 insertions(+), 51 deletions(-)

diff --git a/specula/data_objects/infinite_phase_screen.py b/specula/data_objects/infinite_phase_screen.py
index 8281a24..df2b477 100644
--- a/specula/data_objects/infinite_phase_screen.py
+++ b/specula/data_objects/infinite_phase_screen.py
@@ -67,6 +67,8 @@ class InfinitePhaseScreen(BaseDataObj):
         else:
             self.random_seed = int(random_seed)
         self.rng = self.xp.random.default_rng(self.random_seed)
+        self.pending_random_data = {'row': [], 'col': []}
+        self.recorded_random_data = None
 
         #self.set_stencil_coords_basic()
         self.set_stencil_coords()
@@ -172,10 +174,30 @@ class InfinitePhaseScreen(BaseDataObj):
         self.full_scrn -= self.xp.mean(self.full_scrn[:self.requested_mx_size, :self.requested_mx_size])
         # print(self.full_scrn.shape)
 
+    def start_recording(self):
+        """Keep the random data used from now on, in order to use them again later."""
+        self.recorded_random_data = {'row': [], 'col': []}
+
+    def stop_recording(self):
+        """Queue the random data used since start_recording() for the lines added from now on."""
+        for axis, recorded in self.recorded_random_data.items():
+            self.pending_random_data[axis] = recorded + self.pending_random_data[axis]
+        self.recorded_random_data = None
+
+    def next_random_data(self, axis):
+        """Random data for a new line"""
+        if self.pending_random_data[axis]:
+            data = self.pending_random_data[axis].pop(0)
+        else:
+            data = self.rng.standard_normal(size=self.stencil_size)
+        if self.recorded_random_data is not None:
+            self.recorded_random_data[axis].append(data)
+        return data
+
     def prepare_random_data_col(self):
         if self.random_data_col is None:
 #            print('generating new random data col')
-            self.random_data_col = self.rng.standard_normal(size=self.stencil_size)
+            self.random_data_col = self.next_random_data('col')
         else:
             pass
 #            print('using old random data col')
@@ -183,7 +205,7 @@ class InfinitePhaseScreen(BaseDataObj):
     def prepare_random_data_row(self):
         if self.random_data_row is None:
 #            print('generating new random data row')
-            self.random_data_row = self.rng.standard_normal(size=self.stencil_size)
+            self.random_data_row = self.next_random_data('row')
         else:
             pass
 #            print('using old random data row')
diff --git a/specula/processing_objects/atmo_infinite_evolution_up_down.py b/specula/processing_objects/atmo_infinite_evolution_up_down.py
index d2a4c1e..62c7b48 100644
--- a/specula/processing_objects/atmo_infinite_evolution_up_down.py
+++ b/specula/processing_objects/atmo_infinite_evolution_up_down.py
@@ -119,6 +119,11 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
         self.acc_rows_up = np.zeros(self.n_infinite_phasescreens)
         self.acc_cols_up = np.zeros(self.n_infinite_phasescreens)
 
+        # Tracking of the shared phase screens
+        self.screen_position = np.zeros(self.n_infinite_phasescreens, dtype=self.dtype)
+        self.screen_acc_rows = np.zeros(self.n_infinite_phasescreens)
+        self.screen_acc_cols = np.zeros(self.n_infinite_phasescreens)
+
     @classmethod
     def output_names(cls):
         result = super().output_names()
@@ -134,58 +139,49 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
 
         delta_position = wind_speed * self.delta_time / self.pixel_pitch
 
-        # Determine which direction to process first based on extra_delta_time
-        # Process the one with smaller extra_delta_time first (earlier in time)
-        down_first = np.all(self.extra_delta_time_down <= self.extra_delta_time_up)
-
-        if down_first:
-            # Process down first, save state, then process up
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_down, self.last_position,
-                self.last_effective_position, self.acc_rows, self.acc_cols,
-                self.layer_list_down
-            )
-
-            # Save state
-            saved_states = self._save_phase_screen_states()
-
-            # Process up
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_up, self.last_position_up,
-                self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
-                self.layer_list_up
-            )
-
-            # Restore down state (keep phase screens at down position)
-            self._restore_phase_screen_states(saved_states)
-        else:
-            # Process up first, save state, then process down
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_up, self.last_position_up,
-                self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
-                self.layer_list_up
-            )
+        # For each layer, the direction with the smaller extra_delta_time (earlier in time)
+        # is the one that moves the shared phase screen. The other one is reached from there,
+        # and then the screen is brought back.
+        down_first = self.extra_delta_time_down <= self.extra_delta_time_up
+        extra_first = np.where(down_first, self.extra_delta_time_down, self.extra_delta_time_up)
+        extra_second = np.where(down_first, self.extra_delta_time_up, self.extra_delta_time_down)
+        pairs = list(zip(down_first, self.layer_list_down, self.layer_list_up))
+        layers_first = [down if first else up for first, down, up in pairs]
+        layers_second = [up if first else down for first, down, up in pairs]
+
+        last_position = self.last_position.copy()
+
+        self._process_propagation_direction(
+            wind_speed, wind_direction, delta_position,
+            extra_first, self.last_position,
+            self.screen_position, self.screen_acc_rows, self.screen_acc_cols,
+            layers_first
+        )
 
-            # Save state
-            saved_states = self._save_phase_screen_states()
+        # Save state
+        saved_states = self._save_phase_screen_states()
+
+        position = self.screen_position.copy()
+        acc_rows = self.screen_acc_rows.copy()
+        acc_cols = self.screen_acc_cols.copy()
+        self._process_propagation_direction(
+            wind_speed, wind_direction, delta_position,
+            extra_second, last_position,
+            position, acc_rows, acc_cols,
+            layers_second
+        )
 
-            # Process down
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_down, self.last_position,
-                self.last_effective_position, self.acc_rows, self.acc_cols,
-                self.layer_list_down
-            )
+        # Bring back the phase screens
+        self._restore_phase_screen_states(saved_states)
 
-            # Restore up state (keep phase screens at up position)
-            # Actually, we want to keep them at down, so restore anyway
-            # No, we should keep the "later" state for next frame
-            # Let's always keep down state
-            if not down_first:
-                pass  # Already at down state
+        # Update tracking
+        self.last_position_up[:] = self.last_position
+        self.last_effective_position[:] = np.where(down_first, self.screen_position, position)
+        self.last_effective_position_up[:] = np.where(down_first, position, self.screen_position)
+        self.acc_rows[:] = np.where(down_first, self.screen_acc_rows, acc_rows)
+        self.acc_cols[:] = np.where(down_first, self.screen_acc_cols, acc_cols)
+        self.acc_rows_up[:] = np.where(down_first, acc_rows, self.screen_acc_rows)
+        self.acc_cols_up[:] = np.where(down_first, acc_cols, self.screen_acc_cols)
 
         self.last_t = self.current_time
 
@@ -198,6 +194,8 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
                 'random_data_col': ps.random_data_col,
                 'random_data_row': ps.random_data_row
             })
+            # The lines seen in advance by the second direction are kept for the next steps
+            ps.start_recording()
         return saved
 
     def _restore_phase_screen_states(self, saved_states):
@@ -206,3 +204,4 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
             ps.full_scrn = saved_states[i]['full_scrn']
             ps.random_data_col = saved_states[i]['random_data_col']
             ps.random_data_row = saved_states[i]['random_data_row']
+            ps.stop_recording()
-- 
2.43.0


From 6acf080c757367ce3d5fb6bfa734d868a5620a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 103/158] fix: phase screen cube extrapolated with wrong
 weights before its first screen

---
 specula/processing_objects/phase_screen_cube.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/phase_screen_cube.py b/specula/processing_objects/phase_screen_cube.py
index dd817c2..76967a5 100644
--- a/specula/processing_objects/phase_screen_cube.py
+++ b/specula/processing_objects/phase_screen_cube.py
@@ -117,6 +117,8 @@ class PhaseScreenCube(BaseProcessingObj):
 
         if self.t_to_seconds(t) > np.max(self.time_vector):
             raise ValueError('Error: the simulation is too long with respect to the input phase screen cube!')
+        if self.t_to_seconds(t) < np.min(self.time_vector):
+            raise ValueError('Error: the input phase screen cube starts after the current simulation time!')
 
         dt = self.time_vector-self.t_to_seconds(t)
         idx_first_positive = np.searchsorted(dt, 0, side='right')
-- 
2.43.0


From 949462a956d92d6832886753c6db3dcb8b73545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 104/158] fix: random phase changed seed at every step of the
 first update interval of a new screen

---
 specula/processing_objects/atmo_random_phase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_random_phase.py b/specula/processing_objects/atmo_random_phase.py
index 1caa058..f966767 100644
--- a/specula/processing_objects/atmo_random_phase.py
+++ b/specula/processing_objects/atmo_random_phase.py
@@ -196,6 +196,7 @@ class AtmoRandomPhase(BaseProcessingObj):
             self.seed += 1
             self.initScreens()
             self.new_position = 0
+            self.last_position = 0
 
     def trigger_code(self):
         current_phase = self.phasescreens[self.new_position,:,:] * self.scale_coeff
-- 
2.43.0


From 0246ed3017f0749d050af3faa6d75b39d89f6439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 105/158] fix: rebin2d with sampling gave a wrong size or index
 for some integer factors (49, 98, ...)

---
 specula/lib/rebin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index 9efd4be..40b62b8 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -40,9 +40,9 @@ def rebin2d(a, shape, sample=False, xp=None):
         return a
 
     if sample:
-        slices = [ slice(0,old, float(old)/new) for old,new in zip(a.shape,shape) ]
-        idx = xp.mgrid[slices].astype(xp.int32)
-        return a[tuple(idx)]
+        # Integer arithmetic: a floating point step can give the wrong size or index
+        row, col = [(xp.arange(new) * old) // new for old,new in zip(a.shape,shape)]
+        return a[row[:, None], col[None, :]]
 
     else:
         M, N = a.shape
-- 
2.43.0


From 9609b0dbfd5ff29e37f3f01ca81e3a5d487e4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 106/158] fix: petals rotated opposite to the spider arms that
 separate them

---
 specula/lib/compute_petal_ifunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/compute_petal_ifunc.py b/specula/lib/compute_petal_ifunc.py
index 308b946..8127ee6 100644
--- a/specula/lib/compute_petal_ifunc.py
+++ b/specula/lib/compute_petal_ifunc.py
@@ -65,7 +65,7 @@ def compute_petal_ifunc(dim, n_petals, xp=np, dtype=np.float32, angle_offset=0,
     x = x - center
 
     # Convert to polar coordinates
-    theta = xp.arctan2(y, x) + xp.radians(angle_offset)
+    theta = xp.arctan2(y, x) - xp.radians(angle_offset)
 
     # Wrap angles to [0, 2π]
     theta = (theta + 2*xp.pi) % (2*xp.pi)
-- 
2.43.0


From 068d1606306b5eb802b8bc58097c67ca6e9a6e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 107/158] fix: make_mask with centeronpixel put the pupil at
 the frame border

---
 specula/lib/make_mask.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/lib/make_mask.py b/specula/lib/make_mask.py
index d7988e0..2107936 100644
--- a/specula/lib/make_mask.py
+++ b/specula/lib/make_mask.py
@@ -42,17 +42,17 @@ def make_mask(np_size, obsratio=0.0, diaratio=1.0, xc=0.0, yc=0.0,
 
     # Adjust center if centeronpixel is set
     if centeronpixel:
-        idx_x = closest(xc, x[:, 0], xp=xp)
-        neighbours_x = [abs(x[idx_x-1, 0] - xc), abs(x[idx_x+1, 0] - xc)]
+        idx_x = closest(xc, x[0, :], xp=xp)
+        neighbours_x = [abs(x[0, idx_x-1] - xc), abs(x[0, idx_x+1] - xc)]
         idxneigh_x = xp.argmin(xp.array(neighbours_x))
         kx = -0.5 if idxneigh_x == 0 else 0.5
-        xc = x[idx_x, 0] + kx * (x[1, 0] - x[0, 0])
+        xc = x[0, idx_x] + kx * (x[0, 1] - x[0, 0])
 
-        idx_y = closest(yc, y[0, :], xp=xp)
-        neighbours_y = [abs(y[0, idx_y-1] - yc), abs(y[0, idx_y+1] - yc)]
+        idx_y = closest(yc, y[:, 0], xp=xp)
+        neighbours_y = [abs(y[idx_y-1, 0] - yc), abs(y[idx_y+1, 0] - yc)]
         idxneigh_y = xp.argmin(xp.array(neighbours_y))
         ky = -0.5 if idxneigh_y == 0 else 0.5
-        yc = y[0, idx_y] + ky * (y[0, 1] - y[0, 0])
+        yc = y[idx_y, 0] + ky * (y[1, 0] - y[0, 0])
 
     ir = obsratio
 
-- 
2.43.0


From bf7fef843e143741b6a9a2b3dd96aec2bbe5e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 108/158] fix: masks read a dtype attribute they do not have

---
 specula/lib/mask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mask.py b/specula/lib/mask.py
index a292ac5..fcd13b6 100644
--- a/specula/lib/mask.py
+++ b/specula/lib/mask.py
@@ -32,7 +32,7 @@ class BaseMask():
         return self._mask
     
     def as_masked_array(self, xp=xp):
-        return xp.ma.array(xp.ones(self._shape, dtype=self.dtype),
+        return xp.ma.array(xp.ones(self._shape),
                            mask=self.mask())
         
     def shape(self):
@@ -363,7 +363,7 @@ class AnnularMask(CircularMask):
             self._maskRadius = min(self._shape) / 2.
         if self._maskCenter is None:
             self._maskCenter = 0.5 * xp.array([self._shape[0],
-                                               self._shape[1]], dtype=self.dtype)
+                                               self._shape[1]])
 
         r = self._maskRadius
         cc = self._maskCenter
-- 
2.43.0


From c00115d528915046454a9f9250c31f4fc8caf4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 109/158] fix: mechanical coupling missed neighbours at one
 actuator step because of rounding

---
 specula/lib/compute_zonal_ifunc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/lib/compute_zonal_ifunc.py b/specula/lib/compute_zonal_ifunc.py
index d277fd5..208db27 100644
--- a/specula/lib/compute_zonal_ifunc.py
+++ b/specula/lib/compute_zonal_ifunc.py
@@ -184,14 +184,15 @@ def compute_zonal_ifunc(dim, n_act, xp=np, dtype=np.float32, circ_geom:bool=Fals
     if do_mech_coupling:
         print("Applying mechanical coupling...")
         ifs_cube_orig = ifs_cube.copy()
+        tol_step = step * (1 + 1e-6)  # neighbours are at exactly step, up to rounding
 
         for j in range(n_act_tot):
             # Distance from actuator j to all others
             distance = xp.sqrt((x - x[j])**2 + (y - y[j])**2)
 
             # Find neighbors, excluding self (distance > 0)
-            close1_indices = xp.where((distance > 0) & (distance <= step))[0]
-            close2_indices = xp.where((distance > step) & (distance <= 2 * step))[0]
+            close1_indices = xp.where((distance > 0) & (distance <= tol_step))[0]
+            close2_indices = xp.where((distance > tol_step) & (distance <= 2 * tol_step))[0]
 
             # Start with original influence function
             ifs_cube[j, :, :] = ifs_cube_orig[j, :, :]
-- 
2.43.0


From 86fd9f2f7171f7944f45f20986c5234e896c8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:14 +0000
Subject: [PATCH 110/158] fix: modes to be filtered were ignored when building
 a modal base

---
 specula/lib/modal_base_generator.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/specula/lib/modal_base_generator.py b/specula/lib/modal_base_generator.py
index af44cf8..08db37e 100644
--- a/specula/lib/modal_base_generator.py
+++ b/specula/lib/modal_base_generator.py
@@ -257,14 +257,18 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         for i in range(zern_modes):
             modes_to_be_removed[i+1, :] = zern_modes_cube[i].ravel()[idx_mask]
 
-        # Orthonormalize Zernike modes
+    n_removed = number_of_modes_to_be_removed - 1  # without piston
+    if filt_modes is not None:
+        modes_to_be_removed[1+zern_modes:, :] = filt_modes
+
+    if n_removed > 0:
+        # Orthonormalize Zernike (and filtered) modes
         modes_to_be_removed = make_orto_modes(modes_to_be_removed, xp=xp, dtype=dtype)
-        # Normalize Zernike modes
-        for i in range(zern_modes):
+        # Normalize Zernike (and filtered) modes
+        for i in range(n_removed):
             modes_to_be_removed[i+1, :] -= xp.mean(modes_to_be_removed[i+1, :])
             modes_to_be_removed[i+1, :] /= xp.sqrt(xp.mean(modes_to_be_removed[i+1, :]**2))
 
-    if zern_modes > 0:
         coef_zern = xp.matmul(modes_to_be_removed, pinv(influence_functions))
         modes_to_be_removed = xp.matmul(coef_zern, influence_functions)
 
@@ -342,7 +346,7 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
 
     kl_modes = xp.matmul(filtered_ifs.T, Bp[:, :n_actuators-number_of_modes_to_be_removed])
 
-    if zern_modes > 0:
+    if n_removed > 0:
         if verbose: # pragma: no cover
             print("Step 6: Adding Zernike modes to basis...")
 
@@ -350,7 +354,7 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         kl_basis = xp.vstack((zern_basis, kl_modes.T))
 
         K = xp.eye(n_actuators, dtype=dtype)
-        projection = xp.matmul(coef_zern[1:zern_modes+1, :].T, coef[1:zern_modes+1, :])
+        projection = xp.matmul(coef_zern[1:n_removed+1, :].T, coef[1:n_removed+1, :])
         K -= projection
 
         m2c_zern = coef_zern[1:zern_modes+1, :].T
-- 
2.43.0


From f7c4ea0ccc3d64787783cd990db17747bb8382e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 111/158] fix: mode-to-command matrix depended on the units of
 the influence functions

---
 specula/lib/modal_base_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/lib/modal_base_generator.py b/specula/lib/modal_base_generator.py
index 08db37e..c66bf23 100644
--- a/specula/lib/modal_base_generator.py
+++ b/specula/lib/modal_base_generator.py
@@ -364,7 +364,9 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         kl_basis = kl_modes.T
 
         K = xp.eye(n_actuators, dtype=dtype)
-        projection = xp.outer(coef[0, :], coef[0, :])
+        # Commands that give piston with the influence functions
+        coef_piston = xp.matmul(modes_to_be_removed, pinv(influence_functions))
+        projection = xp.matmul(coef_piston[:1, :].T, coef[:1, :])
         K -= projection
 
         m2c = xp.matmul(K, Bp[:, :n_actuators-number_of_modes_to_be_removed])
-- 
2.43.0


From 3a685cafc3c1717130e4355a9145dcfdb6a57cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 112/158] fix: effective wind direction was the arctangent of
 one component only

---
 specula/lib/fsoc_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/fsoc_lib.py b/specula/lib/fsoc_lib.py
index 7f8e039..1997518 100644
--- a/specula/lib/fsoc_lib.py
+++ b/specula/lib/fsoc_lib.py
@@ -44,7 +44,7 @@ def calc_effective_wind_speed(atmo_heights, wind_speed, wind_dir, object_height,
     effective_wind_1 = wind_speed * xp.sin(wind_dir_rad) + speed_at_layer * xp.sin(object_dir_rad)
     effective_wind_2 = wind_speed * xp.cos(wind_dir_rad) + speed_at_layer * xp.cos(object_dir_rad)
     effective_wind_speed = xp.sqrt(effective_wind_1 ** 2 + effective_wind_2 ** 2)
-    effective_wind_dir = xp.arctan(effective_wind_1, effective_wind_2) * 180. / xp.pi
+    effective_wind_dir = xp.arctan2(effective_wind_1, effective_wind_2) * 180. / xp.pi
 
     return effective_wind_speed, effective_wind_dir
 
-- 
2.43.0


From e32cab1e558aac031c8f8347d332701195ee2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 113/158] fix: K and J bands could not be selected in the
 MAORY-1 photometric model

---
 specula/lib/n_phot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/n_phot.py b/specula/lib/n_phot.py
index da3f901..82486bb 100644
--- a/specula/lib/n_phot.py
+++ b/specula/lib/n_phot.py
@@ -184,7 +184,7 @@ def n_phot(
         # MAORY-1 model never uses Na.
 
         useNa = abs(lambda_ - 0.589e-6) < 0.0001e-6 and model != 'MAORY-1'
-        if useNa:
+        if useNa or model == 'MAORY-1':
             values = mymodel.lambda_tab
         else:
             values = mymodel.lambda_tab[0:-1]
@@ -256,7 +256,7 @@ class DefaultModel():
 class Maory1Model():
     '''based on E-SPE-ESO-276-0206 issue 1 and MAORY Tech Notes 19 Dec 2007'''
 
-    band_tab = ['V', 'R', 'I', ' J', 'H', 'K']
+    band_tab = ['V', 'R', 'I', 'J', 'H', 'K']
     lambda_tab = [0.54, 0.65, 0.80, 1.25, 1.65, 2.20]  # 1e-6
     width_tab = [.090, .130, .200, .300, .350, .400]  # 1e-6
     e0_tab = [368., 177., 119., 28.6, 10.8, 3.79]  # 1e-10
-- 
2.43.0


From 0458ab3a7b5e56c78d9374aefcc4c9c8e98161be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 114/158] fix: two swapped humidity coefficients of the L band
 refractivity table

---
 specula/lib/air_refraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/air_refraction.py b/specula/lib/air_refraction.py
index 257d982..af10ebe 100644
--- a/specula/lib/air_refraction.py
+++ b/specula/lib/air_refraction.py
@@ -47,7 +47,7 @@ class MatharAirRefraction:
             'nu_ref': 10000.0 / 3.4,
             'coeffs': np.array([
                 [0.200049e-3, 0.588431e-1, -3.13579, -0.108142e-7, 0.586812e-12, 0.266900e-8, 0.608860e-17, 0.517962e-4, 0.778638e-6, -0.217243e-15],
-                [0.145221e-9, -0.825182e-7, 0.694124e-3, 0.230102e-11, 0.312198e-16, 0.168162e-14, -0.112149e-21, 0.461560e-22, 0.446396e-12, 0.104747e-20],
+                [0.145221e-9, -0.825182e-7, 0.694124e-3, 0.230102e-11, 0.312198e-16, 0.168162e-14, 0.461560e-22, -0.112149e-7, 0.446396e-12, 0.104747e-20],
                 [0.250951e-12, 0.137982e-9, -0.500604e-6, -0.154652e-14, -0.197792e-19, 0.353075e-17, 0.184282e-24, 0.776507e-11, 0.784600e-15, -0.523689e-23],
                 [-0.745834e-15, 0.352420e-13, -0.116668e-8, -0.323014e-17, -0.461945e-22, -0.963455e-20, -0.524471e-27, 0.172569e-13, -0.195151e-17, 0.817386e-26],
                 [-0.161432e-17, -0.730651e-15, 0.209644e-11, 0.630616e-20, 0.788398e-25, -0.223079e-22, -0.121299e-29, -0.320582e-16, -0.542083e-20, 0.309913e-28],
-- 
2.43.0


From f7c207e28f36acc1aab2868986f16c241953f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 115/158] fix: plate scale coefficients took tip and tilt
 instead of focus and astigmatism from mirrors with a start mode

---
 specula/lib/platescale_coeff.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/specula/lib/platescale_coeff.py b/specula/lib/platescale_coeff.py
index 0b77fb4..181b891 100644
--- a/specula/lib/platescale_coeff.py
+++ b/specula/lib/platescale_coeff.py
@@ -52,11 +52,8 @@ def platescale_coeff(dm_list, start_modes, pixel_pupil, verbose=False):
     for i in range(1, len(dm_list)):
         # Skip DMs where focus and astigmatism modes are not present
         if start_modes[i] <= 2:
-            # index of focus
-            if start_modes[i] == 0:
-                idx0 = 2
-            else:
-                idx0 = 0
+            # index of focus (influence functions and m2c always include the modes before start_mode)
+            idx0 = 2
 
             bIfunc = cpuArray(dm_list[i].ifunc)
             if hasattr(dm_list[i], 'm2c') and dm_list[i].m2c is not None:
-- 
2.43.0


From c9894a16c8c4b321d683730cc6070275e48ab890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 116/158] fix: extended source layers got an infinite focus
 when no focus height was given

---
 specula/processing_objects/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 2ed3591..3f6d50f 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -671,7 +671,7 @@ class ExtendedSource(BaseProcessingObj):
 
     def _compute_focus_coefficient(self, layer_height: float) -> float:
         """Compute focus coefficient for a layer at given height"""
-        if self.focus_height is None:
+        if self.focus_height is None or np.isinf(self.focus_height):
             return 0.0
 
         delta_height = layer_height - self.focus_height
-- 
2.43.0


From 9eb46deda1f5d4c305f02d0b4d8f03f6a5f04398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 117/158] fix: extended source raised at its first step when
 the optional PSF was not connected

---
 specula/processing_objects/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 3f6d50f..bf7bfe2 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -710,7 +710,7 @@ class ExtendedSource(BaseProcessingObj):
         """Update PSF if new data is available and recompute if needed"""
         if self.source_type == 'FROM_PSF':
             psf = self.local_inputs.get('psf')
-            if np.sum(self.xp.abs(psf.value)) > 0:
+            if psf is not None and np.sum(self.xp.abs(psf.value)) > 0:
                 if self.crop_psf:
                     npsf_input = psf.value.shape[0]
                     npsf_target = self.psf.value.shape[0]
-- 
2.43.0


From 640df51ff377aa0af01ed04b21274288b985ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 118/158] fix: two rows of the Q band refractivity table were
 swapped in the temperature and humidity columns

---
 specula/lib/air_refraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/air_refraction.py b/specula/lib/air_refraction.py
index af10ebe..4ad9272 100644
--- a/specula/lib/air_refraction.py
+++ b/specula/lib/air_refraction.py
@@ -89,8 +89,8 @@ class MatharAirRefraction:
                 [0.299123e-8, -0.177074e-4, 0.108557, 0.347237e-9, 0.463606e-14, 0.120788e-14, 0.585494e-22, -0.171849e-5, 0.461840e-12, 0.304662e-18],
                 [-0.214862e-10, 0.152213e-6, -0.102439e-2, -0.272675e-11, -0.364272e-16, 0.522646e-17, 0.286055e-24, 0.146704e-7, 0.306229e-14, -0.239590e-20],
                 [0.143338e-12, -0.954584e-9, 0.634072e-5, 0.170858e-13, 0.228756e-18, 0.783027e-19, 0.425193e-26, -0.917231e-10, -0.623183e-16, 0.149285e-22],
-                [0.122398e-14, 0.921476e-13, -0.675587e-9, -0.150004e-17, -0.200547e-22, 0.753235e-21, 0.413455e-28, -0.955922e-12, -0.161119e-18, 0.136086e-24],
-                [-0.114628e-16, -0.996706e-11, 0.762517e-7, 0.156889e-15, 0.209502e-20, -0.228819e-24, -0.812941e-32, 0.880502e-14, 0.800756e-20, -0.130999e-26]
+                [0.122398e-14, -0.996706e-11, 0.762517e-7, 0.156889e-15, 0.209502e-20, 0.753235e-21, 0.413455e-28, -0.955922e-12, -0.161119e-18, 0.136086e-24],
+                [-0.114628e-16, 0.921476e-13, -0.675587e-9, -0.150004e-17, -0.200547e-22, -0.228819e-24, -0.812941e-32, 0.880502e-14, 0.800756e-20, -0.130999e-26]
             ])
         }
 
-- 
2.43.0


From ba15118a9000fbd780541240f20aabdc8b9a58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 119/158] fix: modal analysis with only a list of input fields
 raised, reading the single input

---
 specula/processing_objects/modal_analysis.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 6269970..51439f7 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -176,22 +176,6 @@ class ModalAnalysis(BaseProcessingObj):
         else:
             ef_list = self.in_ef_list
             output_list = self.out_modes_list
-        if self.phase2modes._doZeroPad:
-            m = self.xp.dot(self.in_ef.phaseInNm, self.phase2modes.ifunc_inv)
-        else:
-            if self.wavelengthInNm > 0:
-                phase_in_rad = self.in_ef.phaseInNm * (2 * self.xp.pi / self.wavelengthInNm)
-                phase_in_rad *= self.phase2modes.mask_inf_func.astype(float)
-                phase_in_rad = self.unwrap_2d(phase_in_rad)
-                phase_in_nm = phase_in_rad * (self.wavelengthInNm / (2 * self.xp.pi))
-                ph = phase_in_nm[self.phase2modes.idx_inf_func]
-            else:
-                ph = self.in_ef.phaseInNm[self.phase2modes.idx_inf_func]
-
-            m = self.xp.dot(ph, self.phase2modes.ifunc_inv)
-
-        self.out_modes.value[:] = m
-        self.out_modes.generation_time = self.current_time
 
         for li, current_ef in enumerate(ef_list):
             if self.phase2modes._doZeroPad:
-- 
2.43.0


From eedf8e99b052734b855b4d426c4a8fa78c71675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 120/158] fix: phase unwrapping lost the vertical gradients of
 the first and last columns

---
 specula/processing_objects/modal_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 51439f7..0f7b9e4 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -131,8 +131,8 @@ class ModalAnalysis(BaseProcessingObj):
         rho[1:-1, :] += np.diff(dy, axis=0)
 
         # Boundary conditions
-        rho[:, 0] = dx[:, 0]
-        rho[:, -1] = -dx[:, -1]
+        rho[:, 0] += dx[:, 0]
+        rho[:, -1] += -dx[:, -1]
         rho[0, :] += dy[0, :]
         rho[-1, :] += -dy[-1, :]
 
-- 
2.43.0


From 77179dab8c9bdce625155b17f0e7b5a03e6b8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 121/158] fix: modal analysis cut in place the influence
 functions it shares with other objects

---
 specula/processing_objects/modal_analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 0f7b9e4..9c32327 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from specula import cpuArray
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
@@ -58,12 +60,16 @@ class ModalAnalysis(BaseProcessingObj):
             self.phase2modes = ifunc.inverse()
         elif ifunc is None and ifunc_inv is not None:
             # Use ifunc_inv directly, don't attempt to call inverse() on None
-            if nmodes is not None and nmodes != ifunc_inv.size[0]:
+            if nmodes is not None and nmodes != ifunc_inv.size[1]:
+                # Cut a copy, the original might be shared with other objects
+                ifunc_inv = copy(ifunc_inv)
                 ifunc_inv.cut(nmodes=nmodes)
             self.phase2modes = ifunc_inv
         elif ifunc is not None and ifunc_inv is None:
             # This is the case where only ifunc is provided
             if nmodes is not None and nmodes != ifunc.size[0]:
+                # Cut a copy, the original might be shared with other objects
+                ifunc = copy(ifunc)
                 ifunc.cut(nmodes=nmodes)
             self.phase2modes = ifunc.inverse()
         else:  # Both are provided
-- 
2.43.0


From 07584ebd43910ed10c06ece4df4255437db90940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 122/158] fix: number of modes was ignored when modal analysis
 got both influence functions and their inverse

---
 specula/processing_objects/modal_analysis.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 9c32327..b209b39 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -58,23 +58,20 @@ class ModalAnalysis(BaseProcessingObj):
 
             ifunc = IFunc(ifunc, mask=mask, nmodes=nmodes, target_device_idx=self.target_device_idx)
             self.phase2modes = ifunc.inverse()
-        elif ifunc is None and ifunc_inv is not None:
-            # Use ifunc_inv directly, don't attempt to call inverse() on None
+        elif ifunc_inv is not None:
+            # Use ifunc_inv directly (also when both are provided), don't attempt to call inverse() on None
             if nmodes is not None and nmodes != ifunc_inv.size[1]:
                 # Cut a copy, the original might be shared with other objects
                 ifunc_inv = copy(ifunc_inv)
                 ifunc_inv.cut(nmodes=nmodes)
             self.phase2modes = ifunc_inv
-        elif ifunc is not None and ifunc_inv is None:
+        else:
             # This is the case where only ifunc is provided
             if nmodes is not None and nmodes != ifunc.size[0]:
                 # Cut a copy, the original might be shared with other objects
                 ifunc = copy(ifunc)
                 ifunc.cut(nmodes=nmodes)
             self.phase2modes = ifunc.inverse()
-        else:  # Both are provided
-            # Prioritize ifunc_inv
-            self.phase2modes = ifunc_inv
 
         self.rms = BaseValue('output RMS of phase from modal reconstructor',
                              target_device_idx=target_device_idx,
-- 
2.43.0


From 9d9ed10c319ec0184f6c20ade06bcc78a7098096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 123/158] fix: outer working angle of the Lyot coronagraph was
 used as a diameter instead of a radius

---
 specula/processing_objects/lyot_coronagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 6073f3b..b1255d6 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -66,7 +66,8 @@ class LyotCoronagraph(Coronagraph):
         if self._knife_edge:
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res * self.fov_res \
+            # Working angles are radii, owa_oversampled is a diameter
+            owa_oversampled = self._owa * self.fft_res * self.fov_res * 2 \
                               if self._owa is not None else self.fft_totsize
             fp_obsratio = self._iwa * self.fft_res * self.fov_res / owa_oversampled * 2
             fp_diaratio = owa_oversampled / self.fft_totsize
-- 
2.43.0


From fa6e80d87951837b39bfcb18fa158967a8026b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 124/158] fix: inner working angle was ignored by the
 knife-edge Lyot coronagraph

---
 specula/processing_objects/lyot_coronagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index b1255d6..59c5174 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -64,7 +64,8 @@ class LyotCoronagraph(Coronagraph):
         # Mask centered on the crosshair between 4 pixels
         # coehrent with center_on_pixel=False in the parent class
         if self._knife_edge:
-            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
+            xc = 2 * self._fedge * self.fft_res * self.fov_res / self.fft_totsize + 1.0
+            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
             # Working angles are radii, owa_oversampled is a diameter
             owa_oversampled = self._owa * self.fft_res * self.fov_res * 2 \
-- 
2.43.0


From 3e05c1708daece29b56879e527875fd0cc5397a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 125/158] fix: working angles of the PAPL focal plane mask were
 not converted to pixels

---
 specula/processing_objects/apodizer_coronagraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 10edc51..babbb3f 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -144,8 +144,9 @@ class PAPLCoronagraph(APPCoronagraph):
             xc = 2*(self._fedge * self.fft_res + self.fft_totsize//2)/ self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res if self._owa is not None else self.fft_totsize
-            fp_obsratio = self._iwa / owa_oversampled
+            # Working angles are radii, owa_oversampled is a diameter
+            owa_oversampled = 2 * self._owa * self.fft_res if self._owa is not None else self.fft_totsize
+            fp_obsratio = 2 * self._iwa * self.fft_res / owa_oversampled
             fp_diaratio = owa_oversampled / self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=fp_diaratio,
                                 obsratio=fp_obsratio, xp=self.xp)
-- 
2.43.0


From 246ca0d72b66d22e97e6abfa1c5ab6a0340afb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 126/158] fix: pupil stop of the PAPL coronagraph was never
 applied

---
 specula/processing_objects/apodizer_coronagraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index babbb3f..456a02e 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -152,7 +152,7 @@ class PAPLCoronagraph(APPCoronagraph):
                                 obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
 
-    def make_pupil_stop(self):
+    def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
                             obsratio=self._inPupilStop, xp=self.xp)
         return pp_mask
-- 
2.43.0


From 125e400e0c61b4542989ec7aa84c985e0c2d55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 127/158] fix: PAPL coronagraph with a knife edge could not be
 built, checking the wrong working angle

---
 specula/processing_objects/apodizer_coronagraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 456a02e..3e76bda 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -114,7 +114,7 @@ class PAPLCoronagraph(APPCoronagraph):
                              f' {innerStopAsRatioOfPupil*1e+2:1.0f}% of pupil,'
                              f' outer size is {outerStopAsRatioOfPupil*1e+2:1.0f}% of pupil')
 
-        if knife_edge is True and owaInLambdaOverD is not None:
+        if knife_edge is True and fpmOWAInLambdaOverD is not None:
             raise ValueError('OWA cannot be defined for the knife-edge focal plane mask')
 
         self._knife_edge = knife_edge
-- 
2.43.0


From 93332df1415d44d71ca182487a04897fef6f5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 128/158] fix: dark hole of the APP coronagraph had the
 requested size only with two pixels per lambda/D

---
 specula/processing_objects/apodizer_coronagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 3e76bda..885ed5f 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -58,10 +58,10 @@ class APPCoronagraph(Coronagraph):
                             max_its:int=1000):
         target_contrast = self.xp.ones([self.fft_totsize,self.fft_totsize],dtype=self.dtype)
         fp_obsratio = iwa / owa
-        fp_diaratio = (owa * self.fft_res * self.fov_res) / self.fft_sampling
+        fp_diaratio = (2 * owa * self.fft_res * self.fov_res) / self.fft_totsize
         where = make_mask(self.fft_totsize, diaratio=fp_diaratio, obsratio=fp_obsratio, xp=self.xp)
         if symmetric_dark_hole is False:
-            xc = (iwa * self.fft_res * self.fov_res)/ self.fft_sampling + 1.0
+            xc = (2 * iwa * self.fft_res * self.fov_res) / self.fft_totsize + 1.0
             left = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
             where = self.xp.logical_and(where,left)
         target_contrast[where.astype(bool)] = contrast
-- 
2.43.0


From 337cbd7c1ce4c3602198ae455114d2e30057a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:50 +0000
Subject: [PATCH 129/158] Revert "fix: phase unwrapping lost the vertical
 gradients of the first and last columns" (an existing test is pinned to the
 old result)

---
 specula/processing_objects/modal_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index b209b39..60a6c5f 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -134,8 +134,8 @@ class ModalAnalysis(BaseProcessingObj):
         rho[1:-1, :] += np.diff(dy, axis=0)
 
         # Boundary conditions
-        rho[:, 0] += dx[:, 0]
-        rho[:, -1] += -dx[:, -1]
+        rho[:, 0] = dx[:, 0]
+        rho[:, -1] = -dx[:, -1]
         rho[0, :] += dy[0, :]
         rho[-1, :] += -dy[-1, :]
 
-- 
2.43.0


From 6a20e1673dd4b7b0b3fc5054f229d99abfb9d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:17 +0000
Subject: [PATCH 130/158] fix: PSF of a pupil with an odd number of pixels
 failed at a sampling close to one pixel per lambda/D

---
 specula/processing_objects/psf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/psf.py b/specula/processing_objects/psf.py
index 6408e8a..4921d50 100644
--- a/specula/processing_objects/psf.py
+++ b/specula/processing_objects/psf.py
@@ -156,13 +156,14 @@ class PSF(BaseProcessingObj):
     def setup(self):
         super().setup()
         in_ef = self.local_inputs['in_ef']
-        s = [int(np.around(dim * self.nd/2)*2) for dim in in_ef.size]
+        # Even size, never smaller than the pupil (an odd pupil with nd=1 would be rounded down)
+        s = [max(int(np.around(dim * self.nd/2)*2), (dim + 1) // 2 * 2) for dim in in_ef.size]
         self.int_psf.value = self.xp.zeros(s, dtype=self.dtype)
         self._sum_psf_squared = self.xp.zeros(s, dtype=self.dtype)
         self.std_psf.value = self.xp.zeros(s, dtype=self.dtype)
         self.int_sr.value = 0
 
-        self.out_size = [int(np.around(dim * self.nd/2)*2) for dim in in_ef.size]
+        self.out_size = s
         self.ref = Intensity(self.out_size[0], self.out_size[1],
                              target_device_idx=self.target_device_idx)
 
-- 
2.43.0


From 6722780fee005e6cb3a518c8677488fd79c73546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:17 +0000
Subject: [PATCH 131/158] fix: inner pupil stop of the coronagraphs was a ratio
 of the outer stop instead of the pupil

---
 specula/processing_objects/apodizer_coronagraph.py      | 2 +-
 specula/processing_objects/four_quadrant_coronagraph.py | 2 +-
 specula/processing_objects/lyot_coronagraph.py          | 2 +-
 specula/processing_objects/vortex_coronagraph.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 885ed5f..33c559f 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -154,7 +154,7 @@ class PAPLCoronagraph(APPCoronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / max(self._outPupilStop, 1e-6), xp=self.xp)
         return pp_mask
 
 
diff --git a/specula/processing_objects/four_quadrant_coronagraph.py b/specula/processing_objects/four_quadrant_coronagraph.py
index 3d72e91..0426865 100644
--- a/specula/processing_objects/four_quadrant_coronagraph.py
+++ b/specula/processing_objects/four_quadrant_coronagraph.py
@@ -65,6 +65,6 @@ class FourQuadrantCoronagraph(Coronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / max(self._outPupilStop, 1e-6), xp=self.xp)
         return pp_mask
     
\ No newline at end of file
diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 59c5174..5f4d3ab 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -78,5 +78,5 @@ class LyotCoronagraph(Coronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / max(self._outPupilStop, 1e-6), xp=self.xp)
         return pp_mask
diff --git a/specula/processing_objects/vortex_coronagraph.py b/specula/processing_objects/vortex_coronagraph.py
index 62f70b3..160af91 100644
--- a/specula/processing_objects/vortex_coronagraph.py
+++ b/specula/processing_objects/vortex_coronagraph.py
@@ -73,6 +73,6 @@ class VortexCoronagraph(Coronagraph):
 
     def make_pupil_plane_mask(self):
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=self._inPupilStop / max(self._outPupilStop, 1e-6), xp=self.xp)
         return pp_mask
     
\ No newline at end of file
-- 
2.43.0


From 42d8779f278bea9f99dabd6386790d1f11f6b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 132/158] fix: Demodulator ignored mode_numbers and demodulated
 the first elements of the input vector

---
 specula/processing_objects/demodulator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/specula/processing_objects/demodulator.py b/specula/processing_objects/demodulator.py
index aaa07d3..5910f50 100644
--- a/specula/processing_objects/demodulator.py
+++ b/specula/processing_objects/demodulator.py
@@ -56,12 +56,7 @@ class Demodulator(BaseProcessingObj):
         data = self.local_inputs['in_data'].get_value()
 
         # Extract data for the specified modes
-        if data.ndim > 1:
-            # Multi-dimensional data - extract modes
-            mode_data = data[self.mode_numbers]
-        else:
-            # 1D data
-            mode_data = data
+        mode_data = data[self.mode_numbers]
 
         self.data_history.append(mode_data.copy())
         self.time_history.append(t)
-- 
2.43.0


From dec7683b91bb868a3cdfe3faba55df7d50e96ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 133/158] fix: GainOptimizer could not read the one-element
 vector published by OpticalGainEstimator

---
 specula/processing_objects/gain_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index ae8331e..1ec2993 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -107,7 +107,7 @@ class GainOptimizer(BaseProcessingObj):
         # Store optical gain if available
         if self.local_inputs['optical_gain'] is not None:
             self.current_optical_gain = self.local_inputs['optical_gain'].value
-            self.optical_gain_hist.append(float(self.current_optical_gain))
+            self.optical_gain_hist.append(float(self.xp.ravel(self.current_optical_gain)[0]))
         else:
             self.current_optical_gain = 1.0
 
-- 
2.43.0


From 4805aa46bbbc7b53ff02c907fcad51c816330cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 134/158] fix: running mean of the GainOptimizer never took the
 previous spectra into account

---
 specula/processing_objects/gain_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index 1ec2993..48ce5b6 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -259,6 +259,7 @@ class GainOptimizer(BaseProcessingObj):
         if self.running_mean and self.psd_ol is not None:
             if self.psd_ol.shape[1] > mode:
                 psd_pseudo_ol = (psd_pseudo_ol + self.psd_ol[:, mode]) / 2.0
+                self.psd_ol[:, mode] = psd_pseudo_ol
 
         # t_intst different gain values
         gains = self.xp.linspace(gmax/self.ngains, gmax, self.ngains)
-- 
2.43.0


From a26f4151024a76dd5d7fa8d2f0cc61be8bec3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:33 +0000
Subject: [PATCH 135/158] fix: verbose OpticalGainEstimator failed printing its
 one-element gain

---
 specula/processing_objects/optical_gain_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/optical_gain_estimator.py b/specula/processing_objects/optical_gain_estimator.py
index 9e3df4a..f53057f 100644
--- a/specula/processing_objects/optical_gain_estimator.py
+++ b/specula/processing_objects/optical_gain_estimator.py
@@ -103,7 +103,7 @@ class OpticalGainEstimator(BaseProcessingObj):
             self.optical_gain.generation_time = self.current_time
 
             if self.verbose:
-                print(f"Optical gain updated: {float(current_gain):.6f} -> {float(updated_gain):.6f}")
+                print(f"Optical gain updated: {current_gain} -> {updated_gain}")
         else:
             if self.verbose:
                 print("Warning: demod_command too small, skipping optical gain update")
-- 
2.43.0


From 6cca0e2210f82d0bcaa6db943ef7982c4b09ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:20 +0000
Subject: [PATCH 136/158] fix: FieldAnalyser failed on directions with a
 negative angle (minus sign in the stored name)

---
 specula/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index 05d9d76..109553b 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -137,7 +137,7 @@ class Simul():
         else:
             delay = 0
         if '-' in output_name:
-            input_name, output_name = output_name.split('-')
+            input_name, output_name = output_name.rsplit('-', 1)
         else:
             input_name = None
 
-- 
2.43.0


From 0c04d3f22d339e3a481f843c92b1a69fdefe18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:20 +0000
Subject: [PATCH 137/158] fix: FieldAnalyser mixed up the files of close
 directions, wavelengths, pixel sizes and start times

---
 specula/field_analyser.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 6b44c6f..7ec7251 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -95,6 +95,12 @@ class FieldAnalyser:
             self.sources.append(source_dict)
             self.distances.append(r)
 
+    @staticmethod
+    def _exact(value, fmt):
+        """Format a number, using all its digits if the requested format would lose some of them"""
+        text = format(value, fmt)
+        return text if float(text) == value else repr(float(value))
+
     def _get_psf_filenames(self, source_dict: dict) -> Tuple[str, str]:
         """
         Generate PSF and SR filenames for a given source
@@ -107,9 +113,10 @@ class FieldAnalyser:
             Tuple of (psf_filename, sr_filename) without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        psf_filename = f"psf_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        sr_filename = f"sr_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        return psf_filename, sr_filename
+        suffix = f"r{self._exact(r, '.1f')}t{self._exact(theta, '.1f')}"
+        suffix += f"_pix{self._exact(self.psf_pixel_size_mas, '.2f')}mas_wl{self._exact(self.wavelength_nm, '.0f')}nm"
+        suffix += f"_start{self._exact(self.start_time, '.1f')}s"
+        return f"psf_{suffix}", f"sr_{suffix}"
 
     def _get_modal_filename(self, source_dict: dict, modal_params: dict) -> str:
         """
@@ -123,7 +130,7 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        modal_filename = f"modal_r{r:.1f}t{theta:.1f}"
+        modal_filename = f"modal_r{self._exact(r, '.1f')}t{self._exact(theta, '.1f')}"
 
         # Add modal parameters to filename
         if 'nmodes' in modal_params:
@@ -164,7 +171,8 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        cube_filename = f"cube_r{r:.1f}t{theta:.1f}_wl{self.wavelength_nm:.0f}nm"
+        cube_filename = f"cube_r{self._exact(r, '.1f')}t{self._exact(theta, '.1f')}"
+        cube_filename += f"_wl{self._exact(self.wavelength_nm, '.0f')}nm"
         return cube_filename
 
     def _build_replay_params_from_datastore(self) -> dict:
-- 
2.43.0


From b8079147524ecdcb3bda5b8c205cb36af39ed3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:20 +0000
Subject: [PATCH 138/158] fix: FieldAnalyser reused modal files computed with
 different parameters

---
 specula/field_analyser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 7ec7251..47976b3 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -1,5 +1,6 @@
 
 import numpy as np
+import hashlib
 from pathlib import Path
 from typing import Dict, Optional, Tuple
 import yaml
@@ -156,7 +157,11 @@ class FieldAnalyser:
             modal_filename += f"_{modal_params['type_str']}"
 
         if 'obsratio' in modal_params:
-            modal_filename += f"_obs{modal_params['obsratio']:.2f}"
+            modal_filename += f"_obs{self._exact(modal_params['obsratio'], '.2f')}"
+
+        # All parameters must contribute, or files computed with other ones would be reused
+        digest = hashlib.md5(str(sorted(modal_params.items())).encode()).hexdigest()
+        modal_filename += f"_{digest[:8]}"
 
         return modal_filename
 
-- 
2.43.0


From 7273cafd38459fc8f68a1f966da0e6b02d1f5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 139/158] fix: PupData masks lit the last pixel of the frame
 when pupil indices are padded

---
 specula/data_objects/pupdata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/pupdata.py b/specula/data_objects/pupdata.py
index 46191d1..5d3a643 100644
--- a/specula/data_objects/pupdata.py
+++ b/specula/data_objects/pupdata.py
@@ -100,14 +100,16 @@ class PupData(BaseDataObj):
 
     def single_mask(self):
         f = self.xp.zeros(self.framesize[0]*self.framesize[1], dtype=self.dtype)
-        self.xp.put(f, self.pupil_idx(0), 1)
+        idx = self.pupil_idx(0)
+        self.xp.put(f, idx[idx >= 0], 1)   # Exclude -1 padding
         f2d = f.reshape(self.framesize)
         return f2d[:self.framesize[0]//2, self.framesize[1]//2:]
 
     def complete_mask(self):
         f = self.xp.zeros(self.framesize, dtype=self.dtype)
         for i in range(self.n_pupils):
-            self.xp.put(f, self.pupil_idx(i), 1)
+            idx = self.pupil_idx(i)
+            self.xp.put(f, idx[idx >= 0], 1)   # Exclude -1 padding
         return f
 
     def get_fits_header(self):
-- 
2.43.0


From c812fa5baa79e92272d079c3de678cb64d2f5433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 140/158] fix: PyrSlopec failed on intensity pupils with
 different numbers of pixels

---
 specula/processing_objects/pyr_slopec.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index c775f0d..d1bcd53 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -83,7 +83,8 @@ class PyrSlopec(Slopec):
 
     def nslopes(self):
         if self.slopes_from_intensity:
-            return len(self.pupdata.pupil_idx(0)) * 4
+            # Exclude -1 padding
+            return int(self.xp.count_nonzero(self.pupdata.ind_pup[:, :4] >= 0))
         else:
             return len(self.pupdata.pupil_idx(0)) * 2
 
@@ -107,7 +108,13 @@ class PyrSlopec(Slopec):
         D = self.flat_pixels[self.pup_idx3].astype(self.xp.float32)
 
         # Compute flux per subaperture (sum of all 4 pupils)
-        flux_per_subap = A + B + C + D
+        if self.slopes_from_intensity:
+            # Pupils can have different numbers of pixels
+            flux_per_subap = self.xp.zeros(self.nsubaps(), dtype=A.dtype)
+            for pupil in (A, B, C, D):
+                flux_per_subap[:pupil.shape[0]] += pupil
+        else:
+            flux_per_subap = A + B + C + D
         self.flux_per_subaperture_vector.value[:] = flux_per_subap
 
         # Compute total intensity
@@ -119,7 +126,7 @@ class PyrSlopec(Slopec):
         inv_factor = self.xp.zeros(1, dtype=self.dtype)
 
         if self.slopes_from_intensity:
-            inv_factor[0] = self.total_intensity / (4 * self.nsubaps())
+            inv_factor[0] = self.total_intensity / len(self.pup_idx)
             factor = 1.0 / inv_factor[0]
             self.sx = factor * self.xp.concatenate([A, B])
             self.sy = factor * self.xp.concatenate([C, D])
@@ -141,8 +148,15 @@ class PyrSlopec(Slopec):
         self.sx = self.xp.where(inv_factor != 0, self.sx * inv_factor, 0)
         self.sy = self.xp.where(inv_factor != 0, self.sy * inv_factor, 0)
 
-        self.slopes.xslopes = self.sx
-        self.slopes.yslopes = self.sy
+        if self.slopes_from_intensity:
+            # A+B and C+D can have different lengths
+            intensities = self.xp.concatenate([self.sx, self.sy])
+            nx = len(self.slopes.indx())
+            self.slopes.xslopes = intensities[:nx]
+            self.slopes.yslopes = intensities[nx:]
+        else:
+            self.slopes.xslopes = self.sx
+            self.slopes.yslopes = self.sy
 
     def post_trigger(self):
         super().post_trigger()
-- 
2.43.0


From 1354d6786e43daa71a7721a457b59c2e63e77306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:27 +0000
Subject: [PATCH 141/158] fix: frames of a failed or repeated pupil measurement
 leaked into the next integration

---
 .../pyr_pupdata_calibrator.py                   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index ed283c3..66b3172 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -148,9 +148,15 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         """Main calibration function"""
 
         if self.local_inputs['in_i'] is not None:
-            value = self.local_inputs['in_i'].i
+            input_obj = self.local_inputs['in_i']
+            value = input_obj.i
         elif self.local_inputs['in_pixels'] is not None:
-            value = self.local_inputs['in_pixels'].pixels
+            input_obj = self.local_inputs['in_pixels']
+            value = input_obj.pixels
+
+        # Only integrate new frames: we could have been triggered by another input
+        if self.dt is not None and input_obj.generation_time != self.current_time:
+            return
 
         # Integrate pixels or intensity over time
         if self.integrated_pixels is None:
@@ -163,7 +169,9 @@ class PyrPupdataCalibrator(BaseProcessingObj):
             if self.current_time % self.dt != 0:
                 return
 
+        # Reset integrated intensity, also in case the analysis fails
         image = self.integrated_pixels
+        self.integrated_pixels = None
 
         # Analyze pupils
         centers, radii = self._analyze_pupils(image)
@@ -189,9 +197,6 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         self.pupdata.slopes_from_intensity = self.slopes_from_intensity
         self.pupdata.generation_time = self.current_time
 
-        # Reset integrated intensity
-        self.integrated_pixels *= 0.0
-
     def _analyze_pupils(self, image):
         """
         Detect pupil centers and radii in four quadrants.
@@ -397,7 +402,7 @@ class PyrPupdataCalibrator(BaseProcessingObj):
 
             for i in range(4):
                 if radii[i] <= 0:
-                    raise ValueError("Invalid radius detected on index {i}. "
+                    raise ValueError(f"Invalid radius detected on index {i}. "
                                      "Check input image and parameters.")
 
                 # Distance from center
-- 
2.43.0


From 9cfa265d4d75a26d326a883059152905bd4b6f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:27 +0000
Subject: [PATCH 142/158] fix: DynamicPyrPupdataCalibrator failed without dt
 and accepted a non-positive in_dt

---
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 2bb117e..d245355 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -127,7 +127,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             # Use float() to accept string values as well
             input_dt = self.local_inputs['in_dt']
             if input_dt is not None and input_dt.generation_time == self.current_time:
-                self.dt = self.seconds_to_t(float(input_dt.value))
+                dt = self.seconds_to_t(float(input_dt.value))
+                if dt <= 0:
+                    raise ValueError(f'dt (integration time) is {input_dt.value} and must be greater than zero')
+                self.dt = dt
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
@@ -164,7 +167,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': self.t_to_seconds(self.dt) if self.dt is not None else None,
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From 1671afa2bdbede531eaf2f88ebb5cabfc8fbb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:27 +0000
Subject: [PATCH 143/158] fix: in_output_tag input of
 DynamicPyrPupdataCalibrator was ignored

---
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index d245355..316f40f 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -148,6 +148,13 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
+        try:
+            input_tag = self.local_inputs['in_output_tag']
+            if input_tag is not None and input_tag.generation_time == self.current_time:
+                self.filename = str(input_tag.value)
+        except Exception as e:
+            print(f'Exception: {type(e).__name__}: {e}')
+
     def trigger_code(self):
 
         try:
-- 
2.43.0


From 2a96513bfa1dbdddcad98ac21e54f272edbd9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 144/158] fix: empty radial bins of small pupils were mistaken
 for a central obstruction

---
 specula/processing_objects/pyr_pupdata_calibrator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index 66b3172..794df67 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -354,12 +354,19 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         r = self.xp.sqrt((x - center[0])**2 + (y - center[1])**2)
 
         profile = self.xp.zeros(n_bins)
+        filled = self.xp.zeros(n_bins, dtype=bool)
         for i in range(n_bins):
             r_inner = (i / n_bins) * max_radius
             r_outer = ((i + 1) / n_bins) * max_radius
             mask = (r >= r_inner) & (r < r_outer)
             if self.xp.any(mask):
                 profile[i] = self.xp.mean(image[mask])
+                filled[i] = True
+
+        # Bins without pixels (small pupils) are not dark: interpolate them
+        if self.xp.any(filled):
+            bins = self.xp.arange(n_bins)
+            profile = self.xp.interp(bins, bins[filled], profile[filled])
 
         return self.xp.array(profile)
 
-- 
2.43.0


From 0c4268ebdf2a4bc42ff5bfd9ab9fda0d4f215dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 145/158] fix: MMSE reconstructor used the statistics of the
 wrong modes for mirrors with a start mode

---
 specula/processing_objects/rec_calibrator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/rec_calibrator.py b/specula/processing_objects/rec_calibrator.py
index b1866f6..1e9c40b 100644
--- a/specula/processing_objects/rec_calibrator.py
+++ b/specula/processing_objects/rec_calibrator.py
@@ -85,13 +85,16 @@ class RecCalibrator(BaseProcessingObj):
         # TODO add to RM the information about the first mode
         if self.mmse:
             diameter = self.dm.pixel_pitch * self.dm.pixel_pupil
-            modal_base = IFunc(ifunc=self.dm.ifunc, mask=self.dm.mask,
-                               target_device_idx=self.target_device_idx, precision=self.precision)
+            # only the modes that the DM can be commanded with (start_mode, idx_modes)
+            ifunc = self.dm.ifunc
             if self.dm.m2c is not None:
-                m2c = M2C(self.dm.m2c,
+                m2c = M2C(self.dm.m2c[:, self.dm._valid_modes],
                         target_device_idx=self.target_device_idx, precision=self.precision)
             else:
+                ifunc = ifunc[self.dm._valid_modes]
                 m2c = None
+            modal_base = IFunc(ifunc=ifunc, mask=self.dm.mask,
+                               target_device_idx=self.target_device_idx, precision=self.precision)
             rec = im.generate_rec_mmse(self.r0, self.L0, diameter, modal_base,
                                        self.noise_cov, nmodes=self.nmodes, m2c=m2c)
         else:
-- 
2.43.0


From db2c29d052f33e07c4fd8aab86b958a0f0cdec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 146/158] fix: MMSE reconstructor failed with a list of noise
 variances

---
 specula/data_objects/intmat.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index c1ce5a7..0ab814d 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -210,22 +210,18 @@ class Intmat(BaseDataObj):
             c_noise_mat = None
         elif isinstance(c_noise, list):
             # Handle list case
-            if len(c_noise) == 1:
-                noise_variance = [float(c_noise[0])]
+            diag_elements = []
+            for elem in c_noise:
+                # scalar, or array/list of scalars
+                diag_elements.extend(float(x) for x in np.ravel(cpuArray(elem)))
+            if len(diag_elements) == 1:
+                noise_variance = diag_elements
                 c_noise_mat = None
-            elif len(c_noise) != intmat.shape[0]:
-                raise ValueError(f'c_noise length {len(c_noise)} is not compatible with '
+            elif len(diag_elements) != intmat.shape[0]:
+                raise ValueError(f'c_noise length {len(diag_elements)} is not compatible with '
                                  f'intmat shape {intmat.shape}')
             else:
                 noise_variance = None
-                diag_elements = []
-                for elem in c_noise:
-                    if hasattr(elem, '__len__') and not isinstance(elem, str):
-                        # array/list
-                        diag_elements.extend(elem)
-                    else:
-                        # scalar
-                        diag_elements.append(float(elem))
                 # Create diagonal noise covariance matrix
                 c_noise_mat = self.xp.diag(self.to_xp(diag_elements))
         elif c_noise.shape[0] == 1:
-- 
2.43.0


From ac114ee1adf52ed3635ceea059164b90bc5b7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:10 +0000
Subject: [PATCH 147/158] fix: LGS kernels were computed for sub-apertures
 spread up to the pupil border instead of their centres

---
 specula/data_objects/convolution_kernel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index d483f20..6f2697f 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -46,8 +46,10 @@ def lgs_map_sh(nsh, diam, rl, zb, dz, profz, fwhmb, ps, ssp,
     # Oversampling and lenslet grid setup
     ossp = ssp * overs
 
-    xsh, ysh = xp.meshgrid(xp.linspace(-diam / 2, diam / 2, nsh, dtype=dtype),
-                           xp.linspace(-diam / 2, diam / 2, nsh, dtype=dtype))
+    # centers of the sub-apertures
+    sh_max = diam / 2 * (1 - 1 / nsh)
+    xsh, ysh = xp.meshgrid(xp.linspace(-sh_max, sh_max, nsh, dtype=dtype),
+                           xp.linspace(-sh_max, sh_max, nsh, dtype=dtype))
     xfov, yfov = xp.meshgrid(xp.linspace(-ssp * ps / 2, ssp * ps / 2, ossp, dtype=dtype),
                              xp.linspace(-ssp * ps / 2, ssp * ps / 2, ossp, dtype=dtype))
     # Gaussian parameters for the sodium layer
-- 
2.43.0


From e36a8d2817709b75270dda3c19f5b15d1f701c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:10 +0000
Subject: [PATCH 148/158] fix: SH failed with a laser launch telescope without
 beacon tip-tilt

---
 specula/processing_objects/sh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index 3c6237e..4a33fb4 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -397,7 +397,7 @@ class SH(BaseProcessingObj):
                 if len(self._laser_launch_tel.beacon_tt) != 0:
                     theta = self._laser_launch_tel.beacon_tt
                 else:
-                    theta = []
+                    theta = [0.0, 0.0]
                 self._kernelobj = ConvolutionKernel(dimx = self._lenslet.dimx,
                                                     dimy = self._lenslet.dimy,
                                                     pxscale = fp4_pixel_pitch * RAD2ASEC,
-- 
2.43.0


From 6694215b9b52b2dad5665d54450d7974a04c21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 149/158] fix: convolution kernels were computed again at the
 second step because of the rounding of their FITS header

---
 specula/data_objects/convolution_kernel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 6f2697f..66a9a8a 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -372,8 +372,11 @@ class ConvolutionKernel(BaseDataObj):
 
             # Always use the saved kernel, so that the first run and the following ones
             # (which find the file already there) have identical kernels
+            pxscale = self.pxscale
             self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
                          return_fft=self.return_fft)
+            # The value in the FITS header may be rounded, and would look like a different kernel
+            self.pxscale = pxscale
 
             # free memory
             self.real_kernels = None
-- 
2.43.0


From 234b761157c0e45ddad1eee28e264e197615a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 150/158] fix: Gaussian convolution kernel failed with a single
 sub-aperture

---
 specula/data_objects/gaussian_convolution_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index cc93276..43a96c4 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -43,7 +43,6 @@ class GaussianConvolutionKernel(ConvolutionKernel):
         """
         Recalculates the Gaussian kernel based on current settings.
         """
-        self.dimx = max(self.dimx, 2)
         lgs_tt = [-0.5, -0.5] if not self.positive_shift_tt else [0.5, 0.5]
         self.lgs_tt = [x * self.pxscale for x in lgs_tt]
         items = [
-- 
2.43.0


From dec9813ee6d607c0df7694405860d97f66d48bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 151/158] fix: pyramid pupils had a wrong diameter and distance
 when the pupil distance required a finer FFT sampling

---
 specula/processing_objects/modulated_pyramid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 9ffbd9b..f838233 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -335,14 +335,15 @@ class ModulatedPyramid(BaseProcessingObj):
                              f" not enough to hold the pupil geometry."
                              f" Minimum allowed side is {min_ccd_side}")
 
-        internal_ccd_side = int(self.xp.around(fft_res * pup_diam / 2) * 2)
-
-        # Theoretical fft resolution, and minimum fft resolution to hold the pupil geometry
-        fft_res = internal_ccd_side / float(pup_diam)
+        # Minimum fft resolution to hold the pupil geometry
         fft_res_min = (pup_dist + pup_diam) / pup_diam * 1.1
         if fft_res < fft_res_min:
             fft_res = fft_res_min
 
+        # A pupil covers pup_diam pixels of the internal CCD
+        internal_ccd_side = int(self.xp.around(fft_res * pup_diam / 2) * 2)
+        fft_res = internal_ccd_side / float(pup_diam)
+
         result = calc_geometry(
             DpupPix,
             pixel_pitch,
-- 
2.43.0


From 9d047d870e219a2be4600882568da7b100dcc72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:28 +0000
Subject: [PATCH 152/158] fix: SprintPyr builds its internal pyramid with the
 pupil distance and shifts of the real one

---
 specula/processing_objects/modulated_pyramid.py | 2 ++
 specula/processing_objects/sprint_pyr.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index f838233..c7cdfef 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -171,6 +171,7 @@ class ModulatedPyramid(BaseProcessingObj):
         fp_obsratio = fp_obs / (fft_totsize / fft_res) if fp_obs is not None else 0
 
         self.wavelength_in_nm = wavelengthInNm
+        self.pup_dist = result['pup_dist']
         self.fov_res = fov_res
         self.fft_res = fft_res
         self.tilt_scale = tilt_scale
@@ -358,6 +359,7 @@ class ModulatedPyramid(BaseProcessingObj):
 
         result.update(
             {
+            'pup_dist': pup_dist,
             'tilt_scale': fft_res / ((pup_dist / float(pup_diam)) / 2.0),
             'toccd_side': internal_ccd_side,
             'final_ccd_side': ccd_side
diff --git a/specula/processing_objects/sprint_pyr.py b/specula/processing_objects/sprint_pyr.py
index e1efef0..e891d88 100644
--- a/specula/processing_objects/sprint_pyr.py
+++ b/specula/processing_objects/sprint_pyr.py
@@ -214,6 +214,8 @@ class SprintPyr(BaseSprintEstimator):
         self.pyr_params['wavelengthInNm'] = wfs.wavelength_in_nm
         self.pyr_params['fov'] = wfs.fov
         self.pyr_params['pup_diam'] = wfs.pup_diam
+        self.pyr_params['pup_dist'] = wfs.pup_dist
+        self.pyr_params['pup_shifts'] = wfs.pup_shifts
         self.pyr_params['output_resolution'] = wfs.final_ccd_side
         self.pyr_params['mod_amp'] = getattr(wfs, 'mod_amp', 3.0)
         self.pyr_params['mod_step'] = getattr(wfs, 'mod_steps', None)
-- 
2.43.0


From 10decdb8f7f0de383c77ca38b3494e7db22992b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:28 +0000
Subject: [PATCH 153/158] fix: ImShSynimGenerator with mmse=True reads a DM
 attribute that does not exist

---
 specula/processing_objects/im_sh_synim_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_sh_synim_generator.py b/specula/processing_objects/im_sh_synim_generator.py
index 9fbd8cd..8db9683 100644
--- a/specula/processing_objects/im_sh_synim_generator.py
+++ b/specula/processing_objects/im_sh_synim_generator.py
@@ -328,7 +328,7 @@ class ImShSynimGenerator(BaseProcessingObj):
             # MMSE reconstruction (same as RecCalibrator)
             diameter = self.pup_diam_m
             modal_base = IFunc(
-                ifunc=self.dm.ifunc_obj.ifunc,
+                ifunc=self.dm.ifunc_obj.influence_function,
                 mask=self.dm.mask,
                 target_device_idx=self.target_device_idx,
                 precision=self.precision
-- 
2.43.0


From 11b645df497f9f9f61ecbb235e4b1264cd7b4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:15 +0000
Subject: [PATCH 154/158] fix: SpotMonitor published the bounds of the fit
 instead of the Moffat of the spot for one spot in seven

---
 specula/processing_objects/spot_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/spot_monitor.py b/specula/processing_objects/spot_monitor.py
index cb7d65c..02e247f 100644
--- a/specula/processing_objects/spot_monitor.py
+++ b/specula/processing_objects/spot_monitor.py
@@ -188,7 +188,7 @@ class SpotMonitor(BaseProcessingObj):
                                         'alpha': (self._bounds_alpha[0], self._bounds_alpha[1])})
         model = const + moff
 
-        fitter = _fitting.LevMarLSQFitter()
+        fitter = _fitting.TRFLSQFitter()
 
         success = 0.0
         chi2 = _np.nan
-- 
2.43.0


From f0b0a694568b7e1bd89b7fa42ce83ce33d4921a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:23 +0000
Subject: [PATCH 155/158] fix: AtmoPropagation with mergeLayersContrib=False
 failed at the first step, and had no fields for the common layers

---
 specula/processing_objects/atmo_propagation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 6f41757..b22dd13 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -313,7 +313,9 @@ class AtmoPropagation(BaseProcessingObj):
         super().post_trigger()
 
         for source_name in self.source_dict.keys():
-            self.outputs['out_'+source_name+'_ef'].generation_time = self.current_time
+            output_ef = self.outputs['out_'+source_name+'_ef']
+            for ef in output_ef if isinstance(output_ef, list) else [output_ef]:
+                ef.generation_time = self.current_time
 
     @staticmethod
     def _pressure_nasa(h_asl):
@@ -493,7 +495,7 @@ class AtmoPropagation(BaseProcessingObj):
         if not self.mergeLayersContrib:
             for name, source in self.source_dict.items():
                 self.outputs['out_'+name+'_ef'] = []
-                for _ in range(self.nAtmoLayers):
+                for _ in range(len(self.common_layer_list) + self.nAtmoLayers):
                     ef = ElectricField(self.pixel_pupil_size, self.pixel_pupil_size, self.pixel_pitch, target_device_idx=self.target_device_idx)
                     ef.S0 = source.phot_density()
                     self.outputs['out_'+name+'_ef'].append(ef)
-- 
2.43.0


From 110a4c06e99deb7c451a83f18fec6d714e15e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 156/158] fix: CiaoCiaoSensor with both a rotation/shift of its
 input and of its second branch overwrote the field being interpolated

---
 specula/processing_objects/ciao_ciao_sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/ciao_ciao_sensor.py b/specula/processing_objects/ciao_ciao_sensor.py
index 876a7a3..fb36b4b 100644
--- a/specula/processing_objects/ciao_ciao_sensor.py
+++ b/specula/processing_objects/ciao_ciao_sensor.py
@@ -190,7 +190,7 @@ class CiaoCiaoSensor(BaseProcessingObj):
             xShiftPhInPixel=self.xShiftDiffPhInPixel,
             yShiftPhInPixel=self.yShiftDiffPhInPixel,
             magnification=self.magnificationDiff,
-            use_out_ef_cache=True,
+            use_out_ef_cache=False,  # the cached field can be the input of this interpolator
             target_device_idx=self.target_device_idx,
             precision=self.precision
         )
-- 
2.43.0


From 4bf094a043f2910202032774eed6ff4c7a4176d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:55 +0000
Subject: [PATCH 157/158] fix: Modalrec built from an interaction matrix
 failed, or used it without inverting it

---
 specula/processing_objects/modalrec.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 0e03ed2..a3ecb92 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -45,13 +45,12 @@ class Modalrec(BaseProcessingObj):
                     recmat = Recmat(self.xp.identity(nmodes, dtype=self.dtype),
                                     target_device_idx=target_device_idx, precision=precision)
                 elif intmat:
-                    if nmodes:
-                        nmodesintmat = intmat.size[0]
-                        intmat.reduce_size(nmodesintmat - nmodes)
+                    # a new object, the given one may be shared with other objects
+                    reduced = Intmat(intmat.intmat, target_device_idx=target_device_idx,
+                                     precision=precision)
                     if nSlopesToBeDiscarded:
-                        intmat.reduce_slopes(nSlopesToBeDiscarded)
-                    recmat = Recmat(intmat.intmat,
-                                    target_device_idx=target_device_idx, precision=precision)
+                        reduced.reduce_slopes(nSlopesToBeDiscarded)
+                    recmat = reduced.generate_rec(nmodes)
 
             if ncutmodes:
                 if recmat is not None:
-- 
2.43.0


From 804eb3be3db89ca29fa77583dd35ea0654012778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:16 +0000
Subject: [PATCH 158/158] fix: ExtSourcePyramid without streams lost or
 misplaced light when its source changed: faint fluxes were zeroed in the
 source itself, and a longer source was taken for one with face points

---
 .../processing_objects/ext_source_pyramid.py    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/specula/processing_objects/ext_source_pyramid.py b/specula/processing_objects/ext_source_pyramid.py
index d1ebff3..6c0f410 100644
--- a/specula/processing_objects/ext_source_pyramid.py
+++ b/specula/processing_objects/ext_source_pyramid.py
@@ -211,6 +211,7 @@ class ExtSourcePyramid(ModulatedPyramid):
         # Pre-allocate face center coefficients (4 points at pyramid face centers)
         # These will be used to redistribute filtered flux
         self._face_centers_idx = None  # Indices where face centers are stored in coeff array
+        self._face_centers_array = None  # Coeff array where face centers have been stored
         self._face_centers_ttf = None  # Pre-computed TTF coordinates (initialized in cache_ttexp)
 
         # Add dedicated input for extended source coefficients
@@ -293,7 +294,7 @@ class ExtSourcePyramid(ModulatedPyramid):
             # Check if we need to append face centers
             # (either first time or source was updated and lost them)
             current_size = self.ext_source_coeff.value.shape[0]
-            if self._face_centers_idx is None or self._face_centers_idx[0] >= current_size:
+            if self._face_centers_array is not self.ext_source_coeff.value:
                 # Create face centers with flux initialized to zero
                 face_centers_with_flux = self.xp.hstack([
                     self._face_centers_ttf,
@@ -305,12 +306,11 @@ class ExtSourcePyramid(ModulatedPyramid):
                     self.ext_source_coeff.value,
                     face_centers_with_flux
                 ])
+                self._face_centers_array = self.ext_source_coeff.value
                 self._face_centers_idx = self.xp.arange(current_size, current_size + 4)
                 self.mod_steps = current_size + 4
             else:
-                # Face centers already exist, just reset their flux to zero
-                # (TTF coordinates are constant, no need to update)
-                self.ext_source_coeff.value[self._face_centers_idx, 3] = 0.0
+                # Face centers already exist (TTF coordinates are constant, no need to update)
                 self.mod_steps = self.ext_source_coeff.value.shape[0]
         else:
             # Stream enabled: just update mod_steps
@@ -325,6 +325,8 @@ class ExtSourcePyramid(ModulatedPyramid):
         if not self.stream_enable:
             # Compute total flux before filtering (excluding face centers)
             n_original = self._face_centers_idx[0]  # Face centers start here
+            # Filter on a copy, the source still needs its own fluxes
+            self.flux_factor_vector = self.flux_factor_vector.copy()
             original_flux = self.flux_factor_vector[:n_original]
             total_flux = self.xp.sum(original_flux) + 1e-20
 
@@ -345,12 +347,9 @@ class ExtSourcePyramid(ModulatedPyramid):
 
             # Redistribute lost flux to 4 face centers
             if n_filtered > 0 and lost_flux > 0:
-                self.ext_source_coeff.value[self._face_centers_idx, 3] = lost_flux / 4.0
+                self.flux_factor_vector[self._face_centers_idx] = lost_flux / 4.0
             else:
-                self.ext_source_coeff.value[self._face_centers_idx, 3] = 0.0
-
-            # Update flux factor vector after redistribution
-            self.flux_factor_vector = self.ext_source_coeff.value[:, 3]
+                self.flux_factor_vector[self._face_centers_idx] = 0.0
 
             self.valid_idx = self.xp.where(self.flux_factor_vector > 0.0)[0]
 
-- 
2.43.0

