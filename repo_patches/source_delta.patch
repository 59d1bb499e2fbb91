From 0a09e54aeedbacc12014098a11b0796a1e7dd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 1/9] fix: simulate LCOS phase with the sign the hologram
 algorithms use

calculate_hologram models the modulated light as input * exp(+1j * phase),
but the simulation multiplied by exp(-1j * phase), so the simulated image of
a computed hologram was the target mirrored through the optical axis.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..86c9418 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -482,7 +482,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j * tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From 05cf8fc6736493b93aec44f418e8620e6c390068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 2/9] fix: take the phase of the illumination into account in
 gs and mraf

The phase of the back-propagated field was used as the hologram phase and
then added to the phase of the illumination again, so holograms for light
with a phase profile (tilt, aberration) did not converge to the target.
---
 pySLM2/_lib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..4d9ead8 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -339,6 +339,8 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
+    # The hologram phase is added to the phase the light already has.
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
@@ -350,7 +352,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
 
@@ -379,6 +381,8 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         Hologram phase profile.
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
+    # The hologram phase is added to the phase the light already has.
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
 
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
@@ -399,6 +403,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
-- 
2.43.0


From b19b8697a592e00239462f7ca76e608221380770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 3/9] fix: fill the grid when a scalar profile is converted to
 a tensor

profile_to_tensor documents a tensor of the dimension of the grid, but
numbers gave a 0-d tensor, on which propagate_to_image and
calculate_hologram failed.
---
 pySLM2/slm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 86c9418..eae2f0b 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,6 +162,8 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
+        if tensor.shape.rank == 0:
+            tensor = tf.fill((self.Ny, self.Nx), tensor)
         return tensor
 
     def _state_tensor(self):
-- 
2.43.0


From 2a540dca5e3756dbcf15cfeecf993c86783afc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 4/9] fix: evaluate ConstantProfile at every coordinate

It returned a 0-d value whatever the shape of the coordinates, unlike every
other profile.
---
 pySLM2/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..9bc2a7a 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -175,7 +175,7 @@ class ConstantProfile(FunctionProfile):
 
     @tf.function
     def _func(self, x, y):
-        return self._c
+        return tf.fill(tf.shape(x + y), self._c)
 
     @property
     def c(self):
-- 
2.43.0


From 18304e194ac28a5f433147cb69b34f25cfc3e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 5/9] fix: reject Zernike indices with m < -n

Only n >= m was checked, so for example (n, m) = (1, -3) silently gave a
profile that is zero everywhere.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 9bc2a7a..649e724 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -379,8 +379,8 @@ class SuperGaussian(FunctionProfile):
 
 class Zernike(FunctionProfile):
     def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
-        if not n >= m:
-            raise ValueError("Zernike index m must be >= index n")
+        if not n >= abs(m):
+            raise ValueError("Zernike index n must be >= |m|")
 
         if (n - m) % 2 != 0:
             raise ValueError("Radial polynomial is zero for these inputs: m={}, n={} " +
-- 
2.43.0


From c1485b952869efddc614afaceb824a21581474dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 6/9] fix: make Zernike.n and Zernike.m readable

The indices are constants, not variables, so reading them raised
AttributeError.
---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 649e724..66ef145 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From 4928e6e6bb7e21f7e4c98d2e69a9ebc86868a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 7/9] fix: keep grey values when circular_patch draws on a
 boolean state

Assigning the result of method "ideal" into the boolean state turned every
nonzero grey value into a mirror that is fully on.
---
 pySLM2/slm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index eae2f0b..7e73323 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -267,6 +267,8 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
+        if dmd_state.dtype != self.dmd_state.dtype:
+            self.dmd_state = self.dmd_state.astype(np.result_type(self.dmd_state, dmd_state))
         self.dmd_state[mask] = dmd_state[mask]
 
     @staticmethod
-- 
2.43.0


From 298fcd1abe8d7975314cee9a222da8be5f7eedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 8/9] fix: leave slave mode when a single image is loaded after
 a sequence

load_multiple switches the ALP to slave mode. load_single kept that mode, so
its image was not displayed until an external trigger arrived.
---
 pySLM2/util/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..78c63ca 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -139,6 +139,8 @@ class ALPController(DMDControllerBase):
         # Prepare the dmd in available state
         self.alp.Halt()
         
+        # Set to master mode, as load_multiple leaves the device waiting for triggers
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
-- 
2.43.0


From c8482c7c1b9e9f33f682cc89f94f0738b5cb78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:09 +0000
Subject: [PATCH 9/9] fix: pass grating period and angle by value to the traced
 hologram functions

A traced function keeps only weak references to variables. Once the device whose
variables a cached trace was made with is gone, calculating a hologram with another
method that reuses the trace raised AssertionError (Called a function referencing
variables which have been deleted).
---
 pySLM2/_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 4d9ead8..99dbf9d 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -66,6 +66,9 @@ def calculate_dmd_grating(amp, phase_in, phase_out, x, y, p, theta, method="rand
         Additional parameters for the selected method.
     '''
     negative_order = tf.constant(negative_order, dtype=tf.bool)
+    # Pass the values: the traced functions below outlive the device and must not refer to its variables.
+    p = tf.convert_to_tensor(p, dtype=BACKEND.dtype)
+    theta = tf.convert_to_tensor(theta, dtype=BACKEND.dtype)
     if method == "ideal":
         return _calculate_dmd_grating_ideal(amp, phase_in, phase_out, x, y, p, theta, negative_order=negative_order)
     elif method == "simple":
-- 
2.43.0

