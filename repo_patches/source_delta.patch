From a9e452dbf5e77ad684173c0cc1335cdea8a8a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 01/18] fix: use the 32.5 m altitude the atmosphere database
 actually contains

---
 src/pybsm/simulation/scenario.py | 2 +-
 src/pybsm/utils.py               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pybsm/simulation/scenario.py b/src/pybsm/simulation/scenario.py
index b5c7617..f431802 100644
--- a/src/pybsm/simulation/scenario.py
+++ b/src/pybsm/simulation/scenario.py
@@ -35,7 +35,7 @@ class Scenario:
         with 5 km visibility)
     :parameter altitude:
         sensor height above ground level in meters; the database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500
     :parameter ground_range:
diff --git a/src/pybsm/utils.py b/src/pybsm/utils.py
index 3dfca4f..3169096 100644
--- a/src/pybsm/utils.py
+++ b/src/pybsm/utils.py
@@ -44,7 +44,7 @@ def load_database_atmosphere_no_interp(
 
     :param altitude:
         sensor height above ground level in meters.  The database includes the
-        following altitude options: 2 32.55 75 150 225 500 meters, 1000 to
+        following altitude options: 2 32.5 75 150 225 500 meters, 1000 to
         12000 in 1000 meter steps, and 14000 to 20000 in 2000 meter steps,
         24500 meters
     :param ground_range:
@@ -197,7 +197,7 @@ def load_database_atmosphere(
     altitude_array = np.array(
         [
             2,
-            32.55,
+            32.5,
             75,
             150,
             225,
-- 
2.43.0


From 9a90dafb8728ddd9690fb975e7443f8ac32392e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 02/18] fix: honour target_temp in
 reflectance_to_photoelectrons

---
 src/pybsm/radiance/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index 98e7e93..c0b564f 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -584,7 +584,7 @@ def reflectance_to_photoelectrons(
         # Calculate the total radiance from the target including both
         # reflection of the solar illumination and the radiative emission from
         # the object assumed to be at 300 K.
-        target_radiance = total_radiance(atm, ref[idx], 300.0)
+        target_radiance = total_radiance(atm, ref[idx], target_temp)
 
         wavelengths = atm[:, 0]
 
-- 
2.43.0


From 8f4525bd92309d95a83a8ab5bd40e3fe70ca3d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 03/18] fix: set the background temperature of emissive scenes
 in niirs and niirs5

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 423e7ac..a699df1 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -314,7 +314,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
@@ -475,7 +475,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
         nm.scenario.target_reflectance = 0.0
         nm.scenario.background_reflectance = 0.0
         nm.scenario.target_temperature = 282.0
-        nm.scenario.target_temperature = 280.0
+        nm.scenario.background_temperature = 280.0
 
     else:
         is_emissive = 0
-- 
2.43.0


From 551a4091871ab7326b12ccaf2c9bb5f7e31dad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 04/18] fix: leave the caller's sensor and scenario unmodified
 in niirs and niirs5

---
 src/pybsm/metrics/functional.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index a699df1..ae1a1b0 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -15,6 +15,7 @@ Maintainer: Kitware, Inc. <nrtk@kitware.com>
 """
 
 # standard library imports
+import copy
 import inspect
 import os
 import warnings
@@ -294,7 +295,7 @@ def niirs(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) ->
     # initialize the output
     nm = Metrics("niirs " + sensor.name + " " + scenario.name)
     nm.sensor = sensor
-    nm.scenario = scenario
+    nm.scenario = copy.copy(scenario)  # the caller's scenario stays as it is
     nm.slant_range = geospatial.curved_earth_slant_range(0.0, scenario.altitude, scenario.ground_range)
 
     # #########CONTRAST SNR CALCULATION#########
@@ -455,7 +456,7 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     # initialize the output
     nm = Metrics("niirs " + sensor.name + " " + scenario.name)
     nm.sensor = sensor
-    nm.scenario = scenario
+    nm.scenario = copy.copy(scenario)  # the caller's scenario stays as it is
     nm.slant_range = geospatial.curved_earth_slant_range(0.0, scenario.altitude, scenario.ground_range)
 
     # #########CONTRAST SNR CALCULATION#########
@@ -551,9 +552,11 @@ def niirs5(sensor: Sensor, scenario: Scenario, interp: Optional[bool] = False) -
     nm.uu, nm.vv = np.meshgrid(u_rng, v_rng)  # meshgrid of spatial frequencies out to the optics cutoff
     nm.df = u_rng[1] - u_rng[0]  # spatial frequency step size
 
-    sensor.filter_kernel = np.array([1])  # ensures that sharpening is turned off.  Not valid for GIQE5
+    # ensures that sharpening is turned off.  Not valid for GIQE5
+    unsharpened = copy.copy(sensor)
+    unsharpened.filter_kernel = np.array([1])
     nm.otf = otf.functional.common_OTFs(
-        sensor,
+        unsharpened,
         scenario,
         nm.uu,
         nm.vv,
-- 
2.43.0


From 35bf540173d286b8c8f742670bd82601b1c14c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 05/18] fix: use the annotate keywords matplotlib knows in
 plot_common_MTFs

---
 src/pybsm/metrics/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index ae1a1b0..3e096f7 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -746,8 +746,8 @@ def plot_common_MTFs(metrics: Metrics, orientation_angle: float = 0.0) -> int:
     plt.annotate(
         "",
         xy=(nyquist, 0),
-        xy_text=(nyquist, 0.1),
-        arrow_props=dict(face_color="black", shrink=0.05),
+        xytext=(nyquist, 0.1),
+        arrowprops=dict(facecolor="black", shrink=0.05),
     )
     return 0
 
-- 
2.43.0


From 265f39331e97be9e0484ab3bada7f31e288a517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 06/18] fix: put each noise label under its own bar

---
 src/pybsm/metrics/functional.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 3e096f7..2e0fc6b 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -784,9 +784,9 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
     ind = np.arange(noise_terms.shape[0])
     ax.bar(ind, noise_terms, color="b")
     ax.set_ylabel("RMS Photoelectrons")
+    ax.set_xticks(ind)
     ax.set_xticklabels(
         (
-            " ",
             "Total",
             "Scene",
             "Path",
@@ -797,8 +797,6 @@ def plot_noise_terms(metrics: Any, max_val: int = 0) -> int:
         ),
         rotation=45,
     )
-    # NOTE: I'm not sure why the first label is ingnored in the previous line
-    # of code seems to be a new issue when I transitions to Python 3.6
     plt.title(
         "total photoelectrons per pixel: "
         + str(int(metrics.snr.tgt_n))
-- 
2.43.0


From 54bb4a62702767d7cfe29fd746b1e17c29d1779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 07/18] fix: default vertical detector width keeps the
 horizontal fill factor

---
 src/pybsm/simulation/sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/sensor.py b/src/pybsm/simulation/sensor.py
index e54c823..2de5f18 100644
--- a/src/pybsm/simulation/sensor.py
+++ b/src/pybsm/simulation/sensor.py
@@ -191,7 +191,7 @@ class Sensor:
 
         if w_y is None:
             # Assume is same fill factor as along the x.
-            self.w_y = p_x / self.w_x * self.p_y
+            self.w_y = self.w_x / p_x * self.p_y
         else:
             self.w_y = w_y
 
-- 
2.43.0


From 32f52f5f914678c364fb0af4b4d75ccd21fc232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 08/18] fix: avoid undefined 8-bit values when the stretch
 percentiles coincide

---
 src/pybsm/simulation/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 089da12..29908e7 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -274,5 +274,5 @@ def stretch_contrast_convert_8bit(
     img = img.astype(float)
     img = img - np.percentile(img.ravel(), perc[0])
     img = img / (np.percentile(img.ravel(), perc[1]) / 255)
-    img = np.clip(img, 0, 255)
+    img = np.clip(np.nan_to_num(img), 0, 255)
     return np.round(img).astype(np.uint8)
-- 
2.43.0


From f65c9b5fd47758af76e14a6a8a60cc00383b50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 09/18] fix: include the sensor's other_irradiance in detected
 signals

---
 src/pybsm/radiance/functional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index c0b564f..b3a703f 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -444,6 +444,7 @@ def photon_detector_SNR(  # noqa: N802
             sensor.D,
             sensor.f,
         )
+        + sensor.other_irradiance
     )
 
     # initial estimate of  total detected target and background photoelectrons
@@ -621,6 +622,7 @@ def reflectance_to_photoelectrons(
             sensor.D,
             sensor.f,
         )
+        other_irradiance = other_irradiance + sensor.other_irradiance
 
         tgt_n_rate, tgt_FPA_irradiance, weights = signal_rate(  # noqa: N806
             wavelengths,
-- 
2.43.0


From 9b4d6ddd20a4ffdcd1f2ea5528f895d177548f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 10/18] fix: accept unit-sum kernels up to rounding in
 noise_gain

---
 src/pybsm/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/noise.py b/src/pybsm/noise.py
index 1c15e28..1cabcf2 100755
--- a/src/pybsm/noise.py
+++ b/src/pybsm/noise.py
@@ -53,7 +53,7 @@ def noise_gain(kernel: np.ndarray) -> float:
         ValueError:
             if values in kernel do not sum to 1
     """
-    if np.sum(kernel) != 1.0:
+    if not np.isclose(np.sum(kernel), 1.0):
         raise ValueError("Kernel does not sum to 1")
 
     ng = np.sqrt(np.sum(np.sum(kernel**2)))
-- 
2.43.0


From ab2cb5842aa44d99d634fe4b18648fd23416e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 11/18] fix: report the well-fill scale factor in SNRMetrics

---
 src/pybsm/radiance/functional.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pybsm/radiance/functional.py b/src/pybsm/radiance/functional.py
index b3a703f..57d12df 100755
--- a/src/pybsm/radiance/functional.py
+++ b/src/pybsm/radiance/functional.py
@@ -483,6 +483,7 @@ def photon_detector_SNR(  # noqa: N802
     scale_factor = check_well_fill(
         np.max([snr.tgt_n, snr.bkg_n]), sensor.max_well_fill * sensor.max_n
     )
+    snr.scale_factor = scale_factor
     snr.tgt_n = scale_factor * snr.tgt_n
     snr.bkg_n = scale_factor * snr.bkg_n
     snr.int_time = scale_factor * sensor.int_time
-- 
2.43.0


From 6bad7536016cf6a0e382ff4b0ffa9ea79b5acd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 12/18] fix: published GIQE 4 noise coefficient is 0.344

---
 src/pybsm/metrics/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/metrics/functional.py b/src/pybsm/metrics/functional.py
index 2e0fc6b..0498d89 100755
--- a/src/pybsm/metrics/functional.py
+++ b/src/pybsm/metrics/functional.py
@@ -117,7 +117,7 @@ def giqe4(rer: float, gsd: float, eho: float, ng: float, snr: float, elev_angle:
     # fact that only one direction in the gsd is distorted by projection into
     # the ground plane
 
-    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.334 * ng / snr
+    niirs = 10.251 - c_1 * np.log10(gsd_gp / 0.0254) + c_2 * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr
     # note that, within the GIQE, gsd is defined in inches, hence the
     # conversion
     return niirs, gsd_gp
-- 
2.43.0


From 96ed7351c9dbf8a0340d2ba94d87093570dfeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 13/18] fix: undo the centring of odd-sized transfer functions
 in otf_to_psf

---
 src/pybsm/otf/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 0c0486d..6b3ec7d 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -931,7 +931,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
             "OpenCV not found. Please install 'pybsm[graphics]' or 'pybsm[headless]'."
         )
     # transform the psf
-    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.fftshift(otf))))
+    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
     dx_in = 1 / (otf.shape[0] * df)
-- 
2.43.0


From 087ee946acdecb1d8fed823d1a0b946475718e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 14/18] fix: always return a centred kernel from otf_to_psf

---
 src/pybsm/otf/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 6b3ec7d..9f9edac 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -949,7 +949,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
         tuple(
             [
                 slice(
-                    int(np.floor(d / 2 - k_size / 2)),
+                    max(0, int(np.floor(d / 2 - k_size / 2))),
                     int(np.ceil(d / 2 + k_size / 2)),
                 )
                 for d in x.shape
@@ -958,6 +958,7 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     ]
 
     # find the support region of the blur kernel
+    psf_out = psf
     for ii in np.arange(10, np.min(otf.shape), 5):
         psf_out = get_middle(psf, ii)
         if psf_out.sum() > 0.95:  # note the 0.95 is heuristic (but seems to work well)
-- 
2.43.0


From 2ccf03edc5dd363fd88b33e537088f5ec68035f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 15/18] fix: slice_otf follows every orientation, not only the
 first quadrant

---
 src/pybsm/otf/functional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 9f9edac..c15d38c 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -1172,15 +1172,15 @@ def slice_otf(otf: np.ndarray, ang: float) -> np.ndarray:
             one-dimensional OTF in the direction of angle; the sample spacing
             of o_slice is the same as the original otf
     """
-    u = np.linspace(-1.0, 1.0, otf.shape[0])
-    v = np.linspace(1.0, -1.0, otf.shape[1])
+    u = np.linspace(-1.0, 1.0, otf.shape[1])
+    v = np.linspace(1.0, -1.0, otf.shape[0])
     r = np.arange(0.0, 1.0, u[1] - u[0])
 
-    f = interpolate.interp2d(u, v, otf)
-    o_slice = np.diag(f(r * np.cos(ang), r * np.sin(ang)))
-    # the interpolator, f, calculates a bunch of points that we don't really
-    # need since everything but the diagonal is thrown away.  It works but
-    # it's inefficient.
+    # the grid has to ascend and every point of the ray is evaluated by itself
+    f = interpolate.RegularGridInterpolator(
+        (v[::-1], u), otf[::-1, :], bounds_error=False, fill_value=None
+    )
+    o_slice = f((r * np.sin(ang), r * np.cos(ang)))
 
     return o_slice
 
-- 
2.43.0


From 02feee9ff834af800838cb9eb1f1504597caf51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 16/18] fix: evaluate Hopkins' series for the defocused
 aperture

---
 src/pybsm/otf/functional.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index c15d38c..1c879b3 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -234,16 +234,16 @@ def circular_aperture_OTF_with_defocus(  # noqa: N802
     beta = np.arccos(0.5 * s)
 
     if defocus:
-        defocus_otf = 2 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
+        defocus_otf = 4 / (np.pi * alpha) * np.cos(alpha * 0.5 * s) * (
             beta * jn(1, alpha)
-            + 1 / 2.0 * np.sin(2 * beta * (jn(1, alpha) - jn(3, alpha)))
-            - 1 / 4.0 * np.sin(4 * beta * (jn(3, alpha) - jn(5, alpha)))
-            + 1 / 6.0 * np.sin(6 * beta * (jn(5, alpha) - jn(7, alpha)))
-        ) - 2 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
-            np.sin(beta * (jn(0, alpha) - jn(2, alpha)))
-            - 1 / 3.0 * np.sin(3 * beta * (jn(2, alpha) - jn(4, alpha)))
-            + 1 / 5.0 * np.sin(5 * beta * (jn(4, alpha) - jn(6, alpha)))
-            - 1 / 7.0 * np.sin(7 * beta * (jn(6, alpha) - jn(8, alpha)))
+            + 1 / 2.0 * np.sin(2 * beta) * (jn(1, alpha) - jn(3, alpha))
+            - 1 / 4.0 * np.sin(4 * beta) * (jn(3, alpha) - jn(5, alpha))
+            + 1 / 6.0 * np.sin(6 * beta) * (jn(5, alpha) - jn(7, alpha))
+        ) - 4 / (np.pi * alpha) * np.sin(alpha * 0.5 * s) * (
+            np.sin(beta) * (jn(0, alpha) - jn(2, alpha))
+            - 1 / 3.0 * np.sin(3 * beta) * (jn(2, alpha) - jn(4, alpha))
+            + 1 / 5.0 * np.sin(5 * beta) * (jn(4, alpha) - jn(6, alpha))
+            - 1 / 7.0 * np.sin(7 * beta) * (jn(6, alpha) - jn(8, alpha))
         )
 
         defocus_otf[rho == 0] = 1
-- 
2.43.0


From 7b076d718b2f0a20c3be4e63daee7c201138f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 17/18] fix: use each axis' own sampling when resampling the
 point-spread function

---
 src/pybsm/otf/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pybsm/otf/functional.py b/src/pybsm/otf/functional.py
index 1c879b3..1839e15 100755
--- a/src/pybsm/otf/functional.py
+++ b/src/pybsm/otf/functional.py
@@ -934,11 +934,12 @@ def otf_to_psf(otf: np.ndarray, df: float, dx_out: float) -> np.ndarray:
     psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
 
     # determine image space sampling
-    dx_in = 1 / (otf.shape[0] * df)
+    dx_in = 1 / (otf.shape[1] * df)
+    dy_in = 1 / (otf.shape[0] * df)
 
     # resample to the desired sample size
     new_x = max([1, int(psf.shape[1] * dx_in / dx_out)])
-    new_y = max([1, int(psf.shape[0] * dx_in / dx_out)])
+    new_y = max([1, int(psf.shape[0] * dy_in / dx_out)])
     psf = cv2.resize(psf, (new_x, new_y)).astype(np.float64)
 
     # ensure that the psf sums to 1
-- 
2.43.0


From c9e8d18c2a479a441e5f4011018ed0afd704dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 18/18] fix: simulate_image rejects a decreasing frequency grid
 as documented

The spacing was taken from absolute differences, so the check for an
increasing grid never saw a decreasing one.
---
 src/pybsm/simulation/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybsm/simulation/functional.py b/src/pybsm/simulation/functional.py
index 29908e7..383f30f 100755
--- a/src/pybsm/simulation/functional.py
+++ b/src/pybsm/simulation/functional.py
@@ -224,7 +224,7 @@ def simulate_image(
         int_time,
     ).system_OTF
 
-    df = (abs(u_rng[1] - u_rng[0]) + abs(v_rng[0] - v_rng[1])) / 2
+    df = ((u_rng[1] - u_rng[0]) + (v_rng[0] - v_rng[1])) / 2
 
     if df <= 0:
         raise ValueError("Cutoff frequency values must be increasing.")
-- 
2.43.0

