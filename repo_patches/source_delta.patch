From 3d8d2051ac18db2be82acf2ba3d6156b1be77759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 01/28] fix: refuse colatitudes outside [0, 180] also when a
 pole is among the points

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 02c8b78..d7dc09d 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -501,7 +501,7 @@ def synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
     theta_max = np.amax(theta)
 
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
@@ -790,7 +790,7 @@ def design_gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
 
     # check if poles are included
     if (theta_min <= 0.0) or (theta_max >= 180.0):
-        if (theta_min == 0.0) or (theta_max == 180.0):
+        if (theta_min >= 0.0) and (theta_max <= 180.0):
             warnings.warn('Input coordinates include the poles.')
             poles = True
         else:
-- 
2.43.0


From 5c649098b13cd4faf28dd2ea3afdfcb3538f999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 02/28] fix: derivative at the end of the model period
 independent of extrapolation

---
 chaosmagpy/chaos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a602014..96582d5 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -152,6 +152,9 @@ class Base(object):
         start = self.breaks[0]
         end = self.breaks[-1]
 
+        # the end is part of the model period (not affected by extrapolation)
+        coeffs_end = PP(end, nu=deriv)
+
         if (np.amin(time) < start) or (np.amax(time) > end):
 
             dkey = {
@@ -208,7 +211,9 @@ class Base(object):
                 PP.extrapolate = False
 
         PP = PP.derivative(nu=deriv)
-        coeffs = PP(time) * 365.25**deriv
+        coeffs = PP(time)
+        coeffs[np.asarray(time) == end] = coeffs_end
+        coeffs = coeffs * 365.25**deriv
 
         return coeffs
 
-- 
2.43.0


From 78f1cdc1d60d60b5869d285e853df3e7d8eaa10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 03/28] fix: extrapolation of degree two and higher misses the
 factorials of the Taylor series

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 96582d5..25f1662 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -30,6 +30,7 @@ other geomagnetic field models.
 """
 
 import numpy as np
+import math
 import os
 import warnings
 import scipy.interpolate as sip
@@ -204,7 +205,7 @@ class Base(object):
                 for x in [start, end]:  # left and right
                     bin = np.zeros((self.order, 1, dim))
                     for k in range(key):
-                        bin[-1-k] = PP(x, nu=k)
+                        bin[-1-k] = PP(x, nu=k) / math.factorial(k)
                     PP.extend(bin, np.array([x]))
 
             else:  # no extrapolation
-- 
2.43.0


From 51c64a16cf4caffce845bd4c8d9f443324f6a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 04/28] fix: refuse times before 1901 in the computation of the
 Sun's position

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 199b6d6..3ddea2a 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -758,7 +758,7 @@ def sun_position(time):
     rad = np.pi / 180
     year = 2000  # reference year for mjd2000
     assert np.all((year + time // 365.25) < 2099) \
-        and np.all((year - time // 365.25) > 1901), \
+        and np.all((year + time // 365.25) >= 1901), \
         ("Time must be between 1901 and 2099.")
 
     frac_day = np.remainder(time, 1)  # decimal fraction of a day
-- 
2.43.0


From 725712ad1b79e7fae45beb41d7d88f5ec595319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 05/28] fix: local time rounded up to 24 instead of wrapping to
 0

---
 chaosmagpy/coordinate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 3ddea2a..da31835 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1634,7 +1634,8 @@ def local_time(time, phi):
 
     """
 
-    return np.remainder(time + phi/360, 1)*24
+    # second remainder: the first one may be rounded to 1.0
+    return np.remainder(np.remainder(time + phi/360, 1)*24, 24)
 
 
 def q_response_1D(periods, sigma, radius, n, kind=None):
-- 
2.43.0


From 22b2a36f2d7ad561640cb561a873f3f9664a1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 06/28] fix: one-dimensional frequency vector in the synthesis
 of rotation matrices

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index da31835..78a3756 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -239,7 +239,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     time = np.array(time[..., None, None, None], dtype=float)
     frequency = 2*np.pi*np.array(frequency, dtype=float)
     if frequency.ndim == 1:
-        frequency.reshape(-1, 1, 1)
+        frequency = frequency.reshape(-1, 1, 1)
     spectrum = np.array(spectrum, dtype=complex)
 
     # output of shape (..., k, n, m)
-- 
2.43.0


From 9e8cea40bd08f2d0598f8c5c3a813784b8f11966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 07/28] fix: conversion of B-splines with repeated interior
 knots to piecewise polynomials

---
 chaosmagpy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index d7dc09d..86d2e55 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -257,8 +257,8 @@ def pp_from_bspline(coeffs, knots, order):
         bs = BSpline(knots, coeffs[:, d], degree)
         pp = PPoly.from_spline(bs, extrapolate=False)
 
-        # remove endpoint multiplicities
-        coeffs_pp[:, :, d] = pp.c[:, degree:(degree+pieces)]
+        # remove zero-length pieces due to endpoint or knot multiplicities
+        coeffs_pp[:, :, d] = pp.c[:, np.diff(knots) > 0]
 
     return coeffs_pp, breaks
 
-- 
2.43.0


From 6f603b132c072439c75c164cb351c1a3860fb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 08/28] fix: temporary configuration not undone when its block
 raises

---
 chaosmagpy/config_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 50b3525..cb285d6 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -291,8 +291,10 @@ class BasicConfig(dict):
         """
         old_value = self.__getitem__(key)
         self.__setitem__(key, value)
-        yield
-        self.__setitem__(key, old_value)
+        try:
+            yield
+        finally:
+            super().__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From 3ad89db19887e76ab41db05890cf66ba6a046810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 09/28] fix: defaults of the configuration changed by in-place
 changes of the current values

---
 chaosmagpy/config_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index cb285d6..3bd3b76 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -76,6 +76,7 @@ be accessed after importing chaosmagpy through:
 
 import os
 import re
+import copy
 import json
 import numpy as np
 import warnings
@@ -213,7 +214,8 @@ class BasicConfig(dict):
         Load all default values.
 
         """
-        super().update({key: val for key, (val, _) in self.defaults.items()})
+        super().update({key: copy.deepcopy(val)
+                        for key, (val, _) in self.defaults.items()})
 
     def load(self, filepath):
         """
@@ -298,7 +300,8 @@ class BasicConfig(dict):
 
 
 # load defaults
-basicConfig = BasicConfig({key: val for key, (val, _) in DEFAULTS.items()})
+basicConfig = BasicConfig()
+basicConfig.fullreset()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 191993d2d7f881d971f378e942aa3d42969b1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 10/28] fix: configuration vectors of something other than
 numbers accepted

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 3bd3b76..fffe618 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -124,7 +124,7 @@ def check_string(s):
 def check_vector(s, len=None):
     """Check that input is vector of required length."""
     try:
-        s = np.array(s)
+        s = np.array(s, dtype=float)
         assert s.ndim == 1
         if len is not None:
             if s.size != len:
-- 
2.43.0


From 59d60032be28dd3aa8827a8b839f1bb61760b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 11/28] fix: unscaled rotation spectra read from a file taken
 for scaled ones

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 78a3756..b3098eb 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -249,7 +249,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     harmonics = np.empty(freq_t.shape, dtype=complex)
     harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)
 
-    if scaled is False:
+    if not scaled:
         # scale non-offset coefficients by 2 before synthesizing matrices
         harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)
 
-- 
2.43.0


From 15d5baa124ad3fc019274bfc64401cb5acd5e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 12/28] fix: start date of the rotation spectra ignored by the
 external field

---
 chaosmagpy/chaos.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 25f1662..9518409 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1589,6 +1589,9 @@ str, {'internal', 'external'}
                       == config_utils.basicConfig['params.dipole']), \
             "GSM rotation coefficients not compatible with the chosen dipole."
 
+        # time from which the spectrum has been computed
+        start_date = frequency_spectrum.get('start_date', 0.0)
+
         if source == 'external':
             # unpack file: oscillations per day, complex spectrum
             frequency = frequency_spectrum['frequency']
@@ -1597,7 +1600,7 @@ str, {'internal', 'external'}
 
             # build rotation matrix for external field coefficients GSM -> GEO
             rotate_gauss = cu.synth_rotate_gauss(
-                time, frequency, spectrum, scaled=scaled)
+                time - start_date, frequency, spectrum, scaled=scaled)
 
             # rotate external GSM coefficients to GEO reference
             coeffs = np.matmul(rotate_gauss, self.coeffs_gsm)
@@ -1610,7 +1613,7 @@ str, {'internal', 'external'}
 
             # build rotation matrix for external field coefficients GSM -> GEO
             rotate_gauss_ind = cu.synth_rotate_gauss(
-                time, frequency_ind, spectrum_ind, scaled=scaled)
+                time - start_date, frequency_ind, spectrum_ind, scaled=scaled)
 
             # rotate internal GSM coefficients to GEO reference
             coeffs = np.matmul(rotate_gauss_ind, self.coeffs_gsm)
@@ -1797,6 +1800,9 @@ str, {'internal', 'external'}
             ("Coefficients for the SM coordinate transformation are not " +
              "compatible with the chosen dipole.")
 
+        # time from which the spectrum has been computed
+        start_date = frequency_spectrum.get('start_date', 0.0)
+
         if rc is None:
 
             default = config_utils.basicConfig.defaults['file.RC_index'][0]
@@ -1870,7 +1876,7 @@ str, {'internal', 'external'}
 
         # build rotation matrix for external field coefficients SM -> GEO
         rotate_gauss = cu.synth_rotate_gauss(
-            time, frequency, spectrum, scaled=scaled)
+            time - start_date, frequency, spectrum, scaled=scaled)
 
         if source == 'external':
             coeffs_sm = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))
@@ -1890,7 +1896,7 @@ str, {'internal', 'external'}
 
             # build rotation matrix for induced coefficients SM -> GEO
             rotate_gauss_ind = cu.synth_rotate_gauss(
-                time, frequency, spectrum, scaled=scaled)
+                time - start_date, frequency, spectrum, scaled=scaled)
 
             # take degree 1 matrix elements of unmodified rotation matrix
             # since induction effect will be accounted for by RC_i
-- 
2.43.0


From b5137e31e31e45a8437b30194a4026de9e131b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 13/28] fix: models with Euler angles but without pre-rotation
 information cannot be created

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 9518409..0704bfe 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1015,7 +1015,7 @@ class CHAOS(object):
 
                 try:
                     Euler_prerotation = meta['params']['Euler_prerotation'][k]
-                except KeyError:
+                except (KeyError, TypeError):
                     Euler_prerotation = None
 
                 model = Base(
-- 
2.43.0


From 2dc4b52c4b3767b2d137458f59ded9aa25831bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 14/28] fix: list of satellites of the caller extended by the
 MAT-file loader

---
 chaosmagpy/chaos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 0704bfe..cabeb24 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2531,6 +2531,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     if satellites is None:
         satellites = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b',
                       'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
+    else:
+        satellites = list(satellites)
 
     mat_contents = du.load_matfile(filepath)
 
-- 
2.43.0


From 8de868bc0d4a7fab75529b57cda073c9c0ce6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 15/28] fix: static part of a model without time-dependent part
 cannot be saved to SHC

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index cabeb24..5b2dd93 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2231,7 +2231,7 @@ str, {'internal', 'external'}
                 raise ValueError("Static internal field coefficients "
                                  "are missing.")
 
-            nmin = self.model_tdep.nmax + 1
+            nmin = 1 if self.model_tdep is None else self.model_tdep.nmax + 1
             nmax = self.model_static.nmax
             order = 1
 
-- 
2.43.0


From c72d56dee5c7860a71daac19a8e3696224dadba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 16/28] fix: far-magnetospheric field of a model without static
 part fails

---
 chaosmagpy/chaos.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 5b2dd93..1b8a6b9 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1571,9 +1571,14 @@ str, {'internal', 'external'}
         # ensure ndarray input
         time = np.asarray(time, dtype=float)
 
-        # use static part to define modelled period
-        start = self.model_static.breaks[0]
-        end = self.model_static.breaks[-1]
+        # use internal part to define modelled period
+        if self.model_static is None:
+            breaks = self.model_tdep.breaks
+        else:
+            breaks = self.model_static.breaks
+
+        start = breaks[0]
+        end = breaks[-1]
 
         if np.amin(time) < start or np.amax(time) > end:
             warnings.warn(
-- 
2.43.0


From 9f915da2997b73870fd6b9b52c45017fd5ce65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 17/28] fix: calibration parameters saved to MAT-file cannot be
 loaded again

---
 chaosmagpy/chaos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 1b8a6b9..6da3821 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2348,7 +2348,8 @@ str, {'internal', 'external'}
             for satellite, model in self.model_cal.items():
                 cal.append(model.to_ppdict())
 
-            hdf.write(np.array(cal, dtype=object),
+            # two-dimensional cell, same as in the original MAT-file
+            hdf.write(np.array(cal, dtype=object).reshape((1, -1)),
                       path='/pp_CAL/',
                       filename=filepath, matlab_compatible=True)
 
-- 
2.43.0


From bf05897adc56407e9de2b29429a93d965bf13ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 18/28] fix: Euler angles of one satellite or of equal numbers
 of bins not restored from MAT-file

---
 chaosmagpy/chaos.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 6da3821..9ac1041 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2329,16 +2329,23 @@ str, {'internal', 'external'}
                 gamma.append(self.model_euler[satellite].coeffs[
                     0, :, 2].reshape((-1, 1)).astype(float))
 
-            hdf.write(np.array(t_break_Euler, dtype='object'),
+            # one array per satellite, also if all have the same shape
+            def to_cell(arrays):
+                cell = np.empty((len(arrays),), dtype='object')
+                for k, array in enumerate(arrays):
+                    cell[k] = array
+                return cell
+
+            hdf.write(to_cell(t_break_Euler),
                       path='/model_Euler/t_break_Euler/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
+            hdf.write(to_cell(alpha),
                       path='/model_Euler/alpha/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
+            hdf.write(to_cell(beta),
                       path='/model_Euler/beta/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
+            hdf.write(to_cell(gamma),
                       path='/model_Euler/gamma/',
                       filename=filepath, matlab_compatible=True)
 
@@ -2606,6 +2613,12 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         breaks_euler = None
 
     else:
+        # cell of a single satellite has been removed when loading the file
+        model_euler = {
+            key: value if value.dtype == np.dtype('O') else [value]
+            for key, value in model_euler.items()
+        }
+
         # append generic satellite name if more data available or reduce
         t_break_Euler = model_euler['t_break_Euler']
         n = len(t_break_Euler)
@@ -2625,9 +2638,9 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         coeffs_euler = dict()
         for num, satellite in enumerate(satellites):
 
-            angles = [model_euler[angle][num] for angle in [
+            angles = [np.ravel(model_euler[angle][num]) for angle in [
                 'alpha', 'beta', 'gamma']]
-            euler = np.concatenate(angles, axis=-1).astype(float)
+            euler = np.stack(angles, axis=-1).astype(float)
 
             # first: order, second: number of intervals, third: 3 angles
             coeffs_euler[satellite] = np.expand_dims(euler, axis=0)
@@ -2649,7 +2662,10 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     # load additional parameters
     try:
         params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+        prerotation = params['Euler_prerotation']
+        if prerotation is not None:
+            prerotation = np.atleast_2d(prerotation)  # one row per satellite
+        dict_params = {'Euler_prerotation': prerotation}
 
     except KeyError as err:
         warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
-- 
2.43.0


From a4a0aa9eef5d06b8e68de5e581f2f96baf5e05b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 19/28] fix: model with single-bin baseline offsets cannot be
 loaded from MAT-file

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 9ac1041..58eedf3 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2599,7 +2599,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # reshape to comply with scipy PPoly coefficients
         coeffs_delta = dict()
         coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
+        qs11 = model_ext['qs11'].reshape((-1, 2))  # also for single bin
         coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
         coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
 
-- 
2.43.0


From ebea8ca0e81b194556edb8ac5a256ca6c5839969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 20/28] fix: dates outside the years 1678-2262 converted to
 wrong day numbers

---
 chaosmagpy/data_utils.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index cb076d9..c879f7b 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -438,7 +438,12 @@ datetime.datetime(2002, 3, 4)])
 
     if (np.issubdtype(year.dtype, np.dtype(dt.datetime).type) or
             np.issubdtype(year.dtype, np.datetime64)):
-        datetime = year.astype('datetime64[ns]')
+        # microseconds hold any datetime object, keep units of datetime64
+        datetime = (year if np.issubdtype(year.dtype, np.datetime64)
+                    else year.astype('datetime64[us]'))
+
+        date = datetime.astype('datetime64[D]')
+        time_of_day = datetime - date
 
     else:
         # build iso datetime string with str_ (supported in NumPy >= 2.0)
@@ -447,20 +452,23 @@ datetime.datetime(2002, 3, 4)])
         day = np.char.zfill(np.asarray(day, dtype=np.str_), 2)
 
         year_month = np.char.add(np.char.add(year, '-'), month)
-        datetime = np.char.add(np.char.add(year_month, '-'), day)
+        date = np.char.add(np.char.add(year_month, '-'), day)
 
-        datetime = datetime.astype('datetime64[ns]')
+        date = date.astype('datetime64[D]')
 
         # not use iadd here because it doesn't broadcast arrays
-        datetime = (datetime + np.asarray(hour, dtype='timedelta64[h]')
-                    + np.asarray(minute, dtype='timedelta64[m]')
-                    + np.asarray(second, dtype='timedelta64[s]')
-                    + np.asarray(microsecond, dtype='timedelta64[us]')
-                    + np.asarray(nanosecond, dtype='timedelta64[ns]'))
-
-    nanoseconds = datetime - np.datetime64('2000-01-01', 'ns')
-
-    return nanoseconds / np.timedelta64(1, 'D')  # fraction of days
+        time_of_day = (np.asarray(hour, dtype='timedelta64[h]')
+                       + np.asarray(minute, dtype='timedelta64[m]')
+                       + np.asarray(second, dtype='timedelta64[s]')
+                       + np.asarray(microsecond, dtype='timedelta64[us]')
+                       + np.asarray(nanosecond, dtype='timedelta64[ns]'))
+
+    # count the days separately since the range of 64-bit nanoseconds is
+    # limited to the years 1678-2262
+    days = date - np.datetime64('2000-01-01', 'D')
+
+    # fraction of days
+    return days / np.timedelta64(1, 'D') + time_of_day / np.timedelta64(1, 'D')
 
 
 def timestamp(time):
-- 
2.43.0


From 8b27587b4c1de7575d56cc8da2c2b0731c19762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 21/28] fix: years of other integer types refused by
 is_leap_year

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index c879f7b..dcb63d1 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -530,7 +530,7 @@ def is_leap_year(year):
 
     year = np.asarray(year)
 
-    if not np.issubdtype(year.dtype, int):
+    if not np.issubdtype(year.dtype, np.integer):
         raise TypeError('Expected integer values as the input year. Use '
                         'numpy.floor to extract the integer year '
                         'from decimal years.')
-- 
2.43.0


From 184f6847d1bef6ee3ee995f486ef558d6edd15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 22/28] fix: superfluous sample in SHC-files of models of order
 8 and higher

---
 chaosmagpy/chaos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 58eedf3..eb99de5 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -743,7 +743,7 @@ class BaseModel(Base):
 
             for start, end in zip(self.breaks[:-1], self.breaks[1:]):
                 delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
+                times = np.append(times, start + delta*np.arange(step))
 
             times = np.append(times, self.breaks[-1])
 
-- 
2.43.0


From 318d5bedc1e72b84748d65e024acac3afabb47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:52 +0000
Subject: [PATCH 23/28] fix: save_shcfile failed for a scalar time

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index dcb63d1..12909d2 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -318,7 +318,7 @@ def save_shcfile(time, coeffs, order=None, filepath=None, nmin=None, nmax=None,
 
     """
 
-    time = np.asarray(time, dtype=float)
+    time = np.atleast_1d(np.asarray(time, dtype=float))
 
     order = 1 if order is None else int(order)
 
-- 
2.43.0


From a3a49bc5ceddd332d7afc45674753c8b760f7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 24/28] fix: sensitivity failed for integer coefficients

---
 chaosmagpy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 86d2e55..9d6cb60 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -1157,7 +1157,7 @@ def sensitivity(coeffs, coeffs_true):
 
     nmax = int(np.sqrt(coeffs.size + 1) - 1)
 
-    S = coeffs - coeffs_true
+    S = np.subtract(coeffs, coeffs_true, dtype=float)
 
     # apply degree-dependent scaling
     for n in range(1, nmax+1):
-- 
2.43.0


From 9154966490e4c93ae7cdb38f2a79ccb2d8789bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 25/28] fix: collocation matrix failed for integer knots

---
 chaosmagpy/model_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 9d6cb60..dc3c0ed 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -185,7 +185,8 @@ def colloc_matrix(x, knots, order, deriv=None):
             c = np.zeros(knots.size - order)
             c[n] = 1.
 
-            b = BSpline.construct_fast(knots, c, order-1, extrapolate=False)
+            b = BSpline.construct_fast(
+                knots.astype(float), c, order-1, extrapolate=False)
 
             coll[:, n] = b(x, nu=deriv)
 
-- 
2.43.0


From 50df3faa49eedb78861c9cf7eafb210a483714d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 26/28] fix: synth_from_pp failed for integer breaks or
 coefficients

---
 chaosmagpy/model_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index dc3c0ed..2bff830 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -333,8 +333,9 @@ def synth_from_pp(breaks, order, coeffs, time, radius, theta, phi, *,
     # set grid option to false
     grid = False if grid is None else grid
 
-    PP = PPoly.construct_fast(coeffs[..., :nmax*(nmax+2)], breaks,
-                              extrapolate=False)
+    PP = PPoly.construct_fast(
+        coeffs[..., :nmax*(nmax+2)].astype(float), breaks.astype(float),
+        extrapolate=False)
 
     PP = PP.derivative(nu=deriv)
     gauss_coeffs = PP(time) * 365.25**deriv
-- 
2.43.0


From d7c23933b955fdc4b8f9d2db681a2194543d9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:45 +0000
Subject: [PATCH 27/28] fix: q_response_1D failed for a scalar period

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index b3098eb..649415d 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -1716,7 +1716,7 @@ def q_response_1D(periods, sigma, radius, n, kind=None):
     if kind is None:
         kind = 'quadratic'
 
-    periods = np.asarray(periods, dtype=float)  # ensure numpy array
+    periods = np.atleast_1d(np.asarray(periods, dtype=float))  # ensure vector
     if periods.ndim > 1:
         raise ValueError("Input ``periods`` must be a vector.")
 
-- 
2.43.0


From 5a73a62790c4bd687fe9c6eaf01fa6d0a5d51c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:32 +0000
Subject: [PATCH 28/28] fix: plot_power_spectrum left NaNs in the spectrum
 passed to it and failed for integer spectra

---
 chaosmagpy/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index 51227d4..21cb51e 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -257,7 +257,8 @@ def plot_power_spectrum(spectrum, **kwargs):
     ylabel = kwargs.pop('ylabel')
 
     degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    spectrum[spectrum == 0] = np.nan  # remove non-positive values for log
+    # remove non-positive values for log (on a copy of the input)
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)
 
     # create axis handle
     fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-- 
2.43.0

