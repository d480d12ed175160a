From 346eb1b1d22eefd684f440402e606dd35d579864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 01/51] fix: write the wavelengths, not the responses, as
 wavelengths in the internal HDF5 format

---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 14a9dca..9233963 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -327,7 +327,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     dset = grp.create_dataset("response", arr.shape, dtype="f")
     dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr["wavelength"], scale)
 
 
 def _save_wavelengths(grp, arr, scale):
@@ -350,7 +350,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr[detectors[0]]["wavelength"], scale)
 
 
 def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> None:
-- 
2.43.0


From e720de9fd8b77d630ac54dd47ab88c1b3f92a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 02/51] fix: name converted RSR files the way the RSR reader
 looks them up

---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9233963..d2c240a 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -287,7 +287,7 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
     import h5py
 
     instruments = [ClassIn(bandnames[i], platform_name) for i in range(len(bandnames))]
-    instr_name = instruments[0].instrument.replace("/", "")
+    instr_name = instruments[0].instrument.replace("/", "").replace("-", "")
     filename = os.path.join(instruments[0].output_dir,
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
-- 
2.43.0


From f4e5f7c6c0e786b6a0d8855a22667c904492ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:04 +0000
Subject: [PATCH 03/51] fix: store the sensor name in converted RSR files

Without it the instrument of a file from a platform with several instruments
is ambiguous and the band name aliases cannot be resolved.
---
 pyspectral/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index d2c240a..44ba157 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -301,6 +301,7 @@ def _write_global_attrs(h5f, instrument, platform_name, bandnames):
     h5f.attrs["description"] = ("Relative Spectral Responses for " +
                                 instrument.instrument.upper())
     h5f.attrs["platform_name"] = platform_name
+    h5f.attrs["sensor"] = instrument.instrument
     h5f.attrs["band_names"] = bandnames
 
 
-- 
2.43.0


From 848e670fc821b75c088aa41290b9aff83f2392c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:08 +0000
Subject: [PATCH 04/51] fix: accept adjusted instrument names without
 separators as input

An instrument name already adjusted (e.g. mersi1) was silently replaced with
another instrument of the same platform (virr).
---
 pyspectral/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 44ba157..c86bfd9 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -649,7 +649,7 @@ def check_and_adjust_instrument_name(platform_name, instrument):
         LOG.warning("Inconsistent instrument/satellite input - instrument set to %s",
                     instrument)
 
-    return instrument.lower().replace("/", "").replace("-", "")
+    return _remove_separators(instrument.lower())
 
 
 def are_instruments_identical(name1, name2):
@@ -666,9 +666,16 @@ def are_instruments_identical(name1, name2):
         return True
     if name1 == INSTRUMENT_TRANSLATION_DASH2SLASH.get(name2):
         return True
+    # Also accept the names where the separators have been removed, as in "avhrr1" or "mersi1"
+    if _remove_separators(name1) == _remove_separators(name2):
+        return True
     return False
 
 
+def _remove_separators(instrument_name):
+    return instrument_name.replace("/", "").replace("-", "")
+
+
 def use_map_blocks_on(argument_to_run_map_blocks_on):
     """Use map blocks on a given argument.
 
-- 
2.43.0


From b344e99bfe175ee31ff72abfdc0201bf51ed499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:12 +0000
Subject: [PATCH 05/51] fix: derive the FWHM from half of the maximum response

---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index c86bfd9..9b674c8 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -523,7 +523,7 @@ def get_fullwidth_halfmax(rsp, wvl):
     Ths FWHM is defined as the wavelength range over which the SRF is greater than half
     of the maximum response. Often, this is referred to as the bandwidth of a channel.
     """
-    half_max = 0.5
+    half_max = np.max(rsp) / 2.
     indices = np.where(rsp >= half_max)[0]
     if len(indices) < 2:
         raise ValueError("The FWHM cannot be computed.")
-- 
2.43.0


From e4359bbb1dd1199496836b913d677536aceadc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:16 +0000
Subject: [PATCH 06/51] fix: return zeros for Numpy input when the band is
 outside the Rayleigh LUT range

---
 pyspectral/rayleigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index caa585e..11b6ee4 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -237,7 +237,7 @@ class Rayleigh(RayleighConfigBaseClass):
                                              chunks=getattr(res, "chunks", None))
 
         res = np.clip(res, 0, 100)
-        if compute:
+        if compute and hasattr(res, "compute"):
             res = res.compute()
         return res
 
-- 
2.43.0


From 9580c59deecf5a29051064f46fa698eaa6ed7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:21 +0000
Subject: [PATCH 07/51] fix: accept an empty configuration file

---
 pyspectral/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/config.py b/pyspectral/config.py
index 1f646b4..d74ae8a 100644
--- a/pyspectral/config.py
+++ b/pyspectral/config.py
@@ -45,7 +45,7 @@ def get_config(config_file: str | Path | None = None) -> dict:
 
     config: dict[str, Any] = {}
     with open(config_file, 'r') as fp_:
-        loaded_config_content = yaml.load(fp_, Loader=UnsafeLoader)
+        loaded_config_content = yaml.load(fp_, Loader=UnsafeLoader) or {}
     config = recursive_dict_update(config, loaded_config_content)
 
     app_dirs = AppDirs('pyspectral', 'pytroll')
-- 
2.43.0


From 1b2647f627ef75965c8d519baac337d8cf47d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:56 +0000
Subject: [PATCH 08/51] fix: accept scalar and integer radiances in the inverse
 Planck function

---
 pyspectral/blackbody.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index cbfcfbd..d7379c3 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -35,6 +35,10 @@ def blackbody_rad2temp(wavelength, radiance):
         The derived temperature in Kelvin.
 
     """
+    if not hasattr(radiance, "dtype"):
+        radiance = np.asarray(radiance)[()]
+    if not np.issubdtype(radiance.dtype, np.floating):
+        radiance = radiance.astype(np.float64)
     if getattr(wavelength, "dtype", None) != radiance.dtype:
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
         wavelength = radiance.dtype.type(wavelength)
-- 
2.43.0


From 6aa78704bf634878886dc5acf5a0ead88cc9a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:04 +0000
Subject: [PATCH 09/51] fix: let the inverse Planck functions be called with
 keyword arguments

---
 pyspectral/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9b674c8..9c12224 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -8,7 +8,7 @@ import sys
 import tarfile
 import warnings
 from functools import wraps
-from inspect import getfullargspec
+from inspect import getfullargspec, signature
 from pathlib import Path
 
 import numpy as np
@@ -683,10 +683,14 @@ def use_map_blocks_on(argument_to_run_map_blocks_on):
     """
     def decorator(f):
         argspec = getfullargspec(f)
+        func_signature = signature(f)
         argument_index = argspec.args.index(argument_to_run_map_blocks_on)
 
         @wraps(f)
         def wrapper(*args, **kwargs):
+            # The arguments may also be given by keyword
+            bound_args = func_signature.bind(*args, **kwargs)
+            args, kwargs = bound_args.args, bound_args.kwargs
             array = args[argument_index]
             chunks = getattr(array, "chunks", None)
             if chunks is None:
-- 
2.43.0


From a6b7d8ddb3c9729e871105efed17c847252cef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:57 +0000
Subject: [PATCH 10/51] fix: do not overflow or give NaN a radiance in the Tb
 to radiance table lookup

---
 pyspectral/radiance_tb_conversion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 97a925e..99bcd07 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -179,15 +179,17 @@ class RadTbConverter(object):
 
         if lut:
             lut_radiance = lut['radiance'].astype(tb_.dtype)
-            ntb = (tb_ * self.tb_scale).astype('int16')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
-            bounds = 0, lut_radiance.shape[0] - 1
-            index = (ntb - start).clip(bounds[0], bounds[1])
+            bounds = start, start + lut_radiance.shape[0] - 1
+            # Clip before the conversion to integer in order not to overflow:
+            ntb = (tb_ * self.tb_scale).clip(bounds[0], bounds[1])
+            index = np.where(np.isnan(ntb), start, ntb).astype('int64') - start
             try:
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
             except AttributeError:
                 retv['radiance'] = lut_radiance[index]
+            retv['radiance'] = np.where(np.isnan(tb_), np.nan, retv['radiance'])
             try:
                 retv['radiance'] = retv['radiance'].item()
             except (ValueError, AttributeError):
-- 
2.43.0


From 5bfd91a534f8813cb5cd683a4c494f7e25fdebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 11/51] fix: accept scalar, sequence and integer Tbs in the Tb
 to radiance table lookup

---
 pyspectral/radiance_tb_conversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 99bcd07..4fc5ee6 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -178,6 +178,10 @@ class RadTbConverter(object):
             scale = 1.0
 
         if lut:
+            if not hasattr(tb_, "dtype"):
+                tb_ = np.asarray(tb_)
+            if not np.issubdtype(tb_.dtype, np.floating):
+                tb_ = tb_.astype(np.float64)
             lut_radiance = lut['radiance'].astype(tb_.dtype)
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
-- 
2.43.0


From 6f2d6f831ac6776b5cfe137e040a867aeead3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:29 +0000
Subject: [PATCH 12/51] fix: do not derive reflectances from masked Tbs, or NaN
 from integer ones

---
 pyspectral/near_infrared_reflectance.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index ef33ba0..0c28b71 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -283,11 +283,17 @@ class Calculator(RadTbConverter):
 
 
 def get_as_array(variable):
-    """Return variable as a Dask or Numpy array.
+    """Return variable as a Dask or Numpy array of floating point numbers.
 
-    Variable may be a scalar, a list or a Numpy/Dask array.
+    Variable may be a scalar, a list or a Numpy/Dask array. Masked values become NaN.
     """
     if np.isscalar(variable):
-        return asanyarray([variable, ])
+        variable = [variable, ]
+    if not hasattr(variable, "dtype"):
+        variable = np.asarray(variable)
+    if not np.issubdtype(variable.dtype, np.floating):
+        variable = variable.astype(np.float64)
+    if np.ma.isMaskedArray(variable):
+        variable = variable.filled(np.nan)
 
     return asanyarray(variable)
-- 
2.43.0


From c5fde968d44f7b2837db9ecf5579d74ad95583c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 13/51] fix: do not look for the Tb to radiance table of AVHRR
 in a sub-directory

---
 pyspectral/near_infrared_reflectance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 0c28b71..3a9756c 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -95,7 +95,8 @@ class Calculator(RadTbConverter):
             LOG.debug("No lut filename available in config file. "
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
-                self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+                self.platform_name.lower(), self.instrument.lower().replace("/", ""),
+                band=self.bandname.lower())
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
-- 
2.43.0


From 183dbec08b51997a4138bebe5882470a625c4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:56 +0000
Subject: [PATCH 14/51] fix: use the table and the solar flux of the requested
 detector for the NIR reflectance

---
 pyspectral/near_infrared_reflectance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 3a9756c..72e6369 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -97,6 +97,8 @@ class Calculator(RadTbConverter):
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
                 self.platform_name.lower(), self.instrument.lower().replace("/", ""),
                 band=self.bandname.lower())
+            if self.detector != "det-1":
+                lutname = lutname + "_" + self.detector
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
@@ -157,7 +159,8 @@ class Calculator(RadTbConverter):
         solar_spectrum = \
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
-        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname])
+        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname],
+                                                          detector=self.detector.replace("det-", ""))
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
-- 
2.43.0


From d81437a8be4cf5612f2dd43308a79bb6ee9bf59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:01 +0000
Subject: [PATCH 15/51] fix: expand the user home in the configured tb2rad_dir

---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 72e6369..b8da797 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -87,7 +87,7 @@ class Calculator(RadTbConverter):
 
     def _set_lutfile(self):
         options = get_config()
-        tb2rad_dir = options.get("tb2rad_dir", tempfile.gettempdir())
+        tb2rad_dir = os.path.expanduser(options.get("tb2rad_dir", tempfile.gettempdir()))
 
         self._lutfile_from_config(options, tb2rad_dir)
 
-- 
2.43.0


From 1c39960c9d7bd72d57369966d0f706e84338d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:36 +0000
Subject: [PATCH 16/51] fix: write the Tb to radiance table atomically

A table written only in part, due to a crash or while another process is
reading, made all later uses of the table fail.
---
 pyspectral/radiance_tb_conversion.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 4fc5ee6..d61a7e7 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -5,6 +5,8 @@ various satellite sensors
 """
 
 import logging
+import os
+import uuid
 from numbers import Number
 
 import numpy as np
@@ -217,7 +219,18 @@ class RadTbConverter(object):
         tb_ = np.arange(TB_MIN, TB_MAX, self.tb_resolution)
         retv = self.tb2radiance(tb_, normalized=normalized)
         rad = retv['radiance']
-        np.savez(filepath, tb=tb_, radiance=rad)
+        filepath = os.fspath(filepath)
+        if not filepath.endswith('.npz'):
+            filepath = filepath + '.npz'
+        # Never expose an incomplete table to other processes, or leave one behind:
+        tmp_filepath = '{0}.{1}.tmp'.format(filepath, uuid.uuid4().hex)
+        try:
+            with open(tmp_filepath, 'wb') as fpt:
+                np.savez(fpt, tb=tb_, radiance=rad)
+            os.replace(tmp_filepath, filepath)
+        finally:
+            if os.path.exists(tmp_filepath):
+                os.remove(tmp_filepath)
 
     @staticmethod
     def read_tb2rad_lut(filepath):
-- 
2.43.0


From 4a9329ebbb9c0028ca0df2a32340283a3441c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 17/51] fix: convert radiances to Tb, and select the band by
 wavelength, also in wavenumber space

---
 pyspectral/radiance_tb_conversion.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index d61a7e7..ca99c5b 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -12,9 +12,16 @@ from numbers import Number
 import numpy as np
 from scipy.integrate import trapezoid
 
-from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn
+from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn, blackbody_wn_rad2temp
 from pyspectral.rsr_reader import RelativeSpectralResponse
-from pyspectral.utils import BANDNAMES, WAVE_LENGTH, WAVE_NUMBER, convert2wavenumber, get_bandname_from_wavelength
+from pyspectral.utils import (
+    BANDNAMES,
+    WAVE_LENGTH,
+    WAVE_NUMBER,
+    convert2wavenumber,
+    get_bandname_from_wavelength,
+    get_central_wave,
+)
 
 LOG = logging.getLogger(__name__)
 
@@ -131,7 +138,7 @@ class RadTbConverter(object):
             self.bandname = BANDNAMES.get(self.instrument, BANDNAMES['generic']).get(self.band, self.band)
         elif isinstance(self.band, Number):
             self.bandwavelength = self.band
-            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, self.rsr)
+            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, sensor.rsr)
 
         self.wavelength_or_wavenumber = (self.rsr[self.bandname][self.detector][self.wavespace] *
                                          self._wave_si_scale)
@@ -241,9 +248,13 @@ class RadTbConverter(object):
     def radiance2tb(self, rad):
         """Get the Tb from the radiance using the Planck function and the central wavelength of the band.
 
+        In wavenumber space the central wavenumber of the band is used.
+
         rad:
             Radiance in SI units
         """
+        if self.wavespace == WAVE_NUMBER:
+            return blackbody_wn_rad2temp(get_central_wave(self.wavelength_or_wavenumber, self.response), rad)
         return radiance2tb(rad, self.rsr[self.bandname][self.detector]['central_wavelength'] * 1e-6)
 
 
-- 
2.43.0


From 6ddc36746912a95e1149fede2b2b2616caa45b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:46 +0000
Subject: [PATCH 18/51] fix: make the spectral response integral available
 after conversion to wavenumber

---
 pyspectral/rsr_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rsr_reader.py b/pyspectral/rsr_reader.py
index 7f98def..6b9dad2 100644
--- a/pyspectral/rsr_reader.py
+++ b/pyspectral/rsr_reader.py
@@ -218,7 +218,7 @@ class RelativeSpectralResponse(_RSRDataBase):
 
         intg = {}
         for detector_name in self.rsr[band_name].keys():
-            wvl = self.rsr[band_name][detector_name]['wavelength']
+            wvl = self.rsr[band_name][detector_name][self._wavespace]
             resp = self.rsr[band_name][detector_name]['response']
             intg[detector_name] = trapezoid(resp, wvl)
         return intg
-- 
2.43.0


From dd62fdafa5ddff6833c896a0ca75e8ae65b30b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 19/51] fix: make the SEVIRI water vapour bands available under
 their standard names

---
 pyspectral/radiance_tb_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index ca99c5b..ed7735c 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -70,6 +70,9 @@ SEVIRI = {'IR3.9': {'Meteosat-8': [2567.330, 0.9956, 3.410],
                      'Meteosat-9': [751.792, 0.9981, 0.561],
                      },
           }
+# The standard Pyspectral names of the water vapour bands:
+SEVIRI['IR6.2'] = SEVIRI['WV6.2']
+SEVIRI['IR7.3'] = SEVIRI['WV7.3']
 
 
 class RadTbConverter(object):
-- 
2.43.0


From 93484fc6b2321c12174eb5c57ba99731b1b110d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:56 +0000
Subject: [PATCH 20/51] fix: find the band names of AVHRR/3 and METImage from
 the instrument names in use

---
 pyspectral/bandnames.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyspectral/bandnames.py b/pyspectral/bandnames.py
index 7661ea2..48be324 100644
--- a/pyspectral/bandnames.py
+++ b/pyspectral/bandnames.py
@@ -87,6 +87,10 @@ BANDNAMES['avhrr-3'] = {'1': 'ch1',
                         '4': 'ch4',
                         '5': 'ch5'}
 
+# The instrument name may be with a slash or without separator as well:
+BANDNAMES['avhrr/3'] = BANDNAMES['avhrr-3']
+BANDNAMES['avhrr3'] = BANDNAMES['avhrr-3']
+
 BANDNAMES['abi'] = {'C01': 'ch1',
                     'C02': 'ch2',
                     'C03': 'ch3',
@@ -209,3 +213,5 @@ BANDNAMES['VII'] = {'vii_443': 'vii-4',
                     'vii_12020': 'vii-39',
                     'vii_13345': 'vii-40',
                     }
+
+BANDNAMES['metimage'] = BANDNAMES['VII']
-- 
2.43.0


From 8485aac3c7fa14f306094dbf198412878a8e80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 21/51] fix: limb-correct also Numpy arrays without a mask

---
 pyspectral/atm_correction_ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index c19df0e..0fb606f 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -124,7 +124,7 @@ def viewzen_corr(data, view_zen):
     y0, x0 = np.ma.where(view_zen == 0)
     data[y0, x0] += tau0(data[y0, x0])
 
-    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~data.mask))
+    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~np.ma.getmaskarray(data)))
     data[y, x] += tau(data[y, x]) * delta(view_zen[y, x])
     return data
 
-- 
2.43.0


From aff17381a2e2598f351b3c65d0e9926b7f4a2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 22/51] fix: do not take an incomplete download or extraction
 for an up-to-date data set

Also remove the tarball when the download or the extraction fails.
---
 pyspectral/utils.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9c12224..0c160e2 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -448,18 +448,27 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
 
     total_size = int(response.headers.get("content-length", 0))
 
-    with open(local_pathname, "wb") as handle:
-        for data in _tqdm_or_iter(response.iter_content(chunk_size=chunk_size),
-                                  total=(int(total_size / chunk_size + 0.5)),
-                                  unit="kB"):
-            if data:
-                handle.write(data)
-
-    tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
-    with tarfile.open(local_pathname) as tar:
-        tar.extractall(extract_dir, **tar_kwargs)  # type: ignore
-
-    os.remove(local_pathname)
+    try:
+        with open(local_pathname, "wb") as handle:
+            for data in _tqdm_or_iter(response.iter_content(chunk_size=chunk_size),
+                                      total=(int(total_size / chunk_size + 0.5)),
+                                      unit="kB"):
+                if data:
+                    handle.write(data)
+
+        tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
+        with tarfile.open(local_pathname) as tar:
+            # Read all of the tarball before anything is extracted, and extract the
+            # version file last: An incomplete update must not look like a complete one.
+            members = sorted(tar.getmembers(), key=_is_version_file)
+            tar.extractall(extract_dir, members=members, **tar_kwargs)  # type: ignore
+    finally:
+        local_pathname.unlink(missing_ok=True)
+
+
+def _is_version_file(tar_member: tarfile.TarInfo) -> bool:
+    version_filenames = [lut["filename"] for lut in ATM_CORRECTION_LUT_VERSION.values()]
+    return os.path.basename(tar_member.name) in [RSR_DATA_VERSION_FILENAME, *version_filenames]
 
 
 def _tqdm_or_iter(an_iterable, **tqdm_kwargs):
-- 
2.43.0


From 9225b34c26d2d218b61420f06ec30698bcac327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:16 +0000
Subject: [PATCH 23/51] fix: delete the temporary directories of the testing
 utilities on exit also after an exception

---
 pyspectral/testing.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 46c7fc1..f0044ce 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -108,9 +108,9 @@ def mock_pyspectral_downloads(
         rsr_files_kwargs: Keyword arguments to pass to :func:`mock_rsr_files`.
 
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if tmp_path is None:
-        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
+        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_", ignore_cleanup_errors=True)
         tmp_path = Path(tmp_path_manager.name)
 
     config_options = {}
@@ -128,14 +128,13 @@ def mock_pyspectral_downloads(
     rsr_files_kwargs = rsr_files_kwargs or {}
 
     with (
+        tmp_path_manager,
         override_config(config_options=config_options),
         mock_rayleigh_luts(rayleigh_dir=rayleigh_dir),
         init_tb_cache(tb2rad_dir),
         mock_rsr_files(rsr_dir, **rsr_files_kwargs),
     ):
         yield
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
@@ -152,9 +151,9 @@ def mock_tb_conversion(
         rsr_files_kwargs: Keyword arguments to pass to :func:`mock_rsr_files`.
 
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if tb2rad_dir is None:
-        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
+        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_", ignore_cleanup_errors=True)
         tb2rad_dir = Path(tmp_path_manager.name)
     if rsr_dir is None:
         rsr_dir = tb2rad_dir
@@ -169,12 +168,9 @@ def mock_tb_conversion(
         rsr_dir,
         **rsr_files_kwargs,
     )
-    with config_cm, rsr_files_cm as load_rsr:
+    with tmp_path_manager, config_cm, rsr_files_cm as load_rsr:
         yield load_rsr
 
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
-
 
 @contextlib.contextmanager
 def init_tb_cache(tb2rad_dir: Path) -> Iterator[None]:
@@ -227,9 +223,9 @@ def mock_rsr(
             ``central_wavelengths``.
 
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if rsr_dir is None:
-        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
+        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_", ignore_cleanup_errors=True)
         rsr_dir = Path(tmp_path_manager.name)
     fake_config = {
         "rsr_dir": str(rsr_dir),
@@ -243,10 +239,8 @@ def mock_rsr(
         side_effect=side_effect,
         return_value=return_value,
     )
-    with config_cm, rsr_files_cm as load_rsr:
+    with tmp_path_manager, config_cm, rsr_files_cm as load_rsr:
         yield load_rsr
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
@@ -351,9 +345,9 @@ def mock_rayleigh(
         atmospheres: Atmospheres to create LUTs for. Defaults to all supported
             atmosphere types.
     """
-    tmp_path_manager = None
+    tmp_path_manager: Any = nullcontext()
     if rayleigh_dir is None:
-        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_")
+        tmp_path_manager = tempfile.TemporaryDirectory(prefix="pyspectral_testing_", ignore_cleanup_errors=True)
         rayleigh_dir = Path(tmp_path_manager.name)
 
     if rsr_dir is None:
@@ -372,10 +366,8 @@ def mock_rayleigh(
         atmospheres=atmospheres,
     )
     rsr_files_cm = mock_rsr_files(rsr_dir)
-    with config_cm, luts_cm, rsr_files_cm:
+    with tmp_path_manager, config_cm, luts_cm, rsr_files_cm:
         yield
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 877799be1c42e1d40c27a7b6b2c0e1f22dc5565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 24/51] fix: derive the instrument and platform of fake RSR
 files from names with underscores

---
 pyspectral/testing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index f0044ce..c21b9e9 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -594,9 +594,9 @@ def _fake_rsr_info_factory(
     def _create_fake_rsr_info(rsr_path: Path) -> dict:
         from pyspectral.bandnames import BANDNAMES
 
-        parts = rsr_path.stem.split("_")
-        instrument = parts[1]
-        platform_name = parts[2]
+        # the instrument name may itself have an underscore (e.g. oli_tirs)
+        _, instrument_platform = rsr_path.stem.split("_", maxsplit=1)
+        instrument, platform_name = instrument_platform.rsplit("_", maxsplit=1)
         if instrument.startswith("avhrr"):
             instrument = "avhrr/" + instrument[-1]
         band_name_map = BANDNAMES.get(
-- 
2.43.0


From 959b4482abf9b42cae1e02ff5ec9dce82cd5b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 25/51] fix: let logging be turned on again after it has been
 turned off

---
 pyspectral/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 0c160e2..8aac2f4 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -515,7 +515,10 @@ class NullHandler(logging.Handler):
 
 def logging_off():
     """Turn logging off."""
+    global _is_logging_on
+
     logging.getLogger("").handlers = [NullHandler()]
+    _is_logging_on = False
 
 
 def get_logger(name):
-- 
2.43.0


From 5d0c40d6729334ae9dfa81bcc729554c36d1699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:42 +0000
Subject: [PATCH 26/51] fix: accept sequences, and keep the precision, in the
 inverse Planck function of wavenumber

---
 pyspectral/blackbody.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index d7379c3..900a10f 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -35,10 +35,7 @@ def blackbody_rad2temp(wavelength, radiance):
         The derived temperature in Kelvin.
 
     """
-    if not hasattr(radiance, "dtype"):
-        radiance = np.asarray(radiance)[()]
-    if not np.issubdtype(radiance.dtype, np.floating):
-        radiance = radiance.astype(np.float64)
+    radiance = _as_floating(radiance)
     if getattr(wavelength, "dtype", None) != radiance.dtype:
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
         wavelength = radiance.dtype.type(wavelength)
@@ -58,10 +55,23 @@ def blackbody_wn_rad2temp(wavenumber, radiance):
         The derived temperature in Kelvin.
 
     """
+    radiance = _as_floating(radiance)
+    if getattr(wavenumber, "dtype", None) != radiance.dtype:
+        # avoid a wavenumber numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
+        wavenumber = radiance.dtype.type(wavenumber)
     with np.errstate(divide='ignore', invalid='ignore'):
         return PLANCK_C1 * wavenumber / np.log((PLANCK_C2 * wavenumber**3) / radiance + 1.0)
 
 
+def _as_floating(radiance):
+    """Return the scalar, sequence or array of radiances as floating point number(s)."""
+    if not hasattr(radiance, "dtype"):
+        radiance = np.asarray(radiance)[()]
+    if not np.issubdtype(radiance.dtype, np.floating):
+        radiance = radiance.astype(np.float64)
+    return radiance
+
+
 def planck(wave, temperature, wavelength=True):
     """Derive the Planck radiation as a function of wavelength or wavenumber.
 
-- 
2.43.0


From f2c5dacf70b249770e9afaf8989a1013f46a6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:48 +0000
Subject: [PATCH 27/51] fix: accept sequences of wavelengths and wavenumbers in
 the Planck function

---
 pyspectral/blackbody.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index 900a10f..e6cf405 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -97,6 +97,9 @@ def planck(wave, temperature, wavelength=True):
         LOG.debug("Using {0} when calculating the Blackbody radiance".format(
             units[(wavelength is True) - 1]))
 
+    if isinstance(wave, (list, tuple)):
+        wave = np.asarray(wave)
+
     if wavelength:
         nom = PLANCK_C2 / wave ** 5
         arg1 = PLANCK_C1 / wave
-- 
2.43.0


From b37e06dc759ec527de78ae8853f532d23d8cfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 28/51] fix: use the wavelength of each pixel also for chunked
 radiances

---
 pyspectral/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 8aac2f4..3803385 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -688,6 +688,14 @@ def _remove_separators(instrument_name):
     return instrument_name.replace("/", "").replace("-", "")
 
 
+def _match_chunks(args, chunked_array):
+    """Chunk all Numpy arrays in *args* like the *chunked_array*, so that every block gets its own part of them."""
+    import dask.array as da
+    return [da.from_array(np.broadcast_to(arg, chunked_array.shape), chunks=chunked_array.chunks)
+            if isinstance(arg, np.ndarray) and arg.ndim > 0 else arg
+            for arg in args]
+
+
 def use_map_blocks_on(argument_to_run_map_blocks_on):
     """Use map blocks on a given argument.
 
@@ -710,12 +718,12 @@ def use_map_blocks_on(argument_to_run_map_blocks_on):
             import dask.array as da
             import xarray as xr
             if isinstance(array, da.Array):
-                return da.map_blocks(f, *args, **kwargs)
+                return da.map_blocks(f, *_match_chunks(args, array), **kwargs)
             elif isinstance(array, xr.DataArray):
                 new_array = array.copy()
                 new_args = list(args)
                 new_args[argument_index] = array.data
-                new_data = da.map_blocks(f, *new_args, **kwargs)
+                new_data = da.map_blocks(f, *_match_chunks(new_args, array.data), **kwargs)
                 new_array.data = new_data
                 return new_array
             else:
-- 
2.43.0


From b54a4b5911565912704df9c7b1c90be3434eed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:46 +0000
Subject: [PATCH 29/51] fix: accept angles and red band with differing chunks
 in the Rayleigh correction

---
 pyspectral/rayleigh.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index 11b6ee4..49ce491 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -41,6 +41,16 @@ def _map_blocks_or_direct_call(func, *args, **kwargs):
     return da.map_blocks(func, *args, **kwargs)
 
 
+def _unify_chunks(*arrays):
+    """Give all arrays the same chunks if any of them is a dask array."""
+    if da is None or not any(isinstance(arr, da.Array) for arr in arrays):
+        return arrays
+    args = []
+    for arr in arrays:
+        args += [arr, None if arr is None else tuple(range(arr.ndim))]
+    return da.core.unify_chunks(*args)[1]
+
+
 def _clip_angles_inside_coordinate_range(zenith_angle, zenith_secant_max):
     """Clipping solar- or satellite zenith angles to be inside the allowed coordinate range.
 
@@ -209,6 +219,8 @@ class Rayleigh(RayleighConfigBaseClass):
         # version of the algorithm but return numpy arrays back
         compute = da is not None and not isinstance(sun_zenith, da.Array)
 
+        sun_zenith, sat_zenith, azidiff, redband = _unify_chunks(sun_zenith, sat_zenith, azidiff, redband)
+
         wvl, band_name = self._get_effective_wavelength_and_band_name(band_name_or_wavelength)
         repr_arr = sun_zenith if redband is None else redband
         try:
-- 
2.43.0


From 6f5b40e3382332dbb78b3471c8e0cf9ee15f8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:17 +0000
Subject: [PATCH 30/51] fix: store the central wavelength in micrometres
 whatever the scale of the wavelengths

convert2hdf5 stored it in the unit of the input data, while the reader takes
it as micrometres, so that for data given in e.g. nanometres it was off by
a factor of 1000.
---
 pyspectral/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 3803385..75b97ab 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -321,7 +321,8 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     wvl = sensor.rsr["wavelength"][~np.isnan(sensor.rsr["wavelength"])]
     # Store detector central wavelength
     rsp = sensor.rsr["response"][~np.isnan(sensor.rsr["wavelength"])]
-    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+    # (like when reading the data the central wavelength is in micrometers)
+    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)
 
     # Store resonse data
     arr = sensor.rsr["response"]
@@ -346,7 +347,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
     for cur_det in detectors:
         det_grp = grp.create_group(cur_det)
         rsp = sensor.rsr[cur_det]["response"][~np.isnan(sensor.rsr[cur_det]["wavelength"])]
-        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)
         arr = sensor.rsr[cur_det]["response"]
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
-- 
2.43.0


From c9f00f0fe302dd0e7da51e26323777c1fd61fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:11 +0000
Subject: [PATCH 31/51] fix: verify the checksum of downloaded data before
 extracting them

Bytes damaged on the way were extracted without any error: Neither listing
nor extracting the members reads on to the checksum at the end of the
compressed data.
---
 pyspectral/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 75b97ab..bad6434 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -462,6 +462,9 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
             # Read all of the tarball before anything is extracted, and extract the
             # version file last: An incomplete update must not look like a complete one.
             members = sorted(tar.getmembers(), key=_is_version_file)
+            # The checksum of the compressed data is verified when its end is reached
+            while tar.fileobj.read(chunk_size):  # type: ignore
+                pass
             tar.extractall(extract_dir, members=members, **tar_kwargs)  # type: ignore
     finally:
         local_pathname.unlink(missing_ok=True)
-- 
2.43.0


From f1e2d500d224adeb131e1a1c4b0532d469b735f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:56 +0000
Subject: [PATCH 32/51] fix: make fake Rayleigh LUTs work in a directory given
 by a relative path

---
 pyspectral/testing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index c21b9e9..75f0abd 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -581,7 +581,8 @@ def _symlink_rayleigh_lut(link_path: Path) -> None:
         return
 
     rayleigh_dir = link_path.parent.parent
-    base_file = rayleigh_dir / BASE_RAYLEIGH_LUT_FILENAME
+    # a relative link target would be looked up from the directory of the link
+    base_file = (rayleigh_dir / BASE_RAYLEIGH_LUT_FILENAME).absolute()
     link_path.symlink_to(base_file)
 
 
-- 
2.43.0


From e9484ca47b53760da0c949e3701d742113b02b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:13 +0000
Subject: [PATCH 33/51] fix: read the columns of plain text responses with
 current Numpy in the conversion scripts

---
 rsr_convert_scripts/ami_reader.py | 6 ++----
 rsr_convert_scripts/avhrr_rsr.py  | 6 ++----
 rsr_convert_scripts/cocts_rsr.py  | 5 ++---
 rsr_convert_scripts/mersi2_rsr.py | 6 ++----
 rsr_convert_scripts/viirs_rsr.py  | 2 +-
 rsr_convert_scripts/virr_rsr.py   | 6 ++----
 6 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/rsr_convert_scripts/ami_reader.py b/rsr_convert_scripts/ami_reader.py
index 8ed8e6b..cbd056e 100644
--- a/rsr_convert_scripts/ami_reader.py
+++ b/rsr_convert_scripts/ami_reader.py
@@ -59,13 +59,11 @@ class AmiRSR(InstrumentRSR):
         """Load the AMI RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
                              unpack=True,
-                             names=['wavenumber',
-                                    'response'],
                              skip_header=4)
 
         # Data are wavenumbers in cm-1:
-        wavelength = 1. / data['wavenumber'][::-1] * scale
-        response = data['response'][::-1]
+        wavelength = 1. / data[0][::-1] * scale
+        response = data[1][::-1]
 
         # The real AMI has more than one detectors I assume. However, for now
         # we store the single rsr available in the NWPSAF coefficient files:
diff --git a/rsr_convert_scripts/avhrr_rsr.py b/rsr_convert_scripts/avhrr_rsr.py
index 97f632d..813b05a 100644
--- a/rsr_convert_scripts/avhrr_rsr.py
+++ b/rsr_convert_scripts/avhrr_rsr.py
@@ -53,12 +53,10 @@ class AvhrrRSR(InstrumentRSR):
         """Load the AVHRR RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
                              unpack=True,
-                             names=['wavelength',
-                                    'response'],
                              skip_header=1)
 
-        wavelength = data['wavelength'] * scale
-        response = data['response']
+        wavelength = data[0] * scale
+        response = data[1]
 
         self.rsr = {'wavelength': wavelength, 'response': response}
 
diff --git a/rsr_convert_scripts/cocts_rsr.py b/rsr_convert_scripts/cocts_rsr.py
index 40d854b..32535f5 100644
--- a/rsr_convert_scripts/cocts_rsr.py
+++ b/rsr_convert_scripts/cocts_rsr.py
@@ -51,11 +51,10 @@ class COCTS_RSR(InstrumentRSR):
         """
         data = np.genfromtxt(self.requested_band_filename,
                              unpack=True,
-                             names=['wavelength', 'ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8'],
                              skip_header=0)
 
-        wavelength = data['wavelength'] * scale
-        response = data[bandname]
+        wavelength = data[0] * scale
+        response = data[COCTS_BAND_NAMES.index(bandname) + 1]
 
         self.rsr = {'wavelength': wavelength, 'response': response}
 
diff --git a/rsr_convert_scripts/mersi2_rsr.py b/rsr_convert_scripts/mersi2_rsr.py
index c58597b..b72f314 100644
--- a/rsr_convert_scripts/mersi2_rsr.py
+++ b/rsr_convert_scripts/mersi2_rsr.py
@@ -52,12 +52,10 @@ class Mersi2RSR(InstrumentRSR):
         """
         data = np.genfromtxt(self.requested_band_filename,
                              unpack=True,
-                             names=['wavelength',
-                                    'response'],
                              skip_header=0)
 
-        wavelength = data['wavelength'] * scale
-        response = data['response']
+        wavelength = data[0] * scale
+        response = data[1]
 
         self.rsr = {'wavelength': wavelength, 'response': response}
 
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 9476572..603483d 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -131,7 +131,7 @@ class ViirsRSR(object):
                                  dtype=DTYPE1[self.platform_name])
         except ValueError:
             data = np.genfromtxt(self.filename,
-                                 unpack=True, skip_header=header_lines_to_skip,
+                                 skip_header=header_lines_to_skip,
                                  names=NAMES2[self.platform_name],
                                  dtype=DTYPE2[self.platform_name])
 
diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 5940660..844bd3c 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -50,12 +50,10 @@ class VirrRSR(InstrumentRSR):
         """
         data = np.genfromtxt(self.requested_band_filename,
                              unpack=True,
-                             names=['wavelength',
-                                    'response'],
                              skip_header=0)
 
-        wavelength = data['wavelength'] * scale
-        response = data['response']
+        wavelength = data[0] * scale
+        response = data[1]
 
         self.rsr = {'wavelength': wavelength, 'response': response}
 
-- 
2.43.0


From 11e25dd2d51b671d60c6236009f619434a757827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:13 +0000
Subject: [PATCH 34/51] fix: convert the VIRR responses of platforms with
 several instruments

---
 rsr_convert_scripts/virr_rsr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 844bd3c..e481a5a 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -29,6 +29,9 @@ class VirrRSR(InstrumentRSR):
         super(VirrRSR, self).__init__(bandname, platform_name, VIRR_BAND_NAMES[platform_name])
 
         self.instrument = INSTRUMENTS.get(platform_name, 'virr')
+        if type(self.instrument) is list:
+            self.instrument = 'virr'
+
         self._get_options_from_config()
         self._get_bandfilenames()
 
-- 
2.43.0


From 983d920a0db9f4de3b26abb3702c73ff3a7d8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:13 +0000
Subject: [PATCH 35/51] fix: take the FY-3B MERSI-1 bands 8 to 20 from their
 own columns

---
 rsr_convert_scripts/mersi1_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/mersi1_rsr.py b/rsr_convert_scripts/mersi1_rsr.py
index 03a5695..14eab9c 100644
--- a/rsr_convert_scripts/mersi1_rsr.py
+++ b/rsr_convert_scripts/mersi1_rsr.py
@@ -73,7 +73,7 @@ class Mersi1FY3ABRSR(InstrumentRSR):
             if self.bandname in fy3b_file1_bands_part1:
                 response = data[fy3b_file1_bands_part1.index(self.bandname) + 1]
             elif self.bandname in fy3b_file1_bands_part2:
-                response = data[fy3b_file1_bands_part2.index(self.bandname) + 4]
+                response = data[fy3b_file1_bands_part2.index(self.bandname) + 5]
             else:
                 response = data[fy3b_file2_bands.index(self.bandname) + 1]
 
-- 
2.43.0


From 8bcf5118419f5d824607634b713c31aed1654ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:13 +0000
Subject: [PATCH 36/51] fix: compare the wavelengths of several detectors with
 current Numpy, also if they differ in number

---
 rsr_convert_scripts/metimage_rsr.py | 2 +-
 rsr_convert_scripts/viirs_rsr.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsr_convert_scripts/metimage_rsr.py b/rsr_convert_scripts/metimage_rsr.py
index 5052416..4fba01f 100644
--- a/rsr_convert_scripts/metimage_rsr.py
+++ b/rsr_convert_scripts/metimage_rsr.py
@@ -112,7 +112,7 @@ def generate_metimage_file(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(metimage.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 603483d..838b4ba 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -196,7 +196,7 @@ def create_viirs_rsr(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(viirs.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
-- 
2.43.0


From 4a27c3036f1821210367a34b4b59827e87f0793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:13 +0000
Subject: [PATCH 37/51] fix: write the AHI band names and report a missing AHI
 file

---
 rsr_convert_scripts/ahi_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsr_convert_scripts/ahi_reader.py b/rsr_convert_scripts/ahi_reader.py
index 73b4e11..0863dda 100644
--- a/rsr_convert_scripts/ahi_reader.py
+++ b/rsr_convert_scripts/ahi_reader.py
@@ -58,8 +58,8 @@ class AhiRSR(object):
         if os.path.exists(self.filename):
             self._load()
         else:
-            raise IOError("Couldn't find an existing file for this band: " +
-                          str(self.bandname))
+            raise IOError("Couldn't find an existing file for this platform: " +
+                          str(self.filename))
 
     def _load(self, filename=None):
         """Load the Himawari AHI RSR data for the band requested."""
@@ -97,7 +97,7 @@ def convert2hdf5(platform_name):
         h5f.attrs['description'] = 'Relative Spectral Responses for AHI'
         h5f.attrs['platform_name'] = platform_name
         h5f.attrs['sensor'] = 'ahi'
-        h5f.attrs['band_names'] = AHI_BAND_NAMES.values()
+        h5f.attrs['band_names'] = list(AHI_BAND_NAMES.values())
 
         for chname in AHI_BAND_NAMES.values():
 
-- 
2.43.0


From 38856684e57a9c8f5b182551580858e4b0233290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:13 +0000
Subject: [PATCH 38/51] fix: read each OLI band from its own sheet

---
 rsr_convert_scripts/oli_tirs_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsr_convert_scripts/oli_tirs_reader.py b/rsr_convert_scripts/oli_tirs_reader.py
index cdaf529..7cb80f4 100644
--- a/rsr_convert_scripts/oli_tirs_reader.py
+++ b/rsr_convert_scripts/oli_tirs_reader.py
@@ -30,10 +30,10 @@ OLI_BAND_NAMES = {"B1": "CoastalAerosol",
                   "B3": "Green",
                   "B4": "Red",
                   "B5": "NIR",
-                  "B6": "Cirrus",
-                  "B7": "SWIR1",
-                  "B8": "SWIR2",
-                  "B9": "Pan"}
+                  "B6": "SWIR1",
+                  "B7": "SWIR2",
+                  "B8": "Pan",
+                  "B9": "Cirrus"}
 
 TIRS_SHEETNAMES_L8 = {"B10": "TIRS BA RSR",
                       "B11": "TIRS BA RSR"}
-- 
2.43.0


From 6d4c25cd1a707514bcc0fc956c137daa798e1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:34 +0000
Subject: [PATCH 39/51] fix: define the logger of the AGRI, GHI and MERSI-RM
 scripts when they are imported, too

---
 rsr_convert_scripts/agri_rsr.py    | 3 ++-
 rsr_convert_scripts/ghi_rsr.py     | 3 ++-
 rsr_convert_scripts/mersirm_rsr.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsr_convert_scripts/agri_rsr.py b/rsr_convert_scripts/agri_rsr.py
index ca5dcc7..1d762aa 100644
--- a/rsr_convert_scripts/agri_rsr.py
+++ b/rsr_convert_scripts/agri_rsr.py
@@ -11,6 +11,8 @@ from pyspectral.utils import INSTRUMENTS
 from pyspectral.utils import convert2hdf5 as tohdf5
 from pyspectral.utils import get_logger, logging_on
 
+LOG = get_logger(__name__)
+
 FY4_AGRI_BAND_NAMES = ['ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8',
                        'ch9', 'ch10', 'ch11', 'ch12', 'ch13', 'ch14', 'ch15']
 BANDNAME_SCALE2MICROMETERS = {'FY-4A': {'ch1': 0.001,
@@ -115,7 +117,6 @@ def convert_agri():
 
 
 if __name__ == "__main__":
-    LOG = get_logger(__name__)
     logging_on()
 
     convert_agri()
diff --git a/rsr_convert_scripts/ghi_rsr.py b/rsr_convert_scripts/ghi_rsr.py
index f48fa41..e09db12 100644
--- a/rsr_convert_scripts/ghi_rsr.py
+++ b/rsr_convert_scripts/ghi_rsr.py
@@ -11,6 +11,8 @@ from pyspectral.utils import INSTRUMENTS
 from pyspectral.utils import convert2hdf5 as tohdf5
 from pyspectral.utils import get_logger, logging_on
 
+LOG = get_logger(__name__)
+
 FY4_GHI_BAND_NAMES = ['ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7']
 BANDNAME_SCALE2MICROMETERS = {'FY-4B': {'ch1': 0.001,
                                         'ch2': 0.001,
@@ -87,7 +89,6 @@ def convert_ghi():
 
 
 if __name__ == "__main__":
-    LOG = get_logger(__name__)
     logging_on()
 
     convert_ghi()
diff --git a/rsr_convert_scripts/mersirm_rsr.py b/rsr_convert_scripts/mersirm_rsr.py
index ff409b9..87ec82c 100644
--- a/rsr_convert_scripts/mersirm_rsr.py
+++ b/rsr_convert_scripts/mersirm_rsr.py
@@ -11,6 +11,8 @@ from pyspectral.utils import INSTRUMENTS
 from pyspectral.utils import convert2hdf5 as tohdf5
 from pyspectral.utils import get_logger, logging_on
 
+LOG = get_logger(__name__)
+
 FY3_MERSIRM_BAND_NAMES = ['ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8']
 
 
@@ -61,7 +63,6 @@ def convert_mersirm():
 
 
 if __name__ == "__main__":
-    LOG = get_logger(__name__)
     logging_on()
 
     convert_mersirm()
-- 
2.43.0


From 54f6647702ae4029c1daf71bf4dfde96976b58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:34 +0000
Subject: [PATCH 40/51] fix: find the package data in the SEVIRI and AVHRR/1
 scripts without pkg_resources

---
 rsr_convert_scripts/avhrr1_rsr.py | 4 ++--
 rsr_convert_scripts/seviri_rsr.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsr_convert_scripts/avhrr1_rsr.py b/rsr_convert_scripts/avhrr1_rsr.py
index a9a65fc..1149254 100644
--- a/rsr_convert_scripts/avhrr1_rsr.py
+++ b/rsr_convert_scripts/avhrr1_rsr.py
@@ -5,10 +5,10 @@ Data from NOAA: AVHRR1_SRF_only.xls
 
 import logging
 import os
+from importlib.resources import files
 
 import h5py
 import numpy as np
-import pkg_resources
 from xlrd import open_workbook
 
 from pyspectral.config import get_config
@@ -19,7 +19,7 @@ LOG = logging.getLogger(__name__)
 AVHRR_BAND_NAMES = {'avhrr/1': ['ch1', 'ch2', 'ch3', 'ch4']}
 AVHRR1_SATELLITES = ['TIROS-N', 'NOAA-6', 'NOAA-8', 'NOAA-10']
 
-DATA_PATH = pkg_resources.resource_filename('pyspectral', 'data/')
+DATA_PATH = str(files('pyspectral') / 'data')
 
 CHANNEL_NAMES = {'A101C001': 'ch1',
                  'A101C002': 'ch2',
diff --git a/rsr_convert_scripts/seviri_rsr.py b/rsr_convert_scripts/seviri_rsr.py
index 2b3daeb..98a7cbf 100644
--- a/rsr_convert_scripts/seviri_rsr.py
+++ b/rsr_convert_scripts/seviri_rsr.py
@@ -2,16 +2,16 @@
 
 import logging
 import os
+from importlib.resources import files
 
 import numpy as np
-import pkg_resources
 from scipy.integrate import trapezoid
 from xlrd import open_workbook
 
 from pyspectral.config import get_config
 
 LOG = logging.getLogger(__name__)
-DATA_PATH = pkg_resources.resource_filename('pyspectral', 'data/')
+DATA_PATH = str(files('pyspectral') / 'data')
 
 
 class Seviri(object):
-- 
2.43.0


From d8a8ca01638203973048614fde8a68d95effb738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:34 +0000
Subject: [PATCH 41/51] fix: convert the SEVIRI solar bands

---
 rsr_convert_scripts/seviri_rsr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsr_convert_scripts/seviri_rsr.py b/rsr_convert_scripts/seviri_rsr.py
index 98a7cbf..74ad025 100644
--- a/rsr_convert_scripts/seviri_rsr.py
+++ b/rsr_convert_scripts/seviri_rsr.py
@@ -225,10 +225,9 @@ def generate_seviri_file(seviri, platform_name):
             dset.attrs['unit'] = 'm'
             dset.attrs['scale'] = 1e-06
             dset[...] = arr
-            try:
-                arr = seviri.rsr[key][sat_name]['95']
-            except ValueError:
-                arr = seviri.rsr[key][sat_name]
+            arr = seviri.rsr[key][sat_name]
+            if isinstance(arr, dict):
+                arr = arr['95']
             dset = grp.create_dataset('response', arr.shape, dtype='f')
             dset[...] = arr
 
-- 
2.43.0


From 5abc51394ced0dc6ca87695d4ec75cd908ce2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:34 +0000
Subject: [PATCH 42/51] fix: include the first sample of the SEVIRI responses

---
 rsr_convert_scripts/seviri_rsr.py | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/rsr_convert_scripts/seviri_rsr.py b/rsr_convert_scripts/seviri_rsr.py
index 74ad025..e1ce3b4 100644
--- a/rsr_convert_scripts/seviri_rsr.py
+++ b/rsr_convert_scripts/seviri_rsr.py
@@ -75,39 +75,39 @@ class Seviri(object):
 
             if ch_name.startswith('HRV'):
                 wvl = np.array(
-                    sheet.col_values(0, start_rowx=37, end_rowx=137))
+                    sheet.col_values(0, start_rowx=36, end_rowx=137))
                 # TODO: Add the 'extended' responses as well!
                 met8 = np.array(
-                    sheet.col_values(1, start_rowx=37, end_rowx=137))
+                    sheet.col_values(1, start_rowx=36, end_rowx=137))
                 met9 = np.array(
-                    sheet.col_values(3, start_rowx=37, end_rowx=137))
+                    sheet.col_values(3, start_rowx=36, end_rowx=137))
                 met10 = np.array(
-                    sheet.col_values(5, start_rowx=37, end_rowx=137))
+                    sheet.col_values(5, start_rowx=36, end_rowx=137))
                 met11 = np.array(
-                    sheet.col_values(6, start_rowx=37, end_rowx=137))
+                    sheet.col_values(6, start_rowx=36, end_rowx=137))
                 self.rsr[ch_name]['Meteosat-8'] = met8
                 self.rsr[ch_name]['Meteosat-9'] = met9
                 self.rsr[ch_name]['Meteosat-10'] = met10
                 self.rsr[ch_name]['Meteosat-11'] = met11
             elif ch_name.startswith('IR'):
                 wvl = np.array(
-                    sheet.col_values(0, start_rowx=13, end_rowx=113))
+                    sheet.col_values(0, start_rowx=12, end_rowx=113))
                 met8_95 = np.array(
-                    sheet.col_values(1, start_rowx=13, end_rowx=113))
+                    sheet.col_values(1, start_rowx=12, end_rowx=113))
                 met9_95 = np.array(
-                    sheet.col_values(3, start_rowx=13, end_rowx=113))
+                    sheet.col_values(3, start_rowx=12, end_rowx=113))
                 met10_95 = np.array(
-                    sheet.col_values(5, start_rowx=13, end_rowx=113))
+                    sheet.col_values(5, start_rowx=12, end_rowx=113))
                 met11_95 = np.array(
-                    sheet.col_values(7, start_rowx=13, end_rowx=113))
+                    sheet.col_values(7, start_rowx=12, end_rowx=113))
                 met8_85 = np.array(
-                    sheet.col_values(2, start_rowx=13, end_rowx=113))
+                    sheet.col_values(2, start_rowx=12, end_rowx=113))
                 met9_85 = np.array(
-                    sheet.col_values(4, start_rowx=13, end_rowx=113))
+                    sheet.col_values(4, start_rowx=12, end_rowx=113))
                 met10_85 = np.array(
-                    sheet.col_values(6, start_rowx=13, end_rowx=113))
+                    sheet.col_values(6, start_rowx=12, end_rowx=113))
                 met11_85 = np.array(
-                    sheet.col_values(8, start_rowx=13, end_rowx=113))
+                    sheet.col_values(8, start_rowx=12, end_rowx=113))
                 self.rsr[ch_name]['Meteosat-8'] = {'95': met8_95,
                                                    '85': met8_85}
                 self.rsr[ch_name]['Meteosat-9'] = {'95': met9_95,
@@ -118,15 +118,15 @@ class Seviri(object):
                                                     '85': met11_85}
             else:
                 wvl = np.array(
-                    sheet.col_values(0, start_rowx=12, end_rowx=112))
+                    sheet.col_values(0, start_rowx=11, end_rowx=112))
                 met8 = np.array(
-                    sheet.col_values(1, start_rowx=12, end_rowx=112))
+                    sheet.col_values(1, start_rowx=11, end_rowx=112))
                 met9 = np.array(
-                    sheet.col_values(2, start_rowx=12, end_rowx=112))
+                    sheet.col_values(2, start_rowx=11, end_rowx=112))
                 met10 = np.array(
-                    sheet.col_values(3, start_rowx=12, end_rowx=112))
+                    sheet.col_values(3, start_rowx=11, end_rowx=112))
                 met11 = np.array(
-                    sheet.col_values(4, start_rowx=12, end_rowx=112))
+                    sheet.col_values(4, start_rowx=11, end_rowx=112))
                 self.rsr[ch_name]['Meteosat-8'] = met8
                 self.rsr[ch_name]['Meteosat-9'] = met9
                 self.rsr[ch_name]['Meteosat-10'] = met10
-- 
2.43.0


From 6a9af871d4cf93c75d35837173e384ebd6df8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:34 +0000
Subject: [PATCH 43/51] fix: fall back to the AVHRR/1 file in the package data

---
 rsr_convert_scripts/avhrr1_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/avhrr1_rsr.py b/rsr_convert_scripts/avhrr1_rsr.py
index 1149254..2ad759f 100644
--- a/rsr_convert_scripts/avhrr1_rsr.py
+++ b/rsr_convert_scripts/avhrr1_rsr.py
@@ -48,7 +48,7 @@ class AvhrrRSR():
 
         self.avhrr_path = options['avhrr/1'].get('path')
         if not os.path.exists(self.avhrr_path):
-            self.avhrr1_path = os.path.join(
+            self.avhrr_path = os.path.join(
                 DATA_PATH, options['avhrr/1'].get('filename'))
 
         self.output_dir = options.get('rsr_dir', './')
-- 
2.43.0


From fd5a70077e0a6f149e5cfe566119382647e1d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:27 +0000
Subject: [PATCH 44/51] fix: composite plot shows another platform's responses
 when no sensor of the platform is requested

---
 bin/composite_rsr_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/composite_rsr_plot.py b/bin/composite_rsr_plot.py
index 859e9d4..32a1f5a 100644
--- a/bin/composite_rsr_plot.py
+++ b/bin/composite_rsr_plot.py
@@ -137,6 +137,7 @@ if __name__ == "__main__":
     something2plot = False
 
     for platform in platform_names:
+        rsr = None
         for sensor in sensors:
             if platform in INSTRUMENTS and sensor not in INSTRUMENTS.get(platform):
                 continue
-- 
2.43.0


From 962a172b6f4b50518c59e983aab85f3c5d01689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:32 +0000
Subject: [PATCH 45/51] fix: plot_rsr cannot save the plot of an instrument
 with a slash in its name

---
 bin/plot_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/plot_rsr.py b/bin/plot_rsr.py
index 974aa52..fafdc43 100644
--- a/bin/plot_rsr.py
+++ b/bin/plot_rsr.py
@@ -65,4 +65,4 @@ if __name__ == "__main__":
             plt.xlim(xlimits[0], xlimits[1])
 
     plt.title(title)
-    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor, band))
+    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor.replace('/', ''), band))
-- 
2.43.0


From 2994428773dd7e2e040d846b2513ff1e3880ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:37 +0000
Subject: [PATCH 46/51] fix: plotting the solar spectrum fails on a setting
 matplotlib no longer has, and changes global settings

---
 pyspectral/solar.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyspectral/solar.py b/pyspectral/solar.py
index 8159332..f7352a4 100644
--- a/pyspectral/solar.py
+++ b/pyspectral/solar.py
@@ -259,9 +259,6 @@ class SolarIrradianceSpectrum(object):
             raise TypeError('Neither wavelengths nor wavenumbers available!')
 
         from matplotlib import pyplot as plt
-        from matplotlib import rcParams
-        rcParams['text.usetex'] = True
-        rcParams['text.latex.unicode'] = True
 
         fig, axl = plt.subplots(figsize=(8, 4))
         plot_title = "Solar Irradiance Spectrum"
-- 
2.43.0


From 732a30480584fc1216812359135001f6fc89cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:00 +0000
Subject: [PATCH 47/51] fix: debug message of the reflectance calculation
 cannot be formatted without a masking limit

---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index b8da797..9c64ddb 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -234,7 +234,7 @@ class Calculator(RadTbConverter):
         self._rad3x_t11 = self.tb2radiance(tb_therm, lut=lut)["radiance"]
         self._rad3x = self.tb2radiance(tb_nir, lut=lut)["radiance"]
 
-        LOG.debug("Apply sun-zenith angle clipping between 0 and %5.2f", self.masking_limit)
+        LOG.debug("Apply sun-zenith angle clipping between 0 and %s", self.masking_limit)
 
         self._calculate_solar_radiance(tb_nir, sun_zenith)
         self._calculate_rad3x_correction(co2corr, tb_therm, tbco2, tb_nir.dtype)
-- 
2.43.0


From 13fbea74964368255a880360aadc964b678d4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:58 +0000
Subject: [PATCH 48/51] fix: responses converted to wavenumber shared their
 memory with the input

---
 pyspectral/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index bad6434..749ddb0 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -7,6 +7,7 @@ import os
 import sys
 import tarfile
 import warnings
+from copy import deepcopy
 from functools import wraps
 from inspect import getfullargspec, signature
 from pathlib import Path
@@ -177,7 +178,7 @@ def _band2wavenumber(ch_rsr):
     for det in ch_rsr.keys():  # Go through detectors
         if "wavenumber" in ch_rsr[det].keys():
             # Make a copy. Data are already in wave number space
-            band_wavenumbers[det] = ch_rsr[det].copy()
+            band_wavenumbers[det] = deepcopy(ch_rsr[det])
             LOG.debug("RSR data already in wavenumber space. No conversion needed.")
             continue
         band_wavenumbers[det] = _detector2wavenumber(ch_rsr[det])
@@ -208,10 +209,10 @@ def _collect_responses(det_rsr, key, det_wavenumbers):
             det_wavenumbers[key] = {}
             for name in det_rsr[key].keys():
                 resp = det_rsr[key][name]
-                det_wavenumbers[key][name] = resp[::-1]
+                det_wavenumbers[key][name] = resp[::-1].copy()
         else:
             resp = det_rsr[key]
-            det_wavenumbers[key] = resp[::-1]
+            det_wavenumbers[key] = resp[::-1].copy()
 
 
 def get_central_wave(wav, resp, weight=1.0):
-- 
2.43.0


From c2f2f7d9a59b52d9ad5790cce662dc01a1f59399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:53 +0000
Subject: [PATCH 49/51] fix: create all fake Rayleigh LUTs when the types are
 given by an iterator

---
 pyspectral/testing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 75f0abd..30685e0 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -411,10 +411,9 @@ def mock_rayleigh_luts(
             atmosphere types.
 
     """
-    if aerosol_types is None:
-        aerosol_types = AEROSOL_TYPES
-    if atmospheres is None:
-        atmospheres = ATMOSPHERES
+    # iterated over more than once below
+    aerosol_types = list(AEROSOL_TYPES if aerosol_types is None else aerosol_types)
+    atmospheres = list(ATMOSPHERES if atmospheres is None else atmospheres)
 
     rayleigh_dir.mkdir(parents=True, exist_ok=True)
     _create_fake_rayleigh_file(
-- 
2.43.0


From fc73e39a8c948de592c86fa4e11bda89619d1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:53 +0000
Subject: [PATCH 50/51] fix: leave the overridden configuration also when the
 variable was removed inside

---
 pyspectral/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 30685e0..b814e83 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -474,7 +474,7 @@ def override_config(
             yield config_path
         finally:
             if old_config_env is None:
-                del os.environ["PSP_CONFIG_FILE"]
+                os.environ.pop("PSP_CONFIG_FILE", None)
             else:
                 os.environ["PSP_CONFIG_FILE"] = old_config_env
 
-- 
2.43.0


From 3a5793263ddc8ba5f0a47765107a183e4f5a7385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:42 +0000
Subject: [PATCH 51/51] fix: read the old AVHRR responses with current pandas
 versions

---
 rsr_convert_scripts/convert_avhrr_old2star.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rsr_convert_scripts/convert_avhrr_old2star.py b/rsr_convert_scripts/convert_avhrr_old2star.py
index 0c5cc52..c7fc5af 100644
--- a/rsr_convert_scripts/convert_avhrr_old2star.py
+++ b/rsr_convert_scripts/convert_avhrr_old2star.py
@@ -21,18 +21,16 @@ OUTPUT_FILES = {'wvl1': 'NOAA_15_A302xx01.txt',
 def unpack_data(filename, fields):
     """Read the CSV ascii data from file and extract the fields specified."""
     data = pd.read_csv(filename,
-                       delim_whitespace=True,
+                       sep=r'\s+',
                        names=fields,
-                       false_values='-')
+                       na_values=['-'])
 
     for i in range(0, len(fields), 2):
         wvl = data[:][fields[i]].values
         resp = data[:][fields[i + 1]].values
 
-        wvl = np.ma.masked_where(
-            wvl == '-', wvl).compressed().astype('float32')
-        resp = np.ma.masked_where(
-            resp == '-', resp).compressed().astype('float32') / 100.0
+        wvl = np.ma.masked_invalid(wvl).compressed().astype('float32')
+        resp = np.ma.masked_invalid(resp).compressed().astype('float32') / 100.0
 
         hdline = "Wavelegth (um)  Normalized RSF"
         np.savetxt(OUTPUT_FILES[fields[i]],
-- 
2.43.0

