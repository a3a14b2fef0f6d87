From c83996aaa5c0b77ae124306e0213f762072459eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 01/21] fix: return the image when there is nothing to
 interpolate

interpolate_image_at_mask crashed in scipy (no points given) when the mask had
no bad pixels, or when all of them were filled with noise.
---
 metadetect/interpolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 7130ae9..ee46bca 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -203,6 +203,10 @@ def interpolate_image_at_mask(
                     size=shape, scale=1.0/np.sqrt(weight)
                 )
 
+        if not np.any(bad_msk):
+            # nothing is left to interpolate
+            return interp_image
+
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-- 
2.43.0


From 1b0ca6db3ffffa82f610fb3412b4517d6ca64cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 02/21] fix: refuse to interpolate instead of crashing on
 degenerate good pixels

When the good pixels around the masked ones are fewer than three, or all lie on
one line, scipy raised QhullError out of interpolate_image_at_mask.  Return None
like for other images that cannot be interpolated; the callers handle this.
---
 metadetect/interpolate.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index ee46bca..ac0ac06 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -3,6 +3,7 @@ interpolation utils - orig. from beckermr/pizza-cutter
 """
 import numpy as np
 from scipy.interpolate import CloughTocher2DInterpolator
+from scipy.spatial import QhullError
 import logging
 
 from numba import njit
@@ -131,7 +132,8 @@ def interpolate_image_at_mask(
         boolean array, True means it is a bad pixel
     maxfrac : float, optional
         If the fraction of bad pixels is greater than this,
-        None is returned. Default is 0.90.
+        None is returned. Default is 0.90. None is also returned if the
+        good pixels around the bad ones cannot support an interpolation.
     buff : int, optional
         The buffer of good pixels around each bad pixel to keep for the interpolant.
     weight : float, optional
@@ -210,11 +212,15 @@ def interpolate_image_at_mask(
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-        img_interp = CloughTocher2DInterpolator(
-            good_pix,
-            good_im,
-            fill_value=0.0,
-        )
+        try:
+            img_interp = CloughTocher2DInterpolator(
+                good_pix,
+                good_im,
+                fill_value=0.0,
+            )
+        except QhullError:
+            # the good pixels are too few or all lie on one line
+            return None
         interp_image[bad_msk] = img_interp(bad_pix)
 
         return interp_image
-- 
2.43.0


From 27f395c1c45b95b1d41022219292e594f0807576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 03/21] fix: stamps that do not overlap the image are empty
 instead of a crash

MEDSInterface.get_cutout built a negative slice for a box entirely past the
image, and failed with a broadcasting error.  measure_mfrac reaches this for
unsheared positions that land off a large image.
---
 metadetect/detect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/detect.py b/metadetect/detect.py
index 3ddf4f5..dfe6e50 100644
--- a/metadetect/detect.py
+++ b/metadetect/detect.py
@@ -131,6 +131,10 @@ class MEDSInterface(NGMixMEDS):
         box: [start,end]
             Start and end slice ranges in the output image
         """
+        if start >= dim or start + bsize <= 0:
+            # the box does not overlap the image at all
+            return [0, 0], [0, 0]
+
         # slice range in the original image
         obox = [start, start+bsize]
 
-- 
2.43.0


From 45924954cd7ab254c3501364801e9c7b5741f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 04/21] fix: a single band coadd refuses shear bands that do
 not exist

---
 metadetect/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/fitting.py b/metadetect/fitting.py
index abc3661..c624620 100644
--- a/metadetect/fitting.py
+++ b/metadetect/fitting.py
@@ -520,7 +520,7 @@ def make_coadd_obs(mbobs, shear_bands=None):
     # if we have one input band, then simply
     # return if if the data is consistent
     if nbands == 1:
-        if shear_bands[0] == 0:
+        if all(s == 0 for s in shear_bands):
             return mbobs[0][0], flags
         else:
             flags |= procflags.INCONSISTENT_BANDS
-- 
2.43.0


From 88718321dd8233009b45996c9b4879a02c9493e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 05/21] fix: leave the fitter settings of the caller unmodified

---
 metadetect/metadetect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 9f9547c..a536efe 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -271,8 +271,9 @@ class Metadetect(dict):
                 # we set this defualt
                 # it may be used to set the masked fraction measurement
                 # aperture
-                if "weight" not in cfg:
-                    cfg["weight"] = {}
+                # work on copies to leave the config of the caller alone
+                cfg = dict(cfg)
+                cfg["weight"] = dict(cfg.get("weight", {}))
                 if "fwhm" not in cfg["weight"]:
                     cfg["weight"]["fwhm"] = 1.2
 
-- 
2.43.0


From 44d459720f33f3e0b7a003da8102a7f9fae3e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 06/21] fix: masked fraction aperture had rows and columns
 swapped and pixels taken as arcsec

---
 metadetect/lsst/metadetect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..e936c2d 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -387,7 +387,9 @@ def measure_weighted_mfrac(
         'gauss',
     )
     sigma = ngmix.moments.fwhm_to_sigma(fwhm)
-    box_rad = int(round(sigma * 5))
+    max_rad = sigma * 5
+    # the radius is in arcsec, the box is in pixels
+    box_rad = int(np.ceil(max_rad / jac.get_scale()))
 
     mfracs = []
     for i in range(x.shape[0]):
@@ -408,7 +410,7 @@ def measure_weighted_mfrac(
         if yend > ny:
             yend = ny
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
@@ -421,7 +423,7 @@ def measure_weighted_mfrac(
                 jacobian=this_jac,
             )
 
-            stats = gauss_wgt.get_weighted_sums(obs, maxrad=box_rad)
+            stats = gauss_wgt.get_weighted_sums(obs, maxrad=max_rad)
 
             # this is the weighted average in the image using the
             # Gaussian as the weight.
-- 
2.43.0


From 18f34a00d449a1efbe7784cbd1c780ea8795d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 07/21] fix: the bit mask of a row is that of its own source

---
 metadetect/lsst/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..997ef5d 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -361,15 +361,13 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
-    for i, source in enumerate(extractor.children()):
+    for source in extractor.children():
 
         # perform basic measurements using stack algorithms
         # see DetectAndDeblendConfig for details
@@ -377,7 +375,7 @@ def measure(
 
         source_id = source.getId()
 
-        bmask = bmasks[i]
+        bmask = get_bmask(source=source, exposure=detexp)
 
         stamp_flags = 0
         try:
-- 
2.43.0


From 1e2d59f39b4af69c13b8ca9a3cb5997ed08d8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 08/21] fix: failure to fit an original psf sets flags and does
 not crash

---
 metadetect/lsst/metadetect.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index e936c2d..185e06e 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -633,18 +633,20 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
 
         g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)
 
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
+
     except (BootPSFFailure, GMixRangeError):
         flags = procflags.PSF_FAILURE
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
 
         perband = None
 
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
-
     return {
         'flags': flags,
         'navg': navg,
-- 
2.43.0


From 2b28e5b429dce36fd575388e7c12155eedc588f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 09/21] fix: MBObsExtractor.get_stamp works

---
 metadetect/lsst/mbobs_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..9c0882b 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -130,7 +130,7 @@ class MBObsExtractor(object):
             clip=clip,
         )
 
-        exposures = [self.mbexp[band][bbox] for band in self.bands]
+        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
         return util.get_mbexp(exposures)
 
     def get_mbobs(
-- 
2.43.0


From ace2a2269491b8729ee5c4f28e928fe9662e3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 10/21] fix: detection without any usable band returns the
 documented three items

---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 997ef5d..ec955be 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
-- 
2.43.0


From 7e1b295db52b8ab1cafc99091bf41f0980e61bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 11/21] fix: stamps of the size of the footprint from
 ModelSubtractor

---
 metadetect/lsst/model_subtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..c566a74 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,7 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
+            fp = self.footprints[source_id]
             bbox = fp.getBBox()
 
         return bbox
-- 
2.43.0


From e7ca9f396f352cd7154a509b3f8674042ab442af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 12/21] fix: overriding stamp_size was ignored

---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..4b409cd 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1229,10 +1229,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From 863fbd3412c70c5e77a0b456d555a2938620259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 13/21] fix: coadd the psfs at the center of the exposures also
 if their origin is not zero

---
 metadetect/lsst/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 4b409cd..42fc130 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -482,8 +482,7 @@ def coadd_exposures(exposures):
     for i, exp in enumerate(exposures):
         shape = exp.image.array.shape
 
-        ycen, xcen = (np.array(shape) - 1) / 2
-        cen = geom.Point2D(xcen, ycen)
+        cen = geom.Point2D(exp.getBBox().getCenter())
 
         psfobj = exp.getPsf()
         this_psfim = psfobj.computeKernelImage(cen).array
-- 
2.43.0


From e5ca658b08c9906578d81a74c0c1a574053a007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 14/21] fix: mfrac_mbexp is optional, as documented

---
 metadetect/lsst/metadetect.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 185e06e..b6d3b29 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -487,13 +487,19 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
     Returns
     -------
     mfrac: array
+        Zero everywhere if mfrac_mbexp is None
     """
     wgts = []
 
+    if mfrac_mbexp is None:
+        mfrac_images = [np.zeros_like(exp.image.array) for exp in mbexp]
+    else:
+        mfrac_images = [mfrac_exp.image.array for mfrac_exp in mfrac_mbexp]
+
     wsum = 0.0
 
     mfrac = None
-    for exp, mfrac_exp in zip(mbexp, mfrac_mbexp):
+    for exp, mfrac_image in zip(mbexp, mfrac_images):
         varray = exp.variance.array
         w = np.where(np.isfinite(varray) & (varray > 0))
 
@@ -506,9 +512,9 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wsum += wgt
 
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * mfrac_image
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * mfrac_image
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From cfe1cc41acefde1b7324ced32216ae0a000631eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 15/21] fix: leave the config of the caller of the lsst code
 unmodified

---
 metadetect/lsst/measure.py | 3 ++-
 metadetect/lsst/skysub.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index ec955be..dfe9489 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -1,5 +1,6 @@
 import logging
 import warnings
+from copy import deepcopy
 import numpy as np
 import esutil as eu
 import ngmix
@@ -290,7 +291,7 @@ def get_detect_and_deblend_task(
     sources, detexp
         The sources and the detection exposure
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
     if thresh:
         if 'detect' not in config_override:
             config_override['detect'] = {}
diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 91de57e..519df59 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import lsst.afw.table as afw_table
 from lsst.meas.algorithms import (
     SubtractBackgroundTask,
@@ -142,7 +144,7 @@ def subtract_sky_mbexp(mbexp, thresh=DEFAULT_THRESH, config=None):
     thresh: float
         Threshold for detection
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     if thresh:
         if 'iterate_detection_and_skysub' not in config_override:
@@ -187,7 +189,7 @@ def iterate_detection_and_skysub(
     if niter < 1:
         raise ValueError(f'niter {niter} is less than 1')
 
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     # set threshold
     if 'detect' not in config_override:
-- 
2.43.0


From af1122af7c8b5a84d85c29b2b9fea198161e2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 16/21] fix: run_photometry uses the configured deblender

---
 metadetect/lsst/photometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/lsst/photometry.py b/metadetect/lsst/photometry.py
index 972debc..de0c3c4 100644
--- a/metadetect/lsst/photometry.py
+++ b/metadetect/lsst/photometry.py
@@ -68,6 +68,7 @@ def run_photometry(
 
     dbtask = measure.get_detect_and_deblend_task(
         thresh=config['detect']['thresh'],
+        deblender=config['deblender'],
         rng=rng,
     )
     sources, detexp, model_data = dbtask.run(
-- 
2.43.0


From 68099b3d677f7562ca355a09231d4060762b7dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 17/21] fix: scarlet deblending of data without i band

---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index dfe9489..69110ea 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -253,7 +253,7 @@ class DetectAndDeblendTask(Task):
             updateCatalogFootprints(
                 modelData=model_data,
                 catalog=sources,
-                band='i',
+                band='i' if 'i' in mbexp.bands else mbexp.bands[0],
                 removeScarletData=False,
                 updateFluxColumns=True,
             )
-- 
2.43.0


From b1261e715c23a17c968c5811fdf20734fe5d425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 18/21] fix: ModelSubtractor works for a single band

---
 metadetect/lsst/model_subtractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index c566a74..e9fc4b4 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -440,6 +440,9 @@ class ModelSubtractor(object):
                     bbox = footprint.getBBox()
 
                     heavy = scarletModelToHeavy(source=scl_source, blend=blend)
+                    if len(bands) == 1:
+                        # this one is not keyed by band
+                        heavy = {bands[0]: heavy}
 
                     for band in bands:
                         heavy[band].subtractFrom(self.mbexp[band].image[bbox])
-- 
2.43.0


From eb8de5c55a6bfb4cb2cb0663f437a9ca10c4f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 19/21] fix: a source without a psf gets flags and does not end
 the measurement

---
 metadetect/lsst/measure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 69110ea..b43e797 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -30,6 +30,7 @@ from ..procflags import (
     EDGE_HIT,
     ZERO_WEIGHTS,
     NO_ATTEMPT,
+    NO_DATA,
 )
 from ..fitting import (
     fit_mbobs_gauss,
@@ -399,6 +400,10 @@ def measure(
             # across the stamp
             LOG.info('%s', err)
             stamp_flags = ZERO_WEIGHTS
+        except util.MissingDataError as err:
+            # there is no psf at this location in some band
+            LOG.info('%s', err)
+            stamp_flags = NO_DATA
 
         if stamp_flags != 0:
 
-- 
2.43.0


From a51859e4aa3ed5f6b89c8ed68f55d5e2ab55da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 20/21] fix: masked fraction far below or left of the image is
 one, as on the other sides

---
 metadetect/lsst/metadetect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index b6d3b29..7cf83fc 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -409,6 +409,9 @@ def measure_weighted_mfrac(
             xend = nx
         if yend > ny:
             yend = ny
+        # a negative end would count from the other side of the image
+        xend = max(xend, 0)
+        yend = max(yend, 0)
 
         sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
-- 
2.43.0


From 8d08019724ada7bddf176544a7739d8dc1c79f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 21/21] fix: uberseg weights for colour-dependent images

---
 metadetect/metadetect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index a536efe..2b4cbc8 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -411,7 +411,7 @@ class Metadetect(dict):
 
         _result = {}
         for shear_str, shear_mbobs in mcal_res.items():
-            cat, mbobs_list = self._do_detect(
+            cat, mbobs_list, _ = self._do_detect(
                 shear_mbobs,
                 det_bands,
             )
@@ -439,7 +439,7 @@ class Metadetect(dict):
                 )
 
             # we first detect and get color of each detection
-            cat, mbobs_list = self._do_detect(shear_mbobs, det_bands)
+            cat, mbobs_list, seg = self._do_detect(shear_mbobs, det_bands)
             nocolor_data = fit_mbobs_list_wavg(
                 mbobs_list=mbobs_list,
                 fitter=self._fitters[0],
@@ -470,6 +470,8 @@ class Metadetect(dict):
                     cat['x'][i:i+1],
                     cat['y'][i:i+1],
                     cat['box_size'][i:i+1],
+                    seg=seg,
+                    number=cat['number'][i:i+1],
                 )
                 mbm = _medsifier.get_multiband_meds()
                 mbobs_list = mbm.get_mbobs_list(
@@ -781,7 +783,7 @@ class Metadetect(dict):
         )
         logger.info("detect took %s seconds", time.time() - t0)
 
-        return medsifier.cat, mbobs_list
+        return medsifier.cat, mbobs_list, medsifier.seg
 
     def _get_all_metacal(self, mbobs):
         """
-- 
2.43.0

