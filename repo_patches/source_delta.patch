From 92d2f2b738114597be7a5f7c337a95c88b8a2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 01/29] fix: interpolate_image_at_mask crashed when no pixel is
 left to interpolate

---
 metadetect/interpolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 7130ae9..a1c8285 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -203,6 +203,10 @@ def interpolate_image_at_mask(
                     size=shape, scale=1.0/np.sqrt(weight)
                 )
 
+        if bad_ind.size == 0:
+            # there is nothing (left) to interpolate
+            return interp_image
+
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-- 
2.43.0


From a58beb503d1cc6062908a39c1ebe0d63037de6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 02/29] fix: interpolate_image_at_mask crashed when the good
 pixels cannot support an interpolation

---
 metadetect/interpolate.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index a1c8285..c3563b0 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -3,6 +3,7 @@ interpolation utils - orig. from beckermr/pizza-cutter
 """
 import numpy as np
 from scipy.interpolate import CloughTocher2DInterpolator
+from scipy.spatial import QhullError
 import logging
 
 from numba import njit
@@ -149,7 +150,8 @@ def interpolate_image_at_mask(
     Returns
     -------
     interp_image : array-like
-        The interpolated image.
+        The interpolated image. None if the fraction of bad pixels is greater
+        than maxfrac or if there are not enough good pixels to interpolate from.
     """
     nrows, ncols = image.shape
     npix = bad_msk.size
@@ -210,11 +212,16 @@ def interpolate_image_at_mask(
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-        img_interp = CloughTocher2DInterpolator(
-            good_pix,
-            good_im,
-            fill_value=0.0,
-        )
+        try:
+            img_interp = CloughTocher2DInterpolator(
+                good_pix,
+                good_im,
+                fill_value=0.0,
+            )
+        except QhullError:
+            # the good pixels are too few or all on a line
+            return None
+
         interp_image[bad_msk] = img_interp(bad_pix)
 
         return interp_image
-- 
2.43.0


From 6144437100ac9ca21f690fb796e78b8f190b2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 03/29] fix: foreground noise filling wrote NaN when no pixel
 with weight is left

---
 metadetect/masking.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metadetect/masking.py b/metadetect/masking.py
index 49d47cc..bbaacf8 100644
--- a/metadetect/masking.py
+++ b/metadetect/masking.py
@@ -215,8 +215,11 @@ def _apply_mask_interp(
                     if np.all(obs.weight == 0):
                         obs.ignore_zero_weight = False
 
-                    if not np.all(bad_logic):
-                        wmsk = obs.weight > 0
+                    wmsk = obs.weight > 0
+                    # without any weight left there is no noise level with
+                    # which to fill isolated pixels
+                    can_fill = np.any(wmsk) or not fill_isolated_with_noise
+                    if not np.all(bad_logic) and can_fill:
                         wgt = np.median(obs.weight[wmsk])
                         interp_image = interpolate_image_at_mask(
                             image=obs.image,
-- 
2.43.0


From 3be8e2f85a6a815df59b63660c39d864d17611eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 04/29] fix: stamps for positions well outside of the image
 raised ValueError

---
 metadetect/detect.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadetect/detect.py b/metadetect/detect.py
index 3ddf4f5..367d5f9 100644
--- a/metadetect/detect.py
+++ b/metadetect/detect.py
@@ -148,6 +148,11 @@ class MEDSInterface(NGMixMEDS):
             obox[1] = im_max
             box[1] = box[1] + diff
 
+        if obox[1] <= obox[0]:
+            # the box is entirely outside of the image
+            obox = [0, 0]
+            box = [0, 0]
+
         return obox, box
 
 
-- 
2.43.0


From a028276b6552c5e09514139680f5a57a340f72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 05/29] fix: masked fraction was NaN when no image pixel lies
 in the aperture

---
 metadetect/mfrac.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metadetect/mfrac.py b/metadetect/mfrac.py
index 473e2c7..b711b32 100644
--- a/metadetect/mfrac.py
+++ b/metadetect/mfrac.py
@@ -77,7 +77,11 @@ def measure_mfrac(
                 )
                 # this is the weighted average in the image using the
                 # Gaussian as the weight.
-                mfracs.append(stats["sums"][5] / stats["wsum"])
+                if stats["wsum"] > 0:
+                    mfracs.append(stats["sums"][5] / stats["wsum"])
+                else:
+                    # no image pixels in the aperture
+                    mfracs.append(1.0)
             else:
                 mfracs.append(1.0)
         except ngmix.GMixFatalError:
-- 
2.43.0


From cd32441120e47a66015c5d3a9699b7c41e5a9a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 06/29] fix: coadding one band ignored that other requested
 shear bands do not exist

---
 metadetect/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/fitting.py b/metadetect/fitting.py
index abc3661..c624620 100644
--- a/metadetect/fitting.py
+++ b/metadetect/fitting.py
@@ -520,7 +520,7 @@ def make_coadd_obs(mbobs, shear_bands=None):
     # if we have one input band, then simply
     # return if if the data is consistent
     if nbands == 1:
-        if shear_bands[0] == 0:
+        if all(s == 0 for s in shear_bands):
             return mbobs[0][0], flags
         else:
             flags |= procflags.INCONSISTENT_BANDS
-- 
2.43.0


From d9c0ff3473b2c592b1c370327e621d64f915aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 07/29] fix: default aperture of joint fitters was written into
 the caller's config

---
 metadetect/metadetect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 9f9547c..e9c58a3 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -271,8 +271,9 @@ class Metadetect(dict):
                 # we set this defualt
                 # it may be used to set the masked fraction measurement
                 # aperture
-                if "weight" not in cfg:
-                    cfg["weight"] = {}
+                # work on copies, the input config belongs to the caller
+                cfg = dict(cfg)
+                cfg["weight"] = dict(cfg.get("weight", {}))
                 if "fwhm" not in cfg["weight"]:
                     cfg["weight"]["fwhm"] = 1.2
 
-- 
2.43.0


From 0c9e427b426645c3132dab807eeb7f600f16ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 08/29] fix: uberseg weights were ignored in color dependent
 measurements

---
 metadetect/metadetect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index e9c58a3..14f0e14 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -411,7 +411,7 @@ class Metadetect(dict):
 
         _result = {}
         for shear_str, shear_mbobs in mcal_res.items():
-            cat, mbobs_list = self._do_detect(
+            cat, mbobs_list, _ = self._do_detect(
                 shear_mbobs,
                 det_bands,
             )
@@ -439,7 +439,7 @@ class Metadetect(dict):
                 )
 
             # we first detect and get color of each detection
-            cat, mbobs_list = self._do_detect(shear_mbobs, det_bands)
+            cat, mbobs_list, seg = self._do_detect(shear_mbobs, det_bands)
             nocolor_data = fit_mbobs_list_wavg(
                 mbobs_list=mbobs_list,
                 fitter=self._fitters[0],
@@ -470,6 +470,8 @@ class Metadetect(dict):
                     cat['x'][i:i+1],
                     cat['y'][i:i+1],
                     cat['box_size'][i:i+1],
+                    seg=seg,
+                    number=cat['number'][i:i+1],
                 )
                 mbm = _medsifier.get_multiband_meds()
                 mbobs_list = mbm.get_mbobs_list(
@@ -781,7 +783,7 @@ class Metadetect(dict):
         )
         logger.info("detect took %s seconds", time.time() - t0)
 
-        return medsifier.cat, mbobs_list
+        return medsifier.cat, mbobs_list, medsifier.seg
 
     def _get_all_metacal(self, mbobs):
         """
-- 
2.43.0


From e96325e4a8b217cc4423e4e0716348cfe77dbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 09/29] fix: MultibandNoiseReplacer restores all bands when a
 later band fails

---
 metadetect/lsst/util.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..d54bba3 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -146,13 +146,14 @@ class MultibandNoiseReplacer(object):
         with replacer.sourceInserted(source_id):
             # do something with exposures
         """
-        self.insertSource(source_id)
+        # the stack removes the source from all bands in which it was inserted,
+        # also when inserting it in a later band fails
+        with ExitStack() as stack:
+            for replacer in self.noise_replacers:
+                stack.enter_context(replacer.sourceInserted(source_id))
 
-        try:
             # usually won't use this yielded value
             yield self.mbexp
-        finally:
-            self.removeSource(source_id)
 
     def insertSource(self, source_id):
         """
@@ -182,16 +183,20 @@ class MultibandNoiseReplacer(object):
         """
 
         self.noise_replacers = []
-        self.exit_stack = ExitStack()
 
-        for exp in self.mbexp.singles:
-            replacer = ContextNoiseReplacer(
-                exposure=exp,
-                sources=self.sources,
-                rng=self.rng,
-            )
-            self.noise_replacers.append(replacer)
-            self.exit_stack.enter_context(replacer)
+        # if making the replacer for one of the bands fails, the bands already
+        # replaced are restored
+        with ExitStack() as stack:
+            for exp in self.mbexp.singles:
+                replacer = ContextNoiseReplacer(
+                    exposure=exp,
+                    sources=self.sources,
+                    rng=self.rng,
+                )
+                self.noise_replacers.append(replacer)
+                stack.enter_context(replacer)
+
+            self.exit_stack = stack.pop_all()
 
     def __enter__(self):
         return self
-- 
2.43.0


From f244184992c765825c32802e9267ea75d1d0bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 10/29] fix: ModelSubtractor stamps with the footprint bounding
 box

---
 metadetect/lsst/model_subtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..c566a74 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,7 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
+            fp = self.footprints[source_id]
             bbox = fp.getBBox()
 
         return bbox
-- 
2.43.0


From 8fa0bdae1462696ddaa2d080b137bc26d97ebe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 11/29] fix: ModelSubtractor with a single band

---
 metadetect/lsst/model_subtractor.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index c566a74..4274c53 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -453,10 +453,10 @@ def scarletModelToHeavy(
     source: scl.Source,
     blend: scl.Blend,
     useFlux=False,
-) -> HeavyFootprintF | MultibandFootprint:
+) -> dict[str, HeavyFootprintF] | MultibandFootprint:
     """
-    Convert a scarlet_lite model to a `HeavyFootprintF` or
-    `MultibandFootprint`.
+    Convert a scarlet_lite model to a dict with a `HeavyFootprintF` (one band)
+    or `MultibandFootprint`.
 
     This is a copy of the code from scarlet meas extension with
     a bug fix for nbands in multi epoch
@@ -476,7 +476,8 @@ def scarletModelToHeavy(
     Returns
     -------
     heavy:
-        The footprint (possibly multiband) containing the model for the source.
+        The footprint (possibly multiband) containing the model for the source,
+        can be indexed by band
     """
     # We want to convolve the model with the observed PSF,
     # which means we need to grow the model box by the PSF to
@@ -521,7 +522,10 @@ def scarletModelToHeavy(
             dtype=model.dtype,
         )
         maskedImage = MaskedImage(image, dtype=model.dtype)
-        heavy = makeHeavyFootprint(foot, maskedImage)
+        # index by band, as for the multiband case
+        heavy = {
+            blend.observation.bands[0]: makeHeavyFootprint(foot, maskedImage)
+        }
     else:
         # BUG fix:  was blend.bands
         model = MultibandImage(
-- 
2.43.0


From c82d8ab19c8182aaacd7c34ff46051f24f65f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 12/29] fix: ModelSubtractor model stamps honor stamp_size and
 clip, and get_mbobs gives observations for them

---
 metadetect/lsst/model_subtractor.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 4274c53..4231898 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -272,9 +272,6 @@ class ModelSubtractor(object):
         )
         import ngmix
 
-        if type == 'model':
-            return self.get_model(source_id, stamp_size=stamp_size, clip=clip)
-
         self.check_source_id(source_id)
 
         bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)
@@ -284,12 +281,19 @@ class ModelSubtractor(object):
         else:
             mbexp = self.mbexp
 
+        if type == 'model':
+            model = self.get_model(
+                source_id, stamp_size=stamp_size, clip=clip,
+            )
+
         source = self.sources.find(source_id)
         mbobs = ngmix.MultiBandObsList()
 
         for band in mbexp.bands:
             subexp = mbexp[band][bbox]
             obs = util.extract_obs(exp=subexp, source=source)
+            if type == 'model':
+                obs.image = model[band].image.array
 
             obslist = ngmix.ObsList(meta={'band': band})
             obslist.append(obs)
@@ -325,14 +329,16 @@ class ModelSubtractor(object):
 
         self.check_source_id(source_id)
 
-        heavies = self.heavies
+        heavy = self.heavies[source_id]
 
-        heavy = heavies[source_id]
+        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)
 
         exposures = []
         for band in self.bands:
-            im = heavy[band].extractImage()
-            masked_im = afw_image.MaskedImageF(im.clone())
+            # the stamp may hold only part of the model
+            im = afw_image.ImageF(self.mbexp.getBBox())
+            heavy[band].addTo(im[self.bboxes[source_id]])
+            masked_im = afw_image.MaskedImageF(im[bbox].clone())
             exp = afw_image.ExposureF(masked_im)
             exp.setFilter(afw_image.FilterLabel(band))
             exposures.append(exp)
-- 
2.43.0


From f4b928f73217229a7ef4f7128f34a76f2b50bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 13/29] fix: MBObsExtractor.get_stamp works, and children come
 in catalog order

---
 metadetect/lsst/mbobs_extractor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..a6645da 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -41,10 +41,13 @@ class MBObsExtractor(object):
 
         self.sources = sources
 
-        self._child_ids = set()
+        self.bands = mbexp.bands
+
+        # a dict rather than a set keeps the order of the catalog
+        self._child_ids = {}
         for source in sources:
             if source['deblend_nChild'] == 0:
-                self._child_ids.add(source.getId())
+                self._child_ids[source.getId()] = True
 
     def children(self):
         """
-- 
2.43.0


From 86ea4b4cbda71989e9ab52cf869a34e9a0f65732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 14/29] fix: lsst measure gave bmask values of other sources
 when there are blends

---
 metadetect/lsst/measure.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..1124316 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -361,15 +361,13 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
-    for i, source in enumerate(extractor.children()):
+    for source in extractor.children():
 
         # perform basic measurements using stack algorithms
         # see DetectAndDeblendConfig for details
@@ -377,7 +375,8 @@ def measure(
 
         source_id = source.getId()
 
-        bmask = bmasks[i]
+        # children are only a subset of the sources
+        bmask = get_bmask(source=source, exposure=detexp)
 
         stamp_flags = 0
         try:
-- 
2.43.0


From 22d6b0112f0958e04648476f212978e8d314a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 15/29] fix: sources without a centroid are measured at the
 peak, psf and sky position included

---
 metadetect/lsst/measure.py | 4 ++--
 metadetect/lsst/util.py    | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 1124316..f30a4c0 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -652,8 +652,6 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
 
     orig_cen = source.getCentroid()
 
-    skypos = wcs.pixelToSky(orig_cen)
-
     peak = source.getFootprint().getPeaks()[0]
     peak_loc = peak.getI()
 
@@ -666,6 +664,8 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
             orig_cen.getY() - peak_loc.getY(),
         )
 
+    skypos = wcs.pixelToSky(orig_cen)
+
     output['stamp_size'] = stamp_size
     output['row0'] = exp_bbox.getBeginY()
     output['col0'] = exp_bbox.getBeginX()
diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index d54bba3..e4639c2 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1034,6 +1034,9 @@ def extract_obs(exp, source):
     )
 
     orig_cen = source.getCentroid()
+    if np.isnan(orig_cen.getY()):
+        # fall back to the peak location
+        orig_cen = source.getFootprint().getPeaks()[0].getCentroid()
 
     psf_im = extract_psf_image(exposure=exp, orig_cen=orig_cen)
 
-- 
2.43.0


From 159270abd540a832fae11dda6fa0b079f9b69a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 16/29] fix: a band without usable data made the detection
 image NaN; a run without any usable band failed

---
 metadetect/lsst/measure.py | 2 +-
 metadetect/lsst/util.py    | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index f30a4c0..fb019c5 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index e4639c2..9384f32 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -504,7 +504,13 @@ def coadd_exposures(exposures):
 
         coadd_exp.mask.array |= exp.mask.array
 
-        w = np.where(exp.variance.array > 0)
+        w = np.where(
+            np.isfinite(exp.variance.array) & (exp.variance.array > 0)
+        )
+        if w[0].size == 0:
+            # no usable data in this exposure
+            continue
+
         medvar = np.median(exp.variance.array[w])
         this_weight = 1.0 / medvar
 
-- 
2.43.0


From c9c7831355ec8275b0b2558b9a2e062fb06c7811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 17/29] fix: coadd_exposures evaluated the psf relative to the
 corner of the exposure

---
 metadetect/lsst/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 9384f32..00668a9 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -487,8 +487,8 @@ def coadd_exposures(exposures):
     for i, exp in enumerate(exposures):
         shape = exp.image.array.shape
 
-        ycen, xcen = (np.array(shape) - 1) / 2
-        cen = geom.Point2D(xcen, ycen)
+        # in the coordinate system of the exposure, which need not start at 0
+        cen = geom.Point2D(exp.getBBox().getCenter())
 
         psfobj = exp.getPsf()
         this_psfim = psfobj.computeKernelImage(cen).array
-- 
2.43.0


From c483bd504708d9525cc55bfd9f2ffcec2ab05e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 18/29] fix: the stamp_size given in the config of the lsst
 run_metadetect was ignored

---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 00668a9..7d8be41 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1243,10 +1243,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From cb4746b26c091692570a2f3ecc618138235e66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 19/29] fix: a failed fit of the original psf raised instead of
 being flagged

---
 metadetect/lsst/metadetect.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..4f45c5c 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -232,6 +232,10 @@ class MetadetectTask(Task):
         metacal_types = config['metacal'].get('types', None)
 
         if config['metacal']['reconv_type'] == 'fitgauss':
+            if psf_stats['flags'] != 0:
+                LOG.info('failed to fit the psf, cannot do metacal')
+                return None
+
             perband_psf_stats = psf_stats['perband']
         else:
             perband_psf_stats = None
@@ -623,6 +627,10 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
         if wsum <= 0:
             raise ValueError(f'got sum(wgts) = {wsum}')
 
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
+
         e1 = e1sum / wsum
         e2 = e2sum / wsum
         T = Tsum / wsum
@@ -633,16 +641,15 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
 
     except (BootPSFFailure, GMixRangeError):
         flags = procflags.PSF_FAILURE
+        navg = 0
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
 
         perband = None
 
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
-
     return {
         'flags': flags,
         'navg': navg,
-- 
2.43.0


From c22a54ca09488b5641244765e8373fc8dccb269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 20/29] fix: ormask of objects with a centroid outside of the
 image

---
 metadetect/lsst/metadetect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 4f45c5c..7a76e16 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -444,6 +444,10 @@ def add_ormask(ormask, res):
         local_row = int(np.floor(row_diff + 0.5))
         local_col = int(np.floor(col_diff + 0.5))
 
+        # the centroid can lie outside of the image
+        local_row = min(max(local_row, 0), ormask.shape[0] - 1)
+        local_col = min(max(local_col, 0), ormask.shape[1] - 1)
+
         res['ormask'][i] = ormask[local_row, local_col]
 
 
-- 
2.43.0


From 1e9dfe8141307d57c6d28709174545dfa819d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 21/29] fix: measure_weighted_mfrac exchanged rows and columns

---
 metadetect/lsst/metadetect.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 7a76e16..bde050c 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -407,12 +407,11 @@ def measure_weighted_mfrac(
             xstart = 0
         if ystart < 0:
             ystart = 0
-        if xend > nx:
-            xend = nx
-        if yend > ny:
-            yend = ny
+        # the window can lie outside of the image
+        xend = max(min(xend, nx), 0)
+        yend = max(min(yend, ny), 0)
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
-- 
2.43.0


From 171755a55333d04a8f0d503ea7353ac2c7178ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 22/29] fix: the optional mfrac_mbexp was required

---
 metadetect/lsst/metadetect.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index bde050c..93b820b 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -492,13 +492,16 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
     Returns
     -------
     mfrac: array
+        Zero everywhere if mfrac_mbexp is None
+    wgts: list
+        Inverse of the median variance for each band
     """
     wgts = []
 
     wsum = 0.0
 
     mfrac = None
-    for exp, mfrac_exp in zip(mbexp, mfrac_mbexp):
+    for i, exp in enumerate(mbexp):
         varray = exp.variance.array
         w = np.where(np.isfinite(varray) & (varray > 0))
 
@@ -510,10 +513,15 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wgts.append(wgt)
         wsum += wgt
 
+        if mfrac_mbexp is None:
+            mfrac_image = np.zeros(varray.shape)
+        else:
+            mfrac_image = mfrac_mbexp.singles[i].image.array
+
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * mfrac_image
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * mfrac_image
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From 0e9f681a967ae7b3147db3204ff99a3d10c9a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:45 +0000
Subject: [PATCH 23/29] fix: run_photometry ignored the deblender in the config

---
 metadetect/lsst/photometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/lsst/photometry.py b/metadetect/lsst/photometry.py
index 972debc..de0c3c4 100644
--- a/metadetect/lsst/photometry.py
+++ b/metadetect/lsst/photometry.py
@@ -68,6 +68,7 @@ def run_photometry(
 
     dbtask = measure.get_detect_and_deblend_task(
         thresh=config['detect']['thresh'],
+        deblender=config['deblender'],
         rng=rng,
     )
     sources, detexp, model_data = dbtask.run(
-- 
2.43.0


From 54d356a75cf9519e5153532b8184fb62be47d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:45 +0000
Subject: [PATCH 24/29] fix: the threshold was written into the config of the
 caller

---
 metadetect/lsst/measure.py | 4 +++-
 metadetect/lsst/skysub.py  | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index fb019c5..debc963 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -1,5 +1,6 @@
 import logging
 import warnings
+from copy import deepcopy
 import numpy as np
 import esutil as eu
 import ngmix
@@ -290,7 +291,8 @@ def get_detect_and_deblend_task(
     sources, detexp
         The sources and the detection exposure
     """
-    config_override = config if config is not None else {}
+    # the input config is not modified
+    config_override = deepcopy(config) if config is not None else {}
     if thresh:
         if 'detect' not in config_override:
             config_override['detect'] = {}
diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 91de57e..3035cc3 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 import lsst.afw.table as afw_table
 from lsst.meas.algorithms import (
     SubtractBackgroundTask,
@@ -142,7 +143,8 @@ def subtract_sky_mbexp(mbexp, thresh=DEFAULT_THRESH, config=None):
     thresh: float
         Threshold for detection
     """
-    config_override = config if config is not None else {}
+    # the input config is not modified
+    config_override = deepcopy(config) if config is not None else {}
 
     if thresh:
         if 'iterate_detection_and_skysub' not in config_override:
@@ -187,7 +189,8 @@ def iterate_detection_and_skysub(
     if niter < 1:
         raise ValueError(f'niter {niter} is less than 1')
 
-    config_override = config if config is not None else {}
+    # the input config is not modified
+    config_override = deepcopy(config) if config is not None else {}
 
     # set threshold
     if 'detect' not in config_override:
-- 
2.43.0


From 53990c595f426b6d988591afa05490e804f204f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 25/29] fix: coadd_mbobs gave a nan psf when a band has no data

---
 metadetect/lsst/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 7d8be41..d43831f 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -594,6 +594,10 @@ def coadd_mbobs(mbobs):
             coadd_psf = np.zeros(obs.psf.image.shape)
 
         w = np.where(obs.weight > 0)
+        if w[0].size == 0:
+            # the median weight of a band without data is nan
+            continue
+
         this_weight = np.median(obs.weight[w])
 
         coadd_image[:, :] += obs.image * this_weight
-- 
2.43.0


From b2cac4e6777086300c66a08dfc90b9df0f11e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 26/29] fix: show_mbexp_demo used an undefined name

the list of q values is called qvals
---
 metadetect/lsst/vis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/vis.py b/metadetect/lsst/vis.py
index f3d8952..12f5445 100644
--- a/metadetect/lsst/vis.py
+++ b/metadetect/lsst/vis.py
@@ -397,11 +397,11 @@ def show_mbexp_demo(mbexp):
     # stretches = [0.1, 0.5, 1.0]
     # qvals = [10, 20, 30]  # noqa
     stretches = [0.75, 1, 1.25]
-    qvals = [5, 7.5, 10]  # noqa
+    qvals = [5, 7.5, 10]
 
     fig, axs = mplt.subplots(len(stretches), len(qvals), figsize=(12, 12))
     for ist, stretch in enumerate(stretches):
-        for iq, q in enumerate(Qvals):  # noqa
+        for iq, q in enumerate(qvals):
             asinh = AsinhMapping(
                 minimum=0,
                 stretch=stretch, Q=q,
-- 
2.43.0


From a729a6ac623221725b96a7332e0e13987a3d8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 27/29] fix: show_multi_mbobs failed unless there were three
 bands

the panels have a row for each type of image and a column for each band, but
were indexed the other way around
---
 metadetect/lsst/vis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/vis.py b/metadetect/lsst/vis.py
index 12f5445..3bacb92 100644
--- a/metadetect/lsst/vis.py
+++ b/metadetect/lsst/vis.py
@@ -428,7 +428,7 @@ def show_multi_mbobs(mbobs):
 
     types = ['image', 'weight', 'bmask']
     ntypes = len(types)
-    fig, axs = mplt.subplots(nrows=ntypes, ncols=nband)
+    fig, axs = mplt.subplots(nrows=ntypes, ncols=nband, squeeze=False)
 
     for iband, obslist in enumerate(mbobs):
 
@@ -438,8 +438,8 @@ def show_multi_mbobs(mbobs):
 
             im = getattr(obs, type)
 
-            axs[iband, itype].imshow(im)
-            axs[iband, itype].set_title(f'band {iband} {type}')
+            axs[itype, iband].imshow(im)
+            axs[itype, iband].set_title(f'band {iband} {type}')
 
     mplt.show()
 
-- 
2.43.0


From de4b41cd8ce16d4e316bea3337ceadccb3d6f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 28/29] fix: refuse band combinations for detection and shear
 of different number

---
 metadetect/metadetect.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 14f0e14..657bdea 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -170,6 +170,12 @@ class Metadetect(dict):
         elif det_band_combs == "shear_bands":
             det_band_combs = self._shear_band_combs
 
+        if len(det_band_combs) != len(shear_band_combs):
+            raise RuntimeError(
+                "You must give one entry in `det_band_combs` for each entry "
+                "in `shear_band_combs`!"
+            )
+
         self._det_band_combs = det_band_combs
 
     def _set_config(self, config):
-- 
2.43.0


From 193cb98e60d306a2e8c2c94d130bf909ad2b86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 29/29] fix: colours of objects come from fluxes measured with
 the configured symmetrization

---
 metadetect/metadetect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 657bdea..529f208 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -451,6 +451,7 @@ class Metadetect(dict):
                 fitter=self._fitters[0],
                 shear_bands=shear_bands,
                 bmask_flags=self.get("bmask_flags", 0),
+                symmetrize=self._fitter_symmetrize[0],
             )
             if nocolor_data is None:
                 _result[shear_str] = None
-- 
2.43.0

