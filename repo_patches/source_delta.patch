From 19b3057b6137a1d79119f1e1817c4069de5971d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 01/50] fix: Image.copy(copy_data=False) copies the headers, as
 documented

---
 corgidrp/data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..4e979c5 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -507,7 +507,13 @@ class Image():
             new_img = copy.copy(self)
             # copy the hdu_list and hdu_names list, but not their pointers
             new_img.hdu_list = self.hdu_list.copy()
-            new_img.hdu_names = copy.copy(self.hdu_names)
+            if hasattr(self, 'hdu_names'):
+                new_img.hdu_names = copy.copy(self.hdu_names)
+            # headers are always copied, so that editing the copy never edits the original
+            new_img.pri_hdr = self.pri_hdr.copy()
+            new_img.ext_hdr = self.ext_hdr.copy()
+            new_img.err_hdr = self.err_hdr.copy()
+            new_img.dq_hdr = self.dq_hdr.copy()
 
         # update DRP version tracking
         new_img.ext_hdr['DRPVERSN'] =  corgidrp.__version__
-- 
2.43.0


From 287fbdde592399f494e61bd650a4e3c123f0b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 02/50] fix: detect_cosmic_rays records the EM gain of frames
 that carry EMGAIN_M

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..96c6362 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -230,7 +230,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From 851239b10461632a03757633c6dc7844bcfa8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 03/50] fix: prescan_biassub aligns the prescan with the image
 area of the given detector_regions

---
 corgidrp/l1_to_l2a.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 96c6362..3151c17 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -80,9 +80,9 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
                 image_err = np.array(image_err)
 
                 # Get the part of the prescan that lines up with the image
-                i_r0 = detector_areas[arrtype]['image']['r0c0'][0]
-                p_r0 = detector_areas[arrtype]['prescan']['r0c0'][0]
-                i_nrow = detector_areas[arrtype]['image']['rows']
+                i_r0 = detector_regions[arrtype]['image']['r0c0'][0]
+                p_r0 = detector_regions[arrtype]['prescan']['r0c0'][0]
+                i_nrow = detector_regions[arrtype]['image']['rows']
                 al_prescan = prescan[(i_r0-p_r0):(i_r0-p_r0+i_nrow), :]
 
         else:
-- 
2.43.0


From 0d6148a5a918040869bc8802771a3e8ff567f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 04/50] fix: correct_bad_pixels keeps DQ bits above the eighth

---
 corgidrp/l2a_to_l2b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..1936fb7 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -367,11 +367,11 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(np.uint8))
+        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(dq_cube.dtype))
         # mask affected pixels with NaN
         bp = np.where(bp_dq_mask != 0)
         data_cube[i, bp[0], bp[1]] = np.nan
-- 
2.43.0


From 4100fad0424ed4096a763f8d3a3fe58e782e0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 05/50] fix: autogen_recipe no longer fills in the caller's
 template

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4204983..f8891cb 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,4 +1,5 @@
 import os
+import copy
 import json
 import astropy.time as time
 import warnings
@@ -148,7 +149,7 @@ def autogen_recipe(filelist, outputdir, template=None):
     recipe_list = []
     for template in recipe_template_list:
         # create the personalized recipe
-        recipe = template.copy()
+        recipe = copy.deepcopy(template)
         recipe["template"] = False
 
         for filename in filelist:
-- 
2.43.0


From a62cdc9aebe76705b7a2ec533387bc113590bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 06/50] fix: recipes whose calibration was resolved to none can
 be resolved again

---
 corgidrp/walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index f8891cb..c7983f5 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -203,7 +203,7 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
     for calib in step["calibs"]:
         # order matters, so only one calibration file per dictionary
 
-        if "AUTOMATIC" in step["calibs"][calib].upper():
+        if step["calibs"][calib] is not None and "AUTOMATIC" in step["calibs"][calib].upper():
             calib_dtype = data.datatypes[calib]
 
             # try to look up the best calibration, but it could raise an error
-- 
2.43.0


From c6c330df059d24c31c2dff1029ff41ae18c5518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 07/50] fix: steps marked to be skipped by just-in-time
 calibration lookup are skipped

---
 corgidrp/walker.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index c7983f5..e161ede 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -399,10 +399,6 @@ def run_recipe(recipe, save_recipe_file=True):
         else:
             step_func = all_steps[step["name"]]
 
-            # edge case if this step has been specified to be skipped
-            if "skip" in step and step["skip"]:
-                continue
-
             other_args = ()
             if "calibs" in step:
                 # if JIT calibration resolving is toggled, figure out the calibrations here
@@ -423,6 +419,12 @@ def run_recipe(recipe, save_recipe_file=True):
                         frame.ext_hdr["RECIPE"] = json.dumps(recipe)
 
 
+            # edge case if this step has been specified to be skipped
+            # (possibly just now, when looking up its calibrations)
+            if "skip" in step and step["skip"]:
+                continue
+
+            if "calibs" in step:
                 # load the calibration files in from disk
                 for calib in step["calibs"]:
                     calib_dtype = data.datatypes[calib]
-- 
2.43.0


From 58429ec8c20e3d32d607bf6797789fa8e40bc176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 08/50] fix: autoload recognises saved NDFilterSweetSpotDataset
 files

---
 corgidrp/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 4e979c5..0463833 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2565,7 +2565,8 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpot": NDFilterSweetSpotDataset,
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset} # value of DATATYPE in the saved files
 
 def autoload(filepath):
     """
-- 
2.43.0


From e29f77d38e40eccd3b73135f1634804105848768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 09/50] fix: autoload reports the shape it could not classify

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 0463833..cdb96b5 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2592,7 +2592,7 @@ def autoload(filepath):
                 dtype = "Image"
             else:
                 errmsg = "Could not determine datatype for {0}. Data shape of {1} is not 2-D"
-                raise ValueError(errmsg.format(filepath, dtype))
+                raise ValueError(errmsg.format(filepath, hdulist[1].data.shape))
 
     # if we got here, we have a datatype
     data_class = datatypes[dtype]
-- 
2.43.0


From c088b8bb9333810344eef1b2f7cf2db2589bd22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 10/50] fix: find_source terminates when the highest SNR equals
 the threshold

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 913e9f5..b9282d0 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -471,7 +471,7 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
     sn_source, xy_source = [], []
        
     # Iteratively detect sources above the SNR threshold
-    while np.nanmax(image_snmap) >= nsigma_threshold:
+    while np.nanmax(image_snmap) > nsigma_threshold:
 
         sn = np.nanmax(image_snmap)
         xy = np.unravel_index(np.nanargmax(image_snmap), image_snmap.shape)
-- 
2.43.0


From 88531e0ae3f6ed36ba458ac4ac5b0ae51a6c67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 11/50] fix: flag_nans keeps the flags a pixel already has

---
 corgidrp/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..fac823c 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -608,6 +608,7 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    # go through integers because some flag arrays are stored as floats
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(int), flag_val)
 
     return dataset_out
-- 
2.43.0


From 9327806ff67cf64756316ace66d1a531202ff367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 12/50] fix: build_trad_dark no longer relabels its first input
 frame as a Dark

---
 corgidrp/darks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..2cb19b5 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -245,9 +245,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
-- 
2.43.0


From ad08802d06a71eecd9dcffd1115130e455a19852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 13/50] fix: create_onsky_flatfield leaves its input frames and
 headers untouched

---
 corgidrp/flat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 4cf5dbd..7cfeb5b 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -229,9 +229,9 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
 
     smooth_images=[]; raster_images_cent=[]; cent=[]; act_cents=[]; frames=[];
     for j in range(len(dataset)):
-        planet_image=dataset[j].data
-        prihdr=dataset[j].pri_hdr
-        exthdr=dataset[j].ext_hdr
+        planet_image=dataset[j].data.copy()
+        prihdr=dataset[j].pri_hdr.copy()
+        exthdr=dataset[j].ext_hdr.copy()
         image_size=np.shape(planet_image)
         centroid = centr.centroid_com(planet_image)
         centroid[np.isnan(centroid)]=0
-- 
2.43.0


From d250ff24fb4b871567ae4205d44b39f0a0b75a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 14/50] fix: crop evaluates its default size and centre for
 each frame

---
 corgidrp/l3_to_l4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..508a370 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -302,6 +302,7 @@ def crop(input_dataset, sizexy=None, centerxy=None):
        
     # Need to loop over frames and reinit dataset because array sizes change
     frames_out = []
+    input_sizexy, input_centerxy = sizexy, centerxy
 
     for frame in dataset:
         prihdr = frame.pri_hdr
@@ -309,6 +310,9 @@ def crop(input_dataset, sizexy=None, centerxy=None):
         dqhdr = frame.dq_hdr
         errhdr = frame.err_hdr
 
+        # defaults depend on each frame's own header
+        sizexy, centerxy = input_sizexy, input_centerxy
+
         # Pick default crop size based on the size of the effective field of view
         if sizexy is None:
             if exthdr['LSAMNAME'] == 'NFOV':
-- 
2.43.0


From 07f1b8f722bd18833ed32808a90187a419216185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 15/50] fix: convert_to_electrons keeps the individually
 tracked error layers

---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 1936fb7..d80419b 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -273,7 +273,7 @@ def convert_to_electrons(input_dataset, k_gain):
     kgain = k_gain.value #extract from caldb
     kgainerr = k_gain.error[0]
     # x = c*kgain, where c (counts beforehand) and kgain both have error, so do propogation of error due to the product of 2 independent sources
-    kgain_error = np.zeros_like(input_dataset.all_err)
+    kgain_error = kgain_dataset.all_err * kgain
     kgain_tot_err = (np.sqrt((kgain*kgain_dataset.all_err[:,0,:,:])**2 + (kgain_cube*kgainerr)**2))
     kgain_error[:,0,:,:] = kgain_tot_err
     kgain_cube *= kgain
-- 
2.43.0


From 1ede17430a08a10a1886e91bcd7668524652b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 16/50] fix: divide_by_exptime keeps frames linked to the
 dataset cube

---
 corgidrp/l2b_to_l3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index e982997..a0731a0 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -89,7 +89,6 @@ def divide_by_exptime(input_dataset):
     for i in range(len(data.frames)):
         exposure_time = float(data.frames[i].ext_hdr['EXPTIME'])
 
-        data.frames[i].data = data.frames[i].data / exposure_time
         # data.frames[i].err = data.frames[i].err / exposure_time
         scale_factor = (1/exposure_time) * np.ones([data.frames[i].err.shape[1], data.frames[i].err.shape[2]])
         # print(data.frames[i].err.shape)
@@ -98,7 +97,7 @@ def divide_by_exptime(input_dataset):
         #data.frames[i].rescale_error(data.frames[i].err, 'normalized by the exposure time')
         data.frames[i].rescale_error(scale_factor, 'normalized by the exposure time')
 
-        all_data_new[i] = data.frames[i].data
+        all_data_new[i] = data.frames[i].data / exposure_time
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
-- 
2.43.0


From 2aba516830e686edd004708d3e421744773ba559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 17/50] fix: FluxcalFactor can be created from a header that
 already records its inputs

---
 corgidrp/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index cdb96b5..658c13d 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1423,6 +1423,9 @@ class FluxcalFactor(Image):
                 # give it a default filename using the first input file as the base
                 # strip off everything starting at .fits
                 orig_input_filename = input_dataset[-1].filename.split(".fits")[0]
+                # slight hack for old mocks not in the stardard filename format
+                self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
+                self.filename = re.sub('_L[0-9].', '', self.filename)
   
             self.ext_hdr['DATATYPE'] = 'FluxcalFactor' # corgidrp specific keyword for saving to disk
             # JM: moved the below to fluxcal.py since it varies depending on the method
@@ -1436,9 +1439,6 @@ class FluxcalFactor(Image):
 
             # use the start date for the filename by default
             self.filedir = "."
-            # slight hack for old mocks not in the stardard filename format
-            self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
-            self.filename = re.sub('_L[0-9].', '', self.filename)
 
 class FpamFsamCal(Image):
     """
-- 
2.43.0


From 2edc9d2fe00739d45abc90f373a80fb377f5d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 18/50] fix: photon-counted darks record only the frames that
 were used

---
 corgidrp/photon_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 5f8978e..49eda56 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -147,7 +147,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     list_new_image = []
     list_err = [] # only used for dark processing case
     list_dq = [] # only used for dark processing case
-    index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
+    index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-- 
2.43.0


From c8f7721406d15a912060d8bec1ec789cb91168a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 19/50] fix: grouping frames by header no longer unlinks the
 caller's dataset

---
 corgidrp/darks.py           | 4 ++--
 corgidrp/l2a_to_l2b.py      | 4 ++--
 corgidrp/photon_counting.py | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 2cb19b5..3535728 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -189,7 +189,7 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     if detector_regions is None:
             detector_regions = detector_areas
 
-    _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    _, unique_vals = dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
     # getting telemetry rows to ignore in fit
@@ -803,7 +803,7 @@ def build_synthesized_dark(dataset, noisemaps, detector_regions=None, full_frame
         Fd = noise_maps.FPN_map
         Dd = noise_maps.DC_map
         Cd = noise_maps.CIC_map
-        _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+        _, unique_vals = dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
         if len(unique_vals) > 1:
             raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
         try: # use measured EM gain if available TODO change hdr name if necessary
diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index d80419b..e633a78 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -58,7 +58,7 @@ def dark_subtraction(input_dataset, dark, detector_regions=None, outputdir=None)
     Returns:
         corgidrp.data.Dataset: a dark-subtracted version of the input dataset including error propagation
     """
-    _, unique_vals = input_dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    _, unique_vals = input_dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
 
@@ -315,7 +315,7 @@ def em_gain_division(input_dataset):
         emgain_cube[i] /= emgain
         emgain_error[i] /= emgain
 
-    dataset_list, _ = emgain_dataset.split_dataset(exthdr_keywords=['EMGAIN_C'])
+    dataset_list, _ = emgain_dataset.copy(copy_data=False).split_dataset(exthdr_keywords=['EMGAIN_C'])
     if len(dataset_list) > 1:
         history_msg = "data divided by EM gain for dataset with frames with different commanded EM gains"
     else:
diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 49eda56..6a3a3a5 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -151,7 +151,8 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-        sub_dataset = data.Dataset(subset_frames)
+        # grouping the frames themselves would unlink them from input_dataset's cubes
+        sub_dataset = data.Dataset([frame.copy(copy_data=False) for frame in subset_frames])
 
         test_dataset, _ = sub_dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR', 'RN'])
         if len(test_dataset) > 1:
@@ -331,7 +332,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
         ext_hdr['PCTHRESH'] = thresh
         ext_hdr['NUM_FR'] = len(sub_dataset) 
         ext_hdr['HISTORY'] = "Photon-counted {0} dark frames for each master dark of the output dataset.  Number of subsets: {1}.  Total number of master darks in input dataset: {2}. Using T_factor={3} and niter={4}.".format(len(sub_dataset), num_bins, len(input_dataset), T_factor, niter)
-        pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset[:index_of_last_frame_used])
+        pc_dark = data.Dark(np.stack(list_new_image), pri_hdr=pri_hdr, ext_hdr=ext_hdr, err=np.stack([list_err]), dq=np.stack(list_dq), err_hdr=err_hdr, input_dataset=input_dataset.copy(copy_data=False)[:index_of_last_frame_used])
         return pc_dark
 
 def corr_photon_count(nobs, nfr, t, g, mask_indices, niter=2):
-- 
2.43.0


From 8a598d9c4a3e59fc5982e7cc53ca35c50a72bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 20/50] fix: images with unnamed error layers can be created
 when layers are not tracked

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 658c13d..21f954a 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -408,7 +408,7 @@ class Image():
             num_errs = self.err.shape[0] - 1
             # delete keywords specifying the error of each individual slice
             for i in range(num_errs):
-                del self.err_hdr['Layer_{0}'.format(i + 2)]
+                self.err_hdr.remove('Layer_{0}'.format(i + 2), ignore_missing=True)
             self.err = self.err[:1] # only save the total err, preserve 3-D shape
         self.err_hdr['TRK_ERRS'] = corgidrp.track_individual_errors # specify whether we are tracing errors
 
-- 
2.43.0


From 03c7b4191d54d0f690affbcbdc0f055ca244ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 21/50] fix: BadPixelMap can be created from a header that
 already records its inputs

---
 corgidrp/data.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 21f954a..17e10d3 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -971,16 +971,18 @@ class BadPixelMap(Image):
             self.ext_hdr['DATATYPE'] = 'BadPixelMap'
 
             # log all the data that went into making this bad pixel map
-            self._record_parent_filenames(input_dataset)
+            if input_dataset is not None:
+                self._record_parent_filenames(input_dataset)
 
             # add to history
             self.ext_hdr['HISTORY'] = "Bad Pixel map created"
 
             # check whether we're making the bpmap from a flat only, or from L1/2 files. 
-            if "_FLT_CAL" in input_dataset[-1].filename:
-                self.filename = input_dataset[-1].filename.replace("_FLT_CAL", "_BPM_CAL")
-            else:
-                self.filename = re.sub('_L[0-9].', '_BPM_CAL', input_dataset[-1].filename)
+            if input_dataset is not None:
+                if "_FLT_CAL" in input_dataset[-1].filename:
+                    self.filename = input_dataset[-1].filename.replace("_FLT_CAL", "_BPM_CAL")
+                else:
+                    self.filename = re.sub('_L[0-9].', '_BPM_CAL', input_dataset[-1].filename)
             
             # if no input_dataset is given, do we want to set the filename manually using 
             # header values?            
-- 
2.43.0


From c460fdbe921a7b389dfc9a0784d042dce3d1690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 22/50] fix: imaging_area_geom is right for the ENG_EM and
 ENG_CONV frame types

---
 corgidrp/detector.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index fac823c..a1ef35f 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -336,16 +336,22 @@ def imaging_area_geom(arrtype, detector_regions=None):
     """
     if detector_regions is None:
         detector_regions = detector_areas
-    _, cols_pre, _ = unpack_geom(arrtype, 'prescan', detector_regions)
-    _, cols_serial_ovr, _ = unpack_geom(arrtype, 'serial_overscan', detector_regions)
-    rows_parallel_ovr, _, _ = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
+    _, cols_pre, r0c0_pre = unpack_geom(arrtype, 'prescan', detector_regions)
+    _, cols_serial_ovr, r0c0_serial_ovr = unpack_geom(arrtype, 'serial_overscan', detector_regions)
+    rows_parallel_ovr, _, r0c0_parallel_ovr = unpack_geom(arrtype, 'parallel_overscan', detector_regions)
     #_, _, r0c0_image = self._unpack_geom('image')
-    fluxmap_rows, _, r0c0_image = unpack_geom(arrtype, 'image', detector_regions)
+    _, _, r0c0_image = unpack_geom(arrtype, 'image', detector_regions)
 
     rows_im = detector_regions[arrtype]['frame_rows'] - rows_parallel_ovr
     cols_im = detector_regions[arrtype]['frame_cols'] - cols_pre - cols_serial_ovr
-    r0c0_im = r0c0_image.copy()
-    r0c0_im[0] = r0c0_im[0] - (rows_im - fluxmap_rows)
+    # the imaging area starts after the virtual rows and columns that precede the image
+    r0c0_im = [0, 0]
+    if r0c0_parallel_ovr[0] < r0c0_image[0]:
+        r0c0_im[0] += rows_parallel_ovr
+    if r0c0_pre[1] < r0c0_image[1]:
+        r0c0_im[1] += cols_pre
+    if r0c0_serial_ovr[1] < r0c0_image[1]:
+        r0c0_im[1] += cols_serial_ovr
 
     return rows_im, cols_im, r0c0_im
 
-- 
2.43.0


From 31a98e9a691f24185de26031ae99d7b1228cb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 23/50] fix: prescan_biassub uses the reliable prescan columns
 of ENG_CONV frames

---
 corgidrp/l1_to_l2a.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 3151c17..1c30cef 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -98,8 +98,10 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
 
             al_prescan = prescan
 
-        st = detector_regions[arrtype]['prescan']['col_start']
-        end = detector_regions[arrtype]['prescan']['col_end']
+        # detector columns of the reliable prescan, relative to the start of the prescan region
+        p_c0 = detector_regions[arrtype]['prescan']['r0c0'][1]
+        st = detector_regions[arrtype]['prescan']['col_start'] - p_c0
+        end = detector_regions[arrtype]['prescan']['col_end'] - p_c0
 
         # Measure bias and error (standard error of the median for each row, add this to 3D image array)
         medbyrow = np.median(al_prescan[:,st:end], axis=1)[:, np.newaxis]
-- 
2.43.0


From 278baf87d1420713b26db55f61cc3b70e3710d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 24/50] fix: crop shifts the reference pixel that create_wcs
 writes to the extension header

---
 corgidrp/l3_to_l4.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 508a370..2454beb 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -382,10 +382,12 @@ def crop(input_dataset, sizexy=None, centerxy=None):
             exthdr["STARLOCX"] -= x1
             exthdr["STARLOCY"] -= y1
             updated_hdrs.append('STARLOCX/Y')
-        if ("CRPIX1" in prihdr.keys()):
-            prihdr["CRPIX1"] -= x1
-            prihdr["CRPIX2"] -= y1
-            updated_hdrs.append('CRPIX1/2')
+        # create_wcs writes the reference pixel to the extension header
+        for wcshdr in (prihdr, exthdr):
+            if ("CRPIX1" in wcshdr.keys()):
+                wcshdr["CRPIX1"] -= x1
+                wcshdr["CRPIX2"] -= y1
+                updated_hdrs.append('CRPIX1/2')
         if not ("DETPIX0X" in exthdr.keys()):
             exthdr.set('DETPIX0X',0)
             exthdr.set('DETPIX0Y',0)
-- 
2.43.0


From 72353132028814c5e18db0649f5089116eaf555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 25/50] fix: just-in-time calibration lookup works for recipes
 without input files

---
 corgidrp/walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index e161ede..cbd52c9 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -409,6 +409,10 @@ def run_recipe(recipe, save_recipe_file=True):
                     if isinstance(curr_dataset, data.Dataset):
                         ref_image = curr_dataset[0]
                         list_of_frames = curr_dataset
+                    elif not recipe["inputs"] and isinstance(curr_dataset, list):
+                        # no input data: same as when the recipe is generated without inputs
+                        ref_image = None
+                        list_of_frames = []
                     else:
                         ref_image = curr_dataset
                         list_of_frames = [curr_dataset]
-- 
2.43.0


From d040ff44bea805b84625e50a6b332799794c2d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 26/50] fix: split_dataset keeps frames whose keyword value is
 undefined

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 17e10d3..18257a0 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -234,7 +234,7 @@ class Dataset():
         # track all combinations
         df = pd.DataFrame(data=all_data, columns=col_names)
 
-        grouped = df.groupby(col_names)
+        grouped = df.groupby(col_names, dropna=False) # frames with an undefined value are a group too
 
         unique_vals = list(grouped.indices.keys()) # each unique set of values
         split_datasets = []
-- 
2.43.0


From ca51cbb5d4703f26031113514b804a8ce1f310a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 27/50] fix: DetectorParams and FpamFsamCal name their error
 and DQ extensions

---
 corgidrp/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 18257a0..bc54384 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1187,8 +1187,11 @@ class DetectorParams(Image):
             self.err = np.zeros([1,1])
 
             self.err_hdr = fits.Header()
+            self.err_hdr["EXTNAME"] = "ERR"
             self.dq_hdr = fits.Header()
+            self.dq_hdr["EXTNAME"] = "DQ"
 
+            self.hdu_names = ["ERR", "DQ"]
             self.hdu_list = fits.HDUList()
 
         # make a dictionary that's easy to use
@@ -1515,8 +1518,11 @@ class FpamFsamCal(Image):
             self.err = self.data * 0
 
             self.err_hdr = fits.Header()
+            self.err_hdr["EXTNAME"] = "ERR"
             self.dq_hdr = fits.Header()
+            self.dq_hdr["EXTNAME"] = "DQ"
 
+            self.hdu_names = ["ERR", "DQ"]
             self.hdu_list = fits.HDUList()
 
         # if this is a new FpamFsamCal file, we need to bookkeep it in the
-- 
2.43.0


From fb023720ac0a3387741920885f029bc10f2eb2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 28/50] fix: northup rotates the DQ map about the same center
 as the data

---
 corgidrp/l3_to_l4.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 2454beb..d0c91f2 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -10,8 +10,7 @@ from corgidrp import star_center
 import corgidrp
 from corgidrp.klip_fm import meas_klip_thrupt
 from corgidrp.corethroughput import get_1d_ct
-from scipy.ndimage import rotate as rotate_scipy # to avoid duplicated name
-from scipy.ndimage import shift
+from scipy.ndimage import affine_transform
 import warnings
 import numpy as np
 import pyklip.rdi
@@ -723,27 +722,14 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
         #############
 
         ## HDU DQ ##
-        # all DQ pixels must have integers, use scipy.ndimage.rotate with order=0 instead of klip.rotate (rotating the other way)
+        # all DQ pixels must have integers, use nearest neighbor resampling instead of klip.rotate
         dq_data = processed_data.dq
-        if xcen != xlen/2 or ycen != ylen/2:
-                # padding, shifting (rot center to image center), rotating, re-shift (image center to rot center), and cropping
-                # calculate shift values
-                xshift = xcen-xlen/2; yshift = ycen-ylen/2
-
-                # pad and shift
-                pad_x = int(np.ceil(abs(xshift))); pad_y = int(np.ceil(abs(yshift)))
-                dq_data_padded = np.pad(dq_data,pad_width=((pad_y, pad_y), (pad_x, pad_x)),mode='constant',constant_values=0)
-                dq_data_padded_shifted = shift(dq_data_padded,(-yshift,-xshift),order=0,mode='constant',cval=0)
-
-                # define slices for cropping
-                crop_x = slice(pad_x,pad_x+xlen); crop_y = slice(pad_y,pad_y+ylen)
-
-                # rotate (invserse direction to pyklip.rotate), re-shift, and crop
-                dq_derot = shift(rotate_scipy(dq_data_padded_shifted, -roll_angle, order=0, mode='constant', reshape=False, cval=0),\
-                 (yshift,xshift),order=0,mode='constant',cval=0)[crop_y,crop_x]
-        else:
-                # simply rotate 
-                dq_derot = rotate_scipy(dq_data, -roll_angle, order=0, mode='constant', reshape=False, cval=0)
+        # same rotation about the same center as the data; maps output (y,x) to input (y,x)
+        roll_rad = np.deg2rad(roll_angle)
+        rot_matrix = np.array([[np.cos(roll_rad), -np.sin(roll_rad)], [np.sin(roll_rad), np.cos(roll_rad)]])
+        center_yx = np.array([ycen, xcen])
+        dq_derot = affine_transform(dq_data, rot_matrix, offset=center_yx - rot_matrix @ center_yx,
+                                    order=0, mode='grid-constant', cval=0)
 
         new_all_dq.append(dq_derot)
         ############
-- 
2.43.0


From 2d8d6180bcd2005b83ef59b91731c62907f9df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 29/50] fix: northup keeps the individually tracked error
 layers

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index d0c91f2..0279901 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -717,7 +717,7 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
 
         ## HDU ERR ##
         err_data = processed_data.err
-        err_derot = np.expand_dims(rotate(err_data[0],roll_angle,(xcen,ycen)), axis=0) # err data shape is 1x1024x1024
+        err_derot = np.array([rotate(err_layer,roll_angle,(xcen,ycen)) for err_layer in err_data]) # every error layer
         new_all_err.append(err_derot)
         #############
 
-- 
2.43.0


From d4bf47d5d6fa875529497077ad917774d9c31d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 30/50] fix: find_star no longer changes the default satellite
 spot parameters

---
 corgidrp/star_center.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/star_center.py b/corgidrp/star_center.py
index fbae097..6829d6b 100644
--- a/corgidrp/star_center.py
+++ b/corgidrp/star_center.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from scipy.optimize import minimize
 
@@ -166,6 +167,9 @@ def update_parameters(params, new_values):
         >>> update_parameters(params, new_values)
         KeyError: "Subkey 'w' is not a valid parameter under key 'b'."
     """
+    # the input often is the table of default parameters, which must not change
+    params = copy.deepcopy(params)
+
     for key, subdict in new_values.items():
         if key not in params:
             raise KeyError(f"Key '{key}' is not a valid parameter.")
-- 
2.43.0


From 6221634238d4c88fe22686720dfddf383e2bd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 31/50] fix: find_star keeps frames linked to the dataset cube
 when satellite spot frames are kept

---
 corgidrp/l3_to_l4.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0279901..7cbeecd 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -254,6 +254,9 @@ def find_star(input_dataset,
 
     if drop_satspots_frames:
         dataset = sci_dataset
+    else:
+        # the frames were handed to the two subsets above, link them to one dataset again
+        dataset = data.Dataset(dataset.frames)
 
     history_msg = (
         f"Satellite spots analyzed. Star location at x={star_xy[0]} "
-- 
2.43.0


From d2150fcb1871a9c82f70d2e4af4c36890006a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 32/50] fix: FpamFsamCal with default matrices does not share
 the class default

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index bc54384..c1ffca5 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1493,7 +1493,7 @@ class FpamFsamCal(Image):
                 raise ValueError('File that was loaded was not a FpamFsamCal file.')
         else:
             if len(data_or_filepath) == 0:
-                data_or_filepath = self.default_trans
+                data_or_filepath = np.copy(self.default_trans)
             elif not isinstance(data_or_filepath, np.ndarray):
                 raise ValueError('Input should either be an array or a filepath string.')
             if data_or_filepath.shape != (2,2,2):
-- 
2.43.0


From a71288ed6f7e966f902e5a2a8559e629ec9fc0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 33/50] fix: l2b_to_l4 recipe gives PSF subtraction the core
 throughput calibration it needs

---
 corgidrp/recipe_templates/l2b_to_l4.json | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/corgidrp/recipe_templates/l2b_to_l4.json b/corgidrp/recipe_templates/l2b_to_l4.json
index a12a3d5..8126b64 100644
--- a/corgidrp/recipe_templates/l2b_to_l4.json
+++ b/corgidrp/recipe_templates/l2b_to_l4.json
@@ -32,7 +32,10 @@
             "name": "find_star"
         },
         {
-            "name": "do_psf_subtraction"
+            "name": "do_psf_subtraction",
+            "calibs": {
+                "CoreThroughputCalibration": "AUTOMATIC"
+            }
         },
         {
             "name": "update_to_l4",
-- 
2.43.0


From c57c4284cdc2c96f2cb00e0f21bdc40104c9b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 34/50] fix: pupil-image sorting restarts the k-gain series
 after one ends or breaks off

---
 corgidrp/sorting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/corgidrp/sorting.py b/corgidrp/sorting.py
index e3fea75..0f67c65 100644
--- a/corgidrp/sorting.py
+++ b/corgidrp/sorting.py
@@ -147,14 +147,14 @@ def sort_pupilimg_frames(
             idx_cons2 += [idx_count+1]
         # Last exposure time must be repeated and only once
         elif (diff_exp[idx_count] < 0  and
-            exptime_cons[idx_count+1] in exptime_cons[0:idx_count+1] and
-            len(exptime_cons2) == len(set(exptime_cons2))):
+            exptime_cons[idx_count+1] in exptime_cons2):
             kgain_subset += [idx_cons2[0], idx_count+1]
             idx_cons2 = [idx_count+1]
-            exptime_cons2 = [exptime_cons]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
         else:
-        # It is not a subset for kgain
-           continue
+        # It is not a subset for kgain: a new series may start here
+            idx_cons2 = [idx_count+1]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
     # Choose the largest subset
     kgain_subset = np.array(kgain_subset)
     idx_kgain = np.argmax(kgain_subset[1::2] - kgain_subset[0::2])
-- 
2.43.0


From 7360e2cd8a00f3bce63db3759ae1731d1dd66a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 35/50] fix: calibrate_darks_lsq failed when the shortest stack
 has the highest gain

---
 corgidrp/darks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 3535728..39c3857 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -563,8 +563,9 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # same time, next gain up from least gain (close in time*gain but different
     # gain so that effective read noise values are more uncorrelated)
     tinds = np.where(exptime_arr == exptime_arr[min1])
-    nextg = EMgain_arr[EMgain_arr > EMgain_arr[min1]].min()
-    ginds = np.where(EMgain_arr == nextg)
+    # (empty if that stack already has the highest gain)
+    nextg = np.unique(EMgain_arr[EMgain_arr > EMgain_arr[min1]])[:1]
+    ginds = np.where(np.isin(EMgain_arr, nextg))
     intersect = np.intersect1d(tinds, ginds)
     if intersect.size > 0:
         min2 = intersect[0]
-- 
2.43.0


From 3212ee503126d4d4c2435d5d01f03bb79360a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 36/50] fix: calibrate_darks_lsq fitted fully masked sub-stack
 pixels as zero

---
 corgidrp/darks.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 39c3857..2d8c55e 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -452,6 +452,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     mean_frames = []
     total_errs = []
     mean_num_good_fr = []
+    all_masked = []
     unreliable_pix_map = np.zeros((detector_regions['SCI']['frame_rows'],
                                    detector_regions['SCI']['frame_cols'])).astype(int)
     unfittable_pix_map = unreliable_pix_map.copy()
@@ -515,6 +516,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
         mean_num_good_fr.append(mean_num)
         unreliable_pix_map += pixel_mask
         unfittable_pix_map += combined_bpmap
+        all_masked.append(combined_bpmap == 1)
     unreliable_pix_map = unreliable_pix_map.astype(int)
     mean_stack = np.stack(mean_frames)
     mean_err_stack = np.stack(total_errs)
@@ -588,6 +590,15 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
 
     # matrix to be used for least squares and covariance matrix
     X = np.array([np.ones([len(EMgain_arr)]), EMgain_arr, EMgain_arr*exptime_arr]).T
+    # a sub-stack has no value where all its frames are masked; put there what
+    # the other sub-stacks predict so that only they determine the fit
+    masked_stack = np.stack(all_masked)
+    for no_value in np.unique(masked_stack[:, masked_stack.any(axis=0)], axis=1).T:
+        if M - no_value.sum() > 3:
+            pix = (masked_stack == no_value[:, None, None]).all(axis=0)
+            means = mean_stack[:, pix]
+            means[no_value] = X[no_value]@(np.linalg.pinv(X[~no_value])@means[~no_value])
+            mean_stack[:, pix] = means
     mean_stack_Y = np.transpose(mean_stack, (2,0,1))
     params_Y = np.linalg.pinv(X)@mean_stack_Y
     #next line: checked with KKT method for including bounds
-- 
2.43.0


From 38edd756f8b9bdd34063b0f7a3dae7c10165d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 37/50] fix: find_source crashed on sources near the image edge
 and for even-sized PSFs

---
 corgidrp/find_source.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/corgidrp/find_source.py b/corgidrp/find_source.py
index b3f7020..20738ea 100644
--- a/corgidrp/find_source.py
+++ b/corgidrp/find_source.py
@@ -60,14 +60,17 @@ def psf_scalesub(image, xy, psf, fwhm):
     # Mask central region of the PSF
     idx_masked = np.where( (distance_map < fwhm*1.0) )
 
+    # Part of the PSF that falls on the image, and where it falls
+    y0 = xy[0] - center[0] ; x0 = xy[1] - center[1]
+    in_psf = (slice(max(0, -y0), min(psf.shape[0], image.shape[0] - y0)),
+              slice(max(0, -x0), min(psf.shape[1], image.shape[1] - x0)))
+    in_image = (slice(y0 + in_psf[0].start, y0 + in_psf[0].stop),
+                slice(x0 + in_psf[1].start, x0 + in_psf[1].stop))
+
     # Scale PSF to match local flux and subtract it
-    psf_window = psf.shape[0] // 2
-    psf_scaled = psf * np.nanmedian(image[
-        xy[0]-psf_window:xy[0]+psf_window+1,
-        xy[1]-psf_window:xy[1]+psf_window+1] / psf)
+    psf_scaled = psf * np.nanmedian(image[in_image] / psf[in_psf])
     psf_scaled[idx_masked] = np.nan # Apply masking
     
-    image[xy[0]-psf_window:xy[0]+psf_window+1,
-          xy[1]-psf_window:xy[1]+psf_window+1] -= psf_scaled
+    image[in_image] -= psf_scaled[in_psf]
     
     return image
\ No newline at end of file
-- 
2.43.0


From 4082771be4b0971e425e34c6d7bc95a895130446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 38/50] fix: find_source placed the mask of a given PSF as if
 it had the default size

---
 corgidrp/l4_to_tda.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index b9282d0..0b40e5d 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -450,10 +450,11 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
     # Ensure an odd-sized box for PSF convolution
     boxsize = int(fwhm * 3)
     boxsize += 1 if boxsize % 2 == 0 else 0 # Ensure an odd box size
+    box_shape = (boxsize, boxsize) if psf is None else psf.shape
     
     # Create coordinate grids
-    y, x = np.indices((boxsize, boxsize))
-    y -= boxsize // 2 ; x -= boxsize // 2
+    y, x = np.indices(box_shape)
+    y -= box_shape[0] // 2 ; x -= box_shape[1] // 2
     
     if psf is None:
         sigma = fwhm / (2.0 * np.sqrt(2.0 * np.log(2))) # Convert FWHM to sigma
-- 
2.43.0


From a1fc91702159b9b763a3684b5e4950abb4dc3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 39/50] fix: find_source left sources of an earlier search in
 the header

---
 corgidrp/l4_to_tda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 0b40e5d..b213d5f 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -487,7 +487,8 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
             # Update the SNR map after source removal
             image_snmap = make_snmap(image_residual, psf_binarymask, image_without_planet=image_without_planet)
         
-    # Store detected sources in FITS header
+    # Store detected sources in FITS header, in place of those of an earlier search
+    del new_image.ext_hdr['snyx*']
     for i in range(len(sn_source)):
         new_image.ext_hdr[f'snyx{i:03d}'] = f'{sn_source[i]:5.1f},{xy_source[i][0]:4d},{xy_source[i][1]:4d}'        
     # names of the header keywords are tentative
-- 
2.43.0


From 4805e82df1d8f4034e9df08f04fde9be2051e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 40/50] fix: InterpolateCT stored the value of a location at
 the maximum azimuth in another target

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index c1ffca5..c907f1d 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1843,7 +1843,7 @@ class CoreThroughputCalibration(Image):
             for idx_x in idx_x_arr:
                 # If and only if the same index is in both, it's the same location
                 if idx_x in idx_y_arr:
-                    interpolated_values[idx_x] = core_throughput[idx_x]
+                    interpolated_values[idx] = core_throughput[idx_x]
             
         # Raise ValueError if all CT are NaN
         if np.all(np.isnan(interpolated_values)):
-- 
2.43.0


From fd3f9cdaa8ab71bbcc4af6d8531284edffb6ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 41/50] fix: PSF subtraction looked up core throughput at the
 recentred star position

---
 corgidrp/l3_to_l4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 7cbeecd..697ff05 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -631,7 +631,8 @@ def do_psf_subtraction(input_dataset,
         else:
             seps = np.array([5.,10.,15.,20.,25.,30.,35.])
 
-        ct_1d = get_1d_ct(ct_calibration,dataset_out[0],seps)
+        # The output is recentered on the star, so only the input frame locates the mask on the detector
+        ct_1d = get_1d_ct(ct_calibration,sci_dataset[0],seps)
 
         ct_hdr = fits.Header()
         # Core throughput values on EXCAM wrt pixel (0,0) (not a "CT map", which is
-- 
2.43.0


From 81be9e6b28681ab7a42f70cadade867f3e063068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 42/50] fix: inject_psf ignored the detector offset of cropped
 frames when choosing the PSF

---
 corgidrp/klip_fm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index 9a77ad8..b2e2567 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -68,8 +68,8 @@ def inject_psf(frame_in, ct_calibration, amp,
     dx,dy = seppa2dxdy(sep_pix,rel_pa)
 
     psf_model = get_closest_psf(ct_calibration,
-                                frame.ext_hdr['STARLOCX'],
-                                frame.ext_hdr['STARLOCY'],
+                                frame.ext_hdr['STARLOCX'] + frame.ext_hdr.get('DETPIX0X',0.),
+                                frame.ext_hdr['STARLOCY'] + frame.ext_hdr.get('DETPIX0Y',0.),
                                 dx,dy).copy() 
 
     # Scale counts
-- 
2.43.0


From 5ced54c8e882042b950282ea4632c8150b7f082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 43/50] fix: CreateCTMap did not save the map when given a file
 path

---
 corgidrp/corethroughput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 1f33ce9..05fe131 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -535,7 +535,7 @@ def CreateCTMap(
         if filepath == None:
             # Choose a default location and filename
             filepath = os.path.join(corgidrp.default_cal_dir, 'ct_map.csv')
-            np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
-            print(f'CT map saved in {filepath:s}')
+        np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
+        print(f'CT map saved in {filepath:s}')
     
     return ct_map
-- 
2.43.0


From 1531038d948cf9a052e674cdb13ea1ee7ff17539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 44/50] fix: GetCTFPMPosition ignored the detector offset of
 cropped frames

---
 corgidrp/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index c907f1d..5e4bfeb 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1684,8 +1684,10 @@ class CoreThroughputCalibration(Image):
             Returns the FPM's center during a Core throughput observing sequence.
         """
         # Read FPM location during the coronagraphic observations
-        cor_fpm_center = np.array([corDataset[0].ext_hdr['STARLOCX'],
-            corDataset[0].ext_hdr['STARLOCY']])
+        # (on EXCAM, also when the frames are cropped)
+        cor_fpm_center = np.array([
+            corDataset[0].ext_hdr['STARLOCX'] + corDataset[0].ext_hdr.get('DETPIX0X', 0),
+            corDataset[0].ext_hdr['STARLOCY'] + corDataset[0].ext_hdr.get('DETPIX0Y', 0)])
         # Read FPAM and FSAM values during the coronagraphic observations
         cor_fpam = np.array([corDataset[0].ext_hdr['FPAM_H'],
             corDataset[0].ext_hdr['FPAM_V']])
-- 
2.43.0


From 15b154c3a0fdadbb44dde9c106bb39c481e14704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:18 +0000
Subject: [PATCH 45/50] fix: throughput rows of meas_klip_thrupt did not follow
 the order of the requested separations

---
 corgidrp/klip_fm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index b2e2567..ce1ff8f 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -500,8 +500,8 @@ def meas_klip_thrupt(sci_dataset_in,ref_dataset_in, # pre-psf-subtracted dataset
         mean_thrupts = []
         mean_outfwhms = []
         # TODO: If no measurements available for a given sep
-        # show warning and add np.nan 
-        for sep in np.unique(seps_arr):
+        # show warning (np.nan is added) 
+        for sep in seps:
             this_sep_thrupts = np.where(seps_arr==sep,this_klmode_thrupts,np.nan)
             mean_thrupt = np.nanmedian(this_sep_thrupts)
             mean_thrupts.append(mean_thrupt)
-- 
2.43.0


From c52d9255d0ba96302acda476a3f7464f2216ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:18 +0000
Subject: [PATCH 46/50] fix: calibrate_fluxcal changed the unit in the headers
 of its input image

---
 corgidrp/fluxcal.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 8eaea3e..1d4f1e1 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -479,12 +479,10 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        unit = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        unit = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -500,10 +498,12 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=image.ext_hdr.copy(),
         input_dataset=dataset
     )
+    fluxcal_obj.ext_hdr['BUNIT'] = unit
+    fluxcal_obj.err_hdr['BUNIT'] = unit
 
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
@@ -578,12 +578,10 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        unit = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        unit = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -598,10 +596,12 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=image.ext_hdr.copy(),
         input_dataset=dataset
     )
+    fluxcal_obj.ext_hdr['BUNIT'] = unit
+    fluxcal_obj.err_hdr['BUNIT'] = unit
     
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
-- 
2.43.0


From aa099c56ea1c13f378301323a44fa498501c41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 47/50] fix: create_nd_sweet_spot_dataset overwrote the headers
 of the last input frame

---
 corgidrp/nd_filter_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0a97c93..0fbf55e 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -329,8 +329,8 @@ def create_nd_sweet_spot_dataset(aggregated_sweet_spot_data, common_metadata, od
     final_sweet_spot_data = aggregated_sweet_spot_data.copy()
 
     # Build the NDFilterSweetSpotDataset, use info from last/ most recent
-    pri_hdr = input_dataset[-1].pri_hdr
-    ext_hdr = input_dataset[-1].ext_hdr
+    pri_hdr = input_dataset[-1].pri_hdr.copy()
+    ext_hdr = input_dataset[-1].ext_hdr.copy()
 
     # keeping the common metadata because if you do provide dim stars as part of the dataset
     # and grab the last header you might get the FPAM info of a frame with no ND filter in.
-- 
2.43.0


From d7883a567e0eb66f89621562b5a38c438b1242c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 48/50] fix: ODFLAG of an ND calibration only told about the
 last target

---
 corgidrp/nd_filter_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0fbf55e..42a7acc 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -471,6 +471,7 @@ def create_nd_filter_cal(stars_dataset,
     flux_results = {}
     aggregated_data_list = []
     common_metadata = {}
+    od_var_flag = False
 
     for target, files in grouped_files.items():
         if not files:
@@ -481,7 +482,7 @@ def create_nd_filter_cal(stars_dataset,
                                           phot_kwargs)
         flux_results[target] = star_data
 
-        od_var_flag = star_data['flag']
+        od_var_flag = od_var_flag or star_data['flag']
 
         # Convert to Nx3 array [OD, x, y]
         target_sweet_spot = np.column_stack((
-- 
2.43.0


From b4435849581dd24e0021798c1c19590a14b3c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 49/50] fix: create_nd_filter_cal with a given flux factor
 failed without dim stars

---
 corgidrp/nd_filter_calibration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 42a7acc..4cd20da 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -452,8 +452,6 @@ def create_nd_filter_cal(stars_dataset,
             dim_stars_dataset.extend(records)
 
     bright_stars_dataset = Dataset(bright_stars_dataset)
-    dim_stars_dataset = Dataset(dim_stars_dataset)
-
 
     # 2. If a fluxcal factor was provided, use that for the dim stars
     if fluxcal_factor is not None:
@@ -461,6 +459,7 @@ def create_nd_filter_cal(stars_dataset,
     else:
         # Otherwise, compute the average calibration factor from dim
         # star frames
+        dim_stars_dataset = Dataset(dim_stars_dataset)
         cal_factor = compute_avg_calibration_factor(dim_stars_dataset,
                                                     phot_method,
                                                     flux_or_irr,
-- 
2.43.0


From bdeba0740ca92bca942b1804618615b2f9e0298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 50/50] fix: calculate_zero_point returned two numbers, the
 second from the error

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index b213d5f..7263abd 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -533,7 +533,7 @@ def calculate_zero_point(image, star_name, encircled_radius, phot_kwargs=None):
     app_mag = mag_dataset[0].ext_hdr["APP_MAG"]
 
     # Compute zero point using real measured photons
-    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)
+    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)[0]
     zp = app_mag + 2.5 * np.log10(ap_sum)
 
     return zp
\ No newline at end of file
-- 
2.43.0

