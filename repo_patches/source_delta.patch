From 6de270d54b11bcb287112fe481ea385273535ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 01/44] fix: gain, crop, border trimming and float32 conversion
 were lost without a mask

When no mask was given, array, PrimaryHDU and HDUList inputs had their prepared
pixel data replaced by the raw input while looking for a mask.
---
 properimage/single_image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 93188c3..b8ac4f0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -359,11 +359,11 @@ class SingleImage(object):
             # check the fits file and try to find it as an extension
             if self.attached_to == "PrimaryHDU":
                 logger.debug("Source is PrimaryHDU, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img.data)
+                self.__data = ma.masked_invalid(self.__data)
 
             elif self.attached_to == "ndarray":
                 logger.debug("Source is ndarray, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img)
+                self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
                 if self.header["EXTEND"]:
                     logger.info(
@@ -384,7 +384,7 @@ class SingleImage(object):
                     )
                 else:
                     logger.debug("No extensions found, masking invalid values")
-                    self.__data = ma.masked_invalid(self.__img[0].data)
+                    self.__data = ma.masked_invalid(self.__data)
             # if a path is given where we find a fits file search on extensions
             else:
                 try:
-- 
2.43.0


From 378e5918119304a479a2a5aecc29b44520278452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 02/44] fix: non-finite pixels stayed unmasked when a mask was
 supplied or read from file

---
 properimage/single_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b8ac4f0..71b3045 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -460,6 +460,9 @@ class SingleImage(object):
         )
         self.__data.mask = ma.mask_or(self.__data.mask, mask_lower.mask)
         self.__data.mask = ma.mask_or(self.__data.mask, mask_greater.mask)
+        self.__data.mask = ma.mask_or(
+            self.__data.mask, ~np.isfinite(self.__data.data)
+        )
         added_pixels = (
             self.__data.mask.sum() if self.__data.mask.shape != () else 0
         ) - initial_mask_count
-- 
2.43.0


From c32326eed9c01346123be86419df87c4e8f509cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 03/44] fix: an HDUList with only a primary HDU raised
 IndexError

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 71b3045..fc3397a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -365,7 +365,7 @@ class SingleImage(object):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-                if self.header["EXTEND"]:
+                if self.header.get("EXTEND") and len(self.__img) > 1:
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-- 
2.43.0


From 5d6c4c5a09010d124d8e4a9b96f609a6b6b12b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 04/44] fix: a crop with a zero trailing margin emptied the
 image

---
 properimage/single_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index fc3397a..7b1f35b 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -264,7 +264,10 @@ class SingleImage(object):
         if not np.sum(self.crop) == 0.0:
             dx, dy = self.crop
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
-            self.__data = self.__data[dx[0] : -dx[1], dy[0] : -dy[1]]
+            sx, sy = self.__data.shape
+            self.__data = self.__data[
+                dx[0] : sx - dx[1], dy[0] : sy - dy[1]
+            ]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
-- 
2.43.0


From f10747853606888a4c8038d60a4e7baa426d5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 05/44] fix: border trimming mixed up rows and columns

The extent of the padding along one axis was measured along the other, so
zero borders were left in place or rows of real pixels were removed.
---
 properimage/single_image.py | 48 ++++---------------------------------
 1 file changed, 5 insertions(+), 43 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 7b1f35b..bbc153b 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -213,49 +213,11 @@ class SingleImage(object):
                 self.__data = ma.asarray(img.data).astype("<f4")
         if self.borders:
             logger.debug("Detecting and removing image borders")
-            sx, sy = self.__data.shape
-            line = self.__data.data[sx // 2, :]
-            pxsum = 0
-            for x, px in enumerate(line):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldx = x
-                    break
-            for dx in range(ldx):
-                if not np.sum(self.__data.data[:dx, :]) == 0:
-                    ldx = dx
-                    break
-            pxsum = 0
-            for x, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdx = sx - x
-                    break
-            for dx in range(x):
-                if not np.sum(self.__data.data[-dx - 1 :, :]) == 0:
-                    rdx = sx - dx
-                    break
-            col = self.__data.data[:, sy // 2]
-            pxsum = 0
-            for y, px in enumerate(col):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldy = y
-                    break
-            for dy in range(ldy):
-                if not np.sum(self.__data.data[:, :dy]) == 0:
-                    ldy = dy
-                    break
-            pxsum = 0
-            for y, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdy = sy - y
-                    break
-            for dy in range(y):
-                if not np.sum(self.__data.data[:, -dy - 1 :]) == 0:
-                    rdy = sy - dy
-                    break
+            inked = self.__data.data != 0
+            rows = np.flatnonzero(inked.any(axis=1))
+            cols = np.flatnonzero(inked.any(axis=0))
+            ldx, rdx = (rows[0], rows[-1] + 1) if rows.size else (0, None)
+            ldy, rdy = (cols[0], cols[-1] + 1) if cols.size else (0, None)
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
             self.__data = self.__data[ldx:rdx, ldy:rdy]
             logger.debug(
-- 
2.43.0


From 1b55f54c9fadd761336454cb68a369a87cdbb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 06/44] fix: masks were laid over cropped images without being
 cropped

Assigning a larger mask fills the smaller one in raster order, which silently
flagged the wrong pixels.
---
 properimage/single_image.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index bbc153b..54dc542 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -211,6 +211,7 @@ class SingleImage(object):
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
                 self.__data = ma.asarray(img.data).astype("<f4")
+        x0, y0 = 0, 0  # where the kept pixels start in the original frame
         if self.borders:
             logger.debug("Detecting and removing image borders")
             inked = self.__data.data != 0
@@ -220,6 +221,7 @@ class SingleImage(object):
             ldy, rdy = (cols[0], cols[-1] + 1) if cols.size else (0, None)
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
             self.__data = self.__data[ldx:rdx, ldy:rdy]
+            x0, y0 = ldx, ldy
             logger.debug(
                 f"Data shape after border removal: {self.__data.shape}"
             )
@@ -230,7 +232,10 @@ class SingleImage(object):
             self.__data = self.__data[
                 dx[0] : sx - dx[1], dy[0] : sy - dy[1]
             ]
+            x0, y0 = x0 + dx[0], y0 + dy[0]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
+        nx, ny = self.__data.shape
+        self.__window = (slice(x0, x0 + nx), slice(y0, y0 + ny))
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
         self.__data.soften_mask()
@@ -275,6 +280,14 @@ class SingleImage(object):
             logger.debug("Extracting header from PrimaryHDU")
             self.__header = img.header
 
+    def _on_data_grid(self, mask):
+        """Bring a mask of the original frame to the pixels we kept of it."""
+        if mask.shape != self.__data.shape:
+            mask = mask[self.__window]
+        if mask.shape != self.__data.shape:
+            raise ValueError("The mask and the image are of different size")
+        return mask
+
     @property
     def mask(self):
         """Get mask property value."""
@@ -286,6 +299,7 @@ class SingleImage(object):
         if isinstance(mask, str):
             logger.info(f"Loading mask from file: {mask}")
             fitsmask = fits.getdata(mask)
+            fitsmask = self._on_data_grid(fitsmask)
             logger.debug(
                 f"Mask shape: {fitsmask.shape}, "
                 f"median: {np.median(fitsmask)}, "
@@ -311,7 +325,7 @@ class SingleImage(object):
             logger.debug(
                 f"Using provided numpy array as mask, shape: {mask.shape}"
             )
-            self.__data.mask = mask
+            self.__data.mask = self._on_data_grid(mask)
             logger.info(
                 f"Applied array mask: {self.__data.mask.sum()} pixels masked ("
                 f"{100 * self.__data.mask.sum() / self.__data.mask.size:.2f}%)"
@@ -334,7 +348,7 @@ class SingleImage(object):
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-                    fitsmask = self.__img[1].data
+                    fitsmask = self._on_data_grid(self.__img[1].data)
                     logger.debug(
                         f"Extension mask shape: {fitsmask.shape}, median: "
                         f"{np.median(fitsmask)}"
@@ -364,7 +378,7 @@ class SingleImage(object):
                                     "FITS file has extensions, "
                                     "loading mask from extension 1"
                                 )
-                                fitsmask = ff[1].data
+                                fitsmask = self._on_data_grid(ff[1].data)
                                 logger.debug(
                                     f"Extension mask median: "
                                     f"{np.median(fitsmask)}"
-- 
2.43.0


From 2324b1d4f8fe3756d8fe1805269b060037b3eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 07/44] fix: masked arrays without a mask argument looked for a
 file named MaskedArray

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 54dc542..0b53b2e 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -340,7 +340,7 @@ class SingleImage(object):
                 logger.debug("Source is PrimaryHDU, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
 
-            elif self.attached_to == "ndarray":
+            elif isinstance(self.__img, np.ndarray):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-- 
2.43.0


From acf1ee618939736c1e818826225844596a2effac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 08/44] fix: detected cosmic rays were never interpolated over

bkg_sub_img is computed anew on every access, so the mask updates went to
temporaries and were lost.
---
 properimage/single_image.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 0b53b2e..821f80a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1304,33 +1304,34 @@ class SingleImage(object):
             )
             kernel = Box2DKernel(10)  # Gaussian2DKernel(stddev=2.5) #
 
+            bkg_sub_img = self.bkg_sub_img
             logger.debug("Detecting cosmic rays with astroscrappy")
             crmask, _ = detect_cosmics(
-                indat=np.ascontiguousarray(self.bkg_sub_img.filled(-9999)),
-                inmask=self.bkg_sub_img.mask,
+                indat=np.ascontiguousarray(bkg_sub_img.filled(-9999)),
+                inmask=bkg_sub_img.mask,
                 sigclip=6.0,
                 cleantype="medmask",
             )
             cr_count = crmask.sum()
             logger.info(f"Cosmic rays detected: {cr_count} pixels")
 
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, crmask
+            bkg_sub_img.mask = np.ma.mask_or(
+                bkg_sub_img.mask, crmask
             )
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, np.isnan(self.bkg_sub_img)
+            bkg_sub_img.mask = np.ma.mask_or(
+                bkg_sub_img.mask, np.isnan(bkg_sub_img)
             )
-            nan_count = np.isnan(self.bkg_sub_img).sum()
+            nan_count = np.isnan(bkg_sub_img).sum()
             if nan_count > 0:
                 logger.debug(f"Additional NaN pixels found: {nan_count}")
 
-            total_to_interpolate = self.bkg_sub_img.mask.sum()
+            total_to_interpolate = bkg_sub_img.mask.sum()
             logger.info(
                 f"Total pixels to interpolate: {total_to_interpolate} "
-                f"({100 * total_to_interpolate / self.bkg_sub_img.size:.2f}%)"
+                f"({100 * total_to_interpolate / bkg_sub_img.size:.2f}%)"
             )
 
-            img = self.bkg_sub_img.filled(np.nan)
+            img = bkg_sub_img.filled(np.nan)
             img_interp = interpolate_replace_nans(img, kernel, convolve=conv)
 
             iterations = 0
-- 
2.43.0


From 2f2b9437438514c09efdfb0cc10bf97e144105fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 09/44] fix: subtract lost the bad pixels of new when aligning

---
 properimage/operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2194fbb..05ee851 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -128,7 +128,9 @@ def subtract(
                 raise
 
     if align:
-        registrd, registrd_mask = aa.register(new.data, ref.data)
+        registrd, registrd_mask = aa.register(
+            new.data, ref.data, propagate_mask=True
+        )
         new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
-- 
2.43.0


From 7be07a16be3d46d0aefd2a4565db8be15db8b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 10/44] fix: subtract deleted the stamp files of the caller's
 image when aligning

---
 properimage/operations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 05ee851..a4ca0e0 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -131,7 +131,6 @@ def subtract(
         registrd, registrd_mask = aa.register(
             new.data, ref.data, propagate_mask=True
         )
-        new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
             registrd[: ref.data.shape[0], : ref.data.shape[1]],
-- 
2.43.0


From d99722e53864c28a6c3ad889dc7f667924cc07ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 11/44] fix: mask returned by subtract and coadd shrank to a
 scalar when nothing was masked

---
 properimage/operations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index a4ca0e0..0de9d89 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -146,7 +146,7 @@ def subtract(
         raise ValueError("N and R arrays are of different size")
 
     t0 = time.time()
-    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
+    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
     ref.zp = zps[0]
@@ -451,7 +451,7 @@ def process_chunk_joblib(chunk, global_shape):
             psf_hat_sum,
             out=psf_hat_sum,
         )
-        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask, shrink=False)
     return S_hat.real, S_hat.imag, psf_hat_sum.real, psf_hat_sum.imag, mix_mask
 
 
@@ -541,7 +541,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
             np.add(S_hat_imag, S_hat.imag, out=S_hat.imag)
             np.add(psf_hat_sum_real, P_hat.real, out=P_hat.real)
             np.add(psf_hat_sum_imag, P_hat.imag, out=P_hat.imag)
-            mix_mask = np.ma.mask_or(mix_mask, mask)
+            mix_mask = np.ma.mask_or(mix_mask, mask, shrink=False)
 
         logger.info("Computing final coadd image")
         P_r_hat = np.sqrt(P_hat)
@@ -562,7 +562,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
                 P_hat,
                 out=P_hat,
             )
-            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+            mix_mask = np.ma.mask_or(
+                mix_mask, an_img.data.mask, shrink=False
+            )
         tf = time.time()
         logger.info(
             f"Sequential processing completed in {tf - ti:.2f} seconds"
-- 
2.43.0


From 1d23934f4636f0454012c216310d428df4497ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 12/44] fix: fitted PSF was centred with rows and columns
 swapped

---
 properimage/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 0de9d89..ce45268 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -165,10 +165,10 @@ def subtract(
         p_r = psf_ref[1]
         p_n = psf_new[1]
 
-        p_r.x_mean = ref.data.data.shape[0] / 2.0
-        p_r.y_mean = ref.data.data.shape[1] / 2.0
-        p_n.x_mean = new.data.data.shape[0] / 2.0
-        p_n.y_mean = new.data.data.shape[1] / 2.0
+        p_r.x_mean = ref.data.data.shape[1] / 2.0
+        p_r.y_mean = ref.data.data.shape[0] / 2.0
+        p_n.x_mean = new.data.data.shape[1] / 2.0
+        p_n.y_mean = new.data.data.shape[0] / 2.0
         p_r.bounding_box = None
         p_n.bounding_box = None
 
-- 
2.43.0


From 784dcd60a8904901b7889feec35b0679a58050ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 13/44] fix: coadd failed with more workers than images

---
 properimage/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index ce45268..464c223 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -517,7 +517,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
     n_jobs = n_procs
     if n_jobs > 1:
         logger.info(f"Using parallel processing with {n_jobs} workers")
-        chunks = list(u.chunk_it(img_list, n_jobs))
+        chunks = [c for c in u.chunk_it(img_list, n_jobs) if len(c) > 0]
         ti = time.time()
         results = Parallel(n_jobs=n_jobs, backend="threading")(
             delayed(process_chunk_joblib)(chunk, global_shape)
-- 
2.43.0


From a309d0dc7d9d100c3d5a61bc18144882c7a76386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 14/44] fix: coadd replaced the entries of the caller's list

---
 properimage/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properimage/operations.py b/properimage/operations.py
index 464c223..92f89d0 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -483,6 +483,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
+    si_list = list(si_list)
     for i_img, animg in enumerate(si_list):
         if not isinstance(animg, si):
             si_list[i_img] = si(animg)
-- 
2.43.0


From a828efb8b8656f49e31720236d0642b4e0954867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 15/44] fix: transparency misplaced the magnitudes of three or
 more images

---
 properimage/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index f571ad2..bfd777b 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -215,9 +215,9 @@ def transparency(images, master=None):
         )
 
         j = 0
-        for row in mastercat[mastercat["detected"]]:
-            for img in imglist:
-                cat = img.best_sources
+        for img in imglist:
+            cat = img.best_sources
+            for row in mastercat[mastercat["detected"]]:
                 imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                 m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
                 j += 1
-- 
2.43.0


From acaec857d606aa13a10e8440ec7a67dc85cc969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 16/44] fix: transparency reused stale source ids in its master
 catalogue

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index bfd777b..0d11774 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -174,7 +174,7 @@ def transparency(images, master=None):
             dtypes=int,
         )
     except ValueError:
-        pass
+        mastercat["sourceid"] = np.arange(len(mastercat))
 
     detect = np.repeat(True, len(mastercat))
     #  Matching the sources
-- 
2.43.0


From b45c100c7171c85b2262001185259200b1596db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 17/44] fix: source zero was flagged as unmatched

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 0d11774..280abef 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -133,7 +133,7 @@ def _matching(master, cat, masteridskey=None, radius=1.5, masked=False):
                     IDs[i] = master[idkey][ind_o]
 
     if masked:
-        mask = IDs > 0
+        mask = IDs >= 0
         return (IDs, mask)
     return IDs
 
-- 
2.43.0


From 9a6e1bd0f131776656ce2f5674d0eb1b067a1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 18/44] fix: coadd components ignored later changes of the zero
 point

---
 properimage/single_image.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 821f80a..3f1844f 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1230,8 +1230,15 @@ class SingleImage(object):
 
     @zp.setter
     def zp(self, val):
+        if val != self.zp:
+            self._forget("_s_hat_comp", "_s_component")
         self._zp = val
 
+    def _forget(self, *names):
+        """Drop cached values so they are calculated again when needed."""
+        for name in names:
+            self.__dict__.pop(name, None)
+
     @property
     def var(self):
         """Get globalrms variance value."""
-- 
2.43.0


From ed50a8e1403e484012a3e18d8064e6c1b8013292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 19/44] fix: PSF expansion and its products ignored later
 changes of inf_loss

---
 properimage/single_image.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 3f1844f..f906a66 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1234,6 +1234,23 @@ class SingleImage(object):
             self._forget("_s_hat_comp", "_s_component")
         self._zp = val
 
+    @property
+    def inf_loss(self):
+        """Get the information loss allowed in the PSF expansion."""
+        return self._inf_loss
+
+    @inf_loss.setter
+    def inf_loss(self, val):
+        if val != getattr(self, "_inf_loss", val):
+            self._forget(
+                "_kl_basis",
+                "_a_fields",
+                "_normal_image",
+                "_s_hat_comp",
+                "_s_component",
+            )
+        self._inf_loss = val
+
     def _forget(self, *names):
         """Drop cached values so they are calculated again when needed."""
         for name in names:
-- 
2.43.0


From 096dcecfbe0845cb2ccb6c923cf959300be47cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 20/44] fix: update_sources failed when no source catalogue had
 been measured yet

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index f906a66..49a99ad 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -722,7 +722,7 @@ class SingleImage(object):
 
     def update_sources(self, new_sources=None):
         """Update best source property."""
-        del self._best_sources
+        self._forget("_best_sources")
         if new_sources is None:
             # Force evaluation of lazy properties to trigger computation
             _ = self.best_sources
-- 
2.43.0


From 18681f96a8ea66cce8cff4bb4bbe915a9a87829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 21/44] fix: the strict star pick was not disabled with few
 candidates

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 49a99ad..bbc1585 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -778,7 +778,7 @@ class SingleImage(object):
                 logger.info(
                     f"{n_cand_srcs} candidates, disabling strict star pick"
                 )
-                self.strict_star_pick = False
+                self._strict_star_pick = False
 
             for row in self.best_sources:
                 position = (row["y"], row["x"])
-- 
2.43.0


From e5c7af5d71429a35c736b650c87e77f60e686239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 22/44] fix: the local PSF could not be evaluated close to the
 edges

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index bbc1585..0bd37c6 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1433,12 +1433,12 @@ class SingleImage(object):
             xmax = xp + delta + 1
             ymin = yp - delta
             ymax = yp + delta + 1
+            xs, ys = np.mgrid[xmin:xmax, ymin:ymax]
+            # beyond the edges use the values of the closest image pixel
+            xs = np.clip(xs, 0, self.data.shape[0] - 1)
+            ys = np.clip(ys, 0, self.data.shape[1] - 1)
             for apsf, afield in zip(psf_basis, a_fields):
-                psf_at_xy += (
-                    apsf
-                    * afield(*np.mgrid[xmin:xmax, ymin:ymax])
-                    / self.normal_image[xmin:xmax, ymin:ymax]
-                )
+                psf_at_xy += apsf * afield(xs, ys) / self.normal_image[xs, ys]
 
             return psf_at_xy / np.sum(psf_at_xy)
         else:
-- 
2.43.0


From 10b16de57b572e624aedfc05065b61734024c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 23/44] fix: simtools.image failed with a NameError on unknown
 backgrounds

---
 properimage/simtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 76d8ae6..3b018b5 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -268,6 +268,8 @@ def image(
         mean = 0
         std = b / SN
         C = random.normal(mean, std, (N, N))
+    else:
+        raise ValueError(f"Unknown background distribution '{bkg_pdf}'")
     return C + IM + bias
 
 
-- 
2.43.0


From 3a21838e55e7c8e1df206d7cf2ad86afa8f54666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 24/44] fix: the centre of odd sized Airy patterns was NaN

---
 properimage/simtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 3b018b5..242472a 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -89,6 +89,8 @@ def _airy_func(rr, width, amplitude=1.0):
     (normalized) radius
     """
     r = float(rr) / width
+    if r == 0:
+        return amplitude
     return amplitude * (2.0 * sp.special.j1(r) / r) ** 2
 
 
-- 
2.43.0


From 581fc49fd0d2cce79a0442c8d72919dd07c37e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 25/44] fix: delta_point rejected the zip of its own example

---
 properimage/simtools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 242472a..dcef382 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -212,6 +212,7 @@ def delta_point(N, center=True, xy=None, weights=None):
     if center:
         m[int(N / 2.0), int(N / 2.0)] = 1.0
     else:
+        xy = list(xy)
         if weights is None:
             weights = np.ones(shape=len(xy))
         j = -1
-- 
2.43.0


From ef278b23e668fb5f0d11a196c4ed5464562d4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 26/44] fix: the last row and column of gal_sersic were never
 filled

---
 properimage/simtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index dcef382..18517ae 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -160,8 +160,8 @@ def gal_sersic(N, n):
     # radio de escala, tomado como un
     # sexto del ancho de la imagen para que la galaxia no ocupe toda la imagen
     R_e = (N - 1) / 6.0
-    for i in range(N - 1):
-        for j in range(N - 1):
+    for i in range(N):
+        for j in range(N):
             r_pix = np.sqrt((i - mu) ** 2 + (j - mu) ** 2)
             if r_pix <= (4.0 * R_e):
                 gal[i, j] = perfilsersic(R_e, 10, n, r_pix)
-- 
2.43.0


From 21f0e95434b559742e3111f173fd2a38943ee5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 27/44] fix: too few axes raised TypeError instead of the
 intended ValueError

---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c5f84c9..50dd7db 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -223,7 +223,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         xsh, ysh = psf_basis[0].shape
@@ -287,7 +287,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         cmap_kw = cmap_kw or {}
-- 
2.43.0


From 534cd3ac96d8ea94e19f9925ce4b94b709914d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 28/44] fix: autopsf ignored the contour options of the caller

---
 properimage/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 50dd7db..9c10e57 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -230,8 +230,7 @@ class Plot:
 
         kwargs.setdefault("interpolation", "none")
 
-        iso_kw = iso_kw or {}
-        iso_kw = {"colors": "black", "alpha": 0.5}
+        iso_kw = {"colors": "black", "alpha": 0.5, **(iso_kw or {})}
 
         cmap_kw = cmap_kw or {}
         cmap_kw.setdefault("shrink", 0.85)
-- 
2.43.0


From d9d5662e2b96ea84e56402c850b40d5a9be72329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 29/44] fix: the psf plots changed the caller's colorbar
 options

---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 9c10e57..eb85f53 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -232,7 +232,7 @@ class Plot:
 
         iso_kw = {"colors": "black", "alpha": 0.5, **(iso_kw or {})}
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.85)
 
         title_tpl = r"$\sum p_{j:d} = {sum:4.3e}$"
@@ -289,7 +289,7 @@ class Plot:
                 f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.75)
         cmap_kw.setdefault("aspect", 30)
 
-- 
2.43.0


From c1fe53d18d28fe4eb1e33617b016998959cc117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 30/44] fix: contour axes of autopsf were swapped

---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index eb85f53..2638a04 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -246,7 +246,7 @@ class Plot:
             fig.colorbar(img, ax=ax, **cmap_kw)
 
             if iso:
-                ax.contour(np.arange(xsh), np.arange(ysh), psf_basis, **iso_kw)
+                ax.contour(np.arange(ysh), np.arange(xsh), psf_basis, **iso_kw)
 
         return axs
 
-- 
2.43.0


From 399e684a71a50dde1889b4a7c92009a829ceb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 31/44] fix: single precision and masked complex images were
 not taken as complex

---
 properimage/plot.py  | 2 +-
 properimage/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 2638a04..6e3e5fe 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -128,7 +128,7 @@ def plot_R(R, path=None, nbook=False):
     -------
     ax : matplotlib axes
     """
-    if isinstance(R[0, 0], complex):
+    if np.iscomplexobj(R):
         R = R.real
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
diff --git a/properimage/utils.py b/properimage/utils.py
index 280abef..ec968f3 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -47,7 +47,7 @@ def store_img(img, path=None):
     Returns:
         HDUList: The astropy.io.fits.HDUList image
     """
-    if isinstance(img[0, 0], complex):
+    if np.iscomplexobj(img):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-- 
2.43.0


From 91992c3bb984d5c8adc355dc698bdb8f6d53d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 32/44] fix: the pick among too many sources changed from run
 to run

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 0bd37c6..6034fd6 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -69,6 +69,7 @@ SEP_THRESH = {
 }
 MARGIN_CHECK_THRESHOLD = 3.5  # Margin quality check threshold (in RMS units)
 MAX_SRCS_LIMIT = 1800  # Maximum number of sources to process
+SRCS_SEED = 110112  # Seed of the random pick when there are too many sources
 STAMP_PADSIZE = 6  # Border padding for stamp shape
 PSF_CTR_TOL = 5.0  # PSF center offset tolerance (new_shape[0] / this)
 
@@ -710,7 +711,7 @@ class SingleImage(object):
                     f"Too many sources ({len(best_srcs)}), randomly selecting "
                     f"{MAX_SRCS_LIMIT}"
                 )
-                jj = np.random.choice(
+                jj = np.random.default_rng(SRCS_SEED).choice(
                     len(best_srcs), MAX_SRCS_LIMIT, replace=False
                 )
                 best_srcs = best_srcs[jj]
-- 
2.43.0


From c07c3601aa78273c4cd5518a9e5664c867dee04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 33/44] fix: stamp files of images without context manager were
 never removed

---
 properimage/single_image.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 6034fd6..a97a717 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -19,6 +19,7 @@ import logging
 import os
 import pathlib
 import tempfile
+import weakref
 
 from astropy.convolution import Box2DKernel
 from astropy.convolution import convolve_fft
@@ -88,6 +89,15 @@ def conv(*arg, **kwargs):
     return convolve_fft(fftn=_fftwn, ifftn=_ifftwn, *arg, **kwargs)
 
 
+def _remove_stamps(dbname):
+    """Remove the stamp files left behind by an image nobody cleaned."""
+    for extension in (".dat", ".map"):
+        try:
+            os.remove(dbname + extension)
+        except OSError:
+            pass
+
+
 class SingleImage(object):
     """Atomic processor class for a single image.
 
@@ -143,6 +153,7 @@ class SingleImage(object):
         self.inf_loss = 0.2
         self._smooth_autopsf = smooth_psf
         self.dbname = str(TEMP_PATH / f"{id(self)}_SingleImage")
+        weakref.finalize(self, _remove_stamps, self.dbname)
 
         self._plot = plot.Plot(self)
 
-- 
2.43.0


From a1a621978ac942e78dd99033cf05c6adc175c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 34/44] fix: zero points in magnitudes were used as flux scales

---
 properimage/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index ec968f3..b07547c 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -234,7 +234,8 @@ def transparency(images, master=None):
         H = sparse.bmat(sparses)
 
         P = sparse.linalg.lsqr(H, m)
-        zps = P[0][:p]
+        # the solution is in magnitudes, the zeropoints scale fluxes
+        zps = 10.0 ** (-0.4 * (P[0][:p] - P[0][0]))
 
         meanmags = P[0][p:]
 
-- 
2.43.0


From b81910ea098819c2a765dabc6d72c731eaee5e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 35/44] fix: gaussian PSF models were not normalised to unit
 sum

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index a97a717..6f579cc 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1520,7 +1520,7 @@ class SingleImageGaussPSF(SingleImage):
             x_stddev=mean_xw,
             y_stddev=mean_yw,
             theta=mean_th,
-            amplitude=1.0,
+            amplitude=1.0 / (2.0 * np.pi * abs(mean_xw * mean_yw)),
         )
 
         return [[None], [mean_model.render(), mean_model]]
-- 
2.43.0


From 3af4faf75492dca624e062585c8ec19747f3a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 36/44] fix: refuse a mask that is neither of the frame's size
 nor of the kept pixels

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 6f579cc..8e07703 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -223,6 +223,7 @@ class SingleImage(object):
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
                 self.__data = ma.asarray(img.data).astype("<f4")
+        self.__frame_shape = self.__data.shape
         x0, y0 = 0, 0  # where the kept pixels start in the original frame
         if self.borders:
             logger.debug("Detecting and removing image borders")
@@ -294,7 +295,7 @@ class SingleImage(object):
 
     def _on_data_grid(self, mask):
         """Bring a mask of the original frame to the pixels we kept of it."""
-        if mask.shape != self.__data.shape:
+        if mask.shape == self.__frame_shape:
             mask = mask[self.__window]
         if mask.shape != self.__data.shape:
             raise ValueError("The mask and the image are of different size")
-- 
2.43.0


From 4234f0acd60a292a67eca41ce24b614999b6c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 37/44] fix: significance of a local maximum read from a
 neighbouring pixel

---
 properimage/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index b07547c..9e3b3e8 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -358,7 +358,9 @@ def find_S_local_maxima(S_image, threshold=2.5, neighborhood_size=5):
     )
     cat = []
     for x, y in xy:
-        cat.append((y, x, (S_image[int(x), int(y)] - mean) / std))
+        # the pixel closest to the center; truncating may miss it by one
+        i, j = int(np.round(x)), int(np.round(y))
+        cat.append((y, x, (S_image[i, j] - mean) / std))
 
     return cat
 
-- 
2.43.0


From ed8f0b70d16730efbadc083965be0f987354769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 38/44] fix: store_img failed for a masked array without
 flagged pixels

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 9e3b3e8..9750e47 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -51,7 +51,7 @@ def store_img(img, path=None):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-        mask = img.mask.astype("int")
+        mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
         hdu_data = fits.PrimaryHDU(data)
         hdu_data.scale(type="float32")
-- 
2.43.0


From 6d09e8d5d7660e3dd520fdbbc4d2a641b601b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 39/44] fix: local maxima reported on masked pixels

---
 properimage/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 9750e47..8640ddf 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -352,7 +352,8 @@ def find_S_local_maxima(S_image, threshold=2.5, neighborhood_size=5):
         the SNR of detection
     """
     mean, median, std = sigma_clipped_stats(S_image, maxiters=3)
-    labeled, num_objects = ndimage.label((S_image - mean) / std > threshold)
+    above = (S_image - mean) / std > threshold
+    labeled, num_objects = ndimage.label(np.ma.filled(above, False))
     xy = np.array(
         ndimage.center_of_mass(S_image, labeled, range(1, num_objects + 1))
     )
-- 
2.43.0


From 04d361d020735dd4b9b2300f923eed41587de14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 40/44] fix: simulated PSF of a fractional size was drawn off
 centre

---
 properimage/simtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 18517ae..b2eb038 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -44,7 +44,8 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
     if Y_FWHM == 0:
         Y_FWHM = X_FWHM
 
-    a = np.zeros((int(N), int(N)))
+    N = int(N)
+    a = np.zeros((N, N))
     mu = (N - 1) / 2.0
     sigma_x = X_FWHM / 2.335
     sigma_y = Y_FWHM / 2.335
-- 
2.43.0


From f892bf8c93ef94bcc040886df1453087dd70257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 41/44] fix: simulated PSFs were cut on one side, wrapped round
 or failed when narrow

---
 properimage/simtools.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index b2eb038..7f410a1 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -50,10 +50,10 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
     sigma_x = X_FWHM / 2.335
     sigma_y = Y_FWHM / 2.335
     sigma = max(sigma_x, sigma_y)
-    tail_len = min(int(5 * sigma), N / 2)
-    mu_int = int(mu)
-    for i in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
-        for j in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
+    tail_len = int(5 * sigma)
+    first = max(int(np.ceil(mu - tail_len)), 0)
+    for i in range(first, N - first):
+        for j in range(first, N - first):
             a[i, j] = stats.norm.pdf(
                 i, loc=mu, scale=sigma_x
             ) * stats.norm.pdf(j, loc=mu, scale=sigma_y)
@@ -76,8 +76,8 @@ def astropy_Psf(N, FWHM):
         amplitude=1.0, x_mean=mu, y_mean=mu, x_stddev=sigma, y_stddev=sigma
     )
     tail_len = int(7 * sigma)
-    mu_int = int(mu)
-    i = range(mu_int - tail_len, mu_int + tail_len, 1)
+    first = max(int(np.ceil(mu - tail_len)), 0)
+    i = range(first, N - first)
     for ii, jj in cartesian_product([i, i]):
         psf[ii, jj] = model(ii, jj)
     return psf / np.sum(psf)
-- 
2.43.0


From bb73f2d2e5eee96ca252919fe5038d730b005aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 42/44] fix: delta_point gave the sources their weights in
 reverse order

---
 properimage/simtools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 7f410a1..03f1c7d 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -216,11 +216,8 @@ def delta_point(N, center=True, xy=None, weights=None):
         xy = list(xy)
         if weights is None:
             weights = np.ones(shape=len(xy))
-        j = -1
-        for x, y in xy:
-            w = weights[j]
+        for (x, y), w in zip(xy, weights):
             m[int(x), int(y)] = 1.0 * w
-            j -= 1
     return m
 
 
-- 
2.43.0


From bd55cf88a1364ecc51c9c31858f2c2e521b77d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 43/44] fix: local PSF failed for stamps of even or unequal
 sides

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 8e07703..14df3f1 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1440,12 +1440,12 @@ class SingleImage(object):
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-            delta = int((psf_at_xy.shape[0] - 1) / 2)
+            rows, cols = psf_at_xy.shape
             xp, yp = int(np.round(x)), int(np.round(y))
-            xmin = xp - delta
-            xmax = xp + delta + 1
-            ymin = yp - delta
-            ymax = yp + delta + 1
+            xmin = xp - (rows - 1) // 2
+            xmax = xmin + rows
+            ymin = yp - (cols - 1) // 2
+            ymax = ymin + cols
             xs, ys = np.mgrid[xmin:xmax, ymin:ymax]
             # beyond the edges use the values of the closest image pixel
             xs = np.clip(xs, 0, self.data.shape[0] - 1)
-- 
2.43.0


From 427d4a60868398df3e64301c2e13d3768568f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 44/44] fix: an image with too many pixels changed the
 extraction limit for all later ones

---
 properimage/single_image.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 14df3f1..c6c7ad6 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -15,6 +15,7 @@
 This module contains main class SingleImage, and derived classes.
 """
 
+import functools
 import logging
 import os
 import pathlib
@@ -89,6 +90,20 @@ def conv(*arg, **kwargs):
     return convolve_fft(fftn=_fftwn, ifftn=_ifftwn, *arg, **kwargs)
 
 
+def _keep_pixstack(method):
+    """Give back the extraction limit, shared by the process, afterwards."""
+
+    @functools.wraps(method)
+    def wrapper(self):
+        pixstack = sep.get_extract_pixstack()
+        try:
+            return method(self)
+        finally:
+            sep.set_extract_pixstack(pixstack)
+
+    return wrapper
+
+
 def _remove_stamps(dbname):
     """Remove the stamp files left behind by an image nobody cleaned."""
     for extension in (".dat", ".map"):
@@ -564,6 +579,7 @@ class SingleImage(object):
         self.__stamp_shape = shape
 
     @property
+    @_keep_pixstack
     def best_sources(self):
         """Get best_sources property value.
 
-- 
2.43.0

