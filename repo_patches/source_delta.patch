From 1ffadc859f920a46c6a9c32d258695e00f0c41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 01/23] fix: keep the whole file name of an image loaded from a
 single path

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..2ece002 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -108,7 +108,7 @@ class Image:
             tempfilename[-1] = "SUM_" + tempfilename[-1]
             self.filename = os.path.sep.join(tempfilename)
         else:
-            self.filename = filenames[0]
+            self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
         self.data = image.data.copy()
-- 
2.43.0


From c3e0bff0f22b993ad2e87e8cd5cc47f6f6b5d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 02/23] fix: use float instead of the removed np.float alias

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/processing/demosaic.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..bbada28 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From 72dfbbf1eb69e5cdab6e3f7ac6f4cbbc0f85783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 03/23] fix: apply the default radii of roi_from_polar before
 reading them

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From 2d3f2b6e90a33dc3128a915999fb28cf24c1adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 04/23] fix: get_hot_pixels calls the existing update method

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From a9cc86ed85e66080192b644221d77f717f6f9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 05/23] fix: rotate works on a copy of the source Stokes vector

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..6c4e0bf 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -901,7 +901,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
-- 
2.43.0


From 60ae1c9a6b5251de03a94e5589dba6b16349d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 06/23] fix: copies of an image do not share arrays, header or
 angle map with it

---
 micropolarray/micropol_image.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 6c4e0bf..c7a700e 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -121,16 +121,17 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
-        self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.data = image.data.copy()
+        self.header = image.header.copy()
+        self.angle_dic = dict(image.angle_dic)
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
@@ -1010,7 +1011,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1032,7 +1033,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1054,7 +1055,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1076,7 +1077,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From 3666e1866aa0cf83258f7bfdde7d2221a041d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 07/23] fix: subtract the dark in floating point so unsigned
 data does not wrap around

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c7a700e..622a4d1 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -388,7 +388,7 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
+        self.data = self.data.astype(float) - dark.data
         self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
         self._dark_subtracted = True
-- 
2.43.0


From 858607ae64482ce3961fab6a2f9a3a015ae9a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 08/23] fix: DDA returns exactly the points from start to end

---
 micropolarray/processing/linear_roi.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..6406b86 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -120,21 +120,15 @@ def DDA(start: list, end: list) -> np.ndarray:
         step = np.abs(dx)
     else:
         step = np.abs(dy)
-    dx = dx / step
-    dy = dy / step
-    x = x1
-    y = y1
-    xs = [int(x)]
-    ys = [int(y)]
-
-    i = 0
+    xs = [x1]
+    ys = [y1]
+
+    i = 1
     while i <= step:
-        x = x + dx
-        y = y + dy
-        i = i + 1
         # if (int(y) != ys[-1]) and (int(x) != xs[-1]):
-        ys.append(int(y))
-        xs.append(int(x))
+        ys.append(int(y1 + i * dy / step))
+        xs.append(int(x1 + i * dx / step))
+        i = i + 1
 
     points_density = np.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2) / len(xs)
 
-- 
2.43.0


From 49513e3f68703d73680ab4a6c5d409aef869a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 09/23] fix: Stokes of a demosaiced image follow every change
 of its data

---
 micropolarray/micropol_image.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 622a4d1..9747928 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -119,6 +119,7 @@ class MicropolImage(Image):
         self._flat_subtracted = False
         self._dark_subtracted = False
         self.demosaiced_images = None
+        self._demosaic_mode = "adjacent"
 
     def _import_image_parameters(self, image: MicropolImage):
         self.data = image.data.copy()
@@ -127,6 +128,7 @@ class MicropolImage(Image):
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
+        self._demosaic_mode = image._demosaic_mode
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
@@ -234,6 +236,8 @@ class MicropolImage(Image):
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
         if newdata is not None:
             self.data = newdata
+        if self._is_demosaiced:
+            self.demosaiced_images = demosaic(self.data, option=self._demosaic_mode)
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
     def demodulate(
@@ -390,7 +394,7 @@ class MicropolImage(Image):
         """
         self.data = self.data.astype(float) - dark.data
         self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes()
         self._dark_subtracted = True
         return self
 
@@ -413,7 +417,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes()
         self._flat_subtracted = True
         return self
 
@@ -817,6 +821,7 @@ class MicropolImage(Image):
 
         self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
         self._is_demosaiced = True
+        self._demosaic_mode = demosaic_mode
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
         return self
-- 
2.43.0


From 24cecf16b9b1cca672c1ea8702324589dc9490db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 10/23] fix: decode PolarCam binary chunks without losing
 trailing zero bytes

---
 micropolarray/processing/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..9b03d08 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,9 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From a8c4669cfab9113071488285a5f71c943dff2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 11/23] fix: a converted raw file only changes its extension

---
 micropolarray/processing/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 9b03d08..4b835ea 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -197,14 +197,14 @@ def convert_rawfile_to_fits(
     Raises:
         ValueError: raised if the file does not end with ".raw"
     """
-    if not ".raw" in filename:
+    if not filename.endswith(".raw"):
         raise ValueError("Can't convert: not a row file")
     with open(filename, mode="rb") as file:
         buffer = file.read()
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From f3c0cc8d0e792ef655a4c168f4d87f88f2e4a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 12/23] fix: pixels with a zero divisor or flat are defined
 instead of uninitialised

---
 micropolarray/image.py          | 10 ++++++++--
 micropolarray/micropol_image.py | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 2ece002..3c6a6c0 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -297,7 +297,13 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
+            divisor = second.data
         else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            divisor = second
+        newdata = np.divide(
+            self.data,
+            divisor,
+            out=np.zeros(self.data.shape, dtype=float),
+            where=divisor != 0,
+        )
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 9747928..455791e 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -412,6 +412,7 @@ class MicropolImage(Image):
         self.data = np.divide(
             self.data,
             normalized_flat,
+            out=self.data.astype(float),
             where=normalized_flat != 0.0,
         )
 
@@ -1075,11 +1076,21 @@ class MicropolImage(Image):
 
     def __truediv__(self, second) -> MicropolImage:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                out=np.zeros(self.data.shape, dtype=float),
+                where=second.data != 0.0,
+            )
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = np.divide(
+                self.data,
+                second,
+                out=np.zeros(self.data.shape, dtype=float),
+                where=second != 0.0,
+            )
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header.copy()
-- 
2.43.0


From f7c2657fe3c1d37e673886a651e7c155400fa5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 13/23] fix: fix_data clips also when one of the bounds is 0

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..c835433 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if min is None or max is None:
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From c774a2bc1717e51bb38c9e2838b813d058e2e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 14/23] fix: propagate the error on AoLP with both variances
 weighted

---
 micropolarray/processing/demodulation_errors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..eb22bb1 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,10 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
+    pB_squared = Q * Q + U * U
+
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * pB_squared * pB_squared
     )
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From 395c119a01588037b22f54250ecb3c166334d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 15/23] fix: demodulate takes the theoretical Stokes from the
 pixels it demodulates

---
 micropolarray/micropol_image.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 455791e..8751c9d 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -268,17 +268,18 @@ class MicropolImage(Image):
         info("Image correctly demodulated")
         return demodulated_image
 
-    def _get_theo_Stokes_vec_components(self) -> np.array:
+    def _get_theo_Stokes_vec_components(self, subimages=None) -> np.array:
         """
         Computes stokes vector components from four polarized images at four angles, angle_dic describes the coupling between
         poled_images_array[i] <--> angle_dic[i]
         Return:
             stokes vector, shape=(3, poled_images.shape[1], poled_images.shape[0])
         """
-        if self._is_demosaiced:
-            subimages = self.demosaiced_images
-        else:
-            subimages = self.single_pol_subimages
+        if subimages is None:
+            if self._is_demosaiced:
+                subimages = self.demosaiced_images
+            else:
+                subimages = self.single_pol_subimages
         I = 0.5 * np.sum(subimages, axis=0)
         Q = subimages[self.angle_dic[0]] - subimages[self.angle_dic[90]]
         U = subimages[self.angle_dic[45]] - subimages[self.angle_dic[-45]]
@@ -325,9 +326,10 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [demodulator.fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
@@ -378,7 +380,7 @@ class MicropolImage(Image):
 
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
-            theo_S = self.Stokes_vec
+            theo_S = self._get_theo_Stokes_vec_components(splitted_pols)
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From 48953e1b5f38a328c9fbbf6dc516dcc23d147ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 16/23] fix: refuse a calibration grid that does not divide the
 image

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index bbada28..900ba4d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -496,6 +496,10 @@ def calculate_demodulation_tensor(
     chunks_n_y, chunks_n_x = procs_grid
     chunk_size_y = int(height / chunks_n_y)
     chunk_size_x = int(width / chunks_n_x)
+    if (height % chunks_n_y) or (width % chunks_n_x):
+        raise ValueError(
+            f"cant decompose a {height}x{width} image into a {procs_grid[0]}x{procs_grid[1]} grid. Try changing the number of processors."
+        )
     if (chunk_size_x % 2) or (chunk_size_y % 2):
         raise ValueError(
             f"cant decompose into a {procs_grid[0]}x{procs_grid[1]} grid (odd side grid {chunk_size_y}x{chunk_size_x}). Try changing the number of processors."
-- 
2.43.0


From 7fc62400b87fef3eceb682396cd52d17d3f3de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 17/23] fix: a demodulator folder must hold every tensor
 element once counted

---
 micropolarray/processing/demodulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 900ba4d..c30973f 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -170,22 +170,22 @@ class Demodulator:
         )
         fit_found_flags = None
 
-        matches = 0
+        matches = set()
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                matches.add((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = hul[0].data
 
-        if matches != 12:
+        if len(matches) != 12:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From 2c88d4412d5f1bf51f371a52363d87d6aa0eddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 18/23] fix: mask_occulter masks Stokes with the same selection
 as the data

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 8751c9d..76a8e86 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -965,7 +965,7 @@ class MicropolImage(Image):
                 self.Stokes_vec[i],
                 (y, x),
                 [r, 2 * np.max(self.Stokes_vec[i].shape)],
-                include_superpixels=False,
+                include_superpixels=self._is_demosaiced,
                 fill=fill,
             )
 
-- 
2.43.0


From d8c76630ee1f9c9f6416ce165709cb37c112c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 19/23] fix: image arithmetic keeps the header of the left
 operand

---
 micropolarray/image.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 3c6a6c0..868921b 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -274,26 +274,31 @@ class Image:
 
         return fig, ax
 
+    def _with_data(self, newdata: np.ndarray) -> Image:
+        newimage = Image(newdata)
+        newimage.header = self.header.copy()
+        return newimage
+
     def __add__(self, second) -> Image:
         if type(self) is type(second):
             newdata = self.data + second.data
         else:
             newdata = self.data + second
-        return Image(newdata)
+        return self._with_data(newdata)
 
     def __sub__(self, second) -> Image:
         if type(self) is type(second):
             newdata = self.data - second.data
         else:
             newdata = self.data - second
-        return Image(newdata)
+        return self._with_data(newdata)
 
     def __mul__(self, second) -> Image:
         if type(self) is type(second):
             newdata = self.data * second.data
         else:
             newdata = self.data * second
-        return Image(newdata)
+        return self._with_data(newdata)
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
@@ -306,4 +311,4 @@ class Image:
             out=np.zeros(self.data.shape, dtype=float),
             where=divisor != 0,
         )
-        return Image(newdata)
+        return self._with_data(newdata)
-- 
2.43.0


From c6b35fc679c5a33e42be5351f23ce9b61d4c7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 20/23] fix: number arithmetic on a demosaiced MicropolImage
 keeps its demosaicing and does not share the angle map

---
 micropolarray/micropol_image.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 76a8e86..cf27526 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -1017,7 +1017,8 @@ class MicropolImage(Image):
             newimage._update_data_and_Stokes(newdata)
         else:
             newdata = self.data + second
-            newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
+            newimage = MicropolImage(self)
+            newimage._update_data_and_Stokes(newdata)
 
         newimage.header = self.header.copy()
         return newimage
@@ -1039,7 +1040,8 @@ class MicropolImage(Image):
             newimage._update_data_and_Stokes(newdata)
         else:
             newdata = self.data - second
-            newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
+            newimage = MicropolImage(self)
+            newimage._update_data_and_Stokes(newdata)
 
         newimage.header = self.header.copy()
         return newimage
@@ -1061,7 +1063,8 @@ class MicropolImage(Image):
             newimage._update_data_and_Stokes(newdata)
         else:
             newdata = self.data * second
-            newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
+            newimage = MicropolImage(self)
+            newimage._update_data_and_Stokes(newdata)
 
         newimage.header = self.header.copy()
         return newimage
@@ -1093,7 +1096,8 @@ class MicropolImage(Image):
                 out=np.zeros(self.data.shape, dtype=float),
                 where=second != 0.0,
             )
-            newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
+            newimage = MicropolImage(self)
+            newimage._update_data_and_Stokes(newdata)
 
         newimage.header = self.header.copy()
         return newimage
-- 
2.43.0


From 4b5cf0a373e081e84e560406921a530e290ef96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 21/23] fix: mask_occulter on demosaiced images demodulated by
 superpixel

Such images have half-size Stokes components, but were masked with full-size
coordinates in superpixel mode: the wrong region was masked, or odd sizes raised.
---
 micropolarray/micropol_image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index cf27526..a02512d 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -956,7 +956,9 @@ class MicropolImage(Image):
                 for data in self.demosaiced_images
             ]
 
-        if not self._is_demosaiced:
+        # a demosaiced image demodulated by superpixels has half-size Stokes
+        full_size_Stokes = self.Stokes_vec[0].shape == self.data.shape
+        if not full_size_Stokes:
             y = int(y / 2)
             x = int(x / 2)
             r = int(r / 2)
@@ -965,7 +967,7 @@ class MicropolImage(Image):
                 self.Stokes_vec[i],
                 (y, x),
                 [r, 2 * np.max(self.Stokes_vec[i].shape)],
-                include_superpixels=self._is_demosaiced,
+                include_superpixels=full_size_Stokes,
                 fill=fill,
             )
 
-- 
2.43.0


From de853e7697362f1a27e21693c01b87047a8d1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 22/23] fix: Chen-Wan-Liang calibration truncated the results
 of integer images

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..21b43d1 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -271,7 +271,7 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-    corrected_data = np.zeros_like(data)
+    corrected_data = np.zeros_like(data, dtype=float)
     ifov_corrected_data = np.zeros_like(data)
     correction_path = Path(calibration_matrices_dir)
     if not correction_path.is_absolute():  # suppose it is in cwd
-- 
2.43.0


From ddc02aaf5361c2785fba2c0321c3940587975e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 23/23] fix: demosaiced images were saved under names without
 the .fits extension

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index a02512d..c177508 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -787,7 +787,7 @@ class MicropolImage(Image):
             raise ValueError("Demosaiced images not yet calculated.")
         imageHdr = self.header.copy()
         filepath = Path(filename)
-        if not filepath.suffix:
+        if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
         filepath = Path(_make_abs_and_create_dir(filename))
         group_filename = str(filepath.joinpath(filepath.parent, filepath.stem))
-- 
2.43.0

