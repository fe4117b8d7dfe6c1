From 59a8f98af18d7dcdef0de0ac791c4a7e3a971b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 01/40] fix: creating an output directory that another caller
 just created is not an error

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/utils.py                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..767c8f4 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -310,7 +310,7 @@ def calculate_demodulation_tensor(
 
     output_path = Path(output_dir)
     if not output_path.is_dir():  # create the path if it doesnt exist
-        output_path.mkdir(parents=True)
+        output_path.mkdir(parents=True, exist_ok=True)
 
     # polarizations = array of polarizer orientations
     # filenames_list = list of filenames
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..fda9029 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -39,10 +39,10 @@ def _make_abs_and_create_dir(filename: str):
 
     if path.suffix:
         if not path.parent.exists():
-            path.parent.mkdir(parents=True)
+            path.parent.mkdir(parents=True, exist_ok=True)
     else:
         if not path.exists():
-            path.mkdir()
+            path.mkdir(exist_ok=True)
     return str(path)
 
 
-- 
2.43.0


From 0190b29be86250e1aaf340652aa78958f9ea162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 02/40] fix: fix_data ignored the requested range when a bound
 was 0

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index fda9029..b0b1e38 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if min is None or max is None:
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From 21b92e34f74f6507abc73965be63c71644a49acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 03/40] fix: packed PolarCam files with zero bytes at the end
 of a chunk could not be decoded

---
 micropolarray/processing/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..38e1f36 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,9 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]  # not a numpy array, which drops trailing null bytes
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From 2c578973e42663dd731782ce0010b87e97224906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 04/40] fix: converted raw file name is the raw name with a
 .fits extension, and only .raw files are converted

---
 micropolarray/processing/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 38e1f36..6080e12 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -197,14 +197,14 @@ def convert_rawfile_to_fits(
     Raises:
         ValueError: raised if the file does not end with ".raw"
     """
-    if not ".raw" in filename:
+    if Path(filename).suffix != ".raw":
         raise ValueError("Can't convert: not a row file")
     with open(filename, mode="rb") as file:
         buffer = file.read()
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From 307e637a8676262f2a964de795176710316709de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 05/40] fix: save_as_raw did not report a failed write of the
 last block

---
 micropolarray/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..5e60061 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -219,7 +219,9 @@ class Image:
         print(self.data.shape)
         if Path(filename).suffix != ".raw":
             raise ValueError("Filename must have .raw extension")
-        self.data.astype("int16").tofile(filename)
+        # ndarray.tofile() does not report an error on the last buffered block
+        with open(filename, mode="wb") as file:
+            file.write(self.data.astype("int16").tobytes())
 
     # ----------------------------------------------------------------
     # ------------------------------ SHOW ----------------------------
-- 
2.43.0


From eb394a849f3fa58c93901297a4af9c7298b61075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 06/40] fix: flat field calibration and spline demosaicing used
 the removed np.float

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/processing/demosaic.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 767c8f4..337410f 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From 65d4fe7ef6680bf10cbfc99779b50177644c49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 07/40] fix: division left uninitialized memory in the pixels
 where the divisor is 0

---
 micropolarray/image.py          | 7 ++++---
 micropolarray/micropol_image.py | 9 +++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 5e60061..af1cbaa 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -299,7 +299,8 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
-        else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            second = second.data
+        # without out the result would be uninitialized memory where second is 0
+        out = np.zeros_like(self.data, dtype=float)
+        newdata = np.divide(self.data, second, where=second != 0, out=out)
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..0f3a2e4 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -408,6 +408,7 @@ class MicropolImage(Image):
             self.data,
             normalized_flat,
             where=normalized_flat != 0.0,
+            out=np.array(self.data, dtype=float),  # keep data where flat is 0
         )
 
         # self.data = np.where(self.data >= 0, self.data, 0)
@@ -1068,12 +1069,16 @@ class MicropolImage(Image):
             return MicropolImage(newdata, angle_dic=self.angle_dic)
 
     def __truediv__(self, second) -> MicropolImage:
+        # without out the result would be uninitialized memory where second is 0
+        out = np.zeros_like(self.data, dtype=float)
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = np.divide(
+                self.data, second.data, where=second.data != 0.0, out=out
+            )
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = np.divide(self.data, second, where=second != 0.0, out=out)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header
-- 
2.43.0


From ec2f4855d2598e391ca0c103006926dbce41b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 08/40] fix: creating an image could overwrite the default
 angles set meanwhile by another thread

---
 micropolarray/micropol_image.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 0f3a2e4..522bcc2 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -81,15 +81,14 @@ class MicropolImage(Image):
     ):
         self._initialize_internal_variables()
         if angle_dic is None:
-            global DEFAULT_ANGLES_DIC
-            if DEFAULT_ANGLES_DIC is None:
+            angle_dic = DEFAULT_ANGLES_DIC
+            if angle_dic is None:
                 if MicropolImage.first_call:
                     warning(
                         f"Micropolarizer orientation dictionary defaults to {PolarCam().angle_dic}, set it via set_default_angles(camera)\n"
                     )
                 MicropolImage.first_call = False
-                DEFAULT_ANGLES_DIC = PolarCam().angle_dic
-            angle_dic = DEFAULT_ANGLES_DIC
+                angle_dic = PolarCam().angle_dic
         self.angle_dic = angle_dic
 
         if type(initializer) is list and len(initializer) > 1:
-- 
2.43.0


From 7c7737504a47e22ba00ede024fc4101f1342375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 09/40] fix: copies and results of an image shared their data,
 header and Stokes parameters with it

---
 micropolarray/micropol_image.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 522bcc2..5e4520c 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -89,7 +89,7 @@ class MicropolImage(Image):
                     )
                 MicropolImage.first_call = False
                 angle_dic = PolarCam().angle_dic
-        self.angle_dic = angle_dic
+        self.angle_dic = dict(angle_dic)
 
         if type(initializer) is list and len(initializer) > 1:
             self._num_of_images = len(initializer)
@@ -120,16 +120,17 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
-        self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.data = image.data.copy()
+        self.header = image.header.copy()
+        self.angle_dic = dict(image.angle_dic)
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
@@ -901,7 +902,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
@@ -1010,7 +1011,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1032,7 +1033,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1054,7 +1055,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1080,7 +1081,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0, out=out)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From 0dec534ca840b7e300bfad6126c4597f1e7d3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 10/40] fix: failed corrections left an image half changed, and
 demosaiced images outlived their pixels

---
 micropolarray/micropol_image.py | 52 +++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 5e4520c..d89be28 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -231,9 +231,17 @@ class MicropolImage(Image):
     # ----------------------------------update_dim------------------------------
 
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
+        subimages = None
+        if newdata is not None:
+            subimages = split_polarizations(newdata)
+        # can fail: nothing is changed until every new value is there
+        Stokes_vec = self._get_theo_Stokes_vec_components(subimages)
         if newdata is not None:
             self.data = newdata
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+            # they were calculated from the old data
+            self._is_demosaiced = False
+            self.demosaiced_images = None
+        self.Stokes_vec = Stokes_vec
 
     def demodulate(
         self,
@@ -263,14 +271,16 @@ class MicropolImage(Image):
         info("Image correctly demodulated")
         return demodulated_image
 
-    def _get_theo_Stokes_vec_components(self) -> np.array:
+    def _get_theo_Stokes_vec_components(self, subimages=None) -> np.array:
         """
         Computes stokes vector components from four polarized images at four angles, angle_dic describes the coupling between
         poled_images_array[i] <--> angle_dic[i]
         Return:
             stokes vector, shape=(3, poled_images.shape[1], poled_images.shape[0])
         """
-        if self._is_demosaiced:
+        if subimages is not None:
+            pass
+        elif self._is_demosaiced:
             subimages = self.demosaiced_images
         else:
             subimages = self.single_pol_subimages
@@ -387,9 +397,9 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
-        self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        newdata = self.data - dark.data
+        newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
+        self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
         return self
 
@@ -404,7 +414,7 @@ class MicropolImage(Image):
         """
         normalized_flat = flat.data / np.mean(flat.data)
 
-        self.data = np.divide(
+        newdata = np.divide(
             self.data,
             normalized_flat,
             where=normalized_flat != 0.0,
@@ -413,7 +423,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(newdata)
         self._flat_subtracted = True
         return self
 
@@ -815,9 +825,10 @@ class MicropolImage(Image):
             MicropolImage: demosaiced image
         """
 
-        self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
+        demosaiced_images = demosaic(self.data, option=demosaic_mode)
+        self.Stokes_vec = self._get_theo_Stokes_vec_components(demosaiced_images)
+        self.demosaiced_images = demosaiced_images
         self._is_demosaiced = True
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
         return self
 
@@ -885,7 +896,7 @@ class MicropolImage(Image):
             congridded_pol_images[subimage_i] = congrid(pol_subimage, new_subdims)
         newdata = merge_polarizations(congridded_pol_images)
         newimage = MicropolImage(self)
-        newimage.data = newdata
+        newimage._update_data_and_Stokes(newdata)
         newimage.Stokes_vec = [
             congrid(stokes_component, [newdim_y, newdim_x])
             for stokes_component in self.Stokes_vec
@@ -908,7 +919,7 @@ class MicropolImage(Image):
             image = image.rotate(angle)
             Stokes_vec[i] = np.asarray(image, dtype=float)
         newimage = MicropolImage(self)
-        newimage.data = data
+        newimage._update_data_and_Stokes(data)
         newimage.Stokes_vec = Stokes_vec
 
         return newimage
@@ -937,29 +948,34 @@ class MicropolImage(Image):
 
         r = r + overoccult
 
-        self.data = roi_from_polar(
+        newdata = roi_from_polar(
             self.data, (y, x), [r, 2 * np.max([self.height, self.width])], fill=fill
         )
+        demosaiced_images = self.demosaiced_images
         if self._is_demosaiced:
-            self.demosaiced_images = [
+            demosaiced_images = [
                 roi_from_polar(
                     data, (y, x), (r, 2 * np.max([self.height, self.width])), fill=fill
                 )
-                for data in self.demosaiced_images
+                for data in demosaiced_images
             ]
 
         if not self._is_demosaiced:
             y = int(y / 2)
             x = int(x / 2)
             r = int(r / 2)
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
-            self.Stokes_vec[i] = roi_from_polar(
-                self.Stokes_vec[i],
+            Stokes_vec[i] = roi_from_polar(
+                Stokes_vec[i],
                 (y, x),
-                [r, 2 * np.max(self.Stokes_vec[i].shape)],
+                [r, 2 * np.max(Stokes_vec[i].shape)],
                 include_superpixels=False,
                 fill=fill,
             )
+        self.data = newdata
+        self.demosaiced_images = demosaiced_images
+        self.Stokes_vec = Stokes_vec
 
     def shift(self, y: int, x: int, missing: float = 0) -> MicropolImage:
         """Shifts image by y, x pixels and fills with 0 the remaining space. Positive numbers for up/right shift and negative for down/left shift. Image is split into polarizations, each one is shifted, then they are merged again.
-- 
2.43.0


From 349e94b6646db51bbefc3a5e8db4607f0c1d1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 11/40] fix: subtracting a dark from unsigned integer data
 wrapped around instead of giving 0

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index d89be28..fe97ea0 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -397,7 +397,7 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        newdata = self.data - dark.data
+        newdata = np.subtract(self.data, dark.data, dtype=float)  # can be unsigned
         newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
         self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
-- 
2.43.0


From 066fd1b297d6f9bd4c08b04aabcbc25c05cd654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 12/40] fix: occulter mask was applied at half scale to full
 size Stokes parameters

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index fe97ea0..3f624c8 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -960,7 +960,7 @@ class MicropolImage(Image):
                 for data in demosaiced_images
             ]
 
-        if not self._is_demosaiced:
+        if np.shape(self.Stokes_vec[0]) != self.data.shape:
             y = int(y / 2)
             x = int(x / 2)
             r = int(r / 2)
-- 
2.43.0


From cca5fa99449baaf67e6dc7db10c5bd11c8aa3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 13/40] fix: demodulating with demosaicing failed without
 fit_found_flag file

---
 micropolarray/micropol_image.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 3f624c8..77587a8 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -330,9 +330,10 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [demodulator.fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
-- 
2.43.0


From abf59b59689d6f640cde18774b76817b324a72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 14/40] fix: Demodulator accepted a folder with missing
 matrices, and read its flags from the file after loading

---
 micropolarray/processing/demodulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 337410f..3f88fe7 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -170,22 +170,22 @@ class Demodulator:
         )
         fit_found_flags = None
 
-        matches = 0
+        matches = set()
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                matches.add((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
-                    fit_found_flags = hul[0].data
+                    fit_found_flags = np.array(hul[0].data)  # not mapped to the file
 
-        if matches != 12:
+        if len(matches) != self.n_malus_params * self.n_pixels_in_superpix:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From 3c756bfebf37f22f14e532a2f68fc1cc838830fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 15/40] fix: running out of memory or an interruption during
 calibration was recorded as a failed fit

---
 micropolarray/processing/demodulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 3f88fe7..b1e86da 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -919,7 +919,9 @@ def compute_demodulation_by_chunk(
                             / dof
                         )
 
-                    except:  # catches all exceptions
+                    except MemoryError:  # not a failure of the fit
+                        raise
+                    except Exception:  # catches all fit exceptions
                         fit_success = False
                         break
 
-- 
2.43.0


From 0c565bb03a62284ea4d2168cc571fae6ac045893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 16/40] fix: a failed calibration ended the program with a
 success status

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index b1e86da..44b79d0 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -619,7 +619,7 @@ def calculate_demodulation_tensor(
             ending_time = time.perf_counter()
 
             info(f"Elapsed : {(ending_time - starting_time)/60:3.2f} mins")
-            sys.exit()
+            raise
 
     else:
         arglist = [arg for arg in args]
-- 
2.43.0


From c5e37f3ecd7d383c7753155e588353ae4cf45b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 17/40] fix: calibration left out the pixels that did not fit
 in the process grid

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 44b79d0..c715909 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -500,6 +500,10 @@ def calculate_demodulation_tensor(
         raise ValueError(
             f"cant decompose into a {procs_grid[0]}x{procs_grid[1]} grid (odd side grid {chunk_size_y}x{chunk_size_x}). Try changing the number of processors."
         )
+    if (height % chunks_n_y) or (width % chunks_n_x):
+        raise ValueError(
+            f"cant decompose {height}x{width} pixels into a {procs_grid[0]}x{procs_grid[1]} grid, last rows or columns would be left out. Try changing the number of processors."
+        )
     splitted_data = np.zeros(
         shape=(
             chunks_n_y * chunks_n_x,
-- 
2.43.0


From 9ac15660e341a2ebc4bbc0777970baa79523cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 18/40] fix: an interrupted calibration left a loadable mix of
 old and new matrices

---
 micropolarray/processing/demodulation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index c715909..1571b61 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -723,11 +723,12 @@ def calculate_demodulation_tensor(
     #    # p.mkdir(parents=True, exist_ok=True)
     #    os.makedirs(output_dir)
 
+    # The tensor is removed first and written last: if this is interrupted the
+    # folder is incomplete and can't be loaded, instead of mixing old and new data.
     output_str = str(output_path)
     for i in range(N_MALUS_PARAMS):
         for j in range(N_PIXELS_IN_SUPERPIX):
-            hdu = fits.PrimaryHDU(data=m_ij[i, j])
-            hdu.writeto(output_str + os.path.sep + f"M{i}{j}.fits", overwrite=True)
+            Path(output_str + os.path.sep + f"M{i}{j}.fits").unlink(missing_ok=True)
 
     Path(output_str + os.path.sep + "covariance_tensor").mkdir(
         parents=True, exist_ok=True
@@ -757,6 +758,11 @@ def calculate_demodulation_tensor(
         hdu = fits.PrimaryHDU(data=parameter_data)
         hdu.writeto(output_str + os.path.sep + parameter_name + ".fits", overwrite=True)
 
+    for i in range(N_MALUS_PARAMS):
+        for j in range(N_PIXELS_IN_SUPERPIX):
+            hdu = fits.PrimaryHDU(data=m_ij[i, j])
+            hdu.writeto(output_str + os.path.sep + f"M{i}{j}.fits", overwrite=True)
+
     info("Demodulation matrices and fit data successfully saved!")
 
     return
-- 
2.43.0


From 39838b6e04f2b2347156b06a9873fee8a0be04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 19/40] fix: a write error on the last block of a saved fits
 file was not reported

---
 micropolarray/image.py                            |  4 ++--
 micropolarray/micropol_image.py                   |  9 +++++----
 .../processing/chen_wan_liang_calibration.py      |  6 +++---
 micropolarray/processing/convert.py               | 10 ++++++----
 micropolarray/processing/demodulation.py          | 15 ++++++++++-----
 micropolarray/utils.py                            | 10 ++++++++++
 6 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index af1cbaa..02796e4 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -12,7 +12,7 @@ from astropy.io import fits
 
 from micropolarray.processing.rebin import standard_rebin
 from micropolarray.processing.shift import shift
-from micropolarray.utils import _make_abs_and_create_dir, fix_data
+from micropolarray.utils import _make_abs_and_create_dir, _write_fits, fix_data
 
 
 class Image:
@@ -204,7 +204,7 @@ class Image:
             do_not_scale_image_data=True,
             uint=False,
         )
-        hdu.writeto(filepath, overwrite=True)
+        _write_fits(hdu, filepath)
         info(f'Image successfully saved to "{filepath}".')
 
     def save_as_raw(self, filename: str):
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 77587a8..e07cc4e 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -27,6 +27,7 @@ from micropolarray.processing.rebin import micropolarray_rebin
 from micropolarray.processing.shift import shift_micropol
 from micropolarray.utils import (
     _make_abs_and_create_dir,
+    _write_fits,
     fix_data,
     mean_minus_std,
     mean_plus_std,
@@ -693,7 +694,7 @@ class MicropolImage(Image):
                     str(group_filepath) + "POL" + str(single_pol.ID) + ".fits"
                 )
             )
-            hdu.writeto(filename_with_ID, overwrite=True)
+            _write_fits(hdu, filename_with_ID)
         info(f'All params successfully saved to "{filename}"')
 
     def save_param_as_fits(
@@ -740,7 +741,7 @@ class MicropolImage(Image):
         #    filename.split(".")[-2] + "_" + polparam.ID + ".fits"
         # )
 
-        hdu.writeto(filename_with_ID, overwrite=True)
+        _write_fits(hdu, filename_with_ID)
         info(f'"{filename_with_ID}" {polparam.ID} successfully saved')
 
     def save_all_pol_params_as_fits(self, filename: str) -> None:
@@ -772,7 +773,7 @@ class MicropolImage(Image):
                 uint=False,
             )
             filename_with_ID = group_filename + "_" + param.ID + ".fits"
-            hdu.writeto(filename_with_ID, overwrite=True)
+            _write_fits(hdu, filename_with_ID)
         info(f'All params successfully saved to "{group_filename}"')
 
     def save_demosaiced_images_as_fits(
@@ -809,7 +810,7 @@ class MicropolImage(Image):
                 uint=False,
             )
             new_filename = group_filename + "_POL" + str(POL_ID) + ".fits"
-            hdu.writeto(new_filename, overwrite=True)
+            _write_fits(hdu, new_filename)
         info(f'Demosaiced images successfully saved to "{group_filename}_POLX.fits"')
 
     # ----------------------------------------------------------------
diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..9d9fad0 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -9,7 +9,7 @@ from tqdm import tqdm
 
 from micropolarray.cameras import PolarCam
 from micropolarray.processing.nrgf import roi_from_polar
-from micropolarray.utils import _make_abs_and_create_dir
+from micropolarray.utils import _make_abs_and_create_dir, _write_fits
 
 
 def calculate_chen_wan_lian_calibration(
@@ -214,9 +214,9 @@ def calculate_chen_wan_lian_calibration(
     for i in range(4):
         for j in range(4):
             hdu = fits.PrimaryHDU(data=C_ij[i, j])
-            hdu.writeto(output_dir + f"/C{i}{j}.fits", overwrite=True)
+            _write_fits(hdu, output_dir + f"/C{i}{j}.fits")
     hdu = fits.PrimaryHDU(data=d_ij)
-    hdu.writeto(output_dir + "/d_ij.fits", overwrite=True)
+    _write_fits(hdu, output_dir + "/d_ij.fits")
 
 
 @njit
diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 6080e12..fe627c9 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -10,6 +10,8 @@ import pytz
 import tqdm
 from astropy.io import fits
 
+from micropolarray.utils import _write_fits
+
 
 def three_bytes_to_two_ints(filecontent):
     """Needed for parallelization, this will be run by each thread for a slice of the original array.
@@ -90,7 +92,7 @@ def convert_set(filenames, new_filename, height, width):
         str(date_and_time),
         "Datetime conversion from bin to fits file (Dome C timezone).",
     )
-    hdu.writeto(abs_new_filename, overwrite=True)
+    _write_fits(hdu, abs_new_filename)
 
 
 def average_rawfiles_to_fits(
@@ -137,7 +139,7 @@ def average_rawfiles_to_fits(
         str(date_and_time),
         "Datetime conversion from bin to fits file (Dome C timezone).",
     )
-    hdu.writeto(abs_new_filename, overwrite=True)
+    _write_fits(hdu, abs_new_filename)
     """
 
 
@@ -180,7 +182,7 @@ def merge_rawfiles_to_fits(
         str(date_and_time),
         "Datetime conversion from bin to fits file (Dome C timezone).",
     )
-    hdu.writeto(abs_new_filename, overwrite=True)
+    _write_fits(hdu, abs_new_filename)
 
 
 def convert_rawfile_to_fits(
@@ -205,7 +207,7 @@ def convert_rawfile_to_fits(
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
     new_filename = os.path.splitext(filename)[0] + ".fits"
-    HDU.writeto(new_filename, overwrite=True)
+    _write_fits(HDU, new_filename)
     info(f'Image successfully saved to "{new_filename}".')
 
     if remove_old:
diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 1571b61..09299dc 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -22,7 +22,12 @@ from micropolarray.processing.rebin import (
     standard_rebin,
     trim_to_match_binning,
 )
-from micropolarray.utils import mean_plus_std, merge_polarizations, normalize2pi
+from micropolarray.utils import (
+    _write_fits,
+    mean_plus_std,
+    merge_polarizations,
+    normalize2pi,
+)
 
 # Shape of the demodulation matrix
 N_PIXELS_IN_SUPERPIX = 4
@@ -736,13 +741,13 @@ def calculate_demodulation_tensor(
     for i in range(N_MALUS_PARAMS):
         for j in range(N_MALUS_PARAMS):
             hdu = fits.PrimaryHDU(data=covariance_tensor[i, j])
-            hdu.writeto(
+            _write_fits(
+                hdu,
                 output_str
                 + os.path.sep
                 + f"covariance_tensor"
                 + os.path.sep
                 + f"C{i}{j}.fits",
-                overwrite=True,
             )
 
     for parameter_data, parameter_name in zip(
@@ -756,12 +761,12 @@ def calculate_demodulation_tensor(
         ],
     ):
         hdu = fits.PrimaryHDU(data=parameter_data)
-        hdu.writeto(output_str + os.path.sep + parameter_name + ".fits", overwrite=True)
+        _write_fits(hdu, output_str + os.path.sep + parameter_name + ".fits")
 
     for i in range(N_MALUS_PARAMS):
         for j in range(N_PIXELS_IN_SUPERPIX):
             hdu = fits.PrimaryHDU(data=m_ij[i, j])
-            hdu.writeto(output_str + os.path.sep + f"M{i}{j}.fits", overwrite=True)
+            _write_fits(hdu, output_str + os.path.sep + f"M{i}{j}.fits")
 
     info("Demodulation matrices and fit data successfully saved!")
 
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index b0b1e38..e733fd0 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import time
@@ -46,6 +47,15 @@ def _make_abs_and_create_dir(filename: str):
     return str(path)
 
 
+def _write_fits(hdu, filename: str):
+    """Same as hdu.writeto(filename, overwrite=True), which writes the data with ndarray.tofile() and does not report an error on its last buffered block."""
+    buffer = io.BytesIO()
+    hdu.writeto(buffer)
+    path = Path(filename)
+    path.unlink(missing_ok=True)
+    path.write_bytes(buffer.getvalue())
+
+
 def sigma_DN(pix_DN):
     gain = 6.93
     sigma_DN = np.sqrt(gain * pix_DN) / gain
-- 
2.43.0


From 3b2d85e68845adbe190ffcda249f198b4dc9f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 20/40] fix: folders with duplicated matrices were accepted as
 a complete demodulation or covariance tensor

---
 micropolarray/processing/demodulation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 09299dc..490ee01 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -66,19 +66,21 @@ class Demodulator:
             dtype=float,
         )
 
-        matches = 0
+        matches = []
         for filename in covariance_tensor_fnames:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                matches.append((i, j))
                 with fits.open(filename) as hul:
                     Cij[i, j] = hul[0].data
 
-        if matches != (self.n_malus_params * self.n_malus_params):
+        # each one exactly once
+        matrices_n = self.n_malus_params * self.n_malus_params
+        if len(matches) != matrices_n or len(set(matches)) != matrices_n:
             raise ValueError("Incomplete covariance tensor in the selected folder. ")
 
         return Cij
@@ -175,7 +177,7 @@ class Demodulator:
         )
         fit_found_flags = None
 
-        matches = set()
+        matches = []
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
@@ -183,14 +185,16 @@ class Demodulator:
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
-                matches.add((i, j))
+                matches.append((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = np.array(hul[0].data)  # not mapped to the file
 
-        if len(matches) != self.n_malus_params * self.n_pixels_in_superpix:
+        # each one exactly once
+        matrices_n = self.n_malus_params * self.n_pixels_in_superpix
+        if len(matches) != matrices_n or len(set(matches)) != matrices_n:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From c3cd8082edb7f375a0e340dbfe9bf5333975e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 21/40] fix: calibration fitted the superpixel at the center of
 the occulter

---
 micropolarray/processing/demodulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 490ee01..ef5a1e9 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -361,8 +361,9 @@ def calculate_demodulation_tensor(
         binned_occulter = [int(val / binning) for val in occulter]
         occulter_y, occulter_x, occulter_r = binned_occulter
 
+        # negative minimum radius, or the superpixel at the center would be left out
         occulter_flag = roi_from_polar(
-            occulter_flag, [occulter_y, occulter_x], [0, occulter_r]
+            occulter_flag, [occulter_y, occulter_x], [-2, occulter_r]
         )
         for super_y in range(0, occulter_flag.shape[0], 2):
             for super_x in range(0, occulter_flag.shape[1], 2):
-- 
2.43.0


From f3ba887deefc2a5d74432e9e5843962e6c6fbe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 22/40] fix: demodulating an image twice kept the first
 demodulation where the fit was not found

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index e07cc4e..48dfad3 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -385,7 +385,7 @@ class MicropolImage(Image):
 
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
-            theo_S = self.Stokes_vec
+            theo_S = self._get_theo_Stokes_vec_components(splitted_pols)
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From 8151898c91a16b0b4a0c32babaf8f132e1d126f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 23/40] fix: calibration with a dark fitted invalid (nan)
 pixels as if they had no signal

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index ef5a1e9..0aa20ad 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -413,8 +413,8 @@ def calculate_demodulation_tensor(
             if dark_filename is not None:
                 all_data_arr[idx] -= dark
                 all_data_arr[idx] = np.where(
-                    all_data_arr[idx] >= 0, all_data_arr[idx], 0.0
-                )
+                    all_data_arr[idx] < 0, 0.0, all_data_arr[idx]
+                )  # keep nans, those pixels can't be fitted
             if flat_filename is not None:
                 np.divide(
                     all_data_arr[idx],
-- 
2.43.0


From 738ab23deb9eca184e4a27b425809b0eeb1bf666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 24/40] fix: keep each image of a series of normalizations with
 its file when files are sorted

---
 micropolarray/processing/demodulation.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 0aa20ad..e2f6007 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -332,9 +332,19 @@ def calculate_demodulation_tensor(
             f"Each one among (0, 45, 90, -45 / 135) polarizations must be included in the polarizer orientation array. Provided {polarizer_orientations}"
         )  # for calculating normalizing_S
 
-    polarizer_orientations, filenames_list = (
-        list(t) for t in zip(*sorted(zip(polarizer_orientations, filenames_list)))
+    files_n = len(filenames_list)
+    polarizer_orientations, filenames_list, file_indexes = (
+        list(t)
+        for t in zip(
+            *sorted(zip(polarizer_orientations, filenames_list, range(files_n)))
+        )
     )
+    if (
+        type(normalizing_S) is np.ndarray
+        and len(normalizing_S.shape) == 3
+        and normalizing_S.shape[0] == files_n
+    ):  # series of images, one for each file
+        normalizing_S = normalizing_S[file_indexes]
     micropol_phases_previsions = np.array(micropol_phases_previsions)
     rad_micropol_phases_previsions = np.deg2rad(micropol_phases_previsions)
 
-- 
2.43.0


From d05ca55c5306ab73ce696dde1b2d8b027d7f8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 25/40] fix: turn the fit flags of a demodulator with its
 matrices, all at once

---
 micropolarray/processing/demodulation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index e2f6007..a5a8dee 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -265,14 +265,18 @@ class Demodulator:
 
     def rot90(self, k=1):
         # NB: rotation could switch micropol positions inside superpixel, but for demo matrix all px in superpix are equal
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        mij = np.rot90(self.mij, k=k, axes=(2, 3)).copy()
+        fit_found_flags = self.fit_found_flags
+        if fit_found_flags is not None:
+            fit_found_flags = np.rot90(fit_found_flags, k=k).copy()
+        self.mij, self.fit_found_flags = mij, fit_found_flags
 
     def flip(self, axis):
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.flip(self.mij[i, j], axis=axis)
+        mij = np.array([[np.flip(m, axis=axis) for m in m_i] for m_i in self.mij])
+        fit_found_flags = self.fit_found_flags
+        if fit_found_flags is not None:
+            fit_found_flags = np.flip(fit_found_flags, axis=axis).copy()
+        self.mij, self.fit_found_flags = mij, fit_found_flags
 
 
 def calculate_demodulation_tensor(
-- 
2.43.0


From fe8a8f07a9b60f3ecf65c7b0585ea5a762c3e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 26/40] fix: refuse to combine files with images of different
 shapes

---
 micropolarray/image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 02796e4..bfe7a3c 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -63,6 +63,11 @@ class Image:
                         else:
                             info(f"Summing {filenames_len} images...")
                         print_info_message = False
+                    if hul[0].data.shape != combined_data.shape:
+                        # some shapes could be summed by numpy
+                        raise ValueError(
+                            f"Can't combine images of different shapes {combined_data.shape} and {hul[0].data.shape}."
+                        )
                     combined_data = combined_data + (
                         hul[0].data / (1 + int(averageimages) * (filenames_len - 1))
                     )  # divide by 1 if summing, either n if averaging
-- 
2.43.0


From 6e61ca11bdc386b0c5540906c22fe6f541851b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 27/40] fix: reduced chi square of the calibration divided by
 the uncertainties instead of their squares, and by a wrong number of degrees
 of freedom

---
 micropolarray/processing/demodulation.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index a5a8dee..1c4704f 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -806,13 +806,12 @@ def compute_demodulation_by_chunk(
     N_MALUS_PARAMS = 3
     N_PIXELS_IN_SUPERPIX = 4
 
-    dof = len(polarizer_orientations) - 2
+    # all of the parameters are fitted, within the default or the given boundaries
+    dof = len(polarizer_orientations) - N_MALUS_PARAMS
     if tk_boundary is None:
         tk_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
     if eff_boundary is None:
         eff_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
 
     # Preemptly compute the theoretical demo matrix to save time
     theo_modulation_matrix = np.array(
@@ -949,8 +948,7 @@ def compute_demodulation_by_chunk(
                             - normalized_superpix_arr[:, pixel_num]
                         )
                         chisq[pixel_num] = (
-                            np.sum((residuals * residuals) / sigma_pix[:, pixel_num])
-                            / dof
+                            np.sum((residuals / sigma_pix[:, pixel_num]) ** 2) / dof
                         )
 
                     except MemoryError:  # not a failure of the fit
-- 
2.43.0


From 57774df74ccd837b0f0fa83600453714fe6c9ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 28/40] fix: Chen-Wan-Liang calibration wrapped around for
 unsigned images, and refused a dark for integer ones

---
 micropolarray/processing/chen_wan_liang_calibration.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 9d9fad0..87b2066 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -93,7 +93,8 @@ def calculate_chen_wan_lian_calibration(
         with fits.open(flat_filename) as file:
             flat = file[0].data
     if flat_filename and dark_filename:
-        flat -= dark  # correct flat too
+        # correct flat too, data can be unsigned
+        flat = np.subtract(flat, dark, dtype=float)
         flat = np.where(flat > 0, flat, 1.0)
         if occulter:
             flat = np.where(occulter_flag, 1.0, flat)
@@ -106,7 +107,9 @@ def calculate_chen_wan_lian_calibration(
         with fits.open(filename) as file:
             all_data_arr[idx] = file[0].data
             if dark_filename is not None:
-                all_data_arr[idx] -= dark
+                all_data_arr[idx] = np.subtract(
+                    all_data_arr[idx], dark, dtype=float
+                )
                 all_data_arr[idx] = np.where(
                     all_data_arr[idx] >= 0, all_data_arr[idx], 0.0
                 )
@@ -117,7 +120,7 @@ def calculate_chen_wan_lian_calibration(
                     all_data_arr[idx],
                 )
 
-    all_data_arr = np.array(all_data_arr)
+    all_data_arr = np.array(all_data_arr, dtype=float)
     _, height, width = all_data_arr.shape
 
     if DEBUG:
-- 
2.43.0


From cd311e5153aaa8716c2b890ee173de546848159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 29/40] fix: Chen-Wan-Liang calibration failed without a flat
 field

---
 micropolarray/processing/chen_wan_liang_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 87b2066..72747b3 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -99,8 +99,9 @@ def calculate_chen_wan_lian_calibration(
         if occulter:
             flat = np.where(occulter_flag, 1.0, flat)
 
-    flat_max = np.max(flat, axis=(0, 1))
-    normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
+    if flat_filename:
+        flat_max = np.max(flat, axis=(0, 1))
+        normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
 
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
-- 
2.43.0


From 9645c70d2f200bec27bded82ed8f64b19886f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 30/40] fix: Chen-Wan-Liang correction truncated the result for
 integer images

---
 micropolarray/processing/chen_wan_liang_calibration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 72747b3..e119762 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -275,8 +275,7 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-    corrected_data = np.zeros_like(data)
-    ifov_corrected_data = np.zeros_like(data)
+    corrected_data = np.zeros(shape=(height, width))
     correction_path = Path(calibration_matrices_dir)
     if not correction_path.is_absolute():  # suppose it is in cwd
         correction_path = correction_path.joinpath(
-- 
2.43.0


From 8d27ef0e24fb4b337cf633493b8f3151c10cee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 31/40] fix: an interrupted Chen-Wan-Liang calibration left a
 usable mix of old and new matrices

---
 micropolarray/processing/chen_wan_liang_calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index e119762..5022429 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -215,6 +215,9 @@ def calculate_chen_wan_lian_calibration(
     d_ij = np.mean(d_ij, axis=0)
 
     output_dir = _make_abs_and_create_dir(output_dir)
+    # the offsets are written last, an incomplete set of new matrices must not
+    # be used with those of an older calibration
+    Path(output_dir + "/d_ij.fits").unlink(missing_ok=True)
     for i in range(4):
         for j in range(4):
             hdu = fits.PrimaryHDU(data=C_ij[i, j])
-- 
2.43.0


From 2c660319f8f1a8dbd656c4f95d9ea2c49266ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 32/40] fix: Chen-Wan-Liang calibration with an occulter
 failed, it used a position that the camera does not have

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 5022429..30a8069 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -66,7 +66,7 @@ def calculate_chen_wan_lian_calibration(
         # Mean values from coronal observations 2022_12_03
         # (campagna_2022/mean_occulter_pos.py)
 
-        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_nov2022
+        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_last
         occulter_r += 10  # Better to overoccult
 
         occulter_flag = roi_from_polar(
-- 
2.43.0


From f62adfc25ed4baeb2847e13e0259da2cc83a4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 33/40] fix: Chen-Wan-Liang calibration did not exclude the
 superpixel at the center of the occulter

---
 micropolarray/processing/chen_wan_liang_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 30a8069..7c04eb5 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -69,8 +69,9 @@ def calculate_chen_wan_lian_calibration(
         occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_last
         occulter_r += 10  # Better to overoccult
 
+        # negative minimum radius, or the superpixel at the center would be left out
         occulter_flag = roi_from_polar(
-            occulter_flag, [occulter_y, occulter_x], [0, occulter_r]
+            occulter_flag, [occulter_y, occulter_x], [-2, occulter_r]
         )
         for super_y in range(0, occulter_flag.shape[0], 2):
             for super_x in range(0, occulter_flag.shape[1], 2):
-- 
2.43.0


From f79c0576b02c6487cec111bab814843c1b7c1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 34/40] fix: a circular selection without radii (the default)
 failed

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From 463fda12430e2fe1e8e1ec96384f58c842615913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 35/40] fix: the error on the angle of polarization was not a
 number where Q is zero

---
 micropolarray/processing/demodulation_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..adc4199 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,8 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * (Q * Q + U * U) * (Q * Q + U * U)
     )
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From 775a970e4ca5ceb755984dcaa2bbfc6d7bf7519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 36/40] fix: normalizing a list of angles changed the list that
 was given

---
 micropolarray/polarization_functions.py | 1 +
 micropolarray/utils.py                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/micropolarray/polarization_functions.py b/micropolarray/polarization_functions.py
index 7bfcab4..586ce7d 100644
--- a/micropolarray/polarization_functions.py
+++ b/micropolarray/polarization_functions.py
@@ -78,6 +78,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index e733fd0..2920d5d 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -140,6 +140,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
-- 
2.43.0


From 33436d8e0447e8ddb4c8c4880848e0d0dd98b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 37/40] fix: a linear region went one pixel beyond its end, and
 failed where that left the image

---
 micropolarray/processing/linear_roi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..c63d008 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -86,6 +86,7 @@ def linear_roi(data: np.ndarray, start: list, end: list) -> list:
         list: 1d array of y coordinates, 1d array of x coordinates, values of data calculated at rois
     """
     ys, xs, density = DDA(start, end)
+    ys, xs = ys[:-1], xs[:-1]  # DDA goes one step beyond the end
     # print(f"{xs, ys = }")
     # print(f"{start, end = }")
 
-- 
2.43.0


From 93e5c7e96b881c66d67710b2a9b5e09c3b7d20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 38/40] fix: a linear region that ends where it starts is that
 pixel, not an error

---
 micropolarray/processing/linear_roi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index c63d008..b6d2c24 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -121,8 +121,9 @@ def DDA(start: list, end: list) -> np.ndarray:
         step = np.abs(dx)
     else:
         step = np.abs(dy)
-    dx = dx / step
-    dy = dy / step
+    if step > 0:  # else start and end are the same pixel
+        dx = dx / step
+        dy = dy / step
     x = x1
     y = y1
     xs = [int(x)]
-- 
2.43.0


From 5fb9791831f10c3a98920f669237137202718c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:33 +0000
Subject: [PATCH 39/40] fix: finding hot pixels always failed, it called a
 method that does not exist

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From 6a1d3343ba33b97fa11954e96d3b6dbb5c77cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:18 +0000
Subject: [PATCH 40/40] fix: the Hough search failed for images of short
 integers, their scaling overflowed

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index ecf247d..4b6aa77 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -190,7 +190,7 @@ def find_occulter_hough(
         maxr = np.max(data.shape)
     minDist = np.max(data.shape)  # minimum distance between circles
 
-    data = 255 * data / np.max(data)
+    data = 255.0 * data / np.max(data)  # 255 * data overflows for short integers
     blurred = cv2.medianBlur(data.astype("uint8"), 5)
     accumulator = 10
     circles = cv2.HoughCircles(
-- 
2.43.0

