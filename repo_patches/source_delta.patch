From a78c6fdcc82a6babdb1b3c85ba9d10f7291a00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 01/30] fix: detect truncated data when skipping over it in
 seekable files

---
 lib/image.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index 6fb0ac3..5a231e9 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -18,8 +18,13 @@ RDError resdet_fskip(FILE* f, uint64_t offset, void* buf) {
 		if(fread(buf,1,offset,f) != offset)
 			return RDEINVAL;
 	}
-	else if(fseek(f,offset,SEEK_CUR) < 0)
-		return -errno;
+	else if(offset) {
+		// seeking past the end of a file succeeds, so read the last byte to verify that it exists
+		if(fseek(f,offset-1,SEEK_CUR) < 0)
+			return -errno;
+		if(fgetc(f) == EOF)
+			return RDEINVAL;
+	}
 	return RDEOK;
 }
 
-- 
2.43.0


From 1d82f804d5bf33f3bd3e5c61b6f72cf8880edf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 02/30] fix: seeking by zero frames in a PFM file loses the
 frame header already read

---
 lib/image/pfm.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..9d0d880 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -197,8 +197,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From 8e80cfbffb5fa516a341624630ce43db4ac038c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 03/30] fix: seeking in a PFM sequence mixing grayscale and
 color frames

---
 lib/image/pfm.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9d0d880..4e8b8a9 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,13 +171,10 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
-
+	// frames of a sequence may vary in format, so allow for the largest
 	float* buf = NULL;
-	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
-	if(!seekable && !(buf = malloc(imgsize*sizeof(float)))) {
+	bool seekable = width*height*3*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
+	if(!seekable && !(buf = malloc(width*height*3*sizeof(float)))) {
 		*error = RDENOMEM;
 		return false;
 	}
@@ -187,6 +184,10 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
+		size_t imgsize = width*height;
+		if(ctx->format == 'F')
+			imgsize *= 3;
+
 		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
 			ret = false;
 			break;
-- 
2.43.0


From 3e3a21d52299eea7a992f0e37feed800ec9a1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 04/30] fix: alpha plane of 444alpha Y4M frames is not skipped

---
 lib/image/y4m.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..b576512 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -90,10 +90,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From e18171f4e5962c96476fec21d0bceea8bd867c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 05/30] fix: chroma plane size of 4:1:1 Y4M frames

---
 lib/image/y4m.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index b576512..fd2c85e 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,8 +86,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
-- 
2.43.0


From f880d20531943c3764dc6594b3ea61b1186b834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 06/30] fix: PGM reader accepts files which are not raw PGM

---
 lib/image/pgm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..fa4ef8d 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -51,7 +51,8 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	}
 
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fgetc(ctx->f) != 'P' || fgetc(ctx->f) != '5' ||
+	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-- 
2.43.0


From 3b580448e587f44728b4e27c526ba43eb7291014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 07/30] fix: PGM reader accepts a maximum value of zero or one
 wrapped to 16 bits

---
 lib/image/pgm.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index fa4ef8d..f628fa7 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -5,13 +5,12 @@
 
 #include "image.h"
 
-#include <inttypes.h>
 #include <ctype.h>
 
 struct pgm_context {
 	FILE* f;
 	bool eof;
-	uint16_t depth;
+	unsigned int depth;
 };
 
 static void pgm_reader_close(void* reader_ctx) {
@@ -54,9 +53,9 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   fgetc(ctx->f) != 'P' || fgetc(ctx->f) != '5' ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %u",width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-	   ctx->depth > 255
+	   !ctx->depth || ctx->depth > 255
 	) {
 		*error = RDEINVAL;
 		goto error;
-- 
2.43.0


From 1e1bb9a849beafa9d8da56690c9495bd86ad767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 08/30] fix: dangling JPEG error handlers when reading a
 damaged image

---
 lib/image/libjpeg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..0c431b3 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -18,6 +18,7 @@ struct libjpeg_context {
 	FILE* f;
 	bool eof;
 	struct jpeg_decompress_struct cinfo;
+	struct jpeg_error_mgr jerr;
 };
 
 static void libjpeg_reader_close(void* reader_ctx) {
@@ -47,11 +48,12 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->jerr = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->jerr;
 
 	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
 		*error = RDEINVAL;
-- 
2.43.0


From af02ca84cf2690eb5ba2598d5bb88632b6ffeac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 09/30] fix: reading of interlaced PNG images

---
 lib/image/libpng.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..08788e1 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -16,6 +16,7 @@ static void pngerr_warning_fn(png_structp png_ptr, png_const_charp warning_msg)
 struct libpng_context {
 	FILE* f;
 	bool eof;
+	int passes;
 	png_structp png_ptr;
 	png_infop info_ptr;
 };
@@ -94,6 +95,8 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	ctx->passes = png_set_interlace_handling(ctx->png_ptr);
+
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
@@ -122,9 +125,7 @@ static bool libpng_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		goto end;
 	}
 
-	int passes = png_set_interlace_handling(ctx->png_ptr);
-
-	for(int i = 0; i < passes; i++) {
+	for(int i = 0; i < ctx->passes; i++) {
 		unsigned char* it = imagec;
 		for(size_t y = 0; y < height; y++, it += width * channels)
 			png_read_row(ctx->png_ptr,it,NULL);
-- 
2.43.0


From 8a938912249b5f9e180b3f36c38c597ec1176df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 10/30] fix: leak when creation of a KISS FFT plan fails

---
 lib/transform/kiss_fft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..419d1fa 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -85,10 +85,10 @@ void resdet_free_plan(resdet_plan* p) {
 	if(p) {
 		free(p->cfg[0]);
 		free(p->shift[0]);
-		if(p->width != p->height) {
+		if(p->cfg[1] != p->cfg[0])
 			free(p->cfg[1]);
+		if(p->shift[1] != p->shift[0])
 			free(p->shift[1]);
-		}
 		free(p->mirror);
 		free(p->F);
 		free(p);
-- 
2.43.0


From 4f97a6db8f39229fdb55004eeba2937f130dce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 11/30] fix: uninitialized image data when MagickWand fails to
 provide a frame

---
 lib/image/magickwand.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..72cebf2 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -82,7 +82,10 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 	if(MagickNextImage(ctx->wand) == MagickFalse)
 		return false;
 
-	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
+	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
+		*error = RDEINVAL;
+		return false;
+	}
 	return true;
 }
 
-- 
2.43.0


From b2b3ad0d16c140a6184dbdf9a91ab3d7e53e490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 12/30] fix: image which fails to be analyzed contributes to
 the width results

---
 lib/analysis.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/analysis.c b/lib/analysis.c
index 7317ffc..448ccf9 100644
--- a/lib/analysis.c
+++ b/lib/analysis.c
@@ -102,6 +102,7 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 
 	RDError ret = RDEOK;
 	size_t width = analysis->width, height = analysis->height;
+	intermediate* xprev = NULL;
 
 	for(rdint_index i = 0; i < width*height; i++) {
 		if(!isfinite(image[i])) {
@@ -111,18 +112,33 @@ RESDET_API RDError resdet_analyze_image(RDAnalysis* analysis, float* image) {
 		analysis->f[i] = image[i];
 	}
 
+	// keep the previous width results so they can be restored if analyzing the height fails
+	size_t xsize = 0;
+	if(analysis->xresult && analysis->yresult) {
+		xsize = sizeof(*xprev)*(analysis->xbound[1]-analysis->xbound[0]);
+		if(!(xprev = malloc(xsize))) {
+			ret = RDENOMEM;
+			goto end;
+		}
+		memcpy(xprev,analysis->xresult,xsize);
+	}
+
 	resdet_transform(analysis->p);
 
 	if(analysis->xresult &&
 	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,width,height,width,1,analysis->params.range,analysis->xresult,analysis->xbound,analysis->xbound+1)) != RDEOK)
 		goto end;
 	if(analysis->yresult &&
-	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK)
+	  (ret = ((RDetectFunc)analysis->method->func)(analysis->f,height,width,1,width,analysis->params.range,analysis->yresult,analysis->ybound,analysis->ybound+1)) != RDEOK) {
+		if(xprev)
+			memcpy(analysis->xresult,xprev,xsize);
 		goto end;
+	}
 
 	analysis->nimages++;
 
 end:
+	free(xprev);
 	return ret;
 }
 
-- 
2.43.0


From 87facd2905469bfed9da759797ba5bf6e994cadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 13/30] fix: Python ImageBuffer.with_dimensions allocates space
 for a single image

---
 bindings/python/resdet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 4f7f154..04b9297 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -101,7 +101,7 @@ class ImageBuffer:
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
+        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*nimages*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
         imagebuffer.width = width
         imagebuffer.height = height
         imagebuffer.nimages = nimages
-- 
2.43.0


From 20b91a7882ca1ea85bdb7f9f0fbab73e7b038385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 14/30] fix: Python bindings silently ignore invalid parameter
 values

---
 bindings/python/resdet.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 04b9297..bd05df9 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -299,12 +299,16 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
         raise Exception(f"Unrecognized parameters {', '.join(extra_keys)}")
 
     rdparameters = libresdet.resdet_alloc_default_parameters()
+    err = Error.OK
     if "range" in parameters:
-        libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
+        err = err or libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
     if "threshold" in parameters:
-        libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
+        err = err or libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
     if "compression_filter" in parameters:
-        libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+        err = err or libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+    if err:
+        libc.free(rdparameters)
+        raise _rderror_to_exception(err)
 
     return rdparameters
 
-- 
2.43.0


From 7a34bfacf262236bdf89da3164f707e9edc118f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 15/30] fix: Python NumPy support misreads arrays which are not
 square, contiguous, single frame, and float32

---
 bindings/python/resdet_numpy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python/resdet_numpy.py b/bindings/python/resdet_numpy.py
index 6e3d630..27641d1 100644
--- a/bindings/python/resdet_numpy.py
+++ b/bindings/python/resdet_numpy.py
@@ -13,7 +13,7 @@ class Image(resdet.Image):
 
     def read_image_frame_as_ndarray(self) -> Optional[numpy.ndarray]:
         if self.read_image_frame(self.buffer):
-            return numpy.ctypeslib.as_array(self.buffer.data, shape = self.buffer.shape()).copy()
+            return numpy.ctypeslib.as_array(self.buffer.data, shape = (self.height, self.width)).copy()
 
     def __iter__(self):
         return self
@@ -25,9 +25,15 @@ class Image(resdet.Image):
 
 @Analysis.analyze_image.register
 def _(self, image: numpy.ndarray) -> None:
+    image = numpy.ascontiguousarray(image, dtype = numpy.float32)
     self.analyze_image(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)))
 
 @resdetect.register
 def _(image: numpy.ndarray, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    height, width = image.shape[:2]
     nimages = image.shape[2] if len(image.shape) > 2 else 1
-    return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, image.shape[0], image.shape[1], method, parameters)
+    # frames are along the last axis, but the library expects each to be contiguous
+    if len(image.shape) > 2:
+        image = numpy.moveaxis(image, 2, 0)
+    image = numpy.ascontiguousarray(image, dtype = numpy.float32)
+    return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, width, height, method, parameters)
-- 
2.43.0


From 8c04dbc1e486f9f40d673632b77623b5ed6b5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 16/30] fix: imgread reports failure in its exit status

---
 src/imgread.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imgread.c b/src/imgread.c
index bfdfe63..b43a866 100644
--- a/src/imgread.c
+++ b/src/imgread.c
@@ -8,7 +8,7 @@
 #include "resdet.h"
 
 int main(int argc, char** argv) {
-	if(argc < 2) {
+	if(argc < 3) {
 		fprintf(stderr,"Usage: %s input_image output.pfm\n", argv[0]);
 		return 1;
 	}
@@ -46,4 +46,6 @@ end:
 	if(out)
 		fclose(out);
 	free(image);
+
+	return e || !out;
 }
-- 
2.43.0


From f75be8b77674d51abf6adab206bb270753f93f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 17/30] fix: JavaScript bindings ignore all but the last
 invalid parameter value

---
 bindings/emscripten/resdet.mts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bindings/emscripten/resdet.mts b/bindings/emscripten/resdet.mts
index 7f201a7..00b6295 100644
--- a/bindings/emscripten/resdet.mts
+++ b/bindings/emscripten/resdet.mts
@@ -181,15 +181,17 @@ function parametersFromObj(parameters: Partial<Parameters>) {
 	if(!params)
 		throw new OutOfMemoryError();
 
-	let err;
+	let err = 0;
 	if('range' in parameters)
-		err = resdet_parameters_set_range(params,parameters['range']);
+		err ||= resdet_parameters_set_range(params,parameters['range']);
 	if('threshold' in parameters)
-		err = resdet_parameters_set_threshold(params,parameters['threshold']);
+		err ||= resdet_parameters_set_threshold(params,parameters['threshold']);
 	if('compression_filter' in parameters)
-		err = resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
-	if(err)
+		err ||= resdet_parameters_set_compression_filter(params,parameters['compression_filter']);
+	if(err) {
+		Module._free(params);
 		throw new RDError(err);
+	}
 
 	return params;
 }
-- 
2.43.0


From 0fd5e58468b4078f18d5b9f58c03fb5cf9f27887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 18/30] fix: Y4M images over a fourth of PIXEL_MAX are rejected

---
 lib/image/y4m.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index fd2c85e..0387207 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -72,7 +72,7 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 
 	if(!(*width && *height))
 		goto invalid;
-	if(resdet_dims_exceed_limit(*width,*height,4,unsigned char)) {
+	if(resdet_dims_exceed_limit(*width,*height,1,unsigned char[4])) {
 		*error = RDETOOBIG;
 		goto error;
 	}
-- 
2.43.0


From 7139713f14340542c7a6cbd97f49a7e27db621f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 19/30] fix: resdet_read_image rejects images within PIXEL_MAX

---
 lib/image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 5a231e9..7b6c8bc 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -233,7 +233,9 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 		(*nimages)++;
 
 		if(resdet_dims_exceed_limit(*width,*height,*nimages+1,float)) {
-			error = RDETOOBIG;
+			// this is only an error if there is another image to be read
+			if(resdet_seek_frame(image,1,NULL,NULL,&error))
+				error = RDETOOBIG;
 			break;
 		}
 
-- 
2.43.0


From 1d00be3f55edb35b0dcf23506cda26115d3edf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 20/30] fix: PGM maximum values over 32 bits wrap around

---
 lib/image/pgm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index f628fa7..46929b4 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -10,7 +10,7 @@
 struct pgm_context {
 	FILE* f;
 	bool eof;
-	unsigned int depth;
+	size_t depth;
 };
 
 static void pgm_reader_close(void* reader_ctx) {
@@ -53,7 +53,7 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   fgetc(ctx->f) != 'P' || fgetc(ctx->f) != '5' ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %u",width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %zu",width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
 	   !ctx->depth || ctx->depth > 255
 	) {
-- 
2.43.0


From e0837f0026b663b1b757835b725785695b880d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 21/30] fix: reading past the end with MagickWand returns the
 last frame again

---
 lib/image/magickwand.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 72cebf2..88184d9 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -19,6 +19,7 @@
 
 struct magickwand_context {
 	MagickWand* wand;
+	bool eof; // MagickNextImage starts over at the last image once it failed
 };
 
 static void magickwand_reader_close(void* reader_ctx) {
@@ -36,6 +37,7 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 		goto error;
 	}
 
+	ctx->eof = false;
 	ctx->wand = NewMagickWand();
 	if(MagickReadImage(ctx->wand,filename) == MagickFalse) {
 		ExceptionType ex;
@@ -76,10 +78,16 @@ error:
 	return NULL;
 }
 
+static bool next_image(struct magickwand_context* ctx) {
+	if(!ctx->eof && MagickNextImage(ctx->wand) == MagickFalse)
+		ctx->eof = true;
+	return !ctx->eof;
+}
+
 static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 
-	if(MagickNextImage(ctx->wand) == MagickFalse)
+	if(!next_image(ctx))
 		return false;
 
 	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
@@ -92,7 +100,7 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 static bool magickwand_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 	for(uint64_t i = 0; i < offset; i++) {
-		if(MagickNextImage(ctx->wand) == MagickFalse)
+		if(!next_image(ctx))
 			return false;
 		if(progress)
 			progress(progress_ctx,i+1);
-- 
2.43.0


From 23e2969aef74d12f9189b10df8c3ac2f9e21d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 22/30] fix: Python ImageBuffer reads outside of the image with
 negative indexes

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index bd05df9..04b4d9a 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -119,16 +119,16 @@ class ImageBuffer:
                 raise Exception("Too many coordinates for image: {index}")
             if len(index) < 3:
                 index = (0,) + index
-            if index[0] >= self.nimages:
+            if not 0 <= index[0] < self.nimages:
                 raise IndexError(f"Frame index {index[0]} is out of range for {self.nimages} images")
-            if index[1] >= self.height:
+            if not 0 <= index[1] < self.height:
                 raise IndexError(f"y index {index[1]} is out of range for height {self.height}")
-            if index[2] >= self.width:
+            if not 0 <= index[2] < self.width:
                 raise IndexError(f"x index {index[2]} is out of range for width {self.width}")
 
             index = (index[0] * self.height + index[1]) * self.width + index[2]
 
-        if index >= self.width * self.height * self.nimages:
+        if not 0 <= index < self.width * self.height * self.nimages:
             raise IndexError(f"Index {index} is out of bounds for size {self.width}x{self.height}x{self.nimages}")
         return self.data[index]
 
-- 
2.43.0


From d03aabad6cd7ab72876f6868660bdfd7110c25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 23/30] fix: Python bindings wrap parameter values which are
 out of range

---
 bindings/python/resdet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 04b4d9a..94e1c84 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -298,6 +298,11 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
     if extra_keys:
         raise Exception(f"Unrecognized parameters {', '.join(extra_keys)}")
 
+    # ctypes silently wraps integers which are out of range for their C type
+    for key, ctype in (("range", ctypes.c_size_t), ("compression_filter", ctypes.c_uint8)):
+        if key in parameters and ctype(parameters[key]).value != parameters[key]:
+            raise _rderror_to_exception(Error.PARAM)
+
     rdparameters = libresdet.resdet_alloc_default_parameters()
     err = Error.OK
     if "range" in parameters:
-- 
2.43.0


From 30a6209393cc8cee4dd52d64e88db8f6defffa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 24/30] fix: Python bindings do not accept PathLike objects
 other than Path

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 94e1c84..af9a40a 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -157,9 +157,9 @@ class Image:
         err = ctypes.c_int()
         buf = ctypes.byref(buffer.data) if buffer else None
         if image_reader:
-            self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image_with_reader(os.fsencode(filename), image_reader.encode("utf-8"), width, height, buf, err)
         else:
-            self._rdimage = libresdet.resdet_open_image(str(filename).encode("utf-8"), type_arg, width, height, buf, err)
+            self._rdimage = libresdet.resdet_open_image(os.fsencode(filename), type_arg, width, height, buf, err)
         if not self._rdimage:
             raise _rderror_to_exception(err)
 
@@ -354,7 +354,7 @@ def read_image(filename: str | os.PathLike, type: Optional[str] = None) -> Image
     height = ctypes.c_size_t()
     nimages = ctypes.c_size_t()
     buf = ImageBuffer()
-    err = libresdet.resdet_read_image(str(filename).encode("utf-8"), type_arg, buf.data, nimages, width, height)
+    err = libresdet.resdet_read_image(os.fsencode(filename), type_arg, buf.data, nimages, width, height)
     if err:
         raise _rderror_to_exception(err)
     buf.width = width.value
@@ -409,7 +409,7 @@ def resdetect_file(filename: str | os.PathLike, type: Optional[str] = None, meth
     countw = ctypes.c_size_t()
     counth = ctypes.c_size_t()
 
-    err = libresdet.resdetect_file(str(filename).encode("utf-8"), type_arg, resw, countw, resh, counth, method, params_arg)
+    err = libresdet.resdetect_file(os.fsencode(filename), type_arg, resw, countw, resh, counth, method, params_arg)
 
     libc.free(params_arg)
 
-- 
2.43.0


From 5a0177d8826ee9d549b25b9a926440d7e1d1c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 25/30] fix: FFmpeg reader read out of bounds of frames smaller
 than the first, and misread frames of another pixel format

---
 lib/image/ffmpeg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..c5dd6cc 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -14,7 +14,7 @@
 struct ffmpeg_context {
 	AVFormatContext* fmt;
 	AVCodecContext* codec;
-	int stream_index;
+	int stream_index,format;
 	struct SwsContext* sws;
 	AVFrame* swsframe,* frame;
 	AVPacket* packet;
@@ -99,6 +99,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	if((averr = sws_init_context(ctx->sws,NULL,NULL)) < 0)
 		goto error;
 
+	ctx->format = ctx->codec->pix_fmt;
 	ctx->frame->width = ctx->codec->width;
 	ctx->frame->height = ctx->codec->height;
 	ctx->frame->format = little_endian() ? AV_PIX_FMT_GRAYF32LE : AV_PIX_FMT_GRAYF32BE;
@@ -130,6 +131,8 @@ static int read_frame(struct ffmpeg_context* ctx) {
 		if(averr)
 			break;
 	}
+	if(!averr && (ctx->swsframe->width != ctx->frame->width || ctx->swsframe->height != ctx->frame->height))
+		averr = AVERROR_INVALIDDATA;
 	return averr;
 }
 
@@ -137,6 +140,11 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 	struct ffmpeg_context* ctx = reader_ctx;
 
 	int averr = read_frame(ctx);
+	if(!averr && (!ctx->sws || ctx->swsframe->format != ctx->format)) {
+		ctx->format = ctx->swsframe->format;
+		if(!(ctx->sws = sws_getCachedContext(ctx->sws,width,height,ctx->format,width,height,ctx->frame->format,SWS_BICUBIC,NULL,NULL,NULL)))
+			averr = AVERROR_INVALIDDATA;
+	}
 	if(averr || (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
-- 
2.43.0


From f8cb7fa626f3ceb74738198fa34b8f884dcc6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 26/30] fix: check each -R option's reader, not only the first
 one's

Once one -R option had named a known reader, a later "-R list" or unknown
reader was taken as that reader's name, and failed without listing the readers.
---
 src/resdet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resdet.c b/src/resdet.c
index cd6cf31..d2f2eb8 100644
--- a/src/resdet.c
+++ b/src/resdet.c
@@ -73,6 +73,7 @@ int main(int argc, char* argv[]) {
 			case 'm': method = optarg; break;
 			case 't': type = optarg; break;
 			case 'R':
+				found_reader = false;
 				for(const char* const* image_reader = resdet_list_image_readers(); *image_reader; image_reader++)
 					if(!strcasecmp(*image_reader,optarg)) {
 						found_reader = true;
-- 
2.43.0


From c8b4670236840806a45f5f597a314eacb10b3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 27/30] fix: forget the memory of a closed ImageBuffer

The pointer passed to the library still referred to the freed memory, so that
a buffer used again after being closed was written to through it.
---
 bindings/python/resdet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index af9a40a..68c8486 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -135,6 +135,7 @@ class ImageBuffer:
     def close(self) -> None:
         libc.free(self.data)
         self.data = ctypes.POINTER(ctypes.c_float)()
+        self._as_parameter_ = self.data
 
     def __enter__(self) -> "ImageBuffer":
         return self
-- 
2.43.0


From 3809bf36e2a402eda5651b27309651a59034f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 28/30] fix: pages of different sizes in a Pillow image are
 read out of bounds

---
 bindings/python/resdet_PIL.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 889747f..41856c0 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -1,3 +1,4 @@
+import resdet
 import resdet_numpy
 from resdet_numpy import resdetect, Analysis, Method, Image
 
@@ -24,6 +25,7 @@ def _(self, image: PIL.Image.Image) -> None:
 
 @resdetect.register
 def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict = {}) -> dict:
+    size = image.size
     analysis = Analysis(image.width, image.height, method, parameters)
     frameno = prev_frame = image.tell()
     while True:
@@ -32,7 +34,11 @@ def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict
             frameno += 1
         except EOFError:
             break;
-        analysis.analyze_image(image)
+        # the analysis covers images of a single size, but the pages of a file may differ
+        frame = image.convert("F")
+        if frame.size != size:
+            raise resdet._rderror_to_exception(resdet.Error.INVAL)
+        analysis.analyze_image(frame)
 
     image.seek(prev_frame)
     return analysis.analysis_results()
-- 
2.43.0


From edd23196a393f72d3fd276d64d3d90627bc3a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:05 +0000
Subject: [PATCH 29/30] fix: profile compares results as if they were in order
 of size

---
 src/profile.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/profile.c b/src/profile.c
index 5898e8f..0839133 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -25,8 +25,20 @@ struct timeval diffts(struct timeval start, struct timeval end) {
 }
 
 
+int cmpsize(const void* left, const void* right) {
+	size_t l = *(const size_t*)left, r = *(const size_t*)right;
+	return (l > r) - (l < r);
+}
+
+int cmpindex(const void* left, const void* right) {
+	return cmpsize(&((const RDResolution*)left)->index,&((const RDResolution*)right)->index);
+}
+
 void diffres(size_t* left, size_t leftlen, RDResolution* right, size_t rightlen, size_t* plus, size_t* minus) {
 	size_t l = 0, r = 0;
+	// detection results are in order of confidence
+	qsort(left,leftlen,sizeof(*left),cmpsize);
+	qsort(right,rightlen,sizeof(*right),cmpindex);
 	while(l < leftlen && r < rightlen)
 		if(left[l] > right[r].index) {
 			(*plus)++;
-- 
2.43.0


From fe226bb739778621ad5abbdd1b8f899385e6af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:05 +0000
Subject: [PATCH 30/30] fix: profile prints microseconds as if they were
 nanoseconds

---
 src/profile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/profile.c b/src/profile.c
index 0839133..9d33564 100644
--- a/src/profile.c
+++ b/src/profile.c
@@ -192,7 +192,7 @@ int main(int argc, char* argv[]) {
 			diffplus[m-methods] += plus;
 			diffminus[m-methods] += minus;
 
-			printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
+			printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,after.tv_sec,(long)after.tv_usec,plus,minus);
 detect_end:
 			free(rw);
 			free(rh);
@@ -207,6 +207,6 @@ read_end:
 
 	puts("totals");
 	for(RDMethod* m = methods; m->name; m++)
-		printf("%-*s   %2ld.%.9ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
+		printf("%-*s   %2ld.%.6ld   (+%zu -%zu)\n",padding,m->name,tvs[m-methods].tv_sec,(long)tvs[m-methods].tv_usec,diffplus[m-methods],diffminus[m-methods]);
 	return ret;
 }
-- 
2.43.0

