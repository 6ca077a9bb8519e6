From 34568e88f12dd05ed4ca85bd3829a0021da86188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 001/207] fix: vl_string_parse_protocol must match the whole
 protocol prefix

Any prefix of a protocol name (even the empty one, as in "://") was taken for
the protocol, and the documented binary:// was reported as unknown.
---
 vl/stringop.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/stringop.c b/vl/stringop.c
index 5f92df3..c71cdec 100644
--- a/vl/stringop.c
+++ b/vl/stringop.c
@@ -97,10 +97,12 @@ vl_string_parse_protocol (char const *string, int *protocol)
     cpt = string ;
   }
   else {
-    if (strncmp(string, "ascii", cpt - string) == 0) {
+    size_t length = cpt - string ;
+    if (length == 5 && strncmp(string, "ascii", length) == 0) {
       *protocol = VL_PROT_ASCII ;
     }
-    else if (strncmp(string, "bin",   cpt - string) == 0) {
+    else if ((length == 3 && strncmp(string, "bin", length) == 0) ||
+             (length == 6 && strncmp(string, "binary", length) == 0)) {
       *protocol = VL_PROT_BINARY ;
     }
     else {
-- 
2.43.0


From 0a6945955f69094b6d2d3d8aa66578dfbbbad95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 002/207] fix: vl_string_protocol_name returns the empty string
 for unknown protocols

It returned NULL, contrary to its documentation.
---
 vl/stringop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/stringop.c b/vl/stringop.c
index c71cdec..9d87517 100644
--- a/vl/stringop.c
+++ b/vl/stringop.c
@@ -135,7 +135,7 @@ vl_string_protocol_name (int protocol)
   case VL_PROT_NONE :
     return "" ;
   default:
-    return 0 ;
+    return "" ;
   }
 }
 
-- 
2.43.0


From 51d33259cbd6c8f58c91313ff90591fe4cb37289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 003/207] fix: getopt_long must not lose the operand after `--'

The option end marker was consumed twice: optind was set past it and then
moved again, after overwriting the next element of argv (or the NULL after
the last one).
---
 vl/getopt_long.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 0e860f3..727c631 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -150,7 +150,6 @@ getopt_long(int argc, char *const argv[],
         place[0] == '-' &&
         place[1] == '\0') {
 
-      optind  = optend ;
       place   = EMSG ;
       ret_val = -1 ;
       goto done_option ;
-- 
2.43.0


From 7f24ed3445f1dba4a2b4a2c770a98801508e485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 004/207] fix: getopt_long must take a lone `-' for an operand

It was parsed as the empty short option, reading past the end of both the
argument and the option string.
---
 vl/getopt_long.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 727c631..7876267 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -121,8 +121,9 @@ getopt_long(int argc, char *const argv[],
     place = argv [optbegin] ;
 
     /* an option is introduced by '-' */
-    if (place [0] != '-') {
-      /* this argument is not an option: try next argument */
+    if (place [0] != '-' || place [1] == '\0') {
+      /* this argument is not an option (a single `-' is not either):
+         try next argument */
       ++ optbegin ;
       if (optbegin >= argc) {
         /* no more arguments to look for options */
-- 
2.43.0


From 03034464756f54574b35442544e61f452954ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 005/207] fix: vl_lapack_dlasv2 right singular vector when g
 dominates

cv and sv were swapped with respect to LAPACK's dlasv2 (srt = 1, crt = ft/gt)
in the branch for very large g, so that the factors did not give back the matrix.
---
 vl/mathop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index 27bd7d4..aab8750 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -767,7 +767,7 @@ vl_lapack_dlasv2 (double *smin,
           *smin = (fa / ga) * ha ; /* 2 ulps */
         }
         cut = 1.0 ; sut = ht / gt ;
-        cvt = 1.0 ; svt = ft / gt ;
+        cvt = ft / gt ; svt = 1.0 ;
       }
     }
 
-- 
2.43.0


From 3b683562a40dd09a176aab9f5f8e187f1d0578ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 006/207] fix: vl_svd2 of matrices with a null first column

The norm of the first column was divided by even if zero, and the result was NaN.
---
 vl/mathop.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index aab8750..e15a5ae 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -650,8 +650,14 @@ vl_svd2 (double* S, double *U, double *V, double const *M)
   double cu2, su2, cv2, sv2 ;
   double f, g, h ;
   double smin, smax ;
-  cu1 /= norm ;
-  su1 /= norm ;
+  if (norm > 0) {
+    cu1 /= norm ;
+    su1 /= norm ;
+  } else {
+    /* the first column is null: the matrix is already upper triangular */
+    cu1 = 1.0 ;
+    su1 = 0.0 ;
+  }
 
   f = cu1 * m11 + su1 * m21 ;
   g = cu1 * m12 + su1 * m22 ;
-- 
2.43.0


From 79d943c33fd509d5904b37498e63d8c748ae69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 007/207] fix: vl_fast_sqrt_d takes a double

Its argument was converted to float: arguments beyond the range of float gave NaN.
---
 vl/mathop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.h b/vl/mathop.h
index 6a1df80..8be0ebb 100644
--- a/vl/mathop.h
+++ b/vl/mathop.h
@@ -552,7 +552,7 @@ vl_fast_sqrt_f (float x)
  **/
 
 VL_INLINE double
-vl_fast_sqrt_d (float x)
+vl_fast_sqrt_d (double x)
 {
   return (x < 1e-8) ? 0 : x * vl_fast_resqrt_d (x) ;
 }
-- 
2.43.0


From 530c195ee483f9a91c8ad64bd2bb637489fa7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 008/207] fix: vl_imconvcol filters entirely outside the image

---
 vl/imopv.c      | 3 ++-
 vl/imopv_sse2.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 225b733..7cd35be 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -166,6 +166,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
       filti = filt ;
       stop = filt_end - y ;
       srci = src + x - stop * src_stride ;
+      stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
       if (stop > 0) {
         if (zeropad) {
@@ -188,7 +189,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
         srci += src_stride ;
       }
 
-      if (zeropad) v = 0 ;
+      v = zeropad ? 0 : src[x + (src_height - 1) * src_stride] ;
 
       stop = filt_end - filt_begin + 1 ;
       while (filti > filt - stop) {
diff --git a/vl/imopv_sse2.c b/vl/imopv_sse2.c
index 016c23f..34b3e22 100644
--- a/vl/imopv_sse2.c
+++ b/vl/imopv_sse2.c
@@ -87,6 +87,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         filti = filt ;
         stop = filt_end - y ;
         srci = src + x - stop * src_stride ;
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
         if (stop > 0) {
           if (zeropad) {
@@ -109,7 +110,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = VSTZ () ;
+        v = zeropad ? VSTZ () : * (VTYPE*) (src + x + (src_height - 1) * src_stride) ;
 
         stop = filt_end - filt_begin + 1;
         while (filti > filt - stop) {
@@ -153,6 +154,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         filti = filt ;
         stop = filt_end - y ;
         srci = src + x - stop * src_stride ;
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
         if (stop > 0) {
           if (zeropad) {
@@ -175,7 +177,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = 0 ;
+        v = zeropad ? 0 : src[x + (src_height - 1) * src_stride] ;
 
         stop = filt_end - filt_begin + 1 ;
         while (filti > filt - stop) {
-- 
2.43.0


From 0bb7ad24616794bfd7106366c9939856f24fb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 009/207] fix: vl_imconvcoltri leaked its buffer on empty
 images

---
 vl/imopv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/imopv.c b/vl/imopv.c
index 7cd35be..3981874 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -524,6 +524,7 @@ VL_XCAT(vl_imconvcoltri_, SFX)
   buffer += filterSize ;
 
   if (imageHeight == 0) {
+    vl_free (buffer - filterSize) ;
     return  ;
   }
 
-- 
2.43.0


From 70b40f26f3414b85ee086d1b18a0c67d10392440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 010/207] fix: vl_imgradient and vl_imgradient_polar on
 singleton dimensions

---
 vl/imopv.c | 84 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 3981874..8fdb701 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -730,8 +730,9 @@ VL_XCAT(vl_imgradient_, SFX)
  vl_size imageStride)
 {
   /* Shortcuts */
-  vl_index const xo = 1 ;
-  vl_index const yo = imageStride ;
+  /* along a singleton dimension the gradient is null */
+  vl_index const xo = (imageWidth > 1) ? 1 : 0 ;
+  vl_index const yo = (imageHeight > 1) ? imageStride : 0 ;
   vl_size const w = imageWidth;
   vl_size const h = imageHeight;
 
@@ -739,6 +740,8 @@ VL_XCAT(vl_imgradient_, SFX)
   T *pgrad_x, *pgrad_y;
   vl_size y;
 
+  if (w == 0 || h == 0) return ;
+
   src  = image ;
   pgrad_x = xGradient ;
   pgrad_y = yGradient ;
@@ -760,12 +763,14 @@ VL_XCAT(vl_imgradient_, SFX)
     src++;
   }
 
-  /* last pixel of the first row */
-  *pgrad_x = src[0]   - src[-xo] ;
-  pgrad_x += gradWidthStride;
-  *pgrad_y = src[+yo] - src[0] ;
-  pgrad_y += gradWidthStride;
-  src++;
+  if (w > 1) {
+    /* last pixel of the first row */
+    *pgrad_x = src[0]   - src[-xo] ;
+    pgrad_x += gradWidthStride;
+    *pgrad_y = src[+yo] - src[0] ;
+    pgrad_y += gradWidthStride;
+    src++;
+  }
 
   xGradient += gradHeightStride;
   pgrad_x = xGradient;
@@ -793,12 +798,14 @@ VL_XCAT(vl_imgradient_, SFX)
       src++;
     }
 
-    /* last pixel of the middle row */
-    *pgrad_x =        src[0]   - src[-xo] ;
-    pgrad_x += gradWidthStride;
-    *pgrad_y = 0.5 * (src[+yo] - src[-yo]) ;
-    pgrad_y += gradWidthStride;
-    src++;
+    if (w > 1) {
+      /* last pixel of the middle row */
+      *pgrad_x =        src[0]   - src[-xo] ;
+      pgrad_x += gradWidthStride;
+      *pgrad_y = 0.5 * (src[+yo] - src[-yo]) ;
+      pgrad_y += gradWidthStride;
+      src++;
+    }
 
     xGradient += gradHeightStride;
     pgrad_x = xGradient;
@@ -808,6 +815,8 @@ VL_XCAT(vl_imgradient_, SFX)
     src = image;
   }
 
+  if (h == 1) return ;
+
   /* first pixel of the last row */
   *pgrad_x = src[+xo] - src[0] ;
   pgrad_x += gradWidthStride;
@@ -825,9 +834,11 @@ VL_XCAT(vl_imgradient_, SFX)
     src++;
   }
 
-  /* last pixel of the last row */
-  *pgrad_x = src[0]   - src[-xo] ;
-  *pgrad_y = src[0]   - src[-yo] ;
+  if (w > 1) {
+    /* last pixel of the last row */
+    *pgrad_x = src[0]   - src[-xo] ;
+    *pgrad_y = src[0]   - src[-yo] ;
+  }
 }
 /* VL_TYPE_FLOAT, VL_TYPE_DOUBLE */
 #endif
@@ -881,8 +892,9 @@ VL_XCAT(vl_imgradient_polar_, SFX)
  vl_size imageWidth, vl_size imageHeight, vl_size imageStride)
 {
   /* Shortcuts */
-  vl_index const xo = 1 ;
-  vl_index const yo = imageStride ;
+  /* along a singleton dimension the gradient is null */
+  vl_index const xo = (imageWidth > 1) ? 1 : 0 ;
+  vl_index const yo = (imageHeight > 1) ? imageStride : 0 ;
   vl_size const w = imageWidth;
   vl_size const h = imageHeight;
 
@@ -898,6 +910,8 @@ pgrad_ampl += gradientHorizontalStride ;                             \
 pgrad_angl += gradientHorizontalStride ;                             \
 ++src ;                                                              \
 
+  if (w == 0 || h == 0) return ;
+
   src  = image ;
   pgrad_angl = gradientAngle ;
   pgrad_ampl = gradientModulus ;
@@ -915,10 +929,12 @@ pgrad_angl += gradientHorizontalStride ;                             \
     SAVE_BACK ;
   }
 
-  /* last pixel of the first row */
-  gx = src[0]   - src[-xo] ;
-  gy = src[+yo] - src[0] ;
-  SAVE_BACK ;
+  if (w > 1) {
+    /* last pixel of the first row */
+    gx = src[0]   - src[-xo] ;
+    gy = src[+yo] - src[0] ;
+    SAVE_BACK ;
+  }
 
   gradientModulus += gradHeightStride;
   pgrad_ampl = gradientModulus;
@@ -942,10 +958,12 @@ pgrad_angl += gradientHorizontalStride ;                             \
       SAVE_BACK ;
     }
 
-    /* last pixel of the middle row */
-    gx =        src[0]   - src[-xo] ;
-    gy = 0.5 * (src[+yo] - src[-yo]) ;
-    SAVE_BACK ;
+    if (w > 1) {
+      /* last pixel of the middle row */
+      gx =        src[0]   - src[-xo] ;
+      gy = 0.5 * (src[+yo] - src[-yo]) ;
+      SAVE_BACK ;
+    }
 
     gradientModulus += gradHeightStride;
     pgrad_ampl = gradientModulus;
@@ -955,6 +973,8 @@ pgrad_angl += gradientHorizontalStride ;                             \
     src = image;
   }
 
+  if (h == 1) return ;
+
   /* first pixel of the last row */
   gx = src[+xo] - src[0] ;
   gy = src[  0] - src[-yo] ;
@@ -968,10 +988,12 @@ pgrad_angl += gradientHorizontalStride ;                             \
     SAVE_BACK ;
   }
 
-  /* last pixel of the last row */
-  gx = src[0]   - src[-xo] ;
-  gy = src[0]   - src[-yo] ;
-  SAVE_BACK ;
+  if (w > 1) {
+    /* last pixel of the last row */
+    gx = src[0]   - src[-xo] ;
+    gy = src[0]   - src[-yo] ;
+    SAVE_BACK ;
+  }
 
 }
 /* VL_TYPE_FLOAT, VL_TYPE_DOUBLE */
-- 
2.43.0


From 250f0d882bcbc9a61ce273cba592e0ee1e440387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 011/207] fix: vl_kmeans_new_copy copies every setting

The initialization method, the minimum energy variation and the energy were
left uninitialised in the copy.
---
 vl/kmeans.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c250ca8..6a8941e 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -435,13 +435,18 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
 {
   VlKMeans * self = vl_malloc(sizeof(VlKMeans)) ;
 
+  self->initialization = kmeans->initialization ;
   self->algorithm = kmeans->algorithm ;
   self->distance = kmeans->distance ;
   self->dataType = kmeans->dataType ;
 
   self->verbosity = kmeans->verbosity ;
   self->maxNumIterations = kmeans->maxNumIterations ;
+  self->minEnergyVariation = kmeans->minEnergyVariation ;
   self->numRepetitions = kmeans->numRepetitions ;
+  self->energy = kmeans->energy ;
+  self->floatVectorComparisonFn = kmeans->floatVectorComparisonFn ;
+  self->doubleVectorComparisonFn = kmeans->doubleVectorComparisonFn ;
 
   self->dimension = kmeans->dimension ;
   self->numCenters = kmeans->numCenters ;
-- 
2.43.0


From af027bf2bf039b4137fc5e7fc0fdda7e33fa2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 012/207] fix: k-means cluster masses are as many as the
 centers

The array was sized by the number of data points: with more centers than
points the refinement read past its end.
---
 vl/kmeans.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 6a8941e..d9b9810 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -843,7 +843,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   vl_uint32 * permutations = NULL ;
   vl_size * numSeenSoFar = NULL ;
   VlRand * rand = vl_get_rand () ;
@@ -902,7 +902,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1023,7 +1023,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
   vl_size numRestartedCenters = 0 ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   if (self->distance == VlDistanceL1) {
@@ -1078,7 +1078,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1176,7 +1176,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
   vl_bool allDone ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   VlRand * rand = vl_get_rand () ;
 
 #if (FLT == VL_TYPE_FLOAT)
@@ -1316,7 +1316,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
     /*                         Compute new centers                  */
     /* ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ */
 
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < (signed)numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
-- 
2.43.0


From dfd3f202fb97d306a1d0b8b6d627d82a3e89acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 013/207] fix: vl_kmeans_get_energy returns the energy of the
 solution

The energy was never stored in the object, so the getter always returned 0.
---
 vl/kmeans.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index d9b9810..032c0ba 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -1995,16 +1995,19 @@ vl_kmeans_refine_centers
 
   switch (self->dataType) {
     case VL_TYPE_FLOAT :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_f
         (self, (float const *)data, numData) ;
+      break ;
     case VL_TYPE_DOUBLE :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_d
         (self, (double const *)data, numData) ;
+      break ;
     default:
       abort() ;
   }
+  return self->energy ;
 }
 
 
@@ -2094,6 +2097,7 @@ vl_kmeans_cluster (VlKMeans * self,
 
   vl_free (self->centers) ;
   self->centers = bestCenters ;
+  self->energy = bestEnergy ;
   return bestEnergy ;
 }
 
-- 
2.43.0


From 4a49eceed7645c04c3a5edeb3f9c950d9ebfa4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 014/207] fix: vl_kmeans_quantize_ann updates assignments
 without distances too

The update flag was ignored when no distance buffer was given.
---
 vl/kmeans.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 032c0ba..e17d8a7 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -751,23 +751,19 @@ VL_XCAT(_vl_kmeans_quantize_ann_, SFX)
     for(x = 0 ; x < (signed)numData ; ++x) {
       vl_kdforestsearcher_query (searcher, &neighbor, 1, (TYPE const *) (data + x*self->dimension));
 
-      if (distances) {
-        if(!update) {
-          distances[x] = (TYPE) neighbor.distance;
+      if (!update) {
+        if (distances) distances[x] = (TYPE) neighbor.distance;
+        assignments[x] = (vl_uint32) neighbor.index ;
+      } else {
+        TYPE prevDist = (TYPE) distFn(self->dimension,
+                                      data + self->dimension * x,
+                                      (TYPE*)self->centers + self->dimension *assignments[x]);
+        if (prevDist > (TYPE) neighbor.distance) {
+          if (distances) distances[x] = (TYPE) neighbor.distance ;
           assignments[x] = (vl_uint32) neighbor.index ;
         } else {
-          TYPE prevDist = (TYPE) distFn(self->dimension,
-                                        data + self->dimension * x,
-                                        (TYPE*)self->centers + self->dimension *assignments[x]);
-          if (prevDist > (TYPE) neighbor.distance) {
-            distances[x] = (TYPE) neighbor.distance ;
-            assignments[x] = (vl_uint32) neighbor.index ;
-          } else {
-            distances[x] = prevDist ;
-          }
+          if (distances) distances[x] = prevDist ;
         }
-      } else {
-        assignments[x] = (vl_uint32) neighbor.index ;
       }
     } /* end for */
   } /* end of parallel region */
-- 
2.43.0


From 3e39893ec0f3c9de6060e88d49854102304d0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 015/207] fix: kd-tree search bounds of the l1 distance

The branch-and-bound search accumulated squared displacements also for the
l1 distance, where the distances are not squared, so that an exact search
could miss the nearest neighbours.
---
 vl/kdtree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 889cc7d..afb9440 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -91,6 +91,7 @@ using the vl_kdforest_delete_searcher method.
 #include "random.h"
 #include "mathop.h"
 #include <stdlib.h>
+#include <math.h>
 
 #if defined(_OPENMP)
 #include <omp.h>
@@ -688,24 +689,29 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
    *   (---|---] x
    */
 
+  /* the distances are squared only for the l2 norm */
+#define VL_KDTREE_COMPONENT(delta) \
+  ((searcher->forest->distance == VlDistanceL1) ? fabs(delta) : (delta)*(delta))
+
   delta = x - x2 ;
-  saveDist = dist + delta*delta ;
+  saveDist = dist + VL_KDTREE_COMPONENT(delta) ;
 
   if (x <= x2) {
     nextChild = node->lowerChild ;
     saveChild = node->upperChild ;
     if (x <= x1) {
       delta = x - x1 ;
-      saveDist -= delta*delta ;
+      saveDist -= VL_KDTREE_COMPONENT(delta) ;
     }
   } else {
     nextChild = node->upperChild ;
     saveChild = node->lowerChild ;
     if (x > x3) {
       delta = x - x3 ;
-      saveDist -= delta*delta ;
+      saveDist -= VL_KDTREE_COMPONENT(delta) ;
     }
   }
+#undef VL_KDTREE_COMPONENT
 
   if (*numAddedNeighbors < numNeighbors || neighbors[0].distance > saveDist) {
     searchState = searcher->searchHeapArray + searcher->searchHeapNumNodes ;
-- 
2.43.0


From 7deb52df59ddfffa8f20bf85404fe67435b03a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 016/207] fix: kd-tree mean split of points that are all above
 their mean

The unsigned split index wrapped around at the beginning of the data, so
the fall back to the median split was not taken and the construction recursed
without end.
---
 vl/kdtree.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index afb9440..2bfc08c 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -290,14 +290,16 @@ vl_kdtree_build_recursively
       for (splitIndex = dataBegin ;
            splitIndex < dataEnd && tree->dataIndex[splitIndex].value <= node->splitThreshold ;
            ++ splitIndex) ;
-      splitIndex -= 1 ;
       /* If the mean does not provide a proper partition, fall back to
        * median. This usually happens if all points have the same
        * value and the zero variance test fails for numerical accuracy
        * reasons. In this case, also due to numerical accuracy, the
        * mean value can be smaller, equal, or larger than all
        * points. */
-      if (dataBegin <= splitIndex && splitIndex + 1 < dataEnd) break ;
+      if (dataBegin < splitIndex && splitIndex < dataEnd) {
+        splitIndex -= 1 ;
+        break ;
+      }
 
     case VL_KDTREE_MEDIAN :
       medianIndex = (dataBegin + dataEnd - 1) / 2 ;
-- 
2.43.0


From bea3ea7687b8796b200e4a88411f5eccd7179c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 017/207] fix: integer Lloyd k-means compared the first
 assignments with uninitialised memory

When the memory happened to contain the right labels training ended without
ever computing the centers.
---
 vl/ikmeans_lloyd.tc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 7119267..f0bfb58 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -38,6 +38,9 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
   vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
 
+  /* no datum is assigned yet */
+  memset (asgn, 0xff, sizeof(*asgn) * N) ;
+
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
 
-- 
2.43.0


From cad4f619208623c823384740a083d1b7534f7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 018/207] fix: integer k-means counts are as many as the
 centers

The array was sized by the number of data and overflown with more centers.
---
 vl/ikmeans_elkan.tc | 2 +-
 vl/ikmeans_lloyd.tc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index d04c436..a655a39 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -75,7 +75,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_ikmacc_t *l_pt = vl_malloc(sizeof(*l_pt) * N * f->K) ; /* lower bound  */
   vl_ikmacc_t *d_pt = f->inter_dist ; /* half inter clst dist  */
   vl_uint32 *asgn = vl_malloc (sizeof(*asgn) * N) ;
-  vl_uint32 *counts =vl_malloc (sizeof(*counts) * N) ;
+  vl_uint32 *counts =vl_malloc (sizeof(*counts) * f->K) ;
 
   int done = 0 ;
 
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index f0bfb58..73cbcb6 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -36,7 +36,7 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   int err =  0 ;
   vl_uindex iter, i, j, k  ;
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
-  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
+  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
   /* no datum is assigned yet */
   memset (asgn, 0xff, sizeof(*asgn) * N) ;
-- 
2.43.0


From 7652d4415b6007f852b43c366b03636a01f0c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 019/207] fix: integer k-means does not move the centers
 without data

As the comment says, such centers are not changed; they were moved to the
origin instead.
---
 vl/ikmeans_elkan.tc | 3 ++-
 vl/ikmeans_lloyd.tc | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index a655a39..9c1544b 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -156,7 +156,8 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
         }
       } else {
         for(i = 0 ; i < f->M ; ++i) {
-          /*m_pt[c*M + i] = data[pairs_pt[c].j*M + i] ;*/
+          /* no data are assigned to the center: do not move it */
+          m_pt[c * f->M + i] = f->centers[c * f->M + i] ;
         }
       }
     }
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 73cbcb6..e54ea7f 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -82,11 +82,12 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
      * ------------------------------------------------------------ */
 
     /* re-compute centers */
-    memset (f->centers, 0, sizeof(*f->centers) * f->M * f->K);
     memset (counts,  0, sizeof(*counts) * f->K);
     for (j = 0; j < N; ++j) {
       vl_uindex this_center = asgn [j] ;
-      ++ counts [this_center] ;
+      if (counts [this_center] ++ == 0) {
+        memset (f->centers + this_center * f->M, 0, sizeof(*f->centers) * f->M) ;
+      }
       for (i = 0; i < f->M ; ++i) {
         f->centers [this_center * f->M + i] += data[j * f->M + i] ;
       }
-- 
2.43.0


From 4d26f2d63c2d28ac4e47842d03008b954b0cce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 020/207] fix: integer Elkan k-means tests the bounds of the
 current center

After a datum is reassigned the bounds relative to its previous center do not
exclude the other centers any more.
---
 vl/ikmeans_elkan.tc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index 9c1544b..2f29a68 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -286,6 +286,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
           ux = u_pt[x] = dist ;
           /* r_pt[x] already 0 */
           asgn[x] = (vl_uint32)c ;
+          cx = c ;
           done = 0 ;
         }
       }
-- 
2.43.0


From 9fd8e47d071ffc4830fe3b05e269d9a47cc3f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 021/207] fix: pushing data to empty hierarchical k-means nodes

The subtree of a cluster without training data had nodes without clusters:
data pushed there got the label -1 and, in deeper trees, crashed.
---
 vl/hikmeans.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index c727208..820bb1f 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -128,6 +128,19 @@ xmeans (VlHIKMTree *tree,
       partition = vl_hikm_copy_subset
         (data, ids, N, tree->M, (vl_uint32)k, &partition_N) ;
 
+      /* if no datum falls in the cluster, use its center, so that
+       * data pushed there later find a node with at least a cluster */
+      if (partition_N == 0) {
+        vl_uindex i ;
+        vl_ikmacc_t const * centers = vl_ikm_get_centers (node->filter) ;
+        vl_free (partition) ;
+        partition = vl_malloc (sizeof(*partition) * tree->M) ;
+        for (i = 0 ; i < tree->M ; ++i) {
+          partition[i] = (vl_uint8) centers[k * tree->M + i] ;
+        }
+        partition_N = 1 ;
+      }
+
       partition_K = VL_MIN (K, partition_N) ;
 
       node->children [k] = xmeans
-- 
2.43.0


From 9b5219bc20d0064182e22d159b4cf08873ffb428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 022/207] fix: training a hierarchical k-means tree again
 leaked the old one

---
 vl/hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index 820bb1f..52dfafc 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -250,6 +250,7 @@ vl_hikm_init (VlHIKMTree *f, vl_size M, vl_size K, vl_size depth)
 void
 vl_hikm_train (VlHIKMTree *f, vl_uint8 const *data, vl_size N)
 {
+  xdelete (f->root) ;
   f->root= xmeans (f, data, N, VL_MIN(f->K, N), f->depth) ;
 }
 
-- 
2.43.0


From 22704406f2ca71a8b1473f77588bca075940d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 023/207] fix: memory leaks of GMM objects

The covariance lower bounds were never freed, nor were the masses computed
to look for empty modes.
---
 vl/gmm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 5850445..97ac65e 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -417,6 +417,7 @@ vl_gmm_delete (VlGMM * self)
   if(self->covariances) vl_free(self->covariances);
   if(self->priors) vl_free(self->priors);
   if(self->posteriors) vl_free(self->posteriors);
+  if(self->sigmaLowBound) vl_free(self->sigmaLowBound);
   if(self->kmeansInit && self->kmeansInitIsOwner) {
     vl_kmeans_delete(self->kmeansInit);
   }
@@ -825,10 +826,12 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
 
   //VlRand * rand = vl_get_rand() ;
 
-  TYPE * mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+  TYPE * mass ;
 
   if (numClusters <= 1) { return 0 ; }
 
+  mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+
   /* compute statistics */
   {
     vl_uindex i, k ;
@@ -995,6 +998,7 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
     (self,posteriors,priors,covariances,means,data,self->numData) ;
   }
 
+  vl_free(mass) ;
   return zeroWNum;
 }
 
-- 
2.43.0


From 5684f17746d45f0093b4070640acb78319bfd4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 024/207] fix: vl_gmm_new_copy copies the covariance lower
 bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 97ac65e..1eff93c 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1492,6 +1492,7 @@ vl_gmm_new_copy (VlGMM const * self)
   gmm->verbosity = self->verbosity;
   gmm->LL = self->LL;
 
+  memcpy(gmm->sigmaLowBound, self->sigmaLowBound, sizeof(double)*self->dimension);
   memcpy(gmm->means, self->means, size*self->numClusters*self->dimension);
   memcpy(gmm->covariances, self->covariances, size*self->numClusters*self->dimension);
   memcpy(gmm->priors, self->priors, size*self->numClusters);
-- 
2.43.0


From 627522ced7caf40862be5178ce3f69ba38ab20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 025/207] fix: vl_gmm_get_loglikelihood after vl_gmm_em

The log-likelihood found by EM was returned but not stored in the object.
---
 vl/gmm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 1eff93c..4c3bb73 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1662,13 +1662,13 @@ double vl_gmm_em (VlGMM * self, void const * data, vl_size numData)
 {
   switch (self->dataType) {
     case VL_TYPE_FLOAT:
-      return _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
     case VL_TYPE_DOUBLE:
-      return _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
     default:
       abort() ;
   }
-  return 0 ;
+  return self->LL ;
 }
 
 /** @brief Explicitly set the initial means for EM.
-- 
2.43.0


From 715a09c8b9302cd1b3fffaad433e67513c6ab334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 026/207] fix: repetitions of GMM clustering from custom
 parameters

The repetitions after the first started from uninitialised memory.
---
 vl/gmm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 4c3bb73..7c4973e 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1570,9 +1570,13 @@ double vl_gmm_cluster (VlGMM * self,
   vl_size size = vl_get_type_size(self->dataType) ;
   double bestLL = -VL_INFINITY_D;
   vl_uindex repetition;
+  vl_size numRepetitions = self->numRepetitions ;
 
   assert(self->numRepetitions >=1) ;
 
+  /* there is only one run to make from user specified parameters */
+  if (self->initialization == VlGMMCustom) { numRepetitions = 1 ; }
+
   bestPriors = vl_malloc(size * self->numClusters) ;
   bestMeans = vl_malloc(size * self->dimension * self->numClusters) ;
   bestCovariances = vl_malloc(size * self->dimension * self->numClusters) ;
@@ -1582,7 +1586,7 @@ double vl_gmm_cluster (VlGMM * self,
   feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW);
 #endif
 
-  for (repetition = 0 ; repetition < self->numRepetitions ; ++ repetition) {
+  for (repetition = 0 ; repetition < numRepetitions ; ++ repetition) {
     double LL ;
     double timeRef ;
 
-- 
2.43.0


From 961de4f9383a1727ea107738ca26671cec936889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 027/207] fix: homogeneous kernel map switches to the default
 period if this is null

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index d7e4e9c..17a3ea2 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -342,7 +342,7 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
   assert(windowType == VlHomogeneousKernelMapWindowUniform ||
          windowType == VlHomogeneousKernelMapWindowRectangular) ;
 
-  if (period < 0) {
+  if (period <= 0) {
     switch (windowType) {
     case VlHomogeneousKernelMapWindowUniform:
       switch (kernelType) {
-- 
2.43.0


From d598accc9e86babe94d47c40d84a803d12de98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 028/207] fix: homogeneous kernel map of the first octave of
 its table

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 17a3ea2..1d460f0 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -544,7 +544,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
   exponent -- ;
 
   if (mantissa == 0 ||
-      exponent <= self->minExponent ||
+      exponent < self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
       *destination = (T) 0.0 ;
-- 
2.43.0


From d29350484ee6f83cc662946f0f98adb1f528a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 029/207] fix: SVM objects leaked the scores

---
 vl/svm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vl/svm.c b/vl/svm.c
index 49af2eb..0990914 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1085,6 +1085,7 @@ err_alloc:
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  vl_free (self) ;
   return 0 ;
 }
 
@@ -1104,6 +1105,10 @@ vl_svm_delete (VlSvm * self)
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  if (self->scores) {
+    vl_free (self->scores) ;
+    self->scores = 0 ;
+  }
   if (self->ownDataset) {
     vl_svmdataset_delete(self->ownDataset) ;
     self->ownDataset = 0 ;
-- 
2.43.0


From 83ca96e6768ba5b4a6722390ea2ccea4e84e4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 030/207] fix: SVM scores of data points with null weight

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 0990914..4dcff7d 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1888,10 +1888,10 @@ void _vl_svm_update_statistics (VlSvm *self)
 
   for (k = 0; k < self->numData ; k++) {
     p = (self->weights) ? self->weights[k] : 1.0 ;
-    if (p <= 0) continue ;
     inner = self->innerProductFn(self->data, k, self->model) ;
     inner += self->bias * self->biasMultiplier ;
     self->scores[k] = inner ;
+    if (p <= 0) continue ;
     self->statistics.loss += p * self->lossFn(inner, self->labels[k]) ;
     if (self->solver == VlSvmSolverSdca) {
 
-- 
2.43.0


From 0a4c69885ef72c0851689bb8816bc63086502792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 031/207] fix: SGD ignored vl_svm_set_iteration_number

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 4dcff7d..560da22 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -2085,7 +2085,7 @@ void _vl_svm_sgd_train (VlSvm *self)
     scores[i] = inner ;
 
     /* apply update */
-    rate = 1.0 /  (self->lambda * (t + t0)) ;
+    rate = 1.0 /  (self->lambda * (self->iteration + t + t0)) ;
     biasRate = rate * self->biasLearningRate ;
     factor *= (1.0 - self->lambda * rate) ;
     biasFactor *= (1.0 - self->lambda * biasRate) ;
-- 
2.43.0


From 4b4f1cff7ef52285e96d989897e1fbf2163ff4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 032/207] fix: SGD must not compare the first scores of a point
 with zero

---
 vl/svm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 560da22..9d666bf 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -2041,7 +2041,9 @@ void _vl_svm_sgd_train (VlSvm *self)
 
   for (i = 0 ; i < (unsigned)self->numData; i++) {
     permutation [i] = i ;
-    previousScores [i] = - VL_INFINITY_D ;
+    /* infinite variation until each point is visited twice */
+    scores [i] = - VL_INFINITY_D ;
+    previousScores [i] = VL_INFINITY_D ;
   }
 
   /*
-- 
2.43.0


From b8599f29db229add5ace8aea2770867c2fd53a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 033/207] fix: SVM training did not stop with a null maximum
 number of iterations

---
 vl/svm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index 9d666bf..5b3e490 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1988,7 +1988,7 @@ void _vl_svm_sdca_train (VlSvm *self)
     }
 
     /* call diagnostic occasionally */
-    if ((t + 1) % self->diagnosticFrequency == 0 || t + 1 == self->maxNumIterations) {
+    if ((t + 1) % self->diagnosticFrequency == 0 || t + 1 >= self->maxNumIterations) {
       _vl_svm_update_statistics (self) ;
       self->statistics.elapsedTime = vl_get_cpu_time() - startTime ;
       self->statistics.iteration = t ;
@@ -1998,7 +1998,7 @@ void _vl_svm_sdca_train (VlSvm *self)
       if (self->statistics.dualityGap < self->epsilon) {
         self->statistics.status = VlSvmStatusConverged ;
       }
-      else if (t + 1 == self->maxNumIterations) {
+      else if (t + 1 >= self->maxNumIterations) {
         self->statistics.status = VlSvmStatusMaxNumIterationsReached ;
       }
 
@@ -2106,7 +2106,7 @@ void _vl_svm_sgd_train (VlSvm *self)
     }
 
     /* call diagnostic occasionally */
-    if ((t + 1) % self->diagnosticFrequency == 0 || t + 1 == self->maxNumIterations) {
+    if ((t + 1) % self->diagnosticFrequency == 0 || t + 1 >= self->maxNumIterations) {
 
       /* realize factor before computing statistics or completing training */
       for (k = 0 ; k < self->dimension ; ++k) self->model[k] *= factor ;
@@ -2130,7 +2130,7 @@ void _vl_svm_sgd_train (VlSvm *self)
       if (self->statistics.scoresVariation < self->epsilon) {
         self->statistics.status = VlSvmStatusConverged ;
       }
-      else if (t + 1 == self->maxNumIterations) {
+      else if (t + 1 >= self->maxNumIterations) {
         self->statistics.status = VlSvmStatusMaxNumIterationsReached ;
       }
 
-- 
2.43.0


From 5a81fb5c79819becd42b4027102a033051e07b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:16 +0000
Subject: [PATCH 034/207] fix: l1 loss DCA update of a null vector

---
 vl/svm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 5b3e490..3f1cfc8 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1721,7 +1721,9 @@ vl_svm_l1_conjugate_loss (double u, double label) {
 double
 vl_svm_l1_dca_update (double alpha, double inner, double norm2, double label) {
   if (vl_abs_d(alpha) <= 1) {
-    double palpha = (label - inner) / norm2 + alpha ;
+    double palpha ;
+    if (label == inner) return 0 ; /* optimal, even if norm2 is null */
+    palpha = (label - inner) / norm2 + alpha ;
     return VL_MAX(-1.0, VL_MIN(1.0, palpha)) - alpha ;
   } else {
     return VL_INFINITY_D ;
-- 
2.43.0


From aac37f2d803d3a183eb99cce0c89f855666f0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:34 +0000
Subject: [PATCH 035/207] fix: logistic loss DCA update reaches the maximum
 near the ends of its range

---
 vl/svm.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index 3f1cfc8..262a947 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1854,17 +1854,27 @@ vl_svm_logistic_dca_update (double alpha, double inner, double norm2, double lab
     beta = 0.5 * (beta1 + beta2) ;
   }
 
-#if 1
-  /* a final Newton step, but not too close to the singularities */
-  for (t = 0 ; (t < 2) & (beta > VL_EPSILON_D) & (beta < 1-VL_EPSILON_D) ; ++t) {
+  /* final Newton steps, but not too close to the singularities; the steps that
+     leave the bracket (as they do if the maximum is at almost 0 or 1) are
+     replaced by a bisection */
+  for (t = 0 ; (t < 100) & (beta > VL_EPSILON_D) & (beta < 1-VL_EPSILON_D) ; ++t) {
+    double step ;
     df = log(beta) - log(1-beta) ;
     ddf = 1 / (beta * (1-beta)) ;
     der = norm2 * beta + label * (inner - norm2*alpha) + df ;
     dder = norm2 + ddf ;
-    beta -= der / dder ;
-    beta = VL_MAX(0, VL_MIN(1, beta)) ;
+    step = der / dder ;
+    if (vl_abs_d(step) <= 1e-10 * beta * (1-beta)) break ;
+    if (der >= 0) {
+      beta2 = beta ;
+    } else {
+      beta1 = beta ;
+    }
+    beta -= step ;
+    if (beta <= beta1 || beta >= beta2) {
+      beta = 0.5 * (beta1 + beta2) ;
+    }
   }
-#endif
 
   return label * beta - alpha ;
 }
-- 
2.43.0


From b35873ee0c3c3145f8f7e4e0038ebe87c7853453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 036/207] fix: MSER compares the heights of the trees being
 joined

---
 vl/mser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/mser.c b/vl/mser.c
index 4c55db2..f3f6db8 100644
--- a/vl/mser.c
+++ b/vl/mser.c
@@ -555,8 +555,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
         vl_mser_pix nr_val = 0 ;
         vl_uint     nr_idx = 0 ;
-        int         hgt   = r [ r_idx] .height ;
-        int         n_hgt = r [nr_idx] .height ;
+        int         hgt ;
+        int         n_hgt ;
 
         /*
           Now we join the two subtrees rooted at
@@ -570,6 +570,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
          r_idx = climb(r,   idx) ;
         nr_idx = climb(r, n_idx) ;
+           hgt = r [ r_idx] .height ;
+         n_hgt = r [nr_idx] .height ;
 
         /*
           At this point we have three possibilities:
-- 
2.43.0


From ac4f0064663280093592d981e448cbee3d5763b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 037/207] fix: SLIC labelled pixels of no finite distance from
 uninitialised memory

---
 vl/slic.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/slic.c b/vl/slic.c
index f6043e0..956e15f 100644
--- a/vl/slic.c
+++ b/vl/slic.c
@@ -267,6 +267,9 @@ vl_slic_segment (vl_uint32 * segmentation,
         vl_index up, vp ;
         float minDistance = VL_INFINITY_F ;
 
+        /* in case no distance is finite */
+        segmentation[x + y * width] = (vl_uint32)(VL_MAX(0, u) + VL_MAX(0, v) * numRegionsX) ;
+
         for (vp = VL_MAX(0, v) ; vp <= VL_MIN((signed)numRegionsY-1, v+1) ; ++vp) {
           for (up = VL_MAX(0, u) ; up <= VL_MIN((signed)numRegionsX-1, u+1) ; ++up) {
             vl_index region = up  + vp * numRegionsX ;
-- 
2.43.0


From 9b63ff6e07425c6e8f9c09baf08e3045a59c843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:59 +0000
Subject: [PATCH 038/207] fix: medoid shift ignored neighbours of negative
 score

---
 vl/quickshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 802dbf2..d9b75d0 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -363,7 +363,7 @@ void vl_quickshift_process(VlQS * q)
     for (i2 = 0 ; i2 < N2 ; ++i2) {
       for (i1 = 0 ; i1 < N1 ; ++i1) {
 
-        vl_qs_type sc_best = 0  ;
+        vl_qs_type sc_best = - VL_QS_INF ;
         /* j1/j2 best are the best indicies for each i */
         vl_qs_type j1_best = i1 ;
         vl_qs_type j2_best = i2 ;
-- 
2.43.0


From 342b37e227319a4896043954f2575524fd317643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:59 +0000
Subject: [PATCH 039/207] fix: quick shift accumulated the density of
 successive calls

---
 vl/quickshift.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index d9b75d0..dd3479a 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -312,6 +312,8 @@ void vl_quickshift_process(VlQS * q)
      0 = dissimilar to everything, windowsize = identical
   */
 
+  memset(E, 0, sizeof(vl_qs_type) * N1 * N2) ;
+
   for (i2 = 0 ; i2 < N2 ; ++ i2) {
     for (i1 = 0 ; i1 < N1 ; ++ i1) {
 
-- 
2.43.0


From 95b6920f02968457b71594b236d9c9ea07f59533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:38 +0000
Subject: [PATCH 040/207] fix: LIOP left out the first pixel of the patch, the
 only one of patches of side one or two

---
 vl/liop.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vl/liop.c b/vl/liop.c
index ae788ec..1b3f3ae 100644
--- a/vl/liop.c
+++ b/vl/liop.c
@@ -352,7 +352,6 @@ vl_liopdesc_new (vl_int numNeighbours, vl_int numSpatialBins,
       for (x = 0 ; x < (signed)sideLength ; ++x) {
         vl_index dx = x - center ;
         vl_index dy = y - center ;
-        if (x == 0 && y == 0) continue ;
         if (dx*dx + dy*dy <= t2) {
           self->patchPixels[self->patchSize++] = x + y * sideLength ;
         }
-- 
2.43.0


From b49f53343ac5b373b0e9ea3642629b23f96fad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:38 +0000
Subject: [PATCH 041/207] fix: LIOP samples falling outside the patch were
 mixed with zeros

---
 vl/liop.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vl/liop.c b/vl/liop.c
index 1b3f3ae..788053c 100644
--- a/vl/liop.c
+++ b/vl/liop.c
@@ -497,8 +497,9 @@ vl_liopdesc_process (VlLiopDesc * self, float * desc, float const * patch)
     sx = self->neighSamplesX + self->numNeighbours * self->patchPermutation[i] ;
     sy = self->neighSamplesY + self->numNeighbours * self->patchPermutation[i] ;
     for (t = 0 ; t < self->numNeighbours ; ++t) {
-      double x = *sx++ ;
-      double y = *sy++ ;
+      /* samples may fall slightly outside the patch: use the nearest in it */
+      double x = VL_MAX(VL_MIN(*sx, self->patchSideLength - 1.0), 0.0) ;
+      double y = VL_MAX(VL_MIN(*sy, self->patchSideLength - 1.0), 0.0) ;
 
       /* bilinear interpolation */
       vl_index ix = vl_floor_d(x) ;
@@ -518,6 +519,8 @@ vl_liopdesc_process (VlLiopDesc * self, float * desc, float const * patch)
 
       self->neighPermutation[t] = t;
       self->neighIntensities[t] = (1 - wy) * (a + (b - a) * wx) + wy * (c + (d - c) * wx) ;
+      ++ sx ;
+      ++ sy ;
     }
     neigh_sort (self, self->numNeighbours) ;
 
-- 
2.43.0


From fe86f5d8f34243904cc0d35744c9543d3213d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 042/207] fix: extracting HOG twice accumulated the norms of
 the cells

---
 vl/hog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hog.c b/vl/hog.c
index 0a14875..a1f779f 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -869,6 +869,7 @@ vl_hog_extract (VlHog * self, float * features)
    */
   {
     float const * iter = self->hog ;
+    memset(self->hogNorm, 0, sizeof(float) * self->hogWidth * self->hogHeight) ;
     for (k = 0 ; k < self->numOrientations ; ++k) {
       float * niter = self->hogNorm ;
       float * niterEnd = self->hogNorm + self->hogWidth * self->hogHeight ;
-- 
2.43.0


From 989217e74c02bfbf76cf435ff7cb31cf46303aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 043/207] fix: HOG of polar fields squared the bilinear
 orientation weights

---
 vl/hog.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/vl/hog.c b/vl/hog.c
index a1f779f..fac76b4 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -818,8 +818,6 @@ void vl_hog_put_polar_field (VlHog * self,
 
         wx1 *= orientationWeights[o] ;
         wx2 *= orientationWeights[o] ;
-        wy1 *= orientationWeights[o] ;
-        wy2 *= orientationWeights[o] ;
 
         /*VL_PRINTF("%d %d - %d %d %f %f - %f %f %f %f - %d \n ",x,y,binx,biny,hx,hy,wx1,wx2,wy1,wy2,o);*/
 
-- 
2.43.0


From 9f4811af0703247866a2924fe7ffdc0a693e8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 044/207] fix: HOG with bilinear assignment to a single
 orientation lost the second bin

---
 vl/hog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/hog.c b/vl/hog.c
index fac76b4..0cddf09 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -674,6 +674,10 @@ vl_hog_put_image (VlHog * self,
         float angle0 = acosf(VL_MIN(orientationWeights[0] / VL_MAX(gradNorm, 1e-10),1.0)) ;
         orientationWeights[1] = angle0 / (VL_PI / self->numOrientations) ;
         orientationWeights[0] = 1 - orientationWeights[1] ;
+        if (self->numOrientations == 1) {
+          /* the second closest directed orientation is the opposite one */
+          orientationBins[1] = 1 - orientationBins[0] ;
+        }
       } else {
         orientationWeights[0] = 1 ;
         orientationBins[1] = -1 ;
-- 
2.43.0


From 0daef87f29cfef665a8a7eeb62386bdaf1b3d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 045/207] fix: equality of scale space geometries compared the
 first sublevel with the last

---
 vl/scalespace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 962f285..5cef333 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -343,7 +343,8 @@ vl_scalespacegeometry_is_equal (VlScaleSpaceGeometry a,
   a.firstOctave == b.firstOctave &&
   a.lastOctave == b.lastOctave &&
   a.octaveResolution == b.octaveResolution &&
-  a.octaveFirstSubdivision == b.octaveLastSubdivision &&
+  a.octaveFirstSubdivision == b.octaveFirstSubdivision &&
+  a.octaveLastSubdivision == b.octaveLastSubdivision &&
   a.baseScale == b.baseScale &&
   a.nominalScale == b.nominalScale ;
 }
-- 
2.43.0


From c5590a6c8270f16088ddde7b4ce24070201bab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 046/207] fix: creating a scale space leaked the octave list
 when memory runs out

---
 vl/scalespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 5cef333..7b6175b 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -587,6 +587,7 @@ err_alloc_octaves:
       vl_free(self->octaves[o - self->geom.firstOctave]) ;
     }
   }
+  vl_free(self->octaves) ;
 err_alloc_octave_list:
   vl_free(self) ;
 err_alloc_self:
-- 
2.43.0


From 2229edc69e3bbe02ee037bcec13080da9c46c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 047/207] fix: downsampling to an octave wrote an extra row
 past the level

---
 vl/scalespace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 7b6175b..a3e2331 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -510,7 +510,7 @@ copy_and_downsample
   if (numOctaves == 0) {
     memcpy(destination, source, sizeof(float) * width * height) ;
   } else {
-    for(y = 0 ; y < (signed)height ; y += step) {
+    for(y = 0 ; y < (signed)height - ((signed)step - 1) ; y += step) {
       float const *p = source + y * width ;
       for(x = 0 ; x < (signed)width - ((signed)step - 1) ; x += step) {
         *destination++ = *p ;
-- 
2.43.0


From c2b03b5f4ddaf14ea5c0d29b31030f9a9aad0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 048/207] fix: scale spaces made of upsampled octaves only
 wrote out of bounds

---
 vl/scalespace.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index a3e2331..b4bb3fd 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -704,6 +704,8 @@ _vl_scalespace_start_octave_from_image (VlScaleSpace *self,
                                         vl_index o)
 {
   float *level ;
+  float const *source ;
+  float *buffer = NULL ;
   double sigma, imageSigma ;
   vl_index op ;
 
@@ -717,14 +719,25 @@ _vl_scalespace_start_octave_from_image (VlScaleSpace *self,
    * downscaling as needed.
    */
 
-  level = vl_scalespace_get_level(self, VL_MAX(0, o), self->geom.octaveFirstSubdivision) ;
-  copy_and_downsample(level, image, self->geom.width, self->geom.height, VL_MAX(0, o)) ;
+  if (o >= 0) {
+    level = vl_scalespace_get_level(self, o, self->geom.octaveFirstSubdivision) ;
+    copy_and_downsample(level, image, self->geom.width, self->geom.height, o) ;
+  }
 
+  source = image ;
   for (op = -1 ; op >= o ; --op) {
     VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
-    float *succLevel = vl_scalespace_get_level(self, op + 1, self->geom.octaveFirstSubdivision) ;
-    level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
-    copy_and_upsample(level, succLevel, ogeom.width, ogeom.height) ;
+    float *previousBuffer = buffer ;
+    if (op <= self->geom.lastOctave) {
+      level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
+      buffer = NULL ;
+    } else {
+      /* this octave is not part of the scale space */
+      level = buffer = vl_malloc(4 * ogeom.width * ogeom.height * sizeof(float)) ;
+    }
+    copy_and_upsample(level, source, ogeom.width, ogeom.height) ;
+    if (previousBuffer) vl_free(previousBuffer) ;
+    source = level ;
   }
 
   /*
-- 
2.43.0


From 8b04befc5d0a5b53fff40d3ae90dfb2200f04961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:14 +0000
Subject: [PATCH 049/207] fix: vl_sift_process_first_octave: upsampling twice
 or more a non-square image

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 03963fe..14a7b4a 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1024,7 +1024,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
       copy_and_upsample_rows (temp, octave,
                               width << -o,      height << -o ) ;
       copy_and_upsample_rows (octave, temp,
-                              width << -o, 2 * (height << -o)) ;
+                              height << -o, 2 * (width << -o)) ;
     }
   }
   else if (o_min > 0) {
-- 
2.43.0


From 9cd8003700214de325153e254fc0cae804a8dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:14 +0000
Subject: [PATCH 050/207] fix: copy_and_downsample (sift.c): do not write a row
 beyond the downsampled image

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 14a7b4a..8b95faa 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -841,7 +841,7 @@ copy_and_downsample
   int x, y ;
 
   d = 1 << d ; /* d = 2^d */
-  for(y = 0 ; y < height ; y+=d) {
+  for(y = 0 ; y < height - (d-1) ; y+=d) {
     vl_sift_pix const * srcrowp = src + y * width ;
     for(x = 0 ; x < width - (d-1) ; x+=d) {
       *dst++ = *srcrowp ;
-- 
2.43.0


From e1ab0f6ccadd06221a5a45e038e93e2a8d09dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:14 +0000
Subject: [PATCH 051/207] fix: vl_sift_process_first_octave: forget the
 gradients of the previous image

---
 vl/sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/sift.c b/vl/sift.c
index 8b95faa..fc57121 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -995,6 +995,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
   /* restart from the first */
   f->o_cur = o_min ;
   f->nkeys = 0 ;
+  f->grad_o = o_min - 1 ;
   w = f-> octave_width  = VL_SHIFT_LEFT(f->width,  - f->o_cur) ;
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
 
-- 
2.43.0


From abf0ce0d966ede81e30e1747d943672e5f5ba943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:14 +0000
Subject: [PATCH 052/207] fix: SIFT descriptors of keypoints on the last row of
 the image

---
 vl/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index fc57121..7386659 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1788,7 +1788,7 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   if(xi    <  0               ||
      xi    >= w               ||
      yi    <  0               ||
-     yi    >= h -    1        )
+     yi    >= h               )
     return ;
 
   /* clear descriptor */
@@ -1978,7 +1978,7 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
      xi    <  0               ||
      xi    >= w               ||
      yi    <  0               ||
-     yi    >= h -    1        ||
+     yi    >= h               ||
      si    <  f->s_min + 1    ||
      si    >  f->s_max - 2     )
     return ;
-- 
2.43.0


From 77db4263513b8fde8473b6ff893b2925964cebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:14 +0000
Subject: [PATCH 053/207] fix: fast_expn (sift.c): do not read past the table

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 7386659..0a37559 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -695,7 +695,7 @@ fast_expn (double x)
   int i ;
   /*assert(0 <= x && x <= EXPN_MAX) ;*/
 
-  if (x > EXPN_MAX) return 0.0 ;
+  if (x >= EXPN_MAX) return 0.0 ;
 
   x *= EXPN_SZ / EXPN_MAX ;
   i = (int)vl_floor_d (x) ;
-- 
2.43.0


From 2159cf266e5a5b590efa3c7448707e2a1ecfa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 054/207] fix: vl_dsift_process: images of one row or one
 column were read out of bounds

---
 vl/dsift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4819a1f..4b5bf0d 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -685,7 +685,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       int bint ;
 
       /* y derivative */
-      if (y == 0) {
+      if (self->imHeight == 1) {
+        gy = 0 ;
+      } else if (y == 0) {
         gy = at(x,y+1) - at(x,y) ;
       } else if (y == self->imHeight - 1) {
         gy = at(x,y) - at(x,y-1) ;
@@ -694,7 +696,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       }
 
       /* x derivative */
-      if (x == 0) {
+      if (self->imWidth == 1) {
+        gx = 0 ;
+      } else if (x == 0) {
         gx = at(x+1,y) - at(x,y) ;
       } else if (x == self->imWidth - 1) {
         gx = at(x,y) - at(x-1,y) ;
-- 
2.43.0


From 6ef270136418802f5f24933cd3412dc86ad4168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 055/207] fix: vl_dsift_process: a single orientation bin lost
 part of the gradients

---
 vl/dsift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4b5bf0d..9cbacdb 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -717,7 +717,7 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
 
       /* write it back */
       self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] = (1 - rbint) * mod ;
-      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] = (    rbint) * mod ;
+      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] += (    rbint) * mod ;
     }
   }
 
-- 
2.43.0


From 75e9165db7bb610f11a86a868e4d6a04f46ce806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 056/207] fix: vl_pgm_extract_head: the test of the largest
 grey value was inverted

Every valid image was refused and every image with an invalid maximum
accepted; negative sizes were accepted too.
---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 72110a3..d610ca9 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(! (max_value >= 65536)) {
+  if (width < 0 || height < 0 || max_value < 1 || max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From 75a8bd635e89654e2b55aa4d39f167a759a1644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 057/207] fix: vl_pgm_extract_head: numbers larger than an int
 wrapped around

---
 vl/pgm.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index d610ca9..9b312ba 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -163,9 +163,9 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
   char magic [2] ;
   int c ;
   int is_raw ;
-  int width ;
-  int height ;
-  int max_value ;
+  long width ;
+  long height ;
+  long max_value ;
   size_t sz ;
   vl_bool good ;
 
@@ -206,19 +206,19 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
   c = remove_blanks(f) ;
   good &= c > 0 ;
 
-  c = fscanf(f, "%d", &width) ;
+  c = fscanf(f, "%ld", &width) ;
   good &= c == 1 ;
 
   c = remove_blanks(f) ;
   good &= c > 0 ;
 
-  c = fscanf(f, "%d", &height) ;
+  c = fscanf(f, "%ld", &height) ;
   good &= c == 1 ;
 
   c = remove_blanks(f) ;
   good &= c > 0 ;
 
-  c = fscanf(f, "%d", &max_value) ;
+  c = fscanf(f, "%ld", &max_value) ;
   good &= c == 1 ;
 
   /* must end with a single blank */
@@ -233,7 +233,8 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if (width < 0 || height < 0 || max_value < 1 || max_value >= 65536) {
+  if (width < 0 || width > 0x7fffffff || height < 0 || height > 0x7fffffff ||
+      max_value < 1 || max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From 9714c9dc6d8eee7464f171d7c49c779735f027c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 058/207] fix: vl_pgm_extract_data: check the values of an
 ASCII image

The format " %ud" also consumed a letter d, values beyond the maximum
were truncated, and after a failed conversion an undefined value was stored.
---
 vl/pgm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 9b312ba..7718322 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -305,17 +305,18 @@ vl_pgm_extract_data (FILE* f, VlPgmImage const *im, void *data)
   */
   else {
     vl_uindex i ;
-    int unsigned v ;
+    long unsigned v ;
     for(good = 1, i = 0 ;
         i < data_size && good ;
         ++i) {
-      c = fscanf(f, " %ud", &v) ;
+      c = fscanf(f, " %lu", &v) ;
+      good &= (c == 1) && (v <= im->max_value) ;
+      if (! good) break ;
       if (bpp == 1) {
         * ((vl_uint8* )  data + i) = (vl_uint8)  v ;
       } else {
         * ((vl_uint16*)  data + i) = (vl_uint16) v ;
       }
-      good &= c == 1 ;
     }
   }
 
-- 
2.43.0


From fcaa9c590a76e215a095c396a4943da2506cd545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 059/207] fix: vl_pgm_read_new: errors closed the file twice or
 not at all

A file with bad data freed the address of the caller's pointer and closed
the stream twice; one with two bytes per pixel left it open; a failed
allocation was not noticed.
---
 vl/pgm.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 7718322..c55b5d5 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -409,15 +409,20 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   if (vl_pgm_get_bpp(im) > 1) {
+    fclose (f) ;
     return vl_set_last_error(VL_ERR_BAD_ARG, "PGM with BPP > 1 not supported") ;
   }
 
   *data = vl_malloc (vl_pgm_get_npixels(im) * sizeof(vl_uint8)) ;
+  if (! *data && vl_pgm_get_npixels(im) > 0) {
+    fclose (f) ;
+    return vl_set_last_error(VL_ERR_ALLOC, NULL) ;
+  }
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
-    vl_free (data) ;
-    fclose (f) ;
+    vl_free (*data) ;
+    *data = NULL ;
   }
 
   fclose (f) ;
@@ -455,6 +460,10 @@ int vl_pgm_read_new_f (char const *name,  VlPgmImage *im, float** data)
 
   npixels = vl_pgm_get_npixels(im) ;
   *data = vl_malloc (sizeof(float) * npixels) ;
+  if (! *data && npixels > 0) {
+    vl_free (idata) ;
+    return vl_set_last_error(VL_ERR_ALLOC, NULL) ;
+  }
   {
     size_t k ;
     float scale = 1.0f / (float)im->max_value ;
-- 
2.43.0


From 956b7287d181d128ebcd51a8f55b744b09778db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 060/207] fix: writing a PGM image: report failures of the
 device and of memory

---
 vl/pgm.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index c55b5d5..348c6a6 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -343,17 +343,22 @@ vl_pgm_insert(FILE* f, VlPgmImage const *im, void const *data)
   size_t c ;
 
   /* write preamble */
-  fprintf(f,
-          "P5\n%d\n%d\n%d\n",
-          (signed)im->width,
-          (signed)im->height,
-          (signed)im->max_value) ;
+  if (fprintf(f,
+              "P5\n%d\n%d\n%d\n",
+              (signed)im->width,
+              (signed)im->height,
+              (signed)im->max_value) < 0) {
+    return vl_set_last_error(VL_ERR_PGM_IO, "Error writing PGM data") ;
+  }
 
   /* take care of endianness */
 #if defined(VL_ARCH_LITTLE_ENDIAN)
   if (bpp == 2) {
     vl_uindex i ;
     vl_uint8* temp = vl_malloc (2 * data_size) ;
+    if (! temp && data_size > 0) {
+      return vl_set_last_error(VL_ERR_ALLOC, NULL) ;
+    }
     memcpy(temp, data, 2 * data_size) ;
     for(i = 0 ; i < 2 * data_size ; i += 2) {
       vl_uint8 tmp = temp [i] ;
@@ -505,7 +510,9 @@ int vl_pgm_write (char const *name, vl_uint8 const* data, int width, int height)
   pgm.max_value = 255 ;
 
   err = vl_pgm_insert (f, &pgm, data) ;
-  fclose (f) ;
+  if (fclose (f) && ! err) {
+    err = vl_set_last_error(VL_ERR_PGM_IO, "Error writing PGM file '%s'", name) ;
+  }
 
   return err ;
 }
@@ -534,6 +541,9 @@ int vl_pgm_write_f (char const *name, float const* data, int width, int height)
   float scale ;
 
   vl_uint8 * buffer = vl_malloc (sizeof(float) * width * height) ;
+  if (! buffer && width > 0 && height > 0) {
+    return vl_set_last_error(VL_ERR_ALLOC, NULL) ;
+  }
 
   for (k = 0 ; k < width * height ; ++k) {
     min = VL_MIN(min, data [k]) ;
-- 
2.43.0


From ea52ce752be28882a29dc5f99c4d605177229f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:34 +0000
Subject: [PATCH 061/207] fix: vl_irodrigues: rounding errors gave NaN near the
 identity and half turns

---
 vl/rodrigues.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index 14958c9..a94113e 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -189,7 +189,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
       ---- = ---------- r,  ---- = ----- [di1 dj3 - di3 dj1].
       dRii     2 sth^2      dRij   2 sth [di1 dj2 - di2 dj1]
 
-      trace(A) < -1 only for small num. errors.
+      trace(A) < -1 or trace(A) > 3 only for small num. errors.
   */
 
 #define OM(i)    om_pt[(i)]
@@ -200,7 +200,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
   const double small = 1e-6 ;
 
   double th = acos
-    (0.5*(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0) - 1.0)) ;
+    (0.5*(VL_MIN(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0),3.0) - 1.0)) ;
 
   double sth = sin(th) ;
   double cth = cos(th) ;
@@ -233,9 +233,9 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
     W_pt[8] =  0.5*( R(2,2) + R(2,2) ) - 1.0 ;
 
     /* these are only absolute values */
-    x = sqrt( 0.5 * (W(0,0)-W(1,1)-W(2,2)) ) ;
-    y = sqrt( 0.5 * (W(1,1)-W(2,2)-W(0,0)) ) ;
-    z = sqrt( 0.5 * (W(2,2)-W(0,0)-W(1,1)) ) ;
+    x = sqrt( VL_MAX(0.5 * (W(0,0)-W(1,1)-W(2,2)), 0) ) ;
+    y = sqrt( VL_MAX(0.5 * (W(1,1)-W(2,2)-W(0,0)), 0) ) ;
+    z = sqrt( VL_MAX(0.5 * (W(2,2)-W(0,0)-W(1,1)), 0) ) ;
 
     /* set the biggest component to + and use the element of the
     ** matrix W to determine the sign of the other components
-- 
2.43.0


From a9b88a0e13c3f8e8fcf9768b2769c3f023e5c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 062/207] fix: vl_covdet_reset: forget the number of features
 with the features

The next append wrote through the freed buffer's stale size.
---
 vl/covdet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index d3cfa96..784ff6e 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1623,6 +1623,8 @@ vl_covdet_reset (VlCovDet * self)
     vl_free(self->features) ;
     self->features = NULL ;
   }
+  self->numFeatures = 0 ;
+  self->numFeatureBufferSize = 0 ;
   if (self->css) {
     vl_scalespace_delete(self->css) ;
     self->css = NULL ;
-- 
2.43.0


From 24fe9ef3760eb8f6c19488edeedae8a9ed1b1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 063/207] fix: vl_covdet_put_image: wrong last octave when the
 number of octaves is set

---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 784ff6e..97574dd 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1710,7 +1710,7 @@ vl_covdet_put_image (VlCovDet * self,
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
   lastOctave = vl_floor_d(vl_log2_d(VL_MIN((double)width-1,(double)height-1) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
-      lastOctave = VL_MIN((vl_index)self->numOctaves - self->firstOctave - 1, lastOctave);
+      lastOctave = VL_MIN(self->firstOctave + (vl_index)self->numOctaves - 1, lastOctave);
   }
 
   if (self->method == VL_COVDET_METHOD_DOG) {
-- 
2.43.0


From a5804675245f180fbca2d1e8fe11b5470200b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 064/207] fix: vl_covdet_put_image: small images gave a scale
 space without octaves

---
 vl/covdet.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 97574dd..7a2ecfa 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1708,10 +1708,12 @@ vl_covdet_put_image (VlCovDet * self,
   assert (height >= 1) ;
 
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
-  lastOctave = vl_floor_d(vl_log2_d(VL_MIN((double)width-1,(double)height-1) / (minOctaveSize - 1))) ;
+  lastOctave = vl_floor_d(vl_log2_d(VL_MAX(1.0, VL_MIN((double)width-1,(double)height-1)) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
       lastOctave = VL_MIN(self->firstOctave + (vl_index)self->numOctaves - 1, lastOctave);
   }
+  /* there is always at least one octave, even for small images */
+  lastOctave = VL_MAX(lastOctave, self->firstOctave) ;
 
   if (self->method == VL_COVDET_METHOD_DOG) {
     octaveFirstSubdivision = -1 ;
-- 
2.43.0


From 66bc9998b92690f3b532a3e797ba9d68ff61fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 065/207] fix: _vl_det_hessian_response: images smaller than
 3x3 overran the buffers

---
 vl/covdet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 7a2ecfa..d649f2a 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1779,6 +1779,12 @@ _vl_det_hessian_response (float * hessian,
   /* setup output pointer to be centered at 1,1 */
   float *out = hessian + xo + yo;
 
+  /* the image is too small for the derivatives */
+  if (width < 3 || height < 3) {
+    memset(hessian, 0, sizeof(float) * width * height) ;
+    return ;
+  }
+
   /* move 3x3 window and convolve */
   for (r = 1; r < height - 1; ++r)
   {
-- 
2.43.0


From c7d834735ca2a871eeb4fdc33621525bf667bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 066/207] fix: vl_covdet_detect: multiscale methods skipped the
 last level of each octave

With a resolution of one level per octave nothing was ever detected.
---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index d649f2a..9eb7b54 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2067,7 +2067,7 @@ vl_covdet_detect (VlCovDet * self)
 
         default:
         {
-          for (s = cgeom.octaveFirstSubdivision ; s < cgeom.octaveLastSubdivision ; ++s) {
+          for (s = cgeom.octaveFirstSubdivision ; s <= cgeom.octaveLastSubdivision ; ++s) {
             /* space extrema */
             float const * level = vl_scalespace_get_level(self->css,o,s) ;
             numExtrema = vl_find_local_extrema_2(&extrema, &extremaBufferSize,
-- 
2.43.0


From 9995bbf8c984ea115815fe8e0f9362d75e141ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 067/207] fix: vl_covdet_detect: extrema refined to the same
 point were reported twice

---
 vl/covdet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 9eb7b54..9e8b85b 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2134,6 +2134,12 @@ vl_covdet_detect (VlCovDet * self)
         double sigma_ = self->features[j].frame.a11 ;
         double score_ = self->features[j].peakScore ;
         if (score_ == 0) continue ;
+        /* extrema refined to the same point are the same feature */
+        if (j > i && dx_ == 0 && dy_ == 0 && sigma_ == sigma && score_ == score) {
+          self->features[j].peakScore = 0 ;
+          self->numNonExtremaSuppressed ++ ;
+          continue ;
+        }
         if (sigma < (1+tol) * sigma_ &&
             sigma_ < (1+tol) * sigma &&
             vl_abs_d(dx_) < tol * sigma &&
-- 
2.43.0


From ad0a314771b8d213829a70bebd47ce97764e7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:38 +0000
Subject: [PATCH 068/207] fix: Elkan k-means: allDone was written by several
 threads at once

---
 vl/kmeans.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index e17d8a7..acff6a4 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -1494,8 +1494,9 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
             shared(self,numData, \
               pointToClosestCenterUB,pointToCenterLB, \
               nextCenterDistances,pointToClosestCenterUBIsStrict, \
-              assignments,data,distFn,allDone) \
+              assignments,data,distFn) \
             private(c,x) \
+            reduction(&&:allDone) \
             reduction(+:numDistanceComputationsToRefreshUB,numDistanceComputationsToRefreshLB) \
             num_threads(vl_get_max_threads())
 #endif
-- 
2.43.0


From 0ede19a09390af6ea466e725b3c2693ce6c69e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:38 +0000
Subject: [PATCH 069/207] fix: kmeans.h: declare vl_kmeans_quantize_ann, the
 function the library has

---
 vl/kmeans.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.h b/vl/kmeans.h
index a3cd176..623a1cc 100644
--- a/vl/kmeans.h
+++ b/vl/kmeans.h
@@ -92,12 +92,12 @@ VL_EXPORT void vl_kmeans_quantize (VlKMeans * self,
                                    void const * data,
                                    vl_size numData) ;
 
-VL_EXPORT void vl_kmeans_quantize_ANN (VlKMeans * self,
+VL_EXPORT void vl_kmeans_quantize_ann (VlKMeans * self,
                                    vl_uint32 * assignments,
                                    void * distances,
                                    void const * data,
                                    vl_size numData,
-                                   vl_size iteration );
+                                   vl_bool update);
 /** @} */
 
 /** @name Advanced data processing
-- 
2.43.0


From 640569ee33a18dffbd48e1a12db9a0e61fad2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 070/207] fix: covdet.h: declare
 vl_covdet_get_laplacian_peak_threshold under its name

---
 vl/covdet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.h b/vl/covdet.h
index a30e9b0..d8bfa36 100644
--- a/vl/covdet.h
+++ b/vl/covdet.h
@@ -236,7 +236,7 @@ VL_EXPORT double vl_covdet_get_base_scale (VlCovDet const * self) ;
 VL_EXPORT vl_size vl_covdet_get_octave_resolution (VlCovDet const * self) ;
 VL_EXPORT double vl_covdet_get_peak_threshold (VlCovDet const * self) ;
 VL_EXPORT double vl_covdet_get_edge_threshold (VlCovDet const * self) ;
-VL_EXPORT double vl_covdeg_get_laplacian_peak_threshold (VlCovDet const * self) ;
+VL_EXPORT double vl_covdet_get_laplacian_peak_threshold (VlCovDet const * self) ;
 VL_EXPORT vl_size vl_covdet_get_max_num_orientations (VlCovDet const * self) ;
 VL_EXPORT vl_bool vl_covdet_get_transposed (VlCovDet const * self) ;
 VL_EXPORT VlScaleSpace *  vl_covdet_get_gss (VlCovDet const * self) ;
-- 
2.43.0


From 1bdffc396ecaa18c2e9036aa78435dbf03ff28a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 071/207] fix: vl_covdet: the padding of patches lost the last
 columns, wrote outside its buffer, or was zero

---
 vl/covdet.c | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 9e8b85b..33a0b8e 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2332,12 +2332,6 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
      
       vl_index xi, yi ;
 
-      /* compute the amount of l,r,t,b padding needed to complete the patch */
-      vl_index padx0 = VL_MAX(0, - x0i) ;
-      vl_index pady0 = VL_MAX(0, - y0i) ;
-      vl_index padx1 = VL_MAX(0, x1i - ((signed)width - 1)) ;
-      vl_index pady1 = VL_MAX(0, y1i - ((signed)height - 1)) ;
-
       /* make enough room for the patch */
       vl_index patchWidth = x1i - x0i + 1 ;
       vl_index patchHeight = y1i - y0i + 1 ;
@@ -2347,29 +2341,13 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
         if (err) return vl_set_last_error(VL_ERR_ALLOC, "Unable to allocate data.") ;
       }
 
-      if (pady0 < patchHeight - pady1) {
-        /* start by filling the central horizontal band */
-        for (yi = y0i + pady0 ; yi < y0i + patchHeight - pady1 ; ++ yi) {
-          float *dst = self->patch + (yi - y0i) * patchWidth ;
-          float const *src = level + yi * width + VL_MIN(VL_MAX(0, x0i),(signed)width-1) ;
-          for (xi = x0i ; xi < x0i + padx0 ; ++xi) *dst++ = *src ;
-          for ( ; xi < x0i + patchWidth - padx1 - 2 ; ++xi) *dst++ = *src++ ;
-          for ( ; xi < x0i + patchWidth ; ++xi) *dst++ = *src ;
-        }
-        /* now extend the central band up and down */
-        for (yi = 0 ; yi < pady0 ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + pady0 * patchWidth,
-                 patchWidth * sizeof(float)) ;
+      /* copy the region, repeating the pixels at the image boundary */
+      for (yi = y0i ; yi <= y1i ; ++ yi) {
+        float *dst = self->patch + (yi - y0i) * patchWidth ;
+        float const *src = level + VL_MIN(VL_MAX(0, yi),(signed)height-1) * (signed)width ;
+        for (xi = x0i ; xi <= x1i ; ++xi) {
+          *dst++ = src[VL_MIN(VL_MAX(0, xi),(signed)width-1)] ;
         }
-        for (yi = patchHeight - pady1 ; yi < patchHeight ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + (patchHeight - pady1 - 1) * patchWidth,
-                 patchWidth * sizeof(float)) ;
-        }
-      } else {
-        /* should be handled better! */
-        memset(self->patch, 0, self->patchBufferSize) ;
       }
 #if 0
       {
-- 
2.43.0


From 146abd66c1f9862e636caf257646bc07b44b5492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 072/207] fix: vl_covdet: the level for a patch was not the one
 closest to the smoothing asked for

---
 vl/covdet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 33a0b8e..b54d832 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2244,7 +2244,7 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
   factor = 1.0 / VL_MIN(d1, d2) ;
 
   for (o = geom.firstOctave + 1 ; o <= geom.lastOctave ; ++o) {
-    s = vl_floor_d(vl_log2_d(sigma / (factor * geom.baseScale)) - o) ;
+    s = vl_floor_d(geom.octaveResolution * (vl_log2_d(sigma / (factor * geom.baseScale)) - o)) ;
     s = VL_MAX(s, geom.octaveFirstSubdivision) ;
     s = VL_MIN(s, geom.octaveLastSubdivision) ;
     sigma_ = geom.baseScale * pow(2.0, o + (double)s / geom.octaveResolution) ;
@@ -2255,7 +2255,7 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
     }
   }
   o = VL_MIN(o, geom.lastOctave) ;
-  s = vl_floor_d(vl_log2_d(sigma / (factor * geom.baseScale)) - o) ;
+  s = vl_floor_d(geom.octaveResolution * (vl_log2_d(sigma / (factor * geom.baseScale)) - o)) ;
   s = VL_MAX(s, geom.octaveFirstSubdivision) ;
   s = VL_MIN(s, geom.octaveLastSubdivision) ;
   sigma_ = geom.baseScale * pow(2.0, o + (double)s / geom.octaveResolution) ;
-- 
2.43.0


From fb22825084cb977628ac1f13a51e3665eed5859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 073/207] fix: vl_covdet: reflected frames: the singular values
 of their maps may be negative

---
 vl/covdet.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index b54d832..70ace32 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2209,6 +2209,10 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
   VlScaleSpaceGeometry geom = vl_scalespace_get_geometry(self->gss) ;
   VlScaleSpaceOctaveGeometry oct ;
 
+  /* vl_svd2 may return negative singular values (reflections) */
+  d1 = vl_abs_d(d1) ;
+  d2 = vl_abs_d(d2) ;
+
   /* Starting from a pre-smoothed image at scale sigma_
      because of the mapping A the resulting smoothing in
      the warped patch is S, where
@@ -2500,7 +2504,7 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
 
     /* A = U D V' */
     vl_svd2(D, U, V, A) ;
-    anisotropy = VL_MAX(D[0]/D[3], D[3]/D[0]) ;
+    anisotropy = VL_MAX(vl_abs_d(D[0]/D[3]), vl_abs_d(D[3]/D[0])) ;
 
     /* VL_PRINTF("anisot: %g\n", anisotropy); */
 
@@ -2512,10 +2516,10 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
     /* make sure that the smallest singluar value stays fixed
        after the first iteration */
     if (iter == 0) {
-      referenceScale = VL_MIN(D[0], D[3]) ;
+      referenceScale = VL_MIN(vl_abs_d(D[0]), vl_abs_d(D[3])) ;
       factor = 1.0 ;
     } else {
-      factor = referenceScale / VL_MIN(D[0],D[3]) ;
+      factor = referenceScale / VL_MIN(vl_abs_d(D[0]), vl_abs_d(D[3])) ;
     }
 
     D[0] *= factor ;
-- 
2.43.0


From 98aacb3e46ab33947e3326653e58311a811cce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 074/207] fix: vl_covdet: kept the first orientations instead
 of the best ones, and more than 4 overflowed their buffer

---
 vl/covdet.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 70ace32..4ff2e1a 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1478,7 +1478,7 @@ struct _VlCovDet
   vl_size patchBufferSize ;
 
   vl_bool transposed ;
-  VlCovDetFeatureOrientation orientations [VL_COVDET_MAX_NUM_ORIENTATIONS] ;
+  VlCovDetFeatureOrientation orientations [VL_COVDET_OR_NUM_ORIENTATION_HISTOGAM_BINS] ;
   VlCovDetFeatureLaplacianScale scales [VL_COVDET_MAX_NUM_LAPLACIAN_SCALES] ;
 
   vl_bool aaAccurateSmoothing ;
@@ -2722,6 +2722,7 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
   double const binExtent = 2 * VL_PI / VL_COVDET_OR_NUM_ORIENTATION_HISTOGAM_BINS ;
   double const peakRelativeSize = VL_COVDET_OR_ADDITIONAL_PEAKS_RELATIVE_SIZE ;
   double maxPeakValue ;
+  vl_size numPeaks ;
 
   double A [2*2] = {frame.a11, frame.a21, frame.a12, frame.a22} ;
   double T [2] = {frame.x, frame.y} ;
@@ -2823,7 +2824,7 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
   }
 
   /* find peaks within 80% from max */
-  *numOrientations = 0 ;
+  numPeaks = 0 ;
   for(i = 0 ; i < (signed)numBins ; ++i) {
     double h0 = hist [i] ;
     double hm = hist [(i - 1 + numBins) % numBins] ;
@@ -2838,20 +2839,19 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
         /* the axis to the right is y, measure orientations from this */
         th = th - VL_PI/2 ;
       }
-      self->orientations[*numOrientations].angle = th ;
-      self->orientations[*numOrientations].score = h0 ;
-      *numOrientations += 1 ;
-      //VL_PRINTF("%d %g\n", *numOrientations, th) ;
-
-      if (*numOrientations >= self->maxNumOrientations) break ;
+      self->orientations[numPeaks].angle = th ;
+      self->orientations[numPeaks].score = h0 ;
+      numPeaks += 1 ;
+      //VL_PRINTF("%d %g\n", numPeaks, th) ;
     }
   }
 
-  /* sort the orientations by decreasing scores */
+  /* sort the orientations by decreasing scores and keep the best ones */
   qsort(self->orientations,
-        *numOrientations,
+        numPeaks,
         sizeof(VlCovDetFeatureOrientation),
         _vl_covdet_compare_orientations_descending) ;
+  *numOrientations = VL_MIN(numPeaks, self->maxNumOrientations) ;
 
   return self->orientations ;
 }
-- 
2.43.0


From 29ca55ba58aa4a8042d94d31f8776a1600b7551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 075/207] fix: vl_covdet_extract_affine_shape: NaN frames where
 the gradient has only one direction

---
 vl/covdet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 4ff2e1a..b61106f 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2579,6 +2579,12 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
     /* decompose M = P * Q * P' */
     vl_svd2 (Q, P, P_, M) ;
 
+    /* the shape is not defined if the gradient has only one direction */
+    if (! (Q[0] > 0 && Q[3] > 0)) {
+      *adapted = frame ;
+      break ;
+    }
+
     /*
      Setting A <- A * dA results in M to change approximatively as
 
-- 
2.43.0


From cbd8ce871a3dd089d9b5eddd8675c7f120e6e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:40 +0000
Subject: [PATCH 076/207] fix: vl_covdet: the score of Laplacian scales
 overshot the interpolated extremum

---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index b61106f..e38d4a3 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -3014,7 +3014,7 @@ vl_covdet_extract_laplacian_scales_for_frame (VlCovDet * self,
        */
       if (*numScales < VL_COVDET_MAX_NUM_LAPLACIAN_SCALES) {
         self->scales[*numScales].scale = scale * factor ;
-        self->scales[*numScales].score = b + 0.5 * (c - a) * dk ;
+        self->scales[*numScales].score = b + 0.25 * (c - a) * dk ;
         *numScales += 1 ;
       }
     }
-- 
2.43.0


From 2688fd28e89450a827d17f08c18ce14bd2051265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:41 +0000
Subject: [PATCH 077/207] fix: vl_covdet_extract_laplacian_scales: dropped
 features with a zero peak score although they have a scale

---
 vl/covdet.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index e38d4a3..1880803 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -3035,6 +3035,7 @@ vl_covdet_extract_laplacian_scales (VlCovDet * self)
   vl_index i, j  ;
   vl_bool dropFeaturesWithoutScale = VL_TRUE ;
   vl_size numFeatures = vl_covdet_get_num_features(self) ;
+  vl_size numKept = 0 ;
   memset(self->numFeaturesWithNumScales, 0,
          sizeof(self->numFeaturesWithNumScales)) ;
 
@@ -3046,10 +3047,6 @@ vl_covdet_extract_laplacian_scales (VlCovDet * self)
 
     self->numFeaturesWithNumScales[numScales] ++ ;
 
-    if (numScales == 0 && dropFeaturesWithoutScale) {
-      self->features[i].peakScore = 0 ;
-    }
-
     for (j = 0 ; j < (signed)numScales ; ++j) {
       VlCovDetFeature * scaled ;
 
@@ -3066,18 +3063,17 @@ vl_covdet_extract_laplacian_scales (VlCovDet * self)
       scaled->frame.a12 *= scales[j].scale ;
       scaled->frame.a22 *= scales[j].scale ;
     }
-  }
-  if (dropFeaturesWithoutScale) {
-    j = 0 ;
-    for (i = 0 ; i < (signed)self->numFeatures ; ++i) {
-      VlCovDetFeature feature = self->features[i] ;
-      if (feature.peakScore) {
-        self->features[j++] = feature ;
-      }
+
+    if (numScales > 0 || ! dropFeaturesWithoutScale) {
+      self->features[numKept++] = self->features[i] ;
     }
-    self->numFeatures = j ;
   }
 
+  /* the features appended above all have a scale */
+  for (i = numFeatures ; i < (signed)self->numFeatures ; ++i) {
+    self->features[numKept++] = self->features[i] ;
+  }
+  self->numFeatures = numKept ;
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0


From 2984cf0566d64f0b156f5fc1972bcdfcadf60a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:03 +0000
Subject: [PATCH 078/207] fix: real arrays are not sparse

The functions testing their arguments with vlmxIsReal or vlmxIsPlain read
the data of a sparse array as if it were full, past its end.
---
 toolbox/mexutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index d7559af..b5275aa 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -146,7 +146,7 @@ mxSetDimensionsOctaveWorkaround(mxArray * array, const mwSize  *dims, int ndims)
    column major order and its dimensions can be obtained by @c mxGetM
    and @c mxGetN.  Use ::vlmxIsMatrix to test if an array is a matrix.
 
- - <b>Real array</b> is a numeric array (as for @c mxIsNumeric)
+ - <b>Real array</b> is a non-sparse numeric array (as for @c mxIsNumeric)
    without a complex component. Use ::vlmxIsReal to check if an array
    is real.
 
@@ -320,7 +320,7 @@ vlmxIsOfClass (mxArray const * array, mxClassID classId)
 VL_INLINE vl_bool
 vlmxIsReal (mxArray const * array)
 {
-  return mxIsNumeric (array) && ! mxIsComplex (array) ;
+  return mxIsNumeric (array) && ! mxIsComplex (array) && ! mxIsSparse (array) ;
 }
 
 /** @} */
-- 
2.43.0


From 1dd4e84c265103cf07bba13656637e6300d65e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:03 +0000
Subject: [PATCH 079/207] fix: vlmxIsMatrix does not read past the dimensions
 of the array

---
 toolbox/mexutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index b5275aa..2cbd071 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -412,7 +412,7 @@ vlmxIsMatrix (mxArray const * array, vl_index M, vl_index N)
   }
 
   /* ok if any dimension beyond the first two is singleton */
-  for (di = 2 ; ((unsigned)dimensions[di] == 1) && di < numDimensions ; ++ di) ;
+  for (di = 2 ; di < numDimensions && ((unsigned)dimensions[di] == 1) ; ++ di) ;
   return di == numDimensions ;
 }
 
-- 
2.43.0


From 507dad84931cbce604174ad34c38c9e720cb610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:03 +0000
Subject: [PATCH 080/207] fix: vl_binsum checks the dimensions of its arguments

The test for a different number of dimensions had its negation misplaced,
the loop ran over the dimensions of a scalar VALUES instead of those of
INDEXES, and empty VALUES were read as a scalar, so that incompatible
arrays were accepted and memory outside them accessed; the dimension DIM
of INDEXES was read past the end when it is a trailing singleton.
---
 toolbox/misc/vl_binsum.def | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index 4460c6d..f5123e0 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -97,7 +97,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
   B_end = B_pt + KB ;
 
-  if ((KX != KB) && (KX > 1)) {
+  if ((KX != KB) && (KX != 1)) {
     vlmxError(vlmxErrInvalidArgument,
               "VALUES and INDEXES do not have the same number of elements nor VALUES is a scalar.") ;
   }
@@ -146,6 +146,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
     __INDEX_T__ const * B_nbrk ;
 
     vl_size srd ;
+    vl_size nd ;
 
     /* We need to check a few more details about the matrices */
     if (d >= HD) {
@@ -163,13 +164,13 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     if (HD != BD) {
-      if (! (d == HD - 1) && BD == HD - 1) {
+      if (! (d == HD - 1 && BD == HD - 1)) {
         vlmxError(vlmxErrInconsistentData,
                   "ACCUMULATOR and INDEXES do not have the same number of dimensions.") ;
       }
     }
 
-    if ((BD != XD) && (KX > 1)) {
+    if ((BD != XD) && (KX != 1)) {
       vlmxError(vlmxErrInconsistentData,
                 "VALUES is not a scalar nor has the same number of dimensions of INDEXES.") ;
     }
@@ -180,8 +181,8 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     srd = 1 ;
 
-    for(k = 0 ; k < (signed) XD ; ++k) {
-      if (KX > 1 &&  Xdims[k] != Bdims[k]) {
+    for(k = 0 ; k < (signed) BD ; ++k) {
+      if (KX != 1 &&  Xdims[k] != Bdims[k]) {
         vlmxError(vlmxErrInconsistentData,
                   "VALUES and INDEXES have incompatible dimensions.") ;
       }
@@ -231,8 +232,9 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     KH     = Hdims[d] ;
+    nd     = (d < BD) ? Bdims[d] : 1 ; /* trailing singleton */
     B_brk  = B_pt + srd ;              /* next time case (b) */
-    B_nbrk = B_pt + srd * Bdims [d] ;  /* next time case (c) */
+    B_nbrk = B_pt + srd * nd ;         /* next time case (c) */
 
     while (B_pt < B_end) {
 
@@ -261,7 +263,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
         B_brk += srd ;                     /* next time case (b) */
         H_pt  -= srd ;
         if (B_pt == B_nbrk) {              /* case (c) occurs */
-          B_nbrk += srd * Bdims[d] ;       /* next time case (c) */
+          B_nbrk += srd * nd ;             /* next time case (c) */
           H_pt   += srd * Hdims[d] ;
         }
       }
-- 
2.43.0


From f69a8e61d7ed3f0f7563df49a70e2b7a04114275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 081/207] fix: the hash table functions reject a table of no
 buckets

K = 0 divided by zero, and a negative K was converted to an unsigned integer.
---
 toolbox/misc/vl_ihashfind.c | 9 ++++++---
 toolbox/misc/vl_ihashsum.c  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/toolbox/misc/vl_ihashfind.c b/toolbox/misc/vl_ihashfind.c
index 6932e2c..5355891 100644
--- a/toolbox/misc/vl_ihashfind.c
+++ b/toolbox/misc/vl_ihashfind.c
@@ -121,6 +121,12 @@ mexFunction(int nout, mxArray *out[],
   if(! vlmxIsPlainScalar(in[IN_K])) {
     mexErrMsgTxt("K must be a scalar") ;
   }
+  if (! (*mxGetPr(in[IN_K]) >= 1)) {
+    mexErrMsgTxt("K must be positive") ;
+  }
+  if (! (*mxGetPr(in[IN_K]) <= res)) {
+    mexErrMsgTxt("K cannot be larger then the size of H") ;
+  }
   K     = (unsigned int) *mxGetPr(in[IN_K]) ;
 
   N    = mxGetN(in[IN_X]) ;
@@ -138,9 +144,6 @@ mexFunction(int nout, mxArray *out[],
 
   /* REMARK: last and next are 1 based */
 
-  if (K > res) {
-    mexErrMsgTxt("K cannot be larger then the size of H") ;
-  }
   if (last > res) {
     mexErrMsgTxt("An element of NEXT is greater than the size of the table") ;
   }
diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 5fb7f09..c272b05 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -127,6 +127,12 @@ mexFunction(int nout, mxArray *out[],
   if(! vlmxIsPlainScalar(in[IN_K])) {
     mexErrMsgTxt("K must be a scalar") ;
   }
+  if (! (*mxGetPr(in[IN_K]) >= 1)) {
+    mexErrMsgTxt("K must be positive") ;
+  }
+  if (! (*mxGetPr(in[IN_K]) <= res)) {
+    mexErrMsgTxt("K cannot be larger then the size of H") ;
+  }
   K     = (unsigned int) *mxGetPr(in[IN_K]) ;
 
   h_    = mxDuplicateArray(in[IN_H]) ;
@@ -156,9 +162,6 @@ mexFunction(int nout, mxArray *out[],
 
   /* REMARK: last and next are 1 based */
 
-  if (K > res) {
-    mexErrMsgTxt("K cannot be larger then the size of H") ;
-  }
   if (last > res) {
     mexErrMsgTxt("An element of NEXT is greater than the size of the table") ;
   }
-- 
2.43.0


From 906b40f36ab6bf42e00fd89d1a62ffaa354f7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 082/207] fix: the hash table functions end on a cyclic NEXT

---
 toolbox/misc/vl_ihashfind.c | 5 ++++-
 toolbox/misc/vl_ihashsum.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_ihashfind.c b/toolbox/misc/vl_ihashfind.c
index 5355891..646641b 100644
--- a/toolbox/misc/vl_ihashfind.c
+++ b/toolbox/misc/vl_ihashfind.c
@@ -155,7 +155,7 @@ mexFunction(int nout, mxArray *out[],
   for (i = 0 ; i < N ; ++i) {
     /* hash */
     unsigned int h1, h2 ;
-    unsigned int j, p = 0 ;
+    unsigned int j, p = 0, steps = 0 ;
 
     if (is_null (x + i * ndims, ndims)) {
       *sel++ = 0 ;
@@ -178,6 +178,9 @@ mexFunction(int nout, mxArray *out[],
     while (! is_null (id + p * ndims,                ndims) &&
            ! is_equal(id + p * ndims, x + i * ndims, ndims)) {
       if (next[p] == 0) break ;
+      if (++ steps > res) {
+        mexErrMsgTxt("NEXT contains a cycle") ;
+      }
       p = next [p] - 1 ;
     }
 
diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index c272b05..19e6ae3 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -174,7 +174,7 @@ mexFunction(int nout, mxArray *out[],
   for (i = 0 ; i < N ; ++i) {
     /* hash */
     unsigned int h1, h2 ;
-    unsigned int j, p = 0 ;
+    unsigned int j, p = 0, steps = 0 ;
 
     /* cannot hash null labels */
     if (is_null (x + i * ndims, ndims)) {
@@ -202,6 +202,9 @@ mexFunction(int nout, mxArray *out[],
       if (next [p] > res) {
         mexErrMsgTxt("An element of NEXT is greater than the size of the table") ;
       }
+      if (++ steps > res) {
+        mexErrMsgTxt("NEXT contains a cycle") ;
+      }
       /* append */
       if (next [p] == 0) {
         if (last >= res) {
-- 
2.43.0


From b41d8c87a25bd776266723a5a95e7ba018ddf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 083/207] fix: vl_inthist uses all of the label maps and of
 their masses

Only the first map was considered for the number of labels, so that a
larger label of a later map was accumulated outside of the histogram, and
the masses of the first map were used for all of them. A map without
pixels was read nevertheless.
---
 toolbox/misc/vl_inthist.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index bab2143..7aa3acd 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -116,7 +116,7 @@ mexFunction(int nout, mxArray *out[],
         if (mxGetNumberOfDimensions(optArg) != numDims ||
             height != dimsPt [0] ||
             width  != dimsPt [1] ||
-            ((numDims > 2) && numMaps < dimsPt[2])) {
+            ((numDims > 2) && numMaps != dimsPt[2])) {
           mexErrMsgTxt("MASS must have the same dimensions of LABELS.") ;
         }
 
@@ -147,11 +147,11 @@ mexFunction(int nout, mxArray *out[],
 
   /* If numLabels is not specified, guess it from LABELS */
   if (numLabels == 0) {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       numLabels = VL_MAX(numLabels, labelsPt [k]) ;
     }
   } else {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       if (labelsPt [k] > numLabels) {
         mexErrMsgTxt("LABELS contains an element greater than NUMLABELS.") ;
       }
@@ -189,11 +189,11 @@ mexFunction(int nout, mxArray *out[],
       for (k = 0 ; k < K ; ++ k) {                                      \
         size_t label = *labelsPt++ ;                                    \
         if (label) dataPt [k + (label - 1) * K]                         \
-                     += ((T*)massPt) [k] ;                              \
+                     += ((T*)massPt) [k + q*K] ;                        \
       }                                                                 \
     }                                                                   \
   }                                                                     \
-  for (k = 0 ; k < numLabels ; ++k) {                                   \
+  for (k = 0 ; K > 0 && k < numLabels ; ++k) {                          \
     INTEGRAL (dataPt + k*K, height,                                     \
               dataPt + k*K, height, width, height) ;                    \
   }
-- 
2.43.0


From cab2bc7970c6bd8bb2dceb78b9cc45175b5ce512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 084/207] fix: vl_localmax does not read an empty array

---
 toolbox/misc/vl_localmax.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/misc/vl_localmax.c b/toolbox/misc/vl_localmax.c
index 39ef7d8..3c5f39c 100644
--- a/toolbox/misc/vl_localmax.c
+++ b/toolbox/misc/vl_localmax.c
@@ -173,6 +173,8 @@ mexFunction(int nout, mxArray *out[],
     */
     for(h=0 ; h < pdims ; ++h)
       if(dims[h] < 3) goto end ;
+    for(h=pdims ; h < ndims ; ++h)
+      if(dims[h] < 1) goto end ;
 
     while(VL_TRUE) {
       double v ;
-- 
2.43.0


From 237e0c91e5abc0cba7ec50e69e1f5dcb6fb02387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 085/207] fix: vl_localmax, vl_sampleinthist, vl_cummax and
 vl_imintegral reject sparse arrays

They read them past their end as if they were full.
---
 toolbox/imop/vl_imintegral.c    | 4 ++--
 toolbox/misc/vl_cummax.c        | 4 ++--
 toolbox/misc/vl_localmax.c      | 2 +-
 toolbox/misc/vl_sampleinthist.c | 5 +++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/toolbox/imop/vl_imintegral.c b/toolbox/imop/vl_imintegral.c
index 759cf0c..39719cd 100644
--- a/toolbox/imop/vl_imintegral.c
+++ b/toolbox/imop/vl_imintegral.c
@@ -48,9 +48,9 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if (! mxIsNumeric(IN(I))) {
+  if (! mxIsNumeric(IN(I)) || mxIsSparse(IN(I))) {
     vlmxError(vlmxErrInvalidArgument,
-              "I is not numeric.") ;
+              "I is not a full numeric array.") ;
   }
 
   dimensions = mxGetDimensions(IN(I)) ;
diff --git a/toolbox/misc/vl_cummax.c b/toolbox/misc/vl_cummax.c
index 81bbe46..af9ea9e 100644
--- a/toolbox/misc/vl_cummax.c
+++ b/toolbox/misc/vl_cummax.c
@@ -78,8 +78,8 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* get information on the data */
-  if (!mxIsNumeric(IN(X))) {
-    vlmxError(vlmxErrInvalidArgument, "X is not a numeric array.") ;
+  if (!mxIsNumeric(IN(X)) || mxIsSparse(IN(X))) {
+    vlmxError(vlmxErrInvalidArgument, "X is not a full numeric array.") ;
   }
   classId = mxGetClassID(IN(X)) ;
   numDimensions = mxGetNumberOfDimensions(IN(X)) ;
diff --git a/toolbox/misc/vl_localmax.c b/toolbox/misc/vl_localmax.c
index 3c5f39c..ebd2bab 100644
--- a/toolbox/misc/vl_localmax.c
+++ b/toolbox/misc/vl_localmax.c
@@ -49,7 +49,7 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* The input must be a real matrix. */
-  if (!mxIsDouble(in[F]) || mxIsComplex(in[F])) {
+  if (!mxIsDouble(in[F]) || mxIsComplex(in[F]) || mxIsSparse(in[F])) {
     mexErrMsgTxt("Input must be real matrix.");
   }
 
diff --git a/toolbox/misc/vl_sampleinthist.c b/toolbox/misc/vl_sampleinthist.c
index b036802..f2f76e8 100644
--- a/toolbox/misc/vl_sampleinthist.c
+++ b/toolbox/misc/vl_sampleinthist.c
@@ -75,8 +75,9 @@ mexFunction(int nout, mxArray *out[],
   }
 
   histClass = mxGetClassID(in[IN_INTHIST]) ;
-  if (histClass != mxDOUBLE_CLASS &&
-      histClass != mxUINT32_CLASS) {
+  if (mxIsSparse(in[IN_INTHIST]) ||
+      (histClass != mxDOUBLE_CLASS &&
+       histClass != mxUINT32_CLASS)) {
     vlmxError(vlmxErrInvalidArgument,
              "INTHIST must be of either class DOUBLE or UINT32.") ;
   }
-- 
2.43.0


From 50c86f27ffe47cf4516ff70f2bbe81601e00cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:51 +0000
Subject: [PATCH 086/207] fix: vl_ihashsum sets only the results asked for

---
 toolbox/misc/vl_ihashsum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 19e6ae3..7488929 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -241,6 +241,6 @@ mexFunction(int nout, mxArray *out[],
   mxSetM(id_,   ndims) ;
 
   out[OUT_H]    = h_ ;
-  out[OUT_ID]   = id_ ;
-  out[OUT_NEXT] = next_ ;
+  if (nout > 1) out[OUT_ID]   = id_ ;
+  if (nout > 2) out[OUT_NEXT] = next_ ;
 }
-- 
2.43.0


From 9cbb7ac81830422a7bfc92b595b34954f5aa928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:26 +0000
Subject: [PATCH 087/207] fix: vl_ubcmatch rejects sparse arrays

---
 toolbox/sift/vl_ubcmatch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/sift/vl_ubcmatch.c b/toolbox/sift/vl_ubcmatch.c
index 05525eb..15338d9 100644
--- a/toolbox/sift/vl_ubcmatch.c
+++ b/toolbox/sift/vl_ubcmatch.c
@@ -129,6 +129,8 @@ mexFunction(int nout, mxArray *out[],
 
   if(!mxIsNumeric(in[L1]) ||
      !mxIsNumeric(in[L2]) ||
+     mxIsSparse(in[L1]) ||
+     mxIsSparse(in[L2]) ||
      mxGetNumberOfDimensions(in[L1]) > 2 ||
      mxGetNumberOfDimensions(in[L2]) > 2) {
     mexErrMsgTxt("L1 and L2 must be two dimensional numeric arrays") ;
-- 
2.43.0


From 81b34a05c45848304241322f6fd4b966c1d4aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 088/207] fix: vl_aib rejects tables that are not double or
 have no columns

---
 toolbox/aib/vl_aib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 33f506b..9017ed8 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -220,9 +220,12 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Too many output arguments.");
   }
 
-  if (!vlmxIsMatrix(in[IN_PCX], -1, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_PCX], -1, -1)) {
     mexErrMsgTxt("PCX must be a real matrix.") ;
   }
+  if (mxGetN (in[IN_PCX]) == 0) {
+    mexErrMsgTxt("PCX must have at least a column.") ;
+  }
 
   Pcx_cpy = mxDuplicateArray(in[IN_PCX]);
   Pcx     = mxGetPr (Pcx_cpy) ;
-- 
2.43.0


From d6c70074625019f1d1b872c603f062163b622f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 089/207] fix: vl_aib: ClusterNull wrote outside the tree if no
 values were merged

---
 toolbox/aib/vl_aib.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 9017ed8..46f61c1 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -68,6 +68,18 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
 
   if (nnull == 0) return ;
 
+  /* if at most one node is not null nothing was merged: chain all nodes */
+  if (nnull == nvalues) {
+    parents [0] = nvalues ;
+    for (n = 1 ; n < nvalues ; ++ n) {
+      parents [n] = nvalues + n - 1 ;
+      parents [nvalues + n - 1] = nvalues + n ;
+      if (cost) cost [n] = cost [0] ;
+    }
+    parents [2 * nvalues - 2] = 0 ;
+    return ;
+  }
+
   /* = : leaves
    * 0 : null leaves
    * i : internal node
-- 
2.43.0


From 82f76983cdc96a7013ef51657bebafe8762c1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 090/207] fix: vl_aib: clustering null values leaves the cost
 unchanged

---
 toolbox/aib/vl_aib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 46f61c1..0505f0d 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -191,7 +191,7 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
       cost [n] = cost [n - (e - ep)] ;
     }
     for (n = c ; n >= a ; --n) {
-      cost [n] = cost [d] ;
+      cost [n] = cost [a - 1] ;
     }
   }
 }
-- 
2.43.0


From ce3d3e56e7cd3172f5724878ff417554ab38c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 091/207] fix: vl_aibhist: data that are not leaves, cyclic
 trees and the 'hist' option

---
 toolbox/aib/vl_aibhist.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 2e604d7..a39130c 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -53,7 +53,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     mexErrMsgTxt ("Too many output arguments.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_DATA], -1, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_DATA], -1, -1)) {
     mexErrMsgTxt ("DATA must be a matrix of DOUBLE");
   }
 
@@ -79,7 +79,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     }
     mxGetString(in[IN_OPT], buf, buflen) ;
     buf [buflen - 1] = 0 ;
-    if (!vlmxCompareStringsI("hist", buf)) {
+    if (vlmxCompareStringsI("hist", buf)) {
       mexErrMsgTxt("OPT must be equal to 'hist'") ;
     }
     histmode = 1 ;
@@ -95,7 +95,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   {
     char buf [1024] ;
     vl_uint32 max_node = 0 ;
-    vl_uint32 min_node = 0 ;
+    vl_uint32 min_node = (P + 1) / 2 + 1 ;
     vl_uint32 last_leaf = 0 ;
     /*vl_uint32 root = 0 ;*/
 
@@ -116,7 +116,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       }
 
       /* check node points to something above him */
-      if ((node != 0) & (node != 1) & (node < i)) {
+      if ((node != 0) & (node != 1) & (node < i + 1)) {
         snprintf(buf, sizeof(buf),
                  "Backward link PARENTS[%d] = %u < %d", i, node, i) ;
         mexErrMsgTxt (buf) ;
@@ -136,12 +136,18 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
     /* process data */
     for (i = 0 ; i < N ; ++i) {
-      /*int w = 1 ;*/
-      vl_uint32 x = data [i] ;
+      vl_uint32 w = 1 ;
+      vl_uint32 x ;
+
+      if (! (data [i] >= 0 && data [i] <= 4294967295.0)) {
+        mexErrMsgTxt ("DATA has elements out of range") ;
+      }
+
+      x = data [i] ;
 
       if (histmode) {
-        /*w = x ;*/
-        x = i ;
+        w = x ;
+        x = i + 1 ;
       }
 
       if ((x < 1) | (x > last_leaf)) {
@@ -158,7 +164,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       while (VL_TRUE) {
         vl_uint32 x_ = parents [x -1] ;
         /*     mexPrintf("%u : x_=%u, x=%u\n", i, x_, x) ; */
-        ++ tree [x - 1] ;
+        tree [x - 1] += w ;
         if ((x_ == x) | (x_ == 0) | (x_ == 1)) break ;
         x = x_ ;
       }
-- 
2.43.0


From 6ded01ed3a49c91f683d5c33ce3c8d53b0699b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 092/207] fix: vl_hikmeans: the option MaxIters was ignored

---
 toolbox/kmeans/vl_hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index b18ffce..cab9c4f 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -202,6 +202,7 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   }
 
   vl_hikm_set_verbosity (tree, verb) ;
+  vl_hikm_set_max_niters (tree, max_niters) ;
   vl_hikm_init (tree, M, K, depth) ;
   vl_hikm_train (tree, data, N) ;
 
-- 
2.43.0


From 99065887d0ef8c754956597ba6c953e7eedbb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 093/207] fix: vl_hikmeans: depth of the tree for K smaller
 than two and powers of K

---
 toolbox/kmeans/vl_hikmeans.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index cab9c4f..c1b8125 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -148,6 +148,10 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     mexErrMsgTxt ("Cannot have more clusters than data.") ;
   }
 
+  if (K < 2) {
+    mexErrMsgTxt ("K must be not smaller than 2.") ;
+  }
+
   data = (vl_uint8 *) mxGetPr (in[IN_DATA]) ;
 
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
@@ -191,7 +195,15 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
    *                                                        Do the job
    * -------------------------------------------------------------- */
 
-  depth = VL_MAX(1, ceil (log (nleaves) / log(K))) ;
+  {
+    /* smallest depth with at least nleaves leaves */
+    double n = K ;
+    depth = 1 ;
+    while (n < nleaves) {
+      n *= K ;
+      ++ depth ;
+    }
+  }
   tree  = vl_hikm_new  (method_type) ;
 
   if (verb) {
-- 
2.43.0


From 26a26bfa2048661c61f3c9f1e6d59511903fbaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:56 +0000
Subject: [PATCH 094/207] fix: vl_hikmeanspush: leaves whose field SUB is an
 empty array

---
 toolbox/kmeans/vl_hikmeanspush.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index efcbc6c..6a60956 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -84,8 +84,8 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
 
   vl_ikm_init (node->filter, mxGetData(mcenters), M, node_K) ;
 
-  /* has any childer? */
-  if (msub) {
+  /* has any childer? (a field that was not set may be read as empty) */
+  if (msub && !mxIsEmpty(msub)) {
 
     /* sanity checks */
     if (mxGetClassID (msub) != mxSTRUCT_CLASS) {
-- 
2.43.0


From d3cbc30c3b3aaf34d3767af1896f6a8b87281528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:56 +0000
Subject: [PATCH 095/207] fix: vl_hikmeanspush: accesses outside DATA and PATH
 when they do not match TREE

---
 toolbox/kmeans/vl_hikmeanspush.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index 6a60956..9f8065a 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -45,7 +45,7 @@ vlmxOption  options [] = {
  **/
 
 static VlHIKMNode *
-xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
+xcreate (VlHIKMTree *tree, mxArray const *mnode, int i, vl_size height)
 {
   mxArray const *mcenters, *msub ;
   VlHIKMNode *node ;
@@ -69,6 +69,12 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
   if (M == 0) {
     mexErrMsgTxt("A NODE.CENTERS has zero rows.") ;
   }
+  if (node_K == 0) {
+    mexErrMsgTxt("A NODE.CENTERS has zero columns.") ;
+  }
+  if ((msub && !mxIsEmpty(msub)) != (height > 1)) {
+    mexErrMsgTxt("The nesting of NODE.SUB is inconsistent with TREE.DEPTH.") ;
+  }
   if ((vl_size)node_K > tree->K) {
     mexErrMsgTxt("A NODE.CENTERS has more columns than overall clusters TREE.K.") ;
   }
@@ -97,7 +103,7 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
 
     node->children = mxMalloc (sizeof(VlHIKMNode *) * node_K) ;
     for(k = 0 ; k < node_K ; ++ k) {
-      node->children[k] = xcreate (tree, msub, k) ;
+      node->children[k] = xcreate (tree, msub, k, height - 1) ;
     }
   }
   return node ;
@@ -143,7 +149,7 @@ matlab_to_hikm (mxArray const *mtree, int method_type)
   tree->K = (vl_size)K ;
   tree->M = 0 ; /* to be initialized later */
   tree->method = method_type ;
-  tree->root = xcreate (tree, mtree, 0) ;
+  tree->root = xcreate (tree, mtree, 0, tree->depth) ;
   return tree ;
 }
 
@@ -223,6 +229,10 @@ void mexFunction (int nout, mxArray * out[],
     tree = matlab_to_hikm (in[IN_TREE], method_type) ;
     depth = vl_hikm_get_depth (tree) ;
 
+    if (mxGetM (in[IN_DATA]) != vl_hikm_get_ndims (tree)) {
+      mexErrMsgTxt("DATA and TREE have different dimensionality.") ;
+    }
+
     if (verb) {
       mexPrintf("vl_hikmeanspush: ndims: %d K: %d depth: %d\n",
                 vl_hikm_get_ndims (tree),
-- 
2.43.0


From f53313ec311a136908e0b5908d7ba0b09fbd5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 096/207] fix: vl_ikmeanspush has one result

---
 toolbox/kmeans/vl_ikmeanspush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_ikmeanspush.c b/toolbox/kmeans/vl_ikmeanspush.c
index 9b85329..2f9e4ee 100644
--- a/toolbox/kmeans/vl_ikmeanspush.c
+++ b/toolbox/kmeans/vl_ikmeanspush.c
@@ -61,7 +61,7 @@ mexFunction(int nout, mxArray *out[],
 
   if (nin < 2) {
     mexErrMsgTxt("At least two arguments required.") ;
-  } else if (nout > 2) {
+  } else if (nout > 1) {
     mexErrMsgTxt("Too many output arguments.") ;
   }
 
-- 
2.43.0


From 9238ebde77c75aa22999ede285846086d354a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 097/207] fix: vl_alldist does not abort when asked for the
 linf or l0 distances

The two were listed among the options but are not implemented, so that
the whole MATLAB session was aborted rather than an error raised.
---
 toolbox/misc/vl_alldist.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/toolbox/misc/vl_alldist.c b/toolbox/misc/vl_alldist.c
index 17bf510..28d64ba 100644
--- a/toolbox/misc/vl_alldist.c
+++ b/toolbox/misc/vl_alldist.c
@@ -15,10 +15,8 @@ the terms of the BSD license (see the COPYING file).
 #include <vl/mathop.h>
 
 enum {
-  opt_LINF,
   opt_L2,
   opt_L1,
-  opt_L0,
   opt_CHI2,
   opt_HELL,
   opt_JS,
@@ -31,10 +29,8 @@ enum {
 } ;
 
 vlmxOption  options [] = {
-{"linf",         0,   opt_LINF          },
 {"l2",           0,   opt_L2            },
 {"l1",           0,   opt_L1            },
-{"l0",           0,   opt_L0            },
 {"chi2",         0,   opt_CHI2          },
 {"hell",         0,   opt_HELL          },
 {"js",           0,   opt_JS            },
-- 
2.43.0


From b934938872aa176f83a7aa2695a7b9ffd1fcdce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 098/207] fix: vl_alldist2 rejects a full X with a sparse Y

Only the opposite combination was rejected; the nonzero elements of Y
were then read as if Y was full.
---
 toolbox/misc/vl_alldist2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_alldist2.c b/toolbox/misc/vl_alldist2.c
index 83bff52..9147f8f 100644
--- a/toolbox/misc/vl_alldist2.c
+++ b/toolbox/misc/vl_alldist2.c
@@ -316,8 +316,8 @@ mexFunction(int nout, mxArray *out[],
 
   sparse = mxIsSparse(in[IN_S1]) ;
 
-  if (sparse && nin >=2 && mxIsNumeric(in[IN_S2])) {
-    if (! mxIsSparse(in[IN_S2])) {
+  if (! self) {
+    if (!sparse != !mxIsSparse(in[IN_S2])) {
       mexErrMsgTxt ("X and Y must be either both full or sparse.") ;
     }
   }
-- 
2.43.0


From 05d47d8c9c902cad17844fc6b248fcbd52692ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 099/207] fix: vl_tpsumx rejects arguments that are not real
 DOUBLE matrices

Any class was accepted but the data was read as DOUBLE.
---
 toolbox/imop/vl_tpsumx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_tpsumx.c b/toolbox/imop/vl_tpsumx.c
index 3046437..505c7ce 100644
--- a/toolbox/imop/vl_tpsumx.c
+++ b/toolbox/imop/vl_tpsumx.c
@@ -44,11 +44,11 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if(!vlmxIsMatrix(in[X], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[X], 2, -1)) {
     mexErrMsgTxt("X must be a 2xNP real matrix") ;
   }
 
-  if(!vlmxIsMatrix(in[Y], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[Y], 2, -1)) {
     mexErrMsgTxt("Y must be a 2xNCP real matrix") ;
   }
 
-- 
2.43.0


From efde1ada5085175a52012a231f4a336bc27c5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 100/207] fix: vl_imwbackwardmx does not read the grid of an
 empty image

---
 toolbox/imop/vl_imwbackwardmx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index d9e8840..28f4894 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -130,10 +130,10 @@ mexFunction(int nout, mxArray *out[],
   /* -----------------------------------------------------------------
    *                                                        Do the job
    * -------------------------------------------------------------- */
-  Xmin = X_pt [0] ;
-  Xmax = X_pt [N - 1] ;
-  Ymin = Y_pt [0] ;
-  Ymax = Y_pt [M - 1] ;
+  Xmin = (N > 0) ? X_pt [0] : 1 ;
+  Xmax = (N > 0) ? X_pt [N - 1] : 0 ;
+  Ymin = (M > 0) ? Y_pt [0] : 1 ;
+  Ymax = (M > 0) ? Y_pt [M - 1] : 0 ;
 
   if (nout <= 1) {
 
-- 
2.43.0


From ded4a68d82f63fa457d62fab1e393ed3ded6de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 101/207] fix: vl_imwbackwardmx does not read past the grid
 when computing derivatives

The branch that computes the derivatives too read one sample past the
end of XR and YR for locations on the last column or row.
---
 toolbox/imop/vl_imwbackwardmx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index 28f4894..bb47a62 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -215,9 +215,9 @@ mexFunction(int nout, mxArray *out[],
 
 	  /* Weights. */
 	  double x0 = X_pt[j] ;
-	  double x1 = X_pt[j+1] ;
+	  double x1 = (j < N-1) ? X_pt[j+1] : x0 + 1;
 	  double y0 = Y_pt[i] ;
-	  double y1 = Y_pt[i+1] ;
+	  double y1 = (i < M-1) ? Y_pt[i+1] : y0 + 1;
 	  double wx = (x-x0)/(x1-x0) ;
 	  double wy = (y-y0)/(y1-y0) ;
 
-- 
2.43.0


From 7d98ecb70a39ce0521492ae6d19cbecfa9c70ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 102/207] fix: vl_imwbackwardmx returns the derivatives of the
 interpolated image

The derivatives were not divided by the spacing of the grid XR, YR and
on the last column and row, where the sample past the end was taken to
be zero, they were the negated values of the image.
---
 toolbox/imop/vl_imwbackwardmx.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index bb47a62..b3dcaa1 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -209,8 +209,12 @@ mexFunction(int nout, mxArray *out[],
 	 * to be processed as expected. */
 	if(x >= Xmin && x <= Xmax &&
 	   y >= Ymin && y <= Ymax) {
-	  int j = findNeighbor(x, X_pt, N) ;
-	  int i = findNeighbor(y, Y_pt, M) ;
+	  /* On the last column and row, where there is no sample to the
+	   * right or below, use the derivatives of the last cell. */
+	  int j_ = findNeighbor(x, X_pt, N) ;
+	  int i_ = findNeighbor(y, Y_pt, M) ;
+	  int j = (j_ == N-1 && N > 1) ? N-2 : j_ ;
+	  int i = (i_ == M-1 && M > 1) ? M-2 : i_ ;
 	  double* pt  = I_pt + j*M + i ;
 
 	  /* Weights. */
@@ -249,12 +253,12 @@ mexFunction(int nout, mxArray *out[],
 	    wy*( (1-wx) * z10 + wx * z11) ;
 
 	  zx =
-	    (1-wy) * (z01 - z00) +
-	       wy  * (z11 - z10) ;
+	    ((1-wy) * (z01 - z00) +
+	        wy  * (z11 - z10)) / (x1-x0) ;
 
 	  zy =
-	    (1-wx) * (z10 - z00) +
-	       wx  * (z11 - z01) ;
+	    ((1-wx) * (z10 - z00) +
+	        wx  * (z11 - z01)) / (y1-y0) ;
 	}
 
 	*(wI_pt  + jp*Mp + ip) = z ;
-- 
2.43.0


From 93932b4a580e8b88e2ececcb3ec2aeb2f8f99f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 103/207] fix: vl_imsmooth rejects a subsampling step less than
 one

The step was compared with one after conversion to an unsigned integer,
so that negative and not-a-number steps were taken for huge ones.
---
 toolbox/imop/vl_imsmooth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 081bca3..145fe2c 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -228,11 +228,12 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be a scalar.") ;
         }
-        step = *mxGetPr(optarg) ;
-        if (step < 1) {
+        if (! (*mxGetPr(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be not less than one.") ;
         }
+        /* larger steps keep only the first pixel anyway */
+        step = VL_MIN(*mxGetPr(optarg), VL_MAX(mxGetM(IN(I)), mxGetN(IN(I))) + 1) ;
         break ;
 
       case opt_kernel :
-- 
2.43.0


From a5cd6c2a452ccb0a050ecef2865c0eb0ae249971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 104/207] fix: vl_imsmooth rejects sparse images

---
 toolbox/imop/vl_imsmooth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 145fe2c..ac57620 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -279,6 +279,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument,
              "I must be either DOUBLE or SINGLE.") ;
   }
+  if (mxIsSparse(IN(I))) {
+    vlmxError(vlmxErrInvalidArgument,
+             "I must not be sparse.") ;
+  }
   if (mxGetNumberOfDimensions(IN(I)) > 3) {
     vlmxError(vlmxErrInvalidArgument,
              "I must be either a two or three dimensional array.") ;
-- 
2.43.0


From b5d2e50c0a730a53e27cbb02afb0a4f6933db648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:50 +0000
Subject: [PATCH 105/207] fix: vl_imsmooth rejects negative, too large and
 not-a-number deviations

The size of the filter was computed converting to an unsigned integer
numbers out of its range.
---
 toolbox/imop/vl_imsmooth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index ac57620..de0bcf0 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -295,6 +295,10 @@ mexFunction(int nout, mxArray *out[],
   K = (ndims > 2) ? dims[2] : 1 ;
 
   sigma = * mxGetPr(IN(S)) ;
+  if (! (sigma >= 0 && 4.0 * sigma < (double) 0x7fffffff)) {
+    vlmxError(vlmxErrInvalidArgument,
+             "S must be non-negative and not too large.") ;
+  }
   if ((sigma < 0.01) && (step == 1)) {
     OUT(J) = mxDuplicateArray(IN(I)) ;
     return ;
-- 
2.43.0


From a88f33dcb8f016f99d7941c716f0033da2cd87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:50 +0000
Subject: [PATCH 106/207] fix: vl_imsmooth subsamples empty images

---
 toolbox/imop/vl_imsmooth.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index de0bcf0..6d3d182 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -304,8 +304,8 @@ mexFunction(int nout, mxArray *out[],
     return ;
   }
 
-  M_ = (M - 1) / step + 1 ;
-  N_ = (N - 1) / step + 1 ;
+  M_ = (M + step - 1) / step ;
+  N_ = (N + step - 1) / step ;
   dims_ [0] = M_ ;
   dims_ [1] = N_ ;
   if (ndims > 2) dims_ [2] = K ;
@@ -342,6 +342,8 @@ mexFunction(int nout, mxArray *out[],
   /* -----------------------------------------------------------------
    *                                                        Do the job
    * -------------------------------------------------------------- */
+  if (M == 0 || N == 0) return ;
+
   flags  = padding ;
   flags |= VL_TRANSPOSE ;
 
-- 
2.43.0


From 2b4d4462ac2b5a231bed683b3f8423d75fa0fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:07 +0000
Subject: [PATCH 107/207] fix: vl_imwbackwardmx sets only the results asked for

---
 toolbox/imop/vl_imwbackwardmx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index b3dcaa1..8669d05 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -122,8 +122,10 @@ mexFunction(int nout, mxArray *out[],
 
   if (nout > 1) {
     out[wIx] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
-    out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
     wIx_pt = mxGetPr (out[wIx]) ;
+  }
+  if (nout > 2) {
+    out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
     wIy_pt = mxGetPr (out[wIy]) ;
   }
 
@@ -263,7 +265,7 @@ mexFunction(int nout, mxArray *out[],
 
 	*(wI_pt  + jp*Mp + ip) = z ;
 	*(wIx_pt + jp*Mp + ip) = zx ;
-	*(wIy_pt + jp*Mp + ip) = zy ;
+	if (wIy_pt) *(wIy_pt + jp*Mp + ip) = zy ;
       }
     }
   }
-- 
2.43.0


From 970ff2d1e841a1193d267fd8d37d237b2597e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:41 +0000
Subject: [PATCH 108/207] fix: vl_pr returns one value per sample with the
 Stable option

The result had as many entries as samples were retrieved, grown with zeros
where the ranking required it, rather than NaN for the samples with a score
of -inf.
---
 toolbox/plotop/vl_pr.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/plotop/vl_pr.m b/toolbox/plotop/vl_pr.m
index dfe9971..634402b 100644
--- a/toolbox/plotop/vl_pr.m
+++ b/toolbox/plotop/vl_pr.m
@@ -217,8 +217,8 @@ if opts.stable
   recall(1) = [] ;
   precision_ = precision ;
   recall_ = recall ;
-  precision = NaN(size(precision)) ;
-  recall = NaN(size(recall)) ;
+  precision = NaN(1, numel(labels)) ;
+  recall = NaN(1, numel(labels)) ;
   precision(perm) = precision_ ;
   recall(perm) = recall_ ;
 end
-- 
2.43.0


From d121fb03f5c1606606e30181b11c21b08a57ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:41 +0000
Subject: [PATCH 109/207] fix: vl_roc returns one value per sample with the
 Stable option

The result had as many entries as samples were retrieved, grown with zeros
where the ranking required it.
---
 toolbox/plotop/vl_roc.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/plotop/vl_roc.m b/toolbox/plotop/vl_roc.m
index 4f34877..335e573 100644
--- a/toolbox/plotop/vl_roc.m
+++ b/toolbox/plotop/vl_roc.m
@@ -252,8 +252,8 @@ if opts.stable
   tnr(1) = [] ;
   tpr_ = tpr ;
   tnr_ = tnr ;
-  tpr = NaN(size(tpr)) ;
-  tnr = NaN(size(tnr)) ;
+  tpr = NaN(1, numel(labels)) ;
+  tnr = NaN(1, numel(labels)) ;
   tpr(perm) = tpr_ ;
   tnr(perm) = tnr_ ;
 end
-- 
2.43.0


From 487646c5e5f146cb47f4e8b7409b190f67a285a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 110/207] fix: vl_aibcut maps the null nodes of the cut to
 themselves

A null node that was taken into the cut was mapped to zero if all values
after it are null too.
---
 toolbox/aib/vl_aibcut.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aibcut.m b/toolbox/aib/vl_aibcut.m
index 8becf61..c3635f0 100644
--- a/toolbox/aib/vl_aibcut.m
+++ b/toolbox/aib/vl_aibcut.m
@@ -100,4 +100,4 @@ map             = 1:numel(parents) ;
 map(cut)        = 1:n ;
 map(short >  0) = map(short(short > 0)) ;
 map(short == 0) = 0 ;
-map(mu+1:end)   = 0 ;
+map(setdiff(mu+1:numel(map), cut)) = 0 ;
-- 
2.43.0


From 1701e5101542563b2a312ad1a5987c68e287b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 111/207] fix: vl_hikmeanshist works with K=1

The number of nodes was computed as 0/0.
---
 toolbox/kmeans/vl_hikmeanshist.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeanshist.m b/toolbox/kmeans/vl_hikmeanshist.m
index 214a419..ab736de 100644
--- a/toolbox/kmeans/vl_hikmeanshist.m
+++ b/toolbox/kmeans/vl_hikmeanshist.m
@@ -38,7 +38,7 @@ function h = vl_hikmeanshist(tree,path)
 
 K = tree.K ;
 D = tree.depth ;
-M = (K^(D+1) - 1) / (K - 1) ;
+M = sum(K.^(0:D)) ;
 
 h = zeros(M, 1) ;
 p = zeros(1,size(path,2)) ;
-- 
2.43.0


From b4b8bbfaeb36aa7016e1db5c75f665bc8c435f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 112/207] fix: vl_histmarg keeps the dimensions in the order of
 DIMS

The size of the result followed the order of DIMS, but the data did not,
which scrambled it for lists that are not sorted.
---
 toolbox/misc/vl_histmarg.m | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/misc/vl_histmarg.m b/toolbox/misc/vl_histmarg.m
index 3ee5d96..769c946 100644
--- a/toolbox/misc/vl_histmarg.m
+++ b/toolbox/misc/vl_histmarg.m
@@ -26,6 +26,7 @@ for d=setdiff(1:length(sz), dims(:))
 end
 
 % Squeeze out marginalized dimensions
+H = permute(H, [dims(:)' setdiff(1:length(sz), dims(:))]) ;
 sz = sz(dims(:)) ;
 sz = [sz ones(1,2-length(dims(:)))] ;
 H = reshape(H, sz) ;
-- 
2.43.0


From d85d9220755e19de2792345a92d9a911a1103c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 113/207] fix: vl_whistc skips the samples with NaN weight, as
 documented

---
 toolbox/misc/vl_whistc.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_whistc.m b/toolbox/misc/vl_whistc.m
index c4b0ab3..3315c8e 100644
--- a/toolbox/misc/vl_whistc.m
+++ b/toolbox/misc/vl_whistc.m
@@ -25,8 +25,8 @@ if numEdges > 0
   binIndexes(binIndexes == numEdges & x > edges(end)) = 0 ;
 end
 
-% NaNs must be also removed
-binIndexes(isnan(x)) = 0 ;
+% NaNs must be also removed (samples with NaN weight are skipped)
+binIndexes(isnan(x) | isnan(w)) = 0 ;
 
 % find operating dimension
 dimensions = size(x) ;
-- 
2.43.0


From 8c1e322c33698c2e40c8f1d791bd4888da859b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:27 +0000
Subject: [PATCH 114/207] fix: vl_alphanum accepts empty strings

---
 toolbox/misc/vl_alphanum.m | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/misc/vl_alphanum.m b/toolbox/misc/vl_alphanum.m
index 7fa2af3..e388bf6 100644
--- a/toolbox/misc/vl_alphanum.m
+++ b/toolbox/misc/vl_alphanum.m
@@ -22,6 +22,7 @@ function [strings, perm] = vl_alphanum(strings)
 
 chunks = regexp(strings, '(\d+|\D+)', 'tokens') ;
 for i = 1:length(strings)
+  if isempty(chunks{i}), chunks{i} = '' ; continue ; end
   chunks{i} = [chunks{i}{:}] ;
   for j = 1:length(chunks{i})
     if isstrprop(chunks{i}{j},'digit')
-- 
2.43.0


From 694595ecc753649ef8a9704e478fe357ebf8e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:30 +0000
Subject: [PATCH 115/207] fix: vl_alphanum orders numbers that do not fit a
 32-bit integer

Reading them with %d saturates in Octave.
---
 toolbox/misc/vl_alphanum.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_alphanum.m b/toolbox/misc/vl_alphanum.m
index e388bf6..d615ee9 100644
--- a/toolbox/misc/vl_alphanum.m
+++ b/toolbox/misc/vl_alphanum.m
@@ -26,7 +26,7 @@ for i = 1:length(strings)
   chunks{i} = [chunks{i}{:}] ;
   for j = 1:length(chunks{i})
     if isstrprop(chunks{i}{j},'digit')
-      chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%d')) ;
+      chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%f')) ;
     end
   end
   chunks{i} = [chunks{i}{:}] ;
-- 
2.43.0


From a7cbaf597df6f89520b8586a6d1061b5018d6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 116/207] fix: vl_argparse merges a structure into a field that
 OPTS does not have

The merge option ended in an error about the missing field.
---
 toolbox/misc/vl_argparse.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index bdc6be3..ef25ec0 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -154,7 +154,7 @@ while ai <= numel(args)
     else
       % The parameter does not have a struct value in OPTS: copy as is, or
       % merge it, if it contains a struct.
-      if ~isstruct(value)
+      if ~isstruct(value) || ~any(strcmp(field, fieldnames(opts)))
         opts.(field) = value ;
       else
         opts.(field) = vl_argparse(opts.(field), value, 'merge') ;
-- 
2.43.0


From 7f4c344cc685de7a5de108763aa11809428cbd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 117/207] fix: vl_argparse passes back unknown parameters of
 structures

Unknown fields of a parameter with a structure value were dropped, and
structures were passed back as structures (empty ones too) rather than as a
list of parameter-value pairs.
---
 toolbox/misc/vl_argparse.m | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index ef25ec0..3b5bf30 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -87,7 +87,7 @@ optNames = fieldnames(opts)' ;
 
 % convert ARGS into a structure
 ai = 1 ;
-keep = false(size(args)) ;
+rest = cell(1,0) ;
 while ai <= numel(args)
   % Check whether the argument is a (param,value) pair or a structure.
   if recursive && isstruct(args{ai})
@@ -96,9 +96,8 @@ while ai <= numel(args)
     if nargout <= 1
       opts = vl_argparse(opts, vertcat(params,values), varargin{:}) ;
     else
-      [opts, rest] = vl_argparse(opts, reshape(vertcat(params,values), 1, []), varargin{:}) ;
-      args{ai} = cell2struct(rest(2:2:end), rest(1:2:end), 2) ;
-      keep(ai) = true ;
+      [opts, args_] = vl_argparse(opts, reshape(vertcat(params,values), 1, []), varargin{:}) ;
+      rest = [rest, args_] ;
     end
     ai = ai + 1 ;
     continue ;
@@ -127,7 +126,7 @@ while ai <= numel(args)
     elseif nargout <= 1
       error('vl:invalidArgument', 'Unknown parameter ''%s''', param) ;
     else
-      keep([ai,ai+1]) = true ;
+      rest = [rest, args(ai), args(ai+1)] ;
       ai = ai + 2 ;
       continue ;
     end
@@ -147,7 +146,10 @@ while ai <= numel(args)
           field) ;
       end
       if nargout > 1
-        [opts.(field), args{ai+1}] = vl_argparse(opts.(field), value, varargin{:}) ;
+        [opts.(field), args_] = vl_argparse(opts.(field), value, varargin{:}) ;
+        if ~isempty(args_)
+          rest = [rest, {field, cell2struct(args_(2:2:end), args_(1:2:end), 2)}] ;
+        end
       else
         opts.(field) = vl_argparse(opts.(field), value, varargin{:}) ;
       end
@@ -165,4 +167,4 @@ while ai <= numel(args)
   ai = ai + 2 ;
 end
 
-args = args(keep) ;
+args = rest ;
-- 
2.43.0


From e1eb950825d8477e0a5aad9503898623fa7b817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 118/207] fix: vl_override applies its options at all levels

The options were not passed on to the recursive call, so that Skip and CaseI
only had an effect on the fields of the top level.
---
 toolbox/misc/vl_override.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_override.m b/toolbox/misc/vl_override.m
index 598c43c..ed7cbc6 100644
--- a/toolbox/misc/vl_override.m
+++ b/toolbox/misc/vl_override.m
@@ -107,7 +107,7 @@ for idx=1:numel(update)
     if ~isempty(configFieldName)
       config(idx).(configFieldName) = ...
           vl_override(config(idx).(configFieldName), ...
-                      update(idx).(updateFieldName)) ;
+                      update(idx).(updateFieldName), varargin{:}) ;
     else
       if warn
         warning(sprintf('copied field ''%s'' which is in UPDATE but not in CONFIG', ...
-- 
2.43.0


From 35ca8fa7120a75d993fc191b2955576496b11b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 119/207] fix: vl_override warns when it overwrites a
 structure, and once when it skips

The first was documented but missing; skipping a field printed a warning that
the field was copied too.
---
 toolbox/misc/vl_override.m | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_override.m b/toolbox/misc/vl_override.m
index ed7cbc6..6023f72 100644
--- a/toolbox/misc/vl_override.m
+++ b/toolbox/misc/vl_override.m
@@ -78,6 +78,9 @@ end
 % if CONFIG is a struct array but UPDATE is not, no match can be
 % established and we simply copy UPDATE verbatim
 if ~isstruct(update)
+  if warn
+    warning('overwritten a structure with a value that is not') ;
+  end
   config = update ;
   return ;
 end
@@ -86,6 +89,9 @@ end
 % dimensions then nom atch can be established and we simply copy
 % UPDATE verbatim
 if numel(update) ~= numel(config)
+  if warn
+    warning('overwritten a structure with one of different dimensions') ;
+  end
   config = update ;
   return ;
 end
@@ -109,7 +115,7 @@ for idx=1:numel(update)
           vl_override(config(idx).(configFieldName), ...
                       update(idx).(updateFieldName), varargin{:}) ;
     else
-      if warn
+      if warn & ~skip
         warning(sprintf('copied field ''%s'' which is in UPDATE but not in CONFIG', ...
                         updateFieldName)) ;
       end
-- 
2.43.0


From 62f26f2cc85bfd1d89d330dd99a45a9870bd2d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 120/207] fix: vl_imup of an image of integers does not
 saturate

The sums of neighbouring pixels were computed in the class of the image.
---
 toolbox/imop/vl_imup.m | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/imop/vl_imup.m b/toolbox/imop/vl_imup.m
index d30ffbe..cd6f3e9 100644
--- a/toolbox/imop/vl_imup.m
+++ b/toolbox/imop/vl_imup.m
@@ -12,6 +12,7 @@ function J = vl_imup(I)
 % the terms of the BSD license (see the COPYING file).
 
 [M,N,K] = size(I) ;
+if ~isfloat(I), I = double(I) ; end
 
 J = zeros(2*M,2*N,K) ;
 
-- 
2.43.0


From 572eacece5e3a2c539c700047ad3ee4ede61b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 121/207] fix: vl_imgrad accepts the type alone, as documented

---
 toolbox/imop/vl_imgrad.m | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/imop/vl_imgrad.m b/toolbox/imop/vl_imgrad.m
index 5678780..99a3d47 100644
--- a/toolbox/imop/vl_imgrad.m
+++ b/toolbox/imop/vl_imgrad.m
@@ -18,6 +18,7 @@ function [Fx,Fy] = vl_imgrad(F,varargin) ;
 % the terms of the BSD license (see the COPYING file).
 
 type = 'central' ; % forward, backward
+if length(varargin) == 1, varargin = {'Type', varargin{1}} ; end
 
 for k=1:2:length(varargin)
   switch varargin{k}
-- 
2.43.0


From fb4a2d4692d80a29a4c75b6012403f5be9b56b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 122/207] fix: vl_xyz2luv uses the illuminant it is given

The white point was always that of the illuminant E.
---
 toolbox/imop/vl_xyz2luv.m | 2 --
 1 file changed, 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 05c2ccf..9204723 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -52,8 +52,6 @@ end
 J=zeros(size(I)) ;
 
 % Reference white
-xw = 1/3 ;
-yw = 1/3 ;
 Yw = 1.0 ;
 Xw = xw/yw ;
 Zw = (1-xw-yw)/yw * Yw ;
-- 
2.43.0


From eb4a0c63bf03bf00f3c92c154397f542b4d29ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 123/207] fix: vl_xyz2luv converts black pixels to zero rather
 than NaN

---
 toolbox/imop/vl_xyz2luv.m | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 9204723..5ced6a6 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -65,8 +65,10 @@ Z = I(:,:,3) ;
 upw = 4*Xw / (Xw + 15*Yw + 3*Zw) ;
 vpw = 9*Yw / (Xw + 15*Yw + 3*Zw) ;
 
-up = 4*X ./ (X + 15*Y + 3*Z) ;
-vp = 9*Y ./ (X + 15*Y + 3*Z) ;
+den = X + 15*Y + 3*Z ;
+den(den == 0) = 1 ; % black
+up = 4*X ./ den ;
+vp = 9*Y ./ den ;
 
 sp = find( Y / Yw  > 0.008856) ;
 sm = find( Y / Yw <= 0.008856) ;
-- 
2.43.0


From ed78884db602301994e86863809536d782738384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:01 +0000
Subject: [PATCH 124/207] fix: the illuminant B has a white point of its own

vl_xyz2lab and vl_xyz2luv used that of D55 for it.
---
 toolbox/imop/vl_xyz2lab.m | 4 ++--
 toolbox/imop/vl_xyz2luv.m | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/imop/vl_xyz2lab.m b/toolbox/imop/vl_xyz2lab.m
index 735bab3..0086730 100644
--- a/toolbox/imop/vl_xyz2lab.m
+++ b/toolbox/imop/vl_xyz2lab.m
@@ -22,8 +22,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.3484 ;
+    yw = 0.3516 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 5ced6a6..643b73b 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -24,8 +24,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.3484 ;
+    yw = 0.3516 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
-- 
2.43.0


From 248c6fcba85bc83d50ebb5a918c227c2fc03a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:01 +0000
Subject: [PATCH 125/207] fix: vl_erfill lists the seed once and does not
 overflow the member list

---
 toolbox/mser/vl_erfill.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 3ae1424..4243148 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -119,6 +119,7 @@ mexFunction(int nout, mxArray *out[],
       mexErrMsgTxt(buff) ;
     }
     members_pt [last++] = idx - 1 ;
+    visited_pt [idx - 1] = 1 ;
   }
   value = I_pt[ members_pt[0] ]  ;
 
-- 
2.43.0


From 8b01c94acd3e3a6d3f930b00d995ff9d67ae9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:01 +0000
Subject: [PATCH 126/207] fix: vl_sift gives a null descriptor for a frame
 outside the image

---
 toolbox/sift/vl_sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 8ab263d..5820a9f 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -393,6 +393,7 @@ mexFunction(int nout, mxArray *out[],
 
           /* compute descriptor (if necessary) */
           if (nout > 1) {
+            memset (buf, 0, sizeof(buf)) ;
             vl_sift_calc_keypoint_descriptor (filt, buf, k, angles [q]) ;
             transpose_descriptor (rbuf, buf) ;
           }
-- 
2.43.0


From 6b292596d970c5c297c7ff177564b2ebd68653c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:01 +0000
Subject: [PATCH 127/207] fix: vl_siftdescriptor gives a null descriptor for a
 frame outside the image

---
 toolbox/sift/vl_siftdescriptor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/sift/vl_siftdescriptor.c b/toolbox/sift/vl_siftdescriptor.c
index 649fde4..ca0da0e 100644
--- a/toolbox/sift/vl_siftdescriptor.c
+++ b/toolbox/sift/vl_siftdescriptor.c
@@ -204,6 +204,7 @@ mexFunction(int nout, mxArray *out[],
       double s  = *ikeys++ ;
       double th = VL_PI / 2 - *ikeys++ ;
 
+      memset (buf, 0, sizeof(buf)) ;
       vl_sift_calc_raw_descriptor (filt,
                                    grad,
                                    buf,
-- 
2.43.0


From 693655118c985b3d45bae825499e1e4d51edb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:11 +0000
Subject: [PATCH 128/207] fix: vl_covdet does not report uninitialized scores
 for user frames

---
 toolbox/sift/vl_covdet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 830b67b..f730dbb 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -509,6 +509,8 @@ mexFunction(int nout, mxArray *out[],
         VlCovDetFeature feature ;
         feature.peakScore = VL_INFINITY_F ;
         feature.edgeScore = 1.0 ;
+        feature.orientationScore = 0 ;
+        feature.laplacianScaleScore = 0 ;
         feature.frame.x = (float)uframe[1] - 1 ;
         feature.frame.y = (float)uframe[0] - 1 ;
 
-- 
2.43.0


From 314f6127f641963eee4df4f8d33610b50fae9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 129/207] fix: vl_sift checks the class of the frames and the
 range of the octaves

---
 toolbox/sift/vl_sift.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 5820a9f..91d677c 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -195,14 +195,15 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_levels :
-      if (! vlmxIsPlainScalar(optarg) || (S = (int) *mxGetPr(optarg)) < 1) {
+      if (! vlmxIsPlainScalar(optarg) || (S = (int) *mxGetPr(optarg)) < 1 ||
+          S > 1000000) {
         mexErrMsgTxt("'Levels' must be a positive integer.") ;
       }
       break ;
 
     case opt_first_octave :
-      if (!vlmxIsPlainScalar(optarg)) {
-        mexErrMsgTxt("'FirstOctave' must be an integer") ;
+      if (!vlmxIsPlainScalar(optarg) || !(fabs(*mxGetPr(optarg)) <= 20)) {
+        mexErrMsgTxt("'FirstOctave' must be an integer between -20 and 20.") ;
       }
       o_min = (int) *mxGetPr(optarg) ;
       break ;
@@ -238,7 +239,7 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_frames :
-      if (!vlmxIsMatrix(optarg, 4, -1)) {
+      if (!vlmxIsPlainMatrix(optarg, 4, -1)) {
         mexErrMsgTxt("'Frames' must be a 4 x N matrix.") ;
       }
       ikeys_array = mxDuplicateArray (optarg) ;
@@ -272,6 +273,14 @@ mexFunction(int nout, mxArray *out[],
     void              *descr  = 0 ;
     int                nframes = 0, reserved = 0, i,j,q ;
 
+    /* check that the octaves can be represented */
+    if (O > 30 - VL_MAX(o_min, 0)) {
+      mexErrMsgTxt("'Octaves' is too large.") ;
+    }
+    if (ldexp ((double) M * N, 2 * VL_MAX(-o_min, 0)) > 2147483647.0) {
+      mexErrMsgTxt("I is too large to be processed from octave 'FirstOctave'.") ;
+    }
+
     /* create a filter to process the image */
     filt = vl_sift_new (M, N, O, S, o_min) ;
 
-- 
2.43.0


From 5b53733bf43b90fb0daf0cf0f5c9f21cf81c95fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 130/207] fix: vl_siftdescriptor checks the class of the frames

---
 toolbox/sift/vl_siftdescriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_siftdescriptor.c b/toolbox/sift/vl_siftdescriptor.c
index ca0da0e..b2d259e 100644
--- a/toolbox/sift/vl_siftdescriptor.c
+++ b/toolbox/sift/vl_siftdescriptor.c
@@ -114,7 +114,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("GRAD must be a 2xMxN matrix of class SINGLE.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_FRAMES], 4, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_FRAMES], 4, -1)) {
     mexErrMsgTxt("FRAMES must be a 4xN matrix.") ;
   }
   nikeys = mxGetN (in[IN_FRAMES]) ;
-- 
2.43.0


From ea0e89b0652587a2edd9996c6ad73a415e041f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:21 +0000
Subject: [PATCH 131/207] fix: vl_mod_2pi_f and vl_mod_2pi_d end for arguments
 of any magnitude

---
 vl/mathop.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/mathop.h b/vl/mathop.h
index 8be0ebb..948a680 100644
--- a/vl/mathop.h
+++ b/vl/mathop.h
@@ -109,6 +109,7 @@ static union { vl_uint64 raw ; double value ; }
 VL_INLINE float
 vl_mod_2pi_f (float x)
 {
+  if (! (fabs (x) < 1000)) x = (float) fmod (x, (float) (2 * VL_PI)) ;
   while (x > (float)(2 * VL_PI)) x -= (float) (2 * VL_PI) ;
   while (x < 0.0F) x += (float) (2 * VL_PI);
   return x ;
@@ -121,6 +122,7 @@ vl_mod_2pi_f (float x)
 VL_INLINE double
 vl_mod_2pi_d (double x)
 {
+  if (! (fabs (x) < 1000)) x = fmod (x, 2 * VL_PI) ;
   while (x > 2.0 * VL_PI) x -= 2 * VL_PI ;
   while (x < 0.0) x += 2 * VL_PI ;
   return x ;
-- 
2.43.0


From 2eaab8ed1fd5cde6c80de11715a90c06cce80980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:21 +0000
Subject: [PATCH 132/207] fix: vl_sift rejects frames that are not finite

---
 toolbox/sift/vl_sift.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 91d677c..5b74059 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -245,6 +245,14 @@ mexFunction(int nout, mxArray *out[],
       ikeys_array = mxDuplicateArray (optarg) ;
       nikeys      = mxGetN (optarg) ;
       ikeys       = mxGetPr (ikeys_array) ;
+      {
+        mwSize k ;
+        for (k = 0 ; k < mxGetNumberOfElements(optarg) ; ++k) {
+          if (!mxIsFinite (ikeys [k])) {
+            mexErrMsgTxt("'Frames' must be finite.") ;
+          }
+        }
+      }
       if (! check_sorted (ikeys, nikeys)) {
         qsort (ikeys, nikeys, 4 * sizeof(double), korder) ;
       }
-- 
2.43.0


From 1e6bca7ea763e6d2b2b4383ef7205a6d0a535428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:21 +0000
Subject: [PATCH 133/207] fix: vl_siftdescriptor rejects frames that are not
 finite

---
 toolbox/sift/vl_siftdescriptor.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toolbox/sift/vl_siftdescriptor.c b/toolbox/sift/vl_siftdescriptor.c
index b2d259e..1d764a2 100644
--- a/toolbox/sift/vl_siftdescriptor.c
+++ b/toolbox/sift/vl_siftdescriptor.c
@@ -119,6 +119,11 @@ mexFunction(int nout, mxArray *out[],
   }
   nikeys = mxGetN (in[IN_FRAMES]) ;
   ikeys  = mxGetPr(in[IN_FRAMES]) ;
+  for (i = 0 ; i < 4 * nikeys ; ++i) {
+    if (!mxIsFinite (ikeys [i])) {
+      mexErrMsgTxt("FRAMES must be finite.") ;
+    }
+  }
 
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
-- 
2.43.0


From e2ae4fa8c44c2bee9c30d7eae4bb934091ea3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:21 +0000
Subject: [PATCH 134/207] fix: vl_dsift does not create descriptors that were
 not requested

---
 toolbox/sift/vl_dsift.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/toolbox/sift/vl_dsift.c b/toolbox/sift/vl_dsift.c
index cf3aafc..bf7d08d 100644
--- a/toolbox/sift/vl_dsift.c
+++ b/toolbox/sift/vl_dsift.c
@@ -273,12 +273,9 @@ mexFunction(int nout, mxArray *out[],
       dims [0] = descrSize ;
       dims [1] = numFrames ;
 
-      if (floatDescriptors) {
+      if (nout > OUT_DESCRIPTORS) {
         out[OUT_DESCRIPTORS] = mxCreateNumericArray
-        (2, dims, mxSINGLE_CLASS, mxREAL) ;
-      } else {
-        out[OUT_DESCRIPTORS] = mxCreateNumericArray
-        (2, dims, mxUINT8_CLASS, mxREAL) ;
+        (2, dims, floatDescriptors ? mxSINGLE_CLASS : mxUINT8_CLASS, mxREAL) ;
       }
 
       dims [0] = norm ? 3 : 2 ;
@@ -293,7 +290,7 @@ mexFunction(int nout, mxArray *out[],
     {
       float *tmpDescr = mxMalloc(sizeof(float) * descrSize) ;
       double *outFrameIter = mxGetPr(out[OUT_FRAMES]) ;
-      void *outDescrIter = mxGetData(out[OUT_DESCRIPTORS]) ;
+      void *outDescrIter = (nout > OUT_DESCRIPTORS) ? mxGetData(out[OUT_DESCRIPTORS]) : NULL ;
       for (k = 0 ; k < numFrames ; ++k) {
         *outFrameIter++ = frames[k].y + 1 ;
         *outFrameIter++ = frames[k].x + 1 ;
@@ -303,6 +300,8 @@ mexFunction(int nout, mxArray *out[],
         if (norm)
           *outFrameIter++ = frames [k].norm ;
 
+        if (! outDescrIter) continue ;
+
         vl_dsift_transpose_descriptor (tmpDescr,
                                        descrs + descrSize * k,
                                        geom.numBinT,
-- 
2.43.0


From c02a682f9872f9fa26af727555742bccea105f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 135/207] fix: SIFT descriptors of undefined gradients or huge
 orientations do not write out of bounds

---
 vl/sift.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 0a37559..85dd120 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1770,6 +1770,7 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   int          xi     = (int) (x + 0.5) ;
   int          yi     = (int) (y + 0.5) ;
 
+  double const theta0 = fmod (angle0, 2 * VL_PI) ;
   double const st0    = sin (angle0) ;
   double const ct0    = cos (angle0) ;
   double const SBP    = magnif * sigma + VL_EPSILON_D ;
@@ -1816,7 +1817,7 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
       /* retrieve */
       vl_sift_pix mod   = *( pt + dxi*xo + dyi*yo + 0 ) ;
       vl_sift_pix angle = *( pt + dxi*xo + dyi*yo + 1 ) ;
-      vl_sift_pix theta = vl_mod_2pi_f (angle - angle0) ;
+      vl_sift_pix theta = vl_mod_2pi_f (angle - theta0) ;
 
       /* fractional displacement */
       vl_sift_pix dx = xi + dxi - x;
@@ -1863,7 +1864,7 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
                 * vl_abs_f (1 - dbiny - rbiny)
                 * vl_abs_f (1 - dbint - rbint) ;
 
-              atd(binx+dbinx, biny+dbiny, (bint+dbint) % NBO) += weight ;
+              atd(binx+dbinx, biny+dbiny, (bint+dbint+NBO) % NBO) += weight ;
             }
           }
         }
@@ -1959,6 +1960,7 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
   int          yi          = (int) (y + 0.5) ;
   int          si          = k-> is ;
 
+  double const theta0      = fmod (angle0, 2 * VL_PI) ;
   double const st0         = sin (angle0) ;
   double const ct0         = cos (angle0) ;
   double const SBP         = magnif * sigma + VL_EPSILON_D ;
@@ -2013,7 +2015,7 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
       /* retrieve */
       vl_sift_pix mod   = *( pt + dxi*xo + dyi*yo + 0 ) ;
       vl_sift_pix angle = *( pt + dxi*xo + dyi*yo + 1 ) ;
-      vl_sift_pix theta = vl_mod_2pi_f (angle - angle0) ;
+      vl_sift_pix theta = vl_mod_2pi_f (angle - theta0) ;
 
       /* fractional displacement */
       vl_sift_pix dx = xi + dxi - x;
@@ -2060,7 +2062,7 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
                 * vl_abs_f (1 - dbiny - rbiny)
                 * vl_abs_f (1 - dbint - rbint) ;
 
-              atd(binx+dbinx, biny+dbiny, (bint+dbint) % NBO) += weight ;
+              atd(binx+dbinx, biny+dbiny, (bint+dbint+NBO) % NBO) += weight ;
             }
           }
         }
-- 
2.43.0


From f7d48606811e7836274e4065c21d00354753d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 136/207] fix: vl_erfill has one result

---
 toolbox/mser/vl_erfill.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 4243148..1d58fea 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -72,7 +72,7 @@ mexFunction(int nout, mxArray *out[],
    ** -------------------------------------------------------------- */
   if (nin != 2) {
     mexErrMsgTxt("Two arguments required.") ;
-  } else if (nout > 4) {
+  } else if (nout > 1) {
     mexErrMsgTxt("Too many output arguments.");
   }
 
-- 
2.43.0


From ad1cba22255dbc9feedad18aa0f058362b061ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:31 +0000
Subject: [PATCH 137/207] fix: vl_liop has one result, uses the radius it is
 given and checks the number of neighbours

---
 toolbox/sift/vl_liop.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/toolbox/sift/vl_liop.c b/toolbox/sift/vl_liop.c
index 1f742ad..6cec797 100644
--- a/toolbox/sift/vl_liop.c
+++ b/toolbox/sift/vl_liop.c
@@ -71,7 +71,7 @@ mexFunction(int nout, mxArray *out[],
 
   if (nin < 1) {
     vlmxError(vlmxErrNotEnoughInputArguments, NULL) ;
-  } else if (nout > 2) {
+  } else if (nout > 1) {
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
@@ -107,8 +107,9 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_num_neighbours :
-        if (!vlmxIsPlainScalar(optarg) || (numNeighbours = (int) *mxGetPr(optarg)) < 2) {
-            vlmxError(vlmxErrInvalidArgument,"NUMNEIGHBOURS is not a scalar or it is less than two.") ;
+        if (!vlmxIsPlainScalar(optarg) || (numNeighbours = (int) *mxGetPr(optarg)) < 2 ||
+            numNeighbours > 12) {
+            vlmxError(vlmxErrInvalidArgument,"NUMNEIGHBOURS is not a scalar between 2 and 12.") ;
         }
         break ;
 
@@ -119,7 +120,7 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_radius :
-        if (!vlmxIsPlainScalar(optarg) || (radius = (int) *mxGetPr(optarg)) <= 0) {
+        if (!vlmxIsPlainScalar(optarg) || !((radius = (float) *mxGetPr(optarg)) > 0)) {
           vlmxError(vlmxErrInvalidArgument,"RADIUS is not a positive scalar.") ;
         }
         break ;
-- 
2.43.0


From 2803d662b9119b8272f0ea4350f8ca4a6725e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:31 +0000
Subject: [PATCH 138/207] fix: vl_covdet rejects frames and patch options that
 are not finite or too large

---
 toolbox/sift/vl_covdet.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index f730dbb..e7c9ac4 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -349,19 +349,22 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_patch_relative_smoothing :
-      if (!vlmxIsPlainScalar(optarg) || (patchRelativeSmoothing = *mxGetPr(optarg)) < 0) {
+      if (!vlmxIsPlainScalar(optarg) || (patchRelativeSmoothing = *mxGetPr(optarg)) < 0 ||
+          !mxIsFinite(patchRelativeSmoothing)) {
         vlmxError(vlmxErrInvalidArgument, "PATCHRELATIVESMOOTHING must be a non-negative real.") ;
       }
       break ;
 
     case opt_patch_relative_extent :
-      if (!vlmxIsPlainScalar(optarg) || (patchRelativeExtent = *mxGetPr(optarg)) <= 0) {
+      if (!vlmxIsPlainScalar(optarg) || (patchRelativeExtent = *mxGetPr(optarg)) <= 0 ||
+          !mxIsFinite(patchRelativeExtent)) {
         vlmxError(vlmxErrInvalidArgument, "PATCHRELATIVEEXTENT must be a posiive real.") ;
       }
       break ;
 
     case opt_patch_resolution :
-      if (!vlmxIsPlainScalar(optarg) || (patchResolution = (vl_index)*mxGetPr(optarg)) <= 0) {
+      if (!vlmxIsPlainScalar(optarg) || (patchResolution = (vl_index)*mxGetPr(optarg)) <= 0 ||
+          patchResolution > 1000000) {
         vlmxError(vlmxErrInvalidArgument, "PATCHRESOLUTION must be a positive integer.") ;
       }
       break ;
@@ -373,13 +376,14 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_liop_neighbours :
-      if (!vlmxIsPlainScalar(optarg) || (liopNumNeighbours = (vl_int)*mxGetPr(optarg)) <= 0) {
-        vlmxError(vlmxErrInvalidArgument, "number of LIOPNUMNEIGHBOURS is not a positive scalar.") ;
+      if (!vlmxIsPlainScalar(optarg) || (liopNumNeighbours = (vl_int)*mxGetPr(optarg)) <= 0 ||
+          liopNumNeighbours > 12) {
+        vlmxError(vlmxErrInvalidArgument, "number of LIOPNUMNEIGHBOURS is not a positive scalar not larger than 12.") ;
       }
       break ;
 
     case opt_liop_radius :
-      if (!vlmxIsPlainScalar(optarg) || (liopRadius = (float)*mxGetPr(optarg)) <= 0) {
+      if (!vlmxIsPlainScalar(optarg) || !((liopRadius = (float)*mxGetPr(optarg)) > 0)) {
         vlmxError(vlmxErrInvalidArgument, "LIOPRADIUS must is not a positive scalar.") ;
       }
       break ;
@@ -406,6 +410,14 @@ mexFunction(int nout, mxArray *out[],
       numUserFrames = mxGetN (optarg) ;
       userFrameDimension = mxGetM (optarg) ;
       userFrames = mxGetPr (optarg) ;
+      {
+        vl_uindex k ;
+        for (k = 0 ; k < numUserFrames * userFrameDimension ; ++k) {
+          if (!mxIsFinite(userFrames[k])) {
+            vlmxError(vlmxErrInvalidArgument, "FRAMES must be finite.") ;
+          }
+        }
+      }
       switch (userFrameDimension) {
         case 2:
         case 3:
-- 
2.43.0


From c1e355cc0632ff2887a02a9eb97cef1ac5fe0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:31 +0000
Subject: [PATCH 139/207] fix: vl_dsift accepts bounds far outside the image

---
 toolbox/sift/vl_dsift.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/toolbox/sift/vl_dsift.c b/toolbox/sift/vl_dsift.c
index bf7d08d..55ac142 100644
--- a/toolbox/sift/vl_dsift.c
+++ b/toolbox/sift/vl_dsift.c
@@ -123,6 +123,10 @@ mexFunction(int nout, mxArray *out[],
         if (!vlmxIsPlainVector(optarg, 4)) {
           mexErrMsgTxt("BOUNDS must be a 4-dimensional vector.") ;
         }
+        if (mxIsNaN(mxGetPr(optarg)[0]) || mxIsNaN(mxGetPr(optarg)[1]) ||
+            mxIsNaN(mxGetPr(optarg)[2]) || mxIsNaN(mxGetPr(optarg)[3])) {
+          mexErrMsgTxt("BOUNDS must not be NaN.") ;
+        }
         bounds = boundBuffer ;
         bounds [0] = mxGetPr(optarg)[0] - 1 ;
         bounds [1] = mxGetPr(optarg)[1] - 1 ;
@@ -214,10 +218,10 @@ mexFunction(int nout, mxArray *out[],
 
     if (bounds) {
       vl_dsift_set_bounds(dsift,
-                          VL_MAX(bounds[1], 0),
-                          VL_MAX(bounds[0], 0),
-                          VL_MIN(bounds[3], M - 1),
-                          VL_MIN(bounds[2], N - 1));
+                          VL_MIN(VL_MAX(bounds[1], 0), M),
+                          VL_MIN(VL_MAX(bounds[0], 0), N),
+                          VL_MAX(VL_MIN(bounds[3], M - 1), -1),
+                          VL_MAX(VL_MIN(bounds[2], N - 1), -1));
     }
     vl_dsift_set_flat_window(dsift, useFlatWindow) ;
 
-- 
2.43.0


From e160c7b3f7d460de6b4941a96fe53628d4ef178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:13 +0000
Subject: [PATCH 140/207] fix: patches of frames extremely far from the image
 are refused instead of read out of bounds

---
 vl/covdet.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 1880803..1660c38 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2319,6 +2319,12 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
       return vl_set_last_error(VL_ERR_EOF, "Frame out of image.");
     }
 
+    /* Make sure that the box can be represented by integers. */
+    if (!(x0 > -536870912.0 && x1 < 536870912.0 &&
+          y0 > -536870912.0 && y1 < 536870912.0)) {
+      return vl_set_last_error(VL_ERR_OVERFLOW, "Frame too large or too far from the image.");
+    }
+
     /* Leave one pixel border for bilinear interpolation. */
     x0i = floor(x0) - 1 ;
     y0i = floor(y0) - 1 ;
-- 
2.43.0


From 8c1f984742b92afad5bab4fb3c7fabcc5af8e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:13 +0000
Subject: [PATCH 141/207] fix: vl_hog checks its options and releases its
 objects

---
 toolbox/misc/vl_hog.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index a2bffdf..f540fd2 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -88,6 +88,9 @@ mexFunction(int nout, mxArray *out[],
     } else if (vlmxIsEqualToStringI(string_array, "render")) {
       /* image = vl_hog('render', descriptor) */
       mode = Render ;
+      if (nin < 2) {
+        vlmxError(vlmxErrNotEnoughInputArguments, NULL) ;
+      }
       descriptor_array = IN(CELLSIZE) ;
       next = 2 ;
       if (! mxIsNumeric(descriptor_array) ||
@@ -138,10 +141,14 @@ mexFunction(int nout, mxArray *out[],
       vlmxError(vlmxErrInvalidArgument,
                 "CELLSIZE is not a plain scalar.") ;
     }
-    if (mxGetScalar(IN(CELLSIZE)) < 1.0) {
+    if (! (mxGetScalar(IN(CELLSIZE)) >= 1.0)) {
       vlmxError(vlmxErrInvalidArgument,
                 "CELLSIZE is less than 1.") ;
     }
+    if (mxGetScalar(IN(CELLSIZE)) > 1e6) {
+      vlmxError(vlmxErrInvalidArgument,
+                "CELLSIZE is larger than 1000000.") ;
+    }
     cellSize = (vl_size) mxGetScalar(IN(CELLSIZE)) ;
     image = mxGetData(IN(I)) ;
     height = mxGetDimensions(IN(I))[0] ;
@@ -168,7 +175,7 @@ mexFunction(int nout, mxArray *out[],
         if (! vlmxIsPlainScalar(optarg)) {
           vlmxError(vlmxErrInvalidArgument, "NUMORIENTATIONS is not a plain scalar.") ;
         }
-        if (mxGetScalar(optarg) < 1) {
+        if (! (mxGetScalar(optarg) >= 1 && mxGetScalar(optarg) <= 1e6)) {
           vlmxError(vlmxErrInvalidArgument, "NUMORIENTATIONS is smaller than one.") ;
         }
         numOrientations = mxGetScalar(optarg) ;
@@ -271,6 +278,7 @@ mexFunction(int nout, mxArray *out[],
       for (k = 0 ; k < dimension ; ++k) {
         permutationOut[k] = permutation[k] + 1 ;
       }
+      vl_hog_delete(hog) ;
       break ;
     }
 
@@ -297,6 +305,7 @@ mexFunction(int nout, mxArray *out[],
       vl_hog_render(hog,
                     mxGetData(OUT(FEATURES)),
                     descriptor, height, width) ;
+      vl_hog_delete(hog) ;
       break ;
     }
   }
-- 
2.43.0


From 489f6be93e24f5f5743f6626743887931f8fb175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:24 +0000
Subject: [PATCH 142/207] fix: vl_lbp rejects a cell size that is not a number
 or is too large

---
 toolbox/misc/vl_lbp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_lbp.c b/toolbox/misc/vl_lbp.c
index 2bf8178..b617fc6 100644
--- a/toolbox/misc/vl_lbp.c
+++ b/toolbox/misc/vl_lbp.c
@@ -56,10 +56,14 @@ mexFunction(int nout, mxArray *out[],
               "CELLSIZE is not a plain scalar.") ;
   }
 
-  if (mxGetScalar(IN(CELLSIZE)) < 1.0) {
+  if (! (mxGetScalar(IN(CELLSIZE)) >= 1.0)) {
     vlmxError(vlmxErrInvalidArgument,
               "CELLSIZE is less than 1.") ;
   }
+  if (mxGetScalar(IN(CELLSIZE)) > 2147483647.0) {
+    vlmxError(vlmxErrInvalidArgument,
+              "CELLSIZE is too large.") ;
+  }
 
   cellSize = (vl_size) mxGetScalar(IN(CELLSIZE)) ;
   image = mxGetData(IN(I)) ;
-- 
2.43.0


From a2ac7f880fc1b6f93cea14944769accebda030b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:56 +0000
Subject: [PATCH 143/207] fix: dense SIFT of an image with undefined pixels
 does not write out of bounds

---
 vl/dsift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/dsift.c b/vl/dsift.c
index 9cbacdb..ae4c854 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -714,6 +714,7 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       nt = vl_mod_2pi_f (angle) * (self->geom.numBinT / (2*VL_PI)) ;
       bint = (int) vl_floor_f (nt) ;
       rbint = nt - bint ;
+      if (bint < 0) bint = 0 ; /* undefined angle */
 
       /* write it back */
       self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] = (1 - rbint) * mod ;
-- 
2.43.0


From 9ea74cf2269c1a9be321d443c85fadd295f687dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:11 +0000
Subject: [PATCH 144/207] fix: SIFT does not read out of bounds in octaves one
 pixel wide or high

---
 vl/sift.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 85dd120..1da9521 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1441,7 +1441,7 @@ vl_sift_detect (VlSiftFilt * f)
  ** The function makes sure that the gradient buffer is up-to-date
  ** with the current GSS data.
  **
- ** @remark The minimum octave size is 2x2xS.
+ ** @remark Octaves smaller than 2x2xS have a null gradient.
  **/
 
 static void
@@ -1458,6 +1458,15 @@ update_gradient (VlSiftFilt *f)
 
   if (f->grad_o == f->o_cur) return ;
 
+  /* octaves too small to have a gradient are taken as flat */
+  if (w < 2 || h < 2) {
+    if (s_max - 2 > s_min) {
+      memset (f->grad, 0, sizeof(vl_sift_pix) * 2 * so * (s_max - 2 - s_min)) ;
+    }
+    f->grad_o = f->o_cur ;
+    return ;
+  }
+
   for (s  = s_min + 1 ;
        s <= s_max - 2 ; ++ s) {
 
-- 
2.43.0


From 26392d4ede5565fa6054b325566ba17688e6a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:14 +0000
Subject: [PATCH 145/207] fix: vl_sift rejects empty images

---
 toolbox/sift/vl_sift.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 5b74059..2acab9f 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -177,6 +177,10 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("I must be a matrix of class SINGLE") ;
   }
 
+  if (mxGetNumberOfElements (in[IN_I]) == 0) {
+    mexErrMsgTxt("I must not be empty.") ;
+  }
+
   data = (vl_sift_pix*) mxGetData (in[IN_I]) ;
   M    = mxGetM (in[IN_I]) ;
   N    = mxGetN (in[IN_I]) ;
-- 
2.43.0


From e3fb89c13c28595bfd06c0c3d8716fde0d33bf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:59 +0000
Subject: [PATCH 146/207] fix: SIFT windows of any extent are clipped to the
 image without overflow

---
 vl/sift.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 1da9521..30ae4a7 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1587,7 +1587,7 @@ vl_sift_calc_keypoint_orientations (VlSiftFilt *f,
   int          si     = k-> is ;
 
   double const sigmaw = winf * sigma ;
-  int          W      = VL_MAX(floor (3.0 * sigmaw), 1) ;
+  int          W      = VL_MAX(VL_MIN(floor (3.0 * sigmaw), w + h), 1) ;
 
   int          nangles= 0 ;
 
@@ -1636,7 +1636,7 @@ vl_sift_calc_keypoint_orientations (VlSiftFilt *f,
       double wgt, mod, ang, fbin ;
 
       /* limit to a circular window */
-      if (r2 >= W*W + 0.6) continue ;
+      if (r2 >= (double) W*W + 0.6) continue ;
 
       wgt  = fast_expn (r2 / (2*sigmaw*sigmaw)) ;
       mod  = *(pt + xs*xo + ys*yo    ) ;
@@ -1783,8 +1783,8 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   double const st0    = sin (angle0) ;
   double const ct0    = cos (angle0) ;
   double const SBP    = magnif * sigma + VL_EPSILON_D ;
-  int    const W      = floor
-    (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5) ;
+  int    const W      = VL_MAX (VL_MIN (floor
+    (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5), w + h), -1) ;
 
   int const binto = 1 ;          /* bin theta-stride */
   int const binyo = NBO * NBP ;  /* bin y-stride */
@@ -1973,8 +1973,8 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
   double const st0         = sin (angle0) ;
   double const ct0         = cos (angle0) ;
   double const SBP         = magnif * sigma + VL_EPSILON_D ;
-  int    const W           = floor
-    (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5) ;
+  int    const W           = VL_MAX (VL_MIN (floor
+    (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5), w + h), -1) ;
 
   int const binto = 1 ;          /* bin theta-stride */
   int const binyo = NBO * NBP ;  /* bin y-stride */
-- 
2.43.0


From 2d8926cc322224b3e6d672874aa5135964a6f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 147/207] fix: vl_kmeans rejects sparse, complex and
 multidimensional data and options that are not numbers

---
 toolbox/kmeans/vl_kmeans.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/toolbox/kmeans/vl_kmeans.c b/toolbox/kmeans/vl_kmeans.c
index 4976a1b..37551ca 100644
--- a/toolbox/kmeans/vl_kmeans.c
+++ b/toolbox/kmeans/vl_kmeans.c
@@ -107,6 +107,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (! vlmxIsMatrix (IN(DATA), -1, -1) || ! vlmxIsReal (IN(DATA))) {
+    vlmxError (vlmxErrInvalidArgument, "DATA is not a real dense matrix") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
@@ -115,12 +119,13 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   }
 
   if (!vlmxIsPlainScalar(IN(NUMCENTERS)) ||
-      (numCenters = (vl_size) mxGetScalar(IN(NUMCENTERS))) < 1  ||
-      numCenters > numData) {
+      !(mxGetScalar(IN(NUMCENTERS)) >= 1) ||
+      mxGetScalar(IN(NUMCENTERS)) > numData) {
     vlmxError (vlmxErrInvalidArgument,
               "NUMCENTERS must be a positive integer not greater "
               "than the number of data.") ;
   }
+  numCenters = (vl_size) mxGetScalar(IN(NUMCENTERS)) ;
 
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
     char buf [1024] ;
@@ -132,15 +137,15 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
         break ;
 
       case opt_max_num_iterations :
-        if (!vlmxIsPlainScalar(optarg) || mxGetScalar(optarg) < 0) {
+        if (!vlmxIsPlainScalar(optarg) || !(mxGetScalar(optarg) >= 0)) {
           vlmxError (vlmxErrInvalidArgument,
                     "MAXNUMITERATIONS must be a non-negative integer scalar") ;
         }
-        maxNumIterations = (vl_size) mxGetScalar(optarg) ;
+        maxNumIterations = (vl_size) VL_MIN(mxGetScalar(optarg), 2147483647.0) ;
         break ;
         
       case opt_min_energy_variation :
-        if (!vlmxIsPlainScalar(optarg) || mxGetScalar(optarg) < 0) {
+        if (!vlmxIsPlainScalar(optarg) || !(mxGetScalar(optarg) >= 0)) {
           vlmxError (vlmxErrInvalidArgument,
                      "MINENERGYVARIATION must be a non-negative scalar") ;
         }
@@ -214,7 +219,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS must be a scalar.") ;
         }
-        if (mxGetScalar (optarg) < 1) {
+        if (!(mxGetScalar (optarg) >= 1) || mxGetScalar (optarg) > 2147483647.0) {
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS must be larger than or equal to 1.") ;
         }
@@ -226,7 +231,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
               vlmxError (vlmxErrInvalidArgument,
                      "NUMTREES must be a scalar.") ;
             }
-            if (mxGetScalar (optarg) < 1) {
+            if (!(mxGetScalar (optarg) >= 1) || mxGetScalar (optarg) > 2147483647.0) {
               vlmxError (vlmxErrInvalidArgument,
                     "NUMTREES must be larger than or equal to 1.") ;
             }
@@ -239,11 +244,11 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
               vlmxError (vlmxErrInvalidArgument,
                      "NUMCOMPARISONS must be a scalar.") ;
             }
-            if (mxGetScalar (optarg) < 0) {
+            if (!(mxGetScalar (optarg) >= 0)) {
               vlmxError (vlmxErrInvalidArgument,
                     "NUMCOMPARISONS must be larger than or equal to 0.") ;
             }
-            maxNumComparisons = (vl_size) mxGetScalar (optarg) ;
+            maxNumComparisons = (vl_size) VL_MIN(mxGetScalar (optarg), 2147483647.0) ;
          break;
 
       default :
-- 
2.43.0


From 35144a84f16cbff86a9065805005d252ee4583ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 148/207] fix: vl_gmm does not create results that were not
 requested

---
 toolbox/gmm/vl_gmm.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 7b9445b..07a4ea0 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -336,21 +336,25 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* copy centers */
   OUT(MEANS) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
-  OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
-
   memcpy (mxGetData(OUT(MEANS)),
           vl_gmm_get_means (gmm),
           vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
 
-  memcpy (mxGetData(OUT(COVARIANCES)),
-          vl_gmm_get_covariances (gmm),
-          vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  /* optionally return the covariances */
+  if (nout > 1) {
+    OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(COVARIANCES)),
+            vl_gmm_get_covariances (gmm),
+            vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
-  memcpy (mxGetData(OUT(PRIORS)),
-          vl_gmm_get_priors (gmm),
-          vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  /* optionally return the priors */
+  if (nout > 2) {
+    OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(PRIORS)),
+            vl_gmm_get_priors (gmm),
+            vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
   /* optionally return loglikelihood */
   if (nout > 3) {
@@ -359,6 +363,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* optionally return posterior probabilities */
   if (nout > 4) {
+    OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
     memcpy (mxGetData(OUT(POSTERIORS)),
             vl_gmm_get_posteriors (gmm),
             vl_get_type_size (dataType) * numData * vl_gmm_get_num_clusters(gmm)) ;
-- 
2.43.0


From 39ee6947ae764e19258cf50145b6ebdf2c1b2e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 149/207] fix: vl_gmm rejects sparse, complex and
 multidimensional data and options that are not numbers

---
 toolbox/gmm/vl_gmm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 07a4ea0..2e2bc06 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -107,6 +107,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (! vlmxIsMatrix (IN(DATA), -1, -1) || ! vlmxIsReal (IN(DATA))) {
+    vlmxError (vlmxErrInvalidArgument, "DATA is not a real dense matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
@@ -116,13 +120,14 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   }
 
   if (!vlmxIsPlainScalar(IN(NUMCLUSTERS)) ||
-      (numClusters = (vl_size) mxGetScalar(IN(NUMCLUSTERS))) < 1  ||
-      numClusters > numData)
+      !(mxGetScalar(IN(NUMCLUSTERS)) >= 1) ||
+      mxGetScalar(IN(NUMCLUSTERS)) > numData)
   {
     vlmxError (vlmxErrInvalidArgument,
                "NUMCLUSTERS must be a positive integer not greater "
                "than the number of data.") ;
   }
+  numClusters = (vl_size) mxGetScalar(IN(NUMCLUSTERS)) ;
 
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0)
   {
@@ -133,11 +138,11 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       case opt_verbose : ++ verbosity ; break ;
 
       case opt_max_num_iterations :
-        if (!vlmxIsPlainScalar(optarg) || mxGetScalar(optarg) < 0) {
+        if (!vlmxIsPlainScalar(optarg) || !(mxGetScalar(optarg) >= 0)) {
           vlmxError (vlmxErrInvalidArgument,
                      "MAXNUMITERATIONS must be a non-negative integer scalar") ;
         }
-        maxNumIterations = (vl_size) mxGetScalar(optarg) ;
+        maxNumIterations = (vl_size) VL_MIN(mxGetScalar(optarg), 2147483647.0) ;
         break ;
 
       case opt_covariance_bound :
@@ -218,7 +223,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS is not a scalar.") ;
         }
-        if (mxGetScalar (optarg) < 1) {
+        if (!(mxGetScalar (optarg) >= 1) || mxGetScalar (optarg) > 2147483647.0) {
           vlmxError (vlmxErrInvalidArgument,
                      "NUMREPETITIONS is not larger than or equal to 1.") ;
         }
-- 
2.43.0


From 836a19de8ff19e58c65e1d9905abf72dbe9616ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 150/207] fix: vl_gmm rejects a custom initialization without
 initial values

---
 toolbox/gmm/vl_gmm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 2e2bc06..c609504 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -278,6 +278,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
                  "INITCOVARIANCES requires 'custom' INITALIZATION.") ;
     }
     initialization = VlGMMCustom ;
+  } else if (initialization == VlGMMCustom) {
+    vlmxError (vlmxErrInvalidArgument,
+               "'custom' INITIALIZATION requires INITPRIORS, "
+               "INITMEANS, and INITCOVARIANCES.") ;
   }
 
   gmm = vl_gmm_new (dataType, dimension, numClusters) ;
-- 
2.43.0


From dc10a0babce0211bf462422256e20c5ee19e15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 151/207] fix: the list of options of vl_fisher ends

---
 toolbox/fisher/vl_fisher.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/fisher/vl_fisher.c b/toolbox/fisher/vl_fisher.c
index d5233c0..e5f0c65 100644
--- a/toolbox/fisher/vl_fisher.c
+++ b/toolbox/fisher/vl_fisher.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Normalized",          0,   opt_normalized               },
   {"SquareRoot",          0,   opt_square_root              },
   {"Improved",            0,   opt_improved                 },
-  {"Fast",                0,   opt_fast                     }
+  {"Fast",                0,   opt_fast                     },
+  {0,                     0,   0                            }
 } ;
 
 /* driver */
-- 
2.43.0


From 5a4bc5824ba876e0831529a4207e45d0bc3d34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 152/207] fix: the list of options of vl_vlad ends

---
 toolbox/vlad/vl_vlad.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 0cb3bac..650e7b0 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Unnormalized",        0,   opt_unnormalized             },
   {"NormalizeComponents", 0,   opt_normalize_components     },
   {"NormalizeMass",       0,   opt_normalize_mass           },
-  {"SquareRoot",          0,   opt_square_root              }
+  {"SquareRoot",          0,   opt_square_root              },
+  {0,                     0,   0                            }
 } ;
 
 /* driver */
-- 
2.43.0


From d4cf6fd2826402384b07491a28e60caf06dd1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 153/207] fix: vl_vlad checks that there is a column of
 assignments for each datum

---
 toolbox/vlad/vl_vlad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 650e7b0..e04b3a6 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -111,7 +111,7 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
     vlmxError (vlmxErrInvalidArgument, "MEANS is not a matrix or does not have the right size.") ;
   }
 
-  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, -1)) {
+  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, numData)) {
     vlmxError (vlmxErrInvalidArgument, "ASSIGNMENTS is not a matrix or does not have the right size.") ;
   }
 
-- 
2.43.0


From 827a0ffe51bfe38da5a2c89534b62c1916ce9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 154/207] fix: vl_vlad looks at its arguments only after
 checking their number, and rejects complex ones

---
 toolbox/vlad/vl_vlad.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index e04b3a6..85d9c36 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -45,9 +45,6 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
   int next = IN_END ;
   mxArray const  *optarg ;
 
-  mxArray const * means_array = in[IN_MEANS] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * assign_array = in[IN_ASSIGNMENTS] ;
 
   vl_size numClusters ;
   vl_size dimension ;
@@ -111,6 +108,9 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
     vlmxError (vlmxErrInvalidArgument, "MEANS is not a matrix or does not have the right size.") ;
   }
 
+  if (!vlmxIsReal(IN(DATA)) || !vlmxIsReal(IN(MEANS)) || !vlmxIsReal(IN(ASSIGNMENTS))) {
+    vlmxError (vlmxErrInvalidArgument, "DATA, MEANS and ASSIGNMENTS are not real.") ;
+  }
   if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, numData)) {
     vlmxError (vlmxErrInvalidArgument, "ASSIGNMENTS is not a matrix or does not have the right size.") ;
   }
@@ -132,9 +132,9 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
    *                                                        Do the job
    * -------------------------------------------------------------- */
 
-  data = mxGetPr(data_array);
-  means = mxGetPr(means_array);
-  assignments = mxGetData(assign_array);
+  data = mxGetData(IN(DATA));
+  means = mxGetData(IN(MEANS));
+  assignments = mxGetData(IN(ASSIGNMENTS));
 
   if (verbosity) {
     mexPrintf("vl_vlad: num data: %d\n", numData) ;
-- 
2.43.0


From b1bd1373d74a54f96cd9739b9f3b99f18720a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 155/207] fix: vl_fisher rejects complex arguments

---
 toolbox/fisher/vl_fisher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toolbox/fisher/vl_fisher.c b/toolbox/fisher/vl_fisher.c
index e5f0c65..e369806 100644
--- a/toolbox/fisher/vl_fisher.c
+++ b/toolbox/fisher/vl_fisher.c
@@ -115,6 +115,11 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
     vlmxError (vlmxErrInvalidArgument, "DATA is not a matrix or does not have the correct size.") ;
   }
 
+  if (!vlmxIsReal(IN(DATA)) || !vlmxIsReal(IN(MEANS)) ||
+      !vlmxIsReal(IN(COVARIANCES)) || !vlmxIsReal(IN(PRIORS))) {
+    vlmxError (vlmxErrInvalidArgument, "DATA, MEANS, COVARIANCES and PRIORS are not real.") ;
+  }
+
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
       case opt_verbose : ++ verbosity ; break ;
-- 
2.43.0


From af33932454aa6092083b20a26aa38bce6074ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 156/207] fix: vl_kdtreebuild has one result

---
 toolbox/misc/vl_kdtreebuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_kdtreebuild.c b/toolbox/misc/vl_kdtreebuild.c
index 05c9dba..703ea2a 100644
--- a/toolbox/misc/vl_kdtreebuild.c
+++ b/toolbox/misc/vl_kdtreebuild.c
@@ -70,7 +70,7 @@ mexFunction(int nout, mxArray *out[],
   if (nin < 1) {
     vlmxError(vlmxErrInvalidArgument,
              "At least one argument required") ;
-  } else if (nout > 2) {
+  } else if (nout > 1) {
     vlmxError(vlmxErrInvalidArgument,
              "Too many output arguments");
   }
-- 
2.43.0


From 39da798e23633fbc98e695eec28ed2a3945532b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 157/207] fix: vl_kdtreebuild rejects a number of trees that is
 not a number

---
 toolbox/misc/vl_kdtreebuild.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_kdtreebuild.c b/toolbox/misc/vl_kdtreebuild.c
index 703ea2a..110fbdc 100644
--- a/toolbox/misc/vl_kdtreebuild.c
+++ b/toolbox/misc/vl_kdtreebuild.c
@@ -95,11 +95,14 @@ mexFunction(int nout, mxArray *out[],
     char buffer [1024] ;
     switch (opt) {
       case opt_threshold_method :
-        mxGetString (optarg, buffer, sizeof(buffer)/sizeof(buffer[0])) ;
         if (! vlmxIsString(optarg, -1)) {
           vlmxError(vlmxErrInvalidOption,
                    "THRESHOLDMETHOD must be a string") ;
         }
+        if (mxGetString (optarg, buffer, sizeof(buffer)/sizeof(buffer[0]))) {
+          vlmxError(vlmxErrInvalidOption,
+                   "THRESHOLDMETHOD argument too long") ;
+        }
         if (vl_string_casei_cmp(buffer, "median") == 0) {
           thresholdingMethod = VL_KDTREE_MEDIAN ;
         } else if (vl_string_casei_cmp(buffer, "mean") == 0) {
@@ -111,11 +114,13 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_num_trees :
-        if (! vlmxIsScalar(optarg) ||
-            (numTrees = mxGetScalar(optarg)) < 1) {
+        if (! vlmxIsPlainScalar(optarg) ||
+            ! (mxGetScalar(optarg) >= 1) ||
+            mxGetScalar(optarg) > 2147483647.0) {
           vlmxError(vlmxErrInvalidOption,
                    "NUMTREES must be not smaller than one") ;
         }
+        numTrees = (vl_size) mxGetScalar(optarg) ;
         break ;
 
       case opt_verbose :
-- 
2.43.0


From 078709f97dac2eac7526b92d14acd1460c08aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 158/207] fix: vl_kdtreequery looks at its arguments only after
 checking their number

---
 toolbox/misc/vl_kdtreequery.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 08c5e2b..6742fd1 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -51,9 +51,9 @@ mexFunction(int nout, mxArray *out[],
   mxArray const *optarg ;
 
   VlKDForest * forest ;
-  mxArray const * forest_array = in[IN_FOREST] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * query_array = in[IN_QUERY] ;
+  mxArray const * forest_array ;
+  mxArray const * data_array ;
+  mxArray const * query_array ;
   void * query ;
   vl_uint32 * index ;
   void * distance ;
@@ -77,6 +77,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
+  forest_array = in[IN_FOREST] ;
+  data_array = in[IN_DATA] ;
+  query_array = in[IN_QUERY] ;
+
   forest = new_kdforest_from_array (forest_array, data_array) ;
 
   dataClass = mxGetClassID (data_array) ;
-- 
2.43.0


From f063cc444ed4f60c2f088fcb1f2facec802e2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 159/207] fix: vl_kdtreequery does not create distances that
 were not requested

---
 toolbox/misc/vl_kdtreequery.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 6742fd1..aadd2de 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -127,10 +127,13 @@ mexFunction(int nout, mxArray *out[],
   numQueries = mxGetN (query_array) ;
 
   out[OUT_INDEX] = mxCreateNumericMatrix (numNeighbors, numQueries, mxUINT32_CLASS, mxREAL) ;
-  out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
 
   index = mxGetData (out[OUT_INDEX]) ;
-  distance = mxGetData (out[OUT_DISTANCE]) ;
+  distance = NULL ;
+  if (nout > 1) {
+    out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
+    distance = mxGetData (out[OUT_DISTANCE]) ;
+  }
 
   if (verbose) {
     VL_PRINTF ("vl_kdforestquery: number of queries: %d\n", numQueries) ;
-- 
2.43.0


From 61fb21f5b1b39865173ac9f947a1a0c0ac0dcb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:40 +0000
Subject: [PATCH 160/207] fix: vl_kdtreequery rejects options that are not
 numbers

---
 toolbox/misc/vl_kdtreequery.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index aadd2de..614c15c 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -100,19 +100,21 @@ mexFunction(int nout, mxArray *out[],
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
       case opt_num_neighs :
-        if (! vlmxIsScalar(optarg) ||
-            (numNeighbors = mxGetScalar(optarg)) < 1) {
+        if (! vlmxIsPlainScalar(optarg) ||
+            ! (mxGetScalar(optarg) >= 1) ||
+            mxGetScalar(optarg) > 2147483647.0) {
           vlmxError(vlmxErrInvalidArgument,
                     "NUMNEIGHBORS must be a scalar not smaller than one.") ;
         }
+        numNeighbors = (vl_size) mxGetScalar(optarg) ;
         break;
 
       case opt_max_num_comparisons :
-        if (! vlmxIsScalar(optarg)) {
+        if (! vlmxIsPlainScalar(optarg)) {
           vlmxError(vlmxErrInvalidArgument,
                     "MAXNUMCOMPARISONS must be a scalar.") ;
         }
-        maxNumComparisons = mxGetScalar(optarg) ;
+        maxNumComparisons = (unsigned int) VL_MAX(VL_MIN(mxGetScalar(optarg), 2147483647.0), 0) ;
         break;
 
       case opt_verbose :
-- 
2.43.0


From b08fb49c5a57a661a3b16535479be0590cd59835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:16 +0000
Subject: [PATCH 161/207] fix: vl_kdtreequery checks the whole forest it is
 given

---
 toolbox/misc/kdtree.h | 47 +++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/toolbox/misc/kdtree.h b/toolbox/misc/kdtree.h
index b66f003..6abb6aa 100644
--- a/toolbox/misc/kdtree.h
+++ b/toolbox/misc/kdtree.h
@@ -231,6 +231,12 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     FOREST.TREES
    */
 
+  if (! mxIsStruct (forest_array) ||
+      mxGetNumberOfElements (forest_array) != 1) {
+    vlmxError (vlmxErrInconsistentData,
+              "FOREST must be a 1 x 1 structure.") ;
+  }
+
   distance_array = mxGetField (forest_array, 0, "distance") ;
   if(distance_array && vlmxIsString (distance_array, -1)){
     if (vlmxCompareToStringI(distance_array, "l1") == 0) {
@@ -246,27 +252,26 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
               "FOREST.DISTANCE must be a string.") ;
   }
 
-  if (! mxIsStruct (forest_array) ||
-      mxGetNumberOfElements (forest_array) != 1) {
-    vlmxError (vlmxErrInconsistentData,
-              "FOREST must be a 1 x 1 structure.") ;
-  }
   dimension_array = mxGetField (forest_array, 0, "dimension") ;
   if (! dimension_array ||
       ! vlmxIsPlainScalar (dimension_array) ||
-      (dimension = mxGetScalar (dimension_array)) < 1) {
+      mxGetScalar (dimension_array) < 1 ||
+      mxGetScalar (dimension_array) != mxGetM (data_array)) {
     vlmxError(vlmxErrInconsistentData,
-             "FOREST.NUMDIMENSIONS must be a poisitve integer.") ;
+             "FOREST.NUMDIMENSIONS must be a poisitve integer equal to the number of rows of DATA.") ;
   }
+  dimension = mxGetM (data_array) ;
   numData_array = mxGetField (forest_array, 0, "numData") ;
   if (! numData_array ||
       ! vlmxIsPlainScalar (numData_array) ||
-      (numData = mxGetScalar (numData_array)) < 1) {
+      mxGetScalar (numData_array) < 1 ||
+      mxGetScalar (numData_array) != mxGetN (data_array)) {
     vlmxError(vlmxErrInconsistentData,
-             "FOREST.NUMDATA must be a poisitve integer.") ;
+             "FOREST.NUMDATA must be a poisitve integer equal to the number of columns of DATA.") ;
   }
+  numData = mxGetN (data_array) ;
   trees_array = mxGetField (forest_array, 0, "trees") ;
-  if (! mxIsStruct (trees_array)) {
+  if (! trees_array || ! mxIsStruct (trees_array)) {
     vlmxError(vlmxErrInconsistentData,
              "FOREST.TREES must be a structure array.") ;
   }
@@ -307,7 +312,8 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     dataIndex_array = mxGetField (trees_array, ti, "dataIndex") ;
 
     if (! nodes_array ||
-        ! mxIsStruct (nodes_array)) {
+        ! mxIsStruct (nodes_array) ||
+        mxGetNumberOfElements (nodes_array) != 1) {
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES must be a struct array.", ti+1) ;
     }
@@ -326,10 +332,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     lowerBound_array = mxGetField (nodes_array, 0, "lowerBound") ;
     upperBound_array = mxGetField (nodes_array, 0, "upperBound") ;
 
-    numUsedNodes = mxGetN (lowerChild_array) ;
+    numUsedNodes = lowerChild_array ? mxGetN (lowerChild_array) : 0 ;
     maxNumNodes += numUsedNodes ;
 
     if (! lowerChild_array ||
+        numUsedNodes < 1 ||
         ! vlmxIsMatrix (lowerChild_array, 1, numUsedNodes) ||
         mxGetClassID (lowerChild_array) != mxINT32_CLASS) {
       vlmxError(vlmxErrInconsistentData,
@@ -353,13 +360,13 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.SPLITTHRESHOLD must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! lowerBound_array ||
         ! vlmxIsMatrix (lowerBound_array, 1, numUsedNodes) ||
         mxGetClassID (lowerBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.LOWERBOUND must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! upperBound_array ||
         ! vlmxIsMatrix (upperBound_array, 1, numUsedNodes) ||
         mxGetClassID (upperBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
@@ -391,17 +398,18 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
         vl_int32 uc = upperChild [ni] ;
         vl_uint32 d = splitDimension [ni] ;
 
-        if (uc < - (signed)numData - 1 || uc > (signed)numUsedNodes) {
+        /* either two children or the range of data of a leaf */
+        if (uc < - (signed)numData - 1 || uc > (signed)numUsedNodes || uc == 0 || (uc > 0) != (lc > 0)) {
           vlmxError (vlmxErrInconsistentData,
                     "TREE.NODES.UPPERCHILD(%d)=%d out of bounds",
                     ni+1,uc) ;
         }
-        if (lc < - (signed)numData || lc > (signed)numUsedNodes) {
+        if (lc < - (signed)numData - 1 || lc > (signed)numUsedNodes || lc == 0 || (lc < 0 && lc < uc)) {
           vlmxError (vlmxErrInconsistentData,
                     "TREE.NODES.LOWERCHILD(%d)=%d out of bounds",
                     ni+1,lc) ;
         }
-        if (d > dimension) {
+        if (d < 1 || d > dimension) {
           vlmxError (vlmxErrInconsistentData,
                     "TREE.NODES.SPLITDIMENSION(%d)=%d out of bounds",
                     ni+1,d) ;
@@ -421,6 +429,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vl_uindex di ;
       vl_uint32 * dataIndex = mxGetData (dataIndex_array) ;
       for (di = 0 ; di < numData ; ++ di) {
+        if (dataIndex [di] < 1 || dataIndex [di] > numData) {
+          vlmxError (vlmxErrInconsistentData,
+                    "TREE.DATAINDEX(%d)=%d out of bounds",
+                    di+1,dataIndex [di]) ;
+        }
         tree->dataIndex[di].index = dataIndex [di] - 1 ;
       }
     }
-- 
2.43.0


From b9ab4af0e830b53b28b3b9f068cbb8a7488beddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:16 +0000
Subject: [PATCH 162/207] fix: vl_svmtrain does not create a bias that was not
 requested

---
 toolbox/misc/vl_svmtrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index e62d9c9..a4b536c 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -622,7 +622,7 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
              vl_svm_get_model(svm),
              vl_svm_get_dimension(svm) * sizeof(double)) ;
     }
-    out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    if (nout >= 2) out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
     if (nout >= 3) {
       out[OUT_INFO] = makeInfoStruct(svm) ;
     }
-- 
2.43.0


From 93886f23ad8c3e89bf3e306d4886c5a552106575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:16 +0000
Subject: [PATCH 163/207] fix: vl_svmtrain rejects complex data, fields of the
 wrong type and options that are not numbers

---
 toolbox/misc/vl_svmtrain.c | 49 ++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index a4b536c..5d47d87 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -133,6 +133,10 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
       vlmxError(vlmxErrInvalidArgument, "DATASET.DATA is empty.") ;
     }
 
+    if (! vlmxIsReal (data_array)) {
+      vlmxError(vlmxErrInvalidArgument, "DATASET.DATA is not real.") ;
+    }
+
     switch (dataClass) {
       case mxSINGLE_CLASS : dataType = VL_TYPE_FLOAT ; break ;
       case mxDOUBLE_CLASS : dataType = VL_TYPE_DOUBLE ; break ;
@@ -156,8 +160,8 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
     hom_array = mxGetField(dataset_array, 0, "homkermap") ;
     if (hom_array != NULL)
     {
-      if (!mxIsStruct(hom_array)) {
-        vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP is not a structure") ;
+      if (!mxIsStruct(hom_array) || mxGetNumberOfElements(hom_array) != 1) {
+        vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP is not a singleton structure") ;
       }
 
       field = mxGetField(hom_array, 0, "order") ;
@@ -165,16 +169,19 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
         if (! vlmxIsPlainScalar(field)) {
           vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP.ORDER is not a scalar.") ;
         }
-        n = *mxGetPr(field) ;
-        if (n < 0) {
-          vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP.ORDER is negative.") ;
+        if (! (*mxGetPr(field) >= 0 && *mxGetPr(field) <= 1e6)) {
+          vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP.ORDER is negative or too large.") ;
         }
+        n = *mxGetPr(field) ;
       }
 
       field = mxGetField(hom_array, 0, "kernel") ;
       if (field != NULL) {
         char buffer [1024] ;
-        mxGetString(field, buffer, sizeof(buffer) / sizeof(char)) ;
+        if (! vlmxIsString(field, -1) ||
+            mxGetString(field, buffer, sizeof(buffer) / sizeof(char))) {
+          vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP.KERNEL is not a string.") ;
+        }
         if (vl_string_casei_cmp("kl1", buffer) == 0) {
           kernelType = VlHomogeneousKernelIntersection ;
         } else if (vl_string_casei_cmp("kchi2", buffer) == 0) {
@@ -191,7 +198,10 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
       field = mxGetField(hom_array, 0, "window") ;
       if (field != NULL) {
         char buffer [1024] ;
-        mxGetString(field, buffer, sizeof(buffer) / sizeof(char)) ;
+        if (! vlmxIsString(field, -1) ||
+            mxGetString(field, buffer, sizeof(buffer) / sizeof(char))) {
+          vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP.WINDOW is not a string.") ;
+        }
         if (vl_string_casei_cmp("uniform", buffer) == 0) {
           windowType = VlHomogeneousKernelMapWindowUniform ;
         } else if (vl_string_casei_cmp("rectangular", buffer) == 0) {
@@ -207,7 +217,7 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
           vlmxError(vlmxErrInvalidArgument, "GAMMA is not a scalar.") ;
         }
         gamma = *mxGetPr(field) ;
-        if (gamma <= 0) {
+        if (! (gamma > 0)) {
           vlmxError(vlmxErrInvalidArgument, "GAMMA is not positive.") ;
         }
       }
@@ -218,7 +228,7 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not a scalar.") ;
         }
         period = *mxGetPr(field) ;
-        if (period <= 0) {
+        if (! (period > 0)) {
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not positive.") ;
         }
       }
@@ -405,10 +415,19 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is not a plain scalar.")
 variable = (double) *mxGetPr(optarg);
 
 #define GET_NN_SCALAR(NAME, variable) GET_SCALAR(NAME, variable) \
-if (variable < 0) { \
+if (! (variable >= 0)) { \
 vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
 }
 
+#define GET_NN_INTEGER(NAME, variable) \
+if (!vlmxIsPlainScalar(optarg)) { \
+vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is not a plain scalar.") ; \
+} \
+if (! (*mxGetPr(optarg) >= 0)) { \
+vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
+} \
+variable = (vl_index) VL_MIN(*mxGetPr(optarg), 2147483647.0) ;
+
   /* Mode 1: pass data, labels, lambda, and options */
   if (mxIsNumeric(in[IN_DATASET]))
   {
@@ -422,6 +441,10 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
       vlmxError (vlmxErrInvalidArgument,
                  "X is not a matrix.") ;
     }
+    if (!vlmxIsReal(samples_array)) {
+      vlmxError (vlmxErrInvalidArgument,
+                 "X is not real.") ;
+    }
     if (mxGetClassID(samples_array) == mxDOUBLE_CLASS) {
       dataType = VL_TYPE_DOUBLE ;
     } else if (mxGetClassID(samples_array) == mxSINGLE_CLASS) {
@@ -464,8 +487,8 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
       case opt_verbose: verbose ++ ; break ;
       case opt_epsilon: GET_NN_SCALAR(EPSLON, epsilon) ; break ;
       case opt_bias_multiplier: GET_NN_SCALAR(BIASMULTIPLIER, biasMultipler) ; break ;
-      case opt_max_num_iterations: GET_NN_SCALAR(MAXNUMITERATIONS, maxNumIterations) ; break ;
-      case opt_diagnostic_frequency: GET_NN_SCALAR(DIAGNOSTICFREQUENCY, diagnosticFrequency) ; break ;
+      case opt_max_num_iterations: GET_NN_INTEGER(MAXNUMITERATIONS, maxNumIterations) ; break ;
+      case opt_diagnostic_frequency: GET_NN_INTEGER(DIAGNOSTICFREQUENCY, diagnosticFrequency) ; break ;
       case opt_diagnostic_function:
         if (!mxIsClass(optarg ,"function_handle")) {
           mexErrMsgTxt("DIAGNOSTICSFUNCTION is not a function handle.");
@@ -536,7 +559,7 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
         break ;
 
       /* SGD specific */
-      case opt_starting_iteration: GET_NN_SCALAR(STARTINGITERATION, startingIteration) ; break ;
+      case opt_starting_iteration: GET_NN_INTEGER(STARTINGITERATION, startingIteration) ; break ;
       case opt_bias_learning_rate: GET_NN_SCALAR(BIASLEARNINGRATE, sgdBiasLearningRate) ; break ;
 
       /* DCA specific */
-- 
2.43.0


From 132eb2e178e3a178f073586ca0d15571b7b0db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 164/207] fix: vl_homkermap rejects sparse and complex data and
 options that are not numbers

---
 toolbox/misc/vl_homkermap.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index c7483fc..11b2499 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -85,17 +85,22 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument, "X is neither DOUBLE nor SINGLE.") ;
   }
 
+  if (! vlmxIsReal(IN(X))) {
+    vlmxError(vlmxErrInvalidArgument, "X is not real and dense.") ;
+  }
+
   numDimensions = mxGetNumberOfDimensions(IN(X)) ;
   dimensions = mxGetDimensions(IN(X)) ;
 
   if (! vlmxIsPlainScalar(IN(N))) {
     vlmxError(vlmxErrInvalidArgument, "N is not a scalar.") ;
   }
-  n = *mxGetPr(IN(N)) ;
-  if (n < 0) {
-    vlmxError(vlmxErrInvalidArgument, "N is negative.") ;
+  if (! (*mxGetPr(IN(N)) >= 0 && *mxGetPr(IN(N)) <= 1e6)) {
+    vlmxError(vlmxErrInvalidArgument, "N is negative or too large.") ;
   }
 
+  n = *mxGetPr(IN(N)) ;
+
   while ((opt = vlmxNextOption(in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
       case opt_KINTERS:
@@ -118,7 +123,7 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not a scalar.") ;
         }
         period = *mxGetPr(optarg) ;
-        if (period <= 0) {
+        if (! (period > 0) || mxIsInf(period)) {
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not positive.") ;
         }
         break ;
@@ -127,7 +132,7 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument, "GAMMA is not a scalar.") ;
         }
         gamma = *mxGetPr(optarg) ;
-        if (gamma <= 0) {
+        if (! (gamma > 0)) {
           vlmxError(vlmxErrInvalidArgument, "GAMMA is not positive.") ;
         }
         break ;
-- 
2.43.0


From 16264cb16ba68e4d60705865dfe7f4d4202e4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 165/207] fix: vl_homkermap accepts arrays of more than 20
 dimensions

---
 toolbox/misc/vl_homkermap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index 11b2499..e601a6a 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -164,7 +164,7 @@ mexFunction(int nout, mxArray *out[],
     vl_uindex j ;
     vl_size numElements = mxGetNumberOfElements(IN(X)) ;
     VlHomogeneousKernelMap * map = vl_homogeneouskernelmap_new (kernelType, gamma, n, period, windowType) ;
-    mwSize extDimensions [20] ;
+    mwSize * extDimensions = mxMalloc(sizeof(mwSize) * numDimensions) ;
     for (j = 0 ; j < numDimensions ; ++j) extDimensions[j] = dimensions[j] ;
     extDimensions[0] *= 2*n+1 ;
     OUT(V) = mxCreateNumericArray(numDimensions, extDimensions, dataClassId, mxREAL) ;
@@ -192,6 +192,7 @@ mexFunction(int nout, mxArray *out[],
       default:
         abort() ;
     }
+    mxFree(extDimensions) ;
     vl_homogeneouskernelmap_delete (map) ;
   }
 }
-- 
2.43.0


From aac2caf6b72fcff86e111bfa1446e29f37cc3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 166/207] fix: the table of the homogeneous kernel map of a
 large order has the right size

---
 vl/homkermap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 1d460f0..7ec85b7 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -329,7 +329,7 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
                              double period,
                              VlHomogeneousKernelMapWindowType windowType)
 {
-  int tableWidth, tableHeight ;
+  vl_size tableWidth, tableHeight ;
   VlHomogeneousKernelMap * self = vl_malloc(sizeof(VlHomogeneousKernelMap)) ;
   if (! self) return NULL ;
 
@@ -372,8 +372,8 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
   self->minExponent = -20 ;
   self->maxExponent = 8 ;
 
-  tableHeight = (int) (2*self->order + 1) ;
-  tableWidth = (int) (self->numSubdivisions * (self->maxExponent - self->minExponent + 1)) ;
+  tableHeight = 2*self->order + 1 ;
+  tableWidth = self->numSubdivisions * (self->maxExponent - self->minExponent + 1) ;
   self->table = vl_malloc (sizeof(double) *
                            (tableHeight * tableWidth + 2*(1+self->order))) ;
   if (! self->table) {
-- 
2.43.0


From 60465fc1ec01d9a6960bcac216ba3f515a2b1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 167/207] fix: vl_svmtrain rejects an infinite period

---
 toolbox/misc/vl_svmtrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index 5d47d87..7634b45 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -228,7 +228,7 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not a scalar.") ;
         }
         period = *mxGetPr(field) ;
-        if (! (period > 0)) {
+        if (! (period > 0) || mxIsInf(period)) {
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not positive.") ;
         }
       }
-- 
2.43.0


From c0b8e04114ac02e6214d26bf697f7901d1263ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 168/207] fix: vl_slic rejects sparse images and options that
 are not numbers

---
 toolbox/slic/vl_slic.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/toolbox/slic/vl_slic.c b/toolbox/slic/vl_slic.c
index 8efe034..d00e0ce 100644
--- a/toolbox/slic/vl_slic.c
+++ b/toolbox/slic/vl_slic.c
@@ -70,7 +70,7 @@ mexFunction(int nout, mxArray *out[],
   }
 
   image = mxGetData(IN(IMAGE)) ;
-  if (!mxIsNumeric(IN(IMAGE)) || mxIsComplex(IN(IMAGE))) {
+  if (!vlmxIsReal(IN(IMAGE))) {
     vlmxError(vlmxErrInvalidArgument, "IMAGE is not a real matrix.") ;
   }
   if (mxGetClassID(IN(IMAGE)) != mxSINGLE_CLASS) {
@@ -91,16 +91,17 @@ mexFunction(int nout, mxArray *out[],
   if (!vlmxIsPlainScalar(IN(REGIONSIZE))) {
     vlmxError(vlmxErrInvalidArgument, "REGIONSIZE is not a plain scalar.") ;
   }
-  regionSize = mxGetScalar(IN(REGIONSIZE)) ;
-  if (regionSize < 1) {
-    vlmxError(vlmxErrInvalidArgument, "REGIONSIZE=%d is smaller than one.", regionSize) ;
+  if (! (mxGetScalar(IN(REGIONSIZE)) >= 1)) {
+    vlmxError(vlmxErrInvalidArgument, "REGIONSIZE=%g is smaller than one.", mxGetScalar(IN(REGIONSIZE))) ;
   }
+  /* regions larger than this cover any image */
+  regionSize = VL_MIN(mxGetScalar(IN(REGIONSIZE)), 32768.0) ;
 
   if (!vlmxIsPlainScalar(IN(REGULARIZER))) {
     vlmxError(vlmxErrInvalidArgument, "REGULARIZER is not a plain scalar.") ;
   }
   regularizer = mxGetScalar(IN(REGULARIZER)) ;
-  if (regularizer < 0) {
+  if (! (regularizer >= 0)) {
     vlmxError(vlmxErrInvalidArgument, "REGULARIZER=%g is smaller than one.", regularizer) ;
   }
 
@@ -113,10 +114,10 @@ mexFunction(int nout, mxArray *out[],
         if (!vlmxIsPlainScalar(optarg)) {
           vlmxError(vlmxErrInvalidArgument, "MINREGIONSIZE is not a plain scalar.") ;
         }
-        minRegionSize = mxGetScalar(optarg) ;
-        if (minRegionSize < 0) {
-          vlmxError(vlmxErrInvalidArgument, "MINREGIONSIZE=%d is smaller than zero.", minRegionSize) ;
+        if (! (mxGetScalar(optarg) >= 0)) {
+          vlmxError(vlmxErrInvalidArgument, "MINREGIONSIZE=%g is smaller than zero.", mxGetScalar(optarg)) ;
         }
+        minRegionSize = VL_MIN(mxGetScalar(optarg), 2147483647.0) ;
         break ;
     }
   }
-- 
2.43.0


From 703418b7d794af8585dc2c9a798de29defa64a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 169/207] fix: vl_quickshift checks the class of its parameters
 and accepts options without a maximum distance

---
 toolbox/quickshift/vl_quickshift.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 9858bb0..1bbb76c 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -101,11 +101,24 @@ mexFunction(int nout, mxArray *out[],
   N2 = dims [1] ;
   K = (ndims == 3) ? dims [2] : 1 ;
 
+  if (! vlmxIsReal (in[IN_I])) {
+    mexErrMsgTxt("I must be real and not sparse.") ;
+  }
+  if (! vlmxIsPlainScalar (in[IN_KERNEL_SIZE])) {
+    mexErrMsgTxt("KERNELSIZE must be a DOUBLE scalar.") ;
+  }
+
   I     =  mxGetPr (in[IN_I]) ;
   sigma = *mxGetPr (in[IN_KERNEL_SIZE]) ;
   tau   = 3*sigma;
-  if (nin > 2)
+  next = IN_MAX_DIST ;
+  if (nin > 2 && ! vlmxIsString (in[IN_MAX_DIST], -1)) {
+    if (! vlmxIsPlainScalar (in[IN_MAX_DIST])) {
+      mexErrMsgTxt("MAXDIST must be a DOUBLE scalar.") ;
+    }
     tau = *mxGetPr (in[IN_MAX_DIST]) ;
+    next = IN_END ;
+  }
 
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
-- 
2.43.0


From a27c4692c62a7b1ed3e2a56c7586181a86014d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:16 +0000
Subject: [PATCH 170/207] fix: vl_quickshift does not create results that were
 not requested

---
 toolbox/quickshift/vl_quickshift.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 1bbb76c..6fa4d21 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -135,11 +135,17 @@ mexFunction(int nout, mxArray *out[],
   out[OUT_PARENTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
   parents          = mxGetPr (out[OUT_PARENTS]) ;
 
-  out[OUT_DISTS]   = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  dists            = mxGetPr (out[OUT_DISTS]) ;
+  dists = NULL ;
+  if (nout > 1) {
+    out[OUT_DISTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+    dists          = mxGetPr (out[OUT_DISTS]) ;
+  }
 
-  out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  density          = mxGetPr (out[OUT_DENSITY]) ;
+  density = NULL ;
+  if (nout > 2) {
+    out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+    density          = mxGetPr (out[OUT_DENSITY]) ;
+  }
 
   if (verb) {
     mexPrintf("quickshift: [N1,N2,K]: [%d,%d,%d]\n", N1,N2,K) ;
@@ -160,8 +166,12 @@ mexFunction(int nout, mxArray *out[],
   parentsi = vl_quickshift_get_parents(q);
   /* Copy results */
   for(i = 0; i < N1*N2; i++) parents[i] = parentsi[i] + 1;
-  memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
-  memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  if (dists) {
+    memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
+  }
+  if (density) {
+    memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  }
 
   /* Delete quick shift object */
   vl_quickshift_delete(q);
-- 
2.43.0


From bc808054940970c57db3139844c17a20b7ab842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:16 +0000
Subject: [PATCH 171/207] fix: vl_rodr checks the class of its argument and
 does not write derivatives that were not requested

---
 toolbox/geometry/vl_rodr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toolbox/geometry/vl_rodr.c b/toolbox/geometry/vl_rodr.c
index 7f3357a..049dd82 100644
--- a/toolbox/geometry/vl_rodr.c
+++ b/toolbox/geometry/vl_rodr.c
@@ -42,7 +42,11 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_OM],-1,-1)) {
+  if(nout > 2) {
+    mexErrMsgTxt("At most two results are returned.") ;
+  }
+
+  if(!vlmxIsPlainMatrix(in[IN_OM],-1,-1)) {
     mexErrMsgTxt("OM must be a DOUBLE array") ;
   }
 
@@ -83,6 +87,6 @@ mexFunction(int nout, mxArray *out[],
     vl_rodrigues(R_pt, dR_pt, om_pt) ;
     om_pt += 3 ;
     R_pt  += 3*3 ;
-    dR_pt += 9*3 ;
+    if (dR_pt) dR_pt += 9*3 ;
   }
 }
-- 
2.43.0


From 5c5ebe9672ebaa185eb11fcbea3f5de6e74abb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:16 +0000
Subject: [PATCH 172/207] fix: vl_irodr allocates a rotation vector per matrix,
 checks its argument and does not write derivatives that were not requested

---
 toolbox/geometry/vl_irodr.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toolbox/geometry/vl_irodr.c b/toolbox/geometry/vl_irodr.c
index 11b6d91..6136b2e 100644
--- a/toolbox/geometry/vl_irodr.c
+++ b/toolbox/geometry/vl_irodr.c
@@ -44,7 +44,11 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_R],-1,-1)) {
+  if(nout > 2) {
+    mexErrMsgTxt("At most two results are returned.") ;
+  }
+
+  if(!vlmxIsReal(in[IN_R]) || mxGetClassID(in[IN_R]) != mxDOUBLE_CLASS) {
     mexErrMsgTxt("R must be a DOUBLE array") ;
   }
 
@@ -56,7 +60,7 @@ mexFunction(int nout, mxArray *out[],
   R_pt = mxGetPr(in[IN_R]) ;
 
   /* space for output (OM) */
-  out[OUT_OM] = mxCreateDoubleMatrix(3,1,mxREAL) ;
+  out[OUT_OM] = mxCreateDoubleMatrix(3,K,mxREAL) ;
   om_pt = mxGetPr(out[OUT_OM]) ;
 
   /* space for optional output (dR) */
@@ -78,7 +82,7 @@ mexFunction(int nout, mxArray *out[],
   for(k = 0 ; k < K ; ++k) {
     vl_irodrigues(om_pt, dom_pt, R_pt) ;
     om_pt  += 3 ;
-    dom_pt += 3*9 ;
+    if (dom_pt) dom_pt += 3*9 ;
     R_pt   += 3*3 ;
   }
 
-- 
2.43.0


From a4f9adb1d8238ec8284f1f1a6e9340fa24608be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:26 +0000
Subject: [PATCH 173/207] fix: vl_twister raises an error for a state that it
 cannot use

---
 toolbox/misc/vl_twister.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 265baab..4c467bd 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -40,7 +40,7 @@ mexFunction(int nout, mxArray *out[],
    ** -------------------------------------------------------------- */
 
   if (nout > 1) {
-    vlmxError(vlmxErrTooManyInputArguments, NULL) ;
+    vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
   if (nin > 0 && ! mxIsNumeric(in[0])) {
@@ -165,6 +165,9 @@ mexFunction(int nout, mxArray *out[],
             key [k] = x [k] ;
           }
           vl_rand_seed_by_array (rand, key, n) ;
+        } else {
+          vlmxError(vlmxErrInvalidArgument,
+                    "The state is neither a scalar, nor a vector of 625 UINT32, nor a key.") ;
         }
       }
     }
-- 
2.43.0


From 209fc21761f5637da394e5dedcde3a0abb38ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:43 +0000
Subject: [PATCH 174/207] fix: vl_twister rejects dimensions that are not
 numbers, too large, or empty

---
 toolbox/misc/vl_twister.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 4c467bd..8cf3682 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -52,7 +52,7 @@ mexFunction(int nout, mxArray *out[],
   switch (mode) {
   case RUN_GENERATOR:
     {
-      enum { maxNumDimensions = 30 } ;
+      enum { maxNumDimensions = 30, maxDimension = 0x7fffffff } ;
       vl_size numDimensions = 2, n ;
       vl_uindex k ;
       mwSize dimensions [maxNumDimensions] = {1, 1} ;
@@ -67,11 +67,11 @@ mexFunction(int nout, mxArray *out[],
         for (k = 0 ; k < (unsigned)nin ; ++k) {
           if (! vlmxIsPlainScalar(in[k])) {
             vlmxError(vlmxErrInvalidArgument,
-                     "The %d-th argument is not a plain scalar.", k + 1) ;
+                     "The %d-th argument is not a plain scalar.", (int)k + 1) ;
           }
-          if (mxGetScalar(in[k]) < 0) {
+          if (! (mxGetScalar(in[k]) >= 0 && mxGetScalar(in[k]) <= maxDimension)) {
             vlmxError(vlmxErrInvalidArgument,
-                      "The %d-th argument is negative.", k + 1) ;
+                      "The %d-th argument is negative, too large, or not a number.", (int)k + 1) ;
           }
           dimensions[k] = mxGetScalar(in[k]) ;
         }
@@ -79,7 +79,7 @@ mexFunction(int nout, mxArray *out[],
 
       } else if (nin == 1) {
         /* TWISTER([N1 N2 ...]) style */
-        if (! vlmxIsPlainVector(in[0], -1)) {
+        if (! vlmxIsPlainVector(in[0], -1) || mxIsEmpty(in[0])) {
           vlmxError(vlmxErrInvalidArgument,
                    "The argument is not a plain vector.") ;
         }
@@ -94,16 +94,16 @@ mexFunction(int nout, mxArray *out[],
         }
 
         if (n == 1) {
-          if (*x < 0) {
+          if (! (*x >= 0 && *x <= maxDimension)) {
             vlmxError(vlmxErrInvalidArgument,
-                      "The specified dimension is negative.") ;
+                      "The specified dimension is negative, too large, or not a number.") ;
           }
           dimensions[0] = dimensions[1] = *x ;
         } else {
           for (k = 0 ; k < n ; ++k) {
-            if (x[k] < 0) {
+            if (! (x[k] >= 0 && x[k] <= maxDimension)) {
               vlmxError(vlmxErrInvalidArgument,
-                        "One of the specified dimensions is negative.") ;
+                        "One of the specified dimensions is negative, too large, or not a number.") ;
             }
             dimensions[k] = x[k] ;
           }
-- 
2.43.0


From becf42c4ff49f5784873d7fb8acbc2d27ffb1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:43 +0000
Subject: [PATCH 175/207] fix: vl_twister rejects an empty or sparse key

---
 toolbox/misc/vl_twister.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 8cf3682..da18c08 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -153,8 +153,8 @@ mexFunction(int nout, mxArray *out[],
           vl_uint32 * data = mxGetData(in[1]) ;
           for (i = 0 ; i < 624 ; ++i) rand->mt[i] = data[i] ;
           rand->mti = data [624] ;
-        } else if (mxIsNumeric(in[1])                    &&
-                   mxGetClassID(in[1]) == mxDOUBLE_CLASS &&
+        } else if (vlmxIsPlain(in[1])   &&
+                   ! mxIsEmpty(in[1])   &&
                    mxGetNumberOfElements(in[1]) <= 624) {
           /* TWISTER('state', KEY) */
           vl_uint32 key [624] ;
-- 
2.43.0


From 1661b4ef3a51bed0e1abd1d8021e5022ace76a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:04 +0000
Subject: [PATCH 176/207] fix: vl_svmtrain rejects a null diagnostic frequency

---
 toolbox/misc/vl_svmtrain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index 7634b45..9bcceaa 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -488,7 +488,12 @@ variable = (vl_index) VL_MIN(*mxGetPr(optarg), 2147483647.0) ;
       case opt_epsilon: GET_NN_SCALAR(EPSLON, epsilon) ; break ;
       case opt_bias_multiplier: GET_NN_SCALAR(BIASMULTIPLIER, biasMultipler) ; break ;
       case opt_max_num_iterations: GET_NN_INTEGER(MAXNUMITERATIONS, maxNumIterations) ; break ;
-      case opt_diagnostic_frequency: GET_NN_INTEGER(DIAGNOSTICFREQUENCY, diagnosticFrequency) ; break ;
+      case opt_diagnostic_frequency:
+        GET_NN_INTEGER(DIAGNOSTICFREQUENCY, diagnosticFrequency) ;
+        if (diagnosticFrequency < 1) {
+          vlmxError(vlmxErrInvalidArgument, "DIAGNOSTICFREQUENCY is smaller than one.") ;
+        }
+        break ;
       case opt_diagnostic_function:
         if (!mxIsClass(optarg ,"function_handle")) {
           mexErrMsgTxt("DIAGNOSTICSFUNCTION is not a function handle.");
-- 
2.43.0


From 878325aecf4f96832b704bb340bc7c4cab94f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:42 +0000
Subject: [PATCH 177/207] fix: homogeneous kernel map of an infinite value does
 not loop forever

---
 vl/homkermap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 7ec85b7..6303e25 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -544,6 +544,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
   exponent -- ;
 
   if (mantissa == 0 ||
+      mantissa >= 2.0 || /* infinity */
       exponent < self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
-- 
2.43.0


From 6e1c5c98e1de3beaacf2387daccb112df86ea3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 178/207] fix: sift: do not process an image whose header could
 not be read

---
 src/sift.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 1de8f33..cccdbfd 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -473,15 +473,16 @@ main(int argc, char **argv)
       case  VL_ERR_PGM_IO :
         snprintf(err_msg, sizeof(err_msg),
                  "Cannot read from '%s'.", name) ;
-        err = VL_ERR_IO ;
         break ;
 
       case VL_ERR_PGM_INV_HEAD :
+      default :
         snprintf(err_msg, sizeof(err_msg),
                  "'%s' contains a malformed PGM header.", name) ;
-        err = VL_ERR_IO ;
-        goto done ;
+        break ;
       }
+      err = VL_ERR_IO ;
+      goto done ;
     }
 
     if (verbose)
-- 
2.43.0


From 8bf4096d9a31514d5e4e6e3782f85e5b1bab8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 179/207] fix: sift: saturate the descriptors of the aggregate
 output

---
 src/sift.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index cccdbfd..f3ab243 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -741,7 +741,9 @@ main(int argc, char **argv)
             vl_file_meta_put_double (&out, k -> sigma ) ;
             vl_file_meta_put_double (&out, angles [q] ) ;
             for (l = 0 ; l < 128 ; ++l) {
-              vl_file_meta_put_uint8 (&out, (vl_uint8) (512.0 * descr [l])) ;
+              double x = 512.0 * descr[l] ;
+              x = (x < 255.0) ? x : 255.0 ;
+              vl_file_meta_put_uint8 (&out, (vl_uint8) (x)) ;
             }
             if (out.protocol == VL_PROT_ASCII) fprintf(out.file, "\n") ;
           }
-- 
2.43.0


From d121457c51f5606bc4593d53797f1482d39f7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 180/207] fix: sift: recognise the end of a binary file of
 frames

---
 src/generic-driver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 2d74a44..6f06a8a 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -250,8 +250,9 @@ vl_file_meta_get_double (VlFileMeta *self, double *x)
     break ;
 
   case VL_PROT_BINARY :
-    n = fread (&y, sizeof(double), 1, self -> file) ;
-    if (n < 1) return VL_ERR_BAD_ARG ;
+    n = fread (&y, 1, sizeof(double), self -> file) ;
+    if (n == 0) return VL_ERR_EOF ;
+    if (n < sizeof(double)) return VL_ERR_BAD_ARG ;
     vl_swap_host_big_endianness_8 (x, &y) ;
     break ;
 
-- 
2.43.0


From 7756fe0339af0273741287c174c23183e0b34f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 181/207] fix: sift: an empty file of frames has no frames

---
 src/sift.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index f3ab243..c7bc45d 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -633,7 +633,7 @@ main(int argc, char **argv)
       printf ("sift:   magnif                = %g\n",
               vl_sift_get_magnif       (filt)) ;
       printf ("sift: will source frames? %s\n",
-              ikeys ? "yes" : "no") ;
+              ifr.active ? "yes" : "no") ;
       printf ("sift: will force orientations? %s\n",
               force_orientations ? "yes" : "no") ;
     }
@@ -676,7 +676,7 @@ main(int argc, char **argv)
       }
 
       /* run detector ............................................. */
-      if (ikeys == 0) {
+      if (! ifr.active) {
         vl_sift_detect (filt) ;
 
         keys  = vl_sift_get_keypoints     (filt) ;
@@ -698,7 +698,7 @@ main(int argc, char **argv)
         VlSiftKeypoint const *k ;
 
         /* obtain keypoint orientations ........................... */
-        if (ikeys) {
+        if (ifr.active) {
           vl_sift_keypoint_init (filt, &ik,
                                  ikeys [4 * i + 0],
                                  ikeys [4 * i + 1],
-- 
2.43.0


From c132963ece63c3538bd9f936043f7fe3d121840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 182/207] fix: sift: do not write uninitialised descriptors for
 frames outside the image

---
 src/sift.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sift.c b/src/sift.c
index c7bc45d..1c2591d 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -23,6 +23,7 @@ the terms of the BSD license (see the COPYING file).
 #include <vl/getopt_long.h>
 
 #include <stdlib.h>
+#include <string.h>
 #include <stdio.h>
 #include <assert.h>
 
@@ -730,6 +731,7 @@ main(int argc, char **argv)
 
           /* compute descriptor (if necessary) */
           if (out.active || dsc.active) {
+            memset (descr, 0, sizeof(descr)) ;
             vl_sift_calc_keypoint_descriptor
               (filt, descr, k, angles [q]) ;
           }
-- 
2.43.0


From 0f28c8e0bf01034ec282fcd2d577554bc0f89cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 183/207] fix: sift: read the pixels of 16 bit images

---
 src/sift.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 1c2591d..0e5d4a1 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -135,7 +135,8 @@ save_gss (VlSiftFilt * filt, VlFileMeta * fm, const char * basename,
 
     /* conversion */
     for (i = 0 ; i < w * h ; ++i) {
-      buffer [i] = (vl_uint8) pt [i] ;
+      vl_sift_pix x = VL_MAX(pt [i], 0.0F) ;
+      buffer [i] = (vl_uint8) VL_MIN(x, 255.0F) ;
     }
 
     /* save */
@@ -515,7 +516,11 @@ main(int argc, char **argv)
 
     /* convert data type */
     for (q = 0 ; q < (unsigned) (pim.width * pim.height) ; ++q) {
-      fdata [q] = data [q] ;
+      if (vl_pgm_get_bpp (&pim) == 2) {
+        fdata [q] = ((vl_uint16 const*) data) [q] ;
+      } else {
+        fdata [q] = data [q] ;
+      }
     }
 
     /* ...............................................................
-- 
2.43.0


From d49edafc490297764a225479907b43f20e74355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 184/207] fix: mser: refuse 16 bit images instead of reading
 half of their bytes

---
 src/mser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mser.c b/src/mser.c
index 61cf75f..4901420 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -359,6 +359,13 @@ main(int argc, char **argv)
              pim. height) ;
     }
 
+    if (vl_pgm_get_bpp (&pim) != 1) {
+      err = VL_ERR_IO ;
+      snprintf(err_msg, sizeof(err_msg),
+               "Only 8 bit images are supported.") ;
+      goto done ;
+    }
+
     /* allocate buffer */
     data = malloc(vl_pgm_get_npixels (&pim) *
                   vl_pgm_get_bpp       (&pim)) ;
-- 
2.43.0


From ac185e2b3068a7c3634dc08fcf2b967dc2ab3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:59 +0000
Subject: [PATCH 185/207] fix: drivers: %% stands for % in a file specifier

---
 src/generic-driver.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 6f06a8a..7dfdb4d 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -111,21 +111,33 @@ vl_file_meta_parse (VlFileMeta * self, char const * optarg)
 static int
 vl_file_meta_open (VlFileMeta * self, char const * basename, char const * mode)
 {
-  vl_size q ;
+  vl_size q = 0 ;
+  char const * p ;
+  char const * r ;
 
   if (! self->active) {
     return VL_ERR_OK ;
   }
 
-  q = vl_string_replace_wildcard (self->name,
-                                  sizeof(self->name),
-                                  self -> pattern,
-                                  '%', '\0',
-                                  basename) ;
-
-  if (q >= sizeof(self->name)) {
-    return vl_set_last_error (VL_ERR_OVERFLOW, NULL) ;
+  /* substitute `%' with the basename and `%%' with `%' */
+  for (p = self->pattern ; *p ; ++p) {
+    char const piece [2] = {*p, 0} ;
+    r = piece ;
+    if (p [0] == '%') {
+      if (p [1] == '%') {
+        ++ p ;
+      } else {
+        r = basename ;
+      }
+    }
+    while (*r) {
+      if (q + 1 >= sizeof(self->name)) {
+        return vl_set_last_error (VL_ERR_OVERFLOW, NULL) ;
+      }
+      self->name [q ++] = *r ++ ;
+    }
   }
+  self->name [q] = 0 ;
 
   if (self->active) {
     self->file = fopen (self->name, mode) ;
-- 
2.43.0


From 573440cc35d56fcedca5b309539d430e3987e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:14 +0000
Subject: [PATCH 186/207] fix: sift, mser: refuse empty numeric arguments

---
 src/mser.c | 14 +++++++-------
 src/sift.c | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index 4901420..5eb2559 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -164,7 +164,7 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n == 0 || delta < 0)
+      if (n < 1 || delta < 0)
         ERRF("The argument of '%s' must be a non-negative number.",
             argv [optind - 1]) ;
       break ;
@@ -172,25 +172,25 @@ main(int argc, char **argv)
       /* ........................................................... */
     case opt_max_area :
       n = sscanf (optarg, "%lf", &max_area) ;
-      if (n == 0 || max_area < 0 || max_area > 1)
+      if (n < 1 || max_area < 0 || max_area > 1)
         ERR("max-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_min_area :
       n = sscanf (optarg, "%lf", &min_area) ;
-      if (n == 0 || min_area < 0 || min_area > 1)
+      if (n < 1 || min_area < 0 || min_area > 1)
         ERR("min-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_max_variation :
       n = sscanf (optarg, "%lf", &max_variation) ;
-      if (n == 0 || max_variation < 0)
+      if (n < 1 || max_variation < 0)
         ERR("max-variation argument must be non-negative.") ;
       break ;
 
     case opt_min_diversity :
       n = sscanf (optarg, "%lf", &min_diversity) ;
-      if (n == 0 || min_diversity < 0 || min_diversity > 1)
+      if (n < 1 || min_diversity < 0 || min_diversity > 1)
         ERR("min-diversity argument must be in the [0,1] range.") ;
       break ;
 
@@ -218,13 +218,13 @@ main(int argc, char **argv)
 
     case opt_bright :
       n = sscanf (optarg, "%d", &bright_on_dark) ;
-      if (n == 0 || (bright_on_dark != 0 && bright_on_dark != 1))
+      if (n < 1 || (bright_on_dark != 0 && bright_on_dark != 1))
         ERR("bright_on_dark must be 0 or 1.") ;
       break ;
 
     case opt_dark :
       n = sscanf (optarg, "%d", &dark_on_bright) ;
-      if (n == 0 || (dark_on_bright != 0 && dark_on_bright != 1))
+      if (n < 1 || (dark_on_bright != 0 && dark_on_bright != 1))
         ERR("dark_on_bright must be 0 or 1.") ;
       break ;
 
diff --git a/src/sift.c b/src/sift.c
index 0e5d4a1..8cba131 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -310,7 +310,7 @@ main(int argc, char **argv)
     case 'O' :
       /* --octaves ............................................... */
       n = sscanf (optarg, "%d", &O) ;
-      if (n == 0 || O < 0)
+      if (n < 1 || O < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -318,7 +318,7 @@ main(int argc, char **argv)
     case 'S' :
       /* --levels ............................................... */
       n = sscanf (optarg, "%d", &S) ;
-      if (n == 0 || S < 0)
+      if (n < 1 || S < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -326,7 +326,7 @@ main(int argc, char **argv)
     case opt_first_octave :
       /* --first-octave ......................................... */
       n = sscanf (optarg, "%d", &omin) ;
-      if (n == 0)
+      if (n < 1)
         ERRF("The argument of '%s' must be an integer.",
             argv [optind - 1]) ;
       break ;
@@ -336,7 +336,7 @@ main(int argc, char **argv)
     case opt_edge_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &edge_thresh) ;
-      if (n == 0 || edge_thresh < 1)
+      if (n < 1 || edge_thresh < 1)
         ERRF("The argument of '%s' must be not smaller than 1.",
             argv [optind - 1]) ;
       break ;
@@ -344,7 +344,7 @@ main(int argc, char **argv)
     case opt_peak_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &peak_thresh) ;
-      if (n == 0 || peak_thresh < 0)
+      if (n < 1 || peak_thresh < 0)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
@@ -352,7 +352,7 @@ main(int argc, char **argv)
     case opt_magnif :
       /* --magnif  .............................................. */
       n = sscanf (optarg, "%lf", &magnif) ;
-      if (n == 0 || magnif < 1)
+      if (n < 1 || magnif < 1)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
-- 
2.43.0


From e69ed6489e629be568523a0df5f4f0ee4182d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:14 +0000
Subject: [PATCH 187/207] fix: sift: refuse zero levels per octave

---
 src/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 8cba131..05bd9ca 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -318,8 +318,8 @@ main(int argc, char **argv)
     case 'S' :
       /* --levels ............................................... */
       n = sscanf (optarg, "%d", &S) ;
-      if (n < 1 || S < 0)
-        ERRF("The argument of '%s' must be a non-negative integer.",
+      if (n < 1 || S < 1)
+        ERRF("The argument of '%s' must be a positive integer.",
             argv [optind - 1]) ;
       break ;
 
-- 
2.43.0


From 206fa31036818c8fbdac1be51dd0e0d5e112e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:14 +0000
Subject: [PATCH 188/207] fix: mser: refuse a delta that does not fit the type
 of the pixels

---
 src/mser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index 5eb2559..a82226c 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -164,8 +164,8 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n < 1 || delta < 0)
-        ERRF("The argument of '%s' must be a non-negative number.",
+      if (n < 1 || ! (delta >= 0 && delta <= 255))
+        ERRF("The argument of '%s' must be a number in the [0,255] range.",
             argv [optind - 1]) ;
       break ;
 
-- 
2.43.0


From 788330df5453b4d3cb7c2c3c83899271902f791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:14 +0000
Subject: [PATCH 189/207] fix: mser: check the allocation of the inverted image
 before using it

---
 src/mser.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index a82226c..6b41717 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -452,16 +452,15 @@ main(int argc, char **argv)
       /* allocate buffer */
       datainv = malloc(vl_pgm_get_npixels (&pim) *
                   vl_pgm_get_bpp       (&pim)) ;
-      for (i = 0; i < (signed)vl_pgm_get_npixels (&pim); i++) {
-        datainv[i] = ~data[i]; /* 255 - data[i] */
-      }
-
       if (!datainv) {
         err = VL_ERR_ALLOC ;
         snprintf(err_msg, sizeof(err_msg),
                  "Could not allocate enough memory.") ;
         goto done ;
       }
+      for (i = 0; i < (signed)vl_pgm_get_npixels (&pim); i++) {
+        datainv[i] = ~data[i]; /* 255 - data[i] */
+      }
 
       vl_mser_process (filtinv, (vl_mser_pix*) datainv) ;
 
-- 
2.43.0


From a53773b58190bdb8f8f590a5ba7dde4c6102db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:57 +0000
Subject: [PATCH 190/207] fix: sift, mser: refuse empty images

---
 src/mser.c | 7 +++++++
 src/sift.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mser.c b/src/mser.c
index 6b41717..2988f3d 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -359,6 +359,13 @@ main(int argc, char **argv)
              pim. height) ;
     }
 
+    if (vl_pgm_get_npixels (&pim) == 0) {
+      err = VL_ERR_IO ;
+      snprintf(err_msg, sizeof(err_msg),
+               "The image is empty.") ;
+      goto done ;
+    }
+
     if (vl_pgm_get_bpp (&pim) != 1) {
       err = VL_ERR_IO ;
       snprintf(err_msg, sizeof(err_msg),
diff --git a/src/sift.c b/src/sift.c
index 05bd9ca..5efba82 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -492,6 +492,13 @@ main(int argc, char **argv)
               pim. width,
               pim. height) ;
 
+    if (vl_pgm_get_npixels (&pim) == 0) {
+      err = VL_ERR_IO ;
+      snprintf(err_msg, sizeof(err_msg),
+               "The image is empty.") ;
+      goto done ;
+    }
+
     /* allocate buffer */
     data  = malloc(vl_pgm_get_npixels (&pim) *
                    vl_pgm_get_bpp       (&pim) * sizeof (vl_uint8)   ) ;
-- 
2.43.0


From 2a16479e3d4b3c48440bac54fa39f9a1604570aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:41 +0000
Subject: [PATCH 191/207] fix: vl_twister accepts back the state of a generator
 that was never used

---
 toolbox/misc/vl_twister.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index da18c08..9bc347f 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -147,7 +147,7 @@ mexFunction(int nout, mxArray *out[],
         } else if (mxIsNumeric(in[1])                                &&
                    mxGetClassID(in[1]) == mxUINT32_CLASS             &&
                    mxGetNumberOfElements(in[1]) == 624+1             &&
-                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 624  ) {
+                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 624 + 1) {
           /* TWISTER('state', STATE) */
           vl_uindex i ;
           vl_uint32 * data = mxGetData(in[1]) ;
-- 
2.43.0


From 44de265d32599cb85ad32280d536267c34e0cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:41 +0000
Subject: [PATCH 192/207] fix: vl_ubcread closes the file in case of error

---
 toolbox/sift/vl_ubcread.m | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_ubcread.m b/toolbox/sift/vl_ubcread.m
index 294d92d..1b1fee0 100644
--- a/toolbox/sift/vl_ubcread.m
+++ b/toolbox/sift/vl_ubcread.m
@@ -25,6 +25,7 @@ g = fopen(file, 'r');
 if g == -1
     error(['Could not open file ''', file, '''.']) ;
 end
+cleanup = onCleanup(@() fclose(g)) ; % also in case of error
 [header, count] = fscanf(g, '%d', [1 2]) ;
 if count ~= 2
     error('Invalid keypoint file header.');
@@ -90,7 +91,7 @@ for k = 1:numKeypoints
 	L(:,k) = record(:) ;
 
 end
-fclose(g) ;
+clear cleanup ;
 
 switch opts.format
   case 'ubc'
-- 
2.43.0


From 266731c5356d02db20c965bd6f88a91fd7033c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:41 +0000
Subject: [PATCH 193/207] fix: vl_imarraysc scales true colour images together
 if Uniform is set

---
 toolbox/imop/vl_imarraysc.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_imarraysc.m b/toolbox/imop/vl_imarraysc.m
index c06af1e..a2c83da 100644
--- a/toolbox/imop/vl_imarraysc.m
+++ b/toolbox/imop/vl_imarraysc.m
@@ -70,7 +70,7 @@ if isinteger(A)
   A = single(A) ;
 end
 
-if opts.uniform && numDimensions < 4
+if opts.uniform
   opts.clim = [min(A(:)) max(A(:))] ;
 end
 
-- 
2.43.0


From e77f1905675f2dbd620ae6f742501d710212aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:41 +0000
Subject: [PATCH 194/207] fix: the wedge pattern of vl_impattern is of class
 DOUBLE

---
 toolbox/imop/vl_impattern.m | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/imop/vl_impattern.m b/toolbox/imop/vl_impattern.m
index 829557b..642e7b4 100644
--- a/toolbox/imop/vl_impattern.m
+++ b/toolbox/imop/vl_impattern.m
@@ -114,6 +114,7 @@ function im = wedge(args)
 [u,v,opts,args] = commonOpts(args) ;
 im = abs(u) + abs(v) > (1/4) ;
 im(v < 0) = 0 ;
+im = double(im) ;
 
 function im = cone(args)
 [u,v,opts,args] = commonOpts(args) ;
-- 
2.43.0


From e2950bdeb75e5a7516f936e0a0a3808f90b5d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:41 +0000
Subject: [PATCH 195/207] fix: the size of the patterns of vl_impattern is
 [WIDTH,HEIGHT]

---
 toolbox/imop/vl_impattern.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_impattern.m b/toolbox/imop/vl_impattern.m
index 642e7b4..328c3f5 100644
--- a/toolbox/imop/vl_impattern.m
+++ b/toolbox/imop/vl_impattern.m
@@ -106,8 +106,8 @@ end
 function [u,v,opts,args] = commonOpts(args)
 opts.size = [128 128] ;
 [opts,args] = vl_argparse(opts, args) ;
-ur = linspace(-1,1,opts.size(2)) ;
-vr = linspace(-1,1,opts.size(1)) ;
+ur = linspace(-1,1,opts.size(1)) ;
+vr = linspace(-1,1,opts.size(2)) ;
 [u,v] = meshgrid(ur,vr);
 
 function im = wedge(args)
-- 
2.43.0


From 183d6c19e6a64d4cc170ea1640d06cc7ebe475ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:02 +0000
Subject: [PATCH 196/207] fix: vl_imwhiten aligns the filter with the
 frequencies of images of odd size

---
 toolbox/imop/vl_imwhiten.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_imwhiten.m b/toolbox/imop/vl_imwhiten.m
index 999ff92..069d886 100644
--- a/toolbox/imop/vl_imwhiten.m
+++ b/toolbox/imop/vl_imwhiten.m
@@ -41,4 +41,4 @@ if ~isempty(cutoff)
 end
 
 % Apply filter
-J = real(ifft2(fft2(I).*fftshift(filt))) ;
+J = real(ifft2(fft2(I).*ifftshift(filt))) ;
-- 
2.43.0


From 13066eff81a4b8888932f23447cb14cf18d0fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:04 +0000
Subject: [PATCH 197/207] fix: vl_plotsiftdescriptor draws descriptors of
 elliptical frames

---
 toolbox/sift/vl_plotsiftdescriptor.m | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/toolbox/sift/vl_plotsiftdescriptor.m b/toolbox/sift/vl_plotsiftdescriptor.m
index c1a2cc7..08b9381 100644
--- a/toolbox/sift/vl_plotsiftdescriptor.m
+++ b/toolbox/sift/vl_plotsiftdescriptor.m
@@ -78,10 +78,8 @@ if nargin > 1
   end
 
   if size(f,1) == 5
-    assert(false) ;
-    c = cos(f(4,:)) ;
-    s = sin(f(4,:)) ;
-    f(3:6,:) = bsxfun(@times, f(3,:), [c ; s ; -s ; c]) ;
+    % ellipse
+    f = vl_frame2oell(f) ;
   end
 
   if(~isempty(f) & size(f,2) ~= size(d,2))
-- 
2.43.0


From a0fd3fcea2eabbf949458a2f75caa7f6de93b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:43 +0000
Subject: [PATCH 198/207] fix: vl_plotsiftdescriptor accepts several frames of
 two rows

---
 toolbox/sift/vl_plotsiftdescriptor.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_plotsiftdescriptor.m b/toolbox/sift/vl_plotsiftdescriptor.m
index 08b9381..d8d68e3 100644
--- a/toolbox/sift/vl_plotsiftdescriptor.m
+++ b/toolbox/sift/vl_plotsiftdescriptor.m
@@ -61,7 +61,7 @@ if nargin > 1
 
   if size(f,1) == 2
     % translation only
-    f(3:6,:) = deal([10 0 0 10]') ;
+    f(3:6,:) = repmat([10 0 0 10]', 1, size(f,2)) ;
     %f = [f; 10 * ones(1, size(f,2)) ; 0 * zeros(1, size(f,2))] ;
   end
 
-- 
2.43.0


From ecb4307d37cc5d627b0ba177251f7a0924b0eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:08 +0000
Subject: [PATCH 199/207] fix: vl_clickpoint restores the figure when the
 selection is stopped

---
 toolbox/plotop/vl_clickpoint.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/plotop/vl_clickpoint.m b/toolbox/plotop/vl_clickpoint.m
index 2691c19..1a98e2d 100644
--- a/toolbox/plotop/vl_clickpoint.m
+++ b/toolbox/plotop/vl_clickpoint.m
@@ -65,7 +65,7 @@ for n=1:N
     end
     sel = [sel v] ;
   else
-    return ;
+    break ;
   end
 end
 
-- 
2.43.0


From e2d7c0c5854e451becd2688ca03154348bfde155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:08 +0000
Subject: [PATCH 200/207] fix: vl_imreadgray uses the file format

---
 toolbox/imop/vl_imreadgray.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_imreadgray.m b/toolbox/imop/vl_imreadgray.m
index a66480a..f79aeff 100644
--- a/toolbox/imop/vl_imreadgray.m
+++ b/toolbox/imop/vl_imreadgray.m
@@ -14,7 +14,7 @@ function I = vl_imreadgray(file,varargin)
 % This file is part of the VLFeat library and is made available under
 % the terms of the BSD license (see the COPYING file).
 
-I = imread(file) ;
+I = imread(file, varargin{:}) ;
 I = im2double(I) ;
 
 if(size(I,3) > 1)
-- 
2.43.0


From 22024b24f2e3b18562a1bf95b8b28c2610c2e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:08 +0000
Subject: [PATCH 201/207] fix: vl_imreadbw uses the file format

---
 toolbox/imop/vl_imreadbw.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_imreadbw.m b/toolbox/imop/vl_imreadbw.m
index a66480a..f79aeff 100644
--- a/toolbox/imop/vl_imreadbw.m
+++ b/toolbox/imop/vl_imreadbw.m
@@ -14,7 +14,7 @@ function I = vl_imreadgray(file,varargin)
 % This file is part of the VLFeat library and is made available under
 % the terms of the BSD license (see the COPYING file).
 
-I = imread(file) ;
+I = imread(file, varargin{:}) ;
 I = im2double(I) ;
 
 if(size(I,3) > 1)
-- 
2.43.0


From 6bf01a456b9519d62cfa4e3ce68f3e3bda029ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:08 +0000
Subject: [PATCH 202/207] fix: GAMMA in vl_harris is the ratio of the
 eigenvalues

---
 toolbox/vl_harris.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vl_harris.m b/toolbox/vl_harris.m
index 83b059c..439fe9b 100644
--- a/toolbox/vl_harris.m
+++ b/toolbox/vl_harris.m
@@ -97,7 +97,7 @@ if nargout > 1
   Lm = real(Lm) ;
   Lp = real(Lp) ;
 
-  gamma=sqrt(Lm./Lp) ;
+  gamma = Lm./Lp ;
 
   details.sigmap = Lp ;
   if nargin > 2
-- 
2.43.0


From fe8bef5cef2fb70902596ad39c7c9f307335459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:54 +0000
Subject: [PATCH 203/207] fix: encodeImage extends the descriptors with the
 frames of their cell

---
 apps/recognition/encodeImage.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/recognition/encodeImage.m b/apps/recognition/encodeImage.m
index b10abbb..a501183 100644
--- a/apps/recognition/encodeImage.m
+++ b/apps/recognition/encodeImage.m
@@ -97,7 +97,7 @@ for i = 1:size(encoder.subdivisions,2)
 
   w = size(im,2) ;
   h = size(im,1) ;
-  frames = features.frame(1:2,:) ;
+  frames = features.frame(1:2,ok) ;
   frames = bsxfun(@times, bsxfun(@minus, frames, [w;h]/2), 1./[w;h]) ;
 
   descrs = extendDescriptorsWithGeometry(encoder.geometricExtension, frames, descrs) ;
-- 
2.43.0


From 0f3e5ab884d2b503584ad44ba4a91ba6c0958df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:54 +0000
Subject: [PATCH 204/207] fix: encodeImage renormalises one-dimensional
 descriptors one by one

---
 apps/recognition/encodeImage.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/recognition/encodeImage.m b/apps/recognition/encodeImage.m
index a501183..3b45a80 100644
--- a/apps/recognition/encodeImage.m
+++ b/apps/recognition/encodeImage.m
@@ -92,7 +92,7 @@ for i = 1:size(encoder.subdivisions,2)
                                        features.descr(:,ok), ...
                                        encoder.projectionCenter) ;
   if encoder.renormalize
-    descrs = bsxfun(@times, descrs, 1./max(1e-12, sqrt(sum(descrs.^2)))) ;
+    descrs = bsxfun(@times, descrs, 1./max(1e-12, sqrt(sum(descrs.^2,1)))) ;
   end
 
   w = size(im,2) ;
-- 
2.43.0


From 1c6edd985ded6b05773751b6c405571a59f15e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:54 +0000
Subject: [PATCH 205/207] fix: trainEncoder renormalises one-dimensional
 descriptors one by one

---
 apps/recognition/trainEncoder.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/recognition/trainEncoder.m b/apps/recognition/trainEncoder.m
index c8dcbfa..4debdbb 100644
--- a/apps/recognition/trainEncoder.m
+++ b/apps/recognition/trainEncoder.m
@@ -171,7 +171,7 @@ else
 end
 descrs = encoder.projection * bsxfun(@minus, descrs, encoder.projectionCenter) ;
 if encoder.renormalize
-  descrs = bsxfun(@times, descrs, 1./max(1e-12, sqrt(sum(descrs.^2)))) ;
+  descrs = bsxfun(@times, descrs, 1./max(1e-12, sqrt(sum(descrs.^2,1)))) ;
 end
 
 
-- 
2.43.0


From ee7a3b01b7a6b2d9008bfc14db4defaf13bc675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:54 +0000
Subject: [PATCH 206/207] fix: trainEncoder regularises the whitening of VLAD
 by default

---
 apps/recognition/trainEncoder.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/recognition/trainEncoder.m b/apps/recognition/trainEncoder.m
index 4debdbb..82df95e 100644
--- a/apps/recognition/trainEncoder.m
+++ b/apps/recognition/trainEncoder.m
@@ -98,7 +98,7 @@ if isempty(opts.numWords)
         opts.numWords = 64 ;
         opts.numPcaDimensions = 100 ;
         opts.whitening = true ;
-        opts.whiteninRegul = 0.01 ;
+        opts.whiteningRegul = 0.01 ;
       otherwise
         assert(false) ;
     end
-- 
2.43.0


From 3573ee9803de8bd7b9cee68699329bb65b745f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:54 +0000
Subject: [PATCH 207/207] fix: setupGeneric in lite mode accepts less than
 three classes

---
 apps/recognition/setupGeneric.m | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/recognition/setupGeneric.m b/apps/recognition/setupGeneric.m
index 94525be..690d7de 100644
--- a/apps/recognition/setupGeneric.m
+++ b/apps/recognition/setupGeneric.m
@@ -121,13 +121,14 @@ imdb.imageDir = datasetDir ;
 
 if opts.lite
   ok = {} ;
-  for c = 1:3
+  numClasses = min(numClasses, 3) ;
+  for c = 1:numClasses
     ok{end+1} = vl_colsubset(find(imdb.images.class == c & imdb.images.set == 1), 5) ;
     ok{end+1} = vl_colsubset(find(imdb.images.class == c & imdb.images.set == 2), 5) ;
     ok{end+1} = vl_colsubset(find(imdb.images.class == c & imdb.images.set == 3), 5) ;
   end
   ok = cat(2, ok{:}) ;
-  imdb.meta.classes = imdb.meta.classes(1:3) ;
+  imdb.meta.classes = imdb.meta.classes(1:numClasses) ;
   imdb.images.id = imdb.images.id(ok) ;
   imdb.images.name = imdb.images.name(ok) ;
   imdb.images.set = imdb.images.set(ok) ;
-- 
2.43.0

