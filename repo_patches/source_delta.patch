From 5a103c3e58e86bf0e983a52475cc50c169d8310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 01/58] fix: nx_essential_from_fundamental transposed the
 calibration matrix of the second view

---
 src/nx_epipolar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index 1273bb1..f503621 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -316,12 +316,12 @@ void nx_essential_from_fundamental(double *E, const double *F,
         E[0] = Kp[0]*Fk[0];
         E[3] = Kp[0]*Fk[3];
         E[6] = Kp[0]*Fk[6];
-        E[1] = Kp[1]*Fk[0] + Kp[4]*Fk[1];
-        E[4] = Kp[1]*Fk[3] + Kp[4]*Fk[4];
-        E[7] = Kp[1]*Fk[6] + Kp[4]*Fk[7];
-        E[2] = Kp[2]*Fk[0] + Kp[5]*Fk[1] + Fk[2];
-        E[5] = Kp[2]*Fk[3] + Kp[5]*Fk[4] + Fk[5];
-        E[8] = Kp[2]*Fk[6] + Kp[5]*Fk[7] + Fk[8];
+        E[1] = Kp[3]*Fk[0] + Kp[4]*Fk[1];
+        E[4] = Kp[3]*Fk[3] + Kp[4]*Fk[4];
+        E[7] = Kp[3]*Fk[6] + Kp[4]*Fk[7];
+        E[2] = Kp[6]*Fk[0] + Kp[7]*Fk[1] + Fk[2];
+        E[5] = Kp[6]*Fk[3] + Kp[7]*Fk[4] + Fk[5];
+        E[8] = Kp[6]*Fk[6] + Kp[7]*Fk[7] + Fk[8];
 }
 
 
-- 
2.43.0


From 996118939fcb07b17bd5fcfaa103930c6757609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 02/58] fix: nx_pinhole_triangulate wrote past the caller's
 n_pt result slots

---
 src/nx_pinhole.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_pinhole.c b/src/nx_pinhole.c
index 138ff35..438b32b 100644
--- a/src/nx_pinhole.c
+++ b/src/nx_pinhole.c
@@ -144,7 +144,7 @@ int nx_pinhole_triangulate(int n_pt, float *X, int *corr_ids,
         double U[16];
         double S[4];
         int pt_i = 0;
-        for (int i = 0; i < n_corr; ++i) {
+        for (int i = 0; i < n_corr && pt_i < n; ++i) {
                 if (corr_list[i].is_inlier) {
                         nx_triangulation_constraints_from_corr(&A[0],
                                                                corr_list + i,
-- 
2.43.0


From bcc8eb68b01fec2cee9c047dfe89d83061081295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:51 +0000
Subject: [PATCH 03/58] fix: nx_image_convert_dtype turned every float pixel
 into zero (clamp bounds reversed)

---
 src/nx_image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index ba7cca4..6d1e470 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -410,7 +410,7 @@ static void nx_image_convert_f32_to_uc(struct NXImage* dest, const struct NXImag
                 uchar *rdest = dest->data.uc + y * dest->row_stride;
                 for (int x = 0; x < dest->width; ++x) {
                         int value = rsrc[x] * 255.0f;
-                        value = nx_min_i(0, nx_max_i(255, value));
+                        value = nx_max_i(0, nx_min_i(255, value));
                         rdest[x] = value;
                 }
         }
-- 
2.43.0


From cca981c35a4e21e06a624269ed37f1b45b7b475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:51 +0000
Subject: [PATCH 04/58] fix: nx_image_deriv_y used the result's row stride to
 read the last source rows

---
 src/nx_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 6d1e470..68d1ecc 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -1248,8 +1248,8 @@ void nx_image_deriv_x(struct NXImage *dest, const struct NXImage *src)
                         }                                               \
                 }                                                       \
                 for (int x = 0; x < dest->width; ++x) {                 \
-                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*dest->row_stride] \
-                                                                                       - src->data.F[x + (src->height-2)*dest->row_stride])/S; \
+                        dest->data.f32[x + (src->height-1)*dest->row_stride] = 2.0f * (src->data.F[x + (src->height-1)*src->row_stride] \
+                                                                                       - src->data.F[x + (src->height-2)*src->row_stride])/S; \
                 }                                                       \
         }
 
-- 
2.43.0


From 243372c12280772173ffb7c7424e6b4570b2fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:51 +0000
Subject: [PATCH 05/58] fix: nx_image_normalize_to_zero_one missed a maximum
 that is also a running minimum

---
 src/nx_image.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 68d1ecc..10b59ca 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -215,7 +215,8 @@ void nx_image_normalize_to_zero_one(struct NXImage *img, NXBool symmetric_around
                         for (int c = 0; c < nc; ++c)
                                 if (row[nc*x+c] < vmin)
                                         vmin = row[nc*x+c];
-                                else if (row[nc*x+c] > vmax)
+                        for (int c = 0; c < nc; ++c)
+                                if (row[nc*x+c] > vmax)
                                         vmax = row[nc*x+c];
                 }
         }
-- 
2.43.0


From 3cf811e4b34bdd85aa88a4c1cb7b17274f62bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:51 +0000
Subject: [PATCH 06/58] fix: nx_image_scale read past the last source row and
 column

---
 src/nx_image.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nx_image.c b/src/nx_image.c
index 10b59ca..da129c1 100644
--- a/src/nx_image.c
+++ b/src/nx_image.c
@@ -552,6 +552,7 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                 float yp = y * inv_scale;
                 int ypi = (int)yp;
                 float dy = yp - ypi;
+                int oy = (ypi + 1 < src->height) ? src->row_stride : 0;
 
                 const uchar *sample_row = src->data.uc + ypi * src->row_stride;
 
@@ -559,14 +560,15 @@ void nx_image_scale_uc(struct NXImage *dest, const struct NXImage *src, float sc
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
+                        int ox = (xpi + 1 < src->width) ? 1 : 0;
 
                         const uchar *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[ox];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[oy];
+                        float Iy1 = sample[oy + ox];
 
                         short interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
@@ -638,6 +640,7 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                 float yp = y * inv_scale;
                 int ypi = (int)yp;
                 float dy = yp - ypi;
+                int oy = (ypi + 1 < src->height) ? src->row_stride : 0;
 
                 const float *sample_row = src->data.f32 + ypi * src->row_stride;
 
@@ -645,14 +648,15 @@ void nx_image_scale_f32(struct NXImage *dest, const struct NXImage *src, float s
                         float xp = x * inv_scale;
                         int xpi = (int)xp;
                         float dx = xp - xpi;
+                        int ox = (xpi + 1 < src->width) ? 1 : 0;
 
                         const float *sample = sample_row + xpi;
 
                         float Ix0 = sample[0];
-                        float Ix1 = sample[1];
+                        float Ix1 = sample[ox];
 
-                        float Iy0 = sample[src->row_stride];
-                        float Iy1 = sample[src->row_stride + 1];
+                        float Iy0 = sample[oy];
+                        float Iy1 = sample[oy + ox];
 
                         float interp = (Ix0*(1.0f - dx) + Ix1*dx) * (1.0f - dy)
                                 + (Iy0*(1.0f - dx) + Iy1*dx) * dy;
-- 
2.43.0


From 5e8620c1210e1b884f388177e6a4926814b1aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:03 +0000
Subject: [PATCH 07/58] fix: nx_compare_int_incr overflowed for values of
 opposite sign far apart

---
 include/virg/nexus/nx_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/nx_math.h b/include/virg/nexus/nx_math.h
index 0ff585c..cb74556 100644
--- a/include/virg/nexus/nx_math.h
+++ b/include/virg/nexus/nx_math.h
@@ -102,7 +102,7 @@ int nx_compare_int_incr(const void *i0p, const void *i1p)
         int i0 = *(int *)i0p;
         int i1 = *(int *)i1p;
 
-        return i0 - i1;
+        return (i0 > i1) - (i0 < i1);
 }
 
 __NX_END_DECL
-- 
2.43.0


From c73aa86335503539931a4f0f80866cf45e602869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:03 +0000
Subject: [PATCH 08/58] fix: gaussian sampler produced NaN when both uniform
 draws are exactly one half

---
 src/nx_gaussian_sampler.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nx_gaussian_sampler.c b/src/nx_gaussian_sampler.c
index 0acab6b..24120e1 100644
--- a/src/nx_gaussian_sampler.c
+++ b/src/nx_gaussian_sampler.c
@@ -129,7 +129,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 common = sigma * sqrtf(-2.0f * logf(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -147,7 +147,7 @@ void nx_gaussian_sampler_sample_s(struct NXGaussianSampler *sampler,
                         v2 = 2.0f * u2 - 1.0f;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0f);
+                } while(s >= 1.0f || s == 0.0f);
 
                 *s_ptr = sigma * sqrtf(-2.0f * logf(s) / s) * v1 + mean;
         }
@@ -174,7 +174,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 common = sigma * sqrt(-2.0 * log(s) / s);
                 *s_ptr = common * v1 + mean;
@@ -192,7 +192,7 @@ void nx_gaussian_sampler_sample_d(struct NXGaussianSampler *sampler,
                         v2 = 2.0 * u2 - 1.0;
 
                         s = v1 * v1 + v2 * v2;
-                } while(s >= 1.0);
+                } while(s >= 1.0 || s == 0.0);
 
                 *s_ptr = sigma * sqrt(-2.0 * log(s) / s) * v1 + mean;
         }
-- 
2.43.0


From df88513e2a26aa5b27553bad8b86d620a09272f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 09/58] fix: four-point samples could repeat the third
 correspondence

---
 src/nx_homography.c      | 2 +-
 src/nx_usac_homography.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index eb8d915..46c6195 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -270,7 +270,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[4])
 
         do {
             corr_ids[3] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-        } while(corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
+        } while(corr_ids[3]==corr_ids[2] || corr_ids[3]==corr_ids[1] || corr_ids[3]==corr_ids[0]);
 }
 
 int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *corr_list, double inlier_tolerance, int max_n_iter)
diff --git a/src/nx_usac_homography.c b/src/nx_usac_homography.c
index 6f6f96c..b5b3f2f 100644
--- a/src/nx_usac_homography.c
+++ b/src/nx_usac_homography.c
@@ -61,7 +61,7 @@ void nx_usac_homography_sampling(int *sample_ids, void *data)
 
         do {
             sample_ids[3] = (int)(NX_UNIFORM_SAMPLE_S * hdata->n_top_hypo);
-        } while(sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
+        } while(sample_ids[3]==sample_ids[2] || sample_ids[3]==sample_ids[1] || sample_ids[3]==sample_ids[0]);
 }
 
 NXBool nx_usac_check_homography_sample(const int *sample_ids,
-- 
2.43.0


From adf3fb1b40b20b49f95baaaa2e82ea00906139ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:53 +0000
Subject: [PATCH 10/58] fix: eight-point samples could repeat the first
 correspondence

---
 src/nx_epipolar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index f503621..d4b7896 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -195,7 +195,7 @@ static inline void nx_select_prosac_candidates(int n_top, int corr_ids[8])
         corr_ids[0] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
         for (int i = 1; i < 8; ++i) {
                 corr_ids[i] = (int)(NX_UNIFORM_SAMPLE_S*n_top);
-                for (int j = i-1; j > 0; --j)
+                for (int j = i-1; j >= 0; --j)
                         if (corr_ids[i] == corr_ids[j]) {
                                 --i;
                                 break;
-- 
2.43.0


From 3b8afda9d2949536386a2510c208571254081c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:54 +0000
Subject: [PATCH 11/58] fix: RANSAC read an uninitialised model when no
 hypothesis had an inlier

---
 src/nx_epipolar.c   | 3 +++
 src/nx_homography.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nx_epipolar.c b/src/nx_epipolar.c
index d4b7896..e1cf946 100644
--- a/src/nx_epipolar.c
+++ b/src/nx_epipolar.c
@@ -257,6 +257,9 @@ int nx_fundamental_estimate_ransac(double *F, int n_corr,
                 }
         }
 
+        if (n_inliers_best == 0)
+                return 0;
+
         // reestimate with all inliers and relabel inlier until it does not
         // improve much (by 5)
         memcpy(F, F_best, 9*sizeof(F[0]));
diff --git a/src/nx_homography.c b/src/nx_homography.c
index 46c6195..2299526 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -325,6 +325,9 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             }
         }
 
+        if (n_inliers_best == 0)
+            return 0;
+
         // reestimate with all inliers and relabel inlier until it does not improve much (by 5)
         memcpy(h, h_best, 9*sizeof(h[0]));
         n_inliers_best = nx_homography_mark_inliers(h_best, n_corr, corr_list, inlier_tolerance);
-- 
2.43.0


From 50679077abc4576d94197affa1b5a3b5c9839227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:54 +0000
Subject: [PATCH 12/58] fix: single-precision uniform samples could round up to
 one

---
 src/nx_uniform_sampler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_uniform_sampler.c b/src/nx_uniform_sampler.c
index fa94b8f..e04bcb8 100644
--- a/src/nx_uniform_sampler.c
+++ b/src/nx_uniform_sampler.c
@@ -113,7 +113,8 @@ void nx_uniform_sampler_fill64(struct NXUniformSampler *sampler, int n, uint64_t
 
 float nx_uniform_sampler_sample_s(struct NXUniformSampler *sampler)
 {
-        return sfmt_genrand_real2(&sampler->state);
+        // 24 random bits, so that the result is exact and less than one
+        return (sfmt_genrand_uint32(&sampler->state) >> 8) * (1.0f / 16777216.0f);
 }
 
 double nx_uniform_sampler_sample_d(struct NXUniformSampler *sampler)
-- 
2.43.0


From 9ad2906d9447c99d0088f2086cb97348dce470f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 13/58] fix: BRIEF extractors read from a stream keep their
 octet count and radius (arguments were swapped)

---
 src/nx_brief_extractor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index ed3a74b..4386371 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,7 +373,7 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
-        nx_brief_extractor_resize(be, radius, n_octets);
+        nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
         if (fread(be->offsets, sizeof(*be->offsets), n_offsets, stream) != (size_t)n_offsets)
-- 
2.43.0


From 0919f7cd34d6ed6e9267efb5fa3eff219cd16c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 14/58] fix: mirrored background of affine warp reads inside
 the source image for every coordinate

---
 src/nx_image_warp.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index f33cfde..60f4908 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -27,11 +27,21 @@
 
 #include <float.h>
 #include <math.h>
+#include <stdlib.h>
 
 #include "virg/nexus/nx_assert.h"
 #include "virg/nexus/nx_log.h"
 #include "virg/nexus/nx_uniform_sampler.h"
 
+static inline int nx_image_warp_mirror(int i, int last)
+{
+        if (last < 1)
+                return 0;
+
+        i = abs(i) % (2 * last);
+        return i <= last ? i : 2 * last - i;
+}
+
 void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest_stride,
                                    int src_w, int src_h, const uchar *src, int src_stride,
                                    const float *t_dest2src, enum NXImageWarpBackgroundMode bg_mode)
@@ -42,8 +52,6 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
 
         const int LAST_X = src_w - 1;
         const int LAST_Y = src_h - 1;
-        const int W2 = src_w * 2 - 2;
-        const int H2 = src_h * 2 - 2;
 
         uchar bg_fixed = 0;
         if (bg_mode == NX_IMAGE_WARP_WHITE)
@@ -108,21 +116,10 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                 }
                                 break;
                         case NX_IMAGE_WARP_MIRROR:
-                                if (idx[0] < 0) {
-                                        if (idx[0] < 0) idx[0] =  -idx[0] - W2 * (-idx[0] / W2);
-                                        if (idx[1] < 0) idx[1] =  -idx[1] - W2 * (-idx[1] / W2);
-                                } else if (idx[0] >= LAST_X) {
-                                        if (idx[0] >= src_w) idx[0] = W2 - idx[0] - W2 * (idx[0] / W2);
-                                        if (idx[1] >= src_w) idx[1] = W2 - idx[1] - W2 * (idx[1] / W2);
-                                }
-
-                                if (idy[0] < 0) {
-                                        if (idy[0] < 0) idy[0] =  -idy[0] - H2 * (-idy[0] / H2);
-                                        if (idy[1] < 0) idy[1] =  -idy[1] - H2 * (-idy[1] / H2);
-                                } else if (idy[0] >= LAST_Y) {
-                                        if (idy[0] >= src_h) idy[0] = H2 - idy[0] - H2 * (idy[0] / H2);
-                                        if (idy[1] >= src_h) idy[1] = H2 - idy[1] - H2 * (idy[1] / H2);
-                                }
+                                idx[0] = nx_image_warp_mirror(idx[0], LAST_X);
+                                idx[1] = nx_image_warp_mirror(idx[1], LAST_X);
+                                idy[0] = nx_image_warp_mirror(idy[0], LAST_Y);
+                                idy[1] = nx_image_warp_mirror(idy[1], LAST_Y);
                                 break;
                         }
 
-- 
2.43.0


From 3355d38b2b1d39c859dd0b6b97116361e00a8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 15/58] fix: affine warp and 45 degree rotation round source
 positions down, so positions just outside are not extrapolated

---
 src/nx_image_warp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index 60f4908..eda4079 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -70,8 +70,8 @@ void nx_image_warp_affine_bilinear(int dest_w, int dest_h, uchar *dest, int dest
                                          /* x, y, xp, yp); */
                         /* } */
 
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -158,8 +158,8 @@ static void nx_image_rotate45_uc(struct NXImage *dest, struct NXImage *src, NXBo
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
@@ -209,8 +209,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                 float yp = y*SQRT2_INV + TY;
                 for (int x = 0; x < dest->width;
                      ++x, xp += SQRT2_INV, yp -= CW*SQRT2_INV) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         float u = xp-xpi;
                         float v = yp-ypi;
-- 
2.43.0


From 2657b6fac2dfe38215c856eddfe6c40036d86900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 16/58] fix: 45 degree rotation of float images keeps the
 fractional part

---
 src/nx_image_warp.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nx_image_warp.c b/src/nx_image_warp.c
index eda4079..7d1812e 100644
--- a/src/nx_image_warp.c
+++ b/src/nx_image_warp.c
@@ -227,10 +227,8 @@ static void nx_image_rotate45_f32(struct NXImage *dest, struct NXImage *src, NXB
                         }
                         const float *p0 = src->data.f32 + idy[0]*src->row_stride;
                         const float *p1 = src->data.f32 + idy[1]*src->row_stride;
-                        int I = vp*(up*p0[idx[0]] + u*p0[idx[1]])
+                        drow[x] = vp*(up*p0[idx[0]] + u*p0[idx[1]])
                                 + v*(up*p1[idx[0]] + u*p1[idx[1]]);
-
-                        drow[x] = I;
                 }
         }
 }
-- 
2.43.0


From de1f19d22fc79107632e49b5d8dba78060e1d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:58 +0000
Subject: [PATCH 17/58] fix: affine warp does not blur a direction whose sigma
 is zero (the image became black)

---
 src/nx_affine_warp_processor.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index a58eb29..ad0cf19 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -672,13 +672,18 @@ static void warp_processor_blur(struct NXImage *image,
         int nk_sym = nk_max / 2 + 1;
         float *kernel = NX_NEW_S(nk_sym);
 
+        // A zero sigma means no smoothing in that direction
+        const int n_rows = sigma_x > 0.0f ? image->height : 0;
+        const int n_cols = sigma_y > 0.0f ? image->width : 0;
+
         // Smooth in x-direction
         int nk = nkx / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_x);
+        if (n_rows > 0)
+                nx_kernel_sym_gaussian(nk, kernel, sigma_x);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int y = 0; y < image->height; ++y) {
+        for (int y = 0; y < n_rows; ++y) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_row = image->data.uc + y * image->row_stride;
                 nx_filter_copy_to_buffer1_uc(image->width, buffer, image_row, nkx / 2, NX_BORDER_MIRROR);
@@ -689,11 +694,12 @@ static void warp_processor_blur(struct NXImage *image,
 
         // Smooth in y-direction
         nk = nky / 2 + 1;
-        nx_kernel_sym_gaussian(nk, kernel, sigma_y);
+        if (n_cols > 0)
+                nx_kernel_sym_gaussian(nk, kernel, sigma_y);
 #ifdef _OPENMP
 #pragma omp parallel for schedule(dynamic, 4)
 #endif
-        for (int x = 0; x < image->width; ++x) {
+        for (int x = 0; x < n_cols; ++x) {
                 float *buffer = buffers[omp_get_thread_num()];
                 uchar *image_col = image->data.uc + x;
                 nx_filter_copy_to_buffer_uc(image->height, buffer, image_col, image->row_stride, nky / 2, NX_BORDER_MIRROR);
-- 
2.43.0


From 95eeb2dcaa49c3233f46a5c216ab69f4bc69bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 18/58] fix: affine warp buffers round source positions down
 like the SSE variant

---
 src/nx_affine_warp_processor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_affine_warp_processor.c b/src/nx_affine_warp_processor.c
index ad0cf19..ba49c87 100644
--- a/src/nx_affine_warp_processor.c
+++ b/src/nx_affine_warp_processor.c
@@ -540,8 +540,8 @@ static void warp_buffer_affine_bilinear(const struct NXImage* in_buffer,
                 float xp = y*t[3] + t[6];
                 float yp = y*t[4] + t[7];
                 for (int x = 0; x < out_buffer->width; ++x, xp += t[0], yp += t[1]) {
-                        int xpi = xp;
-                        int ypi = yp;
+                        int xpi = floorf(xp);
+                        int ypi = floorf(yp);
 
                         if (xpi < 0 || xpi >= LAST_X
                             || ypi < 0 || ypi >= LAST_Y) {
-- 
2.43.0


From ffbe1321bcf2829e1ee3cabee4ec6c61efab82da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 19/58] fix: SIFT extrema search stays inside the right image
 border

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index f6e186c..67043e6 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -527,7 +527,7 @@ void nx_sift_process_dog(struct NXSIFTDetector *det,
                 const float *dogp_rowm  = dogp->data.f32 + (y-1) * dogp->row_stride;
                 const float *dogp_row   = dogp_rowm + dogp->row_stride;
                 const float *dogp_rowp  = dogp_row  + dogp->row_stride;
-                for (int x = B; x < dog->width + B; ++x) {
+                for (int x = B; x < dog->width - B; ++x) {
                         float dval = dog_row[x];
                         if (fabs(dval) > 0.8 * peak_thr
                             && ((dval > 0 && dval > dog_row[x-1]   && dval > dog_row[x+1]
-- 
2.43.0


From 2072a15af54a548e907b28720a52d2e0d958edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 20/58] fix: SIFT orientation histogram wraps around with the
 smoothed last bin

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 67043e6..789bd53 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -347,7 +347,7 @@ float nx_sift_compute_ori_hist(float *hist, const struct NXImage *gx,
                 memcpy(&hist[1], &hist_buffer[0], NX_SIFT_N_ORI_BINS*sizeof(*hist));
         }
         // create cyclic border of length one
-        hist[0] = hist_buffer[NX_SIFT_N_ORI_BINS];
+        hist[0] = hist[NX_SIFT_N_ORI_BINS];
         hist[NX_SIFT_N_ORI_BINS+1] = hist[1];
 
         // Compute and return histogram peak
-- 
2.43.0


From 13658169bd4d4ad18c5989c64e85dcf974af88b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 21/58] fix: SIFT descriptor does not touch the element before
 the histogram for angle zero

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 789bd53..1c6bbff 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -228,7 +228,7 @@ void nx_sift_compute_fdescriptor(struct NXSIFTDetector *det,
                                 float h  = N_ORI_BINS * (sample_ori / (2.0 * NX_PI));
                                 int pxi = px > 0.0f ? (int)px : (int)(px - 1.0f); // floor
                                 int pyi = py > 0.0f ? (int)py : (int)(py - 1.0f); // floor
-                                int hi  = h  > 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
+                                int hi  = h  >= 0.0f ? (int)h  : (int)(h  - 1.0f); // floor
                                 int hi0 = (hi >= N_ORI_BINS) ? 0 : hi;
                                 int hi1 = ((hi0 + 1) >= N_ORI_BINS) ? 0 : hi0 + 1;
                                 float xeps = px - pxi;
-- 
2.43.0


From b706e41e9e9438cb2ac1a009ffdf54e11add42c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 22/58] fix: SIFT key store grows from capacities below two

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 1c6bbff..7314583 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -151,7 +151,7 @@ struct NXSIFTKeyStore {
 int nx_sift_key_store_append(struct NXSIFTKeyStore *store)
 {
         if (store->n >= store->cap) {
-                int new_cap = (int)(store->cap * 1.6f);
+                int new_cap = (int)(store->cap * 1.6f) + 1;
                 store->keys = (struct NXKeypoint *)nx_xrealloc(store->keys,
                                                                new_cap*sizeof(struct NXKeypoint));
                 store->desc = (uchar *)nx_xrealloc(store->desc,
-- 
2.43.0


From 28e00e521b289354c7eed17bdd4d0e881b28d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 23/58] fix: SIFT cache key covers float pixels and the image
 size

---
 src/nx_sift_detector.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 7314583..af67933 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -673,18 +673,21 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                 cache_dir = NX_DEFAULT_CACHE_DIRECTORY;
 
         int n_rows = image->height;
-        int n_msgs = n_rows + 1;
+        int n_msgs = n_rows + 2;
         uint8_t **msgs = NX_NEW(n_msgs, uint8_t *);
         size_t *lmsg = NX_NEW_Z(n_msgs);
         for (int i = 0; i < n_rows; ++i) {
                 if (image->dtype == NX_IMAGE_UCHAR) {
                         msgs[i] = (uint8_t *)(image->data.uc + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(uchar);
-                } else if (image->dtype == NX_IMAGE_UCHAR) {
+                } else if (image->dtype == NX_IMAGE_FLOAT32) {
                         msgs[i] = (uint8_t *)(image->data.f32 + i * image->row_stride);
                         lmsg[i] = image->width * image->n_channels * sizeof(float);
                 }
         }
+        int dims[4] = { image->width, image->height, image->n_channels, image->dtype };
+        msgs[n_msgs - 2] = (uint8_t *)(&dims[0]);
+        lmsg[n_msgs - 2] = sizeof(dims);
         msgs[n_msgs - 1] = (uint8_t *)(&detector->param);
         lmsg[n_msgs - 1] = sizeof(detector->param);
         uint8_t hash[32];
-- 
2.43.0


From 69814b8549cc5ceb2981893a44f3405d28b9a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 24/58] fix: SIFT cache functions release their hash message
 arrays

---
 src/nx_sift_detector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index af67933..61e4017 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -726,6 +726,8 @@ int nx_sift_detector_compute_with_cache(struct NXSIFTDetector *detector,
                        n_keys, cachefilepath);
         }
 
+        nx_free(msgs);
+        nx_free(lmsg);
         nx_free(hash_str);
         nx_free(cachefilepath);
 
@@ -883,6 +885,8 @@ int nx_sift_match_brute_force_with_cache(int n,  const struct NXKeypoint *keys,
                        n_corr, cachefilepath);
         }
 
+        nx_free(msgs);
+        nx_free(lmsg);
         nx_free(hash_str);
         nx_free(cachefilepath);
 
-- 
2.43.0


From b8e2eac2142b2ef6d1720ee571b8c2acfabee4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 25/58] fix: SIFT matching against no keypoints gives no
 matches

---
 src/nx_sift_detector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 61e4017..9552ad0 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -751,6 +751,9 @@ int nx_sift_match_brute_force(int n,  const struct NXKeypoint *keys,
 
         const float SIFT_LOCALIZATION_STD_DEV = 0.3f;
 
+        if (np == 0)
+                return 0;
+
         NXBool check_dist_ratio = dist_ratio_thr > 0.0f && dist_ratio_thr < 1.0f;
 
         if (check_dist_ratio) {
-- 
2.43.0


From 675b9ae92d72709468f04c2db8e92dedc83d79ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:48 +0000
Subject: [PATCH 26/58] fix: SIFT peak refinement does not step without
 re-solving

---
 src/nx_sift_detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_sift_detector.c b/src/nx_sift_detector.c
index 9552ad0..db1f7c9 100644
--- a/src/nx_sift_detector.c
+++ b/src/nx_sift_detector.c
@@ -473,7 +473,7 @@ void nx_sift_interp_peak_location(struct NXSIFTDetector *det,
                         ++dy;
                 else if (b[1] < -0.6 && y > 3)
                         --dy;
-                if (dx == 0 && dy == 0)
+                if ((dx == 0 && dy == 0) || n_tries == 0)
                         break;
                 x += dx;
                 y += dy;
-- 
2.43.0


From 0cf8e83178a65ff9d3cf551ee1e683aaee6973d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:45 +0000
Subject: [PATCH 27/58] fix: homography check normalises the diagonals to unit
 length so max_abs_cos bounds a cosine

---
 src/nx_homography.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 2299526..684e20a 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -74,7 +74,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double l_AC[3];
         line_eqn_2d(&A[0], &C[0], &l_AC[0]);
 
-        double n_inv = 1.0 / (l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
+        double n_inv = 1.0 / sqrt(l_AC[0]*l_AC[0] + l_AC[1]*l_AC[1]);
         l_AC[0] *= n_inv;
         l_AC[1] *= n_inv;
         l_AC[2] *= n_inv;
@@ -87,7 +87,7 @@ NXBool nx_homography_check(const double *h, double max_abs_cos)
         double AC[2] = { -l_AC[1], l_AC[0] };
         double BD[2] = { B[0] - D[0], B[1] - D[1] };
 
-        n_inv = 1.0 / (BD[0]*BD[0] + BD[1]*BD[1]);
+        n_inv = 1.0 / sqrt(BD[0]*BD[0] + BD[1]*BD[1]);
         BD[0] *= n_inv;
         BD[1] *= n_inv;
 
-- 
2.43.0


From a8fbafafd938570675a4146a435c95a9735719e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:15 +0000
Subject: [PATCH 28/58] fix: RANSAC retries degenerate or skewed homography
 samples and never scores an unset model

---
 src/nx_homography.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nx_homography.c b/src/nx_homography.c
index 684e20a..e3b36a6 100644
--- a/src/nx_homography.c
+++ b/src/nx_homography.c
@@ -307,9 +307,10 @@ int nx_homography_estimate_ransac(double *h, int n_corr, struct NXPointMatch2D *
             do {
                 nx_select_prosac_candidates(n_top_hypo, corr_ids);
                 det = nx_homography_estimate_4pt(h, corr_ids, corr_list);
-            } while ((det == 0.0) && --tries && !nx_homography_check(h, max_abs_cos));
+            } while ((det == 0.0 || !nx_homography_check(h, max_abs_cos)) && --tries);
 
-            n_inliers = nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
+            n_inliers = (det == 0.0) ? 0
+                    : nx_homography_mark_inliers(h, n_corr, corr_list, inlier_tolerance);
 
             // update if we got sth. better than current best
             if (n_inliers > n_inliers_best) {
-- 
2.43.0


From 129a3b4a38eb3a175eb8b4ecd4602f29ddc57aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 29/58] fix: nx_strredup duplicates the source before freeing
 the destination

---
 src/nx_string.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index a3acffc..5796924 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -49,12 +49,10 @@ char *nx_strdup(const char *s)
 
 void nx_strredup(char **dest, const char *src)
 {
+        // duplicate first, src may point into *dest
+        char *s = (src == NULL) ? NULL : nx_strdup(src);
         nx_free(*dest);
-
-        if (src == NULL)
-                *dest = NULL;
-        else
-                *dest = nx_strdup(src);
+        *dest = s;
 }
 
 char *nx_fstr(const char* format, ...)
-- 
2.43.0


From c1f19ebd796fe6fbf99681ca416733270db9ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 30/58] fix: count edges inserted into adjacency list graphs

---
 src/nx_graph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_graph.c b/src/nx_graph.c
index 777811d..a5bb994 100644
--- a/src/nx_graph.c
+++ b/src/nx_graph.c
@@ -150,10 +150,12 @@ void nx_graph_insert_adj_lst(struct NXGraphAdjLst *g,
         }
 
         struct NXGraphEdge *e = nx_graph_edge_list_seach(g->edges[v], w);
-        if (e)
+        if (e) {
                 e->weight = weight;
-        else
+        } else {
                 g->edges[v] = nx_graph_edge_new(w, weight, g->edges[v]);
+                g->n_e++;
+        }
 
         e = nx_graph_edge_list_seach(g->edges[w], v);
         if (e)
-- 
2.43.0


From d8b6f0151d9e7bceaaf2afa10c83ce260f52425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 31/58] fix: nx_string_array_find skips unset elements

---
 src/nx_string_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 68fff42..f847d96 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -179,7 +179,7 @@ int nx_string_array_find(const struct NXStringArray *sa, const char *s)
         NX_ASSERT_PTR(s);
 
         for (int i = 0; i < sa->size; ++i)
-                if (strcmp(s, sa->elems[i]) == 0)
+                if (sa->elems[i] != NULL && strcmp(s, sa->elems[i]) == 0)
                         return i;
 
         return -1;
-- 
2.43.0


From 36ce9b5f2ad8ecae296b40f7fb47fd7f2824abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 32/58] fix: nx_memncpy_multi does not read past the lengths
 when the sources are exhausted

---
 src/nx_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_string.c b/src/nx_string.c
index 5796924..4f99275 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -216,7 +216,7 @@ size_t nx_memncpy_multi(void *dest, int n_src, const void * const *src,
         NX_ASSERT_PTR(src_offset);
         NX_ASSERT_PTR(offset);
 
-        if (*offset > l_src[*src_offset]) {
+        if (*src_offset < n_src && *offset > l_src[*src_offset]) {
                 *offset = 0;
                 *src_offset += 1;
         }
-- 
2.43.0


From 2b5d4b3e59dc82cdd16726dc96fbecdd4bf94a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 33/58] fix: nx_string_array_read rejects negative lengths

---
 src/nx_string_array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index f847d96..4694c7c 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -222,6 +222,11 @@ int nx_string_array_read(struct NXStringArray *sa, FILE *stream)
                 return -1;
         }
 
+        if (size < 0) {
+                NX_ERROR(NX_LOG_TAG, "Invalid string array length %d in stream", size);
+                return -1;
+        }
+
         nx_string_array_resize(sa, size);
         for (int i = 0; i < sa->size; ++i)
                 if (nx_strread(&sa->elems[i], 0, stream) != 0) {
-- 
2.43.0


From be7c8783f2b05dec08924e20b5001a91323490c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 34/58] fix: nx_brief_extractor_read rejects non-positive sizes

---
 src/nx_brief_extractor.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nx_brief_extractor.c b/src/nx_brief_extractor.c
index 4386371..38bd998 100644
--- a/src/nx_brief_extractor.c
+++ b/src/nx_brief_extractor.c
@@ -373,6 +373,9 @@ NXResult nx_brief_extractor_read(struct NXBriefExtractor *be, FILE *stream)
         if (fread(&n_octets, sizeof(n_octets), 1, stream) != 1)
                 return NX_FAIL;
 
+        if (n_octets <= 0 || radius <= 0)
+                return NX_FAIL;
+
         nx_brief_extractor_resize(be, n_octets, radius);
 
         int n_offsets = be->n_octets*4*8;
-- 
2.43.0


From ef7f631990743cf88da1f18b130d61cef77e1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 35/58] fix: nx_getline returns -1 at the end of the stream

---
 src/nx_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index 45c6161..feb73e5 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -199,7 +199,7 @@ ssize_t nx_getline(char **line, size_t *n, FILE *stream)
 
         NX_EXPAND_IF_NECESSARY_AND_APPEND_CHAR(line,n,idx,0);
 
-        if (idx == 0) {
+        if (c == EOF && idx == 1) {
                 return -1;
         } else {
                 return idx - 1;
-- 
2.43.0


From d72a5b6a11a2fade630bb18fb215eceade34d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 36/58] fix: accept escaped slash in readable strings

---
 src/nx_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_string.c b/src/nx_string.c
index 4f99275..f8fb03d 100644
--- a/src/nx_string.c
+++ b/src/nx_string.c
@@ -166,6 +166,7 @@ char *nx_xstr_from_readable(size_t size, const char *readable)
                         case 'f': *(p++) = '\f'; break;
                         case 'b': *(p++) = '\b'; break;
                         case '"': *(p++) = '"'; break;
+                        case '/': *(p++) = '/'; break;
                         default:
                                 NX_FATAL(NX_LOG_TAG, "Unexpected control character '%c' in readable string!", *readable);
                         }
-- 
2.43.0


From b9a0ee47a8a2021c86ca77f75acabcfa159a4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 37/58] fix: JSON false and null constants have their own node
 types

---
 src/nx_json_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_tree.c b/src/nx_json_tree.c
index 669c302..5003dd6 100644
--- a/src/nx_json_tree.c
+++ b/src/nx_json_tree.c
@@ -186,12 +186,12 @@ struct NXJSONNode *nx_json_node_new_true()
 
 struct NXJSONNode *nx_json_node_new_false()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_FALSE);
 }
 
 struct NXJSONNode *nx_json_node_new_null()
 {
-        return nx_json_node_new_constant(NX_JNT_TRUE);
+        return nx_json_node_new_constant(NX_JNT_NULL);
 }
 
 void nx_json_tree_free(struct NXJSONNode *root)
-- 
2.43.0


From ec374ac8df91431a3b66bdd76986e147b928a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 38/58] fix: bundle floating point numbers with enough digits
 to read them back

---
 src/nx_json_bundle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index bcf151d..281646d 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -71,7 +71,7 @@ struct NXJSONNode *nx_json_bundle_float(float f)
 
 struct NXJSONNode *nx_json_bundle_double(double d)
 {
-        char *s = nx_fstr("%e", d);
+        char *s = nx_fstr("%.16e", d);
         struct NXJSONNode *n = nx_json_node_new_fpnumber(s);
         nx_free(s);
         return n;
-- 
2.43.0


From 2f963187789106ad7bcb91f57c71ec4fc3c1d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 39/58] fix: bundle keypoint ids as 64-bit numbers

---
 src/nx_json_bundle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_json_bundle.c b/src/nx_json_bundle.c
index 281646d..9a78c2f 100644
--- a/src/nx_json_bundle.c
+++ b/src/nx_json_bundle.c
@@ -126,7 +126,7 @@ struct NXJSONNode *nx_json_bundle_keypoint(const struct NXKeypoint* key)
         nx_json_object_add(jkey, "sigma", nx_json_bundle_double(key->sigma));
         nx_json_object_add(jkey, "score", nx_json_bundle_double(key->score));
         nx_json_object_add(jkey, "ori", nx_json_bundle_double(key->ori));
-        nx_json_object_add(jkey, "id", nx_json_bundle_int(key->id));
+        nx_json_object_add(jkey, "id", nx_json_bundle_size_t(key->id));
 
         return jkey;
 }
@@ -282,7 +282,7 @@ struct NXKeypoint nx_json_unbundle_keypoint(struct NXJSONNode* node)
         key.sigma = nx_json_unbundle_double(nx_json_object_fget(node, "sigma",  NX_JNT_FPNUMBER));
         key.score = nx_json_unbundle_double(nx_json_object_fget(node, "score",  NX_JNT_FPNUMBER));
         key.ori = nx_json_unbundle_double(nx_json_object_fget(node, "ori",  NX_JNT_FPNUMBER));
-        key.id = nx_json_unbundle_int(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
+        key.id = nx_json_unbundle_size_t(nx_json_object_fget(node, "id",  NX_JNT_INTEGER));
 
         return key;
 }
-- 
2.43.0


From 813dffbb6086a48e614dcac3c67a2098f1ddea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 40/58] fix: setting a data frame string to its own value does
 not read it after it is freed

---
 src/nx_data_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index 7238772..f38f7fb 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -445,8 +445,9 @@ void nx_data_frame_set_string(struct NXDataFrame *df, int row_id, int col_id,
 
         struct NXDataColumn *dc = df->columns->elems[col_id];
         CHECK_DATA_COLUMN_TYPE(dc,NX_DCT_STRING);
+        char *copy = nx_strdup(value);
         NA_DATA_FRAME_ELEMENT(dc,row_id);
-        dc->elems[row_id] = nx_strdup(value);
+        dc->elems[row_id] = copy;
 }
 
 void nx_data_frame_set_int(struct NXDataFrame *df, int row_id, int col_id,
-- 
2.43.0


From abf2ac0ac1d55f03e87249acdd027994d272d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 41/58] fix: loading CSV with strings as factors visits every
 column

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index f38f7fb..f011f11 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -637,7 +637,7 @@ struct NXDataFrame *nx_data_frame_load_csv_stream(FILE *stream,
         struct NXDataFrame *df = nx_csv_parser_parse(cp);
 
         if (strings_as_factors) {
-                for (int col_id = 0; col_id < df->columns->size; ++i) {
+                for (int col_id = 0; col_id < df->columns->size; ++col_id) {
                         if (nx_data_frame_column(df, col_id)->type == NX_DCT_STRING)
                                 nx_data_frame_make_factor(df, col_id);
                 }
-- 
2.43.0


From f296bb0802ff677571cac2c473360dd242fe3511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 42/58] fix: save data frame labels in the quoting the CSV
 reader expects

---
 src/nx_data_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_data_frame.c b/src/nx_data_frame.c
index f011f11..0f97bdd 100644
--- a/src/nx_data_frame.c
+++ b/src/nx_data_frame.c
@@ -523,7 +523,7 @@ NXBool nx_data_frame_fprintf(const struct NXDataFrame *df, FILE *stream,
         int nc = nx_data_frame_n_columns(df);
         for (int i = 0; i < nc; ++i) {
                 const struct NXDataColumn *dc = nx_data_frame_column(df, i);
-                if (EOF == nx_fputs_readable(nx_data_column_label(dc), stream)) {
+                if (EOF == nx_fputs_double_quoted(nx_data_column_label(dc), stream)) {
                         NX_ERROR(NX_LOG_TAG, "Error printing label of data frame for column %d", i);
                         return NX_FALSE;
                 }
-- 
2.43.0


From ab5803668e4e92a3f40581dd1d6c6f6ac2ed4595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 43/58] fix: CSV integer fields are decimal numbers

---
 src/nx_csv_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_csv_parser.c b/src/nx_csv_parser.c
index 0631856..ec88df9 100644
--- a/src/nx_csv_parser.c
+++ b/src/nx_csv_parser.c
@@ -41,7 +41,7 @@ static inline enum NXDataColumnType nx_csv_field_type_from_token_text(const char
                 return NX_DCT_BOOL;
 
         char *endptr;
-        long lv = strtol(text, &endptr, 0);
+        long lv = strtol(text, &endptr, 10);
         if (*endptr == '\0' && lv <= INT_MAX && lv >= INT_MIN)
                 return NX_DCT_INT;
 
-- 
2.43.0


From 6fac835782b435772e673c7fae4380730a09b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 44/58] fix: lexer does not take the byte 255 for the end of
 the text

---
 src/nx_lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_lexer.c b/src/nx_lexer.c
index 6df82be..4661758 100644
--- a/src/nx_lexer.c
+++ b/src/nx_lexer.c
@@ -143,7 +143,7 @@ int nx_lexer_consume(struct NXLexer *lex)
         if (lex->c == EOF)
                 return lex->c;
 
-        lex->c = lex->text[++lex->pos];
+        lex->c = (unsigned char)lex->text[++lex->pos];
         if (lex->c == '\0')
                 lex->c = EOF;
 
@@ -171,7 +171,7 @@ NXBool nx_lexer_match(struct NXLexer *lex, const char *s)
 
         int n = strlen(s);
         while (n--) {
-                if (lex->c == *s) {
+                if (lex->c == (unsigned char)*s) {
                         nx_lexer_consume(lex);
                 } else {
                         load_lexer_state(lex, &start_state);
-- 
2.43.0


From f8de75aba8103af158f1267d36b1eeeede65d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 45/58] fix: closing a file stream reports data that could not
 be written

---
 src/nx_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nx_io.c b/src/nx_io.c
index feb73e5..1ba1868 100644
--- a/src/nx_io.c
+++ b/src/nx_io.c
@@ -50,7 +50,8 @@ void nx_xfclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                  NX_IO_FATAL(NX_LOG_TAG, "Error detected before closing stream %s",
@@ -78,7 +79,8 @@ NXResult nx_fclose(FILE *stream, const char *stream_label)
 
         int e = ferror(stream);
 
-        fclose(stream);
+        if (fclose(stream) != 0)
+                e = 1;
 
         if (e) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error detected before closing stream %s",
-- 
2.43.0


From e327b7fd26e7a0a913f9d5e90e9ba215aaedd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 46/58] fix: skip exactly one character between the PNM header
 and the pixels

---
 src/nx_image_io_pnm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index b2b66ad..7bc6b50 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -268,9 +268,8 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 return NX_FAIL;
         }
 
-        // Skip a new line
-        char buffer[256];
-        if (fgets(buffer, sizeof(buffer), pnm) == NULL) {
+        // Skip a single white space character, pixel data starts right after it
+        if (fgetc(pnm) == EOF) {
                 NX_IO_ERROR(NX_LOG_TAG, "Error reading from %s", filename);
                 fclose(pnm);
                 return NX_FAIL;
-- 
2.43.0


From 14b5bf75695614d14fe1ba26decc0a91da9aef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 47/58] fix: skip comments in the PNM header in
 nx_image_load_pnm too

---
 src/nx_image_io_pnm.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nx_image_io_pnm.c b/src/nx_image_io_pnm.c
index 7bc6b50..5717c7d 100644
--- a/src/nx_image_io_pnm.c
+++ b/src/nx_image_io_pnm.c
@@ -258,6 +258,24 @@ NXResult nx_image_load_pnm(struct NXImage *img, const char *filename,
                 pnm_type = NX_IMAGE_RGBA;
         }
 
+        int c = fgetc(pnm);
+        while (c == ' ' || c == '\n' || c == '\t') {
+                c = fgetc(pnm);
+        }
+
+        while (c == '#') {
+                while (c != '\n') {
+                        c = fgetc(pnm);
+                        if (c == EOF) {
+                                NX_IO_ERROR(NX_LOG_TAG, "%s does not contain image data", filename);
+                                fclose(pnm);
+                                return NX_FAIL;
+                        }
+                }
+                c = fgetc(pnm);
+        }
+        ungetc(c, pnm);
+
         int pnm_width;
         int pnm_height;
         int pnm_levels;
-- 
2.43.0


From 69fcca4d5a797c5d7bdd7a4fdabc6e4a369379f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 48/58] fix: add the alpha channel to every PNG without one
 when loading as RGBA

---
 src/nx_image_io_png.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 3b25082..80cdc8b 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -169,8 +169,8 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         png_set_gray_to_rgb(png_ptr);
-                        png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
                 }
+                png_set_add_alpha(png_ptr, 255, PNG_FILLER_AFTER);
         } else {
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
-- 
2.43.0


From 337d4aaa292cb4aa31a77b3090633ebd2021e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 49/58] fix: do not write transparency of a gray PNG past the
 end of the image rows

---
 src/nx_image_io_png.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nx_image_io_png.c b/src/nx_image_io_png.c
index 80cdc8b..da1901b 100644
--- a/src/nx_image_io_png.c
+++ b/src/nx_image_io_png.c
@@ -175,6 +175,7 @@ static NXResult load_as_png(struct NXImage *img, FILE *fin,
                 if (color_type == PNG_COLOR_TYPE_GRAY ||
                     color_type == PNG_COLOR_TYPE_GA) {
                         output_type = NX_IMAGE_GRAYSCALE;
+                        png_set_strip_alpha(png_ptr);
                 }
 
                 if(color_type == PNG_COLOR_TYPE_RGB ||
-- 
2.43.0


From 0c389d4088f3ea0d7d199d5867fcfc76e00fa083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:50 +0000
Subject: [PATCH 50/58] fix: do not decode CMYK JPEG rows into a buffer for RGB
 rows

---
 src/nx_image_io_jpeg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nx_image_io_jpeg.c b/src/nx_image_io_jpeg.c
index becd4ad..650bf1b 100644
--- a/src/nx_image_io_jpeg.c
+++ b/src/nx_image_io_jpeg.c
@@ -178,6 +178,8 @@ static NXResult load_as_jpeg(struct NXImage *img, FILE *jpeg_stream,
                 cinfo.output_components = 3;
                 cinfo.out_color_components = 3;
                 cinfo.out_color_space = JCS_RGB;
+        } else if (cinfo.out_color_space != JCS_GRAYSCALE) {
+                cinfo.out_color_space = JCS_RGB;
         }
 
         jpeg_start_decompress(&cinfo);
-- 
2.43.0


From c6c8f1d2316a3cda3283313b43be94117be1f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:24 +0000
Subject: [PATCH 51/58] fix: a KITTI sequence without ground truth poses can be
 opened

---
 src/nx_kitti_slam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nx_kitti_slam.c b/src/nx_kitti_slam.c
index d4c840f..6b0667a 100644
--- a/src/nx_kitti_slam.c
+++ b/src/nx_kitti_slam.c
@@ -139,7 +139,7 @@ struct NXKittiSLAMSequence *nx_kitti_slam_sequence_new(struct NXKittiSLAM *datas
         char *pose_file = nx_fstr(NX_KITTI_SLAM_POSE_FILE_FORMAT,
                                   dataset->base_dir, seq_id);
         FILE *pose_in = nx_fopen(pose_file, "r");
-        seq->is_gt_available = (pose_file != NULL);
+        seq->is_gt_available = (pose_in != NULL);
         if (seq->is_gt_available) {
                 seq->poses = nx_read_poses_from_pose_file(pose_in, &seq->length);
                 nx_fclose(pose_in, "pose_in");
-- 
2.43.0


From ee7bd29a0181dc10fb0ae42830138373d0f33d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:24 +0000
Subject: [PATCH 52/58] fix: only standard Temple Color 128 sequence names are
 accepted

---
 src/nx_temple_color_128.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nx_temple_color_128.c b/src/nx_temple_color_128.c
index be1603c..cf96eef 100644
--- a/src/nx_temple_color_128.c
+++ b/src/nx_temple_color_128.c
@@ -136,8 +136,7 @@ nx_temple_color_128_sequence_new(const char *base_dir,
 
         NXBool found = NX_FALSE;
         for (int i = 0; i < NX_TEMPLE_COLOR_128_N_SEQ; ++i) {
-                size_t len = strlen(NX_TEMPLE_COLOR_128_SEQ_NAMES[i]);
-                if (0 == strncmp(seq_name, NX_TEMPLE_COLOR_128_SEQ_NAMES[i], len))
+                if (0 == strcmp(seq_name, NX_TEMPLE_COLOR_128_SEQ_NAMES[i]))
                         found = NX_TRUE;
         }
         if (!found) {
-- 
2.43.0


From 30f5ab8b622a7d319dbbcc8e7780147789fafe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:24 +0000
Subject: [PATCH 53/58] fix: only standard VGG Affine sequence names are
 accepted

---
 src/nx_vgg_affine_dataset.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nx_vgg_affine_dataset.c b/src/nx_vgg_affine_dataset.c
index 80ab5a7..bb28e8c 100644
--- a/src/nx_vgg_affine_dataset.c
+++ b/src/nx_vgg_affine_dataset.c
@@ -87,8 +87,7 @@ nx_vgg_affine_sequence_new(const char *base_dir,
 
         NXBool found = NX_FALSE;
         for (int i = 0; i < NX_VGG_AFFINE_N_SEQ; ++i) {
-                size_t len = strlen(NX_VGG_AFFINE_SEQ_NAMES[i]);
-                if (0 == strncmp(seq_name, NX_VGG_AFFINE_SEQ_NAMES[i], len))
+                if (0 == strcmp(seq_name, NX_VGG_AFFINE_SEQ_NAMES[i]))
                         found = NX_TRUE;
         }
         if (!found) {
-- 
2.43.0


From 5ce49417b5d8de9f2ba179d2c02ef0c55334c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:59 +0000
Subject: [PATCH 54/58] fix: gnuplot axis labels: send set xlabel / set ylabel
 instead of a title

---
 src/nx_gnuplot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nx_gnuplot.c b/src/nx_gnuplot.c
index c26cea2..3b847c1 100644
--- a/src/nx_gnuplot.c
+++ b/src/nx_gnuplot.c
@@ -202,7 +202,7 @@ void nx_gnuplot_set_xlabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title xlabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set xlabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
@@ -211,7 +211,7 @@ void nx_gnuplot_set_ylabel(struct NXGNUPlot *gnuplot,
         NX_ASSERT_PTR(gnuplot);
         NX_ASSERT_PTR(label);
 
-        nx_gnuplot_send_command(gnuplot, "set title ylabel \"%s\";\n", label);
+        nx_gnuplot_send_command(gnuplot, "set ylabel \"%s\";\n", label);
 }
 
 void nx_gnuplot_set_title_and_labels(struct NXGNUPlot *gnuplot, const char *title,
-- 
2.43.0


From 46dad20bebb0d09c513c75cf1612b6505749a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:59 +0000
Subject: [PATCH 55/58] fix: pass curve control points before the end point,
 relative curves relative

---
 src/nx_gc_cairo_imp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nx_gc_cairo_imp.c b/src/nx_gc_cairo_imp.c
index aa4c338..bcdbe69 100644
--- a/src/nx_gc_cairo_imp.c
+++ b/src/nx_gc_cairo_imp.c
@@ -310,7 +310,7 @@ void nx_gc_curve_to(struct NXGC* gc, double x_e, double y_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
@@ -320,7 +320,7 @@ void nx_gc_rel_curve_to(struct NXGC* gc, double dx_e, double dy_e,
         NX_ASSERT_PTR(gc->ctx);
         NX_ASSERT_PTR(gc->surface);
 
-        cairo_curve_to(gc->ctx, dx_e, dy_e, c1dx, c1dy, c2dx, c2dy);
+        cairo_rel_curve_to(gc->ctx, c1dx, c1dy, c2dx, c2dy, dx_e, dy_e);
 }
 
 void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e,
@@ -331,7 +331,7 @@ void nx_gc_curve(struct NXGC* gc, double x_s, double y_s, double x_e, double y_e
         NX_ASSERT_PTR(gc->surface);
 
         cairo_move_to(gc->ctx, x_s, y_s);
-        cairo_curve_to(gc->ctx, x_e, y_e, c1x, c1y, c2x, c2y);
+        cairo_curve_to(gc->ctx, c1x, c1y, c2x, c2y, x_e, y_e);
 }
 
 void nx_gc_draw_text(struct NXGC* gc, double x, double y, const char* txt, double font_sz)
-- 
2.43.0


From 53a7aa7d67b9e0f2d0bfadaa75ddb882be70cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:59 +0000
Subject: [PATCH 56/58] fix: A4 page size constants were converted to points
 twice

---
 src/vg_graphics_context.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vg_graphics_context.cc b/src/vg_graphics_context.cc
index 688ebf6..1d1e0ca 100644
--- a/src/vg_graphics_context.cc
+++ b/src/vg_graphics_context.cc
@@ -31,8 +31,8 @@ using std::shared_ptr;
 namespace virg {
 namespace nexus {
 
-const double VGGraphicsContext::A4_WIDTH_IN_PTS = NX_GC_MM_TO_POINTS*NX_GC_A4_WIDTH;
-const double VGGraphicsContext::A4_HEIGHT_IN_PTS = NX_GC_MM_TO_POINTS*NX_GC_A4_HEIGHT;
+const double VGGraphicsContext::A4_WIDTH_IN_PTS = NX_GC_A4_WIDTH;
+const double VGGraphicsContext::A4_HEIGHT_IN_PTS = NX_GC_A4_HEIGHT;
 
 VGGraphicsContext::VGGraphicsContext(struct NXGC* nx_gc)
         : m_gc(nx_gc, nx_gc_free)
-- 
2.43.0


From 188c63e17f3a6891548303095a1eeb7ab046de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:59 +0000
Subject: [PATCH 57/58] fix: colour map entries are opaque colours with alpha
 one

---
 include/virg/nexus/vg_color_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/virg/nexus/vg_color_map.hpp b/include/virg/nexus/vg_color_map.hpp
index 12a3880..8fb2bd5 100644
--- a/include/virg/nexus/vg_color_map.hpp
+++ b/include/virg/nexus/vg_color_map.hpp
@@ -40,7 +40,7 @@ public:
                 uchar v[3];
                 nx_color_map_apply(&v[0], &v[1], &v[2], value,
                                    VGColorMap::type_to_nx_type(type));
-                return VGColor(v[0]/255.0, v[1]/255.0, v[2]/255.0, 255);
+                return VGColor(v[0]/255.0, v[1]/255.0, v[2]/255.0, 1.0);
         }
 
         static inline enum NXColorMap type_to_nx_type(Type type) {
-- 
2.43.0


From b5971f276beb913561fa722c66a9af261b7dc351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 58/58] fix: nx_string_array_vsetf: format before releasing the
 old text, arguments may refer to it

---
 src/nx_string_array.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nx_string_array.c b/src/nx_string_array.c
index 4694c7c..76e2a2b 100644
--- a/src/nx_string_array.c
+++ b/src/nx_string_array.c
@@ -139,8 +139,10 @@ void nx_string_array_vsetf(struct NXStringArray *sa, int id, const char *fmt, va
         NX_ASSERT(id >= 0 && id < sa->size);
         NX_ASSERT_PTR(fmt);
 
+        // format first, args may refer to the old text
+        char *s = nx_vfstr(fmt, args);
         nx_free(sa->elems[id]);
-        sa->elems[id] = nx_vfstr(fmt, args);
+        sa->elems[id] = s;
 }
 
 int nx_string_array_append(struct NXStringArray *sa, const char *s)
-- 
2.43.0

