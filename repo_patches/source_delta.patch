From 071d0a431c19ac3222a038e66b8b0ad0f3cd392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 01/29] fix: struct/handed headers include paths that exist, so
 they can be included

---
 include/cglm/struct/handed/euler_to_quat_lh.h | 4 +++-
 include/cglm/struct/handed/euler_to_quat_rh.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/handed/euler_to_quat_lh.h b/include/cglm/struct/handed/euler_to_quat_lh.h
index 3964e51..f895d93 100644
--- a/include/cglm/struct/handed/euler_to_quat_lh.h
+++ b/include/cglm/struct/handed/euler_to_quat_lh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_lh_h
 #define cglms_euler_to_quat_lh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_lh.h"
 
 
 /*!
diff --git a/include/cglm/struct/handed/euler_to_quat_rh.h b/include/cglm/struct/handed/euler_to_quat_rh.h
index 6c7f400..d1a7967 100644
--- a/include/cglm/struct/handed/euler_to_quat_rh.h
+++ b/include/cglm/struct/handed/euler_to_quat_rh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_rh_h
 #define cglms_euler_to_quat_rh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_rh.h"
 
 
 /*!
-- 
2.43.0


From 0fb2e5b0517bb7099de68606f9f5bf9833c737e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 02/29] fix: glms_aabb2d_radius called a function that does not
 exist

---
 include/cglm/struct/aabb2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index 9077069..d7c13f1 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -168,7 +168,7 @@ glms_aabb2d_(sizev)(vec2s aabb[2]) {
 CGLM_INLINE
 float
 glms_aabb2d_(radius)(vec2s aabb[2]) {
-  return glms_aabb2d_(size)(aabb) * 0.5f;
+  return glms_aabb2d_(diag)(aabb) * 0.5f;
 }
 
 /*!
-- 
2.43.0


From f39e0a73049dff1d5cdd42d9a2053e64474864bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 03/29] fix: cglm/struct.h exposes the 2D AABB struct API like
 every other module

---
 include/cglm/struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cglm/struct.h b/include/cglm/struct.h
index 31ca4e2..76ec518 100644
--- a/include/cglm/struct.h
+++ b/include/cglm/struct.h
@@ -32,6 +32,7 @@ extern "C" {
 #include "struct/frustum.h"
 #include "struct/plane.h"
 #include "struct/noise.h"
+#include "struct/aabb2d.h"
 #include "struct/box.h"
 #include "struct/color.h"
 #include "struct/io.h"
-- 
2.43.0


From ae801fc7f8c38e13287fd1eefc17648dff86528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 04/29] fix: glm_vec4_normalize_to compares the norm, not its
 square, with FLT_EPSILON in SIMD builds

---
 include/cglm/vec4.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index ded09c9..3c96c52 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -909,34 +909,34 @@ CGLM_INLINE
 void
 glm_vec4_normalize_to(vec4 v, vec4 dest) {
 #if defined(__wasm__) && defined(__wasm_simd128__)
-  glmm_128 xdot, x0;
-  float  dot;
+  glmm_128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  /* dot  = _mm_cvtss_f32(xdot); */
-  dot  = wasm_f32x4_extract_lane(xdot, 0);
+  x0    = glmm_load(v);
+  xnorm = wasm_f32x4_sqrt(glmm_vdot(x0, x0));
+  /* norm = _mm_cvtss_f32(xnorm); */
+  norm  = wasm_f32x4_extract_lane(xnorm, 0);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, wasm_f32x4_const_splat(0.f));
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, wasm_f32x4_sqrt(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #elif defined( __SSE__ ) || defined( __SSE2__ )
-  __m128 xdot, x0;
-  float  dot;
+  __m128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  dot  = _mm_cvtss_f32(xdot);
+  x0    = glmm_load(v);
+  xnorm = _mm_sqrt_ps(glmm_vdot(x0, x0));
+  norm  = _mm_cvtss_f32(xnorm);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, _mm_setzero_ps());
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, _mm_sqrt_ps(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #else
   float norm;
 
-- 
2.43.0


From 986bf646a30c270d007254b9e284e667b1365d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 05/29] fix: glm_sign(INT_MIN) overflowed and returned 0

---
 include/cglm/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/util.h b/include/cglm/util.h
index 8c5f2cb..96a1988 100644
--- a/include/cglm/util.h
+++ b/include/cglm/util.h
@@ -48,7 +48,7 @@
 CGLM_INLINE
 int
 glm_sign(int val) {
-  return ((val >> 31) - (-val >> 31));
+  return (val > 0) - (val < 0);
 }
 
 /*!
-- 
2.43.0


From 8e7c2f7190456025338c1ce62719d813685b6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 06/29] fix: glm_rotated and glm_rotated_{x,y,z} keep (and
 rotate) the translation of the transform

Post rotation is R * m; glm_mul_rot(R, m) took the last column from R and
dropped the translation of m.
---
 include/cglm/affine-post.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 3e297e6..a83c637 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -130,7 +130,7 @@ glm_rotated_x(mat4 m, float angle, mat4 dest) {
   t[2][1] = -s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -157,7 +157,7 @@ glm_rotated_y(mat4 m, float angle, mat4 dest) {
   t[2][0] =  s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -184,7 +184,7 @@ glm_rotated_z(mat4 m, float angle, mat4 dest) {
   t[1][0] = -s;
   t[1][1] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -201,7 +201,7 @@ void
 glm_rotated(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
   glm_rotate_make(rot, angle, axis);
-  glm_mul_rot(rot, m, m);
+  glm_mul(rot, m, m);
 }
 
 /*!
-- 
2.43.0


From ad2acf3b654618ed84c0925c9d0e60d52029bdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 07/29] fix: glm_rotated_at rotates around the pivot, not
 around its negation

Post transforms apply in call order: move the pivot to the origin, rotate,
move it back.
---
 include/cglm/affine-post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index a83c637..f312618 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -222,9 +222,9 @@ glm_rotated_at(mat4 m, vec3 pivot, float angle, vec3 axis) {
 
   glm_vec3_negate_to(pivot, pivotInv);
 
-  glm_translated(m, pivot);
-  glm_rotated(m, angle, axis);
   glm_translated(m, pivotInv);
+  glm_rotated(m, angle, axis);
+  glm_translated(m, pivot);
 }
 
 /*!
-- 
2.43.0


From 0ead30f5bc92f1c8f926ce129386ff3ac1d9afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 08/29] fix: glm_spin leaves the position of the transform
 unchanged

m * T(p) * R * T(-p) with p = m[3] (a point of the parent space) moved the
object unless p was on the axis; rotating around self before m is m * R.
---
 include/cglm/affine-pre.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-pre.h b/include/cglm/affine-pre.h
index 2fa77f7..7e94cfa 100644
--- a/include/cglm/affine-pre.h
+++ b/include/cglm/affine-pre.h
@@ -297,8 +297,8 @@ CGLM_INLINE
 void
 glm_spin(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
-  glm_rotate_atm(rot, m[3], angle, axis);
-  glm_mat4_mul(m, rot, m);
+  glm_rotate_make(rot, angle, axis);
+  glm_mul_rot(m, rot, m);
 }
 
 #endif /* cglm_affine_pre_h */
-- 
2.43.0


From 05dd9c2535429320be4dcacc8c04167947c70a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 09/29] fix: slerp fallbacks interpolate between the same
 hemisphere's quaternions

For nearly opposite quaternions (the same rotation) the linear fallback of
glm_quat_slerp and glm_quat_slerp_longest interpolated through zero.
---
 include/cglm/quat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cf1f325..15aeeac 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -730,7 +730,7 @@ glm_quat_slerp(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
@@ -776,7 +776,8 @@ glm_quat_slerp_longest(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_vec4_negate(q1);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0


From 14131a5f5e6555fcbb7d62f1614c6c9bc9613b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 10/29] fix: glm_ease_bounce_inout eases in during its first
 half

It returned 0.5 at t = 0 and jumped from 0 to 0.5 at t = 0.5: the first half
is the scaled bounce-in, 0.5 * (1 - bounce_out(1 - 2t)).
---
 include/cglm/ease.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ease.h b/include/cglm/ease.h
index e26b48c..a833341 100644
--- a/include/cglm/ease.h
+++ b/include/cglm/ease.h
@@ -309,7 +309,7 @@ CGLM_INLINE
 float
 glm_ease_bounce_inout(float t) {
   if (t < 0.5f)
-    return 0.5f * (1.0f - glm_ease_bounce_out(t * 2.0f));
+    return 0.5f * (1.0f - glm_ease_bounce_out(1.0f - t * 2.0f));
 
   return 0.5f * glm_ease_bounce_out(t * 2.0f - 1.0f) + 0.5f;
 }
-- 
2.43.0


From cc2422c9ecee13f1f2c329aae8dd51c5b6ac99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 11/29] fix: glm_persp_decomp_{x,y}_lh_zo take the near
 distance from the depth row

They divided by proj[3][3], which is 0 for every perspective matrix.
---
 include/cglm/clipspace/persp_lh_zo.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index de89643..f93c470 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -245,12 +245,13 @@ void
 glm_persp_decomp_x_lh_zo(mat4 proj,
                          float * __restrict left,
                          float * __restrict right) {
-  float nearZ, m20, m00;
+  float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
   m20 = proj[2][0];
+  m22 =-proj[2][2];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / m22;
   *left   = nearZ * (m20 - 1.0f) / m00;
   *right  = nearZ * (m20 + 1.0f) / m00;
 }
@@ -270,12 +271,13 @@ void
 glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict top,
                          float * __restrict bottom) {
-  float nearZ, m21, m11;
+  float nearZ, m21, m11, m22;
 
   m21 = proj[2][1];
   m11 = proj[1][1];
+  m22 =-proj[2][2];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / m22;
   *bottom = nearZ * (m21 - 1) / m11;
   *top    = nearZ * (m21 + 1) / m11;
 }
-- 
2.43.0


From 11c6266e22933a148b5eca2c49631312a787fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 12/29] fix: left-handed glm_ortho_aabb* enclose the given box

In a left-handed view space the box lies at +z: near is its minimum z and far
its maximum; the right-handed negation mapped the box mirrored in z outside
the clip volume.
---
 include/cglm/clipspace/ortho_lh_no.h | 6 +++---
 include/cglm/clipspace/ortho_lh_zo.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cglm/clipspace/ortho_lh_no.h b/include/cglm/clipspace/ortho_lh_no.h
index 76c7a94..71f2c89 100644
--- a/include/cglm/clipspace/ortho_lh_no.h
+++ b/include/cglm/clipspace/ortho_lh_no.h
@@ -83,7 +83,7 @@ void
 glm_ortho_aabb_lh_no(vec3 box[2], mat4 dest) {
   glm_ortho_lh_no(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -103,7 +103,7 @@ void
 glm_ortho_aabb_p_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -123,7 +123,7 @@ void
 glm_ortho_aabb_pz_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
diff --git a/include/cglm/clipspace/ortho_lh_zo.h b/include/cglm/clipspace/ortho_lh_zo.h
index e45530d..9c88eb0 100644
--- a/include/cglm/clipspace/ortho_lh_zo.h
+++ b/include/cglm/clipspace/ortho_lh_zo.h
@@ -81,7 +81,7 @@ void
 glm_ortho_aabb_lh_zo(vec3 box[2], mat4 dest) {
   glm_ortho_lh_zo(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -100,7 +100,7 @@ void
 glm_ortho_aabb_p_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -119,7 +119,7 @@ void
 glm_ortho_aabb_pz_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
-- 
2.43.0


From b5608711f9fd8a98628cc4af743bdd95e885c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 13/29] fix: left-handed glm_frustum maps an off-center volume
 onto the clip volume

With w = +z the center terms of the third column have the opposite sign of the
right-handed ones; the decompositions of the left-handed matrices follow.
---
 include/cglm/clipspace/persp_lh_no.h | 12 ++++++------
 include/cglm/clipspace/persp_lh_zo.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_no.h b/include/cglm/clipspace/persp_lh_no.h
index d28923a..632ca0f 100644
--- a/include/cglm/clipspace/persp_lh_no.h
+++ b/include/cglm/clipspace/persp_lh_no.h
@@ -79,8 +79,8 @@ glm_frustum_lh_no(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-(farZ + nearZ) * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nv * fn;
@@ -201,8 +201,8 @@ glm_persp_decomp_lh_no(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -254,7 +254,7 @@ glm_persp_decomp_x_lh_no(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / (m22 - 1.0f);
@@ -279,7 +279,7 @@ glm_persp_decomp_y_lh_no(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index f93c470..9dda63a 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -78,8 +78,8 @@ glm_frustum_lh_zo(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-farZ * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nearZ * fn;
@@ -197,8 +197,8 @@ glm_persp_decomp_lh_zo(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -248,7 +248,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / m22;
@@ -273,7 +273,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
-- 
2.43.0


From 0a616312f4671bc9d7c588b58f84672ca94320f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 14/29] fix: glms_frustum_corners_at wrote eight corners into
 an array of four

---
 include/cglm/struct/frustum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/frustum.h b/include/cglm/struct/frustum.h
index 81b5b7b..4b043d9 100644
--- a/include/cglm/struct/frustum.h
+++ b/include/cglm/struct/frustum.h
@@ -149,7 +149,7 @@ glms_frustum_corners_at(vec4s corners[8],
 
   glms_vec4_(unpack)(rawCorners, corners, 8);
   glm_frustum_corners_at(rawCorners, splitDist, farDist, rawPlaneCorners);
-  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 8);
+  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 4);
 }
 
 #endif /* cglms_frustums_h */
-- 
2.43.0


From f350875973293e9488a314196ef1e3f1b8198885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 15/29] fix: box/sphere and box/circle tests measure to the
 nearer face of the box

---
 include/cglm/aabb2d.h | 4 ++--
 include/cglm/box.h    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 6369d08..03c6773 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -235,8 +235,8 @@ glm_aabb2d_circle(vec2 aabb[2], vec3 c) {
   a = (c[0] < aabb[0][0]) + (c[0] > aabb[1][0]);
   b = (c[1] < aabb[0][1]) + (c[1] > aabb[1][1]);
 
-  dmin  = glm_pow2((c[0] - aabb[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((c[1] - aabb[!(b - 1)][1]) * (b != 0));
+  dmin  = glm_pow2((c[0] - aabb[c[0] > aabb[1][0]][0]) * (a != 0))
+        + glm_pow2((c[1] - aabb[c[1] > aabb[1][1]][1]) * (b != 0));
 
   return dmin <= glm_pow2(c[2]);
 }
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 8bba678..a56909b 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -243,9 +243,9 @@ glm_aabb_sphere(vec3 box[2], vec4 s) {
   b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
   c = (s[2] < box[0][2]) + (s[2] > box[1][2]);
 
-  dmin  = glm_pow2((s[0] - box[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((s[1] - box[!(b - 1)][1]) * (b != 0))
-        + glm_pow2((s[2] - box[!(c - 1)][2]) * (c != 0));
+  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))
+        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))
+        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c != 0));
 
   return dmin <= glm_pow2(s[3]);
 }
-- 
2.43.0


From e3c1a2e0f9a8e13e6501327b96789fcafb48fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 16/29] fix: glm_ray_sphere divided zero by zero for a tangent
 ray starting on the sphere

---
 include/cglm/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ray.h b/include/cglm/ray.h
index d7831bc..57abb1d 100644
--- a/include/cglm/ray.h
+++ b/include/cglm/ray.h
@@ -134,7 +134,7 @@ glm_ray_sphere(vec3 origin,
      "Numerical Recipes in C," Cambridge University Press, 1992.
    */
   _t1 = q;
-  _t2 = (dpp - r2) / q;
+  _t2 = (q != 0.0f) ? (dpp - r2) / q : q;
 
   /* adjust t1 and t2 to ensure t1 is the closer intersection */
   if (_t1 > _t2) {
-- 
2.43.0


From 489595af08b9740367212b7043c8dc998bd69c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 17/29] fix: glm_quat_mul without SIMD when dest is one of the
 operands

---
 include/cglm/quat.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index 15aeeac..3610d38 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -466,10 +466,14 @@ glm_quat_mul(versor p, versor q, versor dest) {
 #elif defined(CGLM_NEON_FP)
   glm_quat_mul_neon(p, q, dest);
 #else
-  dest[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
-  dest[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
-  dest[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
-  dest[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+  CGLM_ALIGN(16) versor r;
+
+  r[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
+  r[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
+  r[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
+  r[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+
+  glm_vec4_copy(r, dest);
 #endif
 }
 
-- 
2.43.0


From fb8509a2831e24da291543d9d0cc7a1be3e1fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 18/29] fix: glm_mat2_mulv when dest is the input vector

---
 include/cglm/mat2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 5bec482..9d1990d 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -181,8 +181,10 @@ glm_mat2_mul(mat2 m1, mat2 m2, mat2 dest) {
 CGLM_INLINE
 void
 glm_mat2_mulv(mat2 m, vec2 v, vec2 dest) {
-  dest[0] = m[0][0] * v[0] + m[1][0] * v[1];
-  dest[1] = m[0][1] * v[0] + m[1][1] * v[1];
+  float v0 = v[0], v1 = v[1];
+
+  dest[0] = m[0][0] * v0 + m[1][0] * v1;
+  dest[1] = m[0][1] * v0 + m[1][1] * v1;
 }
 
 /*!
-- 
2.43.0


From 12a0b3a01ff07c2fb1c9040683f9d81ecb65e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 19/29] fix: glm_mat{2,3,4}_transpose_to without SIMD when dest
 is the source

---
 include/cglm/mat2.h |  4 +++-
 include/cglm/mat3.h |  8 +++++---
 include/cglm/mat4.h | 19 +++++++++++--------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 9d1990d..5b16b79 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -201,9 +201,11 @@ glm_mat2_transpose_to(mat2 mat, mat2 dest) {
 #elif defined( __SSE__ ) || defined( __SSE2__ )
   glm_mat2_transp_sse2(mat, dest);
 #else
+  float m01 = mat[0][1];
+
   dest[0][0] = mat[0][0];
   dest[0][1] = mat[1][0];
-  dest[1][0] = mat[0][1];
+  dest[1][0] = m01;
   dest[1][1] = mat[1][1];
 #endif
 }
diff --git a/include/cglm/mat3.h b/include/cglm/mat3.h
index 10b373e..c133b9b 100644
--- a/include/cglm/mat3.h
+++ b/include/cglm/mat3.h
@@ -190,14 +190,16 @@ glm_mat3_mul(mat3 m1, mat3 m2, mat3 dest) {
 CGLM_INLINE
 void
 glm_mat3_transpose_to(mat3 m, mat3 dest) {
+  float m01 = m[0][1], m02 = m[0][2], m12 = m[1][2];
+
   dest[0][0] = m[0][0];
   dest[0][1] = m[1][0];
   dest[0][2] = m[2][0];
-  dest[1][0] = m[0][1];
+  dest[1][0] = m01;
   dest[1][1] = m[1][1];
   dest[1][2] = m[2][1];
-  dest[2][0] = m[0][2];
-  dest[2][1] = m[1][2];
+  dest[2][0] = m02;
+  dest[2][1] = m12;
   dest[2][2] = m[2][2];
 }
 
diff --git a/include/cglm/mat4.h b/include/cglm/mat4.h
index c3fe7fd..99dd18c 100644
--- a/include/cglm/mat4.h
+++ b/include/cglm/mat4.h
@@ -528,14 +528,17 @@ glm_mat4_transpose_to(mat4 m, mat4 dest) {
 #elif defined(CGLM_NEON_FP)
   glm_mat4_transp_neon(m, dest);
 #else
-  dest[0][0] = m[0][0]; dest[1][0] = m[0][1];
-  dest[0][1] = m[1][0]; dest[1][1] = m[1][1];
-  dest[0][2] = m[2][0]; dest[1][2] = m[2][1];
-  dest[0][3] = m[3][0]; dest[1][3] = m[3][1];
-  dest[2][0] = m[0][2]; dest[3][0] = m[0][3];
-  dest[2][1] = m[1][2]; dest[3][1] = m[1][3];
-  dest[2][2] = m[2][2]; dest[3][2] = m[2][3];
-  dest[2][3] = m[3][2]; dest[3][3] = m[3][3];
+  float m01 = m[0][1], m02 = m[0][2], m03 = m[0][3],
+        m12 = m[1][2], m13 = m[1][3], m23 = m[2][3];
+
+  dest[0][0] = m[0][0]; dest[0][1] = m[1][0];
+  dest[0][2] = m[2][0]; dest[0][3] = m[3][0];
+  dest[1][0] = m01;     dest[1][1] = m[1][1];
+  dest[1][2] = m[2][1]; dest[1][3] = m[3][1];
+  dest[2][0] = m02;     dest[2][1] = m12;
+  dest[2][2] = m[2][2]; dest[2][3] = m[3][2];
+  dest[3][0] = m03;     dest[3][1] = m13;
+  dest[3][2] = m23;     dest[3][3] = m[3][3];
 #endif
 }
 
-- 
2.43.0


From 4334f517ceb8aed6f9bcd6a9045a0c2c78c22d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 20/29] fix: glm_vec{2,3,4}_refract when dest is the normal

---
 include/cglm/vec2.h | 6 ++++--
 include/cglm/vec3.h | 6 ++++--
 include/cglm/vec4.h | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cglm/vec2.h b/include/cglm/vec2.h
index 655fb4b..42d81db 100644
--- a/include/cglm/vec2.h
+++ b/include/cglm/vec2.h
@@ -779,6 +779,7 @@ glm_vec2_reflect(vec2 v, vec2 n, vec2 dest) {
 CGLM_INLINE
 bool
 glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
+  vec2 temp;
   float ndi, eni, k;
 
   ndi = glm_vec2_dot(n, v);
@@ -790,8 +791,9 @@ glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
     return false;
   }
 
-  glm_vec2_scale(v, eta, dest);
-  glm_vec2_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec2_scale(v, eta, temp);
+  glm_vec2_mulsubs(n, eni + sqrtf(k), temp);
+  glm_vec2_copy(temp, dest);
   return true;
 }
 
diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 1350818..4f71523 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -1245,6 +1245,7 @@ glm_vec3_reflect(vec3 v, vec3 n, vec3 dest) {
 CGLM_INLINE
 bool
 glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
+  vec3 temp;
   float ndi, eni, k;
 
   ndi = glm_vec3_dot(n, v);
@@ -1256,8 +1257,9 @@ glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
     return false;
   }
 
-  glm_vec3_scale(v, eta, dest);
-  glm_vec3_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec3_scale(v, eta, temp);
+  glm_vec3_mulsubs(n, eni + sqrtf(k), temp);
+  glm_vec3_copy(temp, dest);
   return true;
 }
 
diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index 3c96c52..c5aea15 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1329,6 +1329,7 @@ glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
 CGLM_INLINE
 bool
 glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
+  CGLM_ALIGN(16) vec4 temp;
   float ndi, eni, k;
 
   ndi = glm_vec4_dot(n, v);
@@ -1340,8 +1341,9 @@ glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
     return false;
   }
 
-  glm_vec4_scale(v, eta, dest);
-  glm_vec4_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec4_scale(v, eta, temp);
+  glm_vec4_mulsubs(n, eni + sqrtf(k), temp);
+  glm_vec4_copy(temp, dest);
   return true;
 }
 
-- 
2.43.0


From 4ba7ad45c08fd4ae055bfc5c6be8e7cdd4b10d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 21/29] fix: glm_vec4_reflect when dest is the input vector

---
 include/cglm/vec4.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index c5aea15..8359256 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1299,13 +1299,14 @@ glm_vec4_make(const float * __restrict src, vec4 dest) {
 CGLM_INLINE
 void
 glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
-  vec4 temp;
+  vec4  temp;
+  float w = v[3];
 
   /* TODO: direct simd touch */
   glm_vec4_scale(n, 2.0f * glm_vec4_dot(v, n), temp);
   glm_vec4_sub(v, temp, dest);
 
-  dest[3] = v[3];
+  dest[3] = w;
 }
 
 /*!
-- 
2.43.0


From d75c012e29bf0ea174d15d98a942ea3a126f0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 22/29] fix: glm_aabb_crop_until and glm_aabb2d_crop_until when
 dest is the clamp box

---
 include/cglm/aabb2d.h | 6 ++++--
 include/cglm/box.h    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 03c6773..b372511 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -131,8 +131,10 @@ glm_aabb2d_crop_until(vec2 aabb[2],
                       vec2 cropAabb[2],
                       vec2 clampAabb[2],
                       vec2 dest[2]) {
-  glm_aabb2d_crop(aabb, cropAabb, dest);
-  glm_aabb2d_merge(clampAabb, dest, dest);
+  vec2 crop[2];
+
+  glm_aabb2d_crop(aabb, cropAabb, crop);
+  glm_aabb2d_merge(clampAabb, crop, dest);
 }
 
 /*!
diff --git a/include/cglm/box.h b/include/cglm/box.h
index a56909b..ad06470 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -113,8 +113,10 @@ glm_aabb_crop_until(vec3 box[2],
                     vec3 cropBox[2],
                     vec3 clampBox[2],
                     vec3 dest[2]) {
-  glm_aabb_crop(box, cropBox, dest);
-  glm_aabb_merge(clampBox, dest, dest);
+  vec3 crop[2];
+
+  glm_aabb_crop(box, cropBox, crop);
+  glm_aabb_merge(clampBox, crop, dest);
 }
 
 /*!
-- 
2.43.0


From 98b78461bf1b45d7238c25b9bdee870625ae0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 23/29] fix: glm_mat{2,3,4}_print chose each element's number
 format by the transposed element

---
 include/cglm/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index baa80f1..33c5d31 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -143,7 +143,7 @@ glm_mat4_print(mat4              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -186,7 +186,7 @@ glm_mat3_print(mat3              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -228,7 +228,7 @@ glm_mat2_print(mat2              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
-- 
2.43.0


From 22c9fb6223183a40a41f05a00911092aaa6a49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 24/29] fix: glmm256_fnmsub computes -(a * b) - c like the
 128-bit form

---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index 2410d0f..e44c3ba 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -353,9 +353,9 @@ static inline
 __m256
 glmm256_fnmsub(__m256 a, __m256 b, __m256 c) {
 #ifdef __FMA__
-  return _mm256_fmsub_ps(a, b, c);
+  return _mm256_fnmsub_ps(a, b, c);
 #else
-  return _mm256_xor_ps(_mm256_sub_ps(_mm256_mul_ps(a, b), c),
+  return _mm256_xor_ps(_mm256_add_ps(_mm256_mul_ps(a, b), c),
                        glmm_float32x8_SIGNMASK_NEG);
 #endif
 }
-- 
2.43.0


From cf8a84acdc47da2b17c04f55dd497f6bf9675d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 25/29] fix: glmm_load3 and glmm_store3 do not promise an
 alignment float[3] does not have

---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index e44c3ba..d68757c 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -252,7 +252,7 @@ glmm_load3(float v[3]) {
   __m128i xy;
   __m128  z;
 
-  xy = _mm_loadl_epi64(CGLM_CASTPTR_ASSUME_ALIGNED(v, const __m128i));
+  xy = _mm_loadl_epi64((const __m128i *)(const void *)v);
   z  = _mm_load_ss(&v[2]);
 
   return _mm_movelh_ps(_mm_castsi128_ps(xy), z);
@@ -261,7 +261,7 @@ glmm_load3(float v[3]) {
 static inline
 void
 glmm_store3(float v[3], __m128 vx) {
-  _mm_storel_pi(CGLM_CASTPTR_ASSUME_ALIGNED(v, __m64), vx);
+  _mm_storel_pi((__m64 *)(void *)v, vx);
   _mm_store_ss(&v[2], glmm_shuff1(vx, 2, 2, 2, 2));
 }
 #endif
-- 
2.43.0


From 71efdd46a6a0c097ec2cf76243e511e38e7fcb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 26/29] fix: honour the struct API namespace options in
 glms_vec2_min and glms_vec2_isvalid

---
 include/cglm/struct/vec2-ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/vec2-ext.h b/include/cglm/struct/vec2-ext.h
index 246132f..12c62ff 100644
--- a/include/cglm/struct/vec2-ext.h
+++ b/include/cglm/struct/vec2-ext.h
@@ -134,7 +134,7 @@ glms_vec2_(max)(vec2s v) {
  */
 CGLM_INLINE
 float
-glms_vec2_min(vec2s v) {
+glms_vec2_(min)(vec2s v) {
   return glm_vec2_min(v.raw);
 }
 
@@ -170,7 +170,7 @@ glms_vec2_(isinf)(vec2s v) {
  */
 CGLM_INLINE
 bool
-glms_vec2_isvalid(vec2s v) {
+glms_vec2_(isvalid)(vec2s v) {
   return glm_vec2_isvalid(v.raw);
 }
 
-- 
2.43.0


From d0e1f89be92e8f584d8221363a020666806240bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 27/29] fix: drop the stray semicolon from the
 glmc_vec3_step_uni macro

---
 include/cglm/call/vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/call/vec3.h b/include/cglm/call/vec3.h
index 640fac7..a66d1fb 100644
--- a/include/cglm/call/vec3.h
+++ b/include/cglm/call/vec3.h
@@ -19,7 +19,7 @@ extern "C" {
 #define glmc_vec3_flipsign_to(v, dest) glmc_vec3_negate_to(v, dest)
 #define glmc_vec3_inv(v)               glmc_vec3_negate(v)
 #define glmc_vec3_inv_to(v, dest)      glmc_vec3_negate_to(v, dest)
-#define glmc_vec3_step_uni(edge, x, dest) glmc_vec3_steps(edge, x, dest);
+#define glmc_vec3_step_uni(edge, x, dest) glmc_vec3_steps(edge, x, dest)
 
 CGLM_EXPORT
 void
-- 
2.43.0


From 648a964be1a6b2f6b4040dafe0d7cf9eee5adb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 28/29] fix: glms_aabb_crop_until and glms_aabb2d_crop_until:
 keep the clamp box when dest is it

---
 include/cglm/struct/aabb2d.h | 6 ++++--
 include/cglm/struct/box.h    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index d7c13f1..dcc08a9 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -101,8 +101,10 @@ glms_aabb2d_(crop_until)(vec2s aabb[2],
                        vec2s cropAabb[2],
                        vec2s clampAabb[2],
                        vec2s dest[2]) {
-  glms_aabb2d_(crop)(aabb, cropAabb, dest);
-  glms_aabb2d_(merge)(clampAabb, dest, dest);
+  vec2s crop[2];
+
+  glms_aabb2d_(crop)(aabb, cropAabb, crop);
+  glms_aabb2d_(merge)(clampAabb, crop, dest);
 }
 
 /*!
diff --git a/include/cglm/struct/box.h b/include/cglm/struct/box.h
index ac32328..3ee5034 100644
--- a/include/cglm/struct/box.h
+++ b/include/cglm/struct/box.h
@@ -101,8 +101,10 @@ glms_aabb_(crop_until)(vec3s box[2],
                        vec3s cropBox[2],
                        vec3s clampBox[2],
                        vec3s dest[2]) {
-  glms_aabb_(crop)(box, cropBox, dest);
-  glms_aabb_(merge)(clampBox, dest, dest);
+  vec3s crop[2];
+
+  glms_aabb_(crop)(box, cropBox, crop);
+  glms_aabb_(merge)(clampBox, crop, dest);
 }
 
 /*!
-- 
2.43.0


From b8d47325ecd20993f36143877117194aaa20be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 29/29] fix: glm_vec3_ortho returned the zero vector for some
 directions, e.g. (1, 0, 2), so glm_look_anyup gave a singular view

---
 include/cglm/vec3.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 4f71523..0f608f6 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -923,7 +923,10 @@ CGLM_INLINE
 void
 glm_vec3_ortho(vec3 v, vec3 dest) {
   float ignore;
-  float f      = modff(fabsf(v[0]) + 0.5f, &ignore);
+  float norm   = glm_vec3_norm(v);
+  /* f depends on direction only, otherwise result may be zero vector e.g.
+     for (1, 0, 2) */
+  float f      = modff((norm > 0.0f ? fabsf(v[0]) / norm : 0.0f) + 0.5f, &ignore);
   vec3  result = {-v[1], v[0] - f * v[2], f * v[1]};
   glm_vec3_copy(result, dest);
 }
-- 
2.43.0

