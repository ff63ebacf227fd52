/* Scalar stand-in for the NEON intrinsics, after the Arm intrinsics reference: lets the real
   NEON code paths of cglm be compiled and run on this machine. */
#ifndef VT_ARM_NEON_H
#define VT_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef float float32_t;
typedef float float32x2_t __attribute__((vector_size(8)));
typedef float float32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef struct { float32x2_t val[2]; } float32x2x2_t;
typedef struct { float32x4_t val[2]; } float32x4x2_t;
typedef struct { float32x4_t val[3]; } float32x4x3_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
#define VT_I static inline __attribute__((always_inline))
#define VT_NC __attribute__((optimize("fp-contract=off")))
VT_I float32x4_t vld1q_f32(const float *p) { float32x4_t r; memcpy(&r, p, 16); return r; }
VT_I float32x2_t vld1_f32(const float *p) { float32x2_t r; memcpy(&r, p, 8); return r; }
VT_I float32x4_t vld1q_dup_f32(const float *p) { float32x4_t r = {*p, *p, *p, *p}; return r; }
VT_I float32x2_t vld1_dup_f32(const float *p) { float32x2_t r = {*p, *p}; return r; }
VT_I float32x4x2_t vld1q_f32_x2(const float *p) { float32x4x2_t r; memcpy(&r, p, 32); return r; }
VT_I float32x4x4_t vld1q_f32_x4(const float *p) { float32x4x4_t r; memcpy(&r, p, 64); return r; }
VT_I float32x4x2_t vld2q_f32(const float *p) { float32x4x2_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[2 * i + k]; return r; }
VT_I float32x4x3_t vld3q_f32(const float *p) { float32x4x3_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[3 * i + k]; return r; }
VT_I float32x4x4_t vld4q_f32(const float *p) { float32x4x4_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[4 * i + k]; return r; }
VT_I void vst1q_f32(float *p, float32x4_t a) { memcpy(p, &a, 16); }
VT_I void vst1_f32(float *p, float32x2_t a) { memcpy(p, &a, 8); }
VT_I void vst4q_f32(float *p, float32x4x4_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) p[4 * i + k] = a.val[k][i]; }
VT_I void vst2q_f32(float *p, float32x4x2_t a) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) p[2 * i + k] = a.val[k][i]; }
#define vst1_lane_f32(p, a, l) (*(p) = (a)[l])
#define vst1q_lane_f32(p, a, l) (*(p) = (a)[l])
VT_I float32x4_t vdupq_n_f32(float x) { float32x4_t r = {x, x, x, x}; return r; }
VT_I float32x4_t vmovq_n_f32(float x) { return vdupq_n_f32(x); }
VT_I float32x2_t vdup_n_f32(float x) { float32x2_t r = {x, x}; return r; }
VT_I int32x4_t vdupq_n_s32(int32_t x) { int32x4_t r = {x, x, x, x}; return r; }
VT_I uint32x4_t vdupq_n_u32(uint32_t x) { uint32x4_t r = {x, x, x, x}; return r; }
#define vdup_lane_f32(v, l) vdup_n_f32((v)[l])
#define vdupq_lane_f32(v, l) vdupq_n_f32((v)[l])
#define vdupq_laneq_f32(v, l) vdupq_n_f32((v)[l])
#define vget_lane_f32(v, l) ((v)[l])
#define vgetq_lane_f32(v, l) ((v)[l])
VT_I float32x4_t vt_setq(float x, float32x4_t v, int l) { v[l] = x; return v; }
VT_I float32x2_t vt_set(float x, float32x2_t v, int l) { v[l] = x; return v; }
#define vsetq_lane_f32(x, v, l) vt_setq(x, v, l)
#define vset_lane_f32(x, v, l) vt_set(x, v, l)
#define vld1q_lane_f32(p, v, l) vt_setq(*(p), v, l)
#define vld1_lane_f32(p, v, l) vt_set(*(p), v, l)
VT_I float32x2_t vget_low_f32(float32x4_t v) { float32x2_t r = {v[0], v[1]}; return r; }
VT_I float32x2_t vget_high_f32(float32x4_t v) { float32x2_t r = {v[2], v[3]}; return r; }
VT_I float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r = {a[0], a[1], b[0], b[1]}; return r; }
VT_I int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return (int32x4_t)a; }
VT_I float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return (float32x4_t)a; }
VT_I uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
VT_I float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
VT_I int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
VT_I uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
VT_I int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { return a & b; }
VT_I uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
VT_I uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
VT_I int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) { return a & ~b; }
VT_I int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { return a | b; }
VT_I uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
VT_I float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
VT_I float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
VT_I float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
VT_I float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
VT_I float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
VT_I float32x4_t vnegq_f32(float32x4_t a) { return -a; }
VT_I float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a + b; }
VT_I float32x2_t vsub_f32(float32x2_t a, float32x2_t b) { return a - b; }
VT_I float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a * b; }
VT_I float32x2_t vdiv_f32(float32x2_t a, float32x2_t b) { return a / b; }
VT_I float32x2_t vneg_f32(float32x2_t a) { return -a; }
VT_I float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
VT_I float32x2_t vmul_n_f32(float32x2_t a, float b) { return a * vdup_n_f32(b); }
#define vmulq_lane_f32(a, b, l) vmulq_f32(a, vdupq_n_f32((b)[l]))
#define vmulq_laneq_f32(a, b, l) vmulq_f32(a, vdupq_n_f32((b)[l]))
#define vmul_lane_f32(a, b, l) vmul_f32(a, vdup_n_f32((b)[l]))
VT_I float32x4_t vabsq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_fabsf(a[i]); return r; }
VT_I float32x2_t vabs_f32(float32x2_t a) { float32x2_t r; for (int i = 0; i < 2; i++) r[i] = __builtin_fabsf(a[i]); return r; }
VT_I float32x4_t vsqrtq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = sqrtf(a[i]); return r; }
VT_I float vt_min(float a, float b) { return a != a || b != b ? __builtin_nanf("") : a == b ? (__builtin_signbit(a) ? a : b) : a < b ? a : b; }
VT_I float vt_max(float a, float b) { return a != a || b != b ? __builtin_nanf("") : a == b ? (__builtin_signbit(a) ? b : a) : a > b ? a : b; }
VT_I float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = vt_min(a[i], b[i]); return r; }
VT_I float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = vt_max(a[i], b[i]); return r; }
VT_I float32x2_t vmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {vt_min(a[0], b[0]), vt_min(a[1], b[1])}; return r; }
VT_I float32x2_t vmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {vt_max(a[0], b[0]), vt_max(a[1], b[1])}; return r; }
VT_I float32x2_t vpmin_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {vt_min(a[0], a[1]), vt_min(b[0], b[1])}; return r; }
VT_I float32x2_t vpmax_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {vt_max(a[0], a[1]), vt_max(b[0], b[1])}; return r; }
VT_I float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {a[0] + a[1], b[0] + b[1]}; return r; }
VT_I float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3]}; return r; }
VT_I float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
VT_I float vaddv_f32(float32x2_t a) { return a[0] + a[1]; }
VT_I float vmaxvq_f32(float32x4_t a) { return vt_max(vt_max(a[0], a[1]), vt_max(a[2], a[3])); }
VT_I float vminvq_f32(float32x4_t a) { return vt_min(vt_min(a[0], a[1]), vt_min(a[2], a[3])); }
VT_I float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = fmaf(b[i], c[i], a[i]); return r; }
VT_I float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = fmaf(-b[i], c[i], a[i]); return r; }
VT_I float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
VT_I float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
VT_I float32x2_t vmla_f32(float32x2_t a, float32x2_t b, float32x2_t c) { return a + b * c; }
VT_I float32x2_t vmls_f32(float32x2_t a, float32x2_t b, float32x2_t c) { return a - b * c; }
#define vmlaq_lane_f32(a, b, c, l) vmlaq_f32(a, b, vdupq_n_f32((c)[l]))
#define vmlsq_lane_f32(a, b, c, l) vmlsq_f32(a, b, vdupq_n_f32((c)[l]))
#define vfmaq_lane_f32(a, b, c, l) vfmaq_f32(a, b, vdupq_n_f32((c)[l]))
#define vfmaq_laneq_f32(a, b, c, l) vfmaq_f32(a, b, vdupq_n_f32((c)[l]))
#define vfmsq_lane_f32(a, b, c, l) vfmsq_f32(a, b, vdupq_n_f32((c)[l]))
#define vfmsq_laneq_f32(a, b, c, l) vfmsq_f32(a, b, vdupq_n_f32((c)[l]))
VT_I float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float c) { return a + b * vdupq_n_f32(c); }
VT_I float32x4_t vfmaq_n_f32(float32x4_t a, float32x4_t b, float c) { return vfmaq_f32(a, b, vdupq_n_f32(c)); }
/* 8-bit reciprocal estimate */
VT_I float vt_recpe(float x) {
  if (x != x) return x;
  if (__builtin_isinf(x)) return copysignf(0.f, x);
  if (__builtin_fabsf(x) < 1.17549435e-38f) return copysignf(INFINITY, x);
  if (__builtin_fabsf(x) >= 8.507059e37f) return copysignf(0.f, x);
  int e; double f = frexp(__builtin_fabs((double)x), &e);           /* [0.5, 1) */
  int q = (int)(f * 512); double r = 1.0 / ((q + 0.5) / 512); int s = (int)(256 * r + 0.5);
  return copysignf((float)ldexp(s / 256.0, -e), x);
}
VT_I float32x4_t vrecpeq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = vt_recpe(a[i]); return r; }
VT_I float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (a[i] == 0 && __builtin_isinf(b[i])) || (b[i] == 0 && __builtin_isinf(a[i])) ? 2.f : 2.f - a[i] * b[i]; return r; }
VT_I float32x4_t vt_extq(float32x4_t a, float32x4_t b, int n) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
#define vextq_f32(a, b, n) vt_extq(a, b, n)
VT_I float32x2_t vt_ext(float32x2_t a, float32x2_t b, int n) { float32x2_t r = {n ? a[1] : a[0], n ? b[0] : a[1]}; return r; }
#define vext_f32(a, b, n) vt_ext(a, b, n)
VT_I float32x4_t vrev64q_f32(float32x4_t a) { float32x4_t r = {a[1], a[0], a[3], a[2]}; return r; }
VT_I float32x2_t vrev64_f32(float32x2_t a) { float32x2_t r = {a[1], a[0]}; return r; }
VT_I float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], b[0], a[2], b[2]}, {a[1], b[1], a[3], b[3]}}}; return r; }
VT_I float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], b[0], a[1], b[1]}, {a[2], b[2], a[3], b[3]}}}; return r; }
VT_I float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], a[2], b[0], b[2]}, {a[1], a[3], b[1], b[3]}}}; return r; }
VT_I float32x2x2_t vtrn_f32(float32x2_t a, float32x2_t b) { float32x2x2_t r = {{{a[0], b[0]}, {a[1], b[1]}}}; return r; }
VT_I float32x2x2_t vzip_f32(float32x2_t a, float32x2_t b) { return vtrn_f32(a, b); }
VT_I float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { return vtrnq_f32(a, b).val[0]; }
VT_I float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { return vtrnq_f32(a, b).val[1]; }
VT_I float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) { return vzipq_f32(a, b).val[0]; }
VT_I float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) { return vzipq_f32(a, b).val[1]; }
VT_I float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) { return vuzpq_f32(a, b).val[0]; }
VT_I float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) { return vuzpq_f32(a, b).val[1]; }
#endif
