/* Layout, constant and packing monitors: every struct type against its array type, every named member
   against the raw element it must alias, every constant and initializer macro of both APIs, pack/unpack.
   Compiled as C and C++ in many configurations. */
#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stddef.h>
typedef unsigned int u32; typedef unsigned long long u64;
static long nf, njudge, nmember, nconst; static int chk;
static void fail(const char *fn, const char *why) { if (nf++ < 40) printf("FAIL fn=%s case=%d why=%s\n", fn, chk, why); }
static u64 st = 88172645463325252ull; static u32 rn(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (u32)(st >> 16); }
#ifdef __cplusplus
#define ALIGNOF(T) __alignof__(T)
#else
#define ALIGNOF(T) _Alignof(T)
#endif
static int same32(const void *a, u32 w) { u32 v; memcpy(&v, a, 4); return v == w; }
/* a value with distinct random words in every element */
static void fill(void *p, size_t n, u32 *w) { for (size_t i = 0; i < n; i++) { w[i] = 0x3f800000u + (rn() & 0x3ffffff) + (u32)i; if (rn() & 1) w[i] |= 0x80000000u; } memcpy(p, w, 4 * n); }
#define LAYOUT(S, A, N) do { chk++; njudge++; \
  if (sizeof(S) != sizeof(A)) fail(#S, "the struct type does not have the size of " #A); \
  if (ALIGNOF(S) < ALIGNOF(A)) fail(#S, "the struct type is less aligned than " #A); \
  if (sizeof(A) != 4 * N) fail(#A, "the array type does not have " #N " elements"); \
  if (offsetof(S, raw) != 0) fail(#S, "raw does not start the struct"); \
  printf("LAYOUT %s %d %d %d\n", #S, (int)sizeof(S), (int)ALIGNOF(S), (int)ALIGNOF(A)); \
  for (int k_ = 0; k_ < ROUNDS; k_++) { S s, t, v[3]; u32 w[16]; fill(&s, N, w); t = s; v[1] = pass_##S(t); njudge++; \
    if (memcmp(&v[1], w, 4 * N) || memcmp(((const float *)(const void *)v[1].raw), w, 4 * N)) fail(#S, "elements change when the struct is copied or passed by value"); \
    if ((char *)&v[2] - (char *)&v[1] != 4 * N) fail(#S, "arrays of the struct are not contiguous"); \
    { A a; memcpy(a, w, 4 * N); if (memcmp(a, s.raw, 4 * N)) fail(#S, "raw is not the array"); } } } while (0)
/* member M (an lvalue expression on s) is element I of raw */
#define MEM(S, N, M, I) do { chk++; nmember++; for (int k_ = 0; k_ < ROUNDS; k_++) { S s; u32 w[16], x = 0x40000000u + (rn() & 0x7fffff), y; fill(&s, N, w); njudge++; \
    if (!same32(&s.M, w[I])) fail(#S "." #M, "reading the member does not give raw element " #I); \
    if ((char *)&s.M != (char *)&s + 4 * (I)) fail(#S "." #M, "the member is not at raw element " #I); \
    memcpy(&s.M, &x, 4); memcpy(w + (I), &x, 4); if (memcmp(&s, w, 4 * N)) fail(#S "." #M, "writing the member does not write exactly raw element " #I); (void)y; \
    if (sizeof s.M != 4) fail(#S "." #M, "the member is not one element"); } } while (0)
#define SUB(S, N, M, I, T) do { chk++; nmember++; for (int k_ = 0; k_ < ROUNDS; k_++) { S s; u32 w[16]; fill(&s, N, w); T t = s.M; njudge++; \
    if (memcmp(&t, w + (I), sizeof t)) fail(#S "." #M, "the part does not hold raw elements from " #I); \
    u32 q[16]; fill(&t, sizeof t / 4, q); s.M = t; memcpy(w + (I), q, sizeof t); if (memcmp(&s, w, 4 * N)) fail(#S "." #M, "writing the part does not write exactly its raw elements"); } } while (0)
#define PASS(S) static __attribute__((noinline)) S pass_##S(S s) { volatile int z = 0; (void)z; return s; }
PASS(vec2s) PASS(vec3s) PASS(vec4s) PASS(versors) PASS(ivec2s) PASS(ivec3s) PASS(ivec4s) PASS(mat2s) PASS(mat2x3s) PASS(mat2x4s) PASS(mat3s) PASS(mat3x2s) PASS(mat3x4s) PASS(mat4s) PASS(mat4x2s) PASS(mat4x3s)
static int ROUNDS = 20;
static void layout(void) {
  LAYOUT(vec2s, vec2, 2); LAYOUT(vec3s, vec3, 3); LAYOUT(vec4s, vec4, 4); LAYOUT(versors, versor, 4); LAYOUT(ivec2s, ivec2, 2); LAYOUT(ivec3s, ivec3, 3); LAYOUT(ivec4s, ivec4, 4);
  LAYOUT(mat2s, mat2, 4); LAYOUT(mat2x3s, mat2x3, 6); LAYOUT(mat2x4s, mat2x4, 8); LAYOUT(mat3s, mat3, 9); LAYOUT(mat3x2s, mat3x2, 6); LAYOUT(mat3x4s, mat3x4, 12); LAYOUT(mat4s, mat4, 16); LAYOUT(mat4x2s, mat4x2, 8); LAYOUT(mat4x3s, mat4x3, 12);
  for (int i = 0; i < 4; i++) {
    if (i < 2) { MEM(vec2s, 2, raw[i], i); MEM(ivec2s, 2, raw[i], i); SUB(mat2s, 4, col[i], 2 * i, vec2s); SUB(mat2x3s, 6, col[i], 3 * i, vec3s); SUB(mat2x4s, 8, col[i], 4 * i, vec4s); }
    if (i < 3) { MEM(vec3s, 3, raw[i], i); MEM(ivec3s, 3, raw[i], i); SUB(mat3s, 9, col[i], 3 * i, vec3s); SUB(mat3x2s, 6, col[i], 2 * i, vec2s); SUB(mat3x4s, 12, col[i], 4 * i, vec4s); }
    MEM(vec4s, 4, raw[i], i); MEM(versors, 4, raw[i], i); MEM(ivec4s, 4, raw[i], i); SUB(mat4s, 16, col[i], 4 * i, vec4s); SUB(mat4x2s, 8, col[i], 2 * i, vec2s); SUB(mat4x3s, 12, col[i], 3 * i, vec3s);
    for (int j = 0; j < 4; j++) {
      if (i < 2 && j < 2) { MEM(mat2s, 4, raw[i][j], 2 * i + j); MEM(mat2s, 4, col[i].raw[j], 2 * i + j); }
      if (i < 2 && j < 3) MEM(mat2x3s, 6, raw[i][j], 3 * i + j);
      if (i < 2) MEM(mat2x4s, 8, raw[i][j], 4 * i + j);
      if (i < 3 && j < 2) MEM(mat3x2s, 6, raw[i][j], 2 * i + j);
      if (i < 3 && j < 3) { MEM(mat3s, 9, raw[i][j], 3 * i + j); MEM(mat3s, 9, col[i].raw[j], 3 * i + j); }
      if (i < 3) MEM(mat3x4s, 12, raw[i][j], 4 * i + j);
      if (j < 2) MEM(mat4x2s, 8, raw[i][j], 2 * i + j);
      if (j < 3) MEM(mat4x3s, 12, raw[i][j], 3 * i + j);
      MEM(mat4s, 16, raw[i][j], 4 * i + j); MEM(mat4s, 16, col[i].raw[j], 4 * i + j);
    }
  }
#if CGLM_USE_ANONYMOUS_STRUCT
#define V2(S) MEM(S, 2, x, 0); MEM(S, 2, y, 1); MEM(S, 2, r, 0); MEM(S, 2, i, 1); MEM(S, 2, u, 0); MEM(S, 2, v, 1); MEM(S, 2, s, 0); MEM(S, 2, t, 1);
#define V3(S) MEM(S, 3, x, 0); MEM(S, 3, y, 1); MEM(S, 3, z, 2); MEM(S, 3, r, 0); MEM(S, 3, g, 1); MEM(S, 3, b, 2);
#define V4(S) MEM(S, 4, x, 0); MEM(S, 4, y, 1); MEM(S, 4, z, 2); MEM(S, 4, w, 3);
#define C4(S) MEM(S, 4, r, 0); MEM(S, 4, g, 1); MEM(S, 4, b, 2); MEM(S, 4, a, 3);
  V2(vec2s) V2(ivec2s) V3(vec3s) V3(ivec3s) V4(vec4s) C4(vec4s) V4(ivec4s) C4(ivec4s) V4(versors)
  MEM(versors, 4, real, 3); SUB(versors, 4, imag, 0, vec3s); MEM(versors, 4, imag.raw[0], 0); MEM(versors, 4, imag.raw[1], 1); MEM(versors, 4, imag.raw[2], 2);
#define R2(S, N, c, R) MEM(S, N, m##c##0, (c) * R); MEM(S, N, m##c##1, (c) * R + 1);
#define R3(S, N, c, R) R2(S, N, c, R) MEM(S, N, m##c##2, (c) * R + 2);
#define R4(S, N, c, R) R3(S, N, c, R) MEM(S, N, m##c##3, (c) * R + 3);
  R2(mat2s, 4, 0, 2) R2(mat2s, 4, 1, 2) R3(mat2x3s, 6, 0, 3) R3(mat2x3s, 6, 1, 3) R4(mat2x4s, 8, 0, 4) R4(mat2x4s, 8, 1, 4)
  R3(mat3s, 9, 0, 3) R3(mat3s, 9, 1, 3) R3(mat3s, 9, 2, 3) R2(mat3x2s, 6, 0, 2) R2(mat3x2s, 6, 1, 2) R2(mat3x2s, 6, 2, 2) R4(mat3x4s, 12, 0, 4) R4(mat3x4s, 12, 1, 4) R4(mat3x4s, 12, 2, 4)
  R4(mat4s, 16, 0, 4) R4(mat4s, 16, 1, 4) R4(mat4s, 16, 2, 4) R4(mat4s, 16, 3, 4) R2(mat4x2s, 8, 0, 2) R2(mat4x2s, 8, 1, 2) R2(mat4x2s, 8, 2, 2) R2(mat4x2s, 8, 3, 2) R3(mat4x3s, 12, 0, 3) R3(mat4x3s, 12, 1, 3) R3(mat4x3s, 12, 2, 3) R3(mat4x3s, 12, 3, 3)
#endif
}
/* ---------------------------------------------------------------- constants */
static void cf(const char *n, const void *g, int k, const float *w) { chk++; nconst++; njudge += k; if (memcmp(g, w, 4 * (size_t)k)) { const float *f = (const float *)g; char b[256]; int o = snprintf(b, sizeof b, "the constant does not hold its named value, elements:"); for (int i = 0; i < k && o < 200; i++) o += snprintf(b + o, sizeof b - o, " %g", f[i]); fail(n, b); } }
static void ci(const char *n, const void *g, int k, const int *w) { chk++; nconst++; njudge += k; if (memcmp(g, w, 4 * (size_t)k)) fail(n, "the constant does not hold its named value"); }
static void cd(const char *n, double g, long double w) { chk++; nconst++; njudge++; if (!(fabsl((long double)g - w) <= 1.2e-16L * fabsl(w))) { char b[96]; snprintf(b, sizeof b, "the constant is %.17g, its name means %.17Lg", g, w); fail(n, b); } }
static void cff(const char *n, float g, long double w) { chk++; nconst++; njudge++; if (!(fabsl((long double)g - w) <= 6.0e-8L * fabsl(w))) { char b[96]; snprintf(b, sizeof b, "the constant is %.9g, its name means %.17Lg", g, w); fail(n, b); } }
static void ck(const char *n, long g, long w) { chk++; nconst++; njudge++; if (g != w) { char b[96]; snprintf(b, sizeof b, "is %ld, must be %ld", g, w); fail(n, b); } }
static const float Z[16] = {0}, O[16] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, BLK[4] = {0, 0, 0, 1}, I2[4] = {1, 0, 0, 1}, I3[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, I4[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, UX[3] = {1, 0, 0}, UY[3] = {0, 1, 0}, UZ[3] = {0, 0, 1}, FW[3] = {0, 0, -1};
static const int ZI[4] = {0}, OI[4] = {1, 1, 1, 1};
#define INITF(T, X, N, W) do { T v_ = X; cf(#X, v_, N, W); } while (0)
#define INITS(T, X, N, W) do { T v_ = X; cf(#X, &v_, N, W); } while (0)
#define INITI(T, X, N, W) do { T v_ = X; ci(#X, v_, N, W); } while (0)
#define INITIS(T, X, N, W) do { T v_ = X; ci(#X, &v_, N, W); } while (0)
static void constants(void) {
  INITF(vec2, GLM_VEC2_ONE_INIT, 2, O); INITF(vec2, GLM_VEC2_ZERO_INIT, 2, Z); INITF(vec3, GLM_VEC3_ONE_INIT, 3, O); INITF(vec3, GLM_VEC3_ZERO_INIT, 3, Z);
  INITF(vec4, GLM_VEC4_ONE_INIT, 4, O); INITF(vec4, GLM_VEC4_ZERO_INIT, 4, Z); INITF(vec4, GLM_VEC4_BLACK_INIT, 4, BLK); INITF(versor, GLM_QUAT_IDENTITY_INIT, 4, BLK);
  INITI(ivec2, GLM_IVEC2_ONE_INIT, 2, OI); INITI(ivec2, GLM_IVEC2_ZERO_INIT, 2, ZI); INITI(ivec3, GLM_IVEC3_ONE_INIT, 3, OI); INITI(ivec3, GLM_IVEC3_ZERO_INIT, 3, ZI); INITI(ivec4, GLM_IVEC4_ONE_INIT, 4, OI); INITI(ivec4, GLM_IVEC4_ZERO_INIT, 4, ZI);
  INITF(mat2, GLM_MAT2_IDENTITY_INIT, 4, I2); INITF(mat2, GLM_MAT2_ZERO_INIT, 4, Z); INITF(mat3, GLM_MAT3_IDENTITY_INIT, 9, I3); INITF(mat3, GLM_MAT3_ZERO_INIT, 9, Z); INITF(mat4, GLM_MAT4_IDENTITY_INIT, 16, I4); INITF(mat4, GLM_MAT4_ZERO_INIT, 16, Z);
  INITF(mat2x3, GLM_MAT2X3_ZERO_INIT, 6, Z); INITF(mat2x4, GLM_MAT2X4_ZERO_INIT, 8, Z); INITF(mat3x2, GLM_MAT3X2_ZERO_INIT, 6, Z); INITF(mat3x4, GLM_MAT3X4_ZERO_INIT, 12, Z); INITF(mat4x2, GLM_MAT4X2_ZERO_INIT, 8, Z); INITF(mat4x3, GLM_MAT4X3_ZERO_INIT, 12, Z);
  INITF(mat2x3, GLM_MAT2X3_ZERO, 6, Z); INITF(mat2x4, GLM_MAT2X4_ZERO, 8, Z); INITF(mat3x2, GLM_MAT3X2_ZERO, 6, Z); INITF(mat3x4, GLM_MAT3X4_ZERO, 12, Z); INITF(mat4x2, GLM_MAT4X2_ZERO, 8, Z); INITF(mat4x3, GLM_MAT4X3_ZERO, 12, Z);
  { static const float bz[16] = {-1, 3, -3, 1, 3, -6, 3, 0, -3, 3, 0, 0, 1, 0, 0, 0}, hm[16] = {2, -3, 0, 1, -2, 3, 0, 0, 1, -2, 1, 0, 1, -1, 0, 0}; INITF(mat4, GLM_BEZIER_MAT_INIT, 16, bz); INITF(mat4, GLM_HERMITE_MAT_INIT, 16, hm);
#ifndef __cplusplus
    cf("GLM_BEZIER_MAT", GLM_BEZIER_MAT, 16, bz); cf("GLM_HERMITE_MAT", GLM_HERMITE_MAT, 16, hm);
#endif
  }
  INITS(vec2s, GLMS_VEC2_ONE_INIT, 2, O); INITS(vec2s, GLMS_VEC2_ZERO_INIT, 2, Z); INITS(vec3s, GLMS_VEC3_ONE_INIT, 3, O); INITS(vec3s, GLMS_VEC3_ZERO_INIT, 3, Z); INITS(vec4s, GLMS_VEC4_ONE_INIT, 4, O); INITS(vec4s, GLMS_VEC4_ZERO_INIT, 4, Z); INITS(vec4s, GLMS_VEC4_BLACK_INIT, 4, BLK); INITS(versors, GLMS_QUAT_IDENTITY_INIT, 4, BLK);
  INITIS(ivec2s, GLMS_IVEC2_ONE_INIT, 2, OI); INITIS(ivec2s, GLMS_IVEC2_ZERO_INIT, 2, ZI); INITIS(ivec3s, GLMS_IVEC3_ONE_INIT, 3, OI); INITIS(ivec3s, GLMS_IVEC3_ZERO_INIT, 3, ZI); INITIS(ivec4s, GLMS_IVEC4_ONE_INIT, 4, OI); INITIS(ivec4s, GLMS_IVEC4_ZERO_INIT, 4, ZI);
  INITS(mat2s, GLMS_MAT2_IDENTITY_INIT, 4, I2); INITS(mat2s, GLMS_MAT2_ZERO_INIT, 4, Z); INITS(mat3s, GLMS_MAT3_IDENTITY_INIT, 9, I3); INITS(mat3s, GLMS_MAT3_ZERO_INIT, 9, Z); INITS(mat4s, GLMS_MAT4_IDENTITY_INIT, 16, I4); INITS(mat4s, GLMS_MAT4_ZERO_INIT, 16, Z);
  INITS(mat2x3s, GLMS_MAT2X3_ZERO_INIT, 6, Z); INITS(mat2x4s, GLMS_MAT2X4_ZERO_INIT, 8, Z); INITS(mat3x2s, GLMS_MAT3X2_ZERO_INIT, 6, Z); INITS(mat3x4s, GLMS_MAT3X4_ZERO_INIT, 12, Z); INITS(mat4x2s, GLMS_MAT4X2_ZERO_INIT, 8, Z); INITS(mat4x3s, GLMS_MAT4X3_ZERO_INIT, 12, Z);
#ifndef __cplusplus
  cf("GLM_VEC2_ONE", GLM_VEC2_ONE, 2, O); cf("GLM_VEC2_ZERO", GLM_VEC2_ZERO, 2, Z); cf("GLM_VEC3_ONE", GLM_VEC3_ONE, 3, O); cf("GLM_VEC3_ZERO", GLM_VEC3_ZERO, 3, Z); cf("GLM_VEC4_ONE", GLM_VEC4_ONE, 4, O); cf("GLM_VEC4_ZERO", GLM_VEC4_ZERO, 4, Z); cf("GLM_VEC4_BLACK", GLM_VEC4_BLACK, 4, BLK); cf("GLM_QUAT_IDENTITY", GLM_QUAT_IDENTITY, 4, BLK);
  ci("GLM_IVEC2_ONE", GLM_IVEC2_ONE, 2, OI); ci("GLM_IVEC2_ZERO", GLM_IVEC2_ZERO, 2, ZI); ci("GLM_IVEC3_ONE", GLM_IVEC3_ONE, 3, OI); ci("GLM_IVEC3_ZERO", GLM_IVEC3_ZERO, 3, ZI); ci("GLM_IVEC4_ONE", GLM_IVEC4_ONE, 4, OI); ci("GLM_IVEC4_ZERO", GLM_IVEC4_ZERO, 4, ZI);
  cf("GLM_MAT2_IDENTITY", GLM_MAT2_IDENTITY, 4, I2); cf("GLM_MAT2_ZERO", GLM_MAT2_ZERO, 4, Z); cf("GLM_MAT3_IDENTITY", GLM_MAT3_IDENTITY, 9, I3); cf("GLM_MAT3_ZERO", GLM_MAT3_ZERO, 9, Z); cf("GLM_MAT4_IDENTITY", GLM_MAT4_IDENTITY, 16, I4); cf("GLM_MAT4_ZERO", GLM_MAT4_ZERO, 16, Z);
  cf("GLM_YUP", GLM_YUP, 3, UY); cf("GLM_ZUP", GLM_ZUP, 3, UZ); cf("GLM_XUP", GLM_XUP, 3, UX); cf("GLM_FORWARD", GLM_FORWARD, 3, FW);
  INITS(vec2s, GLMS_VEC2_ONE, 2, O); INITS(vec2s, GLMS_VEC2_ZERO, 2, Z); INITS(vec3s, GLMS_VEC3_ONE, 3, O); INITS(vec3s, GLMS_VEC3_ZERO, 3, Z); INITS(vec4s, GLMS_VEC4_ONE, 4, O); INITS(vec4s, GLMS_VEC4_ZERO, 4, Z); INITS(vec4s, GLMS_VEC4_BLACK, 4, BLK); INITS(versors, GLMS_QUAT_IDENTITY, 4, BLK);
  INITIS(ivec2s, GLMS_IVEC2_ONE, 2, OI); INITIS(ivec2s, GLMS_IVEC2_ZERO, 2, ZI); INITIS(ivec3s, GLMS_IVEC3_ONE, 3, OI); INITIS(ivec3s, GLMS_IVEC3_ZERO, 3, ZI); INITIS(ivec4s, GLMS_IVEC4_ONE, 4, OI); INITIS(ivec4s, GLMS_IVEC4_ZERO, 4, ZI);
  INITS(mat2s, GLMS_MAT2_IDENTITY, 4, I2); INITS(mat2s, GLMS_MAT2_ZERO, 4, Z); INITS(mat3s, GLMS_MAT3_IDENTITY, 9, I3); INITS(mat3s, GLMS_MAT3_ZERO, 9, Z); INITS(mat4s, GLMS_MAT4_IDENTITY, 16, I4); INITS(mat4s, GLMS_MAT4_ZERO, 16, Z);
  INITS(mat2x3s, GLMS_MAT2X3_ZERO, 6, Z); INITS(mat2x4s, GLMS_MAT2X4_ZERO, 8, Z); INITS(mat3x2s, GLMS_MAT3X2_ZERO, 6, Z); INITS(mat3x4s, GLMS_MAT3X4_ZERO, 12, Z); INITS(mat4x2s, GLMS_MAT4X2_ZERO, 8, Z); INITS(mat4x3s, GLMS_MAT4X3_ZERO, 12, Z);
  INITS(vec3s, GLMS_YUP, 3, UY); INITS(vec3s, GLMS_ZUP, 3, UZ); INITS(vec3s, GLMS_XUP, 3, UX);
#endif
  { static const float cs[8][4] = {{-1, -1, -1, 1}, {-1, 1, -1, 1}, {1, 1, -1, 1}, {1, -1, -1, 1}, {-1, -1, 1, 1}, {-1, 1, 1, 1}, {1, 1, 1, 1}, {1, -1, 1, 1}};
#define CS(K) { vec4 v_ = GLM_CSCOORD_##K; cf("GLM_CSCOORD_" #K, v_, 4, cs[GLM_##K]); vec4s w_ = {GLMS_CSCOORD_##K}; cf("GLMS_CSCOORD_" #K, &w_, 4, cs[GLM_##K]); }
    CS(LBN) CS(LTN) CS(RTN) CS(RBN) CS(LBF) CS(LTF) CS(RTF) CS(RBF) }
  ck("GLM_LBN", GLM_LBN, 0); ck("GLM_LTN", GLM_LTN, 1); ck("GLM_RTN", GLM_RTN, 2); ck("GLM_RBN", GLM_RBN, 3); ck("GLM_LBF", GLM_LBF, 4); ck("GLM_LTF", GLM_LTF, 5); ck("GLM_RTF", GLM_RTF, 6); ck("GLM_RBF", GLM_RBF, 7);
  ck("GLM_LEFT", GLM_LEFT, 0); ck("GLM_RIGHT", GLM_RIGHT, 1); ck("GLM_BOTTOM", GLM_BOTTOM, 2); ck("GLM_TOP", GLM_TOP, 3); ck("GLM_NEAR", GLM_NEAR, 4); ck("GLM_FAR", GLM_FAR, 5);
  { long double pi = atanl(1.0L) * 4, e = expl(1.0L);
#define K(N, W) cd("GLM_" #N, GLM_##N, W); cff("GLM_" #N "f", GLM_##N##f, W); ck("sizeof GLM_" #N "f", sizeof(GLM_##N##f), sizeof(float));
    K(E, e) K(LOG2E, log2l(e)) K(LOG10E, log10l(e)) K(LN2, logl(2)) K(LN10, logl(10)) K(PI, pi) K(PI_2, pi / 2) K(PI_4, pi / 4) K(1_PI, 1 / pi) K(2_PI, 2 / pi) K(TAU, 2 * pi) K(TAU_2, pi) K(TAU_4, pi / 2) K(1_TAU, 1 / (2 * pi)) K(2_TAU, 1 / pi) K(2_SQRTPI, 2 / sqrtl(pi)) K(SQRT2, sqrtl(2)) K(SQRT1_2, sqrtl(.5L))
    cd("GLM_SQRTTAU", GLM_SQRTTAU, sqrtl(2 * pi)); cff("CGLM_PI", CGLM_PI, pi); cff("CGLM_PI_2", CGLM_PI_2, pi / 2); cff("CGLM_PI_4", CGLM_PI_4, pi / 4); }
#if defined(EPSDEF)
  cff("GLM_FLT_EPSILON", GLM_FLT_EPSILON, EPSDEF);
#endif
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++) for (int d = 0; d < 4; d++) {
    vec4 v = {11, 22, 33, 44}, o; const float w[4] = {v[d], v[c], v[b], v[a]}; glm_vec4_swizzle(v, GLM_SHUFFLE4(a, b, c, d), o); cf("GLM_SHUFFLE4", o, 4, w);
    if (a == 0 && b < 3 && c < 3 && d < 3) { vec3 x = {5, 6, 7}, y; const float z[3] = {x[d], x[c], x[b]}; glm_vec3_swizzle(x, GLM_SHUFFLE3(b, c, d), y); cf("GLM_SHUFFLE3", y, 3, z); }
    if (a == 0 && b == 0 && c < 2 && d < 2) { vec2 x = {5, 6}, y; const float z[2] = {x[d], x[c]}; glm_vec2_swizzle(x, GLM_SHUFFLE2(c, d), y); cf("GLM_SHUFFLE2", y, 2, z); }
  }
#define SW4(M, A, B, C, D) { vec4 v = {1, 2, 3, 4}, o; const float w[4] = {v[A], v[B], v[C], v[D]}; glm_vec4_swizzle(v, M, o); cf(#M, o, 4, w); }
#define SW3(M, A, B, C) { vec3 v = {1, 2, 3}, o; const float w[3] = {v[A], v[B], v[C]}; glm_vec3_swizzle(v, M, o); cf(#M, o, 3, w); }
  SW4(GLM_XXXX, 0, 0, 0, 0) SW4(GLM_YYYY, 1, 1, 1, 1) SW4(GLM_ZZZZ, 2, 2, 2, 2) SW4(GLM_WWWW, 3, 3, 3, 3) SW4(GLM_WZYX, 3, 2, 1, 0) SW3(GLM_XXX, 0, 0, 0) SW3(GLM_YYY, 1, 1, 1) SW3(GLM_ZZZ, 2, 2, 2) SW3(GLM_ZYX, 2, 1, 0)
  { int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 2, 0}, {1, 0, 2}, {2, 0, 1}, {2, 1, 0}}; glm_euler_seq q[6] = {GLM_EULER_XYZ, GLM_EULER_XZY, GLM_EULER_YZX, GLM_EULER_YXZ, GLM_EULER_ZXY, GLM_EULER_ZYX}; for (int i = 0; i < 6; i++) { ck("glm_euler_seq", (long)q[i], (long)glm_euler_order(p[i])); ck("glm_euler_seq", (long)q[i], p[i][0] | p[i][1] << 2 | p[i][2] << 4); } }
  { long lh = 0, zo = 0;
#ifdef CGLM_FORCE_LEFT_HANDED
    lh = 1;
#endif
#ifdef CGLM_FORCE_DEPTH_ZERO_TO_ONE
    zo = 1;
#endif
    ck("CGLM_CONFIG_CLIP_CONTROL handedness", (CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_LH_BIT) != 0, lh); ck("CGLM_CONFIG_CLIP_CONTROL handedness", (CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_RH_BIT) != 0, !lh);
    ck("CGLM_CONFIG_CLIP_CONTROL depth", (CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_ZO_BIT) != 0, zo); ck("CGLM_CONFIG_CLIP_CONTROL depth", (CGLM_CONFIG_CLIP_CONTROL & CGLM_CLIP_CONTROL_NO_BIT) != 0, !zo);
    ck("CGLM_CLIP_CONTROL_LH_ZO", CGLM_CLIP_CONTROL_LH_ZO, CGLM_CLIP_CONTROL_LH_BIT | CGLM_CLIP_CONTROL_ZO_BIT); ck("CGLM_CLIP_CONTROL_LH_NO", CGLM_CLIP_CONTROL_LH_NO, CGLM_CLIP_CONTROL_LH_BIT | CGLM_CLIP_CONTROL_NO_BIT); ck("CGLM_CLIP_CONTROL_RH_ZO", CGLM_CLIP_CONTROL_RH_ZO, CGLM_CLIP_CONTROL_RH_BIT | CGLM_CLIP_CONTROL_ZO_BIT); ck("CGLM_CLIP_CONTROL_RH_NO", CGLM_CLIP_CONTROL_RH_NO, CGLM_CLIP_CONTROL_RH_BIT | CGLM_CLIP_CONTROL_NO_BIT); }
  for (int i = 0; i < ROUNDS * 10; i++) { int a = (int)(rn() % 21) - 10, b = (int)(rn() % 21) - 10; ck("GLM_MIN", GLM_MIN(a + 1, b - 1), a + 1 < b - 1 ? a + 1 : b - 1); ck("GLM_MAX", GLM_MAX(a ^ 1, b ^ 2) * 2, ((a ^ 1) > (b ^ 2) ? (a ^ 1) : (b ^ 2)) * 2); }
}
/* ---------------------------------------------------------------- pack, unpack, narrowing constructors */
#define PK(T, N, F) do { for (size_t len = 0; len < 10; len++) for (int k_ = 0; k_ < 4; k_++) { T##s d[12], s2[12]; T s[12], b[12]; u32 w[48]; chk++; njudge++; memset(d, 0xA5, sizeof d); memset(b, 0xA5, sizeof b); \
    fill(s, N * 12, w); glms_##F##_(pack)(d, s, len); if (memcmp(d, w, len * 4 * N)) fail("glms_" #F "_pack", "packed elements differ from the array elements"); \
    for (size_t q = len * 4 * N; q < sizeof d; q++) if (((unsigned char *)d)[q] != 0xA5) { fail("glms_" #F "_pack", "wrote beyond len elements"); break; } if (memcmp(s, w, sizeof s)) fail("glms_" #F "_pack", "the source changed"); \
    fill(s2, N * 12, w); glms_##F##_(unpack)(b, s2, len); if (memcmp(b, w, len * 4 * N)) fail("glms_" #F "_unpack", "unpacked elements differ from the struct elements"); \
    for (size_t q = len * 4 * N; q < sizeof b; q++) if (((unsigned char *)b)[q] != 0xA5) { fail("glms_" #F "_unpack", "wrote beyond len elements"); break; } if (memcmp(s2, w, sizeof s2)) fail("glms_" #F "_unpack", "the source changed"); } } while (0)
static void packing(void) {
  PK(vec2, 2, vec2); PK(vec3, 3, vec3); PK(vec4, 4, vec4); PK(ivec2, 2, ivec2); PK(ivec3, 3, ivec3); PK(ivec4, 4, ivec4);
  for (int i = 0; i < ROUNDS; i++) { u32 w[4], v[4]; float x; vec4s a4; vec3s a3; vec2s r2; vec3s r3; vec4s r4; ivec4s i4; ivec3s i3; ivec2s j2; ivec3s j3; ivec4s j4; int y;
    chk++; njudge += 6; fill(&a4, 4, w); r3 = glms_vec3(a4); if (memcmp(&r3, w, 12)) fail("glms_vec3", "does not keep the first three elements");
    fill(&a3, 3, w); r2 = glms_vec2(a3); if (memcmp(&r2, w, 8)) fail("glms_vec2", "does not keep the first two elements");
    fill(&x, 1, v); r4 = glms_vec4(a3, x); if (memcmp(&r4, w, 12) || !same32((char *)&r4 + 12, v[0])) fail("glms_vec4", "is not the vector with the given last element");
    fill(&i4, 4, w); j3 = glms_ivec3(i4); if (memcmp(&j3, w, 12)) fail("glms_ivec3", "does not keep the first three elements");
    fill(&i3, 3, w); j2 = glms_ivec2(i3.raw); if (memcmp(&j2, w, 8)) fail("glms_ivec2", "does not keep the first two elements");
    fill(&y, 1, v); j4 = glms_ivec4(i3, y); if (memcmp(&j4, w, 12) || !same32((char *)&j4 + 12, v[0])) fail("glms_ivec4", "is not the vector with the given last element"); }
}
int main(int argc, char **argv) {
  st ^= strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ull; ROUNDS = atoi(argv[1]); rn();
  layout(); constants(); packing();
  printf("COUNT judgements=%ld members=%ld constants=%ld layout_calls=%ld distinct=%ld\n", njudge, nmember, nconst, njudge, (long)chk);
  if (!nf) printf("OK\n");
  return 0;
}
