/* Scalar stand-in for the WebAssembly SIMD intrinsics (the same code is also built with the
   real wasm compiler and run in node; this stand-in lets the in-process monitors watch it). */
#ifndef VT_WASM_SIMD128_H
#define VT_WASM_SIMD128_H
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef int32_t v128_t __attribute__((vector_size(16), aligned(16)));
typedef float vt_f4 __attribute__((vector_size(16)));
typedef int32_t vt_i4 __attribute__((vector_size(16)));
#define VT_I static inline __attribute__((always_inline))
#define VT_F(x) ((vt_f4)(x))
#define VT_V(x) ((v128_t)(x))
VT_I v128_t wasm_v128_load(const void *p) { v128_t r; memcpy(&r, p, 16); return r; }
VT_I v128_t wasm_v128_load32_zero(const void *p) { v128_t r = {0, 0, 0, 0}; memcpy(&r, p, 4); return r; }
VT_I v128_t wasm_v128_load64_zero(const void *p) { v128_t r = {0, 0, 0, 0}; memcpy(&r, p, 8); return r; }
VT_I v128_t wasm_v128_load32_splat(const void *p) { int32_t x; memcpy(&x, p, 4); v128_t r = {x, x, x, x}; return r; }
VT_I void wasm_v128_store(void *p, v128_t a) { memcpy(p, &a, 16); }
VT_I void vt_st32(void *p, v128_t a, int l) { int32_t x = a[l]; memcpy(p, &x, 4); }
VT_I void vt_st64(void *p, v128_t a, int l) { memcpy(p, (const char *)&a + 8 * l, 8); }
#define wasm_v128_store32_lane(p, a, l) vt_st32(p, a, l)
#define wasm_v128_store64_lane(p, a, l) vt_st64(p, a, l)
VT_I v128_t vt_ld32(const void *p, v128_t a, int l) { memcpy((char *)&a + 4 * l, p, 4); return a; }
VT_I v128_t vt_ld64(const void *p, v128_t a, int l) { memcpy((char *)&a + 8 * l, p, 8); return a; }
#define wasm_v128_load32_lane(p, a, l) vt_ld32(p, a, l)
#define wasm_v128_load64_lane(p, a, l) vt_ld64(p, a, l)
VT_I v128_t wasm_f32x4_splat(float x) { vt_f4 r = {x, x, x, x}; return VT_V(r); }
VT_I v128_t wasm_i32x4_splat(int32_t x) { v128_t r = {x, x, x, x}; return r; }
VT_I v128_t wasm_f32x4_make(float a, float b, float c, float d) { vt_f4 r = {a, b, c, d}; return VT_V(r); }
#define wasm_f32x4_const(a, b, c, d) wasm_f32x4_make(a, b, c, d)
#define wasm_f32x4_const_splat(a) wasm_f32x4_splat(a)
VT_I v128_t wasm_i32x4_make(int32_t a, int32_t b, int32_t c, int32_t d) { v128_t r = {a, b, c, d}; return r; }
#define wasm_i32x4_const(a, b, c, d) wasm_i32x4_make((int32_t)(a), (int32_t)(b), (int32_t)(c), (int32_t)(d))
#define wasm_i32x4_const_splat(a) wasm_i32x4_splat((int32_t)(a))
VT_I v128_t wasm_f32x4_add(v128_t a, v128_t b) { return VT_V(VT_F(a) + VT_F(b)); }
VT_I v128_t wasm_f32x4_sub(v128_t a, v128_t b) { return VT_V(VT_F(a) - VT_F(b)); }
VT_I v128_t wasm_f32x4_mul(v128_t a, v128_t b) { return VT_V(VT_F(a) * VT_F(b)); }
VT_I v128_t wasm_f32x4_div(v128_t a, v128_t b) { return VT_V(VT_F(a) / VT_F(b)); }
VT_I v128_t wasm_f32x4_neg(v128_t a) { return a ^ wasm_i32x4_splat((int32_t)0x80000000u); }
VT_I v128_t wasm_f32x4_abs(v128_t a) { return a & wasm_i32x4_splat(0x7fffffff); }
VT_I v128_t wasm_f32x4_sqrt(v128_t a) { vt_f4 r, x = VT_F(a); for (int i = 0; i < 4; i++) r[i] = sqrtf(x[i]); return VT_V(r); }
VT_I v128_t wasm_f32x4_floor(v128_t a) { vt_f4 r, x = VT_F(a); for (int i = 0; i < 4; i++) r[i] = floorf(x[i]); return VT_V(r); }
VT_I v128_t wasm_f32x4_pmin(v128_t a, v128_t b) { vt_f4 r, x = VT_F(a), y = VT_F(b); for (int i = 0; i < 4; i++) r[i] = y[i] < x[i] ? y[i] : x[i]; return VT_V(r); }
VT_I v128_t wasm_f32x4_pmax(v128_t a, v128_t b) { vt_f4 r, x = VT_F(a), y = VT_F(b); for (int i = 0; i < 4; i++) r[i] = x[i] < y[i] ? y[i] : x[i]; return VT_V(r); }
VT_I v128_t wasm_f32x4_min(v128_t a, v128_t b) { vt_f4 r, x = VT_F(a), y = VT_F(b); for (int i = 0; i < 4; i++) r[i] = x[i] != x[i] || y[i] != y[i] ? __builtin_nanf("") : x[i] == y[i] ? (__builtin_signbit(x[i]) ? x[i] : y[i]) : x[i] < y[i] ? x[i] : y[i]; return VT_V(r); }
VT_I v128_t wasm_f32x4_max(v128_t a, v128_t b) { vt_f4 r, x = VT_F(a), y = VT_F(b); for (int i = 0; i < 4; i++) r[i] = x[i] != x[i] || y[i] != y[i] ? __builtin_nanf("") : x[i] == y[i] ? (__builtin_signbit(x[i]) ? y[i] : x[i]) : x[i] > y[i] ? x[i] : y[i]; return VT_V(r); }
VT_I v128_t wasm_f32x4_lt(v128_t a, v128_t b) { return (v128_t)(VT_F(a) < VT_F(b)); }
VT_I v128_t wasm_f32x4_le(v128_t a, v128_t b) { return (v128_t)(VT_F(a) <= VT_F(b)); }
VT_I v128_t wasm_f32x4_gt(v128_t a, v128_t b) { return (v128_t)(VT_F(a) > VT_F(b)); }
VT_I v128_t wasm_f32x4_ge(v128_t a, v128_t b) { return (v128_t)(VT_F(a) >= VT_F(b)); }
VT_I v128_t wasm_f32x4_eq(v128_t a, v128_t b) { return (v128_t)(VT_F(a) == VT_F(b)); }
VT_I v128_t wasm_v128_xor(v128_t a, v128_t b) { return a ^ b; }
VT_I v128_t wasm_v128_and(v128_t a, v128_t b) { return a & b; }
VT_I v128_t wasm_v128_or(v128_t a, v128_t b) { return a | b; }
VT_I v128_t wasm_v128_not(v128_t a) { return ~a; }
VT_I v128_t wasm_v128_andnot(v128_t a, v128_t b) { return a & ~b; }
VT_I v128_t wasm_v128_bitselect(v128_t a, v128_t b, v128_t m) { return (a & m) | (b & ~m); }
VT_I float vt_ex(v128_t a, int l) { vt_f4 x = VT_F(a); return x[l]; }
VT_I v128_t vt_rep(v128_t a, int l, float f) { vt_f4 x = VT_F(a); x[l] = f; return VT_V(x); }
#define wasm_f32x4_extract_lane(a, l) vt_ex(a, l)
#define wasm_f32x4_replace_lane(a, l, f) vt_rep(a, l, f)
#define wasm_i32x4_extract_lane(a, l) ((a)[l])
VT_I v128_t vt_shuf(v128_t a, v128_t b, int i, int j, int k, int l) { v128_t r = {i < 4 ? a[i & 3] : b[i & 3], j < 4 ? a[j & 3] : b[j & 3], k < 4 ? a[k & 3] : b[k & 3], l < 4 ? a[l & 3] : b[l & 3]}; return r; }
#define wasm_i32x4_shuffle(a, b, i, j, k, l) vt_shuf(a, b, i, j, k, l)
#endif
