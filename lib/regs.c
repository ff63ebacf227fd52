/* Judges every register-level helper (glmm_*) of the instruction set selected by the build, lane by
   lane, against its arithmetic definition in double precision.  Freestanding enough for WebAssembly:
   the host supplies report() there. */
#include <cglm/cglm.h>
typedef unsigned int u32; typedef unsigned long long u64;
#ifdef __wasm__
#ifndef WASMSH
#define FREESTANDING 1
#endif
#endif
#ifdef FREESTANDING
__attribute__((import_module("env"), import_name("report"))) void report_(const char *fn, int c, const double *v, int n, const char *why);
__attribute__((import_module("env"), import_name("count"))) void count_(const char *fn, int n);
static int nfail;
static void fail(const char *fn, long c, const double *v, int n, const char *why) { nfail++; report_(fn, (int)c, v, n, why); }
#define SQRT __builtin_sqrt
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#define SQRT sqrt
static int nfail;
static void fail(const char *fn, long c, const double *v, int n, const char *why) {
  if (nfail++ > 20) return;
  printf("FAIL fn=%s case=%ld why=%s; values", fn, c, why); for (int i = 0; i < n; i++) printf(" %.9g", v[i]); printf("\n");
}
#endif
static u64 st; static u32 rn(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (u32)(st >> 20); }
static float bits(u32 u) { float f; __builtin_memcpy(&f, &u, 4); return f; }
static u32 fb(float f) { u32 u; __builtin_memcpy(&u, &f, 4); return u; }
static int isn(float f) { return (fb(f) & 0x7fffffff) > 0x7f800000; }
static int fin(float f) { return (fb(f) & 0x7f800000) != 0x7f800000; }
static float gen(int mode) {
  static const u32 sp[] = {0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc12345, 0x3f800000, 0xbf800000, 0x34000000, 0x4b000000, 0xcb000001};
  u32 r = rn();
  switch (mode) {
    case 0: return (float)((int)(r % 41) - 20);
    case 1: return (float)((int)(r % 2000001) - 1000000) * 1e-5f;
    case 2: return bits((r & 0x807fffff) | ((127 - 30 + (rn() % 61)) << 23));
    case 3: { u32 u = r ^ (rn() << 9); return bits(u); }
    default: return r & 64 ? bits(sp[(r >> 8) % (sizeof sp / 4)]) : (float)((int)(r % 2001) - 1000) * .01f;
  }
}
static double absd(double x) { return x < 0 ? -x : x; }
#define EPS 5.97e-8
#define TINY 1.5e-45
#define BIG 1e38
typedef struct { const char *n; long judged, skipped; } Cnt;
static Cnt cnt[96]; static int ncnt;
static Cnt *C(const char *n) { for (int i = 0; i < ncnt; i++) { const char *a = cnt[i].n, *b = n; while (*a && *a == *b) a++, b++; if (*a == *b) return &cnt[i]; } cnt[ncnt].n = n; return &cnt[ncnt++]; }
#define CN(name) ({ static Cnt *c_; if (!c_) c_ = C(name); c_; })

static void get(glmm_128 r, float o[4]) { __builtin_memcpy(o, &r, 16); }
static glmm_128 mk(const float v[4]) { glmm_128 r; __builtin_memcpy(&r, v, 16); return r; }
static void near(Cnt *k, long c, float got, double want, double err, const float *in, int n) {
  double d[26]; k->judged++;
  if (fin(got) && absd((double)got - want) <= err) return;
  for (int i = 0; i < n && i < 20; i++) d[i] = in[i]; d[n] = got; d[n + 1] = want; d[n + 2] = err;
  fail(k->n, c, d, n + 3, "the result is not the defined value (inputs, got, expected, allowed error)");
}
static void same(Cnt *k, long c, u32 got, u32 want, const float *in, int n) {
  double d[26]; k->judged++;
  if (got == want) return;
  for (int i = 0; i < n && i < 20; i++) d[i] = in[i]; d[n] = bits(got); d[n + 1] = bits(want);
  fail(k->n, c, d, n + 2, "the lane does not hold the defined element (inputs, got, expected)");
}
static int allfin(const float *v, int n) { for (int i = 0; i < n; i++) if (!fin(v[i]) || absd(v[i]) > 1e30) return 0; return 1; }

#if defined(CGLM_SIMD_x86) || defined(CGLM_SIMD_WASM)
#define HAVE_SHUF 1
#define S1(z, y, x, w) { float o[4]; get(glmm_shuff1(mk(a), z, y, x, w), o); Cnt *k = CN("glmm_shuff1"); same(k, c, fb(o[0]), fb(a[w]), a, 4); same(k, c, fb(o[1]), fb(a[x]), a, 4); same(k, c, fb(o[2]), fb(a[y]), a, 4); same(k, c, fb(o[3]), fb(a[z]), a, 4); }
#define S2(z, y, x) S1(z, y, x, 0) S1(z, y, x, 1) S1(z, y, x, 2) S1(z, y, x, 3)
#define S3(z, y) S2(z, y, 0) S2(z, y, 1) S2(z, y, 2) S2(z, y, 3)
#define S4(z) S3(z, 0) S3(z, 1) S3(z, 2) S3(z, 3)
static __attribute__((noinline)) void shuffles(const float a[4], long c) { S4(0) S4(1) S4(2) S4(3) }
#endif
#define LANE1(NAME, EXPR, WANT) { float o[4]; get(EXPR, o); Cnt *k = CN(NAME); for (int i = 0; i < 4; i++) same(k, c, fb(o[i]), WANT, a, 4); }
#define LANE4(NAME, EXPR, W0, W1, W2, W3) { float o[4]; get(EXPR, o); Cnt *k = CN(NAME); float in[8]; for (int i = 0; i < 4; i++) in[i] = a[i], in[4 + i] = b[i]; same(k, c, fb(o[0]), fb(W0), in, 8); same(k, c, fb(o[1]), fb(W1), in, 8); same(k, c, fb(o[2]), fb(W2), in, 8); same(k, c, fb(o[3]), fb(W3), in, 8); }
#define FM(NAME, N, EXPR, SA, SC) { float o[N]; EXPR; Cnt *k = CN(NAME); for (int i = 0; i < N; i++) { float in[3] = {A[i], B[i], D[i]}; double p = (double)A[i] * B[i], w = SA p SC D[i]; \
  if (!fin(A[i]) || !fin(B[i]) || !fin(D[i]) || absd(p) > BIG || absd(w) > BIG) { k->skipped++; continue; } near(k, c, o[i], w, EPS * (absd(p) + absd(w)) * 1.01 + 2 * TINY, in, 3); } }

static unsigned char *page;
/* a place for n floats ending exactly where memory ends (native builds) at float alignment only */
static float *edge(int n, int al) { return (float *)(void *)(page - n * 4 - al); }

static void one(long c, u64 seed) {
  float A[8], B[8], D[8], *a = A, *b = B, *d = D; int mode;
  st = seed * 0x9E3779B97F4A7C15ull + (u64)c * 0xD1B54A32D192ED03ull + 0x1234567; for (int i = 0; i < 4; i++) rn();
  mode = rn() % 5;
  for (int i = 0; i < 8; i++) A[i] = gen(mode), B[i] = gen(rn() & 1 ? mode : (int)(rn() % 5)), D[i] = gen(rn() & 3 ? mode : 3);
  if (rn() % 3 == 0) { int l = rn() & 3; D[l] = -A[l] * B[l]; D[l + 4] = A[l + 4] * B[l + 4]; }
  /* ---- load, store, set, splat */
  { float *p = edge(4, 0), *q; glmm_128 r;
    __builtin_memcpy(p, a, 16); LANE4("glmm_load", glmm_load(p), a[0], a[1], a[2], a[3])
    q = edge(4, 16); for (int i = 0; i < 4; i++) p[i] = 77.5f; q[-1] = 78.5f; r = mk(b); glmm_store(q, r);
    { Cnt *k = CN("glmm_store"); for (int i = 0; i < 4; i++) same(k, c, fb(q[i]), fb(b[i]), b, 4); for (int i = 0; i < 4; i++) same(k, c, fb(p[i]), fb(77.5f), b, 4); same(k, c, fb(q[-1]), fb(78.5f), b, 4); }
#ifdef CGLM_ALL_UNALIGNED
    q = edge(4, 4 * (1 + (int)(rn() % 3))); __builtin_memcpy(q, a, 16); LANE4("glmm_load", glmm_load(q), a[0], a[1], a[2], a[3])
    glmm_store(q, mk(b)); { Cnt *k = CN("glmm_store"); for (int i = 0; i < 4; i++) same(k, c, fb(q[i]), fb(b[i]), b, 4); }
#endif
  }
#if defined(CGLM_SIMD_WASM) || (defined(CGLM_SIMD_x86) && defined(__SSE2__))
  { float *p = edge(3, 4 * (int)(rn() % 4)); glmm_128 r; float o[4];
    p[0] = a[0]; p[1] = a[1]; p[2] = a[2]; r = glmm_load3(p); get(r, o);
    { Cnt *k = CN("glmm_load3"); for (int i = 0; i < 3; i++) same(k, c, fb(o[i]), fb(a[i]), a, 3); same(k, c, fb(o[3]), 0, a, 3); }
    p[-1] = 76.5f; if ((unsigned char *)(p + 3) < page) p[3] = 75.5f; glmm_store3(p, mk(b));
    { Cnt *k = CN("glmm_store3"); for (int i = 0; i < 3; i++) same(k, c, fb(p[i]), fb(b[i]), b, 4); same(k, c, fb(p[-1]), fb(76.5f), b, 4); if ((unsigned char *)(p + 3) < page) same(k, c, fb(p[3]), fb(75.5f), b, 4); } }
#endif
  { float s = a[1]; LANE1("glmm_set1", glmm_set1(s), fb(a[1])) LANE1("glmm_set1_ptr", glmm_set1_ptr(&b[2]), fb(b[2])) LANE1("glmm_set1_rval", glmm_set1_rval(a[3]), fb(a[3])) }
  LANE1("glmm_splat_x", glmm_splat_x(mk(a)), fb(a[0])) LANE1("glmm_splat_y", glmm_splat_y(mk(a)), fb(a[1])) LANE1("glmm_splat_z", glmm_splat_z(mk(a)), fb(a[2])) LANE1("glmm_splat_w", glmm_splat_w(mk(a)), fb(a[3]))
#ifdef HAVE_SHUF
  LANE1("glmm_splat", glmm_splat(mk(a), 0), fb(a[0])) LANE1("glmm_splat", glmm_splat(mk(a), 1), fb(a[1])) LANE1("glmm_splat", glmm_splat(mk(a), 2), fb(a[2])) LANE1("glmm_splat", glmm_splat(mk(a), 3), fb(a[3]))
  if (c % 16 == 0) shuffles(a, c);
#endif
#ifdef CGLM_SIMD_ARM
  LANE4("glmm_swplane", glmm_swplane(mk(a)), a[2], a[3], a[0], a[1])
  LANE4("glmm_combine_ll", glmm_combine_ll(mk(a), mk(b)), a[0], a[1], b[0], b[1]) LANE4("glmm_combine_hl", glmm_combine_hl(mk(a), mk(b)), a[2], a[3], b[0], b[1])
  LANE4("glmm_combine_lh", glmm_combine_lh(mk(a), mk(b)), a[0], a[1], b[2], b[3]) LANE4("glmm_combine_hh", glmm_combine_hh(mk(a), mk(b)), a[2], a[3], b[2], b[3])
  LANE4("glmm_combine", vcombine_f32(glmm_low(mk(a)), glmm_high(mk(b))), a[0], a[1], b[2], b[3])
  { glmm_128 ra = mk(a), rb = mk(b); float o[4]; get(glmm_xor(ra, rb), o); for (int i = 0; i < 4; i++) same(CN("glmm_xor"), c, fb(o[i]), fb(a[i]) ^ fb(b[i]), a, 4); }
#endif
  if (c % 64 == 0) { /* sign masks */
    float o[4]; Cnt *k = CN("signmasks"); const u32 N = 0x80000000u;
    { glmm_128 m = glmm_float32x4_SIGNMASK_NPPN; get(m, o); same(k, c, fb(o[0]), N, a, 0); same(k, c, fb(o[1]), 0, a, 0); same(k, c, fb(o[2]), 0, a, 0); same(k, c, fb(o[3]), N, a, 0); }
    { glmm_128 m = glmm_float32x4_SIGNMASK_PNPN, n = glmm_float32x4_SIGNMASK_NPNP; float p[4]; get(m, o); get(n, p);
      for (int i = 0; i < 4; i++) same(k, c, fb(o[i]) ^ fb(p[i]), N, a, 0); same(k, c, fb(o[0]) ^ fb(o[1]), N, a, 0); same(k, c, fb(o[0]) ^ fb(o[2]), 0, a, 0); same(k, c, fb(o[1]) ^ fb(o[3]), 0, a, 0); same(k, c, fb(o[0]) & ~N, 0, a, 0); }
#ifndef CGLM_SIMD_ARM
    { glmm_128 m = glmm_float32x4_SIGNMASK_NEG; get(m, o); for (int i = 0; i < 4; i++) same(k, c, fb(o[i]), N, a, 0); }
#endif
  }
  /* ---- lane-wise */
  { float o[4]; get(glmm_abs(mk(a)), o); Cnt *k = CN("glmm_abs"); for (int i = 0; i < 4; i++) { if (isn(a[i])) { k->judged++; if (!isn(o[i])) same(k, c, fb(o[i]), fb(a[i]), a, 4); } else same(k, c, fb(o[i]), fb(a[i]) & 0x7fffffff, a, 4); } }
  { float o[4], p[4]; get(glmm_min(mk(a), mk(b)), o); get(glmm_max(mk(a), mk(b)), p);
    for (int i = 0; i < 4; i++) { float in[2] = {a[i], b[i]}; Cnt *k = CN("glmm_min"), *l = CN("glmm_max"); if (isn(a[i]) || isn(b[i])) { k->skipped++; l->skipped++; continue; }
      float mn = a[i] < b[i] ? a[i] : b[i], mx = a[i] > b[i] ? a[i] : b[i];
      if (a[i] == 0 && b[i] == 0) { same(k, c, fb(o[i]) & 0x7fffffff, 0, in, 2); same(l, c, fb(p[i]) & 0x7fffffff, 0, in, 2); } else { same(k, c, fb(o[i]), fb(mn), in, 2); same(l, c, fb(p[i]), fb(mx), in, 2); } } }
  { float o[4]; get(glmm_div(mk(a), mk(b)), o); Cnt *k = CN("glmm_div");
    for (int i = 0; i < 4; i++) { float in[2] = {a[i], b[i]}; double q = b[i] != 0 ? (double)a[i] / b[i] : 0; if (!fin(a[i]) || !fin(b[i]) || b[i] == 0 || absd(q) > BIG) { k->skipped++; continue; }
#if defined(CGLM_SIMD_ARM) && !CGLM_ARM64
      if (absd(b[i]) > 1e30 || absd(b[i]) < 1e-30 || absd(a[i]) > 1e30 || (a[i] != 0 && absd(q) < 1e-36)) { k->skipped++; continue; }
      near(k, c, o[i], q, 8 * EPS * absd(q) + 2 * TINY, in, 2);
#else
      near(k, c, o[i], q, EPS * absd(q) + TINY, in, 2);
#endif
    } }
  FM("glmm_fmadd", 4, get(glmm_fmadd(mk(A), mk(B), mk(D)), o), +, +)
  FM("glmm_fnmadd", 4, get(glmm_fnmadd(mk(A), mk(B), mk(D)), o), -, +)
  FM("glmm_fmsub", 4, get(glmm_fmsub(mk(A), mk(B), mk(D)), o), +, -)
  FM("glmm_fnmsub", 4, get(glmm_fnmsub(mk(A), mk(B), mk(D)), o), -, -)
#if defined(CGLM_SIMD_x86) && defined(__AVX__)
#define L8(p) _mm256_loadu_ps(p)
#define G8(e) _mm256_storeu_ps(o, e)
  FM("glmm256_fmadd", 8, G8(glmm256_fmadd(L8(A), L8(B), L8(D))), +, +)
  FM("glmm256_fnmadd", 8, G8(glmm256_fnmadd(L8(A), L8(B), L8(D))), -, +)
  FM("glmm256_fmsub", 8, G8(glmm256_fmsub(L8(A), L8(B), L8(D))), +, -)
  FM("glmm256_fnmsub", 8, G8(glmm256_fnmsub(L8(A), L8(B), L8(D))), -, -)
  { float *p = edge(8, 0), *q = edge(8, 32), o[8]; __builtin_memcpy(p, A, 32); _mm256_storeu_ps(o, glmm_load256(p)); Cnt *k = CN("glmm_load256"), *l = CN("glmm_store256");
    for (int i = 0; i < 8; i++) same(k, c, fb(o[i]), fb(A[i]), A, 8);
    q[-1] = 74.5f; for (int i = 0; i < 8; i++) p[i] = 73.5f; glmm_store256(q, L8(B)); for (int i = 0; i < 8; i++) same(l, c, fb(q[i]), fb(B[i]), B, 8); same(l, c, fb(p[0]), fb(73.5f), B, 8); same(l, c, fb(q[-1]), fb(74.5f), B, 8);
#ifdef CGLM_ALL_UNALIGNED
    q = edge(8, 4 * (1 + (int)(rn() % 7))); __builtin_memcpy(q, A, 32); _mm256_storeu_ps(o, glmm_load256(q)); for (int i = 0; i < 8; i++) same(k, c, fb(o[i]), fb(A[i]), A, 8);
    glmm_store256(q, L8(B)); for (int i = 0; i < 8; i++) same(l, c, fb(q[i]), fb(B[i]), B, 8);
#endif
  }
  if (c % 64 == 0) { float o[8]; _mm256_storeu_ps(o, _mm256_xor_ps(_mm256_setzero_ps(), glmm_float32x8_SIGNMASK_NEG)); for (int i = 0; i < 8; i++) same(CN("signmasks"), c, fb(o[i]), 0x80000000u, a, 0); }
#endif
  /* ---- horizontal */
  if (allfin(a, 4) && allfin(b, 4)) {
    double s = 0, sa = 0, dt = 0, da = 0, n2 = 0, mx = -1e40, mn = 1e40, ma = 0; float o[4], in[8]; int ok = 1;
    for (int i = 0; i < 4; i++) { in[i] = a[i]; in[4 + i] = b[i]; s += a[i]; sa += absd(a[i]); double p = (double)a[i] * b[i]; dt += p; da += absd(p); n2 += (double)a[i] * a[i]; if (a[i] > mx) mx = a[i]; if (a[i] < mn) mn = a[i]; if (absd(a[i]) > ma) ma = absd(a[i]); }
    double e = 3.1 * EPS * sa + TINY, ed = 4.1 * EPS * da + 8 * TINY, en = 4.1 * EPS * n2 + 8 * TINY;
    get(glmm_vhadd(mk(a)), o); for (int i = 0; i < 4; i++) near(CN("glmm_vhadd"), c, o[i], s, e, in, 4);
    near(CN("glmm_hadd"), c, glmm_hadd(mk(a)), s, e, in, 4);
    same(CN("glmm_hmin"), c, fb(glmm_hmin(mk(a)) + 0.0f), fb((float)mn + 0.0f), in, 4);
    same(CN("glmm_hmax"), c, fb(glmm_hmax(mk(a)) + 0.0f), fb((float)mx + 0.0f), in, 4);
    same(CN("glmm_norm_inf"), c, fb(glmm_norm_inf(mk(a))), fb((float)ma), in, 4);
    near(CN("glmm_norm_one"), c, glmm_norm_one(mk(a)), sa, e, in, 4);
    if (da < BIG) { near(CN("glmm_dot"), c, glmm_dot(mk(a), mk(b)), dt, ed, in, 8); get(glmm_vdot(mk(a), mk(b)), o); for (int i = 0; i < 4; i++) near(CN("glmm_vdot"), c, o[i], dt, ed, in, 8); }
    if (n2 < BIG) { near(CN("glmm_norm2"), c, glmm_norm2(mk(a)), n2, en, in, 4); if (n2 > 1e-30 || n2 == 0) near(CN("glmm_norm"), c, glmm_norm(mk(a)), SQRT(n2), 4 * EPS * SQRT(n2) + TINY, in, 4); }
#ifndef CGLM_SIMD_ARM
    get(glmm_vhadds(mk(a)), o); near(CN("glmm_vhadds"), c, o[0], s, e, in, 4);
    get(glmm_vhmin(mk(a)), o); same(CN("glmm_vhmin"), c, fb(o[0] + 0.0f), fb((float)mn + 0.0f), in, 4);
    get(glmm_vhmax(mk(a)), o); same(CN("glmm_vhmax"), c, fb(o[0] + 0.0f), fb((float)mx + 0.0f), in, 4);
    if (da < BIG) { get(glmm_vdots(mk(a), mk(b)), o); near(CN("glmm_vdots"), c, o[0], dt, ed, in, 8); }
#endif
  } else CN("glmm_hadd")->skipped++;
}
#ifdef FREESTANDING
static unsigned char mem[256] __attribute__((aligned(64)));
__attribute__((export_name("judge"))) int judge(int n, int seed, int only) {
  page = mem + 192; if (only >= 0) one(only, seed); else for (long c = 0; c < n; c++) one(c, seed);
  for (int i = 0; i < ncnt; i++) count_(cnt[i].n, (int)cnt[i].judged);
  return nfail;
}
#else
int main(int argc, char **argv) {
  long n = atol(argv[1]); u64 seed = strtoull(argv[2], 0, 10), tot = 0, sk = 0; int low = 0;
  unsigned char *m = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED || mprotect(m + 4096, 4096, PROT_NONE)) return 3;
  page = m + 4096;
  if (argc > 3) one(atol(argv[3]), seed); else for (long c = 0; c < n; c++) one(c, seed);
  for (int i = 0; i < ncnt; i++) { tot += cnt[i].judged; sk += cnt[i].skipped; if (cnt[i].judged < n / 64) low++; }
  printf("COUNT lane_judgements=%llu lanes_not_judged=%llu helper_calls=%ld\n", tot, sk, n * ncnt);
  printf("SAMPLE %d helpers judged, e.g. %s %ld lanes, %s %ld lanes\n", ncnt, cnt[0].n, cnt[0].judged, cnt[ncnt / 2].n, cnt[ncnt / 2].judged);
  printf("HELPERS"); for (int i = 0; i < ncnt; i++) printf(" %s", cnt[i].n); printf("\n");
  if (argc <= 3 && low) { fprintf(stderr, "too few judgements\n"); return 3; }
  if (!nfail) printf("OK\n");
  return 0;
}
#endif
