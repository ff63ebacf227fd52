/* Printing from several threads at once, each into a stream of its own: every call must write what the same
   call writes alone.  FORM: 0 inline, 1 linked, 2 struct.  Usage: printmt CASES SEED [CASE] */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cglm/cglm.h>
#if FORM == 1
#  include <cglm/call.h>
#elif FORM == 2
#  include <cglm/struct.h>
#endif
#include <fenv.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define NTH 8
static uint64_t SEED; static int N;
static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
#if FORM == 0
#  define NK 12
static const char *KN[NK] = {"mat4", "mat3", "vec4", "vec3", "versor", "vec2", "ivec4", "ivec3", "ivec2", "aabb", "mat2", "arch"};
#elif FORM == 1
#  define NK 5
static const char *KN[NK] = {"mat4", "mat3", "vec4", "vec3", "versor"};
#else
#  define NK 10
static const char *KN[NK] = {"mat4", "mat3", "vec4", "vec3", "versor", "vec2", "ivec4", "ivec3", "ivec2", "aabb"};
#endif
#if FORM == 1
#  define P(f, T, raw) glmc_##f##_print(raw, fp)
#elif FORM == 2
#  define P(f, T, raw) do { T##s s_; memcpy(&s_, raw, sizeof s_); glms_##f##_print(s_, fp); } while (0)
#else
#  define P(f, T, raw) glm_##f##_print(raw, fp)
#endif
#define V(T, f) { CGLM_ALIGN(32) T m; memcpy(m, d, sizeof m); P(f, T, m); } break
static void render(int k, int c, FILE *fp) {
  CGLM_ALIGN(32) float d[16]; int *di = (int *)d; uint64_t s = mix(SEED + (uint64_t)c * 77);
  for (int i = 0; i < 16; i++) { s = mix(s); if (k >= 6 && k <= 8) di[i] = (int)(uint32_t)s; else d[i] = (float)((double)(s >> 11) / 9007199254740992.0 * 2 - 1) * ((s & 7) == 0 ? 3e6f : (s & 7) == 1 ? 1e-4f : 100.0f); }
  switch (k) {
    case 0: V(mat4, mat4); case 1: V(mat3, mat3); case 2: V(vec4, vec4); case 3: V(vec3, vec3); case 4: V(versor, versor);
#if FORM != 1
    case 5: V(vec2, vec2); case 6: V(ivec4, ivec4); case 7: V(ivec3, ivec3); case 8: V(ivec2, ivec2);
    case 9: { const char *tag = c & 1 ? "box" : NULL; 
#  if FORM == 2
      vec3s b[2]; memcpy(b, d, sizeof b); glms_aabb_print(b, tag, fp);
#  else
      vec3 b[2]; memcpy(b, d, sizeof b); glm_aabb_print(b, tag, fp);
#  endif
    } break;
#  if FORM == 0
    case 10: V(mat2, mat2);
    case 11: glm_arch_print(fp); glm_arch_print_name(fp); break;
#  endif
#endif
  }
}
static char **REF; static size_t *RL;
static void bad(int i, const char *why, const char *a, const char *b) {
  char o[700]; int n = snprintf(o, sizeof o, "FAIL fn=glm_%s_print case=%d why=%s: ", KN[i % NK], i, why);
  for (const char *p = a; *p && n < 300; p++) o[n++] = *p == '\n' ? '~' : (unsigned char)*p < 32 ? '.' : *p;
  n += snprintf(o + n, sizeof o - n, " | alone "); for (const char *p = b; *p && n < 600; p++) o[n++] = *p == '\n' ? '~' : (unsigned char)*p < 32 ? '.' : *p;
  o[n] = 0; puts(o); fflush(stdout);
}
static int again(int i, const char *why) { char *b = 0; size_t l = 0; FILE *f = open_memstream(&b, &l); render(i % NK, i, f); fclose(f); int r = l != RL[i] || memcmp(b, REF[i], l); if (r) bad(i, why, b, REF[i]); free(b); return r; }
static pthread_barrier_t BAR; static long FAILS;
static void *worker(void *a) {
  long t = (long)a, fails = 0; pthread_barrier_wait(&BAR);
  for (int j = 0; j < N && fails < 3; j++) fails += again((int)((j * 2654435761u + (unsigned)t * (N / NTH + 1)) % (unsigned)N), "printed something else while other threads printed");
  __atomic_fetch_add(&FAILS, fails, __ATOMIC_RELAXED); return 0;
}
int main(int argc, char **argv) {
  N = atoi(argv[1]); SEED = mix(strtoull(argv[2], 0, 10)); (void)argc; long calls = 0;
  REF = calloc(N, sizeof *REF); RL = calloc(N, sizeof *RL);
  for (int i = 0; i < N; i++) { FILE *f = open_memstream(&REF[i], &RL[i]); render(i % NK, i, f); fclose(f); calls++; }
  for (int i = N; i-- > 0 && FAILS < 3;) { FAILS += again(i, "printed something else in another history"); calls++; }
  static const int rm[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  for (int r = 0; r < 4; r++) for (int k = 0; k < NK; k++) { /* the floating-point environment is left as it was */
    char *b = 0; size_t l = 0; fesetround(rm[r]); FILE *f = open_memstream(&b, &l); render(k, k, f); fclose(f); int now = fegetround(); fesetround(FE_TONEAREST); free(b); calls++;
    if (now != rm[r]) { bad(k, "changed the rounding mode", "", ""); FAILS++; } }
  pthread_t th[NTH]; pthread_barrier_init(&BAR, 0, NTH);
  for (int rep = 0; rep < 3 && !FAILS; rep++) { for (long t = 0; t < NTH; t++) pthread_create(&th[t], 0, worker, (void *)t); for (int t = 0; t < NTH; t++) pthread_join(th[t], 0); calls += (long)NTH * N; }
  printf("COUNT concurrent_print_calls=%ld\n", calls); if (!FAILS) puts("OK"); return 0;
}
