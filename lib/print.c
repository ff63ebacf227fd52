/* Monitor of the print functions: every call writes into a memory stream of its own; the bytes are compared
   with a model of the documented format.  FORM: 0 inline, 1 linked, 2 struct.  Compiled as C and C++. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cglm/cglm.h>
#if FORM == 1
#  include <cglm/call.h>
#elif FORM == 2
#  include <cglm/struct.h>
#endif
#include <ctype.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifndef PREC
#  define PREC 5
#endif
#ifndef MAXS
#  define MAXS 1e5f
#endif
#ifndef COL
#  ifdef GLM_TESTS_NO_COLORFUL_OUTPUT
#    define COL ""
#    define COLR ""
#  else
#    define COL "\033[36m"
#    define COLR "\033[0m"
#  endif
#endif
static uint64_t S; static uint64_t rnd(void) { uint64_t z = (S += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static double u(void) { return (double)(rnd() >> 11) / 9007199254740992.0; }
static float fromb(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static float val(void) {
  float m = (float)MAXS;
  switch (rnd() % 14) {
    case 0: return (float)((int)(rnd() % 21) - 10);
    case 1: return (float)(u() * 2 - 1);
    case 2: return (float)((u() * 2 - 1) * 1000);
    case 3: return (float)((u() * 2 - 1) * 2 * m);
    case 4: return m;
    case 5: return m + (float)(u() * m * 100);
    case 6: return -m * (float)(1 + u() * 5);
    case 7: return fromb((uint32_t)rnd());
    case 8: return (rnd() & 1) ? -0.0f : 0.0f;
    case 9: return fromb((rnd() & 1) ? 0x7f800000u : 0xff800000u);
    case 10: return fromb(0x7fc00000u | (uint32_t)(rnd() << 31));
    case 11: return m - (float)(u() * m * 1e-5);
    case 12: return (float)(u() * 1e-6);
    default: return (float)((u() * 2 - 1) * 50);
  }
}
static int ival(void) { switch (rnd() % 5) { case 0: return (int)(rnd() % 21) - 10; case 1: return (int)rnd(); case 2: return 0; case 3: return (rnd() & 1) ? 2147483647 : (-2147483647 - 1); default: return (int)(rnd() % 200000) - 100000; } }
static void expect(char *b, float v) { int n = v < (float)MAXS ? snprintf(b, 128, "%.*f", PREC, (double)v) : snprintf(b, 128, "%g", (double)v); (void)n; }
static int NFAIL; static long NCALL, NELEM, NBYTES; static const char *FN; static int CASE;
static void bad(const char *why, const char *out) {
  if (NFAIL++ < 6) { printf("FAIL fn=%s case=%d why=%s: ", FN, CASE, why); for (const char *p = out; *p && p - out < 300; p++) if (*p == '\n') printf("\\n"); else if ((unsigned char)*p < 32) printf("\\x%02x", *p); else putchar(*p); printf("\n"); }
}
/* model: header line, then rows of numbers between the delimiters */
static void judge(const char *out, size_t len, const char *head, int rows, int cols, char (*el)[128], const char *open, const char *close) {
  NCALL++; NBYTES += (long)len; NELEM += rows * cols;
  if (strlen(out) != len) { bad("a zero byte was written", out); return; }
  static char b[1 << 16]; char *w = b;
  /* colour sequences: exactly one start and one reset, in this order */
  const char *c0 = *COL ? strstr(out, COL) : out, *c1 = c0 && *COLR ? strstr(c0 + strlen(COL), COLR) : out;
  if (!c0 || !c1) { bad("the configured colour sequences are missing", out); return; }
  for (const char *p = out; *p;) { if (*COL && !strncmp(p, COL, strlen(COL))) { p += strlen(COL); continue; } if (*COLR && !strncmp(p, COLR, strlen(COLR))) { p += strlen(COLR); continue; } *w++ = *p++; } *w = 0;
  char *p = strchr(b, '\n'); if (!p) { bad("no line structure", out); return; }
  *p++ = 0; while (w > b && (w[-1] == ' ')) *--w = 0;
  char *h = b; size_t hl = strlen(h); while (hl && h[hl - 1] == ' ') h[--hl] = 0;
  if (strcmp(h, head)) { bad("the heading does not name the type", out); return; }
  int k = 0; size_t width = 0;
  for (int r = 0; r < rows; r++) {
    char *e = strchr(p, '\n'); if (!e) { bad("a row is missing", out); return; }
    *e = 0; char *t = p; size_t lw = strlen(p);
    if (rows == cols && rows > 1) { if (r && lw != width) { bad("the columns are not aligned", out); return; } width = lw; }
    while (*t == ' ') t++;
    if (*t != *open) { bad("a row does not start with its delimiter", out); return; } t++;
    for (int c = 0; c < cols; c++, k++) {
      while (*t == ' ') t++;
      char *q = t; while (*q && *q != ' ' && *q != *close) q++;
      size_t n = (size_t)(q - t);
      if (n != strlen(el[k]) || strncmp(t, el[k], n)) { char m[400]; snprintf(m, sizeof m, "row %d column %d should show %s", r, c, el[k]); bad(m, out); return; }
      t = q;
    }
    while (*t == ' ') t++;
    if (*t != *close || t[1]) { bad("a row holds something else than its elements", out); return; }
    p = e + 1;
  }
  while (*p) { if (!isspace((unsigned char)*p)) { bad("something follows the last row", out); return; } p++; }
}
#if FORM == 1
#  define P(f, raw, st) glmc_##f##_print(raw, fp)
#elif FORM == 2
#  define P(f, raw, st) glms_##f##_print(st, fp)
#else
#  define P(f, raw, st) glm_##f##_print(raw, fp)
#endif
static uint64_t HT[1 << 21]; static long NDIST;
static void distinct(const char *o) { uint64_t h = 1469598103934665603ULL; for (const char *p = FN; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL; for (const char *p = o; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL; if (!h) h = 1;
  for (uint64_t i = h % (1 << 21), n = 0; n < 64; n++, i = (i + 1) % (1 << 21)) { if (HT[i] == h) return; if (!HT[i]) { HT[i] = h; NDIST++; return; } } }
static FILE *realout;
static void sample(const char *o) { if (CASE == 3) { fprintf(realout, "SAMPLE %s: ", FN); for (; *o; o++) if (*o == '\n') fputs("\\n", realout); else if ((unsigned char)*o >= 32) fputc(*o, realout); fputc('\n', realout); } }
static char *BUF; static size_t LEN; static FILE *fp;
static void begin(const char *f) { FN = f; fp = open_memstream(&BUF, &LEN); fputc('<', fp); fflush(fp); }
static const char *end_(void) { fputc('>', fp); fclose(fp); if (BUF[0] != '<' || BUF[LEN - 1] != '>') bad("the stream position was changed", BUF); BUF[--LEN] = 0; return BUF + 1; }
static void done(void) { free(BUF); BUF = 0; }
#ifdef NOOP
#  define JUDGE(head, r, c, o, cl) do { const char *o_ = end_(); NCALL++; if (LEN != 1) bad("printing is disabled but something was written", o_); done(); } while (0)
#else
#  define JUDGE(head, r, c, o, cl) do { const char *o_ = end_(); judge(o_, LEN - 1, head, r, c, el, o, cl); distinct(o_); sample(o_); done(); } while (0)
#endif
#define KEEP(a) if (memcmp(a, sv, sizeof a)) bad("the value was modified", "")
static char el[16][128];
#if FORM == 2
#  define ST(T, v, x) T v; memcpy(&v, x, sizeof v)
#else
#  define ST(T, v, x)
#endif
static void one(void) {
  char sv[256];
#define MAT(N) { CGLM_ALIGN(32) mat##N m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m[i][j] = val(); memcpy(sv, m, sizeof m); ST(mat##N##s, s, m); \
    for (int r = 0; r < N; r++) for (int c = 0; c < N; c++) expect(el[r * N + c], m[c][r]); begin("glm_mat" #N "_print"); P(mat##N, m, s); JUDGE("Matrix (float" #N "x" #N "):", N, N, "|", "|"); KEEP(m); }
#define VEC(T, N, HEAD, G, EXP, ELT) { CGLM_ALIGN(32) T m; for (int i = 0; i < N; i++) m[i] = G(); memcpy(sv, m, sizeof m); ST(T##s, s, m); for (int c = 0; c < N; c++) EXP; begin("glm_" #T "_print"); P(T, m, s); JUDGE(HEAD ":", 1, N, "(", ")"); KEEP(m); }
#define FE expect(el[c], m[c])
#define IE snprintf(el[c], 128, "%d", m[c])
  MAT(4) MAT(3)
  VEC(vec4, 4, "Vector (float4)", val, FE, 0) VEC(vec3, 3, "Vector (float3)", val, FE, 0) VEC(versor, 4, "Quaternion (float4)", val, FE, 0)
#if FORM != 1
  VEC(vec2, 2, "Vector (float2)", val, FE, 0)
  VEC(ivec4, 4, "Vector (int4)", ival, IE, 0) VEC(ivec3, 3, "Vector (int3)", ival, IE, 0) VEC(ivec2, 2, "Vector (int2)", ival, IE, 0)
#  if FORM == 0
  MAT(2)
#  endif
  { vec3 m[2]; for (int i = 0; i < 6; i++) m[i / 3][i % 3] = val(); memcpy(sv, m, sizeof m); char head[80]; static const char *tags[] = {"box", "float", "", "a b", "%d%s", "world space"}; const char *tag = (rnd() % 4) ? tags[rnd() % 6] : NULL;
    for (int i = 0; i < 6; i++) expect(el[i], m[i / 3][i % 3]); snprintf(head, sizeof head, "AABB (%s):", tag ? tag : "float"); begin("glm_aabb_print");
#  if FORM == 2
    vec3s s[2]; memcpy(s, m, sizeof s); glms_aabb_print(s, tag, fp);
#  else
    glm_aabb_print(m, tag, fp);
#  endif
    JUDGE(head, 2, 3, "(", ")"); KEEP(m); }
#endif
}
int main(int argc, char **argv) {
  int cases = atoi(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); int only = argc > 3 ? atoi(argv[3]) : -1; (void)argc;
  /* everything written to the standard streams during the calls is seen */
  fflush(stdout); fflush(stderr); int so = dup(1), se = dup(2); FILE *t = tmpfile(); dup2(fileno(t), 1); dup2(fileno(t), 2);
  realout = fdopen(so, "w"); (void)se;
  for (CASE = 0; CASE < cases; CASE++) {
    if (only >= 0 && CASE != only) continue;
    S = seed * 0x51ED270B0F39ULL + (uint64_t)CASE * 0xD1342543DE82EF95ULL;
    int nf = NFAIL; long here;
    one(); (void)here;
    if (NFAIL == nf) { /* anything in stdout now is the library's */ }
    if (NFAIL > 50) break;
  }
#if FORM == 0
  begin("glm_arch_print"); glm_arch_print(fp); { const char *o = end_(); NCALL++;
#ifdef NOOP
    if (LEN != 1) bad("printing is disabled but something was written", o);
#else
    if (!strstr(o, "arch: ")) bad("does not name the architecture", o);
#  ifdef __AVX__
    if (!strstr(o, "AVX")) bad("does not name AVX", o);
#  endif
#endif
    done(); }
  begin("glm_arch_print_name"); glm_arch_print_name(fp); { const char *o = end_(); NCALL++;
#ifdef NOOP
    if (LEN != 1) bad("printing is disabled but something was written", o);
#else
    if (!strstr(o, "cglm") || !strstr(o, "arch: ")) bad("does not name the library and architecture", o);
#endif
    done(); }
#endif
  fflush(stdout); fflush(stderr); long lib = 0; rewind(t); char ln[8192];
  while (fgets(ln, sizeof ln, t)) { if (!strncmp(ln, "FAIL ", 5)) fputs(ln, realout); else lib += (long)strlen(ln); }
  if (lib) fprintf(realout, "FAIL fn=? case=-1 why=%ld bytes were written to the standard streams although another stream was given\n", lib);
  fprintf(realout, "COUNT distinct=%ld print_calls=%ld printed_elements=%ld printed_bytes=%ld\n", NDIST, NCALL, NELEM, NBYTES);
  if (!NFAIL && !lib) fprintf(realout, "OK\n");
  fclose(realout); return 0;
}
