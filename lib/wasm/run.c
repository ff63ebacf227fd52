/* executes one call of the library inside the WebAssembly instance (see wasm_proxy.c for the message) */
#include <stddef.h>
typedef void (*w_fn)(void **);
struct vt_fn { const char *name; w_fn fn; };
extern const struct vt_fn vt_fns[];
__attribute__((no_builtin)) void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; for (size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); } return d; }
__attribute__((no_builtin)) void *memmove(void *d, const void *s, size_t n) { char *a = d; const char *b = s; if (a < b) for (size_t i = 0; i < n; i++) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); } else while (n--) { a[n] = b[n]; __asm__ volatile("" ::: "memory"); } return d; }
__attribute__((no_builtin)) void *memset(void *d, int v, size_t n) { char *a = d; for (size_t i = 0; i < n; i++) { a[i] = (char)v; __asm__ volatile("" ::: "memory"); } return d; }
__attribute__((no_builtin)) int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] - b[i]; return 0; }
int abs(int x) { return x < 0 ? (int)(0u - (unsigned)x) : x; }
float truncf(float); double trunc(double);
float modff(float x, float *i) { float t = __builtin_truncf(x); *i = t; return __builtin_isinf(x) ? __builtin_copysignf(0, x) : __builtin_copysignf(x - t, x); }
double modf(double x, double *i) { double t = __builtin_trunc(x); *i = t; return __builtin_isinf(x) ? __builtin_copysign(0, x) : __builtin_copysign(x - t, x); }
float fmaf(float a, float b, float c) { return (float)((double)a * b + c); }
float frexpf(float x, int *e) { *e = 0; if (!(x == x) || x == 0 || __builtin_isinf(x)) return x; while (__builtin_fabsf(x) >= 1) { x *= .5f; ++*e; } while (__builtin_fabsf(x) < .5f) { x *= 2; --*e; } return x; }
#ifndef NOFNS
#define SLOT 1024
static int buf[16384]; static unsigned char arena[18][SLOT] __attribute__((aligned(64)));
__attribute__((export_name("vt_buf"))) int *vt_buf(void) { return buf; }
/* in: idx, np, then np+1 times {words, share, data if share == own index};  out: damaged objects (bit mask), then all objects */
__attribute__((export_name("vt_run"))) int vt_run(void) {
  int idx = buf[0], np = buf[1], sh[18], n[18]; void *p[18]; int *b = buf + 2, bad = 0;
  for (int i = 0; i <= np; i++) {
    n[i] = *b++; sh[i] = *b++; if (sh[i] != i) { p[i] = p[sh[i]]; continue; }
    memset(arena[i], 0xC5, SLOT); p[i] = arena[i] + 64; memcpy(p[i], b, (size_t)n[i] * 4); b += n[i];
  }
  vt_fns[idx].fn(p);
  b = buf + 1;
  for (int i = 0; i <= np; i++) if (sh[i] == i) {
    unsigned char *e = arena[i] + 64 + 4 * n[i];
    for (unsigned char *q = arena[i]; q < arena[i] + 64; q++) if (*q != 0xC5) bad |= 1 << i;
    for (unsigned char *q = e; q < arena[i] + SLOT; q++) if (*q != 0xC5) bad |= 1 << i;
    memcpy(b, p[i], (size_t)n[i] * 4); b += n[i];
  }
  buf[0] = bad; return (int)((char *)b - (char *)buf);
}
#endif
