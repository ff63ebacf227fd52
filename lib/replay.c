/* Replays a log of calls (written by the driver's record mode) against the library, under a
   sanitizer or under our own monitors for hidden state.  Plain C so that every instruction that
   touches the arguments is instrumented. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    include <sanitizer/msan_interface.h>
#    define MSAN 1
#  endif
#endif
typedef void (*wfn)(void **);
struct vt_fn { const char *name; wfn fn; };
struct vt_al { const char *name; int size, align; };
#include "replay_table.h"     /* struct sig { name, np, rk, n[], role[], type[] } SIGS[]; NSIG */
#ifdef LINKED
extern const struct vt_fn vt_fns[]; extern const struct vt_al vt_als[];
#endif
static const struct vt_fn *FNS; static const struct vt_al *ALS;
static wfn fnOf[NSIG]; static int alignT[NSIG][16];
struct rec { int fn, idx, status; uint32_t *in; uint8_t *mask; uint32_t *exp; void **obj; };
static struct rec *R; static int NR;
static volatile int *CUR;          /* shared with the parent: index of the record being executed */
static int offs(const struct sig *s, int p) { int o = 0; for (int i = 0; i < p; i++) o += s->n[i]; return o; }
static int words(const struct sig *s) { return offs(s, s->np); }
static void fail(const struct rec *r, const char *why) {
  if (r) printf("FAIL fn=%s case=%d why=%s\n", SIGS[r->fn].name, r->idx, why); else printf("FAIL fn=? case=-1 why=%s\n", why);
  fflush(stdout); _exit(7);
}
static void load(const char *p, int max) {
  int fd = open(p, O_RDONLY); off_t n = lseek(fd, 0, SEEK_END); uint8_t *b = mmap(0, n ? n : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE, fd, 0);
  if (b == MAP_FAILED) exit(3);
  int cap = 1024; R = malloc(cap * sizeof *R);
  for (off_t o = 0; o + 12 <= n && NR < max;) {
    struct rec r; memset(&r, 0, sizeof r); memcpy(&r.fn, b + o, 4); memcpy(&r.idx, b + o + 4, 4); memcpy(&r.status, b + o + 8, 4); o += 12;
    int w = words(&SIGS[r.fn]); r.in = (uint32_t *)(b + o); o += 4 * w; r.mask = b + o; o += (w + 3) & ~3;
    if (!fnOf[r.fn]) continue;
    if (NR == cap) R = realloc(R, (cap *= 2) * sizeof *R);
    R[NR++] = r;
  }
}
static void table(void) {
  for (int i = 0; i < NSIG; i++) {
    for (const struct vt_fn *f = FNS; f->name; f++) if (!strcmp(f->name, SIGS[i].name)) fnOf[i] = f->fn;
    for (int p = 0; p < SIGS[i].np; p++) {
      const char *t = SIGS[i].type[p]; size_t l = strcspn(t, "*["); alignT[i][p] = 4;
      for (const struct vt_al *a = ALS; a->name; a++) if (strlen(a->name) == l && !strncmp(a->name, t, l)) alignT[i][p] = a->align;
    }
  }
}
/* ---- one object per argument, exactly sized, so that a sanitizer sees every overrun */
static void *obj(size_t sz, int al) { void *p; if (al < 8) al = 8; if (posix_memalign(&p, al, sz)) exit(3); return p; }
static void san(int passes) {
  for (int it = 0; it < passes; it++) for (int k = 0; k < NR; k++) {
    struct rec *r = &R[k]; const struct sig *s = &SIGS[r->fn]; void *pp[18]; uint32_t *rv = obj(4, 8); *CUR = k;
    for (int p = 0; p < s->np; p++) {
      pp[p] = obj(4 * s->n[p], alignT[r->fn][p]);
      memcpy(pp[p], r->in + offs(s, p), 4 * s->n[p]);
#ifdef MSAN
      if (s->role[p] == 'o') __msan_poison(pp[p], 4 * s->n[p]); else __msan_unpoison(pp[p], 4 * s->n[p]);
#endif
    }
    pp[s->np] = rv;
#ifdef MSAN
    __msan_poison(rv, 4);
#endif
    fnOf[r->fn](pp);
#ifdef MSAN
    if (r->status != 1) for (int p = 0; p < s->np; p++) if (s->role[p] != 'i') for (int j = 0; j < s->n[p]; j++) {
      if (r->mask[offs(s, p) + j] != 1) continue;
      if (__msan_test_shadow((uint32_t *)pp[p] + j, 4) != -1) { printf("output %d element %d\n", p, j); fail(r, "an output element is computed from uninitialized memory or left unwritten"); }
    }
    if (s->rk != 'v' && __msan_test_shadow(rv, 4) != -1) fail(r, "the return value is computed from uninitialized memory");
#endif
    for (int p = 0; p < s->np; p++) free(pp[p]);
    free(rv);
  }
}
/* ---- hidden state */
static int same(const uint32_t *a, const uint32_t *b, int n, int flt) {
  for (int i = 0; i < n; i++) if (a[i] != b[i]) { float x, y; memcpy(&x, a + i, 4); memcpy(&y, b + i, 4); if (!(flt && x != x && y != y)) return 0; }
  return 1;
}
struct arena { uint32_t w[1024] __attribute__((aligned(64))); };
static int pad(int n) { return (n + 15) & ~15; }
/* own: all objects private; otherwise inputs are the record's shared objects */
static void call(struct rec *r, struct arena *A, int own, uint32_t *res) {
  const struct sig *s = &SIGS[r->fn]; void *pp[18]; int o = 0, w = words(s);
  for (int p = 0; p < s->np; p++) {
    if (!own && s->role[p] == 'i') { pp[p] = r->obj[p]; continue; }
    pp[p] = A->w + o; memcpy(pp[p], r->in + offs(s, p), 4 * s->n[p]); o += pad(s->n[p]);
  }
  pp[s->np] = A->w + o; memset(pp[s->np], 0, 4);
  fnOf[r->fn](pp);
  for (int p = 0; p < s->np; p++) if (s->role[p] != 'i') memcpy(res + offs(s, p), pp[p], 4 * s->n[p]); else memset(res + offs(s, p), 0, 4 * s->n[p]);
  memcpy(res + w, pp[s->np], 4);
}
static int agrees(const struct rec *r, const uint32_t *res) {
  const struct sig *s = &SIGS[r->fn];
  for (int p = 0; p < s->np; p++) if (s->role[p] != 'i' && !same(res + offs(s, p), r->exp + offs(s, p), s->n[p], s->flt[p])) return 0;
  return s->rk == 'v' || same(res + words(s), r->exp + words(s), 1, s->rk == 'f');
}
static void baseline(void) {
  static struct arena A;
  for (int k = 0; k < NR; k++) {
    struct rec *r = &R[k]; const struct sig *s = &SIGS[r->fn]; *CUR = k;
    r->exp = malloc(4 * (words(s) + 1)); call(r, &A, 1, r->exp);
    r->obj = malloc(sizeof(void *) * s->np);
    for (int p = 0; p < s->np; p++) { r->obj[p] = obj(4 * s->n[p], 64); memcpy(r->obj[p], r->in + offs(s, p), 4 * s->n[p]); }
  }
}
static uint64_t rnd(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static int PASSES, NT; static uint64_t SEED; static pthread_barrier_t BAR; static volatile int BAD = -1; static long NCALLS, NOVER;
static volatile int RUNNING[64];
static void *worker(void *v) {
  int id = (int)(intptr_t)v; uint64_t s = SEED * 1000 + id; struct arena *A = aligned_alloc(64, sizeof *A); uint32_t *res = malloc(4200); long n = 0;
  for (int it = 0; it < PASSES; it++) {
    pthread_barrier_wait(&BAR);          /* every thread makes every pass (empty once a difference was seen), or the others would wait for ever */
    /* windows of the log: all threads are in the same few functions at the same time, in different orders */
    for (int base = 0; base < NR && BAD < 0; base += 64) {
      int m = NR - base < 64 ? NR - base : 64; int off = (int)(rnd(&s) % m), stride = (int)(rnd(&s) % 31) * 2 + 1;
      for (int j = 0; j < m; j++) {
        int k = base + (off + j * (m == 64 ? stride : 1)) % m; 
        call(&R[k], A, it & 1, res); n++;
        if (!agrees(&R[k], res)) { BAD = k; break; }
        if ((rnd(&s) & 63) == 0) sched_yield();
      }
    }
  }
  __atomic_add_fetch(&NCALLS, n, __ATOMIC_RELAXED); free(A); free(res); return 0;
}
static void threads(void) {
  pthread_t t[64]; pthread_barrier_init(&BAR, 0, NT);
  for (int i = 0; i < NT; i++) pthread_create(&t[i], 0, worker, (void *)(intptr_t)i);
  for (int i = 0; i < NT; i++) pthread_join(t[i], 0);
  if (BAD >= 0) fail(&R[BAD], "the result of a call differs when other threads call the library");
  printf("COUNT threads=%d concurrent_calls=%ld\n", NT, NCALLS);
}
#ifndef LINKED
/* allocator interposition */
static __thread int INCALL; static volatile long ALLOCS;
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { if (INCALL) ALLOCS++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (INCALL) ALLOCS++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (INCALL) ALLOCS++; return __libc_realloc(p, n); }
void free(void *p) { if (INCALL && p) ALLOCS++; __libc_free(p); }
void *memalign(size_t a, size_t n) { if (INCALL) ALLOCS++; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { if (INCALL) ALLOCS++; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (INCALL) ALLOCS++; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
/* writable segments of the library object */
static const char *LIBPATH; static struct { uint8_t *p; size_t n; } SEG[16]; static int NSEG;
static int phdr(struct dl_phdr_info *i, size_t sz, void *d) {
  if (!i->dlpi_name || strcmp(i->dlpi_name, LIBPATH)) return 0;
  uintptr_t ro0 = 0, ro1 = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; ro1 = (ro0 + i->dlpi_phdr[k].p_memsz) & ~4095UL; }
  for (int k = 0; k < i->dlpi_phnum; k++) { const ElfW(Phdr) *h = &i->dlpi_phdr[k]; if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) {
    uintptr_t a = i->dlpi_addr + h->p_vaddr, e = a + h->p_memsz; if (ro1 > a && ro0 <= a) a = ro1; if (a < e && NSEG < 16) { SEG[NSEG].p = (uint8_t *)a; SEG[NSEG++].n = e - a; } } }
  return 0;
}
static uint64_t seghash(void) { uint64_t h = 14695981039346656037ULL; for (int s = 0; s < NSEG; s++) for (size_t i = 0; i < SEG[s].n; i++) h = (h ^ SEG[s].p[i]) * 1099511628211ULL; return h; }
static uint16_t x87(void) { uint16_t c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
static uint16_t x87tag(void) { struct { uint32_t w[7]; } e; __asm__ volatile("fnstenv %0\n\tfldenv %0" : "=m"(e)); return (uint16_t)e.w[2]; }
static void history(void) {
  long nnear = 0;
  static struct arena A; uint32_t res[1100]; uint64_t s = SEED; long n = 0; int last = -1;
  int *ord = malloc(NR * sizeof *ord); for (int i = 0; i < NR; i++) ord[i] = i;
  dl_iterate_phdr(phdr, 0); uint64_t h0 = seghash(); long nb = 0; for (int i = 0; i < NSEG; i++) nb += SEG[i].n;
  for (int it = 0; it < PASSES; it++) {
    if (it == 1) for (int i = 0; i < NR / 2; i++) { int t = ord[i]; ord[i] = ord[NR - 1 - i]; ord[NR - 1 - i] = t; }
    if (it > 1) for (int i = NR - 1; i > 0; i--) { int j = (int)(rnd(&s) % (i + 1)), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
    for (int i = 0; i < NR; i++) {
      struct rec *r = &R[ord[i]]; *CUR = ord[i]; int rep = (rnd(&s) & 15) == 0 ? 3 : 1;
      if ((rnd(&s) & 1) == 0) {          /* first a call with nearly the same arguments: a stale cached value would be taken for this one */
        static uint32_t tmp[1100], junk[1100]; const struct sig *g = &SIGS[r->fn]; struct rec q = *r; int w = words(g), keep = (int)(rnd(&s) % (g->np + 1)), big = (rnd(&s) & 3) == 0; memcpy(tmp, r->in, 4 * w); q.in = tmp;
        for (int p = 0; p < g->np; p++) if (g->flt[p] && p != keep && g->role[p] != 'o') for (int j = 0; j < g->n[p]; j++) { uint32_t *u = tmp + offs(g, p) + j, m = *u & 0x7fffffff; if (m > 0x3000000 && m < 0x7f000000) { uint32_t dl = (uint32_t)(rnd(&s) % (big ? 4096 : 9)); *u += (rnd(&s) & 1) ? dl : -dl; } }
        call(&q, &A, 1, junk); nnear++;
      }
      for (int q = 0; q < rep; q++) {
        INCALL = 1; call(r, &A, it & 1, res); INCALL = 0; n++;
        if (ALLOCS) fail(r, "the call used the heap");
        if (!agrees(r, res)) { char b[256]; snprintf(b, sizeof b, "the result depends on earlier calls (previous call: %s)", last < 0 ? "none" : SIGS[R[last].fn].name); fail(r, b); }
        last = ord[i];
      }
      if (NSEG && (i & 7) == 0 && seghash() != h0) fail(r, "writable global data of the library changed (in this call or one of the seven before)");
    }
  }
  if (NSEG && seghash() != h0) fail(0, "writable global data of the library changed");
  printf("COUNT history_orders=%d history_calls=%ld near_miss_predecessors=%ld writable_library_bytes_watched=%ld\n", PASSES, n, nnear, nb);
}
static void fpenv(void) {
  static struct arena A; uint32_t res[1100]; long n = 0; static const unsigned M[] = {0x1f80, 0x3f80, 0x5f80, 0x7f80, 0x9f80, 0x1fc0, 0x9fc0};
  static const uint16_t W[] = {0x37f, 0x27f, 0xf7f, 0xb7f};
  for (int k = 0; k < NR; k++) for (int j = 0; j < 7; j++) {
    struct rec *r = &R[k]; *CUR = k; uint16_t w = W[(k + j) & 3];
    __asm__ volatile("fldcw %0" ::"m"(w)); _mm_setcsr(M[j]);
    call(r, &A, 1, res); n++;
    unsigned m = _mm_getcsr() & ~0x3fu; uint16_t w2 = x87(), tag = x87tag(), w0 = 0x37f; _mm_setcsr(0x1f80); __asm__ volatile("fldcw %0" ::"m"(w0));
    if (m != M[j]) { char b[128]; snprintf(b, sizeof b, "the SSE control register changed from %x to %x", M[j], m); fail(r, b); }
    if (w2 != w) fail(r, "the x87 control word changed");
    if (tag != 0xffff) fail(r, "the x87/MMX register stack was left in use");
  }
  printf("COUNT fp_environment_calls=%ld fp_environments=28\n", n);
}
/* no system call at all: run in a child under strict seccomp */
static void quiet(void) {
  static struct arena A; static uint32_t res[1100]; fflush(stdout); pid_t p = fork();
  if (p == 0) {
    if (prctl(PR_SET_SECCOMP, 1, 0, 0, 0)) { syscall(SYS_exit, 5); }
    for (int k = 0; k < NR; k++) { *CUR = k; call(&R[k], &A, 1, res); }
    syscall(SYS_exit, 0);
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) fail(&R[*CUR], "the call made a system call (killed by seccomp)");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 5) { printf("NOTE strict seccomp is not available here\n"); return; }
  printf("COUNT syscall_free_calls=%d\n", NR);
}
#endif
int main(int argc, char **argv) {
  /* mode log statusfile passes threads seed max [lib.so] */
  if (argc < 8) return 3;
  const char *mode = argv[1]; PASSES = atoi(argv[4]); NT = atoi(argv[5]); SEED = strtoull(argv[6], 0, 10);
  int fd = open(argv[3], O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 4096)) return 3; CUR = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
#ifdef LINKED
  FNS = vt_fns; ALS = vt_als;
#else
  LIBPATH = argv[8]; void *h = dlopen(LIBPATH, RTLD_NOW); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  FNS = dlsym(h, "vt_fns"); ALS = dlsym(h, "vt_als");
#endif
  table(); load(argv[2], atoi(argv[7])); if (!NR) { printf("COUNT records=0\nOK\n"); return 0; }
  printf("COUNT records=%d\n", NR);
  if (!strcmp(mode, "san")) { san(PASSES); printf("COUNT san_calls=%ld\n", (long)NR * PASSES); }
  else if (!strcmp(mode, "threads")) { baseline(); threads(); }
#ifndef LINKED
  else if (!strcmp(mode, "hist")) { baseline(); history(); fpenv(); quiet(); }
#endif
  else return 3;
  printf("OK\n"); return 0;
}
