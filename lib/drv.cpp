// Workload driver: calls the real library (shared objects built from the current tree, one
// per build configuration and API form) on generated cases and lets monitors judge every call.
#include "core.h"
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <xmmintrin.h>

double KS = 6;
uint64_t PSIG;
std::vector<Ent> REG;

typedef void (*wfn)(void **);
struct vt_fn { const char *name; wfn fn; };
struct vt_al { const char *name; int size, align; };
struct Lib { std::string name, form, path; bool noext = false; int sub = 1; bool skip(int idx, int nsh, int style) const { return (noext && style >= 10) || (sub > 1 && (idx / nsh) % sub); } std::map<std::string, wfn> fn; std::map<std::string, int> al; };
static std::map<std::string, Api> API;
static std::vector<std::string> ORDER;
static std::vector<Lib> LIBS;

static void loadApi(const char *p) {
  std::ifstream f(p); std::string ln; Api a;
  while (std::getline(f, ln)) {
    std::istringstream s(ln); std::string k; s >> k;
    if (k == "F") { int np, hc, hs; std::string rk; a = Api(); s >> a.name >> rk >> np >> hc >> hs; a.rk = rk[0]; a.hasCall = hc; a.hasStruct = hs; API[a.name] = a; ORDER.push_back(a.name); }
    else if (k == "P") { Par q; std::string kk, r; s >> kk >> r >> q.cols >> q.rows >> q.name; std::getline(s, q.type); q.type.erase(0, 1); q.kind = kk[0]; q.role = r[0]; q.n = q.cols * q.rows; API[a.name].p.push_back(q); }
  }
}
static bool loadLib(const std::string &spec) {
  Lib l; std::istringstream s(spec); std::getline(s, l.name, ','); std::getline(s, l.form, ','); std::getline(s, l.path, ','); std::string fl; std::getline(s, fl, ','); l.noext = fl.find('x') != std::string::npos; if (fl[0] == 'p') l.sub = atoi(fl.c_str() + 1);
  void *h = dlopen(l.path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
  const vt_fn *t = (const vt_fn *)dlsym(h, "vt_fns"); const vt_al *al = (const vt_al *)dlsym(h, "vt_als");
  if (!t || !al) { fprintf(stderr, "dlsym: %s\n", dlerror()); return false; }
  for (; t->name; t++) if (t->fn) l.fn[t->name] = t->fn;
  for (; al->name; al++) l.al[al->name] = al->align;
  LIBS.push_back(l); return true;
}
static int alignOf(const Lib &l, const Par &q) {
  std::string t = q.type; auto it = l.al.find(t); if (it != l.al.end()) return it->second;
  size_t b = t.find_first_of("*["); if (b != std::string::npos) { it = l.al.find(t.substr(0, b)); if (it != l.al.end()) return it->second; }
  return 4;
}
// ---------------------------------------------------------------- generators
static const float POOL[] = {0.f, -0.f, 1.f, -1.f, .5f, -.5f, 2.f, -2.f, 3.f, .25f, 1e-3f, -1e-3f, 1e-4f, 1e-5f, 1.1920929e-7f, 1e-6f, -1e-6f, 1e-7f, 2e-6f,
  3.14159274f, 1.57079637f, -3.14159274f, .785398185f, .99999994f, 1.00000012f, -.99999994f, 1e-10f, 1e-20f, 1e10f, 100.f, 255.f, 16777216.f, 16777217.f, 0.1f, 0.9f, 1.5f, -1.5f, 2.5f};
static const float EXT[] = {1.17549435e-38f, 1.4e-45f, -1.4e-45f, 1e-40f, 3.4028235e38f, -3.4028235e38f, 1e38f, 1e30f, -1e30f, 1e-30f, 1e19f, 1e-19f, 1.8446743e19f, 1e20f, -1e25f, 2147483648.f, -2147483648.f, 2147483520.f, 4e9f};
#define NEL(a) ((int)(sizeof(a) / sizeof(a[0])))
static float fbits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static float special(Rng &r) {
  switch (r.r(8)) { case 0: return INFINITY; case 1: return -INFINITY; case 2: return NAN; case 3: return fbits(0x7f800001u); case 4: return fbits(0xffc00001u);
    case 5: return fbits(0x7fffffffu); case 6: return fbits(0xff800000u | (uint32_t)(r.u() & 0x7fffff)); default: return fbits(0x7f800000u | (uint32_t)(r.u() & 0x7fffff)); }
}
float gfloat(C &c, int style) {
  Rng &r = c.rng;
  switch (style) {
    case 0: return (float)r.r(-4, 4);
    case 1: return r.f(-1, 1);
    case 2: return r.f(-100, 100);
    case 3: return (float)(r.sgn() * r.logu(1e-4, 1e4));
    case 4: return POOL[r.r(NEL(POOL))];
    case 5: return r.p(.6) ? 0.f : (r.p(.5) ? 1.f : r.f(-2, 2));
    case 6: return (float)(r.sgn() * r.logu(1e-9, 1e9));
    case 7: return r.f(0, 1);
    case 8: return (float)(r.sgn() * (r.r(40) * 0.25));
    case 9: return r.f(-10, 10);
    case 10: return r.p(.5) ? EXT[r.r(NEL(EXT))] : (float)(r.sgn() * r.logu(1e-42, 3e38));   // extremes
    case 11: return fbits((uint32_t)r.u());                                                  // any bit pattern
    default: return r.p(.5) ? special(r) : (r.p(.5) ? POOL[r.r(NEL(POOL))] : r.f(-10, 10));
  }
}
static const int IPOOL[] = {0, 1, -1, 2, -2, 3, 7, -7, 10, 255, 1000, -1000, 46340, 46341, -46341, 65535, 65536, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), 16777216, 16777217, 23170, 26754};
static int gint(C &c, int style) {
  Rng &r = c.rng;
  switch (style % 6) { case 0: return r.r(-4, 4); case 1: return r.r(-100, 100); case 2: return r.r(-30000, 30000); case 3: return IPOOL[r.r(NEL(IPOOL))]; case 4: return r.p(.5) ? r.r(-9, 9) : IPOOL[r.r(NEL(IPOOL))]; default: return (int)(uint32_t)r.u() >> r.r(20); }
}
void gvec(C &c, int p, int off, int n, double lo, double hi) {
  double x[8], s = 0; Rng &r = c.rng; int sh = r.p(.12) ? r.r(4) : -1;   // a direction with equal, missing or very different components
  do { s = 0; for (int k = 0, z = r.r(n); k < n; k++) { x[k] = sh == 0 ? r.sgn() * .9 / sqrt(n) : r.d(-1, 1); if (sh == 1 && k == z) x[k] = 0; if (sh == 2) x[k] = k == z ? r.sgn() * r.d(.1, .9) : x[k] * 1e-5; if (sh == 3) x[k] = r.r(-2, 2) * .25; s += x[k] * x[k]; } } while (s < 1e-4 || s > 1);
  double m = (hi > 1.5 * lo ? c.rng.len(lo, hi) : c.rng.logu(lo, hi)) / sqrt(s);
  for (int k = 0; k < n; k++) c.sf(p, off + k, x[k] * m);
}
void gunit(C &c, int p, int off, int n) {
  if (c.rng.p(.15)) { int a = c.rng.r(n); double s = c.rng.sgn(); for (int k = 0; k < n; k++) c.sf(p, off + k, k == a ? s : 0); return; }
  if (c.rng.p(.1)) {   // two non-zero components at 45 degrees, or nearly an axis
    int a = c.rng.r(n), b = (a + 1 + c.rng.r(n - 1)) % n; double t = c.rng.p(.5) ? M_PI / 4 : c.rng.logu(1e-6, .1);
    double s1 = c.rng.sgn(), s2 = c.rng.sgn();
    for (int k = 0; k < n; k++) c.sf(p, off + k, k == a ? s1 * cos(t) : k == b ? s2 * sin(t) : 0); return; }
  if (c.rng.p(.04)) { double s = c.rng.sgn(); bool eq = c.rng.p(.5); for (int k = 0; k < n; k++) c.sf(p, off + k, (eq ? s : c.rng.sgn()) / sqrt(n)); return; }
  gvec(c, p, off, n, 1, 1.0000001);
  double s = 0; for (int k = 0; k < n; k++) s += (double)c.f(p, off + k) * c.f(p, off + k);
  s = sqrt(s); for (int k = 0; k < n; k++) c.sf(p, off + k, c.f(p, off + k) / s);
}
double gangle(C &c) {
  Rng &r = c.rng;
  if (r.p(.05)) return r.sgn() * r.logu(20, 1e5);
  if (r.p(.02)) return r.sgn() * r.logu(1e-9, 1e-6);
  switch (r.r(7)) { case 0: return r.r(-8, 8) * (M_PI / 4); case 1: return r.r(-4, 4) * (M_PI / 2); case 2: return r.p(.25) ? r.r(-12, 12) * .5 : r.d(-20, 20); case 3: return r.sgn() * r.logu(1e-6, 1e-1);
    case 4: return r.r(-2, 2) * (M_PI / 2) + r.sgn() * r.logu(1e-5, 1e-1); default: return r.d(-M_PI, M_PI); }
}
void gquat(C &c, double q[4]) {
  double s; Rng &r = c.rng;
  int k = r.r(9);
  if (k == 8) { if (r.p(.3)) { for (int i = 0; i < 4; i++) q[i] = r.sgn() * .5; return; } int z = r.p(.5) ? 3 : r.r(4); do { s = 0; for (int i = 0; i < 4; i++) { q[i] = i == z ? 0 : r.p(.3) ? r.r(-3, 3) * .25 : r.d(-1, 1); s += q[i] * q[i]; } } while (s < 1e-3); s = sqrt(s); for (int i = 0; i < 4; i++) q[i] /= s; return; }
  if (k == 0) { int a = r.r(4); double g = r.sgn(); for (int i = 0; i < 4; i++) q[i] = i == a ? g : 0; return; }
  if (k == 1) { double t = gangle(c) / 2; int a = r.r(3); for (int i = 0; i < 3; i++) q[i] = i == a ? sin(t) : 0; q[3] = cos(t); return; }
  do { s = 0; for (int i = 0; i < 4; i++) { q[i] = r.d(-1, 1); s += q[i] * q[i]; } } while (s < 1e-3 || s > 1);
  s = sqrt(s); for (int i = 0; i < 4; i++) q[i] /= s;
  if (k == 2) { double w = r.sgn() * r.logu(1e-5, .05), n = sqrt(1 - w * w) / sqrt(1 - q[3] * q[3] + 1e-300); for (int i = 0; i < 3; i++) q[i] *= n; q[3] = w; }
}
void grot3(C &c, double R[3][3]) {
  double q[4]; gquat(c, q); double x = q[0], y = q[1], z = q[2], w = q[3];
  double m[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)}, {2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)}, {2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)}};
  memcpy(R, m, sizeof m);
}
static uint32_t poisonWord(Rng &r) { float f = (float)(r.sgn() * r.d(1000, 9000)); uint32_t b; memcpy(&b, &f, 4); return b; }
// what an output holds before the call: mostly large values nothing would produce, sometimes plain ones (zero, one,
// equal or opposite elements, small, negative, the first input): nothing may depend on it
void gpoison(C &c, int p, Rng &r) {
  const Par &q = c.api->p[p]; int k = r.p(.7) ? 0 : r.r(1, 8); double x = r.d(1000, 9000), y = r.sgn() * r.r(1, 4);
  for (int j = 0; j < q.n; j++) {
    if (!k) { c.in[p][j] = poisonWord(r); continue; }
    double v = k == 1 ? 0 : k == 2 ? 1 : k == 3 ? x : k == 4 ? (j & 1 ? -x : x) : k == 5 ? -x : k == 6 ? y : k == 7 ? (j & 1 ? x : 0) : r.sgn() * 1e-6;
    if (q.kind == 'n' || q.kind == 'i') c.si(p, j, (long long)v); else c.sf(p, j, v);
  }
}
// inputs of a particular shape: identity, diagonal, (anti)symmetric, small or large matrices, vectors with equal, missing or negative components
static void gshape(C &c, int p) {
  const Par &q = c.api->p[p]; Rng &r = c.rng; int n = q.cols; bool sq = q.n == n * q.rows && n == q.rows && n > 1 && q.type.compare(0, 3, "mat") == 0; int k = r.r(7);
  if (k == 0) { double s = ldexp(1, r.r(-20, 20)); for (int j = 0; j < q.n; j++) if (fabs(c.f(p, j)) < 1e12) c.sf(p, j, c.f(p, j) * s); return; }
  if (sq) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
    int i = a * n + b, t = b * n + a;
    if (k == 1) c.sf(p, i, a == b); else if (k == 2) { if (a != b) c.sf(p, i, 0); } else if (k == 3) { if (b > a) c.sf(p, i, c.f(p, t)); } else if (k == 4) { if (b > a) c.sf(p, t, -c.f(p, i)); }
    else if (k == 5) { if (b == n - 1) c.sf(p, i, a == b); } else if (a == n - 1 && b < n - 1) c.sf(p, i, 0);
    if (k == 4 && a == b && r.p(.5)) c.sf(p, i, 0);
  }
  else if (q.n <= 4) {
    int z = r.r(q.n);
    for (int j = 0; j < q.n; j++) { double x = c.f(p, j); if (k == 1) x = c.f(p, 0); else if (k == 2) { if (j == z) x = 0; } else if (k == 3) x = -fabs(x); else if (k == 4) { if (j == z) x = -x; } else if (k == 5) { if (j != z) x *= 0x1p-17; } else if (j == z) x = j ? c.f(p, 0) : -c.f(p, q.n - 1); c.sf(p, j, x); }
  }
}
void gdefault(C &c, int flags) {
  Rng &r = c.rng; const Api &a = *c.api;
  static const int ST[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 9, 3};
  int base = ST[c.idx % NEL(ST)];
  if ((flags & EXTREME) && c.idx % 9 == 8) base = 10;
  if ((flags & SPECIAL) && c.idx % 7 == 6) base = 12;
  if ((flags & SPECIAL) && c.idx % 31 == 30) base = 11;
  c.style = base;
  for (int p = 0; p < c.np(); p++) {
    const Par &q = a.p[p];
    int st = r.p(.2) ? ST[r.r(NEL(ST))] : base;
    if (q.role == 'o') { gpoison(c, p, r); continue; }
    if (q.kind == 'f' && base < 10 && r.p(.3)) { static const float T[] = {0, 1, .5f, -1, 2, .25f, -.5f, 1.5f}; c.sf(p, 0, T[r.r(NEL(T))]); continue; }
    for (int k = 0; k < q.n; k++) {
      if (q.kind == 'n' || q.kind == 'i') c.si(p, k, gint(c, c.idx + (r.p(.2) ? r.r(6) : 0)));
      else { float f = gfloat(c, st); memcpy(&c.in[p][k], &f, 4); }
    }
    if (q.kind == 'a' && base < 10 && r.p(.22)) gshape(c, p);
    if (q.kind == 'n' && r.p(.08)) { int s = r.r(3), w = r.r(q.n), x = c.i(p, w); for (int k = 0; k < q.n; k++) c.si(p, k, s == 0 || (s == 1 && k == w) ? x : 0); }
    if (q.kind == 'i' && r.p(.12)) for (int p2 = 0; p2 < p; p2++) if (a.p[p2].kind == 'n' && a.p[p2].role != 'o') { int x = c.i(p2, r.r(a.p[p2].n)); c.si(p, 0, x != INT_MIN && r.p(.4) ? -x : x); break; }
    // relations between inputs of one type: equal, nearly equal, negated, one element shared
    for (int p2 = 0; p2 < p; p2++) if (a.p[p2].type == q.type && a.p[p2].role != 'o') {
      double z = r.d();
      if (z < .06) memcpy(c.in[p], c.in[p2], 4 * q.n);
      else if (z < .10) for (int k = 0; k < q.n; k++) { if (q.kind == 'a' || q.kind == 'f') c.sf(p, k, -c.f(p2, k)); else if (c.i(p2, k) != INT_MIN) c.si(p, k, -c.i(p2, k)); }
      else if (z < .16) for (int k = 0; k < q.n; k++) { if (q.kind == 'a' || q.kind == 'f') c.sf(p, k, c.f(p2, k) * (1 + r.sgn() * r.logu(1e-7, 1e-2))); else c.si(p, k, (long long)c.i(p2, k) + r.r(-1, 1)); }
      else if (z < .26) { int k = r.r(q.n); c.in[p][k] = c.in[p2][k]; }
      else if (z < .32) { memcpy(c.in[p], c.in[p2], 4 * q.n); int k = r.r(q.n); if (q.kind == 'a' || q.kind == 'f') { float f = gfloat(c, st); memcpy(&c.in[p][k], &f, 4); } else c.si(p, k, gint(c, r.r(6))); }
    }
  }
  if ((flags & NANIN) && c.idx % 23 == 22) {
    int k = 0; for (int p = 0; p < c.np(); p++) if (a.p[p].role != 'o' && (a.p[p].kind == 'a' || a.p[p].kind == 'f')) k += a.p[p].n;
    if (k) { k = r.r(k); for (int p = 0; p < c.np(); p++) if (a.p[p].role != 'o' && (a.p[p].kind == 'a' || a.p[p].kind == 'f')) { if (k < a.p[p].n) { c.in[p][k] = 0x7FC00000u; break; } k -= a.p[p].n; } }
  }
}
// ---------------------------------------------------------------- memory placement
struct Region { uint8_t *base; size_t len; };           // guard | usable | guard
static Region REGN[MAXP + 1];
static const size_t PG = 4096;
static uint8_t *ARENA[MAXP + 1];
static void initMem() {
  for (int i = 0; i <= MAXP; i++) {
    uint8_t *b = (uint8_t *)mmap(0, 3 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(b + PG, PG, PROT_READ | PROT_WRITE); REGN[i] = {b + PG, PG};
    ARENA[i] = (uint8_t *)aligned_alloc(64, 2048);
  }
}
static const uint8_t CAN = 0xC5;
enum { PL_CANARY, PL_END, PL_START };
struct Lay { uint8_t *p[MAXP + 1]; };
static void place(const C &c, const Lib &l, int mode, Rng &r, Lay &L, const int *share) {
  int np = c.np();
  for (int i = 0; i <= np; i++) {
    size_t sz = i < np ? 4 * (size_t)c.api->p[i].n : 4; int al = i < np ? alignOf(l, c.api->p[i]) : 4;
    if (share && share[i] != i) continue;
    if (mode == PL_CANARY) {
      memset(ARENA[i], CAN, 2048);
      size_t off = 256; int k = r.r(4);
      if (k == 1) off += al; else if (k == 2) off += al * (1 + (size_t)r.r(64 / al));
      L.p[i] = ARENA[i] + off;
    } else if (mode == PL_END) L.p[i] = REGN[i].base + REGN[i].len - sz;
    else L.p[i] = REGN[i].base;
    if (mode != PL_CANARY) memset(REGN[i].base, CAN, REGN[i].len);
    if (i < np) memcpy(L.p[i], c.in[i], sz); else memset(L.p[i], 0xA7, sz);
  }
  if (share) for (int i = 0; i <= np; i++) if (share[i] != i) L.p[i] = L.p[share[i]];
}
static const char *scan(const uint8_t *b, size_t n, const uint8_t *x, size_t sz) {
  for (const uint8_t *q = b; q < x; q++) if (*q != CAN) return "wrote before the object";
  for (const uint8_t *q = x + sz; q < b + n; q++) if (*q != CAN) return "wrote past the object";
  return 0;
}
static std::string canaries(const C &c, int mode, const Lay &L, const int *share) {
  for (int i = 0; i <= c.np(); i++) {
    if (share && share[i] != i) continue;
    size_t sz = i < c.np() ? 4 * (size_t)c.api->p[i].n : 4; const char *e;
    if (mode == PL_CANARY) e = scan(ARENA[i] + 0, 2048, L.p[i], sz); else e = scan(REGN[i].base, REGN[i].len, L.p[i], sz);
    if (e) return std::string(e) + " " + (i < c.np() ? c.api->p[i].name : "return slot");
  }
  return "";
}
// ---------------------------------------------------------------- guarded call
static const char *CURFN = ""; static int CURCASE, OUTFD = -1;
static void died(int s) { char b[256]; int n = snprintf(b, sizeof b, "\n{\"kind\":\"died\",\"fn\":\"%s\",\"case\":%d,\"signal\":%d}\n", CURFN, CURCASE, s); if (OUTFD >= 0 && write(OUTFD, b, n) < 0) _exit(9); }
static sigjmp_buf JB; static volatile sig_atomic_t INCALL; static volatile long CALLNO, LASTNO; static volatile int STUCK; static volatile int SIGNO; static void *volatile SIGADDR;
static void onSig(int s, siginfo_t *si, void *) { if (INCALL) { SIGNO = s; SIGADDR = si->si_addr; siglongjmp(JB, 1); } died(s); signal(s, SIG_DFL); raise(s); }
static void onTick(int) {
  if (!INCALL) { STUCK = 0; return; }
  if (LASTNO == CALLNO) { if (++STUCK >= 5) { SIGNO = 0; STUCK = 0; siglongjmp(JB, 2); } } else { STUCK = 0; LASTNO = CALLNO; }
}
static void initSig() {
  stack_t st; st.ss_sp = malloc(1 << 16); st.ss_size = 1 << 16; st.ss_flags = 0; sigaltstack(&st, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSig; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT}; for (int s : sg) sigaction(s, &sa, 0);
  struct sigaction sb; memset(&sb, 0, sizeof sb); sb.sa_handler = onTick; sigaction(SIGVTALRM, &sb, 0);
  struct itimerval it = {{2, 0}, {2, 0}}; setitimer(ITIMER_VIRTUAL, &it, 0);
}
static unsigned MX0;
static std::string invoke(wfn f, void **pp) {
  CALLNO++;
  int j = sigsetjmp(JB, 1);
  if (j == 0) { INCALL = 1; f(pp); INCALL = 0; 
    unsigned m = _mm_getcsr(); if ((m ^ MX0) & ~0x3fu) { _mm_setcsr(MX0); char b[64]; snprintf(b, sizeof b, "floating-point control word changed (%x -> %x)", MX0, m); return b; }
    return ""; }
  INCALL = 0; _mm_setcsr(MX0);
  if (j == 2) return "hang: the call used 10 s of CPU time without returning";
  char b[96]; snprintf(b, sizeof b, "crash: signal %d (%s)", SIGNO, strsignal(SIGNO)); return b;
}
static std::string callOn(C &c, const Lib &l, wfn f, int mode, Rng &r, const int *share, bool chkInputs) {
  Lay L; place(c, l, mode, r, L, share);
  void *pp[MAXP + 2]; for (int i = 0; i <= c.np(); i++) pp[i] = L.p[i];
  std::string e = invoke(f, pp);
  if (!e.empty()) return e;
  for (int i = 0; i <= c.np(); i++) memcpy(c.act[i], L.p[i], i < c.np() ? 4 * (size_t)c.api->p[i].n : 4);
  e = canaries(c, mode, L, share); if (!e.empty()) return "memory: " + e;
  if (chkInputs) for (int i = 0; i < c.np(); i++) if (c.api->p[i].role == 'i' && (!share || share[i] == i) && memcmp(c.act[i], c.in[i], 4 * c.api->p[i].n)) {
    bool shared = false; if (share) for (int j = 0; j < c.np(); j++) if (j != i && share[j] == i) shared = true;
    if (!shared) return "memory: input argument " + c.api->p[i].name + " was modified";
  }
  return "";
}
// ---------------------------------------------------------------- comparison
struct Stat { long cases = 0, calls = 0, concl = 0, amb = 0, inv = 0, elems = 0, skipel = 0; double maxr = 0; std::unordered_set<uint64_t> sigs; };
static std::string elemName(const C &c, int p, int k) {
  if (p == c.np()) return "return value";
  const Par &q = c.api->p[p]; char b[128];
  if (q.cols > 1) snprintf(b, sizeof b, "%s[%d][%d]", q.name.c_str(), k / q.rows, k % q.rows); else if (q.n > 1) snprintf(b, sizeof b, "%s[%d]", q.name.c_str(), k); else snprintf(b, sizeof b, "%s", q.name.c_str());
  return b;
}
static std::string cmpElem(C &c, int p, int k, Stat &st) {
  char b[320];
  if (c.oset[p][k] == 3) return "";
  if (c.oset[p][k] == 2) {
    st.elems++;
    if ((long long)c.AI(p, k) != c.iout[p][k]) { snprintf(b, sizeof b, "%s is %d, expected %lld", elemName(c, p, k).c_str(), c.AI(p, k), c.iout[p][k]); return b; }
    return "";
  }
  E e = c.out[p][k]; float a = c.A(p, k);
  if (e.unk()) { st.skipel++; return ""; }
  if (std::isnan(e.v)) { st.elems++; if (!std::isnan(a)) { snprintf(b, sizeof b, "%s is %.9g, expected NaN", elemName(c, p, k).c_str(), a); return b; } return ""; }
  if (std::isinf(e.v)) { st.elems++; if (!((double)a == e.v)) { snprintf(b, sizeof b, "%s is %.9g, expected %g", elemName(c, p, k).c_str(), a, e.v); return b; } return ""; }
  double er = e.e + c.extra * fabs(e.v) / KS + c.extraAbs / KS;
  if (fabs(e.v) + KS * er > 3.4028e38) { st.skipel++; return ""; }
  st.elems++;
  double d = fabs((double)a - e.v);
  if (er > 0 && std::isfinite(d)) st.maxr = std::max(st.maxr, d / er);
  if (!(d <= KS * er)) { snprintf(b, sizeof b, "%s is %.9g, expected %.9g (tolerance %.3g)", elemName(c, p, k).c_str(), a, e.v, KS * er); return b; }
  return "";
}
static std::string compare(C &c, Stat &st) {
  for (int p = 0; p <= c.np(); p++) {
    if (p == c.np() ? c.api->rk == 'v' : c.api->p[p].role == 'i') continue;
    int n = p == c.np() ? 1 : c.api->p[p].n;
    for (int k = 0; k < n; k++) {
      if (c.oset[p][k]) { std::string s = cmpElem(c, p, k, st); if (!s.empty()) return s; }
      else if (p < c.np() && c.act[p][k] != c.in[p][k]) return elemName(c, p, k) + " was written although it is not documented as an output";
      else if (p == c.np()) return "harness: reference did not set the return value of " + c.api->name;
    }
  }
  return "";
}
// ---------------------------------------------------------------- output
static FILE *OUT; static long NV; static std::map<std::string, int> VCNT;
static std::string jstr(const std::string &s) { std::string r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r + "\""; }
static std::string dumpSlots(const C &c, const uint32_t x[MAXP][CAP]) {
  std::string s;
  for (int p = 0; p < c.np(); p++) {
    const Par &q = c.api->p[p]; s += (p ? "; " : "") + q.name + "=";
    for (int k = 0; k < q.n && k < 64; k++) { char b[48]; if (q.kind == 'n' || q.kind == 'i') snprintf(b, sizeof b, "%d", (int)x[p][k]); else { float f; memcpy(&f, &x[p][k], 4); snprintf(b, sizeof b, "%.9g", f); } s += (k ? "," : "") + std::string(b); }
  }
  return s;
}
static uint64_t SEED = 1; static std::string MODE = "ref", PROP, ARG;
static void violation(const C &c, const Lib &l, const std::string &why, const std::string &extra = "") {
  NV++; std::string key = c.api->name + "|" + l.name + "|" + l.form;
  if (VCNT[key]++ >= 3) return;
  fprintf(OUT, "{\"kind\":\"violation\",\"prop\":%s,\"fn\":%s,\"lib\":%s,\"form\":%s,\"mode\":%s,\"seed\":%llu,\"case\":%d,\"why\":%s,\"extra\":%s,\"in\":%s,\"act\":%s}\n",
    jstr(PROP).c_str(), jstr(c.api->name).c_str(), jstr(l.name).c_str(), jstr(l.form).c_str(), jstr(MODE).c_str(), (unsigned long long)SEED, c.idx, jstr(why).c_str(), jstr(extra).c_str(), jstr(dumpSlots(c, c.in)).c_str(), jstr(dumpSlots(c, c.act)).c_str());
  fflush(OUT);
}
static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ULL; return h; }

static void initCase(C &c, const Ent &e, const Api &a, int idx, int moreFlags) {
  CURFN = a.name.c_str(); CURCASE = idx; c.api = &a; c.idx = idx; c.extra = c.extraAbs = 0; c.why.clear();
  c.rng = Rng(SEED ^ hstr(a.name) ^ ((uint64_t)idx * 0xD1342543DE82EF95ULL));
  gdefault(c, e.flags | moreFlags);
}
// runs generator and reference; returns 0 conclusive, 1 ambiguous, 2 invalid
static int prep(C &c, const Ent &e) {
  try {
    if (e.gen) e.gen(c);
    memset(c.oset, 0, sizeof c.oset); PSIG = 1469598103934665603ULL;
    if (e.ref) e.ref(c);
    return 0;
  } catch (Amb &) { return 1; } catch (Inv &) { return 2; }
}
static int onlyCase = -1;
static std::vector<uint64_t> HASHES;
static void note(const C &c) {          // remember a distinct, judged case
  uint64_t h = hstr(c.api->name);
  for (int p = 0; p < c.np(); p++) if (c.api->p[p].role != 'o') for (int k = 0; k < c.api->p[p].n; k++) h = (h ^ c.in[p][k]) * 0x9E3779B97F4A7C15ULL, h ^= h >> 29;
  HASHES.push_back(h);
}
static void statLine(const std::string &fn, const Stat &st, const C &c) {
  fprintf(OUT, "{\"kind\":\"stat\",\"fn\":%s,\"cases\":%ld,\"calls\":%ld,\"conclusive\":%ld,\"ambiguous\":%ld,\"invalid\":%ld,\"elements\":%ld,\"skipped\":%ld,\"maxratio\":%.3f,\"paths\":%zu,\"sample\":%s}\n",
    jstr(fn).c_str(), st.cases, st.calls, st.concl, st.amb, st.inv, st.elems, st.skipel, st.maxr, st.sigs.size(), jstr(st.cases ? fmt("case %d: ", c.idx) + dumpSlots(c, c.in).substr(0, 400) : std::string()).c_str());
}
static void modeRef(const Ent &e, int cases, int sh, int nsh) {
  const Api &a = API[e.name]; static C c; Stat st;
  for (int idx = sh; idx < cases; idx += nsh) {
    if (onlyCase >= 0 && idx != onlyCase) continue;
    initCase(c, e, a, idx, 0);
    int s = prep(c, e);
    if (s == 2) { st.inv++; continue; }
    st.cases++; if (s == 1) st.amb++; else { st.concl++; note(c); st.sigs.insert(PSIG ^ (uint64_t)c.style); }
    if (onlyCase >= 0) fprintf(stderr, "case %d status %d inputs %s\n", idx, s, dumpSlots(c, c.in).c_str());
    Rng pr(idx * 77 + 5);
    for (Lib &l : LIBS) {
      auto it = l.fn.find(e.name); if (it == l.fn.end() || l.skip(idx, nsh, c.style)) continue;
      st.calls++; c.why.clear();
      std::string w = callOn(c, l, it->second, PL_CANARY, pr, 0, true);
      if (w.empty() && s == 0 && e.ref) w = compare(c, st);
      if (w.empty() && e.chk && s != 2) { try { e.chk(c); w = c.why; } catch (Amb &) { } catch (Inv &) {} }
      if (onlyCase >= 0) fprintf(stderr, "  %s/%s: %s -> %s\n", l.name.c_str(), l.form.c_str(), w.empty() ? "ok" : w.c_str(), (dumpSlots(c, c.act) + (a.rk == 'f' ? fmt("; ret=%.9g", c.af()) : a.rk == 'i' ? fmt("; ret=%d", c.ai()) : "")).c_str());
      if (!w.empty()) violation(c, l, w);
    }
  }
  statLine(e.name, st, c);
}
#include "modes.h"

int main(int argc, char **argv) {
  const char *api = 0, *outp = 0; int cases = 1000, sh = 0, nsh = 1; std::vector<std::string> libs; std::set<std::string> only; bool list = false; std::vector<std::string> merge;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--api") api = argv[++i]; else if (a == "--out") outp = argv[++i]; else if (a == "--lib") libs.push_back(nx()); else if (a == "--prop") PROP = nx();
    else if (a == "--cases") cases = atoi(argv[++i]); else if (a == "--seed") SEED = strtoull(argv[++i], 0, 10); else if (a == "--shard") sscanf(argv[++i], "%d/%d", &sh, &nsh);
    else if (a == "--mode") MODE = nx(); else if (a == "--only") only.insert(nx()); else if (a == "--case") onlyCase = atoi(argv[++i]); else if (a == "--list") list = true; else if (a == "--dump") DUMP = nx(); else if (a == "--merge") while (i + 1 < argc) merge.push_back(nx());
    else if (a == "--arg") ARG = nx();
    else if (a == "--conv") { std::string v = nx(); CONV_LH = v.find("lh") != v.npos; CONV_ZO = v.find("zo") != v.npos; }
    else if (a == "--clip") { std::istringstream s(nx()); for (auto &r : CLIP) for (double &x : r) s >> x; }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  if (!merge.empty()) {
    std::unordered_set<uint64_t> all; for (auto &f : merge) { FILE *h = fopen(f.c_str(), "rb"); uint64_t b[512]; size_t n; if (!h) continue; while ((n = fread(b, 8, 512, h)) > 0) all.insert(b, b + n); fclose(h); }
    printf("%zu\n", all.size()); return 0;
  }
  loadApi(api);
  reg_all();
  for (Ent &e : REG) if (!API.count(e.name)) { fprintf(stderr, "reference for unknown function %s\n", e.name.c_str()); return 3; }
  if (list) { for (Ent &e : REG) printf("%s %s %c\n", e.prop.c_str(), e.name.c_str(), e.ref ? 'R' : 'C'); return 0; }
  for (auto &s : libs) if (!loadLib(s)) return 3;
  OUT = outp ? fopen(outp, "w") : stdout; if (!OUT) return 3;
  OUTFD = fileno(OUT);
  initMem(); initSig(); MX0 = _mm_getcsr() & ~0x3fu; _mm_setcsr(MX0);
  if (MODE == "ref") {
    for (Ent &e : REG) if ((PROP.empty() || PROP == "*" || e.prop == PROP) && (only.empty() || only.count(e.name))) modeRef(e, cases, sh, nsh);
  } else runMode(cases, sh, nsh, only);
  fprintf(OUT, "{\"kind\":\"end\",\"violations\":%ld}\n", NV);
  if (outp) { FILE *h = fopen((std::string(outp) + ".hash").c_str(), "wb"); if (h) { fwrite(HASHES.data(), 8, HASHES.size(), h); fclose(h); } }
  fclose(OUT); return 0;
}
