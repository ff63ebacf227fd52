// Shared by the driver and the reference definitions: running-error arithmetic, case
// storage, input generators and the registry of references.
#pragma once
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <algorithm>

static const double U_ = 5.9604644775390625e-08;      // 2^-24
static const double ETA_ = 1.4012984643248171e-45;    // 2^-149
extern double KS;                                     // slack factor on the error bound

struct Amb {};    // the exact result is on a decision boundary: run, do not compare
struct Inv {};    // outside the documented domain: do not run

// path signature of the reference (which decisions it took)
extern uint64_t PSIG;
static inline void mark(int k) { PSIG = (PSIG ^ (uint64_t)(k + 1)) * 1099511628211ULL; }

// value v, error bound e of a float evaluation, magnitude m (value with all signs positive)
// q: a power of two every exactly known term is a multiple of (0: not known to be exact).  Sums of products all of whose
// terms are multiples of q and whose magnitudes add up to less than 2^22 q are exact in float in whatever order or form
// they are evaluated, so their error is zero and comparisons on exact ties are decided.
static inline double quantum(double x) {
  uint64_t b; memcpy(&b, &x, 8); int ex = b >> 52 & 2047;
  if (x == 0) return INFINITY; if (ex == 2047 || ex < 100) return 0;
  int tz = __builtin_ctzll((b & 0xfffffffffffffull) | 1ull << 52); uint64_t r = (uint64_t)(ex - 52 + tz) << 52; double d; memcpy(&d, &r, 8); return d;
}
struct E {
  double v, e, m, q;
  E() : v(0), e(0), m(0), q(INFINITY) {}
  E(double x) : v(x), e((double)(float)x == x || x != x ? 0 : U_ * fabs(x)), m(fabs(x)), q(e == 0 ? quantum(x) : 0) {}
  E(float x) : v(x), e(0), m(fabs((double)x)), q(quantum(x)) {}
  E(int x) : v(x), e((double)(float)x == (double)x ? 0 : U_ * fabs((double)x)), m(fabs((double)x)), q(e == 0 ? quantum(x) : 0) {}
  E(double v, double e, double m, double q = 0) : v(v), e(e), m(m), q(q) {}
  bool unk() const { return std::isinf(e); }
  bool fin() const { return std::isfinite(v); }
};
static inline E unk() { return E(0.0, INFINITY, INFINITY); }
static inline E fix(E r) {
  if (!std::isfinite(r.v)) return r;
  if (!(r.m <= 3.0e38) || !(r.e <= 1e38)) return unk();
  return r;
}
static inline E exactE(double v) { return E(v, 0.0, fabs(v), quantum(v)); }
static inline E sp(double v) { return E(v, 0.0, fabs(v)); }   // known special
static inline E operator-(E a) { return E(-a.v, a.e, a.m, a.q); }
static inline bool exq(double q, double m) { return q > 1e-30 && m <= 4194304.0 * q && m < 1e30; }
static inline E operator+(E a, E b) {
  if (a.unk() || b.unk()) return unk();
  if (!a.fin() || !b.fin()) return sp(a.v + b.v);
  if (a.m == 0 && a.e == 0) return b;
  if (b.m == 0 && b.e == 0) return a;
  double m = a.m + b.m, q = std::min(a.q, b.q);
  if (a.e == 0 && b.e == 0 && exq(q, m)) return E(a.v + b.v, 0.0, m, q);
  return fix(E(a.v + b.v, a.e + b.e + U_ * m, m));
}
static inline E operator-(E a, E b) { return a + (-b); }
static inline bool ispow2(E a) { int x; return a.e == 0 && fabs(frexp(a.v, &x)) == 0.5; }
static inline E operator*(E a, E b) {
  if (a.unk() || b.unk()) return unk();
  if (!a.fin() || !b.fin()) return sp(a.v * b.v);
  if ((a.m == 0 && a.e == 0) || (b.m == 0 && b.e == 0)) return E();
  if (b.v == 1 && b.e == 0 && b.m == 1) return a;
  if (a.v == 1 && a.e == 0 && a.m == 1) return b;
  if (b.v == -1 && b.e == 0) return -a;
  if (a.v == -1 && a.e == 0) return -b;
  double m = a.m * b.m, q = a.q * b.q;
  if (a.e == 0 && b.e == 0 && exq(q, m)) return E(a.v * b.v, 0.0, m, q);
  return fix(E(a.v * b.v, fabs(a.v) * b.e + fabs(b.v) * a.e + a.e * b.e + U_ * m + ETA_, m));
}
static inline E operator/(E a, E b) {
  if (a.unk() || b.unk()) return unk();
  if (!a.fin() || !b.fin()) return sp(a.v / b.v);
  if (b.v == 0 && b.e == 0) return sp(a.v / b.v);
  double lo = fabs(b.v) - KS * b.e;
  if (lo <= 0) throw Amb();
  if (1 / lo > 3e38) return unk();
  double m = a.m / lo, v = a.v / b.v;
  if (b.v == 1 && b.e == 0) return a;
  return fix(E(v, (a.e + fabs(v) * b.e) / lo + 2 * U_ * std::max(m, 0.0) + ETA_ * (1 + a.m), m));
}
static inline E &operator+=(E &a, E b) { return a = a + b; }
static inline E &operator-=(E &a, E b) { return a = a - b; }
static inline E &operator*=(E &a, E b) { return a = a * b; }
// decide a comparison, or throw Amb
static inline bool lt(E a, E b) {
  if (a.unk() || b.unk()) throw Amb();
  bool r;
  if (!a.fin() || !b.fin() || (a.e == 0 && b.e == 0)) r = a.v < b.v;
  else {
    double d = b.v - a.v, t = KS * (a.e + b.e);
    if (fabs(d) <= t) throw Amb();
    r = d > 0;
  }
  mark(r ? 11 : 12);
  return r;
}
static inline bool le(E a, E b) {
  if (a.unk() || b.unk()) throw Amb();
  bool r;
  if (!a.fin() || !b.fin() || (a.e == 0 && b.e == 0)) r = a.v <= b.v;
  else {
    double d = b.v - a.v, t = KS * (a.e + b.e);
    if (fabs(d) <= t) throw Amb();
    r = d > 0;
  }
  mark(r ? 13 : 14);
  return r;
}
static inline bool gt(E a, E b) { return lt(b, a); }
static inline bool ge(E a, E b) { return le(b, a); }
static inline bool eq(E a, E b) {
  if (a.unk() || b.unk()) throw Amb();
  bool r;
  if (!a.fin() || !b.fin() || (a.e == 0 && b.e == 0)) r = a.v == b.v;
  else { if (fabs(a.v - b.v) <= KS * (a.e + b.e)) throw Amb(); r = false; }
  mark(r ? 15 : 16);
  return r;
}
static inline E fn1(E a, double (*f)(double), double ulp = 2) {
  if (a.unk()) return unk();
  double v = f(a.v);
  if (!std::isfinite(v) || !a.fin()) return sp(v);
  double d = 0;
  if (a.e > 0) {
    double h = f(a.v + a.e), l = f(a.v - a.e);
    if (!std::isfinite(h) || !std::isfinite(l)) throw Amb();
    d = std::max(fabs(h - v), fabs(l - v));
  }
  return fix(E(v, d + ulp * U_ * fabs(v) + ETA_, fabs(v)));
}
static inline E esqrt(E a) {           // argument mathematically non-negative
  if (a.unk()) return unk();
  if (!a.fin()) return sp(sqrt(a.v));
  if (a.v == 0 && a.e == 0) return a;
  double v = sqrt(std::max(a.v, 0.0)), h = sqrt(std::max(0.0, a.v + KS * a.e)), l = sqrt(std::max(0.0, a.v - KS * a.e));
  return fix(E(v, std::max(h - v, v - l) / KS + U_ * v + ETA_, v));
}
static inline E esqrts(E a) {          // argument of any sign: NaN below zero
  if (a.unk()) return unk();
  if (a.fin() && a.e > 0 && fabs(a.v) <= KS * a.e) throw Amb();
  if (a.v < 0) return sp(NAN);
  return esqrt(a);
}
static inline double trige(E a) { if (a.e > 0.3) throw Amb(); return a.e; }
static inline E esin(E a) { if (a.unk()) return unk(); trige(a); double v = sin(a.v); return E(v, a.e + 2 * U_ * fabs(v) + ETA_, std::max(fabs(v), 0.0)); }
static inline E ecos(E a) { if (a.unk()) return unk(); trige(a); double v = cos(a.v);
  double d = a.e * (fabs(sin(a.v)) + a.e); return E(v, d + 2 * U_ * fabs(v) + ETA_, fabs(v)); }
static inline E etan(E a) { if (a.unk()) return unk(); trige(a); double v = tan(a.v);
  double d = 0; if (a.e > 0) { double dist = fabs(cos(a.v)); if (dist < 4 * KS * a.e) throw Amb(); d = a.e * (1 + v * v) * 2; }
  return fix(E(v, d + 2 * U_ * fabs(v) + ETA_, fabs(v))); }
static inline E eacos(E a) {
  if (a.unk()) return unk();
  if (a.e > 0 && fabs(a.v) + KS * a.e >= 1) throw Amb();
  if (fabs(a.v) > 1) return sp(NAN);
  double v = acos(a.v), d = 0;
  if (a.e > 0) d = std::max(fabs(acos(std::min(1.0, a.v + KS * a.e)) - v), fabs(acos(std::max(-1.0, a.v - KS * a.e)) - v)) / KS;
  return E(v, d + 2 * U_ * v + ETA_, v);
}
static inline E easin(E a) {
  if (a.unk()) return unk();
  if (a.e > 0 && fabs(a.v) + KS * a.e >= 1) throw Amb();
  if (fabs(a.v) > 1) return sp(NAN);
  double v = asin(a.v), d = 0;
  if (a.e > 0) d = std::max(fabs(asin(std::min(1.0, a.v + KS * a.e)) - v), fabs(asin(std::max(-1.0, a.v - KS * a.e)) - v)) / KS;
  return E(v, d + 2 * U_ * fabs(v) + ETA_, fabs(v));
}
static inline E eatan2(E y, E x) {
  if (y.unk() || x.unk()) return unk();
  double r = hypot(x.v, y.v), v = atan2(y.v, x.v);
  if (y.e == 0 && x.e == 0) return E(v, 2 * U_ * fabs(v) + ETA_, fabs(v));
  double er = x.e + y.e;
  if (r <= 4 * KS * er) throw Amb();
  if (x.v < 0 && fabs(y.v) <= KS * y.e) throw Amb();    // branch cut
  return E(v, 1.5 * er / r + 2 * U_ * fabs(v) + ETA_, fabs(v));
}
static inline E eabs(E a) { return E(fabs(a.v), a.e, a.m, a.q); }
static inline E emin(E a, E b) { if (a.unk() || b.unk()) return unk(); return a.v < b.v ? E(a.v, std::max(a.e, b.e), a.m, std::min(a.q, b.q)) : E(b.v, std::max(a.e, b.e), b.m, std::min(a.q, b.q)); }
static inline E emax(E a, E b) { if (a.unk() || b.unk()) return unk(); return a.v > b.v ? E(a.v, std::max(a.e, b.e), a.m, std::min(a.q, b.q)) : E(b.v, std::max(a.e, b.e), b.m, std::min(a.q, b.q)); }
static inline E eclamp(E a, E lo, E hi) { return emin(emax(a, lo), hi); }
static inline E sq(E a) { return a * a; }
static inline E widen(E a, double rel) { a.e += rel * fabs(a.v); return a; }

// small vectors and matrices of E
struct V { int n; E x[8]; E &operator[](int i) { return x[i]; } const E &operator[](int i) const { return x[i]; } };
static inline V mkv(int n) { V r; r.n = n; return r; }
template <class F> static inline V vmap(int n, F f) { V r; r.n = n; for (int i = 0; i < n; i++) r.x[i] = f(i); return r; }
static inline V operator+(V a, V b) { return vmap(a.n, [&](int i) { return a[i] + b[i]; }); }
static inline V operator-(V a, V b) { return vmap(a.n, [&](int i) { return a[i] - b[i]; }); }
static inline V operator*(V a, V b) { return vmap(a.n, [&](int i) { return a[i] * b[i]; }); }
static inline V operator*(V a, E s) { return vmap(a.n, [&](int i) { return a[i] * s; }); }
static inline V operator/(V a, E s) { return vmap(a.n, [&](int i) { return a[i] / s; }); }
static inline V operator-(V a) { return vmap(a.n, [&](int i) { return -a[i]; }); }
static inline E dot(V a, V b) { E s = a[0] * b[0]; for (int i = 1; i < a.n; i++) s = s + a[i] * b[i]; return s; }
static inline E norm2(V a) { return dot(a, a); }
static inline E norm(V a) { return esqrt(norm2(a)); }
static inline V cross(V a, V b) { V r; r.n = 3; r[0] = a[1] * b[2] - a[2] * b[1]; r[1] = a[2] * b[0] - a[0] * b[2]; r[2] = a[0] * b[1] - a[1] * b[0]; return r; }
static inline V cut(V a, int n) { a.n = n; return a; }
static inline V v3(E x, E y, E z) { V r; r.n = 3; r[0] = x; r[1] = y; r[2] = z; return r; }
static inline V v2(E x, E y) { V r; r.n = 2; r[0] = x; r[1] = y; return r; }
static inline V v4(E x, E y, E z, E w) { V r; r.n = 4; r[0] = x; r[1] = y; r[2] = z; r[3] = w; return r; }
struct M { int c, r; V x[8]; V &operator[](int i) { return x[i]; } const V &operator[](int i) const { return x[i]; } };  // columns
static inline M mkm(int c, int r) { M m; m.c = c; m.r = r; for (int i = 0; i < c; i++) m[i].n = r; return m; }
template <class F> static inline M mmap_(int c, int r, F f) { M m = mkm(c, r); for (int i = 0; i < c; i++) for (int j = 0; j < r; j++) m[i][j] = f(i, j); return m; }
static inline M ident(int n) { return mmap_(n, n, [](int i, int j) { return E(i == j ? 1 : 0); }); }
static inline M operator*(M a, M b) {   // a.c == b.r
  return mmap_(b.c, a.r, [&](int i, int j) { E s = a[0][j] * b[i][0]; for (int k = 1; k < a.c; k++) s = s + a[k][j] * b[i][k]; return s; });
}
static inline V operator*(M a, V b) { return vmap(a.r, [&](int j) { E s = a[0][j] * b[0]; for (int k = 1; k < a.c; k++) s = s + a[k][j] * b[k]; return s; }); }
static inline V vmul(V row, M a) { return vmap(a.c, [&](int j) { return dot(cut(row, a.r), a[j]); }); }  // row vector * matrix
static inline M transp(M a) { return mmap_(a.r, a.c, [&](int i, int j) { return a[j][i]; }); }
static inline E det3(M m, int a, int b, int c, int p, int q, int r) {
  return m[a][p] * (m[b][q] * m[c][r] - m[c][q] * m[b][r]) - m[b][p] * (m[a][q] * m[c][r] - m[c][q] * m[a][r]) + m[c][p] * (m[a][q] * m[b][r] - m[b][q] * m[a][r]);
}
static inline E det(M m) {
  if (m.c == 2) return m[0][0] * m[1][1] - m[1][0] * m[0][1];
  if (m.c == 3) return det3(m, 0, 1, 2, 0, 1, 2);
  E s;
  for (int i = 0; i < 4; i++) {
    int c[3], k = 0; for (int j = 0; j < 4; j++) if (j != i) c[k++] = j;
    E t = m[i][0] * det3(m, c[0], c[1], c[2], 1, 2, 3);
    s = i == 0 ? t : (i & 1 ? s - t : s + t);
  }
  return s;
}
static inline E minor_(M m, int ci, int ri) {
  int n = m.c, c[3], r[3], k = 0;
  for (int j = 0; j < n; j++) if (j != ci) c[k++] = j;
  k = 0; for (int j = 0; j < n; j++) if (j != ri) r[k++] = j;
  if (n == 2) return m[c[0]][r[0]];
  if (n == 3) return m[c[0]][r[0]] * m[c[1]][r[1]] - m[c[1]][r[0]] * m[c[0]][r[1]];
  return det3(m, c[0], c[1], c[2], r[0], r[1], r[2]);
}
static inline M inverse(M m) {          // adjugate / det, with error bounds
  E d = det(m);
  if (d.v == 0) throw Amb();
  return mmap_(m.c, m.c, [&](int i, int j) { E x = minor_(m, j, i); if ((i + j) & 1) x = -x; if (!ispow2(d)) x = E(x.v, x.e + 2 * U_ * x.m, x.m); return x / d; });  // 1/det may be rounded first and multiplied into each term
}

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { u(); u(); }
  uint64_t u() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  int r(int n) { return (int)(u() % (uint64_t)n); }
  int r(int a, int b) { return a + r(b - a + 1); }
  double d() { return (double)(u() >> 11) * (1.0 / 9007199254740992.0); }
  double d(double a, double b) { return a + (b - a) * d(); }
  float f(double a, double b) { return (float)d(a, b); }
  bool p(double x) { return d() < x; }
  double logu(double a, double b) { return exp(d(log(a), log(b))); }
  double sgn() { return r(2) ? 1 : -1; }
  // positions and extents whose usual range has no meaning: sometimes far outside it
  double pos(double a, double b) { double k = d(); return k < .05 ? sgn() * logu(1e2, 1e5) : k < .08 ? sgn() * logu(1e-6, 1e-1) : k < .12 ? (double)r((int)a, (int)b) : d(a, b); }
  double len(double a, double b) { double k = d(); return k < .05 ? logu(b, b * 1e3) : k < .09 ? logu(a * 1e-3, a) : logu(a, b); }
};

enum { CAP = 160, MAXP = 16 };
struct Par { std::string type, name; char role, kind; int cols, rows, n; };
struct Api { std::string name; char rk; std::vector<Par> p; bool hasCall, hasStruct; };

struct C {                 // one case
  const Api *api;
  Rng rng;
  int idx = 0, style = 0;
  uint32_t in[MAXP][CAP];   // initial contents of every slot (outputs hold poison)
  uint32_t act[MAXP][CAP];  // actual contents after the call; act[np][0] is the return value
  E out[MAXP][CAP]; char oset[MAXP][CAP];   // 0 unset, 1 float, 2 exact int, 3 any
  long long iout[MAXP][CAP];
  std::string why;
  double extra = 0;         // extra relative tolerance
  double extraAbs = 0;
  int np() const { return (int)api->p.size(); }
  // inputs
  float f(int p, int k = 0) const { float x; memcpy(&x, &in[p][k], 4); return x; }
  int i(int p, int k = 0) const { return (int)in[p][k]; }
  E F(int p, int k = 0) const { return E(f(p, k)); }
  V v(int p) const { int n = api->p[p].n; return vmap(n, [&](int k) { return F(p, k); }); }
  V vat(int p, int off, int n) const { return vmap(n, [&](int k) { return F(p, off + k); }); }
  M m(int p) const { const Par &q = api->p[p]; return mmap_(q.cols, q.rows, [&](int a, int b) { return F(p, a * q.rows + b); }); }
  M mat(int p, int off, int c, int r) const { return mmap_(c, r, [&](int a, int b) { return F(p, off + a * r + b); }); }
  // expected outputs
  void o(int p, int k, E e) { out[p][k] = e; oset[p][k] = 1; }
  void any(int p, int k) { oset[p][k] = 3; }
  void anyAll(int p) { for (int k = 0; k < api->p[p].n; k++) any(p, k); }
  void oi(int p, int k, long long x) { iout[p][k] = x; oset[p][k] = 2; }
  void o(int p, const V &x) { for (int k = 0; k < x.n; k++) o(p, k, x[k]); }
  void o(int p, const M &x) { for (int a = 0; a < x.c; a++) for (int b = 0; b < x.r; b++) o(p, a * x.r + b, x[a][b]); }
  void ret(E e) { o(np(), 0, e); }
  void reti(long long x) { oi(np(), 0, x); }
  // actual outputs
  float A(int p, int k = 0) const { float x; memcpy(&x, &act[p][k], 4); return x; }
  int AI(int p, int k = 0) const { return (int)act[p][k]; }
  int ai() const { return AI(np()); }
  float af() const { return A(np()); }
  V av(int p) const { int n = api->p[p].n; return vmap(n, [&](int k) { return E(A(p, k)); }); }
  M am(int p) const { const Par &q = api->p[p]; return mmap_(q.cols, q.rows, [&](int a, int b) { return E(A(p, a * q.rows + b)); }); }
  void fail(const std::string &s) { if (why.empty()) why = s; }
  void need(bool b, const char *s) { if (!b) fail(s); }
  void near(double a, double b, double tol, const char *s) {
    if (!(fabs(a - b) <= tol)) { char t[256]; snprintf(t, sizeof t, "%s: %.9g, expected %.9g, tolerance %.3g", s, a, b, tol); fail(t); }
  }
  // setters for generators
  void sf(int p, int k, double x) { float y = (float)x; memcpy(&in[p][k], &y, 4); }
  void si(int p, int k, long long x) { in[p][k] = (uint32_t)x; }
};
typedef std::function<void(C &)> Fn;

enum { SPECIAL = 1, NOREF = 2, EXTREME = 4, APPROX = 8, NANIN = 16 /* sums of products: one NaN among the inputs must reach every element it enters */ };
// options of the build under test: what the functions without a convention in their name do, and the clip-space cube of glm_frustum_corners
extern bool CONV_LH, CONV_ZO; extern double CLIP[8][3];
struct Ent { std::string prop, name; Fn gen, ref, chk; int flags; };
extern std::vector<Ent> REG;
static inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); char b[512]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static inline Ent &add(const std::string &prop, const std::string &name, Fn ref, Fn gen = nullptr, int flags = 0) {
  REG.push_back(Ent{prop, name, gen, ref, nullptr, flags}); return REG.back();
}
static inline Ent &rel(const std::string &prop, const std::string &name, Fn chk, Fn gen = nullptr, int flags = 0) {
  REG.push_back(Ent{prop, name, gen, nullptr, chk, flags}); return REG.back();
}
// ---------------------------------------------------------------- generators
float gfloat(C &c, int style);
void gdefault(C &c, int flags);
// domain generators: write n consecutive floats
void gunit(C &c, int p, int off, int n);                 // unit vector / quaternion
void gvec(C &c, int p, int off, int n, double lo, double hi); // log-uniform magnitude, random direction
double gangle(C &c);                                     // radians, incl. multiples of pi/2 and wrap
void grot3(C &c, double R[3][3]);                        // random rotation, R[col][row]
void gquat(C &c, double q[4]);
static inline E PI_() { return E(3.14159265358979323846); }
static inline E kE(double v, double e) { return E(v, e, fabs(v)); }
static inline void domain(bool b) { if (!b) throw Inv(); }
static inline E tern(bool c, E a, E b) { return c ? a : b; }
static inline E efloor(E a) {
  if (a.unk()) return unk();
  double f = floor(a.v);
  if (a.e > 0 && (floor(a.v + KS * a.e) != f || floor(a.v - KS * a.e) != f)) throw Amb();
  return exactE(f);
}
static inline E clamp01(E t) { return eclamp(t, E(0), E(1)); }
static inline E lerpE(E a, E b, E t) { return a + t * (b - a); }
void reg_vec(); void reg_ivec(); void reg_util();
void reg_mat();
static inline V normzV(V v) {           // normalize, zero below FLT_EPSILON
  E n = norm(v);
  if (lt(n, E(1.1920928955078125e-07))) return vmap(v.n, [](int) { return E(0); });
  return v / n;
}
static inline M axisRot(E a, V ax) {    // 4x4 rotation about a (to be normalized) axis
  V k = normzV(ax); E c = ecos(a), s = esin(a), o = E(1) - c; M m = ident(4);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = k[i] * k[j] * o;
  for (int i = 0; i < 3; i++) m[i][i] = m[i][i] + c;
  m[0][1] += k[2] * s; m[1][0] -= k[2] * s; m[2][0] += k[1] * s; m[0][2] -= k[1] * s; m[1][2] += k[0] * s; m[2][1] -= k[0] * s;
  return m;
}
static inline M transM(V t) { M m = ident(4); for (int i = 0; i < 3; i++) m[3][i] = t[i]; return m; }
static inline V qmul(V p, V q) {
  return v4(p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1], p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0],
            p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3], p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2]);
}
static inline M qrot(V q, int n) {      // rotation matrix of a unit quaternion
  M m = ident(n); E x = q[0], y = q[1], z = q[2], w = q[3], t(2);
  m[0][0] = E(1) - t * y * y - t * z * z; m[0][1] = t * x * y + t * w * z; m[0][2] = t * x * z - t * w * y;
  m[1][0] = t * x * y - t * w * z; m[1][1] = E(1) - t * x * x - t * z * z; m[1][2] = t * y * z + t * w * x;
  m[2][0] = t * x * z + t * w * y; m[2][1] = t * y * z - t * w * x; m[2][2] = E(1) - t * x * x - t * y * y;
  return m;
}
static inline M padE(M m, double rel) {  // absolute uncertainty per element
  for (int i = 0; i < m.c; i++) for (int j = 0; j < m.r; j++) m[i][j].e += rel / KS;
  return m;
}
void reg_quat(); void reg_affine(); void reg_euler(); void reg_curve(); void reg_cam(); void reg_frustum(); void reg_geom(); void reg_noise();
