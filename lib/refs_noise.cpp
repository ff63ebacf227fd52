// Reference for classic Perlin noise (C21), in double precision on integer lattice hashes.
#include "core.h"
#define FN [=](C &c)
static long pmt(long x) { x = ((34 * x + 1) * x) % 289; return x < 0 ? x + 289 : x; }
static double frac(double x) { return x - floor(x); }
static double stp0(double x) { return x < 0 ? 0.0 : 1.0; }
// gradient of lattice hash h; tie: the sign decision is exactly at its threshold
static void grad(int n, long h, bool alt, double *g, bool &tie) {
  tie = false;
  if (n == 2) { double x = 2 * frac(h / 41.0) - 1; g[1] = fabs(x) - .5; g[0] = x - floor(x + .5); }
  else if (n == 3) {
    long a = h % 7, b = (h / 7) % 7; double x = a / 7.0, y = b / 7.0 - .5; long t = 7 - 2 * a - labs(2 * b - 7); double z = t / 14.0; bool s = t <= 0; if (t == 0) { tie = true; s = !alt; }
    if (s) { x -= .5; y -= stp0(y) - .5; } g[0] = x; g[1] = y; g[2] = z;
  } else {
    long a = h % 7, b = (h / 7) % 7, d = (h / 49) % 6; double x = a / 7.0 - .5, y = b / 7.0 - .5, z = d / 6.0 - .5, w = .75 - fabs(x) - fabs(y) - fabs(z);
    if (w <= 0) { x -= stp0(x) - .5; y -= stp0(y) - .5; } g[0] = x; g[1] = y; g[2] = z; g[3] = w;
  }
  double q = 0; for (int i = 0; i < n; i++) q += g[i] * g[i]; double k = 1.79284291400159 - 0.85373472095314 * q; for (int i = 0; i < n; i++) g[i] *= k;
}
static void noise(C &c, int n, bool judge) {
  double pf[4], w[4]; long pi[4]; double mag = 0;
  for (int i = 0; i < n; i++) { double x = c.f(0, i), fl = floor(x); pf[i] = x - fl; pi[i] = (long)fl; double t = pf[i]; w[i] = t * t * t * (t * (t * 6 - 15) + 10); }
  std::vector<double> vals{0}; double lat = 1;
  for (int k = 0; k < n; k++) if (pf[k] != 0) lat = 0;
  for (int m = 0; m < 1 << n; m++) {
    long h = 0; double wt = 1, d[4];
    for (int i = 0; i < n; i++) { int b = m >> i & 1; h = pmt(h + (pi[i] + b) % 289); wt *= b ? w[i] : 1 - w[i]; d[i] = pf[i] - b; }
    double g[4], v[2]; bool tie, tt; grad(n, h, false, g, tie); v[0] = 0; for (int i = 0; i < n; i++) v[0] += g[i] * d[i];
    mark((int)h);
    if (tie) { grad(n, h, true, g, tt); v[1] = 0; for (int i = 0; i < n; i++) v[1] += g[i] * d[i]; }
    size_t N = vals.size(); if (tie && fabs(wt * (v[1] - v[0])) > 1e-7) { vals.resize(2 * N); for (size_t k = 0; k < N; k++) { vals[N + k] = vals[k] + wt * v[1]; vals[k] += wt * v[0]; } }
    else for (double &x : vals) x += wt * v[0];
    mag += fabs(wt);
  }
  if (!judge) return;
  double s = n == 2 ? 2.3 : 2.2, a = c.af(), best = 1e30, bv = 0;
  for (double x : vals) if (fabs(s * x - a) < best) { best = fabs(s * x - a); bv = s * x; }
  if (!(best <= 1.2e-5)) c.fail(fmt("noise is %.9g, expected %.9g", a, bv));
  c.need(fabs(a) <= 1.6, "noise leaves its bounds");
  if (lat) c.need(fabs(a) < 1e-5, "noise is not zero on a lattice point");
}
void reg_noise() {
  for (int n = 2; n <= 4; n++) {
    Ent &e = rel("C21", fmt("glm_perlin_vec%d", n), FN { noise(c, n, true); }, FN {
      Rng &r = c.rng; int k = r.r(8); bool mix = r.p(.4);
      for (int i = 0; i < n; i++) { double x; if (mix) k = r.r(9);
        switch (k) { case 0: x = r.d(-3, 3); break; case 1: x = r.d(-300, 300); break; case 2: x = r.d(-2000, 2000); break; case 3: x = r.r(-600, 600); break; case 4: x = r.r(-300, 300) + r.d(-1e-3, 1e-3); break;
          case 5: x = r.r(-10, 10) + (r.p(.3) ? 0 : r.d()); break; case 6: x = 289 * r.r(-3, 3) + r.d(-2, 2); break; case 8: x = std::nextafter((float)r.r(-600, 600), r.r(2) ? 1e9f : -1e9f); break; default: x = r.d(0, 300); }
        c.sf(0, i, x); }
      if (r.p(.08)) { int z = r.r(5), a = r.r(n); for (int i = 0; i < n; i++) c.sf(0, i, z == 0 ? 0 : z == 1 ? c.f(0, 0) : z == 2 ? (i == a ? c.f(0, i) : 0) : z == 3 ? r.sgn() * r.logu(1e-9, 1e-2) : -fabs(c.f(0, i))); }
    });
    e.ref = nullptr;
  }
}
