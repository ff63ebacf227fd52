// References for view frusta and plane/box culling (C18).
#include "core.h"
#define FN [=](C &c)
static V planeN(V p) { E n = norm(cut(p, 3)); if (lt(n, E(1.1920928955078125e-07))) return vmap(4, [](int) { return E(0); }); return p * (E(1) / n); }
// a view-projection matrix (double), and its inverse
static void dmul(const double *a, const double *b, double *o) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double s = 0; for (int k = 0; k < 4; k++) s += a[k * 4 + j] * b[i * 4 + k]; o[i * 4 + j] = s; } }
static bool dinv(const double *m, double *o) {
  double a[4][8]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { a[i][j] = m[j * 4 + i]; a[i][4 + j] = i == j; }
  for (int c = 0; c < 4; c++) { int p = c; for (int i = c; i < 4; i++) if (fabs(a[i][c]) > fabs(a[p][c])) p = i; if (fabs(a[p][c]) < 1e-300) return false;
    for (int k = 0; k < 8; k++) std::swap(a[c][k], a[p][k]); double d = a[c][c]; for (int k = 0; k < 8; k++) a[c][k] /= d;
    for (int i = 0; i < 4; i++) if (i != c) { double f = a[i][c]; for (int k = 0; k < 8; k++) a[i][k] -= f * a[c][k]; } }
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o[j * 4 + i] = a[i][4 + j];
  return true;
}
struct VP { double m[16], inv[16]; double n, f; bool persp; };
static VP gvp(C &c, bool sym) {
  Rng &r = c.rng; VP v; double R[3][3]; grot3(c, R); if (r.p(.25)) for (auto &q : R) for (double &x : q) x = 0, R[0][0] = R[1][1] = R[2][2] = 1;
  double t[3]; for (double &x : t) x = r.p(.3) ? 0 : r.pos(-10, 10);
  double view[16]; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) view[a * 4 + b] = b == 3 ? a == 3 : a == 3 ? t[b] : R[a][b];
  double P[16] = {0}; v.persp = r.p(.7); v.n = r.len(.05, 5); v.f = v.n * r.logu(1.3, 200);
  double rt = v.n * r.logu(.1, 3), tp = v.n * r.logu(.1, 3), lf = sym ? -rt : rt - v.n * r.logu(.2, 4), bt = sym ? -tp : tp - v.n * r.logu(.2, 4);
  if (r.p(.15)) { v.n = r.p(.6) ? 1 : .5; v.f = v.n * r.r(2, 100); rt = v.n * (r.p(.6) ? 1 : .5); tp = r.p(.6) ? rt : v.n * 2; lf = -rt; bt = -tp; }
  if (v.persp) { P[0] = 2 * v.n / (rt - lf); P[5] = 2 * v.n / (tp - bt); P[8] = (rt + lf) / (rt - lf); P[9] = (tp + bt) / (tp - bt); P[10] = -(v.f + v.n) / (v.f - v.n); P[11] = -1; P[14] = -2 * v.f * v.n / (v.f - v.n); }
  else { P[0] = 2 / (rt - lf); P[5] = 2 / (tp - bt); P[10] = -2 / (v.f - v.n); P[12] = -(rt + lf) / (rt - lf); P[13] = -(tp + bt) / (tp - bt); P[14] = -(v.f + v.n) / (v.f - v.n); P[15] = 1; }
  dmul(P, view, v.m); dinv(v.m, v.inv); return v;
}
static void corners(const VP &v, double o[8][4]) {
  static const int S[8][3] = {{-1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {1, -1, -1}, {-1, -1, 1}, {-1, 1, 1}, {1, 1, 1}, {1, -1, 1}};
  for (int i = 0; i < 8; i++) { double q[4]; for (int k = 0; k < 4; k++) q[k] = v.inv[k] * S[i][0] + v.inv[4 + k] * S[i][1] + v.inv[8 + k] * S[i][2] + v.inv[12 + k]; for (int k = 0; k < 4; k++) o[i][k] = q[k] / q[3]; }
}
void reg_frustum() {
  const char *P = "C18";
  add(P, "glm_plane_normalize", FN { c.o(0, planeN(c.v(0))); });
  add(P, "glm_frustum_planes", FN {
    M m = c.m(0);
    for (int k = 0; k < 6; k++) { V p = vmap(4, [&](int j) { E a = m[j][k / 2]; return k & 1 ? m[j][3] - a : m[j][3] + a; }); p = planeN(p); for (int j = 0; j < 4; j++) c.o(1, k * 4 + j, p[j]); }
  }, FN { if (c.rng.p(.8)) { VP v = gvp(c, false); for (int i = 0; i < 16; i++) c.sf(0, i, v.m[i]); } });
  add(P, "glm_frustum_corners", FN {
    auto &S = CLIP; M m = c.m(0);
    for (int i = 0; i < 8; i++) { V q = m * v4(E(S[i][0]), E(S[i][1]), E(S[i][2]), E(1)); domain(fabs(q[3].v) > 1e-20); for (int k = 0; k < 4; k++) c.o(1, i * 4 + k, q[k] * (E(1) / q[3])); }
  }, FN { if (c.rng.p(.8)) { VP v = gvp(c, false); for (int i = 0; i < 16; i++) c.sf(0, i, v.inv[i]); } });
  auto gc = [](C &c, bool sym) { VP v = gvp(c, sym); double o[8][4]; corners(v, o); for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) c.sf(0, i * 4 + k, o[i][k]); return v; };
  add(P, "glm_frustum_center", FN { V s = c.vat(0, 0, 4); for (int i = 1; i < 8; i++) s = s + c.vat(0, 4 * i, 4); c.o(1, s * E(.125)); }, FN { if (c.rng.p(.5)) gc(c, false); });
  add(P, "glm_frustum_box", FN {
    M m = c.m(1); V lo, hi;
    for (int i = 0; i < 8; i++) { V q = m * c.vat(0, 4 * i, 4); if (!i) lo = hi = q; else for (int k = 0; k < 3; k++) { lo[k] = emin(lo[k], q[k]); hi[k] = emax(hi[k], q[k]); } }
    for (int k = 0; k < 3; k++) { c.o(2, k, lo[k]); c.o(2, 3 + k, hi[k]); }
  }, FN { if (c.rng.p(.6)) gc(c, false); });
  // corners of a symmetric frustum (the documented precondition: all four edges are equally long)
  add(P, "glm_frustum_corners_at", FN {
    E t = c.F(1) / c.F(2); static const int nr[4] = {0, 1, 2, 3}, fr[4] = {4, 5, 6, 7};
    double mag = 0; for (int i = 0; i < 32; i++) mag = std::max(mag, fabs((double)c.f(0, i)));
    for (int i = 0; i < 4; i++) { V a = c.vat(0, 4 * nr[i], 4), b = c.vat(0, 4 * fr[i], 4); V o = a + (b - a) * t; for (int k = 0; k < 3; k++) c.o(3, i * 4 + k, widen(o[k], 0)); c.any(3, i * 4 + 3); }
    c.extraAbs = 4e-6 * mag * std::max(1.0, fabs(t.v));
  }, FN { VP v = gc(c, true); for (int i = 0; i < 8; i++) c.sf(0, i * 4 + 3, 1); double f = c.rng.len(1, 1000); c.sf(2, 0, f); c.sf(1, 0, c.rng.p(.2) ? (c.rng.p(.5) ? 0 : f) : c.rng.p(.1) ? f * c.rng.d(1, 3) : c.rng.p(.05) ? -f * c.rng.d() : c.rng.d(0, f)); (void)v; });
  add(P, "glm_aabb_frustum", FN {
    bool in = true;
    for (int i = 0; i < 6; i++) { V p = c.vat(1, i * 4, 4); E s(0); for (int k = 0; k < 3; k++) s = s + p[k] * c.F(0, (p[k].v > 0 ? 3 : 0) + k); if (lt(s, -p[3])) { in = false; break; } }
    c.reti(in);
  }, FN {
    Rng &r = c.rng; VP v = gvp(c, false); double pl[6][4];
    for (int k = 0; k < 6; k++) { double n = 0; for (int j = 0; j < 4; j++) { double a = v.m[j * 4 + k / 2]; pl[k][j] = v.m[j * 4 + 3] + (k & 1 ? -a : a); if (j < 3) n += pl[k][j] * pl[k][j]; } n = sqrt(n); for (int j = 0; j < 4; j++) { pl[k][j] /= n; c.sf(1, k * 4 + j, pl[k][j]); } }
    // a box around a point inside, near a random plane, or around a corner
    double o[8][4], p[3]; corners(v, o); double w[8], sw = 0; for (double &x : w) sw += x = r.p(.5) ? r.d() : 0.0001;
    for (int k = 0; k < 3; k++) { p[k] = 0; for (int i = 0; i < 8; i++) p[k] += w[i] / sw * o[i][k]; }
    double h[3]; for (double &x : h) x = r.p(.15) ? 0 : (v.f) * r.logu(1e-3, .6);
    if (r.p(.7)) { int k = r.r(6); double reach = 0, d = pl[k][3]; for (int j = 0; j < 3; j++) { reach += fabs(pl[k][j]) * h[j]; d += pl[k][j] * p[j]; }
      double want = -reach * r.d(.3, 1.7) * (r.p(.3) ? .1 : 1) - (reach == 0 ? r.d(-1, 1) : 0); for (int j = 0; j < 3; j++) p[j] += pl[k][j] * (want - d); }
    for (int j = 0; j < 3; j++) { c.sf(0, j, p[j] - h[j]); c.sf(0, 3 + j, p[j] + h[j]); }
  });
}
