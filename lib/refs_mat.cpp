// References for matrices of every shape (C04), determinants and inverses (C05).
#include "core.h"
#define FN [=](C &c)

static void gmatnice(C &c, int p) {      // invertible matrices of many kinds
  const Par &q = c.api->p[p]; int n = q.cols; Rng &r = c.rng; int k = r.r(9);
  auto S = [&](int a, int b, double x) { c.sf(p, a * n + b, x); };
  if (k == 0) return;                    // whatever the default made
  if (k == 1) { for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) S(a, b, a == b ? r.sgn() * r.len(.1, 10) : 0); return; }
  if (k == 2) { int pm[4] = {0, 1, 2, 3}; for (int a = n - 1; a > 0; a--) std::swap(pm[a], pm[r.r(a + 1)]); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) S(a, b, pm[a] == b ? r.sgn() * (1 + r.r(3)) : 0); return; }
  if (k == 3 && n >= 3) { double R[3][3]; grot3(c, R); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) S(a, b, a < 3 && b < 3 ? R[a][b] : a == b ? 1 : (a == 3 ? r.pos(-50, 50) : 0)); return; }
  if (k == 4) { for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) S(a, b, a >= b ? (a == b ? r.sgn() * r.d(.5, 2) : r.d(-2, 2)) : 0); return; }
  if (k == 5) { for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) S(a, b, (a == b ? 3 : 0) + r.r(-2, 2)); return; }
  double sc = k == 6 ? r.logu(1e-3, 1e3) : 1;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) S(a, b, sc * r.d(-1, 1) + (a == b ? sc * (k == 7 ? 2 : .5) : 0));
}

// an implementation may scale 2x2 minors by 1/det first, which can underflow
static double invUnder(const M &m) { double x = 1; for (int a = 0; a < m.c; a++) for (int b = 0; b < m.r; b++) x = std::max(x, fabs(m[a][b].v)); double y = fabs(det(m).v); return 16 * ETA_ * x * std::max(1., y > 0 ? 1 / y : 1.); }

// ... or overflow, as can 1/det, the minors and the determinant themselves
static void invOver(const M &m) {
  double x = 0, y = fabs(det(m).v); int n = m.c;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) x = std::max(x, fabs(m[a][b].v));
  if (!(6 * pow(x, n - 1) < 1e37 * y && 24 * pow(x, n) < 1e37 && y > 1e-36)) throw Amb();
}

void reg_mat() {
  const char *P = "C04"; const int XF = SPECIAL | EXTREME;
  struct { const char *n; int c, r; } SH[] = {{"mat2", 2, 2}, {"mat3", 3, 3}, {"mat4", 4, 4}, {"mat2x3", 2, 3}, {"mat2x4", 2, 4}, {"mat3x2", 3, 2}, {"mat3x4", 3, 4}, {"mat4x2", 4, 2}, {"mat4x3", 4, 3}};
  for (auto &s : SH) {
    int nc = s.c, nr = s.r; bool sqr = nc == nr;
    auto nm = [&](const char *x) { return fmt("glm_%s_%s", s.n, x); };
    add(P, nm("copy"), FN { c.o(1, c.m(0)); }, nullptr, XF);
    add(P, nm("zero"), FN { for (int k = 0; k < nc * nr; k++) c.o(0, k, E(0)); });
    add(P, nm("make"), FN { for (int k = 0; k < nc * nr; k++) c.o(1, k, c.F(0, k)); }, nullptr, XF);
    add(P, nm("mul"), FN { c.o(2, c.m(0) * c.m(1)); }, nullptr, EXTREME | NANIN);
    add(P, nm("mulv"), FN { c.o(2, c.m(0) * c.v(1)); }, nullptr, EXTREME | NANIN);
    add(P, nm("scale"), FN { for (int k = 0; k < nc * nr; k++) c.o(0, k, c.F(0, k) * c.F(1)); }, nullptr, EXTREME);
    if (!sqr) { add(P, nm("transpose"), FN { c.o(1, transp(c.m(0))); }, nullptr, XF); continue; }
    add(P, nm("transpose"), FN { c.o(0, transp(c.m(0))); }, nullptr, XF);
    add(P, nm("transpose_to"), FN { c.o(1, transp(c.m(0))); }, nullptr, XF);
    add(P, nm("identity"), FN { c.o(0, ident(nc)); });
    add(P, nm("identity_array"), FN { int n = c.i(1); domain(n >= 0 && n <= 8); for (int a = 0; a < n; a++) for (int k = 0; k < nc * nc; k++) c.o(0, a * nc * nc + k, E(k / nc == k % nc ? 1 : 0)); }, FN { c.si(1, 0, c.rng.r(9)); });
    add(P, nm("trace"), FN { M m = c.m(0); E t = m[0][0]; for (int k = 1; k < nc; k++) t = t + m[k][k]; c.ret(t); }, nullptr, EXTREME | NANIN);
    add(P, nm("swap_col"), FN { M m = c.m(0); std::swap(m[c.i(1)], m[c.i(2)]); c.o(0, m); }, FN { c.si(1, 0, c.rng.r(nc)); c.si(2, 0, c.rng.r(nc)); });
    add(P, nm("swap_row"), FN { M m = c.m(0); for (int a = 0; a < nc; a++) std::swap(m[a][c.i(1)], m[a][c.i(2)]); c.o(0, m); }, FN { c.si(1, 0, c.rng.r(nc)); c.si(2, 0, c.rng.r(nc)); });
    add(P, nm("rmc"), FN { c.ret(dot(c.v(0), c.m(1) * c.v(2))); }, nullptr, NANIN);
    add("C05", nm("det"), FN { c.ret(det(c.m(0))); }, FN { gmatnice(c, 0); });
    add("C05", nm("inv"), FN { M m = c.m(0); M i = inverse(m); invOver(m); c.extraAbs = invUnder(m); c.o(1, i); }, FN { gmatnice(c, 0); });
  }
  add(P, "glm_mat4_ucopy", FN { c.o(1, c.m(0)); }, nullptr, XF);
  add(P, "glm_mat4_scale_p", FN { for (int k = 0; k < 16; k++) c.o(0, k, c.F(0, k) * c.F(1)); });
  add(P, "glm_mat4_pick3", FN { M m = c.m(0); c.o(1, mmap_(3, 3, [&](int a, int b) { return m[a][b]; })); }, nullptr, XF);
  add(P, "glm_mat4_pick3t", FN { M m = c.m(0); c.o(1, mmap_(3, 3, [&](int a, int b) { return m[b][a]; })); }, nullptr, XF);
  add(P, "glm_mat4_ins3", FN { M m = c.m(0); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) c.o(1, a * 4 + b, m[a][b]); }, nullptr, SPECIAL);
  add(P, "glm_mat4_trace3", FN { M m = c.m(0); c.ret(m[0][0] + m[1][1] + m[2][2]); });
  add(P, "glm_mat4_mulv3", FN { V v = c.v(1); V r = c.m(0) * v4(v[0], v[1], v[2], c.F(2)); c.o(3, cut(r, 3)); }, nullptr, NANIN);
  add(P, "glm_mat4_mulN", FN {
    int n = c.i(1); domain(n >= 2 && n <= 8); M r = c.mat(0, 0, 4, 4);
    for (int k = 1; k < n; k++) r = r * c.mat(0, 16 * k, 4, 4);
    c.o(2, r);
  }, FN { c.si(1, 0, c.rng.r(2, 8)); for (int k = 0; k < 128; k++) if (fabs(c.f(0, k)) > 1e3) c.sf(0, k, c.rng.d(-2, 2)); });
  add(P, "glm_mat4_textrans", FN { E r = c.F(2), s = esin(r), k = ecos(r); M m = ident(4); m[0][0] = k * c.F(0); m[0][1] = -(s * c.F(1)); m[1][0] = s * c.F(0); m[1][1] = k * c.F(1); m[3][0] = c.F(3); m[3][1] = c.F(4); c.o(5, m); }, FN { c.sf(2, 0, gangle(c)); });
  add(P, "glm_mat3_textrans", FN { E r = c.F(2), s = esin(r), k = ecos(r); M m = ident(3); m[0][0] = k * c.F(0); m[0][1] = -(s * c.F(1)); m[1][0] = s * c.F(0); m[1][1] = k * c.F(1); m[2][0] = c.F(3); m[2][1] = c.F(4); c.o(5, m); }, FN { c.sf(2, 0, gangle(c)); });
  add("C05", "glm_mat4_inv_fast", FN { c.extra = 5e-4; M m = c.m(0); c.extraAbs = invUnder(m); invOver(m); c.o(1, inverse(m)); }, FN { gmatnice(c, 0); });
  add("C05", "glm_inv_tr", FN {
    M m = c.m(0); M r = ident(4);
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) r[a][b] = m[b][a];
    for (int b = 0; b < 3; b++) { E s = m[b][0] * m[3][0] + m[b][1] * m[3][1] + m[b][2] * m[3][2]; r[3][b] = -s; }
    c.o(0, r);
  }, FN { double R[3][3]; grot3(c, R); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) c.sf(0, a * 4 + b, R[a][b]);
          for (int a = 0; a < 4; a++) c.sf(0, a * 4 + 3, a == 3); if (c.rng.p(.5)) for (int b = 0; b < 3; b++) c.sf(0, 12 + b, c.rng.d(-50, 50)); });
}
