// References for affine transforms: 3D (C11), 2D (C12), decomposition (C13).
#include "core.h"
#define FN [=](C &c)
static void gaff(C &c, int p) {          // affine 4x4: rotation x scale (maybe mirrored/sheared) + translation
  Rng &r = c.rng; double R[3][3]; grot3(c, R); int k = r.r(7), tr = r.p(.1) ? r.r(3) : 3;
  double s[3] = {1, 1, 1}; if (k == 6) { k = r.r(2, 3); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) R[a][b] = a == b; }
  if (k == 1) s[0] = s[1] = s[2] = r.len(.05, 20);
  if (k == 2) for (double &x : s) x = r.len(.05, 20);
  if (k == 3) for (double &x : s) x = r.sgn() * r.len(.05, 20);
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) c.sf(p, a * 4 + b, b == 3 ? a == 3 : a == 3 ? (tr == 0 ? 0 : tr == 1 ? r.r(-3, 3) : tr == 2 ? 2 : r.p(.2) ? 0 : r.pos(-40, 40)) : k == 4 ? r.d(-2, 2) : k == 5 ? (a == b) : R[a][b] * s[a]);
}
static void gaff2(C &c, int p) {
  Rng &r = c.rng; double t = gangle(c); int k = r.r(5); double s0 = 1, s1 = 1;
  if (k == 1) s0 = s1 = r.len(.05, 20); if (k == 2) { s0 = r.sgn() * r.len(.05, 20); s1 = r.sgn() * r.len(.05, 20); }
  double m[9] = {s0 * cos(t), s0 * sin(t), 0, -s1 * sin(t), s1 * cos(t), 0, r.pos(-30, 30), r.pos(-30, 30), 1};
  if (k == 3) for (int i : {0, 1, 3, 4}) m[i] = r.d(-2, 2);
  if (r.p(.12)) { int z = r.r(3); if (z == 0) m[6] = m[7] = 0; else if (z == 1) { m[1] = m[3] = 0; m[0] = s0; m[4] = s1; m[6] = r.r(-3, 3); m[7] = r.r(-3, 3); } else m[3] = m[1]; }
  for (int i = 0; i < 9; i++) c.sf(p, i, m[i]);
}
static bool aff(C &c, int p) { return c.f(p, 3) == 0 && c.f(p, 7) == 0 && c.f(p, 11) == 0 && c.f(p, 15) == 1; }
static bool aff2(C &c, int p) { return c.f(p, 2) == 0 && c.f(p, 5) == 0 && c.f(p, 8) == 1; }
static M scaleM(V s) { M m = ident(4); for (int i = 0; i < 3; i++) m[i][i] = s[i]; return m; }
static M rot2(E a) { M m = ident(3); E s = esin(a), k = ecos(a); m[0][0] = k; m[0][1] = s; m[1][0] = -s; m[1][1] = k; return m; }
static M tr2(V v) { M m = ident(3); m[2][0] = v[0]; m[2][1] = v[1]; return m; }
static M sc2(V v) { M m = ident(3); m[0][0] = v[0]; m[1][1] = v[1]; return m; }
static V axisV(int k) { return vmap(3, [&](int i) { return E(i == k); }); }
static M axRot(E a, int k) {             // coordinate axis rotation
  M m = ident(4); E s = esin(a), c = ecos(a); int i = (k + 1) % 3, j = (k + 2) % 3;
  m[i][i] = c; m[i][j] = s; m[j][i] = -s; m[j][j] = c; return m;
}

void reg_affine() {
  const char *P = "C11";
  auto gm = [](C &c) { if (c.rng.p(.5)) gaff(c, 0); };
  auto ga = [](C &c, int a, int ax) { c.sf(a, 0, gangle(c)); if (ax >= 0 && c.rng.p(.6)) gunit(c, ax, 0, 3); };
  add(P, "glm_translate_make", FN { c.o(0, transM(c.v(1))); }, nullptr, SPECIAL | EXTREME);
  add(P, "glm_translate", FN { c.o(0, c.m(0) * transM(c.v(1))); }, FN { gm(c); });
  add(P, "glm_translate_to", FN { c.o(2, c.m(0) * transM(c.v(1))); }, FN { gm(c); });
  add(P, "glm_scale_make", FN { c.o(0, scaleM(c.v(1))); }, nullptr, SPECIAL | EXTREME);
  add(P, "glm_scale", FN { c.o(0, c.m(0) * scaleM(c.v(1))); }, FN { gm(c); });
  add(P, "glm_scale_to", FN { c.o(2, c.m(0) * scaleM(c.v(1))); }, FN { gm(c); });
  add(P, "glm_scale_uni", FN { E s = c.F(1); c.o(0, c.m(0) * scaleM(v3(s, s, s))); }, FN { gm(c); });
  for (int k = 0; k < 3; k++) {
    char x = "xyz"[k];
    add(P, fmt("glm_translate_%c", x), FN { c.o(0, c.m(0) * transM(axisV(k) * c.F(1))); }, FN { gm(c); });
    add(P, fmt("glm_translated_%c", x), FN { domain(aff(c, 0)); c.o(0, transM(axisV(k) * c.F(1)) * c.m(0)); }, FN { gaff(c, 0); });
    add(P, fmt("glm_rotate_%c", x), FN { c.o(2, c.m(0) * axRot(c.F(1), k)); }, FN { gm(c); ga(c, 1, -1); });
    add(P, fmt("glm_rotated_%c", x), FN { domain(aff(c, 0)); c.o(2, axRot(c.F(1), k) * c.m(0)); }, FN { gaff(c, 0); ga(c, 1, -1); });
  }
  add(P, "glm_translated", FN { domain(aff(c, 0)); c.o(0, transM(c.v(1)) * c.m(0)); }, FN { gaff(c, 0); });
  add(P, "glm_translated_to", FN { domain(aff(c, 0)); c.o(2, transM(c.v(1)) * c.m(0)); }, FN { gaff(c, 0); });
  add(P, "glm_rotate_make", FN { c.o(0, axisRot(c.F(1), c.v(2))); }, FN { ga(c, 1, 2); });
  add(P, "glm_rotate", FN { c.o(0, c.m(0) * axisRot(c.F(1), c.v(2))); }, FN { gm(c); ga(c, 1, 2); });
  add(P, "glm_rotate_at", FN { V p = c.v(1); c.o(0, c.m(0) * transM(p) * axisRot(c.F(2), c.v(3)) * transM(-p)); }, FN { gm(c); ga(c, 2, 3); });
  add(P, "glm_rotate_atm", FN { V p = c.v(1); c.o(0, transM(p) * axisRot(c.F(2), c.v(3)) * transM(-p)); }, FN { ga(c, 2, 3); });
  add(P, "glm_rotated", FN { domain(aff(c, 0)); c.o(0, axisRot(c.F(1), c.v(2)) * c.m(0)); }, FN { gaff(c, 0); ga(c, 1, 2); });
  add(P, "glm_rotated_at", FN { domain(aff(c, 0)); V p = c.v(1); c.o(0, transM(p) * axisRot(c.F(2), c.v(3)) * transM(-p) * c.m(0)); }, FN { gaff(c, 0); ga(c, 2, 3); });
  // spinning keeps the position; before: m * R, after: R applied to the linear part
  add(P, "glm_spin", FN { domain(aff(c, 0)); c.o(0, c.m(0) * axisRot(c.F(1), c.v(2))); }, FN { gaff(c, 0); ga(c, 1, 2); });
  add(P, "glm_spinned", FN { domain(aff(c, 0)); M m = c.m(0); V p = cut(m[3], 3); c.o(0, transM(p) * axisRot(c.F(1), c.v(2)) * transM(-p) * m); }, FN { gaff(c, 0); ga(c, 1, 2); });
  add(P, "glm_mul", FN { domain(aff(c, 1) || (c.f(1, 3) == 0 && c.f(1, 7) == 0 && c.f(1, 11) == 0)); c.o(2, c.m(0) * c.m(1)); }, FN { gaff(c, 1); if (c.rng.p(.6)) gaff(c, 0); if (c.rng.p(.2)) c.sf(1, 15, c.rng.d(-2, 2)); });
  add(P, "glm_mul_rot", FN { domain(aff(c, 1) && c.f(1, 12) == 0 && c.f(1, 13) == 0 && c.f(1, 14) == 0); c.o(2, c.m(0) * c.m(1)); }, FN { gaff(c, 1); for (int k = 12; k < 15; k++) c.sf(1, k, 0); gm(c); });
  P = "C12";
  auto g2 = [](C &c) { if (c.rng.p(.5)) gaff2(c, 0); };
  add(P, "glm_translate2d", FN { c.o(0, c.m(0) * tr2(c.v(1))); }, FN { g2(c); });
  add(P, "glm_translate2d_to", FN { c.o(2, c.m(0) * tr2(c.v(1))); }, FN { g2(c); });
  add(P, "glm_translate2d_x", FN { c.o(0, c.m(0) * tr2(v2(c.F(1), E(0)))); }, FN { g2(c); });
  add(P, "glm_translate2d_y", FN { c.o(0, c.m(0) * tr2(v2(E(0), c.F(1)))); }, FN { g2(c); });
  add(P, "glm_translate2d_make", FN { c.o(0, tr2(c.v(1))); });
  add(P, "glm_scale2d_to", FN { c.o(2, c.m(0) * sc2(c.v(1))); }, FN { g2(c); });
  add(P, "glm_scale2d", FN { c.o(0, c.m(0) * sc2(c.v(1))); }, FN { g2(c); });
  add(P, "glm_scale2d_make", FN { c.o(0, sc2(c.v(1))); });
  add(P, "glm_scale2d_uni", FN { c.o(0, c.m(0) * sc2(v2(c.F(1), c.F(1)))); }, FN { g2(c); });
  add(P, "glm_rotate2d_make", FN { c.o(0, rot2(c.F(1))); }, FN { ga(c, 1, -1); });
  add(P, "glm_rotate2d", FN { c.o(0, c.m(0) * rot2(c.F(1))); }, FN { g2(c); ga(c, 1, -1); });
  add(P, "glm_rotate2d_to", FN { c.o(2, c.m(0) * rot2(c.F(1))); }, FN { g2(c); ga(c, 1, -1); });
  add(P, "glm_translated2d", FN { domain(aff2(c, 0)); c.o(0, tr2(c.v(1)) * c.m(0)); }, FN { gaff2(c, 0); });
  add(P, "glm_translated2d_x", FN { domain(aff2(c, 0)); c.o(0, tr2(v2(c.F(1), E(0))) * c.m(0)); }, FN { gaff2(c, 0); });
  add(P, "glm_translated2d_y", FN { domain(aff2(c, 0)); c.o(0, tr2(v2(E(0), c.F(1))) * c.m(0)); }, FN { gaff2(c, 0); });
  add(P, "glm_rotated2d", FN { domain(aff2(c, 0)); c.o(0, rot2(c.F(1)) * c.m(0)); }, FN { gaff2(c, 0); ga(c, 1, -1); });
  add(P, "glm_scaled2d", FN { domain(aff2(c, 0)); c.o(0, sc2(c.v(1)) * c.m(0)); }, FN { gaff2(c, 0); });
  add(P, "glm_scaled2d_uni", FN { domain(aff2(c, 0)); c.o(0, sc2(v2(c.F(1), c.F(1))) * c.m(0)); }, FN { gaff2(c, 0); });
  P = "C13";
  // translation * rotation * scale, maybe mirrored
  auto gtrs = [](C &c) { Rng &r = c.rng; double R[3][3]; grot3(c, R); int k = r.r(5);
    double s[3]; for (double &x : s) x = r.logu(.02, 50); if (k == 0) s[0] = s[1] = s[2] = 1; if (k == 1) s[1] = s[2] = s[0]; if (k == 2) { double q = r.logu(1e-4, 1e4); for (double &x : s) x *= q; } int sh = r.p(.15) ? r.r(3) : 3; if (sh < 2) { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) R[a][b] = a == b; if (sh) for (double &x : s) x = r.r(1, 4); }
    int mir = r.r(8); for (int i = 0; i < 3; i++) if (mir >> i & 1) s[i] = -s[i];
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) c.sf(0, a * 4 + b, b == 3 ? a == 3 : a == 3 ? (sh == 2 ? 0 : sh == 1 ? r.r(-4, 4) : r.pos(-40, 40)) : R[a][b] * s[a]); };
  auto trs = [](C &c, int pt, int pr, int ps) {
    double r[4][4], m[4][4], s[3];
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { r[a][b] = c.A(pr, a * 4 + b); m[a][b] = c.f(0, a * 4 + b); if (!std::isfinite(r[a][b])) { c.fail("the rotation has a non-finite element"); return; } }
    for (int k = 0; k < 3; k++) s[k] = c.A(ps, k);
    double det = 0; { auto q = r; det = q[0][0] * (q[1][1] * q[2][2] - q[2][1] * q[1][2]) - q[1][0] * (q[0][1] * q[2][2] - q[2][1] * q[0][2]) + q[2][0] * (q[0][1] * q[1][2] - q[1][1] * q[0][2]); }
    c.near(det, 1, 5e-6, "determinant of the rotation");
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double d = 0; for (int k = 0; k < 3; k++) d += r[a][k] * r[b][k]; c.near(d, a == b, 3e-6, "rotation column dot product"); }
    for (int a = 0; a < 4; a++) { c.near(r[a][3], a == 3, 0, "bottom row of the rotation"); if (a < 3) c.near(r[3][a], 0, 0, "last column of the rotation"); }
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) c.near(r[a][b] * s[a], m[a][b], 1e-6 * fabs(s[a]) + 1e-42, "rotation * scale");
    if (pt >= 0) for (int k = 0; k < 4; k++) if (c.act[pt][k] != c.in[0][12 + k]) c.fail("the translation is not the last column");
  };
  rel(P, "glm_decompose", FN { trs(c, 1, 2, 3); }, FN { gtrs(c); });
  rel(P, "glm_decompose_rs", FN { trs(c, -1, 1, 2); }, FN { gtrs(c); });
  add(P, "glm_decompose_scalev", FN { M m = c.m(0); for (int k = 0; k < 3; k++) c.o(1, k, norm(cut(m[k], 3))); }, FN { if (c.rng.p(.6)) gtrs(c); });
  add(P, "glm_uniscaled", FN { M m = c.m(0); E s[3]; for (int k = 0; k < 3; k++) s[k] = norm(cut(m[k], 3)); bool a = le(eabs(s[0] - s[1]), E(1e-5f)), b = le(eabs(s[0] - s[2]), E(1e-5f)); c.reti(a && b); },
      FN { gtrs(c); if (c.rng.p(.6)) { double R[3][3]; grot3(c, R); double s = c.rng.logu(.05, 20); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) c.sf(0, a * 4 + b, R[a][b] * s * (c.rng.p(.2) ? 1.001 : 1)); } });
}
