// References for Euler angles (C10).
#include "core.h"
#define FN [=](C &c)
static M ax(E a, int k) { M m = ident(4); E s = esin(a), c = ecos(a); int i = (k + 1) % 3, j = (k + 2) % 3; m[i][i] = c; m[i][j] = s; m[j][i] = -s; m[j][j] = c; return m; }
static V axq(E a, int k) { E h = a * E(.5); V q = v4(E(0), E(0), E(0), ecos(h)); q[k] = esin(h); return q; }
static const int ORD[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static std::string on(int o) { std::string s; for (int k : ORD[o]) s += "xyz"[k]; return s; }
void reg_euler() {
  const char *P = "C10";
  auto ga = [](C &c, int p) { for (int k = 0; k < 3; k++) c.sf(p, k, gangle(c)); if (c.rng.p(.12)) { int z = c.rng.r(5), i = c.rng.r(3); double s = c.rng.logu(1e-8, 1e-3); for (int k = 0; k < 3; k++) c.sf(p, k, z == 0 ? 0 : z == 1 ? c.f(p, 0) : z == 2 ? c.rng.r(-3, 3) : z == 3 ? c.rng.d(-1, 1) * s : k == i ? c.f(p, k) : 0); } };
  auto build = [](V a, int o) { return ax(a[ORD[o][0]], ORD[o][0]) * ax(a[ORD[o][1]], ORD[o][1]) * ax(a[ORD[o][2]], ORD[o][2]); };
  auto quat = [](V a, int o) { return qmul(qmul(axq(a[ORD[o][0]], ORD[o][0]), axq(a[ORD[o][1]], ORD[o][1])), axq(a[ORD[o][2]], ORD[o][2])); };
  for (int o = 0; o < 6; o++) {
    add(P, "glm_euler_" + on(o), FN { c.o(1, build(c.v(0), o)); }, FN { ga(c, 0); });
    auto rh = FN { c.o(1, quat(c.v(0), o)); };
    auto lh = FN { V a = c.v(0); a[2] = -a[2]; c.o(1, quat(a, o)); };
    add(P, "glm_euler_" + on(o) + "_quat_rh", rh, FN { ga(c, 0); });
    add(P, "glm_euler_" + on(o) + "_quat_lh", lh, FN { ga(c, 0); });
    add(P, "glm_euler_" + on(o) + "_quat", CONV_LH ? Fn(lh) : Fn(rh), FN { ga(c, 0); });   // the configured one
  }
  add(P, "glm_euler", FN { c.o(1, build(c.v(0), 0)); }, FN { ga(c, 0); });
  auto code = [](int o) { return ORD[o][0] | ORD[o][1] << 2 | ORD[o][2] << 4; };
  add(P, "glm_euler_by_order", FN { for (int o = 0; o < 6; o++) if (c.i(1) == code(o)) { c.o(2, build(c.v(0), o)); return; } throw Inv(); }, FN { ga(c, 0); c.si(1, 0, code(c.rng.r(6))); });
  add(P, "glm_euler_order", FN { c.reti(c.i(0, 0) | c.i(0, 1) << 2 | c.i(0, 2) << 4); }, FN { int o = c.rng.r(6); for (int k = 0; k < 3; k++) c.si(0, k, ORD[o][k]); });
  rel(P, "glm_euler_angles", FN {
    double a[3], R[3][3], m[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = c.f(0, i * 4 + j);
    for (int k = 0; k < 3; k++) { a[k] = c.A(1, k); if (!std::isfinite(a[k])) { c.fail(fmt("angle %d is %g", k, a[k])); return; } }
    c.need(fabs(a[0]) <= M_PI + 1e-6 && fabs(a[2]) <= M_PI + 1e-6 && fabs(a[1]) <= M_PI / 2 + 1e-6, "an angle is outside its range");
    double sx = sin(a[0]), cx = cos(a[0]), sy = sin(a[1]), cy = cos(a[1]), sz = sin(a[2]), cz = cos(a[2]);
    double q[3][3] = {{cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz}, {-cy * sz, cx * cz - sx * sy * sz, cx * sy * sz + sx * cz}, {sy, -sx * cy, cx * cy}};
    memcpy(R, q, sizeof q);
    // near the singularity float asin only knows cos(y) to about sqrt(eps), and x and z are
    // individually lost; then only what can be recovered is required
    double c1 = sqrt(m[0][0] * m[0][0] + m[1][0] * m[1][0]), tol = 4e-6 + (c1 < 4e-3 ? std::min(3e-3, 3e-7 / std::max(c1, 1e-4)) : 4e-7 / c1);
    if (fabs(m[2][0]) < 1 && c1 < 2e-3) throw Amb();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.near(R[i][j], m[i][j], tol, "matrix rebuilt from the angles");
  }, FN { double R[3][3]; grot3(c, R); int k = c.rng.r(5);
    if (k < 2) { double x = gangle(c), y = k == 0 ? c.rng.sgn() * M_PI / 2 : c.rng.sgn() * (M_PI / 2 - c.rng.logu(1e-4, .1)), z = k == 0 ? gangle(c) : gangle(c);
      double sx = sin(x), cx = cos(x), sy = sin(y), cy = k == 0 ? 0 : cos(y), sz = sin(z), cz = cos(z); if (k == 0) sy = y > 0 ? 1 : -1;
      double q[3][3] = {{cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz}, {-cy * sz, cx * cz - sx * sy * sz, cx * sy * sz + sx * cz}, {sy, -sx * cy, cx * cy}}; memcpy(R, q, sizeof q); }
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) c.sf(0, a * 4 + b, a < 3 && b < 3 ? R[a][b] : a == b); });
}
