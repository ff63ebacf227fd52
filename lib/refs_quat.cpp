// References for quaternions: algebra (C06), rotation equivalences (C07), interpolation (C08).
#include "core.h"
#define FN [=](C &c)
static const double QT = 4e-6;        // a unit quaternion is unit only to float rounding

static void gq(C &c, int p) { double q[4]; gquat(c, q); for (int k = 0; k < 4; k++) c.sf(p, k, q[k]); }
static void gR(C &c, int p, int n) {
  double R[3][3]; grot3(c, R);
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) c.sf(p, a * n + b, a < 3 && b < 3 ? R[a][b] : a == b);
}
// a unit quaternion of a rotation matrix (columns), by the largest component
static void rot2q(const double R[3][3], double q[4]) {
  double t[4] = {1 + R[0][0] - R[1][1] - R[2][2], 1 - R[0][0] + R[1][1] - R[2][2], 1 - R[0][0] - R[1][1] + R[2][2], 1 + R[0][0] + R[1][1] + R[2][2]};
  int k = 0; for (int i = 1; i < 4; i++) if (t[i] > t[k]) k = i;
  double s = 0.5 / sqrt(t[k]); q[k] = s * t[k];
  double a = R[1][2] - R[2][1], b = R[2][0] - R[0][2], c = R[0][1] - R[1][0];
  double d = R[0][1] + R[1][0], e = R[0][2] + R[2][0], f = R[1][2] + R[2][1];
  if (k == 3) { q[0] = a * s; q[1] = b * s; q[2] = c * s; }
  if (k == 0) { q[3] = a * s; q[1] = d * s; q[2] = e * s; }
  if (k == 1) { q[3] = b * s; q[0] = d * s; q[2] = f * s; }
  if (k == 2) { q[3] = c * s; q[0] = e * s; q[1] = f * s; }
}
static double qd(const double a[4], const double b[4], double s) { double m = 0; for (int i = 0; i < 4; i++) m = std::max(m, fabs(a[i] - s * b[i])); return m; }
static void sameRot(C &c, int p, const double w[4], double tol, const char *what) {   // actual slot p is +-w
  double a[4]; for (int i = 0; i < 4; i++) { a[i] = c.A(p, i); if (!std::isfinite(a[i])) { c.fail(fmt("%s: component %d is %g", what, i, a[i])); return; } }
  double d = std::min(qd(a, w, 1), qd(a, w, -1));
  if (!(d <= tol)) c.fail(fmt("%s: (%.8g %.8g %.8g %.8g), expected +-(%.8g %.8g %.8g %.8g), off by %.3g", what, a[0], a[1], a[2], a[3], w[0], w[1], w[2], w[3], d));
}
static bool unitq(C &c, int p) { double s = 0; for (int k = 0; k < c.api->p[p].n; k++) s += (double)c.f(p, k) * c.f(p, k); return fabs(s - 1) < 1e-6; }
static double dd(const double *a, const double *b, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
static void getd(C &c, int p, double *o) { for (int k = 0; k < c.api->p[p].n; k++) o[k] = c.f(p, k); }
static void crossd(const double *a, const double *b, double *o) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
static double nrm(double *a, int n) { double s = sqrt(dd(a, a, n)); if (s > 0) for (int i = 0; i < n; i++) a[i] /= s; return s; }

// what the orientation looking along dir with this up is: columns right, up', back
static bool lookBasis(const double *dir, const double *up, double R[3][3]) {
  double z[3] = {-dir[0], -dir[1], -dir[2]}, u[3] = {up[0], up[1], up[2]};
  if (nrm(z, 3) < 1e-3) return false;
  if (nrm(u, 3) < 1e-3) return false;
  double x[3]; crossd(u, z, x); if (nrm(x, 3) < 0.02) return false;
  double y[3]; crossd(z, x, y);
  memcpy(R[0], x, 24); memcpy(R[1], y, 24); memcpy(R[2], z, 24); return true;
}
// pair of unit quaternions: random, near, nearly opposite, equal, opposite, orthogonal
static void gpair(C &c) {
  double a[4], b[4]; gquat(c, a); gquat(c, b); Rng &r = c.rng; int k = r.r(10);
  double d = dd(a, b, 4), o[4]; for (int i = 0; i < 4; i++) o[i] = b[i] - d * a[i];
  double n = nrm(o, 4);
  if (n > 1e-3 && k < 6) {
    double t = k == 0 ? r.logu(1e-6, .2) : k == 1 ? M_PI - r.logu(1e-6, .2) : k == 2 ? M_PI / 2 + r.sgn() * r.logu(1e-3, .2) : k == 3 ? r.logu(2e-4, 5e-3) : k == 4 ? M_PI - r.logu(2e-4, 5e-3) : r.d(0, M_PI);
    for (int i = 0; i < 4; i++) b[i] = cos(t) * a[i] + sin(t) * o[i];
  }
  for (int i = 0; i < 4; i++) { c.sf(0, i, a[i]); c.sf(1, i, b[i]); }
  if (k == 8) for (int i = 0; i < 4; i++) c.sf(1, i, c.f(0, i));
  if (k == 9) for (int i = 0; i < 4; i++) c.sf(1, i, -c.f(0, i));
}
static void gT(C &c, int p, bool wild) {
  Rng &r = c.rng; int k = r.r(6);
  c.sf(p, 0, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? .5 : (k == 3 && wild) ? (r.p(.2) ? r.sgn() * r.logu(3, 300) : r.d(-3, 3)) : (k == 4 && wild) ? r.logu(1e-5, 1) : r.d(0, 1));
}
static void chkSlerp(C &c, bool longest) {
  domain(unitq(c, 0) && unitq(c, 1));
  double a[4], b[4]; getd(c, 0, a); getd(c, 1, b); double t = c.f(2);
  nrm(a, 4); nrm(b, 4);
  double d = dd(a, b, 4);
  double r[4]; for (int i = 0; i < 4; i++) { r[i] = c.A(3, i); if (!std::isfinite(r[i])) { c.fail(fmt("component %d is %g", i, r[i])); return; } }
  double n = sqrt(dd(r, r, 4));
  double sth = sqrt(std::max(0.0, 1 - d * d));
  double tol0 = longest ? (sth < 2e-3 ? 0.7 : 5e-6 + 6e-7 / (sth * sth)) : sth < 9e-4 ? 5e-6 : 3e-6 + 1.2e-7 / (sth * sth);   // sqrt(1-c*c) in float
  if (t < 0 || t > 1) { domain(sth > .05 && fabs(t) < 1e3); tol0 *= 4 + 2 * fabs(t); }
  c.near(n, 1, tol0, "the result is not a unit quaternion: norm");
  // constant angular fraction along the arc
  auto along = [&](double sg) {       // from sg*a to b
    double dd2 = sg * d; double th = acos(std::max(-1.0, std::min(1.0, dd2))), s = sin(th); double e[4];
    if (s < 1e-12) { for (int i = 0; i < 4; i++) e[i] = b[i]; }
    else for (int i = 0; i < 4; i++) e[i] = (sin((1 - t) * th) * sg * a[i] + sin(t * th) * b[i]) / s;
    return std::min(qd(r, e, 1), qd(r, e, -1));
  };
  if (!longest) {
    double e = along(d < 0 ? -1 : 1);
    if (fabs(d) < 1e-5) e = std::min(e, along(d < 0 ? 1 : -1));
    double tol = sth < 6e-4 ? 6e-4 : 5e-6 + 2.4e-7 / (sth * sth);   // float cannot tell below 6e-4 rad
    if (t < 0 || t > 1) tol *= 5 + 2 * fabs(t);
    if (!(e <= tol)) c.fail(fmt("not on the shorter arc at fraction %.6g: (%.8g %.8g %.8g %.8g), angle %.6g rad, off by %.3g, tolerance %.3g", t, r[0], r[1], r[2], r[3], acos(std::min(1.0, fabs(d))), e, tol));
  } else {
    if (sth < 2e-3) {                  // the long way round is not determined: unit, and the endpoints
      double e0 = std::min(qd(r, a, 1), qd(r, a, -1));
      if (t == 0 || t == 1) c.need(e0 <= 2.5e-3, "the endpoint is not reached");
      return;
    }
    double e = along(d < 0 ? 1 : -1);
    if (fabs(d) < 1e-5) e = std::min(e, along(d < 0 ? -1 : 1));
    double tol = 5e-6 + 4e-7 / (sth * sth);
    if (t < 0 || t > 1) tol *= 5 + 2 * fabs(t);
    if (!(e <= tol)) c.fail(fmt("not on the longer arc at fraction %.6g: (%.8g %.8g %.8g %.8g), off by %.3g, tolerance %.3g", t, r[0], r[1], r[2], r[3], e, tol));
  }
}

void reg_quat() {
  const char *P = "C06"; const int XF = SPECIAL | EXTREME;
  add(P, "glm_quat_identity", FN { c.o(0, v4(E(0), E(0), E(0), E(1))); });
  add(P, "glm_quat_identity_array", FN { int n = c.i(1); domain(n >= 0 && n <= 8); for (int a = 0; a < n; a++) for (int k = 0; k < 4; k++) c.o(0, a * 4 + k, E(k == 3 ? 1 : 0)); }, FN { c.si(1, 0, c.rng.r(9)); });
  add(P, "glm_quat_init", FN { for (int k = 0; k < 4; k++) c.o(0, k, c.F(1 + k)); }, nullptr, XF);
  add(P, "glm_quat_copy", FN { c.o(1, c.v(0)); }, nullptr, XF);
  add(P, "glm_quat_make", FN { c.o(1, c.v(0)); }, nullptr, XF);
  add(P, "glm_quat_norm", FN { c.ret(norm(c.v(0))); }, nullptr, EXTREME);
  auto nq = [](C &c, int p) { V v = c.v(0); E d = norm2(v); if (le(d, E(0))) { mark(1); c.o(p, v4(E(0), E(0), E(0), E(1))); return; } E n = esqrt(d); c.o(p, v / n); };
  add(P, "glm_quat_normalize", FN { nq(c, 0); }, FN { if (c.rng.p(.1)) for (int k = 0; k < 4; k++) c.sf(0, k, 0); else if (c.rng.p(.2)) gvec(c, 0, 0, 4, 1e-15, 1e15); });
  add(P, "glm_quat_normalize_to", FN { nq(c, 1); }, FN { if (c.rng.p(.1)) for (int k = 0; k < 4; k++) c.sf(0, k, 0); else if (c.rng.p(.2)) gvec(c, 0, 0, 4, 1e-15, 1e15); });
  add(P, "glm_quat_dot", FN { c.ret(dot(c.v(0), c.v(1))); }, nullptr, EXTREME | NANIN);
  add(P, "glm_quat_conjugate", FN { V v = c.v(0); c.o(1, v4(-v[0], -v[1], -v[2], v[3])); }, nullptr, XF);
  add(P, "glm_quat_inv", FN { V v = c.v(0); E n = norm2(v); domain(n.v > 0); E r = E(1) / n; c.o(1, v4(-v[0] * r, -v[1] * r, -v[2] * r, v[3] * r)); }, FN { if (c.rng.p(.3)) gq(c, 0); });
  add(P, "glm_quat_add", FN { c.o(2, c.v(0) + c.v(1)); }, nullptr, EXTREME);
  add(P, "glm_quat_sub", FN { c.o(2, c.v(0) - c.v(1)); }, nullptr, EXTREME);
  add(P, "glm_quat_real", FN { c.ret(c.F(0, 3)); }, nullptr, XF);
  add(P, "glm_quat_imag", FN { c.o(1, cut(c.v(0), 3)); }, nullptr, XF);
  for (const char *n : {"glm_quat_imagn", "glm_quat_axis"}) add(P, n, FN { c.o(1, normzV(cut(c.v(0), 3))); }, FN { if (c.rng.p(.3)) gq(c, 0); if (c.rng.p(.1)) for (int k = 0; k < 3; k++) c.sf(0, k, 0); });
  add(P, "glm_quat_imaglen", FN { c.ret(norm(cut(c.v(0), 3))); }, nullptr, EXTREME);
  add(P, "glm_quat_angle", FN { c.ret(E(2) * eatan2(norm(cut(c.v(0), 3)), c.F(0, 3))); }, FN { if (c.rng.p(.6)) gq(c, 0); });
  add(P, "glm_quat_mul", FN { c.o(2, qmul(c.v(0), c.v(1))); }, FN { if (c.rng.p(.3)) { gq(c, 0); gq(c, 1); } }, EXTREME | NANIN);
  add(P, "glm_quatv", FN { E a = c.F(1) * E(.5), s = esin(a); V k = normzV(c.v(2)); c.o(0, v4(k[0] * s, k[1] * s, k[2] * s, ecos(a))); }, FN { c.sf(1, 0, gangle(c)); if (c.rng.p(.5)) gunit(c, 2, 0, 3); });
  add(P, "glm_quat", FN { E a = c.F(1) * E(.5), s = esin(a); V k = normzV(v3(c.F(2), c.F(3), c.F(4))); c.o(0, v4(k[0] * s, k[1] * s, k[2] * s, ecos(a))); }, FN { c.sf(1, 0, gangle(c)); });
  // C07: one rotation, many representations
  P = "C07";
  for (int t = 0; t < 2; t++) for (int n = 3; n <= 4; n++)
    add(P, fmt("glm_quat_mat%d%s", n, t ? "t" : ""), FN { domain(unitq(c, 0)); M m = qrot(c.v(0), n); c.extraAbs = QT; c.o(1, t ? transp(m) : m); }, FN { gq(c, 0); });
  for (int n = 3; n <= 4; n++) rel(P, fmt("glm_mat%d_quat", n), FN {
    double R[3][3], q[4]; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) R[a][b] = c.f(0, a * n + b);
    rot2q(R, q); sameRot(c, 1, q, 5e-6, "quaternion of a rotation matrix"); }, FN { gR(c, 0, n); if (n == 4 && c.rng.p(.5)) for (int b = 0; b < 3; b++) c.sf(0, 12 + b, c.rng.d(-100, 100)); });
  rel(P, "glm_quat_from_vecs", FN {
    domain(unitq(c, 0) && unitq(c, 1));
    double a[3], b[3], q[4]; getd(c, 0, a); getd(c, 1, b); double cs = dd(a, b, 3);
    for (int k = 0; k < 4; k++) { q[k] = c.A(2, k); if (!std::isfinite(q[k])) { c.fail("the result is not finite"); return; } }
    double n = sqrt(dd(q, q, 4)); c.near(n, 1, 3e-6, "norm of the result");
    if (!c.why.empty()) return;
    double tol;                          // the function switches to the limit cases within 1e-5 of them
    if (fabs(cs) > 1 - 1.1e-5) tol = 6e-3; else { double s = cs < 0 ? sqrt(2 + 2 * cs) : 1; tol = 4e-6 + 3e-6 / s; }
    double u[3], v[3], w[3]; crossd(q, a, u); for (int k = 0; k < 3; k++) u[k] += q[3] * a[k];
    crossd(q, u, v); for (int k = 0; k < 3; k++) w[k] = a[k] + 2 * v[k];
    for (int k = 0; k < 3; k++) c.near(w[k], b[k], tol, "rotating a by the result");
    if (cs > -.99 && fabs(cs) <= 1 - 1.1e-5) {   // minimal rotation: the axis is perpendicular to both
      c.near(dd(q, a, 3), 0, 1e-5, "axis . a"); c.near(dd(q, b, 3), 0, 1e-5, "axis . b");
    }
  }, FN { gunit(c, 0, 0, 3); gunit(c, 1, 0, 3); int k = c.rng.r(8);
    if (k == 0) for (int i = 0; i < 3; i++) c.sf(1, i, c.f(0, i)); if (k == 1) for (int i = 0; i < 3; i++) c.sf(1, i, -c.f(0, i));
    if (k == 2 || k == 3) { double b[3], s = k == 2 ? 1 : -1, e = c.rng.p(.3) ? c.rng.logu(2e-3, 3e-2) : c.rng.logu(1e-5, 1e-1); for (int i = 0; i < 3; i++) b[i] = s * c.f(0, i) + e * c.rng.d(-1, 1); nrm(b, 3); for (int i = 0; i < 3; i++) c.sf(1, i, b[i]); } });
  auto glook = [](C &c, int d, int u) { gvec(c, d, 0, 3, .01, 100); if (c.rng.p(.3)) gunit(c, d, 0, 3); { double w = c.rng.p(.15) ? c.rng.logu(1e-5, 1e7) : 1; gvec(c, u, 0, 3, .1 * w, 10 * w); } if (c.rng.p(.5)) { int k = c.rng.r(3); for (int i = 0; i < 3; i++) c.sf(u, i, i == k); } };
  auto chkfor = [](C &c, const double *dir, const double *up, int p) {
    double R[3][3], q[4]; if (!lookBasis(dir, up, R)) throw Inv();
    double u[3] = {up[0], up[1], up[2]}, z[3] = {dir[0], dir[1], dir[2]}; nrm(u, 3); nrm(z, 3); double x[3]; crossd(u, z, x); double s = sqrt(dd(x, x, 3));
    rot2q(R, q); sameRot(c, p, q, 5e-6 + 2e-6 / s, "orientation looking along dir"); };
  rel(P, "glm_quat_for", FN { double d[3], u[3]; getd(c, 0, d); getd(c, 1, u); chkfor(c, d, u, 2); }, FN { glook(c, 0, 1); });
  rel(P, "glm_quat_forp", FN { double a[3], b[3], d[3], u[3]; getd(c, 0, a); getd(c, 1, b); getd(c, 2, u); for (int k = 0; k < 3; k++) d[k] = b[k] - a[k]; domain(dd(d, d, 3) > 1e-4 * (dd(a, a, 3) + dd(b, b, 3))); chkfor(c, d, u, 3); },
      FN { gvec(c, 0, 0, 3, .01, 20); glook(c, 1, 2); for (int k = 0; k < 3; k++) c.sf(1, k, c.f(1, k) + c.f(0, k)); });
  add(P, "glm_quat_look", FN { domain(unitq(c, 1)); M r = transp(qrot(c.v(1), 4)); r = padE(r, QT); V e = c.v(0); V t = r * v4(e[0], e[1], e[2], E(0)); for (int k = 0; k < 3; k++) r[3][k] = -t[k];
      r[0][3] = r[1][3] = r[2][3] = E(0); r[3][3] = E(1); c.o(2, r); }, FN { gq(c, 1); });
  add(P, "glm_quat_rotatev", FN {
    V q = c.v(0); E d = norm2(q); if (le(d, E(0))) q = v4(E(0), E(0), E(0), E(1)); else { E n = esqrt(d); q = q / n; }
    M r = padE(qrot(q, 3), 1e-6); c.o(2, r * c.v(1));
  }, FN { int k = c.rng.r(4); if (k) gq(c, 0); if (k == 2) { double s = c.rng.logu(1e-3, 1e3); for (int i = 0; i < 4; i++) c.sf(0, i, c.f(0, i) * s); } });
  auto R4 = [](C &c, int p) { domain(unitq(c, p)); M r = padE(qrot(c.v(p), 4), QT); for (int k = 0; k < 4; k++) r[k][3] = r[3][k] = E(k == 3 ? 1 : 0); return r; };
  auto gaff = [](C &c, int p) { double R[3][3]; grot3(c, R); double s = c.rng.p(.5) ? 1 : c.rng.d(.2, 3); for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) c.sf(p, a * 4 + b, a < 3 && b < 3 ? R[a][b] * s : b == 3 ? (a == 3) : a == 3 ? c.rng.d(-20, 20) : 0); };
  add(P, "glm_quat_rotate", FN { c.o(2, c.m(0) * R4(c, 1)); }, FN { gq(c, 1); if (c.rng.p(.5)) gaff(c, 0); });
  add(P, "glm_quat_rotate_at", FN { V p = c.v(2); c.o(0, c.m(0) * transM(p) * R4(c, 1) * transM(-p)); }, FN { gq(c, 1); if (c.rng.p(.7)) gaff(c, 0); });
  add(P, "glm_quat_rotate_atm", FN { V p = c.v(2); c.o(0, transM(p) * R4(c, 1) * transM(-p)); }, FN { gq(c, 1); });
  // C08
  P = "C08";
  add(P, "glm_quat_lerp", FN { V a = c.v(0), b = c.v(1); c.o(3, vmap(4, [&](int k) { return lerpE(a[k], b[k], c.F(2)); })); }, FN { if (c.rng.p(.6)) { gpair(c); gT(c, 2, true); } });
  add(P, "glm_quat_lerpc", FN { V a = c.v(0), b = c.v(1); E t = clamp01(c.F(2)); c.o(3, vmap(4, [&](int k) { return lerpE(a[k], b[k], t); })); }, FN { if (c.rng.p(.6)) { gpair(c); gT(c, 2, true); } });
  add(P, "glm_quat_nlerp", FN {
    V a = c.v(0), b = c.v(1); E d = dot(a, b); if (!ge(d, E(0))) { mark(1); b = -b; }
    V l = vmap(4, [&](int k) { return lerpE(a[k], b[k], c.F(2)); });
    E n2 = norm2(l); if (le(n2, E(0))) { c.o(3, v4(E(0), E(0), E(0), E(1))); return; }
    E n = esqrt(n2); c.o(3, l / n); }, FN { gpair(c); gT(c, 2, true); });
  rel(P, "glm_quat_slerp", FN { chkSlerp(c, false); }, FN { gpair(c); gT(c, 2, true); });
  rel(P, "glm_quat_slerp_longest", FN { chkSlerp(c, true); }, FN { gpair(c); gT(c, 2, true); });
}
