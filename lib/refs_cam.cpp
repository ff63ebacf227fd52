// References for projection (C14), its queries and edits (C15), views (C16), project/unproject (C17).
#include "core.h"
#define FN [=](C &c)
struct Cs { const char *sfx; bool lh, zo; };
#define CSLIST {{"_lh_no", 1, 0}, {"_lh_zo", 1, 1}, {"_rh_no", 0, 0}, {"_rh_zo", 0, 1}, {"", CONV_LH, CONV_ZO}}   // "": the configured one

static M zero4() { return mmap_(4, 4, [](int, int) { return E(0); }); }
static M orthoM(Cs k, E l, E r, E b, E t, E n, E f) {
  domain(l.v != r.v && b.v != t.v && n.v != f.v);
  M m = zero4(); E rl = r - l, tb = t - b, fn = f - n, s = E(k.lh ? 1 : -1);
  m[0][0] = E(2) / rl; m[1][1] = E(2) / tb; m[2][2] = s * E(k.zo ? 1 : 2) / fn;
  m[3][0] = -((r + l) / rl); m[3][1] = -((t + b) / tb); m[3][2] = k.zo ? -(n / fn) : -((f + n) / fn); m[3][3] = E(1);
  return m;
}
static M frustumM(Cs k, E l, E r, E b, E t, E n, E f) {
  domain(l.v != r.v && b.v != t.v && n.v != f.v);
  M m = zero4(); E rl = r - l, tb = t - b, fn = f - n, s = E(k.lh ? 1 : -1);
  m[0][0] = E(2) * n / rl; m[1][1] = E(2) * n / tb; m[2][0] = -(s * ((r + l) / rl)); m[2][1] = -(s * ((t + b) / tb));
  m[2][2] = s * (k.zo ? f / fn : (f + n) / fn); m[2][3] = s; m[3][2] = k.zo ? -(f * n / fn) : -(E(2) * f * n / fn);
  return m;
}
static M perspM(Cs k, E fovy, E asp, E n, E f) {
  domain(n.v != f.v && asp.v != 0);
  M m = zero4(); E fn = f - n, s = E(k.lh ? 1 : -1), t = etan(fovy * E(.5)); domain(t.v != 0);
  m[1][1] = E(1) / t; m[0][0] = E(1) / t / asp; m[2][2] = s * (k.zo ? f / fn : (f + n) / fn); m[2][3] = s; m[3][2] = k.zo ? -(f * n / fn) : -(E(2) * f * n / fn);
  return m;
}
static const double NEARS[] = {1, .1, .01, .5, 2}, FARS[] = {2, 10, 100, 1000, 3, 1.5}, RATIO[] = {1, 1, .5, 2, .75};
static void gpersp(C &c, int p, Cs k) {      // a perspective matrix of this convention, maybe off-center
  Rng &r = c.rng; double n = r.len(.01, 10), f = n * r.logu(1.2, 5000), w = n * r.len(.05, 5), h = r.p(.1) ? w * r.logu(.1, 10) : n * r.len(.05, 5), ox = r.p(.5) ? 0 : r.d(-1, 1) * w * (r.p(.1) ? 20 : 1), oy = r.p(.5) ? 0 : r.d(-1, 1) * h;
  if (r.p(.2)) { n = NEARS[r.r(5)]; f = n * FARS[r.r(6)]; w = n * RATIO[r.r(5)]; h = r.p(.5) ? w : n * RATIO[r.r(5)]; ox = r.p(.7) ? 0 : r.r(-2, 2) * w; oy = r.p(.7) ? 0 : r.p(.5) ? ox : r.r(-2, 2) * h; }   // simple values: unit and equal elements
  double s = k.lh ? 1 : -1;
  for (int i = 0; i < 16; i++) c.sf(p, i, 0);
  c.sf(p, 0, n / w); c.sf(p, 5, n / h); c.sf(p, 8, -s * ox / w); c.sf(p, 9, -s * oy / h);
  c.sf(p, 10, s * (k.zo ? f / (f - n) : (f + n) / (f - n))); c.sf(p, 11, s); c.sf(p, 14, k.zo ? -f * n / (f - n) : -2 * f * n / (f - n));
}
struct PD { E n, f, t, b, l, r, s; };
static bool isPersp(C &c, int p, Cs k) {
  for (int i : {1, 2, 3, 4, 6, 7, 12, 13, 15}) if (c.f(p, i) != 0) return false;
  return c.f(p, 11) == (k.lh ? 1 : -1) && c.f(p, 0) != 0 && c.f(p, 5) != 0;
}
static PD decomp(C &c, int p, Cs k) {
  domain(isPersp(c, p, k)); M m = c.m(p); PD d; E s(k.lh ? 1 : -1);
  E a = s * m[2][2], q = m[3][2];           // a = f/(f-n) or (f+n)/(f-n) ; q = -fn/(f-n) or twice that
  d.n = k.zo ? -(q / a) : -(q / (a + E(1))); domain(a.v != 1); d.f = -(q / (a - E(1)));
  E x = -(s * m[2][0]), y = -(s * m[2][1]);  // (r+l)/(r-l), (t+b)/(t-b)
  d.l = d.n / m[0][0] * (x - E(1)); d.r = d.n / m[0][0] * (x + E(1));
  d.b = d.n / m[1][1] * (y - E(1)); d.t = d.n / m[1][1] * (y + E(1));
  return d;
}
static void viewRef(C &c, int p, bool lh, V eye, V fwd, V up) {
  E fl = norm(fwd); domain(fl.v > 0);
  V f = normzV(fwd), s = lh ? cross(up, f) : cross(f, up); s = normzV(s);
  domain(s[0].v != 0 || s[1].v != 0 || s[2].v != 0);
  V u = lh ? cross(f, s) : cross(s, f); V z = lh ? f : -f;
  M m = ident(4);
  for (int i = 0; i < 3; i++) { m[i][0] = s[i]; m[i][1] = u[i]; m[i][2] = z[i]; }
  m[3][0] = -dot(s, eye); m[3][1] = -dot(u, eye); m[3][2] = -dot(z, eye);
  c.o(p, m);
}
static void gview(C &c, int e, int d, int up) {
  Rng &r = c.rng; gvec(c, e, 0, 3, .01, 100); if (r.p(.1)) for (int k = 0; k < 3; k++) c.sf(e, k, 0); else if (r.p(.15)) { for (int k = 0; k < 3; k++) c.sf(e, k, r.r(-3, 3)); if (r.p(.3)) c.sf(e, 1, c.f(e, 0)); }
  if (r.p(.3)) gunit(c, d, 0, 3); else if (r.p(.15)) { double n = 0; for (int k = 0; k < 3; k++) { c.sf(d, k, r.r(-3, 3)); n += fabs(c.f(d, k)); } if (n == 0) c.sf(d, r.r(3), r.sgn()); } else gvec(c, d, 0, 3, .05, 200);
  if (up >= 0) { if (r.p(.6)) { int a = r.r(3); double s = r.p(.2) ? -1 : 1; for (int k = 0; k < 3; k++) c.sf(up, k, k == a ? s : 0); } else { double w = r.p(.15) ? r.logu(1e-5, 1e7) : 1; gvec(c, up, 0, 3, .1 * w, 10 * w); }
    if (r.p(.06)) { double n = 0; for (int k = 0; k < 3; k++) { c.sf(up, k, r.r(-2, 2)); n += fabs(c.f(up, k)); } if (n == 0) c.sf(up, 1, 1); } else if (r.p(.05)) gunit(c, up, 0, 3);
    if (r.p(.05)) for (int k = 0; k < 3; k++) c.sf(up, k, c.f(d, k) * 2 + r.d(-1, 1) * .02); }
}
static V projv(C &c, M m, V p, V vp, bool zo) {
  V h = m * v4(p[0], p[1], p[2], E(1)); domain(h[3].v != 0); E iw = E(1) / h[3]; V n = h * iw;
  return v3((n[0] * E(.5) + E(.5)) * vp[2] + vp[0], (n[1] * E(.5) + E(.5)) * vp[3] + vp[1], zo ? n[2] : n[2] * E(.5) + E(.5));
}
static V unprojv(C &c, V w, M inv, V vp, bool zo) {
  domain(vp[2].v != 0 && vp[3].v != 0);
  V n = v4(E(2) * (w[0] - vp[0]) / vp[2] - E(1), E(2) * (w[1] - vp[1]) / vp[3] - E(1), zo ? w[2] : E(2) * w[2] - E(1), E(1));
  V h = inv * n; domain(h[3].v != 0); E iw = E(1) / h[3]; return cut(h * iw, 3);
}
static void gmvp(C &c, int p, bool invert) {   // projection * view * model, and the inverse of one when asked
  Rng &r = c.rng; double P[4][4] = {}, Vw[4][4] = {}, m[4][4] = {}; int k = r.r(4); double s = r.r(2) ? 1 : -1;
  if (k) { double n = r.logu(.1, 2), f = n * r.logu(3, 200), w = r.logu(.3, 2), h = r.logu(.3, 2); P[0][0] = 1 / w; P[1][1] = 1 / h; P[2][0] = r.p(.3) ? r.d(-.5, .5) : 0; P[2][2] = s * (f + n) / (f - n); P[2][3] = s; P[3][2] = -2 * f * n / (f - n); }
  else { P[0][0] = r.logu(.05, 2); P[1][1] = r.logu(.05, 2); P[2][2] = s * r.logu(.01, 1); P[3][0] = r.d(-1, 1); P[3][1] = r.d(-1, 1); P[3][2] = r.d(-1, 1); P[3][3] = 1; }
  double R[3][3]; grot3(c, R); double sc = r.p(.5) ? 1 : r.logu(.3, 3);
  int sh = r.p(.15) ? r.r(4) : 4; if (sh < 3) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) R[a][b] = a == b;
  if (sh == 1 || sh == 2) { memset(P, 0, sizeof P); for (int a = 0; a < 4; a++) P[a][a] = sh == 1 || a == 3 ? 1 : r.sgn() * r.r(1, 3); sc = 1; }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) Vw[a][b] = a < 3 && b < 3 ? R[a][b] * sc : b == 3 ? a == 3 : a == 3 ? (sh == 1 || sh == 3 ? 0 : sh == 2 ? r.r(-2, 2) : r.pos(-10, 10)) : 0;
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int i = 0; i < 4; i++) m[a][b] += P[i][b] * Vw[a][i];
  if (invert) { double a[4][8]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { a[i][j] = m[j][i]; a[i][4 + j] = i == j; }
    for (int i = 0; i < 4; i++) { int q = i; for (int j = i; j < 4; j++) if (fabs(a[j][i]) > fabs(a[q][i])) q = j; std::swap_ranges(a[i], a[i] + 8, a[q]); double d = a[i][i]; for (double &x : a[i]) x /= d; for (int j = 0; j < 4; j++) if (j != i) { double g = a[j][i]; for (int z = 0; z < 8; z++) a[j][z] -= g * a[i][z]; } }
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[j][i] = a[i][4 + j]; }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) c.sf(p, a * 4 + b, m[a][b]);
}
static void gvp(C &c, int p) { Rng &r = c.rng; if (r.p(.06)) { int s = r.r(1, 4); c.sf(p, 0, 0); c.sf(p, 1, 0); c.sf(p, 2, s); c.sf(p, 3, r.p(.5) ? s : r.r(1, 4)); if (r.p(.3)) { c.sf(p, 0, s); c.sf(p, 1, s); } return; } if (r.p(.15)) { c.sf(p, 0, r.d(-2, 2)); c.sf(p, 1, r.d(-2, 2)); c.sf(p, 2, r.logu(.01, 1e5)); c.sf(p, 3, r.p(.3) ? c.f(p, 2) : r.logu(.01, 1e5)); return; } c.sf(p, 0, r.p(.5) ? 0 : r.r(-50, 500)); c.sf(p, 1, r.p(.5) ? 0 : r.r(-50, 500)); c.sf(p, 2, r.r(1, 4000)); c.sf(p, 3, r.r(1, 3000)); }

void reg_cam() {
  const Cs CS[] = CSLIST;
  for (Cs k : CS) {
    const char *P = "C14"; std::string s = k.sfx;
    auto nm = [&](const char *a) { return std::string(a) + s; };
    auto g6 = [](C &c, bool persp) { Rng &r = c.rng; double w = r.len(.05, 200), h = r.len(.05, 200), ox = r.p(.4) ? 0 : r.d(-2, 2) * w, oy = r.p(.4) ? 0 : r.d(-2, 2) * h;
      double n = persp ? r.len(.01, 10) : r.pos(-100, 100), f = persp ? n * r.logu(1.2, 5000) : n + fmax(r.len(.1, 1000), fabs(n) * 1e-3);
      double v[6] = {ox - w, ox + w, oy - h, oy + h, n, f}; if (r.p(.15)) { for (int i = 0; i < 4; i += 2) { v[i] = r.r(-4, 3); v[i + 1] = v[i] + r.r(1, 6); if (r.p(.6)) v[i] = -(v[i + 1] = r.r(1, 4)); } if (r.p(.3)) v[2] = v[0], v[3] = v[1]; v[4] = persp ? NEARS[r.r(5)] : r.r(-3, 3); v[5] = persp ? v[4] * FARS[r.r(6)] : r.p(.2) && v[4] ? -v[4] : v[4] + r.r(1, 5); }
      if (r.p(.1)) std::swap(v[2], v[3]); if (!persp && r.p(.1)) std::swap(v[4], v[5]); for (int i = 0; i < 6; i++) c.sf(i, 0, v[i]); };
    add(P, nm("glm_ortho"), FN { c.o(6, orthoM(k, c.F(0), c.F(1), c.F(2), c.F(3), c.F(4), c.F(5))); }, FN { g6(c, false); });
    add(P, nm("glm_frustum"), FN { c.o(6, frustumM(k, c.F(0), c.F(1), c.F(2), c.F(3), c.F(4), c.F(5))); }, FN { g6(c, true); });
    auto box = [](Cs k, C &c, E p, bool xy) {
      M b = c.m(0); E q = xy ? p : E(0);
      E lo[3], hi[3]; for (int i = 0; i < 3; i++) { lo[i] = b[0][i] - (i < 2 ? q : p); hi[i] = b[1][i] + (i < 2 ? q : p); }
      return k.lh ? orthoM(k, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]) : orthoM(k, lo[0], hi[0], lo[1], hi[1], -hi[2], -lo[2]);
    };
    auto gbox = [](C &c) { Rng &r = c.rng; for (int i = 0; i < 3; i++) { double a = r.pos(-50, 50); c.sf(0, i, a); c.sf(0, 3 + i, a + fmax(r.len(.1, 100), fabs(a) * 1e-3)); }
      if (r.p(.2)) { bool sy = r.p(.5), eq = r.p(.5); for (int i = 0; i < 3; i++) { int a = eq && i ? (int)c.f(0, 0) : r.r(-4, 3), b = a + r.r(1, 5); if (sy) { b = eq && i ? (int)c.f(0, 3) : r.r(1, 4); a = -b; } c.sf(0, i, a); c.sf(0, 3 + i, b); } }
      if (c.np() == 3) c.sf(1, 0, r.p(.2) ? 0 : r.p(.1) ? -r.logu(.001, 5) : r.p(.08) ? r.logu(10, 1e5) : r.d(0, 10)); };
    add(P, nm("glm_ortho_aabb"), FN { c.o(1, box(k, c, E(0), false)); }, FN { gbox(c); });
    add(P, nm("glm_ortho_aabb_p"), FN { c.o(2, box(k, c, c.F(1), true)); }, FN { gbox(c); });
    add(P, nm("glm_ortho_aabb_pz"), FN { c.o(2, box(k, c, c.F(1), false)); }, FN { gbox(c); });
    auto gasp = [](C &c, int p) { Rng &r = c.rng; int q = r.r(4); c.sf(p, 0, q == 0 ? 1 : q == 1 ? r.len(.05, 20) : q == 2 ? 1 + r.sgn() * r.logu(1e-6, .1) : (double)r.r(1, 4000) / r.r(1, 3000)); };
    add(P, nm("glm_ortho_default"), FN { E a = c.F(0); domain(a.v > 0); if (ge(a, E(1))) c.o(1, orthoM(k, -a, a, E(-1), E(1), E(-100), E(100))); else { E h = E(1) / a; c.o(1, orthoM(k, E(-1), E(1), -h, h, E(-100), E(100))); } }, FN { gasp(c, 0); });
    add(P, nm("glm_ortho_default_s"), FN { E a = c.F(0), z = c.F(1); domain(a.v > 0 && z.v > 0); E n = -z - E(100), f = z + E(100); if (ge(a, E(1))) c.o(2, orthoM(k, -z * a, z * a, -z, z, n, f)); else c.o(2, orthoM(k, -z, z, -(z / a), z / a, n, f)); }, FN { gasp(c, 0); c.sf(1, 0, c.rng.len(.1, 1000)); });
    add(P, nm("glm_perspective"), FN { domain(c.f(2) > 0 && c.f(3) > c.f(2)); c.o(4, perspM(k, c.F(0), c.F(1), c.F(2), c.F(3))); }, FN { Rng &r = c.rng; static const double FV[] = {M_PI / 2, M_PI / 3, M_PI / 4, M_PI / 6, 1, 2, .5}; c.sf(0, 0, r.p(.25) ? FV[r.r(7)] : r.p(.06) ? r.logu(1e-3, .05) : r.p(.03) ? M_PI - r.logu(1e-2, .2) : r.d(.05, 3.0)); gasp(c, 1); if (r.p(.2)) { double n = NEARS[r.r(5)]; c.sf(2, 0, n); c.sf(3, 0, n * FARS[r.r(6)]); return; } double n = r.len(.001, 10); c.sf(2, 0, n); c.sf(3, 0, n * r.logu(1.2, 10000)); });
    add(P, nm("glm_perspective_default"), FN { c.o(1, perspM(k, kE(M_PI / 4, 4e-8), c.F(0), E(.01f), E(100))); }, FN { gasp(c, 0); });
    P = "C15";
    add(P, nm("glm_perspective_resize"), FN { M m = c.m(1); domain(c.f(0) > 0); if (c.f(1, 0) == 0) { c.o(1, m); return; } m[0][0] = m[1][1] / c.F(0); c.o(1, m); }, FN { gpersp(c, 1, k); gasp(c, 0); if (c.rng.p(.05)) c.sf(1, 0, 0); });
    add(P, nm("glm_persp_move_far"), FN { PD d = decomp(c, 0, k); E f = d.f + c.F(1), fn = f - d.n; if (fn.v <= 0) throw Inv(); lt(E(0), fn);
      M m = c.m(0); E s(k.lh ? 1 : -1); m[2][2] = s * (k.zo ? f / fn : (f + d.n) / fn); m[3][2] = k.zo ? -(f * d.n / fn) : -(E(2) * f * d.n / fn); c.o(0, m); },
      FN { gpersp(c, 0, k); Rng &r = c.rng; double s = k.lh ? 1 : -1, a = s * c.f(0, 10), f = -c.f(0, 14) / (a - 1); c.sf(1, 0, r.p(.05) ? 0 : r.p(.1) ? r.r(1, 50) : f * (r.p(.3) ? -r.d(0, .15) : r.logu(.01, 10))); });
    auto gp = FN { gpersp(c, 0, k); };
    add(P, nm("glm_persp_decomp"), FN { PD d = decomp(c, 0, k); c.o(1, 0, d.n); c.o(2, 0, d.f); c.o(3, 0, d.t); c.o(4, 0, d.b); c.o(5, 0, d.l); c.o(6, 0, d.r); }, gp);
    add(P, nm("glm_persp_decompv"), FN { PD d = decomp(c, 0, k); E v[6] = {d.n, d.f, d.t, d.b, d.l, d.r}; for (int i = 0; i < 6; i++) c.o(1, i, v[i]); }, gp);
    add(P, nm("glm_persp_decomp_x"), FN { PD d = decomp(c, 0, k); c.o(1, 0, d.l); c.o(2, 0, d.r); }, gp);
    add(P, nm("glm_persp_decomp_y"), FN { PD d = decomp(c, 0, k); c.o(1, 0, d.t); c.o(2, 0, d.b); }, gp);
    add(P, nm("glm_persp_decomp_z"), FN { PD d = decomp(c, 0, k); c.o(1, 0, d.n); c.o(2, 0, d.f); }, gp);
    add(P, nm("glm_persp_decomp_far"), FN { c.o(1, 0, decomp(c, 0, k).f); }, gp);
    add(P, nm("glm_persp_decomp_near"), FN { c.o(1, 0, decomp(c, 0, k).n); }, gp);
    add(P, nm("glm_persp_sizes"), FN { PD d = decomp(c, 0, k); E t = E(2) * etan(c.F(1) * E(.5)); M m = c.m(0); E a = m[1][1] / m[0][0]; E h = t * d.n, g = t * d.f; c.o(2, 0, a * h); c.o(2, 1, h); c.o(2, 2, a * g); c.o(2, 3, g); },
        FN { gpersp(c, 0, k); c.sf(1, 0, c.rng.p(.5) ? 2 * atan(1 / (double)c.f(0, 5)) : c.rng.d(.05, 3)); });
    add(P, nm("glm_persp_fovy"), FN { domain(c.f(0, 5) != 0); c.ret(E(2) * fn1(E(1) / c.F(0, 5), [](double x) { return atan(x); })); }, gp);
    add(P, nm("glm_persp_aspect"), FN { domain(c.f(0, 0) != 0); c.ret(c.F(0, 5) / c.F(0, 0)); }, gp);
    P = "C16";
    auto vn = [&](const char *a, const std::string &x) {
      bool lh = k.lh;
      if (std::string(a) == "glm_lookat") add(P, a + x, FN { viewRef(c, 3, lh, c.v(0), c.v(1) - c.v(0), c.v(2)); }, FN { gview(c, 0, 1, 2); for (int i = 0; i < 3; i++) c.sf(1, i, c.f(1, i) + c.f(0, i)); });
      else if (std::string(a) == "glm_look") add(P, a + x, FN { viewRef(c, 3, lh, c.v(0), (c.v(0) + c.v(1)) - c.v(0), c.v(2)); }, FN { gview(c, 0, 1, 2); });
      else rel(P, a + x, FN {
        double e[3], d[3], m[4][4], n = 0, en = 0; for (int i = 0; i < 3; i++) { e[i] = c.f(0, i); d[i] = c.f(1, i); n += d[i] * d[i]; en += e[i] * e[i]; } n = sqrt(n); en = sqrt(en);
        domain(n > 1e-2 && n < 1e4 && en / n < 1e3); for (double &x : d) x /= n;
        for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { m[a][b] = c.A(2, a * 4 + b); if (!std::isfinite(m[a][b])) { c.fail("a non-finite element"); return; } }
        double t = 4e-6 + 3e-7 * en / n;
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { double q = 0; for (int i = 0; i < 3; i++) q += m[a][i] * m[b][i]; c.near(q, a == b, t, "column dot product"); }
        for (int a = 0; a < 4; a++) c.near(m[a][3], a == 3, 0, "bottom row");
        double det = m[0][0] * (m[1][1] * m[2][2] - m[2][1] * m[1][2]) - m[1][0] * (m[0][1] * m[2][2] - m[2][1] * m[0][2]) + m[2][0] * (m[0][1] * m[1][2] - m[1][1] * m[0][2]); c.near(det, 1, 3 * t, "determinant");
        for (int b = 0; b < 3; b++) { double q = m[0][b] * d[0] + m[1][b] * d[1] + m[2][b] * d[2]; c.near(q, b == 2 ? (lh ? 1 : -1) : 0, t, "image of the viewing direction");
          double z = m[0][b] * e[0] + m[1][b] * e[1] + m[2][b] * e[2] + m[3][b]; c.near(z, 0, t * (1 + en), "image of the eye"); }
      }, FN { gview(c, 0, 1, -1); });
    };
    for (const char *a : {"glm_lookat", "glm_look", "glm_look_anyup"}) { vn(a, s); if (s == "_lh_no") vn(a, "_lh"); if (s == "_rh_no") vn(a, "_rh"); }
    P = "C17";
    if (s == "" || s == "_rh_no" || s == "_rh_zo") {
      std::string x = s == "" ? "" : s == "_rh_no" ? "_no" : "_zo"; bool zo = k.zo;
      auto gpt = [](C &c) { gmvp(c, 1, false); if (c.np() > 2) gvp(c, 2); bool ni = c.rng.p(.2); for (int i = 0; i < 3; i++) c.sf(0, i, ni ? (double)c.rng.r(-2, 2) : c.rng.d(-20, 20)); if (c.rng.p(.06)) { double s = c.rng.logu(1e-6, .1); for (int i = 0; i < 3; i++) c.sf(0, i, c.f(0, i) * s); } };
      add(P, "glm_project" + x, FN { c.o(3, projv(c, c.m(1), c.v(0), c.v(2), zo)); }, FN { gpt(c); });
      add(P, "glm_project_z" + x, FN { V h = c.m(1) * v4(c.F(0, 0), c.F(0, 1), c.F(0, 2), E(1)); domain(h[3].v != 0); E z = h[2] / h[3]; c.ret(zo ? z : E(.5) * z + E(.5)); }, FN { gpt(c); });
      auto gw = [](C &c) { gvp(c, 2); c.sf(0, 0, c.f(2, 0) + c.f(2, 2) * c.rng.pos(-.1, 1.1)); c.sf(0, 1, c.f(2, 1) + c.f(2, 3) * c.rng.d(-.1, 1.1)); c.sf(0, 2, c.rng.p(.2) ? c.rng.r(2) : c.rng.p(.1) ? c.rng.d(-2, 3) : c.rng.d(0, 1)); };
      add(P, "glm_unprojecti" + x, FN { c.o(3, unprojv(c, c.v(0), c.m(1), c.v(2), zo)); }, FN { gw(c); gmvp(c, 1, true); });
      if (s == "") add(P, "glm_unproject", FN { c.o(3, unprojv(c, c.v(0), inverse(c.m(1)), c.v(2), zo)); }, FN { gw(c); gmvp(c, 1, false); });
    }
    if (s == "") add(P, "glm_pickmatrix", FN { V ce = c.v(0), sz = c.v(1), vp = c.v(2); domain(sz[0].v > 0 && sz[1].v > 0); M m = ident(4);
      for (int i = 0; i < 2; i++) { m[i][i] = vp[2 + i] / sz[i]; m[3][i] = (vp[2 + i] - E(2) * (ce[i] - vp[i])) / sz[i]; } c.o(3, m); }, FN { gvp(c, 2); for (int i = 0; i < 2; i++) { c.sf(0, i, c.f(2, i) + c.f(2, 2 + i) * (c.rng.p(.1) ? c.rng.pos(-3, 3) : c.rng.d(0, 1))); c.sf(1, i, c.rng.len(.5, 200)); } if (c.rng.p(.15)) { for (int i = 0; i < 2; i++) { c.sf(0, i, c.rng.r(-4, 4)); c.sf(1, i, c.rng.r(1, 5)); } if (c.rng.p(.4)) c.sf(1, 1, c.f(1, 0)); } });
  }
}
