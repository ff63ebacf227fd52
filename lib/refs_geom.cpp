// References for boxes and spheres (C19) and rays (C20).
#include "core.h"
#define FN [=](C &c)
// boxes: parameter p, dimension d, lo at 0.., hi at d..
static void gbox(C &c, int p, int d) {
  Rng &r = c.rng; int k = r.r(6); double h = r.r(1, 3);
  for (int i = 0; i < d; i++) {
    double a, b;
    if (k == 0) { a = r.r(-3, 3); b = r.r(-3, 3); } else if (k == 1) { a = r.d(-100, 100); b = r.d(-100, 100); } else if (k == 2) { a = r.d(-1, 1); b = a + r.logu(1e-4, 10); }
    else if (k == 3) { a = b = r.r(-2, 2) * .5; if (r.p(.5)) b = a + 1; } else if (k == 5) { if (r.p(.3)) h = r.r(1, 4); b = h; a = r.p(.8) ? -h : 0; } else { a = r.sgn() * r.logu(1e-3, 1e3); b = r.sgn() * r.logu(1e-3, 1e3); }
    c.sf(p, i, std::min(a, b)); c.sf(p, d + i, std::max(a, b));
  }
}
// other shape in interesting relative placement: per axis inside, touching, outside on either side
static void gbox2(C &c, int p, int q, int d) {
  Rng &r = c.rng; gbox(c, p, d); if (r.p(.1)) { gbox(c, q, d); return; }
  bool near = r.p(.75);
  for (int i = 0; i < d; i++) {
    double lo = c.f(p, i), hi = c.f(p, d + i), s = hi - lo; if (s <= 0) s = 1; double a, b;
    switch (near ? r.r(5) : r.r(9)) {
      case 0: a = lo + s * r.d(0, .5); b = hi - s * r.d(0, .5); break;
      case 1: a = lo; b = hi; break;
      case 2: a = lo - s * r.d(); b = lo; if (r.p(.5)) b = lo + s * r.d(); break;
      case 3: a = hi; b = hi + s * r.d(); if (r.p(.5)) a = hi - s * r.d(); break;
      case 4: a = lo - s * r.d(); b = hi + s * r.d(); break;
      case 5: b = lo - s * r.logu(1e-5, 2); a = b - s * r.d(); break;
      case 6: a = hi + s * r.logu(1e-5, 2); b = a + s * r.d(); break;
      case 7: a = b = r.p(.5) ? lo : hi; break;
      default: a = lo; b = lo + s * r.d(); break;
    }
    c.sf(q, i, std::min(a, b)); c.sf(q, d + i, std::max(a, b));
    if (r.p(.12)) { int e = r.p(.5) ? i : d + i; float x = c.f(q, e); for (int n = r.r(1, 4), up = r.r(2); n--;) x = nextafterf(x, up ? 3e38f : -3e38f); c.sf(q, e, x); if (c.f(q, i) > c.f(q, d + i)) c.sf(q, i + (e == i ? d : 0), x); }  // an ulp or so from touching
  }
}
static void gpoint(C &c, int p, int q, int d) {   // point relative to box
  Rng &r = c.rng; gbox(c, p, d); bool near = r.p(.7);
  for (int i = 0; i < d; i++) {
    double lo = c.f(p, i), hi = c.f(p, d + i), s = hi - lo; if (s <= 0) s = 1; double a;
    switch (near ? r.r(4) : r.r(7)) { case 0: case 1: a = lo + (hi - lo) * r.d(); break; case 2: a = lo; break; case 3: a = hi; break; case 4: a = lo - s * r.logu(1e-6, 2); break; case 5: a = hi + s * r.logu(1e-6, 2); break; default: a = nextafterf(r.p(.5) ? (float)lo : (float)hi, (float)(r.sgn() * 1e30)); }
    c.sf(q, i, a);
  }
}
static void gball(C &c, int p, int q, int d) {    // ball relative to box
  Rng &r = c.rng; gpoint(c, p, q, d); double s = 0, m = 0;
  for (int i = 0; i < d; i++) { double lo = c.f(p, i), hi = c.f(p, d + i), x = c.f(q, i); m = std::max(m, hi - lo); double e = x < lo ? lo - x : x > hi ? x - hi : 0; s += e * e; }
  s = sqrt(s); if (s == 0) s = (m > 0 ? m : 1) * r.d(); double k = r.d(.2, 1.8); if (r.p(.3)) k = 1 + r.sgn() * r.logu(1e-4, .1); if (r.p(.15)) k = 1;
  c.sf(q, d, r.p(.05) ? 0 : s * k);
}
static void gball2(C &c, int p, int q, bool sph) {  // sphere/sphere or sphere/point
  Rng &r = c.rng; double n[3], l = 0;
  if (r.p(.4)) { for (int i = 0; i < 4; i++) c.sf(p, i, i == 3 ? r.r(5) : r.r(-3, 3)); for (int i = 0; i < (sph ? 4 : 3); i++) c.sf(q, i, i == 3 ? r.r(5) : r.r(-3, 3)); return; }
  for (int i = 0; i < 3; i++) { c.sf(p, i, r.pos(-20, 20)); n[i] = r.d(-1, 1); l += n[i] * n[i]; } l = sqrt(l) + 1e-9; c.sf(p, 3, r.len(.01, 10));
  double rs = c.f(p, 3); if (sph) { c.sf(q, 3, r.len(.01, 10)); rs += c.f(q, 3); }
  double k = r.d(0, 2); if (r.p(.3)) k = 1 + r.sgn() * r.logu(1e-5, .1); for (int i = 0; i < 3; i++) c.sf(q, i, c.f(p, i) + n[i] / l * rs * k);
}
static void regBox(int d, const char *pre, const char *sz) {
  const char *P = "C19"; std::string B = pre;
  auto g1 = [=](C &c) { gbox(c, 0, d); }; auto g2 = [=](C &c) { gbox2(c, 0, 1, d); };
  add(P, B + "transform", FN {
    M m = c.m(1);
    for (int j = 0; j < d; j++) { E lo = m[d][j], hi = m[d][j]; for (int i = 0; i < d; i++) { E a = m[i][j] * c.F(0, i), b = m[i][j] * c.F(0, d + i); lo = lo + emin(a, b); hi = hi + emax(a, b); } c.o(2, j, lo); c.o(2, d + j, hi); }
  }, FN { g1(c); });
  auto sel = [](E a, E b, bool mx) { return E((a.v < b.v) == mx ? b.v : a.v, 0, fabs(a.v)); };
  add(P, B + "merge", FN { for (int i = 0; i < d; i++) { c.o(2, i, sel(c.F(0, i), c.F(1, i), 0)); c.o(2, d + i, sel(c.F(0, d + i), c.F(1, d + i), 1)); } }, FN { g2(c); if (c.rng.p(.1)) for (int i = 0; i < d; i++) { c.sf(0, i, FLT_MAX); c.sf(0, d + i, -FLT_MAX); } });
  add(P, B + "crop", FN { for (int i = 0; i < d; i++) { c.o(2, i, sel(c.F(0, i), c.F(1, i), 1)); c.o(2, d + i, sel(c.F(0, d + i), c.F(1, d + i), 0)); } }, g2);
  add(P, B + "crop_until", FN { for (int i = 0; i < d; i++) { c.o(3, i, sel(sel(c.F(0, i), c.F(1, i), 1), c.F(2, i), 0)); c.o(3, d + i, sel(sel(c.F(0, d + i), c.F(1, d + i), 0), c.F(2, d + i), 1)); } }, FN { g2(c); gbox(c, 2, d); });
  add(P, B + "invalidate", FN { for (int i = 0; i < d; i++) { c.oi(0, i, 0x7f7fffff); c.oi(0, d + i, (int)0xff7fffff); } });
  add(P, B + "isvalid", FN { c.reti(c.f(0, 0) < 1e38); }, FN { g1(c); if (c.rng.p(.3)) for (int i = 0; i < d; i++) { c.sf(0, i, FLT_MAX); c.sf(0, d + i, -FLT_MAX); } });
  auto diag = [=](C &c) { return norm(vmap(d, [&](int i) { return c.F(0, d + i) - c.F(0, i); })); };
  add(P, B + sz, FN { c.ret(diag(c)); }, g1);
  add(P, B + "radius", FN { c.ret(diag(c) * E(.5)); }, g1);
  add(P, B + "center", FN { for (int i = 0; i < d; i++) c.o(1, i, (c.F(0, i) + c.F(0, d + i)) * E(.5)); }, g1);
  add(P, B + "aabb", FN { bool r = true; for (int i = 0; i < d; i++) { bool x = c.f(0, i) <= c.f(1, d + i) && c.f(0, d + i) >= c.f(1, i); mark(x); r = r && x; } c.reti(r); }, g2);
  add(P, B + "contains", FN { bool r = true; for (int i = 0; i < d; i++) { bool x = c.f(0, i) <= c.f(1, i) && c.f(0, d + i) >= c.f(1, d + i); mark(x); r = r && x; } c.reti(r); }, g2);
  add(P, B + "point", FN { bool r = true; for (int i = 0; i < d; i++) { bool x = c.f(0, i) <= c.f(1, i) && c.f(0, d + i) >= c.f(1, i); mark(x); r = r && x; } c.reti(r); }, FN { gpoint(c, 0, 1, d); });
  add(P, B + (d == 3 ? "sphere" : "circle"), FN {
    E s(0); for (int i = 0; i < d; i++) { E x = c.F(1, i), lo = c.F(0, i), hi = c.F(0, d + i); if (x.v < lo.v) s = s + sq(x - lo), mark(1); else if (x.v > hi.v) s = s + sq(x - hi), mark(2); else mark(3); }
    E r = c.F(1, d); c.reti(le(s, r * r));
  }, FN { gball(c, 0, 1, d); });
}
void reg_geom() {
  const char *P = "C19";
  regBox(3, "glm_aabb_", "size"); regBox(2, "glm_aabb2d_", "diag");
  add(P, "glm_aabb2d_zero", FN { for (int i = 0; i < 4; i++) c.o(0, i, E(0)); });
  add(P, "glm_aabb2d_copy", FN { for (int i = 0; i < 4; i++) c.o(1, i, c.F(0, i)); });
  add(P, "glm_aabb2d_sizev", FN { for (int i = 0; i < 2; i++) c.o(1, i, c.F(0, 2 + i) - c.F(0, i)); }, FN { gbox(c, 0, 2); });
  add(P, "glm_sphere_radii", FN { c.ret(c.F(0, 3)); });
  add(P, "glm_sphere_transform", FN { V q = c.m(1) * v4(c.F(0, 0), c.F(0, 1), c.F(0, 2), E(1)); for (int i = 0; i < 3; i++) c.o(2, i, q[i]); c.o(2, 3, c.F(0, 3)); });
  // the merged sphere encloses both and is no larger than center distance plus both radii
  rel(P, "glm_sphere_merge", FN {
    double o[4], mag = 0; for (int i = 0; i < 4; i++) { o[i] = c.A(2, i); mag = std::max({mag, fabs(c.f(0, i) * 1.0), fabs(c.f(1, i) * 1.0)}); }
    double tol = 2e-6 * mag, dd = 0;
    for (int s = 0; s < 2; s++) { double q = 0; for (int i = 0; i < 3; i++) q += (o[i] - c.f(s, i)) * (o[i] - (double)c.f(s, i)); if (!(sqrt(q) + c.f(s, 3) <= o[3] + tol)) c.fail(fmt("merged sphere does not enclose sphere %d (distance %.9g + radius %.9g > %.9g)", s + 1, sqrt(q), c.f(s, 3), o[3])); }
    for (int i = 0; i < 3; i++) dd += ((double)c.f(0, i) - c.f(1, i)) * ((double)c.f(0, i) - c.f(1, i));
    c.need(o[3] <= sqrt(dd) + c.f(0, 3) + c.f(1, 3) + tol, "merged radius exceeds the distance of the centers plus both radii");
  }, FN { gball2(c, 0, 1, true); });
  add(P, "glm_sphere_sphere", FN { V a = c.vat(0, 0, 3), b = c.vat(1, 0, 3); E r = c.F(0, 3) + c.F(1, 3); c.reti(le(norm2(a - b), r * r)); }, FN { gball2(c, 0, 1, true); });
  add(P, "glm_sphere_point", FN { V a = c.vat(0, 0, 3), b = c.vat(1, 0, 3); E r = c.F(0, 3); c.reti(le(norm2(a - b), r * r)); }, FN { gball2(c, 0, 1, false); });
  // ---------------------------------------------------------------- rays
  P = "C20";
  add(P, "glm_ray_at", FN { c.o(3, c.v(0) + c.v(1) * c.F(2)); });
  add(P, "glm_ray_triangle", FN {
    V O = c.v(0), D = c.v(1), A = c.v(2), e1 = c.v(3) - A, e2 = c.v(4) - A; E eps(1e-6f);
    V p = cross(D, e2); E det = dot(e1, p);
    if (le(eabs(det), eps)) { c.reti(0); c.any(5, 0); return; }   // parallel or degenerate
    V t = O - A, q = cross(t, e1); E u = dot(t, p) / det, v = dot(D, q) / det, d = dot(e2, q) / det;
    c.any(5, 0);
    if (lt(u, E(0)) || gt(u, E(1)) || lt(v, E(0)) || gt(u + v, E(1))) { c.reti(0); return; }
    bool hit = gt(d, eps); c.reti(hit); if (hit) c.o(5, 0, d);
  }, FN {
    Rng &r = c.rng; bool nice = r.p(.25); double sc = nice ? 1 : r.len(.01, 100);
    for (int p = 2; p < 5; p++) for (int k = 0; k < 3; k++) c.sf(p, k, nice ? r.r(-3, 3) : sc * r.d(-1, 1));
    double u = r.d(), v = r.d(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
    int kk = r.r(10);
    if (kk == 0) { u = r.d(-.5, 0); } else if (kk == 1) v = r.d(-.5, 0); else if (kk == 2) { u = r.d(0, 1.5); v = 1.05 - u + r.d(); } else if (kk == 3) u = r.d(1, 2);
    else if (kk == 4) { u = r.logu(1e-5, 1e-2) * r.sgn(); } else if (kk == 5) v = r.logu(1e-5, 1e-2) * r.sgn(); else if (kk == 6) v = 1 - u + r.logu(1e-5, 1e-2) * r.sgn();
    if (nice && r.p(.5)) { u = r.r(3) * .5; v = u == 1 ? 0 : u == .5 ? r.r(2) * .5 : r.r(3) * .5; if (r.p(.5)) { u = r.r(2) ? 0 : .5; v = u == 0 ? r.d() : .5; v = rint(v * 4) / 4; } }  // through an edge or a vertex
    double h[3]; for (int k = 0; k < 3; k++) { double a = c.f(2, k); h[k] = a + u * (c.f(3, k) - a) + v * (c.f(4, k) - a); }
    double d[3], l = 0; for (double &x : d) { x = nice ? r.r(-2, 2) : r.d(-1, 1); l += x * x; } if (l == 0) { d[2] = 1; l = 1; }
    double dl = r.p(.7) ? 1 / sqrt(l) : r.len(.2, 5) / sqrt(l); if (nice) dl = 1;
    double t = sc * r.logu(.05, 10) / (dl * sqrt(l)); if (r.p(.2)) t = -t; if (nice) t = r.r(-3, 3);
    for (int k = 0; k < 3; k++) { c.sf(1, k, d[k] * dl); c.sf(0, k, h[k] - t * d[k] * dl); }
  });
  rel(P, "glm_ray_sphere", FN {
    double o[3], d[3], p[3], R = c.f(2, 3), dd = 0, pd = 0, pp = 0, mag = fabs(R);
    for (int k = 0; k < 3; k++) { o[k] = c.f(0, k); d[k] = c.f(1, k); p[k] = c.f(2, k) - o[k]; dd += d[k] * d[k]; mag = std::max({mag, fabs(o[k]), fabs((double)c.f(2, k)), fabs(p[k])}); }
    for (int k = 0; k < 3; k++) { pd += p[k] * d[k]; pp += p[k] * p[k]; }
    double perp = pp - pd * pd / dd, disc = R * R - perp;
    double L = sqrt(pp), td = 3e-6 * (L + R + mag) * (L + R);       // uncertainty of the discriminant
    bool ex = dd == 1; for (int k = 0; k < 3; k++) ex = ex && d[k] == rint(d[k]) && o[k] * 2 == rint(o[k] * 2) && c.f(2, k) * 2 == rint(c.f(2, k) * 2); if (ex && R * 2 == rint(R * 2) && mag < 500) td = 0;  // every product is exact: tangent rays are decided
    bool hit = c.ai(); double t1 = c.A(3), t2 = c.A(4);
    if (disc < -td) { if (hit) c.fail(fmt("hit reported for a ray that misses the sphere (line distance %.9g > radius %.9g)", sqrt(perp), R)); return; }
    double s = sqrt(std::max(0.0, disc)), a1 = pd - s, a2 = pd + s, es = disc > 4 * td ? td / s + 2e-6 * (L + mag) : sqrt(8 * td) + 2e-6 * (L + mag);
    if (!hit) { if (disc >= td && (disc > 0 || td == 0) && a2 > es) c.fail(fmt("miss reported although the ray meets the sphere at t=%.9g", a2)); return; }
    if (a2 < -es) { c.fail(fmt("hit reported although the sphere is behind the ray (t=%.9g and %.9g)", a1, a2)); return; }
    c.near(t1, a1, es, "nearer intersection t1"); c.near(t2, a2, es, "farther intersection t2");
    c.need(t1 <= t2, "t1 is not the nearer intersection");
  }, FN {
    Rng &r = c.rng; bool nice = r.p(.3);
    if (nice) { int a = r.r(3), b = r.r(3); double s = r.sgn(); for (int k = 0; k < 3; k++) { c.sf(2, k, r.r(-2, 2)); c.sf(0, k, c.f(2, k)); c.sf(1, k, k == a ? s : 0); } double R = 1 + r.r(2); c.sf(2, 3, R); c.sf(0, b, c.f(2, b) + R * (r.r(-4, 4) * .5)); if (r.p(.5)) { int e = r.r(3); c.sf(0, e, c.f(0, e) + r.r(-3, 3)); } return; }
    double sc = r.len(.1, 30), R = sc * r.d(.1, 1); for (int k = 0; k < 3; k++) c.sf(2, k, sc * r.d(-2, 2)); c.sf(2, 3, R);
    gunit(c, 1, 0, 3); double d[3], n[3], x = 0; for (int k = 0; k < 3; k++) d[k] = c.f(1, k);
    for (double &q : n) q = r.d(-1, 1); for (int k = 0; k < 3; k++) x += n[k] * d[k]; double l = 0; for (int k = 0; k < 3; k++) { n[k] -= x * d[k]; l += n[k] * n[k]; } l = sqrt(l) + 1e-12;
    double b = R * (r.p(.6) ? r.d(0, .95) : r.p(.5) ? r.d(1.05, 3) : 1 + r.sgn() * r.logu(1e-3, .05)), t = sc * r.d(-4, 4); if (r.p(.25)) t = R * r.d(-.8, .8);
    for (int k = 0; k < 3; k++) c.sf(0, k, c.f(2, k) - d[k] * t + n[k] / l * b);
  });
  // the same geometry in units a power of two apart: every decision is the same
  for (Ent &e : REG) if (e.prop == "C19" || e.name == "glm_ray_sphere" || e.name == "glm_ray_triangle" || e.name == "glm_aabb_frustum") {
    Fn g = e.gen; if (!g) continue;
    e.gen = [g](C &c) {
      g(c); if (!c.rng.p(.12)) return; double s = ldexp(1, c.rng.r(-20, 20));
      auto each = [&](auto f) { for (int p = 0; p < c.np(); p++) { const Par &q = c.api->p[p]; if (q.role == 'o' || (q.kind != 'a' && q.kind != 'f') || q.type.compare(0, 3, "mat") == 0 || q.name.compare(0, 3, "dir") == 0) continue;
        for (int k = 0; k < q.n; k++) if (q.name != "planes" || k % 4 == 3) f(p, k); } };
      double mx = 0; each([&](int p, int k) { mx = std::max(mx, (double)fabs(c.f(p, k))); });
      if (mx < 1e9) each([&](int p, int k) { c.sf(p, k, c.f(p, k) * s); });
    };
  }
}
