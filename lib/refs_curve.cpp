// References for easing and curves (C09).
#include "core.h"
#define FN [=](C &c)
typedef E (*EF)(E);
static E H() { return E(.5); }
static E P2() { return kE(1.57079632679489662, 4e-8); }
static E p2(E x) { return fn1(x, [](double v) { return exp2(v); }, 4); }
static E pw(E t, int n) { E r = t; for (int i = 1; i < n; i++) r = r * t; return r; }
static E bout(E t) {
  if (lt(t, E(4) / E(11))) return E(121) * t * t / E(16);
  if (lt(t, E(8) / E(11))) return (E(363) / E(40)) * t * t - (E(99) / E(10)) * t + E(17) / E(5);
  if (lt(t, E(9) / E(10))) return (E(4356) / E(361)) * t * t - (E(35442) / E(1805)) * t + E(16061) / E(1805);
  return (E(54) / E(5)) * t * t - (E(513) / E(25)) * t + E(268) / E(25);
}
static E pin(E t, int n) { return pw(t, n); }
static E pout(E t, int n) { return E(1) - pw(E(1) - t, n); }
static E pio(E t, int n) { return lt(t, H()) ? E((double)(1 << (n - 1))) * pw(t, n) : E(1) - H() * pw(E(2) - E(2) * t, n); }
static E bk(E t, E s) { return t * t * ((s + E(1)) * t - s); }
static E S1() { return E(1.70158); }
static bool isv(E t, double v) { return t.v == v; }
void reg_curve() {
  const char *P = "C09";
  struct { const char *n; EF f; bool zo; } ES[] = {
    {"linear", [](E t) { return t; }, 0},
    {"sine_in", [](E t) { return E(1) - ecos(t * P2()); }, 0}, {"sine_out", [](E t) { return esin(t * P2()); }, 0}, {"sine_inout", [](E t) { return H() * (E(1) - ecos(t * E(2) * P2())); }, 0},
    {"quad_in", [](E t) { return pin(t, 2); }, 0}, {"quad_out", [](E t) { return t * E(2) - t * t; }, 0}, {"quad_inout", [](E t) { return lt(t, H()) ? E(2) * t * t : E(4) * t - E(2) * t * t - E(1); }, 0},
    {"cubic_in", [](E t) { return pin(t, 3); }, 0}, {"cubic_out", [](E t) { return pout(t, 3); }, 0}, {"cubic_inout", [](E t) { return pio(t, 3); }, 0},
    {"quart_in", [](E t) { return pin(t, 4); }, 0}, {"quart_out", [](E t) { return pout(t, 4); }, 0}, {"quart_inout", [](E t) { return pio(t, 4); }, 0},
    {"quint_in", [](E t) { return pin(t, 5); }, 0}, {"quint_out", [](E t) { return pout(t, 5); }, 0}, {"quint_inout", [](E t) { return pio(t, 5); }, 0},
    {"exp_in", [](E t) { if (isv(t, 0)) { mark(1); return E(0); } return p2(E(10) * (t - E(1))); }, 0},
    {"exp_out", [](E t) { if (isv(t, 1)) { mark(1); return E(1); } return E(1) - p2(E(-10) * t); }, 0},
    {"exp_inout", [](E t) { if (isv(t, 1) || isv(t, 0)) { mark(1); return t; } return lt(t, H()) ? H() * p2(E(20) * t - E(10)) : E(1) - H() * p2(E(10) - E(20) * t); }, 0},
    {"circ_in", [](E t) { return E(1) - esqrt(E(1) - t * t); }, 1}, {"circ_out", [](E t) { return esqrt((E(2) - t) * t); }, 1},
    {"circ_inout", [](E t) { return lt(t, H()) ? H() * (E(1) - esqrt(E(1) - E(4) * t * t)) : H() * (esqrt((E(3) - E(2) * t) * (E(2) * t - E(1))) + E(1)); }, 1},
    {"back_in", [](E t) { return bk(t, S1()); }, 0}, {"back_out", [](E t) { return E(1) - bk(E(1) - t, S1()); }, 0},
    {"back_inout", [](E t) { E s = S1() * E(1.525); return lt(t, H()) ? H() * bk(E(2) * t, s) : E(1) - H() * bk(E(2) - E(2) * t, s); }, 0},
    {"elast_in", [](E t) { return esin(E(13) * P2() * t) * p2(E(10) * (t - E(1))); }, 0},
    {"elast_out", [](E t) { return E(1) - esin(E(13) * P2() * (t + E(1))) * p2(E(-10) * t); }, 0},
    {"elast_inout", [](E t) { E a = E(2) * t; return lt(t, H()) ? H() * esin(E(13) * P2() * a) * p2(E(10) * (a - E(1))) : H() * (E(2) - esin(E(13) * P2() * a) * p2(E(-10) * (a - E(1)))); }, 0},
    {"bounce_out", bout, 0}, {"bounce_in", [](E t) { return E(1) - bout(E(1) - t); }, 0},
    {"bounce_inout", [](E t) { return lt(t, H()) ? H() * (E(1) - bout(E(1) - E(2) * t)) : H() * bout(E(2) * t - E(1)) + H(); }, 0},
  };
  for (auto &e : ES) {
    EF f = e.f; bool zo = e.zo;
    add(P, fmt("glm_ease_%s", e.n), FN { double t = c.f(0); domain(zo ? t >= 0 && t <= 1 : t >= -10 && t <= 10); c.ret(f(c.F(0))); },
        FN { Rng &r = c.rng; static const double T[] = {0, 1, .5, .25, .75, .9, 4 / 11., 8 / 11., 1 / 11., 3 / 11., 7 / 11., .1};
             int k = r.r(10); double t = k < 2 ? T[r.r(12)] : k == 2 ? T[r.r(12)] + r.sgn() * r.logu(1e-6, 1e-2) : k == 3 && !zo ? (r.p(.2) ? r.d(-8, 8) : r.d(-1, 2)) : r.d(0, 1);
             if (r.p(.03)) t = (r.p(.5) ? 0 : 1) + r.sgn() * r.logu(1e-9, 1e-4);
             c.sf(0, 0, zo ? std::max(0., std::min(1., t)) : t); });
  }
  auto gs = [](C &c) { int k = c.rng.r(4); if (k) c.sf(0, 0, k == 1 ? c.rng.r(2) : k == 2 ? c.rng.d(0, 1) : c.rng.p(.1) ? c.rng.d(-200, 200) : c.rng.p(.04) ? c.rng.sgn() * c.rng.logu(1e-9, 1e-3) : c.rng.d(-1, 2)); else if (fabs(c.f(0)) > 1e3) c.sf(0, 0, c.rng.d(0, 1)); };
  add(P, "glm_bezier", FN { E s = c.F(0), x = E(1) - s, xs3 = (s - s * s) * E(3), a = c.F(1) * (x * x) + c.F(2) * xs3; c.ret(a + s * (c.F(3) * xs3 + c.F(4) * (s * s) - a)); }, gs);
  add(P, "glm_hermite", FN { E s = c.F(0), s2 = s * s, s3 = s2 * s, a = E(2) * s3 - E(3) * s2; c.ret(c.F(1) * (a + E(1)) + c.F(2) * (s3 - E(2) * s2 + s) + c.F(3) * (s3 - s2) - c.F(4) * a); }, gs);
  add(P, "glm_smc", FN { E s = c.F(0); c.ret(dot(v4(s * s * s, s * s, s, E(1)), c.m(1) * c.v(2))); }, gs);
  rel(P, "glm_decasteljau", FN {
    double x = c.f(0), p0 = c.f(1), c0 = c.f(2), c1 = c.f(3), p1 = c.f(4); domain(p0 < p1 && c0 >= p0 && c0 <= p1 && c1 >= p0 && c1 <= p1);
    double u = c.af(); if (!(u >= 0 && u <= 1)) { c.fail(fmt("the parameter %.9g is outside [0, 1]", u)); return; }
    if (x <= p0) { c.near(u, 0, 0, "parameter at or before the start"); return; }
    if (x >= p1) { c.near(u, 1, 0, "parameter at or after the end"); return; }
    double w = 1 - u, b = w * w * w * p0 + 3 * w * w * u * c0 + 3 * w * u * u * c1 + u * u * u * p1, sc = fabs(p0) + fabs(p1) + fabs(c0) + fabs(c1);
    c.near(b, x, 3e-6 * sc + 2e-9, "curve value at the returned parameter");
  }, FN { Rng &r = c.rng; int k = r.r(4); double p0 = k == 0 ? 0 : r.pos(-10, 10), d = k == 0 ? 1 : r.logu(.1, 50);
    c.sf(1, 0, p0); c.sf(4, 0, p0 + d); for (int i = 2; i < 4; i++) c.sf(i, 0, p0 + d * (r.p(.2) ? r.r(2) : r.d(0, 1)));
    c.sf(0, 0, r.p(.1) ? p0 - r.d(0, 3) : r.p(.1) ? p0 + d + r.d(0, 3) : r.p(.1) ? (r.p(.5) ? c.f(1) : c.f(4)) : p0 + d * r.d(0, 1)); });
}
