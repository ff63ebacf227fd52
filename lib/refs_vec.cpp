// References for float vectors, integer vectors and scalar helpers (C01, C02, C03, part of C09).
#include "core.h"
#define FN [=](C &c)
static const double EPSF = 1.1920928955078125e-07;   // FLT_EPSILON
static E EPS_() { return E(1e-5f); }

static E smooth(E t) { return t * t * (E(3) - E(2) * t); }
static E smoothstep(E a, E b, E x) { return smooth(clamp01((x - a) / (b - a))); }

static void normz(C &c, int p, V v, E s) {       // scale to length s, zero below FLT_EPSILON
  E n = norm(v);
  if (lt(n, E(EPSF))) { mark(1); for (int i = 0; i < v.n; i++) c.o(p, i, E(0)); return; }
  for (int i = 0; i < v.n; i++) { mark(2); c.o(p, i, v[i] * (s / n)); }
}
// lengths around the zero threshold, and ordinary ones
static void gthresh(C &c, int p, int n) {
  int k = c.rng.r(10);
  if (k < 3) gvec(c, p, 0, n, 1e-9, 1e-3);
  else if (k == 3) { int a = c.rng.r(n); for (int i = 0; i < n; i++) c.sf(p, i, i == a ? c.rng.sgn() * c.rng.logu(1e-8, 1e-3) : 0); }
  else if (k == 4) for (int i = 0; i < n; i++) c.sf(p, i, 0);
}
static void gt01(C &c, int p) {                   // interpolation parameter
  static const double T[] = {0, 1, .5, .25, .75, -1, 2, -.25, 1.25, .99999994, 1e-7, -1e-3, 1.001, 3, -7};
  if (c.rng.p(.03)) { c.sf(p, 0, c.rng.sgn() * (c.rng.p(.5) ? c.rng.logu(1e3, 1e8) : c.rng.logu(1e-9, 1e-4))); return; }
  if (c.rng.p(.4)) c.sf(p, 0, T[c.rng.r(15)]); else c.sf(p, 0, c.rng.p(.7) ? c.rng.d() : c.rng.p(.1) ? c.rng.d(-300, 300) : c.rng.d(-2, 3));
}
static void nonzero(C &c, int p) { for (int k = 0; k < c.api->p[p].n; k++) while (c.f(p, k) == 0) c.sf(p, k, c.rng.sgn() * c.rng.logu(1e-3, 1e3)); }

static bool nanf_(C &c, int p) { for (int k = 0; k < c.api->p[p].n; k++) if (std::isnan(c.f(p, k))) return true; return false; }
static bool inff_(C &c, int p) { for (int k = 0; k < c.api->p[p].n; k++) if (std::isinf(c.f(p, k))) return true; return false; }
static bool eqeps(E a, E b) { return le(eabs(a - b), EPS_()); }
static E sgnE(E a) { return E(a.v > 0 ? 1 : a.v < 0 ? -1 : 0); }
static E stepE(E edge, E x) { return E(x.v < edge.v ? 0 : 1); }

static void geq(C &c) { // near-equality at the epsilon
  for (int p = 0; p < c.np(); p++) if (c.rng.p(.7)) {
    int n = c.api->p[p].n; double base = p > 0 && c.rng.p(.5) ? c.f(0, 0) : c.f(p, 0);
    if (p > 0 && c.api->p[p].n == c.api->p[0].n && c.rng.p(.7)) { for (int k = 0; k < n; k++) c.sf(p, k, c.f(0, k)); }
    else for (int k = 0; k < n; k++) c.sf(p, k, base);
    if (c.rng.p(.7)) { int k = c.rng.r(n); static const double D[] = {0, 0, 5e-6, -5e-6, 9e-6, 1.2e-5, -1.2e-5, 2e-5, 1e-4, 1e-7, 1}; c.sf(p, k, c.f(p, k) + D[c.rng.r(11)]); }
  }
}

void reg_vec() {
  for (int N = 2; N <= 4; N++) {
    auto nm = [&](const char *s) { return fmt("glm_vec%d_%s", N, s); };
    const char *P = "C01";
    // construction and plain copies
    add(P, nm("copy"), FN { c.o(1, c.v(0)); }, nullptr, SPECIAL | EXTREME);
    if (N == 4) add(P, nm("ucopy"), FN { c.o(1, c.v(0)); }, nullptr, SPECIAL | EXTREME);
    add(P, nm("zero"), FN { for (int i = 0; i < N; i++) c.o(0, i, E(0)); });
    add(P, nm("one"), FN { for (int i = 0; i < N; i++) c.o(0, i, E(1)); });
    add(P, nm("make"), FN { c.o(1, c.v(0)); }, nullptr, SPECIAL | EXTREME);
    add(P, nm("fill"), FN { for (int i = 0; i < N; i++) c.o(0, i, c.F(1)); }, nullptr, SPECIAL | EXTREME);
    if (N > 2) add(P, nm("broadcast"), FN { for (int i = 0; i < N; i++) c.o(1, i, c.F(0)); }, nullptr, SPECIAL | EXTREME);
    // arithmetic
    const int XF = SPECIAL | EXTREME;
    add(P, nm("add"), FN { c.o(2, c.v(0) + c.v(1)); }, nullptr, XF);
    add(P, nm("sub"), FN { c.o(2, c.v(0) - c.v(1)); }, nullptr, XF);
    add(P, nm("mul"), FN { c.o(2, c.v(0) * c.v(1)); }, nullptr, XF);
    add(P, nm("div"), FN { V a = c.v(0), b = c.v(1); c.o(2, vmap(N, [&](int i) { return a[i] / b[i]; })); }, nullptr, EXTREME);
    add(P, nm("adds"), FN { V a = c.v(0); E s = c.F(1); c.o(2, vmap(N, [&](int i) { return a[i] + s; })); }, nullptr, XF);
    add(P, nm("subs"), FN { V a = c.v(0); E s = c.F(1); c.o(2, vmap(N, [&](int i) { return a[i] - s; })); }, nullptr, XF);
    add(P, nm("scale"), FN { c.o(2, c.v(0) * c.F(1)); }, nullptr, EXTREME);
    add(P, nm("divs"), FN { c.o(2, c.v(0) / c.F(1)); }, nullptr, EXTREME);
    add(P, nm("negate"), FN { c.o(0, -c.v(0)); }, nullptr, XF);
    add(P, nm("negate_to"), FN { c.o(1, -c.v(0)); }, nullptr, XF);
    struct { const char *n; int op; int sg; } acc[] = {{"addadd", 0, 1}, {"subadd", 1, 1}, {"muladd", 2, 1}, {"maxadd", 3, 1}, {"minadd", 4, 1}, {"subsub", 1, -1}, {"addsub", 0, -1}, {"mulsub", 2, -1}, {"maxsub", 3, -1}, {"minsub", 4, -1}};
    for (auto &q : acc) { int op = q.op, sg = q.sg;
      add(P, nm(q.n), FN { for (int i = 0; i < N; i++) { E a = c.F(0, i), b = c.F(1, i); if (op < 2) domain(fabs(a.v) < 1e38 && fabs(b.v) < 1e38 && fabs(c.F(2, i).v) < 1e38); /* the order of the sums is free */ E t = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? emax(a, b) : emin(a, b); c.o(2, i, sg > 0 ? c.F(2, i) + t : c.F(2, i) - t); } }, nullptr, EXTREME); }
    add(P, nm("muladds"), FN { for (int i = 0; i < N; i++) c.o(2, i, c.F(2, i) + c.F(0, i) * c.F(1)); }, nullptr, EXTREME);
    add(P, nm("mulsubs"), FN { for (int i = 0; i < N; i++) c.o(2, i, c.F(2, i) - c.F(0, i) * c.F(1)); }, nullptr, EXTREME);
    // metric
    add(P, nm("dot"), FN { c.ret(dot(c.v(0), c.v(1))); }, nullptr, EXTREME | NANIN);
    add(P, nm("norm2"), FN { c.ret(norm2(c.v(0))); }, nullptr, EXTREME | NANIN);
    add(P, nm("norm"), FN { c.ret(norm(c.v(0))); }, nullptr, EXTREME | NANIN);
    add(P, nm("distance2"), FN { c.ret(norm2(c.v(0) - c.v(1))); }, nullptr, EXTREME | NANIN);
    add(P, nm("distance"), FN { c.ret(norm(c.v(0) - c.v(1))); }, nullptr, EXTREME | NANIN);
    if (N > 2) {
      add(P, nm("norm_one"), FN { E s = eabs(c.F(0, 0)); for (int i = 1; i < N; i++) s = s + eabs(c.F(0, i)); c.ret(s); }, nullptr, EXTREME);
      add(P, nm("norm_inf"), FN { E s = eabs(c.F(0, 0)); for (int i = 1; i < N; i++) s = emax(s, eabs(c.F(0, i))); c.ret(s); }, nullptr, EXTREME);
      add(P, nm("hadd"), FN { E s = c.F(0, 0); for (int i = 1; i < N; i++) s = s + c.F(0, i); c.ret(s); }, nullptr, EXTREME);
    }
    add(P, nm("normalize"), FN { normz(c, 0, c.v(0), E(1)); }, FN { gthresh(c, 0, N); }, EXTREME);
    add(P, nm("normalize_to"), FN { normz(c, 1, c.v(0), E(1)); }, FN { gthresh(c, 0, N); }, EXTREME);
    add(P, nm("scale_as"), FN { normz(c, 2, c.v(0), c.F(1)); }, FN { gthresh(c, 0, N); }, EXTREME);
    add(P, nm("max"), FN { E s = c.F(0, 0); for (int i = 1; i < N; i++) s = emax(s, c.F(0, i)); c.ret(s); }, nullptr, EXTREME);
    add(P, nm("min"), FN { E s = c.F(0, 0); for (int i = 1; i < N; i++) s = emin(s, c.F(0, i)); c.ret(s); }, nullptr, EXTREME);
    add(P, nm("maxv"), FN { for (int i = 0; i < N; i++) c.o(2, i, emax(c.F(0, i), c.F(1, i))); }, nullptr, EXTREME);
    add(P, nm("minv"), FN { for (int i = 0; i < N; i++) c.o(2, i, emin(c.F(0, i), c.F(1, i))); }, nullptr, EXTREME);
    add(P, nm("clamp"), FN { domain(c.f(1) <= c.f(2)); for (int i = 0; i < N; i++) c.o(0, i, eclamp(c.F(0, i), c.F(1), c.F(2))); }, FN { if (c.f(1) > c.f(2)) std::swap(c.in[1][0], c.in[2][0]); }, EXTREME);
    add(P, nm("abs"), FN { for (int i = 0; i < N; i++) c.o(1, i, eabs(c.F(0, i))); }, nullptr, XF);
    add(P, nm("floor"), FN { for (int i = 0; i < N; i++) c.o(1, i, exactE(floor(c.F(0, i).v))); }, nullptr, EXTREME);
    add(P, nm("fract"), FN { for (int i = 0; i < N; i++) { E x = c.F(0, i); double r = x.v - floor(x.v); c.o(1, i, E(r, U_ + ETA_, r)); } }, nullptr, EXTREME).chk = FN {
      for (int i = 0; i < N; i++) if (std::isfinite(c.f(0, i))) c.need(c.A(1, i) >= 0 && c.A(1, i) < 1, "fract outside [0,1)"); };
    add(P, nm("mods"), FN { for (int i = 0; i < N; i++) c.o(2, i, exactE(fmod(c.F(0, i).v, c.F(1).v))); }, nullptr, EXTREME);
    add(P, nm("sqrt"), FN { for (int i = 0; i < N; i++) c.o(1, i, esqrts(c.F(0, i))); }, FN { if (c.rng.p(.6)) for (int i = 0; i < N; i++) c.sf(0, i, fabs(c.f(0, i))); }, EXTREME);
    add(P, nm("swizzle"), FN { int m = c.i(1); for (int i = 0; i < N; i++) c.o(2, i, c.F(0, (m >> (2 * i)) & 3)); },
        FN { int m = 0; for (int i = 0; i < N; i++) m |= c.rng.r(N) << (2 * i); c.si(1, 0, m); }, EXTREME);
    // products with angles
    add(P, nm("reflect"), FN { V v = c.v(0), n = c.v(1); E d = E(2) * dot(v, n); for (int i = 0; i < N; i++) c.o(2, i, (N == 4 && i == 3) ? v[3] : v[i] - n[i] * d); },
        FN { if (c.rng.p(.7)) gunit(c, 1, 0, N == 4 ? 3 : N); if (N == 4 && c.rng.p(.5)) c.sf(1, 3, 0); });
    add(P, nm("refract"), FN {
        V v = c.v(0), n = c.v(1); E eta = c.F(2), ndi = dot(n, v), eni = eta * ndi, k = E(1) - eta * eta + eni * eni;
        if (lt(k, E(0))) { for (int i = 0; i < N; i++) c.o(3, i, E(0)); c.reti(0); return; }
        E s = eni + esqrt(k); for (int i = 0; i < N; i++) c.o(3, i, v[i] * eta - n[i] * s); c.reti(1);
      }, FN { gunit(c, 0, 0, N == 4 ? 3 : N); gunit(c, 1, 0, N == 4 ? 3 : N); if (N == 4) { c.sf(0, 3, 0); c.sf(1, 3, 0); if (c.rng.p(.2)) { gunit(c, 0, 0, 4); gunit(c, 1, 0, 4); } }
              static const double T[] = {1, 1.33, .75, 1.5, .6666667, 0, 2}; c.sf(2, 0, c.rng.p(.5) ? T[c.rng.r(7)] : c.rng.d(0, 3)); });
    // interpolation belongs to C09
    {
      const char *Q = "C09";
      bool cl2 = N == 2;
      add(Q, nm("lerp"), FN { E t = c.F(2); if (cl2) t = clamp01(t); for (int i = 0; i < N; i++) c.o(3, i, lerpE(c.F(0, i), c.F(1, i), t)); }, FN { gt01(c, 2); });
      if (N > 2) {
        add(Q, nm("lerpc"), FN { E t = clamp01(c.F(2)); for (int i = 0; i < N; i++) c.o(3, i, lerpE(c.F(0, i), c.F(1, i), t)); }, FN { gt01(c, 2); });
        add(Q, nm("mix"), FN { E t = c.F(2); for (int i = 0; i < N; i++) c.o(3, i, lerpE(c.F(0, i), c.F(1, i), t)); }, FN { gt01(c, 2); });
        add(Q, nm("mixc"), FN { E t = clamp01(c.F(2)); for (int i = 0; i < N; i++) c.o(3, i, lerpE(c.F(0, i), c.F(1, i), t)); }, FN { gt01(c, 2); });
        add(Q, nm("smoothinterp"), FN { E t = smooth(c.F(2)); for (int i = 0; i < N; i++) c.o(3, i, lerpE(c.F(0, i), c.F(1, i), t)); }, FN { gt01(c, 2); });
        add(Q, nm("smoothinterpc"), FN { E t = smooth(clamp01(c.F(2))); for (int i = 0; i < N; i++) c.o(3, i, lerpE(c.F(0, i), c.F(1, i), t)); }, FN { gt01(c, 2); });
        add(Q, nm("smoothstep_uni"), FN { domain(c.f(0) != c.f(1)); for (int i = 0; i < N; i++) c.o(3, i, smoothstep(c.F(0), c.F(1), c.F(2, i))); });
        add(Q, nm("smoothstep"), FN { for (int i = 0; i < N; i++) { domain(c.f(0, i) != c.f(1, i)); c.o(3, i, smoothstep(c.F(0, i), c.F(1, i), c.F(2, i))); } },
            FN { for (int i = 0; i < N; i++) { for (int z = 0; z < 9 && c.f(0, i) == c.f(1, i); z++) c.sf(1, i, c.f(0, i) + c.rng.r(1, 3) * (1 + fabs(c.f(0, i)))); if (c.rng.p(.5)) c.sf(2, i, c.f(0, i) + c.rng.d(-.2, 1.2) * (c.f(1, i) - c.f(0, i))); } });
      }
    }
    // C03: comparisons and classification
    {
      const char *Q = "C03";
      add(Q, nm("sign"), FN { for (int i = 0; i < N; i++) { c.o(1, i, sgnE(c.F(0, i))); } }, nullptr, SPECIAL | EXTREME);
      add(Q, nm("step"), FN { for (int i = 0; i < N; i++) c.o(2, i, stepE(c.F(0, i), c.F(1, i))); }, nullptr, EXTREME);
      add(Q, nm("steps"), FN { for (int i = 0; i < N; i++) c.o(2, i, stepE(c.F(0), c.F(1, i))); }, nullptr, EXTREME);
      add(Q, nm("stepr"), FN { for (int i = 0; i < N; i++) c.o(2, i, stepE(c.F(0, i), c.F(1))); }, nullptr, EXTREME);
      add(Q, nm("eq"), FN { bool r = true; for (int i = 0; i < N; i++) r = r && c.f(0, i) == c.f(1); mark(r); c.reti(r); }, geq, SPECIAL | EXTREME);
      add(Q, nm("eq_eps"), FN { bool r = true; for (int i = 0; i < N; i++) r = r && eqeps(c.F(0, i), c.F(1)); mark(r); c.reti(r); }, geq);
      add(Q, nm("eq_all"), FN { bool r = true; for (int i = 1; i < N; i++) r = r && eqeps(c.F(0, i), c.F(0)); mark(r); c.reti(r); }, geq);
      add(Q, nm("eqv"), FN { bool r = true; for (int i = 0; i < N; i++) r = r && c.f(0, i) == c.f(1, i); mark(r); c.reti(r); }, geq, SPECIAL | EXTREME);
      add(Q, nm("eqv_eps"), FN { bool r = true; for (int i = 0; i < N; i++) r = r && eqeps(c.F(0, i), c.F(1, i)); mark(r); c.reti(r); }, geq);
      add(Q, nm("isnan"), FN { bool b = nanf_(c, 0); mark(b); c.reti(b); }, nullptr, SPECIAL | EXTREME);
      add(Q, nm("isinf"), FN { bool b = inff_(c, 0); mark(b); c.reti(b); }, nullptr, SPECIAL | EXTREME);
      add(Q, nm("isvalid"), FN { bool b = !nanf_(c, 0) && !inff_(c, 0); mark(b); c.reti(b); }, nullptr, SPECIAL | EXTREME);
    }
  }
  const char *P = "C01";
  add(P, "glm_vec2", FN { c.o(1, 0, c.F(0, 0)); c.o(1, 1, c.F(0, 1)); }, nullptr, SPECIAL);
  add(P, "glm_vec3", FN { c.o(1, cut(c.v(0), 3)); }, nullptr, SPECIAL);
  add(P, "glm_vec4", FN { c.o(2, cut(c.v(0), 3)); c.o(2, 3, c.F(1)); }, nullptr, SPECIAL);
  add(P, "glm_vec4_copy3", FN { c.o(1, cut(c.v(0), 3)); }, nullptr, SPECIAL);
  add(P, "glm_vec4_cubic", FN { E s = c.F(0); c.o(1, v4(s * s * s, s * s, s, E(1))); });
  add(P, "glm_vec2_cross", FN { c.ret(c.F(0, 0) * c.F(1, 1) - c.F(0, 1) * c.F(1, 0)); }, nullptr, EXTREME);
  add(P, "glm_vec3_cross", FN { c.o(2, cross(c.v(0), c.v(1))); }, nullptr, EXTREME);
  add(P, "glm_cross", FN { c.o(2, cross(c.v(0), c.v(1))); });
  add(P, "glm_dot", FN { c.ret(dot(c.v(0), c.v(1))); });
  add(P, "glm_normalize", FN { normz(c, 0, c.v(0), E(1)); }, FN { gthresh(c, 0, 3); });
  add(P, "glm_normalize_to", FN { normz(c, 1, c.v(0), E(1)); }, FN { gthresh(c, 0, 3); });
  add(P, "glm_vec3_crossn", FN { normz(c, 2, cross(c.v(0), c.v(1)), E(1)); });
  for (int N = 2; N <= 3; N++) add(P, fmt("glm_vec%d_center", N), FN { for (int i = 0; i < N; i++) c.o(2, i, (c.F(0, i) + c.F(1, i)) * E(.5)); });
  add(P, "glm_vec3_angle", FN {
    V a = c.v(0), b = c.v(1); E n = norm(a) * norm(b); E d = dot(a, b) * (E(1) / n);
    if (d.unk()) throw Amb();
    double x = std::max(-1.0, std::min(1.0, d.v)), r = acos(x);
    double hi = acos(std::max(-1.0, x - KS * d.e - 2e-7)), lo = acos(std::min(1.0, x + KS * d.e + 2e-7));
    mark(d.v > .9999 ? 1 : d.v < -.9999 ? 2 : 3);
    c.ret(E(r, std::max(hi - r, r - lo) / KS + 4 * U_ * r, r));
  }, FN { nonzero(c, 0); nonzero(c, 1); int k = c.rng.r(5); if (k < 2) for (int i = 0; i < 3; i++) c.sf(1, i, c.f(0, i) * (k ? -2 : 3)); });
  add(P, "glm_vec2_rotate", FN { E a = c.F(1), s = esin(a), k = ecos(a), x = c.F(0, 0), y = c.F(0, 1); c.o(2, v2(k * x - s * y, s * x + k * y)); }, FN { c.sf(1, 0, gangle(c)); });
  add(P, "glm_vec3_rotate", FN {
    E a = c.F(1), s = esin(a), k = ecos(a); V v = c.v(0), ax = c.v(2); E n = norm(ax); domain(n.v > 1e-5); ax = ax / n;
    c.o(0, v * k + cross(ax, v) * s + ax * (dot(ax, v) * (E(1) - k)));
  }, FN { c.sf(1, 0, gangle(c)); if (c.rng.p(.5)) gunit(c, 2, 0, 3); else gvec(c, 2, 0, 3, 1e-2, 1e2); });
  for (int N = 3; N <= 4; N++) add(P, fmt("glm_vec3_rotate_m%d", N), FN {
    M m = c.m(0); V v = c.v(1); V r = v3(E(0), E(0), E(0));
    for (int k = 0; k < 3; k++) { V col = cut(m[k], 3); E n = norm(col); domain(n.v > 1e-3); r = r + col * (v[k] / n); }
    c.o(2, r);
  }, FN { double R[3][3]; grot3(c, R); double s[3] = {1, 1, 1}; if (c.rng.p(.6)) for (int k = 0; k < 3; k++) s[k] = c.rng.logu(.1, 10);
          for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) c.sf(0, a * N + b, s[a] * R[a][b]);
          if (N == 4) for (int a = 0; a < 4; a++) c.sf(0, a * 4 + 3, a == 3); });
  add(P, "glm_vec3_proj", FN { V a = c.v(0), b = c.v(1); domain(norm2(b).v > 1e-12); c.o(2, b * (dot(a, b) / norm2(b))); });
  add(P, "glm_vec3_faceforward", FN { V n = c.v(0); bool b = lt(dot(c.v(1), c.v(2)), E(0)); c.o(3, b ? n : -n); });
  rel(P, "glm_vec3_ortho", FN {
    V v = c.v(0); V r = c.av(1); double d = 0, s = 0;
    for (int i = 0; i < 3; i++) { c.need(std::isfinite(r[i].v), "component not finite"); d += v[i].v * r[i].v; s += fabs(v[i].v * r[i].v); }
    double big = 0; for (int i = 0; i < 3; i++) big = std::max(big, fabs(v[i].v));
    c.near(d, 0, 1e-5 * (s + big * big) + 1e-30, "result not perpendicular");
    double n = 0, q = 0; for (int i = 0; i < 3; i++) { n += v[i].v * v[i].v; q += r[i].v * r[i].v; } n = sqrt(n); q = sqrt(q);
    if (n > 1e-15 && n < 1e15) c.need(q > .05 * n, "result is (nearly) the zero vector");
  }, FN { domain(fabs(c.f(0, 0)) < 1e6); if (c.rng.p(.2)) { static const double T[] = {0, .5, 1, -1, 1.5, .25, 2, -2}; for (int i = 0; i < 3; i++) c.sf(0, i, T[c.rng.r(8)]); } });
  // complex numbers
  add(P, "glm_vec2_complex_mul", FN { E a = c.F(0, 0), b = c.F(0, 1), x = c.F(1, 0), y = c.F(1, 1); c.o(2, v2(a * x - b * y, a * y + b * x)); });
  add(P, "glm_vec2_complex_div", FN { E a = c.F(0, 0), b = c.F(0, 1), x = c.F(1, 0), y = c.F(1, 1); E d = x * x + y * y; domain(d.v > 1e-20); c.o(2, v2((a * x + b * y) / d, (b * x - a * y) / d)); });
  add(P, "glm_vec2_complex_conjugate", FN { c.o(1, v2(c.F(0, 0), -c.F(0, 1))); });
}

// ------------------------------------------------------------------ integer vectors
static long long ck(long long x) { if (x > INT_MAX || x < INT_MIN) throw Inv(); return x; }
static void gfit(C &c) {   // most cases in a range where the exact result fits
  if (c.idx % 4 == 3) return;
  long long lim = c.idx % 4 == 0 ? 20000 : c.idx % 4 == 1 ? 100 : 1000000000LL;
  for (int p = 0; p < c.np(); p++) for (int k = 0; k < c.api->p[p].n; k++) { long long x = c.i(p, k); if (c.idx % 4 == 2) x /= 4; else x %= lim; c.si(p, k, x); }
}
void reg_ivec() {
  for (int N = 2; N <= 4; N++) {
    auto nm = [&](const char *s) { return fmt("glm_ivec%d_%s", N, s); };
    const char *P = "C02";
    typedef long long ll;
    auto has = [&](const char *s) { return true; }; (void)has;
    add(P, fmt("glm_ivec%d", N), FN { if (N == 2) { c.oi(1, 0, c.i(0, 0)); c.oi(1, 1, c.i(0, 1)); } else if (N == 3) { for (int i = 0; i < 3; i++) c.oi(1, i, c.i(0, i)); } else { for (int i = 0; i < 3; i++) c.oi(2, i, c.i(0, i)); c.oi(2, 3, c.i(1)); } });
    add(P, nm("copy"), FN { for (int i = 0; i < N; i++) c.oi(1, i, c.i(0, i)); });
    add(P, nm("zero"), FN { for (int i = 0; i < N; i++) c.oi(0, i, 0); });
    add(P, nm("one"), FN { for (int i = 0; i < N; i++) c.oi(0, i, 1); });
    add(P, nm("add"), FN { for (int i = 0; i < N; i++) c.oi(2, i, ck((ll)c.i(0, i) + c.i(1, i))); }, gfit);
    add(P, nm("sub"), FN { for (int i = 0; i < N; i++) c.oi(2, i, ck((ll)c.i(0, i) - c.i(1, i))); }, gfit);
    add(P, nm("mul"), FN { for (int i = 0; i < N; i++) c.oi(2, i, ck((ll)c.i(0, i) * c.i(1, i))); }, gfit);
    add(P, nm("adds"), FN { for (int i = 0; i < N; i++) c.oi(2, i, ck((ll)c.i(0, i) + c.i(1))); }, gfit);
    add(P, nm("subs"), FN { for (int i = 0; i < N; i++) c.oi(2, i, ck((ll)c.i(0, i) - c.i(1))); }, gfit);
    add(P, nm("scale"), FN { for (int i = 0; i < N; i++) c.oi(2, i, ck((ll)c.i(0, i) * c.i(1))); }, gfit);
    struct { const char *n; int op; int sg; } acc[] = {{"addadd", 0, 1}, {"subadd", 1, 1}, {"muladd", 2, 1}, {"maxadd", 3, 1}, {"minadd", 4, 1}, {"subsub", 1, -1}, {"addsub", 0, -1}, {"mulsub", 2, -1}, {"maxsub", 3, -1}, {"minsub", 4, -1}};
    for (auto &q : acc) for (int s = 0; s < 2; s++) { int op = q.op, sg = q.sg; if (s && op > 2) continue;
      add(P, nm((std::string(q.n) + (s ? "s" : "")).c_str()), FN { for (int i = 0; i < N; i++) { ll a = c.i(0, i), b = c.i(1, s ? 0 : i); ll t = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? std::max(a, b) : std::min(a, b); ck(t); c.oi(2, i, ck(sg > 0 ? c.i(2, i) + t : c.i(2, i) - t)); } }, gfit); }
    add(P, nm("distance2"), FN { ll s = 0; for (int i = 0; i < N; i++) { ll d = ck((ll)c.i(0, i) - c.i(1, i)); s = ck(s + ck(d * d)); } c.reti(s); }, gfit);
    add(P, nm("distance"), FN { ll s = 0; for (int i = 0; i < N; i++) { ll d = ck((ll)c.i(0, i) - c.i(1, i)); s = ck(s + ck(d * d)); } double r = sqrt((double)s); c.ret(E(r, 2 * U_ * r, r)); }, gfit);
    add(P, nm("maxv"), FN { for (int i = 0; i < N; i++) c.oi(2, i, std::max(c.i(0, i), c.i(1, i))); });
    add(P, nm("minv"), FN { for (int i = 0; i < N; i++) c.oi(2, i, std::min(c.i(0, i), c.i(1, i))); });
    add(P, nm("clamp"), FN { domain(c.i(1) <= c.i(2)); for (int i = 0; i < N; i++) c.oi(0, i, std::min(std::max(c.i(0, i), c.i(1)), c.i(2))); }, FN { if (c.i(1) > c.i(2)) std::swap(c.in[1][0], c.in[2][0]); });
    add(P, nm("abs"), FN { for (int i = 0; i < N; i++) c.oi(1, i, ck(std::llabs((ll)c.i(0, i)))); });
    if (N < 4) {
      add(P, nm("dot"), FN { ll s = 0; for (int i = 0; i < N; i++) s = ck(s + ck((ll)c.i(0, i) * c.i(1, i))); c.reti(s); }, gfit);
      add(P, nm("div"), FN { for (int i = 0; i < N; i++) { domain(c.i(1, i) != 0); c.oi(2, i, ck((ll)c.i(0, i) / c.i(1, i))); } }, FN { for (int i = 0; i < N; i++) if (c.i(1, i) == 0) c.si(1, i, c.rng.r(2) ? 3 : -1); });
      add(P, nm("mod"), FN { for (int i = 0; i < N; i++) { domain(c.i(1, i) != 0 && !(c.i(1, i) == -1 && c.i(0, i) == INT_MIN)); c.oi(2, i, (ll)c.i(0, i) % c.i(1, i)); } }, FN { for (int i = 0; i < N; i++) if (c.i(1, i) == 0) c.si(1, i, c.rng.r(2) ? 3 : -2); });
      add(P, nm("divs"), FN { domain(c.i(1) != 0); for (int i = 0; i < N; i++) c.oi(2, i, ck((ll)c.i(0, i) / c.i(1))); });
      add(P, nm("fill"), FN { for (int i = 0; i < N; i++) c.oi(0, i, c.i(1)); });
      add(P, nm("eq"), FN { bool r = true; for (int i = 0; i < N; i++) r = r && c.i(0, i) == c.i(1); mark(r); c.reti(r); }, FN { if (c.rng.p(.7)) { for (int i = 0; i < N; i++) c.si(0, i, c.i(1)); if (c.rng.p(.5)) c.si(0, c.rng.r(N), (long long)c.i(1) ^ (1 << c.rng.r(31))); } });
      add(P, nm("eqv"), FN { bool r = true; for (int i = 0; i < N; i++) r = r && c.i(0, i) == c.i(1, i); mark(r); c.reti(r); }, FN { if (c.rng.p(.7)) { for (int i = 0; i < N; i++) c.in[0][i] = c.in[1][i]; if (c.rng.p(.5)) { int k = c.rng.r(N); c.si(0, k, (long long)c.i(1, k) ^ (1 << c.rng.r(31))); } } });
    }
    if (N == 3) add(P, nm("norm2"), FN { ll s = 0; for (int i = 0; i < N; i++) s = ck(s + ck((ll)c.i(0, i) * c.i(0, i))); c.reti(s); }, gfit);
    if (N == 3)
                add(P, nm("norm"), FN { ll s = 0; for (int i = 0; i < N; i++) s = ck(s + ck((ll)c.i(0, i) * c.i(0, i))); (void)s; c.any(1, 0); }, gfit).chk = FN {
      double s = 0; for (int i = 0; i < 3; i++) s += (double)c.i(0, i) * c.i(0, i); double r = sqrt(s);   // truncated float square root
      c.need(c.ai() >= (int)floor(r * (1 - 4 * U_)) && c.ai() <= (int)floor(r * (1 + 4 * U_)), "not the truncated norm"); };
    if (N == 2) add(P, nm("cross"), FN { c.reti(ck(ck((ll)c.i(0, 0) * c.i(1, 1)) - ck((ll)c.i(0, 1) * c.i(1, 0)))); }, gfit);
  }
}
// ------------------------------------------------------------------ scalar helpers
void reg_util() {
  const char *P = "C03"; const int XF = SPECIAL | EXTREME;
  add(P, "glm_sign", FN { int v = c.i(0); mark(v > 0 ? 1 : v < 0 ? 2 : 3); c.reti(v > 0 ? 1 : v < 0 ? -1 : 0); });
  add(P, "glm_signf", FN { c.ret(sgnE(c.F(0))); }, nullptr, XF);
  add(P, "glm_rad", FN { c.ret(c.F(0) * PI_() / E(180)); });
  add(P, "glm_deg", FN { c.ret(c.F(0) * E(180) / PI_()); });
  add(P, "glm_make_rad", FN { c.o(0, 0, c.F(0) * PI_() / E(180)); });
  add(P, "glm_make_deg", FN { c.o(0, 0, c.F(0) * E(180) / PI_()); });
  add(P, "glm_pow2", FN { c.ret(c.F(0) * c.F(0)); }, nullptr, XF);
  add(P, "glm_min", FN { domain(!std::isnan(c.f(0)) && !std::isnan(c.f(1))); c.ret(emin(c.F(0), c.F(1))); }, nullptr, XF);
  add(P, "glm_max", FN { domain(!std::isnan(c.f(0)) && !std::isnan(c.f(1))); c.ret(emax(c.F(0), c.F(1))); }, nullptr, XF);
  add(P, "glm_imin", FN { c.reti(std::min(c.i(0), c.i(1))); });
  add(P, "glm_imax", FN { c.reti(std::max(c.i(0), c.i(1))); });
  add(P, "glm_clamp", FN { domain(c.f(1) <= c.f(2) && !std::isnan(c.f(0))); c.ret(eclamp(c.F(0), c.F(1), c.F(2))); }, FN { if (c.f(1) > c.f(2)) std::swap(c.in[1][0], c.in[2][0]); }, XF);
  add(P, "glm_clamp_zo", FN { domain(!std::isnan(c.f(0))); c.ret(clamp01(c.F(0))); }, FN { if (c.rng.p(.5)) gt01(c, 0); }, XF);
  add(P, "glm_step", FN { domain(!std::isnan(c.f(0)) && !std::isnan(c.f(1))); c.ret(stepE(c.F(0), c.F(1))); }, nullptr, XF);
  add(P, "glm_eq", FN { c.reti(eqeps(c.F(0), c.F(1))); }, geq);
  auto gpc = FN { if (c.rng.p(.6)) c.sf(2, 0, c.f(0) + c.rng.d(-.5, 1.5) * (c.f(1) - c.f(0))); };
  add(P, "glm_percent", FN { E t = c.F(1) - c.F(0); if (c.f(0) == c.f(1)) { mark(1); c.ret(E(1)); return; } c.ret((c.F(2) - c.F(0)) / t); }, gpc);
  add(P, "glm_percentc", FN { E t = c.F(1) - c.F(0); if (c.f(0) == c.f(1)) { mark(1); c.ret(E(1)); return; } c.ret(clamp01((c.F(2) - c.F(0)) / t)); }, gpc);
  add(P, "glm_swapf", FN { c.o(0, 0, c.F(1)); c.o(1, 0, c.F(0)); }, nullptr, XF);
  add(P, "glm_luminance", FN { c.ret(c.F(0, 0) * E(0.212671) + c.F(0, 1) * E(0.715160) + c.F(0, 2) * E(0.072169)); });
  const char *Q = "C09";
  add(Q, "glm_lerp", FN { c.ret(lerpE(c.F(0), c.F(1), c.F(2))); }, FN { gt01(c, 2); });
  add(Q, "glm_lerpc", FN { c.ret(lerpE(c.F(0), c.F(1), clamp01(c.F(2)))); }, FN { gt01(c, 2); });
  add(Q, "glm_smooth", FN { c.ret(smooth(c.F(0))); }, FN { gt01(c, 0); });
  add(Q, "glm_smoothstep", FN { domain(c.f(0) != c.f(1)); c.ret(smoothstep(c.F(0), c.F(1), c.F(2))); }, gpc);
  add(Q, "glm_smoothinterp", FN { c.ret(lerpE(c.F(0), c.F(1), smooth(c.F(2)))); }, FN { gt01(c, 2); });
  add(Q, "glm_smoothinterpc", FN { c.ret(lerpE(c.F(0), c.F(1), smooth(clamp01(c.F(2))))); }, FN { gt01(c, 2); });
}
