bool CONV_LH, CONV_ZO; double CLIP[8][3] = {{-1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {1, -1, -1}, {-1, -1, 1}, {-1, 1, 1}, {1, 1, 1}, {1, -1, 1}};
static std::string DUMP;
static void reg_all() { reg_vec(); reg_ivec(); reg_util(); reg_mat(); reg_quat(); reg_affine(); reg_euler(); reg_curve(); reg_cam(); reg_frustum(); reg_geom(); reg_noise(); }

// ---------------------------------------------------------------- two executions of one function on the same arguments
typedef uint32_t Slots[MAXP][CAP];
static float fb(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static bool isIntSlot(const C &c, int p) { return p == c.np() ? c.api->rk == 'i' : c.api->p[p].kind == 'n' || c.api->p[p].kind == 'i'; }
// st: 0 conclusive, 1 ambiguous.  A is the base result, c.act the other one.
static std::string differ(C &c, const Slots &A, int s, const Ent &e, Stat &st) {
  bool soft = false; char b[320];
  for (int p = 0; p <= c.np(); p++) {
    if (p == c.np() ? c.api->rk == 'v' : c.api->p[p].role == 'i') continue;
    int n = p == c.np() ? 1 : c.api->p[p].n;
    for (int k = 0; k < n; k++) {
      uint32_t x = A[p][k], y = c.act[p][k];
      if (x == y) { st.elems++; continue; }
      if (s == 0 && e.ref && c.oset[p][k] == 3) { st.skipel++; continue; }
      if (isIntSlot(c, p)) {
        if (s != 0) { st.skipel++; continue; }
        if (!e.ref) { soft = true; continue; }
        snprintf(b, sizeof b, "%s is %d, the other execution gives %d", elemName(c, p, k).c_str(), (int)y, (int)x); return b;
      }
      float fx = fb(x), fy = fb(y);
      if (fx == fy || (std::isnan(fx) && std::isnan(fy))) { st.elems++; continue; }
      if (s != 0) { st.skipel++; continue; }
      if (!e.ref) { soft = true; continue; }
      double tol = 0;
      if (c.oset[p][k] == 1) {
        E v = c.out[p][k]; if (v.unk()) { st.skipel++; continue; }
        if (v.fin()) { double er = v.e + c.extra * fabs(v.v) / KS + c.extraAbs / KS; if (fabs(v.v) + 2 * KS * er > 3.4028e38) { st.skipel++; continue; } tol = 2 * KS * er; }
      }
      st.elems++;
      double d = fabs((double)fx - fy); if (tol > 0 && std::isfinite(d)) st.maxr = std::max(st.maxr, d / tol * KS);
      if (!(d <= tol)) { snprintf(b, sizeof b, "%s is %.9g, the other execution gives %.9g (tolerance %.3g)", elemName(c, p, k).c_str(), fy, fx, tol); return b; }
    }
  }
  if (soft && e.chk) {
    static Slots sv; memcpy(sv, c.act, sizeof sv); std::string wy, wx;
    auto judge = [&]() { c.why.clear(); try { e.chk(c); } catch (Amb &) { return std::string("?"); } catch (Inv &) { return std::string("?"); } return c.why; };
    wy = judge(); memcpy(c.act, A, sizeof sv); wx = judge(); memcpy(c.act, sv, sizeof sv); c.why.clear();
    if (wx != "?" && wy != "?" && wx.empty() != wy.empty()) return (wy.empty() ? "only the other execution is wrong: " + wx : wy + " (the other execution is right)");
    st.skipel++;
  }
  return "";
}
static bool verbose() { return onlyCase >= 0; }
static void show(const C &c, const Lib &l, const std::string &w) {
  if (verbose()) fprintf(stderr, "  %s/%s: %s -> %s\n", l.name.c_str(), l.form.c_str(), w.empty() ? "ok" : w.c_str(), (dumpSlots(c, c.act) + (c.api->rk == 'f' ? fmt("; ret=%.9g", c.af()) : c.api->rk == 'i' ? fmt("; ret=%d", c.ai()) : "")).c_str());
}
// mode same: every library against the first one that has the function
static void modeSame(const Ent &e, int cases, int sh, int nsh) {
  const Api &a = API[e.name]; static C c; static Slots A; Stat st;
  std::vector<std::pair<Lib *, wfn>> ls; for (Lib &l : LIBS) { auto it = l.fn.find(e.name); if (it != l.fn.end()) ls.push_back({&l, it->second}); }
  if (ls.size() < 2 || ls[0].first != &LIBS[0]) return;
  for (int idx = sh; idx < cases; idx += nsh) {
    if (onlyCase >= 0 && idx != onlyCase) continue;
    initCase(c, e, a, idx, 0); int s = prep(c, e);
    if (s == 2) { st.inv++; continue; }
    st.cases++; if (s == 1) st.amb++; else { st.concl++; note(c); st.sigs.insert(PSIG ^ (uint64_t)c.style); }
    if (verbose()) fprintf(stderr, "case %d status %d inputs %s\n", idx, s, dumpSlots(c, c.in).c_str());
    Rng pr(idx * 77 + 5); bool base = true;
    for (auto &x : ls) {
      if (x.first->skip(idx, nsh, c.style)) continue;
      st.calls++;
      std::string w = callOn(c, *x.first, x.second, PL_CANARY, pr, 0, true);
      if (!w.empty()) { if (base) break; }
      else if (base) { memcpy(A, c.act, sizeof A); }
      else w = differ(c, A, s, e, st);
      show(c, *x.first, w);
      if (!w.empty()) violation(c, *x.first, "differs from " + LIBS[0].name + "/" + LIBS[0].form + ": " + w);
      base = false;
    }
  }
  statLine(e.name, st, c);
}
// ---------------------------------------------------------------- memory
// mode mem: arguments against inaccessible pages on either side, minimally aligned, outputs poisoned in two ways
// previous contents of an output, as words: one element may equal another, zero, one, its negative, ...
static uint32_t pois(int style, int q, bool in) {
  auto w = [&](double v) { if (in) return (uint32_t)(int)v; float f = (float)v; uint32_t b; memcpy(&b, &f, 4); return b; };
  switch (style) {
    case 0: return 0xFFC0DEAD ^ (q << 3);                 // quiet NaN
    case 1: return 0x4B7A11CEu + q;
    case 2: return 0;
    case 3: return w(1);
    case 4: return w(q & 1 ? -5000 : 5000);
    case 5: return w(-7000 - q);
    case 6: return w(6000);
    case 7: return w(q % 5 ? 0 : 1);                       // identity
    case 8: return in ? 0x80000000u : 0x7F800000u;         // infinity
    case 9: return in ? 0x7FFFFFFFu : 0xFF7FFFFFu;
    case 10: return w(q == 0 ? 0 : 3000 + q);
    default: return in ? (uint32_t)q : 0x00000001u + q;    // subnormal
  }
}
static void modeMem(const Ent &e, int cases, int sh, int nsh) {
  const Api &a = API[e.name]; static C c; static Slots A; Stat st;
  for (int idx = sh; idx < cases; idx += nsh) {
    if (onlyCase >= 0 && idx != onlyCase) continue;
    initCase(c, e, a, idx, 0); int s = prep(c, e);
    if (s == 2) { st.inv++; continue; }
    st.cases++; st.concl++; note(c); st.sigs.insert(PSIG ^ (uint64_t)c.style);
    Rng pr(idx * 131 + 7);
    static Slots in0; memcpy(in0, c.in, sizeof in0);
    bool anyOut = false; for (int p = 0; p < c.np(); p++) if (a.p[p].role == 'o') anyOut = true;
    for (Lib &l : LIBS) {
      auto it = l.fn.find(e.name); if (it == l.fn.end() || l.skip(idx, nsh, c.style)) continue;
      std::string w; bool have = false;
      for (int k = 0; k < 7 && w.empty(); k++) {
        int mode = k == 0 ? PL_END : k == 1 ? PL_START : PL_CANARY; if (k > 2 && !anyOut) break;
        memcpy(c.in, in0, sizeof in0);
        if (k >= 5) {        // nearly the right content already: the result (or an input) in some elements, something else in one or more others
          for (int p = 0; p < c.np(); p++) if (a.p[p].role == 'o') {
            int one = pr.r(a.p[p].n), st2 = 1 + pr.r(11), src = pr.r(c.np()); bool in = isIntSlot(c, p), cp = k == 6 && pr.p(.5);
            for (int q = 0; q < a.p[p].n; q++) c.in[p][q] = k == 5 ? (q == one ? pois(st2, q, in) : A[p][q]) : pr.p(.4) ? A[p][q] : cp && src != p && q < a.p[src].n && isIntSlot(c, src) == in ? c.in[src][q] : pois(st2, q, in);
          }
        } else if (k) for (int p = 0; p < c.np(); p++) if (a.p[p].role == 'o') for (int q = 0; q < a.p[p].n; q++) c.in[p][q] = pois(k == 1 ? 0 : k == 2 ? 1 : 2 + (idx * 2 + k - 3) % 10, q, isIntSlot(c, p));
        st.calls++;
        w = callOn(c, l, it->second, mode, pr, 0, true);
        if (!w.empty()) { w = (k == 0 ? "objects ending at an inaccessible page: " : k == 1 ? "objects starting after an inaccessible page: " : "minimally aligned objects: ") + w; break; }
        // elements that are not outputs keep their content; outputs do not depend on it
        for (int p = 0; p < c.np() && w.empty(); p++) if (a.p[p].role != 'i') for (int q = 0; q < a.p[p].n; q++) {
          if (s == 0 && e.ref && c.oset[p][q] == 0) { if (c.act[p][q] != c.in[p][q]) { w = elemName(c, p, q) + " was written although it is not documented as an output"; break; } }
          else if (a.p[p].role == 'o' && have && !(s == 0 && e.ref && c.oset[p][q] == 3)) {
            st.elems++;
            if (c.act[p][q] != A[p][q] && !(isIntSlot(c, p) ? false : std::isnan(fb(c.act[p][q])) && std::isnan(fb(A[p][q])) && c.act[p][q] != c.in[p][q])) { w = elemName(c, p, q) + " is left unwritten or depends on the previous content of the output"; break; }
          }
        }
        memcpy(A, c.act, sizeof A); have = true;
      }
      show(c, l, w);
      if (!w.empty()) violation(c, l, w);
    }
    memcpy(c.in, in0, sizeof in0);
  }
  statLine(e.name, st, c);
}
// ---------------------------------------------------------------- aliasing
static std::set<std::string> ALIASOK;      // "fn out in": documented as unsupported
static void modeAlias(const Ent &e, int cases, int sh, int nsh) {
  const Api &a = API[e.name]; static C c; static Slots A; Stat st; int np = (int)a.p.size();
  std::vector<std::vector<int>> pats; std::vector<std::string> pn;
  for (int o = 0; o < np; o++) if (a.p[o].role != 'i' && a.p[o].n > 1) {
    std::vector<int> same;
    for (int i = 0; i < np; i++) if (i != o && a.p[i].role == 'i' && a.p[i].type == a.p[o].type && a.p[i].n == a.p[o].n && !ALIASOK.count(a.name + " " + a.p[o].name + " " + a.p[i].name)) same.push_back(i);
    for (size_t m = 1; m < (1u << same.size()); m++) {
      std::vector<int> sh_(np + 1); for (int i = 0; i <= np; i++) sh_[i] = i;
      int first = -1; std::string nm = a.p[o].name;
      for (size_t b = 0; b < same.size(); b++) if (m >> b & 1) { if (first < 0) first = same[b]; sh_[same[b]] = first; nm += "=" + a.p[same[b]].name; }
      sh_[o] = first; pats.push_back(sh_); pn.push_back(nm);
    }
  }
  if (pats.empty()) return;
  for (int idx = sh; idx < cases; idx += nsh) {
    if (onlyCase >= 0 && idx != onlyCase) continue;
    for (size_t pi = 0; pi < pats.size(); pi++) {
      initCase(c, e, a, idx, 0);
      int s; try { if (e.gen) e.gen(c); } catch (Inv &) { st.inv++; continue; } catch (Amb &) { st.inv++; continue; }
      // make shared objects hold one content (an in-out parameter dictates it)
      int o = -1; for (int i = 0; i < np; i++) if (a.p[i].role != 'i' && pats[pi][i] != i) o = i;
      int f = pats[pi][o];
      if (a.p[o].role == 'b') memcpy(c.in[f], c.in[o], sizeof c.in[f]);
      for (int i = 0; i < np; i++) if (pats[pi][i] == f && i != f) memcpy(c.in[i], c.in[f], sizeof c.in[f]);
      try { memset(c.oset, 0, sizeof c.oset); PSIG = 1469598103934665603ULL; if (e.ref) e.ref(c); s = 0; } catch (Amb &) { s = 1; } catch (Inv &) { st.inv++; continue; }
      st.cases++; if (s == 1) st.amb++; else { st.concl++; note(c); st.sigs.insert(PSIG ^ (uint64_t)c.style ^ (pi << 40)); }
      if (verbose()) fprintf(stderr, "case %d %s status %d inputs %s\n", idx, pn[pi].c_str(), s, dumpSlots(c, c.in).c_str());
      Rng pr(idx * 977 + pi);
      for (Lib &l : LIBS) {
        auto it = l.fn.find(e.name); if (it == l.fn.end() || l.skip(idx, nsh, c.style)) continue;
        st.calls += 2;
        std::string w = callOn(c, l, it->second, PL_CANARY, pr, 0, false);
        if (!w.empty()) { violation(c, l, "separate objects: " + w); continue; }
        memcpy(A, c.act, sizeof A);
        w = callOn(c, l, it->second, PL_CANARY, pr, pats[pi].data(), true);
        if (w.empty()) w = differ(c, A, s, e, st);
        show(c, l, w);
        if (!w.empty()) violation(c, l, "with " + pn[pi] + " being one object: " + w);
      }
    }
  }
  statLine(e.name, st, c);
}
// mode run: only crashes, traps, hangs and memory monitors (sanitizer builds); ambiguous cases included
static void modeRun(const Ent &e, int cases, int sh, int nsh) {
  const Api &a = API[e.name]; static C c; Stat st;
  for (int idx = sh; idx < cases; idx += nsh) {
    if (onlyCase >= 0 && idx != onlyCase) continue;
    initCase(c, e, a, idx, idx % 3 ? 0 : SPECIAL | EXTREME); int s = prep(c, e);
    if (s == 2) { st.inv++; continue; }
    st.cases++; st.concl++; note(c); st.sigs.insert(PSIG ^ (uint64_t)c.style);
    Rng pr(idx * 131 + 7);
    for (Lib &l : LIBS) {
      auto it = l.fn.find(e.name); if (it == l.fn.end()) continue;
      st.calls++;
      std::string w = callOn(c, l, it->second, idx & 1 ? PL_END : PL_CANARY, pr, 0, false);
      show(c, l, w);
      if (!w.empty()) violation(c, l, w);
    }
  }
  statLine(e.name, st, c);
}
// mode record: write the arguments of every call for the plain C replay harness
static void modeRecord(const Ent &e, int cases, int sh, int nsh, FILE *f, int fnIndex) {
  const Api &a = API[e.name]; static C c; Stat st;
  for (int idx = sh; idx < cases; idx += nsh) {
    if (onlyCase >= 0 && idx != onlyCase) continue;
    initCase(c, e, a, idx, idx % 3 ? 0 : SPECIAL | EXTREME); int s = prep(c, e);
    if (s == 2) { st.inv++; continue; }
    st.cases++; st.concl++; note(c); st.sigs.insert(PSIG ^ (uint64_t)c.style);
    int hd[3] = {fnIndex, idx, s}, w = 0; fwrite(hd, 4, 3, f); std::vector<uint8_t> mask;
    for (int p = 0; p < c.np(); p++) { fwrite(c.in[p], 4, a.p[p].n, f); w += a.p[p].n; for (int k = 0; k < a.p[p].n; k++) mask.push_back(a.p[p].role == 'i' ? 0 : !e.ref ? 1 : c.oset[p][k] == 0 ? 0 : c.oset[p][k] == 3 ? 2 : 1); }
    while (mask.size() & 3) mask.push_back(0);
    fwrite(mask.data(), 1, mask.size(), f);
  }
  statLine(e.name, st, c);
}
static void runMode(int cases, int sh, int nsh, std::set<std::string> &only) {
  if (!ARG.empty() && MODE == "alias") { std::istringstream s(ARG); std::string x; while (std::getline(s, x, ';')) ALIASOK.insert(x); }
  FILE *rf = MODE == "record" ? fopen(ARG.c_str(), "wb") : 0;
  std::map<std::string, int> ix; for (size_t i = 0; i < ORDER.size(); i++) ix[ORDER[i]] = (int)i;
  for (Ent &e : REG) {
    if (!only.empty() && !only.count(e.name)) continue;
    if (MODE == "same") modeSame(e, cases, sh, nsh);
    else if (MODE == "mem") modeMem(e, cases, sh, nsh);
    else if (MODE == "alias") modeAlias(e, cases, sh, nsh);
    else if (MODE == "run") modeRun(e, cases, sh, nsh);
    else if (MODE == "record") modeRecord(e, cases, sh, nsh, rf, ix[e.name]);
  }
  if (rf) fclose(rf);
}
