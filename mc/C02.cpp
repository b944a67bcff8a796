// C02: replaying a recorded program at another point.
#include "dsl.h"
#include <adolc/interfaces.h>
using namespace dsl;
using mc::fail;
typedef ref::Dual<2> D2;
static int cSwitch, cTie, cSel, cSame, cSkip;

static bool model(const Prog &p, const double *x, D2 *yd, double *y, std::vector<ref::Ev> &log, bool &kink) {
  if (!runDouble(p, x, y)) return false;
  D2 xd[2] = {x[0], x[1]};
  xd[0].g[0] = xd[1].g[1] = 1;
  ref::evlog = &log;
  runRef(p, xd, yd);
  ref::evlog = nullptr;
  kink = ref::flags.kink;
  return !ref::flags.fuzzy;
}

// allowed return codes as a bit set over {-1,0,1,2,3} -> bits 0..4
static unsigned expectedRc(const std::vector<ref::Ev> &a, const std::vector<ref::Ev> &b, bool &sw) {
  int base = 3;
  unsigned opt = 0; // optional codes
  sw = false;
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    const ref::Ev &p = a[i], &q = b[i];
    switch (p.k) {
    case ref::EV_CMP:
      if (p.sel != q.sel) { sw = true; return 1u; }
      if (q.tie) base = std::min(base, 0);
      break;
    case ref::EV_SEL:
      if (q.tie) { if (p.tie) opt |= 1u << 2; else base = std::min(base, 1); }
      else if (p.tie) opt |= 1u << 3;
      else if (p.sel != q.sel) base = std::min(base, 2);
      break;
    case ref::EV_ABS:
      if (q.tie) opt |= 1u << 2;
      else if (p.tie) opt |= 1u << 3;
      else if (p.sel != q.sel) base = std::min(base, 2);
      break;
    case ref::EV_ROUND:
      if (p.sel != q.sel) base = std::min(base, 2);
      break;
    case ref::EV_COND:
      if (p.sel != q.sel) base = std::min(base, 2);
      if (q.tie) base = std::min(base, 0);
      break;
    case ref::EV_CONDEQ:
      if (p.sel != q.sel) base = std::min(base, 2);
      if (q.tie) opt |= 1u << 1;
      break;
    case ref::EV_IDX:
      if (p.sel != q.sel) opt |= 1u << 3;
      break;
    }
  }
  unsigned s = 1u << (base + 1);
  for (int c = 0; c <= 3; c++) if ((opt >> (c + 1) & 1) && c < base) s |= 1u << (c + 1);
  return s;
}

static void check(const Prog &p, const double *x0, const double *x1) {
  const int n = 2, m = NR;
  D2 y0d[NR], yd[NR];
  double y0[NR], yr[NR], ya[NR], y[NR];
  std::vector<ref::Ev> l0, l1;
  bool k0, k1;
  if (!model(p, x0, y0d, y0, l0, k0) || !model(p, x1, yd, yr, l1, k1)) { mc::trivial(); mc::count(cSkip); return; }
  bool sw;
  unsigned okF = expectedRc(l0, l1, sw);
  if (sw) mc::count(cSwitch);
  else if (okF == 1u << 4) mc::count(cSame);
  else if (okF & 7u) mc::count(cTie);
  else mc::count(cSel);
  bool deriv = !k1;
  double J[NR][2], sc = 1;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    J[i][j] = yd[i].g[j];
    if (!std::isfinite(J[i][j]) || std::fabs(J[i][j]) > 1e7) deriv = false;
    else sc = std::fmax(sc, std::fabs(J[i][j]));
  }
  mc::trace();
  const short tag = 0;
  record(tag, p, x0, ya, 0);
  int lastF = 9;
  bool absTie = false; // a reverse sweep may report fabs at zero where the forward direction could not see it
  for (auto &e : l1) absTie |= e.k == ref::EV_ABS && e.tie;
  // a program of one selecting operation whose result is a dependent: its
  // adjoint is not zero, so the reverse sweep has to report what forward did
  bool oneSel = p.size() == 1 && p[0].k != dsl::MISC;
  for (size_t i = 0; i < l1.size(); i++) {
    auto &e = l1[i];
    const bool same = i < l0.size() && l0[i].sel == e.sel && !l0[i].tie && !e.tie;
    if (p[0].k == dsl::VEC && e.k != ref::EV_COND && e.k != ref::EV_CONDEQ) oneSel &= same; // part of the subscript, which has no adjoint
    else oneSel &= e.k == ref::EV_SEL || e.k == ref::EV_ABS || e.k == ref::EV_ROUND || ((e.k == ref::EV_COND || e.k == ref::EV_CONDEQ) && !e.tie);
  }
  auto chk = [&](const char *w, int rc) {
    mc::checked();
    if (rc < -1 || rc > 3 || !(okF >> (rc + 1) & 1)) fail("rc", "%s returned %d at the new point, allowed set of codes (bit c+1) is %#x", w, rc, okF);
    lastF = rc;
    return rc >= 0;
  };
  auto vals = [&](const char *w) { for (int i = 0; i < m; i++) mc::expectNear("value", y[i], yr[i], 1e-9, 1, "%s y[%d]", w, i); };
  auto revrc = [&](const char *w, int rc) {
    mc::checked();
    if ((rc < lastF && !(absTie && rc == 1)) || rc > 3 || (okF == 1u << 4 && rc != 3)) fail("rc-reverse", "%s returned %d after a forward sweep that returned %d", w, rc, lastF);
    if (oneSel && lastF < 3 && rc != lastF) fail("rc-reverse-one", "%s returned %d although the forward sweep returned %d and the only operation has an adjoint", w, rc, lastF);
  };
  double xx[2] = {0.7, -1.3}, Y1[NR], u[NR] = {1.0, -0.5, 2.0}, z[2];
  double U[2][NR] = {{1, 0, 0.5}, {0.25, -1, 1}}, Z[2][2];
  double *Up[2] = {U[0], U[1]}, *Zp[2] = {Z[0], Z[1]};
  if (chk("zos_forward", zos_forward(tag, m, n, 0, x1, y))) vals("zos_forward");
  if (chk("zos_forward keep", zos_forward(tag, m, n, 1, x1, y))) {
    vals("zos_forward keep");
    revrc("fos_reverse", fos_reverse(tag, m, n, u, z));
    if (deriv) for (int j = 0; j < n; j++) mc::expectNear("fos_reverse", z[j], u[0] * J[0][j] + u[1] * J[1][j] + u[2] * J[2][j], 1e-9, sc, "fos_reverse z[%d]", j);
    revrc("fov_reverse", fov_reverse(tag, m, n, 2, Up, Zp));
    if (deriv) for (int q = 0; q < 2; q++) for (int j = 0; j < n; j++)
      mc::expectNear("fov_reverse", Z[q][j], U[q][0] * J[0][j] + U[q][1] * J[1][j] + U[q][2] * J[2][j], 1e-9, sc, "fov_reverse Z[%d][%d]", q, j);
  }
  if (chk("fos_forward", fos_forward(tag, m, n, 2, x1, xx, y, Y1))) {
    vals("fos_forward");
    if (deriv) for (int i = 0; i < m; i++) mc::expectNear("fos_forward", Y1[i], J[i][0] * xx[0] + J[i][1] * xx[1], 1e-9, sc, "fos_forward Y[%d]", i);
    double ZH[2][2]; double *ZHp[2] = {ZH[0], ZH[1]};
    revrc("hos_reverse", hos_reverse(tag, m, n, 1, u, ZHp));
    double Z3[2][2][2], *Zr[2][2], **Zq[2];
    for (int a = 0; a < 2; a++) { for (int b = 0; b < 2; b++) Zr[a][b] = Z3[a][b]; Zq[a] = Zr[a]; }
    short nzs[2][2], *nz[2] = {nzs[0], nzs[1]};
    revrc("hov_reverse", hov_reverse(tag, m, n, 1, 2, Up, Zq, nz));
    if (deriv) for (int q = 0; q < 2; q++) for (int j = 0; j < n; j++) mc::expectNear("hov_reverse", Z3[q][j][0], U[q][0] * J[0][j] + U[q][1] * J[1][j] + U[q][2] * J[2][j], 1e-9, sc, "hov_reverse Z[%d][%d][0]", q, j);
    if (deriv) for (int j = 0; j < n; j++) mc::expectNear("hos_reverse", ZH[j][0], u[0] * J[0][j] + u[1] * J[1][j] + u[2] * J[2][j], 1e-9, sc, "hos_reverse Z[%d][0]", j);
  }
  double X[2][2] = {{1, 0.5}, {0, -2}}, Y[NR][2];
  double *Xp[2] = {X[0], X[1]}, *Yp[NR] = {Y[0], Y[1], Y[2]};
  if (chk("fov_forward", fov_forward(tag, m, n, 2, x1, Xp, y, Yp))) {
    vals("fov_forward");
    if (deriv) for (int i = 0; i < m; i++) for (int q = 0; q < 2; q++)
      mc::expectNear("fov_forward", Y[i][q], J[i][0] * X[0][q] + J[i][1] * X[1][q], 1e-9, sc, "fov_forward Y[%d][%d]", i, q);
  }
  if (chk("hos_forward", hos_forward(tag, m, n, 2, 0, x1, Xp, y, Yp))) {
    vals("hos_forward");
    if (deriv) for (int i = 0; i < m; i++) mc::expectNear("hos_forward", Y[i][0], J[i][0] * X[0][0] + J[i][1] * X[1][0], 1e-9, sc, "hos_forward Y[%d][0]", i);
  }
  double XX[2][2][2] = {{{1, 0}, {0, 0.5}}, {{0, 1}, {1, -2}}}, YY[NR][2][2];
  double *XXr[2][2], **XXp[2], *YYr[NR][2], **YYp[NR];
  for (int i = 0; i < 2; i++) { for (int q = 0; q < 2; q++) XXr[i][q] = XX[i][q]; XXp[i] = XXr[i]; }
  for (int i = 0; i < m; i++) { for (int q = 0; q < 2; q++) YYr[i][q] = YY[i][q]; YYp[i] = YYr[i]; }
  if (chk("hov_forward", hov_forward(tag, m, n, 2, 2, x1, XXp, y, YYp))) {
    vals("hov_forward");
    if (deriv) for (int i = 0; i < m; i++) for (int q = 0; q < 2; q++)
      mc::expectNear("hov_forward", YY[i][q][0], J[i][0] * XX[0][q][0] + J[i][1] * XX[1][q][0], 1e-9, sc, "hov_forward Y[%d][%d][0]", i, q);
  }
  // back at the recording point everything is as recorded
  bool sw0;
  okF = expectedRc(l0, l0, sw0);
  if (chk("zos_forward at the recording point", zos_forward(tag, m, n, 0, x0, y)))
    for (int i = 0; i < m; i++) mc::expectNear("value", y[i], y0[i], 1e-9, 1, "y[%d] at the recording point", i);
}

static const double PT[][2] = {{0.25, 0.7}, {0.5, 0.5}, {-0.5, 0.3}, {0, 1}, {1.625, 2}, {2.2, -1.1}, {-1.5, -1.5}, {0.25, -0.4}, {0.5625, 1.0625}, {-0.7, -2.75}, {0, 0}, {-0.0, 0.0}, {1, 0}, {-1e-3, 1e-3}};
static const int NP = sizeof PT / sizeof *PT;

struct R : mc::Runner {
  std::vector<Op> B1, B2, S;
  void addPairs(const char *name, std::function<Prog(uint64_t)> gen, uint64_t N, int np, int npr, const char *rule, uint64_t chunk) {
    mc::Space s;
    s.name = name;
    s.n = N * np * npr;
    s.chunk = chunk;
    s.rule = mc::fmt("%s (%llu programs, %d recording x %d evaluation points)", rule, (unsigned long long)N, npr, np);
    s.run = [=](uint64_t k) { mc::Dec d(k); int e = (int)d(np), r = (int)d(npr); check(gen(d.k), PT[r], PT[e]); };
    s.describe = [=](uint64_t k) { mc::Dec d(k); int e = (int)d(np), r = (int)d(npr); return str(gen(d.k)) + mc::fmt(" @(%g,%g)->(%g,%g)", PT[r][0], PT[r][1], PT[e][0], PT[e][1]); };
    spaces.push_back(s);
  }
  static bool branchy(const Op &o) {
    switch (o.k) {
    case UN: return o.f >= CEIL;
    case CB: return o.f >= MINC && o.f <= CMAX;
    case BIN: return o.f == FMIN || o.f == FMAX;
    case CND: case CMPR: return true;
    case VEC: return o.f >= VGET && o.f != VDOTALIAS && o.f != VAXPYALIAS;
    case MISC: return o.f >= 5;
    default: return false;
    }
  }
  void setup() override {
    childInit = [] { freshTape(); };
    cSwitch = mc::counter("branch_switched");
    cTie = mc::counter("at_tie");
    cSel = mc::counter("selection_may_have_changed");
    cSame = mc::counter("same_branch");
    cSkip = mc::counter("outside_domain_or_rounding_sensitive");
    AlphaCfg f = cfgFull();
    f.cmp = true;
    f.unForms = {0, 1}; f.binForms = {0, 3};
    for (auto &o : alphabet(f)) if (branchy(o)) B1.push_back(o);
    AlphaCfg c = cfgMid();
    c.cmp = true;
    c.bin = {{0, 0, 1}, {2, 1, 0}, {1, 0, 2}};
    c.un = {{0, 0}, {2, 0}, {1, 0}};
    c.unForms = {0}; c.binForms = {0};
    for (auto &o : alphabet(c)) if (branchy(o)) B2.push_back(o);
    std::vector<Op> mv = {{CB, SUBC, 0, 0, 0, 0}, {BIN, MUL, 0, 0, 1, 0}, {BIN, SUB, 0, 0, 1, 0}, {UN, NEG, 0, 0, 0, 0}, {BIN, DIV, 1, 0, 1, 0}, {ASG, 5, 0, 1, 0, 0}, {CPR, 0, 0, 0, 1, 0}, {UN, SIN, 2, 0, 0, 0}};
    S = B2;
    S.insert(S.end(), mv.begin(), mv.end());
    auto g1 = [this](uint64_t k) { return prog(B1, 1, k); };
    auto g2 = [this](uint64_t k) { return prog(S, 2, k); };
    addPairs("one", g1, B1.size(), NP, NP, "every branching operation, operand form and aliasing pattern", 500);
    addPairs("two", g2, S.size() * S.size(), mc::thorough ? NP : 4, mc::thorough ? NP : 4, "all pairs of branching and value-moving operations", 1000);
    if (mc::thorough) {
      auto g3 = [this](uint64_t k) { return prog(S, 3, k); };
      addPairs("three", g3, S.size() * S.size() * S.size(), 2, 2, "all triples of branching and value-moving operations", 2000);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
