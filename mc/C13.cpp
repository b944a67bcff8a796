// C13: sparsity patterns contain every nonzero and are exact where promised.
#include "dep.h"
#include "dsl.h"
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparsedrivers_c.h>
#include <set>
#include <span>
using namespace dsl;
using namespace ADOLC::Sparse;
using mc::fail;
using SM = SparseMethod;
using CF = ControlFlowMode;
using BP = BitPatternPropagationDirection;
static const double P0[][2] = {{0.4, 0.7}, {1.75, -0.6}, {-1.3, 2.2}, {-0.3, -0.8}, {2.5, 0.25}, {0.5625, 1.0}};
constexpr int NP = 6;
static int cSub, cSkip;
typedef ref::Dual<2> DD;
typedef ref::Tay<DD, 1> TT;
static const double SW[NR] = {1, 2, 3}; // the scalar program: weighted sum of the registers

struct Pt { // what the reference says at one point
  bool ok = false, kink = false;
  unsigned J[NR], up[NR], H, hup, hall;
  std::vector<ref::Ev> ev;
};
// the tape evaluates some operations with other formulas than the reference
// (x/y as x*(1/y), tanh from exp): a tie behind such an operation is decided by rounding
static bool inexact(const Op &o) {
  switch (o.k) {
  case UN: return o.f != NEG && o.f != POS && o.f != FABS && o.f != CEIL && o.f != FLOOR;
  case BIN: return o.f == DIV || o.f == POW || o.f == ATAN2;
  case CB: return o.f == DIVC || o.f == CDIV || (o.f >= POW2 && o.f <= CPOW);
  case CPD: case CPC: return o.f == DIV;
  case CPR: return o.f == 5 || o.f == 8 || o.f == 11;
  default: return false;
  }
}
static Pt refAt(const Prog &p, const double *x, bool safe) {
  Pt r;
  double y[NR];
  if (!runDouble(p, x, y)) return r;
  r.ok = true;
  DD xd[2], yd[NR];
  for (int i = 0; i < 2; i++) { xd[i].v = x[i]; xd[i].g[i] = 1; }
  ref::evlog = &r.ev;
  runRef(p, xd, yd);
  ref::evlog = nullptr;
  r.kink = ref::flags.kink || ref::flags.fuzzy;
  bool tie = false, rounded = false;
  for (auto &e : r.ev) tie |= e.tie;
  for (auto &o : p) rounded |= inexact(o);
  if (tie && rounded) { r.ok = false; return r; }
  for (int j = 0; j < NR; j++) {
    r.J[j] = 0;
    for (int i = 0; i < 2; i++) if (yd[j].g[i] != 0 && std::isfinite(yd[j].g[i])) r.J[j] |= 1u << i;
  }
  r.H = 0;
  for (int k = 0; k < 2; k++) {
    TT xt[2], yt[NR];
    for (int i = 0; i < 2; i++) { xt[i].c[0].v = x[i]; xt[i].c[0].g[i] = 1; xt[i].c[1] = DD(i == k); }
    runRef(p, xt, yt);
    for (int j = 0; j < NR; j++) for (int i = 0; i < 2; i++)
      if (yt[j].c[1].g[i] != 0 && std::isfinite(yt[j].c[1].g[i])) r.H |= 1u << (k * ref::DN + i);
  }
  ref::Str xs[2], ys[NR];
  for (int i = 0; i < 2; i++) { xs[i].v = x[i]; xs[i].d = 1u << i; }
  ref::depSafe = safe;
  ref::depAllPairs = 0;
  runRef(p, xs, ys);
  r.hup = 0;
  for (int j = 0; j < NR; j++) { r.up[j] = ys[j].d; r.hup |= ys[j].h; }
  r.hall = ref::depAllPairs;
  return r;
}
static bool sameCmp(const Pt &a, const Pt &b) { // comparisons are part of the recording
  std::vector<double> u, v;
  for (auto &e : a.ev) if (e.k == ref::EV_CMP) u.push_back(e.sel);
  for (auto &e : b.ev) if (e.k == ref::EV_CMP) v.push_back(e.sel);
  return u == v;
}
struct Rows {
  std::vector<uint *> r;
  Rows(size_t n) : r(n, nullptr) {}
  ~Rows() { for (auto *q : r) delete[] q; }
};
static std::set<unsigned> row(const char *w, const uint *r, int j, int n) {
  std::set<unsigned> s;
  if (!r) fail("format", "%s: row %d missing", w, j);
  for (uint k = 1; k <= r[0]; k++) {
    if (r[k] >= unsigned(n)) fail("format", "%s: row %d has column %u", w, j, r[k]);
    if (!s.insert(r[k]).second) fail("format", "%s: row %d lists column %u twice", w, j, r[k]);
    if (k > 1 && r[k] < r[k - 1]) fail("format", "%s: row %d is not in increasing order", w, j);
  }
  return s;
}
// the C interface: every combination of its options
template <int METHOD, int FLOW, int DIR> static int cJac(short tag, int m, int n, const double *x, std::span<uint *> &sp) {
  int o[3] = {METHOD, FLOW, DIR};
  return ::jac_pat(tag, m, n, x, sp.data(), o);
}
template <int FLOW> static int cHess(short tag, int n, const double *x, std::span<uint *> &sp) {
  int o = FLOW;
  return ::hess_pat(tag, n, x, sp.data(), &o);
}
struct JM { const char *name; bool safe, forward; int (*f)(short, int, int, const double *, std::span<uint *> &); };
static const JM JMS[] = {
    {"index domains, tight", false, true, jac_pat<SM::IndexDomains, CF::Tight>},
    {"index domains, safe", true, true, jac_pat<SM::IndexDomains, CF::Safe>},
    {"bit pattern, tight, forward", false, true, jac_pat<SM::BitPattern, CF::Tight, BP::Forward>},
    {"bit pattern, tight, reverse", false, false, jac_pat<SM::BitPattern, CF::Tight, BP::Reverse>},
    {"bit pattern, safe, forward", true, true, jac_pat<SM::BitPattern, CF::Safe, BP::Forward>},
    {"bit pattern, safe, reverse", true, false, jac_pat<SM::BitPattern, CF::Safe, BP::Reverse>},
    {"bit pattern, safe, automatic", true, true, jac_pat<SM::BitPattern, CF::Safe, BP::Auto>},
    {"bit pattern, tight, automatic", false, true, jac_pat<SM::BitPattern, CF::Tight, BP::Auto>},
    {"C: index domains, tight", false, true, cJac<0, 1, 0>},
    {"C: index domains, safe", true, true, cJac<0, 0, 0>},
    {"C: bit pattern, tight, forward", false, true, cJac<1, 1, 1>},
    {"C: bit pattern, tight, reverse", false, false, cJac<1, 1, 2>},
    {"C: bit pattern, tight, automatic", false, true, cJac<1, 1, 0>},
    {"C: bit pattern, safe, forward", true, true, cJac<1, 0, 1>},
    {"C: bit pattern, safe, reverse", true, false, cJac<1, 0, 2>},
    {"C: bit pattern, safe, automatic", true, true, cJac<1, 0, 0>},
};
struct HM { const char *name; bool safe; bool old; int (*f)(short, int, const double *, std::span<uint *> &); };
static const HM HMS[] = {
    {"tight", false, false, hess_pat<CF::Tight>},
    {"safe", true, false, hess_pat<CF::Safe>},
    {"old tight", false, true, hess_pat<CF::OldTight>},
    {"old safe", true, true, hess_pat<CF::OldSafe>},
    {"C: tight", false, false, cHess<1>},
    {"C: safe", true, false, cHess<0>},
    {"C: old tight", false, true, cHess<3>},
    {"C: old safe", true, true, cHess<2>},
};
static void recordSum(short tag, const Prog &p, const double *x) {
  trace_on(tag);
  {
    adouble r[NR];
    r[0] <<= x[0];
    r[1] <<= x[1];
    r[2] = R2;
    for (auto &o : p) exec<adouble>(o, r);
    adouble s = SW[0] * r[0] + SW[1] * r[1] + SW[2] * r[2];
    double y;
    s >>= y;
  }
  trace_off();
}
static bool subscripts(const Prog &p) {
  for (auto &o : p) if (o.k == VEC && !(o.f <= VAXPY || o.f == VDOTALIAS || o.f == VAXPYALIAS)) return true;
  return false;
}
static std::string show(unsigned m, int w) { std::string s; for (int i = 0; i < w; i++) s += m >> i & 1 ? '1' : '0'; return s; }

static void checkProgram(const Prog &p, int rec) {
  const bool sub = subscripts(p);
  std::vector<Pt> safe, tight;
  for (int q = 0; q < NP; q++) { safe.push_back(refAt(p, P0[q], true)); tight.push_back(refAt(p, P0[q], false)); }
  if (!safe[rec].ok) { mc::trivial(); mc::count(cSkip); return; }
  if (sub) mc::count(cSub);
  // what safe patterns have to contain: every point that follows the recorded comparisons
  unsigned uJ[NR] = {}, uH = 0;
  std::vector<int> pts = {rec};
  for (int q = 0; q < NP; q++)
    if (safe[q].ok && sameCmp(safe[q], safe[rec])) {
      if (q != rec && pts.size() < (mc::thorough ? 9 : 2)) pts.push_back(q);
      if (safe[q].kink) continue;
      for (int j = 0; j < NR; j++) uJ[j] |= safe[q].J[j];
      uH |= safe[q].H;
    }
  const short tag = 0;
  double y[NR];
  record(tag, p, P0[rec], y);
  mc::trace();
  auto call = [&](const char *w, bool mayRefuse, auto &&f) {
    try {
      const int rc = f();
      if (rc < 0) fail("rc", "%s returned %d", w, rc);
      return true;
    } catch (ADOLCError::ADOLCError &e) {
      if (!mayRefuse) fail("refused", "%s: %s", w, e.what());
      return false;
    }
  };
  for (int q : pts)
    for (auto &m : JMS) {
      if (m.safe && q != rec) continue;
      Rows R(NR);
      std::span<uint *> sp(R.r);
      if (!call(m.name, sub && (m.safe || !m.forward), [&] { return m.f(tag, NR, 2, P0[q], sp); })) continue;
      mc::transition();
      for (int j = 0; j < NR; j++) {
        unsigned got = 0;
        for (unsigned c : row(m.name, R.r[j], j, 2)) got |= 1u << c;
        const unsigned lo = m.safe ? uJ[j] : tight[q].kink ? 0 : tight[q].J[j];
        const unsigned up = m.safe ? safe[rec].up[j] : tight[q].up[j];
        mc::checked();
        if (lo & ~got) fail("jac-misses", "%s at point %d: row %d is %s but d/dx is nonzero for %s", m.name, q, j, show(got, 2).c_str(), show(lo, 2).c_str());
        if (got & ~up && !(sub && !m.safe)) fail("jac-too-large", "%s at point %d: row %d is %s, it is computed from %s only", m.name, q, j, show(got, 2).c_str(), show(up, 2).c_str());
      }
    }
  for (int q = 0; q < NP; q++) // the recording is not valid there
    if (safe[q].ok && !sameCmp(safe[q], safe[rec]))
      for (auto &m : JMS) {
        if (m.safe) continue;
        Rows R(NR);
        std::span<uint *> sp(R.r);
        if (sub && !m.forward) continue;
        const int rc = m.f(tag, NR, 2, P0[q], sp);
        mc::checked();
        if (rc >= 0) fail("switched", "%s at point %d returned %d although a recorded comparison has another outcome there", m.name, q, rc);
      }
  const short tag2 = 1;
  recordSum(tag2, p, P0[rec]);
  mc::trace();
  for (int q : pts)
    for (auto &m : HMS) {
      if (m.safe && q != rec) continue;
      Rows R(2);
      std::span<uint *> sp(R.r);
      if (!call(m.name, sub, [&] { return m.f(tag2, 2, P0[q], sp); })) continue;
      mc::transition();
      unsigned got = 0;
      for (int i = 0; i < 2; i++) for (unsigned c : row(m.name, R.r[i], i, 2)) got |= 1u << (i * ref::DN + c);
      const unsigned lo = m.safe ? uH : tight[q].kink ? 0 : tight[q].H;
      const unsigned up = m.safe ? (m.old ? (safe[rec].hall ? ~0u : 0) : safe[rec].hall) : (m.old ? (tight[q].hall ? ~0u : 0) : tight[q].hall);
      mc::checked();
      for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++)
        if ((got >> (i * ref::DN + k) & 1) != (got >> (k * ref::DN + i) & 1)) fail("hess-asymmetric", "%s: entry (%d,%d)", m.name, i, k);
      if (lo & ~got) fail("hess-misses", "Hessian %s at point %d: pattern %s, nonzero %s", m.name, q, show(got, 5).c_str(), show(lo, 5).c_str());
      if (got & ~up && !sub) fail("hess-too-large", "Hessian %s at point %d: pattern %s, interactions %s", m.name, q, show(got, 5).c_str(), show(up, 5).c_str());
    }
}
// ------------------------------------------------ many independents
struct Wide { int n, m, st; };
static std::string str(const Wide &w) { return mc::fmt("n=%d m=%d stencil %d", w.n, w.m, w.st); }
constexpr int NST = 9;
// row i of the stencil as sets of linear and nonlinear columns
static void wideRow(const Wide &w, int i, std::vector<int> &lin, std::vector<int> &non) {
  const int n = w.n;
  auto c = [&](long long k) { return int(((k % n) + n) % n); };
  switch (w.st) {
  case 0: lin = {c(i)}; break;
  case 1: non = {c(i), c(i + 1)}; break;
  case 2: lin = {c(i - 1)}; non = {c(7LL * i + 3)}; break;
  case 3: for (int k = 0; k < n; k++) lin.push_back(k); break; // dense
  case 4: if (i % 3 == 1) non = {c(n - 1), c(i)}; else if (i % 3 == 2) lin = {c(n - 1)}; break; // empty rows
  case 5: for (int k = i % 2; k < n; k += 2) (k % 3 ? lin : non).push_back(k); break;
  default: for (int k = 0; k < n; k++) lin.push_back(k); // functions of sums
  }
}
template <class T> static T wideEval(const Wide &w, int i, const std::vector<T> &x) {
  std::vector<int> lin, non;
  wideRow(w, i, lin, non);
  if (w.st > 5) { // sin of the sum of all, product of sums, sum over sum squared
    T s = 0.5, t = 0.25;
    for (int k = 0; k < w.n; k++) if (w.st == 6 || k % 2) s += x[size_t(k)]; else t += x[size_t(k)];
    return w.st == 6 ? sin(s) : w.st == 7 ? s * t : s / (t * t);
  }
  T s = 0.5;
  for (int k : lin) s += x[size_t(k)] * 2.0;
  for (size_t k = 0; k < non.size(); k++) { if (k + 1 < non.size()) s += x[size_t(non[k])] * x[size_t(non[k + 1])]; else s += sin(x[size_t(non[k])]); }
  return s;
}
static void checkWide(const Wide &w) {
  static const short tag = 2;
  std::vector<double> x(size_t(w.n), 0.5);
  for (int i = 0; i < w.n; i++) x[size_t(i)] = 0.25 + 0.01 * (i % 17);
  auto rec = [&](bool sum) {
    trace_on(tag);
    {
      std::vector<adouble> a(size_t(w.n));
      for (int i = 0; i < w.n; i++) a[size_t(i)] <<= x[size_t(i)];
      double y;
      if (sum) {
        adouble s = 0.0;
        for (int j = 0; j < w.m; j++) s += wideEval(w, j, a);
        s >>= y;
      } else {
        std::vector<adouble> r(size_t(w.m));
        for (int j = 0; j < w.m; j++) r[size_t(j)] = wideEval(w, j, a);
        for (int j = 0; j < w.m; j++) r[size_t(j)] >>= y;
      }
    }
    trace_off();
    mc::trace();
  };
  rec(false);
  std::vector<std::set<unsigned>> want(size_t(w.m)), hw(size_t(w.n));
  for (int j = 0; j < w.m; j++) {
    std::vector<int> lin, non;
    wideRow(w, j, lin, non);
    for (int k : lin) want[size_t(j)].insert(unsigned(k));
    if (w.st > 5 && !j)
      for (int a = 0; a < w.n; a++) for (int b = 0; b < w.n; b++)
        if (w.st == 6 || a % 2 != b % 2 || (w.st == 8 && a % 2 == 0)) hw[size_t(a)].insert(unsigned(b));
    for (size_t k = 0; k < non.size(); k++) {
      want[size_t(j)].insert(unsigned(non[k]));
      auto pr = [&](int a, int b) { hw[size_t(a)].insert(unsigned(b)); hw[size_t(b)].insert(unsigned(a)); };
      if (k + 1 < non.size()) pr(non[k], non[k + 1]); else pr(non[k], non[k]);
    }
  }
  for (auto &m : JMS) {
    Rows R(size_t(w.m));
    std::span<uint *> sp(R.r);
    const int rc = m.f(tag, w.m, w.n, x.data(), sp);
    if (rc < 0) fail("rc", "%s returned %d", m.name, rc);
    mc::transition();
    for (int j = 0; j < w.m; j++) {
      auto got = row(m.name, R.r[size_t(j)], j, w.n);
      mc::checked();
      if (got != want[size_t(j)]) {
        for (unsigned c : want[size_t(j)]) if (!got.count(c)) fail("wide-misses", "%s: row %d misses column %u", m.name, j, c);
        for (unsigned c : got) if (!want[size_t(j)].count(c)) fail("wide-too-large", "%s: row %d has column %u", m.name, j, c);
      }
    }
  }
  rec(true);
  for (auto &m : HMS) {
    if (m.old && w.n > 300) continue;
    Rows R(size_t(w.n));
    std::span<uint *> sp(R.r);
    const int rc = m.f(tag, w.n, x.data(), sp);
    if (rc < 0) fail("rc", "Hessian %s returned %d", m.name, rc);
    mc::transition();
    for (int j = 0; j < w.n; j++) {
      auto got = row(m.name, R.r[size_t(j)], j, w.n);
      mc::checked();
      for (unsigned c : hw[size_t(j)]) if (!got.count(c)) fail("wide-hess-misses", "%s: row %d misses column %u", m.name, j, c);
      if (!m.old || w.st != 8) // (the old method also sees the numerator of a quotient as nonlinear)
      for (unsigned c : got) if (!hw[size_t(j)].count(c)) fail("wide-hess-too-large", "%s: row %d has column %u", m.name, j, c);
    }
  }
  mc::state(mc::hmix(uint64_t(w.n) * 4096 + uint64_t(w.m), uint64_t(w.st)));
}
// ------------------------------------------------ arbitrary bit seeds
static void checkBits(const Prog &p, int rec, int words) {
  double y[NR];
  const double *x = P0[rec];
  Pt P = refAt(p, x, true), Q = refAt(p, x, false);
  if (!P.ok || subscripts(p)) { mc::trivial(); return; }
  const short tag = 0;
  record(tag, p, x, y);
  mc::trace();
  auto pat = [&](const JM &m, unsigned *out) {
    Rows R(NR);
    std::span<uint *> sp(R.r);
    m.f(tag, NR, 2, x, sp);
    for (int j = 0; j < NR; j++) { out[j] = 0; for (unsigned c : row(m.name, R.r[j], j, 2)) out[j] |= 1u << c; }
  };
  for (int t = 0; t < 2; t++) { // tight, safe
    unsigned ps[NR];
    pat(JMS[t ? 4 : 2], ps);
    std::vector<std::vector<bitword_t>> X(2, std::vector<bitword_t>(size_t(words), 0)), Y(NR, std::vector<bitword_t>(size_t(words), bitword_t(0x5a))), U(size_t(words), std::vector<bitword_t>(size_t(NR), 0)), Z(size_t(words), std::vector<bitword_t>(2, bitword_t(0xa5)));
    auto ptr = [](auto &v) { std::vector<bitword_t *> r; for (auto &q : v) r.push_back(q.data()); return r; };
    for (int k = 0; k < words; k++) { for (int i = 0; i < 2; i++) X[size_t(i)][size_t(k)] = mc::hmix(uint64_t(i + 5), uint64_t(k + 1)); for (int j = 0; j < NR; j++) U[size_t(k)][size_t(j)] = mc::hmix(uint64_t(j + 9), uint64_t(k + 77)); }
    auto xp = ptr(X), yp = ptr(Y), up = ptr(U), zp = ptr(Z);
    double yy[NR];
    int rc = t ? int_forward_safe(tag, NR, 2, words, xp.data(), yp.data()) : int_forward_tight(tag, NR, 2, words, x, xp.data(), yy, yp.data());
    if (rc < 0) fail("rc", "int_forward returned %d", rc);
    for (int j = 0; j < NR; j++) for (int k = 0; k < words; k++) {
      bitword_t w = 0;
      for (int i = 0; i < 2; i++) if (ps[j] >> i & 1) w |= X[size_t(i)][size_t(k)];
      mc::checked();
      if (Y[size_t(j)][size_t(k)] != w) fail("int_forward", "%s: row %d word %d is not the union of the seeds of its columns", t ? "safe" : "tight", j, k);
    }
    pat(JMS[t ? 5 : 3], ps);
    if (!t) zos_forward(tag, NR, 2, 1, x, yy);
    rc = t ? int_reverse_safe(tag, NR, 2, words, up.data(), zp.data()) : int_reverse_tight(tag, NR, 2, words, up.data(), zp.data());
    if (rc < 0) fail("rc", "int_reverse returned %d", rc);
    for (int i = 0; i < 2; i++) for (int k = 0; k < words; k++) {
      bitword_t w = 0;
      for (int j = 0; j < NR; j++) if (ps[j] >> i & 1) w |= U[size_t(k)][size_t(j)];
      mc::checked();
      if (Z[size_t(k)][size_t(i)] != w) fail("int_reverse", "%s: column %d word %d is not the union of the seeds of its rows", t ? "safe" : "tight", i, k);
    }
    mc::transition(2);
  }
}
struct R : mc::Runner {
  std::vector<Op> Af, Am, As, At;
  void add(const char *name, const std::vector<Op> *A, int L, int np, const char *rule, uint64_t chunk) {
    mc::Space s;
    s.name = name;
    s.n = mc::ipow(A->size(), unsigned(L)) * uint64_t(np);
    s.chunk = chunk;
    s.rule = mc::fmt("%s (%zu operations, length %d) recorded at %d points, evaluated there and elsewhere: 8 Jacobian and 4 Hessian pattern methods", rule, A->size(), L, np);
    s.run = [=](uint64_t k) { checkProgram(prog(*A, L, k / uint64_t(np)), int(k % uint64_t(np))); };
    s.describe = [=](uint64_t k) { return dsl::str(prog(*A, L, k / uint64_t(np))) + mc::fmt(" @%d", int(k % uint64_t(np))); };
    spaces.push_back(s);
  }
  void setup() override {
    childInit = [] { for (int i = 0; i < 3; i++) freshTape(65536); };
    cSub = mc::counter("programs_with_active_subscripts");
    cSkip = mc::counter("outside_domain");
    auto cmp = [](AlphaCfg c) { c.cmp = true; return dsl::alphabet(c); };
    Af = cmp(cfgFull()); Am = cmp(cfgMid()); As = cmp(cfgSmall()); At = cmp(cfgTiny());
    std::erase_if(At, [](const Op &o) { return (o.k == CMPR && o.f != 6 && o.f != 15) || (o.k == CB && o.f > CDIV); });
    add("len1", &Af, 1, NP, "every operation, operand form and aliasing pattern", 300);
    if (mc::thorough) { add("len2", &Am, 2, 3, "all pairs of operations", 2000); add("len3", &As, 3, 1, "all triples of representative operations", 2000); }
    else { add("len2", &As, 2, 3, "all pairs of representative operations", 1000); add("len3", &At, 3, 1, "all triples of few operations", 2000); }
    {
      std::vector<int> ns;
      for (int n = 1; n <= 70; n++) ns.push_back(n);
      for (int n : {95, 96, 97, 127, 128, 129, 130, 191, 192, 193, 959, 960, 961, 1000, 1921, 2890}) ns.push_back(n);
      const int nn = int(ns.size());
      static const int MS[] = {1, 2, 5, 32, 33, 65, 961, 2890};
      auto dec = [=](uint64_t k) { mc::Dec d(k); Wide w; w.st = int(d(NST)); w.n = ns[d(uint64_t(nn))]; w.m = MS[d(8)]; return w; };
      mc::Space s;
      s.name = "wide";
      s.n = uint64_t(NST * nn * 8);
      s.chunk = 20; s.cpu_s = 60;
      s.rule = "all numbers of independents 1..70 and around 2, 3, 30, 60 and 90 words of 32 bits x dependents around the word sizes x nine stencils (incl. dense rows, empty rows, functions of sums): patterns must be exact";
      s.describe = [=](uint64_t k) { return str(dec(k)); };
      s.run = [=](uint64_t k) { Wide w = dec(k); if ((w.st > 5 && (w.n > 70 || w.m > 33 || (w.m > 2 && w.n % 8 > 1))) || (w.m > 1000 && w.n > 4 && w.n != 33) || (w.m > 100 && (w.n > 130 || w.st == 3 || w.st == 5)) || (w.n > 1000 && w.m > 5 && (w.st == 3 || w.st == 5)) || (w.n > 300 && w.st == 5 && !mc::thorough)) { mc::trivial(); return; } checkWide(w); };
      spaces.push_back(s);
    }
    {
      const std::vector<Op> *A = mc::thorough ? &Am : &As;
      const uint64_t np = mc::ipow(A->size(), 2);
      mc::Space s;
      s.name = "bit-seeds";
      s.n = np * 2;
      s.chunk = 1000;
      s.rule = "all pairs of operations x 1 or 3 words of arbitrary bit seeds: forward is the union over the columns, reverse the union over the rows of the pattern";
      s.describe = [=](uint64_t k) { return dsl::str(prog(*A, 2, k / 2)) + (k % 2 ? " 3 words" : " 1 word"); };
      s.run = [=](uint64_t k) { checkBits(prog(*A, 2, k / 2), 0, k % 2 ? 3 : 1); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
