// C18: parameters change without re-recording and act as constants.

#include "modes.h"
#include <unistd.h>
#include <sys/wait.h>
using namespace dsl;
using mc::fail;
using mc::fmt;
using modes::V;
typedef ref::Dual<2> D;
static int cDom, cFlow, cSets;

// operations with a parameter p (and a second one q)
enum PF { A_P, P_A, AMP, PMA, AXP, PXA, ADP, PDA, PPC, CPP, PMC, CMP_, PXC, CXP, PDC, CDP, NEGP, POSP,
          FMIN_AP, FMIN_PA, FMIN_PQ, FMIN_CP, FMIN_PC, FMAX_AP, FMAX_PA, FMAX_PQ, FMAX_CP, FMAX_PC,
          MIN_AP, MIN_PA, MIN_PQ, MIN_CP, MIN_PC, MAX_AP, MAX_PA, MAX_PQ, MAX_CP, MAX_PC,
          POW_AP, POW_PA, POW_PC, ATAN2_PA, ATAN2_AP, LDEXP_P,
          F_EXP, F_LOG, F_LOG10, F_SQRT, F_CBRT, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_ERF, F_ERFC, F_FABS, F_ABS, F_CEIL, F_FLOOR,
          ASGP, CONVP, MOVEP, PLUSEQ, MINUSEQ, TIMESEQ, DIVEQ, OVERW,
          COND_P, COND_A, CONDEQ_P, COND2_P,
          LT_AP, LT_PA, GT_AP, GT_PA, LE_AP, LE_PA, GE_AP, GE_PA, EQ_AP, EQ_PA, NE_AP, NE_PA,
          AV_ASG, AV_PE, AV_ME, AV_TE, AV_DE, AV_IDX, CHAIN, TWICE, NPF };
static const char *pfName[] = {"a+p", "p+a", "a-p", "p-a", "a*p", "p*a", "a/p", "p/a", "(p+c)a", "(c+p)a", "(p-c)a", "(c-p)a", "(p*c)a", "(c*p)a", "(p/c)a", "(c/p)a", "(-p)a", "(+p)a",
  "fmin(a,p)", "fmin(p,a)", "fmin(p,q)a", "fmin(c,p)a", "fmin(p,c)a", "fmax(a,p)", "fmax(p,a)", "fmax(p,q)a", "fmax(c,p)a", "fmax(p,c)a",
  "min(a,p)", "min(p,a)", "min(p,q)a", "min(c,p)a", "min(p,c)a", "max(a,p)", "max(p,a)", "max(p,q)a", "max(c,p)a", "max(p,c)a",
  "pow(a,p)", "pow(p,a)", "pow(p,c)a", "atan2(p,a)", "atan2(a,p)", "ldexp(p)a",
  "exp(p)a", "log(p)a", "log10(p)a", "sqrt(p)a", "cbrt(p)a", "sin(p)a", "cos(p)a", "tan(p)a", "asin(p)a", "acos(p)a", "atan(p)a", "sinh(p)a", "cosh(p)a", "tanh(p)a", "asinh(p)a", "acosh(p)a", "atanh(p)a", "erf(p)a", "erfc(p)a", "fabs(p)a", "abs(p)a", "ceil(p)a", "floor(p)a",
  "=p", "=adouble(p)", "moved p", "+=p", "-=p", "*=p", "/=p", "overwritten by p",
  "condassign(p,..)", "condassign(a,p,..)", "condeqassign(p,..)", "condassign(p,.)",
  "a<p", "p<a", "a>p", "p>a", "a<=p", "p<=a", "a>=p", "p>=a", "a==p", "p==a", "a!=p", "p!=a",
  "v[i]=p", "v[i]+=p", "v[i]-=p", "v[i]*=p", "v[i]/=p", "v[p]", "chain", "p used twice"};
struct POp { int f, d, s, j; };
static std::string str(const POp &o) { return fmt("r%d=%s[a=r%d,p=p%d]", o.d, pfName[o.f], o.s, o.j); }

// T: number type of the program, P: type of the parameters
template <class T, class P> static void pexec(const POp &o, T *r, std::vector<P> &ps) {
  using namespace std;
  constexpr bool act = is_same_v<T, adouble>;
  P &pm = ps[size_t(o.j)];
  const P &p = pm, &q = ps[size_t(1 - o.j)];
  const T &a = r[o.s];
  T *d = &r[o.d];
  auto T_ = [](const P &z) { if constexpr (is_same_v<P, double>) return T(z); else return adouble(z); };
  auto branch = [&](bool b) { if (b) *d = a * 2.0; else *d = a * a + 3.0; };
  switch (o.f) {
  case A_P: *d = a + p; break;
  case P_A: *d = p + a; break;
  case AMP: *d = a - p; break;
  case PMA: *d = p - a; break;
  case AXP: *d = a * p; break;
  case PXA: *d = p * a; break;
  case ADP: *d = a / p; break;
  case PDA: *d = p / a; break;
  case PPC: *d = (p + CC) * a; break;
  case CPP: *d = (CC + p) * a; break;
  case PMC: *d = (p - CC) * a; break;
  case CMP_: *d = (CC - p) * a; break;
  case PXC: *d = (p * CC) * a; break;
  case CXP: *d = (CC * p) * a; break;
  case PDC: *d = (p / CC) * a; break;
  case CDP: *d = (CC / p) * a; break;
  case NEGP: *d = (-p) * a; break;
  case POSP: *d = (+p) * a; break;
  case FMIN_AP: *d = fmin(a, p); break;
  case FMIN_PA: *d = fmin(p, a); break;
  case FMIN_PQ: *d = fmin(p, q) * a; break;
  case FMIN_CP: *d = fmin(CC, p) * a; break;
  case FMIN_PC: *d = fmin(p, CC) * a; break;
  case FMAX_AP: *d = fmax(a, p); break;
  case FMAX_PA: *d = fmax(p, a); break;
  case FMAX_PQ: *d = fmax(p, q) * a; break;
  case FMAX_CP: *d = fmax(CC, p) * a; break;
  case FMAX_PC: *d = fmax(p, CC) * a; break;
  case MIN_AP: if constexpr (act && !is_same_v<P, double>) *d = min(a, p); else *d = fmin(a, p); break;
  case MIN_PA: if constexpr (act && !is_same_v<P, double>) *d = min(p, a); else *d = fmin(p, a); break;
  case MIN_PQ: *d = min(p, q) * a; break;
  case MIN_CP: *d = min(CC, p) * a; break;
  case MIN_PC: *d = min(p, CC) * a; break;
  case MAX_AP: if constexpr (act && !is_same_v<P, double>) *d = max(a, p); else *d = fmax(a, p); break;
  case MAX_PA: if constexpr (act && !is_same_v<P, double>) *d = max(p, a); else *d = fmax(p, a); break;
  case MAX_PQ: *d = max(p, q) * a; break;
  case MAX_CP: *d = max(CC, p) * a; break;
  case MAX_PC: *d = max(p, CC) * a; break;
  case POW_AP: *d = pow(a, p); break;
  case POW_PA: *d = pow(p, a); break;
  case POW_PC: *d = pow(p, CC) * a; break;
  case ATAN2_PA: if constexpr (is_same_v<P, double>) *d = atan2(T_(p), a); else *d = atan2(p, a); break;
  case ATAN2_AP: if constexpr (is_same_v<P, double>) *d = atan2(a, T_(p)); else *d = atan2(a, p); break;
  case LDEXP_P: *d = ldexp(p, 3) * a; break;
#define F(N, f) case N: *d = f(p) * a; break;
  F(F_EXP, exp) F(F_LOG, log) F(F_LOG10, log10) F(F_SQRT, sqrt) F(F_CBRT, cbrt) F(F_SIN, sin) F(F_COS, cos) F(F_TAN, tan) F(F_ASIN, asin) F(F_ACOS, acos) F(F_ATAN, atan)
  F(F_SINH, sinh) F(F_COSH, cosh) F(F_TANH, tanh) F(F_ASINH, asinh) F(F_ACOSH, acosh) F(F_ATANH, atanh) F(F_ERF, erf) F(F_ERFC, erfc) F(F_FABS, fabs) F(F_ABS, abs) F(F_CEIL, ceil) F(F_FLOOR, floor)
#undef F
  case ASGP: *d = p; break;
  case CONVP: { T t = T_(p); *d = t * a + t; break; }
  case MOVEP: { P t(std::move(pm)); *d = a * t; pm = std::move(t); *d += pm; break; }
  case PLUSEQ: *d += p; break;
  case MINUSEQ: *d -= p; break;
  case TIMESEQ: *d *= p; break;
  case DIVEQ: *d /= p; break;
  case OVERW: { T t = a * a; t = p; *d = t; t = a; *d += t; t = q; break; }
  case COND_P: condassign(*d, T_(p) - CC, a, T_(q)); break;
  case COND_A: condassign(*d, a, T_(p), T_(q) * a); break;
  case CONDEQ_P: condeqassign(*d, T_(p) - T_(q), a * 2.0, T_(p)); break;
  case COND2_P: condassign(*d, T_(p) - 0.5, a * T_(q)); break;
  case LT_AP: branch(a < p); break;
  case LT_PA: branch(p < a); break;
  case GT_AP: branch(a > p); break;
  case GT_PA: branch(p > a); break;
  case LE_AP: branch(a <= p); break;
  case LE_PA: branch(p <= a); break;
  case GE_AP: branch(a >= p); break;
  case GE_PA: branch(p >= a); break;
  case EQ_AP: branch(a == p); break;
  case EQ_PA: branch(p == a); break;
  case NE_AP: branch(a != p); break;
  case NE_PA: branch(p != a); break;
  case AV_ASG: case AV_PE: case AV_ME: case AV_TE: case AV_DE: case AV_IDX: {
    T i = a * 0.0 + 1.25;
    if constexpr (act) {
      advector v(3);
      for (size_t k = 0; k < 3; k++) v[k] = r[k] + 1.5;
      switch (o.f) {
      case AV_ASG: v[i] = p; break;
      case AV_PE: v[i] += p; break;
      case AV_ME: v[i] -= p; break;
      case AV_TE: v[i] *= p; break;
      case AV_DE: v[i] /= p; break;
      }
      if (o.f == AV_IDX) { T k = T_(p); *d = adouble(std::as_const(v)[k]) * 2.0; }
      else *d = v[0] * 0.5 + v[1] + v[2] * a;
    } else {
      T v[3] = {r[0] + 1.5, r[1] + 1.5, r[2] + 1.5};
      switch (o.f) {
      case AV_ASG: v[1] = p; break;
      case AV_PE: v[1] += p; break;
      case AV_ME: v[1] -= p; break;
      case AV_TE: v[1] *= p; break;
      case AV_DE: v[1] /= p; break;
      }
      if (o.f == AV_IDX) { double k = p; if (!(k >= 0 && k < 3)) ref::flags.fuzzy = true; else *d = v[size_t(std::trunc(k))] * 2.0; }
      else *d = v[0] * 0.5 + v[1] + v[2] * a;
    }
    break;
  }
  case CHAIN: *d = exp(p * a) / (q + a * a) - p; break;
  case TWICE: *d = p * a + (p - a) * p; break;
  default: abort();
  }
}
struct Step { bool par; Op o; POp p; };
typedef std::vector<Step> PP;
static std::string str(const PP &p) { std::string s; for (auto &t : p) s += (s.empty() ? "" : "; ") + (t.par ? str(t.p) : str(t.o)); return s; }
static const double PV[][2] = {{0.625, 0.75}, {1.375, 0.5}, {0.25, 2.5}, {-0.75, 1.5}, {0, 1}};
constexpr int NPV = 5;
static const double X0[2] = {0.4, 0.7}, X1[2] = {0.55, 0.62};
// branches taken and whether the run stays inside the domain
struct Run { bool ok; std::vector<double> cmp; double y[3]; };
static Run run(const PP &pr, const double *x, const double *pv) {
  Run R{true, {}, {}};
  std::vector<ref::Ev> log;
  ref::evlog = &log;
  ref::flags.clear();
  D r[NR];
  r[0] = x[0]; r[1] = x[1]; r[2] = R2;
  r[0].g[0] = 1; r[1].g[1] = 1;
  std::vector<double> ps{pv[0], pv[1]};
  uint64_t h = 18;
  for (auto &t : pr) {
    double v[NR] = {r[0].v, r[1].v, r[2].v};
    if (!t.par) {
      if (!domOk(t.o, v)) { R.ok = false; break; }
      exec<D>(t.o, r);
    } else {
      double a = v[t.p.s], p = ps[size_t(t.p.j)];
      if ((t.p.f == POW_PA && p < 1e-9) || ((t.p.f == POW_AP) && a < 1e-9)) { R.ok = false; break; }
      if ((t.p.f == POW_PC || t.p.f == F_SQRT || t.p.f == F_CBRT || t.p.f == F_LOG || t.p.f == F_LOG10) && p <= 0) { R.ok = false; break; }
      if ((t.p.f == ATAN2_AP || t.p.f == ATAN2_PA) && (std::fabs(a) < 1e-9 || std::fabs(p) < 1e-9 || std::fabs(std::fabs(a) - std::fabs(p)) < 1e-9)) { R.ok = false; break; }
      if (t.p.f == F_ACOSH && p <= 1) { R.ok = false; break; }
      if ((t.p.f == F_ASIN || t.p.f == F_ACOS || t.p.f == F_ATANH) && std::fabs(p) >= 1) { R.ok = false; break; }
      pexec<D, double>(t.p, r, ps);
    }
    for (auto &e : r) {
      if (!std::isfinite(e.v) || std::fabs(e.v) > 1e5) R.ok = false;
      for (double g : e.g) if (!std::isfinite(g) || std::fabs(g) > 1e5) R.ok = false;
      h = mc::hdouble(h, e.v);
    }
    mc::transition();
    mc::state(h);
  }
  ref::evlog = nullptr;
  if (ref::flags.fuzzy || ref::flags.kink) R.ok = false;
  for (auto &e : log) if (e.k == ref::EV_CMP) R.cmp.push_back(e.sel);
  for (int i = 0; i < NR; i++) R.y[i] = r[i].v;
  return R;
}
template <class P> static void record(short tag, const PP &pr, const double *x, const double *pv, int keep, double *y) {
  setCurrentTape(tag);
  trace_on(tag, keep);
  {
    adouble r[NR];
    r[0] <<= x[0];
    r[1] <<= x[1];
    r[2] = R2;
    std::vector<P> ps;
    ps.reserve(2);
    ps.emplace_back(pv[0]);
    ps.emplace_back(pv[1]);
    for (auto &t : pr) if (t.par) pexec<adouble, P>(t.p, r, ps); else exec<adouble>(t.o, r);
    for (int i = 0; i < NR; i++) r[i] >>= y[i];
  }
  trace_off();
}
static bool same(double a, double b, double tol) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static void cmpv(const char *what, const V &got, const V &want, const char *when) {
  mc::checked();
  if (got.size() != want.size()) fail(what, "%s: %zu results instead of %zu (%s)", what, got.size(), want.size(), when);
  for (size_t i = 0; i < got.size(); i++)
    if (!same(got[i], want[i], 1e-9)) fail(what, "%s: result %zu is %.15g with parameters and %.15g with constants (%s)", what, i, got[i], want[i], when);
}
static short tP = -1, tC = -1;
static bool refused(const PP &pr, int mode) {
  Prog p;
  for (auto &t : pr) {
    if (!t.par) p.push_back(t.o);
    else {
      if (t.p.f == F_CBRT && ((mode >= modes::HOSR && mode <= modes::WKOV) || mode == modes::HVEC)) return true;
      if (t.p.f >= AV_ASG && t.p.f <= AV_IDX && (mode == modes::JPBF || mode == modes::JPBR)) return true;
      if (mode == modes::WKOV && ((t.p.f >= FMIN_AP && t.p.f <= MAX_PC))) return true; // ties are refused
    }
  }
  return modes::refused(p, mode);
}
static bool ill(const PP &pr) { for (auto &t : pr) if (!t.par && t.o.k == UN && (t.o.f == TANH || t.o.f == LOG || t.o.f == SQRT)) return true; return false; }
// which parameter vectors are visited
static void checkProg(const PP &pr, const std::vector<std::pair<int, const double *>> &visits, bool allModes) {
  Run r0 = run(pr, X0, PV[visits[0].first]);
  if (!r0.ok) { mc::count(cDom); mc::trivial(); return; }
  try {
    if (tP < 0) { tP = createNewTape(); setCurrentTape(tP); tC = createNewTape(); }
    double y[NR], yc[NR];
    mc::trace();
    record<pdouble>(tP, pr, X0, PV[visits[0].first], 1, y);
    for (int i = 0; i < NR; i++) if (!same(y[i], r0.y[i], 1e-10)) fail("recorded", "y[%d] is %.15g while recording, %.15g expected", i, y[i], r0.y[i]);
    auto st = tapestats(tP);
    if (st[TapeInfos::NUM_INDEPENDENTS] != 2 || st[TapeInfos::NUM_DEPENDENTS] != 3 || st[TapeInfos::NUM_PARAM] != 2 || findTape(tP).get_num_param() != 2)
      fail("stats", "%zu independents, %zu dependents, %zu parameters", size_t(st[TapeInfos::NUM_INDEPENDENTS]), size_t(st[TapeInfos::NUM_DEPENDENTS]), size_t(st[TapeInfos::NUM_PARAM]));
    // the adjoints available right after recording
    V z(2), zc(2);
    int rc = fos_reverse(tP, 3, 2, modes::W[0], z.data());
    record<double>(tC, pr, X0, PV[visits[0].first], 1, yc);
    int rcc = fos_reverse(tC, 3, 2, modes::W[0], zc.data());
    z.push_back(rc < 0); zc.push_back(rcc < 0);
    cmpv("kept adjoints", z, zc, "right after recording");
    bool first = true;
    for (auto &[pi, x] : visits) {
      if (!first) { findTape(tP).set_param_vec(tP, 2, PV[pi]); mc::count(cSets); }
      first = false;
      Run r = run(pr, x, PV[pi]);
      if (!r.ok) { mc::count(cDom); continue; }
      std::string when = fmt("p=(%g,%g) x=(%g,%g)", PV[pi][0], PV[pi][1], x[0], x[1]);
      if (r.cmp != r0.cmp) { // the recorded branch does not apply: must be reported
        mc::count(cFlow);
        int rz = zos_forward(tP, 3, 2, 0, x, y);
        if (rz != -1) fail("flow", "control flow changes for %s but zos_forward returns %d", when.c_str(), rz);
        continue;
      }
      mc::trace();
      record<double>(tC, pr, x, PV[pi], 0, yc);
      for (int m = 0; m < modes::NMODES; m++) {
        if (refused(pr, m) || (!allModes && m > modes::HOSR && m != modes::JPIDX && m != modes::HVEC)) continue;
        if (ill(pr) && m >= modes::HOSR && m <= modes::WKOV) continue;
        cmpv(modes::modeName[m], modes::eval(tP, m, x, false), modes::eval(tC, m, x, false), when.c_str());
      }
      V yy(3);
      zos_forward(tP, 3, 2, 0, x, yy.data());
      for (size_t i = 0; i < 3; i++) { mc::checked(); if (!same(yy[i], r.y[i], 1e-9)) fail("value", "y[%zu] is %.15g, the program with the new values gives %.15g (%s)", i, yy[i], r.y[i], when.c_str()); }
    }
  } catch (...) { tP = tC = -1; throw; }
}
static PP mk(const POp &p) { return {{true, {}, p}}; }

// ------------------------------------------------------------ histories
// one trace with two parameters, one with three (on which nothing may change)
struct Hist {
  short t[2];
  double p[2][3];
  int kept[2]; // highest degree kept, 0 none; point index
  double kx[2][2];
};
static const int HN[2] = {2, 3};
template <class T, class P> static void hbody(int k, const T *x, const std::vector<P> &p, T *y) {
  using namespace std;
  if (k == 0) { y[0] = sin(p[0] * x[0]) + p[1] * x[1]; y[1] = exp(x[1] - p[0]) * p[1]; }
  else { y[0] = (x[0] + p[2]) * (x[1] * p[0] - p[1]); y[1] = p[1] / (x[0] + 2.0) + cos(p[2] * x[1]); }
}
static void hrec(short tag, int k, const double *pv, const double *x, bool asPar, int keep) {
  setCurrentTape(tag);
  trace_on(tag, keep);
  {
    adouble X[2], Y[2];
    double o;
    X[0] <<= x[0]; X[1] <<= x[1];
    if (asPar) { std::vector<pdouble> p; for (int i = 0; i < HN[k]; i++) p.emplace_back(pv[i]); hbody<adouble, pdouble>(k, X, p, Y); }
    else { std::vector<double> p(pv, pv + HN[k]); hbody<adouble, double>(k, X, p, Y); }
    Y[0] >>= o; Y[1] >>= o;
  }
  trace_off();
}
static const double HP[3][3] = {{0.5, 1.5, -0.25}, {1.25, -0.75, 2}, {-2, 0.125, 0.75}};
struct HCmd { int op, t, a; };
static std::vector<HCmd> hcmds() {
  std::vector<HCmd> A;
  for (int t = 0; t < 2; t++) {
    for (int i = 0; i < 3; i++) A.push_back({0, t, i});       // set parameters
    A.push_back({1, t, 0}); A.push_back({1, t, 1});             // first-order keep forward at two points
    A.push_back({2, t, 0});                                     // reverse
    A.push_back({3, t, 0});                                     // degree-2 keep forward
    A.push_back({4, t, 0});                                     // degree-2 reverse
    A.push_back({5, t, 0});                                     // drivers
    A.push_back({6, t, 0});                                     // pattern, sparse Jacobian with reuse
    A.push_back({7, t, 0});                                     // wrong number of parameters
    A.push_back({8, t, 1}); A.push_back({8, t, 2});             // record again with other parameter values
    A.push_back({9, t, 0});                                     // record something else without parameters on a third trace
  }
  return A;
}
static const char *hName[] = {"set", "fos1", "rev", "hos2", "horev", "drivers", "pattern", "wrong", "record", "other"};
static short hT[3] = {-1, -1, -1};
static void hist(const std::vector<HCmd> &cs) {
  if (hT[0] < 0) { hT[0] = createNewTape(); hT[1] = createNewTape(); hT[2] = createNewTape(); }
  const short tr[2] = {hT[0], hT[1]}, tc = hT[2];
  struct Guard { bool ok = false; ~Guard() { if (!ok) hT[0] = -1; } } guard;
  Hist H{};
  for (int k = 0; k < 2; k++) { H.t[k] = tr[k]; H.kept[k] = 1; for (int i = 0; i < 3; i++) H.p[k][i] = HP[0][i]; H.kx[k][0] = X0[0]; H.kx[k][1] = X0[1]; hrec(tr[k], k, HP[0], X0, true, 1); }
  auto constTape = [&](int k, const double *x) { hrec(tc, k, H.p[k], x, false, 0); };
  uint64_t h = 3;
  for (size_t n = 0; n < cs.size(); n++) {
    const HCmd &c = cs[n];
    const int k = c.t;
    const short t = H.t[k];
    std::string when = fmt("step %zu", n + 1);
    mc::transition();
    mc::trace();
    switch (c.op) {
    case 0: findTape(t).set_param_vec(t, size_t(HN[k]), HP[c.a]); for (int i = 0; i < 3; i++) H.p[k][i] = HP[c.a][i]; H.kept[k] = 0; mc::count(cSets); break;
    case 1: {
      const double *x = c.a ? X1 : X0;
      V a(4), b(4);
      int ra = fos_forward(t, 2, 2, 1, x, modes::XD, &a[0], &a[2]);
      constTape(k, x);
      int rb = fos_forward(tc, 2, 2, 0, x, modes::XD, &b[0], &b[2]);
      a.push_back(ra < 0); b.push_back(rb < 0);
      cmpv("fos_forward", a, b, when.c_str());
      H.kept[k] = 1; H.kx[k][0] = x[0]; H.kx[k][1] = x[1];
      break;
    }
    case 2: {
      V a(2, -7), b(2, -7);
      bool threw = false;
      int ra = -9;
      try { ra = fos_reverse(t, 2, 2, modes::W[0], a.data()); } catch (const std::exception &) { threw = true; }
      if (H.kept[k] == 0) { if (!threw && ra >= 0) fail("stale", "a reverse sweep straight after changing the parameters returned %d and (%g,%g) (%s)", ra, a[0], a[1], when.c_str()); break; }
      if (threw || ra < 0) { if (H.kept[k] != 1) break; fail("reverse", "fos_reverse refused (%d) although values were kept (%s)", ra, when.c_str()); }
      constTape(k, H.kx[k]);
      double y[2];
      zos_forward(tc, 2, 2, 1, H.kx[k], y);
      fos_reverse(tc, 2, 2, modes::W[0], b.data());
      cmpv("fos_reverse", a, b, when.c_str());
      break;
    }
    case 3: case 4: {
      arr::M2<double> X(2, 2), Y(2, 2), Z(2, 3), Yc(2, 2), Zc(2, 3);
      for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 2; j++) X[i][j] = modes::XD[i] + 0.5 * double(j);
      double y[2], yc[2];
      if (c.op == 3) {
        hos_forward(t, 2, 2, 2, 3, X1, X, y, Y);
        constTape(k, X1);
        hos_forward(tc, 2, 2, 2, 0, X1, X, yc, Yc);
        cmpv("hos_forward", Y.d, Yc.d, when.c_str());
        H.kept[k] = 3; H.kx[k][0] = X1[0]; H.kx[k][1] = X1[1];
      } else {
        bool threw = false; int rc = -9;
        try { rc = hos_reverse(t, 2, 2, 2, modes::W[0], Z); } catch (const std::exception &) { threw = true; }
        if (H.kept[k] != 3) { if ((H.kept[k] == 0 || H.kept[k] == 1) && !threw && rc >= 0) fail("stale", "a degree-2 reverse sweep without kept values returned %d (%s)", rc, when.c_str()); break; }
        if (threw || rc < 0) fail("reverse", "hos_reverse refused (%d) although values were kept (%s)", rc, when.c_str());
        constTape(k, X1);
        hos_forward(tc, 2, 2, 2, 3, X1, X, yc, Yc);
        hos_reverse(tc, 2, 2, 2, modes::W[0], Zc);
        cmpv("hos_reverse", Z.d, Zc.d, when.c_str());
      }
      break;
    }
    case 5: {
      constTape(k, X1);
      for (int m : {modes::ZOS, modes::JAC, modes::HVEC, modes::HOV}) cmpv(modes::modeName[m], modes::eval(t, m, X1, true, 2), modes::eval(tc, m, X1, true, 2), when.c_str());
      H.kept[k] = -1; // whatever the drivers left
      break;
    }
    case 6: {
      constTape(k, X1);
      cmpv("pattern", modes::eval(t, modes::JPIDX, X1, true, 2), modes::eval(tc, modes::JPIDX, X1, true, 2), when.c_str());
      for (int rep = 0; rep < 2; rep++) {
        uint *ri = nullptr, *ci = nullptr; double *v = nullptr; int nnz = 0; int op[4] = {0, 0, 0, 0};
        uint *rj = nullptr, *cj = nullptr; double *w = nullptr; int nnc = 0;
        ::sparse_jac(t, 2, 2, rep, X1, &nnz, &ri, &ci, &v, op);
        ::sparse_jac(tc, 2, 2, rep, X1, &nnc, &rj, &cj, &w, op);
        V a(v, v + nnz), b(w, w + nnc);
        for (int i = 0; i < nnz; i++) { a.push_back(ri[i]); a.push_back(ci[i]); }
        for (int i = 0; i < nnc; i++) { b.push_back(rj[i]); b.push_back(cj[i]); }
        cmpv("sparse_jac", a, b, when.c_str());
        delete[] ri; delete[] ci; delete[] v; delete[] rj; delete[] cj; delete[] w;
      }
      H.kept[k] = -1;
      break;
    }
    case 7: {
      for (size_t np : {size_t(0), size_t(HN[k] - 1), size_t(HN[k] + 1)}) {
        bool threw = false;
        double pv[5] = {9, 9, 9, 9, 9};
        try { findTape(t).set_param_vec(t, np, pv); } catch (const std::exception &) { threw = true; }
        if (!threw) fail("wrong-number", "%zu values accepted for %d parameters", np, HN[k]);
      }
      double y[2], w[2];
      if (zos_forward(t, 2, 2, 0, X0, y) < 0) fail("wrong-number", "zos_forward fails after a refused change");
      constTape(k, X0);
      zos_forward(tc, 2, 2, 0, X0, w);
      cmpv("after refusal", V(y, y + 2), V(w, w + 2), when.c_str());
      if (H.kept[k] > 0) H.kept[k] = -1;
      break;
    }
    case 8:
      hrec(t, k, HP[c.a], X1, true, 1);
      for (int i = 0; i < 3; i++) H.p[k][i] = HP[c.a][i];
      H.kept[k] = 1; H.kx[k][0] = X1[0]; H.kx[k][1] = X1[1];
      break;
    case 9: {
      hrec(tc, 1 - k, HP[2], X0, true, 0);
      findTape(tc).set_param_vec(tc, size_t(HN[1 - k]), HP[1]);
      hrec(tc, 1 - k, HP[2], X0, false, 0);
      break;
    }
    }
    for (int q = 0; q < 2; q++) {
      h = mc::hmix(h, uint64_t(H.kept[q] + 1));
      for (double v : H.p[q]) h = mc::hdouble(h, v);
      if (findTape(H.t[q]).get_num_param() != size_t(HN[q])) fail("count", "trace %d reports %zu parameters", q, findTape(H.t[q]).get_num_param());
    }
    mc::state(h);
  }
  // every trace still uses its own parameters
  for (int k = 0; k < 2; k++) {
    double y[2], w[2];
    zos_forward(H.t[k], 2, 2, 0, X0, y);
    constTape(k, X0);
    zos_forward(tc, 2, 2, 0, X0, w);
    cmpv("own parameters", V(y, y + 2), V(w, w + 2), "at the end");
  }
  guard.ok = true;
}

// --------------------------------------------- many parameters, disk, processes
static void manyCase(int np, int vbuf, int order, bool disk) {
  FILE *f = fopen(".adolcrc", "w");
  fprintf(f, "\"OBUFSIZE\" \"16\"\n\"LBUFSIZE\" \"64\"\n\"VBUFSIZE\" \"%d\"\n\"TBUFSIZE\" \"64\"\n", vbuf);
  fclose(f);
  mc::trace();
  // recorded in another process, evaluated here
  short tag = createNewTape();
  auto recIt = [&] {
    setCurrentTape(tag);
    trace_on(tag);
    {
      adouble x[2], y[2];
      double o;
      x[0] <<= 0.4; x[1] <<= 0.7;
      y[0] = 0.0; y[1] = 1.0;
      std::vector<pdouble> p;
      p.reserve(size_t(np));
      if (order == 0) for (int i = 0; i < np; i++) p.emplace_back(0.5 + 0.25 * i);
      for (int i = 0; i < np; i++) {
        if (order) p.emplace_back(0.5 + 0.25 * i);
        size_t j = order == 2 ? size_t(i / 2) : order == 0 ? size_t(np - 1 - i) : size_t(i);
        y[0] += p[j] * x[0] + 0.125 * x[1];
        y[1] = y[1] * 0.5 + sin(p[size_t(i)] * x[1]) * 2.5;
      }
      if (np == 0) y[0] = x[0] + x[1];
      y[0] >>= o; y[1] >>= o;
    }
    trace_off(1);
  };
  auto want = [&](const V &p, const double *x, double *y, double J[2][2]) {
    D X[2], Y[2];
    X[0] = x[0]; X[1] = x[1]; X[0].g[0] = 1; X[1].g[1] = 1;
    Y[0] = 0.0; Y[1] = 1.0;
    for (int i = 0; i < np; i++) {
      size_t j = order == 2 ? size_t(i / 2) : order == 0 ? size_t(np - 1 - i) : size_t(i);
      Y[0] += p[j] * X[0] + 0.125 * X[1];
      Y[1] = Y[1] * 0.5 + sin(p[size_t(i)] * X[1]) * 2.5;
      mc::transition();
    }
    if (np == 0) Y[0] = X[0] + X[1];
    for (int i = 0; i < 2; i++) { y[i] = Y[i].v; for (int j = 0; j < 2; j++) J[i][j] = Y[i].g[j]; }
  };
  recIt();
  if (disk) { // forget what is in memory about the parameters: they are read from disk
    delete[] findTape(tag).paramstore();
    findTape(tag).paramstore(nullptr);
  }
  V p(size_t(np) + 1);
  for (int v = 0; v < 4; v++) {
    for (int i = 0; i < np; i++) p[size_t(i)] = v == 0 || v == 3 ? 0.5 + 0.25 * i : v == 1 ? 2 - 0.125 * i : -0.5 + 0.0625 * i * i;
    if (v) findTape(tag).set_param_vec(tag, size_t(np), p.data());
    const double x[2] = {0.4 + 0.1 * v, 0.7 - 0.2 * v};
    double yw[2], Jw[2][2], y[2], z[2];
    want(p, x, yw, Jw);
    for (int rep = 0; rep < 2; rep++) {
      if (zos_forward(tag, 2, 2, 1, x, y) < 0) fail("rc", "zos_forward failed");
      for (int i = 0; i < 2; i++) { mc::checked(); if (!same(y[i], yw[i], 1e-9)) fail("value", "y[%d] is %.15g instead of %.15g (change %d)", i, y[i], yw[i], v); }
      for (int i = 0; i < 2; i++) {
        double u[2] = {double(i == 0), double(i == 1)};
        fos_reverse(tag, 2, 2, u, z);
        for (int j = 0; j < 2; j++) { mc::checked(); if (!same(z[j], Jw[i][j], 1e-9)) fail("adjoint", "J[%d][%d] is %.15g instead of %.15g (change %d)", i, j, z[j], Jw[i][j], v); }
      }
    }
    auto st = tapestats(tag);
    if (st[TapeInfos::NUM_PARAM] != size_t(np) || st[TapeInfos::NUM_INDEPENDENTS] != 2) fail("stats", "%zu parameters, %zu independents", size_t(st[TapeInfos::NUM_PARAM]), size_t(st[TapeInfos::NUM_INDEPENDENTS]));
    mc::state(mc::hmix(mc::hmix(uint64_t(np), uint64_t(vbuf)), uint64_t(v * 3 + order)));
  }
  unlink(".adolcrc");
}
// ------------------------------------------- where and when parameters are made
// a: number made before trace_on, b: inside, c: inside a nested recording on another trace, then d more on the outer
static void creation(int a, int b, int c, int d, int again) {
  short t1 = createNewTape(), t2 = createNewTape();
  mc::trace(2);
  for (int rnd = 0; rnd < 1 + again; rnd++) {
    setCurrentTape(t1);
    std::vector<pdouble> P;
    P.reserve(16);
    int k = 0;
    auto val = [&](int i) { return 1 + 0.5 * i + rnd; };
    for (int i = 0; i < a; i++, k++) P.emplace_back(val(k));
    const int n1 = a + b + d;
    trace_on(t1);
    {
      adouble x, y;
      double o;
      x <<= 2.0;
      y = x * x;
      for (int i = 0; i < b; i++, k++) P.emplace_back(val(k));
      if (c) {
        setCurrentTape(t2);
        trace_on(t2);
        {
          adouble u, w;
          double q;
          u <<= 3.0;
          w = 0.0;
          std::vector<pdouble> Q;
          Q.reserve(8);
          for (int i = 0; i < c; i++) Q.emplace_back(10.0 + i);
          for (int i = 0; i < c; i++) w += Q[size_t(i)] * u * double(i + 1);
          w >>= q;
        }
        trace_off();
        setCurrentTape(t1);
      }
      for (int i = 0; i < d; i++, k++) P.emplace_back(val(k));
      for (int i = 0; i < n1; i++) {
        mc::checked();
        if (P[size_t(i)].value() != val(i)) fail("pvalue", "parameter %d has the value %g instead of %g", i, P[size_t(i)].value(), val(i));
        y += P[size_t(i)] * x * double(i + 1);
      }
      y >>= o;
    }
    trace_off();
    auto wantV = [&](const V &p, double x) { double y = x * x; for (int i = 0; i < n1; i++) y += p[size_t(i)] * x * (i + 1); return y; };
    V p(size_t(n1) + 1);
    for (int i = 0; i < n1; i++) p[size_t(i)] = val(i);
    for (int s = 0; s < 3; s++) {
      if (s) { for (int i = 0; i < n1; i++) p[size_t(i)] = s * 3 - i * 0.75; findTape(t1).set_param_vec(t1, size_t(n1), p.data()); }
      if (c) { V q(static_cast<size_t>(c)); for (int i = 0; i < c; i++) q[size_t(i)] = s + i; findTape(t2).set_param_vec(t2, size_t(c), q.data()); }
      double x = 1.5 + s, y = 0, g = 0, u = 1;
      if (zos_forward(t1, 1, 1, 1, &x, &y) < 0) fail("rc", "zos_forward failed");
      mc::checked();
      if (!same(y, wantV(p, x), 1e-12)) fail("value", "%g instead of %g with %d+%d+%d parameters, %d of another trace, round %d change %d", y, wantV(p, x), a, b, d, c, rnd, s);
      fos_reverse(t1, 1, 1, &u, &g);
      double gw = 2 * x; for (int i = 0; i < n1; i++) gw += p[size_t(i)] * (i + 1);
      if (!same(g, gw, 1e-12)) fail("gradient", "%g instead of %g", g, gw);
      if (c) {
        double w = 0; for (int i = 0; i < c; i++) w += (s + i) * x * (i + 1);
        zos_forward(t2, 1, 1, 0, &x, &y);
        if (!same(y, w, 1e-12)) fail("other-value", "%g instead of %g on the other trace", y, w);
      }
      mc::transition();
    }
    if (findTape(t1).get_num_param() != size_t(n1)) fail("count", "%zu parameters instead of %d", findTape(t1).get_num_param(), n1);
    if (c && findTape(t2).get_num_param() != size_t(c)) fail("count", "%zu parameters instead of %d on the other trace", findTape(t2).get_num_param(), c);
    mc::state(mc::hmix(mc::hmix(uint64_t(n1), uint64_t(c)), uint64_t(rnd)));
  }
}

// the mantissa is a passive number: its exponent is not differentiated
static void passive(int form, int pi) {
  const short t = createNewTape();
  const double pv = HP[pi][0], xv = 1.75 - pi;
  int e = 0, eu = 0;
  auto arg = [&](double x, double p) { return form == 0 ? x : form == 1 ? p : form == 2 ? x * p : form == 3 ? x + 1.5 : p - x; };
  const double man = std::frexp(arg(xv, pv), &e);
  setCurrentTape(t);
  trace_on(t, 1);
  {
    adouble x, y, m;
    double o;
    x <<= xv;
    pdouble p(pv);
    switch (form) {
    case 0: m = frexp(x, &eu); break;
    case 1: m = frexp(p, &eu); break;
    case 2: m = frexp(x * p, &eu); break;
    case 3: m = frexp(x + 1.5, &eu); break;
    default: m = frexp(p - x, &eu);
    }
    if (m.value() != man || eu != e) fail("frexp", "%g,%d instead of %g,%d", m.value(), eu, man, e);
    y = m * x + p;
    y >>= o;
  }
  trace_off();
  for (double x : {xv, 0.25, -3.0}) {
    double y, g, u = 1;
    zos_forward(t, 1, 1, 1, &x, &y);
    fos_reverse(t, 1, 1, &u, &g);
    mc::checked(2);
    mc::transition();
    if (!same(y, man * x + pv, 1e-14)) fail("frexp", "the trace gives %g instead of %g", y, man * x + pv);
    if (!same(g, man, 1e-14)) fail("frexp", "derivative %g instead of %g", g, man);
  }
  mc::trace();
  mc::state(mc::hmix(uint64_t(form), uint64_t(pi)));
}

struct R : mc::Runner {
  std::vector<Op> Ad;
  std::vector<POp> Pf, Pm, Pt;
  std::vector<HCmd> H;
  void add(const char *name, uint64_t n, uint64_t chunk, const char *rule, std::function<PP(uint64_t)> mkp, std::vector<std::vector<std::pair<int, const double *>>> vs, bool all) {
    mc::Space s;
    const size_t nv = vs.size();
    s.name = name; s.n = n * nv; s.chunk = chunk;
    s.rule = fmt("%s (%llu programs, %zu sequences of parameter changes)", rule, (unsigned long long)n, nv);
    s.run = [=](uint64_t k) { checkProg(mkp(k / nv), vs[k % nv], all); };
    s.describe = [=](uint64_t k) { std::string t = ::str(mkp(k / nv)) + " p:"; for (auto &v : vs[k % nv]) t += fmt("%d", v.first); return t; };
    spaces.push_back(s);
  }
  void setup() override {
    childInit = [] { tP = tC = -1; hT[0] = -1; };
    cDom = mc::counter("outside_domain");
    cFlow = mc::counter("control_flow_changed_by_parameter");
    cSets = mc::counter("parameter_changes");
    Ad = alphabet(cfgTiny());
    for (int f = 0; f < NPF; f++) {
      for (int d = 0; d < 3; d++) for (int s = 0; s < 3; s++) for (int j = 0; j < 2; j++) Pf.push_back({f, d, s, j});
      for (auto [d, s] : {std::pair{0, 0}, {2, 0}, {0, 2}}) Pm.push_back({f, d, s, (d + s) % 4 ? 1 : 0});
      Pt.push_back({f, 0, 0, 0}); Pt.push_back({f, 2, 0, 1});
    }
    std::vector<std::vector<std::pair<int, const double *>>> all, few, one;
    for (int i = 0; i < NPV; i++) { std::vector<std::pair<int, const double *>> v{{i, X0}}; for (int j = 1; j <= NPV; j++) v.push_back({(i + j) % NPV, j % 2 ? X1 : X0}); all.push_back(v); }
    few = {{{0, X1}, {1, X0}, {3, X1}}, {{2, X0}, {0, X1}}};
    one = {{{0, X1}, {2, X1}, {1, X0}}};
    auto F = Pf, M = Pm, T = Pt;
    auto A = Ad;
    add("len1", F.size(), 60, "every operation with a parameter, all aliasing patterns", [=](uint64_t k) { return mk(F[k]); }, all, true);
    std::vector<Op> B = mc::thorough ? alphabet(cfgSmall()) : A;
    add("then", M.size() * B.size(), 200, "a parameter operation followed by any operation", [=](uint64_t k) { PP p = mk(M[k % M.size()]); p.push_back({false, B[k / M.size()], {}}); return p; }, one, mc::thorough);
    add("after", M.size() * B.size(), 200, "any operation followed by a parameter operation", [=](uint64_t k) { PP p = {{false, B[k / M.size()], {}}}; p.push_back({true, {}, M[k % M.size()]}); return p; }, one, mc::thorough);
    add("two", T.size() * T.size(), 200, "all pairs of parameter operations with two parameters", [=](uint64_t k) { PP p = mk(T[k % T.size()]); p.push_back({true, {}, T[k / T.size()]}); return p; }, mc::thorough ? few : one, mc::thorough);
    H = hcmds();
    auto HH = H;
    for (int depth = 1; depth <= (mc::thorough ? 4 : 3); depth++) {
      mc::Space s;
      s.name = fmt("hist%d", depth); s.n = mc::ipow(HH.size(), unsigned(depth)); s.chunk = 300;
      s.rule = fmt("all histories of %d commands from %zu (set, forward, reverse, drivers, patterns, record again, refused changes) over two traces with parameters", depth, HH.size());
      auto dec = [=](uint64_t k) { std::vector<HCmd> v; for (int i = 0; i < depth; i++) { v.push_back(HH[k % HH.size()]); k /= HH.size(); } return v; };
      s.run = [=](uint64_t k) { hist(dec(k)); };
      s.describe = [=](uint64_t k) { std::string t; for (auto &c : dec(k)) t += fmt("%s%s(t%d,%d)", t.empty() ? "" : " ", hName[c.op], c.t, c.a); return t; };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      const int NN = mc::thorough ? 60 : 26, NV = mc::thorough ? 30 : 12;
      s.name = "many"; s.n = uint64_t(NN) * NV * 3 * 2; s.chunk = 100;
      s.rule = "numbers of parameters x value buffer sizes x orders of creation and use, with the parameters in memory or read back from disk, four changes";
      s.run = [=](uint64_t k) { mc::Dec d(k); int n = int(d(NN)), v = 6 + int(d(NV)), o = int(d(3)); manyCase(n, v, o, d(2)); };
      s.describe = [=](uint64_t k) { mc::Dec d(k); int n = int(d(NN)), v = 6 + int(d(NV)), o = int(d(3)); return fmt("%d parameters V%d order%d disk%d", n, v, o, int(d(2))); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "passive"; s.n = 15; s.chunk = 15;
      s.rule = "mantissa of variables, parameters and expressions, evaluated at other points";
      s.run = [=](uint64_t k) { passive(int(k % 5), int(k / 5)); };
      s.describe = [=](uint64_t k) { return fmt("form%d point%d", int(k % 5), int(k / 5)); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "creation"; s.n = 3 * 3 * 3 * 3 * 2; s.chunk = 20;
      s.rule = "parameters made before, inside, around a nested recording with parameters of its own; recorded once or twice";
      s.run = [=](uint64_t k) { mc::Dec d(k); int a = int(d(3)), b = int(d(3)), c = int(d(3)), e = int(d(3)); creation(a, b, c, e, int(d(2))); };
      s.describe = [=](uint64_t k) { mc::Dec d(k); int a = int(d(3)), b = int(d(3)), c = int(d(3)), e = int(d(3)); return fmt("before%d inside%d nested%d later%d again%d", a, b, c, e, int(d(2))); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
