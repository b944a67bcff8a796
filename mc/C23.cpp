// C23: misuse is refused with an error and leaves the library usable.
//
// A catalogue of misuse calls (every driver x every wrong argument, recording
// commands out of order, reverse sweeps without the forward sweep they need,
// wrong external functions, ...) is inserted at every position of valid
// histories; every sequence of misuse up to a length is run.  A misuse has to
// throw or to return a negative value, and afterwards all traces, the kept
// sweeps, the current trace and a new recording are compared with the results
// of a history without misuse.
#include "arr.h"
#include "dsl.h"
#include <adolc/advector.h>
#include <adolc/checkpointing.h>
#include <adolc/drivers/drivers.h>
#include <adolc/drivers/odedrivers.h>
#include <adolc/drivers/psdrivers.h>
#include <adolc/drivers/taylor.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/fixpoint.h>
#include <adolc/interfaces.h>
#include <adolc/lie/drivers.h>
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/tapedoc/tapedoc.h>
#include <algorithm>
using arr::M2;
using arr::M3;
using mc::fail;
using mc::fmt;
typedef std::vector<double> V;
static int cThrown, cNegative, cTolerated, cKept, cRefusedKept;

// ------------------------------------------------------------- the traces
enum { TS, TV, TM, TE, NT }; // scalar, vector with a parameter, switches, external function
static const char *trName[] = {"scalar", "vector", "switches", "external"};
static const int DEP[NT] = {1, 2, 1, 2};
static short tag[NT], tagN = -1, tagR = -1, tagQ = -1, tagX = -1;
static bool ready = false;
static ext_diff_fct *edf = nullptr;
static const double PT[3][2] = {{0.4, 0.7}, {0.9, -0.3}, {-0.25, 1.5}};

template <class T> static void body(int t, const T *x, T *y, const T &p) {
  switch (t) {
  case TS: y[0] = sin(x[0]) * x[1] + exp(x[1] * x[0]) / (x[0] * x[0] + 2.0); break;
  case TV: y[0] = x[0] * x[1] * p + cos(x[0]); y[1] = x[1] / (x[0] * x[0] + 1.5) - x[0]; break;
  case TM: y[0] = fmax(x[0] * x[1], x[1] - 0.25) + fabs(x[0] - x[1]) * x[1]; break;
  default: y[0] = x[0] * 2.0 - x[1]; y[1] = exp(x[0]) * x[1]; break;
  }
}
static int efun(short, int, int, double *x, double *y) { y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0]; return 3; }
static ext_diff_fct *regExt(short id) { // no vector and no higher-order functions
  ext_diff_fct *e = reg_ext_fct(id, id, ADOLC_ext_fct(efun));
  e->nestedAdolc = 0;
  e->zos_forward = [](short, int, int, int, double *x, double *y) { return efun(0, 2, 2, x, y); };
  e->fos_forward = [](short, int, int, int, double *x, double *X, double *y, double *Y) {
    Y[0] = X[0] * x[1] + x[0] * X[1]; Y[1] = std::cos(x[1]) * X[1] + X[0]; return efun(0, 2, 2, x, y); };
  e->fos_reverse = [](short, int, int, double *u, double *z, double *x, double *) {
    z[0] += u[0] * x[1] + u[1]; z[1] += u[0] * x[0] + u[1] * std::cos(x[1]); return 3; };
  return e;
}
static std::function<void()> nop = [] {};
template <class F> static V recordT(short id, int t, const double *x, int keep, F mid) {
  V y(2, 0.0);
  trace_on(id, keep);
  {
    currentTape().ensureContiguousLocations(2);
    adouble *X = new adouble[2], Y[2], P;
    X[0] <<= x[0]; X[1] <<= x[1];
    if (t == TV) { pdouble p(1.75); P = adouble(0.0) + p; }
    if (t == TE) { edf = regExt(id); call_ext_fct(edf, 2, X, 2, X); }
    mid();
    body(t, X, Y, P);
    for (int i = 0; i < DEP[t]; i++) Y[i] >>= y[size_t(i)];
    delete[] X;
  }
  trace_off();
  return y;
}
static V revOf(int t, short id, int deg) {
  double u[2] = {1.0, -0.5};
  M2<double> Z(2, size_t(deg + 1));
  V o;
  o.push_back(deg ? hos_reverse(id, DEP[t], 2, deg, u, Z) : fos_reverse(id, DEP[t], 2, u, Z.d.data()));
  for (int i = 0; i < 2 * (deg + 1); i++) o.push_back(Z.d[size_t(i)]);
  return o;
}
static int keepDeg(int t) { return t == TS || t == TV ? 1 : 0; }
static V fwdKeep(int t, short id, const double *x) {
  V o;
  double y[2], X[2] = {x[0], x[1]};
  if (keepDeg(t)) {
    M2<double> A(2, 1), B(2, 1);
    A[0][0] = 0.5; A[1][0] = -1;
    o.push_back(hos_forward(id, DEP[t], 2, 1, 2, X, A, y, B));
    for (int i = 0; i < DEP[t]; i++) o.push_back(B[size_t(i)][0]);
  } else o.push_back(zos_forward(id, DEP[t], 2, 1, X, y));
  for (int i = 0; i < DEP[t]; i++) o.push_back(y[i]);
  return o;
}
static V evalT(int t, short id, const double *x) {
  V o = fwdKeep(t, id, x), r = revOf(t, id, keepDeg(t));
  o.insert(o.end(), r.begin(), r.end());
  double y[2], X[2] = {x[0], x[1]}, J[4];
  double *JJ[2] = {J, J + 2};
  o.push_back(function(id, DEP[t], 2, X, y));
  o.insert(o.end(), y, y + DEP[t]);
  if (t != TE) { o.push_back(jacobian(id, DEP[t], 2, X, JJ)); o.insert(o.end(), J, J + 2 * DEP[t]); }
  if (t == TS) { double h[4] = {0, 0, 0, 0}; double *H[2] = {h, h + 2}; o.push_back(hessian(id, 2, X, H)); o.insert(o.end(), {h[0], h[2], h[3]}); }
  if (t < TM) {
    std::vector<uint *> P(size_t(DEP[t]), nullptr);
    std::span<uint *> sp(P);
    using namespace ADOLC::Sparse;
    o.push_back(jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Safe>(id, DEP[t], 2, X, sp));
    for (auto q : P) { for (uint i = 0; q && i <= q[0]; i++) o.push_back(q[i]); delete[] q; }
  }
  if (t == TM) {
    ADOLC::AbsNormalForm a = ADOLC::AbsNormalForm::fromTape(id);
    o.push_back(ADOLC::abs_normal<ADOLC::UpdateConsts::True>(id, std::span<const double>(X, 2), a));
    for (auto *v : {&a.y, &a.z, &a.cz, &a.cy, &a.Y_storage, &a.J_storage, &a.Z_storage, &a.L_storage}) o.insert(o.end(), v->begin(), v->end());
  }
  return o;
}
struct Base { V fw, rv, ev; };
static Base base[NT][3];
static V recBase[2][3];
static std::string when;
static void same(const char *tg, const V &want, const V &got, const std::string &what) {
  mc::checked();
  if (want.size() != got.size()) fail(tg, "%s: %zu results instead of %zu (%s)", what.c_str(), got.size(), want.size(), when.c_str());
  for (size_t i = 0; i < want.size(); i++)
    if (memcmp(&got[i], &want[i], sizeof(double)) != 0) fail(tg, "%s, result %zu: %.17g instead of %.17g (%s)", what.c_str(), i, got[i], want[i], when.c_str());
}
static void prepare() {
  if (ready) return;
  for (int t = 0; t < NT; t++) {
    tag[t] = createNewTape();
    setCurrentTape(tag[t]);
    if (t == TM) currentTape().enableMinMaxUsingAbs();
    recordT(tag[t], t, PT[0], 0, nop);
    for (int e = 0; e < 3; e++) {
      base[t][e].ev = evalT(t, tag[t], PT[e]);
      base[t][e].fw = fwdKeep(t, tag[t], PT[e]);
      base[t][e].rv = revOf(t, tag[t], keepDeg(t));
    }
  }
  tagN = createNewTape();
  tagQ = createNewTape();
  tagX = createNewTape();
  tagR = createNewTape();
  for (int v = 0; v < 2; v++) for (int e = 0; e < 3; e++) {
    recBase[v][e] = recordT(tagR, v ? TV : TS, PT[e], 1, nop);
    V r = revOf(v ? TV : TS, tagR, 0), s = evalT(v ? TV : TS, tagR, PT[2]);
    recBase[v][e].insert(recBase[v][e].end(), r.begin(), r.end());
    recBase[v][e].insert(recBase[v][e].end(), s.begin(), s.end());
  }
  setCurrentTape(tag[TS]);
  ready = true;
}

// ------------------------------------------------------------- the drivers
struct A { short t; int m, n, d, p, k; };
static size_t sz(int v) { return size_t(std::max(v, 0)); }
static double xs(size_t i) { return 0.3 + 0.25 * double(i); }
static V vec(int n) { V v(sz(n) + 1); for (size_t i = 0; i < v.size(); i++) v[i] = xs(i); v.resize(sz(n)); v.shrink_to_fit(); return v; }
struct Drv {
  const char *name, *par; // which of m n d p k the call has
  int need;               // 0: any trace, 1: one dependent, 2: square
  int rev;                // degree+1 a forward sweep must have kept, 0: not a reverse sweep, -1: d+1
  int kmax;               // keep above: misuse; -1: d+1
  std::function<int(const A &)> f;
};
static std::vector<Drv> D;
static void drivers() {
  auto add = [](const char *n, const char *p, int need, int rev, int kmax, std::function<int(const A &)> f) { D.push_back({n, p, need, rev, kmax, f}); };
  add("zos_forward", "mnk", 0, 0, 1, [](const A &a) { V x = vec(a.n), y = vec(a.m); return zos_forward(a.t, a.m, a.n, a.k, x.data(), y.data()); });
  add("fos_forward", "mnk", 0, 0, 2, [](const A &a) { V x = vec(a.n), X = vec(a.n), y = vec(a.m), Y = vec(a.m); return fos_forward(a.t, a.m, a.n, a.k, x.data(), X.data(), y.data(), Y.data()); });
  add("hos_forward", "mndk", 0, 0, -1, [](const A &a) { V x = vec(a.n), y = vec(a.m); M2<double> X(sz(a.n), sz(a.d), 0.5), Y(sz(a.m), sz(a.d)); return hos_forward(a.t, a.m, a.n, a.d, a.k, x.data(), X, y.data(), Y); });
  add("fov_forward", "mnp", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); M2<double> X(sz(a.n), sz(a.p), 0.5), Y(sz(a.m), sz(a.p)); return fov_forward(a.t, a.m, a.n, a.p, x.data(), X, y.data(), Y); });
  add("hov_forward", "mndp", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); M3<double> X(sz(a.n), sz(a.p), sz(a.d), 0.5), Y(sz(a.m), sz(a.p), sz(a.d)); return hov_forward(a.t, a.m, a.n, a.d, a.p, x.data(), X, y.data(), Y); });
  add("hov_wk_forward", "mndpk", 0, 0, -1, [](const A &a) { V x = vec(a.n), y = vec(a.m); M3<double> X(sz(a.n), sz(a.p), sz(a.d), 0.5), Y(sz(a.m), sz(a.p), sz(a.d)); return hov_wk_forward(a.t, a.m, a.n, a.d, a.k, a.p, x.data(), X, y.data(), Y); });
  add("fov_offset_forward", "mnp", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); M2<double> X(sz(a.n), sz(a.p), 0.5), Y(sz(a.m), sz(a.p)); return fov_offset_forward(a.t, a.m, a.n, a.p, 0, x.data(), X, y.data(), Y); });
  add("fos_reverse", "mn", 0, 1, 0, [](const A &a) { V u = vec(a.m), z = vec(a.n); return fos_reverse(a.t, a.m, a.n, u.data(), z.data()); });
  add("fov_reverse", "mnp", 0, 1, 0, [](const A &a) { M2<double> U(sz(a.p), sz(a.m), 1), Z(sz(a.p), sz(a.n)); return fov_reverse(a.t, a.m, a.n, a.p, U, Z); });
  add("hos_reverse", "mnd", 0, -1, 0, [](const A &a) { V u = vec(a.m); M2<double> Z(sz(a.n), sz(a.d) + 1); return hos_reverse(a.t, a.m, a.n, a.d, u.data(), Z); });
  add("hos_ti_reverse", "mnd", 0, -1, 0, [](const A &a) { M2<double> U(sz(a.m), sz(a.d) + 1, 1), Z(sz(a.n), sz(a.d) + 1); return hos_ti_reverse(a.t, a.m, a.n, a.d, U, Z); });
  add("hov_reverse", "mndp", 0, -1, 0, [](const A &a) { M2<double> U(sz(a.p), sz(a.m), 1); M3<double> Z(sz(a.p), sz(a.n), sz(a.d) + 1); M2<short> nz(sz(a.p), sz(a.n)); return hov_reverse(a.t, a.m, a.n, a.d, a.p, U, Z, nz); });
  add("hov_ti_reverse", "mndp", 0, -1, 0, [](const A &a) { M3<double> U(sz(a.p), sz(a.m), sz(a.d) + 1, 1), Z(sz(a.p), sz(a.n), sz(a.d) + 1); M2<short> nz(sz(a.p), sz(a.n)); return hov_ti_reverse(a.t, a.m, a.n, a.d, a.p, U, Z, nz); });
  add("hos_ov_reverse", "mndp", 0, -2, 0, [](const A &a) { M2<double> U(sz(a.m), sz(a.d) + 1, 1); M3<double> Z(sz(a.p), sz(a.n), sz(a.d) + 1); return hos_ov_reverse(a.t, a.m, a.n, a.d, a.p, U, Z); });
  add("int_forward_safe", "mnp", 0, 0, 0, [](const A &a) { M2<bitword_t> X(sz(a.n), sz(a.p), 1), Y(sz(a.m), sz(a.p)); return int_forward_safe(a.t, a.m, a.n, a.p, X, Y); });
  add("int_forward_tight", "mnp", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); M2<bitword_t> X(sz(a.n), sz(a.p), 1), Y(sz(a.m), sz(a.p)); return int_forward_tight(a.t, a.m, a.n, a.p, x.data(), X, y.data(), Y); });
  add("int_reverse_safe", "mnp", 0, 0, 0, [](const A &a) { M2<bitword_t> X(sz(a.p), sz(a.m), 1), Y(sz(a.p), sz(a.n)); return int_reverse_safe(a.t, a.m, a.n, a.p, X, Y); });
  add("int_reverse_tight", "mnp", 0, 1, 0, [](const A &a) { M2<bitword_t> X(sz(a.p), sz(a.m), 1), Y(sz(a.p), sz(a.n)); return int_reverse_tight(a.t, a.m, a.n, a.p, X, Y); });
#define PATT(fn, rows) add(#fn, rows ? "mn" : "n", rows ? 0 : 1, 0, 0, [](const A &a) { V x = vec(a.n); const int R = rows ? a.m : a.n; std::vector<uint *> P(sz(R) + 1, nullptr); int rc; \
    struct F { std::vector<uint *> &p; ~F() { for (auto q : p) delete[] q; } } g{P}; rc = fn(a.t, rows ? a.m : 1, a.n, x.data(), P.data()); return rc; });
  PATT(indopro_forward_safe, true) PATT(indopro_forward_tight, true) PATT(nonl_ind_forward_safe, false) PATT(nonl_ind_forward_tight, false) PATT(nonl_ind_old_forward_safe, false) PATT(nonl_ind_old_forward_tight, false)
#undef PATT
  add("function", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); return function(a.t, a.m, a.n, x.data(), y.data()); });
  add("gradient", "n", 1, 0, 0, [](const A &a) { V x = vec(a.n), g = vec(a.n); return gradient(a.t, a.n, x.data(), g.data()); });
  add("jacobian", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> J(sz(a.m), sz(a.n)); return jacobian(a.t, a.m, a.n, x.data(), J); });
  add("large_jacobian", "mnp", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); M2<double> J(sz(a.m), sz(a.n)); return large_jacobian(a.t, a.m, a.n, a.p, x.data(), y.data(), J); });
  add("vec_jac", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n), u = vec(a.m), z = vec(a.n); return vec_jac(a.t, a.m, a.n, 0, x.data(), u.data(), z.data()); });
  add("jac_vec", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n), u = vec(a.n), z = vec(a.m); return jac_vec(a.t, a.m, a.n, x.data(), u.data(), z.data()); });
  add("hessian", "n", 1, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> H(sz(a.n), sz(a.n)); return hessian(a.t, a.n, x.data(), H); });
  add("hessian2", "n", 1, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> H(sz(a.n), sz(a.n)); return hessian2(a.t, a.n, x.data(), H); });
  add("hess_vec", "n", 1, 0, 0, [](const A &a) { V x = vec(a.n), v = vec(a.n), z = vec(a.n); return hess_vec(a.t, a.n, x.data(), v.data(), z.data()); });
  add("hess_mat", "np", 1, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> X(sz(a.n), sz(a.p), 0.5), Z(sz(a.n), sz(a.p)); return hess_mat(a.t, a.n, a.p, x.data(), X, Z); });
  add("lagra_hess_vec", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n), v = vec(a.n), u = vec(a.m), z = vec(a.n); return lagra_hess_vec(a.t, a.m, a.n, x.data(), v.data(), u.data(), z.data()); });
  add("jac_solv", "n", 2, 0, 0, [](const A &a) { V x = vec(a.n), b = vec(a.n); return jac_solv((unsigned short)a.t, a.n, x.data(), b.data(), 2); });
  add("tensor_eval", "mndp", 0, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> T(sz(a.m), a.p < 0 || a.d < 0 ? 1 : size_t(binomi(sz(a.p) + sz(a.d), sz(a.d)))), S(sz(a.n), sz(a.p), 0.5); return tensor_eval(a.t, a.m, a.n, a.d, a.p, x.data(), T, S); });
  add("inverse_tensor_eval", "ndp", 2, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> T(sz(a.n), a.p < 0 || a.d < 0 ? 1 : size_t(binomi(sz(a.p) + sz(a.d), sz(a.d)))), S(sz(a.n), sz(a.p), 0.5); return inverse_tensor_eval(a.t, a.n, a.d, a.p, x.data(), T, S); });
  add("forodec", "nd", 2, 0, 0, [](const A &a) { M2<double> X(sz(a.n), sz(a.d) + 1, 0.5); return forodec(a.t, a.n, 1.0, 0, a.d, X); });
  add("tape_doc", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); tape_doc(a.t, a.m, a.n, x.data(), y.data()); return 0; });
  add("lie_scalar", "nd", 3, 0, 0, [](const A &a) { V x = vec(a.n), r = vec(a.d + 1); return lie_scalar(a.t, tag[TS], short(a.n), x.data(), short(a.d), r.data()); });
  add("lie_gradient", "nd", 3, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> r(sz(a.n), sz(a.d + 1)); return lie_gradient(a.t, tag[TS], short(a.n), x.data(), short(a.d), r); });
  add("lie_scalar-output", "nd", 4, 0, 0, [](const A &a) { V x = vec(a.n), r = vec(a.d + 1); return lie_scalar(tag[TV], a.t, short(a.n), x.data(), short(a.d), r.data()); });
  add("lie_covector", "nd", 3, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> r(sz(a.n), sz(a.d + 1)); return lie_covector(a.t, tag[TV], short(a.n), x.data(), short(a.d), r); });
  add("lie_bracket", "nd", 3, 0, 0, [](const A &a) { V x = vec(a.n); M2<double> r(sz(a.n), sz(a.d + 1)); return lie_bracket(a.t, tag[TV], short(a.n), x.data(), short(a.d), r); });
  using namespace ADOLC::Sparse;
  add("jac_pat", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n); std::vector<uint *> P(sz(a.m), nullptr); struct F { std::vector<uint *> &p; ~F() { for (auto q : p) delete[] q; } } g{P}; std::span<uint *> s(P); return jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Tight>(a.t, a.m, a.n, x.data(), s); });
  add("jac_pat-bits", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n); std::vector<uint *> P(sz(a.m), nullptr); struct F { std::vector<uint *> &p; ~F() { for (auto q : p) delete[] q; } } g{P}; std::span<uint *> s(P); return jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Auto>(a.t, a.m, a.n, x.data(), s); });
  add("hess_pat", "n", 1, 0, 0, [](const A &a) { V x = vec(a.n); std::vector<uint *> P(sz(a.n), nullptr); struct F { std::vector<uint *> &p; ~F() { for (auto q : p) delete[] q; } } g{P}; std::span<uint *> s(P); return hess_pat<ControlFlowMode::Safe>(a.t, a.n, x.data(), s); });
  add("sparse_jac", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n); SparseMatrix S; return sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Safe, BitPatternPropagationDirection::Auto, MemoryHandler::Auto>(a.t, a.m, a.n, 0, x.data(), S); });
  add("sparse_jac-row", "mn", 0, 0, 0, [](const A &a) { V x = vec(a.n); SparseMatrix S; return sparse_jac<SparseMethod::BitPattern, CompressionMode::Row, ControlFlowMode::Tight, BitPatternPropagationDirection::Auto, MemoryHandler::Auto>(a.t, a.m, a.n, 0, x.data(), S); });
  add("sparse_hess", "n", 1, 0, 0, [](const A &a) { V x = vec(a.n); int nnz = 0; uint *r = nullptr, *c = nullptr; double *v = nullptr; int opt[2] = {0, 0}; int rc = ::sparse_hess(a.t, a.n, 0, x.data(), &nnz, &r, &c, &v, opt); delete[] r; delete[] c; delete[] v; return rc; });
  // C++ overloads
  add("forward(X**,Y**)", "mndk", 0, 0, -1, [](const A &a) { M2<double> X(sz(a.n), sz(a.d) + 1, 0.5), Y(sz(a.m), sz(a.d) + 1); return forward(a.t, a.m, a.n, a.d, a.k, X, Y); });
  add("forward(X**,y*)", "mndk", 1, 0, -1, [](const A &a) { M2<double> X(sz(a.n), sz(a.d) + 1, 0.5); V y(sz(a.d) + 1); return forward(a.t, a.m, a.n, a.d, a.k, (double **)X, y.data()); });
  add("forward(d,x*,y*)", "mnk", 0, 0, 1, [](const A &a) { V x = vec(a.n), y = vec(a.m); return forward(a.t, a.m, a.n, 0, a.k, x.data(), y.data()); });
  add("forward(x*,y*)", "mnk", 0, 0, 1, [](const A &a) { V x = vec(a.n), y = vec(a.m); return forward(a.t, a.m, a.n, a.k, x.data(), y.data()); });
  add("forward(d,p)", "mndp", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); M3<double> X(sz(a.n), sz(a.p), sz(a.d), 0.5), Y(sz(a.m), sz(a.p), sz(a.d)); return forward(a.t, a.m, a.n, a.d, a.p, x.data(), (double ***)X, y.data(), (double ***)Y); });
  add("forward(p)", "mnp", 0, 0, 0, [](const A &a) { V x = vec(a.n), y = vec(a.m); M2<double> X(sz(a.n), sz(a.p), 0.5), Y(sz(a.m), sz(a.p)); return forward(a.t, a.m, a.n, a.p, x.data(), (double **)X, y.data(), (double **)Y); });
  add("reverse(d,u*,Z**)", "mnd", 0, -1, 0, [](const A &a) { V u = vec(a.m); M2<double> Z(sz(a.n), sz(a.d) + 1); return reverse(a.t, a.m, a.n, a.d, (const double *)u.data(), (double **)Z); });
  add("reverse(d,u,Z**)", "mnd", 1, -1, 0, [](const A &a) { M2<double> Z(sz(a.n), sz(a.d) + 1); return reverse(a.t, a.m, a.n, a.d, 1.0, (double **)Z); });
  add("reverse(u*,z*)", "mn", 0, 1, 0, [](const A &a) { V u = vec(a.m), z = vec(a.n); return reverse(a.t, a.m, a.n, 0, (const double *)u.data(), z.data()); });
  add("reverse(u,z*)", "mn", 1, 1, 0, [](const A &a) { V z = vec(a.n); return reverse(a.t, a.m, a.n, 0, 1.0, z.data()); });
  add("reverse(d,q,U**,Z***)", "mndp", 0, -1, 0, [](const A &a) { M2<double> U(sz(a.p), sz(a.m), 1); M3<double> Z(sz(a.p), sz(a.n), sz(a.d) + 1); return reverse(a.t, a.m, a.n, a.d, a.p, (double **)U, (double ***)Z); });
  add("reverse(d,q,U*,Z***)", "mndp", 1, -1, 0, [](const A &a) { V u(sz(a.p), 1.0); M3<double> Z(sz(a.p), sz(a.n), sz(a.d) + 1); return reverse(a.t, a.m, a.n, a.d, a.p, u.data(), (double ***)Z); });
  add("reverse(q,U**,Z**)", "mnp", 0, 1, 0, [](const A &a) { M2<double> U(sz(a.p), sz(a.m), 1), Z(sz(a.p), sz(a.n)); return reverse(a.t, a.m, a.n, a.p, (double **)U, (double **)Z); });
  add("reverse(0,q,U**,Z**)", "mnp", 0, 1, 0, [](const A &a) { M2<double> U(sz(a.p), sz(a.m), 1), Z(sz(a.p), sz(a.n)); return reverse(a.t, a.m, a.n, 0, a.p, (double **)U, (double **)Z); });
  add("reverse(0,q,U*,Z**)", "mnp", 1, 1, 0, [](const A &a) { V u(sz(a.p), 1.0); M2<double> Z(sz(a.p), sz(a.n)); return reverse(a.t, a.m, a.n, 0, a.p, u.data(), (double **)Z); });
  add("reverse(d,Z***)", "mnd", 0, -1, 0, [](const A &a) { M3<double> Z(sz(a.m), sz(a.n), sz(a.d) + 1); return reverse(a.t, a.m, a.n, a.d, (double ***)Z); });
}

// ------------------------------------------------------------- the misuse
enum Exp { REFUSE, EITHER }; // must be refused; may be refused or accepted
struct Misuse {
  std::string name;
  Exp e;
  std::function<int()> f;
  int uses = 15;     // bits of the traces whose kept sweep it may replace
  bool outside = false, inside = false; // only outside / only inside a recording
  bool core = true;                     // in the pairs of the quick tier
  bool prepFree = true;                 // runs no valid forward sweep of its own
};
static std::vector<Misuse> M;
static void prep(int t, int kind) { // forward sweeps of several kinds
  double x[2] = {0.5, 1.25}, y[2];
  M2<double> X(2, 2, 0.5), Y(2, 2);
  switch (kind) {
  case 0: zos_forward(tag[t], DEP[t], 2, 0, x, y); break;
  case 1: zos_forward(tag[t], DEP[t], 2, 1, x, y); break;
  case 2: hos_forward(tag[t], DEP[t], 2, 2, 3, x, X, y, Y); break;
  case 3: hos_forward(tag[t], DEP[t], 2, 1, 2, x, X, y, Y); break;
  default: { M3<double> P(2, 2, 1, 0.5), Q(2, 2, 1); hov_wk_forward(tag[t], DEP[t], 2, 1, 2, 2, x, P, y, Q); break; }
  }
}
static const char *prepName[] = {"a forward sweep keeping nothing", "a sweep of degree 0", "a sweep of degree 2", "a sweep of degree 1", "a vector sweep of degree 1"};
struct Av { // contiguous adoubles
  adouble *p;
  explicit Av(size_t n, double v = 0.5) { currentTape().ensureContiguousLocations(n); p = new adouble[n]; for (size_t i = 0; i < n; i++) p[i] = v + double(i) * 0.25; }
  ~Av() { delete[] p; }
  Av(const Av &) = delete;
};
static void catalogue() {
  drivers();
  auto add = [](std::string n, Exp e, std::function<int()> f, int uses) -> Misuse & { Misuse q; q.name = std::move(n); q.e = e; q.f = std::move(f); q.uses = uses; M.push_back(q); return M.back(); };
  for (const Drv &d : D) {
    auto has = [&](char c) { return strchr(d.par, c) != nullptr; };
    const bool lie = d.need >= 3;
    std::vector<int> on;
    for (int t : {int(TS), int(TV)}) if (d.need == 0 || (d.need == 1 && t == TS) || ((d.need == 2 || d.need == 3) && t == TV) || (d.need == 4 && t == TS)) on.push_back(t);
    for (int t : on) {
      const auto f = d.f;
      const int dd = has('d') ? 1 : 0;
      const int fk = d.rev == 0 ? -1 : d.rev == -2 ? 4 : d.rev == 1 ? 1 : 3; // the forward sweep a reverse driver needs
      auto ok = [=] { A a{tag[t], DEP[t], 2, dd, 2, d.kmax == 0 ? 0 : 1}; return a; };
      auto call = [&](std::string n, Exp e, std::function<void(A &)> ch) -> Misuse & { Misuse &q = add(fmt("%s of %s trace: ", d.name, trName[t]) + n, e, [=] { if (fk >= 0) prep(t, fk); A a = ok(); ch(a); return f(a); }, lie ? 15 : 1 << t); q.prepFree = fk < 0; return q; };
      if (t == on[0]) { // the trace
        for (short w : {short(999), short(-1), short(30000)}) call(fmt("trace %d", w), REFUSE, [=](A &a) { a.t = w; }).core = w == 999;
        call("trace never recorded", REFUSE, [](A &a) { a.t = tagN; }).core = false;
      }
      if (has('m')) for (int v : {DEP[t] + 1, DEP[t] - 1, 40}) call(fmt("m=%d", v), REFUSE, [=](A &a) { a.m = v; }).core = t == on[0] && v == DEP[t] + 1;
      if (has('n')) for (int v : {3, 1, 0, 40}) call(fmt("n=%d", v), v == 0 && !strcmp(d.name, "hessian") ? EITHER : REFUSE, [=](A &a) { a.n = v; }).core = t == on[0] && v == 3;
      if (has('k')) { call("keep too large", REFUSE, [=](A &a) { a.k = (d.kmax < 0 ? dd + 1 : d.kmax) + 1; }); }
      if (d.rev != 0) for (int k = 1; k <= 4; k++) { // after a forward sweep of another kind (one keeping nothing leaves the kept one usable)
        const bool fits = d.rev == 1 ? k == 1 : d.rev == -1 ? k == 3 : k == 4;
        if (fits) continue;
        add(fmt("%s of %s trace after %s", d.name, trName[t], prepName[k]), REFUSE, [=] { prep(t, k); return f(ok()); }, 1 << t).prepFree = false;
      }
    }
    if (d.need == 1) { const auto f = d.f; add(fmt("%s of a trace with two dependents", d.name), REFUSE, [=] { A a{tag[TV], 1, 2, strchr(d.par, 'd') ? 1 : 0, 2, d.kmax == 0 ? 0 : 1}; return f(a); }, 1 << TV); }
    if (d.need == 2 || d.need == 3) { const auto f = d.f; add(fmt("%s of a trace with one dependent", d.name), REFUSE, [=] { A a{tag[TS], 1, 2, 1, 2, 0}; return f(a); }, 15); }
  }
  // wrong shapes of the C++ overloads
  add("forward(X**,y*) with two dependents", REFUSE, [] { M2<double> X(2, 2, 0.5); V y(2); return forward(tag[TV], 2, 2, 1, 0, (double **)X, y.data()); }, 1 << TV);
  add("forward(d,x*,y*) with degree 1", REFUSE, [] { V x = vec(2), y = vec(1); return forward(tag[TS], 1, 2, 1, 0, x.data(), y.data()); }, 1 << TS);
  add("reverse(d,u,Z**) with two dependents", REFUSE, [] { prep(TV, 3); M2<double> Z(2, 2); return reverse(tag[TV], 2, 2, 1, 1.0, (double **)Z); }, 1 << TV).prepFree = false;
  add("reverse(d,u*,z*) with degree 1", REFUSE, [] { prep(TV, 3); V u = vec(2), z = vec(2); return reverse(tag[TV], 2, 2, 1, (const double *)u.data(), z.data()); }, 1 << TV).prepFree = false;
  add("reverse(d,u,z*) with two dependents", REFUSE, [] { prep(TV, 1); V z = vec(2); return reverse(tag[TV], 2, 2, 0, 1.0, z.data()); }, 1 << TV).prepFree = false;
  add("reverse(d,u,z*) with degree 1", REFUSE, [] { prep(TS, 3); V z = vec(2); return reverse(tag[TS], 1, 2, 1, 1.0, z.data()); }, 1 << TS).prepFree = false;
  add("reverse(d,q,U*,Z***) with two dependents", REFUSE, [] { prep(TV, 3); V u = vec(2); M3<double> Z(2, 2, 2); return reverse(tag[TV], 2, 2, 1, 2, u.data(), (double ***)Z); }, 1 << TV).prepFree = false;
  add("reverse(d,q,U**,Z**) with degree 1", REFUSE, [] { prep(TV, 3); M2<double> U(2, 2, 1), Z(2, 2); return reverse(tag[TV], 2, 2, 1, 2, (double **)U, (double **)Z); }, 1 << TV).prepFree = false;
  add("reverse(d,q,U*,Z**) with two dependents", REFUSE, [] { prep(TV, 1); V u = vec(2); M2<double> Z(2, 2); return reverse(tag[TV], 2, 2, 0, 2, u.data(), (double **)Z); }, 1 << TV).prepFree = false;
  add("reverse(d,q,U*,Z**) with degree 1", REFUSE, [] { prep(TS, 3); V u = vec(2); M2<double> Z(2, 2); return reverse(tag[TS], 1, 2, 1, 2, u.data(), (double **)Z); }, 1 << TS).prepFree = false;
  add("hov_wk_forward of few directions, hos_ov_reverse of many", REFUSE, [] { prep(TS, 4); M2<double> U(1, 2, 1); M3<double> Z(3, 2, 2); return hos_ov_reverse(tag[TS], 1, 2, 1, 3, U, Z); }, 1 << TS).prepFree = false;
  // piecewise linear modes
  for (int t : {int(TS), int(TM)}) {
    const int s = t == TM ? 2 : 1;
    for (int v : {s + 1, s - 1}) {
      if (t == TS && v == 0) continue;
      add(fmt("abs_normal of %s trace, %d switches", trName[t], v), REFUSE, [=] { V x = vec(2), y = vec(1), z = vec(v); M2<double> Y(1, 2), J(1, sz(v)), Z(sz(v), 2), L(sz(v), sz(v)); V cy(1), cz(sz(v)); return abs_normal(tag[t], 1, 2, v, x.data(), y.data(), z.data(), Y, J, Z, L); }, 1 << t);
      add(fmt("indopro_forward_absnormal of %s trace, %d switches", trName[t], v), REFUSE, [=] { V x = vec(2); std::vector<uint *> P(sz(v) + 1, nullptr); struct F { std::vector<uint *> &p; ~F() { for (auto q : p) delete[] q; } } g{P}; return indopro_forward_absnormal(tag[t], 1, 2, v, x.data(), P.data()); }, 1 << t);
      add(fmt("fos_pl_reverse of %s trace, %d switches", trName[t], v), REFUSE, [=] { V x = vec(2), y = vec(1), zz = vec(2), l = vec(1), ls(sz(v), 1.0), r = vec(2), rs(sz(v)); try { zos_pl_forward(tag[t], 1, 2, 1, x.data(), y.data(), zz.data()); } catch (const std::exception &) {} return fos_pl_reverse(tag[t], 1, 2, v, l.data(), ls.data(), r.data(), rs.data()); }, 1 << t).prepFree = false;
    }
  }
  add("zos_pl_forward without enableMinMaxUsingAbs", REFUSE, [] { V x = vec(2), y = vec(1), z = vec(2); return zos_pl_forward(tag[TS], 1, 2, 0, x.data(), y.data(), z.data()); }, 1 << TS);
  add("fos_pl_forward without enableMinMaxUsingAbs", REFUSE, [] { V x = vec(2), X = vec(2), y = vec(1), Y = vec(1), z = vec(2), Z = vec(2); return fos_pl_forward(tag[TS], 1, 2, x.data(), X.data(), y.data(), Y.data(), z.data(), Z.data()); }, 1 << TS);
  add("directional_active_gradient without enableMinMaxUsingAbs", REFUSE, [] { V x = vec(2), d = vec(2), g = vec(2); short sg[2] = {1, 1}; return directional_active_gradient(tag[TS], 2, x.data(), d.data(), g.data(), sg); }, 1 << TS);
  add("zos_pl_forward with m=2", REFUSE, [] { V x = vec(2), y = vec(2), z = vec(2); return zos_pl_forward(tag[TM], 2, 2, 0, x.data(), y.data(), z.data()); }, 1 << TM);
  add("zos_pl_forward with keep=2", REFUSE, [] { V x = vec(2), y = vec(1), z = vec(2); return zos_pl_forward(tag[TM], 1, 2, 2, x.data(), y.data(), z.data()); }, 1 << TM);
  add("AbsNormalForm of an unknown trace", REFUSE, [] { auto a = ADOLC::AbsNormalForm::fromTape(999); return 0; }, 0);
  add("abs_normal into a form of another shape", REFUSE, [] { V x = vec(2); ADOLC::AbsNormalForm a(ADOLC::DenseShape(1, 2, 1)); return ADOLC::abs_normal<ADOLC::UpdateConsts::True>(tag[TM], std::span<const double>(x), a); }, 1 << TM);
  // derivatives an external function does not provide
  add("fov_forward with an external function without it", REFUSE, [] { V x = vec(2), y = vec(2); M2<double> X(2, 2, 0.5), Y(2, 2); return fov_forward(tag[TE], 2, 2, 2, x.data(), X, y.data(), Y); }, 1 << TE);
  add("hos_forward with an external function without it", REFUSE, [] { V x = vec(2), y = vec(2); M2<double> X(2, 2, 0.5), Y(2, 2); return hos_forward(tag[TE], 2, 2, 2, 3, x.data(), X, y.data(), Y); }, 1 << TE);
  add("hov_forward with an external function without it", REFUSE, [] { V x = vec(2), y = vec(2); M3<double> X(2, 2, 2, 0.5), Y(2, 2, 2); return hov_forward(tag[TE], 2, 2, 2, 2, x.data(), X, y.data(), Y); }, 1 << TE);
  add("hov_wk_forward with an external function without it", REFUSE, [] { V x = vec(2), y = vec(2); M3<double> X(2, 2, 2, 0.5), Y(2, 2, 2); return hov_wk_forward(tag[TE], 2, 2, 2, 3, 2, x.data(), X, y.data(), Y); }, 1 << TE);
  add("fov_reverse with an external function without it", REFUSE, [] { prep(TE, 1); M2<double> U(2, 2, 1), Z(2, 2); return fov_reverse(tag[TE], 2, 2, 2, U, Z); }, 1 << TE).prepFree = false;
  add("jacobian with an external function without vector modes", REFUSE, [] { V x = vec(2); M2<double> J(2, 2); return jacobian(tag[TE], 2, 2, x.data(), J); }, 1 << TE);
  add("lagra_hess_vec with an external function without it", REFUSE, [] { V x = vec(2), v = vec(2), u = vec(2), z = vec(2); return lagra_hess_vec(tag[TE], 2, 2, x.data(), v.data(), u.data(), z.data()); }, 1 << TE);
  add("int_forward_safe with an external function", EITHER, [] { M2<bitword_t> X(2, 1, 1), Y(2, 1); return int_forward_safe(tag[TE], 2, 2, 1, X, Y); }, 1 << TE);
  add("fos_forward with a cleared external function", REFUSE, [] { auto s = edf->fos_forward; edf->fos_forward = nullptr; struct G { decltype(s) q; ~G() { edf->fos_forward = q; } } g{s}; V x = vec(2), X = vec(2), y = vec(2), Y = vec(2); return fos_forward(tag[TE], 2, 2, 0, x.data(), X.data(), y.data(), Y.data()); }, 1 << TE);
  add("zos_forward with a cleared external function", REFUSE, [] { auto s = edf->zos_forward; edf->zos_forward = nullptr; struct G { decltype(s) q; ~G() { edf->zos_forward = q; } } g{s}; V x = vec(2), y = vec(2); return zos_forward(tag[TE], 2, 2, 1, x.data(), y.data()); }, 1 << TE);
  add("fos_reverse with a cleared external function", REFUSE, [] { prep(TE, 1); auto s = edf->fos_reverse; edf->fos_reverse = nullptr; struct G { decltype(s) q; ~G() { edf->fos_reverse = q; } } g{s}; V u = vec(2), z = vec(2); return fos_reverse(tag[TE], 2, 2, u.data(), z.data()); }, 1 << TE).prepFree = false;
  // external functions
  add("call_ext_fct of a null pointer", REFUSE, [] { Av x(2), y(2); return call_ext_fct(static_cast<ext_diff_fct *>(nullptr), 2, x.p, 2, y.p); }, 0);
  add("call_ext_fct of a gap in the arguments", REFUSE, [] { Av x(2), y(2); std::swap(x.p[0], x.p[1]); return call_ext_fct(edf, 2, x.p, 2, y.p); }, 0);
  add("call_ext_fct of a gap in the results", REFUSE, [] { Av x(2), y(2); std::swap(y.p[0], y.p[1]); return call_ext_fct(edf, 2, x.p, 2, y.p); }, 0);
  add("call_ext_fct of a null function", REFUSE, [] { ext_diff_fct *e = reg_ext_fct(currentTape().tapeId(), tagN, static_cast<ADOLC_ext_fct>(nullptr)); Av x(2), y(2); return call_ext_fct(e, 2, x.p, 2, y.p); }, 0).inside = true;
  add("call_ext_fct (index) of a null function", REFUSE, [] { ext_diff_fct *e = reg_ext_fct(currentTape().tapeId(), tagN, ADOLC_ext_fct_iArr(nullptr)); Av x(2), y(2); size_t ia[1] = {1}; return call_ext_fct(e, 1, ia, 2, x.p, 2, y.p); }, 0).inside = true;
  add("call_ext_fct (blocks) of a null function", REFUSE, [] { ext_diff_fct_v2 *e = reg_ext_fct(currentTape().tapeId(), tagN, static_cast<ADOLC_ext_fct_v2 *>(nullptr)); Av x(2), y(2); size_t ia[1] = {1}, sz2[1] = {2}; return call_ext_fct(e, 1, ia, 1, 1, sz2, &x.p, sz2, &y.p); }, 0).inside = true;
  add("call_ext_fct (blocks) of a null pointer", REFUSE, [] { Av x(2), y(2); size_t ia[1] = {1}, sz2[1] = {2}; return call_ext_fct(static_cast<ext_diff_fct_v2 *>(nullptr), 1, ia, 1, 1, sz2, &x.p, sz2, &y.p); }, 0);
  add("call_ext_fct of another trace's function", REFUSE, [] { Av x(2), y(2); return call_ext_fct(edf, 2, x.p, 2, y.p); }, 0).inside = true;
  add("call_ext_fct outside of a recording", EITHER, [] { Av x(2), y(2); const int rc = call_ext_fct(edf, 2, x.p, 2, y.p); if (rc != 3 || y.p[0].value() != 0.5 * 0.75 || y.p[1].value() != std::sin(0.75) + 0.5) fail("passive", "a call outside of a recording returns %d and %g %g", rc, y.p[0].value(), y.p[1].value()); return rc; }, 0).outside = true;
  add("checkpointing outside of a recording", EITHER, [] { ADOLC::CP::Context c(tagN, tagX, [](size_t, adouble *s) { adouble p = s[0] * s[1]; s[0] = p; return 0; }); c.setDoubleFct([](size_t, double *s) { s[0] *= s[1]; return 0; }); Av x(2); c.setNumberOfSteps(2); c.setNumberOfCheckpoints(1); c.setDimensionXY(2); c.setInput(x.p); c.setOutput(x.p); c.checkpointing(tagN); if (x.p[0].value() != 0.5 * 0.75 * 0.75) fail("passive", "checkpointing outside of a recording gives %g", x.p[0].value()); return 0; }, 0).outside = true;
  add("checkpointing of another trace while recording", REFUSE, [] { ADOLC::CP::Context c(tagN, tagX, [](size_t, adouble *s) { adouble p = s[0] * s[1]; s[0] = p; return 0; }); c.setDoubleFct([](size_t, double *s) { s[0] *= s[1]; return 0; }); Av x(2); c.setNumberOfSteps(2); c.setNumberOfCheckpoints(1); c.setDimensionXY(2); c.setInput(x.p); c.setOutput(x.p); return c.checkpointing(tagN); }, 0).inside = true;
  add("checkpointing without results", REFUSE, [] { const short t = currentTape().tapeId(); ADOLC::CP::Context c(t, tagX, [](size_t, adouble *s) { s[0] = s[0] * s[1]; return 0; }); c.setDoubleFct([](size_t, double *s) { s[0] *= s[1]; return 0; }); Av x(2); c.setNumberOfSteps(2); c.setNumberOfCheckpoints(1); c.setDimensionXY(2); c.setInput(x.p); c.setOutput(nullptr); return c.checkpointing(t); }, 0).inside = true;
  add("reg_ext_fct on an unknown trace", REFUSE, [] { reg_ext_fct(999, 999, ADOLC_ext_fct(efun)); return 0; }, 0);
  // vector operations
  for (int w = 0; w < 2; w++) {
    add(fmt("vec_copy of a gap in argument %d", w), REFUSE, [=] { Av a(2), b(2); std::swap((w ? b : a).p[0], (w ? b : a).p[1]); adolc_vec_copy(a.p, b.p, 2); return 0; }, 0);
    add(fmt("vec_dot of a gap in argument %d", w), REFUSE, [=] { Av a(2), b(2); std::swap((w ? b : a).p[0], (w ? b : a).p[1]); adouble r = adolc_vec_dot(a.p, b.p, 2); return 0; }, 0);
  }
  for (int w = 0; w < 3; w++)
    add(fmt("vec_axpy of a gap in argument %d", w), REFUSE, [=] { Av a(2), b(2), c(2); adouble s = 2.0; Av &q = w == 0 ? a : w == 1 ? b : c; std::swap(q.p[0], q.p[1]); adolc_vec_axpy(a.p, s, b.p, c.p, 2); return 0; }, 0);
  // recording commands
  add("trace_off without a recording", REFUSE, [] { trace_off(); return 0; }, 0).outside = true;
  add("trace_off(1) without a recording", REFUSE, [] { trace_off(1); return 0; }, 0).outside = true;
  for (short w : {short(999), short(-1)}) {
    add(fmt("trace_on of trace %d", w), REFUSE, [=] { trace_on(w); return 0; }, 0);
    add(fmt("trace_on of trace %d with buffers", w), REFUSE, [=] { trace_on(w, 1, 100, 100, 100, 100, 0); return 0; }, 0);
    add(fmt("setCurrentTape %d", w), REFUSE, [=] { setCurrentTape(w); return 0; }, 0);
    add(fmt("findTape %d", w), REFUSE, [=] { findTape(w); return 0; }, 0);
    add(fmt("tapestats of trace %d", w), REFUSE, [=] { tapestats(w); return 0; }, 0);
    add(fmt("set_param_vec of trace %d", w), REFUSE, [=] { double p[1] = {1}; findTape(w).set_param_vec(w, 1, p); return 0; }, 0);
  }
  add("trace_on of the trace being recorded", REFUSE, [] { trace_on(currentTape().tapeId(), 1); return 0; }, 0).inside = true;
  add("trace_on with buffers of the trace being recorded", REFUSE, [] { trace_on(currentTape().tapeId(), 1, 100, 100, 100, 100, 0); return 0; }, 0).inside = true;
  add("enableMinMaxUsingAbs while recording", REFUSE, [] { currentTape().enableMinMaxUsingAbs(); return 0; }, 0).inside = true;
  add("disableMinMaxUsingAbs while recording", REFUSE, [] { currentTape().disableMinMaxUsingAbs(); return 0; }, 0).inside = true;
  for (const char *what : {"zos_forward", "jacobian", "hessian", "fos_reverse", "jac_pat", "tape_doc", "function"}) {
    std::string w = what;
    add(w + " of the trace being recorded", REFUSE, [=] {
      const short t = currentTape().tapeId();
      A a{t, 1, 2, 0, 1, 0};
      for (const Drv &d : D) if (w == d.name) return d.f(a);
      return 0; }, 0).inside = true;
  }
  for (size_t c : {size_t(0), size_t(2), size_t(1000)}) add(fmt("set_param_vec with %zu parameters", c), REFUSE, [=] { V p(c + 1, 3.0); p.resize(c); p.shrink_to_fit(); findTape(tag[TV]).set_param_vec(tag[TV], c, p.data()); return 0; }, 0);
  add("set_param_vec of a trace without parameters", REFUSE, [] { double p[1] = {3}; findTape(tag[TS]).set_param_vec(tag[TS], 1, p); return 0; }, 0);
  // an exception of the user's function in the middle of a recording
  add("a recording abandoned by an exception", EITHER, [] {
    try { trace_on(tagX, 1); adouble x[2], y; x[0] <<= 1.0; x[1] <<= 2.0; y = x[0] * x[1]; throw std::runtime_error("user"); } catch (const std::runtime_error &) { trace_off(); throw; }
    return 0; }, 0);
  // active subscripting
  for (int v : {1, 7}) add(fmt("advector index %d beyond the end", v), REFUSE, [=] { advector a(2); a[0] = 1.0; a[1] = 2.0; adouble i; i = 1.0 + v; adouble r = a[i]; (void)r; return 0; }, 0);
  for (int v : {1, 7}) add(fmt("assignment to advector index %d beyond the end", v), REFUSE, [=] { advector a(2); a[0] = 1.0; a[1] = 2.0; adouble i; i = 1.0 + v; a[i] = 3.0; return 0; }, 0);
  add("lookupindex out of order", REFUSE, [] { advector a(3); a[0] = 1.0; a[1] = 0.5; a[2] = 2.0; adouble x = 1.5, y = 1.0; adouble r = a.lookupindex(x, y); (void)r; return 0; }, 0);
  add("lookupindex of a negative step", REFUSE, [] { advector a(3); a[0] = 1.0; a[1] = 1.5; a[2] = 2.0; adouble x = 1.5, y = -1.0; adouble r = a.lookupindex(x, y); (void)r; return 0; }, 0);
  // sparse drivers
  using namespace ADOLC::Sparse;
  add("sparse_jac without base point", REFUSE, [] { SparseMatrix S; return sparse_jac<SparseMethod::BitPattern, CompressionMode::Column, ControlFlowMode::Tight, BitPatternPropagationDirection::Auto, MemoryHandler::Auto>(tag[TV], 2, 2, 0, nullptr, S); }, 1 << TV).prepFree = false;
  add("repeated sparse_jac before the first", REFUSE, [] { V x = vec(2); SparseMatrix S; return sparse_jac<SparseMethod::IndexDomains, CompressionMode::Column, ControlFlowMode::Safe, BitPatternPropagationDirection::Auto, MemoryHandler::Auto>(tag[TE], 2, 2, 1, x.data(), S); }, 1 << TE).prepFree = false;
  add("repeated sparse_hess before the first", REFUSE, [] { V x = vec(2); int nnz = 0; uint *r = nullptr, *c = nullptr; double *v = nullptr; int opt[2] = {0, 0}; return ::sparse_hess(tag[TM], 2, 1, x.data(), &nnz, &r, &c, &v, opt); }, 1 << TM).prepFree = false;
  add("sparse_jac with wrong options", EITHER, [] { V x = vec(2); int nnz = 0; uint *r = nullptr, *c = nullptr; double *v = nullptr; int opt[4] = {7, 9, -3, 5}; int rc = ::sparse_jac(tag[TV], 2, 2, 0, x.data(), &nnz, &r, &c, &v, opt); delete[] r; delete[] c; delete[] v; return rc; }, 1 << TV).prepFree = false;
  add("jac_pat with wrong options", EITHER, [] { V x = vec(2); uint *r[2] = {nullptr, nullptr}; int opt[3] = {7, -3, 5}; int rc = ::jac_pat(tag[TV], 2, 2, x.data(), r, opt); delete[] r[0]; delete[] r[1]; return rc; }, 1 << TV).prepFree = false;
  add("hess_pat with wrong options", EITHER, [] { V x = vec(2); uint *r[2] = {nullptr, nullptr}; int opt[2] = {17, 0}; int rc = ::hess_pat(tag[TS], 2, x.data(), r, opt); delete[] r[0]; delete[] r[1]; return rc; }, 1 << TS).prepFree = false;
  // checkpointing
  add("checkpointing without functions", REFUSE, [] { ADOLC::CP::Context c(tagN, tagX, nullptr); Av x(2); c.setNumberOfSteps(2); c.setNumberOfCheckpoints(1); c.setDimensionXY(2); c.setInput(x.p); c.setOutput(x.p); return c.checkpointing(tagN); }, 0);
  add("checkpointing on another trace", REFUSE, [] { ADOLC::CP::Context c(tagN, tagX, [](size_t, adouble *s) { s[0] = s[0] * s[1]; return 0; }); c.setDoubleFct([](size_t, double *s) { s[0] *= s[1]; return 0; }); Av x(2); c.setNumberOfSteps(2); c.setNumberOfCheckpoints(1); c.setDimensionXY(2); c.setInput(x.p); c.setOutput(x.p); return c.checkpointing(tag[TS]); }, 0);
  add("checkpointing without arguments", REFUSE, [] { const short t = currentTape().tapeId(); ADOLC::CP::Context c(t, tagX, [](size_t, adouble *s) { s[0] = s[0] * s[1]; return 0; }); c.setDoubleFct([](size_t, double *s) { s[0] *= s[1]; return 0; }); c.setNumberOfSteps(2); c.setNumberOfCheckpoints(1); c.setDimensionXY(2); c.setInput(nullptr); c.setOutput(nullptr); return c.checkpointing(t); }, 0).inside = true;
}
// ------------------------------------------------------------- histories
static bool mayRefuse[NT];
static int kept[NT]; // evaluation point of the last kept sweep, -1: unknown
static void keepAll() { for (int t = 0; t < NT; t++) { same("forward", base[t][t % 3].fw, fwdKeep(t, tag[t], PT[t % 3]), fmt("forward sweep of %s trace", trName[t])); kept[t] = t % 3; mayRefuse[t] = false; } }
static void misuse(const Misuse &m) {
  mc::transition();
  ValueTape *const cur = currentTapePtr();
  const size_t lives = cur->numLives();
  int rc = 0;
  bool threw = false;
  std::string msg;
  try { rc = m.f(); } catch (const mc::CaseFail &) { throw; } catch (const std::exception &e) { threw = true; msg = e.what(); }
  when = "after " + m.name;
  if (m.e == REFUSE && !threw && rc >= 0) fail("accepted", "%s returns %d", m.name.c_str(), rc);
  if (threw && msg.empty()) fail("message", "%s: the error has no message", m.name.c_str());
  mc::count(threw ? cThrown : rc < 0 ? cNegative : cTolerated);
  if (currentTapePtr() != cur) fail("current", "another trace is current (%s)", when.c_str());
  if (cur->numLives() != lives) fail("lives", "%zu live variables instead of %zu (%s)", cur->numLives(), lives, when.c_str());
  for (int t = 0; t < NT; t++) if ((m.uses >> t & 1) && kept[t] >= 0) {
    if (m.prepFree && (threw || rc < 0)) mayRefuse[t] = true; // right or refused
    else kept[t] = -1;                                        // replaced by the sweeps of the call
  }
}
static void keptAgain() {
  for (int t = 0; t < NT; t++) {
    if (kept[t] < 0) continue;
    V o;
    try { o = revOf(t, tag[t], keepDeg(t)); } catch (const mc::CaseFail &) { throw; } catch (const std::exception &) {
      if (!mayRefuse[t]) throw;
      mc::count(cRefusedKept);
      kept[t] = -1;
      continue;
    }
    if (mayRefuse[t] && o[0] < 0) { mc::count(cRefusedKept); kept[t] = -1; continue; }
    mc::count(cKept);
    same("kept", base[t][kept[t]].rv, o, fmt("reverse sweep of %s trace kept from before", trName[t]));
  }
}
static void world(int e) {
  for (int t = 0; t < NT; t++) { same("evaluation", base[t][e].ev, evalT(t, tag[t], PT[e]), fmt("evaluation of %s trace", trName[t])); kept[t] = -1; }
}
static void fresh(int v, int e, const std::function<void()> &mid) {
  V r = recordT(tagR, v ? TV : TS, PT[e], 1, mid);
  V z = revOf(v ? TV : TS, tagR, 0), s = evalT(v ? TV : TS, tagR, PT[2]);
  r.insert(r.end(), z.begin(), z.end());
  r.insert(r.end(), s.begin(), s.end());
  same("recording", recBase[v][e], r, mid == nullptr ? "new recording" : "recording around the misuse");
}
enum Ctx { IDLE, KEPT, MID, NESTED, NCTX };
static const char *ctxName[] = {"idle", "between forward and reverse", "while recording", "while recording in a recording"};
static void unwind() { // leave a recording behind a failed case
  for (int i = 0; i < 3; i++) try { trace_off(); } catch (const std::exception &) {}
}
static void history(const std::vector<int> &ms, int ctx, int ph) {
  prepare();
  when = "before the misuse";
  for (int t = 0; t < NT; t++) kept[t] = -1;
  try {
    auto run = [&] { for (int i : ms) { misuse(M[size_t(i)]); if (ctx == KEPT) keptAgain(); } };
    mc::trace();
    switch (ctx) {
    case IDLE: run(); break;
    case KEPT: keepAll(); run(); break;
    case MID: fresh(ph & 1, ph % 3, [&] { run(); world((ph + 1) % 3); }); break;
    default: {
      V y = recordT(tagQ, TV, PT[1], 1, [&] { fresh(ph & 1, ph % 3, run); });
      V z = revOf(TV, tagQ, 0), s = evalT(TV, tagQ, PT[2]);
      y.insert(y.end(), z.begin(), z.end());
      y.insert(y.end(), s.begin(), s.end());
      same("recording", recBase[1][1], y, "outer recording");
    }
    }
    world(ph % 3);
    fresh(1 - (ph & 1), (ph + 1) % 3, nop);
    if (currentTapePtr() != &findTape(tag[TS])) fail("current", "another trace is current in the end (%s)", when.c_str());
  } catch (const mc::CaseFail &) { unwind(); ready = false; throw; }
  catch (const std::exception &e) { unwind(); ready = false; fail("unusable", "a valid operation throws (%s): %s", when.c_str(), e.what()); }
}
struct R : mc::Runner {
  void setup() override {
    childInit = [] { ready = false; };
    cThrown = mc::counter("thrown"); cNegative = mc::counter("negative_return"); cTolerated = mc::counter("accepted_borderline");
    cKept = mc::counter("kept_sweeps_used"); cRefusedKept = mc::counter("kept_sweeps_refused");
    catalogue();
    auto fits = [](int i, int ctx) { return !(M[size_t(i)].outside && ctx >= MID) && !(M[size_t(i)].inside && ctx < MID); };
    std::vector<int> all, core;
    for (int i = 0; i < int(M.size()); i++) { all.push_back(i); if (M[size_t(i)].core) core.push_back(i); }
    for (int len = 1; len <= 2; len++) {
      const bool red = len == 2 && !mc::thorough;
      const auto items = std::make_shared<std::vector<int>>(red ? core : all);
      const std::vector<int> ctxs = red ? std::vector<int>{KEPT, NESTED} : std::vector<int>{IDLE, KEPT, MID, NESTED};
      const uint64_t n = items->size();
      const int C = int(ctxs.size());
      mc::Space s;
      s.name = fmt("misuse%d", len); s.n = mc::ipow(n, unsigned(len)) * uint64_t(C); s.chunk = len == 1 ? 16 : 256;
      s.rule = fmt("all sequences of %d of %llu misuse calls x %d positions in a history", len, (unsigned long long)n, C);
      auto dec = [=](uint64_t k, int &c) { mc::Dec d(k); std::vector<int> v; for (int i = 0; i < len; i++) v.push_back((*items)[size_t(d(n))]); c = ctxs[size_t(d(uint64_t(C)))]; return v; };
      s.run = [=](uint64_t k) {
        int c; auto v = dec(k, c);
        for (int i : v) if (!fits(i, c)) { mc::trivial(); return; }
        mc::state(mc::hmix(k, uint64_t(len)));
        history(v, c, int((k / 7) % 6));
      };
      s.describe = [=](uint64_t k) { int c; auto v = dec(k, c); std::string o = ctxName[c]; for (int i : v) o += "; " + M[size_t(i)].name; return o; };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
