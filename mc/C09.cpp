// C09: threads that use their own traces get exactly the sequential results.
//  scheduled: a controlled scheduler runs real threads one at a time and
//   switches at chosen scheduling points (between API calls, between recorded
//   statements, inside callbacks); every schedule up to a number of switches
//   is explored; library globals written by one thread and read by another
//   show up as wrong results.
//  concurrent: the same thread programs run truly concurrently under a
//   happens-before race detector. Threads share no lock and no variable, so a
//   pair without a race has a single Mazurkiewicz trace: its interleavings are
//   all equivalent to the explored one.
#include "dsl.h"
#include "arr.h"
#include "modes.h"
#include <adolc/checkpointing.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/fixpoint.h>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
#include <adolc/drivers/taylor.h>
#include <adolc/drivers/odedrivers.h>
#include <adolc/drivers/psdrivers.h>
#include <adolc/lie/drivers.h>
#include <adolc/advector.h>
#include <adolc/sparse/sparsedrivers.h>
#include <condition_variable>
#include <mutex>
#include <thread>
using mc::fail;
using arr::M2; using arr::M3;
typedef std::vector<double> V;
constexpr int MAXTH = 3;

// ---------------------------------------------------------------- scheduler
struct Sched {
  std::mutex mu;
  std::condition_variable cv;
  int turn = 0, nth = 0, left = 0; // left: steps before the next switch
  bool done[MAXTH] = {};
  std::vector<std::pair<int, int>> plan; // (thread, steps)
  size_t pos = 0;
  int steps[MAXTH] = {};
  void next() { // choose who runs
    while (pos < plan.size()) {
      auto [t, s] = plan[pos++];
      if (!done[t]) { turn = t; left = s; return; }
    }
    for (int t = 0; t < nth; t++) if (!done[t]) { turn = t; left = -1; return; }
    turn = -1;
  }
};
static Sched *sched = nullptr;
static thread_local int me = -1;
static thread_local int nY = 0;
static void Y() {
  nY++;
  if (!sched || me < 0) return;
  std::unique_lock<std::mutex> l(sched->mu);
  sched->steps[me]++;
  if (sched->left > 0 && --sched->left == 0) {
    sched->next();
    sched->cv.notify_all();
  }
  sched->cv.wait(l, [] { return sched->turn == me; });
}

// --------------------------------------------------------- thread programs
static void put(V &o, const double *p, int n) { o.insert(o.end(), p, p + n); }
template <class T> static void put2(V &o, T **p, int n, int m) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) o.push_back(double(p[i][j])); }
static void simple(short t, const double *x, double *y, int keep) {
  trace_on(t, keep);
  Y();
  {
    adouble a = 0.0, b = 0.0, c, d;
    a <<= x[0];
    b <<= x[1];
    Y();
    c = a * b + sin(a);
    Y();
    d = c / (b * b + 2.0);
    for (int i = 0; i < 2; i++) { c = c * d + a; Y(); d -= c * b; }
    c >>= y[0];
    d >>= y[1];
  }
  Y();
  trace_off();
}
static void firstOrder(V &o, short t, const double *x) {
  double y[2], xd[2] = {0.5, -1.5}, yd[2], u[2] = {1, 2}, z[2];
  o.push_back(fos_forward(t, 2, 2, 1, x, xd, y, yd)); put(o, y, 2); put(o, yd, 2);
  Y();
  o.push_back(fos_reverse(t, 2, 2, u, z)); put(o, z, 2);
  Y();
  M2<double> J(2, 2);
  double X[2] = {x[0], x[1]};
  o.push_back(jacobian(t, 2, 2, X, J)); put2<double>(o, J, 2, 2);
  Y();
}
static V pSimple(const double *x) {
  V o;
  short t = createNewTape();
  Y();
  double y[2];
  simple(t, x, y, 1);
  put(o, y, 2);
  firstOrder(o, t, x);
  double x2[2] = {x[0] + 0.5, x[1] - 0.25};
  simple(t, x2, y, 0);
  put(o, y, 2);
  firstOrder(o, t, x2);
  return o;
}
static V pTwoTraces(const double *x) {
  V o;
  short t = createNewTape(), s = createNewTape();
  Y();
  double y[2], x2[2] = {x[1], x[0]};
  trace_on(t);
  {
    adouble a, b, c;
    a <<= x[0];
    b <<= x[1];
    Y();
    simple(s, x2, y, 1); // nested recording
    put(o, y, 2);
    Y();
    c = a * b - exp(a) * y[0];
    a = b + c;
    c >>= y[0];
    a >>= y[1];
  }
  trace_off();
  firstOrder(o, t, x);
  firstOrder(o, s, x2);
  return o;
}
static V pHigher(const double *x) {
  V o;
  short t = createNewTape();
  double y[2];
  simple(t, x, y, 0);
  Y();
  M2<double> X(2, 2), Yv(2, 2), Z(2, 3);
  X[0][0] = 1; X[0][1] = 0.5; X[1][0] = -0.5; X[1][1] = 0.25;
  o.push_back(hos_forward(t, 2, 2, 2, 3, x, X, y, Yv)); put2<double>(o, Yv, 2, 2);
  Y();
  double u[2] = {1, -1};
  o.push_back(hos_reverse(t, 2, 2, 2, u, Z)); put2<double>(o, Z, 2, 3);
  Y();
  M3<double> Z3(2, 2, 3);
  M2<short> nz(2, 2);
  o.push_back(reverse(t, 2, 2, 2, (double ***)Z3, (short **)nz)); // identity weights
  for (int i = 0; i < 2; i++) put2<double>(o, Z3[i], 2, 3);
  Y();
  return o;
}
static void scalarRec(short t, const double *x) {
  trace_on(t);
  {
    adouble a, b, c;
    double y;
    a <<= x[0]; b <<= x[1];
    Y();
    c = a * a * b + sin(b * a);
    c >>= y;
  }
  trace_off();
  Y();
}
static V pScalarFwd(const double *x) {
  V o;
  short t = createNewTape();
  scalarRec(t, x);
  for (int d = 0; d <= 2; d++) {
    M2<double> X(2, 3);
    for (int i = 0; i < 2; i++) { X[i][0] = x[i]; X[i][1] = 1 - i; X[i][2] = 0.5; }
    double y[3] = {};
    o.push_back(forward(t, 1, 2, d, 0, X, y)); put(o, y, d + 1); put2<double>(o, X, 2, d + 1);
    Y();
  }
  double g[2], H[4] = {}; double *Hp[2] = {H, H + 2};
  double X[2] = {x[0], x[1]};
  o.push_back(gradient(t, 2, X, g)); put(o, g, 2);
  Y();
  o.push_back(hessian(t, 2, X, Hp)); put(o, H, 4);
  Y();
  return o;
}
// external function (old style and v2), with a scheduling point inside
static ext_diff_fct *regOld(short id) {
  ext_diff_fct *e = reg_ext_fct(id, id, ADOLC_ext_fct([](short, int, int, double *x, double *y) { Y(); y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0]; return 3; }));
  e->nestedAdolc = 0;
  e->zos_forward = [](short, int, int, int, double *x, double *y) { Y(); y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0]; return 3; };
  e->fos_forward = [](short, int, int, int, double *x, double *X, double *y, double *Yd) {
    Y(); y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0];
    Yd[0] = X[0] * x[1] + x[0] * X[1]; Yd[1] = std::cos(x[1]) * X[1] + X[0]; return 3; };
  e->fov_forward = [](short, int, int, int p, double *x, double **X, double *y, double **Yd) {
    Y(); y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0];
    for (int l = 0; l < p; l++) { Yd[0][l] = X[0][l] * x[1] + x[0] * X[1][l]; Yd[1][l] = std::cos(x[1]) * X[1][l] + X[0][l]; } return 3; };
  e->fos_reverse = [](short, int, int, double *u, double *z, double *x, double *) {
    Y(); z[0] += u[0] * x[1] + u[1]; z[1] += u[0] * x[0] + u[1] * std::cos(x[1]); return 3; };
  e->fov_reverse = [](short, int, int, int q, double **U, double **Z, double *x, double *) {
    Y(); for (int l = 0; l < q; l++) { Z[l][0] += U[l][0] * x[1] + U[l][1]; Z[l][1] += U[l][0] * x[0] + U[l][1] * std::cos(x[1]); } return 3; };
  return e;
}
static V pExt(const double *x) {
  V o;
  short t = createNewTape();
  setCurrentTape(t);
  double y[2];
  trace_on(t, 1);
  {
    currentTape().ensureContiguousLocations(4);
    adouble a[4];
    a[0] <<= x[0]; a[1] <<= x[1];
    const adouble q = a[0] * a[1];
    a[2] = q; a[3] = a[1];
    Y();
    ext_diff_fct *e = regOld(t);
    call_ext_fct(e, 2, a + 2, 2, a);
    Y();
    adouble r = a[0] * a[1], s = a[1] + a[2];
    r >>= y[0]; s >>= y[1];
  }
  trace_off();
  put(o, y, 2);
  Y();
  firstOrder(o, t, x);
  return o;
}
static int v2f(short, size_t, size_t *, size_t, size_t, size_t *, double **x, size_t *, double **y, void *) { Y(); y[0][0] = x[0][0] * x[1][0]; y[0][1] = std::sin(x[0][0]); return 3; }
static V pExt2(const double *x) {
  V o;
  short t = createNewTape();
  setCurrentTape(t);
  double y[2];
  trace_on(t, 1);
  {
    currentTape().ensureContiguousLocations(4);
    adouble a[4];
    a[0] <<= x[0]; a[1] <<= x[1];
    ext_diff_fct_v2 *e = reg_ext_fct(t, t, &v2f);
    e->zos_forward = &v2f;
    e->fos_forward = [](short, size_t, size_t *, size_t, size_t, size_t *, double **x, double **xp, size_t *, double **y, double **yp, void *) {
      Y(); y[0][0] = x[0][0] * x[1][0]; y[0][1] = std::sin(x[0][0]);
      yp[0][0] = xp[0][0] * x[1][0] + x[0][0] * xp[1][0]; yp[0][1] = std::cos(x[0][0]) * xp[0][0]; return 3; };
    e->fos_reverse = [](short, size_t, size_t *, size_t, size_t, size_t *, double **u, size_t *, double **z, double **x, double **, void *) {
      Y(); z[0][0] += u[0][0] * x[1][0] + u[0][1] * std::cos(x[0][0]); z[1][0] += u[0][0] * x[0][0]; return 3; };
    size_t ins[2] = {1, 1}, outs[1] = {2};
    adouble *in[2] = {a, a + 1}, *out[1] = {a + 2};
    Y();
    call_ext_fct(e, 0, nullptr, 2, 1, ins, in, outs, out);
    adouble r = a[2] * a[3], s = a[3] + a[1];
    r >>= y[0]; s >>= y[1];
  }
  trace_off();
  put(o, y, 2);
  double xd[2] = {0.5, -1.5}, yd[2], u[2] = {1, 2}, z[2];
  Y();
  o.push_back(fos_forward(t, 2, 2, 1, x, xd, y, yd)); put(o, y, 2); put(o, yd, 2);
  Y();
  o.push_back(fos_reverse(t, 2, 2, u, z)); put(o, z, 2);
  return o;
}
static int stepA(size_t, adouble *s) { Y(); adouble t = s[0] + 0.1 * s[1]; s[1] = s[1] - 0.1 * sin(t); s[0] = t; return 0; }
static int stepD(size_t, double *s) { Y(); double t = s[0] + 0.1 * s[1]; s[1] = s[1] - 0.1 * std::sin(t); s[0] = t; return 0; }
static V pCheckpoint(const double *x) {
  V o;
  short t = createNewTape(), s = createNewTape();
  setCurrentTape(t);
  double y[2];
  trace_on(t, 1);
  {
    currentTape().ensureContiguousLocations(2);
    adouble a[2];
    a[0] <<= x[0]; a[1] <<= x[1];
    ADOLC::CP::Context c(t, s, stepA);
    c.setDoubleFct(stepD); c.setNumberOfSteps(4); c.setNumberOfCheckpoints(2); c.setDimensionXY(2);
    c.setInput(a); c.setOutput(a); c.setAlwaysRetaping(false);
    Y();
    c.checkpointing(t);
    adouble r = a[0] * a[1], q = a[1] + a[0];
    r >>= y[0]; q >>= y[1];
  }
  trace_off();
  put(o, y, 2);
  double u[2] = {1, 2}, z[2];
  Y();
  o.push_back(fos_reverse(t, 2, 2, u, z)); put(o, z, 2);
  double x2[2] = {x[0] + 0.25, x[1]};
  Y();
  o.push_back(zos_forward(t, 2, 2, 1, x2, y)); put(o, y, 2);
  Y();
  o.push_back(fos_reverse(t, 2, 2, u, z)); put(o, z, 2);
  return o;
}
static int fpD(double *x, double *u, double *y, size_t, size_t) { Y(); y[0] = 0.25 * std::sin(x[0]) + u[0] * x[1] * 0.1 + u[1]; y[1] = 0.25 * std::cos(x[1]) + u[0]; return 0; }
static int fpA(adouble *x, adouble *u, adouble *y, size_t, size_t) { Y(); y[0] = 0.25 * sin(x[0]) + u[0] * x[1] * 0.1 + u[1]; y[1] = 0.25 * cos(x[1]) + u[0]; return 0; }
static double nrm(double *x, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += x[i] * x[i]; return std::sqrt(s); }
static V pFix(const double *x) {
  V o;
  short t = createNewTape(), s = createNewTape();
  setCurrentTape(t);
  double y[2];
  trace_on(t, 1);
  {
    currentTape().ensureContiguousLocations(6);
    adouble a[6];
    a[0] <<= x[0]; a[1] <<= x[1];
    a[2] = 0.0; a[3] = 0.0;
    Y();
    fp_iteration(t, s, fpD, fpA, nrm, nrm, 1e-10, 1e-10, 40, 40, a + 2, a, a + 4, 2, 2);
    Y();
    adouble r = a[4] * a[5], q = a[4] + a[0];
    r >>= y[0]; q >>= y[1];
  }
  trace_off();
  put(o, y, 2);
  double u[2] = {1, 2}, z[2], xd[2] = {1, -1}, yd[2];
  Y();
  o.push_back(fos_reverse(t, 2, 2, u, z)); put(o, z, 2);
  Y();
  o.push_back(fos_forward(t, 2, 2, 1, x, xd, y, yd)); put(o, y, 2); put(o, yd, 2);
  return o;
}
static V pSparse(const double *x) {
  using namespace ADOLC::Sparse;
  V o;
  short t = createNewTape();
  double y[2], X[2] = {x[0], x[1]};
  simple(t, x, y, 0);
  {
    std::vector<uint *> P(2);
    std::span<uint *> sp(P);
    o.push_back(jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Safe, BitPatternPropagationDirection::Auto>(t, 2, 2, X, sp));
    for (auto q : P) { for (uint i = 0; i <= q[0]; i++) o.push_back(q[i]); delete[] q; }
  }
  Y();
  scalarRec(t, x);
  {
    std::vector<uint *> H(2);
    std::span<uint *> sp(H);
    o.push_back(hess_pat<ControlFlowMode::Safe>(t, 2, X, sp));
    for (auto q : H) { for (uint i = 0; i <= q[0]; i++) o.push_back(q[i]); delete[] q; }
  }
  Y();
  int nnz = 0;
  uint *ri = nullptr, *ci = nullptr;
  double *va = nullptr;
  o.push_back(sparse_hess<ControlFlowMode::Safe, RecoveryMethod::Indirect>(t, 2, 0, X, &nnz, &ri, &ci, &va));
  for (int i = 0; i < nnz; i++) { o.push_back(ri[i]); o.push_back(ci[i]); o.push_back(va[i]); }
  free(ri); free(ci); free(va);
  Y();
  return o;
}
static V pTensor(const double *x) {
  V o;
  short t = createNewTape();
  double y[2], X[2] = {x[0], x[1]};
  simple(t, x, y, 0);
  M2<double> S(2, 2), T(2, 6);
  S[0][0] = S[1][1] = 1; S[0][1] = S[1][0] = 0;
  o.push_back(tensor_eval(t, 2, 2, 2, 2, X, T, S)); put2<double>(o, T, 2, 6);
  Y();
  M2<double> T3(2, 4), S1(2, 1); S1[0][0] = 1; S1[1][0] = 0.5;
  o.push_back(tensor_eval(t, 2, 2, 3, 1, X, T3, S1)); put2<double>(o, T3, 2, 4);
  Y();
  for (double *q : {T.r[0], T.r[1]}) std::fill(q, q + 6, 0.0);
  o.push_back(inverse_tensor_eval(t, 2, 2, 2, X, T, S)); put2<double>(o, T, 2, 6);
  Y();
  M2<double> TY(2, 3), TX(2, 3);
  for (int i = 0; i < 2; i++) { TX[i][0] = x[i]; TX[i][1] = TX[i][2] = 0; TY[i][0] = y[i]; TY[i][1] = 1 - 2 * i; TY[i][2] = 0.5; }
  o.push_back(inverse_Taylor_prop(t, 2, 2, TY, TX)); put2<double>(o, TX, 2, 3);
  Y();
  return o;
}
static V pOde(const double *x) {
  V o;
  short t = createNewTape(), s = createNewTape();
  double y[2], X[2] = {x[0], x[1]};
  simple(t, x, y, 0);
  scalarRec(s, x);
  M2<double> Z(2, 4), C(2, 4);
  for (int i = 0; i < 2; i++) Z[i][0] = x[i];
  o.push_back(forode(t, 2, 1.0, 0, 3, Z)); put2<double>(o, Z, 2, 4);
  Y();
  double L[4];
  o.push_back(lie_scalar(t, s, 2, X, 3, L)); put(o, L, 4);
  Y();
  M2<double> G(2, 4);
  o.push_back(lie_gradient(t, s, 2, X, 2, G)); put2<double>(o, G, 2, 3);
  Y();
  M2<double> B(2, 4);
  o.push_back(lie_bracket(t, t, 2, X, 2, B)); put2<double>(o, B, 2, 3);
  Y();
  o.push_back(lie_covector(t, t, 2, X, 2, C)); put2<double>(o, C, 2, 3);
  Y();
  return o;
}
static V pAbs(const double *x) {
  V o;
  short t = createNewTape();
  double y;
  setCurrentTape(t);
  currentTape().enableMinMaxUsingAbs();
  trace_on(t, 0);
  {
    adouble a, b, c;
    a <<= x[0]; b <<= x[1];
    Y();
    c = fabs(a * b - 0.25) + fmax(a, b) * 2.0;
    c >>= y;
  }
  trace_off();
  currentTape().disableMinMaxUsingAbs();
  Y();
  double yy, z[8], xd[2] = {1, -1}, yd, dz[8];
  size_t s = get_num_switches(t);
  o.push_back(double(s));
  o.push_back(fos_pl_forward(t, 1, 2, x, xd, &yy, &yd, z, dz));
  o.push_back(yy); o.push_back(yd);
  put(o, z, int(s));
  Y();
  return o;
}
static V pParam(const double *x) {
  V o;
  short t = createNewTape();
  double y[2];
  trace_on(t);
  {
    adouble a, b, c;
    a <<= x[0]; b <<= x[1];
    pdouble p(1.5), q(0.25);
    Y();
    c = a * p + b * q;
    a = c * c - p;
    c >>= y[0]; a >>= y[1];
  }
  trace_off();
  firstOrder(o, t, x);
  double pv[2] = {x[1], x[0]};
  Y();
  findTape(t).set_param_vec(t, 2, pv);
  firstOrder(o, t, x);
  return o;
}
static V pErrors(const double *x) { // refused calls
  V o;
  short t = createNewTape();
  double y[2];
  simple(t, x, y, 0);
  for (int i = 0; i < 3; i++) {
    try {
      double z[4], u[4] = {1, 1, 1, 1};
      if (i == 0) zos_forward(t, 3, 2, 0, x, z);
      if (i == 1) fos_reverse(t, 2, 2, u, z);
      if (i == 2) { M2<double> Z(2, 3); hos_reverse(t, 2, 2, 2, u, Z); }
      o.push_back(0);
    } catch (std::exception &) { o.push_back(1); }
    Y();
  }
  firstOrder(o, t, x);
  return o;
}
// all kinds of sweeps
template <int FROM, int TO> static V pModes(const double *x) {
  V o, y(2);
  short t = createNewTape();
  simple(t, x, y.data(), 1);
  double x2[2] = {x[0] - 0.125, x[1] + 0.5};
  for (int m = FROM; m <= TO; m++) {
    V r = modes::eval(t, m, x, true, 2, 2);
    Y();
    V q = modes::eval(t, m, x2, true, 2, 2);
    Y();
    o.insert(o.end(), r.begin(), r.end());
    o.insert(o.end(), q.begin(), q.end());
  }
  return o;
}
static V pDrivers(const double *x) {
  V o, y(2);
  short t = createNewTape(), s = createNewTape();
  simple(t, x, y.data(), 0);
  scalarRec(s, x);
  double X[2] = {x[0], x[1]}, v[2] = {0.5, -1}, u[2] = {1, 2}, r[2], h[4];
  M2<double> J(2, 2), H(2, 2), W(2, 2);
  auto in = [&](int i, int j) -> double & { return W[i][j]; };
  in(0, 0) = 1; in(0, 1) = 0.25; in(1, 0) = -2; in(1, 1) = 0.5;
  o.push_back(large_jacobian(t, 2, 2, 1, X, y.data(), J)); put2<double>(o, J, 2, 2); put(o, y.data(), 2);
  Y();
  o.push_back(jac_vec(t, 2, 2, X, v, r)); put(o, r, 2);
  Y();
  o.push_back(vec_jac(t, 2, 2, 0, X, u, r)); put(o, r, 2);
  Y();
  o.push_back(vec_jac(t, 2, 2, 1, X, v, r)); put(o, r, 2);
  o.push_back(lagra_hess_vec(t, 2, 2, X, v, u, h)); put(o, h, 2);
  Y();
  o.push_back(hess_vec(s, 2, X, v, r)); put(o, r, 2);
  Y();
  o.push_back(hess_mat(s, 2, 2, X, W, H)); put2<double>(o, H, 2, 2);
  o.push_back(hessian2(s, 2, X, H)); put(o, H[0], 1); put(o, H[1], 2);
  Y();
  for (unsigned short mode : {0, 1, 2}) { double b[2] = {1, -1}; o.push_back(jac_solv(static_cast<unsigned short>(t), 2, X, b, mode)); put(o, b, 2); Y(); }
  M2<double> XX(2, 5), YY(2, 5);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 5; j++) XX[i][j] = i * 2 - j * 0.5 + 0.25;
  o.push_back(fov_offset_forward(t, 2, 2, 2, 1, X, XX, y.data(), YY)); put2<double>(o, YY, 2, 2);
  Y();
  // patterns
  std::vector<uint *> P(2, nullptr);
  o.push_back(indopro_forward_tight(t, 2, 2, X, P.data())); modes::pat(o, 2, P);
  Y();
  o.push_back(indopro_forward_safe(t, 2, 2, X, P.data())); modes::pat(o, 2, P);
  Y();
  o.push_back(nonl_ind_forward_tight(t, 2, 2, X, P.data())); modes::pat(o, 2, P);
  Y();
  o.push_back(nonl_ind_forward_safe(t, 2, 2, X, P.data())); modes::pat(o, 2, P);
  return o;
}
// active vectors and subscripts, rare statements
static V pVector(const double *x) {
  V o, y(2);
  short t = createNewTape();
  setCurrentTape(t);
  trace_on(t, 1);
  {
    adouble a, b, d, e;
    a <<= x[0]; b <<= x[1];
    advector q(3);
    q[0] = a * b; q[1] = sin(a); q[2] = b;
    Y();
    adouble i = 1.0 + 0.0 * a;
    d = q[i] * a + q[2];
    q[i] += b * a;
    Y();
    e = fmin(d, b) + fmax(a, q[1]) + ceil(a) + fabs(b) + atan2(a, b) + pow(a * a + 1.0, b) + erf(a) + asinh(b) + cbrt(b + 3.0);
    condassign(d, a, b, e);
    adouble w[2] = {a, b}, c[2] = {d, e};
    Y();
    w[0] = w[0] * c[0];
    w[0] >>= y[0]; q[1] >>= y[1];
  }
  trace_off();
  put(o, y.data(), 2);
  firstOrder(o, t, x);
  for (auto n : {TapeInfos::NUM_MAX_LIVES, TapeInfos::NUM_TAYS, TapeInfos::NUM_PARAM}) o.push_back(double(findTape(t).tapestats(n)));
  return o;
}
// piecewise linear drivers
static V pPiecewise(const double *x) {
  V o;
  short t = createNewTape();
  double y;
  setCurrentTape(t);
  currentTape().enableMinMaxUsingAbs();
  trace_on(t, 0);
  {
    adouble a, b, c;
    a <<= x[0]; b <<= x[1];
    Y();
    c = fabs(a * b - 0.25) + fmax(a, b) * 2.0;
    c = c + fabs(c - a);
    c >>= y;
  }
  trace_off();
  currentTape().disableMinMaxUsingAbs();
  Y();
  const int s = int(get_num_switches(t));
  const size_t S = size_t(s);
  double X[2] = {x[0], x[1]}, yy, g[2], d[2] = {1, 0.5}, u[1] = {1}, r[2];
  V z(S), us(S, 0.5), gs(S), cz(S), cy(1);
  M2<double> Yj(1, 2), J(1, S), Z(S, 2), L(S, S);
  o.push_back(abs_normal(t, 1, 2, s, X, &yy, z.data(), Yj, J, Z, L));
  o.push_back(yy); put(o, z.data(), s);
  put2<double>(o, Yj, 1, 2); put2<double>(o, J, 1, s); put2<double>(o, Z, s, 2); put2<double>(o, L, s, s);
  Y();
  std::vector<short> sg(S, 1);
  o.push_back(directional_active_gradient(t, 2, X, d, g, sg.data())); put(o, g, 2); o.insert(o.end(), sg.begin(), sg.end());
  Y();
  o.push_back(zos_pl_forward(t, 1, 2, 1, X, &yy, z.data())); put(o, z.data(), s);
  Y();
  o.push_back(fos_pl_reverse(t, 1, 2, s, u, us.data(), r, gs.data())); put(o, r, 2); put(o, gs.data(), s);
  return o;
}
struct TP { const char *name; V (*f)(const double *); size_t buf; };
static const TP TPs[] = {{"record/first-order", pSimple, 4096}, {"record/first-order on disk", pSimple, 0}, {"two traces on disk", pTwoTraces, 0}, {"higher-order", pHigher, 4096}, {"scalar forward/gradient/hessian", pScalarFwd, 4096},
  {"external function", pExt, 4096}, {"external function on disk", pExt, 0}, {"external function v2", pExt2, 4096}, {"checkpointing", pCheckpoint, 4096}, {"fixed point", pFix, 4096}, {"sparse", pSparse, 4096}, {"tensors", pTensor, 4096}, {"ode/lie", pOde, 4096}, {"piecewise linear", pAbs, 4096}, {"parameters", pParam, 4096}, {"refusals", pErrors, 4096},
  {"vector and tangent sweeps", pModes<modes::ZOS, modes::FOV>, 4096}, {"higher-order reverse", pModes<modes::HOSR, modes::HOVR>, 4096}, {"higher-order vector sweeps", pModes<modes::HOV, modes::WKOV>, 4096}, {"patterns", pModes<modes::JPIDX, modes::JPBR>, 4096},
  {"drivers", pDrivers, 4096}, {"active vectors", pVector, 4096}, {"abs-normal", pPiecewise, 4096}};
enum { NTP = sizeof(TPs) / sizeof(*TPs) };
static const double PT[MAXTH][2] = {{0.4, 0.7}, {-0.3, 1.25}, {0.8, -0.6}};

#ifndef C09_PROGRAMS
struct Base { V v; int steps; std::string err; };
static void body(int th, int p, Base &b) {
  nY = 0;
  try { b.v = TPs[p].f(PT[th]); } catch (std::exception &e) { b.err = e.what(); }
  b.steps = nY;
}
static const Base &baseline(int th, int p) { // the thread alone
  static std::map<int, Base> c;
  auto it = c.find(th * NTP + p);
  if (it != c.end()) return it->second;
  Base &b = c[th * NTP + p];
  std::thread t([&] { body(th, p, b); });
  t.join();
  if (!b.err.empty()) fail("alone", "%s alone: %s", TPs[p].name, b.err.c_str());
  return b;
}
static int rcOf(int p) { return TPs[p].buf == 0; }
static void config(int a, int b) { // buffer sizes are read when a trace is created
  bool small = rcOf(a) || rcOf(b);
  if (small) dsl::adolcrc(6, 60, 8, 4);
  else dsl::adolcrc(4096, 4096, 4096, 4096);
}
static void compare(int th, int p, const Base &got) {
  const Base &w = baseline(th, p);
  mc::checked();
  if (!got.err.empty()) fail("exception", "thread %d (%s): %s", th, TPs[p].name, got.err.c_str());
  if (got.v.size() != w.v.size()) fail("result", "thread %d (%s): %zu results, alone %zu", th, TPs[p].name, got.v.size(), w.v.size());
  for (size_t i = 0; i < w.v.size(); i++)
    if (!(got.v[i] == w.v[i] || (std::isnan(got.v[i]) && std::isnan(w.v[i])))) fail("result", "thread %d (%s) result %zu: %.17g, alone %.17g", th, TPs[p].name, i, got.v[i], w.v[i]);
}
static void runSched(const std::vector<int> &ps, std::vector<std::pair<int, int>> plan) {
  Sched S;
  S.nth = int(ps.size());
  S.plan = std::move(plan);
  std::vector<Base> res(ps.size());
  S.next();
  sched = &S;
  std::vector<std::thread> th;
  for (int i = 0; i < S.nth; i++)
    th.emplace_back([&, i] {
      me = i;
      { std::unique_lock<std::mutex> l(S.mu); S.cv.wait(l, [&] { return S.turn == i; }); }
      body(i, ps[i], res[i]);
      std::unique_lock<std::mutex> l(S.mu);
      S.done[i] = true;
      if (S.turn == i) S.next();
      S.cv.notify_all();
    });
  for (auto &t : th) t.join();
  sched = nullptr;
  uint64_t h = 3;
  for (int i = 0; i < S.nth; i++) { h = mc::hmix(h, uint64_t(ps[i])); mc::transition(uint64_t(S.steps[i])); }
  for (auto &q : S.plan) h = mc::hmix(h, uint64_t(q.first * 1000 + q.second));
  mc::state(h);
  mc::trace();
  for (int i = 0; i < S.nth; i++) compare(i, ps[i], res[i]);
}
static void runFree(const std::vector<int> &ps, int rounds) {
  std::vector<Base> res(ps.size() * size_t(rounds));
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int i = 0; i < int(ps.size()); i++)
    th.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed); // no ordering between the threads
      while (ready.load(std::memory_order_relaxed) < int(ps.size())) ;
      for (int r = 0; r < rounds; r++) body(i, ps[i], res[size_t(r) * ps.size() + size_t(i)]);
    });
  for (auto &t : th) t.join();
  mc::trace();
  mc::transition(ps.size() * size_t(rounds));
  for (int r = 0; r < rounds; r++) for (int i = 0; i < int(ps.size()); i++) {
    mc::state(mc::hmix(uint64_t(ps[i] * 7 + i), uint64_t(r)));
    Base &b = res[size_t(r) * ps.size() + size_t(i)];
    if (r == 0) compare(i, ps[i], b);
    else if (!b.err.empty()) fail("exception", "thread %d (%s): %s", i, TPs[ps[i]].name, b.err.c_str());
  }
}
enum { MAXS = 64 };
// (C29 uses the programs only)
struct R : mc::Runner {
  void setup() override {
#ifdef C09_RACE
    mc::Space s;
    s.name = "race-pairs";
    s.n = NTP * NTP;
    s.chunk = 4;
    s.rule = mc::fmt("all ordered pairs of %d thread programs, each run concurrently in two fresh threads under the happens-before race detector", NTP);
    s.run = [](uint64_t k) { int a = int(k % NTP), b = int(k / NTP); config(a, b); baseline(0, a); baseline(1, b); runFree({a, b}, 2); };
    s.describe = [](uint64_t k) { return mc::fmt("%s || %s", TPs[k % NTP].name, TPs[k / NTP].name); };
    spaces.push_back(s);
    mc::Space q;
    q.name = "race-triples";
    q.n = mc::thorough ? NTP * NTP * NTP : NTP;
    q.chunk = 4;
    q.rule = "triples of thread programs run concurrently";
    q.run = [](uint64_t k) { int a = int(k % NTP), b = int(mc::thorough ? k / NTP % NTP : (k * 5 + 3) % NTP), c = int(mc::thorough ? k / NTP / NTP : (k * 3 + 7) % NTP); config(a, b); if (rcOf(c)) config(c, c); baseline(0, a); baseline(1, b); baseline(2, c); runFree({a, b, c}, 1); };
    q.describe = [](uint64_t k) { return mc::fmt("%s || #%d || #%d", TPs[k % NTP].name, int(mc::thorough ? k / NTP % NTP : (k * 5 + 3) % NTP), int(mc::thorough ? k / NTP / NTP : (k * 3 + 7) % NTP)); };
    spaces.push_back(q);
#else
    // one switch away and back: thread 0 runs i steps, thread 1 runs to its end or j steps, ...
    auto add = [&](const char *name, int stride1, bool two) {
      mc::Space s;
      s.name = name;
      const uint64_t per = two ? uint64_t(MAXS / stride1) * (MAXS / stride1) : MAXS;
      s.n = NTP * NTP * per;
      s.chunk = two ? 400 : 100;
      s.cpu_s = 60;
      s.rule = two ? mc::fmt("all ordered pairs of %d thread programs x schedules with up to three switches (after i steps of the first thread, j steps of the second, then the first to its end), i, j in steps of %d", NTP, stride1)
                   : mc::fmt("all ordered pairs of %d thread programs x all schedules with two switches: i steps of the first thread, all of the second, rest of the first", NTP);
      s.run = [=](uint64_t k) {
        uint64_t q = k % per, pr = k / per;
        int a = int(pr % NTP), b = int(pr / NTP);
        config(a, b);
        int i = two ? int(q % (MAXS / stride1)) * stride1 + 1 : int(q) + 1, j = two ? int(q / (MAXS / stride1)) * stride1 + 1 : 1 << 20;
        int la = baseline(0, a).steps, lb = baseline(1, b).steps;
        if (i > la || (two && j > lb)) { mc::trivial(); return; }
        runSched({a, b}, {{0, i}, {1, j}, {0, 1 << 20}, {1, 1 << 20}});
      };
      s.describe = [=](uint64_t k) { uint64_t q = k % per, pr = k / per; return mc::fmt("%s | %s: ", TPs[pr % NTP].name, TPs[pr / NTP].name) + (two ? mc::fmt("%d steps, %d steps, rest, rest", int(q % (MAXS / stride1)) * stride1 + 1, int(q / (MAXS / stride1)) * stride1 + 1) : mc::fmt("%d steps, all, rest", int(q) + 1)); };
      spaces.push_back(s);
    };
    add("one-preemption", 1, false);
    add("two-preemptions", mc::thorough ? 1 : 8, true);
    // strict alternation
    mc::Space s;
    s.name = "alternation";
    s.n = NTP * NTP * NTP;
    s.chunk = 100;
    s.rule = "all triples of thread programs, switching at every scheduling point (round robin)";
    s.run = [](uint64_t k) {
      int a = int(k % NTP), b = int(k / NTP % NTP), c = int(k / NTP / NTP);
      config(a, b); if (rcOf(c)) config(c, c);
      baseline(0, a); baseline(1, b); baseline(2, c);
      std::vector<std::pair<int, int>> plan;
      for (int i = 0; i < 200; i++) for (int t = 0; t < 3; t++) plan.push_back({t, 1});
      runSched({a, b, c}, plan);
    };
    s.describe = [](uint64_t k) { return mc::fmt("%s | %s | %s alternating", TPs[k % NTP].name, TPs[k / NTP % NTP].name, TPs[k / NTP / NTP].name); };
    spaces.push_back(s);
#endif
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
#endif
