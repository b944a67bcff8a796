// C25: Lie-derivative drivers against iterated differentiation along the field.
#include <functional>
#include "mpoly.h"
#include "dsl.h"
#include "arr.h"
#include <adolc/interfaces.h>
#include <adolc/lie/drivers.h>
using namespace dsl;
using mc::fail;
using mc::fmt;
using arr::M2;
using arr::M3;
using ref::MP;
typedef std::vector<double> V;
constexpr double Q = -77.125;
static int cDomain, cFlow, cKink;

// ------------------------------------------------------------- functions
enum { DENSE, MIXED, LINEAR, POLY, TRIG, CONST, BRANCH, NKIND };
static const char *kindName[] = {"dense", "mixed", "linear", "poly", "trig", "const", "branch"};
static bool positive(const adouble &x) { return x > 0; }
template <class T> bool positive(const T &x) { return ref::val(x) > 0; }
template <class T> void body(int kind, int m, int n, const T *x, T *y) {
  using namespace std;
  using namespace ref;
  for (int i = 0; i < m; i++) {
    const T &a = x[i % n], &b = x[(i + 1) % n];
    switch (kind) {
    case DENSE: {
      T s = a * 0.5;
      for (int j = 0; j < n; j++) s = s + x[j] * (0.125 * ((i * 3 + j * 5) % 7) - 0.25);
      y[i] = sin(s) + s * a * 0.5 + a;
      break;
    }
    case MIXED: y[i] = i == 0 ? exp(a * 0.5) + b * b : i == 1 ? a / (b + 3.0) + 2.0 * a : i == 2 ? 1.0 * a : a * b * x[0] + a; break;
    case LINEAR: y[i] = a * (1.5 + i) - b * 0.25 + 1.5; break;
    case POLY: y[i] = a * b * (1.0 + i) - x[0] * x[n - 1] * a * 0.5 + 0.75; break;
    case TRIG: y[i] = sqrt(a * a + 1.0) + cos(b * 0.75) * (1.0 + i) + a; break;
    case CONST: y[i] = x[0] * 0.0 + (1.25 - 0.5 * i); break;
    default:
      if (positive(x[0])) y[i] = a * 1.5 + b * b; else y[i] = a - b;
    }
  }
}
constexpr int NW = 12;
static const double PT[3][NW] = {{0.5, 0.75, -0.25, 1.25, -0.5, 0.625, 0.375, -0.125, 0.25, 1.0, -0.75, 0.875}, {0.125, -0.5, 1.5, 0.25, 0.6875, -0.25, 0.75, 0.5, -0.625, 0.375, 1.125, -1.0}, {-0.75, 0.3125, 0.4375, -0.75, 1.0, 0.5, -0.375, 0.625, 0.25, -0.125, 0.75, 0.5}};
template <class F> void rec(short tag, int m, int n, const double *x, F f) {
  setCurrentTape(tag);
  trace_on(tag);
  {
    std::vector<adouble> X(static_cast<size_t>(n)), Y(static_cast<size_t>(m));
    double o;
    for (size_t j = 0; j < X.size(); j++) X[j] <<= x[j];
    f(X.data(), Y.data());
    for (auto &y : Y) y >>= o;
  }
  trace_off();
}
static short tF = -1, tH = -1, tG = -1;
static void tapes() { if (tF < 0) { tF = createNewTape(); tH = createNewTape(); tG = createNewTape(); } }
struct Reset { bool ok = false; ~Reset() { if (!ok) tF = -1; } };
typedef std::function<void(const MP *, MP *)> FM;

// ------------------------------------------------------------- definition
static MP diff(const MP &a, int j) {
  MP r;
  int xj = 0;
  for (int q = 1; q < MP::N; q++) { int s = 0; for (int e : MP::ex[size_t(q)]) s += e; if (s == 1 && MP::ex[size_t(q)][size_t(j)] == 1) xj = q; }
  if (MP::d == 0) return r;
  for (int i = 0; i < MP::N; i++) { const int k = MP::mul[size_t(i * MP::N + xj)]; if (k >= 0) r.c[size_t(i)] = (MP::ex[size_t(i)][size_t(j)] + 1) * a.c[size_t(k)]; }
  return r;
}
typedef std::vector<MP> VM;
struct Want { bool ok; std::vector<std::vector<V>> g; std::vector<V> s; double scale; };
static VM eval(const FM &f, int m, int n, const double *x) {
  VM X(static_cast<size_t>(n)), Y(static_cast<size_t>(m));
  for (int i = 0; i < n; i++) { X[size_t(i)] = x[i]; for (size_t q = 1; q < size_t(MP::N); q++) { int s = 0; for (int e : MP::ex[q]) s += e; if (s == 1 && MP::ex[q][size_t(i)] == 1) X[size_t(i)].c[q] = 1; } }
  f(X.data(), Y.data());
  return Y;
}
static double grad(const MP &a, int j) { return diff(a, j).c[0]; }
static double gMax;
static bool sane(const VM &v) { for (auto &a : v) for (size_t i = 0; i < size_t(MP::N); i++) { if (!std::isfinite(a.c[i]) || std::fabs(a.c[i]) > 1e7) return false; gMax = std::max(gMax, std::fabs(a.c[i])); } return true; }
// fields of the requested kind: 0 scalars, 1 covectors, 2 vectors
static bool iterate(int type, int n, int m, int d, const double *x, const FM &f, const FM &h, std::vector<VM> &out) {
  MP::setup(n, std::min(5, d + 1));
  ref::flags.clear();
  gMax = 1;
  VM F = eval(f, n, n, x), H = eval(h, m, n, x);
  out.clear();
  if (ref::flags.kink) { mc::count(cKink); return false; }
  if (!sane(F) || !sane(H)) { mc::count(cDomain); return false; }
  for (int k = 0;; k++) {
    out.push_back(H);
    if (k == d) return true;
    VM N(static_cast<size_t>(m));
    for (size_t i = 0; i < size_t(m); i++)
      for (int j = 0; j < n; j++) {
        N[i] = N[i] + diff(H[i], j) * F[size_t(j)];
        if (type == 1) N[i] = N[i] + H[size_t(j)] * diff(F[size_t(j)], int(i));
        if (type == 2) N[i] = N[i] - diff(F[i], j) * H[size_t(j)];
      }
    H = N;
    if (!sane(H)) { mc::count(cDomain); return false; }
  }
}
static double tolOf(int d) { return d <= 2 ? 1e-11 : d <= 4 ? 1e-9 : 1e-8; }
static void near(double got, double want, double tol, const char *tag, const char *when, int i, int j, int k) {
  mc::checked();
  if (!(std::fabs(got - want) <= tol)) fail(tag, "entry [%d][%d] of order %d is %.15g instead of %.15g (%s)", i, j, k, got, want, when);
}
// var: 0 C functions, 1 overloads, 2 single output if m == 1 (C), 3 single output (overload)
static void outputs(short F, short H, int n, int m, int d, int var, const double *x, const FM &f, const FM &h, const char *when, double slack = 1, bool grads = true) {
  std::vector<VM> w;
  if (!iterate(0, n, m, d, x, f, h, w)) return;
  const double tol = tolOf(d) * slack * gMax * 10;
  const size_t M = size_t(m), N = size_t(n), D = size_t(d) + 1;
  V xa(x, x + n);
  const short sn = short(n), sm = short(m), sd = short(d);
  const bool one = m == 1 && var >= 2, over = var % 2 == 1;
  {
    M2<double> R(M + 1, D, Q);
    V r(D + 1, Q);
    mc::transition();
    const int rc = one ? (over ? lie_scalar(F, H, sn, xa.data(), sd, r.data()) : lie_scalarc(F, H, sn, xa.data(), sd, r.data())) : (over ? lie_scalar(F, H, sn, sm, xa.data(), sd, R) : lie_scalarcv(F, H, sn, sm, xa.data(), sd, R));
    if (rc < 0) fail("rc", "the driver for scalars returned %d (%s)", rc, when);
    if (xa != V(x, x + n)) fail("input", "the driver for scalars changed its argument (%s)", when);
    for (int i = 0; i < m; i++) for (int k = 0; k <= d; k++) near(one ? r[size_t(k)] : R[size_t(i)][k], w[size_t(k)][size_t(i)].c[0], tol, "scalar", when, i, 0, k);
    if (r.back() != Q || R.d.back() != Q) fail("overrun", "the element after the result is overwritten (%s)", when);
  }
  if (d > 4 || !grads) return;
  M3<double> R(M, N, D, Q);
  M2<double> r(N + 1, D, Q);
  mc::transition();
  const int rc = one ? (over ? lie_gradient(F, H, sn, xa.data(), sd, r) : lie_gradientc(F, H, sn, xa.data(), sd, r)) : (over ? lie_gradient(F, H, sn, sm, xa.data(), sd, R) : lie_gradientcv(F, H, sn, sm, xa.data(), sd, R));
  if (rc < 0) fail("rc-gradient", "the driver for gradients returned %d (%s)", rc, when);
  if (xa != V(x, x + n)) fail("input", "the driver for gradients changed its argument (%s)", when);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int k = 0; k <= d; k++) near(one ? r[size_t(j)][k] : R[size_t(i)][j][k], grad(w[size_t(k)][size_t(i)], j), tol * 10, "gradient", when, i, j, k);
  if (R.d.back() != Q || r.d.back() != Q) fail("overrun", "the element after the result is overwritten (%s)", when);
}
static void fields(int type, short F, short G, int n, int d, const double *x, const FM &f, const FM &g, const char *when, double slack = 1) {
  std::vector<VM> w;
  if (!iterate(type, n, n, d, x, f, g, w)) return;
  const double tol = tolOf(d) * slack * gMax * 10;
  const size_t N = size_t(n), D = size_t(d) + 1;
  V xa(x, x + n);
  M2<double> R(N + 1, D, Q);
  mc::transition();
  const int rc = type == 1 ? lie_covector(F, G, short(n), xa.data(), short(d), R) : lie_bracket(F, G, short(n), xa.data(), short(d), R);
  const char *tag = type == 1 ? "covector" : "bracket";
  if (rc < 0) fail(type == 1 ? "rc-covector" : "rc-bracket", "the driver returned %d (%s)", rc, when);
  if (xa != V(x, x + n)) fail("input", "the driver changed its argument (%s)", when);
  for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++) near(R[size_t(i)][k], w[size_t(k)][size_t(i)].c[0], tol, tag, when, i, 0, k);
  if (R.d.back() != Q) fail("overrun", "the row after the result is overwritten (%s)", when);
}
static FM fam(int kind, int m, int n) { return [=](const MP *X, MP *Y) { body<MP>(kind, m, n, X, Y); }; }
static void recF(short tag, int kind, int m, int n, const double *x) { rec(tag, m, n, x, [=](const adouble *X, adouble *Y) { body<adouble>(kind, m, n, X, Y); }); }
static void outCase(int kf, int kh, int n, int m, int d, int var, int pt) {
  tapes();
  Reset g;
  recF(tF, kf, n, n, PT[pt]);
  recF(tH, kh, m, n, PT[pt]);
  mc::trace(2);
  outputs(tF, tH, n, m, d, var, PT[pt], fam(kf, n, n), fam(kh, m, n), "recorded point");
  mc::state(mc::hmix(mc::hmix(uint64_t(kf), uint64_t(kh)), uint64_t(((n * 4 + m) * 8 + d) * 4 + pt)));
  if (kf != BRANCH && kh != BRANCH) outputs(tF, tH, n, m, d, var, PT[(pt + 1) % 3], fam(kf, n, n), fam(kh, m, n), "another point");
  g.ok = true;
}
static void fieldCase(int kf, int kg, int n, int d, int pt) {
  tapes();
  Reset g;
  recF(tF, kf, n, n, PT[pt]);
  recF(tG, kg, n, n, PT[pt]);
  mc::trace(2);
  for (int type = 1; type <= 2; type++) {
    fields(type, tF, tG, n, d, PT[pt], fam(kf, n, n), fam(kg, n, n), "recorded point");
    if (kf != BRANCH && kg != BRANCH) fields(type, tF, tG, n, d, PT[(pt + 1) % 3], fam(kf, n, n), fam(kg, n, n), "another point");
  }
  mc::state(mc::hmix(mc::hmix(uint64_t(kf), uint64_t(kg)), uint64_t((n * 8 + d) * 4 + pt)));
  g.ok = true;
}

// ------------------------------------------------------------- high orders
// f(x) = A x: all derivatives are known in closed form
static const double MA[3][3][3] = {{{0.5, 0.25, -0.5}, {-0.25, 0.75, 0.5}, {0.125, -0.5, 0.25}}, {{0, 1, 0}, {-1, 0, 0.5}, {0, -0.5, 0}}, {{1.25, 0, 0}, {0.5, 1, 0}, {0, 0.75, -1.5}}};
static const double MB[3][3] = {{1, -0.5, 0.25}, {0.5, 0.25, 0.75}, {-1, 0.5, 0.125}};
static double elemA(int a, int i, int j) {
  if (i < 3 && j < 3) return MA[a][i][j];
  return a == 0 ? double((i * 5 + j * 7) % 9 - 4) / 16 : a == 1 ? (i == j + 1 ? -0.5 : j == i + 1 ? 0.5 : 0.0) : i == j ? 0.75 - 0.125 * i : i == j + 1 ? 0.5 : 0.0;
}
static double elemB(int i, int j) { return i < 3 && j < 3 ? MB[i][j] : double((i * 3 + j * 5) % 11 - 5) / 8; }
template <class T, class E> void lin(E A, int m, int n, const T *x, T *y) { for (int i = 0; i < m; i++) { y[i] = x[0] * A(i, 0); for (int j = 1; j < n; j++) y[i] = y[i] + x[j] * A(i, j); } }
static void highCase(int a, int n, int d, int what) {
  tapes();
  Reset g;
  const double *x = PT[1];
  auto A = [a](int i, int j) { return elemA(a, i, j); };
  rec(tF, n, n, x, [=](const adouble *X, adouble *Y) { lin<adouble>(A, n, n, X, Y); });
  rec(tG, n, n, x, [=](const adouble *X, adouble *Y) { lin<adouble>(elemB, n, n, X, Y); });
  mc::trace(2);
  const size_t N = size_t(n), D = size_t(d) + 1;
  V xa(x, x + n);
  M2<double> R(N + 1, D, Q);
  M3<double> R3(N, N, D, Q);
  typedef long double L;
  L W[NW][NW]; // the field of order k is W x (as a row: x^T W' ...)
  for (int i = 0; i < NW; i++) for (int j = 0; j < NW; j++) W[i][j] = elemB(i, j);
  mc::transition();
  int rc = what == 0 ? lie_scalarcv(tF, tG, short(n), short(n), xa.data(), short(d), R) : what == 1 ? lie_gradientcv(tF, tG, short(n), short(n), xa.data(), short(d), R3) : what == 2 ? lie_covector(tF, tG, short(n), xa.data(), short(d), R) : lie_bracket(tF, tG, short(n), xa.data(), short(d), R);
  static const char *tag[] = {"scalar", "gradient", "covector", "bracket"};
  if (rc < 0) fail("rc-high", "driver %d returned %d", what, rc);
  L size = 1;
  for (int k = 0; k <= d; k++) {
    L wm = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) wm = std::max(wm, std::fabs(W[i][j]));
    size = std::max({size * 2, wm});
    for (int i = 0; i < n; i++) {
      L s = 0;
      for (int j = 0; j < n; j++) s += W[i][j] * x[j];
      if (what == 1) for (int j = 0; j < n; j++) near(R3[size_t(i)][j][k], double(W[i][j]), double(1e-11L * size), "gradient-high", "linear system", i, j, k);
      else near(R[size_t(i)][k], double(s), double(1e-11L * size), fmt("%s-high", tag[what]).c_str(), "linear system", i, 0, k);
    }
    L T[NW][NW];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      T[i][j] = 0;
      for (int q = 0; q < n; q++) {
        T[i][j] += W[i][q] * A(q, j);                 // derivative along f
        if (what == 2) T[i][j] += A(q, i) * W[q][j];  // w f'
        if (what == 3) T[i][j] -= A(i, q) * W[q][j];  // f' g
      }
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W[i][j] = T[i][j];
  }
  if (R.d.back() != Q || R3.d.back() != Q) fail("overrun", "the element after the result is overwritten");
  mc::state(mc::hmix(uint64_t(a * 4 + n), uint64_t(d * 4 + what)));
  g.ok = true;
}

// ------------------------------------------------------------- left branches
static void flowCase(int n, int d, int where) {
  tapes();
  Reset g;
  const int kf = where == 0 ? BRANCH : LINEAR, kh = where == 0 ? LINEAR : BRANCH;
  recF(tF, kf, n, n, PT[0]);
  recF(tH, kh, n, n, PT[0]);
  mc::trace(2);
  const size_t N = size_t(n), D = size_t(d) + 1;
  M2<double> R(N, D, Q);
  M3<double> R3(N, N, D, Q);
  V x(PT[2], PT[2] + n); // x[0] < 0
  const short sn = short(n), sd = short(d);
  auto neg = [&](int rc, const char *w) { mc::checked(); mc::count(cFlow); if (rc >= 0 && !(where == 0 && d == 0)) fail("flow", "%s returned %d at a point where the recorded branches are left", w, rc); };
  auto good = [&] { outputs(tF, tH, n, n, d, 0, PT[0], fam(kf, n, n), fam(kh, n, n), "afterwards"); fields(1, tF, tH, n, d, PT[0], fam(kf, n, n), fam(kh, n, n), "afterwards"); fields(2, tF, tH, n, d, PT[0], fam(kf, n, n), fam(kh, n, n), "afterwards"); };
  mc::transition(4);
  neg(lie_scalarcv(tF, tH, sn, sn, x.data(), sd, R), "lie_scalarcv"); good();
  neg(lie_gradientcv(tF, tH, sn, sn, x.data(), sd, R3), "lie_gradientcv"); good();
  neg(lie_covector(tF, tH, sn, x.data(), sd, R), "lie_covector"); good();
  neg(lie_bracket(tF, tH, sn, x.data(), sd, R), "lie_bracket"); good();
  mc::state(mc::hmix(uint64_t(n * 8 + d), uint64_t(where)));
  g.ok = true;
}

// ------------------------------------------------------------- programs of the shared alphabet
static void progCase(const Prog &p, const double *x) {
  double y[NR];
  if (!runDouble(p, x, y) || illConditioned(p, x)) { mc::count(cDomain); mc::trivial(); return; }
  for (auto &o : p) if (o.k == UN && o.f == CBRT) { mc::trivial(); return; }
  auto run = [=](const auto *X, auto *Y, int m) {
    typedef std::remove_cvref_t<decltype(*X)> T;
    T r[NR] = {X[0], X[1], T(R2)};
    for (auto &o : p) exec<T>(o, r);
    for (int i = 0; i < m; i++) Y[i] = r[i];
  };
  ref::flags.clear();
  { ref::Dual<5> X[5], Y[5]; X[0] = x[0]; X[1] = x[1]; X[0].g[0] = X[1].g[1] = 1; run(X, Y, 3); if (ref::flags.kink) { mc::count(cKink); mc::trivial(); return; } }
  tapes();
  Reset g;
  auto ra = [&](const adouble *X, adouble *Y) { run(X, Y, 2); };
  FM rm = [&](const MP *X, MP *Y) { run(X, Y, 2); };
  rec(tF, 2, 2, x, ra);
  rec(tH, 3, 2, x, [&](const adouble *X, adouble *Y) { run(X, Y, 3); });
  rec(tG, 2, 2, x, [&](const adouble *X, adouble *Y) { body<adouble>(POLY, 2, 2, X, Y); });
  mc::trace(3);
  const FM poly = fam(POLY, 2, 2), rm3 = [&](const MP *X, MP *Y) { run(X, Y, 3); };
  outputs(tF, tG, 2, 2, 3, 0, x, rm, poly, "program as vector field", 100);
  outputs(tG, tH, 2, 3, 3, 0, x, poly, rm3, "program as output map", 100);
  fields(1, tF, tG, 2, 3, x, rm, poly, "program as vector field", 100);
  fields(2, tF, tG, 2, 3, x, rm, poly, "program as vector field", 100);
  fields(1, tG, tF, 2, 3, x, poly, rm, "program as covector field", 100);
  fields(2, tG, tF, 2, 3, x, poly, rm, "program as second field", 100);
  outputs(tF, tF, 2, 2, 2, 0, x, rm, rm, "one trace for both", 100);
  fields(2, tF, tF, 2, 2, x, rm, rm, "one trace for both", 100);
  g.ok = true;
}

// ------------------------------------------------------------- histories
struct HCmd { int op, n, a; };
enum { H_SCALAR, H_GRAD, H_COV, H_BRACKET, H_REC, H_OTHER, H_BAD };
static std::vector<HCmd> hcmds() {
  std::vector<HCmd> A;
  for (int n = 1; n <= 3; n++) {
    for (int a : {0, 1, 2}) { A.push_back({H_COV, n, a}); A.push_back({H_BRACKET, n, a}); }
    for (int a : {1, 4, 7, 10}) A.push_back({H_GRAD, n, a}); // a = d + 3 * (m - 1)
    if (n > 1) A.push_back({H_SCALAR, n, 1 + n});
    A.push_back({H_REC, n, 0});
  }
  A.push_back({H_OTHER, 2, 0});
  A.push_back({H_BAD, 2, 0});
  return A;
}
static std::string str(const HCmd &c) { static const char *nm[] = {"scalar", "gradient", "covector", "bracket", "record", "other", "refused"}; return fmt("%s(n%d,%d)", nm[c.op], c.n, c.a); }
static short hF[4] = {-1, -1, -1, -1}, hG[4], hH[4][4];
static void hist(const std::vector<HCmd> &cs) {
  if (hF[1] < 0) for (int n = 1; n <= 3; n++) { hF[n] = createNewTape(); hG[n] = createNewTape(); for (int m = 1; m <= 3; m++) hH[n][m] = createNewTape(); }
  struct G { bool ok = false; ~G() { if (!ok) hF[1] = -1; } } g;
  int ver[4] = {0, 0, 0, 0};
  bool have[4] = {};
  auto kf = [&](int n) { return ver[n] ? int(TRIG) : int(POLY); };
  auto record = [&](int n) { recF(hF[n], kf(n), n, n, PT[0]); recF(hG[n], kf(n) == TRIG ? LINEAR : BRANCH, n, n, PT[0]); for (int m = 1; m <= 3; m++) recF(hH[n][m], ver[n] ? POLY : MIXED, m, n, PT[0]); have[n] = true; mc::trace(5); };
  uint64_t h = 5;
  for (size_t k = 0; k < cs.size(); k++) {
    const HCmd &c = cs[k];
    const int n = c.n;
    if (!have[n]) record(n);
    const std::string when = fmt("step %zu", k + 1);
    const double *x = PT[0];
    const int kg = kf(n) == TRIG ? LINEAR : BRANCH, kh = ver[n] ? POLY : MIXED, m = 1 + c.a / 3 % 3, d = c.op == H_GRAD || c.op == H_SCALAR ? (c.a == 10 ? 2 : c.a % 3) : c.a;
    switch (c.op) {
    case H_SCALAR: outputs(hF[n], hH[n][m], n, m, d, 0, x, fam(kf(n), n, n), fam(kh, m, n), when.c_str(), 1, false); break;
    case H_GRAD: outputs(hF[n], hH[n][m], n, m, d, 2, x, fam(kf(n), n, n), fam(kh, m, n), when.c_str()); break;
    case H_COV: fields(1, hF[n], hG[n], n, d, x, fam(kf(n), n, n), fam(kg, n, n), when.c_str()); break;
    case H_BRACKET: fields(2, hF[n], hG[n], n, d, x, fam(kf(n), n, n), fam(kg, n, n), when.c_str()); break;
    case H_REC: ver[n] ^= 1; record(n); break;
    case H_OTHER: {
      M2<double> J(2, 2);
      double y[2];
      if (jacobian(hF[2], 2, 2, x, J) < 0) fail("other", "jacobian failed");
      if (zos_forward(hG[2], 2, 2, 1, x, y) < 0) fail("other", "zos_forward failed");
      break;
    }
    default: {
      M2<double> R(2, 3);
      double xb[2] = {-1, -1};
      const int rc = lie_bracket(hF[2], hG[2], 2, xb, 2, R);
      if (kg == BRANCH && rc >= 0) fail("flow", "lie_bracket returned %d at a point where the recorded branches are left", rc);
    }
    }
    h = mc::hmix(h, uint64_t((c.op * 4 + n) * 16 + c.a));
    mc::state(h);
  }
  g.ok = true;
}

struct R : mc::Runner {
  void setup() override {
    childInit = [] { tF = tH = tG = -1; hF[1] = -1; };
    cDomain = mc::counter("outside_domain");
    cFlow = mc::counter("branches_left");
    cKink = mc::counter("at_kink");
    {
      const int NM = mc::thorough ? 4 : 3, DM = mc::thorough ? 6 : 5;
      mc::Space s;
      s.name = "outputs"; s.n = uint64_t(NKIND * NKIND * NM * 3 * DM * 4 * 2); s.chunk = 40;
      s.rule = fmt("vector fields x output maps x 1..%d states x 1..3 outputs x orders 0..%d x ways to call x points: Lie derivatives and their gradients", NM, DM - 1);
      auto dec = [=](uint64_t k, int *v) { mc::Dec e(k); v[0] = int(e(NKIND)); v[1] = int(e(NKIND)); v[2] = 1 + int(e(uint64_t(NM))); v[3] = 1 + int(e(3)); v[4] = int(e(uint64_t(DM))); v[5] = int(e(4)); v[6] = int(e(2)); };
      s.run = [=](uint64_t k) { int v[7]; dec(k, v); if (v[3] > 1 && v[5] > 1) { mc::trivial(); return; } outCase(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); };
      s.describe = [=](uint64_t k) { int v[7]; dec(k, v); return fmt("f-%s h-%s n%d m%d d%d var%d point%d", kindName[v[0]], kindName[v[1]], v[2], v[3], v[4], v[5], v[6]); };
      spaces.push_back(s);
      mc::Space t;
      t.name = "fields"; t.n = uint64_t(NKIND * NKIND * NM * DM * 3); t.chunk = 20;
      t.rule = fmt("vector fields x (co)vector fields x 1..%d states x orders 0..%d x points: covector derivatives and brackets", NM, DM - 1);
      auto de2 = [=](uint64_t k, int *v) { mc::Dec e(k); v[0] = int(e(NKIND)); v[1] = int(e(NKIND)); v[2] = 1 + int(e(uint64_t(NM))); v[3] = int(e(uint64_t(DM))); v[4] = int(e(3)); };
      t.run = [=](uint64_t k) { int v[5]; de2(k, v); fieldCase(v[0], v[1], v[2], v[3], v[4]); };
      t.describe = [=](uint64_t k) { int v[5]; de2(k, v); return fmt("f-%s g-%s n%d d%d point%d", kindName[v[0]], kindName[v[1]], v[2], v[3], v[4]); };
      spaces.push_back(t);
    }
    {
      const int DM = mc::thorough ? 31 : 21;
      mc::Space s;
      s.name = "high"; s.n = uint64_t(3 * NW * DM * 4); s.chunk = 10;
      s.rule = fmt("linear systems with 1..12 states x orders 0..%d x drivers, against the closed form", DM - 1);
      auto dec = [=](uint64_t k, int *v) { mc::Dec e(k); v[0] = int(e(3)); v[1] = 1 + int(e(NW)); v[2] = int(e(uint64_t(DM))); v[3] = int(e(4)); };
      s.run = [=](uint64_t k) { int v[4]; dec(k, v); highCase(v[0], v[1], v[2], v[3]); };
      s.describe = [=](uint64_t k) { int v[4]; dec(k, v); return fmt("A%d n%d d%d driver%d", v[0], v[1], v[2], v[3]); };
      spaces.push_back(s);
    }
    {
      // all sizes for which the reference is exact: binomial(n + d + 1, n) terms
      static std::vector<std::pair<int, int>> nd;
      for (int n = 4; n <= 8; n++) for (int d = 0; d < 5; d++) { long b = 1; for (int k = 1; k <= d + 1; k++) b = b * (n + k) / k; if (b <= MP::MAXN) nd.emplace_back(n, d); }
      mc::Space s;
      s.name = "wide"; s.n = 5 * 5 * nd.size() * 5 * 2; s.chunk = 6; s.cpu_s = 60;
      s.rule = "vector fields x output maps or fields x 4..8 states with orders up to 0..3 x drivers (scalars and gradients of 1, 4 and 7 outputs, covector fields, brackets) x points";
      auto dec = [](uint64_t k, int *v) { mc::Dec e(k); v[0] = int(e(2)); v[1] = int(e(5)); const auto &q = nd[e(nd.size())]; v[2] = q.first; v[3] = q.second; v[4] = int(e(5)); v[5] = int(e(5)); };
      s.run = [=](uint64_t k) {
        int v[6];
        dec(k, v);
        if (v[1] < 3) { outCase(v[4], v[5], v[2], 1 + 3 * v[1], v[3], v[0], v[0]); return; }
        tapes();
        Reset g;
        recF(tF, v[4], v[2], v[2], PT[v[0]]);
        recF(tG, v[5], v[2], v[2], PT[v[0]]);
        mc::trace(2);
        fields(v[1] - 2, tF, tG, v[2], v[3], PT[v[0] + 1], fam(v[4], v[2], v[2]), fam(v[5], v[2], v[2]), "another point");
        g.ok = true;
      };
      s.describe = [=](uint64_t k) { int v[6]; dec(k, v); return fmt("f-%s h-%s n%d d%d driver %d point%d", kindName[v[4]], kindName[v[5]], v[2], v[3], v[1], v[0]); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "flow"; s.n = 3 * 5 * 2; s.chunk = 2;
      s.rule = "points where the recorded branches of either trace are left, then all drivers at a valid point";
      s.run = [=](uint64_t k) { flowCase(1 + int(k % 3), int(k / 3 % 5), int(k / 15)); };
      s.describe = [=](uint64_t k) { return fmt("n%d d%d where%d", 1 + int(k % 3), int(k / 3 % 5), int(k / 15)); };
      spaces.push_back(s);
    }
    static const double P[2] = {0.4, 0.7};
    for (int len = 1; len <= 2; len++) {
      auto B = alphabet(len == 1 ? cfgFull() : mc::thorough ? cfgMid() : cfgSmall());
      mc::Space s;
      s.name = fmt("ops%d", len); s.n = mc::ipow(B.size(), unsigned(len)); s.chunk = 200;
      s.rule = fmt("all programs of %d operations from %zu as vector field, output map, covector field and second field", len, B.size());
      s.run = [=](uint64_t k) { progCase(prog(B, len, k), P); };
      s.describe = [=](uint64_t k) { return dsl::str(prog(B, len, k)); };
      spaces.push_back(s);
    }
    auto H = hcmds();
    for (int depth = 1; depth <= (mc::thorough ? 4 : 3); depth++) {
      mc::Space s;
      s.name = fmt("hist%d", depth); s.n = mc::ipow(H.size(), unsigned(depth)); s.chunk = 200;
      s.rule = fmt("all sequences of %d calls from %zu (drivers with changing dimensions and orders, recordings, other drivers, refused calls)", depth, H.size());
      auto dec = [=](uint64_t k) { std::vector<HCmd> v; for (int i = 0; i < depth; i++) { v.push_back(H[k % H.size()]); k /= H.size(); } return v; };
      s.run = [=](uint64_t k) { hist(dec(k)); };
      s.describe = [=](uint64_t k) { std::string t; for (auto &c : dec(k)) t += (t.empty() ? "" : " ") + ::str(c); return t; };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
