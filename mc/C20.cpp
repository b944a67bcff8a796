// C20: tensor, inverse-Taylor and ODE drivers, Newton-system solves.
#include <functional>
#include "mpoly.h"
#include "dsl.h"
#include "arr.h"
#include <adolc/drivers/odedrivers.h>
#include <adolc/drivers/taylor.h>
#include <adolc/interfaces.h>
using namespace dsl;
using mc::fail;
using mc::fmt;
using arr::M2;
using arr::M3;
using ref::MP;
typedef std::vector<double> V;
constexpr double Q = -77.125;
static int cSingular, cDomain, cFlow, cKink;

// ------------------------------------------------------------- functions
enum { DENSE, MIXED, LINEAR, CHAIN, TRIG, BRANCH, NKIND };
static const char *kindName[] = {"dense", "mixed", "linear", "chain", "trig", "branch"};
static bool positive(const adouble &x) { return x > 0; }
template <class T> bool positive(const T &x) { return ref::val(x) > 0; }
template <class T> void body(int kind, int m, int n, const T *x, T *y) {
  using namespace std;
  using namespace ref;
  for (int i = 0; i < m; i++) {
    const T &a = x[i % n], &b = x[(i + 1) % n];
    switch (kind) {
    case DENSE: {
      T s = a * 0.5;
      for (int j = 0; j < n; j++) s = s + x[j] * (0.125 * ((i * 3 + j * 5) % 7) - 0.25);
      y[i] = sin(s) + s * a * 0.5 + a;
      break;
    }
    case MIXED: y[i] = i == 0 ? exp(a * 0.5) + b * b : i == 1 ? a / (b + 3.0) + 2.0 * a : i == 2 ? 1.0 * a : a * b * x[0] + a; break;
    case LINEAR: y[i] = a * (2.0 + i) - b * 0.25 + 1.5; break;
    case CHAIN: {
      T p = a + 2.0;
      for (int j = 0; j < n; j++) p = p * (x[j] * 0.25 + 1.0 + 0.125 * i);
      y[i] = p;
      break;
    }
    case TRIG: y[i] = sqrt(a * a + 1.0) + cos(b * 0.75) * (1.0 + i) + a; break;
    default:
      if (positive(x[0])) y[i] = a * 1.5 + b * b; else y[i] = a - b;
    }
  }
}
static const double PT[3][5] = {{0.5, 0.75, -0.25, 1.25, -0.5}, {0.125, -0.5, 1.5, 0.25, 0.6875}, {-0.75, 0.3125, 0.4375, -0.75, 1.0}};
static double seed(int s, int i, int j) {
  if (s == 0) return i == j;
  static const double c[5][5] = {{1, 0.5, -0.25, 0, 2}, {-1, 0, 0.75, 1, 0.5}, {0.5, 2, 1, -0.5, 0}, {0, 1, 0, 1.5, -1}, {0.25, 0, -1, 0.5, 1}};
  return s == 1 ? c[i][j] : s == 2 ? (j == 0 ? 0.0 : c[j][i]) : (j == 1 ? 0.0 : 1.0);
}
template <class F> void rec(short tag, int m, int n, const double *x, F f) {
  setCurrentTape(tag);
  trace_on(tag);
  {
    std::vector<adouble> X(static_cast<size_t>(n)), Y(static_cast<size_t>(m));
    double o;
    for (size_t j = 0; j < X.size(); j++) X[j] <<= x[j];
    f(X.data(), Y.data());
    for (auto &y : Y) y >>= o;
  }
  trace_off();
}
static short tA = -1, tB = -1;
static void tapes() { if (tA < 0) { tA = createNewTape(); tB = createNewTape(); } }
struct Reset { bool ok = false; ~Reset() { if (!ok) tA = -1; } };
typedef std::function<void(const MP *, MP *)> FM;

// ------------------------------------------------------------- tensors
static double fact(int k) { double f = 1; for (int i = 2; i <= k; i++) f *= i; return f; }
static std::vector<int> multiOf(const std::vector<int> &e, int d) { // non-increasing
  std::vector<int> mu;
  for (int q = int(e.size()); q-- > 0;) for (int i = 0; i < e[size_t(q)]; i++) mu.push_back(q + 1);
  mu.resize(size_t(d), 0);
  return mu;
}
static double nested(void *t, const int *mu, int d) { return d == 1 ? static_cast<double *>(t)[mu[0]] : nested(static_cast<void **>(t)[mu[0]], mu + 1, d - 1); }
struct Access { std::vector<std::vector<int>> mu; std::vector<size_t> ad; };
static bool sorted(const std::vector<int> &a) { return std::is_sorted(a.rbegin(), a.rend()); }
static const Access &access(int p, int d) {
  static thread_local std::map<std::pair<int, int>, Access> memo;
  auto &A = memo[{p, d}];
  if (!A.mu.empty()) return A;
  MP::setup(p, d);
  std::vector<bool> used(size_t(MP::N), false);
  for (auto &e : MP::ex) {
    std::vector<int> mu = multiOf(e, d), c = mu;
    size_t ad = d ? tensor_address(d, c.data()) : 0;
    if (c != mu) fail("address", "tensor_address changed the multi-index");
    if (ad >= size_t(MP::N) || used[ad]) fail("address", "address %zu for an entry of a tensor of degree %d in %d variables", ad, d, p);
    used[ad] = true;
    // other orders of the same multi-index
    std::vector<int> pm = mu;
    std::sort(pm.begin(), pm.end());
    do { mc::checked(); std::vector<int> q = pm; if (d && tensor_address(d, q.data()) != ad) { std::string s; for (int v : pm) s += fmt(" %d", v); fail(sorted(pm) ? "address" : "address-order", "the address of%s is %zu, sorted it is %zu", s.c_str(), tensor_address(d, q.data()), ad); } } while (d && std::next_permutation(pm.begin(), pm.end()));
    A.mu.push_back(mu);
    A.ad.push_back(ad);
  }
  if (binomi(size_t(p + d), size_t(d)) != MP::N) fail("binomi", "binomi(%d,%d) is %ld", p + d, d, binomi(size_t(p + d), size_t(d)));
  return A;
}
static double tolOf(int d) { return d <= 2 ? 1e-11 : d <= 4 ? 1e-9 : d <= 5 ? 1e-7 : 1e-6; }
static void tensorCheck(short tag, int m, int n, int d, int p, const double *x, const std::function<double(int, int)> &S, const FM &f, const char *when, bool deep, double slack = 1) {
  const Access &A = access(p, d);
  MP::setup(p, d);
  MP X[5], Y[5];
  ref::flags.clear();
  for (int i = 0; i < n; i++) { X[i] = x[i]; if (d) for (int j = 0; j < p; j++) for (int q = 1; q <= p; q++) { if (MP::ex[size_t(q)][size_t(j)] == 1) X[i].c[size_t(q)] = S(i, j); } }
  f(X, Y);
  if (ref::flags.kink) { mc::count(cKink); return; }
  for (int i = 0; i < m; i++) for (size_t k = 0; k < size_t(MP::N); k++) if (!std::isfinite(Y[i].c[k]) || std::fabs(Y[i].c[k]) > 1e6) { mc::count(cDomain); return; }
  const size_t N = size_t(MP::N);
  M2<double> T(static_cast<size_t>(m) + 1, N, Q), SS{static_cast<size_t>(n), static_cast<size_t>(p)};
  for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) SS[size_t(i)][j] = S(i, j);
  V xa(x, x + n);
  mc::transition();
  int rc = tensor_eval(tag, m, n, d, p, xa.data(), T, SS);
  if (rc < 0) fail("rc", "tensor_eval returned %d (%s)", rc, when);
  if (xa != V(x, x + n)) fail("input", "tensor_eval changed its argument");
  double scale = 1;
  for (int i = 0; i < m; i++) for (size_t k = 0; k < N; k++) scale = std::max(scale, std::fabs(Y[i].c[k]) * 4);
  std::vector<V> want(static_cast<size_t>(m));
  for (int i = 0; i < m; i++)
    for (size_t k = 0; k < N; k++) {
      double w = Y[i].c[k];
      for (int e : MP::ex[k]) w *= fact(e);
      want[size_t(i)].push_back(w);
      mc::checked();
      const double got = T[size_t(i)][A.ad[k]];
      if (!(std::fabs(got - w) <= tolOf(d) * slack * scale * fact(d))) { std::string s; for (int v : A.mu[k]) s += fmt(" %d", v); fail("tensor", "entry [%d](%s ) is %.15g instead of %.15g (%s)", i, s.c_str(), got, w, when); }
    }
  for (size_t k = 0; k < N; k++) if (T[size_t(m)][k] != Q) fail("overrun", "the row after the tensor is overwritten");
  if (!deep) return;
  for (size_t k = 0; k < N && d > 0; k++) {
    std::vector<int> mu = A.mu[k];
    V y(size_t(m) + 1, Q);
    for (int rep = 0; rep < 2; rep++) {
      tensor_value(d, m, y.data(), T, mu.data());
      for (int i = 0; i < m; i++) { mc::checked(); if (y[size_t(i)] != T[size_t(i)][A.ad[k]]) fail("tensor_value", "tensor_value gives %.15g instead of %.15g (call %d)", y[size_t(i)], T[size_t(i)][A.ad[k]], rep + 1); }
      if (y[size_t(m)] != Q) fail("tensor_value", "the element after the result is overwritten");
    }
    if (mu != A.mu[k]) fail("tensor_value", "the multi-index was changed");
  }
  if (d > 0) {
    void **t = tensorsetup(m, p, d, T);
    for (size_t k = 0; k < N; k++) for (int i = 0; i < m; i++) { mc::checked(); double v = nested(t[i], A.mu[k].data(), d); if (v != T[size_t(i)][A.ad[k]]) fail("tensorsetup", "subscripting gives %.15g instead of %.15g", v, T[size_t(i)][A.ad[k]]); }
    freetensor(m, p, d, reinterpret_cast<double **>(t));
    free(t);
    for (size_t k = 0; k < N; k++) if (T[0][A.ad[k]] != T[0][A.ad[k]]) fail("freetensor", "value lost");
  }
}
static bool regular(int n, const double *x, const std::function<void(const ref::Dual<5> *, ref::Dual<5> *)> &f, double *cond = nullptr) {
  ref::Dual<5> X[5], Y[5];
  for (int i = 0; i < n; i++) { X[i] = x[i]; X[i].g[i] = 1; }
  f(X, Y);
  double a[5][5], det = 1, sc = 1;
  for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) { a[i][j] = Y[i].g[j]; if (!std::isfinite(a[i][j])) return false; r = std::max(r, std::fabs(a[i][j])); } sc *= std::max(r, 1e-300); }
  for (int k = 0; k < n; k++) {
    int pv = k;
    for (int i = k; i < n; i++) if (std::fabs(a[i][k]) > std::fabs(a[pv][k])) pv = i;
    std::swap(a[k], a[pv]);
    det *= a[k][k];
    if (a[k][k] == 0) return false;
    for (int i = k + 1; i < n; i++) { double l = a[i][k] / a[k][k]; for (int j = k; j < n; j++) a[i][j] -= l * a[k][j]; }
  }
  if (cond) *cond = std::fabs(det) / sc;
  return std::fabs(det) > 0.02 * sc && std::fabs(det) > 1e-3;
}
// the tensor must satisfy F(z(x)) = F(z0) + S x
static void inverseCheck(short tag, int n, int d, int p, const double *x, const std::function<double(int, int)> &S, const FM &f, const char *when, double slack = 1) {
  const Access &A = access(p, d);
  MP::setup(p, d);
  const size_t N = size_t(MP::N);
  M2<double> T(static_cast<size_t>(n) + 1, N, Q), SS{static_cast<size_t>(n), static_cast<size_t>(p)};
  for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) SS[size_t(i)][j] = S(i, j);
  V xa(x, x + n);
  mc::transition();
  int rc = inverse_tensor_eval(tag, n, d, p, xa.data(), T, SS);
  if (rc < 0) fail("rc", "inverse_tensor_eval returned %d (%s)", rc, when);
  MP Z[5], Y[5];
  double scale = 1;
  for (int i = 0; i < n; i++) {
    for (size_t k = 0; k < N; k++) {
      double w = T[size_t(i)][A.ad[k]];
      for (int e : MP::ex[k]) w /= fact(e);
      Z[i].c[k] = w;
      if (!std::isfinite(w)) fail("inverse", "entry [%d] is %g (%s)", i, w, when);
      scale = std::max(scale, std::fabs(w) * 4);
    }
    mc::checked();
    if (Z[i].c[0] != x[i]) fail("inverse", "the value of the inverse is %.15g instead of %.15g (%s)", Z[i].c[0], x[i], when);
  }
  if (scale > 1e4) { mc::count(cDomain); return; }
  f(Z, Y);
  for (int i = 0; i < n; i++) for (size_t k = 1; k < N; k++) {
    double want = 0;
    int order = 0, var = 0;
    for (int q = 0; q < p; q++) { order += MP::ex[k][size_t(q)]; if (MP::ex[k][size_t(q)]) var = q; }
    if (order == 1) want = S(i, var);
    mc::checked();
    if (!(std::fabs(Y[i].c[k] - want) <= tolOf(d) * slack * 100 * scale * scale)) fail("inverse", "F(z(x)) has the coefficient %.15g instead of %.15g at component %d, term %zu (%s)", Y[i].c[k], want, i, k, when);
  }
  for (size_t k = 0; k < N; k++) if (T[size_t(n)][k] != Q) fail("overrun", "the row after the tensor is overwritten");
}
static FM fam(int kind, int m, int n) { return [=](const MP *X, MP *Y) { body<MP>(kind, m, n, X, Y); }; }
static void tensorCase(int kind, int m, int n, int d, int p, int s, int pt) {
  tapes();
  Reset g;
  const double *x = PT[pt];
  if (kind == BRANCH && x[0] <= 0) { g.ok = true; mc::trivial(); return; }
  rec(tA, m, n, PT[0], [=](const adouble *X, adouble *Y) { body<adouble>(kind, m, n, X, Y); });
  mc::trace();
  tensorCheck(tA, m, n, d, p, x, [=](int i, int j) { return seed(s, i, j); }, fam(kind, m, n), "after recording", true);
  mc::state(mc::hmix(mc::hmix(uint64_t(kind * 8 + m), uint64_t(n * 8 + d)), uint64_t(p * 64 + s * 4 + pt)));
  g.ok = true;
}
static void inverseCase(int kind, int n, int d, int p, int s, int pt) {
  tapes();
  Reset g;
  const double *x = PT[pt];
  if (kind == BRANCH && x[0] <= 0) { g.ok = true; mc::trivial(); return; }
  if (!regular(n, x, [=](const ref::Dual<5> *X, ref::Dual<5> *Y) { body<ref::Dual<5>>(kind, n, n, X, Y); })) { mc::count(cSingular); mc::trivial(); g.ok = true; return; }
  rec(tA, n, n, PT[0], [=](const adouble *X, adouble *Y) { body<adouble>(kind, n, n, X, Y); });
  mc::trace();
  for (int rep = 0; rep < 2; rep++) inverseCheck(tA, n, d, p, x, [=](int i, int j) { return seed(s, i, j); }, fam(kind, n, n), rep ? "again" : "after recording");
  mc::state(mc::hmix(mc::hmix(uint64_t(kind), uint64_t(n * 8 + d)), uint64_t(p * 64 + s * 4 + pt)));
  g.ok = true;
}

// ------------------------------------------------------------- differential equations
constexpr int DG = 6;
typedef ref::Dual<4> D4;
typedef ref::Tay<D4, DG> TD;
typedef std::function<void(const TD *, TD *)> FO;
// solution coefficients (scaled with tau) and their derivatives by the initial value
struct Ode { double x[4][DG + 1], dx[4][4][DG + 1]; bool ok; };
static Ode solve(int n, const double *x0, double tau, int deg, const FO &f) {
  Ode o{};
  TD X[4], Y[4];
  ref::flags.clear();
  for (int i = 0; i < n; i++) { X[i].c[0] = x0[i]; X[i].c[0].g[i] = 1; }
  for (int k = 0; k < deg; k++) {
    f(X, Y);
    for (int i = 0; i < n; i++) X[i].c[k + 1] = Y[i].c[k] * (tau / (k + 1));
  }
  o.ok = !ref::flags.kink;
  for (int i = 0; i < n; i++) for (int k = 0; k <= deg; k++) { o.x[i][k] = X[i].c[k].v; o.ok = o.ok && std::isfinite(o.x[i][k]) && std::fabs(o.x[i][k]) < 1e5; for (int j = 0; j < n; j++) { o.dx[i][j][k] = X[i].c[k].g[j]; o.ok = o.ok && std::isfinite(o.dx[i][j][k]) && std::fabs(o.dx[i][j][k]) < 1e5; } }
  return o;
}
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static void odeCheck(short tag, int n, const double *x, double tau, int deg, int split, int var, const FO &f, const char *when, double tol = 1e-9) {
  Ode o = solve(n, x, tau, deg, f);
  if (!o.ok) { mc::count(cDomain); return; }
  const size_t N = size_t(n), DD = size_t(deg);
  M2<double> X(N + 1, DD + 1, Q);
  for (size_t i = 0; i < N; i++) X[i][0] = x[i];
  auto call = [&](int dol, int dg) {
    mc::transition();
    int rc = var == 1 && dol == 0 ? forode(tag, n, tau, dg, X) : var == 2 && tau == 1 ? (dol == 0 ? forode(tag, n, dg, X) : forode(tag, n, dol, dg, X)) : forodec(tag, n, tau, dol, dg, X);
    if (rc < 0) fail("rc", "forode returned %d (%s)", rc, when);
  };
  if (var == 3) { // from Fortran
    V y((DD + 1) * N + 1, Q);
    for (size_t i = 0; i < N; i++) y[i] = x[i];
    fint ft = tag, fn = n, f0 = 0, fd = deg, fs = split;
    double ftau = tau;
    if (split > 0) {
      if (forodec_(&ft, &fn, &ftau, &f0, &fs, y.data()) < 0) fail("rc", "forodec_ failed (%s)", when);
      if (forodec_(&ft, &fn, &ftau, &fs, &fd, y.data()) < 0) fail("rc", "forodec_ failed (%s)", when);
    } else if (forodec_(&ft, &fn, &ftau, &f0, &fd, y.data()) < 0) fail("rc", "forodec_ failed (%s)", when);
    for (int i = 0; i < n; i++) for (int k = 0; k <= deg; k++) X[size_t(i)][k] = y[size_t(i + k * n)];
    if (y.back() != Q) fail("overrun", "the element after the series is overwritten (%s)", when);
  } else {
    if (split > 0) call(0, split);
    if (split < deg) call(split, deg);
  }
  for (int i = 0; i < n; i++) for (int k = 0; k <= deg; k++) { mc::checked(); if (!::close(X[size_t(i)][k], o.x[i][k], tol)) fail("series", "coefficient %d of component %d is %.15g instead of %.15g (%s)", k, i, X[size_t(i)][k], o.x[i][k], when); }
  for (int k = 0; k <= deg; k++) if (X[N][k] != Q) fail("overrun", "the row after the series is overwritten (%s)", when);
  if (deg < 1 || split == deg) return;
  // derivatives of the coefficients by the initial value
  M2<double> I(N, N, 0.0);
  for (size_t i = 0; i < N; i++) I[i][i] = 1;
  M3<double> Z(N, N, DD, Q), B(N, N, DD, Q);
  M2<short> nz(N, N, short(-7));
  int rc = hov_reverse(tag, n, n, deg - 1, n, I, Z, nz);
  if (rc < 0) fail("rc", "hov_reverse after forode returned %d (%s)", rc, when);
  auto cmpB = [&](double ***b, const char *what) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < deg; k++) { mc::checked(); if (!::close(b[i][j][k], o.dx[i][j][k + 1], tol * 100)) fail("accode", "B[%d][%d][%d] is %.15g instead of %.15g (%s, %s)", i, j, k, b[i][j][k], o.dx[i][j][k + 1], what, when); }
  };
  M3<double> Z2(N, N, DD);
  Z2.d = Z.d;
  if (var == 3) {
    fint fn = n, fd = deg - 1;
    double ftau = tau;
    V a(N * N * DD + 1, Q), b(N * N * DD + 1, Q);
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < DD; k++) a[i + j * N + k * N * N] = Z[i][j][k];
    accodec_(&fn, &ftau, &fd, a.data(), b.data());
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (size_t k = 0; k < DD; k++) B[i][j][k] = b[i + j * N + k * N * N];
    if (b.back() != Q) fail("overrun", "the element after the Jacobians is overwritten (%s)", when);
    cmpB(B, "Fortran");
    return;
  }
  if (var == 2 && tau == 1) accode(n, deg - 1, Z, B); else if (var == 1) accode(n, tau, deg - 1, Z, B, nullptr); else accodec(n, tau, deg - 1, Z, B, nullptr);
  cmpB(B, "dense");
  if (Z.d != Z2.d) fail("accode", "the partial Jacobians were changed (%s)", when);
  if (B.d.back() != Q) fail("overrun", "the element after the Jacobians is overwritten (%s)", when);
  B.fill(Q);
  M2<short> nz0(N, N);
  nz0.d = nz.d;
  accodec(n, tau, deg - 1, Z, B, nz);
  cmpB(B, "sparse");
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
    if (nz0[i][j] > 0 && nz[i][j] != nz0[i][j]) fail("accode", "a positive entry of the pattern was changed (%s)", when);
    for (int k = 0; k < deg && k < -nz[i][j]; k++) { mc::checked(); if (o.dx[i][j][k + 1] != 0) fail("accode", "the pattern claims that B[%zu][%zu][%d] = %g vanishes (%s)", i, j, k, o.dx[i][j][k + 1], when); }
  }
  // the result may overwrite the partial Jacobians
  accodec(n, tau, deg - 1, Z, Z, nullptr);
  cmpB(Z, "in place");
  Z.d = Z2.d;
  nz.d = nz0.d;
  accodec(n, tau, deg - 1, Z, Z, nz);
  cmpB(Z, "in place, sparse");
}
static FO famO(int kind, int n) { return [=](const TD *X, TD *Y) { body<TD>(kind, n, n, X, Y); }; }
static const double TAU[4] = {1, 0.5, 2, -1.25};
static void odeCase(int kind, int n, int deg, int split, int tau, int var, int pt) {
  tapes();
  Reset g;
  const double *x = PT[pt];
  if (kind == BRANCH && x[0] <= 0) { g.ok = true; mc::trivial(); return; }
  rec(tA, n, n, PT[0], [=](const adouble *X, adouble *Y) { body<adouble>(kind, n, n, X, Y); });
  mc::trace();
  odeCheck(tA, n, x, TAU[tau], deg, split, var, famO(kind, n), "after recording");
  mc::state(mc::hmix(mc::hmix(uint64_t(kind * 8 + n), uint64_t(deg * 8 + split)), uint64_t(tau * 64 + var * 8 + pt)));
  g.ok = true;
}

// ------------------------------------------------------------- programs of the shared alphabet
static void progCase(const Prog &p, const double *x) {
  double y[NR];
  if (!runDouble(p, x, y) || illConditioned(p, x)) { mc::count(cDomain); mc::trivial(); return; }
  for (auto &o : p) if (o.k == UN && o.f == CBRT) { mc::trivial(); return; }
  auto run = [=](const auto *X, auto *Y, int m) {
    typedef std::remove_cvref_t<decltype(*X)> T;
    T r[NR] = {X[0], X[1], T(R2)};
    for (auto &o : p) exec<T>(o, r);
    for (int i = 0; i < m; i++) Y[i] = r[i];
  };
  ref::flags.clear();
  { ref::Dual<5> X[5], Y[5]; X[0] = x[0]; X[1] = x[1]; X[0].g[0] = X[1].g[1] = 1; run(X, Y, 3); if (ref::flags.kink) { mc::count(cKink); mc::trivial(); return; } }
  tapes();
  Reset g;
  rec(tA, 3, 2, x, [&](const adouble *X, adouble *Y) { run(X, Y, 3); });
  mc::trace();
  auto S = [](int i, int j) { return seed(1, i, j); };
  tensorCheck(tA, 3, 2, 3, 2, x, S, [&](const MP *X, MP *Y) { run(X, Y, 3); }, "program", false, 1e3);
  rec(tB, 2, 2, x, [&](const adouble *X, adouble *Y) { run(X, Y, 2); });
  odeCheck(tB, 2, x, 0.5, 4, 2, 0, [&](const TD *X, TD *Y) { run(X, Y, 2); }, "program", 1e-7);
  if (regular(2, x, [&](const ref::Dual<5> *X, ref::Dual<5> *Y) { run(X, Y, 2); })) inverseCheck(tB, 2, 3, 2, x, S, [&](const MP *X, MP *Y) { run(X, Y, 2); }, "program", 1e3);
  g.ok = true;
}

// ------------------------------------------------------------- histories
// two traces of 2x2 functions and one of 3x3; commands call one of the drivers
struct HCmd { int op, t, a; };
enum { H_SOLVE, H_TENSOR, H_INV, H_ODE, H_REC, H_BAD };
static std::vector<HCmd> hcmds() {
  std::vector<HCmd> A;
  for (int t = 0; t < 2; t++) {
    for (int a = 0; a < 9; a++) A.push_back({H_SOLVE, t, a}); // mode x point (two regular, one singular)
    for (int a = 0; a < 4; a++) A.push_back({H_TENSOR, t, a});
    for (int a = 0; a < 4; a++) A.push_back({H_INV, t, a});
    for (int a = 0; a < 3; a++) A.push_back({H_ODE, t, a});
    for (int a = 0; a < 2; a++) A.push_back({H_REC, t, a}); // another function on the same trace
  }
  A.push_back({H_BAD, 0, 0});
  return A;
}
static std::string str(const HCmd &c) { static const char *nm[] = {"solve", "tensor", "inverse", "ode", "record", "refused"}; return fmt("%s(t%d,%d)", nm[c.op], c.t, c.a); }
// function v on trace t (n = 2 + t)
template <class T> void hbody(int t, int v, const T *x, T *y) {
  const int n = 2 + t;
  for (int i = 0; i < n; i++) y[i] = x[i] * x[(i + 1) % n] + (v ? 2.5 : -1.5) * x[i] * (1.0 + i) + (v ? x[0] * x[0] : x[i] * x[i]);
}
static const double HX[2][3][3] = {{{0.5, 0.75, 0}, {1.25, -0.5, 0}, {0, 0, 0}}, {{0.5, 0.75, -0.25}, {-0.5, 1.5, 0.25}, {0, 0, 0}}};
template <class T> void hfun(int t, int v, const T *x, T *y) { // singular at the origin
  T z[3];
  hbody(t, v, x, z);
  for (int i = 0; i < 2 + t; i++) y[i] = i == 0 ? z[0] * x[0] : z[i];
}
static void hist(const std::vector<HCmd> &cs) {
  tapes();
  Reset g;
  const short tag[2] = {tA, tB};
  int ver[2] = {0, 0};
  bool have[2] = {false, false};
  auto record = [&](int t) { const int n = 2 + t, v = ver[t]; rec(tag[t], n, n, HX[t][0], [=](const adouble *X, adouble *Y) { hfun<adouble>(t, v, X, Y); }); };
  record(0); record(1);
  mc::trace();
  uint64_t h = 9;
  (void)have;
  for (size_t k = 0; k < cs.size(); k++) {
    const HCmd &c = cs[k];
    const int t = c.t, n = 2 + t, v = ver[t];
    const std::string when = fmt("step %zu", k + 1);
    FM fm = [=](const MP *X, MP *Y) { hfun<MP>(t, v, X, Y); };
    switch (c.op) {
    case H_SOLVE: {
      const int mode = c.a % 3, pt = c.a / 3;
      const double *x = HX[t][pt];
      double b[4] = {1, -2, 0.5, Q}, b0[4] = {1, -2, 0.5, Q}, xa[3];
      for (int i = 0; i < n; i++) xa[i] = x[i];
      mc::transition();
      int rc = jac_solv(static_cast<unsigned short>(tag[t]), n, xa, b, static_cast<unsigned short>(mode));
      if (pt == 2) { mc::count(cSingular); if (mode > 0 && rc != -3) fail("singular", "jac_solv mode %d returned %d with a singular Jacobian (%s)", mode, rc, when.c_str()); break; }
      if (rc < 0) fail("solve", "jac_solv mode %d returned %d (%s)", mode, rc, when.c_str());
      if (mode < 2) { for (int i = 0; i < 4; i++) if (b[i] != b0[i]) fail("solve", "mode %d changed the right-hand side (%s)", mode, when.c_str()); break; }
      ref::Dual<5> X[5], Y[5];
      for (int i = 0; i < n; i++) { X[i] = x[i]; X[i].g[i] = 1; }
      hfun(t, v, X, Y);
      for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += Y[i].g[j] * b[j]; mc::checked(); if (!::close(s, b0[i], 1e-9)) fail("solve", "row %d of J w is %.15g instead of %.15g (%s)", i, s, b0[i], when.c_str()); }
      break;
    }
    case H_TENSOR: { const int dp[4][2] = {{1, 2}, {2, 2}, {3, 1}, {2, 1}}; tensorCheck(tag[t], n, n, dp[c.a][0], dp[c.a][1], HX[t][c.a & 1], [=](int i, int j) { return seed(1, i, j); }, fm, when.c_str(), false); break; }
    case H_INV: { const int dp[4][2] = {{1, 2}, {2, 2}, {3, 1}, {2, 1}}; inverseCheck(tag[t], n, dp[c.a][0], dp[c.a][1], HX[t][c.a < 2], [=](int i, int j) { return seed(1, i, j); }, fm, when.c_str()); break; }
    case H_ODE: { const int ds[3][2] = {{3, 0}, {4, 2}, {1, 0}}; odeCheck(tag[t], n, HX[t][c.a & 1], TAU[c.a], ds[c.a][0], ds[c.a][1], 0, [=](const TD *X, TD *Y) { hfun<TD>(t, v, X, Y); }, when.c_str()); break; }
    case H_REC: ver[t] = c.a; record(t); break;
    case H_BAD: {
      double b[4] = {1, 2, 3, 4};
      int bad = 0;
      M2<double> T(5, 20), S(5, 5, 1.0), X(5, 5, 0.5);
      double x[4] = {0.5, 0.5, 0.5, 0.5};
      try { if (jac_solv(static_cast<unsigned short>(tag[0]), 4, x, b, 2) >= 0) bad = 1; } catch (const std::exception &) {}
      try { if (tensor_eval(tag[0], 3, 2, 2, 2, x, T, S) >= 0) bad = 2; } catch (const std::exception &) {}
      try { if (forodec(tag[1], 2, 1.0, 0, 2, X) >= 0) bad = 3; } catch (const std::exception &) {}
      try { if (inverse_tensor_eval(tag[1], 2, 2, 2, x, T, S) >= 0) bad = 4; } catch (const std::exception &) {}
      if (bad) fail("refused", "wrong numbers of variables accepted (%d, %s)", bad, when.c_str());
      break;
    }
    }
    h = mc::hmix(h, uint64_t(c.op * 64 + c.t * 16 + c.a));
    mc::state(h);
  }
  g.ok = true;
}
// leaving the recorded branches is reported
static void flowCase(int n, int d) {
  tapes();
  Reset g;
  rec(tA, n, n, PT[0], [=](const adouble *X, adouble *Y) { body<adouble>(BRANCH, n, n, X, Y); });
  mc::trace();
  for (int rep = 0; rep < 2; rep++) {
    M2<double> T(5, 200), S(5, 5, 1.0), X(size_t(n), size_t(d) + 1, 0.5);
    for (int i = 0; i < n; i++) X[size_t(i)][0] = PT[2][i];
    V x(PT[2], PT[2] + n);
    auto neg = [&](int rc, const char *w) { mc::checked(); mc::count(cFlow); if (rc >= 0) fail("flow", "%s returned %d at a point where the recorded branches are left", w, rc); };
    neg(tensor_eval(tA, n, n, d, 2, x.data(), T, S), "tensor_eval");
    if (d > 0) neg(forodec(tA, n, 0.5, 0, d, X), "forode");
    // at a valid point everything works
    double y0[5];
    if (zos_forward(tA, n, n, 0, PT[1], y0) < 0) fail("flow", "zos_forward fails afterwards");
    tensorCheck(tA, n, n, d, 2, PT[1], [=](int i, int j) { return seed(1, i, j); }, fam(BRANCH, n, n), "afterwards", false);
    if (d > 0) odeCheck(tA, n, PT[1], 0.5, d, 0, 0, famO(BRANCH, n), "afterwards");
  }
  g.ok = true;
}

struct R : mc::Runner {
  std::vector<Op> A;
  void setup() override {
    childInit = [] { tA = tB = -1; };
    cSingular = mc::counter("singular_jacobian");
    cDomain = mc::counter("outside_domain");
    cFlow = mc::counter("branches_left");
    cKink = mc::counter("at_kink");
    const int DMAX = 5, PM = mc::thorough ? 4 : 3;
    {
      mc::Space s;
      s.name = "tensor"; s.n = uint64_t(NKIND * 3 * 4 * (DMAX + 1) * PM * 4 * 2); s.chunk = 60;
      s.rule = fmt("function families x 1..3 dependents x 1..4 independents x degrees 0..%d x 1..%d directions x seed matrices x points", DMAX, PM);
      auto dec = [=](uint64_t k, int *v) { mc::Dec d(k); v[0] = int(d(NKIND)); v[1] = 1 + int(d(3)); v[2] = 1 + int(d(4)); v[3] = int(d(uint64_t(DMAX + 1))); v[4] = 1 + int(d(uint64_t(PM))); v[5] = int(d(4)); v[6] = int(d(2)); };
      s.run = [=](uint64_t k) { int v[7]; dec(k, v); tensorCase(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); };
      s.describe = [=](uint64_t k) { int v[7]; dec(k, v); return fmt("%s m%d n%d d%d p%d seed%d point%d", kindName[v[0]], v[1], v[2], v[3], v[4], v[5], v[6]); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      const int N = mc::thorough ? 3 : 2, M = mc::thorough ? 2 : 1;
      s.name = "tensor-high"; s.n = uint64_t(NKIND * M * N * 3 * 3 * 4 * 2); s.chunk = 20;
      s.rule = fmt("function families x 1..%d dependents x 1..%d independents x degrees 6..8 x 1..3 directions x seed matrices x points", M, N);
      auto dec = [=](uint64_t k, int *v) { mc::Dec d(k); v[0] = int(d(NKIND)); v[1] = 1 + int(d(uint64_t(M))); v[2] = 1 + int(d(uint64_t(N))); v[3] = 6 + int(d(3)); v[4] = 1 + int(d(3)); v[5] = int(d(4)); v[6] = int(d(2)); };
      s.run = [=](uint64_t k) { int v[7]; dec(k, v); tensorCase(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); };
      s.describe = [=](uint64_t k) { int v[7]; dec(k, v); return fmt("%s m%d n%d d%d p%d seed%d point%d", kindName[v[0]], v[1], v[2], v[3], v[4], v[5], v[6]); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "inverse"; s.n = uint64_t(NKIND * 4 * (DMAX + 1) * PM * 4 * 3); s.chunk = 60;
      s.rule = "function families x 1..4 variables x degrees x directions x seed matrices x points: the composition with the function must be the identity";
      auto dec = [=](uint64_t k, int *v) { mc::Dec d(k); v[0] = int(d(NKIND)); v[1] = 1 + int(d(4)); v[2] = int(d(uint64_t(DMAX + 1))); v[3] = 1 + int(d(uint64_t(PM))); v[4] = int(d(4)); v[5] = int(d(3)); };
      s.run = [=](uint64_t k) { int v[6]; dec(k, v); inverseCase(v[0], v[1], v[2], v[3], v[4], v[5]); };
      s.describe = [=](uint64_t k) { int v[6]; dec(k, v); return fmt("%s n%d d%d p%d seed%d point%d", kindName[v[0]], v[1], v[2], v[3], v[4], v[5]); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "ode"; s.n = uint64_t(NKIND * 4 * (DG + 1) * (DG + 1) * 4 * 4 * 3); s.chunk = 200;
      s.rule = fmt("right-hand sides x 1..4 states x degrees 0..%d x every split into two calls x scalings x calling conventions x points, with the Jacobians of all coefficients", DG);
      auto dec = [=](uint64_t k, int *v) { mc::Dec d(k); v[0] = int(d(NKIND)); v[1] = 1 + int(d(4)); v[2] = int(d(DG + 1)); v[3] = int(d(DG + 1)); v[4] = int(d(4)); v[5] = int(d(4)); v[6] = int(d(3)); };
      s.run = [=](uint64_t k) { int v[7]; dec(k, v); if (v[3] > v[2]) { mc::trivial(); return; } odeCase(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); };
      s.describe = [=](uint64_t k) { int v[7]; dec(k, v); return fmt("%s n%d deg%d split%d tau%d var%d point%d", kindName[v[0]], v[1], v[2], v[3], v[4], v[5], v[6]); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "flow"; s.n = 4 * 5; s.chunk = 5;
      s.rule = "points where recorded branches are left, then valid points";
      s.run = [=](uint64_t k) { flowCase(1 + int(k % 4), int(k / 4)); };
      s.describe = [=](uint64_t k) { return fmt("n%d d%d", 1 + int(k % 4), int(k / 4)); };
      spaces.push_back(s);
    }
    static const double P[2] = {0.4, 0.7};
    for (int len = 1; len <= 2; len++) {
      auto B = alphabet(len == 1 ? cfgFull() : mc::thorough ? cfgMid() : cfgSmall());
      mc::Space s;
      s.name = fmt("ops%d", len); s.n = mc::ipow(B.size(), unsigned(len)); s.chunk = 200;
      s.rule = fmt("all programs of %d operations from %zu: tensors, inverse tensors, solution of the differential equation", len, B.size());
      s.run = [=](uint64_t k) { progCase(prog(B, len, k), P); };
      s.describe = [=](uint64_t k) { return dsl::str(prog(B, len, k)); };
      spaces.push_back(s);
    }
    auto H = hcmds();
    for (int depth = 1; depth <= (mc::thorough ? 4 : 3); depth++) {
      mc::Space s;
      s.name = fmt("hist%d", depth); s.n = mc::ipow(H.size(), unsigned(depth)); s.chunk = 300;
      s.rule = fmt("all sequences of %d calls from %zu (Newton solves in all modes incl. singular points, tensors, inverse tensors, differential equations, recordings, refused calls) on two traces", depth, H.size());
      auto dec = [=](uint64_t k) { std::vector<HCmd> v; for (int i = 0; i < depth; i++) { v.push_back(H[k % H.size()]); k /= H.size(); } return v; };
      s.run = [=](uint64_t k) { hist(dec(k)); };
      s.describe = [=](uint64_t k) { std::string t; for (auto &c : dec(k)) t += (t.empty() ? "" : " ") + ::str(c); return t; };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
