// C20: the Taylor, Newton and ODE drivers on many variables and directions.
#include <functional>
#include "mc.h"
#include "arr.h"
#include "mpoly.h"
#include <adolc/adolc.h>
#include <adolc/drivers/odedrivers.h>
#include <adolc/drivers/taylor.h>
#include <adolc/interfaces.h>
using mc::fail;
using mc::fmt;
using arr::M2;
using arr::M3;
using ref::MP;
typedef std::vector<double> V;
constexpr double Q = -77.125;
static short tag = -1;
struct Guard { bool ok = false; Guard() { if (tag < 0) tag = createNewTape(); setCurrentTape(tag); } ~Guard() { if (!ok) tag = -1; } };
static double coef(int i, int j, int k) { return double((i * 7 + j * 11 + k * 13 + i * j * 3) % 17 - 8) / 16.0; }
template <class F> static void rec(int m, int n, const V &x, F f) {
  trace_on(tag);
  {
    std::vector<adouble> X(static_cast<size_t>(n)), Y(static_cast<size_t>(m));
    double o;
    for (size_t j = 0; j < X.size(); j++) X[j] <<= x[j];
    f(X.data(), Y.data());
    for (auto &y : Y) y >>= o;
  }
  trace_off();
  mc::trace();
}
static V point(int n, int pt) { V x(static_cast<size_t>(n)); for (int j = 0; j < n; j++) x[size_t(j)] = 0.25 + 0.0625 * ((j * 5 + pt * 3) % 9) - (pt == 1) * 0.5; return x; }
// ------------------------------------------------ many directions: y_i = a_i exp(w_i x)
static void directions(int m, int n, int d, int p, int s) {
  Guard g;
  auto w = [&](int i, int j) { return n == 1 ? 0.5 : coef(i, j, 1) * 0.5; };
  V x = point(n, s);
  rec(m, n, point(n, 2), [&](const adouble *X, adouble *Y) {
    for (int i = 0; i < m; i++) { adouble e = 0.0; for (int j = 0; j < n; j++) e += X[j] * w(i, j); Y[i] = (1.0 + i) * exp(e); }
  });
  const size_t N = size_t(binomi(size_t(p + d), size_t(d)));
  M2<double> T(size_t(m) + 1, N, Q), S(static_cast<size_t>(n), static_cast<size_t>(p));
  for (int j = 0; j < n; j++) for (int k = 0; k < p; k++) S[size_t(j)][k] = s == 0 ? double(k % n == j) + 0.125 * (k / n) : coef(j, k, 5) + 0.5;
  for (int rep = 0; rep < 2; rep++) {
    T.fill(Q);
    mc::transition();
    const int rc = tensor_eval(tag, m, n, d, p, x.data(), T, S);
    if (rc < 0) fail("rc", "tensor_eval returned %d", rc);
    std::vector<char> seen(N, 0);
    std::vector<int> mu(static_cast<size_t>(d), 0);
    V val(static_cast<size_t>(m));
    std::vector<V> ws(static_cast<size_t>(m), V(size_t(p) + 1, 1.0));
    for (int i = 0; i < m; i++) {
      double e = 0;
      for (int j = 0; j < n; j++) e += x[size_t(j)] * w(i, j);
      val[size_t(i)] = (1.0 + i) * std::exp(e);
      for (int k = 0; k < p; k++) { double q = 0; for (int j = 0; j < n; j++) q += w(i, j) * S[size_t(j)][k]; ws[size_t(i)][size_t(k) + 1] = q; }
    }
    for (;;) { // all non-increasing multi-indices
      std::vector<int> c = mu;
      const size_t ad = d ? tensor_address(d, c.data()) : 0;
      if (ad >= N || seen[ad]) fail("address", "address %zu in a tensor of degree %d in %d directions", ad, d, p);
      seen[ad] = 1;
      for (int i = 0; i < m; i++) {
        double q = val[size_t(i)];
        for (int k : mu) q *= ws[size_t(i)][size_t(k)];
        mc::checked();
        if (!(std::fabs(T[size_t(i)][ad] - q) <= (d < 4 ? 1e-9 : 1e-7) * (1 + i) * 8)) { std::string z; for (int k : mu) z += fmt(" %d", k); fail("tensor", "entry [%d](%s ) is %.15g instead of %.15g (call %d)", i, z.c_str(), T[size_t(i)][ad], q, rep + 1); }
      }
      int k = d - 1;
      while (k >= 0 && mu[size_t(k)] == (k ? mu[size_t(k) - 1] : p)) k--;
      if (k < 0) break;
      mu[size_t(k)]++;
      for (int q = k + 1; q < d; q++) mu[size_t(q)] = 0;
    }
    for (size_t k = 0; k < N; k++) { if (!seen[k]) fail("address", "entry %zu has no multi-index", k); if (T[size_t(m)][k] != Q) fail("overrun", "the row after the tensor is overwritten"); }
  }
  mc::state(mc::hmix(uint64_t(m * 64 + n), uint64_t(d * 4096 + p * 8 + s)));
  g.ok = true;
}
// ------------------------------------------------ systems with a known, regular Jacobian
enum { DOM, PERM, UPPER, ANTI, GRADED, ARROW, NJ };
static double A(int kind, int n, int i, int j) {
  switch (kind) {
  case DOM: return i == j ? 2.0 + 0.25 * (i % 3) : coef(i, j, 2) / n;
  case PERM: return j == (i * (n > 2 && n % 2 ? 2 : 1) + n / 2) % n ? 1.0 + ((i * 5) % 7) * 0.5 : 0.0;
  case UPPER: return i == j ? 1.0 + 0.5 * (i % 2) : j > i && j - i < 4 ? coef(i, j, 3) : 0.0;
  case ANTI: return i + j == n - 1 ? 1.5 : i + j == n ? 0.5 : i == j ? 0.25 : 0.0;
  case GRADED: return (i + 1) % n == j ? 4.0 + j : j == n - 1 ? 0.5 * coef(i, j, 4) : i > j ? 0.25 * coef(i, j, 4) : 0.0;
  default: return i == 0 || j == 0 ? 0.5 : i == j ? 2.0 + i % 3 : 0.0;
  }
}
template <class T> static void sys(int kind, int n, const T *x, T *y) {
  using namespace std;
  using namespace ref;
  for (int i = 0; i < n; i++) {
    T s = x[i] * 0.0 + 0.125 * i;
    for (int j = 0; j < n; j++) if (A(kind, n, i, j) != 0) s = s + A(kind, n, i, j) * (j % 2 ? x[j] + 0.125 * x[j] * x[j] : x[j]);
    y[i] = kind == DOM ? s + 0.0625 * sin(x[(i + 1) % n]) : s;
  }
}
static std::vector<std::vector<long double>> jac(int kind, int n, const V &x) {
  std::vector<std::vector<long double>> J(static_cast<size_t>(n), std::vector<long double>(static_cast<size_t>(n), 0));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { J[size_t(i)][size_t(j)] = A(kind, n, i, j) * (j % 2 ? 1 + 0.25L * x[size_t(j)] : 1.0L); if (kind == DOM && j == (i + 1) % n) J[size_t(i)][size_t(j)] += 0.0625L * std::cos(x[size_t(j)]); }
  return J;
}
static bool solveRef(std::vector<std::vector<long double>> a, std::vector<long double> b, std::vector<long double> &z) {
  const size_t n = b.size();
  for (size_t k = 0; k < n; k++) {
    size_t p = k;
    for (size_t i = k; i < n; i++) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    if (std::fabs(a[p][k]) < 0.01L) return false;
    std::swap(a[k], a[p]);
    std::swap(b[k], b[p]);
    for (size_t i = k + 1; i < n; i++) { const long double l = a[i][k] / a[k][k]; for (size_t j = k; j < n; j++) a[i][j] -= l * a[k][j]; b[i] -= l * b[k]; }
  }
  z.assign(n, 0);
  for (size_t k = n; k-- > 0;) { long double s = b[k]; for (size_t j = k + 1; j < n; j++) s -= a[k][j] * z[j]; z[k] = s / a[k][k]; if (std::fabs(z[k]) > 1e4L) return false; }
  return true;
}
static int cSing;
static void newton(int kind, int n, int seq) {
  Guard g;
  static const unsigned short MODES[4][3] = {{2, 2, 2}, {0, 1, 2}, {1, 2, 2}, {2, 0, 2}};
  V x[3] = {point(n, 0), point(n, seq % 2), point(n, seq < 2 ? 2 : 0)};
  rec(n, n, point(n, 0), [&](const adouble *X, adouble *Y) { sys(kind, n, X, Y); });
  for (int c = 0; c < 3; c++) {
    V b(size_t(n) + 1, Q), b0, xa = x[c];
    for (int i = 0; i < n; i++) b[size_t(i)] = coef(i, c, 9) + 0.5;
    b0 = b;
    std::vector<long double> z;
    if (!solveRef(jac(kind, n, x[c]), std::vector<long double>(b.begin(), b.end() - 1), z)) { mc::count(cSing); continue; }
    mc::transition();
    const unsigned short mode = MODES[seq][c];
    const int rc = jac_solv(static_cast<unsigned short>(tag), n, xa.data(), b.data(), mode);
    if (rc < 0) fail("jac_solv", "mode %d returned %d", mode, rc);
    if (xa != x[c]) fail("jac_solv", "the argument was changed");
    if (b.back() != Q) fail("overrun", "the element after the right-hand side is overwritten");
    for (int i = 0; i < n; i++) { mc::checked(); const double want = mode == 2 ? double(z[size_t(i)]) : b0[size_t(i)]; if (!(std::fabs(b[size_t(i)] - want) <= (mode == 2 ? 1e-7 * std::max(1.0, std::fabs(want)) : 0))) fail("jac_solv", "mode %d, call %d: component %d is %.15g instead of %.15g", mode, c + 1, i, b[size_t(i)], want); }
  }
  mc::state(mc::hmix(uint64_t(kind), uint64_t(n * 4 + seq)));
  g.ok = true;
}
static void inverse(int kind, int n, int d, int p, int s) {
  Guard g;
  V x = point(n, s);
  std::vector<long double> z;
  if (!solveRef(jac(kind, n, x), std::vector<long double>(size_t(n), 1), z)) { mc::count(cSing); mc::trivial(); g.ok = true; return; }
  rec(n, n, point(n, 2), [&](const adouble *X, adouble *Y) { sys(kind, n, X, Y); });
  MP::setup(p, d);
  const size_t N = size_t(MP::N), NN = size_t(n);
  M2<double> T(NN + 1, N, Q), S(NN, static_cast<size_t>(p));
  for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) S[size_t(i)][j] = s == 0 ? double(i == j) : coef(i, j, 6);
  mc::transition();
  const int rc = inverse_tensor_eval(tag, n, d, p, x.data(), T, S);
  if (rc < 0) fail("rc", "inverse_tensor_eval returned %d", rc);
  std::vector<MP> Z(NN), Y(NN);
  double scale = 1;
  for (size_t i = 0; i < NN; i++) for (size_t k = 0; k < N; k++) {
    std::vector<int> mu;
    double f = 1;
    for (int q = p; q-- > 0;) for (int r = 0; r < MP::ex[k][size_t(q)]; r++) { mu.push_back(q + 1); f *= r + 1; }
    mu.resize(static_cast<size_t>(d), 0);
    Z[i].c[k] = T[i][d ? tensor_address(d, mu.data()) : 0] / f;
    scale = std::max(scale, std::fabs(Z[i].c[k]));
  }
  if (scale > 1e3) { mc::count(cSing); g.ok = true; return; }
  for (size_t i = 0; i < NN; i++) if (Z[i].c[0] != x[i]) fail("inverse", "the value of component %zu is %.15g instead of %.15g", i, Z[i].c[0], x[i]);
  sys(kind, n, Z.data(), Y.data());
  for (size_t i = 0; i < NN; i++) for (size_t k = 1; k < N; k++) {
    int order = 0, var = 0;
    for (int q = 0; q < p; q++) { order += MP::ex[k][size_t(q)]; if (MP::ex[k][size_t(q)]) var = q; }
    const double want = order == 1 ? S[i][var] : 0;
    mc::checked();
    if (!(std::fabs(Y[i].c[k] - want) <= 1e-7 * scale * scale)) fail("inverse", "F(z) has the coefficient %.15g instead of %.15g at component %zu, term %zu", Y[i].c[k], want, i, k);
  }
  for (size_t k = 0; k < N; k++) if (T[NN][k] != Q) fail("overrun", "the row after the tensor is overwritten");
  mc::state(mc::hmix(uint64_t(kind * 4096 + n), uint64_t(d * 64 + p * 4 + s)));
  g.ok = true;
}
// ------------------------------------------------ differential equations
constexpr int NX = 20, DG = 7;
typedef ref::Dual<NX> DN;
typedef ref::Tay<DN, DG> TD;
static void ode(int kind, int n, int deg, int split, int tauk) {
  Guard g;
  const double tau = tauk == 0 ? 1 : tauk == 1 ? 0.25 : -0.5;
  V x = point(n, 0);
  rec(n, n, point(n, 2), [&](const adouble *X, adouble *Y) { sys(kind, n, X, Y); });
  std::vector<TD> X(static_cast<size_t>(n)), Y(static_cast<size_t>(n));
  const size_t N = size_t(n), D = size_t(deg);
  for (size_t i = 0; i < N; i++) { X[i].c[0] = x[i]; X[i].c[0].g[i] = 1; }
  for (int k = 0; k < deg; k++) { sys(kind, n, X.data(), Y.data()); for (size_t i = 0; i < N; i++) X[i].c[k + 1] = Y[i].c[k] * (tau / (k + 1)); }
  M2<double> R(N + 1, D + 1, Q);
  for (size_t i = 0; i < N; i++) R[i][0] = x[i];
  auto call = [&](int a, int b) { mc::transition(); const int rc = forodec(tag, n, tau, a, b, R); if (rc < 0) fail("rc", "forodec returned %d", rc); };
  if (split) call(0, split);
  call(split, deg);
  auto eq = [&](const char *w, double got, double want, size_t i, size_t j, int k) { mc::checked(); if (!(std::fabs(got - want) <= 1e-9 * std::max(1.0, std::fabs(want)))) fail("ode", "%s[%zu][%zu][%d] is %.15g instead of %.15g", w, i, j, k, got, want); };
  for (size_t i = 0; i < N; i++) for (int k = 0; k <= deg; k++) eq("series", R[i][k], X[i].c[k].v, i, 0, k);
  for (int k = 0; k <= deg; k++) if (R[N][k] != Q) fail("overrun", "the row after the series is overwritten");
  M2<double> I(N, N, 0.0);
  for (size_t i = 0; i < N; i++) I[i][i] = 1;
  M3<double> Z(N, N, D, Q), B(N, N, D, Q);
  M2<short> nz(N, N, short(-7));
  const int rc = hov_reverse(tag, n, n, deg - 1, n, I, Z, nz);
  if (rc < 0) fail("rc", "hov_reverse after forodec returned %d", rc);
  for (int sp = 0; sp < 2; sp++) {
    B.fill(Q);
    accodec(n, tau, deg - 1, Z, B, sp ? static_cast<short **>(nz) : nullptr);
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (int k = 0; k < deg; k++) eq(sp ? "sparse B" : "B", B[i][j][k], X[i].c[k + 1].g[j], i, j, k);
  }
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (int k = 0; k < deg && k < -nz[i][j]; k++) if (X[i].c[k + 1].g[j] != 0) fail("pattern", "the pattern claims that B[%zu][%zu][%d] vanishes", i, j, k);
  mc::state(mc::hmix(uint64_t(kind * 4096 + n), uint64_t(deg * 64 + split * 4 + tauk)));
  g.ok = true;
}
struct R : mc::Runner {
  template <class C, class D, class F> void add(const char *name, uint64_t n, int chunk, const char *rule, D dec, F run, std::function<std::string(const C &)> str) {
    mc::Space s;
    s.name = name; s.n = n; s.chunk = chunk; s.rule = rule;
    s.run = [=](uint64_t k) { run(dec(k)); };
    s.describe = [=](uint64_t k) { return str(dec(k)); };
    spaces.push_back(s);
  }
  void setup() override {
    cSing = mc::counter("singular");
    childInit = [] { tag = -1; };
    struct C { int a, b, c, d, e; };
    auto str = [](const char *f) { return [f](const C &c) { return fmt(f, c.a, c.b, c.c, c.d, c.e); }; };
    {
      static const int NS[] = {1, 3, 7, 12}, MS[] = {1, 2, 6}, P[] = {0, 24, 24, 18, 9, 6};
      add<C>("directions", uint64_t(81) * 4 * 3 * 2, 12, "exponential functions of 1..12 variables, 1..6 values x 1..24 directions (degrees 1 and 2), 1..18 (3), 1..9 (4), 1..6 (5) x seed matrices: every entry of the tensor, twice",
             [](uint64_t q) { mc::Dec d(q); C c; c.e = int(d(2)); c.a = MS[d(3)]; c.b = NS[d(4)]; int r = int(d(81)); c.c = 1; while (r >= P[c.c]) r -= P[c.c++]; c.d = r + 1; return c; },
             [](const C &c) { directions(c.a, c.b, c.c, c.d, c.e); }, str("m%d n%d degree %d, %d directions, seed %d"));
    }
    // what the drivers keep between calls must follow the shapes
    auto fresh = [](auto f) { return [f](const std::vector<C> &q) { tag = createNewTape(); for (auto &c : q) f(c); tag = -1; }; };
    auto seqs = [&](const char *name, std::vector<C> all, int len, int chunk, const char *rule, auto f, std::function<std::string(const C &)> st) {
      mc::Space s;
      s.name = name; s.n = mc::ipow(all.size(), unsigned(len)); s.chunk = chunk;
      s.rule = rule;
      auto dec = [=](uint64_t k) { std::vector<C> q; for (int i = 0; i < len; i++) { q.push_back(all[k % all.size()]); k /= all.size(); } return q; };
      auto run = fresh(f);
      s.run = [=](uint64_t k) { run(dec(k)); };
      s.describe = [=](uint64_t k) { std::string r; for (auto &c : dec(k)) r += "[" + st(c) + "] "; return r; };
      spaces.push_back(s);
    };
    {
      std::vector<C> a, b, e;
      for (int n : {1, 2, 3, 5}) for (int d : {1, 2, 4, 7}) a.push_back({n == 2 ? GRADED : DOM, n, d, 0, 0});
      for (int n : {1, 2, 4}) for (int d = 1; d <= 3; d++) for (int q = 1; q <= 2; q++) b.push_back({n == 2 ? ARROW : DOM, n, d, q, 1});
      for (int n : {1, 2, 3, 5, 8}) for (int k = 0; k < 4; k++) e.push_back({k % 2 ? GRADED : DOM, n, k, 0, 0});
      seqs("ode-shapes", a, 3, 60, "all sequences of three recordings with 1..5 states and degrees 1..7 on one trace: what a call leaves behind does not matter", [](const C &c) { ode(c.a, c.b, c.c, 0, 0); }, str("right-hand side %d, %d states, degree %d"));
      seqs("inverse-shapes", b, mc::thorough ? 3 : 2, 60, "all sequences of recordings with 1..4 unknowns, degrees 1..3 and 1..2 directions on one trace", [](const C &c) { inverse(c.a, c.b, c.c, c.d, c.e); }, str("Jacobian %d, %d unknowns, degree %d, %d directions, seed %d"));
      seqs("newton-shapes", e, mc::thorough ? 3 : 2, 60, "all sequences of recordings with 1..8 unknowns and modes on one trace", [](const C &c) { newton(c.a, c.b, c.c); }, str("Jacobian %d, %d unknowns, sequence %d"));
      std::vector<C> t;
      for (int n : {1, 3}) for (int d = 1; d <= 3; d++) for (int q : {1, 2, 11}) t.push_back({n, n, d, q, 0});
      seqs("tensor-shapes", t, mc::thorough ? 3 : 2, 60, "all sequences of recordings with 1..3 unknowns, degrees 1..3 and 1..11 directions on one trace", [](const C &c) { directions(c.a, c.b, c.c, c.d, c.e); }, str("m%d n%d degree %d, %d directions, seed %d"));
    }
    static const int W[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20};
    add<C>("newton", uint64_t(NJ) * 16 * 4, 24, "systems with six kinds of Jacobians (dominant, permuted, triangular, antidiagonal, graded, arrow) x 1..20 unknowns x sequences of three calls in all modes at equal and different points",
           [](uint64_t q) { mc::Dec d(q); C c{}; c.c = int(d(4)); c.b = W[d(16)]; c.a = int(d(NJ)); return c; },
           [](const C &c) { newton(c.a, c.b, c.c); }, str("Jacobian %d, %d unknowns, sequence %d"));
    add<C>("inverse-wide", uint64_t(NJ) * 12 * 4 * 3 * 2, 12, "the same systems in 1..12 unknowns x degrees 1..4 x 1..3 directions x seeds: the inverse tensors",
           [](uint64_t q) { mc::Dec d(q); C c{}; c.e = int(d(2)); c.d = int(d(3)) + 1; c.c = int(d(4)) + 1; c.b = int(d(12)) + 1; c.a = int(d(NJ)); return c; },
           [](const C &c) { inverse(c.a, c.b, c.c, c.d, c.e); }, str("Jacobian %d, %d unknowns, degree %d, %d directions, seed %d"));
    add<C>("ode-wide", uint64_t(NJ) * 16 * 7 * 7 * 3, 24, "the same right-hand sides with 1..20 states x degrees 1..7 x every split into two calls x scalings: series and Jacobians of all coefficients, dense and sparse",
           [](uint64_t q) { mc::Dec d(q); C c{}; c.e = int(d(3)); c.d = int(d(7)); c.c = int(d(7)) + 1; c.b = W[d(16)]; c.a = int(d(NJ)); return c; },
           [](const C &c) { if (c.d >= c.c) { mc::trivial(); return; } ode(c.a, c.b, c.c, c.d, c.e); }, str("right-hand side %d, %d states, degree %d, split %d, scaling %d"));
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
