// C19: convenience drivers return the matrices and vectors they are named for.
#include "dsl.h"
#include "arr.h"
#include <adolc/drivers/drivers.h>
#include <adolc/interfaces.h>
#include <functional>
using namespace dsl;
using mc::fail;
using mc::fmt;
using arr::M2;
typedef std::vector<double> V;
constexpr int NMAX = 7;
typedef ref::Dual<NMAX> D;
typedef ref::Tay<D, 1> TD;
static int cKink, cFlow, cRefused;

// ------------------------------------------------------------- functions
enum { DENSE, BIDIAG, LINEAR, SELECT, CHAIN, BRANCH, NKIND };
static const char *kindName[] = {"dense", "bidiagonal", "linear", "selections", "chain", "branch"};
static bool positive(double x) { return x > 0; }
static bool positive(const adouble &x) { return x > 0; }
template <class T> bool positive(const T &x) { return ref::val(x) > 0; }
template <class T> void body(int kind, int m, int n, const T *x, T *y) {
  using namespace std;
  using namespace ref;
  for (int i = 0; i < m; i++) {
    const T &a = x[i % n], &b = x[(i + 1) % n];
    switch (kind) {
    case DENSE: {
      T s = a * 0.0;
      for (int j = 0; j < n; j++) s = s + x[j] * (0.25 + 0.125 * ((i * 3 + j * 5) % 7));
      y[i] = sin(s) * exp(a * 0.125) + s * s * b;
      break;
    }
    case BIDIAG: y[i] = a * b * (0.5 + i); break;
    case LINEAR:
      if (i % 3 == 0) y[i] = a;
      else if (i % 3 == 1) y[i] = 2.5;
      else y[i] = x[0] * 3.0 - x[n - 1] * 0.5;
      break;
    case SELECT: {
      T u = fmax(a * a, b + 3.0 * i - 4.0), w = fabs(a - 0.0625);
      condassign(w, a + 0.015625, u * b, u * u);
      y[i] = u * w + fmin(a, 0.40625 + 0.0 * b);
      break;
    }
    case CHAIN: {
      T p = x[0] + 2.0;
      for (int j = 1; j < n; j++) p = p * (x[j] + 2.0);
      y[i] = i ? p / (y[i - 1] * y[i - 1] + 1.0 + i) : p;
      break;
    }
    default:
      if (positive(x[0])) y[i] = a * b + exp(b);
      else y[i] = a - b;
    }
  }
}
static double coord(int p, int j) { static const double c[4][NMAX] = {{0.5, 0.75, -0.25, 1.25, -0.5, 0.3125, 0.875}, {0.125, -0.5, 1.5, 0.25, 0.6875, -1.25, 0.375}, {1.75, 0.3125, 0.4375, -0.75, -0.1875, 0.9375, -0.625}, {-0.5, 0.75, -0.25, 1.25, 0.5, -0.3125, 0.875}}; return c[p][j % NMAX] + (j < NMAX ? 0 : 0.03125 * (j % 11)); }
static double dirc(int q, int j) { static const double c[4][NMAX] = {{1, -0.5, 2, 0.25, -1.5, 0.75, 0.5}, {0, 1, 0, -1, 0.5, 0, 2}, {0, 0, 0, 0, 0, 0, 0}, {-2, 0.125, 1, 3, 0.25, 1, -1}}; return c[q % 4][j % NMAX] * (1 + j / NMAX); }
static double wgt(int q, int i) { static const double c[4][6] = {{1, -0.5, 2, 0.25, -1.5, 0.75}, {0, 1, -1, 0, 0.5, 2}, {-0.25, 3, 0.5, 1, 0, 1}, {0, 0, 0, 0, 0, 0}}; return c[q % 4][i % 6] * (1 + i / 6); }

// what the drivers should return
struct Truth {
  int m, n;
  bool flow; // the recorded branches are left at this point
  V y;
  std::vector<V> J;
  std::vector<std::vector<V>> H; // per dependent
};
typedef std::function<void(const D *, D *)> FD;
typedef std::function<void(const TD *, TD *)> FT;
static Truth truth(int m, int n, const double *x, const FD &fd, const FT &ft) {
  Truth t;
  t.m = m; t.n = n; t.flow = false;
  ref::flags.clear();
  D X[NMAX], Y[8];
  for (int j = 0; j < n; j++) { X[j] = x[j]; X[j].g[j] = 1; }
  fd(X, Y);
  for (int i = 0; i < m; i++) { t.y.push_back(Y[i].v); t.J.emplace_back(Y[i].g, Y[i].g + n); t.H.push_back(std::vector<V>(size_t(n), V(size_t(n)))); }
  for (int j = 0; j < n; j++) {
    TD XT[NMAX], YT[8];
    for (int k = 0; k < n; k++) { XT[k].c[0] = X[k]; XT[k].c[1] = double(k == j); }
    ft(XT, YT);
    for (int i = 0; i < m; i++) for (int k = 0; k < n; k++) t.H[size_t(i)][size_t(k)][size_t(j)] = YT[i].c[1].g[k];
  }
  return t;
}
static Truth truthOf(int kind, int m, int n, const double *x, const double *xrec) {
  Truth t = truth(m, n, x, [=](const D *X, D *Y) { body<D>(kind, m, n, X, Y); }, [=](const TD *X, TD *Y) { body<TD>(kind, m, n, X, Y); });
  t.flow = kind == BRANCH && (x[0] > 0) != (xrec[0] > 0);
  return t;
}

// any numbers of variables: directions in blocks
static Truth truthWide(int kind, int m, int n, const double *x, const double *xrec) {
  typedef ref::Dual<8> E;
  typedef ref::Tay<E, 1> TE;
  const size_t M = size_t(m), N = size_t(n);
  Truth t;
  t.m = m; t.n = n; t.flow = kind == BRANCH && (x[0] > 0) != (xrec[0] > 0);
  ref::flags.clear();
  t.J.assign(M, V(N)); t.H.assign(M, std::vector<V>(N, V(N)));
  std::vector<TE> X(N), Y(M);
  for (int b = 0; b < n; b += 8) for (int j = 0; j < n; j++) {
    for (int k = 0; k < n; k++) { TE &e = X[size_t(k)]; e = TE{}; e.c[0].v = x[k]; if (k >= b && k < b + 8) e.c[0].g[k - b] = 1; e.c[1] = E(double(k == j)); }
    body<TE>(kind, m, n, X.data(), Y.data());
    for (size_t i = 0; i < M; i++) {
      if (!b && !j) t.y.push_back(Y[i].c[0].v);
      for (int k = b; k < n && k < b + 8; k++) { if (!j) t.J[i][size_t(k)] = Y[i].c[0].g[k - b]; t.H[i][size_t(k)][size_t(j)] = Y[i].c[1].g[k - b]; }
    }
  }
  return t;
}

// ------------------------------------------------------------- the drivers
enum { FUNCTION, GRADIENT, VECJAC, VECJACREP, JACOBIAN, LARGEJAC, JACVEC, HESSVEC, HESSMAT, HESSIAN, HESSIAN2, LAGRA, F_FUNCTION, F_GRADIENT, F_VECJAC, F_JACOBIAN, F_JACVEC, F_HESSVEC, F_HESSIAN, F_LAGRA, NDRV };
static const char *drvName[] = {"function", "gradient", "vec_jac", "vec_jac with repeat", "jacobian", "large_jacobian", "jac_vec", "hess_vec", "hess_mat", "hessian", "hessian2", "lagra_hess_vec", "function_", "gradient_", "vec_jac_", "jacobian_", "jac_vec_", "hess_vec_", "hessian_", "lagra_hess_vec_"};
static bool scalarOnly(int d) { return d == GRADIENT || (d >= HESSVEC && d <= HESSIAN2) || d == F_GRADIENT || d == F_HESSVEC || d == F_HESSIAN; }
constexpr double Q = -77.125; // untouched
// calls driver d and compares; a selects a variant (direction, weight, runs, columns)
static void call(int d, short tag, const Truth &t, const double *x, int a, const char *when, double tol) {
  const int m = t.m, n = t.n;
  const size_t M = size_t(m), N = size_t(n);
  V xa(x, x + n), u(M + 1, Q), v(N + 1, Q), u2(M);
  for (int i = 0; i < m; i++) { u[size_t(i)] = wgt(a, i); u2[size_t(i)] = wgt(a + 1, i); }
  for (int j = 0; j < n; j++) v[size_t(j)] = dirc(a, j);
  const V xa0 = xa, u0 = u, v0 = v;
  int rc = -9;
  bool refused = false;
  fint ft = tag, fm = m, fn = n, f0 = 0;
  auto cmp = [&](const char *what, double got, double want, int i, int j) {
    mc::checked();
    if (!mc::close(got, want, tol)) fail(drvName[d], "%s(%d,%d) is %.17g instead of %.17g (variant %d, %s)", what, i, j, got, want, a, when);
  };
  auto cmpq = [&](double got, const char *what) { mc::checked(); if (got != Q) fail(drvName[d], "%s is overwritten with %.17g (variant %d, %s)", what, got, a, when); };
  std::function<void()> result;
  mc::transition();
  V r(std::max(M, N) * N + M + N + 4, Q);
  M2<double> J(M + 1, N, Q), H(N + 1, N, Q);
  const int q = 1 + a % 4;
  M2<double> T(N, size_t(q)), W(N, size_t(q), Q);
  auto vecj = [&](const V &w, const double *z) { for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) s += w[size_t(i)] * t.J[size_t(i)][size_t(j)]; cmp("z", z[j], s, j, 0); } };
  auto lagr = [&](const V &w, const double *z) { for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < m; i++) for (int k = 0; k < n; k++) s += w[size_t(i)] * t.H[size_t(i)][size_t(j)][size_t(k)] * v[size_t(k)]; cmp("w", z[j], s, j, 0); } };
  const V one(1, 1.0);
  try {
    switch (d) {
    case FUNCTION: case F_FUNCTION:
      rc = d == FUNCTION ? ::function(tag, m, n, xa.data(), r.data()) : int(function_(&ft, &fm, &fn, xa.data(), r.data()));
      result = [&] { for (int i = 0; i < m; i++) cmp("y", r[size_t(i)], t.y[size_t(i)], i, 0); cmpq(r[M], "the element after the values"); };
      break;
    case GRADIENT: case F_GRADIENT:
      rc = d == GRADIENT ? gradient(tag, n, xa.data(), r.data()) : int(gradient_(&ft, &fn, xa.data(), r.data()));
      result = [&] { for (int j = 0; j < n; j++) cmp("g", r[size_t(j)], t.J[0][size_t(j)], j, 0); cmpq(r[N], "the element after the gradient"); };
      break;
    case VECJAC: case F_VECJAC:
      rc = d == VECJAC ? vec_jac(tag, m, n, 0, xa.data(), u.data(), r.data()) : int(vec_jac_(&ft, &fm, &fn, &f0, xa.data(), u.data(), r.data()));
      result = [&] { vecj(u, r.data()); cmpq(r[N], "the element after the vector"); };
      break;
    case VECJACREP: {
      int rc0 = vec_jac(tag, m, n, 0, xa.data(), u.data(), r.data());
      if (rc0 < 0) { rc = rc0; break; }
      V rr(N + 1, Q);
      for (int rep = 0; rep < 2; rep++) { rc = vec_jac(tag, m, n, 1 + rep, xa.data(), u2.data(), rr.data()); if (rc < 0) fail(drvName[d], "vec_jac with repeat returned %d after vec_jac returned %d (%s)", rc, rc0, when); vecj(u2, rr.data()); }
      result = [&] { vecj(u, r.data()); };
      break;
    }
    case JACOBIAN:
      rc = jacobian(tag, m, n, xa.data(), J);
      result = [&] { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) cmp("J", J[size_t(i)][j], t.J[size_t(i)][size_t(j)], i, j); cmpq(J[M][0], "the row after the Jacobian"); };
      break;
    case F_JACOBIAN:
      rc = int(jacobian_(&ft, &fm, &fn, xa.data(), r.data()));
      result = [&] { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) cmp("J", r[size_t(i) + size_t(j) * M], t.J[size_t(i)][size_t(j)], i, j); cmpq(r[M * N], "the element after the Jacobian"); };
      break;
    case LARGEJAC: {
      rc = large_jacobian(tag, m, n, a - 1, xa.data(), r.data(), J);
      result = [&] { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) cmp("J", J[size_t(i)][j], t.J[size_t(i)][size_t(j)], i, j); cmpq(J[M][0], "the row after the Jacobian"); for (int i = 0; i < m; i++) cmp("y", r[size_t(i)], t.y[size_t(i)], i, 0); cmpq(r[M], "the element after the values"); };
      break;
    }
    case JACVEC: case F_JACVEC:
      rc = d == JACVEC ? jac_vec(tag, m, n, xa.data(), v.data(), r.data()) : int(jac_vec_(&ft, &fm, &fn, xa.data(), v.data(), r.data()));
      result = [&] { for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += t.J[size_t(i)][size_t(j)] * v[size_t(j)]; cmp("Jv", r[size_t(i)], s, i, 0); } cmpq(r[M], "the element after the vector"); };
      break;
    case HESSVEC: case F_HESSVEC:
      rc = d == HESSVEC ? hess_vec(tag, n, xa.data(), v.data(), r.data()) : int(hess_vec_(&ft, &fn, xa.data(), v.data(), r.data()));
      result = [&] { lagr(one, r.data()); cmpq(r[N], "the element after the vector"); };
      break;
    case HESSMAT:
      for (size_t j = 0; j < N; j++) for (int c = 0; c < q; c++) T[j][c] = dirc(a + c, int(j));
      rc = hess_mat(tag, n, q, xa.data(), T, W);
      result = [&] {
        for (int c = 0; c < q; c++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += t.H[0][size_t(j)][size_t(k)] * T[size_t(k)][c]; cmp("W", W[size_t(j)][c], s, j, c); }
        for (size_t j = 0; j < N; j++) for (int c = 0; c < q; c++) if (T[j][c] != dirc(a + c, int(j))) fail(drvName[d], "the tangent matrix was changed");
        cmpq(W.d.back(), "the element after the matrix");
      };
      break;
    case HESSIAN: case HESSIAN2:
      rc = d == HESSIAN ? hessian(tag, n, xa.data(), H) : hessian2(tag, n, xa.data(), H);
      result = [&] {
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (j <= i) cmp("H", H[size_t(i)][j], t.H[0][size_t(i)][size_t(j)], i, j); else cmpq(H[size_t(i)][j], "the upper triangle"); }
        cmpq(H[N][0], "the row after the Hessian");
      };
      break;
    case F_HESSIAN:
      rc = int(hessian_(&ft, &fn, xa.data(), r.data()));
      result = [&] {
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (j <= i) cmp("H", r[size_t(i) + size_t(j) * N], t.H[0][size_t(i)][size_t(j)], i, j); else cmpq(r[size_t(i) + size_t(j) * N], "the upper triangle"); }
        cmpq(r[N * N], "the element after the Hessian");
      };
      break;
    case LAGRA: case F_LAGRA:
      rc = d == LAGRA ? lagra_hess_vec(tag, m, n, xa.data(), v.data(), u.data(), r.data()) : int(lagra_hess_vec_(&ft, &fm, &fn, xa.data(), v.data(), u.data(), r.data()));
      result = [&] { lagr(u, r.data()); cmpq(r[N], "the element after the vector"); };
      break;
    }
  } catch (const mc::CaseFail &) { throw; } catch (const std::exception &e) { fail(drvName[d], "%s raised '%.100s' (variant %d, %s)", drvName[d], e.what(), a, when); }
  if (xa != xa0 || u != u0 || v != v0) fail(drvName[d], "an input was changed (%s)", when);
  (void)refused;
  if (t.flow) { mc::count(cFlow); if (rc >= 0) fail(drvName[d], "returned %d at a point where the recorded branches are left (%s)", rc, when); return; }
  if (rc < 0) fail(drvName[d], "returned %d (variant %d, %s)", rc, a, when);
  result();
}

// ------------------------------------------------------------- recording
static void recKind(short tag, int kind, int m, int n, const double *x) {
  setCurrentTape(tag);
  trace_on(tag);
  {
    std::vector<adouble> X(static_cast<size_t>(n)), Y(static_cast<size_t>(m));
    double o;
    for (size_t j = 0; j < X.size(); j++) X[j] <<= x[j];
    body<adouble>(kind, m, n, X.data(), Y.data());
    for (auto &y : Y) y >>= o;
  }
  trace_off();
}
static short tA = -1, tB = -1;
static void tapes() { if (tA < 0) { tA = createNewTape(); tB = createNewTape(); } }
struct Reset { bool ok = false; ~Reset() { if (!ok) tA = -1; } };

static void sizes(int kind, int m, int n, int p, int p0, bool wide = false) {
  double x[80], x0[80];
  for (int j = 0; j < 80; j++) { x[j] = coord(p, j); x0[j] = coord(p0, j); }
  tapes();
  Reset g;
  recKind(tA, kind, m, n, x0);
  mc::trace();
  Truth t = wide ? truthWide(kind, m, n, x, x0) : truthOf(kind, m, n, x, x0);
  if (ref::flags.kink) { mc::count(cKink); g.ok = true; return; }
  for (int d = 0; d < NDRV; d++) {
    if (m != 1 && scalarOnly(d)) continue;
    const int na = d == LARGEJAC ? n + 4 : (d == FUNCTION || d == GRADIENT || d == JACOBIAN || d == HESSIAN || d == HESSIAN2 || d == F_FUNCTION || d == F_GRADIENT || d == F_JACOBIAN || d == F_HESSIAN) ? 1 : 4;
    for (int a = 0; a < na; a++) call(d, tA, t, x, a, "after recording", 1e-10);
  }
  uint64_t h = mc::hmix(uint64_t(kind), uint64_t(m * 8 + n));
  for (double v : t.y) h = mc::hdouble(h, v);
  mc::state(h);
  g.ok = true;
}
// every program of the shared alphabet; outputs: the chosen registers
static void progCase(const Prog &p, int outs, const double *x) {
  double y[NR];
  if (!runDouble(p, x, y) || illConditioned(p, x)) { mc::count(cRefused); mc::trivial(); return; }
  for (auto &o : p) if (o.k == UN && o.f == CBRT) { mc::trivial(); return; }
  std::vector<int> sel;
  if (outs < 3) sel = {outs}; else sel = {2, 0, 1};
  const int m = int(sel.size());
  auto fd = [&](const auto *X, auto *Y) {
    typedef std::remove_cvref_t<decltype(*X)> T;
    T r[NR] = {X[0], X[1], T(R2)};
    for (auto &o : p) exec<T>(o, r);
    for (int i = 0; i < m; i++) Y[i] = r[sel[size_t(i)]];
  };
  Truth t = truth(m, 2, x, [&](const D *X, D *Y) { fd(X, Y); }, [&](const TD *X, TD *Y) { fd(X, Y); });
  if (ref::flags.kink) { mc::count(cKink); mc::trivial(); return; }
  auto bad = [](double v) { return !std::isfinite(v) || std::fabs(v) > 1e7; };
  for (auto &r : t.J) for (double v : r) if (bad(v)) { mc::count(cRefused); mc::trivial(); return; }
  for (auto &H : t.H) for (auto &r : H) for (double v : r) if (bad(v)) { mc::count(cRefused); mc::trivial(); return; }
  tapes();
  Reset g;
  setCurrentTape(tA);
  trace_on(tA);
  {
    adouble r[NR];
    double o;
    r[0] <<= x[0]; r[1] <<= x[1];
    r[2] = R2;
    for (auto &q : p) exec<adouble>(q, r);
    for (int i : sel) r[i] >>= o;
  }
  trace_off();
  mc::trace();
  for (int d = 0; d < F_FUNCTION; d++) {
    if (m != 1 && scalarOnly(d)) continue;
    bool tie = false; // hess_mat and hessian2 refuse ties of selections
    for (auto &o : p) tie |= (o.k == BIN && (o.f == FMIN || o.f == FMAX) && o.s == o.t) || (o.k == MISC && o.f == 5 && o.s == o.t);
    if (tie && (d == HESSMAT || d == HESSIAN2)) continue;
    call(d, tA, t, x, 1 + int(d == LARGEJAC), "after recording", 1e-7);
  }
  g.ok = true;
}
// ------------------------------------------------------------- histories
struct HCmd { int d, t, p; }; // d >= NDRV: 0 wrong sizes, 1 record again, 2 keeping forward sweep, 3 higher-order sweep
static const int HK[2] = {BRANCH, CHAIN}, HM[2] = {1, 3}, HNN[2] = {3, 2};
static std::vector<HCmd> hcmds() {
  std::vector<HCmd> A;
  for (int t = 0; t < 2; t++) {
    for (int d = 0; d < F_FUNCTION; d++) {
      if (HM[t] != 1 && scalarOnly(d)) continue;
      for (int p : t ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 3}) A.push_back({d, t, p});
    }
    for (int e = 0; e < 4; e++) A.push_back({NDRV + e, t, 0});
  }
  return A;
}
static std::string str(const HCmd &c) {
  static const char *e[] = {"wrong-sizes", "record", "fos_forward-keep", "hos_forward-keep"};
  return fmt("%s(t%d,%d)", c.d < NDRV ? drvName[c.d] : e[c.d - NDRV], c.t, c.p);
}
static void hist(const std::vector<HCmd> &cs) {
  static Truth T[2][4];
  static bool have = false;
  double X[4][NMAX];
  for (int p = 0; p < 4; p++) for (int j = 0; j < NMAX; j++) X[p][j] = coord(p, j);
  if (!have) { for (int t = 0; t < 2; t++) for (int p = 0; p < 4; p++) T[t][p] = truthOf(HK[t], HM[t], HNN[t], X[p], X[0]); have = true; }
  tapes();
  Reset g;
  const short tag[2] = {tA, tB};
  for (int t = 0; t < 2; t++) recKind(tag[t], HK[t], HM[t], HNN[t], X[0]);
  mc::trace();
  uint64_t h = 5;
  for (size_t n = 0; n < cs.size(); n++) {
    const HCmd &c = cs[n];
    const std::string when = fmt("step %zu", n + 1);
    const int m = HM[c.t], nn = HNN[c.t];
    if (c.d < NDRV) call(c.d, tag[c.t], T[c.t][c.p], X[c.p], 1 + int(c.d == LARGEJAC), when.c_str(), 1e-10);
    else switch (c.d - NDRV) {
    case 0: {
      M2<double> J(6, 6);
      double r[8];
      int bad = 0;
      try { if (jacobian(tag[c.t], m + 1, nn, X[0], J) >= 0) bad++; } catch (const std::exception &) {}
      try { if (jac_vec(tag[c.t], m, nn + 1, X[0], X[1], r) >= 0) bad++; } catch (const std::exception &) {}
      try { if (lagra_hess_vec(tag[c.t], m + 1, nn - 1, X[0], X[1], X[2], r) >= 0) bad++; } catch (const std::exception &) {}
      if (bad) fail("wrong sizes", "wrong numbers of variables accepted (%s)", when.c_str());
      break;
    }
    case 1: recKind(tag[c.t], HK[c.t], m, nn, X[0]); break;
    case 2: { double y[4], yd[4]; fos_forward(tag[c.t], m, nn, 2, X[2], X[1], y, yd); break; }
    case 3: { M2<double> XX(size_t(nn), 3, 0.5), Y(size_t(m), 3); double y[4]; hos_forward(tag[c.t], m, nn, 3, 4, X[2], XX, y, Y); break; }
    }
    h = mc::hmix(h, uint64_t(c.d * 16 + c.t * 4 + c.p));
    mc::state(h);
  }
  g.ok = true;
}

struct R : mc::Runner {
  std::vector<Op> A;
  void setup() override {
    childInit = [] { tA = tB = -1; };
    cKink = mc::counter("at_kink");
    cFlow = mc::counter("branches_left");
    cRefused = mc::counter("outside_domain");
    {
      mc::Space s;
      const int MM = mc::thorough ? 6 : 5, NN = mc::thorough ? 7 : 6;
      s.name = "sizes"; s.n = uint64_t(NKIND * MM * NN * 4 * 2); s.chunk = 40;
      s.rule = fmt("function families x 1..%d dependents x 1..%d independents x points x recording points, every driver with every block size, direction and weight", MM, NN);
      s.run = [=](uint64_t k) { mc::Dec d(k); int kind = int(d(NKIND)), m = 1 + int(d(uint64_t(MM))), n = 1 + int(d(uint64_t(NN))), p = int(d(4)); sizes(kind, m, n, p, int(d(2)) ? 3 : 0); };
      s.describe = [=](uint64_t k) { mc::Dec d(k); int kind = int(d(NKIND)), m = 1 + int(d(uint64_t(MM))), n = 1 + int(d(uint64_t(NN))), p = int(d(4)); return fmt("%s m%d n%d point%d rec%d", kindName[kind], m, n, p, int(d(2)) ? 3 : 0); };
      spaces.push_back(s);
    }
    {
      static const int SZ[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65};
      static const int K[] = {DENSE, BIDIAG, LINEAR, SELECT, BRANCH};
      mc::Space s;
      const uint64_t ns = mc::thorough ? 14 : 11;
      s.name = "wide"; s.n = 5 * ns * ns * 2; s.chunk = 4;
      s.rule = fmt("function families x numbers of dependents and independents up to %d around powers of two x recording points, every driver with every block size, direction and weight", SZ[ns - 1]);
      struct C { int k, m, n, p0; };
      auto dec = [=](uint64_t k) { mc::Dec d(k); C c; c.m = SZ[d(ns)]; c.n = SZ[d(ns)]; c.k = K[d(5)]; c.p0 = d(2) ? 3 : 0; return c; };
      s.run = [=](uint64_t k) { C c = dec(k); sizes(c.k, c.m, c.n, 0, c.p0, true); };
      s.describe = [=](uint64_t k) { C c = dec(k); return fmt("%s m%d n%d rec%d", kindName[c.k], c.m, c.n, c.p0); };
      spaces.push_back(s);
    }
    static const double P[2][2] = {{0.4, 0.7}, {0.3, -0.6}};
    for (int len = 1; len <= (mc::thorough ? 3 : 2); len++) {
      A = alphabet(len == 1 ? cfgFull() : len == 2 ? (mc::thorough ? cfgMid() : cfgSmall()) : cfgTiny());
      auto B = A;
      mc::Space s;
      const uint64_t np = mc::ipow(B.size(), unsigned(len));
      s.name = fmt("ops%d", len); s.n = np * (len == 1 ? 8 : len == 2 ? 2 : 1); s.chunk = 200;
      s.rule = fmt("all programs of %d operations from %zu x results used as dependents x points, every driver", len, B.size());
      s.run = [=](uint64_t k) { Prog p = prog(B, len, k % np); k /= np; int outs = len == 1 ? int(k % 4) : len == 2 ? (k % 2 ? 3 : 2) : 3; progCase(p, outs, P[len == 1 ? k / 4 : 0]); };
      s.describe = [=](uint64_t k) { Prog p = prog(B, len, k % np); k /= np; return dsl::str(p) + fmt(" outs%d", int(k)); };
      spaces.push_back(s);
    }
    auto H = hcmds();
    for (int depth = 1; depth <= (mc::thorough ? 4 : 3); depth++) {
      mc::Space s;
      s.name = fmt("hist%d", depth); s.n = mc::ipow(H.size(), unsigned(depth)); s.chunk = 400;
      s.rule = fmt("all sequences of %d calls from %zu (drivers at points with and without changed branches on two traces, refused calls, recordings, keeping sweeps)", depth, H.size());
      auto dec = [=](uint64_t k) { std::vector<HCmd> v; for (int i = 0; i < depth; i++) { v.push_back(H[k % H.size()]); k /= H.size(); } return v; };
      s.run = [=](uint64_t k) { hist(dec(k)); };
      s.describe = [=](uint64_t k) { std::string t; for (auto &c : dec(k)) t += (t.empty() ? "" : " ") + ::str(c); return t; };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
