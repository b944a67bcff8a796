// C10 (-DWHAT=10), C11 (-DWHAT=11), C12 (-DWHAT=12), second part: long argument
// vectors, and many external functions / checkpointed loops / iterations in one trace,
// against the same program written out.
#include "dsl.h"
#include "arr.h"
#include <adolc/checkpointing.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/fixpoint.h>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
using mc::fail;
using mc::fmt;
using arr::M2;
typedef std::vector<double> V;
static const int SZ[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70};
constexpr int NS = 16;

// ------------------------------------------------------------ the functions
#if WHAT == 10
static const char *formName[] = {"object", "integer data", "v2 with halves", "v2 element by element", "v2 with vectors of 1, 2, 3, 1, 2 ..."};
constexpr int NF = 5;
// y_j = s sin(x_(j mod n)) x_(3j+1 mod n) + 0.125 j
template <class T> static void F(double s, int n, int m, const T *x, T *y) {
  using std::sin;
  for (int j = 0; j < m; j++) { const T e = sin(x[j % n]) * x[(3 * j + 1) % n] * s + 0.125 * (j % 5); y[j] = e; }
}
static double sOf(size_t k) { return 0.5 + 0.03125 * double(k % 23); }
// derivative of y_j: calls f(i, d y_j/d x_i)
template <class C> static void D(double s, int n, int j, const double *x, C f) {
  const int a = j % n, b = (3 * j + 1) % n;
  f(a, s * std::cos(x[a]) * x[b]);
  f(b, s * std::sin(x[a]));
}
static double prior(int j) { return 3.5 + 0.25 * j; } // the results before the call
static void priorOk(int m, const double *y) { for (int j = 0; j < m; j++) if (y[j] != prior(j)) fail("prior results", "result %d of %d is %.15g before the call, not %.15g", j, m, y[j], prior(j)); }
static int cZ(double s, int m, int n, double *x, double *y) { priorOk(m, y); V r(static_cast<size_t>(m)); F<double>(s, n, m, x, r.data()); std::copy(r.begin(), r.end(), y); return 1; }
static int cFF(double s, int m, int n, double *x, double *X, double *y, double *Y) {
  for (int j = 0; j < m; j++) { Y[j] = 0; D(s, n, j, x, [&](int i, double d) { Y[j] += d * X[i]; }); }
  return cZ(s, m, n, x, y);
}
static int cFV(double s, int m, int n, int p, double *x, double **X, double *y, double **Y) {
  for (int j = 0; j < m; j++) { for (int l = 0; l < p; l++) Y[j][l] = 0; D(s, n, j, x, [&](int i, double d) { for (int l = 0; l < p; l++) Y[j][l] += d * X[i][l]; }); }
  return cZ(s, m, n, x, y);
}
static void yOk(double s, int m, int n, double *x, double *y) { V r(static_cast<size_t>(m)); F<double>(s, n, m, x, r.data()); for (int j = 0; j < m; j++) if (!mc::close(r[size_t(j)], y[j], 1e-10, 1)) fail("reverse data", "the reverse callback is given y[%d]=%g, the value at its x is %g", j, y[j], r[size_t(j)]); }
static int cRF(double s, int m, int n, double *u, double *z, double *x, double *y) { yOk(s, m, n, x, y); for (int j = 0; j < m; j++) D(s, n, j, x, [&](int i, double d) { z[i] += u[j] * d; }); return 1; }
static int cRV(double s, int m, int n, int q, double **U, double **Z, double *x, double *y) { yOk(s, m, n, x, y); for (int j = 0; j < m; j++) D(s, n, j, x, [&](int i, double d) { for (int l = 0; l < q; l++) Z[l][i] += U[l][j] * d; }); return 1; }
struct Obj final : EDFobject {
  double s;
  Obj(short t, double s) : EDFobject(t, t), s(s) {}
  int function(short, int m, int n, double *x, double *y) override { return cZ(s, m, n, x, y); }
  int zos_forward(short, int m, int n, int, double *x, double *y) override { return cZ(s, m, n, x, y); }
  int fos_forward(short, int m, int n, int, double *x, double *X, double *y, double *Y) override { return cFF(s, m, n, x, X, y, Y); }
  int fov_forward(short, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return cFV(s, m, n, p, x, X, y, Y); }
  int hos_forward(short, int, int, int, int, double *, double **, double *, double **) override { return -9; }
  int hov_forward(short, int, int, int, int, double *, double ***, double *, double ***) override { return -9; }
  int fos_reverse(short, int m, int n, double *u, double *z, double *x, double *y) override { return cRF(s, m, n, u, z, x, y); }
  int fov_reverse(short, int m, int n, int q, double **U, double **Z, double *x, double *y) override { return cRV(s, m, n, q, U, Z, x, y); }
  int hos_reverse(short, int, int, int, double *, double **, double **, double **) override { return -9; }
  int hov_reverse(short, int, int, int, int, double **, double ***, short **, double **, double **) override { return -9; }
};
// integer data: k, then its length - 1 times 5+position
static double sIA(size_t L, size_t *a) {
  for (size_t i = 1; i < L; i++) if (a[i] != 5 + i) fail("integer data", "element %zu of %zu arrived as %zu", i, L, a[i]);
  return sOf(a[0]);
}
struct ObjI final : EDFobject_iArr {
  double w(size_t L, size_t *a) { return sIA(L, a); }
  int function(short, size_t L, size_t *a, int m, int n, double *x, double *y) override { return cZ(w(L, a), m, n, x, y); }
  int zos_forward(short, size_t L, size_t *a, int m, int n, int, double *x, double *y) override { return cZ(w(L, a), m, n, x, y); }
  int fos_forward(short, size_t L, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) override { return cFF(w(L, a), m, n, x, X, y, Y); }
  int fov_forward(short, size_t L, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return cFV(w(L, a), m, n, p, x, X, y, Y); }
  int hos_forward(short, size_t, size_t *, int, int, int, int, double *, double **, double *, double **) override { return -9; }
  int hov_forward(short, size_t, size_t *, int, int, int, int, double *, double ***, double *, double ***) override { return -9; }
  int fos_reverse(short, size_t L, size_t *a, int m, int n, double *u, double *z, double *x, double *y) override { return cRF(w(L, a), m, n, u, z, x, y); }
  int fov_reverse(short, size_t L, size_t *a, int m, int n, int q, double **U, double **Z, double *x, double *y) override { return cRV(w(L, a), m, n, q, U, Z, x, y); }
  int hos_reverse(short, size_t, size_t *, int, int, int, double *, double **, double **, double **) override { return -9; }
  int hov_reverse(short, size_t, size_t *, int, int, int, int, double **, double ***, short **, double **, double **) override { return -9; }
};
// several vectors: copied together
struct Gather {
  int n = 0, m = 0;
  V x, y;
  static V cat(size_t k, size_t *sz, double **v) { V r; for (size_t i = 0; i < k; i++) r.insert(r.end(), v[i], v[i] + sz[i]); return r; }
};
static void spread(size_t k, size_t *sz, double **v, const V &r) { size_t q = 0; for (size_t i = 0; i < k; i++) for (size_t j = 0; j < sz[i]; j++) v[i][j] = r[q++]; }
struct Obj2 final : EDFobject_v2 {
  Obj2(short t) : EDFobject_v2(t, t) {}
  int function(short, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *) override {
    V X = Gather::cat(ni, is, x), Y = Gather::cat(no, os, y);
    cZ(sIA(L, a), int(Y.size()), int(X.size()), X.data(), Y.data());
    spread(no, os, y, Y);
    return 1;
  }
  int zos_forward(short t, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *c) override { return function(t, L, a, ni, no, is, x, os, y, c); }
  int fos_forward(short, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, double **xp, size_t *os, double **y, double **yp, void *) override {
    V X = Gather::cat(ni, is, x), Y = Gather::cat(no, os, y), XP = Gather::cat(ni, is, xp), YP(Y.size());
    cFF(sIA(L, a), int(Y.size()), int(X.size()), X.data(), XP.data(), Y.data(), YP.data());
    spread(no, os, y, Y); spread(no, os, yp, YP);
    return 1;
  }
  int fov_forward(short, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t nd, double ***xp, size_t *os, double **y, double ***yp, void *) override {
    V X = Gather::cat(ni, is, x), Y;
    for (size_t l = 0; l < nd; l++) {
      Y = Gather::cat(no, os, y);
      V XP, YP(Y.size());
      for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < is[i]; j++) XP.push_back(xp[i][j][l]);
      cFF(sIA(L, a), int(Y.size()), int(X.size()), X.data(), XP.data(), Y.data(), YP.data());
      size_t q = 0;
      for (size_t i = 0; i < no; i++) for (size_t j = 0; j < os[i]; j++) yp[i][j][l] = YP[q++];
    }
    spread(no, os, y, Y);
    return 1;
  }
  int fos_reverse(short, size_t L, size_t *a, size_t no, size_t ni, size_t *os, double **u, size_t *is, double **z, double **x, double **y, void *) override {
    V X = Gather::cat(ni, is, x), Y = Gather::cat(no, os, y), U = Gather::cat(no, os, u), Z = Gather::cat(ni, is, z);
    cRF(sIA(L, a), int(Y.size()), int(X.size()), U.data(), Z.data(), X.data(), Y.data());
    spread(ni, is, z, Z);
    return 1;
  }
  int fov_reverse(short, size_t L, size_t *a, size_t no, size_t ni, size_t *os, size_t nd, double ***u, size_t *is, double ***z, double **x, double **y, void *) override {
    V X = Gather::cat(ni, is, x), Y = Gather::cat(no, os, y);
    for (size_t l = 0; l < nd; l++) {
      V U, Z(X.size());
      for (size_t i = 0; i < no; i++) for (size_t j = 0; j < os[i]; j++) U.push_back(u[i][j][l]);
      cRF(sIA(L, a), int(Y.size()), int(X.size()), U.data(), Z.data(), X.data(), Y.data());
      size_t q = 0;
      for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < is[i]; j++) z[i][j][l] += Z[q++];
    }
    return 1;
  }
};
#elif WHAT == 11
static const char *formName[] = {"own step trace, 1 checkpoint", "own step trace, 3 checkpoints, in place", "own step trace, 5 checkpoints, retaping"};
constexpr int NF = 3;
template <class T> static void step(int n, T *x) {
  using std::sin;
  std::vector<T> y;
  y.reserve(size_t(n));
  for (int i = 0; i < n; i++) { const T e = x[i] * 0.875 + 0.25 * sin(x[(i + 1) % n]) * x[(5 * i + 2) % n]; y.push_back(e); }
  for (int i = 0; i < n; i++) x[i] = y[size_t(i)];
}
static int aStep(size_t n, adouble *x) { step<adouble>(int(n), x); return 0; }
static int dStep(size_t n, double *x) { step<double>(int(n), x); return 0; }
static int stepsOf(size_t k) { static const int s[] = {1, 4, 2, 9, 3, 33}; return s[k % 6]; }
#else
static const char *formName[] = {"own step trace", "one step trace"};
constexpr int NF = 2;
template <class T> static void F(int dx, int du, const T *x, const T *u, T *y) {
  using std::cos; using std::sin;
  for (int i = 0; i < dx; i++) { const T e = 0.25 * sin(x[(i + 1) % dx]) + 0.3 * u[i % du] * cos(x[i]) + 0.125 * u[(3 * i + 1) % du]; y[i] = e; }
}
static int dF(double *x, double *u, double *y, size_t dx, size_t du) { F<double>(int(dx), int(du), x, u, y); return 0; }
static int aF(adouble *x, adouble *u, adouble *y, size_t dx, size_t du) { F<adouble>(int(dx), int(du), x, u, y); return 0; }
static double norm(double *x, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s = std::max(s, std::fabs(x[i])); return s; }
#endif

// ------------------------------------------------------------ blocks of one trace
struct Blk { int n, m; }; // arguments, results
struct Cfg { int form; std::vector<Blk> b; bool ring; }; // block k reads the results of block k-1
static short tB = -1, tR = -1;
#if WHAT == 10
static std::vector<Obj *> objs;
static std::vector<ObjI *> objI;
static std::vector<Obj2 *> obj2;
#endif
static std::vector<short> subs;
static uint64_t seen;
static void tapes(size_t K) {
  if (tB < 0 || seen > 60) { // fresh function objects from time to time
    seen = 0;
    tB = dsl::freshTape(); tR = createNewTape();
    subs.clear();
#if WHAT == 10
    objs.clear(); objI.clear(); obj2.clear();
#endif
  }
  seen++;
  setCurrentTape(tB);
#if WHAT == 10
  while (objs.size() < K) { objs.push_back(new Obj(tB, sOf(objs.size()))); objI.push_back(new ObjI); obj2.push_back(new Obj2(tB)); }
#else
  while (subs.size() < K) subs.push_back(createNewTape());
#endif
  setCurrentTape(tB);
}
static void block(const Cfg &c, size_t k, bool inl, adouble *x, adouble *y) {
  const Blk &b = c.b[k];
#if WHAT == 10
  if (inl) { F<adouble>(sOf(k), b.n, b.m, x, y); return; }
  const size_t L = 1 + (k * 7 + size_t(b.n)) % 40;
  std::vector<size_t> a(L);
  for (size_t i = 0; i < L; i++) a[i] = i ? 5 + i : k;
  int rc = -1;
  switch (c.form) {
  case 0: rc = objs[k]->call(b.n, x, b.m, y); break;
  case 1: rc = objI[k]->call(L, a.data(), b.n, x, b.m, y); break;
  default: {
    std::vector<size_t> is, os;
    auto cut = [&](int n, std::vector<size_t> &s) { if (c.form == 3) s.assign(size_t(n), 1); else if (c.form == 4) for (size_t k = 1; n > 0; k = k % 3 + 1) { s.push_back(std::min(k, size_t(n))); n -= int(s.back()); } else if (n == 1) s = {1}; else s = {size_t(n / 2), size_t(n - n / 2)}; };
    cut(b.n, is); cut(b.m, os);
    std::vector<adouble *> xs, ys;
    size_t q = 0;
    for (size_t s : is) { xs.push_back(x + q); q += s; }
    q = 0;
    for (size_t s : os) { ys.push_back(y + q); q += s; }
    rc = obj2[k]->call(L, a.data(), is.size(), os.size(), is.data(), xs.data(), os.data(), ys.data());
  }
  }
  if (rc != 1) fail("call", "the call of block %zu returned %d", k, rc);
#elif WHAT == 11
  if (inl) { for (int i = 0; i < b.n; i++) y[i] = x[i]; for (int s = 0; s < stepsOf(k); s++) step<adouble>(b.n, y); return; }
  const bool in = c.form == 1;
  if (in) for (int i = 0; i < b.n; i++) y[i] = x[i];
  ADOLC::CP::Context cp(tB, subs[k], aStep);
  cp.setDoubleFct(dStep);
  cp.setNumberOfSteps(stepsOf(k));
  cp.setNumberOfCheckpoints(1 + 2 * c.form);
  cp.setDimensionXY(b.n);
  cp.setInput(in ? y : x);
  cp.setOutput(y);
  cp.setAlwaysRetaping(c.form == 2);
  cp.checkpointing(tB);
#else
  currentTape().ensureContiguousLocations(size_t(b.m));
  adouble *x0 = new adouble[size_t(b.m)];
  for (int i = 0; i < b.m; i++) x0[i] = 0.5 + 0.0625 * (i % 7);
  if (inl) for (int it = 0; it < 55; it++) { F<adouble>(b.m, b.n, x0, x, y); for (int i = 0; i < b.m; i++) x0[i] = y[i]; }
  else { const int rc = fp_iteration(tB, subs[c.form ? 0 : k], dF, aF, norm, norm, 1e-12, 1e-12, 200, 200, x0, x, y, size_t(b.m), size_t(b.n)); if (rc < 0) fail("call", "fp_iteration of block %zu returned %d", k, rc); }
  delete[] x0;
#endif
}
static V record(const Cfg &c, bool inl, const double *x, int nx, int keep = 0) {
  const short t = inl ? tR : tB;
  setCurrentTape(t);
  size_t need = 0;
  for (auto &b : c.b) need += size_t(b.n + b.m);
  currentTape().ensureContiguousLocations(need + size_t(c.b[0].n));
  V out;
  trace_on(t, keep);
  {
    // all vectors of the blocks follow each other
    adouble *all = new adouble[need];
    std::vector<adouble> z(static_cast<size_t>(nx));
    for (int i = 0; i < nx; i++) z[size_t(i)] <<= x[i];
    adouble *p = all, *prev = nullptr;
    int np = 0;
    std::vector<std::pair<adouble *, int>> ys;
    for (size_t k = 0; k < c.b.size(); k++) {
      const Blk &b = c.b[k];
      adouble *u = p, *y = p + b.n;
      p += b.n + b.m;
      for (int i = 0; i < b.n; i++) {
        const adouble e = 0.5 * sin(z[size_t(i % nx)] + 0.25 * (i / nx)) + (prev && c.ring ? 0.375 * prev[i % np] : 0.0625 * double(k % 5) * z[0]);
        u[i] = e;
      }
#if WHAT == 10
      for (int j = 0; j < b.m; j++) y[j] = prior(j);
#endif
      block(c, k, inl, u, y);
      prev = y; np = b.m;
      ys.push_back({y, b.m});
    }
    double v;
    if (ys.size() < 3) for (auto &[y, m] : ys) for (int j = 0; j < m; j++) { adouble e = y[j] * z[size_t(j % nx)]; e >>= v; out.push_back(v); }
    else for (auto &[y, m] : ys) { adouble e = y[0] * z[0] + y[m - 1]; e >>= v; out.push_back(v); }
    delete[] all;
  }
  trace_off();
  return out;
}
static void exec(const Cfg &c, int nx) {
  tapes(c.b.size());
  struct G { bool ok = false; ~G() { if (!ok) tB = -1; } } g;
  const size_t N = size_t(nx);
  V x(N), x1(N);
  for (size_t i = 0; i < N; i++) { x[i] = 0.3 + 0.05 * double(i % 11); x1[i] = 0.7 - 0.06 * double(i % 9); }
  const V yR = record(c, true, x.data(), nx), yB = record(c, false, x.data(), nx);
  const int m = int(yR.size());
  const size_t M = yR.size();
  const double tv = WHAT == 12 ? 1e-9 : 1e-10, td = WHAT == 12 ? 1e-8 : 1e-9;
  auto eq = [&](const char *what, const V &a, const V &b, double tol) { for (size_t i = 0; i < a.size(); i++) mc::expectNear(what, b[i], a[i], tol, 1, "%s: element %zu of %zu", what, i, a.size()); };
  eq("values of the recording", yR, yB, tv);
  mc::trace();
  auto rc = [&](const char *w, int r) { if (r < 0) fail("return code", "%s returned %d", w, r); mc::transition(); };
  const int P = std::min(nx, 5), Q = std::min(m, 9);
  const short T[2] = {tR, tB};
  for (auto *q : {&x1, &x}) {
    V y[2] = {V(M), V(M)}, Y[2] = {V(M), V(M)}, X(N), u(M), z[2] = {V(N), V(N)};
    for (size_t i = 0; i < N; i++) X[i] = 1 - 0.25 * double(i % 6);
    for (size_t i = 0; i < M; i++) u[i] = 0.5 + 0.25 * double(i % 5) - 0.125 * double(i % 3);
    for (int k = 0; k < 2; k++) rc("zos_forward", zos_forward(T[k], m, nx, 1, q->data(), y[k].data()));
    eq("zos_forward", y[0], y[1], tv);
    for (int k = 0; k < 2; k++) rc("fos_reverse", fos_reverse(T[k], m, nx, u.data(), z[k].data()));
    eq("fos_reverse", z[0], z[1], td);
    for (int k = 0; k < 2; k++) rc("fos_forward", fos_forward(T[k], m, nx, k == 0 ? 0 : 1, q->data(), X.data(), y[k].data(), Y[k].data()));
    eq("values of fos_forward", y[0], y[1], tv);
    eq("fos_forward", Y[0], Y[1], td);
    if (WHAT == 12) continue;
    M2<double> U(size_t(Q), M), Z0(size_t(Q), N), Z1(size_t(Q), N), XX(N, size_t(P)), Y0(M, size_t(P)), Y1(M, size_t(P));
    for (size_t l = 0; l < size_t(Q); l++) for (size_t j = 0; j < M; j++) U[l][j] = u[(j + l) % M] - 0.25 * double(l % 4);
    for (size_t i = 0; i < N; i++) for (int l = 0; l < P; l++) XX[i][l] = X[(i + size_t(l)) % N] * (1 + l);
    rc("zos_forward", zos_forward(tR, m, nx, 1, q->data(), y[0].data()));
    rc("zos_forward", zos_forward(tB, m, nx, 1, q->data(), y[1].data()));
    rc("fov_reverse", fov_reverse(tR, m, nx, Q, U, Z0));
    rc("fov_reverse", fov_reverse(tB, m, nx, Q, U, Z1));
    eq("fov_reverse", Z0.d, Z1.d, td);
    rc("fov_forward", fov_forward(tR, m, nx, P, q->data(), XX, y[0].data(), Y0));
    rc("fov_forward", fov_forward(tB, m, nx, P, q->data(), XX, y[1].data(), Y1));
    eq("values of fov_forward", y[0], y[1], tv);
    eq("fov_forward", Y0.d, Y1.d, td);
  }
  // a recording that keeps its values is reversed directly
  V u(M), z[2] = {V(N), V(N)};
  for (size_t i = 0; i < M; i++) u[i] = 0.5 - 0.25 * double(i % 5) + 0.125 * double(i % 7);
  for (int k = 0; k < 2; k++) {
    record(c, k == 0, x1.data(), nx, 1);
    rc("fos_reverse", fos_reverse(T[k], m, nx, u.data(), z[k].data()));
  }
  mc::trace();
  eq("fos_reverse of the recording", z[0], z[1], td);
  mc::state(mc::hmix(uint64_t(c.b.size() * 100 + size_t(nx)), uint64_t(m)));
  g.ok = true;
}
struct R : mc::Runner {
  void setup() override {
    childInit = [] { tB = -1; };
    {
      mc::Space s;
      const uint64_t per = WHAT == 11 ? NS : NS * NS;
      s.name = "wide"; s.n = per * NF * 2; s.chunk = 8;
      s.rule = fmt("1 or 2 blocks in sequence, 1..70 %s (around powers of two) x %d forms, every first-order sweep at two points, against the program without blocks", WHAT == 11 ? "states" : "arguments and results", NF);
      auto dec = [=](uint64_t k) { Cfg c; c.ring = true; mc::Dec d(k); const int n = SZ[d(NS)], m = WHAT == 11 ? n : SZ[d(NS)]; c.form = int(d(NF)); c.b.push_back({n, m}); if (d(2) && (WHAT != 12 || c.form != 1 || m == n)) c.b.push_back({m, n}); return c; }; // blocks share a step trace only if it is the same function
      s.run = [=](uint64_t k) { Cfg c = dec(k); exec(c, c.b[0].n); };
      s.describe = [=](uint64_t k) { Cfg c = dec(k); return fmt("%s, %zu blocks, %d arguments, %d results", formName[c.form], c.b.size(), c.b[0].n, c.b[0].m); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      const uint64_t MK = mc::thorough ? 140 : 70;
      s.name = "many"; s.n = MK * NF * 2 * 2; s.chunk = 2;
      s.rule = fmt("1..%d blocks in one trace, each its own function x %d forms x independent or in sequence x 2 or 3 variables", int(MK), NF);
      auto dec = [=](uint64_t k) { Cfg c; mc::Dec d(k); const size_t K = 1 + d(MK); c.form = int(d(NF)); c.ring = d(2); const int n = 2 + int(d(2)); for (size_t i = 0; i < K; i++) c.b.push_back({n, n}); return c; };
      s.run = [=](uint64_t k) { exec(dec(k), 2); };
      s.describe = [=](uint64_t k) { Cfg c = dec(k); return fmt("%s, %zu blocks of %d, %s", formName[c.form], c.b.size(), c.b[0].n, c.ring ? "in sequence" : "independent"); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
