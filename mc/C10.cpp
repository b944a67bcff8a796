// C10: external functions behave as if their code had been recorded inline.
#include "dsl.h"
#include "arr.h"
#include <adolc/edfclasses.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
using mc::fail;
using arr::M2;
constexpr int NX = 3, NREG = 5, P = 2;
static int retCode = 3;    // what the callbacks return
static int cBig = -1;

// ---- the external functions, chosen by their shape, scaled by the integer data
template <class T> static void body(int n, int m, double s, const T *xx, T *y) {
  using std::sin; using std::exp;
  T x[3];
  for (int i = 0; i < n; i++) x[i] = xx[i];
  if (n == 1 && m == 1) y[0] = sin(x[0]) * x[0] * s;
  else if (n == 2 && m == 1) y[0] = (x[0] * x[1] + x[1] * x[1]) * s;
  else if (n == 2 && m == 2) { y[0] = x[0] * x[1] * s; y[1] = (sin(x[0]) - x[1] * x[1]) * s; }
  else if (n == 1 && m == 2) { y[0] = x[0] * x[0] * s; y[1] = exp(x[0]) * s; }
  else fail("harness", "external function called with shape %d -> %d", n, m);
}
static void values(int n, int m, double s, const double *x, double *y) { body<double>(n, m, s, x, y); }
static void jac(int n, int m, double s, const double *x, double J[2][2]) {
  typedef ref::Dual<2> D;
  D a[2], b[2];
  for (int i = 0; i < n; i++) { a[i] = D(x[i]); a[i].g[i] = 1; }
  body<D>(n, m, s, a, b);
  for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) J[j][i] = b[j].g[i];
}
static double scale(size_t len, const size_t *a) {
  if (!len) return 1;
  double s = double(a[0]);
  if (len == 3 && (a[1] != 7 || a[2] != 11)) fail("iarr", "integer data arrived as %zu %zu %zu", a[0], a[1], a[2]);
  if (len != 1 && len != 3) fail("iarr", "length of the integer data %zu", len);
  return s;
}
// with dp_x_changes a function may change its arguments: x := 1.25 x + 0.5
static bool chg = false;
template <class T> static T after(const T &x) { return x * 1.25 + 0.5; }
static double before(double x) { return chg ? (x - 0.5) / 1.25 : x; }
// ---- common callback bodies (contiguous layout)
static int cZ(double s, int m, int n, double *x, double *y) { values(n, m, s, x, y); if (chg) for (int i = 0; i < n; i++) x[i] = after(x[i]); return retCode; }
static int cFF(double s, int m, int n, double *x, double *X, double *y, double *Y) {
  double J[2][2]; jac(n, m, s, x, J); cZ(s, m, n, x, y);
  for (int j = 0; j < m; j++) { Y[j] = 0; for (int i = 0; i < n; i++) Y[j] += J[j][i] * X[i]; }
  if (chg) for (int i = 0; i < n; i++) X[i] *= 1.25;
  return retCode;
}
static int cFV(double s, int m, int n, int p, double *x, double **X, double *y, double **Y) {
  double J[2][2]; jac(n, m, s, x, J); cZ(s, m, n, x, y);
  for (int j = 0; j < m; j++) for (int l = 0; l < p; l++) { Y[j][l] = 0; for (int i = 0; i < n; i++) Y[j][l] += J[j][i] * X[i][l]; }
  if (chg) for (int i = 0; i < n; i++) for (int l = 0; l < p; l++) X[i][l] *= 1.25;
  return retCode;
}
static void yCheck(int m, int n, double s, double *x, double *y) {
  double v[2];
  values(n, m, s, x, v);
  for (int j = 0; j < m; j++) if (!mc::close(y[j], v[j], 1e-9, 1)) fail("result-in-reverse", "reverse callback got y[%d]=%g, value at its x is %g", j, y[j], v[j]);
}
static int cRF(double s, int m, int n, double *u, double *z, double *x, double *y) {
  double J[2][2], xo[2];
  for (int i = 0; i < n; i++) { xo[i] = before(x[i]); if (chg) z[i] *= 1.25; }
  jac(n, m, s, xo, J); yCheck(m, n, s, xo, y);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) z[i] += u[j] * J[j][i];
  return retCode;
}
static int cRV(double s, int m, int n, int q, double **U, double **Z, double *x, double *y) {
  double J[2][2], xo[2];
  for (int i = 0; i < n; i++) { xo[i] = before(x[i]); if (chg) for (int l = 0; l < q; l++) Z[l][i] *= 1.25; }
  jac(n, m, s, xo, J); yCheck(m, n, s, xo, y);
  for (int l = 0; l < q; l++) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Z[l][i] += U[l][j] * J[j][i];
  return retCode;
}
// ---- object interfaces
struct ObjV1 final : EDFobject {
  ObjV1(short o, short e) : EDFobject(o, e) {}
  ext_diff_fct *e() { return edf; }
  int function(short, int m, int n, double *x, double *y) override { return cZ(1, m, n, x, y); }
  int zos_forward(short, int m, int n, int, double *x, double *y) override { return cZ(1, m, n, x, y); }
  int fos_forward(short, int m, int n, int, double *x, double *X, double *y, double *Y) override { return cFF(1, m, n, x, X, y, Y); }
  int fov_forward(short, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return cFV(1, m, n, p, x, X, y, Y); }
  int hos_forward(short, int, int, int, int, double *, double **, double *, double **) override { return -9; }
  int hov_forward(short, int, int, int, int, double *, double ***, double *, double ***) override { return -9; }
  int fos_reverse(short, int m, int n, double *u, double *z, double *x, double *y) override { return cRF(1, m, n, u, z, x, y); }
  int fov_reverse(short, int m, int n, int q, double **U, double **Z, double *x, double *y) override { return cRV(1, m, n, q, U, Z, x, y); }
  int hos_reverse(short, int, int, int, double *, double **, double **, double **) override { return -9; }
  int hov_reverse(short, int, int, int, int, double **, double ***, short **, double **, double **) override { return -9; }
};
struct ObjIA final : EDFobject_iArr {
  ext_diff_fct *e() { return edf; }
  int function(short, size_t L, size_t *a, int m, int n, double *x, double *y) override { return cZ(scale(L, a), m, n, x, y); }
  int zos_forward(short, size_t L, size_t *a, int m, int n, int, double *x, double *y) override { return cZ(scale(L, a), m, n, x, y); }
  int fos_forward(short, size_t L, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) override { return cFF(scale(L, a), m, n, x, X, y, Y); }
  int fov_forward(short, size_t L, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return cFV(scale(L, a), m, n, p, x, X, y, Y); }
  int hos_forward(short, size_t, size_t *, int, int, int, int, double *, double **, double *, double **) override { return -9; }
  int hov_forward(short, size_t, size_t *, int, int, int, int, double *, double ***, double *, double ***) override { return -9; }
  int fos_reverse(short, size_t L, size_t *a, int m, int n, double *u, double *z, double *x, double *y) override { return cRF(scale(L, a), m, n, u, z, x, y); }
  int fov_reverse(short, size_t L, size_t *a, int m, int n, int q, double **U, double **Z, double *x, double *y) override { return cRV(scale(L, a), m, n, q, U, Z, x, y); }
  int hos_reverse(short, size_t, size_t *, int, int, int, double *, double **, double **, double **) override { return -9; }
  int hov_reverse(short, size_t, size_t *, int, int, int, int, double **, double ***, short **, double **, double **) override { return -9; }
};
// ---- v2: several argument and result vectors; gathered to the contiguous layout
struct G {
  int n = 0, m = 0;
  int xi[2], xj[2], yi[2], yj[2];
  double s;
  G(size_t L, size_t *a, size_t nin, size_t nout, size_t *insz, size_t *outsz, void *ctx) : s(scale(L, a)) {
    if (ctx != (void *)&retCode) fail("context", "the user's context pointer was not passed on");
    for (size_t i = 0; i < nin; i++) for (size_t j = 0; j < insz[i]; j++) { if (n > 1) fail("v2-shape", "argument vectors too long"); xi[n] = int(i); xj[n++] = int(j); }
    for (size_t i = 0; i < nout; i++) for (size_t j = 0; j < outsz[i]; j++) { if (m > 1) fail("v2-shape", "result vectors too long"); yi[m] = int(i); yj[m++] = int(j); }
  }
};
static int f2(short, size_t L, size_t *a, size_t nin, size_t nout, size_t *is, double **x, size_t *os, double **y, void *c) {
  G g(L, a, nin, nout, is, os, c);
  double X[2], Y[2];
  for (int i = 0; i < g.n; i++) X[i] = x[g.xi[i]][g.xj[i]];
  values(g.n, g.m, g.s, X, Y);
  for (int i = 0; i < g.m; i++) y[g.yi[i]][g.yj[i]] = Y[i];
  if (chg) for (int i = 0; i < g.n; i++) x[g.xi[i]][g.xj[i]] = after(X[i]);
  return retCode;
}
static int ff2(short t, size_t L, size_t *a, size_t nin, size_t nout, size_t *is, double **x, double **xp, size_t *os, double **y, double **yp, void *c) {
  G g(L, a, nin, nout, is, os, c);
  double X[2], J[2][2];
  for (int i = 0; i < g.n; i++) X[i] = x[g.xi[i]][g.xj[i]];
  jac(g.n, g.m, g.s, X, J);
  for (int j = 0; j < g.m; j++) { double d = 0; for (int i = 0; i < g.n; i++) d += J[j][i] * xp[g.xi[i]][g.xj[i]]; yp[g.yi[j]][g.yj[j]] = d; }
  if (chg) for (int i = 0; i < g.n; i++) xp[g.xi[i]][g.xj[i]] *= 1.25;
  return f2(t, L, a, nin, nout, is, x, os, y, c);
}
static int fv2(short t, size_t L, size_t *a, size_t nin, size_t nout, size_t *is, double **x, size_t nd, double ***Xp, size_t *os, double **y, double ***Yp, void *c) {
  G g(L, a, nin, nout, is, os, c);
  double X[2], J[2][2];
  for (int i = 0; i < g.n; i++) X[i] = x[g.xi[i]][g.xj[i]];
  jac(g.n, g.m, g.s, X, J);
  for (size_t l = 0; l < nd; l++)
    for (int j = 0; j < g.m; j++) { double d = 0; for (int i = 0; i < g.n; i++) d += J[j][i] * Xp[g.xi[i]][g.xj[i]][l]; Yp[g.yi[j]][g.yj[j]][l] = d; }
  if (chg) for (size_t l = 0; l < nd; l++) for (int i = 0; i < g.n; i++) Xp[g.xi[i]][g.xj[i]][l] *= 1.25;
  return f2(t, L, a, nin, nout, is, x, os, y, c);
}
static void y2(const G &g, double *X, double **y) {
  double Y[2];
  for (int i = 0; i < g.m; i++) Y[i] = y[g.yi[i]][g.yj[i]];
  yCheck(g.m, g.n, g.s, X, Y);
}
static int rf2(short, size_t L, size_t *a, size_t nout, size_t nin, size_t *os, double **u, size_t *is, double **z, double **x, double **y, void *c) {
  G g(L, a, nin, nout, is, os, c);
  double X[2], J[2][2];
  for (int i = 0; i < g.n; i++) { X[i] = before(x[g.xi[i]][g.xj[i]]); if (chg) z[g.xi[i]][g.xj[i]] *= 1.25; }
  jac(g.n, g.m, g.s, X, J); y2(g, X, y);
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) z[g.xi[i]][g.xj[i]] += J[j][i] * u[g.yi[j]][g.yj[j]];
  return retCode;
}
static int rv2(short, size_t L, size_t *a, size_t nout, size_t nin, size_t *os, size_t nd, double ***U, size_t *is, double ***Z, double **x, double **y, void *c) {
  G g(L, a, nin, nout, is, os, c);
  double X[2], J[2][2];
  for (int i = 0; i < g.n; i++) { X[i] = before(x[g.xi[i]][g.xj[i]]); if (chg) for (size_t l = 0; l < nd; l++) Z[g.xi[i]][g.xj[i]][l] *= 1.25; }
  jac(g.n, g.m, g.s, X, J); y2(g, X, y);
  for (size_t l = 0; l < nd; l++) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) Z[g.xi[i]][g.xj[i]][l] += J[j][i] * U[g.yi[j]][g.yj[j]][l];
  return retCode;
}
struct ObjV2 final : EDFobject_v2 {
  ObjV2(short o, short e) : EDFobject_v2(o, e) {}
  ext_diff_fct_v2 *e() { return edf; }
  int function(short t, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *c) override { return f2(t, L, a, ni, no, is, x, os, y, c); }
  int zos_forward(short t, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t *os, double **y, void *c) override { return f2(t, L, a, ni, no, is, x, os, y, c); }
  int fos_forward(short t, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, double **xp, size_t *os, double **y, double **yp, void *c) override { return ff2(t, L, a, ni, no, is, x, xp, os, y, yp, c); }
  int fov_forward(short t, size_t L, size_t *a, size_t ni, size_t no, size_t *is, double **x, size_t nd, double ***X, size_t *os, double **y, double ***Y, void *c) override { return fv2(t, L, a, ni, no, is, x, nd, X, os, y, Y, c); }
  int fos_reverse(short t, size_t L, size_t *a, size_t no, size_t ni, size_t *os, double **u, size_t *is, double **z, double **x, double **y, void *c) override { return rf2(t, L, a, no, ni, os, u, is, z, x, y, c); }
  int fov_reverse(short t, size_t L, size_t *a, size_t no, size_t ni, size_t *os, size_t nd, double ***U, size_t *is, double ***Z, double **x, double **y, void *c) override { return rv2(t, L, a, no, ni, os, nd, U, is, Z, x, y, c); }
};

// ---- host programs over contiguous registers
enum HK { EXT, ELEM };
struct HOp { HK k; int f, n, m, i, j, sc, split; };
static std::string str(const HOp &o) {
  if (o.k == ELEM) { const char *s[] = {"r3=r0*r1", "r0=sin(r3)", "r1+=r4*r0", "r4=exp(r2)", "r2*=r3", "r3=0.75"}; return s[o.f]; }
  return mc::fmt("r%d..=g%d%d*%d(r%d..)%s", o.j, o.n, o.m, o.sc, o.i, o.split ? "split" : "");
}
template <class T> static void elem(int f, T *r) {
  using std::sin; using std::exp;
  switch (f) {
  case 0: { const T e = r[0] * r[1]; r[3] = e; break; } // moving into r[3] would move it elsewhere
  case 1: { const T e = sin(r[3]); r[0] = e; break; }
  case 2: r[1] += r[4] * r[0]; break;
  case 3: { const T e = exp(r[2]); r[4] = e; break; }
  case 4: r[2] *= r[3]; break;
  case 5: r[3] = 0.75; break;
  }
}
enum Kind { V1S, V1N, V1O, V1X, IAS, IAO, V2S, V2O, V2X, NK };
static const char *kindName[] = {"function struct", "nested trace", "object", "object with other trace", "integer data", "object with integer data", "v2", "v2 object", "v2 object with other trace"};
static std::vector<HOp> alphabet() {
  std::vector<HOp> A;
  auto e = [&](int n, int m, std::initializer_list<std::pair<int, int>> ij, int sc, int split) { for (auto [i, j] : ij) A.push_back({EXT, 0, n, m, i, j, sc, split}); };
  e(1, 1, {{0, 3}, {1, 0}, {3, 4}, {4, 2}}, 1, 0);
  e(2, 1, {{0, 3}, {1, 4}, {3, 0}}, 2, 0);
  e(2, 2, {{0, 3}, {3, 1}, {2, 0}}, 1, 0);
  e(1, 2, {{2, 3}, {0, 1}, {4, 0}}, 3, 0);
  e(2, 2, {{0, 3}, {2, 0}}, 2, 1);
  e(2, 1, {{1, 4}}, 1, 1);
  for (int f = 0; f < 6; f++) A.push_back({ELEM, f, 0, 0, 0, 0, 0, 0});
  return A;
}
struct Ctx {
  short t, in[4];
  ext_diff_fct *e1[NK][3];
  ext_diff_fct_v2 *e2[NK][3];
};
static Ctx *cx;
static int shapeIdx(int n, int m) { return (n - 1) * 2 + m - 1; }
static void mkCtx() {
  if (cx) return;
  cx = new Ctx;
  cx->t = dsl::freshTape();
  for (int n = 1; n <= 2; n++)
    for (int m = 1; m <= 2; m++) {
      short s = cx->in[shapeIdx(n, m)] = createNewTape();
      trace_on(s);
      {
        adouble x[2], y[2];
        double v;
        for (int i = 0; i < n; i++) x[i] <<= 0.5 + i;
        body<adouble>(n, m, 1, x, y);
        for (int j = 0; j < m; j++) y[j] >>= v;
      }
      trace_off();
    }
  const short t = cx->t, o = cx->in[0];
  for (int k = 0; k < NK; k++)
    for (int c = 0; c < 3; c++) {
      cx->e1[k][c] = nullptr; cx->e2[k][c] = nullptr;
      switch (k) {
      case V1S: {
        ext_diff_fct *e = cx->e1[k][c] = reg_ext_fct(t, t, ADOLC_ext_fct([](short, int m, int n, double *x, double *y) { return cZ(1, m, n, x, y); }));
        e->zos_forward = [](short, int m, int n, int, double *x, double *y) { return cZ(1, m, n, x, y); };
        e->fos_forward = [](short, int m, int n, int, double *x, double *X, double *y, double *Y) { return cFF(1, m, n, x, X, y, Y); };
        e->fov_forward = [](short, int m, int n, int p, double *x, double **X, double *y, double **Y) { return cFV(1, m, n, p, x, X, y, Y); };
        e->fos_reverse = [](short, int m, int n, double *u, double *z, double *x, double *y) { return cRF(1, m, n, u, z, x, y); };
        e->fov_reverse = [](short, int m, int n, int q, double **U, double **Z, double *x, double *y) { return cRV(1, m, n, q, U, Z, x, y); };
        break;
      }
      case V1N: {
        ext_diff_fct *e = cx->e1[k][c] = reg_ext_fct(t, o, ADOLC_ext_fct([](short, int m, int n, double *x, double *y) { return std::min(retCode, ::zos_forward(cx->in[shapeIdx(n, m)], m, n, 0, x, y)); }));
        e->zos_forward = [](short, int m, int n, int keep, double *x, double *y) { return std::min(retCode, ::zos_forward(cx->in[shapeIdx(n, m)], m, n, keep, x, y)); };
        e->fos_forward = [](short, int m, int n, int keep, double *x, double *X, double *y, double *Y) { return std::min(retCode, ::fos_forward(cx->in[shapeIdx(n, m)], m, n, keep, x, X, y, Y)); };
        e->fov_forward = [](short, int m, int n, int p, double *x, double **X, double *y, double **Y) { return std::min(retCode, ::fov_forward(cx->in[shapeIdx(n, m)], m, n, p, x, X, y, Y)); };
        e->fos_reverse = [](short, int m, int n, double *u, double *z, double *x, double *y) {
          const short s = cx->in[shapeIdx(n, m)];
          ::zos_forward(s, m, n, 1, x, y);
          nestedReverseEval(s, true);
          int rc = ::fos_reverse(s, m, n, u, z);
          nestedReverseEval(s, false);
          return std::min(retCode, rc);
        };
        e->fov_reverse = [](short, int m, int n, int q, double **U, double **Z, double *x, double *y) {
          const short s = cx->in[shapeIdx(n, m)];
          ::zos_forward(s, m, n, 1, x, y);
          nestedReverseEval(s, true);
          int rc = ::fov_reverse(s, m, n, q, U, Z);
          nestedReverseEval(s, false);
          return std::min(retCode, rc);
        };
        break;
      }
      case V1O: cx->e1[k][c] = (new ObjV1(t, t))->e(); break;
      case V1X: cx->e1[k][c] = (new ObjV1(t, o))->e(); break;
      case IAS: {
        ext_diff_fct *e = cx->e1[k][c] = reg_ext_fct(t, t, ADOLC_ext_fct_iArr([](short, size_t L, size_t *a, int m, int n, double *x, double *y) { return cZ(scale(L, a), m, n, x, y); }));
        e->zos_forward_iArr = [](short, size_t L, size_t *a, int m, int n, int, double *x, double *y) { return cZ(scale(L, a), m, n, x, y); };
        e->fos_forward_iArr = [](short, size_t L, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) { return cFF(scale(L, a), m, n, x, X, y, Y); };
        e->fov_forward_iArr = [](short, size_t L, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) { return cFV(scale(L, a), m, n, p, x, X, y, Y); };
        e->fos_reverse_iArr = [](short, size_t L, size_t *a, int m, int n, double *u, double *z, double *x, double *y) { return cRF(scale(L, a), m, n, u, z, x, y); };
        e->fov_reverse_iArr = [](short, size_t L, size_t *a, int m, int n, int q, double **U, double **Z, double *x, double *y) { return cRV(scale(L, a), m, n, q, U, Z, x, y); };
        break;
      }
      case IAO: setCurrentTape(t); cx->e1[k][c] = (new ObjIA)->e(); break;
      case V2S: {
        ext_diff_fct_v2 *e = cx->e2[k][c] = reg_ext_fct(t, t, &f2);
        e->zos_forward = &f2; e->fos_forward = &ff2; e->fov_forward = &fv2; e->fos_reverse = &rf2; e->fov_reverse = &rv2;
        e->context = &retCode;
        break;
      }
      case V2O: cx->e2[k][c] = (new ObjV2(t, t))->e(); cx->e2[k][c]->context = &retCode; break;
      case V2X: cx->e2[k][c] = (new ObjV2(t, o))->e(); cx->e2[k][c]->context = &retCode; break;
      }
    }
}
static double scOf(int kind, const HOp &o) { return kind <= V1X ? 1.0 : double(o.sc); }
static void callExt(int kind, int which, const HOp &o, adouble *r) {
  size_t ia[3] = {size_t(o.sc), 7, 11};
  const size_t L = o.sc == 2 ? 3 : o.sc == 1 && kind >= V2S ? 0 : 1;
  int rc;
  if (kind <= V1X) rc = call_ext_fct(cx->e1[kind][which], o.n, r + o.i, o.m, r + o.j);
  else if (kind <= IAO) rc = call_ext_fct(cx->e1[kind][which], L, ia, o.n, r + o.i, o.m, r + o.j);
  else {
    adouble *xs[2] = {r + o.i, r + o.i + 1}, *ys[2] = {r + o.j, r + o.j + 1};
    size_t one[2] = {1, 1}, sn[1] = {size_t(o.n)}, sm[1] = {size_t(o.m)};
    if (o.split == 0) rc = call_ext_fct(cx->e2[kind][which], L, ia, 1, 1, sn, xs, sm, ys);
    else rc = call_ext_fct(cx->e2[kind][which], L, ia, size_t(o.n), size_t(o.m), one, xs, one, ys);
  }
  if (rc != retCode) fail("call-rc", "call_ext_fct returned %d, the function returned %d", rc, retCode);
}
static const double PT[2][NX] = {{0.4, 0.7, -0.5}, {-0.9, 0.3, 0.8}};
typedef ref::Dual<NX> D3;
static void refRun(int kind, const std::vector<HOp> &p, const double *x, D3 *r) {
  for (int i = 0; i < NX; i++) { r[i] = D3(x[i]); r[i].g[i] = 1; }
  r[3] = D3(0.5); r[4] = D3(1.5);
  for (auto &o : p) {
    if (o.k == ELEM) elem<D3>(o.f, r);
    else { D3 y[2]; body<D3>(o.n, o.m, scOf(kind, o), r + o.i, y); for (int j = 0; j < o.m; j++) r[o.j + j] = y[j]; if (chg) for (int i = 0; i < o.n; i++) r[o.i + i] = after(r[o.i + i]); }
  }
}
// keep: recorded with kept Taylor coefficients, so reverse follows at once
static void execCase(int kind, const std::vector<HOp> &p, int reuse, int dpx, int dpy, int nested, int keepRec, bool changing = false) {
  chg = changing;
  mkCtx();
  for (int k = 0; k < 3; k++) {
    if (cx->e1[kind][k]) { cx->e1[kind][k]->dp_x_changes = char(dpx); cx->e1[kind][k]->dp_y_priorRequired = char(dpy); cx->e1[kind][k]->nestedAdolc = char(nested); }
    if (cx->e2[kind][k]) { cx->e2[kind][k]->dp_x_changes = char(dpx); cx->e2[kind][k]->dp_y_priorRequired = char(dpy); cx->e2[kind][k]->nestedAdolc = char(nested); }
  }
  double y[NREG];
  const short t = cx->t;
  D3 R[2][NREG];
  for (int q = 0; q < 2; q++) refRun(kind, p, PT[q], R[q]);
  double sc = 1;
  for (int q = 0; q < 2; q++) for (int j = 0; j < NREG; j++) { sc = std::max(sc, std::fabs(R[q][j].v)); for (int i = 0; i < NX; i++) sc = std::max(sc, std::fabs(R[q][j].g[i])); }
  if (!(sc < 1e8)) { mc::trivial(); mc::count(cBig); return; }
  setCurrentTape(t);
  currentTape().ensureContiguousLocations(NREG);
  trace_on(t, keepRec);
  {
    adouble *r = new adouble[NREG];
    for (int i = 0; i < NX; i++) r[i] <<= PT[0][i];
    r[3] = 0.5; r[4] = 1.5;
    int c = 0;
    for (auto &o : p) {
      if (o.k == ELEM) elem<adouble>(o.f, r);
      else { callExt(kind, reuse ? 0 : c % 3, o, r); c++; }
    }
    for (int i = 0; i < NREG; i++) r[i] >>= y[i];
    delete[] r;
  }
  trace_off();
  mc::trace();
  auto val = [&](const char *w, int q) { for (int j = 0; j < NREG; j++) mc::expectNear(w, y[j], R[q][j].v, 1e-9, sc, "%s: y[%d]", w, j); };
  auto rcOk = [&](const char *w, int rc) { if (rc != std::min(3, retCode)) fail("rc", "%s returned %d, external function %d", w, rc, retCode); };
  val("record", 0);
  double W[2][NREG] = {{1, -0.5, 0.25, 2, -1}, {0.5, 1, -2, 0.75, 3}};
  auto rev = [&](const char *w, int q) {
    double z[NX];
    for (int l = 0; l < 2; l++) {
      rcOk(w, fos_reverse(t, NREG, NX, W[l], z));
      for (int i = 0; i < NX; i++) { double e = 0; for (int j = 0; j < NREG; j++) e += W[l][j] * R[q][j].g[i]; mc::expectNear(w, z[i], e, 1e-9, sc * 8, "%s: fos_reverse z[%d]", w, i); }
    }
    M2<double> U(2, NREG), Z(2, NX);
    for (int l = 0; l < 2; l++) for (int j = 0; j < NREG; j++) U[l][j] = W[l][j];
    rcOk(w, fov_reverse(t, NREG, NX, 2, U, Z));
    for (int l = 0; l < 2; l++) for (int i = 0; i < NX; i++) { double e = 0; for (int j = 0; j < NREG; j++) e += W[l][j] * R[q][j].g[i]; mc::expectNear(w, Z[l][i], e, 1e-9, sc * 8, "%s: fov_reverse Z[%d][%d]", w, l, i); }
  };
  if (keepRec) rev("recorded", 0);
  double x[NX], X[NX] = {0.75, -1.25, 0.5}, Y[NREG];
  for (int q = 1; q >= 0; q--) {
    for (int i = 0; i < NX; i++) x[i] = PT[q][i];
    rcOk("zos_forward", zos_forward(t, NREG, NX, 1, x, y));
    val("zos_forward", q);
    rev("kept", q);
    auto tang = [&](const char *w) { for (int j = 0; j < NREG; j++) { double e = 0; for (int i = 0; i < NX; i++) e += R[q][j].g[i] * X[i]; mc::expectNear(w, Y[j], e, 1e-9, sc * 4, "%s: Y[%d]", w, j); } };
    rcOk("fos_forward", fos_forward(t, NREG, NX, 0, x, X, y, Y));
    val("fos_forward", q); tang("fos_forward");
    rcOk("fos_forward", fos_forward(t, NREG, NX, 1, x, X, y, Y));
    val("fos_forward-keep", q); tang("fos_forward-keep");
    rev("fos_kept", q);
    M2<double> XP(NX, P), YP(NREG, P);
    for (int i = 0; i < NX; i++) { XP[i][0] = X[i]; XP[i][1] = double(i) - 0.5; }
    rcOk("fov_forward", fov_forward(t, NREG, NX, P, x, XP, y, YP));
    val("fov_forward", q);
    for (int l = 0; l < P; l++) for (int j = 0; j < NREG; j++) { double e = 0; for (int i = 0; i < NX; i++) e += R[q][j].g[i] * XP[i][l]; mc::expectNear("fov_forward", YP[j][l], e, 1e-9, sc * 4, "Y[%d][%d]", j, l); }
  }
  // driver
  M2<double> J(NREG, NX);
  rcOk("jacobian", jacobian(t, NREG, NX, PT[1], J));
  for (int j = 0; j < NREG; j++) for (int i = 0; i < NX; i++) mc::expectNear("jacobian", J[j][i], R[1][j].g[i], 1e-9, sc, "J[%d][%d]", j, i);
  uint64_t h = uint64_t(kind);
  for (auto &o : p) { h = mc::hmix(h, uint64_t(o.k * 100000 + o.f * 10000 + o.n * 1000 + o.m * 100 + o.i * 10 + o.j + o.sc * 1000000 + o.split * 10000000)); mc::transition(1); }
  mc::state(mc::hmix(h, uint64_t(changing * 32 + reuse * 16 + dpx * 8 + dpy * 4 + nested * 2 + keepRec)));
}
// the previous value of the results matters to the reverse sweep
static bool needsPrior(const std::vector<HOp> &p) {
  bool used[NREG] = {true, true, true, false, false};
  for (auto &o : p) {
    if (o.k == EXT) {
      for (int j = 0; j < o.m; j++) if (used[o.j + j]) return true;
      for (int j = 0; j < o.m; j++) used[o.j + j] = true;
      for (int j = 0; j < o.n; j++) used[o.i + j] = true;
    } else for (bool &u : used) u = true;
  }
  return false;
}
// arguments can be changed when no result shares their place
static bool changeable(int kind, const std::vector<HOp> &p) {
  if (kind == V1N) return false;
  for (auto &o : p) if (o.k == EXT && o.i < o.j + o.m && o.j < o.i + o.n) return false;
  return true;
}
struct R : mc::Runner {
  std::vector<HOp> A;
  int cRc = -1;
  void setup() override {
    A = alphabet();
    cRc = mc::counter("return_code_2"); cBig = mc::counter("values_too_large");
    const uint64_t NA = A.size();
    auto add = [&](int len, const char *name, int modes) {
      // modes: 0 = all flag combinations, 1 = a rotating subset
      const uint64_t progs = mc::ipow(NA, len), cfg = modes ? 2 : 64;
      mc::Space s;
      s.name = name;
      s.n = progs * NK * cfg;
      s.chunk = 400;
      s.cpu_s = 60;
      s.rule = mc::fmt("all sequences of %d of %d calls (4 shapes, argument/result positions, integer data, several vectors) and elementary operations x %d interfaces x %s", len, int(NA), int(NK),
                       modes ? "shared/separate registration" : "shared/separate registration x dp_x_changes (really changing them or not) x dp_y_priorRequired x nestedAdolc x recorded with/without keep");
      auto dec = [=, this](uint64_t k, int &kind, int &fl) {
        mc::Dec d(k);
        fl = int(d(cfg)); kind = int(d(NK));
        std::vector<HOp> p;
        for (int i = 0; i < len; i++) p.push_back(A[d(NA)]);
        if (modes) fl = fl | (int(k % 31) << 1);
        return p;
      };
      s.describe = [=](uint64_t k) {
        int kind, fl; auto p = dec(k, kind, fl);
        std::string r = mc::fmt("%s, flags %d: ", kindName[kind], fl);
        for (auto &o : p) r += str(o) + "; ";
        return r;
      };
      s.run = [=](uint64_t k) {
        int kind, fl; auto p = dec(k, kind, fl);
        bool any = false, split = false;
        for (auto &o : p) { any |= o.k == EXT; split |= o.split != 0; }
        if (!any || (split && kind < V2S)) { mc::trivial(); return; }
        int reuse = fl & 1, dpx = fl >> 1 & 1, dpy = fl >> 2 & 1, nested = fl >> 3 & 1, keep = fl >> 4 & 1, chgs = fl >> 5 & 1;
        if (chgs && !(dpx && changeable(kind, p))) { if (!modes) { mc::trivial(); return; } chgs = 0; }
        if (!nested && kind == V1N) nested = 1;
        if (!dpy && needsPrior(p)) { if (!modes) { mc::trivial(); return; } dpy = 1; }
        retCode = k % 7 == 3 ? 2 : 3;
        if (retCode == 2) mc::count(cRc);
        try { execCase(kind, p, reuse, dpx, dpy, nested, keep, chgs); } catch (...) { cx = nullptr; throw; }
      };
      spaces.push_back(s);
    };
    add(1, "one", 0);
    add(2, "two", 0);
    add(3, "three", 1);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
