// C26: every way to call a sweep - the overloads of forward and reverse and
// the Fortran entries - computes what the plain call of that sweep computes.
#include <array>
#include <map>
#include "dsl.h"
#include "arr.h"
#include <adolc/interfaces.h>
using mc::fail;
using mc::fmt;
using arr::M2;
using arr::M3;
typedef std::vector<double> V;
constexpr int MM = 3, MN = 4;
static int cRefused, cSwitched;
static std::map<std::array<int, 3>, short> tapeOf;
static std::vector<double> pointOf(int pt, int n) {
  static const double c[3][MN] = {{0.4, 0.7, -0.5, 1.25}, {0.9, -0.3, 0.8, 0.6}, {-0.6, 0.2, 0.35, -1.1}};
  std::vector<double> x(size_t(n), 0.);
  for (int i = 0; i < n; i++) x[size_t(i)] = c[pt][i % MN] + 0.01 * (i / MN);
  return x;
}
// kind 0: smooth, 1: with a recorded comparison, 2: with selections
static void body(int kind, int m, int n, const adouble *x, adouble *y) {
  for (int j = 0; j < m; j++) {
    y[j] = x[j % n] * (j + 0.5);
    for (int i = 0; i < n; i++) y[j] += sin(x[i] * (0.3 * j + 0.7)) * x[(i + j + 1) % n];
    if (kind == 2) y[j] += fmax(x[0], x[n - 1] * 0.5 - 2.0) * x[0];
  }
  if (kind == 1) { if (x[0] > 0.0) y[0] *= x[0]; else y[0] -= x[n - 1]; }
}
static short tape(int kind, int m, int n) {
  auto it = tapeOf.find({kind, m, n});
  if (it != tapeOf.end()) return it->second;
  short t;
  t = dsl::freshTape();
  const auto x0 = pointOf(0, n);
  trace_on(t);
  {
    std::vector<adouble> x(size_t(n), adouble(0.0)), y(size_t(m), adouble(0.0));
    double v;
    for (int i = 0; i < n; i++) x[size_t(i)] <<= x0[size_t(i)];
    body(kind, m, n, x.data(), y.data());
    for (int j = 0; j < m; j++) y[size_t(j)] >>= v;
  }
  trace_off();
  return tapeOf[{kind, m, n}] = t;
}
enum Form { F_XY, F_XY1, F_D0, F_NOD, F_HOV, F_FOV, F77_ZOS, F77_HOS, F77_HOV, F77_FOV,
            R_GEN, R_SU, R_Z, R_SUZ, R_NZ, R_UV, R_D0M, R_NODM, R_UVM, R_DEF,
            F77_FOSR, F77_HOSR, F77_HOSTI, F77_HOVR, F77_HOVTI, F77_FOVR, NFORM };
static const char *formName[] = {"forward(X,Y)", "forward(X,y)", "forward(d,x,y)", "forward(x,y)", "forward(d,p,x,X,y,Y)", "forward(p,x,X,y,Y)", "zos_forward_", "hos_forward_", "hov_forward_", "fov_forward_",
                                 "reverse(u[],Z[][])", "reverse(u,Z[][])", "reverse(u[],Z[])", "reverse(u,Z[])", "reverse(q,U[][],Z[][][])", "reverse(q,U[],Z[][][])", "reverse(d,q,U[][],Z[][])", "reverse(q,U[][],Z[][])", "reverse(d,q,U[],Z[][])", "reverse(Z[][][])",
                                 "fos_reverse_", "hos_reverse_", "hos_ti_reverse_", "hov_reverse_", "hov_ti_reverse_", "fov_reverse_"};
extern "C" fint zos_forward_(const fint *, const fint *, const fint *, const fint *, const fdouble *, fdouble *);
struct Call { int form, kind, m, n, d, p, pt; };
static std::string str(const Call &c) { return fmt("%s kind%d m%d n%d d%d p%d point%d", formName[c.form], c.kind, c.m, c.n, c.d, c.p, c.pt); }
// is this shape one the form is defined for?
static int shapeOk(const Call &c) { // 1 yes, 0 must be refused, -1 no such case
  switch (c.form) {
  case F_XY1: case R_SU: case R_UV: return c.m == 1;
  case F_D0: case R_Z: case R_D0M: return c.d == 0;
  case R_SUZ: case R_UVM: return c.m == 1 && c.d == 0;
  case F_NOD: case F_FOV: case F77_ZOS: case F77_FOV: case R_NODM: case F77_FOSR: case F77_FOVR: return c.d == 0 ? 1 : -1;
  case F_HOV: case F77_HOS: case F77_HOV: return c.d >= 1 ? 1 : -1;
  default: return 1;
  }
}
static bool usesP(int f) { return f == F_HOV || f == F_FOV || f == F77_HOV || f == F77_FOV || (f >= R_NZ && f <= R_UVM) || f == F77_HOVR || f == F77_HOVTI || f == F77_FOVR; }
static bool hasKeep(int f) { return f <= F_NOD || f == F77_ZOS || f == F77_HOS; }
static double coef(int i, int k) { return 0.25 * ((i * 3 + k * 5) % 7) - 0.6; }
static double wgt(int q, int j, int k) { return 0.5 * ((q * 5 + j * 3 + k * 2) % 6) - 1.1; }
static void eq(const char *what, const Call &c, double got, double want, int a, int b, int e) {
  const bool same = (got == want) || (std::isnan(got) && std::isnan(want)) || mc::close(got, want, 1e-12, 1);
  if (!same) fail(formName[c.form], "%s: %s[%d][%d][%d] is %.17g, the plain call gives %.17g", formName[c.form], what, a, b, e, got, want);
}
// plain forward sweep with the given input polynomials; y: m x (d+1)
static int plainFwd(short t, const Call &c, int d, int keep, V &y) {
  V x = pointOf(c.pt, c.n), y0(size_t(c.m), -77.);
  int rc;
  y.assign(size_t(c.m * (d + 1)), -77.);
  if (d == 0) rc = zos_forward(t, c.m, c.n, keep, x.data(), y0.data());
  else {
    M2<double> X(size_t(c.n), size_t(d)), Y(size_t(c.m), size_t(d));
    for (int i = 0; i < c.n; i++) for (int k = 0; k < d; k++) X[size_t(i)][k] = coef(i, k + 1);
    rc = hos_forward(t, c.m, c.n, d, keep, x.data(), X, y0.data(), Y);
    for (int j = 0; j < c.m; j++) for (int k = 0; k < d; k++) y[size_t(j * (d + 1) + k + 1)] = Y[size_t(j)][k];
  }
  for (int j = 0; j < c.m; j++) y[size_t(j * (d + 1))] = y0[size_t(j)];
  return rc;
}
static void rcSame(const Call &c, int got, int want) {
  if (got != want) fail(formName[c.form], "%s returned %d, the plain call %d", formName[c.form], got, want);
}
static void reverseAgrees(short t, const Call &c, int deg, const V &want, V *out) {
  // hos_reverse of what is kept now
  V u(size_t(c.m));
  for (int j = 0; j < c.m; j++) u[size_t(j)] = wgt(0, j, 0);
  M2<double> Z(size_t(c.n), size_t(deg + 1));
  int rc = hos_reverse(t, c.m, c.n, deg, u.data(), Z);
  V z{double(rc)};
  for (int i = 0; i < c.n; i++) for (int k = 0; k <= deg; k++) z.push_back(Z[size_t(i)][k]);
  if (out) *out = z;
  else for (size_t i = 0; i < z.size(); i++) eq("adjoints of what it kept", c, z[i], want[i], int(i), 0, 0);
}
static void forwardCase(const Call &c) {
  const short t = tape(c.kind, c.m, c.n);
  const size_t n = size_t(c.n), m = size_t(c.m), d = size_t(c.d), p = size_t(c.p);
  const fint ft = t, fm = c.m, fn = c.n, fd = c.d, fp = c.p;
  const int ok = shapeOk(c);
  for (int keep = 0; keep <= (hasKeep(c.form) ? c.d + 1 : 0); keep++) {
    mc::transition();
    V y, base = pointOf(c.pt, c.n), y0(m, -77.);
    const int want = plainFwd(t, c, c.d, keep, y);
    V rev0;
    const bool rev = keep > 0 && want >= 0;
    if (rev) reverseAgrees(t, c, keep - 1, rev0, &rev0);
    int rc = -99;
    M2<double> X(n, d + 1), Y(m, d + 1);
    for (int i = 0; i < c.n; i++) { X[size_t(i)][0] = base[size_t(i)]; for (int k = 1; k <= c.d; k++) X[size_t(i)][k] = coef(i, k); }
    V yOne(d + 1, -77.);
    bool refused = false;
    try {
      switch (c.form) {
      case F_XY: rc = forward(t, c.m, c.n, c.d, keep, X, Y); break;
      case F_XY1: rc = forward(t, c.m, c.n, c.d, keep, (double **)X, yOne.data()); for (int k = 0; k <= c.d; k++) Y[0][k] = yOne[size_t(k)]; break;
      case F_D0: rc = forward(t, c.m, c.n, c.d, keep, (const double *)base.data(), y0.data()); for (size_t j = 0; j < m; j++) Y[j][0] = y0[j]; break;
      case F_NOD: rc = forward(t, c.m, c.n, keep, (const double *)base.data(), y0.data()); for (size_t j = 0; j < m; j++) Y[j][0] = y0[j]; break;
      case F77_ZOS: { const fint fk = keep; rc = int(zos_forward_(&ft, &fm, &fn, &fk, base.data(), y0.data())); for (size_t j = 0; j < m; j++) Y[j][0] = y0[j]; break; }
      case F77_HOS: {
        const fint fk = keep;
        V fx(n * d), fy(m * d, -77.);
        for (size_t i = 0; i < n; i++) for (size_t k = 0; k < d; k++) fx[i + k * n] = X[i][k + 1];
        rc = int(hos_forward_(&ft, &fm, &fn, &fd, &fk, base.data(), fx.data(), y0.data(), fy.data()));
        for (size_t j = 0; j < m; j++) { Y[j][0] = y0[j]; for (size_t k = 0; k < d; k++) Y[j][k + 1] = fy[j + k * m]; }
        break;
      }
      default: { // vector forms: every direction is a scaled copy of another polynomial
        const size_t e = c.form == F_FOV || c.form == F77_FOV ? 1 : d;
        M3<double> XP(n, p, e), YP(m, p, e), YW(m, p, e);
        for (size_t i = 0; i < n; i++) for (size_t l = 0; l < p; l++) for (size_t k = 0; k < e; k++) XP[i][l][k] = coef(int(i + 2 * l), int(k + 1 + l));
        V yw(m, -77.);
        int w;
        if (e == 1 && (c.form == F_FOV || c.form == F77_FOV)) {
          M2<double> A(n, p), B(m, p), C(m, p);
          for (size_t i = 0; i < n; i++) for (size_t l = 0; l < p; l++) A[i][l] = XP[i][l][0];
          w = fov_forward(t, c.m, c.n, c.p, base.data(), A, yw.data(), B);
          if (c.form == F_FOV) rc = forward(t, c.m, c.n, c.p, (const double *)base.data(), (const double *const *)(double **)A, y0.data(), (double **)C);
          else {
            V fx(n * p), fy(m * p, -77.);
            for (size_t i = 0; i < n; i++) for (size_t l = 0; l < p; l++) fx[i + l * n] = A[i][l];
            rc = int(fov_forward_(&ft, &fm, &fn, &fp, base.data(), fx.data(), y0.data(), fy.data()));
            for (size_t j = 0; j < m; j++) for (size_t l = 0; l < p; l++) C[j][l] = fy[j + l * m];
          }
          for (size_t j = 0; j < m; j++) for (size_t l = 0; l < p; l++) { YW[j][l][0] = B[j][l]; YP[j][l][0] = C[j][l]; }
        } else {
          w = hov_forward(t, c.m, c.n, c.d, c.p, base.data(), XP, yw.data(), YW);
          if (c.form == F_HOV) rc = forward(t, c.m, c.n, c.d, c.p, (const double *)base.data(), (const double *const *const *)(double ***)XP, y0.data(), (double ***)YP);
          else {
            V fx(n * p * d), fy(m * p * d, -77.);
            for (size_t i = 0; i < n; i++) for (size_t l = 0; l < p; l++) for (size_t k = 0; k < d; k++) fx[i + n * (l + p * k)] = XP[i][l][k];
            rc = int(hov_forward_(&ft, &fm, &fn, &fd, &fp, base.data(), fx.data(), y0.data(), fy.data()));
            for (size_t j = 0; j < m; j++) for (size_t l = 0; l < p; l++) for (size_t k = 0; k < d; k++) YP[j][l][k] = fy[j + m * (l + p * k)];
          }
        }
        mc::trace();
        rcSame(c, rc, w);
        if (w < 0) { mc::count(cSwitched); return; }
        for (size_t j = 0; j < m; j++) {
          eq("y", c, y0[j], yw[j], int(j), 0, 0);
          for (size_t l = 0; l < p; l++) for (size_t k = 0; k < e; k++) eq("Y", c, YP[j][l][k], YW[j][l][k], int(j), int(l), int(k));
        }
        return;
      }
      }
    } catch (const mc::CaseFail &) { throw; } catch (const std::exception &) { refused = true; }
    mc::trace();
    if (ok == 0) {
      if (!refused && rc >= 0) fail("accepted", "%s accepted this shape", formName[c.form]);
      mc::count(cRefused);
      continue;
    }
    if (refused) fail("refused", "%s raised an error", formName[c.form]);
    rcSame(c, rc, want);
    for (int i = 0; i < c.n; i++) {
      eq("argument X after the call", c, X[size_t(i)][0], base[size_t(i)], i, 0, 0);
      for (int k = 1; k <= c.d; k++) eq("argument X after the call", c, X[size_t(i)][k], coef(i, k), i, k, 0);
    }
    if (want < 0) { mc::count(cSwitched); continue; }
    for (int j = 0; j < c.m; j++) for (int k = 0; k <= c.d; k++) eq("Y", c, Y[size_t(j)][k], y[size_t(j * (c.d + 1) + k)], j, k, 0);
    if (rev) reverseAgrees(t, c, keep - 1, rev0, nullptr);
  }
}
static void reverseCase(const Call &c) {
  const short t = tape(c.kind, c.m, c.n);
  const size_t n = size_t(c.n), m = size_t(c.m), d1 = size_t(c.d + 1), q = size_t(c.p);
  const fint ft = t, fm = c.m, fn = c.n, fd = c.d, fq = c.p;
  const int ok = shapeOk(c);
  V y;
  if (plainFwd(t, c, c.d, c.d + 1, y) < 0) { mc::count(cSwitched); mc::trivial(); return; }
  mc::transition();
  V u(m), uq(q);
  const size_t rows = c.form == R_DEF ? m : q;
  M2<double> U(rows, m), UT(m, d1);
  M3<double> UTQ(q, m, d1);
  for (size_t l = 0; l < rows; l++) for (size_t j = 0; j < m; j++) U[l][j] = c.form == R_DEF ? double(l == j) : wgt(int(l), int(j), 0);
  for (size_t j = 0; j < m; j++) u[j] = wgt(0, int(j), 0);
  for (size_t l = 0; l < q; l++) uq[l] = wgt(int(l), 0, 0);
  for (size_t j = 0; j < m; j++) for (size_t k = 0; k < d1; k++) UT[j][k] = wgt(0, int(j), int(k));
  for (size_t l = 0; l < q; l++) for (size_t j = 0; j < m; j++) for (size_t k = 0; k < d1; k++) UTQ[l][j][k] = wgt(int(l), int(j), int(k));
  M3<double> Z(rows, n, d1), W(rows, n, d1);
  M2<short> nz(rows, n), nw(rows, n);
  M2<double> Z2(std::max(rows, n), std::max(n, d1)); // where the form wants a matrix
  V z1(n, -77.);
  int rc = -99, want;
  bool one = false, patterns = false;
  // plain
  switch (c.form) {
  case R_GEN: case R_SU: case F77_HOSR: one = true; want = hos_reverse(t, c.m, c.n, c.d, u.data(), W[0]); break;
  case R_Z: case R_SUZ: case F77_FOSR: { one = true; V w(n); if (c.d) { want = 0; break; } want = fos_reverse(t, c.m, c.n, u.data(), w.data()); if (c.d == 0) for (size_t i = 0; i < n; i++) W[0][i][0] = w[i]; break; }
  case F77_HOSTI: one = true; want = hos_ti_reverse(t, c.m, c.n, c.d, UT, W[0]); break;
  case F77_HOVTI: want = hov_ti_reverse(t, c.m, c.n, c.d, c.p, UTQ, W, nw); break;
  case R_D0M: case R_NODM: case R_UVM: case F77_FOVR: {
    M2<double> w(q, n);
    if (c.d) { want = 0; break; } // must be refused
    want = fov_reverse(t, c.m, c.n, c.p, U, w);
    for (size_t l = 0; l < q; l++) for (size_t i = 0; i < n; i++) W[l][i][0] = w[l][i];
    break;
  }
  default: want = hov_reverse(t, c.m, c.n, c.d, int(rows), U, W, nw); patterns = true;
  }
  bool refused = false;
  try {
    switch (c.form) {
    case R_GEN: rc = reverse(t, c.m, c.n, c.d, (const double *)u.data(), Z[0]); break;
    case R_SU: rc = reverse(t, c.m, c.n, c.d, u[0], Z[0]); break;
    case R_Z: rc = reverse(t, c.m, c.n, c.d, (const double *)u.data(), z1.data()); break;
    case R_SUZ: rc = reverse(t, c.m, c.n, c.d, u[0], z1.data()); break;
    case R_NZ: rc = reverse(t, c.m, c.n, c.d, c.p, (const double *const *)(double **)U, (double ***)Z, (short **)nz); break;
    case R_UV: rc = reverse(t, c.m, c.n, c.d, c.p, uq.data(), (double ***)Z, (short **)nz); break;
    case R_D0M: rc = reverse(t, c.m, c.n, c.d, c.p, (const double *const *)(double **)U, (double **)Z2); break;
    case R_NODM: rc = reverse(t, c.m, c.n, c.p, (const double *const *)(double **)U, (double **)Z2); break;
    case R_UVM: rc = reverse(t, c.m, c.n, c.d, c.p, uq.data(), (double **)Z2); break;
    case R_DEF: rc = reverse(t, c.m, c.n, c.d, (double ***)Z, (short **)nz); break;
    case F77_FOSR: rc = int(fos_reverse_(&ft, &fm, &fn, u.data(), z1.data())); break;
    default: { // column-major arrays
      V fu, fz(q * n * d1, -77.);
      const bool ti = c.form == F77_HOSTI || c.form == F77_HOVTI;
      if (c.form == F77_HOSR) fu = u;
      else if (c.form == F77_HOSTI) { fu.resize(m * d1); for (size_t j = 0; j < m; j++) for (size_t k = 0; k < d1; k++) fu[j + m * k] = UT[j][k]; }
      else if (ti) { fu.resize(q * m * d1); for (size_t l = 0; l < q; l++) for (size_t j = 0; j < m; j++) for (size_t k = 0; k < d1; k++) fu[l + q * (j + m * k)] = UTQ[l][j][k]; }
      else { fu.resize(q * m); for (size_t l = 0; l < q; l++) for (size_t j = 0; j < m; j++) fu[l + q * j] = U[l][j]; }
      if (c.form == F77_HOSR) rc = int(hos_reverse_(&ft, &fm, &fn, &fd, fu.data(), fz.data()));
      else if (c.form == F77_HOSTI) rc = int(hos_ti_reverse_(&ft, &fm, &fn, &fd, fu.data(), fz.data()));
      else if (c.form == F77_HOVR) rc = int(hov_reverse_(&ft, &fm, &fn, &fd, &fq, fu.data(), fz.data()));
      else if (c.form == F77_HOVTI) rc = int(hov_ti_reverse_(&ft, &fm, &fn, &fd, &fq, fu.data(), fz.data()));
      else rc = int(fov_reverse_(&ft, &fm, &fn, &fq, fu.data(), fz.data()));
      if (one) { for (size_t i = 0; i < n; i++) for (size_t k = 0; k < d1; k++) Z[0][i][k] = fz[i + n * k]; }
      else for (size_t l = 0; l < q; l++) for (size_t i = 0; i < n; i++) for (size_t k = 0; k < d1; k++) Z[l][i][k] = fz[l + q * (i + n * k)];
      patterns = false;
    }
    }
  } catch (const mc::CaseFail &) { throw; } catch (const std::exception &) { refused = true; }
  mc::trace();
  if (ok == 0) {
    if (!refused && rc >= 0) fail("accepted", "%s accepted this shape", formName[c.form]);
    mc::count(cRefused);
    return;
  }
  if (refused) fail("refused", "%s raised an error", formName[c.form]);
  rcSame(c, rc, want);
  if (want < 0) fail("plain", "the plain reverse call returned %d", want);
  if (c.form == R_Z || c.form == R_SUZ || c.form == F77_FOSR) for (size_t i = 0; i < n; i++) Z[0][i][0] = z1[i];
  if (c.form == R_D0M || c.form == R_NODM || c.form == R_UVM) for (size_t l = 0; l < q; l++) for (size_t i = 0; i < n; i++) Z[l][i][0] = Z2[l][i];
  for (size_t l = 0; l < (one ? 1 : rows); l++) for (size_t i = 0; i < n; i++) {
    for (size_t k = 0; k < d1; k++) eq("Z", c, Z[l][i][k], W[l][i][k], int(l), int(i), int(k));
    if (patterns && nz[l][i] != nw[l][i]) fail(formName[c.form], "nz[%d][%d] is %d, the plain call gives %d", int(l), int(i), nz[l][i], nw[l][i]);
  }
}
static void runCall(const Call &c) { if (c.form < R_GEN) forwardCase(c); else reverseCase(c); }
static uint64_t hsh(const Call &c) { return mc::hmix(uint64_t(c.form + 64 * c.kind + 256 * c.m), uint64_t(c.n + 512 * c.d + 8192 * c.p + 65536 * 64 * c.pt)); }
struct R : mc::Runner {
  void setup() override {
    auto clear = [] { tapeOf.clear(); };
    clear();
    childInit = clear;
    cRefused = mc::counter("shapes_refused"); cSwitched = mc::counter("branches_left");
    const int D = mc::thorough ? 7 : 5, P = mc::thorough ? 4 : 3;
    {
      mc::Space s;
      s.name = "calls"; s.n = uint64_t(NFORM * 3 * MM * MN * D * P * 3); s.chunk = 200;
      s.rule = fmt("every overload of forward and reverse and every Fortran entry x functions x 1..%d dependents x 1..%d independents x degrees 0..%d x 1..%d directions or rows x keeps x points, against the plain sweep", MM, MN, D - 1, P);
      auto dec = [=](uint64_t k) { mc::Dec e(k); Call c; c.form = int(e(NFORM)); c.kind = int(e(3)); c.m = 1 + int(e(MM)); c.n = 1 + int(e(MN)); c.d = int(e(uint64_t(D))); c.p = 1 + int(e(uint64_t(P))); c.pt = int(e(3)); return c; };
      s.run = [=](uint64_t k) {
        Call c = dec(k);
        if (shapeOk(c) < 0 || (c.p > 1 && !usesP(c.form))) { mc::trivial(); return; }
        mc::state(hsh(c));
        runCall(c);
      };
      s.describe = [=](uint64_t k) { return str(dec(k)); };
      spaces.push_back(s);
    }
    {
      static const int WS[] = {1, 5, 8, 9, 17}, WP[] = {1, 4, 5, 9}, WD[] = {0, 1, 4};
      mc::Space s;
      s.name = "wide"; s.n = uint64_t(NFORM * 3 * 5 * 5 * 3 * 4 * 2); s.chunk = 100;
      s.rule = "the same with 1, 5, 8, 9 or 17 dependents and independents, degrees 0, 1, 4 and 1, 4, 5 or 9 directions or rows";
      auto dec = [=](uint64_t k) { mc::Dec e(k); Call c; c.form = int(e(NFORM)); c.kind = int(e(3)); c.m = WS[e(5)]; c.n = WS[e(5)]; c.d = WD[e(3)]; c.p = WP[e(4)]; c.pt = int(e(2)); return c; };
      s.run = [=](uint64_t k) {
        Call c = dec(k);
        if (shapeOk(c) < 0 || (c.p > 1 && !usesP(c.form))) { mc::trivial(); return; }
        mc::state(hsh(c));
        runCall(c);
      };
      s.describe = [=](uint64_t k) { return str(dec(k)); };
      spaces.push_back(s);
    }
    static std::vector<Call> L;
    L.clear();
    static const int S[][4] = {{1, 1, 0, 1}, {1, 4, 2, 3}, {3, 2, 1, 2}, {2, 3, 0, 3}, {1, 2, 3, 1}};
    for (int f = 0; f < NFORM; f++) for (auto &z : S) { Call c{f, 2, z[0], z[1], z[2], z[3], 1}; if (shapeOk(c) >= 0) L.push_back(c); }
    const uint64_t NL = L.size();
    for (int len = 2; len <= 3; len++) {
      mc::Space s;
      // triples: the overloads that keep work space between calls
      std::vector<size_t> idx;
      for (size_t i = 0; i < L.size(); i++) if (len == 2 || mc::thorough || L[i].form == F_XY1 || L[i].form == R_DEF || L[i].form == F_XY || L[i].form == R_UV) idx.push_back(i);
      const uint64_t NI = idx.size();
      s.name = fmt("sequence%d", len); s.n = mc::ipow(NI, len); s.chunk = 100;
      s.rule = fmt("all sequences of %d of %d calls of changing shapes, refused ones included", len, int(NI));
      s.run = [=](uint64_t k) { mc::Dec e(k); uint64_t h = 0; for (int i = 0; i < len; i++) { const Call &c = L[idx[e(NI)]]; h = mc::hmix(h, hsh(c)); runCall(c); } mc::state(h); };
      s.describe = [=](uint64_t k) { mc::Dec e(k); std::string r; for (int i = 0; i < len; i++) r += str(L[idx[e(NI)]]) + "; "; return r; };
      spaces.push_back(s);
    }
    (void)NL;
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
