// C04: higher-order reverse sweeps return exact adjoint Taylor coefficients.
#include "cls.h"
#include "dsl.h"
#include <adolc/adalloc.h>
#include <adolc/interfaces.h>
using namespace dsl;
using mc::fail;
constexpr int D = 4;
typedef ref::Dual<2> DD;
typedef ref::Tay<DD, D> TT;
static int cKink, cDom;

static const double XP[3][2][D] = {{{0.7, -0.4, 0.3, 0.2}, {-1.1, 0.5, 0.25, -0.3}},
                                   {{0, 0.8, 0, -0.5}, {1, 0, 0, 0}},
                                   {{0, 0, 0.6, 0}, {0, -0.9, 0.4, 0}}};
static const double UW[2][NR] = {{1.0, -0.5, 2.0}, {0.0, 1.5, -0.75}};

struct Want {
  double A[NR][2][D + 1]; // d y_k / d x_0
  bool ok;
};
static Want want(const Prog &p, const double *x, const double X[2][D]) {
  Want w;
  TT xt[2], yt[NR];
  for (int i = 0; i < 2; i++) {
    xt[i].c[0].v = x[i];
    xt[i].c[0].g[i] = 1;
    for (int k = 0; k < D; k++) xt[i].c[k + 1] = DD(X[i][k]);
  }
  runRef(p, xt, yt);
  w.ok = !ref::flags.fuzzy && !ref::flags.kink;
  for (int j = 0; j < NR; j++)
    for (int i = 0; i < 2; i++)
      for (int k = 0; k <= D; k++) {
        w.A[j][i][k] = yt[j].c[k].g[i];
        if (!std::isfinite(w.A[j][i][k]) || std::fabs(w.A[j][i][k]) > 1e7 || !std::isfinite(yt[j].c[k].v)) w.ok = false;
      }
  return w;
}
template <class T> struct M2 {
  std::vector<T> d; std::vector<T *> r;
  M2(int a, int b, T v = T(-77)) : d(a * b, v), r(a) { for (int i = 0; i < a; i++) r[i] = d.data() + i * b; }
  operator T **() { return r.data(); }
};
struct M3 {
  std::vector<double> d; std::vector<double *> r; std::vector<double **> q;
  M3(int a, int b, int c) : d(a * b * c, -77), r(a * b), q(a) {
    for (int i = 0; i < a * b; i++) r[i] = d.data() + i * c;
    for (int i = 0; i < a; i++) q[i] = r.data() + i * b;
  }
  operator double ***() { return q.data(); }
};
// expected adjoint polynomial for weight polynomials U[j][0..d]
static void zpoly(const Want &w, const double U[NR][D + 1], int d, double z[2][D + 1], double &sc) {
  for (int i = 0; i < 2; i++)
    for (int k = 0; k <= d; k++) {
      double s = 0;
      for (int j = 0; j < NR; j++)
        for (int l = 0; l <= k; l++) {
          double t = U[j][l] * w.A[j][i][k - l];
          s += t;
          sc = std::fmax(sc, std::fabs(t));
        }
      z[i][k] = s;
    }
}

static void checkProgram(const Prog &p, const double *x) {
  const int n = 2, m = NR;
  double yr[NR], ya[NR], y[NR];
  if (!runDouble(p, x, yr) || illConditioned(p, x)) { mc::trivial(); mc::count(cDom); return; }
  Want w[3];
  std::vector<int> good;
  for (int q = 0; q < 3; q++) if ((w[q] = want(p, x, XP[q])).ok) good.push_back(q);
  if (good.empty()) { mc::trivial(); mc::count(cKink); return; }
  mc::trace();
  const short tag = 0;
  record(tag, p, x, ya, 0);
  auto rcok = [&](int rc, const char *what) { if (rc < 0) fail("rc", "%s returned %d at the recorded point", what, rc); };
  // nonlinearity classes
  ref::Cls xc[2], yc[NR];
  for (int i = 0; i < 2; i++) { xc[i].v = x[i]; xc[i].c[i] = 1; }
  runRef(p, xc, yc);
  auto checkNz = [&](const char *what, int q, int d, int l, short **nz, double (*z)[D + 1], const double U[NR][D + 1], double sc) {
    for (int i = 0; i < n; i++) {
      int c = 0;
      bool dep = false, nonl = false;
      for (int j = 0; j < m; j++) if (U[j][0] != 0) c = std::max(c, yc[j].c[i]);
      for (int k = 0; k <= d; k++) if (std::fabs(z[i][k]) > 1e-6 * sc) { dep = true; if (k) nonl = true; }
      mc::checked();
      if (dep && nz[l][i] < 1) fail("nz", "%s: pattern says d row %d / d x%d is zero, but it is not", what, l, i);
      bool constU = true;
      for (int j = 0; j < m; j++) for (int k = 1; k <= d; k++) constU &= U[j][k] == 0;
      if (constU && nonl && nz[l][i] < 2) fail("nz", "%s: pattern says row %d is linear in x%d, but it is not", what, l, i);
      if (constU && nonl && nz[l][i] < c) fail("nz", "%s: pattern entry [%d][%d] is %d, the dependence is of class %d", what, l, i, nz[l][i], c);
      if (nz[l][i] < 0 || nz[l][i] > 5) fail("nz", "%s: pattern entry [%d][%d] is %d", what, l, i, nz[l][i]);
    }
    (void)q;
  };
  double U0[NR][D + 1] = {}, U1[NR][D + 1];
  for (int j = 0; j < m; j++)
    for (int k = 0; k <= D; k++) {
      U0[j][k] = k ? 0 : UW[0][j];
      U1[j][k] = UW[0][j] + 0.25 * k * (j + 1) - (k == 2 ? 1.0 : 0.0);
    }
  for (int q : good) {
    for (int d = 0; d <= (mc::thorough ? D : 3); d++) {
      M2<double> X(n, d ? d : 1), Y(m, d ? d : 1);
      for (int i = 0; i < n; i++) for (int k = 0; k < d; k++) X.r[i][k] = XP[q][i][k];
      auto fwd = [&] {
        if (d) rcok(hos_forward(tag, m, n, d, d + 1, x, X, y, Y), "hos_forward");
        else rcok(zos_forward(tag, m, n, 1, x, y), "zos_forward");
      };
      double z[2][D + 1], sc;
      auto cmp = [&](const char *what, double **Z) {
        for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++)
          mc::expectNear(what, Z[i][k], z[i][k], 1e-8, sc, "%s: d/dx%d coefficient %d (degree %d, input polynomial %d)", what, i, k, d, q);
      };
      fwd();
      M2<double> Z(n, d + 1);
      sc = 1;
      zpoly(w[q], U0, d, z, sc);
      rcok(hos_reverse(tag, m, n, d, UW[0], Z), "hos_reverse");
      cmp("hos_reverse", Z);
      if (d == 0) { // degree 0: all first-order overloads agree
        double zz[2];
        rcok(reverse(tag, m, n, 0, UW[0], zz), "reverse");
        for (int i = 0; i < n; i++) mc::expectNear("reverse d=0", zz[i], z[i][0], 1e-8, sc, "reverse(d=0): d/dx%d", i);
        M2<double> Zv(2, n), Uv(2, m);
        for (int l = 0; l < 2; l++) for (int j = 0; j < m; j++) Uv.r[l][j] = UW[l][j];
        rcok(reverse(tag, m, n, 0, 2, (const double *const *)Uv.r.data(), (double **)Zv), "reverse");
        for (int i = 0; i < n; i++) mc::expectNear("reverse d=0", Zv.r[0][i], z[i][0], 1e-8, sc, "reverse(d=0,q=2): d/dx%d", i);
      }
      if (d == 2) { // a reverse sweep leaves the forward state intact
        rcok(reverse(tag, m, n, d, UW[0], (double **)Z), "reverse");
        cmp("reverse", Z);
      }
      M2<double> U(m, d + 1);
      for (int j = 0; j < m; j++) for (int k = 0; k <= d; k++) U.r[j][k] = U1[j][k];
      sc = 1;
      zpoly(w[q], U1, d, z, sc);
      rcok(hos_ti_reverse(tag, m, n, d, (const double *const *)U.r.data(), Z), "hos_ti_reverse");
      cmp("hos_ti_reverse", Z);
      if (d == 1 || d == 2 || (d && mc::thorough)) {
        // several weight vectors
        M2<double> Uv(2, m);
        for (int l = 0; l < 2; l++) for (int j = 0; j < m; j++) Uv.r[l][j] = UW[l][j];
        M3 Zv(2, n, d + 1);
        M2<short> nz(2, n, -3);
        auto cmpv = [&](const char *what, int l, double (*Uw)[D + 1], bool nzok) {
          sc = 1;
          zpoly(w[q], Uw, d, z, sc);
          cmp(what, Zv.q[l]);
          if (nzok) checkNz(what, q, d, l, nz, z, Uw, sc);
        };
        auto wts = [&](int l, double (*Uw)[D + 1]) { for (int j = 0; j < m; j++) for (int k = 0; k <= D; k++) Uw[j][k] = k ? 0 : UW[l][j]; };
        double Uw[NR][D + 1];
        rcok(hov_reverse(tag, m, n, d, 2, (const double *const *)Uv.r.data(), Zv, nz), "hov_reverse");
        for (int l = 0; l < 2; l++) { wts(l, Uw); cmpv("hov_reverse", l, Uw, q == 0); }
        std::fill(Zv.d.begin(), Zv.d.end(), -77.0);
        rcok(reverse(tag, m, n, d, 2, (const double *const *)Uv.r.data(), (double ***)Zv), "reverse");
        for (int l = 0; l < 2; l++) { wts(l, Uw); cmpv("reverse vector", l, Uw, false); }
        M3 Zi(m, n, d + 1);
        M2<short> nzi(m, n, -3);
        rcok(reverse(tag, m, n, d, (double ***)Zi, (short **)nzi), "reverse");
        for (int l = 0; l < m; l++) {
          for (int j = 0; j < m; j++) for (int k = 0; k <= D; k++) Uw[j][k] = (j == l && k == 0);
          sc = 1;
          zpoly(w[q], Uw, d, z, sc);
          cmp("reverse identity", Zi.q[l]);
          if (q == 0) checkNz("reverse identity", q, d, l, nzi, z, Uw, sc);
        }
        M3 Ut(2, m, d + 1);
        for (int j = 0; j < m; j++) for (int k = 0; k <= d; k++) { Ut.q[0][j][k] = k ? 0 : UW[1][j]; Ut.q[1][j][k] = U1[j][k]; }
        std::fill(Zv.d.begin(), Zv.d.end(), -77.0);
        rcok(hov_ti_reverse(tag, m, n, d, 2, Ut, Zv, nz), "hov_ti_reverse");
        wts(1, Uw);
        cmpv("hov_ti_reverse", 0, Uw, q == 0);
        cmpv("hov_ti_reverse", 1, U1, q == 0);
      }
    }
  }
  // several directions kept at once
  const int P = (int)good.size();
  for (int d = 1; d <= (mc::thorough ? 3 : 2); d++) {
    bool tie = false; // ties of fmin/fmax/fabs are refused by this driver
    M3 X(n, P, d), Y(m, P, d);
    for (int i = 0; i < n; i++) for (int j = 0; j < P; j++) for (int k = 0; k < d; k++) X.q[i][j][k] = XP[good[j]][i][k];
    rcok(hov_wk_forward(tag, m, n, d, d + 1, P, x, X, y, Y), "hov_wk_forward");
    M2<double> U(m, d + 1);
    for (int j = 0; j < m; j++) for (int k = 0; k <= d; k++) U.r[j][k] = U1[j][k];
    M3 Z(P, n, d + 1);
    rcok(hos_ov_reverse(tag, m, n, d, P, (const double *const *)U.r.data(), Z), "hos_ov_reverse");
    for (int l = 0; l < P; l++) {
      double z[2][D + 1], sc = 1;
      zpoly(w[good[l]], U1, d, z, sc);
      for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++)
        mc::expectNear("hos_ov_reverse", Z.q[l][i][k], z[i][k], 1e-8, sc, "hos_ov_reverse: direction %d d/dx%d coefficient %d (degree %d)", l, i, k, d);
    }
    (void)tie;
  }
}

static const double P0[][2] = {{0.4, 0.7}, {1.75, -0.6}, {-1.3, 2.2}, {-0.3, -0.8}, {2.5, 0.25}, {0.0, 1.0}};
static const double GV[] = {-2, -1, -0.5, -0.0, 0.0, 1, 2};
static double PG[49][2];

struct R : mc::Runner {
  std::vector<Op> Af, Am, As, At;
  void add(const char *name, const std::vector<Op> *A, int L, int np, const char *rule, uint64_t chunk, const double (*P)[2] = P0) {
    mc::Space s;
    s.name = name;
    s.n = mc::ipow(A->size(), L) * np;
    s.chunk = chunk;
    s.rule = mc::fmt("%s (%zu operations, length %d, %d points), 3 input polynomials, degrees 0..%d, constant and polynomial weights, 1-3 rows/directions", rule, A->size(), L, np, D);
    s.run = [=](uint64_t k) { checkProgram(prog(*A, L, k / np), P[k % np]); };
    s.describe = [=](uint64_t k) { return str(prog(*A, L, k / np)) + mc::fmt(" @(%g,%g)", P[k % np][0], P[k % np][1]); };
    spaces.push_back(s);
  }
  void setup() override {
    childInit = [] { freshTape(); };
    cKink = mc::counter("at_kink_or_undefined_derivative");
    cDom = mc::counter("outside_domain");
    auto alphabet = [](const AlphaCfg &c) { // cbrt: documented refusal of the higher-order drivers
      auto A = dsl::alphabet(c);
      std::erase_if(A, [](const Op &o) { return o.k == UN && o.f == CBRT; });
      return A;
    };
    Af = alphabet(cfgFull());
    Am = alphabet(cfgMid());
    As = alphabet(cfgSmall());
    At = alphabet(cfgTiny());
    if (!mc::thorough) std::erase_if(At, [](const Op &o) { return (o.k == UN && o.f != EXP && o.f != SIN && o.f != SQRT && o.f != ATAN && o.f != NEG && o.f != FABS) || o.k == CPC || (o.k == INC && o.f != 2) || (o.k == CND && o.f != 0 && o.f != 3) || (o.k == ASG && o.f > 0 && o.f < 3) || (o.k == CPR && o.f > 1) || (o.k == CB && o.f != CSUB && o.f != CDIV && o.f != CMUL && o.f != POWH && o.f != MINC); });
    add("len1", &Af, 1, 6, "every operation, operand form and aliasing pattern", 300);
    for (int i = 0; i < 49; i++) { PG[i][0] = GV[i / 7]; PG[i][1] = GV[i % 7]; }
    add("grid", &Af, 1, 49, "every operation, operand form and aliasing pattern on a grid of points with both zeros and borders of domains", 300, PG);
    if (mc::thorough) add("len2", &Am, 2, 2, "all pairs of operations", 1000);
    else add("len2", &As, 2, 3, "all pairs of representative operations", 500);
    if (mc::thorough) add("len3", &As, 3, 1, "all triples of representative operations", 1000);
    else add("len3", &At, 3, 1, "all triples of few operations", 1000);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
