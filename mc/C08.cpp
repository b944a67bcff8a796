// C08: reverse sweeps use exactly the latest kept forward state or are refused.
#include "dsl.h"
#include "arr.h"
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
using mc::fail;
using arr::M2; using arr::M3;
constexpr int D = 2, N = 3, M = 2, P = 2;
// three programs over one trace; n, m differ
static const int PN[3] = {2, 2, 3}, PM[3] = {2, 2, 1};
static const char *PS[3] = {"A(2->2)", "B(2->2)", "C(3->1)"};
template <class T> static void prog(int p, T *x, T *y) {
  using namespace std;
  switch (p) {
  case 0: {
    T a = x[0] * x[1], b = sin(x[0]) + a;
    a *= b; b = a / (x[1] * x[1] + 2.0); a += b * x[0];
    y[0] = a; y[1] = b * b - x[1];
    break;
  }
  case 1: {
    T a = x[0], b = exp(x[1]);
    for (int i = 0; i < 3; i++) { T c = a * b + double(i); a = c; b = b - a * x[0]; }
    y[0] = b; y[1] = a * 0.125;
    break;
  }
  case 2: {
    T a = x[0] * x[1] * x[2];
    a = a * a + cos(x[2]);
    y[0] = a * x[0] + 1.5;
    break;
  }
  }
}
static const double PT[2][N] = {{0.4, 0.7, -0.5}, {-0.9, 0.3, 1.25}};
// directions and their higher coefficients: all forward sweeps use prefixes
static const double XD[P][D][N] = {{{0.75, -1.25, 0.5}, {0.25, 0.5, -0.75}}, {{-0.5, 0.375, 1.0}, {1.0, -0.25, 0.125}}};
static const double W[2][M] = {{1.0, -0.5}, {0.25, 2.0}};
static double wt(int q, int j, int k) { return W[q][j] + 0.25 * k * (j + 1); }
enum { T_BIG = 4096 };

struct Ref { double y[M], yd[P][M][D + 1], A[P][M][N][D + 1]; };
static Ref refv[3][2];
static void mkRef() {
  static bool done = false;
  if (done) return;
  done = true;
  for (int p = 0; p < 3; p++)
    for (int e = 0; e < 2; e++)
      for (int l = 0; l < P; l++) {
        typedef ref::Tay<ref::Dual<N>, D> T;
        T x[N], y[M];
        for (int i = 0; i < PN[p]; i++) {
          x[i].c[0] = ref::Dual<N>(PT[e][i]);
          x[i].c[0].g[i] = 1;
          for (int k = 1; k <= D; k++) x[i].c[k] = ref::Dual<N>(XD[l][k - 1][i]);
        }
        prog(p, x, y);
        for (int j = 0; j < PM[p]; j++) {
          refv[p][e].y[j] = y[j].c[0].v;
          for (int k = 0; k <= D; k++) {
            refv[p][e].yd[l][j][k] = y[j].c[k].v;
            for (int i = 0; i < PN[p]; i++) refv[p][e].A[l][j][i][k] = y[j].c[k].g[i];
          }
        }
      }
}
// weights: const = W[q][j], ti = wt(q,j,k)
static double adj(int p, int e, int l, int q, bool ti, int i, int k) {
  double s = 0;
  for (int j = 0; j < PM[p]; j++)
    for (int c = 0; c <= (ti ? k : 0); c++) s += (ti ? wt(q, j, c) : W[q][j]) * refv[p][e].A[l][j][i][k - c];
  return s;
}

struct Cmd { enum K { R, Z, F, H, FV, HW, HV, J, V } k; int a, b, c; };
struct RevK { const char *name; int d, dirs; bool fo; }; // dirs needed
static const RevK RK[] = {{"fos", 0, 1, true}, {"fov", 0, 1, true}, {"hos0", 0, 1, false}, {"hos1", 1, 1, false}, {"hos2", 2, 1, false},
  {"hos_ti1", 1, 1, false}, {"hos_ti2", 2, 1, false}, {"hov1", 1, 1, false}, {"hov2", 2, 1, false}, {"hov_ti1", 1, 1, false}, {"hov_ti2", 2, 1, false},
  {"hos_ov1x1", 1, 1, false}, {"hos_ov1x2", 1, 2, false}, {"hos_ov2x1", 2, 1, false}, {"hos_ov2x2", 2, 2, false}};
enum { NREV = 15 };
static short tag;
struct Kept { int deg, dirs, pt; };
struct St { int p = 0, e = 0; std::vector<Kept> k; bool strict = true; }; // candidate kept states; strict: the single candidate must be usable

// runs reverse kind v; false if refused
static bool runRev(int v, int p, std::vector<double> &z) {
  const int n = PN[p], m = PM[p];
  const RevK &r = RK[v];
  z.clear();
  auto put = [&](double **Z, int a, int b) { for (int i = 0; i < a; i++) for (int k = 0; k < b; k++) z.push_back(Z[i][k]); };
  try {
    M2<double> U2(2, m);
    for (int q = 0; q < 2; q++) for (int j = 0; j < m; j++) U2[q][j] = W[q][j];
    M2<double> Ut(m, D + 1);
    for (int j = 0; j < m; j++) for (int k = 0; k <= D; k++) Ut[j][k] = wt(0, j, k);
    double u[M] = {W[0][0], W[0][1]};
    if (v == 0) { double q[N]; if (fos_reverse(tag, m, n, u, q) < 0) return false; z.assign(q, q + n); }
    else if (v == 1) { M2<double> Z(2, n); if (fov_reverse(tag, m, n, 2, U2, Z) < 0) return false; put(Z, 2, n); }
    else if (v <= 4) { M2<double> Z(n, r.d + 1); if (hos_reverse(tag, m, n, r.d, u, Z) < 0) return false; put(Z, n, r.d + 1); }
    else if (v <= 6) { M2<double> Z(n, r.d + 1); if (hos_ti_reverse(tag, m, n, r.d, Ut, Z) < 0) return false; put(Z, n, r.d + 1); }
    else if (v <= 8) { M3<double> Z(2, n, r.d + 1); if (hov_reverse(tag, m, n, r.d, 2, U2, Z, nullptr) < 0) return false; for (int q = 0; q < 2; q++) put(Z[q], n, r.d + 1); }
    else if (v <= 10) {
      M3<double> Z(2, n, r.d + 1), U3(2, m, r.d + 1);
      for (int q = 0; q < 2; q++) for (int j = 0; j < m; j++) for (int k = 0; k <= r.d; k++) U3[q][j][k] = wt(q, j, k);
      if (hov_ti_reverse(tag, m, n, r.d, 2, U3, Z, nullptr) < 0) return false;
      for (int q = 0; q < 2; q++) put(Z[q], n, r.d + 1);
    } else { M3<double> Z(r.dirs, n, r.d + 1); if (hos_ov_reverse(tag, m, n, r.d, r.dirs, Ut, Z) < 0) return false; for (int l = 0; l < r.dirs; l++) put(Z[l], n, r.d + 1); }
  } catch (std::exception &) { return false; }
  return true;
}
static std::vector<double> wantRev(int v, int p, int e) {
  const int n = PN[p];
  const RevK &r = RK[v];
  std::vector<double> z;
  if (v == 0) { for (int i = 0; i < n; i++) z.push_back(adj(p, e, 0, 0, false, i, 0)); return z; }
  int rows = v == 1 || (v >= 7 && v <= 10) ? 2 : v >= 11 ? r.dirs : 1;
  bool ti = v == 5 || v == 6 || v >= 9;
  for (int q = 0; q < rows; q++)
    for (int i = 0; i < n; i++)
      for (int k = 0; k <= r.d; k++) z.push_back(adj(p, e, v >= 11 ? q : 0, v >= 11 ? 0 : q, ti, i, k));
  return z;
}
static void checkRev(St &s, int v) {
  std::vector<double> z;
  const RevK &r = RK[v];
  bool ok = runRev(v, s.p, z);
  mc::checked();
  bool must = false, possible = false;
  for (auto &k : s.k) {
    if (k.deg >= r.d && (r.d == 0 || k.dirs >= r.dirs)) possible = true;
    if (s.k.size() == 1 && s.strict && k.deg == r.d && (r.d == 0 || k.dirs == r.dirs)) must = true;
  }
  if (!ok) {
    if (must) fail("refused", "%s reverse is refused although degree %d of %d direction(s) was kept", r.name, s.k[0].deg, s.k[0].dirs);
    return;
  }
  if (!possible) fail("not-refused", "%s reverse returns values (first %.17g) although nothing sufficient was kept (kept degree %d, %d direction(s))", r.name, z[0], s.k.empty() ? -1 : s.k[0].deg, s.k.empty() ? 0 : s.k[0].dirs);
  std::string bad;
  for (auto &k : s.k) {
    std::vector<double> w = wantRev(v, s.p, k.pt);
    size_t i = 0;
    while (i < w.size() && mc::close(z[i], w[i], 1e-10)) i++;
    if (i == w.size()) return;
    bad = mc::fmt("%s reverse result %zu: %.17g, expected %.17g (kept degree %d, %d direction(s), point %d)", r.name, i, z[i], w[i], k.deg, k.dirs, k.pt);
  }
  fail("reverse", "%s", bad.c_str());
}
static void near(const char *what, double a, double b) { mc::expectNear(what, a, b, 1e-11, 1, "%s", what); }
static void run(St &s, const Cmd &c, int pos) {
  const int e = pos & 1, p = c.k == Cmd::R ? c.a : s.p, n = PN[p], m = PM[p];
  const Ref &r = refv[p][e];
  double x[N], y[M];
  for (int i = 0; i < N; i++) x[i] = PT[e][i];
  auto rc = [&](int q, const char *w) { if (q < 0) fail("rc", "%s returns %d", w, q); };
  auto keep = [&](int k, int dirs) { if (k) { s.k = {{k - 1, dirs, e}}; s.strict = true; } else s.strict = false; };
  mc::transition();
  switch (c.k) {
  case Cmd::R: {
    trace_on(tag, c.b);
    {
      adouble a[N], b[M];
      for (int i = 0; i < n; i++) a[i] <<= x[i];
      prog(p, a, b);
      for (int j = 0; j < m; j++) b[j] >>= y[j];
    }
    trace_off();
    for (int j = 0; j < m; j++) near("recording", y[j], r.y[j]);
    s.p = p; s.e = e; s.k.clear(); s.strict = true;
    keep(c.b, 1);
    break;
  }
  case Cmd::Z: rc(zos_forward(tag, m, n, c.a, x, y), "zos_forward"); for (int j = 0; j < m; j++) near("zos_forward", y[j], r.y[j]); keep(c.a, 1); break;
  case Cmd::F: {
    double X[N], Y[M];
    for (int i = 0; i < n; i++) X[i] = XD[0][0][i];
    rc(fos_forward(tag, m, n, c.a, x, X, y, Y), "fos_forward");
    for (int j = 0; j < m; j++) { near("fos_forward", y[j], r.y[j]); near("fos_forward derivative", Y[j], r.yd[0][j][1]); }
    keep(c.a, 1);
    break;
  }
  case Cmd::H: {
    M2<double> X(n, c.a), Y(m, c.a);
    for (int i = 0; i < n; i++) for (int k = 0; k < c.a; k++) X[i][k] = XD[0][k][i];
    rc(hos_forward(tag, m, n, c.a, c.b, x, X, y, Y), "hos_forward");
    for (int j = 0; j < m; j++) { near("hos_forward", y[j], r.y[j]); for (int k = 0; k < c.a; k++) near("hos_forward coefficient", Y[j][k], r.yd[0][j][k + 1]); }
    keep(c.b, 1);
    break;
  }
  case Cmd::FV: {
    M2<double> X(n, P), Y(m, P);
    for (int i = 0; i < n; i++) for (int l = 0; l < P; l++) X[i][l] = XD[l][0][i];
    rc(fov_forward(tag, m, n, P, x, X, y, Y), "fov_forward");
    for (int j = 0; j < m; j++) { near("fov_forward", y[j], r.y[j]); for (int l = 0; l < P; l++) near("fov_forward derivative", Y[j][l], r.yd[l][j][1]); }
    keep(0, 1);
    break;
  }
  case Cmd::HW: case Cmd::HV: {
    const int dirs = c.k == Cmd::HV ? P : c.a;
    M3<double> X(n, dirs, D), Y(m, dirs, D);
    for (int i = 0; i < n; i++) for (int l = 0; l < dirs; l++) for (int k = 0; k < D; k++) X[i][l][k] = XD[l][k][i];
    if (c.k == Cmd::HV) rc(hov_forward(tag, m, n, D, dirs, x, X, y, Y), "hov_forward");
    else rc(hov_wk_forward(tag, m, n, D, c.b, dirs, x, X, y, Y), "hov_wk_forward");
    for (int j = 0; j < m; j++) { near("hov forward", y[j], r.y[j]); for (int l = 0; l < dirs; l++) for (int k = 0; k < D; k++) near("hov forward coefficient", Y[j][l][k], r.yd[l][j][k + 1]); }
    keep(c.k == Cmd::HV ? 0 : c.b, dirs);
    break;
  }
  case Cmd::J: { // may use a kept forward sweep of its own
    M2<double> Jm(m, n);
    rc(jacobian(tag, m, n, x, Jm), "jacobian");
    for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) near("jacobian", Jm[j][i], r.A[0][j][i][0]);
    s.k.push_back({0, 1, e});
    s.strict = false;
    break;
  }
  case Cmd::V: checkRev(s, c.a); break;
  }
  uint64_t h = uint64_t(s.p * 2 + s.strict);
  for (auto &k : s.k) h = mc::hmix(h, uint64_t((k.deg * 8 + k.dirs) * 2 + k.pt));
  mc::state(mc::hmix(h, pos == 0));
}
static std::string str(const Cmd &c) {
  switch (c.k) {
  case Cmd::R: return mc::fmt("record %s keep%d", PS[c.a], c.b);
  case Cmd::Z: return mc::fmt("zos keep%d", c.a);
  case Cmd::F: return mc::fmt("fos keep%d", c.a);
  case Cmd::H: return mc::fmt("hos d%d keep%d", c.a, c.b);
  case Cmd::FV: return "fov";
  case Cmd::HW: return mc::fmt("hov_wk p%d keep%d", c.a, c.b);
  case Cmd::HV: return "hov";
  case Cmd::J: return "jacobian";
  case Cmd::V: return mc::fmt("%s reverse", RK[c.a].name);
  }
  return "?";
}
static std::vector<Cmd> alpha(bool full) {
  std::vector<Cmd> A;
  for (int p = 0; p < 3; p++) for (int k = 0; k < 2; k++) if (full || p + k == 1 || p + k == 3) A.push_back({Cmd::R, p, k, 0});
  for (int k = 0; k < 2; k++) A.push_back({Cmd::Z, k, 0, 0});
  for (int k = 0; k < 3; k++) if (full || k == 1) A.push_back({Cmd::F, k, 0, 0});
  for (int k = 0; k < 3; k++) if (full || k == 2) A.push_back({Cmd::H, 1, k, 0});
  for (int k = 0; k < 4; k++) if (full || k == 3) A.push_back({Cmd::H, 2, k, 0});
  for (int q = 1; q <= P; q++) for (int k = 0; k < 4; k++) if (full || (q == 2 && k >= 2)) A.push_back({Cmd::HW, q, k, 0});
  if (full) A.push_back({Cmd::FV, 0, 0, 0});
  if (full) A.push_back({Cmd::HV, 0, 0, 0});
  A.push_back({Cmd::J, 0, 0, 0});
  for (int v = 0; v < NREV; v++) if (full || v == 0 || v == 3 || v == 4 || v == 12 || v == 14) A.push_back({Cmd::V, v, 0, 0});
  return A;
}
struct R : mc::Runner {
  void hist(const char *name, bool full, int depth, int tb) {
    auto *A = new std::vector<Cmd>(alpha(full));
    mc::Space s;
    s.name = mc::fmt("%s-T%d", name, tb);
    s.n = mc::ipow(A->size(), unsigned(depth));
    s.chunk = 4000;
    s.rule = mc::fmt("all histories of %d commands out of %zu (re-record 3 programs with/without keep, every forward mode with every keep, jacobian, %d kinds of reverse sweep), each followed by all kinds of reverse sweep twice; Taylor buffer of %d values", depth, A->size(), NREV, tb);
    s.run = [=](uint64_t k) {
      mkRef();
      static int have = -1;
      static short t;
      if (have != tb) { dsl::adolcrc(4096, 4096, 4096, size_t(tb)); t = createNewTape(); have = tb; }
      tag = t;
      St st;
      run(st, {Cmd::R, 0, 0, 0}, 0);
      for (int i = 0; i < depth; i++) { run(st, (*A)[k % A->size()], i + 1); k /= A->size(); }
      for (int i = 0; i < 2; i++) for (int v = 0; v < NREV; v++) checkRev(st, i ? NREV - 1 - v : v);
      mc::trace();
    };
    s.describe = [=](uint64_t k) { std::string q; for (int i = 0; i < depth; i++) { q += (i ? "; " : "") + str((*A)[k % A->size()]); k /= A->size(); } return q; };
    spaces.push_back(s);
  }
  void setup() override {
    hist("histories", true, 2, T_BIG);
    hist("histories", true, mc::thorough ? 3 : 2, 3);
    hist("histories-core", false, 3, 3);
    if (mc::thorough) { hist("histories-long", true, 3, T_BIG); hist("histories-core4", false, 4, 3); }
    else hist("histories-long", true, 3, T_BIG);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
