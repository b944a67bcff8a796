// C01: first-order forward/reverse exactness over all small programs.
#include "dsl.h"
using namespace dsl;
using mc::fail;

static int cKink, cDom;
typedef ref::Dual<2> D2;

static void near(const char *tag, double got, double want, double sc, const char *what, int i, int j) {
  mc::expectNear(tag, got, want, 1e-9, sc, "%s[%d][%d]", what, i, j);
}

static void checkProgram(const Prog &p, const double *x) {
  const int n = 2, m = NR;
  double yr[NR];
  if (!runDouble(p, x, yr)) { mc::trivial(); mc::count(cDom); return; }
  D2 xd[2] = {x[0], x[1]}, yd[NR];
  xd[0].g[0] = xd[1].g[1] = 1;
  runRef(p, xd, yd);
  if (ref::flags.fuzzy) { mc::trivial(); mc::count(cKink); return; }
  bool deriv = !ref::flags.kink;
  double J[NR][2];
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    J[i][j] = yd[i].g[j];
    if (!std::isfinite(J[i][j]) || std::fabs(J[i][j]) > 1e7) deriv = false;
  }
  if (!deriv) mc::count(cKink);
  mc::trace();
  short tag = 0;
  double ya[NR], y[NR];
  auto vals = [&](const char *what, const double *v) { for (int i = 0; i < m; i++) near("value", v[i], yr[i], 1, what, i, 0); };
  record(tag, p, x, ya, 1);
  vals("value shown while recording", ya);
  double u[NR] = {1.0, -0.5, 2.0}, z[2], zr[2];
  for (int j = 0; j < n; j++) zr[j] = u[0] * J[0][j] + u[1] * J[1][j] + u[2] * J[2][j];
  double sc = 1;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sc = std::fmax(sc, std::fabs(J[i][j]));
  int rc = fos_reverse(tag, m, n, u, z);
  if (deriv) for (int j = 0; j < n; j++) near("reverse-after-recording", z[j], zr[j], sc, "fos_reverse after recording", j, 0);
  auto rcok = [&](int rc, const char *w) { if (rc < 0) fail("rc", "%s returned %d at the recorded point", w, rc); };
  rcok(rc, "fos_reverse");
  rc = zos_forward(tag, m, n, 1, x, y); rcok(rc, "zos_forward"); vals("zos_forward", y);
  if (deriv) {
    z[0] = z[1] = 7;
    fos_reverse(tag, m, n, u, z);
    for (int j = 0; j < n; j++) near("fos_reverse", z[j], zr[j], sc, "fos_reverse", j, 0);
    double U[3][NR] = {{1, 0, 0}, {0, 1, 0}, {0.25, -1, 1}}, Z[3][2] = {{7, 7}, {7, 7}, {7, 7}};
    double *Up[3] = {U[0], U[1], U[2]}, *Zp[3] = {Z[0], Z[1], Z[2]};
    fov_reverse(tag, m, n, 3, Up, Zp);
    for (int q = 0; q < 3; q++) for (int j = 0; j < n; j++) {
      double w = U[q][0] * J[0][j] + U[q][1] * J[1][j] + U[q][2] * J[2][j];
      near("fov_reverse", Z[q][j], w, sc, "fov_reverse", q, j);
    }
  }
  rc = zos_forward(tag, m, n, 0, x, y); rcok(rc, "zos_forward keep 0"); vals("zos_forward keep 0", y);
  double xx[2] = {0.7, -1.3}, Y1[NR];
  for (int keep = 0; keep <= 2; keep++) {
    rc = fos_forward(tag, m, n, keep, x, xx, y, Y1); rcok(rc, "fos_forward"); vals("fos_forward", y);
    if (deriv) {
      for (int i = 0; i < m; i++) near("fos_forward", Y1[i], J[i][0] * xx[0] + J[i][1] * xx[1], sc, "fos_forward", i, keep);
      if (keep == 1) {
        fos_reverse(tag, m, n, u, z);
        for (int j = 0; j < n; j++) near("fos_reverse", z[j], zr[j], sc, "fos_reverse after fos_forward", j, 0);
      }
    }
  }
  double X[2][2] = {{1, 0}, {0, 1}}, Y[NR][2];
  double *Xp[2] = {X[0], X[1]}, *Yp[NR] = {Y[0], Y[1], Y[2]};
  rc = fov_forward(tag, m, n, 2, x, Xp, y, Yp); rcok(rc, "fov_forward"); vals("fov_forward", y);
  if (deriv) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) near("fov_forward", Y[i][j], J[i][j], sc, "fov_forward", i, j);
  double X3[2][3] = {{1, 0.5, -2}, {3, -0.25, 1}}, Y3[NR][3];
  double *X3p[2] = {X3[0], X3[1]}, *Y3p[NR] = {Y3[0], Y3[1], Y3[2]};
  rc = fov_forward(tag, m, n, 3, x, X3p, y, Y3p); rcok(rc, "fov_forward"); vals("fov_forward 3", y);
  if (deriv) for (int i = 0; i < m; i++) for (int j = 0; j < 3; j++)
    near("fov_forward", Y3[i][j], J[i][0] * X3[0][j] + J[i][1] * X3[1][j], sc, "fov_forward p=3", i, j);
  // directions off..off+p-1 of a wider seed matrix
  for (int off = 0; off < 3; off++) {
    double Yo[NR][3] = {};
    double *Yop[NR] = {Yo[0], Yo[1], Yo[2]};
    int q = 3 - off;
    rc = fov_offset_forward(tag, m, n, q, off, x, X3p, y, Yop); rcok(rc, "fov_offset_forward"); vals("fov_offset_forward", y);
    if (deriv) for (int i = 0; i < m; i++) for (int j = off; j < 3; j++)
      near("fov_offset_forward", Yo[i][j], J[i][0] * X3[0][j] + J[i][1] * X3[1][j], sc, "fov_offset_forward", i, j);
  }
}

static const double P0[][2] = {{0.4, 0.7}, {1.75, -0.6}, {-1.3, 2.2}, {-0.3, -0.8}, {2.5, 0.25}, {0.0, 1.0}};
static const double P1[][2] = {{1, -1}, {-1, 0}, {0, 1}};
static const double GV[] = {-1e6, -2, -1, -0.5, -1e-7, -0.0, 0.0, 1e-7, 0.5, 1, 2, 1e6};
static double P2[144][2];
static int nP2 = 0;

struct R : mc::Runner {
  std::vector<Op> Af, Am, As, At, Au;
  void add(const char *name, const std::vector<Op> *A, int L, int np, const char *rule, uint64_t chunk, const double (*P)[2] = P0) {
    mc::Space s;
    s.name = name;
    uint64_t N = mc::ipow(A->size(), L);
    s.n = N * np;
    s.chunk = chunk;
    s.rule = mc::fmt("%s (%zu operations, length %d, %d points)", rule, A->size(), L, np);
    s.run = [=](uint64_t k) { checkProgram(prog(*A, L, k / np), P[k % np]); };
    s.describe = [=](uint64_t k) { return str(prog(*A, L, k / np)) + mc::fmt(" @(%g,%g)", P[k % np][0], P[k % np][1]); };
    spaces.push_back(s);
  }
  void setup() override {
    childInit = [] { freshTape(); };
    cKink = mc::counter("at_kink_or_undefined_derivative");
    cDom = mc::counter("outside_domain");
    Af = alphabet(cfgFull());
    Am = alphabet(cfgMid());
    As = alphabet(cfgSmall());
    At = alphabet(cfgTiny());
    add("len1", &Af, 1, 6, "every operation, operand form and aliasing pattern", 400);
    add("len2", &Am, 2, mc::thorough ? 3 : 1, "all pairs of operations", 1000);
    for (auto &o : Am) if (o.k == UN) Au.push_back(o);
    add("len2u", &Au, 2, 3, "all pairs of functions of one argument at points where their values are special", 1000, P1);
    add("len3", mc::thorough ? &As : &At, 3, 1, "all triples of representative operations", 1000);
    // every sign, zero, the borders of the domains and extreme magnitudes
    for (double a : GV) for (double b : GV) { P2[nP2][0] = a; P2[nP2++][1] = b; }
    add("grid", &Af, 1, nP2, "every operation, operand form and aliasing pattern on a grid of points with both zeros, borders of domains, tiny and huge coordinates", 2000, P2);
    if (mc::thorough) add("len4", &At, 4, 1, "all quadruples of representative operations", 2000);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
