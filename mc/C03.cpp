// C03: higher-order forward sweeps return the Taylor coefficients.
#include "dsl.h"
#include <adolc/adalloc.h>
#include <adolc/interfaces.h>
using namespace dsl;
using mc::fail;
constexpr int D = 5;
typedef ref::Tay<double, D> TT;
static int cKink, cDom;

// input polynomials: [poly][independent][degree 1..D]
static const double XP[3][2][D] = {{{0.7, -0.4, 0.3, 0.2, -0.6}, {-1.1, 0.5, 0.25, -0.3, 0.1}},
                                   {{0, 0.8, 0, -0.5, 0.3}, {1, 0, 0, 0, 0}},
                                   {{0, 0, 0.6, 0, 0}, {0, -0.9, 0.4, 0, 1}}};

struct Want {
  double y[NR], Y[NR][D];
  bool ok;
  double sc[NR];
};
static Want want(const Prog &p, const double *x, const double X[2][D]) {
  Want w;
  TT xt[2], yt[NR];
  for (int i = 0; i < 2; i++) { xt[i].c[0] = x[i]; for (int k = 0; k < D; k++) xt[i].c[k + 1] = X[i][k]; }
  runRef(p, xt, yt);
  w.ok = !ref::flags.fuzzy && !ref::flags.kink;
  for (int i = 0; i < NR; i++) {
    w.y[i] = yt[i].c[0];
    w.sc[i] = 1;
    for (int k = 0; k < D; k++) {
      w.Y[i][k] = yt[i].c[k + 1];
      if (!std::isfinite(w.Y[i][k]) || std::fabs(w.Y[i][k]) > 1e7) w.ok = false;
      else w.sc[i] = std::fmax(w.sc[i], std::fabs(w.Y[i][k]));
    }
    if (!std::isfinite(w.y[i])) w.ok = false;
  }
  return w;
}

template <class T> struct M2 { // contiguous matrix with row pointers
  std::vector<T> d; std::vector<T *> r;
  M2(int a, int b) : d(a * b, T(-77)), r(a) { for (int i = 0; i < a; i++) r[i] = d.data() + i * b; }
  operator T **() { return r.data(); }
};
struct M3 {
  std::vector<double> d; std::vector<double *> r; std::vector<double **> q;
  M3(int a, int b, int c) : d(a * b * c, -77), r(a * b), q(a) {
    for (int i = 0; i < a * b; i++) r[i] = d.data() + i * c;
    for (int i = 0; i < a; i++) q[i] = r.data() + i * b;
  }
  operator double ***() { return q.data(); }
};

static void checkProgram(const Prog &p, const double *x) {
  const int n = 2, m = NR;
  double yr[NR], ya[NR], y[NR];
  if (!runDouble(p, x, yr) || illConditioned(p, x)) { mc::trivial(); mc::count(cDom); return; }
  Want w[3];
  bool any = false;
  for (int q = 0; q < 3; q++) any |= (w[q] = want(p, x, XP[q])).ok;
  if (!any) { mc::trivial(); mc::count(cKink); return; }
  mc::trace();
  const short tag = 0;
  record(tag, p, x, ya, 0);
  auto cmp = [&](const char *what, int q, int i, int k, double got) { // k: degree 0..D
    double e = k ? w[q].Y[i][k - 1] : w[q].y[i];
    mc::expectNear(what, got, e, 1e-8, w[q].sc[i], "%s: y[%d] coefficient %d (input polynomial %d)", what, i, k, q);
  };
  auto rcok = [&](int rc, const char *what) { if (rc < 0) fail("rc", "%s returned %d at the recorded point", what, rc); };
  for (int q = 0; q < 3; q++) {
    if (!w[q].ok) continue;
    for (int d = 1; d <= D; d++) {
      M2<double> X(n, d), Y(m, d), X1(n, d + 1), Y1(m, d + 1);
      for (int i = 0; i < n; i++) {
        X1.r[i][0] = x[i];
        for (int k = 0; k < d; k++) X.r[i][k] = X1.r[i][k + 1] = XP[q][i][k];
      }
      for (int keep = 0; keep <= d + 1; keep += d + 1) {
        rcok(hos_forward(tag, m, n, d, keep, x, X, y, Y), "hos_forward");
        for (int i = 0; i < m; i++) for (int k = 0; k <= d; k++) cmp(keep ? "hos_forward keep" : "hos_forward", q, i, k, k ? Y.r[i][k - 1] : y[i]);
      }
      if (d == 2 || d == 4) {
        rcok(hos_forward(tag, m, n, d, d, x, X, y, Y), "hos_forward");
        for (int i = 0; i < m; i++) for (int k = 0; k <= d; k++) cmp("hos_forward keep<d+1", q, i, k, k ? Y.r[i][k - 1] : y[i]);
      }
      if (d == 3) {
        rcok(forward(tag, m, n, d, 0, (double **)X1, (double **)Y1), "forward");
        for (int i = 0; i < m; i++) for (int k = 0; k <= d; k++) cmp("forward", q, i, k, Y1.r[i][k]);
        // partitioned argument: both independents in one block
        const double *blk[2] = {X1.r[0], X1.r[1]};
        const double *const *parts[1] = {blk};
        int nd[1] = {2};
        M2<double> Yp(m, d + 1);
        rcok(hos_forward_partx(tag, m, 1, nd, d, parts, Yp), "hos_forward_partx");
        for (int i = 0; i < m; i++) for (int k = 0; k <= d; k++) cmp("hos_forward_partx", q, i, k, Yp.r[i][k]);
        M2<double> Yf(m, 2);
        rcok(fos_forward_partx(tag, m, 1, nd, parts, Yf), "fos_forward_partx");
        for (int i = 0; i < m; i++) for (int k = 0; k <= 1; k++) cmp("fos_forward_partx", q, i, k, Yf.r[i][k]);
      }
    }
  }
  // several directions at once; they may stop at different smoothness, use the good ones
  std::vector<int> g;
  for (int q = 0; q < 3; q++) if (w[q].ok) g.push_back(q);
  const int P = (int)g.size();
  for (int d = 1; d <= (mc::thorough ? D : 4); d++) {
    M3 X(n, P, d), Y(m, P, d);
    for (int i = 0; i < n; i++) for (int j = 0; j < P; j++) for (int k = 0; k < d; k++) X.q[i][j][k] = XP[g[j]][i][k];
    rcok(hov_forward(tag, m, n, d, P, x, X, y, Y), "hov_forward");
    for (int i = 0; i < m; i++) for (int j = 0; j < P; j++) for (int k = 0; k <= d; k++) cmp("hov_forward", g[j], i, k, k ? Y.q[i][j][k - 1] : y[i]);
    if (d != 2 && d != 3) continue;
    M3 Y2(m, P, d);
    for (int keep : {0, 1, d + 1}) {
      std::fill(Y2.d.begin(), Y2.d.end(), -77.0);
      rcok(hov_wk_forward(tag, m, n, d, keep, P, x, X, y, Y2), "hov_wk_forward");
      for (int i = 0; i < m; i++) for (int j = 0; j < P; j++) for (int k = 0; k <= d; k++) cmp("hov_wk_forward", g[j], i, k, k ? Y2.q[i][j][k - 1] : y[i]);
    }
    M3 Y4(m, P, d);
    rcok(forward(tag, m, n, d, P, x, (double ***)X, y, (double ***)Y4), "forward vector");
    for (int i = 0; i < m; i++) for (int j = 0; j < P; j++) for (int k = 0; k <= d; k++) cmp("forward vector", g[j], i, k, k ? Y4.q[i][j][k - 1] : y[i]);
    const double *xb[2] = {x, x + 1};
    const double *const *b0[1] = {X.q[0]}, *const *b1[1] = {X.q[1]};
    const double *const *const *parts[2] = {b0, b1};
    int nd[2] = {1, 1};
    M3 Y3(m, P, d);
    rcok(hov_forward_partx(tag, m, 2, nd, d, P, xb, parts, y, Y3), "hov_forward_partx");
    for (int i = 0; i < m; i++) for (int j = 0; j < P; j++) for (int k = 0; k <= d; k++) cmp("hov_forward_partx", g[j], i, k, k ? Y3.q[i][j][k - 1] : y[i]);
  }
}

static const double P0[][2] = {{0.4, 0.7}, {1.75, -0.6}, {-1.3, 2.2}, {-0.3, -0.8}, {2.5, 0.25}, {0.0, 1.0}};
static const double GV[] = {-2, -1, -0.5, -0.0, 0.0, 1, 2};
static double PG[49][2];

// arguments partitioned into blocks: every composition of the number of
// independents; all partitioned drivers give the results of the plain ones
// (which len1..len3 compare with the reference)
static void partitioned(int n, int mask, int m, int d, int P) {
  const short tag = dsl::freshTape();
  std::vector<double> x(static_cast<size_t>(n)), y(static_cast<size_t>(m)), y2(y);
  for (int i = 0; i < n; i++) x[size_t(i)] = 0.3 + 0.17 * i;
  trace_on(tag);
  {
    std::vector<adouble> a(x.size());
    for (size_t i = 0; i < x.size(); i++) a[i] <<= x[i];
    for (int j = 0; j < m; j++) {
      adouble e = 0.5 * (j + 1);
      for (int i = 0; i < n; i++) e += sin(a[size_t(i)] * double(i + j + 1)) * a[size_t((i + j) % n)] + exp(a[size_t(i)]) * (i - j);
      e >>= y[size_t(j)];
    }
  }
  trace_off();
  std::vector<int> nd;
  for (int i = 0, l = 1; i < n; i++, l++) if (i == n - 1 || (mask >> i & 1)) { nd.push_back(l); l = 0; }
  const int nb = int(nd.size());
  mc::trace();
  mc::state(mc::hmix(uint64_t(n * 64 + mask), uint64_t(m * 100 + d * 10 + P)));
  std::vector<double> xv(x);
  for (auto &v : xv) v += 0.05;
  auto eq = [&](const char *w, double a, double b, int i, int j, int k) { mc::checked(); if (memcmp(&a, &b, sizeof a)) fail("partitioned", "%s: entry [%d][%d][%d] is %.17g, without blocks it is %.17g", w, i, j, k, b, a); };
  auto rcs = [&](const char *w, int a, int b) { mc::checked(); if (a != b) fail("partitioned-rc", "%s returned %d, without blocks %d", w, b, a); };
  std::vector<const double *> xb; // x[block][i]
  for (int b = 0, o = 0; b < nb; o += nd[size_t(b++)]) xb.push_back(xv.data() + o);
  rcs("zos_forward_partx", zos_forward(tag, m, n, 0, xv.data(), y.data()), zos_forward_partx(tag, m, nb, nd.data(), xb.data(), y2.data()));
  for (int i = 0; i < m; i++) eq("zos_forward_partx", y[size_t(i)], y2[size_t(i)], i, 0, 0);
  { // first order: rows (value, tangent)
    M2<double> X(n, 2), Y(m, 2), Z(m, 2);
    for (int i = 0; i < n; i++) { X.r[i][0] = xv[size_t(i)]; X.r[i][1] = 0.5 - 0.3 * i; }
    std::vector<const double *const *> B;
    for (int b = 0, o = 0; b < nb; o += nd[size_t(b++)]) B.push_back(X.r.data() + o);
    std::vector<double> t(x), yt(y);
    for (int i = 0; i < n; i++) t[size_t(i)] = X.r[i][1];
    const int rc = fos_forward(tag, m, n, 0, xv.data(), t.data(), y.data(), yt.data());
    rcs("fos_forward_partx", rc, fos_forward_partx(tag, m, nb, nd.data(), B.data(), Y));
    for (int i = 0; i < m; i++) { eq("fos_forward_partx", y[size_t(i)], Y.r[i][0], i, 0, 0); eq("fos_forward_partx", yt[size_t(i)], Y.r[i][1], i, 1, 0); }
  }
  { // higher order: rows of d + 1 coefficients
    M2<double> X(n, d + 1), Y(m, d + 1), C(n, d), E(m, d);
    for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++) { X.r[i][k] = k ? 0.25 * k - 0.1 * i : xv[size_t(i)]; if (k) C.r[i][k - 1] = X.r[i][k]; }
    std::vector<const double *const *> B;
    for (int b = 0, o = 0; b < nb; o += nd[size_t(b++)]) B.push_back(X.r.data() + o);
    const int rc = hos_forward(tag, m, n, d, 0, xv.data(), C, y.data(), E);
    rcs("hos_forward_partx", rc, hos_forward_partx(tag, m, nb, nd.data(), d, B.data(), Y));
    for (int i = 0; i < m; i++) for (int k = 0; k <= d; k++) eq("hos_forward_partx", k ? E.r[i][k - 1] : y[size_t(i)], Y.r[i][k], i, k, 0);
  }
  { // several directions
    M2<double> X(n, P), Y(m, P), Z(m, P);
    for (int i = 0; i < n; i++) for (int k = 0; k < P; k++) X.r[i][k] = 0.25 * k - 0.1 * i + 0.5;
    std::vector<const double *const *> B;
    for (int b = 0, o = 0; b < nb; o += nd[size_t(b++)]) B.push_back(X.r.data() + o);
    const int rc = fov_forward(tag, m, n, P, xv.data(), X, y.data(), Y);
    std::fill(y2.begin(), y2.end(), -77.0);
    rcs("fov_forward_partx", rc, fov_forward_partx(tag, m, nb, nd.data(), P, xb.data(), B.data(), y2.data(), Z));
    for (int i = 0; i < m; i++) { eq("fov_forward_partx", y[size_t(i)], y2[size_t(i)], i, 0, 0); for (int k = 0; k < P; k++) eq("fov_forward_partx", Y.r[i][k], Z.r[i][k], i, k, 0); }
  }
  { // several directions of several coefficients
    M3 X(n, P, d), Y(m, P, d), Z(m, P, d);
    for (int i = 0; i < n; i++) for (int k = 0; k < P; k++) for (int l = 0; l < d; l++) X.q[i][k][l] = 0.25 * k - 0.1 * i + 0.5 / (l + 1);
    std::vector<const double *const *const *> B;
    for (int b = 0, o = 0; b < nb; o += nd[size_t(b++)]) B.push_back(X.q.data() + o);
    const int rc = hov_forward(tag, m, n, d, P, xv.data(), X, y.data(), Y);
    std::fill(y2.begin(), y2.end(), -77.0);
    rcs("hov_forward_partx", rc, hov_forward_partx(tag, m, nb, nd.data(), d, P, xb.data(), B.data(), y2.data(), Z));
    for (int i = 0; i < m; i++) { eq("hov_forward_partx", y[size_t(i)], y2[size_t(i)], i, 0, 0); for (int k = 0; k < P; k++) for (int l = 0; l < d; l++) eq("hov_forward_partx", Y.q[i][k][l], Z.q[i][k][l], i, k, l); }
  }
}
struct R : mc::Runner {
  std::vector<Op> Af, Am, As, At;
  void add(const char *name, const std::vector<Op> *A, int L, int np, const char *rule, uint64_t chunk, const double (*P)[2] = P0) {
    mc::Space s;
    s.name = name;
    s.n = mc::ipow(A->size(), L) * np;
    s.chunk = chunk;
    s.rule = mc::fmt("%s (%zu operations, length %d, %d points), 3 input polynomials, degrees 1..%d", rule, A->size(), L, np, D);
    s.run = [=](uint64_t k) { checkProgram(prog(*A, L, k / np), P[k % np]); };
    s.describe = [=](uint64_t k) { return str(prog(*A, L, k / np)) + mc::fmt(" @(%g,%g)", P[k % np][0], P[k % np][1]); };
    spaces.push_back(s);
  }
  void setup() override {
    childInit = [] { freshTape(); };
    cKink = mc::counter("at_kink_or_undefined_derivative");
    cDom = mc::counter("outside_domain");
    auto alphabet = [](const AlphaCfg &c) { // cbrt: documented refusal of the higher-order drivers
      auto A = dsl::alphabet(c);
      std::erase_if(A, [](const Op &o) { return o.k == UN && o.f == CBRT; });
      return A;
    };
    Af = alphabet(cfgFull());
    Am = alphabet(cfgMid());
    As = alphabet(cfgSmall());
    At = alphabet(cfgTiny());
    if (!mc::thorough) std::erase_if(At, [](const Op &o) { return (o.k == UN && o.f != EXP && o.f != SIN && o.f != SQRT && o.f != ATAN && o.f != NEG && o.f != FABS) || o.k == CPC || (o.k == INC && o.f != 2) || (o.k == CND && o.f != 0 && o.f != 3) || (o.k == ASG && o.f > 0 && o.f < 3) || (o.k == CPR && o.f > 1) || (o.k == CB && o.f != CSUB && o.f != CDIV && o.f != CMUL && o.f != POWH && o.f != MINC); });
    add("len1", &Af, 1, 6, "every operation, operand form and aliasing pattern", 300);
    for (int i = 0; i < 49; i++) { PG[i][0] = GV[i / 7]; PG[i][1] = GV[i % 7]; }
    add("grid", &Af, 1, 49, "every operation, operand form and aliasing pattern on a grid of points with both zeros and borders of domains", 300, PG);
    if (mc::thorough) add("len2", &Am, 2, 2, "all pairs of operations", 1000);
    else add("len2", &As, 2, 3, "all pairs of representative operations", 500);
    if (mc::thorough) add("len3", &As, 3, 1, "all triples of representative operations", 1000);
    else add("len3", &At, 3, 1, "all triples of few operations", 1000);
    {
      mc::Space s;
      s.name = "partitions";
      const int N = mc::thorough ? 8 : 6;
      s.n = uint64_t((1 << N) - 1) * 3 * 4 * 3;
      s.chunk = 60;
      s.rule = mc::fmt("all partitions of 1..%d independents into blocks x 1..3 dependents x degrees 1..4 x 1..3 directions: the five partitioned drivers against the plain ones", N);
      auto dec = [](uint64_t k, int *v) { mc::Dec d(k); v[2] = 1 + int(d(3)); v[3] = 1 + int(d(4)); v[4] = 1 + int(d(3)); uint64_t r = k / 36 + 1; int n = 0; while (r >> (n + 1)) n++; v[0] = n + 1; v[1] = int(r - (1ull << n)); };
      s.run = [=](uint64_t k) { int v[5]; dec(k, v); partitioned(v[0], v[1], v[2], v[3], v[4]); };
      s.describe = [=](uint64_t k) { int v[5]; dec(k, v); return mc::fmt("%d independents, cuts %#x, %d dependents, degree %d, %d directions", v[0], v[1], v[2], v[3], v[4]); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
