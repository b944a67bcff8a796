// C03 and C04 (-DREV), second part: degrees above those of the programs, more
// directions, weights, dependents and independents than any program uses.
#include "dsl.h"
#include <adolc/adalloc.h>
#include <adolc/interfaces.h>
using namespace dsl;
using mc::fail;
using mc::fmt;
constexpr int D = 9;
typedef ref::Dual<2> DD;
typedef ref::Tay<DD, D> TT;
static int cKink, cDom;
static const double XP[2][D] = {{0.7, -0.4, 0.3, 0.2, -0.6, 0.25, -0.1, 0.35, 0.15}, {-0.6, 0.5, 0.25, -0.3, 0.1, -0.2, 0.4, 0.05, -0.25}};
static const double SC[9] = {1, -0.5, 0.75, 0.25, -1, 0, 0.5, -0.25, 0.875}; // direction j: the polynomial at SC[j] t
typedef std::vector<double> V;
template <class T> struct M2 {
  std::vector<T> d; std::vector<T *> r;
  M2(int a, int b, T v = T(-77)) : d(size_t(a) * size_t(b), v), r(size_t(a)) { for (int i = 0; i < a; i++) r[size_t(i)] = d.data() + i * b; }
  operator T **() { return r.data(); }
};
struct M3 {
  std::vector<double> d; std::vector<double *> r; std::vector<double **> q;
  M3(int a, int b, int c) : d(size_t(a * b * c), -77), r(size_t(a * b)), q(size_t(a)) {
    for (int i = 0; i < a * b; i++) r[size_t(i)] = d.data() + i * c;
    for (int i = 0; i < a; i++) q[size_t(i)] = r.data() + i * b;
  }
  operator double ***() { return q.data(); }
};
static void rcok(int rc, const char *what) { if (rc < 0) fail("rc", "%s returned %d at the recorded point", what, rc); }

// w.y[j][k]: coefficient k of dependent j; w.A[j][i][k]: of d y_j / d x_i
struct Want { std::vector<V> y; std::vector<std::vector<V>> A; double sc = 1; bool ok = true; };

// the sweeps of degree d in P directions, Q weights, against w
// (neg: what holds in directions that go backwards, if it differs: a kink)
static void sweeps(short tag, int m, int n, int d, int P, int Q, const double *x, const std::function<double(int, int)> &poly, const Want &w, double tol, const Want *neg = nullptr) {
  auto at = [&](int j) -> const Want & { return neg && SC[j % 9] < 0 ? *neg : w; };
  auto coef = [&](int j, int i, int k) { return at(j).y[size_t(i)][size_t(k)] * (k ? std::pow(SC[j % 9], k) : 1.0); };
  V y(size_t(m), -77.0);
#ifndef REV
  {
    M2<double> X(n, d), Y(m, d);
    for (int i = 0; i < n; i++) for (int k = 0; k < d; k++) X.r[size_t(i)][k] = poly(i, k);
    for (int keep : {0, 2, d + 1}) {
      rcok(hos_forward(tag, m, n, d, keep, x, X, y.data(), Y), "hos_forward");
      mc::transition();
      for (int i = 0; i < m; i++) for (int k = 0; k <= d; k++) mc::expectNear("hos_forward", k ? Y.r[size_t(i)][k - 1] : y[size_t(i)], coef(0, i, k), tol, w.sc, "hos_forward: y[%d] coefficient %d of %d, keep %d", i, k, d, keep);
    }
  }
  for (int wk = 0; wk < 3; wk++) {
    M3 X(n, P, d), Y(m, P, d);
    for (int i = 0; i < n; i++) for (int j = 0; j < P; j++) for (int k = 0; k < d; k++) X.q[size_t(i)][j][k] = poly(i, k) * std::pow(SC[j % 9], k + 1);
    std::fill(y.begin(), y.end(), -77.0);
    rcok(wk ? hov_wk_forward(tag, m, n, d, wk == 1 ? 1 : d + 1, P, x, X, y.data(), Y) : hov_forward(tag, m, n, d, P, x, X, y.data(), Y), "hov_forward");
    mc::transition();
    for (int i = 0; i < m; i++) for (int j = 0; j < P; j++) for (int k = 0; k <= d; k++)
      mc::expectNear("hov_forward", k ? Y.q[size_t(i)][j][k - 1] : y[size_t(i)], coef(j, i, k), tol, w.sc, "%s: y[%d] direction %d coefficient %d of %d", wk ? "hov_wk_forward" : "hov_forward", i, j, k, d);
  }
  if (d == 1) {
    M2<double> X(n, P), Y(m, P);
    for (int i = 0; i < n; i++) for (int j = 0; j < P; j++) X.r[size_t(i)][j] = poly(i, 0) * SC[j % 9];
    rcok(fov_forward(tag, m, n, P, x, X, y.data(), Y), "fov_forward");
    for (int i = 0; i < m; i++) for (int j = 0; j < P; j++) mc::expectNear("fov_forward", Y.r[size_t(i)][j], coef(j, i, 1), tol, w.sc, "fov_forward: y[%d] direction %d", i, j);
  }
#else
  auto u = [&](int q, int j) { return (j == q % m ? 1.0 : 0.0) + 0.125 * ((q + 2 * j) % 5) - 0.25; };
  auto z = [&](int q, int dir, int i, int k) { double s = 0; for (int j = 0; j < m; j++) s += u(q, j) * at(dir).A[size_t(j)][size_t(i)][size_t(k)]; return s * (k ? std::pow(SC[dir % 9], k) : 1.0); };
  const double sc = w.sc * m;
  M2<double> U(Q, m), X(n, d ? d : 1), Y(m, d ? d : 1);
  for (int q = 0; q < Q; q++) for (int j = 0; j < m; j++) U.r[size_t(q)][j] = u(q, j);
  for (int i = 0; i < n; i++) for (int k = 0; k < d; k++) X.r[size_t(i)][k] = poly(i, k);
  if (d) rcok(hos_forward(tag, m, n, d, d + 1, x, X, y.data(), Y), "hos_forward"); else rcok(zos_forward(tag, m, n, 1, x, y.data()), "zos_forward");
  {
    M2<double> Z(n, d + 1);
    rcok(hos_reverse(tag, m, n, d, U.r[0], Z), "hos_reverse");
    mc::transition();
    for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++) mc::expectNear("hos_reverse", Z.r[size_t(i)][k], z(0, 0, i, k), tol, sc, "hos_reverse: d/dx%d coefficient %d of %d", i, k, d);
    M3 Zv(Q, n, d + 1);
    M2<short> nz(Q, n, -3);
    rcok(hov_reverse(tag, m, n, d, Q, U, Zv, nz), "hov_reverse");
    mc::transition();
    for (int q = 0; q < Q; q++) for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++) {
      mc::expectNear("hov_reverse", Zv.q[size_t(q)][i][k], z(q, 0, i, k), tol, sc, "hov_reverse: row %d d/dx%d coefficient %d of %d", q, i, k, d);
      if (std::fabs(z(q, 0, i, k)) > 1e-4 * sc && nz.r[size_t(q)][i] < (k ? 2 : 1)) fail("nz", "pattern entry [%d][%d] is %d, but coefficient %d of the adjoint is %g", q, i, nz.r[size_t(q)][i], k, z(q, 0, i, k));
    }
    M3 Ut(Q, m, d + 1);
    for (int q = 0; q < Q; q++) for (int j = 0; j < m; j++) for (int k = 0; k <= d; k++) Ut.q[size_t(q)][j][k] = k == q % (d + 1) ? u(q, j) : 0; // u t^(q mod d+1)
    std::fill(Zv.d.begin(), Zv.d.end(), -77.0);
    rcok(hov_ti_reverse(tag, m, n, d, Q, Ut, Zv, nz), "hov_ti_reverse");
    for (int q = 0; q < Q; q++) for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++) {
      const int sh = q % (d + 1);
      mc::expectNear("hov_ti_reverse", Zv.q[size_t(q)][i][k], k < sh ? 0 : z(q, 0, i, k - sh), tol, sc, "hov_ti_reverse: row %d d/dx%d coefficient %d of %d", q, i, k, d);
    }
  }
  if (d == 0) {
    M2<double> Z(Q, n);
    rcok(fov_reverse(tag, m, n, Q, U, Z), "fov_reverse");
    for (int q = 0; q < Q; q++) for (int i = 0; i < n; i++) mc::expectNear("fov_reverse", Z.r[size_t(q)][i], z(q, 0, i, 0), tol, sc, "fov_reverse: row %d d/dx%d", q, i);
    return;
  }
  M3 XX(n, P, d), YY(m, P, d), ZZ(P, n, d + 1);
  for (int i = 0; i < n; i++) for (int j = 0; j < P; j++) for (int k = 0; k < d; k++) XX.q[size_t(i)][j][k] = poly(i, k) * std::pow(SC[j % 9], k + 1);
  rcok(hov_wk_forward(tag, m, n, d, d + 1, P, x, XX, y.data(), YY), "hov_wk_forward");
  M2<double> Uo(m, d + 1);
  for (int j = 0; j < m; j++) for (int k = 0; k <= d; k++) Uo.r[size_t(j)][k] = k ? 0 : u(1, j);
  rcok(hos_ov_reverse(tag, m, n, d, P, Uo, ZZ), "hos_ov_reverse");
  mc::transition();
  for (int l = 0; l < P; l++) for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++)
    if (!neg || SC[l % 9] != 0) // (standing still on a kink: no derivative)
    mc::expectNear("hos_ov_reverse", ZZ.q[size_t(l)][i][k], z(1, l, i, k), tol, sc, "hos_ov_reverse: direction %d d/dx%d coefficient %d of %d", l, i, k, d);
#endif
}

static void high(const Prog &p, const double *x, int d) {
  double yr[NR], ya[NR];
  if (!runDouble(p, x, yr) || illConditioned(p, x)) { mc::trivial(); mc::count(cDom); return; }
  TT xt[2], yt[NR];
  for (int i = 0; i < 2; i++) { xt[i].c[0].v = x[i]; xt[i].c[0].g[i] = 1; for (int k = 0; k < D; k++) xt[i].c[k + 1] = DD(XP[i][k]); }
  runRef(p, xt, yt);
  Want w;
  w.ok = !ref::flags.fuzzy && !ref::flags.kink;
  for (auto &t : yt) {
    V c;
    std::vector<V> a(2);
    for (int k = 0; k <= d; k++) { c.push_back(t.c[k].v); a[0].push_back(t.c[k].g[0]); a[1].push_back(t.c[k].g[1]); }
    for (double v : c) { w.sc = std::fmax(w.sc, std::fabs(v)); w.ok &= std::fabs(v) < 1e6; }
    for (auto &r : a) for (double v : r) { w.sc = std::fmax(w.sc, std::fabs(v)); w.ok &= std::fabs(v) < 1e6; }
    w.y.push_back(c); w.A.push_back(a);
  }
  if (!w.ok) { mc::trivial(); mc::count(cKink); return; }
  mc::trace();
  record(0, p, x, ya, 0);
  sweeps(0, NR, 2, d, 4 + d, 11 - d, x, [](int i, int k) { return XP[i][k]; }, w, 1e-7);
}

// y_j = sum_i sin(a_i c_ij) a_(i+j) + ..., many of everything
template <class T> void body(int m, int n, const T *a, T *y) {
  for (int j = 0; j < m; j++) {
    T e = T(0.25 * j);
    for (int i = 0; i < n; i++) {
      const int o = (i * 7 + j * 3) % n;
      if ((i + j) % 3 == 0) e = e + sin(a[i] * (1.0 + 0.125 * ((i + j) % 5))) * a[o];
      else if ((i + j) % 3 == 1) e = e + a[i] * (0.5 * ((i + 2 * j) % 4)) - a[o] * a[i] * 0.125;
    }
    y[j] = e;
  }
}
static const int SZ[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70};
static void wide(int m, int n, int d, int P, int Q) {
  const short tag = dsl::freshTape();
  V x(size_t(n), 0.0), y(size_t(m), 0.0), y0(y);
  for (int i = 0; i < n; i++) x[size_t(i)] = 0.3 + 0.05 * (i % 11);
  auto poly = [](int i, int k) { return XP[i & 1][(k + i) % D] * 0.5; };
  Want w;
  w.A.assign(size_t(m), std::vector<V>(size_t(n)));
  typedef ref::Tay<ref::Dual<8>, 3> T3;
  for (int b = 0; b < n; b += 8) {
    std::vector<T3> X(size_t(n), T3{}), Y(size_t(m), T3{});
    for (int i = 0; i < n; i++) { X[size_t(i)].c[0].v = x[size_t(i)]; if (i >= b && i < b + 8) X[size_t(i)].c[0].g[i - b] = 1; for (int k = 0; k < 3; k++) X[size_t(i)].c[k + 1] = ref::Dual<8>(poly(i, k)); }
    body(m, n, X.data(), Y.data());
    for (int j = 0; j < m; j++) {
      V c;
      for (int k = 0; k <= d; k++) { c.push_back(Y[size_t(j)].c[k].v); w.sc = std::fmax(w.sc, std::fabs(c.back())); }
      for (int i = b; i < n && i < b + 8; i++) for (int k = 0; k <= d; k++) { w.A[size_t(j)][size_t(i)].push_back(Y[size_t(j)].c[k].g[i - b]); w.sc = std::fmax(w.sc, std::fabs(Y[size_t(j)].c[k].g[i - b])); }
      if (!b) w.y.push_back(c);
    }
  }
  trace_on(tag);
  {
    std::vector<adouble> a(x.size()), e(y.size());
    for (size_t i = 0; i < x.size(); i++) a[i] <<= x[i];
    body(m, n, a.data(), e.data());
    for (size_t j = 0; j < y.size(); j++) e[j] >>= y0[j];
  }
  trace_off();
  mc::trace();
  mc::state(mc::hmix(uint64_t(m * 128 + n), uint64_t(d)));
  sweeps(tag, m, n, d, P, Q, x.data(), poly, w, 1e-10);
}

// powers x(t)^e where x(t) = x0 + t^lead (...): whole and broken exponents on
// both sides of the degree, and roots of every order of x(t) at x0 = 0
static const double PB[] = {0, 0.7, 1, 2.3, -0.8, -2}, PE[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0.5, 1.5, 2.5, 3.5, 5.5, -0.5, -1, -1.5, -2, -3, -4};
static double lead(int l, int i, int k) { return k + 1 < l ? 0 : XP[i][(k + 1 - l) % D]; }
static V series(double x0, const V &p, double e, int d) { // coefficients 0..d, empty if there are none
  V r(size_t(d) + 1, 0.0), X(1, x0);
  X.insert(X.end(), p.begin(), p.end());
  if (e == 0) { r[0] = 1; return r; }
  if (e > 0 && e == std::floor(e)) {
    r[0] = 1;
    for (int t = 0; t < int(e); t++) for (int k = d; k >= 0; k--) { double s = 0; for (int i = 0; i <= k; i++) s += r[size_t(k - i)] * X[size_t(i)]; r[size_t(k)] = s; }
    return r;
  }
  if (x0 == 0) { if (e > d) return r; return {}; }
  r[0] = std::pow(x0, e);
  for (int k = 1; k <= d; k++) { double s = 0; for (int i = 1; i <= k; i++) s += (e * i - (k - i)) * X[size_t(i)] * r[size_t(k - i)]; r[size_t(k)] = s / (k * x0); }
  return r;
}
static void power(double x0, double e, int l, int d) {
  if ((x0 < 0 && e != std::floor(e)) || (x0 == 0 && e <= 0)) { mc::trivial(); mc::count(cDom); return; }
  V p;
  for (int k = 0; k < d; k++) p.push_back(lead(l, 0, k));
  Want w;
  V y = series(x0, p, e, d), a = e == 0 ? V(size_t(d) + 1, 0.0) : series(x0, p, e - 1, d);
#ifdef REV
  const bool have = !y.empty() && !a.empty();
#else
  const bool have = !y.empty();
#endif
  if (!have) { mc::trivial(); mc::count(cKink); return; }
  for (double &v : a) { v *= e; w.sc = std::fmax(w.sc, std::fabs(v)); }
  for (double v : y) w.sc = std::fmax(w.sc, std::fabs(v));
  w.y = {y, y};
  w.A = {{a}, {a}};
  const short tag = dsl::freshTape();
  trace_on(tag);
  {
    adouble b, f;
    b <<= x0;
    double o;
    f = pow(b, e); f >>= o;
    b = pow(b, e); b >>= o; // in place
  }
  trace_off();
  mc::trace();
  sweeps(tag, 2, 1, d, 9, 2, &x0, [&](int, int k) { return p[size_t(k)]; }, w, 1e-9);
}
#ifndef REV
// kinks met at the point: |x(t)|, max, min of curves that touch to order lead - 1
static void kinks(int l, int sx, int sy, int d) {
  double x[2] = {0, 0};
  std::vector<V> p(2);
  for (int i = 0; i < 2; i++) for (int k = 0; k < d; k++) p[size_t(i)].push_back((i ? sy : sx) * lead(l, i, k));
  if (l > d) { mc::trivial(); mc::count(cKink); return; }
  const size_t q = size_t(l - 1);
  Want w[2];
  for (int s = 0; s < 2; s++) {
    const double o = s && l % 2 ? -1 : 1; // going backwards
    const double fx = o * p[0][q], fy = o * p[1][q], df = fx - fy;
    const double c[6][2] = {{fx > 0 ? 1.0 : -1.0, 0}, {fx > fy ? 1.0 : 0, fx > fy ? 0 : 1.0}, {fx < fy ? 1.0 : 0, fx < fy ? 0 : 1.0}, {df > 0 ? 1.0 : -1.0, df > 0 ? -1.0 : 1.0}, {fx > 0 ? 1.0 : 0, 0}, {0, fy < 0 ? 1.0 : 0}};
    for (auto &r : c) {
      V y(1, 0.0);
      for (int k = 0; k < d; k++) y.push_back(r[0] * p[0][size_t(k)] + r[1] * p[1][size_t(k)]);
      w[s].y.push_back(y);
      std::vector<V> a;
      for (double v : r) { a.push_back(V(size_t(d) + 1, 0.0)); a.back()[0] = v; }
      w[s].A.push_back(a);
    }
  }
  const short tag = dsl::freshTape();
  trace_on(tag);
  {
    adouble a, b, f[6];
    a <<= 0.0; b <<= 0.0;
    f[0] = fabs(a); f[1] = fmax(a, b); f[2] = fmin(a, b); f[3] = fabs(a - b); f[4] = fmax(a, 0.0); f[5] = fmin(0.0, b);
    double o;
    for (auto &v : f) v >>= o;
  }
  trace_off();
  mc::trace();
  sweeps(tag, 6, 2, d, 9, 7, x, [&](int i, int k) { return p[size_t(i)][size_t(k)]; }, w[0], 1e-12, &w[1]);
}
#endif
struct R : mc::Runner {
  std::vector<Op> A;
  void setup() override {
    childInit = [] { freshTape(); };
    cKink = mc::counter("at_kink_or_undefined_derivative");
    cDom = mc::counter("outside_domain");
    A = alphabet(mc::thorough ? cfgFull() : cfgMid());
    std::erase_if(A, [](const Op &o) { return o.k == UN && o.f == CBRT; }); // documented refusal
    static const double P0[][2] = {{0.4, 0.7}, {-0.3, -0.8}, {1.75, -0.6}};
#ifdef REV
    const int d0 = 5, nd = 4;
#else
    const int d0 = 6, nd = 4;
#endif
    mc::Space s;
    s.name = "high"; s.n = A.size() * 3 * uint64_t(nd); s.chunk = 200;
    s.rule = fmt("every operation (%zu) x 3 points x degrees %d..%d, 9..13 directions, 2..6 weights", A.size(), d0, d0 + nd - 1);
    s.run = [=, this](uint64_t k) { mc::Dec d(k); const int dg = d0 + int(d(uint64_t(nd))); const size_t pt = d(3); high({A[d(A.size())]}, P0[pt], dg); };
    s.describe = [=, this](uint64_t k) { mc::Dec d(k); const int dg = d0 + int(d(uint64_t(nd))); const size_t pt = d(3); return str(A[d(A.size())]) + fmt(" degree %d at (%g,%g)", dg, P0[pt][0], P0[pt][1]); };
    spaces.push_back(s);
    mc::Space t;
    const uint64_t NS = 16;
    const int dl = 
#ifdef REV
      0;
#else
      1;
#endif
    t.name = "wide"; t.n = NS * NS * 3; t.chunk = 10;
    t.rule = "1..70 dependents and independents (around powers of two), degrees up to 3, up to 70 directions and weights";
    auto dec = [=](uint64_t k, int *v) { mc::Dec d(k); v[2] = dl + int(d(3)); v[0] = SZ[d(NS)]; v[1] = SZ[d(NS)]; v[3] = v[2] < 2 ? v[1] : 1 + (v[1] % 9); v[4] = v[2] < 2 ? v[0] : 1 + (v[0] % 9); };
    t.run = [=](uint64_t k) { int v[5]; dec(k, v); wide(v[0], v[1], v[2], v[3], v[4]); };
    t.describe = [=](uint64_t k) { int v[5]; dec(k, v); return fmt("%d dependents, %d independents, degree %d, %d directions, %d weights", v[0], v[1], v[2], v[3], v[4]); };
    spaces.push_back(t);
    mc::Space u;
    const uint64_t NB = sizeof PB / sizeof *PB, NE = sizeof PE / sizeof *PE;
    u.name = "powers"; u.n = NB * NE * 4 * 9; u.chunk = 200;
    u.rule = fmt("%d bases x %d exponents x first nonzero coefficient 1..4 x degrees 1..9", int(NB), int(NE));
    u.run = [=](uint64_t k) { mc::Dec d(k); const int dg = 1 + int(d(9)), l = 1 + int(d(4)); const double e = PE[d(NE)]; power(PB[d(NB)], e, l, dg); };
    u.describe = [=](uint64_t k) { mc::Dec d(k); const int dg = 1 + int(d(9)), l = 1 + int(d(4)); const double e = PE[d(NE)]; return fmt("pow(%g + t^%d(...), %g) degree %d", PB[d(NB)], l, e, dg); };
    spaces.push_back(u);
#ifndef REV // (the adjoint of |.| at a kink starts, by convention, at the order that decides)
    mc::Space v;
    v.name = "kinks"; v.n = 5 * 4 * 9; v.chunk = 20;
    v.rule = "|.|, max and min where the curves touch to order 0..4 and part in either direction, degrees 1..9, directions forwards and backwards";
    v.run = [=](uint64_t k) { mc::Dec d(k); const int dg = 1 + int(d(9)), l = 1 + int(d(5)); const int sx = d(2) ? -1 : 1; kinks(l, sx, d(2) ? -1 : 1, dg); };
    v.describe = [=](uint64_t k) { mc::Dec d(k); const int dg = 1 + int(d(9)), l = 1 + int(d(5)); const int sx = d(2) ? -1 : 1; return fmt("first coefficients at t^%d with signs %d %d, degree %d", l, sx, d(2) ? -1 : 1, dg); };
    spaces.push_back(v);
#endif
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
