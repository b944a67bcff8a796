// C17: the traceless type with several directions and several Taylor coefficients,
// and the traceless index-domain type.
#include "ref.h"
#include "mc.h"
#include <adolc/adolc.h>
#include <adolc/adtl.h>
#include <adolc/adtl_hov.h>
#include <adolc/adtl_indo.h>
typedef adtl_hov::adouble H;
typedef ADOLC::Sparse::adtl_indo::adouble I;
namespace ref {
inline double val(const H &x) { return x.getValue(); }
inline double val(const I &x) { return x.getValue(); }
// the leading coefficient decides at zero
template <int N> Tay<double, N> fabs(const Tay<double, N> &a) {
  if (a.c[0] != 0 && std::fabs(a.c[0]) < 1e-9) flags.fuzzy = true;
  for (int k = 0; k <= N; k++) if (a.c[k] != 0) return a.c[k] < 0 ? -a : a;
  return a;
}
template <int N> Tay<double, N> abs(const Tay<double, N> &a) { return fabs(a); }
template <int N> Tay<double, N> max(const Tay<double, N> &a, const Tay<double, N> &b) { swc(a.c[0] - b.c[0]); return a.c[0] < b.c[0] ? b : a; }
template <int N> Tay<double, N> min(const Tay<double, N> &a, const Tay<double, N> &b) { swc(a.c[0] - b.c[0]); return b.c[0] < a.c[0] ? b : a; }
// natural powers are defined everywhere
template <int N> Tay<double, N> pow(const Tay<double, N> &a, double r) {
  if (r == std::floor(r) && r >= 0) { Tay<double, N> q(1.0); for (double k = 0; k < r; k++) q = q * a; return q; }
  if (r == std::floor(r)) return 1.0 / pow(a, -r);
  return exp(log(a) * r);
}
} // namespace ref
#include "onesided.h"
#include "dep.h"
#include "dsl.h"
#include <adolc/sparse/sparsedrivers.h>
#include <iostream>
#include <bitset>
#include <set>
using namespace dsl;
using mc::fail;
using mc::expectNear;
using mc::fmt;
static const double PTS[][2] = {{0.5, 0.5}, {0, 0}, {1.625, -0.75}, {0.25, 0.5625}, {-1, 0}, {0.7, 1.3}};
static const double GV[] = {-2, -1, -0.5, -0.0, 0.0, 1, 2};
static double PG[49][2];
constexpr int NP = 6;
static int cSkip, cKink;

// ------------------------------------------------- several directions and degrees
constexpr int DEG = 6, ND = 3;
typedef ref::Tay<double, DEG> T;
typedef ref::Dual<ND> D;
static const double SEED[2][ND] = {{1, 0, -1}, {0.5, 1, 2}};            // directional seeds
static double tseed(int i, int k, int l) { return ((i * 5 + k * 3 + l * 7) % 11 - 4) * 0.25 / (1 + k); } // Taylor coefficient k+1 of x_i in direction l
struct HRef { bool ok, smooth, dsmooth; double v[NR], scale; T y[ND][NR]; D d[NR]; };
static HRef href(const Prog &p, const double *x, bool highOrder) {
  HRef r;
  r.ok = runDouble(p, x, r.v);
  r.scale = 1;
  r.smooth = r.dsmooth = true;
  if (!r.ok) return r;
  D g[NR];
  ref::flags.clear();
  for (int i = 0; i < 2; i++) { g[i].v = x[i]; for (int l = 0; l < ND; l++) g[i].g[l] = SEED[i][l]; }
  g[2] = D(R2);
  for (auto &o : p) {
    exec<D>(o, g);
    for (auto &q : g) for (double e : q.g) { if (!std::isfinite(e) || std::fabs(e) > 1e9) r.dsmooth = false; r.scale = std::fmax(r.scale, std::fabs(e)); }
  }
  std::copy(g, g + NR, r.d);
  if (ref::flags.kink) r.dsmooth = false;
  if (ref::flags.fuzzy) r.ok = false;
  ref::flags.clear();
  if (highOrder)
    for (int l = 0; l < ND; l++) {
      T t[NR];
      for (int i = 0; i < 2; i++) { t[i].c[0] = x[i]; for (int k = 0; k < DEG; k++) t[i].c[k + 1] = tseed(i, k, l); }
      t[2] = T(R2);
      for (auto &o : p) {
        exec<T>(o, t);
        for (auto &q : t) for (double e : q.c) { if (!std::isfinite(e) || std::fabs(e) > 1e9) r.smooth = false; r.scale = std::fmax(r.scale, std::fabs(e)); }
      }
      std::copy(t, t + NR, r.y[l]);
    }
  if (ref::flags.kink || illConditioned(p, x)) r.smooth = false;
  if (ref::flags.fuzzy) r.ok = false;
  return r;
}
static void checkHov(const Prog &p, const double *x) {
  HRef r = href(p, x, true);
  if (!r.ok) { mc::count(cSkip); mc::trivial(); return; }
  if (!r.smooth) mc::count(cKink);
  static const int CFG[][2] = {{1, 1}, {2, 3}, {4, 2}, {DEG, 1}, {1, 65}, {3, 17}}; // beyond ND the directions repeat
  double seed[2][70];
  for (int i = 0; i < 2; i++) for (int l = 0; l < 70; l++) seed[i][l] = SEED[i][l % ND];
  for (auto &c : CFG) {
    const int deg = c[0], nd = c[1];
    if (nd > ND && p.size() > 1 && !mc::thorough) continue;
    adtl_hov::setNumDir(size_t(nd));
    adtl_hov::setDegree(size_t(deg));
    H y[NR];
    y[0] = x[0]; y[1] = x[1]; y[2] = R2;
    double row[70];
    for (int i = 0; i < 2; i++) {
      if (i) y[i].setADValue(seed[i]); else for (int l = 0; l < nd; l++) y[i].setADValue(unsigned(l), seed[i][l]);
      for (int k = 0; k < deg; k++) { for (int l = 0; l < nd; l++) row[l] = tseed(i, k, l % ND); y[i].setOneADValue(k, row); }
    }
    for (int l = 0; l < nd; l++) row[l] = 1e30; // the caller's array may be used for something else
    for (auto &o : p) exec<H>(o, y);
    mc::transition();
    for (int i = 0; i < NR; i++) {
      expectNear("hov-value", y[i].getValue(), r.v[i], 1e-12, 1, "r%d, degree %d, %d directions", i, deg, nd);
      if (r.dsmooth) for (int l = 0; l < nd; l++) expectNear("hov-derivative", y[i].getADValue(unsigned(l)), r.d[i].g[l % ND], 1e-10, r.scale, "r%d, direction %d of %d, degree %d", i, l, nd, deg);
      if (r.smooth)
        for (int k = 0; k < deg; k++) {
          const double *q = y[i].getOneADValue(k);
          for (int l = 0; l < nd; l++) expectNear("hov-coefficient", q[l], r.y[l % ND][i].c[k + 1], 1e-8, r.scale, "r%d, coefficient %d of %d, direction %d of %d at (%g,%g)", i, k + 1, deg, l, nd, x[0], x[1]);
        }
    }
  }
}
static bool hovHas(const Op &o) { // the others end the process with "not implemented"
  switch (o.k) {
  case UN: switch (o.f) { case NEG: case POS: case EXP: case LOG: case SQRT: case SIN: case COS: case SINH: case COSH: case ERF: case ERFC: case FABS: return true; default: return false; }
  case BIN: return o.f <= DIV;
  case CB: return !(o.f >= MINC && o.f <= CMAX);
  case VEC: return o.f <= VAXPY || o.f == VAXPYALIAS;
  default: return true;
  }
}
// ------------------------------------------------- index domains
static std::set<unsigned> pattern(const I &x, const char *w) {
  std::vector<uint *> pat;
  ADOLC::Sparse::adtl_indo::ADOLC_get_sparse_pattern(&x, 1, pat);
  if (pat.size() != 1 || !pat[0]) fail("indo-format", "%s: no row", w);
  std::set<unsigned> s;
  for (unsigned k = 1; k <= pat[0][0]; k++) {
    if (k > 1 && pat[0][k] <= pat[0][k - 1]) { delete[] pat[0]; fail("indo-format", "%s: indices not strictly increasing", w); }
    s.insert(pat[0][k]);
  }
  delete[] pat[0];
  return s;
}
static void checkIndo(const Prog &p, const double *x) {
  HRef r = href(p, x, false);
  if (!r.ok) { mc::count(cSkip); mc::trivial(); return; }
  ref::Str xs[2], ys[NR];
  for (int i = 0; i < 2; i++) { xs[i].v = x[i]; xs[i].d = 1u << i; }
  ref::depSafe = false;
  runRef(p, xs, ys);
  for (unsigned start : {0u, 5u}) {
    I y[NR];
    y[0] = x[0]; y[1] = x[1]; y[2] = R2;
    ADOLC::Sparse::adtl_indo::ADOLC_Init_sparse_pattern(y, 2, start);
    for (auto &o : p) exec<I>(o, y);
    mc::transition();
    for (int i = 0; i < NR; i++) {
      expectNear("indo-value", y[i].getValue(), r.v[i], 1e-12, 1, "r%d", i);
      std::set<unsigned> s = pattern(y[i], fmt("r%d", i).c_str());
      mc::checked();
      for (unsigned j = 0; j < 2; j++) {
        // truth: derivatives of the two unit directions
        const bool has = s.count(j + start);
        double dj = 0;
        // seeds (1,0.5),(0,1),(-1,2): direction 1 is d/dx1; d/dx0 = direction 0 - 0.5 direction 1
        dj = j == 1 ? r.d[i].g[1] : r.d[i].g[0] - 0.5 * r.d[i].g[1];
        if (r.dsmooth && std::isfinite(dj) && std::fabs(dj) > 1e-9 * r.scale && !has) fail("indo-missing", "r%d depends on x%u (derivative %g) at (%g,%g), pattern does not list it", i, j, dj, x[0], x[1]);
        if (has && !(ys[i].d >> j & 1)) fail("indo-extra", "r%d lists x%u, which it is not computed from", i, j);
      }
      for (unsigned q : s) if (q < start || q >= start + 2) fail("indo-range", "r%d lists index %u", i, q);
    }
  }
}
// ------------------------------------------------- traceless sparse Jacobians
typedef std::vector<std::bitset<160>> Rows; // bit j of row i: entry (i,j)
static double coef(int i, int j) { return 1.0 + 0.37 * i - 0.21 * j + 0.05 * i * j; }
template <class X> static X entry(int i, int j, const X &x) {
  switch ((i + j) % 3) { case 0: return x * coef(i, j); case 1: return sin(x) * coef(i, j); default: return x * x * coef(i, j); }
}
static double dentry(int i, int j, double x) { switch ((i + j) % 3) { case 0: return coef(i, j); case 1: return std::cos(x) * coef(i, j); default: return 2 * x * coef(i, j); } }
template <class X> struct Fun : func_ad<X> {
  Rows rows;
  int operator()(int n, X *x, int m, X *y) override {
    for (int i = 0; i < m; i++) { X s = 0.25 * i; for (int j = 0; j < n; j++) if (rows[size_t(i)][size_t(j)]) s += entry(i, j, x[j]); y[i] = s; }
    return 1;
  }
};
static void checkSparse(int m, int n, const Rows &rows) {
  Fun<adtl::adouble> f;
  Fun<I> g;
  f.rows = rows;
  g.rows = f.rows;
  for (int rep = 0; rep < 3; rep++) {
    double x[160];
    for (int j = 0; j < n; j++) x[j] = 0.3 + 0.4 * (j % 9) - 0.7 * rep;
    ADOLC::Sparse::SparseMatrix A;
    int rc = ADOLC::Sparse::adtl_indo::ADOLC_get_sparse_jacobian(&f, &g, n, m, rep > 0, x, A);
    if (rc < 0) fail("sparse-rc", "returned %d", rc);
    mc::transition();
    size_t nnz = 0;
    for (auto r : f.rows) nnz += r.count();
    if (A.size() != nnz) fail("sparse-count", "%zu entries, expected %zu (call %d)", A.size(), nnz, rep);
    Rows seen(f.rows.size());
    for (size_t q = 0; q < A.size(); q++) {
      const int i = int(A.rowIndex(q)), j = int(A.colIndex(q));
      if (i < 0 || i >= m || j < 0 || j >= n || !f.rows[size_t(i)][size_t(j)] || seen[size_t(i)][size_t(j)]) fail("sparse-index", "entry %zu at (%d,%d) (call %d)", q, i, j, rep);
      seen[size_t(i)][size_t(j)] = true;
      expectNear("sparse-value", A.value(q), dentry(i, j, x[j]), 1e-12, 1, "(%d,%d) call %d", i, j, rep);
    }
  }
}
struct R : mc::Runner {
  std::vector<Op> Hf, Hm, Ht, If, Im, It;
  void add(const char *name, bool hov, const std::vector<Op> *al, int L, int np, const char *rule, uint64_t chunk, const double (*P)[2] = PTS) {
    mc::Space s;
    s.name = name;
    s.n = mc::ipow(al->size(), unsigned(L)) * uint64_t(np);
    s.chunk = chunk;
    s.rule = fmt("%s (%zu operations, length %d) x %d points", rule, al->size(), L, np);
    s.run = [=](uint64_t k) { Prog p = prog(*al, L, k / uint64_t(np)); const double *x = P[k % uint64_t(np)]; hov ? checkHov(p, x) : checkIndo(p, x); };
    s.describe = [=](uint64_t k) { return dsl::str(prog(*al, L, k / uint64_t(np))) + fmt(" @%d", int(k % uint64_t(np))); };
    spaces.push_back(s);
  }
  void setup() override {
    childInit = [] { std::cout.setstate(std::ios::failbit); }; // some operations report on standard output
    cSkip = mc::counter("outside_domain");
    cKink = mc::counter("no_coefficients_at_poles_and_jumps");
    auto mk = [](AlphaCfg c, bool hov) { c.cmp = true; auto a = alphabet(c); if (hov) std::erase_if(a, [](const Op &o) { return !hovHas(o); }); return a; };
    Hf = mk(cfgFull(), true); Hm = mk(cfgMid(), true); Ht = mk(cfgTiny(), true);
    If = mk(cfgFull(), false); Im = mk(cfgMid(), false); It = mk(cfgTiny(), false);
    const bool t = mc::thorough;
    add("hov-len1", true, &Hf, 1, NP, "several degrees (1,2,4,6) and directions (1..3): every implemented operation, operand form and aliasing pattern", 300);
    for (int i = 0; i < 49; i++) { PG[i][0] = GV[i / 7]; PG[i][1] = GV[i % 7]; }
    add("hov-grid", true, &Hf, 1, 49, "several degrees and directions: every implemented operation, operand form and aliasing pattern on a grid of points with both zeros and borders of domains", 300, PG);
    add("indo-grid", false, &If, 1, 49, "index domains: every operation, operand form and aliasing pattern on the same grid", 2000, PG);
    add("hov-len2", true, &Hm, 2, t ? 4 : 1, "several degrees and directions: all pairs of operations", 1500);
    add("hov-len3", true, &Ht, 3, t ? 2 : 1, "several degrees and directions: all triples of few operations", 1500);
    add("indo-len1", false, &If, 1, NP, "index domains: every operation, operand form and aliasing pattern", 500);
    add("indo-len2", false, &Im, 2, t ? NP : 2, "index domains: all pairs of operations", 3000);
    add("indo-len3", false, &It, 3, t ? 3 : 1, "index domains: all triples of few operations", 3000);
    struct Dim { int m, n; };
    std::vector<Dim> dims;
    for (int m = 1; m <= 5; m++) for (int n = 1; n <= 5; n++) if (m * n <= (t ? 12 : 9)) dims.push_back({m, n});
    for (auto d : dims) {
      mc::Space s;
      s.name = fmt("sparse-%dx%d", d.m, d.n);
      s.n = 1u << (d.m * d.n);
      s.chunk = 64;
      s.rule = "traceless sparse Jacobian: all structures of these dimensions, built once and reused at two further points";
      s.run = [d](uint64_t k) { Rows r; for (int i = 0; i < d.m; i++) r.emplace_back((k >> (i * d.n)) & ((1u << d.n) - 1)); checkSparse(d.m, d.n, r); };
      s.describe = [d](uint64_t k) { return fmt("%dx%d structure %x", d.m, d.n, unsigned(k)); };
      spaces.push_back(s);
    }
    static const int SZ[] = {1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 150};
    static const char *KN[] = {"bands of 1", "bands of 2", "bands of 5", "arrow", "dense", "every 7th", "every 32nd", "last column", "block triangle", "bands of 40"};
    mc::Space s;
    s.name = "sparse-wide"; s.n = 14 * 14 * 10; s.chunk = 10;
    s.rule = "traceless sparse Jacobian: 10 kinds of structures x up to 150 dependents and independents around powers of two";
    auto dec = [](uint64_t k, int &m, int &n, int &t) { m = SZ[k % 14]; k /= 14; n = SZ[k % 14]; t = int(k / 14); };
    s.run = [=](uint64_t k) {
      int m, n, t;
      dec(k, m, n, t);
      Rows r(static_cast<size_t>(m));
      auto band = [](int i, int j, int w) { return j >= i && j < i + w; };
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        const bool b[] = {i == j, band(i, j, 2), band(i, j, 5), i == j || !i || !j, m * n < 4500, (i + j) % 7 == 0, (i * 5 + j) % 32 == 0, j == n - 1, j <= i && j % 8 < 3, band(i, j, 40)};
        r[size_t(i)][size_t(j)] = b[t];
      }
      checkSparse(m, n, r);
    };
    s.describe = [=](uint64_t k) { int m, n, t; dec(k, m, n, t); return fmt("%s, %dx%d", KN[t], m, n); };
    spaces.push_back(s);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
