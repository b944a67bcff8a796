// C15, second part: many switches, inputs and outputs. The function is written
// down in abs-normal form, so that all its matrices are known.
#include "dsl.h"
#include "arr.h"
#include <adolc/drivers/drivers.h>
#include <adolc/interfaces.h>
#include <adolc/sparse/sparsedrivers.h>
using mc::fail;
using mc::fmt;
using arr::M2;
typedef std::vector<double> V;
struct Fn {
  int m, n, s;
  std::vector<V> Y, J, Z, L;
  V b, c;
};
// density: 0 a few entries in each row, 1 every third, 2 a chain
static double en(int k, int i, int j, int nc, int dens) {
  const int q = (i * 5 + j * 3 + k) % 7;
  switch (dens) {
  case 0: return (j == i % nc || j == (3 * i + 1 + k) % nc) ? 0.25 * (q - 3) + 0.125 : 0;
  case 1: return (i + j + k) % 3 == 0 ? 0.03125 * (q - 3) : 0;
  default: return j == nc - 1 - i % nc ? 0.5 : j == (i + nc - 1) % nc ? -0.25 : 0;
  }
}
static V point(int n, int p) { V x; for (int j = 0; j < n; j++) x.push_back(p == 0 ? 0.25 * ((j * 3) % 7 - 3) + 0.125 : p == 1 ? 0.5 * (j % 3) - 0.25 : 0); return x; }
static short sg(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
struct Val { V y, z; };
static Val val(const Fn &f, const V &x) {
  Val r;
  for (int k = 0; k < f.s; k++) { double v = f.c[size_t(k)]; for (int j = 0; j < f.n; j++) v += f.Z[size_t(k)][size_t(j)] * x[size_t(j)]; for (int l = 0; l < k; l++) v += f.L[size_t(k)][size_t(l)] * std::fabs(r.z[size_t(l)]); r.z.push_back(v); }
  for (int i = 0; i < f.m; i++) { double v = f.b[size_t(i)]; for (int j = 0; j < f.n; j++) v += f.Y[size_t(i)][size_t(j)] * x[size_t(j)]; for (int k = 0; k < f.s; k++) v += f.J[size_t(i)][size_t(k)] * std::fabs(r.z[size_t(k)]); r.y.push_back(v); }
  return r;
}
// increments for |z| := a_k z_k, a_k = sgn z_k, or the sign of the increment at a kink
static Val tang(const Fn &f, const V &z, const V &d, std::vector<short> *sig = nullptr) {
  Val r;
  V az;
  for (int k = 0; k < f.s; k++) {
    double v = 0;
    for (int j = 0; j < f.n; j++) v += f.Z[size_t(k)][size_t(j)] * d[size_t(j)];
    for (int l = 0; l < k; l++) v += f.L[size_t(k)][size_t(l)] * az[size_t(l)];
    r.z.push_back(v);
    short a = sg(z[size_t(k)]);
    if (!a) a = sg(v);
    if (sig) sig->push_back(a);
    az.push_back(a * v);
  }
  for (int i = 0; i < f.m; i++) { double v = 0; for (int j = 0; j < f.n; j++) v += f.Y[size_t(i)][size_t(j)] * d[size_t(j)]; for (int k = 0; k < f.s; k++) v += f.J[size_t(i)][size_t(k)] * az[size_t(k)]; r.y.push_back(v); }
  return r;
}
static Fn make(int m, int n, int s, int dens, int kinks, const V &x) {
  Fn f{m, n, s, {}, {}, {}, {}, {}, {}};
  auto mat = [&](int k, int r, int c) { std::vector<V> a; for (int i = 0; i < r; i++) { a.emplace_back(); for (int j = 0; j < c; j++) a.back().push_back(en(k, i, j, c, dens)); } return a; };
  f.Y = mat(0, m, n); f.J = mat(1, m, s); f.Z = mat(2, s, n); f.L = mat(3, s, s);
  for (int k = 0; k < s; k++) for (int l = k; l < s; l++) f.L[size_t(k)][size_t(l)] = 0;
  for (int i = 0; i < m; i++) f.b.push_back(0.5 * (i % 5) - 1);
  f.c.assign(size_t(s), 0);
  // every kinks-th switch is at its kink at x
  for (int k = 0; k < s; k++) {
    double v = val(f, x).z[size_t(k)];
    f.c[size_t(k)] = kinks && k % kinks == 0 ? -v : 0.375 * ((k % 5) - 2) + (std::fabs(v) < 1e-3 ? 0.0625 : 0);
    if (!(kinks && k % kinks == 0) && std::fabs(v + f.c[size_t(k)]) < 1e-6) f.c[size_t(k)] += 0.125;
  }
  return f;
}
static void record(short tag, const Fn &f, const V &x, int keepFiles = 0) {
  setCurrentTape(tag);
  currentTape().enableMinMaxUsingAbs();
  trace_on(tag);
  {
    std::vector<adouble> X(x.size()), A;
    A.reserve(size_t(f.s));
    for (size_t j = 0; j < x.size(); j++) X[j] <<= x[j];
    auto sum = [&](const V &r, const std::vector<adouble> &v, adouble &e) { for (size_t j = 0; j < v.size(); j++) if (r[j] != 0) e += r[j] * v[j]; };
    for (int k = 0; k < f.s; k++) { adouble e = f.c[size_t(k)]; sum(f.Z[size_t(k)], X, e); sum(f.L[size_t(k)], A, e); A.push_back(fabs(e)); }
    double o;
    std::vector<adouble> Yv(static_cast<size_t>(f.m));
    for (int i = 0; i < f.m; i++) { adouble e = f.b[size_t(i)]; sum(f.Y[size_t(i)], X, e); sum(f.J[size_t(i)], A, e); Yv[size_t(i)] = e; }
    for (auto &e : Yv) e >>= o;
  }
  trace_off(keepFiles);
}
static short tag = -1;
static void exec(int m, int n, int s, int dens, int kinks, int pt, bool other = false) {
  if (tag < 0) tag = dsl::freshTape();
  struct G { bool ok = false; ~G() { if (!ok) tag = -1; } } guard;
  const V x = point(n, pt), x0 = point(n, (pt + 1) % 3);
  const Fn f = make(m, n, s, dens, kinks, x);
  const size_t M = size_t(m), N = size_t(n), S = size_t(s);
  record(tag, f, x0, other);
  mc::trace();
  const Val w = val(f, x);
  auto eq = [&](const char *what, double got, double want, size_t i, size_t j) { mc::expectNear(what, got, want, 1e-9, 1, "%s: element %zu,%zu", what, i, j); };
  auto rc = [&](const char *what, int r) { if (r < 0) fail("return code", "%s returned %d", what, r); mc::transition(); };
  if (get_num_switches(tag) != S) fail("switches", "%zu switches instead of %zu", size_t(get_num_switches(tag)), S);
  V y(M), z(S);
  rc("zos_pl_forward", zos_pl_forward(tag, m, n, 0, x.data(), y.data(), z.data()));
  for (size_t i = 0; i < M; i++) eq("zos_pl_forward y", y[i], w.y[i], i, 0);
  for (size_t k = 0; k < S; k++) eq("zos_pl_forward z", z[k], w.z[k], k, 0);
  // abs-normal form
  ADOLC::AbsNormalForm a = ADOLC::AbsNormalForm::fromTape(tag);
  rc("abs_normal", ADOLC::abs_normal<ADOLC::UpdateConsts::True>(tag, std::span<const double>(x.data(), N), a));
  for (size_t i = 0; i < M; i++) { eq("abs_normal y", a.y[i], w.y[i], i, 0); for (size_t j = 0; j < N; j++) eq("abs_normal Y", a.Y[i][j], f.Y[i][j], i, j); for (size_t k = 0; k < S; k++) eq("abs_normal J", a.J[i][k], f.J[i][k], i, k); }
  for (size_t l = 0; l < S; l++) { eq("abs_normal z", a.z[l], w.z[l], l, 0); for (size_t j = 0; j < N; j++) eq("abs_normal Z", a.Z[l][j], f.Z[l][j], l, j); for (size_t k = 0; k < S; k++) eq("abs_normal L", a.L[l][k], f.L[l][k], l, k); }
  for (size_t l = 0; l < S; l++) { double v = w.z[l]; for (size_t k = 0; k < l; k++) v -= f.L[l][k] * std::fabs(w.z[k]); eq("abs_normal cz", a.cz[l], v, l, 0); }
  for (size_t i = 0; i < M; i++) { double v = w.y[i]; for (size_t k = 0; k < S; k++) v -= f.J[i][k] * std::fabs(w.z[k]); eq("abs_normal cy", a.cy[i], v, i, 0); }
  // increments that stay on the piece or cross kinks
  const int P = std::min(n, 70);
  M2<double> X(N, size_t(P)), YD(M, size_t(P)), ZD(S, size_t(P));
  for (size_t j = 0; j < N; j++) for (int p = 0; p < P; p++) X[j][p] = (int(j) == p ? 1.0 : 0.0) + 0.25 * ((int(j) * 2 + p) % 3 - 1);
  std::vector<short> sig(S + 1, 77);
  rc("fov_pl_forward", fov_pl_forward(tag, m, n, P, x.data(), X, y.data(), YD, z.data(), ZD, sig.data()));
  for (int p = 0; p < P; p++) {
    V e(x);
    for (size_t j = 0; j < N; j++) e[j] += X[j][p];
    const Val v = val(f, e);
    for (size_t i = 0; i < M; i++) eq("fov_pl_forward y", y[i] + YD[i][p], v.y[i], i, size_t(p));
    for (size_t k = 0; k < S; k++) eq("fov_pl_forward z", z[k] + ZD[k][p], v.z[k], k, size_t(p));
    if (p < 2) {
      V d(N), yd(M), zd(S);
      for (size_t j = 0; j < N; j++) d[j] = X[j][p];
      rc("fos_pl_forward", fos_pl_forward(tag, m, n, x.data(), d.data(), y.data(), yd.data(), z.data(), zd.data()));
      for (size_t i = 0; i < M; i++) eq("fos_pl_forward y", y[i] + yd[i], v.y[i], i, size_t(p));
      for (size_t k = 0; k < S; k++) eq("fos_pl_forward z", z[k] + zd[k], v.z[k], k, size_t(p));
    }
  }
  for (size_t k = 0; k < S; k++) { mc::checked(); if (std::fabs(w.z[k]) > 1e-12 && sig[k] != sg(w.z[k])) fail("signature", "fov_pl_forward: signature %d of switch %zu at %g", int(sig[k]), k, w.z[k]); }
  // rows
  rc("zos_pl_forward", zos_pl_forward(tag, m, n, 1, x.data(), y.data(), z.data()));
  const int Q = std::min(m + s, 70);
  M2<double> U(size_t(Q), M), US(size_t(Q), S), G(size_t(Q), N), GS(size_t(Q), S);
  for (size_t q = 0; q < size_t(Q); q++) {
    for (size_t i = 0; i < M; i++) U[q][i] = (i == q) + 0.25 * double((i + 2 * q) % 3);
    for (size_t k = 0; k < S; k++) US[q][k] = (k + M == q) - 0.125 * double((k + q) % 4);
  }
  rc("fov_pl_reverse", fov_pl_reverse(tag, m, n, s, Q, U, US, G, GS));
  for (size_t q = 0; q < size_t(Q); q++) {
    V g(N), gs(S);
    const bool one = q < 2 || int(q) == Q - 1;
    if (one) rc("fos_pl_reverse", fos_pl_reverse(tag, m, n, s, U[q], US[q], g.data(), gs.data()));
    for (size_t j = 0; j < N + S; j++) {
      double v = 0;
      for (size_t i = 0; i < M; i++) v += U[q][i] * (j < N ? f.Y[i][j] : f.J[i][j - N]);
      for (size_t k = 0; k < S; k++) v += US[q][k] * (j < N ? f.Z[k][j] : f.L[k][j - N]);
      eq("fov_pl_reverse", j < N ? G[q][j] : GS[q][j - N], v, q, j);
      if (one) eq("fos_pl_reverse", j < N ? g[j] : gs[j - N], v, q, j);
    }
  }
  // one-sided derivatives with given signatures
  const bool exact = [&] { for (size_t k = 0; k < S; k++) if (w.z[k] != 0 && std::fabs(w.z[k]) < 1e-9) return false; return true; }();
  if (exact) {
    V d(N), yd(M), zd(S);
    for (size_t j = 0; j < N; j++) d[j] = X[j][0];
    std::vector<short> t, sb(S), sd(S + 1), sw(S + 1, 77);
    const Val v = tang(f, w.z, d, &t);
    bool clear = true;
    for (size_t k = 0; k < S; k++) { sb[k] = sg(w.z[k]); sd[k] = sg(v.z[k]); clear &= v.z[k] == 0 || std::fabs(v.z[k]) > 1e-12; }
    if (clear) {
      rc("fos_pl_sig_forward", fos_pl_sig_forward(tag, m, n, x.data(), d.data(), s, sb.data(), sd.data(), y.data(), yd.data(), z.data(), zd.data(), sw.data()));
      for (size_t i = 0; i < M; i++) eq("fos_pl_sig_forward y", yd[i], v.y[i], i, 0);
      for (size_t k = 0; k < S; k++) { eq("fos_pl_sig_forward z", zd[k], v.z[k], k, 0); if (sw[k] != t[k]) fail("signature", "fos_pl_sig_forward: signature of switch %zu is %d instead of %d", k, int(sw[k]), int(t[k])); }
      if (kinks && m == 1) {
        bool all = true;
        for (short q : t) all &= q != 0;
        V g(N);
        std::vector<short> ss(S + 1);
        int r = -1;
        try { r = directional_active_gradient(tag, n, x.data(), d.data(), g.data(), ss.data()); } catch (const std::exception &e) { if (all) fail("gradient", "directional_active_gradient refuses a direction that decides all switches: %.80s", e.what()); }
        if (r >= 0) {
          double gd = 0;
          for (size_t j = 0; j < N; j++) gd += g[j] * d[j];
          mc::expectNear("gradient", gd, v.y[0], 1e-9, 4, "directional_active_gradient times direction");
          for (size_t k = 0; k < S; k++) if (t[k] && ss[k] != t[k]) fail("gradient", "signature of switch %zu is %d instead of %d", k, int(ss[k]), int(t[k]));
        } else if (all) fail("gradient", "directional_active_gradient returned %d although the direction decides all switches", r);
      }
    }
    // gradient of a piece
    std::vector<short> pc(S + 1);
    for (size_t k = 0; k < S; k++) pc[k] = sb[k] ? sb[k] : (k % 2 ? 1 : -1);
    V u(M), g(N);
    for (size_t i = 0; i < M; i++) u[i] = 1 + 0.25 * double(i % 4);
    // the adjoint of the piece
    V zb(S);
    for (size_t k = 0; k < S; k++) for (size_t i = 0; i < M; i++) zb[k] += u[i] * f.J[i][k];
    for (size_t k = S; k-- > 0;) { zb[k] *= pc[k]; for (size_t l = 0; l < k; l++) zb[l] += zb[k] * f.L[k][l]; }
    rc("zos_pl_forward", zos_pl_forward(tag, m, n, 1, x.data(), y.data(), z.data()));
    rc("fos_pl_sig_reverse", fos_pl_sig_reverse(tag, m, n, s, pc.data(), u.data(), g.data()));
    for (size_t j = 0; j < N; j++) { double v = 0; for (size_t i = 0; i < M; i++) v += u[i] * f.Y[i][j]; for (size_t k = 0; k < S; k++) v += zb[k] * f.Z[k][j]; eq("fos_pl_sig_reverse", g[j], v, j, 0); }
  }
  // sparse
  {
    std::vector<uint *> rows(M + S + 1, nullptr);
    std::span<uint *> sp(rows.data(), M + S);
    rc("jac_pat", ADOLC::Sparse::jac_pat<ADOLC::Sparse::PiecewiseLinear{}>(tag, m, n, s, x.data(), sp));
    for (size_t i = 0; i < M + S; i++) {
      std::vector<bool> in(N + S);
      for (uint c = 1; c <= sp[i][0]; c++) { if (sp[i][c] >= N + S || in[sp[i][c]]) fail("pattern", "row %zu has column %u", i, sp[i][c]); in[sp[i][c]] = true; }
      for (size_t j = 0; j < N + S; j++) {
        const double v = i < M ? (j < N ? f.Y[i][j] : f.J[i][j - N]) : (j < N ? f.Z[i - M][j] : f.L[i - M][j - N]);
        mc::checked();
        if ((v != 0) != in[j]) fail("pattern", "row %zu of the extended Jacobian, column %zu: %g, %sin the pattern", i, j, v, in[j] ? "" : "not ");
      }
      delete[] sp[i];
    }
    ADOLC::Sparse::SparseANF sa;
    for (int rep = 0; rep < 2; rep++) {
      rc("sparse_jac", ADOLC::Sparse::sparse_jac(tag, m, n, s, rep, x.data(), sa));
      auto cmp = [&](const char *what, ADOLC::Sparse::SparseMatrix &B, size_t nr, size_t nc, const std::vector<V> &want) {
        M2<double> G2(nr, nc, 0);
        for (size_t q = 0; q < B.size(); q++) { if (size_t(B.rowIndex(q)) >= nr || size_t(B.colIndex(q)) >= nc) fail("sparse index", "%s has entry (%zu,%zu)", what, size_t(B.rowIndex(q)), size_t(B.colIndex(q))); G2[size_t(B.rowIndex(q))][size_t(B.colIndex(q))] += B.value(q); }
        for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) eq(what, G2[i][j], want[i][j], i, j);
      };
      cmp("sparse Y", sa.Y, M, N, f.Y); cmp("sparse J", sa.J, M, S, f.J); cmp("sparse Z", sa.Z, S, N, f.Z); cmp("sparse L", sa.L, S, S, f.L);
      for (size_t k = 0; k < S; k++) { eq("sparse cz", sa.cz[k], a.cz[k], k, 0); eq("sparse z", sa.z[k], w.z[k], k, 0); }
      for (size_t i = 0; i < M; i++) { eq("sparse cy", sa.cy[i], a.cy[i], i, 0); eq("sparse y", sa.y[i], w.y[i], i, 0); }
    }
  }
  mc::state(mc::hmix(uint64_t(m * 10000 + n * 100 + s), uint64_t(dens * 8 + kinks)));
  guard.ok = true;
}
struct R : mc::Runner {
  void setup() override {
    childInit = [] { tag = -1; };
    static const int MS[] = {1, 2, 8, 9, 33, 65}, NS[] = {1, 3, 8, 9, 32, 33, 65}, SS[] = {1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 70};
    mc::Space s;
    s.name = "wide"; s.n = 6 * 7 * 14 * 3 * 3 * 3; s.chunk = 10;
    s.rule = "functions given in abs-normal form: 1..65 outputs x 1..65 inputs x 1..70 switches x 3 densities x none, all, every third switch at its kink x 3 points: every piecewise-linear sweep, dense and sparse abs-normal form";
    struct C { int m, n, s, d, k, p; };
    auto dec = [](uint64_t q) { mc::Dec d(q); C c; c.d = int(d(3)); c.k = int(d(3)); if (c.k == 2) c.k = 3; c.p = int(d(3)); c.m = MS[d(6)]; c.n = NS[d(7)]; c.s = SS[d(14)]; return c; };
    s.run = [=](uint64_t k) { C c = dec(k); exec(c.m, c.n, c.s, c.d, c.k, c.p); };
    s.describe = [=](uint64_t k) { C c = dec(k); return fmt("m%d n%d s%d density%d kinks%d point%d", c.m, c.n, c.s, c.d, c.k, c.p); };
    spaces.push_back(s);
    s.name = "on-disk"; s.n = 3 * 3 * 4 * 3 * 3 * 3; s.chunk = 12;
    s.rule = "functions given in abs-normal form: 1..9 outputs x 1..9 inputs x 1..17 switches x densities x kinks x points, the trace kept in files";
    auto dec2 = [](uint64_t q) { mc::Dec d(q); C c; c.d = int(d(3)); c.k = int(d(3)); if (c.k == 2) c.k = 3; c.p = int(d(3)); c.m = MS[d(3) * 3 / 2]; c.n = NS[d(3) * 3 / 2]; c.s = SS[d(4) * 5 / 3]; return c; };
    s.run = [=](uint64_t k) { C c = dec2(k); exec(c.m, c.n, c.s, c.d, c.k, c.p, true); };
    s.describe = [=](uint64_t k) { C c = dec2(k); return fmt("m%d n%d s%d density%d kinks%d point%d", c.m, c.n, c.s, c.d, c.k, c.p); };
    spaces.push_back(s);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
