// C15: piecewise-linear and abs-normal modes represent the function exactly.
#include "ref.h"
#include <array>
namespace ref {
// Linearizations of fabs/fmin/fmax at a point, on the dual numbers.
enum { PL_INC, PL_LEX, PL_ANF, PL_SIG };
constexpr int NK = 14;
struct PL {
  int mode = PL_INC, p = 1, n0 = 2;
  std::vector<double> z;
  std::vector<std::array<double, NK>> dz;
  std::vector<short> sig;
  std::vector<bool> mm;
  bool many = false, inexact = false; // inexact: rounding may decide what follows
};
inline thread_local PL pl;
// The switching variable of a minimum or maximum may be the difference in
// either order; the order used is read off the trace once.
inline thread_local std::vector<bool> flip;
inline double tiny(double v) { return std::fabs(v) < 1e-11 ? 0 : v; }
template <int N> Dual<N> plabs(const Dual<N> &b, bool mm) {
  static_assert(N == NK);
  const size_t k = pl.z.size();
  const Dual<N> a = mm && k < flip.size() && flip[k] ? -b : b;
  pl.mm.push_back(mm);
  const double v = tiny(a.v);
  if (v != 0 && std::fabs(v) < 1e-8) flags.fuzzy = true;
  pl.z.push_back(a.v);
  pl.dz.emplace_back();
  for (int i = 0; i < N; i++) pl.dz.back()[size_t(i)] = a.g[i];
  Dual<N> r(std::fabs(a.v));
  switch (pl.mode) {
  case PL_INC: for (int i = 0; i < N; i++) r.g[i] = std::fabs(a.v + a.g[i]) - std::fabs(a.v); break;
  case PL_LEX: {
    short s = v > 0 ? 1 : v < 0 ? -1 : 0;
    for (int i = 0; i < pl.p && !s; i++) { if (pl.inexact && tiny(a.g[i]) == 0) flags.fuzzy = true; double g = tiny(a.g[i]); if (g != 0 && std::fabs(g) < 1e-8) flags.fuzzy = true; s = g > 0 ? 1 : g < 0 ? -1 : 0; }
    pl.sig.push_back(s);
    for (int i = 0; i < N; i++) r.g[i] = s * a.g[i];
    break;
  }
  case PL_ANF: if (pl.n0 + int(k) < N) r.g[pl.n0 + int(k)] = 1; else pl.many = true; break;
  case PL_SIG: for (int i = 0; i < N; i++) r.g[i] = pl.sig.at(k) * a.g[i]; break;
  }
  return r;
}
template <int N> Dual<N> fabs(const Dual<N> &a) { return plabs(a, false); }
template <int N> Dual<N> fmin(const Dual<N> &a, const Dual<N> &b) { return (a + b - plabs(a - b, true)) / 2.0; }
template <int N> Dual<N> fmax(const Dual<N> &a, const Dual<N> &b) { return (a + b + plabs(a - b, true)) / 2.0; }
} // namespace ref
#include "dsl.h"
#include "arr.h"
#include <adolc/drivers/absnormalform.h>
#include <adolc/drivers/psdrivers.h>
#include <adolc/interfaces.h>
#include <adolc/sparse/sparsedrivers.h>
using namespace dsl;
using mc::fail;
using mc::expectNear;
using mc::fmt;
using arr::M2;
using ref::NK;
using ref::pl;
using ref::PL_INC;
using ref::PL_LEX;
using ref::PL_ANF;
using ref::PL_SIG;
typedef ref::Dual<NK> D;
typedef std::vector<double> V;
static int cRefuse, cGrad, cSkip, cSw;

// ------------------------------------------------------ the functions
static const double PTS[][2] = {{0.5, 0.5}, {0, 0}, {0.5625, -0.75}, {1.625, 0.5625}, {-1, 0}, {0.7, 1.3}, {-3e-7, 2e-7}};
constexpr int NP = 7;
static const double INCS[NK][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}, {0.25, 0.125}, {-0.75, 2.5}, {3, -0.5}, {-0.0625, -3}, {1.0 / 1024, -1.0 / 512}, {0, 0}};
// a function to examine: n inputs, m outputs
struct Fn {
  int n, m;
  std::function<void(const D *, D *)> ref;
  std::function<void(adouble *, adouble *)> act;
};
static bool inexact(const Op &o) {
  switch (o.k) {
  case UN: return o.f != NEG && o.f != POS && o.f != FABS;
  case BIN: return o.f == DIV;
  case CB: return o.f >= DIVC && o.f <= CPOW && o.f != POW1 && o.f != POW2;
  case CPD: case CPC: return o.f == 3;
  case CPR: return o.f == 5 || o.f == 8 || o.f == 11;
  case MISC: return o.f == 3 || o.f == 4;
  case VEC: return true;
  default: return false;
  }
}
static Fn progFn(const Prog &p, bool scalar) {
  Fn f;
  f.n = 2;
  f.m = scalar ? 1 : 3;
  auto body = [p, scalar](auto *x, auto *y) {
    typedef std::remove_pointer_t<decltype(y)> T;
    typedef std::remove_const_t<T> T1;
    T1 r[NR];
    r[0] = x[0]; r[1] = x[1]; r[2] = R2;
    for (auto &o : p) {
      if constexpr (std::is_same_v<T1, D>) { double v[NR] = {r[0].v, r[1].v, r[2].v}; if (!domOk(o, v)) ref::flags.kink = true; if (inexact(o)) pl.inexact = true; }
      exec<T1>(o, r);
      // a register that is not finite (even one overwritten later) leaves the domain the property speaks about
      if constexpr (std::is_same_v<T1, D>) for (auto &q : r) { if (std::ldexp(q.v, 20) != std::floor(std::ldexp(q.v, 20))) pl.inexact = true; if (!(std::abs(q.v) < 1e7)) ref::flags.kink = true; for (auto e : q.g) if (!(std::abs(e) < 1e7)) ref::flags.kink = true; }
    }
    if (scalar) y[0] = r[0] + 2.0 * r[1] - 3.0 * r[2];
    else for (int i = 0; i < NR; i++) y[i] = r[i];
  };
  f.ref = [body](const D *x, D *y) { body(x, y); };
  f.act = [body](adouble *x, adouble *y) { body(x, y); };
  return f;
}
// families with any number of inputs
enum { G_CHAIN, G_MAXLIN, G_HALFPIPE, G_LEWIS, G_ROSEN, G_NORM1, G_DEEP, G_SQUARE, G_SMOOTH, NG };
static const char *gName[] = {"nested chain", "max of linear", "half-pipe", "Lewis-Overton", "Nesterov-Rosenbrock", "1-norm of differences", "deep nest", "|x^2|", "smooth"};
template <class T> static void family(int g, int n, const T *x, T *y) {
  using std::fabs; using std::fmax; using std::fmin; using std::sin;
  switch (g) {
  case G_CHAIN: { T a = x[0]; for (int i = 1; i < n; i++) { T b = x[i] - fabs(a); a = b; } y[0] = fabs(a); break; }
  case G_MAXLIN: { T a = x[0]; for (int i = 1; i < n; i++) { T b = x[i] * double(i + 1) - 0.5 * x[i - 1]; a = fmax(a, b); } y[0] = a; break; }
  case G_HALFPIPE: { T s = 0.0; for (int i = 1; i < n; i++) s += x[i]; T q = x[0] * x[0]; T w = fmax(s, 0.0); y[0] = fmax(q - w, 0.0) + w * 0.5; break; }
  case G_LEWIS: { T q = 0.0; for (int i = 0; i < n; i++) q += x[i] * x[i]; T a = q + 2.0 * x[0], b = q - x[n - 1]; y[0] = fmax(a, fmin(b, x[0] * x[n - 1])); break; }
  case G_ROSEN: { T s = 0.25 * fabs(x[0] - 1.0); for (int i = 0; i + 1 < n; i++) s += fabs(x[i + 1] - 2.0 * fabs(x[i]) + 1.0); y[0] = s; break; }
  case G_NORM1: { T s = 0.0; for (int i = 0; i < n; i++) s += fabs(x[i] - x[(i + 1) % n]) * double(i + 1); y[0] = s; break; }
  case G_DEEP: { T a = x[0]; for (int i = 0; i < n + 1; i++) { a = fabs(a * 1.5 - x[i % n] * 0.5) - 0.5 * x[(i + 1) % n]; } y[0] = a * 2.0; break; }
  case G_SQUARE: { T s = 0.0; for (int i = 0; i < n; i++) s += fabs(x[i] * x[i]); y[0] = s + fabs(sin(x[0])); break; }
  case G_SMOOTH: { T s = 1.0; for (int i = 0; i < n; i++) s = s * sin(x[i]) + x[i]; y[0] = s; break; }
  }
}
static Fn famFn(int g, int n) {
  Fn f;
  f.n = n;
  f.m = 1;
  f.ref = [=](const D *x, D *y) { family<D>(g, n, x, y); };
  f.act = [=](adouble *x, adouble *y) { family<adouble>(g, n, x, y); };
  return f;
}
static void tapeFn(short tag, const Fn &f, const double *x) {
  setCurrentTape(tag);
  currentTape().enableMinMaxUsingAbs();
  trace_on(tag);
  {
    std::vector<adouble> X(size_t(f.n)), Y(size_t(f.m));
    double y;
    for (int i = 0; i < f.n; i++) X[size_t(i)] <<= x[i];
    f.act(X.data(), Y.data());
    for (int i = 0; i < f.m; i++) Y[size_t(i)] >>= y;
  }
  trace_off();
}
// reference run; directions in columns
static bool run(const Fn &f, int mode, const double *x, const V *dirs, size_t nd, std::vector<D> &y, int p = 1, const std::vector<short> *sig = nullptr) {
  pl = ref::PL();
  pl.mode = mode; pl.p = p; pl.n0 = f.n;
  if (sig) pl.sig = *sig;
  ref::flags.clear();
  std::vector<D> X(size_t(f.n));
  y.assign(size_t(f.m), D());
  for (int i = 0; i < f.n; i++) {
    X[size_t(i)] = x[i];
    if (dirs) for (size_t j = 0; j < nd; j++) X[size_t(i)].g[j] = dirs[j][size_t(i)];
    else X[size_t(i)].g[i] = 1;
  }
  f.ref(X.data(), y.data());
  if (ref::flags.kink || ref::flags.fuzzy || pl.many) return false;
  for (auto &q : y) { if (!std::isfinite(q.v) || std::fabs(q.v) > 1e7) return false; for (double g : q.g) if (!std::isfinite(g) || std::fabs(g) > 1e7) return false; }
  for (size_t k = 0; k < pl.z.size(); k++) { if (!std::isfinite(pl.z[k])) return false; for (double g : pl.dz[k]) if (!std::isfinite(g) || std::fabs(g) > 1e7) return false; }
  return true;
}
static void orient(short tag, const Fn &f, const std::vector<const double *> &xs) {
  std::vector<D> y;
  ref::flip.clear();
  const size_t S = get_num_switches(tag), N = size_t(f.n);
  V dp(S, 0), dm(S, 0);
  for (const double *x : xs) {
  if (!run(f, PL_ANF, x, nullptr, 0, y) || pl.z.size() != S) continue;
  ADOLC::AbsNormalForm anf = ADOLC::AbsNormalForm::fromTape(tag);
  ADOLC::abs_normal<ADOLC::UpdateConsts::True>(tag, std::span<const double>(x, N), anf);
  for (size_t l = 0; l < S; l++) {
    if (!pl.mm[l]) continue;
    dp[l] += std::fabs(anf.z[l] - pl.z[l]); dm[l] += std::fabs(anf.z[l] + pl.z[l]);
    for (size_t j = 0; j < N; j++) { dp[l] += std::fabs(anf.Z[l][j] - pl.dz[l][j]); dm[l] += std::fabs(anf.Z[l][j] + pl.dz[l][j]); }
    for (size_t k = 0; k < S; k++) { dp[l] += std::fabs(anf.L[l][k] - pl.dz[l][N + k]); dm[l] += std::fabs(anf.L[l][k] + pl.dz[l][N + k]); }
  }
  }
  ref::flip.assign(S, false);
  for (size_t l = 0; l < S; l++) ref::flip[l] = dm[l] < dp[l];
}
#define NEAR(tag, got, want, ...) do { mc::checked(); expectNear(tag, got, want, 1e-9, 1 + std::fabs(double(want)), __VA_ARGS__); } while (0)
static short sgn(double v) { v = ref::tiny(v); return v > 0 ? 1 : v < 0 ? -1 : 0; }

struct Anf { M2<double> Y, J, Z, L; };
static void checkAt(short tag, const Fn &f, const double *x, const std::vector<V> &incs, int pt) {
  const int n = f.n, m = f.m;
  std::vector<D> y, ya;
  if (!run(f, PL_ANF, x, nullptr, 0, ya)) { mc::count(cSkip); return; }
  const ref::PL A = pl;
  const int s = int(A.z.size());
  mc::count(cSw, uint64_t(s));
  mc::checked();
  if (int(get_num_switches(tag)) != s) fail("switches", "%zu switches reported, the program has %d", size_t(get_num_switches(tag)), s);
  const size_t S = size_t(s), N = size_t(n), M = size_t(m);
  const size_t nd = std::min(incs.size(), size_t(NK));
  if (!run(f, PL_INC, x, incs.data(), nd, y)) { mc::count(cSkip); return; }
  const ref::PL I = pl;
  uint64_t h = mc::hmix(uint64_t(pt), S);
  for (double q : I.z) h = mc::hmix(h, uint64_t(sgn(q) + 1));
  mc::state(h);
  mc::transition(nd);
  // values, switching variables
  V Yv(M + 1), Zv(S + 1);
  int rc = zos_pl_forward(tag, m, n, 0, x, Yv.data(), Zv.data());
  if (rc < 0) fail("rc", "zos_pl_forward returned %d", rc);
  for (size_t i = 0; i < M; i++) NEAR("zos-y", Yv[i], y[i].v, "y[%zu] at point %d", i, pt);
  for (size_t k = 0; k < S; k++) NEAR("zos-z", Zv[k], I.z[k], "z[%zu] at point %d", k, pt);
  // single increments
  for (size_t d = 0; d < nd; d++) {
    V yd(M + 1), zd(S + 1);
    rc = fos_pl_forward(tag, m, n, x, incs[d].data(), Yv.data(), yd.data(), Zv.data(), zd.data());
    if (rc < 0) fail("rc", "fos_pl_forward returned %d", rc);
    for (size_t i = 0; i < M; i++) { NEAR("fos-y", Yv[i], y[i].v, "y[%zu] at point %d", i, pt); NEAR("fos-inc", yd[i], y[i].g[d], "increment %zu of y[%zu] at point %d", d, i, pt); }
    for (size_t k = 0; k < S; k++) { NEAR("fos-z", Zv[k], I.z[k], "z[%zu] at point %d", k, pt); NEAR("fos-zinc", zd[k], I.dz[k][d], "increment %zu of z[%zu] at point %d", d, k, pt); }
  }
  // all increments at once, signatures
  for (size_t p : {nd, size_t(1), size_t(2)}) {
    M2<double> X(N, p), YD(M, p), ZD(S, p);
    for (size_t i = 0; i < N; i++) for (size_t d = 0; d < p; d++) X[i][d] = incs[d][i];
    std::vector<short> sg(S + 1, 77);
    rc = fov_pl_forward(tag, m, n, int(p), x, X, Yv.data(), YD, Zv.data(), ZD, sg.data());
    if (rc < 0) fail("rc", "fov_pl_forward returned %d", rc);
    for (size_t d = 0; d < p; d++) {
      for (size_t i = 0; i < M; i++) NEAR("fov-inc", YD[i][d], y[i].g[d], "increment %zu of %zu of y[%zu] at point %d", d, p, i, pt);
      for (size_t k = 0; k < S; k++) NEAR("fov-zinc", ZD[k][d], I.dz[k][d], "increment %zu of %zu of z[%zu] at point %d", d, p, k, pt);
    }
    for (size_t i = 0; i < M; i++) NEAR("fov-y", Yv[i], y[i].v, "y[%zu] at point %d", i, pt);
    for (size_t k = 0; k < S; k++) {
      NEAR("fov-z", Zv[k], I.z[k], "z[%zu] at point %d", k, pt);
      short want = sgn(I.z[k]);
      bool amb = false;
      for (size_t d = 0; d < p && !want; d++) { want = sgn(I.dz[k][d]); amb |= !want && (I.inexact || I.dz[k][d] != 0); }
      mc::checked();
      if (!amb && sg[k] != want) fail("fov-sigma", "signature of switch %zu is %d instead of %d (%zu directions, point %d)", k, int(sg[k]), int(want), p, pt);
    }
  }
  // the abs-normal form
  ADOLC::AbsNormalForm anf = ADOLC::AbsNormalForm::fromTape(tag);
  rc = ADOLC::abs_normal<ADOLC::UpdateConsts::True>(tag, std::span<const double>(x, N), anf);
  if (rc < 0) fail("rc", "abs_normal returned %d", rc);
  for (size_t i = 0; i < M; i++) {
    NEAR("anf-y", anf.y[i], y[i].v, "y[%zu] at point %d", i, pt);
    for (size_t j = 0; j < N; j++) NEAR("anf-Y", anf.Y[i][j], ya[i].g[j], "Y[%zu][%zu] at point %d", i, j, pt);
    for (size_t k = 0; k < S; k++) NEAR("anf-J", anf.J[i][k], ya[i].g[N + k], "J[%zu][%zu] at point %d", i, k, pt);
  }
  for (size_t l = 0; l < S; l++) {
    NEAR("anf-z", anf.z[l], I.z[l], "z[%zu] at point %d", l, pt);
    for (size_t j = 0; j < N; j++) NEAR("anf-Z", anf.Z[l][j], A.dz[l][j], "Z[%zu][%zu] at point %d", l, j, pt);
    for (size_t k = 0; k < S; k++) NEAR("anf-L", anf.L[l][k], A.dz[l][N + k], "L[%zu][%zu] at point %d", l, k, pt);
    for (size_t k = l; k < S; k++) { mc::checked(); if (anf.L[l][k] != 0) fail("anf-lower", "L[%zu][%zu] is not zero", l, k); }
  }
  for (size_t d = 0; d < nd; d++) { // reproduces the increment
    V z(S);
    for (size_t l = 0; l < S; l++) {
      z[l] = anf.cz[l];
      for (size_t j = 0; j < N; j++) z[l] += anf.Z[l][j] * incs[d][j];
      for (size_t k = 0; k < l; k++) z[l] += anf.L[l][k] * std::fabs(z[k]);
      NEAR("anf-reproduce-z", z[l], I.z[l] + I.dz[l][d], "z[%zu] for increment %zu at point %d", l, d, pt);
    }
    for (size_t i = 0; i < M; i++) {
      double v = anf.cy[i];
      for (size_t j = 0; j < N; j++) v += anf.Y[i][j] * incs[d][j];
      for (size_t k = 0; k < S; k++) v += anf.J[i][k] * std::fabs(z[k]);
      NEAR("anf-reproduce", v, y[i].v + y[i].g[d], "y[%zu] for increment %zu at point %d", i, d, pt);
    }
  }
  // reverse sweeps with arbitrary weights on outputs and switches
  zos_pl_forward(tag, m, n, 1, x, Yv.data(), Zv.data());
  for (int w = 0; w < 2; w++) {
    V u(M + 1), us(S + 1), g(N + 1, -7), gs(S + 1, -7);
    for (size_t i = 0; i < M; i++) u[i] = w ? double(i) - 1.5 : i == 0;
    for (size_t k = 0; k < S; k++) us[k] = w ? 0.75 - double(k) : double(k + 1 == S);
    rc = fos_pl_reverse(tag, m, n, s, u.data(), us.data(), g.data(), gs.data());
    if (rc < 0) fail("rc", "fos_pl_reverse returned %d", rc);
    for (size_t j = 0; j < N + S; j++) {
      double want = 0;
      for (size_t i = 0; i < M; i++) want += u[i] * ya[i].g[j];
      for (size_t k = 0; k < S; k++) want += us[k] * A.dz[k][j];
      NEAR("fos-pl-reverse", j < N ? g[j] : gs[j - N], want, "weights %d, column %zu at point %d", w, j, pt);
    }
  }
  // signature-driven sweeps
  if (s <= 3) {
    int ns = 1;
    for (int k = 0; k < s; k++) ns *= 3;
    for (int q = 0; q < ns; q++) {
      std::vector<short> sg(S + 1, 0);
      for (int k = 0, r = q; k < s; k++, r /= 3) sg[size_t(k)] = short(r % 3 - 1);
      std::vector<D> yg;
      if (!run(f, PL_SIG, x, nullptr, 0, yg, 1, &sg)) continue;
      V u(M + 1), g(N + 1, -7);
      for (size_t i = 0; i < M; i++) u[i] = double(i) + 1;
      rc = fos_pl_sig_reverse(tag, m, n, s, sg.data(), u.data(), g.data());
      if (rc < 0) fail("rc", "fos_pl_sig_reverse returned %d", rc);
      for (size_t j = 0; j < N; j++) {
        double want = 0;
        for (size_t i = 0; i < M; i++) want += u[i] * yg[i].g[j];
        NEAR("sig-reverse", g[j], want, "signature %d, component %zu at point %d", q, j, pt);
      }
    }
  }
  for (size_t d = 0; d < nd; d++) for (size_t p : {size_t(1), size_t(2)}) {
    V ds[2] = {incs[d], incs[(d + 5) % nd]};
    std::vector<D> yl;
    if (!run(f, PL_LEX, x, ds, p, yl, int(p))) continue;
    const ref::PL Lx = pl;
    std::vector<short> sb(S + 1), sd(S + 1);
    for (size_t k = 0; k < S; k++) { sb[k] = sgn(Lx.z[k]); sd[k] = sgn(Lx.dz[k][0]); }
    for (int nodir = 0; nodir < 2; nodir++) {
      std::vector<short> sw(S + 1, 77);
      if (p == 1) {
        V yd(M + 1), zd(S + 1);
        rc = fos_pl_sig_forward(tag, m, n, x, ds[0].data(), s, sb.data(), nodir ? nullptr : sd.data(), Yv.data(), yd.data(), Zv.data(), zd.data(), sw.data());
        for (size_t i = 0; i < M; i++) { NEAR("sig-y", Yv[i], yl[i].v, "y[%zu] at point %d", i, pt); NEAR("sig-dir", yd[i], yl[i].g[0], "one-sided derivative of y[%zu], direction %zu at point %d", i, d, pt); }
        for (size_t k = 0; k < S; k++) { NEAR("sig-z", Zv[k], Lx.z[k], "z[%zu]", k); NEAR("sig-zdir", zd[k], Lx.dz[k][0], "one-sided derivative of z[%zu], direction %zu at point %d", k, d, pt); }
      } else {
        M2<double> X(N, p), YD(M, p), ZD(S, p);
        for (size_t i = 0; i < N; i++) for (size_t j = 0; j < p; j++) X[i][j] = ds[j][i];
        rc = fov_pl_sig_forward(tag, m, n, int(p), x, X, s, sb.data(), nodir ? nullptr : sd.data(), Yv.data(), YD, Zv.data(), ZD, sw.data());
        for (size_t j = 0; j < p; j++) {
          for (size_t i = 0; i < M; i++) NEAR("sig-dirs", YD[i][j], yl[i].g[j], "derivative %zu of y[%zu], direction %zu at point %d", j, i, d, pt);
          for (size_t k = 0; k < S; k++) NEAR("sig-zdirs", ZD[k][j], Lx.dz[k][j], "derivative %zu of z[%zu], direction %zu at point %d", j, k, d, pt);
        }
      }
      if (rc < 0) fail("rc", "pl_sig_forward returned %d", rc);
      for (size_t k = 0; k < S; k++) { mc::checked(); if (sw[k] != Lx.sig[k]) fail("sig-sigma", "signature of switch %zu is %d instead of %d (%zu directions, point %d)", k, int(sw[k]), int(Lx.sig[k]), p, pt); }
    }
  }
  // sparse extended Jacobian
  {
    std::vector<uint *> rows(M + S + 1, nullptr);
    std::span<uint *> sp(rows.data(), M + S);
    rc = ADOLC::Sparse::jac_pat<ADOLC::Sparse::PiecewiseLinear{}>(tag, m, n, s, x, sp);
    if (rc < 0) fail("rc", "jac_pat returned %d", rc);
    for (size_t i = 0; i < M + S; i++) {
      std::vector<bool> in(N + S, false);
      if (!sp[i]) { fail("pattern", "row %zu missing", i); continue; }
      for (uint c = 1; c <= sp[i][0]; c++) { if (sp[i][c] >= N + S) fail("pattern", "row %zu has column %u", i, sp[i][c]); else in[sp[i][c]] = true; }
      for (size_t j = 0; j < N + S; j++) { mc::checked(); double v = i < M ? ya[i].g[j] : A.dz[i - M][j]; if (v != 0 && !in[j]) fail("pattern", "row %zu of the extended Jacobian misses column %zu", i, j); }
      delete[] sp[i];
    }
    ADOLC::Sparse::SparseANF sa;
    for (int rep = 0; rep < 2; rep++) {
      rc = ADOLC::Sparse::sparse_jac(tag, m, n, s, rep, x, sa);
      if (rc < 0) { fail("rc", "sparse_jac returned %d", rc); break; }
      auto cmp = [&](const char *what, ADOLC::Sparse::SparseMatrix &B, size_t nr, size_t nc, double **dense) {
        M2<double> G(nr, nc, 0);
        for (size_t q = 0; q < B.size(); q++) { if (size_t(B.rowIndex(q)) >= nr || size_t(B.colIndex(q)) >= nc) fail("sparse-index", "%s has entry (%zu,%zu)", what, size_t(B.rowIndex(q)), size_t(B.colIndex(q))); else G[size_t(B.rowIndex(q))][size_t(B.colIndex(q))] += B.value(q); }
        for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nc; j++) NEAR("sparse-anf", G[i][j], dense[i][j], "%s[%zu][%zu] of the sparse form (repeat %d, point %d)", what, i, j, rep, pt);
      };
      cmp("Y", sa.Y, M, N, anf.Y.data()); cmp("J", sa.J, M, S, anf.J.data()); cmp("Z", sa.Z, S, N, anf.Z.data()); cmp("L", sa.L, S, S, anf.L.data());
      for (size_t i = 0; i < M; i++) { NEAR("sparse-cy", sa.cy[i], anf.cy[i], "cy[%zu]", i); NEAR("sparse-y", sa.y[i], anf.y[i], "y[%zu]", i); }
      for (size_t k = 0; k < S; k++) { NEAR("sparse-cz", sa.cz[k], anf.cz[k], "cz[%zu]", k); NEAR("sparse-z", sa.z[k], anf.z[k], "z[%zu]", k); }
    }
  }
  mc::trace();
}
// directional active gradients of a scalar function
static void checkGradient(short tag, const Fn &f, const double *x, const V &dir, int pt, int di) {
  std::vector<D> y;
  const size_t n = size_t(f.n);
  V g(n, -7);
  if (!run(f, PL_LEX, x, &dir, 1, y, 1)) return;
  const double fd = y[0].g[0];
  const ref::PL first = pl;
  const size_t S = pl.z.size();
  std::vector<short> sg(S + 1, 77);
  bool refused = false;
  int rc = 0;
  try { rc = directional_active_gradient(tag, f.n, x, dir.data(), g.data(), sg.data()); } catch (...) { refused = true; }
  mc::checked();
  mc::transition();
  // the piece entered along the direction, then along coordinate directions
  V E[NK];
  E[0] = dir;
  size_t big = 0;
  for (size_t i = 0; i < n; i++) if (std::fabs(dir[i]) > std::fabs(dir[big])) big = i;
  size_t p = 1;
  for (size_t i = 0; i < n; i++) if (i != big) { E[p].assign(n, 0.0); E[p][i] = 1; p++; }
  bool resolved = true;
  if (!run(f, PL_LEX, x, E, p, y, int(p))) return;
  for (short q : pl.sig) resolved &= q != 0;
  if (refused) {
    mc::count(cRefuse);
    if (resolved) fail("refused", "no directional active gradient found in direction %d at point %d although the directions determine a piece", di, pt);
    return;
  }
  if (rc < 0) { fail("rc", "directional_active_gradient returned %d", rc); return; }
  mc::count(cGrad);
  double gd = 0;
  for (size_t i = 0; i < n; i++) gd += g[i] * dir[i];
  NEAR("grad-direction", gd, fd, "gradient times direction %d differs from the one-sided derivative at point %d", di, pt);
  for (size_t k = 0; k < S; k++) {
    if (sg[k] != 1 && sg[k] != -1) { fail("grad-sigma", "signature %d of switch %zu, direction %d point %d", int(sg[k]), k, di, pt); return; }
    if (first.sig[k] && sg[k] != first.sig[k]) fail("grad-sigma", "signature %d of switch %zu, but the direction %d enters %d at point %d", int(sg[k]), k, di, int(first.sig[k]), pt);
  }
  std::vector<D> yg;
  std::vector<short> sv(sg.begin(), sg.begin() + long(S));
  if (!run(f, PL_SIG, x, nullptr, 0, yg, 1, &sv)) return;
  for (size_t i = 0; i < n; i++) NEAR("grad", g[i], yg[0].g[i], "component %zu is not the gradient of the piece of the signature (direction %d, point %d)", i, di, pt);
  // the piece must be entered by some completion of the direction
  bool real = false;
  std::vector<size_t> idx;
  for (size_t i = 0; i < n; i++) if (i != big) idx.push_back(i);
  const size_t q = idx.size();
  do {
    for (unsigned sgnm = 0; sgnm < (1u << q) && !real; sgnm++) {
      V F[NK];
      F[0] = dir;
      for (size_t i = 0; i < q; i++) { F[i + 1].assign(n, 0.0); F[i + 1][idx[i]] = (sgnm >> i & 1) ? -1 : 1; }
      std::vector<D> t;
      if (!run(f, PL_LEX, x, F, q + 1, t, int(q + 1))) continue;
      bool eq = true;
      for (size_t k = 0; k < S; k++) eq &= !pl.sig[k] || pl.sig[k] == sg[k];
      real |= eq;
    }
  } while (!real && n <= 4 && std::next_permutation(idx.begin(), idx.end()));
  mc::checked();
  if (!real) fail("grad-piece", "the signature found is not that of a piece entered in direction %d at point %d", di, pt);
}
static void checkProgram(const Prog &p, int rec) {
  std::vector<V> incs;
  for (auto &q : INCS) incs.push_back({q[0], q[1]});
  Fn f = progFn(p, false), g = progFn(p, true);
  std::vector<D> y;
  if (!run(f, PL_INC, PTS[rec], incs.data(), NK, y)) { mc::count(cSkip); mc::trivial(); return; }
  try {
    ref::flip.clear();
    tapeFn(0, f, PTS[rec]);
    orient(0, f, {PTS[0], PTS[1], PTS[2], PTS[3], PTS[4], PTS[5], PTS[6]});
    for (int k = 0; k < NP; k++) { int pt = (k + rec) % NP; if (mc::thorough || k < 3 || pt == 6) checkAt(0, f, PTS[pt], incs, pt); }
    tapeFn(1, g, PTS[rec]);
    for (int k = 0; k < NP; k++) { int pt = (k + rec) % NP; for (int d = 0; d < 8; d++) checkGradient(1, g, PTS[pt], incs[size_t(d)], pt, d); }
  } catch (const mc::CaseFail &) { throw; } catch (const std::exception &e) { fail("throw", "%s", e.what()); }
}
static V gridPt(int n, uint64_t k, double a) { V v(size_t(n), 0.0); for (auto &q : v) { q = a * (double(k % 3) - 1); k /= 3; } return v; }
static void checkFamily(int g, int n, uint64_t k) {
  Fn f = famFn(g, n);
  V x = gridPt(n, k, 1.0);
  std::vector<V> incs;
  const uint64_t nd = mc::ipow(3, unsigned(n));
  if (k % 3 == 0) tapeFn(2, f, gridPt(n, nd - 1 - k, 0.5).data());
  else tapeFn(2, f, x.data());
  static const double gen[] = {0.37, -0.58, 1.19, -1.6, 0.81, 0.23};
  orient(2, f, {x.data(), gen});
  for (uint64_t d = 0; d < nd; d++) incs.push_back(gridPt(n, d, (d % 2) ? 0.5 : 1.0));
  for (size_t a = 0; a < incs.size(); a += NK) {
    std::vector<V> part(incs.begin() + long(a), incs.begin() + long(std::min(incs.size(), a + NK)));
    while (part.size() < 2) part.push_back(V(size_t(n), 0.25));
    checkAt(2, f, x.data(), part, int(k));
    if (!mc::thorough && a > 200) break;
  }
  for (uint64_t d = 0; d < nd; d++) {
    bool zero = true;
    for (double q : incs[size_t(d)]) zero &= q == 0;
    if (!zero) checkGradient(2, f, x.data(), incs[size_t(d)], int(k), int(d));
  }
}
struct R : mc::Runner {
  std::vector<Op> Af, Am, As, At;
  void add(const char *name, const std::vector<Op> *A, int L, int np, const char *rule, uint64_t chunk) {
    mc::Space s;
    s.name = name;
    s.n = mc::ipow(A->size(), unsigned(L)) * uint64_t(np);
    s.chunk = chunk;
    s.rule = fmt("%s (%zu operations incl. fabs/fmin/fmax in all operand forms, length %d) recorded at %d base points, examined at base points on and off the kinks for 14 increments, all signatures of up to 3 switches, 8 gradient directions", rule, A->size(), L, np);
    s.run = [=](uint64_t k) { checkProgram(prog(*A, L, k / uint64_t(np)), int(k % uint64_t(np))); };
    s.describe = [=](uint64_t k) { return dsl::str(prog(*A, L, k / uint64_t(np))) + fmt(" @%d", int(k % uint64_t(np))); };
    spaces.push_back(s);
  }
  void setup() override {
    childInit = [] { for (int i = 0; i < 3; i++) freshTape(65536); };
    cRefuse = mc::counter("gradient_refused_direction_undetermined");
    cGrad = mc::counter("directional_active_gradients");
    cSkip = mc::counter("outside_domain");
    cSw = mc::counter("switches_examined");
    auto pl_ = [](std::vector<Op> A) {
      std::erase_if(A, [](const Op &o) { return (o.k == UN && (o.f == CEIL || o.f == FLOOR)) || o.k == CND || o.k == CMPR || (o.k == VEC && o.f > VAXPY && o.f != VAXPYALIAS) || (o.k == MISC && o.f == 5) || (o.k == BIN && (o.f == POW || o.f == ATAN2)); }); // pow(x,y), atan2: conditional assignments inside
      return A;
    };
    auto ns = [](const Op &o) { return (o.k == UN && o.f == FABS) || (o.k == BIN && (o.f == FMIN || o.f == FMAX)) || (o.k == CB && o.f >= MINC && o.f <= CMAX) || (o.k == MISC && o.f == 6); };
    Af = pl_(alphabet(cfgFull()));
    Am = pl_(alphabet(cfgMid()));
    As = Am; // representatives: all nonsmooth operations, few smooth ones
    std::erase_if(As, [&](const Op &o) {
      if (ns(o)) return o.form != 0;
      return !(o.form == 0 && ((o.k == UN && (o.f == SIN || o.f == NEG || o.f == EXP)) || (o.k == BIN && (o.f == ADD || o.f == SUB || o.f == MUL)) || (o.k == CB && (o.f == SUBC || o.f == CMUL)) || (o.k == CPD && o.f != 3) || (o.k == CPR && o.f <= 1) || (o.k == ASG && (o.f == 0 || o.f == 5))));
    });
    At = As;
    std::erase_if(At, [&](const Op &o) {
      if (o.k == UN) return !(o.f == FABS && o.s != 1) && !(o.f == SIN && o.d == 0 && o.s == 0);
      if (o.k == BIN) return !((o.f == FMIN || o.f == FMAX || o.f == SUB || o.f == MUL) && ((o.d == 0 && o.s == 0 && o.t == 1) || (o.d == 2 && o.t == 1) || (o.d == 1)));
      return !(o.k == ASG && o.f == 5 && o.s == 1);
    });
    add("len1", &Af, 1, NP, "every operation, operand form and aliasing pattern", 100);
    if (mc::thorough) { add("len2", &Am, 2, 2, "all pairs of operations", 500); add("len3", &As, 3, 1, "all triples of representative operations", 500); add("len4", &At, 4, 1, "all quadruples of few operations", 500); }
    else { add("len2", &As, 2, 2, "all pairs of representative operations", 100); add("len3", &At, 3, 1, "all triples of few operations", 200); }
    {
      const int nmax = mc::thorough ? 6 : 5;
      std::vector<uint64_t> off;
      uint64_t tot = 0;
      for (int n = 1; n <= nmax; n++) { off.push_back(tot); tot += mc::ipow(3, unsigned(n)); }
      auto dec = [=](uint64_t k, int &g, int &n, uint64_t &pt) { g = int(k % NG); k /= NG; n = int(off.size()); while (off[size_t(n - 1)] > k) n--; pt = k - off[size_t(n - 1)]; };
      mc::Space s;
      s.name = "families";
      s.n = tot * NG;
      s.chunk = 40; s.cpu_s = 120;
      s.rule = fmt("%d textbook nonsmooth functions x 1..%d inputs x all base points in {-1,0,1}^n x all directions in {-1,0,1}^n", NG, nmax);
      s.describe = [=](uint64_t k) { int g, n; uint64_t p; dec(k, g, n, p); return fmt("%s n=%d point %d", gName[g], n, int(p)); };
      s.run = [=](uint64_t k) { int g, n; uint64_t p; dec(k, g, n, p); try { checkFamily(g, n, p); } catch (const mc::CaseFail &) { throw; } catch (const std::exception &e) { fail("throw", "%s", e.what()); } };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
