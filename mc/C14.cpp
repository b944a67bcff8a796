// C14: compressed sparse Jacobians and Hessians equal the dense ones.
#include "dsl.h"
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparsedrivers_c.h>
#include <map>
#include <set>
#include <span>
using namespace dsl;
using namespace ADOLC::Sparse;
using mc::fail;
using SM = SparseMethod;
using CF = ControlFlowMode;
using BP = BitPatternPropagationDirection;
using CM = CompressionMode;
using MH = MemoryHandler;
using RM = RecoveryMethod;
static int cSkip, cRefused, cStale;

// ------------------------------------------------ option combinations
struct JC { const char *name; bool row, manual, safe; int c; int opt[4]; int (*f)(short, int, int, int, const double *, SparseMatrix &); };
#define J4(n, sm, cf, bp, s, o0, o1, o2)                                                                                                    \
  {n " column", false, false, s, 0, {o0, o1, o2, 0}, sparse_jac<sm, CM::Column, cf, bp, MH::Auto>},                                         \
  {n " column manual", false, true, s, 0, {o0, o1, o2, 0}, sparse_jac<sm, CM::Column, cf, bp, MH::Manual>},                                 \
  {n " row", true, false, s, 0, {o0, o1, o2, 1}, sparse_jac<sm, CM::Row, cf, bp, MH::Auto>},                                                \
  {n " row manual", true, true, s, 0, {o0, o1, o2, 1}, sparse_jac<sm, CM::Row, cf, bp, MH::Manual>},                                        \
  {n " column C", false, false, s, 1, {o0, o1, o2, 0}, nullptr}, {n " row C", true, false, s, 1, {o0, o1, o2, 1}, nullptr},                 \
  {n " column C usermem", false, true, s, 1, {o0, o1, o2, 0}, nullptr}, {n " row C usermem", true, true, s, 1, {o0, o1, o2, 1}, nullptr}
static const JC JCS[] = {
    J4("index tight", SM::IndexDomains, CF::Tight, BP::Auto, false, 0, 1, 0),
    J4("index safe", SM::IndexDomains, CF::Safe, BP::Auto, true, 0, 0, 0),
    J4("bits tight auto", SM::BitPattern, CF::Tight, BP::Auto, false, 1, 1, 0),
    J4("bits tight forward", SM::BitPattern, CF::Tight, BP::Forward, false, 1, 1, 1),
    J4("bits tight reverse", SM::BitPattern, CF::Tight, BP::Reverse, false, 1, 1, 2),
    J4("bits safe auto", SM::BitPattern, CF::Safe, BP::Auto, true, 1, 0, 0),
    J4("bits safe forward", SM::BitPattern, CF::Safe, BP::Forward, true, 1, 0, 1),
    J4("bits safe reverse", SM::BitPattern, CF::Safe, BP::Reverse, true, 1, 0, 2),
};
constexpr int NJC = int(sizeof JCS / sizeof *JCS);
struct HC { const char *name; bool safe, old; int c, opt[2]; int (*f)(short, int, int, const double *, int *, unsigned **, unsigned **, double **); };
#define H2(n, cf, s, o, o0)                                                                                                   \
  {n " indirect", s, o, 0, {o0, 0}, sparse_hess<cf, RM::Indirect>}, {n " direct", s, o, 0, {o0, 1}, sparse_hess<cf, RM::Direct>}, \
  {n " indirect C", s, o, 1, {o0, 0}, nullptr}, {n " direct C", s, o, 1, {o0, 1}, nullptr}
static const HC HCS[] = {H2("tight", CF::Tight, false, false, 1), H2("safe", CF::Safe, true, false, 0), H2("old tight", CF::OldTight, false, true, 3), H2("old safe", CF::OldSafe, true, true, 2)};
constexpr int NHC = int(sizeof HCS / sizeof *HCS);

// nonzeros the caller has to provide memory for (manual modes): known from the pattern of the previous result
static int callJac(const JC &c, short tag, int m, int n, int repeat, const double *x, SparseMatrix &A, size_t nnz) {
  if (!c.c) {
    if (c.manual) A = SparseMatrix(nnz);
    return c.f(tag, m, n, repeat, x, A);
  }
  int k = c.manual ? int(nnz) : -7;
  unsigned *ri = nullptr, *ci = nullptr;
  double *v = nullptr;
  if (c.manual) { ri = new unsigned[nnz]; ci = new unsigned[nnz]; v = new double[nnz]; }
  unsigned *ri0 = ri;
  int opt[4] = {c.opt[0], c.opt[1], c.opt[2], c.opt[3]};
  const int rc = ::sparse_jac(tag, m, n, repeat, x, &k, &ri, &ci, &v, opt);
  if (rc >= 0) {
    if (c.manual && size_t(k) == nnz && ri != ri0) fail("usermem", "%s: memory of the right size was not used", c.name);
    A = SparseMatrix(size_t(k));
    for (int i = 0; i < k; i++) A[size_t(i)] = CoordinateFormatTripled(ri[i], ci[i], v[i]);
  }
  delete[] ri; delete[] ci; delete[] v;
  return rc;
}
static int callHess(const HC &c, short tag, int n, int repeat, const double *x, SparseMatrix &A, int *nnz, bool usermem) {
  unsigned *ri = nullptr, *ci = nullptr;
  double *v = nullptr;
  const int had = *nnz;
  if (usermem) { ri = new unsigned[size_t(had) + 1]; ci = new unsigned[size_t(had) + 1]; v = new double[size_t(had) + 1]; ri[had] = ci[had] = 12345; v[had] = -7; }
  int opt[2] = {c.opt[0], c.opt[1]};
  const int rc = c.c ? ::sparse_hess(tag, n, repeat, x, nnz, &ri, &ci, &v, opt) : c.f(tag, n, repeat, x, nnz, &ri, &ci, &v);
  if (rc >= 0) {
    A = SparseMatrix(size_t(*nnz));
    for (int i = 0; i < *nnz; i++) A[size_t(i)] = CoordinateFormatTripled(ri[i], ci[i], v[i]);
    if (usermem && (ri[had] != 12345 || ci[had] != 12345 || v[had] != -7)) fail("usermem", "%s: written behind the caller's memory", c.name);
  }
  if (usermem) { delete[] ri; delete[] ci; delete[] v; }
  else { free(ri); free(ci); free(v); } // ColPack allocates with malloc
  return rc;
}
// dense entries and the exact pattern; exact: no further entries allowed
struct Dense { int m = 0, n = 0; std::vector<double> v; std::vector<char> nz; double &at(int i, int j) { return v[size_t(i * n + j)]; } char &p(int i, int j) { return nz[size_t(i * n + j)]; } };
static void verify(const char *w, const char *what, const SparseMatrix &A, Dense &D, bool exact, bool upper, double tol = 1e-9) {
  std::vector<char> seen(size_t(D.m * D.n), 0);
  double sc = 1;
  for (double d : D.v) if (std::isfinite(d)) sc = std::fmax(sc, std::fabs(d));
  for (size_t k = 0; k < A.size(); k++) {
    const int i = int(A.rowIndex(k)), j = int(A.colIndex(k));
    if (i < 0 || j < 0 || i >= D.m || j >= D.n) fail("index", "%s %s: entry %zu at (%d,%d)", w, what, k, i, j);
    if (upper && i > j) fail("lower", "%s %s: entry (%d,%d) of the lower triangle", w, what, i, j);
    if (seen[size_t(i * D.n + j)]++) fail("twice", "%s %s: entry (%d,%d) listed twice", w, what, i, j);
    mc::checked();
    mc::expectNear("entry", A.value(k), D.at(i, j), tol, sc, "%s %s (%d,%d)", w, what, i, j);
    if (exact && !D.p(i, j)) fail("extra", "%s %s: entry (%d,%d) = %g is structurally zero", w, what, i, j, A.value(k));
  }
  for (int i = 0; i < D.m; i++) for (int j = upper ? i : 0; j < D.n; j++)
    if (!seen[size_t(i * D.n + j)] && D.p(i, j) && D.at(i, j) != 0) fail("missing", "%s %s: entry (%d,%d) = %g is missing", w, what, i, j, D.at(i, j));
}
// ------------------------------------------------ structures
typedef std::vector<std::vector<int>> Rows;
static double coef(int i, int j) { return 1.0 + 0.37 * i - 0.21 * j + 0.05 * i * j; }
template <class T> static T evalRow(int i, const std::vector<int> &S, const std::vector<T> &x) {
  T s = 0.25 * i;
  for (size_t k = 0; k < S.size(); k++) {
    const int j = S[k];
    const size_t q = size_t(j);
    switch ((i + j) % 3) {
    case 0: s += coef(i, j) * x[q]; break;
    case 1: s += coef(i, j) * sin(x[q]); break;
    case 2: if (k) s += x[q] * x[size_t(S[k - 1])] + 3.0 * x[q]; else s += x[q] * x[q] + 0.5 * x[q]; break;
    }
  }
  return s;
}
static double x0[2048], x1[2048];
static void denseJac(const Rows &R, int n, const double *x, Dense &D) { // analytic
  const int m = int(R.size());
  D.m = m; D.n = n; D.v.assign(size_t(m * n), 0); D.nz.assign(size_t(m * n), 0);
  for (int i = 0; i < m; i++) {
    const auto &S = R[size_t(i)];
    for (size_t k = 0; k < S.size(); k++) {
      const int j = S[k];
      D.p(i, j) = 1;
      switch ((i + j) % 3) {
      case 0: D.at(i, j) += coef(i, j); break;
      case 1: D.at(i, j) += coef(i, j) * std::cos(x[j]); break;
      case 2: if (k) { D.at(i, j) += x[S[k - 1]] + 3; D.at(i, S[k - 1]) += x[j]; } else D.at(i, j) += 2 * x[j] + 0.5; break;
      }
    }
  }
}
static void recordRows(short tag, const Rows &R, int n, const double *x) {
  trace_on(tag);
  {
    std::vector<adouble> a(static_cast<size_t>(n));
    for (int j = 0; j < n; j++) a[size_t(j)] <<= x[j];
    for (size_t i = 0; i < R.size(); i++) {
      adouble y = evalRow(int(i), R[i], a);
      double v;
      y >>= v;
    }
  }
  trace_off();
  mc::trace();
}
typedef std::vector<std::pair<int, int>> Graph; // i<=j
template <class T> static T evalGraph(const Graph &G, int n, const std::vector<T> &x) {
  T s = 0.5;
  for (int i = 0; i < n; i++) s += (0.5 + i) * x[size_t(i)];
  for (auto [i, j] : G) if (i == j) s += coef(i, i) * sin(x[size_t(i)]); else s += coef(i, j + 1) * x[size_t(i)] * x[size_t(j)];
  return s;
}
static void denseHess(const Graph &G, int n, const double *x, Dense &D) {
  D.m = D.n = n; D.v.assign(size_t(n * n), 0); D.nz.assign(size_t(n * n), 0);
  for (auto [i, j] : G) {
    D.at(i, j) = D.at(j, i) = i == j ? -coef(i, i) * std::sin(x[i]) : coef(i, j + 1);
    D.p(i, j) = D.p(j, i) = 1;
  }
}
static void recordGraph(short tag, const Graph &G, int n, const double *x, bool cmp = false) {
  trace_on(tag);
  {
    std::vector<adouble> a(static_cast<size_t>(n));
    for (int j = 0; j < n; j++) a[size_t(j)] <<= x[j];
    adouble y = evalGraph(G, n, a);
    if (cmp && a[0] > 10.0) y = 0.0;
    double v;
    y >>= v;
  }
  trace_off();
  mc::trace();
}
static void checkJac(short tag, const Rows &R, int n, int stepC) {
  const int m = int(R.size());
  Dense D0, D1;
  denseJac(R, n, x0, D0);
  denseJac(R, n, x1, D1);
  size_t nnz = 0;
  for (char c : D0.nz) nnz += size_t(c);
  recordRows(tag, R, n, x0);
  for (int c = 0; c < NJC; c += stepC) {
    const JC &C = JCS[c];
    SparseMatrix A;
    auto go = [&](int rep, const double *x, Dense &D, const char *w) {
      const int rc = callJac(C, tag, m, n, rep, x, A, nnz);
      if (rc < 0) fail("rc", "%s, %s returned %d", C.name, w, rc);
      mc::transition();
      verify(C.name, w, A, D, true, false);
      if (A.size() != nnz) fail("size", "%s, %s: %zu entries, the pattern has %zu", C.name, w, A.size(), nnz);
    };
    go(0, x0, D0, "first call");
    go(1, x1, D1, "repeated elsewhere");
    go(1, x0, D0, "repeated again");
    go(0, x1, D1, "rebuilt elsewhere");
    if (C.manual && !C.c && nnz) { // documented: wrong size is refused
      SparseMatrix B(nnz - 1);
      const int rc = C.f(tag, m, n, 1, x0, B);
      if (rc >= 0) fail("manual-size", "%s accepted caller memory of the wrong size", C.name);
    }
  }
}
static void checkSeeds(const Rows &R, int n) {
  const int m = int(R.size());
  std::vector<std::vector<unsigned>> st;
  std::vector<unsigned *> jp;
  for (auto &S : R) { std::vector<unsigned> r = {unsigned(S.size())}; for (int j : S) r.push_back(unsigned(j)); st.push_back(r); }
  for (auto &r : st) jp.push_back(r.data());
  for (int row = 0; row < 2; row++) for (int c = 0; c < 2; c++) {
    double **S = nullptr;
    int p = 0, opt = row;
    std::span<unsigned *> sp(jp);
    if (c) ::generate_seed_jac(m, n, jp.data(), &S, &p, &opt);
    else if (row) ADOLC::Sparse::generate_seed_jac<CM::Row>(m, n, sp, &S, &p);
    else ADOLC::Sparse::generate_seed_jac<CM::Column>(m, n, sp, &S, &p);
    if (!S || p < 1) fail("seed", "no seed matrix");
    const int N = row ? m : n;
    std::vector<int> col(size_t(N), -1);
    for (int j = 0; j < N; j++) for (int q = 0; q < p; q++) {
      const double s = row ? S[q][j] : S[j][q];
      if (s != 0 && s != 1) fail("seed", "entry %g", s);
      if (s == 1) { if (col[size_t(j)] >= 0) fail("seed", "%d is in two groups", j); col[size_t(j)] = q; }
    }
    std::set<std::pair<int, int>> used;
    for (int i = 0; i < m; i++) for (int j : R[size_t(i)]) {
      mc::checked();
      const int q = col[size_t(row ? i : j)];
      if (q < 0) fail("seed", "%s %d with nonzeros is in no group", row ? "row" : "column", row ? i : j);
      if (!used.insert({row ? j : i, q}).second) fail("seed", "two nonzeros of one %s fall into one group", row ? "column" : "row");
    }
    mc::transition();
    for (int q = 0; q < (row ? p : n); q++) delete[] S[q];
    delete[] S;
  }
}
// seeds for Hessians: one group per variable; every entry of the symmetric
// pattern can be read off (star) or solved for (acyclic)
static void checkHessSeeds(const Graph &G, int n) {
  std::vector<std::set<int>> row(static_cast<size_t>(n));
  for (auto [i, j] : G) { row[size_t(i)].insert(j); row[size_t(j)].insert(i); }
  std::vector<std::vector<unsigned>> st;
  std::vector<unsigned *> hp;
  for (auto &S : row) { std::vector<unsigned> r = {unsigned(S.size())}; for (int j : S) r.push_back(unsigned(j)); st.push_back(r); }
  for (auto &r : st) hp.push_back(r.data());
  const auto st0 = st;
  for (int direct = 0; direct < 2; direct++) for (int c = 0; c < 2; c++) {
    double **S = nullptr;
    int p = 0, opt = direct;
    std::span<unsigned *> sp(hp);
    if (c) ::generate_seed_hess(n, hp.data(), &S, &p, &opt);
    else if (direct) ADOLC::Sparse::generate_seed_hess<RM::Direct>(n, sp, &S, &p);
    else ADOLC::Sparse::generate_seed_hess<RM::Indirect>(n, sp, &S, &p);
    const char *w = direct ? "direct" : "indirect";
    if (!S || p < 1) fail("hseed", "no seed matrix, %s", w);
    std::vector<int> col(size_t(n), -1);
    for (int j = 0; j < n; j++) for (int q = 0; q < p; q++) {
      if (S[j][q] != 0 && S[j][q] != 1) fail("hseed", "entry %g, %s", S[j][q], w);
      if (S[j][q] == 1) { if (col[size_t(j)] >= 0) fail("hseed", "%d is in two groups, %s", j, w); col[size_t(j)] = q; }
    }
    for (int i = 0; i < n; i++) for (int j : row[size_t(i)]) {
      mc::checked();
      if (col[size_t(i)] < 0 || col[size_t(j)] < 0) fail("hseed", "%d or %d is in no group, %s", i, j, w);
      if (i != j && col[size_t(i)] == col[size_t(j)]) fail("hseed", "neighbours %d and %d share a group, %s", i, j, w);
      if (!direct || i == j) continue;
      auto alone = [&](int a, int b) { for (int k : row[size_t(a)]) if (k != b && col[size_t(k)] == col[size_t(b)]) return false; return true; };
      if (!alone(i, j) && !alone(j, i)) fail("hseed", "entry (%d,%d) cannot be read off", i, j);
    }
    if (!direct) { // no cycle with two groups
      std::map<std::pair<int, int>, std::vector<int>> uf;
      for (int i = 0; i < n; i++) for (int j : row[size_t(i)]) if (i < j) {
        auto k = std::minmax(col[size_t(i)], col[size_t(j)]);
        auto &u = uf[{k.first, k.second}];
        if (u.empty()) { u.resize(size_t(n)); for (int v = 0; v < n; v++) u[size_t(v)] = v; }
        auto find = [&](int v) { while (u[size_t(v)] != v) v = u[size_t(v)]; return v; };
        const int a = find(i), b = find(j);
        if (a == b) fail("hseed", "the groups of %d and %d form a cycle", i, j);
        u[size_t(a)] = b;
      }
    }
    if (st != st0) fail("hseed", "the pattern was changed");
    mc::transition();
    for (int q = 0; q < n; q++) delete[] S[q];
    delete[] S;
  }
}
static void checkHess(short tag, const Graph &G, int n) {
  Dense D0, D1;
  denseHess(G, n, x0, D0);
  denseHess(G, n, x1, D1);
  recordGraph(tag, G, n, x0);
  for (auto &C : HCS) {
    SparseMatrix A;
    int nnz = -3;
    auto go = [&](int rep, const double *x, Dense &D, bool um, const char *w) {
      const int rc = callHess(C, tag, n, rep, x, A, &nnz, um);
      if (rc < 0) fail("rc", "Hessian %s, %s returned %d", C.name, w, rc);
      mc::transition();
      verify(C.name, w, A, D, true, true);
      if (nnz != int(G.size())) fail("size", "Hessian %s, %s: %d entries, the pattern has %zu", C.name, w, nnz, G.size());
    };
    go(0, x0, D0, false, "first call");
    go(1, x1, D1, true, "repeated elsewhere in caller memory");
    go(1, x0, D0, false, "repeated again");
    go(0, x1, D1, true, "rebuilt elsewhere");
  }
}
// ------------------------------------------------ programs of the alphabet
static const double P0[][2] = {{0.4, 0.7}, {1.75, -0.6}, {-1.3, 2.2}};
typedef ref::Dual<2> DD;
typedef ref::Tay<DD, 1> TT;
static const double SW[NR] = {1, 2, 3};
static bool dense(const Prog &p, const double *x, Dense &J, Dense &H, std::vector<ref::Ev> &ev) {
  double y[NR];
  if (!runDouble(p, x, y)) return false;
  J.m = NR; J.n = 2; J.v.assign(NR * 2, 0); J.nz.assign(NR * 2, 0);
  H.m = H.n = 2; H.v.assign(4, 0); H.nz.assign(4, 0);
  DD xd[2], yd[NR];
  for (int i = 0; i < 2; i++) { xd[i].v = x[i]; xd[i].g[i] = 1; }
  ref::evlog = &ev;
  runRef(p, xd, yd);
  ref::evlog = nullptr;
  bool ok = !ref::flags.kink && !ref::flags.fuzzy;
  for (auto &e : ev) ok = ok && !e.tie;
  for (int i = 0; i < NR; i++) for (int j = 0; j < 2; j++) { J.at(i, j) = yd[i].g[j]; J.p(i, j) = yd[i].g[j] != 0; ok = ok && std::isfinite(yd[i].g[j]) && std::fabs(yd[i].g[j]) < 1e7; }
  for (int k = 0; k < 2; k++) {
    TT xt[2], yt[NR];
    for (int i = 0; i < 2; i++) { xt[i].c[0].v = x[i]; xt[i].c[0].g[i] = 1; xt[i].c[1] = DD(i == k); }
    runRef(p, xt, yt);
    for (int j = 0; j < NR; j++) for (int i = 0; i < 2; i++) H.at(k, i) += SW[j] * yt[j].c[1].g[i];
  }
  for (int k = 0; k < 4; k++) { ok = ok && std::isfinite(H.v[size_t(k)]) && std::fabs(H.v[size_t(k)]) < 1e7; H.nz[size_t(k)] = std::fabs(H.v[size_t(k)]) > 1e-9; }
  return ok;
}
static bool sameEv(const std::vector<ref::Ev> &a, const std::vector<ref::Ev> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i].sel != b[i].sel || a[i].tie != b[i].tie) return false;
  return true;
}
static bool sameCmp(const std::vector<ref::Ev> &a, const std::vector<ref::Ev> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i].k == ref::EV_CMP && a[i].sel != b[i].sel) return false;
  return true;
}
static bool subscripts(const Prog &p) {
  for (auto &o : p) if (o.k == VEC && !(o.f <= VAXPY || o.f == VDOTALIAS || o.f == VAXPYALIAS)) return true;
  return false;
}
static bool hoRefused(const Prog &p) { // operations the higher-order reverse drivers refuse
  for (auto &o : p) {
    if (o.k == UN && o.f == CBRT) return true;
  }
  return false;
}
static void checkProgram(const Prog &p) {
  Dense J[3], H[3];
  std::vector<ref::Ev> ev[3];
  bool ok[3];
  for (int q = 0; q < 3; q++) ok[q] = dense(p, P0[q], J[q], H[q], ev[q]);
  if (!ok[0] || subscripts(p)) { mc::trivial(); mc::count(cSkip); return; }
  const short tag = 0, tag2 = 1;
  double y[NR];
  record(tag, p, P0[0], y);
  mc::trace();
  trace_on(tag2);
  {
    adouble r[NR];
    r[0] <<= P0[0][0];
    r[1] <<= P0[0][1];
    r[2] = R2;
    for (auto &o : p) exec<adouble>(o, r);
    adouble s = SW[0] * r[0] + SW[1] * r[1] + SW[2] * r[2];
    s >>= y[0];
  }
  trace_off();
  mc::trace();
  // single operations: every option combination; longer programs: every method
  // by columns or rows, library memory
  const bool all = p.size() < 2 || mc::thorough;
  for (int c = 0; c < (all ? NJC : NJC / 8); c++) {
    const JC &C = JCS[all ? c : c * 8 + c % 2 * 2];
    size_t nnz = 0;
    SparseMatrix A;
    for (int q = 0; q < 3; q++) {
      // a tight pattern may be reused where the same selections are made
      const bool reuse = C.safe ? sameCmp(ev[0], ev[q]) : sameEv(ev[0], ev[q]);
      if (!ok[q] || !reuse) continue;
      if (C.manual && !q) { // the caller's memory: as many entries as the same method finds
        SparseMatrix B;
        callJac(JCS[c / 8 * 8 + (C.row ? 2 : 0)], tag, NR, 2, 0, P0[q], B, 0);
        nnz = B.size();
      }
      const int rc = callJac(C, tag, NR, 2, q ? 1 : 0, P0[q], A, nnz);
      if (rc < 0) fail("rc", "%s at point %d returned %d", C.name, q, rc);
      mc::transition();
      verify(C.name, q ? "repeated" : "first", A, J[q], false, false, 1e-8);
    }
  }
  for (int c = 0; c < NHC; c += 1) {
    const HC &C = HCS[c];
    if (C.c && !all) continue;
    SparseMatrix A;
    int nnz = 0;
    for (int q = 0; q < 3; q++) {
      const bool reuse = C.safe ? sameCmp(ev[0], ev[q]) : sameEv(ev[0], ev[q]);
      if (!ok[q] || !reuse) continue;
      try {
        const int rc = callHess(C, tag2, 2, q ? 1 : 0, P0[q], A, &nnz, false);
        if (rc < 0) fail("rc", "Hessian %s at point %d returned %d", C.name, q, rc);
      } catch (ADOLCError::ADOLCError &e) {
        if (!hoRefused(p)) fail("refused", "Hessian %s: %s", C.name, e.what());
        mc::count(cRefused);
        break;
      }
      mc::transition();
      verify(C.name, q ? "repeated" : "first", A, H[q], false, true, 1e-7);
    }
  }
}
// ------------------------------------------------ histories on two traces
struct Tp { bool jfail = false, hfail = false; int shape = -1, jbuilt = -1, hbuilt = -1; bool jrow = false, hdirect = false; int nnz = 0; };
enum { E_J0C, E_J0R, E_J0B, E_J1C, E_J1R, E_H0I, E_H0D, E_H1, E_JPAT, E_HPAT, E_RET, E_DENSE, E_JBAD, E_HBAD, E_JPLBAD, NEV };
static const char *evN[] = {"jac(0,col)", "jac(0,row)", "jac(0,bits,col)", "jac(1,col)", "jac(1,row)", "hess(0,ind)", "hess(0,dir)", "hess(1)", "jac_pat", "hess_pat", "retape", "dense", "jac(0) where a comparison differs", "hess(0) where a comparison differs", "jac(1) where a comparison differs"};
// scalar functions, so that both families apply to one trace
static const Graph SH[] = {{{0, 0}, {0, 1}, {2, 2}}, {{0, 1}, {1, 2}, {0, 2}, {1, 1}}};
static void runHistory(const std::vector<int> &h, short base) {
  Tp T[2];
  const int n = 3;
  Dense H[2], J[2][2];
  for (int t = 0; t < 2; t++) { T[t].shape = t; recordGraph(short(base + t), SH[t], n, x0, true); }
  int k = 0;
  for (int e : h) {
    const int t = e / NEV, a = e % NEV;
    Tp &s = T[t];
    const short tag = short(base + t);
    const double *x = (k++ % 2) ? x1 : x0;
    Dense Hd, Jd;
    denseHess(SH[s.shape], n, x, Hd);
    Jd.m = 1; Jd.n = n; Jd.v.assign(3, 0); Jd.nz.assign(3, 1);
    for (int i = 0; i < n; i++) Jd.at(0, i) = 0.5 + i;
    for (auto [i, j] : SH[s.shape]) if (i == j) Jd.at(0, i) += coef(i, i) * std::cos(x[i]); else { Jd.at(0, i) += coef(i, j + 1) * x[j]; Jd.at(0, j) += coef(i, j + 1) * x[i]; }
    SparseMatrix A;
    int rc = 0;
    auto jac = [&](const JC &C, int rep, bool row) {
      if (rep) {
        if (s.jbuilt >= 0 && s.jrow != row) { mc::count(cStale); return; } // caller error
        rc = callJac(C, tag, 1, n, 1, x, A, 0);
        if (s.jfail && rc < 0) return; // may be refused after a failed call
        if (s.jbuilt < 0) { if (rc >= 0) fail("no-cache", "sparse_jac with repeat=1 and no pattern returned %d", rc); return; }
      } else {
        rc = callJac(C, tag, 1, n, 0, x, A, 0);
        s.jbuilt = s.shape; s.jrow = row; s.jfail = false;
      }
      if (rc < 0) fail("rc", "%s: %s returned %d", evN[a], C.name, rc);
      verify(C.name, evN[a], A, Jd, true, false);
    };
    auto hess = [&](const HC &C, int rep) {
      if (rep) {
        rc = callHess(C, tag, n, 1, x, A, &s.nnz, s.hbuilt >= 0);
        if (s.hfail && rc < 0) return;
        if (s.hbuilt < 0) { if (rc >= 0) fail("no-cache", "sparse_hess with repeat=1 and no pattern returned %d", rc); return; }
      } else {
        rc = callHess(C, tag, n, 0, x, A, &s.nnz, false);
        s.hbuilt = s.shape; s.hdirect = C.opt[1]; s.hfail = false;
      }
      if (rc < 0) fail("rc", "%s returned %d", evN[a], rc);
      verify(C.name, evN[a], A, Hd, true, true);
    };
    switch (a) {
    case E_J0C: jac(JCS[0], 0, false); break;
    case E_J0R: jac(JCS[2], 0, true); break;
    case E_J0B: jac(JCS[16], 0, false); break;
    case E_J1C: jac(JCS[0], 1, false); break;
    case E_J1R: jac(JCS[2], 1, true); break;
    case E_H0I: hess(HCS[0], 0); break;
    case E_H0D: hess(HCS[1], 0); break;
    case E_H1: hess(HCS[s.hdirect ? 1 : 0], 1); break;
    case E_JPAT: { unsigned *r[1]; std::span<unsigned *> sp(r); rc = jac_pat<SM::IndexDomains, CF::Tight>(tag, 1, n, x, sp); if (rc < 0 || r[0][0] != 3) fail("pat", "jac_pat"); delete[] r[0]; break; }
    case E_HPAT: { unsigned *r[3]; std::span<unsigned *> sp(r); rc = hess_pat<CF::Tight>(tag, n, x, sp); unsigned c = 0, w = 0; for (auto *q : r) { c += q[0]; delete[] q; } for (auto [i, j] : SH[s.shape]) w += i == j ? 1 : 2; if (rc < 0 || c != w) fail("pat", "hess_pat"); break; }
    case E_RET: s.shape = 1 - s.shape; s.jbuilt = s.hbuilt = -1; s.jfail = s.hfail = false; // a new recording drops the cache
      recordGraph(tag, SH[s.shape], n, x, true); break;
    case E_JBAD: { const double xb[3] = {20, 1, 1}; rc = callJac(JCS[0], tag, 1, n, 0, xb, A, 0); if (rc >= 0) fail("switched", "sparse_jac returned %d", rc); s.jfail = true; break; }
    case E_JPLBAD: { const double xb[3] = {20, 1, 1}; if (s.jbuilt != s.shape || s.jrow) break; rc = callJac(JCS[0], tag, 1, n, 1, xb, A, 0); if (rc >= 0) fail("switched", "sparse_jac returned %d", rc); break; }
    case E_HBAD: { const double xb[3] = {20, 1, 1}; int k2 = 0; rc = callHess(HCS[0], tag, n, 0, xb, A, &k2, false); if (rc >= 0) fail("switched", "sparse_hess returned %d", rc); s.hfail = true; break; }
    case E_DENSE: { double g[3]; rc = gradient(tag, n, x, g); if (rc < 0) fail("rc", "gradient"); for (int i = 0; i < n; i++) mc::expectNear("gradient", g[i], Jd.at(0, i), 1e-10, 1, "g[%d]", i); break; }
    }
    mc::transition();
  }
}
static std::string str(const Rows &R, int n) {
  std::string s = mc::fmt("%zux%d", R.size(), n);
  for (auto &r : R) { s += " "; std::string b(size_t(n), '.'); for (int j : r) b[size_t(j)] = 'X'; s += b; }
  return s;
}
static Rows bitsRows(int m, int n, uint64_t b) {
  Rows R(static_cast<size_t>(m));
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (b >> (i * n + j) & 1) R[size_t(i)].push_back(j);
  return R;
}
static Graph bitsGraph(int n, uint64_t b) {
  Graph G;
  int k = 0;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (b >> k++ & 1) G.push_back({i, j});
  return G;
}
static Rows bigRows(int st, int m, int n) {
  Rows R(static_cast<size_t>(m));
  for (int i = 0; i < m; i++) {
    std::set<int> s;
    auto put = [&](int j) { s.insert(((j % n) + n) % n); };
    switch (st) {
    case 0: put(i); break;
    case 1: for (int k = -1; k < 2; k++) put(i + k); break;
    case 2: put(i); put(n - 1); if (i == m - 1) for (int j = 0; j < n; j++) put(j); break; // arrow
    case 3: for (int k = 0; k < 3; k++) put(7 * i + 11 * k * k); break;
    case 4: if (i % 3) for (int k = 0; k < 4; k++) put(i * 5 + k * (n / 4 + 1)); break; // empty rows
    }
    R[size_t(i)].assign(s.begin(), s.end());
  }
  return R;
}
static Graph bigGraph(int st, int n) {
  std::set<std::pair<int, int>> s;
  auto put = [&](int i, int j) { i = ((i % n) + n) % n; j = ((j % n) + n) % n; s.insert({std::min(i, j), std::max(i, j)}); };
  for (int i = 0; i < n; i++) switch (st) {
    case 0: put(i, i); break;
    case 1: if (i % 2) put(i, i); put(i, i + 1); break;
    case 2: put(i, n - 1); put(i, i); break;
    case 3: put(i, 3 * i + 1); put(i, i + n / 2); break;
    case 4: put(i, i + 1); put(i, i + int(std::sqrt(double(n)))); put(i, i); break; // grid
    }
  return Graph(s.begin(), s.end());
}
struct R : mc::Runner {
  std::vector<Op> A1, A2;
  void setup() override {
    cSkip = mc::counter("outside_domain");
    cRefused = mc::counter("refused_as_documented");
    cStale = mc::counter("caller_errors_not_made");
    for (int i = 0; i < 2048; i++) { x0[i] = 0.5 + 0.03 * (i % 23); x1[i] = -0.8 + 0.05 * (i % 29) + 0.007; }
    childInit = [] { for (int i = 0; i < 4; i++) freshTape(65536); };
    {
      std::vector<std::pair<int, int>> dims;
      const int lim = mc::thorough ? 15 : 9;
      for (int m = 1; m <= 5; m++) for (int n = 1; n <= 5; n++) if (m * n <= lim || (!mc::thorough && m * n == 10) ) dims.push_back({m, n});
      uint64_t tot = 0;
      std::vector<uint64_t> off;
      for (auto [m, n] : dims) { off.push_back(tot); tot += 1ull << (m * n); }
      auto dec = [=](uint64_t k, int &m, int &n) { size_t d = dims.size() - 1; while (off[d] > k) d--; m = dims[d].first; n = dims[d].second; return bitsRows(m, n, k - off[d]); };
      mc::Space s;
      s.name = "jac-structures";
      s.n = tot; s.chunk = 20;
      s.rule = mc::fmt("all sparsity structures with up to %d entries x %d option combinations x first/repeated/rebuilt at two points; generated seeds", lim, NJC);
      s.describe = [=](uint64_t k) { int m, n; auto r = dec(k, m, n); return str(r, n); };
      s.run = [=](uint64_t k) { int m, n; auto r = dec(k, m, n); checkJac(0, r, n, 1); checkSeeds(r, n); mc::state(mc::hmix(k, 14)); };
      spaces.push_back(s);
    }
    {
      const int N = mc::thorough ? 5 : 4;
      std::vector<uint64_t> off;
      uint64_t tot = 0;
      for (int n = 1; n <= N; n++) { off.push_back(tot); tot += 1ull << (n * (n + 1) / 2); }
      auto dec = [=](uint64_t k, int &n) { size_t d = off.size() - 1; while (off[d] > k) d--; n = int(d) + 1; return bitsGraph(n, k - off[d]); };
      mc::Space s;
      s.name = "hess-structures";
      s.n = tot; s.chunk = 20;
      s.rule = mc::fmt("all symmetric sparsity structures on up to %d variables x %d option combinations x first/repeated/rebuilt at two points, caller and library memory; generated seeds", N, NHC);
      s.describe = [=](uint64_t k) { int n; auto g = dec(k, n); std::string t = mc::fmt("n=%d", n); for (auto [i, j] : g) t += mc::fmt(" (%d,%d)", i, j); return t; };
      s.run = [=](uint64_t k) { int n; auto g = dec(k, n); checkHess(1, g, n); checkHessSeeds(g, n); mc::state(mc::hmix(k, 15)); };
      spaces.push_back(s);
    }
    {
      std::vector<int> ns;
      for (int n = 6; n <= (mc::thorough ? 70 : 34); n++) ns.push_back(n);
      for (int n : {63, 64, 65, 130}) ns.push_back(n);
      if (mc::thorough) ns.push_back(1000);
      const int nn = int(ns.size());
      mc::Space s;
      s.name = "large";
      s.n = uint64_t(nn * 5 * 4); s.chunk = 5; s.cpu_s = 60;
      s.rule = "diagonal, banded, arrow, scattered and partly empty structures for all sizes 6.. and around machine words; square, wide and tall Jacobians and Hessians";
      auto nm = [=](uint64_t k, int &st, int &kind, int &m, int &n) { mc::Dec d(k); st = int(d(5)); kind = int(d(4)); n = ns[d(uint64_t(nn))]; m = kind == 0 ? n : kind == 1 ? n / 3 + 1 : 2 * n; };
      s.describe = [=](uint64_t k) { int st, kind, m, n; nm(k, st, kind, m, n); return kind == 3 ? mc::fmt("Hessian structure %d n=%d", st, n) : mc::fmt("structure %d %dx%d", st, m, n); };
      s.run = [=](uint64_t k) {
        int st, kind, m, n;
        nm(k, st, kind, m, n);
        if (kind == 3) { const Graph g = bigGraph(st, n); checkHess(1, g, n); checkHessSeeds(g, n); }
        else { auto r = bigRows(st, m, n); checkJac(0, r, n, n > 64 ? 3 : 1); checkSeeds(r, n); }
      };
      spaces.push_back(s);
    }
    {
      A1 = dsl::alphabet(cfgFull()); A2 = dsl::alphabet(mc::thorough ? cfgMid() : cfgTiny());
      const uint64_t n1 = A1.size(), n2 = mc::ipow(A2.size(), 2);
      mc::Space s;
      s.name = "programs";
      s.n = n1 + n2; s.chunk = 300;
      s.rule = mc::fmt("all programs of length 1 (%zu operations) and 2 (%zu operations): Jacobians and Hessians at the recording point and with the reused pattern at two others", A1.size(), A2.size());
      auto dec = [=](uint64_t k) { return k < n1 ? dsl::prog(A1, 1, k) : dsl::prog(A2, 2, k - n1); };
      s.describe = [=](uint64_t k) { return dsl::str(dec(k)); };
      s.run = [=](uint64_t k) { checkProgram(dec(k)); };
      spaces.push_back(s);
    }
    {
      const int L = mc::thorough ? 4 : 3;
      auto dec = [=](uint64_t k) { std::vector<int> h; for (int i = 0; i < L; i++) { h.push_back(int(k % (2 * NEV))); k /= 2 * NEV; } return h; };
      mc::Space s;
      s.name = "histories";
      s.n = mc::ipow(2 * NEV, unsigned(L)); s.chunk = 200;
      s.rule = mc::fmt("all histories of %d driver calls out of %d (build, reuse, patterns, dense, retaping with another structure) on two traces", L, int(NEV));
      s.describe = [=](uint64_t k) { std::string t; for (int e : dec(k)) t += mc::fmt("%d:%s ", e / NEV, evN[e % NEV]); return t; };
      // own traces per history: a fresh trace has no cache
      s.run = [=](uint64_t k) { freshTape(4096); const short a = freshTape(4096); (void)a; runHistory(dec(k), short(a - 1)); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
