// C28: the array helpers give every element a place of its own.
#include "mc.h"
#include <adolc/adalloc.h>
#include <adolc/fortutils.h>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>
#include <vector>
using mc::fail;
using mc::fmt;
static int cNull;

// An array obtained from a helper: its elements in row order, how to free it.
struct Arr {
  enum K { D1, D2, D3, I2, U1, L1, L2, O1, O2, O3, NK } k;
  size_t m, n, p;
  void *q = nullptr;
  uint64_t base = 0; // values written last
  size_t len() const { return m * n * p; }
  std::string str() const {
    static const char *N[] = {"myalloc1", "myalloc2", "myalloc3", "myallocI2", "myalloc1_uint", "myalloc1_ulong", "myalloc2_ulong", "myalloc(1)", "myalloc(2)", "myalloc(3)"};
    return fmt("%s %zux%zux%zu", N[k], m, n, p);
  }
  void get() {
    switch (k) {
    case D1: q = myalloc1(m); break;
    case D2: q = myalloc2(m, n); break;
    case D3: q = myalloc3(m, n, p); break;
    case I2: q = myallocI2(m); break;
    case U1: q = myalloc1_uint(m); break;
    case L1: q = myalloc1_ulong(m); break;
    case L2: q = myalloc2_ulong(m, n); break;
    case O1: q = myalloc(m); break;
    case O2: q = myalloc(m, n); break;
    case O3: q = myalloc(m, n, p); break;
    case NK: break;
    }
  }
  void drop() {
    switch (k) {
    case D1: myfree1(static_cast<double *>(q)); break;
    case D2: myfree2(static_cast<double **>(q)); break;
    case D3: myfree3(static_cast<double ***>(q)); break;
    case I2: myfreeI2(m, static_cast<double **>(q)); break;
    case U1: myfree1_uint(static_cast<unsigned int *>(q)); break;
    case L1: myfree1_ulong(static_cast<size_t *>(q)); break;
    case L2: myfree2_ulong(static_cast<size_t **>(q)); break;
    case O1: myfree(static_cast<double *>(q)); break;
    case O2: myfree(static_cast<double **>(q)); break;
    case O3: myfree(static_cast<double ***>(q)); break;
    case NK: break;
    }
    q = nullptr;
  }
  // visits element (i, j, l) with its address
  template <class F> void each(F f) const {
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t l = 0; l < p; l++)
      switch (k) {
      case D1: case O1: f(static_cast<double *>(q)[i], i, j, l); break;
      case D2: case O2: f(static_cast<double **>(q)[i][j], i, j, l); break;
      case D3: case O3: f(static_cast<double ***>(q)[i][j][l], i, j, l); break;
      case I2: f(static_cast<double **>(q)[i][j], i, j, l); break;
      case U1: f(static_cast<unsigned int *>(q)[i], i, j, l); break;
      case L1: f(static_cast<size_t *>(q)[i], i, j, l); break;
      case L2: f(static_cast<size_t **>(q)[i][j], i, j, l); break;
      case NK: break;
      }
  }
  void write(uint64_t b) {
    if (k == I2) return;
    base = b;
    uint64_t e = b;
    each([&](auto &x, size_t, size_t, size_t) { x = static_cast<std::remove_reference_t<decltype(x)>>(e++); });
  }
  void check() const {
    mc::checked();
    uint64_t e = base;
    each([&](auto &x, size_t i, size_t j, size_t l) {
      const uint64_t want = k == I2 ? (i == j) : e++;
      if (!(double(x) == double(want))) fail("value", "%s: element [%zu][%zu][%zu] is %g instead of %g", str().c_str(), i, j, l, double(x), double(want));
    });
  }
  // contiguous in the order of the indices
  void layout() const {
    if (k == I2) return;
    const char *first = nullptr;
    size_t at = 0;
    each([&](auto &x, size_t i, size_t j, size_t l) {
      const char *a = reinterpret_cast<const char *>(&x);
      if (!first) first = a;
      if (a != first + at * sizeof(x)) fail("layout", "%s: element [%zu][%zu][%zu] is %td bytes after the first instead of %zu", str().c_str(), i, j, l, a - first, at * sizeof(x));
      at++;
    });
  }
};
static bool dims(Arr &a, size_t m, size_t n, size_t p) { // one-dimensional kinds only with n = p = 1
  const bool one = a.k == Arr::D1 || a.k == Arr::U1 || a.k == Arr::L1 || a.k == Arr::O1 || a.k == Arr::I2;
  const bool three = a.k == Arr::D3 || a.k == Arr::O3;
  if ((one && n != 1) || (!three && p != 1)) return false;
  a.m = m; a.n = a.k == Arr::I2 ? m : n; a.p = p;
  return true;
}
static void shape(Arr::K k, size_t m, size_t n, size_t p) {
  Arr a{k, 0, 0, 0};
  if (!dims(a, m, n, p)) { mc::trivial(); return; }
  a.get();
  a.layout();
  a.write(17);
  a.check();
  Arr b = a; // a second one of the same shape while the first lives
  b.get();
  b.write(5000000);
  b.check(); a.check();
  a.drop();
  b.check();
  b.drop();
  mc::transition(4);
  mc::state(mc::hmix(uint64_t(k), mc::hmix(m, mc::hmix(n, p))));
  mc::trace();
}
static void empty(Arr::K k, size_t m, size_t n, size_t p) {
  Arr a{k, m, n, p};
  a.get();
  if (a.q) fail("empty", "%s is not null", a.str().c_str());
  a.drop();
  mc::count(cNull);
  mc::trace();
}
// ---- histories
struct Hc { int what; Arr::K k; size_t m, n, p; }; // what: 0 get, 1 free oldest, 2 free newest, 3 free middle, 4 write all
static const Hc HC[] = {{0, Arr::D1, 5, 1, 1}, {0, Arr::D2, 2, 3, 1}, {0, Arr::D2, 4, 1, 1}, {0, Arr::D3, 2, 2, 3}, {0, Arr::I2, 3, 1, 1}, {0, Arr::I2, 1, 1, 1}, {0, Arr::U1, 3, 1, 1}, {0, Arr::L2, 2, 2, 1}, {0, Arr::O3, 1, 3, 2},
  {1, Arr::D1, 0, 0, 0}, {2, Arr::D1, 0, 0, 0}, {3, Arr::D1, 0, 0, 0}, {4, Arr::D1, 0, 0, 0}};
enum { NHC = sizeof(HC) / sizeof(*HC) };
static std::string hstr(const Hc &h) { if (h.what) return h.what == 1 ? "free oldest" : h.what == 2 ? "free newest" : h.what == 3 ? "free middle" : "write"; Arr a{h.k, 0, 0, 0}; dims(a, h.m, h.n, h.p); return a.str(); }
static void history(uint64_t k, unsigned depth) {
  std::vector<Arr> L;
  uint64_t val = 1000;
  auto all = [&] { for (auto &a : L) a.check(); };
  for (unsigned i = 0; i < depth; i++, k /= NHC) {
    const Hc &h = HC[k % NHC];
    mc::transition();
    if (h.what && L.empty()) { mc::trivial(); break; }
    switch (h.what) {
    case 0: { Arr a{h.k, 0, 0, 0}; dims(a, h.m, h.n, h.p); a.get(); a.layout(); a.write(val += 1000); L.push_back(a); break; }
    case 4: for (auto &a : L) a.write(val += 1000); break;
    default: { const size_t w = h.what == 1 ? 0 : h.what == 2 ? L.size() - 1 : L.size() / 2; L[w].drop(); L.erase(L.begin() + long(w)); }
    }
    all();
    uint64_t s = 3;
    for (auto &a : L) s = mc::hmix(s, mc::hmix(uint64_t(a.k), a.len()));
    mc::state(s);
  }
  for (auto &a : L) a.drop();
  mc::trace();
}
// ---- pointer structures laid into memory of the caller
static void populate(int kind, size_t n, size_t m, size_t p) {
  const size_t ptr = kind == 0 ? n * sizeof(double *) : n * sizeof(double **) + n * m * sizeof(double *), data = kind == 0 ? n * m * sizeof(double) : kind == 1 ? n * m * p * sizeof(double) : 0;
  std::unique_ptr<char[]> mem(new char[ptr + data + 16]);
  std::memset(mem.get(), 90, ptr + data + 16);
  char *end;
  if (kind == 0) {
    double **q = nullptr;
    end = populate_dpp(&q, mem.get(), n, m);
    double e = 0;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) q[i][j] = e++;
    e = 0;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) if (q[i][j] != e++) fail("shared", "populate_dpp: two elements share a place");
  } else if (kind == 1) {
    double ***q = nullptr;
    end = populate_dppp(&q, mem.get(), n, m, p);
    double e = 0;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t l = 0; l < p; l++) q[i][j][l] = e++;
    e = 0;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) for (size_t l = 0; l < p; l++) if (q[i][j][l] != e++) fail("shared", "populate_dppp: two elements share a place");
  } else {
    double ***q = nullptr;
    end = populate_dppp_nodata(&q, mem.get(), n, m);
    std::vector<double> d(n * m);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) q[i][j] = &d[i * m + j];
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) if (q[i][j] != &d[i * m + j]) fail("shared", "populate_dppp_nodata: two elements share a place");
  }
  if (end != mem.get() + ptr + data) fail("end", "kind %d, %zux%zux%zu: the end is %td instead of %zu bytes after the beginning", kind, n, m, p, end - mem.get(), ptr + data);
  for (size_t i = 0; i < 16; i++) if (mem[ptr + data + i] != 90) fail("beyond", "kind %d, %zux%zux%zu: memory behind the structure was written", kind, n, m, p);
  mc::checked();
  mc::transition();
  mc::state(mc::hmix(uint64_t(kind), mc::hmix(n, mc::hmix(m, p))));
  mc::trace();
}
// ---- arrays of Fortran: the first index varies fastest
static void fortran(int m, int n, int p) {
  const size_t M = size_t(m), N = size_t(n), P = size_t(p), T = M * N * P;
  std::vector<fdouble> f(T + 2, 0), g(T + 2, -7);
  for (size_t i = 0; i < T; i++) f[i + 1] = double(i) + 0.5;
  double *x1 = myalloc1(M), **x2 = myalloc2(M, N), ***x3 = myalloc3(M, N, P);
  auto back = [&](const char *w, size_t len) {
    for (size_t i = 0; i < len; i++) if (g[i + 1] != f[i + 1]) fail("pack", "%s: element %zu is %g instead of %g", w, i, g[i + 1], f[i + 1]);
    if (g[0] != -7 || g[len + 1] != -7) fail("beyond", "%s writes outside of the array", w);
    std::fill(g.begin(), g.end(), -7);
    mc::checked(len);
  };
  if (n == 1 && p == 1) {
    spread1(m, &f[1], x1);
    for (size_t i = 0; i < M; i++) if (x1[i] != f[i + 1]) fail("spread", "spread1: element %zu", i);
    pack1(m, x1, &g[1]);
    back("pack1", M);
  }
  if (p == 1) {
    spread2(m, n, &f[1], x2);
    for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) if (x2[i][j] != f[1 + i + M * j]) fail("spread", "spread2(%d,%d): element [%zu][%zu] is %g", m, n, i, j, x2[i][j]);
    pack2(m, n, x2, &g[1]);
    back("pack2", M * N);
  }
  spread3(m, n, p, &f[1], x3);
  for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) for (size_t l = 0; l < P; l++) if (x3[i][j][l] != f[1 + i + M * (j + N * l)]) fail("spread", "spread3(%d,%d,%d): element [%zu][%zu][%zu] is %g", m, n, p, i, j, l, x3[i][j][l]);
  pack3(m, n, p, x3, &g[1]);
  back("pack3", T);
  myfree1(x1); myfree2(x2); myfree3(x3);
  mc::transition(2);
  mc::state(mc::hmix(99, mc::hmix(M, mc::hmix(N, P))));
  mc::trace();
}
struct R : mc::Runner {
  template <class F> void add(const char *name, std::vector<uint64_t> rad, uint64_t chunk, std::string rule, F f, const char *pat) {
    uint64_t n = 1;
    for (auto r : rad) n *= r;
    mc::Space s;
    s.name = name; s.n = n; s.chunk = chunk; s.rule = rule;
    auto dec = [rad](uint64_t k) { std::vector<size_t> v; for (auto r : rad) { v.push_back(size_t(k % r)); k /= r; } while (v.size() < 4) v.push_back(0); return v; };
    s.run = [=](uint64_t k) { auto v = dec(k); f(v[0], v[1], v[2], v[3]); };
    s.describe = [=](uint64_t k) { auto v = dec(k); return fmt(pat, int(v[0]), int(v[1]), int(v[2]), int(v[3])); };
    spaces.push_back(s);
  }
  void setup() override {
    cNull = mc::counter("arrays_without_elements");
    static const size_t D[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65};
    const uint64_t nd = mc::thorough ? 13 : 10;
    add("shapes", {Arr::NK, nd, nd, nd}, 500, "all kinds of arrays x numbers of rows, columns and layers up to 33 (65): contiguous in the order of the indices, every element a place of its own, two at once, freed in either order",
        [](size_t k, size_t m, size_t n, size_t p) { shape(Arr::K(k), D[m], D[n], D[p]); }, "kind %d, sizes #%d #%d #%d");
    add("identity", {70}, 70, "identity arrays of all orders 1..70, with those of the orders before alive", [](size_t n, size_t, size_t, size_t) {
      std::vector<Arr> a;
      for (size_t i = n > 3 ? n - 3 : 0; i <= n; i++) { Arr q{Arr::I2, i + 1, i + 1, 1}; q.get(); a.push_back(q); }
      for (auto &q : a) q.check();
      for (size_t i = 0; i < a.size(); i++) { a[i].drop(); for (size_t j = i + 1; j < a.size(); j++) a[j].check(); }
      mc::transition(a.size()); mc::state(n); mc::trace();
    }, "order %d + 1");
    add("empty", {6, 7}, 42, "arrays with a dimension of zero are null and can be freed", [](size_t k, size_t z, size_t, size_t) {
      static const Arr::K KS[] = {Arr::D1, Arr::D2, Arr::D3, Arr::O1, Arr::O2, Arr::O3};
      const Arr::K kk = KS[k];
      const size_t m = (z + 1) & 1 ? 0 : 2, n = (z + 1) & 2 ? 0 : 3, p = (z + 1) & 4 ? 0 : 2;
      const int d = int(k % 3);
      if ((d == 0 && m) || (d == 1 && m && n) || (d == 2 && m && n && p)) { mc::trivial(); return; }
      empty(kk, m, n, p);
    }, "kind %d, zeros %d");
    const unsigned depth = mc::thorough ? 5 : 4;
    mc::Space h;
    h.name = "histories"; h.n = mc::ipow(NHC, depth); h.chunk = 2000;
    h.rule = fmt("all histories of %u operations (obtain arrays of nine kinds and shapes, free the oldest, newest or middle one, write all): the others keep their values", depth);
    h.run = [=](uint64_t k) { history(k, depth); };
    h.describe = [=](uint64_t k) { std::string s; for (unsigned i = 0; i < depth; i++, k /= NHC) s += (i ? "; " : "") + hstr(HC[k % NHC]); return s; };
    spaces.push_back(h);
    add("populate", {3, 9, 9, 9}, 500, "pointer structures in memory of the caller for all shapes up to 9: elements disjoint, exactly the memory they need", [](size_t k, size_t n, size_t m, size_t p) { if (k != 1 && p) { mc::trivial(); return; } populate(int(k), n + 1, m + 1, p + 1); }, "kind %d, %d %d %d (+1)");
    add("fortran", {9, 9, 9}, 200, "conversion from and to arrays of Fortran for all shapes up to 9", [](size_t m, size_t n, size_t p, size_t) { fortran(int(m) + 1, int(n) + 1, int(p) + 1); }, "%d %d %d (+1)");
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
