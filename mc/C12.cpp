// C12: differentiated fixed-point iterations match the implicit derivative.
#include "dsl.h"
#include "arr.h"
#include <adolc/fixpoint.h>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
using mc::fail;
using arr::M2;
constexpr int NI = 2, MX = 3, MU = 2;
// ---- contractions y = F(x, u)
enum { F_NEWTON, F_COS, F_LIN2, F_NL2, F_CYC3, F_SEL, F_CONST, NF };
static const char *fName[] = {"newton", "cos", "linear2", "nonlinear2", "cyclic3", "select", "x-free"};
static const int fx[] = {1, 1, 2, 2, 3, 1, 2}, fu[] = {1, 2, 2, 2, 1, 2, 1};
template <class T> static void contr(int f, const T *x, const T *u, T *y) {
  using std::cos; using std::sin; using std::exp;
  switch (f) {
  case F_NEWTON: { const T a = 0.5 * (x[0] + u[0] / x[0]); y[0] = a; break; }
  case F_COS: { const T a = 0.5 * cos(x[0] + u[0]) + 0.25 * u[1]; y[0] = a; break; }
  case F_LIN2: { const T a = 0.25 * x[0] - 0.5 * x[1] + u[0], b = 0.375 * x[0] + 0.125 * x[1] - 2.0 * u[1] + 0.5; y[0] = a; y[1] = b; break; }
  case F_NL2: { const T a = 0.25 * sin(x[1]) + u[0] * u[0], b = 0.3 * x[0] * u[1] + 0.1 * x[1]; y[0] = a; y[1] = b; break; }
  case F_CYC3: { const T a = 0.5 * x[1] + u[0], b = 0.375 * sin(x[2]) * u[0], c = 0.25 * x[0] + exp(-x[2]) * 0.125; y[0] = a; y[1] = b; y[2] = c; break; }
  case F_SEL: { const T c = u[0] - 0.55, a = 0.25 * x[0] + u[0] * u[1], b = 0.5 * sin(x[0]) + u[1]; T w; if constexpr (std::is_same_v<T, adouble>) condassign(w, c, a, b); else w = c > 0 ? a : b; const T v = w; y[0] = v; break; }
  case F_CONST: { const T a = u[0] * u[0], b = sin(u[0]); y[0] = a; y[1] = b; break; }
  }
}
template <int F> static int dF(double *x, double *u, double *y, size_t, size_t) { contr<double>(F, x, u, y); return 0; }
template <int F> static int aF(adouble *x, adouble *u, adouble *y, size_t, size_t) { contr<adouble>(F, x, u, y); return 0; }
static const double_F dFs[] = {dF<0>, dF<1>, dF<2>, dF<3>, dF<4>, dF<5>, dF<6>};
static const adouble_F aFs[] = {aF<0>, aF<1>, aF<2>, aF<3>, aF<4>, aF<5>, aF<6>};
static double norm2(double *x, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += x[i] * x[i]; return std::sqrt(s); }
static double normInf(double *x, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s = std::max(s, std::fabs(x[i])); return s; }

struct Block { int f, x0; }; // x0: 0 constant start, 1 start depends on the arguments, 2 start depends on the previous state, 3 the fixed point of the recording itself
static double FIXP[2][3];
struct Cfg {
  std::vector<Block> b;
  int shape; // bit 0: parameters are nonlinear in the arguments; bit 1: arguments and parameters used again afterwards; bit 2: result variable used before
  bool sameSub, keepRec, inf;
  double eps;
  int nmax;
};
static std::string str(const Cfg &c) {
  std::string r;
  for (auto &b : c.b) r += mc::fmt("%s(start %d); ", fName[b.f], b.x0);
  return r + mc::fmt("shape %d%s%s%s eps %g N %d", c.shape, c.sameSub ? ", one sub trace" : "", c.keepRec ? ", kept" : "", c.inf ? ", max norm" : "", c.eps, c.nmax);
}
static const double PT[2][NI] = {{0.8, 0.4}, {0.45, 0.9}};
// parameters of block k from arguments and the first component of the previous result
template <class T> static void params(const Cfg &c, size_t k, const T *z, const T &prev, T *u) {
  using std::sin;
  for (int i = 0; i < MU; i++) {
    if (c.shape & 1) { const T e = 0.3 + 0.5 * z[i] * z[1 - i] + 0.125 * sin(z[i]); u[i] = e; }
    else u[i] = z[i];
    if (k) { const T e = u[i] + 0.0625 * prev; u[i] = e; }
  }
}
template <class T> static T start0(const Block &b, const T *z, const T &prev, int i, size_t k) {
  if (b.x0 == 3) return T(FIXP[k][i]);
  if (b.x0 == 1) return 0.5 + 0.25 * z[0] * z[1] + 0.125 * double(i);
  if (b.x0 == 2) return 0.75 + 0.0625 * prev;
  return T(1.0 + 0.25 * i);
}
typedef ref::Dual<NI> D;
template <class T> static void after(const Cfg &c, const Block &b, const T *z, const T *u, const T *x, T &acc) {
  using std::exp;
  for (int i = 0; i < fx[b.f]; i++) { const T e = acc + x[i] * x[0] * (0.5 + 0.25 * i); acc = e; }
  if (c.shape & 2) { const T e = acc + u[0] * x[fx[b.f] - 1] * z[1]; acc = e; }
}
static void refProg(const Cfg &c, const D *z, D *y, bool fix) {
  D acc = D(0.0), prev = D(0.0), u[MU], x[MX], n[MX];
  for (size_t k = 0; k < c.b.size(); k++) {
    params<D>(c, k, z, prev, u);
    for (int i = 0; i < fx[c.b[k].f]; i++) x[i] = D(1.0);
    for (int it = 0; it < 400; it++) { contr<D>(c.b[k].f, x, u, n); for (int i = 0; i < fx[c.b[k].f]; i++) x[i] = n[i]; }
    if (fix) for (int i = 0; i < fx[c.b[k].f]; i++) FIXP[k][i] = x[i].v;
    after<D>(c, c.b[k], z, u, x, acc);
    prev = x[0];
  }
  y[0] = acc;
  y[1] = prev * z[0];
}
// iterations the library needs at this point: does every block reach the tolerance within nmax?
static bool converges(const Cfg &c, const double *z) {
  double prev = 0, u[MU], x[MX], n[MX], e[MX];
  for (size_t k = 0; k < c.b.size(); k++) {
    params<double>(c, k, z, prev, u);
    const int d = fx[c.b[k].f];
    for (int i = 0; i < d; i++) n[i] = start0<double>(c.b[k], z, prev, i, k);
    bool ok = false;
    for (int it = 0; it < c.nmax && !ok; it++) {
      for (int i = 0; i < d; i++) x[i] = n[i];
      contr<double>(c.b[k].f, x, u, n);
      for (int i = 0; i < d; i++) e[i] = n[i] - x[i];
      ok = (c.inf ? normInf(e, size_t(d)) : norm2(e, size_t(d))) < c.eps;
    }
    if (!ok) return false;
    prev = n[0];
  }
  return true;
}
static short tape = -1, sub[2];
static uint64_t seen;
enum { E_Z0, E_Z1, E_N1, E_F0, E_f1, E_R, NE };
static const char *evName[] = {"zos(keep)@0", "zos(keep)@1", "zos@1", "fos(keep)@0", "fos@1", "fos_reverse"};
static int cNo;
// a recorded trace and what its sweeps must return
struct Host {
  Cfg c;
  short t;
  short sub[2];
  D R[2][2];
  double sc = 1, y[2];
  bool conv[2];
  int kept, l = 0;
void record(const Cfg &cc) {
  c = cc;
  for (int q = 0; q < 2; q++) {
    D z[NI];
    for (int i = 0; i < NI; i++) { z[i] = D(PT[q][i]); z[i].g[i] = 1; }
    refProg(c, z, R[q], q == 0);
    conv[q] = converges(c, PT[q]);
    if (!conv[q]) mc::count(cNo);
  }
  bool allOk = true;
  setCurrentTape(t);
  currentTape().ensureContiguousLocations(64);
  trace_on(t, c.keepRec);
  {
    adouble z[NI], prev = 0.0, acc = 0.0;
    for (int i = 0; i < NI; i++) z[i] <<= PT[0][i];
    for (size_t k = 0; k < c.b.size(); k++) {
      const Block &b = c.b[k];
      adouble *u = new adouble[MU], *x0 = new adouble[MX];
      currentTape().ensureContiguousLocations(MX);
      adouble *x = new adouble[MX];
      params<adouble>(c, k, z, prev, u);
      for (int i = 0; i < fx[b.f]; i++) {
        const adouble e = start0<adouble>(b, z, prev, i, k);
        x0[i] = e;
        if (c.shape & 4) { const adouble g = sin(z[0]) * (i + 1.0); x[i] = g; const adouble a = acc + 0.0 * x[i] * x[i]; acc = a; }
      }
      const int r = fp_iteration(t, c.sameSub ? sub[0] : sub[k], dFs[b.f], aFs[b.f], c.inf ? normInf : norm2, c.inf ? normInf : norm2, c.eps, c.eps, size_t(c.nmax), 400, x0, u, x, size_t(fx[b.f]), size_t(fu[b.f]));
      if (r < 0) allOk = false;
      after<adouble>(c, b, z, u, x, acc);
      const adouble e = x[0];
      prev = e;
      delete[] u; delete[] x0; delete[] x;
    }
    acc >>= y[0];
    adouble l = prev * z[0];
    l >>= y[1];
  }
  trace_off();
  mc::trace();
  if (allOk != conv[0]) fail("record-convergence", "fp_iteration reports %s, the iteration %s", allOk ? "convergence" : "none", conv[0] ? "converges" : "does not converge");
  kept = c.keepRec ? 0 : -1;
  if (conv[0]) val("record", 0);
}
void val(const char *w, int q) {
  const double tv = std::max(1e-9, 40 * c.eps);
  for (int j = 0; j < 2; j++) mc::expectNear(w, y[j], R[q][j].v, tv, sc, "%s: y[%d]", w, j);
}
void event(int e) {
    const double td = std::max(1e-8, 200 * c.eps);
    double x[NI], X[NI] = {0.75, -1.25}, Y[2], W[2][2] = {{1, -0.5}, {0.25, 1}}, z[NI];
    const int q = e == E_Z1 || e == E_N1 || e == E_f1;
    x[0] = PT[q][0]; x[1] = PT[q][1];
    switch (e) {
    case E_Z0: case E_Z1: case E_N1: {
      const int rc = zos_forward(t, 2, NI, e != E_N1, x, y);
      if ((rc >= 0) != conv[q]) fail("rc", "%s returned %d, the iteration %s", evName[e], rc, conv[q] ? "converges" : "does not converge");
      if (conv[q]) val(evName[e], q);
      if (e != E_N1) kept = q;
      break; }
    case E_F0: case E_f1: {
      const int rc = fos_forward(t, 2, NI, e == E_F0, x, X, y, Y);
      if (rc < 0 && c.nmax > 50) fail("rc", "%s returned %d", evName[e], rc);
      if (rc >= 0) {
        val(evName[e], q);
        for (int j = 0; j < 2; j++) mc::expectNear(evName[e], Y[j], R[q][j].g[0] * X[0] + R[q][j].g[1] * X[1], td, sc * 4, "%s: Y[%d]", evName[e], j);
      }
      if (e == E_F0) kept = rc >= 0 ? q : -2;
      break; }
    case E_R:
      if (kept >= 0) {
        l ^= 1;
        const int rc = fos_reverse(t, 2, NI, W[l], z);
        if (conv[kept]) {
          if (rc < 0) fail("rc", "fos_reverse returned %d", rc);
          for (int i = 0; i < NI; i++) mc::expectNear("fos_reverse", z[i], W[l][0] * R[kept][0].g[i] + W[l][1] * R[kept][1].g[i], td, sc * 4, "z[%d]", i);
        }
      }
      break;
    }
    mc::transition(1);
}
void state(uint64_t more) const {
  uint64_t h = uint64_t(c.shape * 8 + c.sameSub * 4 + c.keepRec * 2 + c.inf) * 100 + uint64_t(c.nmax);
  for (auto &b : c.b) h = mc::hmix(h, uint64_t(b.f * 4 + b.x0));
  h = mc::hmix(h, uint64_t(kept + 3));
  mc::state(mc::hmix(h, more));
}
};
static void exec(const Cfg &c, const std::vector<int> &hist) {
  if (tape < 0 || seen > 300) { seen = 0; tape = dsl::freshTape(); for (auto &s : sub) s = createNewTape(); }
  seen++;
  Host H;
  H.t = tape;
  for (int i = 0; i < 2; i++) H.sub[i] = sub[i];
  H.record(c);
  for (int e : hist) H.event(e);
  H.state(0);
}
// two traces, each with its own iteration
struct TwoEv { int w, e; }; // e == NE: record again, with the other contraction
static void two(const Cfg *c, const std::vector<TwoEv> &hist) {
  static short id[6];
  static uint64_t n = 1000;
  if (n++ > 300) { n = 0; id[0] = dsl::freshTape(); for (int i = 1; i < 6; i++) id[i] = createNewTape(); }
  try {
    Host H[2];
    for (int w = 0; w < 2; w++) {
      H[w].t = id[w];
      for (int i = 0; i < 2; i++) H[w].sub[i] = id[2 + 2 * w + i];
      H[w].record(c[w]);
    }
    for (auto &h : hist) if (h.e < NE) H[h.w].event(h.e); else { Cfg q = H[h.w].c; for (auto &b : q.b) b.f = b.f == c[0].b[0].f ? c[1].b[0].f : c[0].b[0].f; H[h.w].record(q); }
    for (int w = 0; w < 2; w++) { H[w].event(E_R); H[w].event(E_f1); H[w].state(1 + uint64_t(w)); }
  } catch (...) { n = 1000; throw; }
}
struct R : mc::Runner {
  void setup() override {
    cNo = mc::counter("points_where_the_iteration_limit_is_reached");
    const int L = mc::thorough ? 4 : 3;
    uint64_t nh = 0;
    for (int l = 1; l <= L; l++) nh += mc::ipow(NE, unsigned(l));
    auto history = [](uint64_t r) {
      unsigned l = 1;
      while (r >= mc::ipow(NE, l)) r -= mc::ipow(NE, l++);
      std::vector<int> h;
      for (unsigned i = 0; i < l; i++, r /= NE) h.push_back(int(r % NE));
      return h;
    };
    auto hstr = [](const std::vector<int> &h) { std::string r; for (int e : h) r += mc::fmt(" %s", evName[e]); return r; };
    {
      auto dec = [=](uint64_t k, std::vector<int> &h) {
        mc::Dec d(k);
        Cfg c;
        Block b;
        b.f = int(d(NF)); b.x0 = int(d(3)); if (b.x0 == 2) b.x0 = 3;
        const uint64_t rest = d(nh);
        h = history(rest);
        c.b = {b};
        c.keepRec = d(2); c.shape = d(2) ? 7 : 0; c.inf = false; c.sameSub = false;
        c.eps = 1e-11; c.nmax = 200;
        return c;
      };
      mc::Space s;
      s.name = "histories";
      s.n = uint64_t(NF) * 3 * nh * 2 * 2;
      s.chunk = 100; s.cpu_s = 60;
      s.rule = mc::fmt("all histories of up to %d sweeps out of %d x %d contractions x start value constant/dependent on the arguments/the fixed point itself x surrounding program x recorded with/without keep", L, int(NE), int(NF));
      s.describe = [=](uint64_t k) { std::vector<int> h; Cfg c = dec(k, h); return str(c) + hstr(h); };
      s.run = [=](uint64_t k) { std::vector<int> h; Cfg c = dec(k, h); try { exec(c, h); } catch (...) { tape = -1; throw; } };
      spaces.push_back(s);
    }
    const std::vector<std::vector<int>> HS = {{E_R, E_Z1, E_R, E_R}, {E_F0, E_R, E_f1, E_R}, {E_Z1, E_f1, E_R, E_N1, E_R}, {E_Z0, E_Z1, E_R, E_Z0, E_R}};
    {
      auto dec = [=](uint64_t k, std::vector<int> &h) {
        mc::Dec d(k);
        Cfg c;
        for (int i = 0; i < 2; i++) { Block b; b.f = int(d(NF)); b.x0 = int(d(3)); if (i == 0 && b.x0 == 2) b.x0 = 1; c.b.push_back(b); }
        c.sameSub = d(2); c.shape = int(d(8)); c.keepRec = d(2); c.inf = d(2);
        c.eps = 1e-11; c.nmax = 200;
        h = HS[d(uint64_t(HS.size()))];
        return c;
      };
      mc::Space s;
      s.name = "two-blocks";
      s.n = uint64_t(NF * NF) * 9 * 2 * 8 * 2 * 2 * uint64_t(HS.size());
      s.chunk = 200; s.cpu_s = 60;
      s.rule = "all pairs of contractions in one trace, the second fed by the first x start values x program shapes x separate or one sub trace x norms x keep x four histories";
      s.describe = [=](uint64_t k) { std::vector<int> h; Cfg c = dec(k, h); return str(c) + hstr(h); };
      s.run = [=](uint64_t k) { std::vector<int> h; Cfg c = dec(k, h); if ((c.sameSub && c.b[0].f != c.b[1].f) || (!mc::thorough && c.inf != (c.shape == 5))) { mc::trivial(); return; } try { exec(c, h); } catch (...) { tape = -1; throw; } };
      spaces.push_back(s);
    }
    {
      static const int PR[][2] = {{F_COS, F_LIN2}, {F_NL2, F_CYC3}, {F_NEWTON, F_COS}, {F_SEL, F_NL2}};
      const unsigned L2 = mc::thorough ? 4 : 3;
      const uint64_t per = mc::ipow(2 * (NE + 1), L2);
      auto dec = [=](uint64_t k, Cfg *c) {
        mc::Dec d(k);
        std::vector<TwoEv> h;
        for (unsigned i = 0; i < L2; i++) { const int q = int(d(2 * (NE + 1))); h.push_back({q % 2, q / 2}); }
        const int nb = int(d(2)) + 1;
        const uint64_t pr = d(4);
        for (int w = 0; w < 2; w++) {
          c[w].b.clear();
          for (int i = 0; i < nb; i++) c[w].b.push_back({PR[pr][w], w});
          c[w].shape = w ? 7 : 1; c[w].sameSub = false; c[w].keepRec = true; c[w].inf = w; c[w].eps = 1e-11; c[w].nmax = 200;
        }
        return h;
      };
      mc::Space s;
      s.name = "two-traces";
      s.n = per * 2 * 4;
      s.chunk = 200; s.cpu_s = 60;
      s.rule = mc::fmt("all histories of %u sweeps or new recordings over two traces, each with one or two iterations of its own, for four pairs of contractions", L2);
      s.describe = [=](uint64_t k) { Cfg c[2]; auto h = dec(k, c); std::string r = str(c[0]) + " | " + str(c[1]) + ":"; for (auto &q : h) r += mc::fmt(" %s of trace %d;", q.e < NE ? evName[q.e] : "record again", q.w); return r; };
      s.run = [=](uint64_t k) { Cfg c[2]; auto h = dec(k, c); two(c, h); };
      spaces.push_back(s);
    }
    {
      auto dec = [=](uint64_t k, std::vector<int> &h) {
        mc::Dec d(k);
        Cfg c;
        Block b;
        b.f = int(d(NF)); b.x0 = int(d(2));
        c.nmax = 1 + int(d(40));
        static const double E[] = {1e-3, 1e-5, 1e-8, 1e-11};
        c.eps = E[d(4)];
        c.inf = d(2);
        h = HS[d(uint64_t(HS.size()))];
        c.b = {b}; c.keepRec = true; c.shape = 7; c.sameSub = false;
        return c;
      };
      mc::Space s;
      s.name = "limits";
      s.n = uint64_t(NF) * 2 * 40 * 4 * 2 * uint64_t(HS.size());
      s.chunk = 100; s.cpu_s = 60;
      s.rule = "all iteration limits 1..40 x tolerances 1e-3..1e-11 x contractions x norms: exactly the runs that miss the tolerance are reported";
      s.describe = [=](uint64_t k) { std::vector<int> h; Cfg c = dec(k, h); return str(c) + hstr(h); };
      s.run = [=](uint64_t k) { std::vector<int> h; Cfg c = dec(k, h); try { exec(c, h); } catch (...) { tape = -1; throw; } };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
