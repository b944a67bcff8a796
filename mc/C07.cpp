// C07: traces are isolated from each other.
#include "dsl.h"
#include <adolc/checkpointing.h>
#include <adolc/externfcts.h>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
#include <adolc/sparse/sparsedrivers.h>
#include <map>
#include <memory>
#include <set>
#include <thread>
using mc::fail;
typedef std::vector<double> V;
static const double PT[3][2] = {{0.4, 0.7}, {0.9, -0.3}, {-0.25, 1.5}};
static const double WT[2] = {1.0, -0.5}, XD[2] = {0.75, -1.25};
enum { NPROG = 5, NMODE = 4, MAXT = 3 };
static const char *progName[] = {"smooth", "min", "param", "extfct", "checkpoint"};

// external function and time step
static int efun(short, int, int, double *x, double *y) { y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0]; return 3; }
static int stepA(size_t, adouble *s) { adouble t = s[0] + 0.1 * s[1]; s[1] = s[1] - 0.1 * sin(t); s[0] = t; return 0; }
static int stepD(size_t, double *s) { double t = s[0] + 0.1 * s[1]; s[1] = s[1] - 0.1 * std::sin(t); s[0] = t; return 0; }

struct Tr {
  short id, sub;
  adouble *g;
  double gval;
};
static void regExt(short id, ext_diff_fct *&e) {
  e = reg_ext_fct(id, id, ADOLC_ext_fct(efun));
  e->nestedAdolc = 0;
  e->zos_forward = [](short, int, int, int, double *x, double *y) { y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0]; return 3; };
  e->fos_forward = [](short, int, int, int, double *x, double *X, double *y, double *Y) {
    y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0];
    Y[0] = X[0] * x[1] + x[0] * X[1]; Y[1] = std::cos(x[1]) * X[1] + X[0]; return 3; };
  e->fov_forward = [](short, int, int, int p, double *x, double **X, double *y, double **Y) {
    y[0] = x[0] * x[1]; y[1] = std::sin(x[1]) + x[0];
    for (int l = 0; l < p; l++) { Y[0][l] = X[0][l] * x[1] + x[0] * X[1][l]; Y[1][l] = std::cos(x[1]) * X[1][l] + X[0][l]; } return 3; };
  e->fos_reverse = [](short, int, int, double *u, double *z, double *x, double *) {
    z[0] += u[0] * x[1] + u[1]; z[1] += u[0] * x[0] + u[1] * std::cos(x[1]); return 3; };
  e->fov_reverse = [](short, int, int, int q, double **U, double **Z, double *x, double *) {
    for (int l = 0; l < q; l++) { Z[l][0] += U[l][0] * x[1] + U[l][1]; Z[l][1] += U[l][0] * x[0] + U[l][1] * std::cos(x[1]); } return 3; };
}
// the body of a recording; mid() is run in its middle (nested activity)
template <class F> static void recBody(Tr &t, int p, const double *x, double *y, F mid) {
  currentTape().ensureContiguousLocations(4);
  adouble a[4];
  a[0] <<= x[0];
  a[1] <<= x[1];
  { // copies: moving would give up the contiguous locations
    const adouble q = a[0] * 2.0 + a[1], w = a[0] - a[1] * *t.g;
    a[2] = q;
    a[3] = w;
  }
  mid();
  adouble r0, r1;
  switch (p) {
  case 0: r0 = a[2] * a[3] + sin(a[0]); r1 = a[1] * *t.g + exp(a[3]); break;
  case 1: r0 = exp(a[0]) / (a[2] * a[2] + 3.0); r1 = fmin(a[2], a[3]) * a[0]; break;
  case 2: { pdouble q(1.75); r0 = q * a[2] * a[1]; r1 = a[3] / q + a[0]; break; }
  case 3: {
    ext_diff_fct *e;
    regExt(t.id, e);
    adouble *in = a + 2, *out = a;
    call_ext_fct(e, 2, in, 2, out);
    r0 = a[0] * a[1]; r1 = a[1] + a[2];
    break;
  }
  case 4: {
    ADOLC::CP::Context c(t.id, t.sub, stepA);
    c.setDoubleFct(stepD);
    c.setNumberOfSteps(4);
    c.setNumberOfCheckpoints(2);
    c.setDimensionXY(2);
    c.setInput(a + 2);
    c.setOutput(a + 2);
    c.setAlwaysRetaping(false);
    c.checkpointing(t.id);
    r0 = a[2] * a[0]; r1 = a[3] + a[1] * a[2];
    break;
  }
  }
  r0 >>= y[0];
  r1 >>= y[1];
}
template <class F> static V recordT(Tr &t, int p, const double *x, int keep, F mid) {
  V y(2);
  trace_on(t.id, keep);
  recBody(t, p, x, y.data(), mid);
  trace_off();
  return y;
}
static bool supports(int p, int mode) { return p < 3 || mode < 2; }
static V rev(short id) {
  V z(2), o;
  double u[2] = {WT[0], WT[1]};
  int rc = fos_reverse(id, 2, 2, u, z.data());
  o = z;
  o.push_back(rc);
  return o;
}
static V evalM(short id, int p, int mode, const double *x) {
  V o;
  double y[2], yd[2];
  double X2[2] = {x[0], x[1]};
  auto put = [&](const double *q, int k) { o.insert(o.end(), q, q + k); };
  if (!supports(p, mode)) return o;
  switch (mode) {
  case 0: {
    o.push_back(fos_forward(id, 2, 2, 0, x, XD, y, yd)); put(y, 2); put(yd, 2);
    o.push_back(zos_forward(id, 2, 2, 1, x, y)); put(y, 2);
    V r = rev(id); put(r.data(), 3);
    break;
  }
  case 1: {
    double j[4]; double *J[2] = {j, j + 2};
    o.push_back(function(id, 2, 2, X2, y)); put(y, 2);
    o.push_back(jacobian(id, 2, 2, X2, J)); put(j, 4);
    break;
  }
  case 2: {
    double a[4] = {1, 0.5, -0.5, 0.25}, b[4]; double *A[2] = {a, a + 2}, *B[2] = {b, b + 2};
    o.push_back(hos_forward(id, 2, 2, 2, 3, X2, A, y, B)); put(y, 2); put(b, 4);
    double z[6]; double *Z[2] = {z, z + 3};
    double u[2] = {WT[0], WT[1]};
    o.push_back(hos_reverse(id, 2, 2, 2, u, Z)); put(z, 6);
    break;
  }
  case 3: {
    using namespace ADOLC::Sparse;
    std::vector<uint *> P(2), H(2);
    std::span<uint *> sp(P);
    o.push_back(jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Safe, BitPatternPropagationDirection::Auto>(id, 2, 2, X2, sp));
    for (auto q : P) { for (uint i = 0; i <= q[0]; i++) o.push_back(q[i]); delete[] q; }
    break;
  }
  }
  return o;
}
// baselines, computed before any history on dedicated traces
struct Base { V y; std::map<int, V> ev; V kept; };
static std::map<int, Base> base;
static Tr T[MAXT], B0;
static bool ready = false;
static int bkey(int t, int p, int pt, int keep) { return ((t * NPROG + p) * 3 + pt) * 2 + keep; }
static void mk(Tr &t, double g) {
  t.id = createNewTape();
  t.sub = createNewTape();
  setCurrentTape(t.id);
  t.g = new adouble(g);
  t.gval = g;
}
static void prepare() {
  if (ready) return;
  ready = true;
  dsl::adolcrc(256, 256, 256, 1024);
  for (int t = 0; t < MAXT; t++)
    for (int p = 0; p < NPROG; p++)
      for (int pt = 0; pt < 2; pt++)
        for (int k = 0; k < 2; k++) {
          Tr q;
          mk(q, 2.0 + t); // alone on its own trace
          Base b;
          b.y = recordT(q, p, PT[pt], k, [] {});
          if (k) b.kept = rev(q.id);
          for (int m = 0; m < NMODE; m++)
            for (int e = 0; e < 3; e++) b.ev[m * 3 + e] = evalM(q.id, p, m, PT[e]);
          base[bkey(t, p, pt, k)] = b;
          setCurrentTape(q.id);
          delete q.g;
        }
  for (int t = 0; t < MAXT; t++) mk(T[t], 2.0 + t);
  setCurrentTape(T[0].id);
}
static void same(const char *what, int t, const V &want, const V &got) {
  mc::checked();
  if (want.size() != got.size()) fail(what, "trace %d: %zu results instead of %zu", t, got.size(), want.size());
  for (size_t i = 0; i < want.size(); i++)
    if (!mc::close(got[i], want[i], 1e-12)) fail(what, "trace %d result %zu: %.17g, alone %.17g", t, i, got[i], want[i]);
}
// ------------------------------------------------------------- the histories
struct Cmd { enum K { R, N, E, F, VV, M, SW, NEW } k; int t, u, p, keep; };
static const int RPT[] = {0, 1};
struct St { int p, pt, keep; int kept; }; // kept: -1 none, 0..2 evaluation point, 10 recording
struct World {
  St s[MAXT];
  int cur = 0;
  int n;
  const Base &b(int t) { return base[bkey(t, s[t].p, s[t].pt, s[t].keep)]; }
  void chkCur() { if (currentTapePtr() != &findTape(T[cur].id)) fail("current-tape", "current trace is not the one selected last"); }
  void rec(int t, int p, int pt, int keep) {
    V y = recordT(T[t], p, PT[pt], keep, [] {});
    s[t] = {p, pt, keep, keep ? 10 : -1};
    same("recording", t, b(t).y, y);
  }
  void evalOne(int t, int m, int e) {
    if (!supports(s[t].p, m)) return;
    same(m == 0 ? "first-order" : m == 1 ? "drivers" : m == 2 ? "higher-order" : "pattern", t, b(t).ev.at(m * 3 + e), evalM(T[t].id, s[t].p, m, PT[e]));
    s[t].kept = -1;
    if (m == 0 && s[t].p != 4) s[t].kept = e;
  }
  void revOne(int t) {
    if (s[t].kept < 0) return;
    V want;
    if (s[t].kept == 10) want = b(t).kept;
    else { const V &q = b(t).ev.at(s[t].kept); want.assign(q.end() - 3, q.end()); }
    same("reverse-of-kept", t, want, rev(T[t].id));
    if (s[t].p == 4) s[t].kept = -1;
  }
  void persist() {
    int c = cur;
    for (int t = 0; t < n; t++) {
      setCurrentTape(T[t].id);
      if (T[t].g->value() != T[t].gval) fail("variable", "variable living on trace %d changed from %g to %g", t, T[t].gval, T[t].g->value());
      if (findTape(T[t].id).numLives() != 1) fail("lives", "trace %d has %zu live variables instead of 1", t, findTape(T[t].id).numLives());
    }
    setCurrentTape(T[c].id);
  }
  void cmd(const Cmd &c, int i) {
    int pt = i % 2;
    mc::transition();
    switch (c.k) {
    case Cmd::R: rec(c.t, c.p, pt, c.keep); break;
    case Cmd::N: { // record c.u and, in the middle of it, c.t
      V y = recordT(T[c.u], 0, PT[pt], 1, [&] {
        if (currentTapePtr() != &findTape(T[c.u].id)) fail("current-tape", "the trace being recorded is not current");
        rec(c.t, c.p, 1 - pt, 1);
        if (currentTapePtr() != &findTape(T[c.u].id)) fail("current-tape", "the outer recording is not resumed");
      });
      s[c.u] = {0, pt, 1, 10};
      same("recording", c.u, b(c.u).y, y);
      break;
    }
    case Cmd::E: { // evaluate c.t in the middle of a recording of c.u
      V y = recordT(T[c.u], c.p, PT[pt], 1, [&] {
        int save = cur; cur = c.u;
        evalOne(c.t, 0, 2);
        if (c.keep) { revOne(c.t); evalOne(c.t, 1, 1); evalOne(c.t, 2, 1); evalOne(c.t, 3, 1); }
        else newTape();
        chkCur();
        cur = save;
      });
      s[c.u] = {c.p, pt, 1, 10};
      same("recording", c.u, b(c.u).y, y);
      break;
    }
    case Cmd::F: { double y[2]; int rc = zos_forward(T[c.t].id, 2, 2, 1, PT[2], y); s[c.t].kept = 2; const V &q = b(c.t).ev.at(2); same("forward", c.t, V{q[5], q[6], q[7]}, V{double(rc), y[0], y[1]}); break; }
    case Cmd::VV: revOne(c.t); break;
    case Cmd::M: evalOne(c.t, c.p, pt); break;
    case Cmd::SW: {
      setCurrentTape(T[c.t].id);
      cur = c.t;
      adouble q = *T[c.t].g * 3.0 + 1.0;
      adouble r = sin(q) - *T[c.t].g;
      if (r.value() != std::sin(T[c.t].gval * 3.0 + 1.0) - T[c.t].gval) fail("passive", "arithmetic outside a recording gives %.17g", r.value());
      break;
    }
    case Cmd::NEW: newTape(); break;
    }
    chkCur();
    persist();
  }
  void newTape() {
    static int made = 0;
    if (made++ > 4000) return; // identifiers are limited
    std::vector<short> before, after;
    cachedTraceTags(before);
    short id = createNewTape();
    std::set<short> all(before.begin(), before.end());
    if (all.count(id)) fail("identifier", "identifier %d given out twice", id);
    cachedTraceTags(after);
    if (after.size() != before.size() + 1) fail("identifier", "%zu traces known after creating one, %zu before", after.size(), before.size());
    if (!findTape(id).tapestats(TapeInfos::NUM_OPERATIONS) == 0 && false) fail("fresh", "fresh trace is not empty");
  }
};
static std::vector<Cmd> alpha(int n, bool full) {
  std::vector<Cmd> A;
  for (int t = 0; t < n; t++) {
    if (full) { for (int p = 0; p < NPROG; p++) for (int k = 0; k < 2; k++) A.push_back({Cmd::R, t, 0, p, k}); }
    else for (int p : {0, 3, 4}) A.push_back({Cmd::R, t, 0, p, 1});
    for (int u = 0; u < n; u++) if (u != t) {
      for (int p : {0, 2, 3, 4}) if (full || p == 2 || p == 4) A.push_back({Cmd::N, t, u, p, 0});
      for (int k = 0; k < 2; k++) for (int p : {0, 3, 4}) if (full || (p != 0 && k)) A.push_back({Cmd::E, t, u, p, k});
    }
    A.push_back({Cmd::F, t, 0, 0, 0});
    A.push_back({Cmd::VV, t, 0, 0, 0});
    for (int m = 0; m < NMODE; m++) if (full || m != 3) A.push_back({Cmd::M, t, 0, m, 0});
    if (full || t == 1) A.push_back({Cmd::SW, t, 0, 0, 0});
  }
  A.push_back({Cmd::NEW, 0, 0, 0, 0});
  return A;
}
static std::string str(const Cmd &c) {
  switch (c.k) {
  case Cmd::R: return mc::fmt("record(%d,%s,keep%d)", c.t, progName[c.p], c.keep);
  case Cmd::N: return mc::fmt("record(%d) around record(%d,%s)", c.u, c.t, progName[c.p]);
  case Cmd::E: return mc::fmt("record(%d,%s) around evaluate(%d,%s)", c.u, progName[c.p], c.t, c.keep ? "all" : "first-order + new trace");
  case Cmd::F: return mc::fmt("forward(%d)", c.t);
  case Cmd::VV: return mc::fmt("reverse(%d)", c.t);
  case Cmd::M: return mc::fmt("evaluate(%d,mode%d)", c.t, c.p);
  case Cmd::SW: return mc::fmt("switch(%d)", c.t);
  case Cmd::NEW: return "new trace";
  }
  return "?";
}
struct R : mc::Runner {
  void hist(const char *name, int n, bool full, int depth) {
    auto *A = new std::vector<Cmd>(alpha(n, full));
    mc::Space s;
    s.name = name;
    s.n = mc::ipow(A->size(), unsigned(depth));
    s.chunk = 1500;
    s.rule = mc::fmt("all histories of %d commands from %zu (record any program, nest a recording, evaluate inside a recording, forward, reverse of kept state, evaluate, switch, create) over %d traces", depth, A->size(), n);
    s.run = [=](uint64_t k) {
      prepare();
      World w;
      w.n = n;
      setCurrentTape(T[0].id);
      for (int t = 0; t < n; t++) w.rec(t, 0, 0, 0);
      uint64_t h = uint64_t(n);
      for (int i = 0; i < depth; i++) {
        const Cmd &c = (*A)[k % A->size()];
        k /= A->size();
        w.cmd(c, i);
        h = 7;
        for (int t = 0; t < n; t++) h = mc::hmix(h, uint64_t(bkey(t, w.s[t].p, w.s[t].pt, w.s[t].keep) * 16 + w.s[t].kept + 1));
        mc::state(mc::hmix(h, uint64_t(w.cur)));
      }
      // at the end every trace still gives the results of its own recording
      for (int t = 0; t < n; t++) { w.revOne(t); for (int m = 0; m < NMODE; m++) w.evalOne(t, m, (t + m) % 3); }
      w.chkCur();
      w.persist();
      mc::trace();
    };
    s.describe = [=](uint64_t k) { std::string q; for (int i = 0; i < depth; i++) { q += (i ? "; " : "") + str((*A)[k % A->size()]); k /= A->size(); } return q; };
    spaces.push_back(s);
  }
  void setup() override {
    {
      mc::Space t;
      t.name = "tags";
      t.n = 5 * 6;
      t.chunk = 30;
      t.rule = "all numbers of traces 0..4 in a new thread x what the caller's list held before: the listed identifiers are those of the existing traces, each once";
      t.run = [](uint64_t k) {
        const size_t made = k % 5, old = k / 5;
        std::string bad;
        std::thread th([&] {
          std::vector<short> ids, got(old, short(77));
          for (size_t i = 0; i < made; i++) ids.push_back(createNewTape());
          cachedTraceTags(got);
          if (got != ids) bad = mc::fmt("%zu traces exist and %zu are listed (first %d)", made, got.size(), got.empty() ? -1 : int(got[0]));
          for (size_t i = 0; i < made; i++) { setCurrentTape(ids[i]); if (currentTape().tapeId() != ids[i]) bad = "the current trace is not the one selected"; }
        });
        th.join();
        mc::checked();
        mc::transition(made);
        mc::state(k);
        if (!bad.empty()) fail("tags", "%s", bad.c_str());
        mc::trace();
      };
      t.describe = [](uint64_t k) { return mc::fmt("%d traces, list of %d", int(k % 5), int(k / 5)); };
      spaces.push_back(t);
    }
    hist("two-traces", 2, true, mc::thorough ? 3 : 2);
    hist("three-traces", 3, true, 2);
    hist("two-traces-core", 2, false, mc::thorough ? 4 : 3);
    if (mc::thorough) hist("three-traces-core", 3, false, 3);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
