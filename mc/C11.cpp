// C11: checkpointed time stepping gives the derivatives of the plain loop.
#include "dsl.h"
#include "arr.h"
#include <adolc/checkpointing.h>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
using mc::fail;
using arr::M2;
constexpr int MD = 3, P = 2;
static double tnow; // state of the stepping code that is not active
static const double EPS = 0.0625;
// ---- time steps, in place
enum { S_SIN, S_CPL, S_BR, S_ROT, S_TIME, S_SEL, NS };
static const char *stepName[] = {"sin", "coupled", "branch", "rotate", "time", "select"};
static const int stepDim[] = {1, 2, 2, 3, 2, 2};
template <class T> static void stepBody(int s, T *x) {
  using std::sin; using std::exp; using std::cos;
  switch (s) {
  case S_SIN: { const T e = x[0] + 0.25 * sin(x[0]) * x[0]; x[0] = e; break; }
  case S_CPL: { const T a = x[0] + 0.125 * x[1] * x[0], b = x[1] - 0.25 * sin(x[0]); x[0] = a; x[1] = b; break; }
  case S_BR:
    if (x[0] > 0.55) { const T a = x[0] - 0.375 * x[1] * x[1], b = x[1] * 1.125; x[0] = a; x[1] = b; }
    else { const T a = x[0] * 1.25 + 0.125, b = x[1] + 0.25 * x[0] * x[0]; x[0] = a; x[1] = b; }
    break;
  case S_ROT: { const T a = x[1] * 1.0625, b = x[2] + 0.0625 * x[0] * x[1], c = x[0]; x[0] = a; x[1] = b; x[2] = c; break; }
  case S_TIME: { const T a = x[0] + tnow * x[1] * 0.25, b = x[1] - 0.125 * tnow * x[0] * x[0]; x[0] = a; x[1] = b; tnow += 0.5; break; }
  case S_SEL: { const T c = x[0] - 0.6, u = x[1] * x[0], v = 0.5 * x[1] + x[0]; T w; if constexpr (std::is_same_v<T, adouble>) condassign(w, c, u, v); else w = c > 0 ? u : v; const T a = x[0] * 0.875 + 0.1875 * cos(x[1]); x[0] = a; const T w2 = w; x[1] = w2; break; }
  }
}
template <int S> static int actStep(size_t, adouble *x) { stepBody<adouble>(S, x); return 0; }
template <int S> static int dblStep(size_t, double *x) { stepBody<double>(S, x); return 0; }
static void *saveT() { double *p = new double[1]; p[0] = tnow; return p; }
static void restT(void *p) { tnow = static_cast<double *>(p)[0]; }
typedef int (*AF)(size_t, adouble *);
typedef int (*DF)(size_t, double *);
static const AF AFs[] = {actStep<0>, actStep<1>, actStep<2>, actStep<3>, actStep<4>, actStep<5>};
static const DF DFs[] = {dblStep<0>, dblStep<1>, dblStep<2>, dblStep<3>, dblStep<4>, dblStep<5>};

// ---- configuration
struct Block { int s, steps, cps; bool inplace, retape; };
struct Cfg {
  std::vector<Block> b; // blocks in sequence; the state passes through all
  int shape;            // bit 0: values used nonlinearly before, bit 1: arguments used again afterwards
  bool sameSub, keepRec;
};
static std::string str(const Cfg &c) {
  std::string r;
  for (auto &b : c.b) r += mc::fmt("%s x%d (%d checkpoints%s%s); ", stepName[b.s], b.steps, b.cps, b.inplace ? ", in place" : "", b.retape ? ", retaping" : "");
  return r + mc::fmt("shape %d%s%s", c.shape, c.sameSub ? ", one step trace" : "", c.keepRec ? ", kept" : "");
}
static const double PT[2][MD] = {{0.4, 0.7, -0.5}, {0.9, 0.35, 0.8}};
template <class T> static void startup(int shape, int d, T *u, const T *x) { // u = state before the loop
  using std::exp; using std::sin;
  for (int i = 0; i < d; i++)
    if (shape & 1) { const T e = exp(x[i]) * 0.5; u[i] = e; }
    else u[i] = x[i];
  if (shape & 1) { const T e = u[0] * u[d - 1]; u[0] = e; }
}
// the whole program on a reference type
template <class T> static void refProg(const Cfg &c, const T *x, T *y) {
  const int d = stepDim[c.b[0].s];
  T cur[MD], u[MD];
  startup<T>(c.shape, d, cur, x);
  T acc = T(0.0);
  for (auto &b : c.b) {
    for (int i = 0; i < d; i++) u[i] = cur[i];
    tnow = 0.25;
    for (int k = 0; k < b.steps; k++) stepBody<T>(b.s, cur);
    if (c.shape & 2) { if (b.inplace) acc += cur[0] * cur[d - 1]; else acc += u[0] * cur[d - 1] + u[d - 1]; }
  }
  for (int i = 0; i < d; i++) y[i] = cur[i] * cur[0];
  y[0] += acc;
}
static bool nearSwitch(const Cfg &c, const double *x) {
  const int d = stepDim[c.b[0].s];
  double cur[MD];
  startup<double>(c.shape, d, cur, x);
  for (auto &b : c.b) {
    tnow = 0.25;
    for (int k = 0; k < b.steps; k++) {
      if ((b.s == S_BR && std::fabs(cur[0] - 0.55) < 1e-6) || (b.s == S_SEL && std::fabs(cur[0] - 0.6) < 1e-6)) return true;
      stepBody<double>(b.s, cur);
      for (int i = 0; i < d; i++) if (!(std::fabs(cur[i]) < 1e4)) return true;
    }
  }
  return false;
}
static short tape = -1, sub[3];
static uint64_t seen;
static int cSkip;
enum { E_Z0, E_Z1, E_N1, E_F0, E_f1, E_v0, E_R, E_RV, NE };
static const char *evName[] = {"zos(keep)@0", "zos(keep)@1", "zos@1", "fos(keep)@0", "fos@1", "fov@0", "fos_reverse", "fov_reverse"};
static void exec(const Cfg &c, const std::vector<int> *hist = nullptr) {
  const int d = stepDim[c.b[0].s];
  for (int q = 0; q < 2; q++) if (nearSwitch(c, PT[q])) { mc::trivial(); mc::count(cSkip); return; }
  typedef ref::Dual<MD> D;
  D R[2][MD];
  double sc = 1;
  for (int q = 0; q < 2; q++) {
    D x[MD];
    for (int i = 0; i < d; i++) { x[i] = D(PT[q][i]); x[i].g[i] = 1; }
    refProg<D>(c, x, R[q]);
    for (int j = 0; j < d; j++) { sc = std::max(sc, std::fabs(R[q][j].v)); for (int i = 0; i < d; i++) sc = std::max(sc, std::fabs(R[q][j].g[i])); }
  }
  if (!(sc < 1e7)) { mc::trivial(); mc::count(cSkip); return; }
  if (tape < 0 || seen > 300) { seen = 0; tape = dsl::freshTape(); for (auto &s : sub) s = createNewTape(); }
  seen++;
  const short t = tape;
  double y[MD];
  setCurrentTape(t);
  currentTape().ensureContiguousLocations(size_t(d) * (c.b.size() + 2));
  trace_on(t, c.keepRec);
  {
    adouble *all = new adouble[size_t(d) * (c.b.size() + 1)];
    adouble acc = 0.0;
    adouble x[MD];
    for (int i = 0; i < d; i++) x[i] <<= PT[0][i];
    adouble *cur = all;
    startup<adouble>(c.shape, d, cur, x);
    int bi = 0;
    for (auto &b : c.b) {
      adouble *nxt = b.inplace ? cur : all + size_t(d) * size_t(bi + 1);
      if (!b.inplace && (c.shape & 1)) for (int i = 0; i < d; i++) { const adouble e = sin(x[i]); nxt[i] = e; acc += nxt[i] * nxt[i] * 0.0; }
      ADOLC::CP::Context cp(t, c.sameSub ? sub[0] : sub[bi], AFs[b.s]);
      cp.setDoubleFct(DFs[b.s]);
      if (b.s == S_TIME) { cp.setSaveFct(saveT); cp.setRestoreFct(restT); }
      cp.setNumberOfSteps(b.steps);
      cp.setNumberOfCheckpoints(b.cps);
      cp.setDimensionXY(d);
      cp.setInput(cur);
      cp.setOutput(nxt);
      cp.setAlwaysRetaping(b.retape);
      tnow = 0.25;
      cp.checkpointing(t);
      if (c.shape & 2) { if (b.inplace) acc += cur[0] * cur[d - 1]; else acc += cur[0] * nxt[d - 1] + cur[d - 1]; }
      cur = nxt;
      bi++;
    }
    for (int i = d; i-- > 0;) { adouble e = cur[i] * cur[0]; if (i == 0) e += acc; x[i] = e; }
    for (int i = 0; i < d; i++) x[i] >>= y[i];
    delete[] all;
  }
  trace_off();
  mc::trace();
  double W[2][MD] = {{1, -0.5, 0.25}, {0.5, 1, -2}};
  auto val = [&](const char *w, int q) { for (int j = 0; j < d; j++) mc::expectNear(w, y[j], R[q][j].v, 1e-9, sc, "%s: y[%d]", w, j); };
  auto rcOk = [&](const char *w, int rc) { if (rc < 0) fail("rc", "%s returned %d", w, rc); mc::checked(); };
  auto fos = [&](const char *w, int q, int l) {
    double z[MD];
    tnow = 99;
    rcOk(w, fos_reverse(t, d, d, W[l], z));
    for (int i = 0; i < d; i++) { double e = 0; for (int j = 0; j < d; j++) e += W[l][j] * R[q][j].g[i]; mc::expectNear(w, z[i], e, 1e-8, sc * 8, "%s: fos_reverse(%d) z[%d]", w, l, i); }
  };
  auto fov = [&](const char *w, int q) {
    M2<double> U(2, d), Z(2, d);
    for (int l = 0; l < 2; l++) for (int j = 0; j < d; j++) U[l][j] = W[l][j];
    tnow = 99;
    rcOk(w, fov_reverse(t, d, d, 2, U, Z));
    for (int l = 0; l < 2; l++) for (int i = 0; i < d; i++) { double e = 0; for (int j = 0; j < d; j++) e += W[l][j] * R[q][j].g[i]; mc::expectNear(w, Z[l][i], e, 1e-8, sc * 8, "%s: fov_reverse Z[%d][%d]", w, l, i); }
  };
  val("record", 0);
  if (c.keepRec) { fos("recorded", 0, 0); }
  double x[MD], X[MD] = {0.75, -1.25, 0.5}, Y[MD];
  auto at = [&](int q) { for (int i = 0; i < d; i++) x[i] = PT[q][i]; tnow = 0.25; };
  const bool time = [&] { for (auto &b : c.b) if (b.s == S_TIME) return true; return false; }();
  if (hist) { // a history of sweeps; the model is the point of the latest keeping sweep
    int kept = c.keepRec ? 0 : -1, l = 0;
    for (int e : *hist) {
      const int q = e == E_Z1 || e == E_N1 || e == E_f1;
      switch (e) {
      case E_Z0: case E_Z1: case E_N1: {
        at(q); rcOk("zos_forward", zos_forward(t, d, d, e != E_N1, x, y)); val(evName[e], q);
        if (e != E_N1) kept = q;
        break; }
      case E_F0: case E_f1: {
        at(q); rcOk("fos_forward", fos_forward(t, d, d, e == E_F0, x, X, y, Y)); val(evName[e], q);
        for (int j = 0; j < d; j++) { double ex = 0; for (int i = 0; i < d; i++) ex += R[q][j].g[i] * X[i]; mc::expectNear(evName[e], Y[j], ex, 1e-8, sc * 4, "Y[%d]", j); }
        if (e == E_F0) kept = q;
        break; }
      case E_v0: {
        M2<double> XP(d, P), YP(d, P);
        for (int i = 0; i < d; i++) { XP[i][0] = X[i]; XP[i][1] = double(i) - 0.5; }
        at(q); rcOk("fov_forward", fov_forward(t, d, d, P, x, XP, y, YP)); val(evName[e], q);
        for (int k = 0; k < P; k++) for (int j = 0; j < d; j++) { double ex = 0; for (int i = 0; i < d; i++) ex += R[q][j].g[i] * XP[i][k]; mc::expectNear(evName[e], YP[j][k], ex, 1e-8, sc * 4, "Y[%d][%d]", j, k); }
        break; }
      case E_R: if (kept >= 0) fos("fos_reverse", kept, l ^= 1); break;
      case E_RV: if (kept >= 0) fov("fov_reverse", kept); break;
      }
      mc::transition(1);
    }
    mc::state(mc::hmix(uint64_t(kept + 1), uint64_t(hist->size())));
    return;
  }
  for (int q = 1; q >= 0; q--) {
    const bool multi = time && c.b.size() > 1; // the host cannot reset the clock between the blocks
    if (multi) break;
    at(q); rcOk("zos_forward", zos_forward(t, d, d, 1, x, y)); val("zos_forward", q);
    fos("reverse", q, 0);
    fos("second-reverse", q, 1);
    fov("third-reverse", q);
    at(q); rcOk("zos_forward", zos_forward(t, d, d, 1, x, y));
    fov("vector-reverse", q);
    auto tang = [&](const char *w) { for (int j = 0; j < d; j++) { double e = 0; for (int i = 0; i < d; i++) e += R[q][j].g[i] * X[i]; mc::expectNear(w, Y[j], e, 1e-8, sc * 4, "%s: Y[%d]", w, j); } };
    at(q); rcOk("fos_forward", fos_forward(t, d, d, 0, x, X, y, Y)); val("fos_forward", q); tang("fos_forward");
    M2<double> XP(d, P), YP(d, P);
    for (int i = 0; i < d; i++) { XP[i][0] = X[i]; XP[i][1] = double(i) - 0.5; }
    at(q); rcOk("fov_forward", fov_forward(t, d, d, P, x, XP, y, YP)); val("fov_forward", q);
    for (int l = 0; l < P; l++) for (int j = 0; j < d; j++) { double e = 0; for (int i = 0; i < d; i++) e += R[q][j].g[i] * XP[i][l]; mc::expectNear("fov_forward", YP[j][l], e, 1e-8, sc * 4, "Y[%d][%d]", j, l); }
    // forward sweeps that keep nothing leave the kept state alone
    at(q); rcOk("zos_forward", zos_forward(t, d, d, 1, x, y));
    at(1 - q); rcOk("zos_forward", zos_forward(t, d, d, 0, x, y)); val("zos_forward-nokeep", 1 - q);
    fos("reverse-after-unkept", q, 1);
    at(q); rcOk("zos_forward", zos_forward(t, d, d, 1, x, y));
    at(1 - q); rcOk("fos_forward", fos_forward(t, d, d, 0, x, X, y, Y));
    fos("reverse-after-tangent", q, 0);
    at(q); rcOk("fos_forward", fos_forward(t, d, d, 1, x, X, y, Y)); val("fos_forward-keep", q); tang("fos_forward-keep");
    fos("reverse-of-tangent-keep", q, 0);
  }
  M2<double> J(d, d);
  at(1);
  if (!(time && c.b.size() > 1)) {
    rcOk("jacobian", jacobian(t, d, d, x, J));
    for (int j = 0; j < d; j++) for (int i = 0; i < d; i++) mc::expectNear("jacobian", J[j][i], R[1][j].g[i], 1e-8, sc, "J[%d][%d]", j, i);
  }
  uint64_t h = uint64_t(c.shape * 4 + c.sameSub * 2 + c.keepRec);
  for (auto &b : c.b) { h = mc::hmix(h, uint64_t(b.s * 10000 + b.steps * 100 + b.cps * 4 + b.inplace * 2 + b.retape)); mc::transition(uint64_t(b.steps)); }
  mc::state(h);
}
struct R : mc::Runner {
  void setup() override {
    cSkip = mc::counter("near_switch_or_too_large");
    {
      const int MS = mc::thorough ? 40 : 12, MC = mc::thorough ? 8 : 5;
      auto dec = [=](uint64_t k) {
        mc::Dec d(k);
        Cfg c;
        Block b;
        b.steps = 1 + int(d(uint64_t(MS))); b.cps = 1 + int(d(uint64_t(MC)));
        b.s = int(d(NS)); b.inplace = d(2); b.retape = d(2);
        c.shape = int(d(4)); c.keepRec = d(2); c.sameSub = false;
        c.b = {b};
        return c;
      };
      mc::Space s;
      s.name = "single";
      s.n = uint64_t(MS * MC * NS) * 2 * 2 * 4 * 2;
      s.chunk = 100; s.cpu_s = 60;
      s.rule = mc::fmt("all step counts 1..%d x checkpoints 1..%d x %d step functions (branching, selecting, with saved non-active state) x in place/separate x retaping x use of the values before and after x recorded with/without keep", MS, MC, int(NS));
      s.describe = [=](uint64_t k) { return str(dec(k)); };
      s.run = [=](uint64_t k) { Cfg c = dec(k); if (c.b[0].s == S_TIME && !c.b[0].retape) { mc::trivial(); return; } try { exec(c); } catch (...) { tape = -1; throw; } };
      spaces.push_back(s);
    }
    {
      const int MS = mc::thorough ? 8 : 4, MC = mc::thorough ? 4 : 3;
      const uint64_t per = uint64_t(MS * MC) * 3 * 2 * 2;
      auto dec = [=](uint64_t k) {
        mc::Dec d(k);
        Cfg c;
        static const int ss[3] = {S_CPL, S_BR, S_TIME};
        for (int i = 0; i < 2; i++) { Block b; b.steps = 1 + int(d(uint64_t(MS))) * (i ? 1 : 2); b.cps = 1 + int(d(uint64_t(MC))); b.s = ss[d(3)]; b.inplace = d(2); b.retape = d(2); c.b.push_back(b); }
        c.sameSub = d(2); c.keepRec = d(2); c.shape = 3;
        return c;
      };
      mc::Space s;
      s.name = "two-blocks";
      s.n = per * per * 4;
      s.chunk = 200; s.cpu_s = 60;
      s.rule = mc::fmt("two checkpointed loops in one trace: all step counts (up to %d), checkpoints 1..%d, step functions, in place/separate, retaping, separate or one step trace", 2 * MS, MC);
      s.describe = [=](uint64_t k) { return str(dec(k)); };
      s.run = [=](uint64_t k) { Cfg c = dec(k); if ((c.b[0].s == S_TIME && !c.b[0].retape) || (c.b[1].s == S_TIME && !c.b[1].retape)) { mc::trivial(); return; } try { exec(c); } catch (...) { tape = -1; throw; } };
      spaces.push_back(s);
    }
    {
      const int L = mc::thorough ? 4 : 3;
      uint64_t nh = 0;
      for (int l = 1; l <= L; l++) nh += mc::ipow(NE, l);
      auto dec = [=](uint64_t k, std::vector<int> &h) {
        mc::Dec d(k);
        Cfg c;
        static const int ss[3] = {S_CPL, S_BR, S_TIME};
        Block b;
        b.s = ss[d(3)]; b.steps = d(2) ? 5 : 1; b.cps = 1 + int(d(2)); b.inplace = d(2);
        const bool two = d(2), keep = d(2);
        b.retape = b.s == S_TIME;
        c.b = {b};
        if (two && b.s != S_TIME) { b.steps = 6 - b.steps; c.b.push_back(b); }
        c.shape = 3; c.sameSub = two; c.keepRec = keep;
        uint64_t r = d(nh);
        int l = 1;
        while (r >= mc::ipow(NE, l)) r -= mc::ipow(NE, l++);
        h.clear();
        for (int i = 0; i < l; i++, r /= NE) h.push_back(int(r % NE));
        return c;
      };
      mc::Space s;
      s.name = "histories";
      s.n = 3 * 2 * 2 * 2 * 2 * 2 * nh;
      s.chunk = 200; s.cpu_s = 60;
      s.rule = mc::fmt("all histories of up to %d sweeps out of %d (forward keeping or not at two points, scalar/vector reverse) x step function x steps 1/5 x checkpoints 1/2 x in place/separate x one block or two blocks sharing a step trace x recorded with/without keep", L, int(NE));
      s.describe = [=](uint64_t k) { std::vector<int> h; std::string r = str(dec(k, h)); for (int e : h) r += mc::fmt(" %s", evName[e]); return r; };
      s.run = [=](uint64_t k) { std::vector<int> h; Cfg c = dec(k, h); try { exec(c, &h); } catch (...) { tape = -1; throw; } };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
