// C05: results do not depend on buffer sizes, spilling or earlier uses.
#include "dsl.h"
#include <filesystem>
#include <set>
#include <thread>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
#include <adolc/sparse/sparsedrivers.h>
using namespace dsl;
using mc::fail;
static int cRefused, cSpill;

struct Cfg { size_t O, L, V, T; int flag, keep, via; }; // via: 0 .adolcrc, 1 trace_on with sizes
static const Cfg BIG{4096, 4096, 4096, 65536, 0, 0, 0};
static std::string str(const Cfg &c) { return mc::fmt("O%zu L%zu V%zu T%zu off%d keep%d%s", c.O, c.L, c.V, c.T, c.flag, c.keep, c.via ? " via trace_on" : ""); }
static const double X0[2] = {0.4, 0.7}, X1[2] = {0.55, 0.62}, XD[2] = {0.4, -0.7};

// body: the program with something before and after each step, so that block
// boundaries of every kind of tape fall between and inside its records
struct Item { Prog p; int rep, np; }; // np: number of parameters
static void body(const Item &it, const double *x, double *y) {
  adouble r[NR];
  r[0] <<= x[0];
  r[1] <<= x[1];
  r[2] = R2;
  std::vector<pdouble> par;
  par.reserve(size_t(it.np));
  for (int i = 0; i < it.np; i++) par.emplace_back(0.25 + 0.125 * i);
  for (int q = 0; q < it.rep; q++) {
    for (auto &o : it.p) {
      adouble s[NR] = {r[0] * 0.5, r[1] + 0.25 * q, sin(r[2])};
      exec<adouble>(o, s);
      for (int i = 0; i < NR; i++) r[i] = atan(s[i]) + r[(i + 1) % NR] * 0.375;
    }
    if (q < it.np) r[2] = par[q] * r[0] + r[2];
  }
  for (int i = it.rep; i < it.np; i++) r[1] = r[1] * par[i];
  for (int i = 0; i < NR; i++) r[i] >>= y[i];
}
static bool inDomain(const Item &it, const double *x) {
  double r[NR] = {x[0], x[1], R2};
  for (int q = 0; q < it.rep; q++) {
    for (auto &o : it.p) {
      double s[NR] = {r[0] * 0.5, r[1] + 0.25 * q, std::sin(r[2])};
      if (!domOk(o, s)) return false;
      exec<double>(o, s);
      for (int i = 0; i < NR; i++) { r[i] = std::atan(s[i]) + r[(i + 1) % NR] * 0.375; if (!std::isfinite(r[i])) return false; }
      mc::transition();
    }
    if (q < it.np) r[2] = (0.25 + 0.125 * q) * r[0] + r[2];
  }
  return true;
}
static short makeTape(const Cfg &c) {
  if (c.via) adolcrc(4096, 4096, 4096, 65536); else adolcrc(c.O, c.L, c.V, c.T);
  return createNewTape();
}
typedef std::vector<double> V;
static void rec(short tag, const Item &it, const Cfg &c, V &out) {
  double y[NR];
  if (c.via) {
    int rc = trace_on(tag, c.keep, c.O, c.L, c.V, c.T, 0);
    if (rc < 0) fail("trace_on", "trace_on with buffer sizes returned %d", rc);
  } else trace_on(tag, c.keep);
  body(it, X0, y);
  trace_off(c.flag);
  out.assign(y, y + NR);
  auto st = tapestats(tag);
  if (st[TapeInfos::OP_FILE_ACCESS] || st[TapeInfos::LOC_FILE_ACCESS] || st[TapeInfos::VAL_FILE_ACCESS]) mc::count(cSpill);
  out.push_back(double(st[TapeInfos::NUM_INDEPENDENTS]));
  out.push_back(double(st[TapeInfos::NUM_DEPENDENTS]));
}
template <class T> struct M2 {
  std::vector<T> d; std::vector<T *> r;
  M2(int a, int b, T v = T(-77)) : d(a * b, v), r(a) { for (int i = 0; i < a; i++) r[i] = d.data() + i * b; }
  operator T **() { return r.data(); }
};
struct M3 {
  std::vector<double> d; std::vector<double *> r; std::vector<double **> q;
  M3(int a, int b, int c) : d(a * b * c, -77), r(a * b), q(a) {
    for (int i = 0; i < a * b; i++) r[i] = d.data() + i * c;
    for (int i = 0; i < a; i++) q[i] = r.data() + i * b;
  }
  operator double ***() { return q.data(); }
};
enum Mode { ZOS, FOSR, FOVR, FOV, HOSR, HOVR, HOV, WKOV, JPIDX, JPBF, JPBR, HPT, JAC, HVEC, PARM, NMODES };
static const char *modeName[] = {"zos", "fos+fos_reverse", "fos+fov_reverse", "fov", "hos+hos_reverse", "hos+hov_reverse", "hov", "hov_wk+hos_ov", "pattern index", "pattern bit fwd", "pattern bit rev", "hess pattern", "jacobian", "hess_vec", "set_param"};
static const double W[2][NR] = {{1.0, -0.5, 2.0}, {0.25, 1.5, -0.75}};

static void pat(V &o, int m, std::vector<uint *> &P) {
  for (int i = 0; i < m; i++) { if (!P[i]) { o.push_back(-5); continue; } for (uint j = 0; j <= P[i][0]; j++) o.push_back(P[i][j]); delete[] P[i]; }
}
static bool refused(const Item &it, int mode) {
  bool cbrt = false;
  for (auto &o : it.p) cbrt |= o.k == UN && o.f == CBRT;
  if (cbrt && mode >= HOSR && mode <= WKOV) return true;
  if (cbrt && mode == HVEC) return true;
  // hos_ov_reverse refuses ties of fmin/fmax
  for (auto &o : it.p) if (mode == WKOV && ((o.k == BIN && (o.f == FMIN || o.f == FMAX) && o.s == o.t) || (o.k == MISC && o.f == 5 && o.s == o.t))) return true;
  // bit patterns of active subscripts: C13's business
  for (auto &o : it.p) if ((o.k == VEC) && (mode == JPBF || mode == JPBR)) return true;
  return false;
}
static V eval(short tag, int mode, const double *x, const Item &it) {
  using namespace ADOLC::Sparse;
  const int n = 2, m = NR;
  V o;
  double y[NR];
  auto add = [&](const V &v) { o.insert(o.end(), v.begin(), v.end()); };
  auto addp = [&](const double *p, int k) { o.insert(o.end(), p, p + k); };
  if (refused(it, mode)) return o;
  switch (mode) {
  case ZOS: o.push_back(zos_forward(tag, m, n, 0, x, y)); addp(y, m); break;
  case FOSR: {
    double yd[NR], z[2];
    o.push_back(fos_forward(tag, m, n, 1, x, XD, y, yd)); addp(y, m); addp(yd, m);
    o.push_back(fos_reverse(tag, m, n, W[0], z)); addp(z, n);
    o.push_back(fos_reverse(tag, m, n, W[1], z)); addp(z, n);
    break;
  }
  case FOVR: {
    o.push_back(zos_forward(tag, m, n, 1, x, y)); addp(y, m);
    M2<double> U(2, m), Z(2, n);
    for (int l = 0; l < 2; l++) for (int j = 0; j < m; j++) U.r[l][j] = W[l][j];
    o.push_back(fov_reverse(tag, m, n, 2, U, Z)); add(Z.d);
    break;
  }
  case FOV: {
    M2<double> X(n, 3), Y(m, 3);
    for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) X.r[i][j] = XD[i] + j - i;
    o.push_back(fov_forward(tag, m, n, 3, x, X, y, Y)); addp(y, m); add(Y.d);
    break;
  }
  case HOSR: case HOVR: {
    const int d = mode == HOSR ? 3 : 2;
    M2<double> X(n, d), Y(m, d);
    for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) X.r[i][j] = XD[i] + 0.5 * j - i * 0.25;
    o.push_back(hos_forward(tag, m, n, d, d + 1, x, X, y, Y)); addp(y, m); add(Y.d);
    if (mode == HOSR) {
      M2<double> Z(n, d + 1);
      o.push_back(hos_reverse(tag, m, n, d, W[0], Z)); add(Z.d);
    } else {
      M3 Z(2, n, d + 1);
      M2<short> nz(2, n);
      M2<double> U(2, m);
      for (int l = 0; l < 2; l++) for (int j = 0; j < m; j++) U.r[l][j] = W[l][j];
      o.push_back(hov_reverse(tag, m, n, d, 2, U, Z, nz)); add(Z.d);
      for (short s : nz.d) o.push_back(s);
    }
    break;
  }
  case HOV: case WKOV: {
    const int d = mode == HOV ? 3 : 2, p = 2;
    M3 X(n, p, d), Y(m, p, d);
    for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) for (int k = 0; k < d; k++) X.q[i][j][k] = XD[i] + 0.5 * j - k * 0.25;
    if (mode == HOV) { o.push_back(hov_forward(tag, m, n, d, p, x, X, y, Y)); addp(y, m); add(Y.d); }
    else {
      o.push_back(hov_wk_forward(tag, m, n, d, d + 1, p, x, X, y, Y)); addp(y, m); add(Y.d);
      M2<double> U(m, d + 1);
      for (int j = 0; j < m; j++) for (int k = 0; k <= d; k++) U.r[j][k] = k ? 0.25 * k : W[0][j];
      M3 Z(p, n, d + 1);
      o.push_back(hos_ov_reverse(tag, m, n, d, p, U, Z)); add(Z.d);
    }
    break;
  }
  case JPIDX: { std::vector<uint *> P(m); std::span<uint *> S(P); o.push_back(jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Tight>(tag, m, n, x, S)); pat(o, m, P); break; }
  case JPBF: { std::vector<uint *> P(m); std::span<uint *> S(P); o.push_back(jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Forward>(tag, m, n, x, S)); pat(o, m, P); break; }
  case JPBR: { std::vector<uint *> P(m); std::span<uint *> S(P); o.push_back(jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Reverse>(tag, m, n, x, S)); pat(o, m, P); break; }
  case HPT: { if (it.np == 99) break; break; }
  case JAC: { M2<double> J(m, n); o.push_back(jacobian(tag, m, n, x, J)); add(J.d); break; }
  case HVEC: { double h[2], v[2] = {0.5, -1}; o.push_back(lagra_hess_vec(tag, m, n, x, v, W[0], h)); addp(h, n); break; }
  case PARM: {
    if (!it.np) break;
    V p(it.np);
    for (int i = 0; i < it.np; i++) p[i] = 1.5 - 0.25 * i;
    findTape(tag).set_param_vec(tag, size_t(it.np), p.data());
    o = eval(tag, FOSR, x, it);
    V q = eval(tag, HOSR, x, it);
    add(q);
    for (int i = 0; i < it.np; i++) p[i] = 0.25 + 0.125 * i;
    findTape(tag).set_param_vec(tag, size_t(it.np), p.data());
    break;
  }
  }
  return o;
}
static void same(const char *what, const V &a, const V &b) {
  mc::checked();
  if (a.size() != b.size()) fail("size", "%s: %zu results instead of %zu", what, b.size(), a.size());
  for (size_t i = 0; i < a.size(); i++)
    if (memcmp(&a[i], &b[i], sizeof(double)) && !(std::isnan(a[i]) && std::isnan(b[i])))
      fail(what, "%s: result %zu is %.17g, with large buffers it is %.17g", what, i, b[i], a[i]);
}
// results with large buffers, each mode on its own, at both points
struct Base { V rc; std::vector<V> at[2]; V kept; };
static Base baseline(const Item &it, int keep) {
  static std::map<std::string, Base> cache;
  std::string k = str(it.p) + mc::fmt("#%d#%d#%d", it.rep, it.np, keep);
  auto f = cache.find(k);
  if (f != cache.end()) return f->second;
  Base b;
  Cfg c = BIG;
  c.keep = keep;
  short t = makeTape(c);
  rec(t, it, c, b.rc);
  if (keep) {
    double z[2];
    int r = fos_reverse(t, NR, 2, W[0], z);
    b.kept = {double(r), z[0], z[1]};
  }
  for (int q = 0; q < 2; q++) for (int m = 0; m < NMODES; m++) b.at[q].push_back(eval(t, m, q ? X1 : X0, it));
  if (cache.size() > 3000) cache.clear();
  cache[k] = b;
  return b;
}
static void checkKept(short t, const Base &b, int keep) {
  if (!keep) return;
  double z[2];
  for (int i = 0; i < 2; i++) {
    int r = fos_reverse(t, NR, 2, W[0], z);
    same("reverse after recording with keep", b.kept, V{double(r), z[0], z[1]});
  }
}
static void checkAll(const Item &it, const Cfg &c, bool full) {
  Base b = baseline(it, c.keep);
  short t = makeTape(c);
  V rc;
  rec(t, it, c, rc);
  same("recording", b.rc, rc);
  mc::trace();
  mc::state(std::hash<std::string>()(str(it.p) + str(c)));
  checkKept(t, b, c.keep);
  for (int m = 0; m < NMODES; m++) {
    if (!full && (m == JPBR || m == JPBF || m == JAC || m == HVEC || m == HOV)) continue;
    same(modeName[m], b.at[0][m], eval(t, m, X0, it));
    if (full || m % 3 == 1) same(modeName[m], b.at[1][m], eval(t, m, X1, it));
  }
}

// recordings that begin and end with many live variables (their values are
// written in blocks that fill the value buffer); the program reads and
// overwrites some of them. holes: every third is freed before the recording.
static V stock(const Cfg &c, int live, bool holes, bool check, const std::vector<V> *ref0, const std::vector<V> *ref1, std::vector<V> *o0, std::vector<V> *o1, V *kept) {
  short t = makeTape(c);
  setCurrentTape(t);
  V out;
  {
    std::vector<adouble *> g;
    for (int i = 0; i < live; i++) g.push_back(new adouble(0.5 + 0.03125 * i));
    if (holes) for (int i = 1; i < live; i += 3) { delete g[size_t(i)]; g[size_t(i)] = nullptr; }
    auto G = [&](int i) -> adouble & { while (!g[size_t(i)]) i--; return *g[size_t(i)]; };
    double y[NR];
    if (c.via) trace_on(t, c.keep, c.O, c.L, c.V, c.T, 0); else trace_on(t, c.keep);
    {
      adouble a, b;
      a <<= X0[0];
      b <<= X0[1];
      if (live) {
        a = a * G(0) + sin(b * G(live - 1));
        G(live / 2) = a * b + G(live / 3);
        b = G(live / 2) * G(live - 1) - a;
        G(0) *= b;
        a = a + G(0);
      }
      adouble e = a * b;
      a >>= y[0];
      b >>= y[1];
      e >>= y[2];
    }
    trace_off(c.flag);
    out.assign(y, y + NR);
    for (auto *q : g) if (q) out.push_back(q->value());
    auto st = tapestats(t);
    if (st[TapeInfos::VAL_FILE_ACCESS]) mc::count(cSpill);
    V kp = out;
    if (c.keep) { double z[2]; for (int i = 0; i < 2; i++) { kp.push_back(fos_reverse(t, NR, 2, W[0], z)); kp.push_back(z[0]); kp.push_back(z[1]); } }
    if (check) same("recording with live variables", *kept, kp); else *kept = kp;
    static const Item none{{}, 0, 0};
    for (int m = 0; m < NMODES; m++) for (int q = 0; q < 2; q++) {
      V r = eval(t, m, q ? X1 : X0, none);
      if (check) same(modeName[m], q ? (*ref1)[size_t(m)] : (*ref0)[size_t(m)], r); else (q ? o1 : o0)->push_back(r);
    }
    for (auto *q : g) delete q;
  }
  return out;
}
// files of traces: exist while the trace needs them, are gone with the trace
// unless their owner asked to keep them
static std::set<std::string> dirFiles() {
  std::set<std::string> f;
  for (auto &e : std::filesystem::directory_iterator(".")) if (e.path().filename().string()[0] != '.') f.insert(e.path().filename().string());
  return f;
}
static std::string names(const std::set<std::string> &f) { std::string r; for (auto &n : f) r += " " + n; return r.empty() ? " none" : r; }
struct FileCfg { Cfg c; int skip, use, again; };
static void filesCase(const FileCfg &f) {
  const std::set<std::string> before = dirFiles();
  std::exception_ptr err;
  std::set<std::string> kept;
  std::thread th([&] {
    try {
      auto fresh = [&] { std::set<std::string> r; for (auto &n : dirFiles()) if (!before.count(n)) r.insert(n); return r; };
      Item it{{{BIN, MUL, 0, 0, 1, 0}, {CB, ADDC, 1, 0, 0, 0}, {UN, SIN, 2, 0, 0, 0}}, 4, 2};
      adolcrc(4096, 4096, 4096, 65536);
      const short t = createNewTape();
      double y[NR];
      for (int round = 0; round <= (f.again ? 1 : 0); round++) {
        const int flag = round ? 1 - f.c.flag : f.c.flag;
        // f.again == 2: afterwards a recording that needs no files
        const Cfg b = round && f.again == 2 ? BIG : f.c;
        if (trace_on(t, f.c.keep, b.O, b.L, b.V, b.T, f.skip) < 0) fail("trace_on", "trace_on refused");
        body(it, X0, y);
        trace_off(flag);
        mc::transition();
        auto st = tapestats(t);
        const bool spilled = st[TapeInfos::OP_FILE_ACCESS] || st[TapeInfos::LOC_FILE_ACCESS] || st[TapeInfos::VAL_FILE_ACCESS];
        if (spilled) mc::count(cSpill);
        const auto now = fresh();
        if (flag && now.size() < 3) fail("files-missing", "trace_off(1) left the files%s", names(now).c_str());
        if (!round && !flag && !spilled && !f.c.keep && !now.empty()) fail("files-unneeded", "a trace that fits its buffers left%s", names(now).c_str());
        V a = eval(t, ZOS, X1, it);
        if (f.use) { eval(t, FOSR, X0, it); eval(t, FOVR, X1, it); eval(t, HOSR, X0, it); }
        kept = flag && f.skip ? fresh() : std::set<std::string>();
      }
    } catch (...) { err = std::current_exception(); }
  });
  th.join();
  mc::trace();
  if (err) std::rethrow_exception(err);
  const auto after = dirFiles();
  std::set<std::string> left;
  for (auto &n : after) if (!before.count(n)) left.insert(n);
  for (auto &n : left) std::filesystem::remove(n);
  if (kept.empty() ? !left.empty() : left.size() < 3) fail("files-left", "after the end of the trace there are%s, expected %s", names(left).c_str(), kept.empty() ? "none" : "the kept files");
}
struct R : mc::Runner {
  std::vector<Op> Af, As, At;
  void add(const char *name, uint64_t n, uint64_t chunk, const char *rule, std::function<void(uint64_t)> run, std::function<std::string(uint64_t)> d) {
    mc::Space s;
    s.name = name; s.n = n; s.chunk = chunk; s.rule = rule; s.run = run; s.describe = d;
    spaces.push_back(s);
  }
  static constexpr size_t Lmin = 56;
  void setup() override {
    cRefused = mc::counter("outside_domain");
    cSpill = mc::counter("recordings_spilled_to_disk");
    Af = alphabet(cfgMid());
    As = alphabet(cfgSmall());
    At = alphabet(cfgTiny());
    auto go = [](const Item &it, const Cfg &c, bool full) {
      if (!inDomain(it, X0) || !inDomain(it, X1)) { mc::trivial(); mc::count(cRefused); return; }
      checkAll(it, c, full);
    };
    // one size at a time, every size in a range that moves block boundaries
    // through every position of the records
    auto one = [](int k) {
      Cfg c = BIG;
      if (k < 10) c.O = 3 + k;
      else if (k < 40) c.L = Lmin + (k - 10);
      else if (k < 50) c.V = 6 + (k - 40);
      else { c.T = 1 + (k - 50) ; c.keep = k & 1; }
      return c;
    };
    const int K1 = 64;
    const bool th = mc::thorough;
    const std::vector<Op> *A1 = th ? &Af : &As;
    add("one-size", A1->size() * K1, 800, "every operation (three times in a longer program) x every single small buffer size (operations 3.., locations 56..85, values 6..15, Taylor 1..14), all other buffers large; all modes, two points",
        [=](uint64_t k) { go(Item{{(*A1)[k / K1]}, 3, 0}, one(int(k % K1)), false); },
        [=](uint64_t k) { return str((*A1)[k / K1]) + " " + str(one(int(k % K1))); });
    // every size from far too small to more than enough: somewhere in between
    // the trace fills its buffer exactly
    const int KT = 400, KO = 80, KL = 200, KV = 50, K3 = KT + KO + KL + KV;
    auto exact = [=](int k) {
      Cfg c = BIG;
      c.keep = k & 1;
      k /= 2;
      if (k < KT) c.T = 1 + size_t(k);
      else if ((k -= KT) < KO) c.O = 3 + size_t(k);
      else if ((k -= KO) < KL) c.L = Lmin + size_t(k);
      else c.V = 6 + size_t(k - KL);
      return c;
    };
    auto exactProg = [](int k) -> Item {
      switch (k) {
      case 0: return Item{{{BIN, MUL, 0, 0, 1, 0}}, 1, 0};
      case 1: return Item{{{BIN, MUL, 0, 0, 1, 0}, {UN, SIN, 2, 0, 0, 0}, {CB, ADDC, 1, 0, 0, 0}}, 2, 1};
      default: return Item{{{UN, EXP, 2, 1, 0, 0}, {CB, MULC, 1, 0, 0, 0}, {BIN, DIV, 0, 2, 1, 0}}, 4, 3};
      }
    };
    add("exactly-full", uint64_t(K3) * 2 * 3, 60, "three programs x every single buffer size up to more than the trace needs (Taylor 1..400, operations 3..82, locations 56..255, values 6..55) x keep; all modes, two points",
        [=](uint64_t k) { go(exactProg(int(k % 3)), exact(int(k / 3)), false); },
        [=](uint64_t k) { return mc::fmt("program %d ", int(k % 3)) + str(exact(int(k / 3))); });
    // all sizes small together, with and without forced files, keep, entry point
    auto cross = [](int k) {
      mc::Dec d(k);
      static const size_t O[] = {3, 4, 7}, L[] = {56, 57, 61, 70}, VV[] = {6, 7, 9}, T[] = {1, 2, 5};
      Cfg c{O[d(3)], L[d(4)], VV[d(3)], T[d(3)], 0, 0, 0};
      c.flag = int(d(2)); c.keep = int(d(2)); c.via = int(d(2));
      return c;
    };
    const int K2 = 3 * 4 * 3 * 3 * 8;
    auto longProg = [=](int k) -> Item {
      std::vector<Op> all = As;
      Prog p;
      // stripes through the alphabet: together the programs contain all operations
      int stripes = 8;
      for (size_t i = size_t(k % stripes); i < all.size(); i += size_t(stripes)) p.push_back(all[i]);
      return Item{p, 1, (k / stripes) * 3};
    };
    const int NP = th ? 24 : 8;
    add("all-small", uint64_t(K2) * NP, 216, "long programs containing all operations x all combinations of small sizes (3 x 4 x 3 x 3) x trace_off flag x keep x buffer sizes given by .adolcrc or by trace_on",
        [=](uint64_t k) { go(longProg(int(k / K2)), cross(int(k % K2)), true); },
        [=](uint64_t k) { return "long" + std::to_string(k / K2) + " " + str(cross(int(k % K2))); });
    // parameters
    const int NPAR = th ? 20 : 14;
    add("parameters", uint64_t(NPAR) * 12 * 8, 96, "0..13 parameters x value buffer sizes 6..17 x flag, keep, location buffer small or large; incl. changing the parameters",
        [=](uint64_t k) {
          mc::Dec d(k);
          Cfg c = BIG;
          c.V = 6 + d(12); c.flag = int(d(2)); c.keep = int(d(2)); if (d(2)) c.L = 57;
          Item it{{{BIN, MUL, 0, 0, 1, 0}, {CB, ADDC, 1, 0, 0, 0}}, 2, int(d(NPAR))};
          go(it, c, true);
        },
        [=](uint64_t k) { mc::Dec d(k); size_t v = 6 + d(12); int f = int(d(2)), kp = int(d(2)), l = int(d(2)); return mc::fmt("V%zu flag%d keep%d smallL%d params%d", v, f, kp, l, int(d(NPAR))); });
    // live variables before and after the recording
    const int NL = th ? 100 : 28;
    auto stockCfg = [](mc::Dec &d, int &live, bool &holes, int NL) {
      static const size_t VV[] = {6, 7, 8, 9, 12, 13}, O[] = {3, 4096, 5}, L[] = {56, 4096, 61}, T[] = {3, 4096};
      Cfg c = BIG;
      live = int(d(uint64_t(NL))); holes = d(2);
      const uint64_t f = mc::thorough ? 3 : 2;
      c.V = VV[d(6)]; c.O = O[d(f)]; c.L = L[d(f)]; c.T = T[d(2)]; c.flag = int(d(2)); c.keep = int(d(2));
      c.via = (live + int(c.V)) & 1;
      return c;
    };
    add("live-variables", uint64_t(NL) * 2 * 6 * (th ? 9 : 4) * 2 * 4, 200, mc::fmt("0..%d variables alive (or with gaps between them) before and after the recording x value, operation, location, Taylor buffer sizes x trace_off flag x keep; all modes, two points", NL - 1).c_str(),
        [=](uint64_t k) {
          mc::Dec d(k);
          int live; bool holes;
          Cfg c = stockCfg(d, live, holes, NL);
          struct S { std::vector<V> a, b; V kept; };
          static std::map<int, S> cache;
          const int key = live * 4 + holes * 2 + c.keep;
          auto f = cache.find(key);
          if (f == cache.end()) { S s; Cfg b = BIG; b.keep = c.keep; stock(b, live, holes, false, nullptr, nullptr, &s.a, &s.b, &s.kept); f = cache.emplace(key, s).first; }
          stock(c, live, holes, true, &f->second.a, &f->second.b, nullptr, nullptr, &f->second.kept);
          mc::trace();
          mc::state(mc::hmix(uint64_t(key), std::hash<std::string>()(str(c))));
        },
        [=](uint64_t k) { mc::Dec d(k); int live; bool holes; Cfg c = stockCfg(d, live, holes, NL); return mc::fmt("%d live%s ", live, holes ? " with gaps" : "") + str(c); });
    {
      auto dec = [](uint64_t k) {
        mc::Dec d(k);
        FileCfg f;
        f.c = BIG;
        if (d(2)) f.c.O = 4; if (d(2)) f.c.L = 57; if (d(2)) f.c.V = 7; if (d(2)) f.c.T = 3;
        f.c.flag = int(d(2)); f.c.keep = int(d(2)); f.skip = int(d(2)); f.use = int(d(2)); f.again = int(d(3));
        return f;
      };
      add("files", 16 * 16 * 3, 100, "every combination of small and large buffers x trace_off flag x skipFileCleanup x keep x used or not x recorded again with another flag or without need for files: the files there are while the trace lives and after its thread ends",
          [=](uint64_t k) { FileCfg f = dec(k); mc::state(mc::hmix(uint64_t(f.skip * 100 + f.use * 10 + f.again), std::hash<std::string>()(str(f.c)))); filesCase(f); },
          [=](uint64_t k) { FileCfg f = dec(k); return str(f.c) + mc::fmt(" skip%d use%d again%d", f.skip, f.use, f.again); });
    }
    // mode sequences on a spilled trace
    const uint64_t NM = NMODES;
    const int SL = th ? 3 : 2;
    auto seqCfg = [](int k) -> Cfg { static const Cfg c[] = {{4, 57, 7, 3, 0, 1, 0}, {4096, 4096, 4096, 3, 0, 0, 0}, {4, 57, 7, 65536, 1, 0, 0}, {4096, 57, 4096, 2, 0, 0, 1}}; return c[k]; };
    add("mode-order", mc::ipow(NM * 2, SL) * 4, 900, "all sequences of evaluation modes at two points on spilled traces",
        [=](uint64_t k) {
          mc::Dec d(k);
          Cfg c = seqCfg(int(d(4)));
          Item it = longProg(0);
          it.p.resize(6);
          it.np = 3;
          if (!inDomain(it, X0) || !inDomain(it, X1)) fail("setup", "domain");
          Base b = baseline(it, c.keep);
          static std::map<std::string, short> tapes;
          short &t = tapes.try_emplace(str(c), short(-1)).first->second;
          if (t < 0) t = makeTape(c);
          V rc;
          rec(t, it, c, rc); // re-recording on a trace used before
          same("recording", b.rc, rc);
          checkKept(t, b, c.keep);
          mc::trace();
          for (int i = 0; i < SL; i++) {
            int m = int(d(NM)), q = int(d(2));
            mc::transition();
            same(modeName[m], b.at[q][m], eval(t, m, q ? X1 : X0, it));
          }
        },
        [=](uint64_t k) { mc::Dec d(k); std::string s = str(seqCfg(int(d(4)))); for (int i = 0; i < SL; i++) { int m = int(d(NM)); s += mc::fmt("; %s@%d", modeName[m], int(d(2))); } return s; });
    // re-recording: all pairs (long/short, flag, keep, used in between) on one trace
    auto rr = [](mc::Dec &d, Item &it, Cfg &c, int &use) {
      static const int len[] = {1, 4, 12};
      int L = len[d(3)];
      it = Item{{{BIN, MUL, 0, 0, 1, 0}, {CB, ADDC, 1, 0, 0, 0}, {UN, SIN, 2, 0, 0, 0}}, L, 0};
      it.np = d(2) ? L : 0;
      c.flag = int(d(2));
      c.keep = int(d(2));
      use = int(d(4));
    };
    const uint64_t RR = 3 * 2 * 2 * 2 * 4;
    const int RN = th ? 3 : 2;
    auto rrDo = [=](uint64_t k, bool run) {
      mc::Dec d(k);
      static const Cfg C[] = {{30, 80, 20, 12, 0, 0, 0}, {4096, 4096, 4096, 12, 0, 0, 0}, {30, 80, 20, 4096, 0, 0, 1}};
      Cfg c = C[d(3)];
      std::string s;
      static std::map<int, short> tapes;
      short t = -1;
      if (run) t = makeTape(c);
      for (int i = 0; i < RN; i++) {
        Item it; int use;
        rr(d, it, c, use);
        s += mc::fmt("record(len%d,np%d,%s) use%d; ", it.rep, it.np, str(c).c_str(), use);
        if (!run) continue;
        Base b = baseline(it, c.keep);
        V rc;
        rec(t, it, c, rc);
        same("recording", b.rc, rc);
        mc::trace();
        mc::transition();
        if (use & 1) checkKept(t, b, c.keep);
        if (use & 2) for (int m : {int(FOSR), int(HOSR), int(JPBR)}) same(modeName[m], b.at[0][m], eval(t, m, X0, it));
        if (i == RN - 1) { checkKept(t, b, use < 2 ? c.keep : 0); for (int m = 0; m < NMODES; m++) same(modeName[m], b.at[1][m], eval(t, m, X1, it)); }
      }
      return s;
    };
    add("re-record", mc::ipow(RR, RN) * 3, 600, "all sequences of recordings (3 lengths, with and without parameters, trace_off flag, keep, not used / reversed / evaluated in between) on one trace with small buffers",
        [=](uint64_t k) { rrDo(k, true); }, [=](uint64_t k) { return rrDo(k, false); });
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
