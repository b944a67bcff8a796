// C29: repeated use does not accumulate memory or open files. Sequences of
// operations are repeated until the state they leave must have become periodic;
// then the memory in use and the open files after each period must be those
// seen before.
#include "dsl.h"
#include "arr.h"
#include "modes.h"
#include <adolc/checkpointing.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/tapedoc/tapedoc.h>
#include <dirent.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
// traces and registered functions of the programs are made once
static std::vector<short> poolT;
static size_t nextT = 0;
static short pooledTape() {
  if (nextT == poolT.size()) poolT.push_back(createNewTape());
  return poolT[nextT++];
}
static std::map<short, ext_diff_fct *> regs1;
static std::map<short, ext_diff_fct_v2 *> regs2;
static ext_diff_fct *pooledReg(short a, short b, ADOLC_ext_fct f) { auto &r = regs1[a]; if (!r) r = reg_ext_fct(a, b, f); return r; }
static ext_diff_fct_v2 *pooledReg(short a, short b, ADOLC_ext_fct_v2 *f) { auto &r = regs2[a]; if (!r) r = reg_ext_fct(a, b, f); return r; }
#define createNewTape pooledTape
#define reg_ext_fct pooledReg
#define C09_PROGRAMS
#include "C09.cpp"
#undef createNewTape
#undef reg_ext_fct

static int openFiles() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
constexpr int WARM = 24, MORE = 12;
static void periods(const std::function<void()> &f) {
  size_t top = 0, first = 0;
  int files = 0;
  for (int k = 0; k < WARM + MORE; k++) {
    f();
    mc::transition();
    const size_t now = __sanitizer_get_current_allocated_bytes();
    const int fl = openFiles();
    if (!k) first = now;
    if (k < WARM) { top = std::max(top, now); files = std::max(files, fl); continue; }
    mc::checked();
    if (now > top) fail("memory", "%zu bytes after repetition %d, at most %zu before repetition %d (%zu after the first)", now, k + 1, top, WARM + 1, first);
    if (fl > files) fail("files", "%d open files after repetition %d, at most %d before", fl, k + 1, files);
  }
}
static void programs(int p, int q) {
  nY = 0;
  dsl::adolcrc(TPs[p].buf, TPs[p].buf, TPs[p].buf, TPs[p].buf);
  poolT.clear(); regs1.clear(); regs2.clear();
  std::vector<short> A, B;
  std::map<short, ext_diff_fct *> r;
  mc::trace();
  periods([&] {
    nextT = 0; poolT.swap(A);
    dsl::adolcrc(TPs[p].buf, TPs[p].buf, TPs[p].buf, TPs[p].buf);
    (void)TPs[p].f(PT[0]);
    poolT.swap(A);
    if (q < 0) return;
    nextT = 0; poolT.swap(B);
    dsl::adolcrc(TPs[q].buf, TPs[q].buf, TPs[q].buf, TPs[q].buf);
    (void)TPs[q].f(PT[1]);
    poolT.swap(B);
  });
}
// sequences of recordings and evaluations of one trace, repeated
enum { RS = modes::NMODES, RL, RK, RD, RX, DOC, NOPS };
static std::string opName(int o) { static const char *n[] = {"record", "record long", "record keep", "record to disk", "record, abandoned", "tape_doc"}; return o < modes::NMODES ? modes::modeName[o] : n[o - modes::NMODES]; }
static void rec(short t, int len, int keep, int disk) {
  double y;
  dsl::adolcrc(disk ? 64 : 4096, disk ? 64 : 4096, disk ? 64 : 4096, disk ? 8 : 4096);
  trace_on(t, keep, disk ? 64 : 4096, disk ? 64 : 4096, disk ? 64 : 4096, disk ? 8 : 4096, 0);
  {
    adouble a, b, c, d;
    a <<= 0.4; b <<= 0.7;
    c = a * b + sin(a); d = exp(b) - a;
    for (int i = 0; i < len; i++) { c = c * 0.5 + sin(d * a); d = d + cos(c) * 0.25; }
    condassign(c, a, d * b);
    c >>= y; d >>= y; a >>= y;
  }
  trace_off(disk);
}
static void op(short t, int o) {
  static const double x[2] = {0.4, 0.7};
  double y[3], xx[2] = {0.4, 0.7};
  switch (o) {
  case RS: rec(t, 1, 0, 0); break;
  case RL: rec(t, 60, 0, 0); break;
  case RK: rec(t, 3, 1, 0); break;
  case RD: rec(t, 30, 1, 1); break;
  case RX: rec(t, 2, 1, 0); (void)zos_forward(t, 3, 2, 1, x, y); rec(t, 4, 0, 0); break;
  case DOC: tape_doc(t, 3, 2, xx, y); break;
  default: (void)modes::eval(t, o, x, true);
  }
}
static void sequence(const std::vector<int> &q) {
  const short t = dsl::freshTape();
  rec(t, 2, 0, 0);
  mc::trace();
  uint64_t h = 29;
  for (int o : q) h = mc::hmix(h, uint64_t(o));
  mc::state(h);
  periods([&] { for (int o : q) op(t, o); });
}
// blocks are registered anew by each recording; evaluating them keeps nothing
static void blocks(int which, int mode) {
  poolT.clear(); nextT = 0;
  nY = 0;
  dsl::adolcrc(4096, 4096, 4096, 4096);
  (void)(which ? pFix : pCheckpoint)(PT[0]);
  const short t = poolT[0];
  mc::trace();
  periods([&] { static const double x[2] = {0.4, 0.7}; (void)modes::eval(t, mode, x, true, 2, 2); });
}
static const int BM[] = {modes::ZOS, modes::FOSR, modes::FOVR, modes::FOV};
struct R : mc::Runner {
  std::vector<int> P;
  void setup() override {
    childInit = [] { dsl::freshTape(); };
    for (int p = 0; p < NTP; p++) if (std::string n = TPs[p].name; n != "checkpointing" && n != "fixed point" && n != "refusals") P.push_back(p);
    const uint64_t np = P.size();
    mc::Space s;
    s.name = "programs"; s.n = np * (np + 1); s.chunk = 2; s.cpu_s = 60;
    s.rule = "every program of recordings and evaluations, and every pair in turn, repeated 36 times";
    s.run = [=, this](uint64_t k) { mc::Dec d(k); const int a = P[d(np)], b = int(d(np + 1)); programs(a, b ? P[size_t(b - 1)] : -1); };
    s.describe = [=, this](uint64_t k) { mc::Dec d(k); const int a = P[d(np)], b = int(d(np + 1)); return std::string(TPs[a].name) + (b ? std::string(" and ") + TPs[P[size_t(b - 1)]].name : ""); };
    spaces.push_back(s);
    const int L = mc::thorough ? 4 : 3;
    mc::Space t;
    t.name = "sequences"; t.n = mc::ipow(uint64_t(NOPS), unsigned(L)); t.chunk = 50; t.cpu_s = 60;
    t.rule = mc::fmt("all sequences of %d of %d recordings and evaluations of one trace, repeated 36 times", L, int(NOPS));
    auto dec = [=](uint64_t k) { mc::Dec d(k); std::vector<int> q; for (int i = 0; i < L; i++) q.push_back(int(d(uint64_t(NOPS)))); return q; };
    t.run = [=](uint64_t k) { sequence(dec(k)); };
    t.describe = [=](uint64_t k) { std::string r; for (int o : dec(k)) r += (r.empty() ? "" : "; ") + opName(o); return r; };
    spaces.push_back(t);
    mc::Space u;
    u.name = "blocks"; u.n = 8; u.chunk = 1;
    u.rule = "repeated evaluation of recordings with a checkpointed loop or a fixed-point iteration";
    u.run = [](uint64_t k) { if (k / 4 && k % 4 > 1) { mc::trivial(); return; } blocks(int(k / 4), BM[k % 4]); };
    u.describe = [](uint64_t k) { return std::string(k / 4 ? "fixed point, " : "checkpointing, ") + modes::modeName[BM[k % 4]]; };
    spaces.push_back(u);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
