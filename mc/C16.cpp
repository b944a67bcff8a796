// C16: the traceless forward type computes the values of plain doubles and exact
// directional derivatives, for every number of directions.
#include <adolc/adtl.h>
#include "ref.h"
#include "mc.h"
namespace ref {
inline double val(const adtl::adouble &x) { return x.getValue(); }
} // namespace ref
#include "onesided.h"
#include "dsl.h"
#include <sstream>
using namespace dsl;
using mc::fail;
using mc::expectNear;
using mc::fmt;
typedef adtl::adouble A;
constexpr int ND = 8;
typedef ref::Dual<ND> D;
static const double PTS[][2] = {{0.5, 0.5}, {0, 0}, {1.625, -0.75}, {0.25, 0.5625}, {-1, 0}, {0.7, 1.3}};
static const double GV[] = {-1e6, -2, -1, -0.5, -1e-7, -0.0, 0.0, 1e-7, 0.5, 1, 2, 1e6};
static double PG[144][2];
constexpr int NP = 6;
static const double SEED[2][ND] = {{1, 0, -1, 0.5, 3, 0, -2, 1}, {0, 1, 1, -2, 0.25, -1, 0, 1}};
static const size_t DIRS[] = {1, 2, 3, 8, 9, 17, 64, 65}; // beyond ND the seeds repeat
constexpr int NDIRS = 8;
static int cSkip, cKink;

// leaves not-a-number in the memory the next variables get
static void poison() {
  std::vector<A> v;
  v.reserve(48);
  for (int i = 0; i < 48; i++) { v.emplace_back(std::nan("")); for (size_t k = 0; k < adtl::getNumDir(); k++) v.back().setADValue(k, std::nan("")); }
}
static void dirs(size_t p) { if (adtl::getNumDir() != p) adtl::setNumDir(p); poison(); }
struct Ref { bool ok, smooth; double v[NR]; D y[NR]; double scale; };
static Ref reference(const Prog &p, const double *x) {
  Ref r;
  r.ok = runDouble(p, x, r.v);
  r.scale = 1;
  r.smooth = true;
  if (!r.ok) return r;
  ref::flags.clear();
  D g[NR];
  for (int i = 0; i < 2; i++) { g[i].v = x[i]; for (int k = 0; k < ND; k++) g[i].g[k] = SEED[i][k]; }
  g[2] = D(R2);
  for (auto &o : p) {
    exec<D>(o, g);
    for (auto &q : g) for (double e : q.g) { if (!std::isfinite(e)) r.smooth = false; r.scale = std::fmax(r.scale, std::fmax(std::fabs(e), std::fabs(q.v))); }
  }
  for (int i = 0; i < NR; i++) r.y[i] = g[i];
  if (ref::flags.fuzzy) r.ok = false;
  if (ref::flags.kink || r.scale > 1e9) r.smooth = false;
  return r;
}
static void checkProgram(const Prog &p, const double *x) {
  const bool few = (p.size() > 1 || (x >= PG[0] && x < PG[0] + 288)) && !mc::thorough; // longer programs: 1 and 3 directions
  Ref r = reference(p, x);
  if (!r.ok) { mc::count(cSkip); mc::trivial(); return; }
  if (!r.smooth) mc::count(cKink);
  for (size_t nd : DIRS) {
    if (few && nd != 1 && nd != 3) continue;
    dirs(nd);
    A y[NR];
    y[0] = x[0]; y[1] = x[1]; y[2] = R2;
    for (int i = 0; i < 2; i++) for (size_t k = 0; k < nd; k++) y[i].setADValue(k, SEED[i][k % ND]);
    for (auto &o : p) exec<A>(o, y);
    mc::transition();
    for (int i = 0; i < NR; i++) {
      expectNear("value", y[i].getValue(), r.v[i], 1e-12, 1, "r%d with %zu directions", i, nd);
      if (r.smooth)
        for (size_t k = 0; k < nd; k++) {
          expectNear("derivative", y[i].getADValue(k), r.y[i].g[k % ND], 1e-10, r.scale, "r%d direction %zu of %zu at (%g,%g)", i, k, nd, x[0], x[1]);
          mc::checked();
          if (y[i].getADValue()[k] != y[i].getADValue(k) && !std::isnan(y[i].getADValue(k))) fail("accessor", "getADValue()[%zu] differs from getADValue(%zu)", k, k);
        }
    }
  }
}

// ---------------------------------------------------------- special functions
struct Bin { const char *name; A (*f)(const A &, const A &); double (*v)(double, double); double (*da)(double, double); double (*db)(double, double); bool (*dom)(double, double); };
static const double G[] = {-3, -1.5, -1, -0.5, 0, 0.25, 0.5, 1, 2, 2.5, 3};
constexpr int NG = 11;
static double Z(double, double) { return 0; }
static bool bpos(double a, double) { return a > 0; }
static const Bin BINS[] = {
  {"atan2(a,b)", [](const A &a, const A &b) { return atan2(a, b); }, [](double a, double b) { return std::atan2(a, b); }, [](double a, double b) { return b / (a * a + b * b); }, [](double a, double b) { return -a / (a * a + b * b); }, [](double a, double b) { return (a != 0 || b != 0) && !(a == 0 && b < 0); }},
  {"pow(a,b)", [](const A &a, const A &b) { return pow(a, b); }, [](double a, double b) { return std::pow(a, b); }, [](double a, double b) { return b * std::pow(a, b - 1); }, [](double a, double b) { return std::log(a) * std::pow(a, b); }, bpos},
  {"pow(a,const b)", [](const A &a, const A &b) { return pow(a, b.getValue()); }, [](double a, double b) { return std::pow(a, b); }, [](double a, double b) { return b == 0 ? 0.0 : b * std::pow(a, b - 1); }, Z, [](double a, double b) { return a > 0 || (b == std::floor(b) && (a != 0 || b >= 0)) || (a == 0 && b >= 1); }},
  {"pow(const a,b)", [](const A &a, const A &b) { return pow(a.getValue(), b); }, [](double a, double b) { return std::pow(a, b); }, Z, [](double a, double b) { return std::log(a) * std::pow(a, b); }, bpos},
  {"ldexp(a,b)", [](const A &a, const A &b) { return ldexp(a, b); }, [](double a, double b) { return a * std::exp2(b); }, [](double, double b) { return std::exp2(b); }, [](double a, double b) { return a * std::exp2(b) * M_LN2; }, nullptr},
  {"ldexp(a,const b)", [](const A &a, const A &b) { return ldexp(a, b.getValue()); }, [](double a, double b) { return a * std::exp2(b); }, [](double, double b) { return std::exp2(b); }, Z, nullptr},
  {"ldexp(const a,b)", [](const A &a, const A &b) { return ldexp(a.getValue(), b); }, [](double a, double b) { return a * std::exp2(b); }, Z, [](double a, double b) { return a * std::exp2(b) * M_LN2; }, nullptr},
  {"a/b", [](const A &a, const A &b) { return a / b; }, [](double a, double b) { return a / b; }, [](double, double b) { return 1 / b; }, [](double a, double b) { return -a / (b * b); }, [](double, double b) { return b != 0; }},
  {"a*b", [](const A &a, const A &b) { return a * b; }, [](double a, double b) { return a * b; }, [](double, double b) { return b; }, [](double a, double) { return a; }, nullptr},
  {"int*a+b-int", [](const A &a, const A &b) { return 2 * a + b / 4 - 3; }, [](double a, double b) { return 2 * a + b / 4 - 3; }, [](double, double) { return 2.0; }, [](double, double) { return 0.25; }, nullptr},
};
constexpr int NBINS = sizeof BINS / sizeof *BINS;
static void checkBinary(int f, double a, double b, size_t nd) {
  const Bin &B = BINS[f];
  if (B.dom && !B.dom(a, b)) { mc::trivial(); return; }
  dirs(nd);
  A x(a), y(b);
  for (size_t k = 0; k < nd; k++) { x.setADValue(k, SEED[0][k % ND]); y.setADValue(k, SEED[1][k % ND]); }
  A z = B.f(x, y);
  mc::transition();
  expectNear("value", z.getValue(), B.v(a, b), 1e-13, 0, "%s at (%g,%g)", B.name, a, b);
  for (size_t k = 0; k < nd; k++) {
    const double da = B.da(a, b), db = B.db(a, b);
    double w = (SEED[0][k % ND] ? da * SEED[0][k % ND] : 0) + (SEED[1][k % ND] ? db * SEED[1][k % ND] : 0);
    expectNear("derivative", z.getADValue(k), w, 1e-12, std::fabs(da) + std::fabs(db), "%s at (%g,%g) direction %zu", B.name, a, b, k);
    if (x.getADValue(k) != SEED[0][k % ND] || y.getADValue(k) != SEED[1][k % ND] || x.getValue() != a || y.getValue() != b) fail("operand", "%s changed its operands", B.name);
  }
  // comparisons, logical not, conversion, frexp: all on values only
  struct { const char *n; bool g, w; } c[] = {
    {"a<b", x < y, a < b}, {"a>b", x > y, a > b}, {"a<=b", x <= y, a <= b}, {"a>=b", x >= y, a >= b}, {"a==b", x == y, a == b}, {"a!=b", x != y, a != b},
    {"a<c", x < b, a < b}, {"a>c", x > b, a > b}, {"a<=c", x <= b, a <= b}, {"a>=c", x >= b, a >= b}, {"a==c", x == b, a == b}, {"a!=c", x != b, a != b},
    {"c<b", a < y, a < b}, {"c>b", a > y, a > b}, {"c<=b", a <= y, a <= b}, {"c>=b", a >= y, a >= b}, {"c==b", a == y, a == b}, {"c!=b", a != y, a != b}, {"!a", !x, !a}};
  for (auto &q : c) { mc::checked(); if (q.g != q.w) fail("comparison", "%s at (%g,%g)", q.n, a, b); }
  int e1, e2;
  double m1 = frexp(x, &e1), m2 = std::frexp(a, &e2);
  if (m1 != m2 || e1 != e2 || (const double &)(x) != a) fail("frexp", "frexp or conversion of %g", a);
}
// --------------------------------------------------- life cycles of variables
enum { L_DEF, L_VAL, L_ADV, L_COPY, L_ASSIGN, L_ASGC, L_SETV, L_SETP, L_SETI, L_ADD, L_ADDC, L_MULSELF, L_KILL, L_SWAP, L_COND, L_PUSH, L_POP, NL };
static const char *lName[] = {"new default", "new from value", "new from value and derivatives", "new copy", "assign", "assign value", "setValue", "setADValue(array)", "setADValue(i)", "+=", "+=c", "*=self", "delete", "swap", "condassign", "vector push_back", "vector erase front"};
struct Mod { double v = 0, g[ND] = {}; };
static void lifeOps(int op, int h, size_t nd, std::unique_ptr<A> *s, std::unique_ptr<Mod> *m, std::vector<A> &vec, std::vector<Mod> &mv, int step) {
  const int o = (h + 1) % 2;
  const double c = 0.5 + step;
  double adv[ND];
  for (int k = 0; k < ND; k++) adv[k] = 1 + step * 10 + k;
  auto need = [&](int q) { if (!s[q]) { s[q] = std::make_unique<A>(2.0 + q); m[q] = std::make_unique<Mod>(); m[q]->v = 2.0 + q; } };
  switch (op) {
  case L_DEF: s[h].reset(new A); m[h].reset(new Mod); break;
  case L_VAL: s[h].reset(new A(c)); m[h].reset(new Mod{c}); break;
  case L_ADV: s[h].reset(new A(c, adv)); m[h].reset(new Mod{c}); std::copy(adv, adv + ND, m[h]->g); break;
  case L_COPY: { need(o); s[h].reset(new A(*s[o])); m[h].reset(new Mod(*m[o])); break; }
  case L_ASSIGN: need(h); need(o); *s[h] = *s[o]; *m[h] = *m[o]; *s[h] = *s[h]; break;
  case L_ASGC: need(h); *s[h] = c; *m[h] = Mod{c}; break;
  case L_SETV: need(h); s[h]->setValue(c); m[h]->v = c; break;
  case L_SETP: need(h); s[h]->setADValue(adv); std::copy(adv, adv + ND, m[h]->g); break;
  case L_SETI: need(h); s[h]->setADValue(nd - 1, c); m[h]->g[nd - 1] = c; break;
  case L_ADD: need(h); need(o); *s[h] += *s[o]; m[h]->v += m[o]->v; for (int k = 0; k < ND; k++) m[h]->g[k] += m[o]->g[k]; break;
  case L_ADDC: need(h); *s[h] += c; m[h]->v += c; break;
  case L_MULSELF: need(h); *s[h] *= *s[h]; for (int k = 0; k < ND; k++) m[h]->g[k] *= 2 * m[h]->v; m[h]->v *= m[h]->v; break;
  case L_KILL: s[h].reset(); m[h].reset(); break;
  case L_SWAP: need(h); need(o); std::swap(*s[h], *s[o]); std::swap(*m[h], *m[o]); break;
  case L_COND: need(h); need(o); condassign(*s[h], *s[o] - 2.5, *s[o], *s[h]); if (m[o]->v - 2.5 > 0) *m[h] = *m[o]; break;
  case L_PUSH: need(h); vec.push_back(*s[h]); mv.push_back(*m[h]); vec.resize(vec.size() + 1); mv.push_back(Mod()); vec.back() += *s[h]; for (int k = 0; k < ND; k++) mv.back().g[k] += m[h]->g[k]; mv.back().v += m[h]->v; break;
  case L_POP: if (!vec.empty()) { vec.erase(vec.begin()); mv.erase(mv.begin()); } break;
  }
}
static void same(const char *what, const A &a, const Mod &m, size_t nd) {
  mc::checked();
  if (a.getValue() != m.v) fail("life-value", "%s: value %g, expected %g", what, a.getValue(), m.v);
  for (size_t k = 0; k < nd; k++) if (a.getADValue(k) != m.g[k]) fail("life-derivative", "%s: derivative %zu is %g, expected %g", what, k, a.getADValue(k), m.g[k]);
}
static void checkLife(uint64_t k, int L, size_t nd) {
  dirs(nd);
  std::unique_ptr<A> s[2];
  std::unique_ptr<Mod> m[2];
  std::vector<A> vec;
  std::vector<Mod> mv;
  for (int i = 0; i < L; i++) {
    int op = int(k % NL); k /= NL;
    int h = int(k % 2); k /= 2;
    lifeOps(op, h, nd, s, m, vec, mv, i);
    mc::transition();
    uint64_t st = uint64_t(op);
    for (int q = 0; q < 2; q++) if (s[q]) { same(lName[op], *s[q], *m[q], nd); st = mc::hdouble(st, m[q]->v); for (size_t j = 0; j < nd; j++) st = mc::hdouble(st, m[q]->g[j]); }
    for (size_t q = 0; q < vec.size(); q++) same("vector element", vec[q], mv[q], nd);
    mc::state(st + vec.size());
  }
}
// text form written by << is read back by >> into any variable
static void checkStream(uint64_t k) {
  size_t nd = DIRS[k % NDIRS]; k /= NDIRS;
  dirs(nd);
  A a(G[k % NG] * 0.25), b(G[(k + 3) % NG]), x, y;
  for (size_t i = 0; i < nd; i++) { a.setADValue(i, G[(k + i) % NG]); b.setADValue(i, G[(k * 3 + i) % NG]); y.setADValue(i, 77); }
  std::stringstream s;
  s << a << " " << b << std::endl;
  s >> x >> y;
  mc::checked();
  if (x != a || y != b) fail("stream", "'%s' read back as %g %g", s.str().c_str(), x.getValue(), y.getValue());
  for (size_t i = 0; i < nd; i++) if (x.getADValue(i) != a.getADValue(i) || y.getADValue(i) != b.getADValue(i)) fail("stream", "'%s' read back with derivative %zu = %g, %g", s.str().c_str(), i, x.getADValue(i), y.getADValue(i));
  bool threw = false;
  try { a.setADValue(nd, 1.0); } catch (const std::exception &) { threw = true; }
  if (!threw) fail("range", "setADValue(%zu) with %zu directions is accepted", nd, nd);
  threw = false;
  try { (void)a.getADValue(nd); } catch (const std::exception &) { threw = true; }
  if (!threw) fail("range", "getADValue(%zu) with %zu directions is accepted", nd, nd);
}
// the direction count may change whenever no variable exists
static void checkCounts(uint64_t k, int L) {
  for (int i = 0; i < L; i++) {
    size_t nd = 1 + size_t(k % 6); k /= 6;
    adtl::setNumDir(nd);
    if (adtl::getNumDir() != nd) fail("numdir", "setNumDir(%zu), getNumDir() %zu", nd, adtl::getNumDir());
    poison();
    std::vector<A> v(3);
    for (int q = 0; q < 3; q++) { v[size_t(q)] = 0.5 + q; for (size_t d = 0; d < nd; d++) v[size_t(q)].setADValue(d, q == int(d % 3) ? 1.0 : 0.0); }
    A z = v[0] * v[1] + sin(v[2]) / v[0];
    const double g[3] = {1.5 - std::sin(2.5) / 0.25, 0.5, std::cos(2.5) / 0.5};
    for (size_t d = 0; d < nd; d++) expectNear("numdir-derivative", z.getADValue(d), g[d % 3], 1e-13, 1, "direction %zu of %zu", d, nd);
    mc::transition();
    mc::state(nd * 16 + uint64_t(i));
  }
}
struct R : mc::Runner {
  std::vector<Op> Af, Am, As, At;
  void add(const char *name, const std::vector<Op> *al, int L, int np, const char *rule, uint64_t chunk, const double (*P)[2] = PTS) {
    mc::Space s;
    s.name = name;
    s.n = mc::ipow(al->size(), unsigned(L)) * uint64_t(np);
    s.chunk = chunk;
    s.rule = fmt("%s (%zu operations, length %d) x %d points x %s directions; memory of new variables holds NaN", rule, al->size(), L, np, L > 1 && !mc::thorough ? "{1,3}" : "{1,2,3,8,9,17,64,65}");
    s.run = [=](uint64_t k) { checkProgram(prog(*al, L, k / uint64_t(np)), P[k % uint64_t(np)]); };
    s.describe = [=](uint64_t k) { return dsl::str(prog(*al, L, k / uint64_t(np))) + fmt(" @%d", int(k % uint64_t(np))); };
    spaces.push_back(s);
  }
  void setup() override {
    cSkip = mc::counter("outside_domain");
    cKink = mc::counter("value_only_at_poles_and_jumps");
    auto mk = [](AlphaCfg c, bool cmp) { c.cmp = cmp; auto a = alphabet(c); return a; };
    Af = mk(cfgFull(), true);
    Am = mk(cfgMid(), true);
    As = mk(cfgSmall(), true);
    At = mk(cfgTiny(), false);
    add("len1", &Af, 1, NP, "every operation, operand form and aliasing pattern", 500);
    for (int i = 0; i < 144; i++) { PG[i][0] = GV[i / 12]; PG[i][1] = GV[i % 12]; }
    add("grid", &Af, 1, 144, "every operation, operand form and aliasing pattern on a grid of points with both zeros, borders of domains, tiny and huge coordinates", 3000, PG);
    add("len2", &Am, 2, mc::thorough ? NP : 2, "all pairs of operations", 3000);
    add("len3", mc::thorough ? &As : &At, 3, mc::thorough ? 2 : 3, "all triples of representative operations", 3000);
    if (mc::thorough) add("len4", &At, 4, 1, "all quadruples of few operations", 5000);
    mc::Space s;
    s.name = "binary";
    s.n = uint64_t(NBINS * NG * NG * NDIRS);
    s.chunk = 500;
    s.rule = fmt("%d two-argument functions x an %dx%d grid of arguments incl. zeros and axes x {1,2,3,8,9,17,64,65} directions; all comparison forms, !, conversion, frexp", NBINS, NG, NG);
    auto dec = [](uint64_t k, int &f, double &a, double &b, size_t &nd) { f = int(k % NBINS); k /= NBINS; a = G[k % NG]; k /= NG; b = G[k % NG]; k /= NG; nd = DIRS[k]; };
    s.run = [=](uint64_t k) { int f; double a, b; size_t nd; dec(k, f, a, b, nd); checkBinary(f, a, b, nd); };
    s.describe = [=](uint64_t k) { int f; double a, b; size_t nd; dec(k, f, a, b, nd); return fmt("%s at (%g,%g) with %zu directions", BINS[f].name, a, b, nd); };
    spaces.push_back(s);
    const int L = mc::thorough ? 4 : 3;
    s.name = "life";
    s.n = mc::ipow(NL * 2, unsigned(L)) * 2;
    s.chunk = 2000;
    s.rule = fmt("all histories of %d operations on the life of two variables and a vector, against a record of value and derivatives, with 1 and 3 directions", L);
    s.run = [=](uint64_t k) { checkLife(k / 2, L, k % 2 ? 3 : 1); };
    s.describe = [=](uint64_t k) { std::string t = k % 2 ? "3 directions:" : "1 direction:"; k /= 2; for (int i = 0; i < L; i++) { t += fmt(" %s(%d)", lName[k % NL], int(k / NL % 2)); k /= NL * 2; } return t; };
    spaces.push_back(s);
    s.name = "stream";
    s.n = uint64_t(NDIRS * NG);
    s.chunk = 50;
    s.rule = "writing and reading back, accessors out of range";
    s.run = checkStream;
    s.describe = [](uint64_t k) { return fmt("%zu directions, values %d", DIRS[k % NDIRS], int(k / NDIRS)); };
    spaces.push_back(s);
    s.name = "counts";
    const int LC = 4;
    s.n = mc::ipow(6, LC);
    s.chunk = 300;
    s.rule = "all sequences of 4 direction counts 1..6, a gradient computed after each change";
    s.run = [=](uint64_t k) { checkCounts(k, LC); };
    s.describe = [=](uint64_t k) { std::string t; for (int i = 0; i < LC; i++) { t += fmt(" %d", int(k % 6) + 1); k /= 6; } return t; };
    spaces.push_back(s);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
