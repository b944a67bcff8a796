// C02, second part: independents and dependents named by an active subscript,
// and table look-ups. A trace recorded at one point and evaluated at another
// has to agree with the program written down without subscripts at that point.
#include "modes.h"
#include <sstream>
using namespace dsl;
using mc::fail;
using mc::fmt;
using modes::V;
static int cMoved, cSame, cKept, cLeft;
static short tA = -1, tB = -1;
static void fresh() { if (tA < 0) { tA = createNewTape(); tB = createNewTape(); } }
static void cmpv(const char *w, const V &a, const V &b) {
  if (a.size() != b.size()) fail(w, "%zu values, %zu expected", a.size(), b.size());
  double s = 1;
  for (double v : b) if (std::isfinite(v)) s = std::max(s, std::fabs(v));
  for (size_t i = 0; i < a.size(); i++) { mc::checked(); if (!mc::close(a[i], b[i], 1e-10, s)) fail(w, "value %zu of %zu is %.15g, the program without subscripts gives %.15g", i, a.size(), a[i], b[i]); }
}
static double at(const double *x, int k) { return k < 0 ? std::floor(std::fmin(std::fabs(x[0]), 2.5)) : k; }
static adouble index(const adouble &x0, int k, int form) {
  if (k >= 0) return adouble(double(k));
  if (form) { // chosen by conditional assignments
    adouble r = 0.0, p = fabs(x0);
    condassign(r, p - 1.0, adouble(1.0));
    condassign(r, p - 2.0, adouble(2.0));
    return r;
  }
  return floor(fmin(fabs(x0), 2.5));
}

// ------------------------------------------- subscripted inputs and outputs
enum { IN_PLAIN, IN_SHIFT, IN_DECL, IN_TWICE, NIN };
enum { OUT_SHIFT, OUT_DECL, OUT_MOVE, NOUT };
enum { M_NONE, M_SET, M_SETC, M_ADD, M_MUL, M_DIV, M_SUB, M_INC, M_PDEC, M_COND, M_CONDEQ, M_GET, M_OVER, NMID };
static const char *inName[] = {"x1 <<= v", "a[i] <<= v", "a[i].declareIndependent()", "a[i] <<= v, copied, overwritten"};
static const char *outName[] = {"a[j] >>= y", "a[j].declareDependent()", "x = a[j]; x >>= y"};
static const char *midName[] = {"", "a[k]=s", "a[k]=c", "a[k]+=s", "a[k]*=s", "a[k]/=s", "a[k]-=s", "++a[k]", "a[k]--", "condassign(a[k],s,x0)", "condeqassign(a[k],s,x0,s)", "s=a[k]", "a[k]=a[i]*s"};
struct Io { int in, out, mid, i, j, k, form; };
static std::string str(const Io &c) { auto ix = [](int k) { return k < 0 ? std::string("x0") : fmt("%d", k); }; return std::string(inName[c.in]) + "; " + midName[c.mid] + "; " + outName[c.out] + fmt(" i=%s j=%s k=%s%s", ix(c.i).c_str(), ix(c.j).c_str(), ix(c.k).c_str(), c.form ? " by condassign" : ""); }

static void record(short tag, const Io &c, const double *v, bool sub, int keep, double *y) {
  setCurrentTape(tag);
  trace_on(tag, keep);
  {
    adouble x0;
    x0 <<= v[0];
    advector a(3);
    // declaring a variable independent precedes any other assignment to it
    if (c.in == IN_PLAIN) for (size_t q = 0; q < 3; q++) a[q] = x0 * (0.5 + double(q)) + 1.25;
    const size_t I = size_t(at(v, c.i)), J = size_t(at(v, c.j)), K = size_t(at(v, c.k));
    // the second independent
    adouble x1;
    if (c.in == IN_PLAIN) { x1 <<= v[1]; if (sub) a[index(x0, c.i, c.form)] = x1; else a[I] = x1; }
    else if (!sub) { x1 <<= v[1]; a[I] = x1; }
    else {
      const adouble i = index(x0, c.i, c.form);
      if (c.in == IN_DECL) { a[i] = v[1]; a[i].declareIndependent(); }
      else a[i] <<= v[1];
    }
    if (c.in != IN_PLAIN) for (size_t q = 0; q < 3; q++) a[q] += x0 * (0.5 + double(q)) + 1.25;
    if (c.in == IN_TWICE) { adouble t; if (sub) { const adouble i = index(x0, c.i, c.form); t = a[i]; a[i] = t * t + x0; } else { t = a[I]; a[I] = t * t + x0; } }
    adouble s = sin(a[size_t(0)]) + a[size_t(1)] * a[size_t(2)];
    if (c.mid != M_NONE) {
      auto mid = [&](auto &&r, auto get) {
        switch (c.mid) {
        case M_SET: r = s; break;
        case M_SETC: r = 0.75; break;
        case M_ADD: r += s; break;
        case M_MUL: r *= s; break;
        case M_DIV: r /= s; break;
        case M_SUB: r -= s; break;
        case M_INC: ++r; break;
        case M_PDEC: s = s + r-- * 2.0; break;
        case M_COND: condassign(r, s, x0); break;
        case M_CONDEQ: condeqassign(r, s, x0, s); break;
        case M_GET: s = s * get(K, c.k); break;
        default: r = get(I, c.i) * s; break;
        }
      };
      const advector &ca = a;
      if (sub) mid(a[index(x0, c.k, c.form)], [&](size_t, int k) { return ca[index(x0, k, c.form)]; });
      else mid(a[K], [&](size_t k, int) { return adouble(a[k]); });
    }
    // the dependents
    if (sub) {
      auto r = a[index(x0, c.j, c.form)];
      if (c.out == OUT_SHIFT) r >>= y[0];
      else if (c.out == OUT_DECL) { y[0] = adouble(r).value(); r.declareDependent(); }
      else { adouble t = r; t >>= y[0]; }
    } else { adouble t = a[J]; t >>= y[0]; }
    s >>= y[1];
    adouble z = a[size_t(0)] * 2.0 + a[size_t(1)] * 3.0 - a[size_t(2)];
    z >>= y[2];
  }
  trace_off();
}
static const double PT[][2] = {{0.4, 1.5}, {1.3, -0.75}, {-2.2, 0.625}, {3.7, 2.25}};

static void ioCase(const Io &c, const double *p, const double *q) {
  fresh();
  double y[3], yb[3];
  const bool moves = (c.i < 0 && at(p, -1) != at(q, -1)) || (c.j < 0 && at(p, -1) != at(q, -1)) || (c.k < 0 && c.mid && at(p, -1) != at(q, -1));
  mc::count(moves ? cMoved : cSame);
  try {
    record(tA, c, p, true, 1, y);
    mc::trace();
    V z(2), zb(2);
    int rc = fos_reverse(tA, 3, 2, modes::W[0], z.data());
    record(tB, c, p, false, 1, yb);
    int rcb = fos_reverse(tB, 3, 2, modes::W[0], zb.data());
    cmpv("recorded values", V(y, y + 3), V(yb, yb + 3));
    if (rc < 0 || rcb < 0) fail("rc", "fos_reverse right after recording returned %d (%d)", rc, rcb);
    cmpv("kept adjoints", z, zb);
    mc::count(cKept);
    auto st = tapestats(tA);
    if (st[TapeInfos::NUM_INDEPENDENTS] != 2 || st[TapeInfos::NUM_DEPENDENTS] != 3) fail("stats", "%zu independents, %zu dependents", size_t(st[TapeInfos::NUM_INDEPENDENTS]), size_t(st[TapeInfos::NUM_DEPENDENTS]));
    record(tB, c, q, false, 0, yb);
    for (int m = 0; m < modes::NMODES; m++) {
      if (m == modes::JPBF || m == modes::JPBR) continue;
      mc::transition();
      cmpv(modes::modeName[m], modes::eval(tA, m, q, false), modes::eval(tB, m, q, false));
    }
    cmpv("zos back", modes::eval(tA, modes::FOVR, p, false), (record(tB, c, p, false, 0, yb), modes::eval(tB, modes::FOVR, p, false)));
  } catch (...) { tA = tB = -1; throw; }
}

// ------------------------------------------------------------ table look-up
// breakpoints b0 <= b1 <= ...; the result is the last i+1 with a > b_i * s
struct Lk { int n, b[4], a, s, use, act; };
static const double BP[] = {-1.5, -0.5, 0.75, 2.0};
static const double LA[] = {-2.0, -1.5, -0.625, 0.75, 1.0, 3.5}, LS[] = {1.0, 0.5, 2.0, 0.0};
static std::string str(const Lk &c, int p, int q);
static int lookup(const Lk &c, double a, double s) { int r = 0; for (int i = 0; i < c.n; i++) if (a - BP[c.b[i]] * s > 0) r = i + 1; return r; }
static void lookRec(short tag, const Lk &c, const double *v, int asIndex, int keep, double *y) {
  setCurrentTape(tag);
  trace_on(tag, keep);
  {
    adouble x0, x1;
    x0 <<= v[0];
    x1 <<= v[1];
    adouble r;
    if (asIndex < 0) {
      advector b(size_t(c.n));
      for (int i = 0; i < c.n; i++) if (c.act) b[size_t(i)] = BP[c.b[i]] + (x0 - v[0]) * 0.0; else b[size_t(i)] = BP[c.b[i]];
      r = b.lookupindex(x0, x1);
    } else r = double(asIndex);
    advector t(5);
    for (size_t i = 0; i < 5; i++) t[i] = x0 * (1.0 + double(i)) + x1 * x1 * double(i * i) * 0.25;
    adouble w = 0.5;
    if (c.use == 0) w = r * x0;
    else if (asIndex >= 0) { if (c.use == 1) w = t[size_t(asIndex)]; else t[size_t(asIndex)] *= x1 + 2.0; }
    else if (c.use == 1) { const advector &ct = t; w = ct[r]; }
    else t[r] *= x1 + 2.0;
    r >>= y[0];
    w >>= y[1];
    adouble z = t[size_t(0)] + t[size_t(1)] * 2.0 + t[size_t(2)] * 3.0 + t[size_t(3)] * 4.0 + t[size_t(4)] * x0;
    z >>= y[2];
  }
  trace_off();
}
static std::string str(const Lk &c, int p, int q) {
  std::string r = "breakpoints";
  for (int i = 0; i < c.n; i++) r += fmt(" %g", BP[c.b[i]]);
  return r + fmt("%s use=%d (%g,%g)->(%g,%g)", c.act ? " active" : "", c.use, LA[p % 6], LS[p / 6], LA[q % 6], LS[q / 6]);
}
static void lookCase(const Lk &c, int p, int q) {
  fresh();
  const double P[2] = {LA[p % 6], LS[p / 6]}, Q[2] = {LA[q % 6], LS[q / 6]};
  double y[3], yb[3];
  try {
    lookRec(tA, c, P, -1, 1, y);
    mc::trace();
    lookRec(tB, c, P, lookup(c, P[0], P[1]), 1, yb);
    cmpv("recorded values", V(y, y + 3), V(yb, yb + 3));
    V z(2), zb(2);
    if (fos_reverse(tA, 3, 2, modes::W[0], z.data()) < 0 || fos_reverse(tB, 3, 2, modes::W[0], zb.data()) < 0) fail("rc", "fos_reverse right after recording");
    const bool tieP = [&] { for (int i = 0; i < c.n; i++) if (P[0] == BP[c.b[i]] * P[1]) return true; return false; }();
    if (!tieP) cmpv("kept adjoints", z, zb);
    bool tie = false;
    for (int i = 0; i < c.n; i++) tie = tie || Q[0] == BP[c.b[i]] * Q[1];
    lookRec(tB, c, Q, lookup(c, Q[0], Q[1]), 0, yb);
    V v(3);
    const int rc = zos_forward(tA, 3, 2, 0, Q, v.data());
    mc::transition();
    const int rp = lookup(c, P[0], P[1]), rq = lookup(c, Q[0], Q[1]);
    mc::count(rp == rq ? cSame : cMoved);
    if (rc < 0) fail("rc", "zos_forward returned %d", rc);
    if (rp != rq && rc == 3) fail("rc", "another table entry is selected, zos_forward returned 3");
    if (tie && rc > 0) fail("rc", "at a breakpoint zos_forward returned %d", rc);
    if (tie) mc::count(cLeft);
    cmpv("zos", v, V(yb, yb + 3));
    if (!tie) for (int m = 0; m < modes::NMODES; m++) {
      if (m >= modes::JPIDX && m <= modes::JPBR) continue;
      mc::transition();
      cmpv(modes::modeName[m], modes::eval(tA, m, Q, false), modes::eval(tB, m, Q, false));
    }
  } catch (...) { tA = tB = -1; throw; }
}

// ------------------------------------------------------------ declarations
// four inputs and three outputs, declared one by one or in spans
enum { D_SHIFT, D_DECL, D_SPAN, D_CONT, D_READ };
static void declCase(uint64_t k) {
  mc::Dec e(k);
  int in[4], out[3];
  for (int &f : in) f = int(e(4));
  for (int &f : out) f = int(e(4));
  const bool back = e(2);
  const int rd = int(e(4)); // a stream read over an active value: none, 0, 1, another
  fresh();
  const double P[4] = {0.5, -1.25, 2.0, 0.75}, Q[4] = {1.5, 0.25, -0.5, 3.0}, RV[4] = {0, 0, 1, 0.375};
  auto f = [&](const double *x, double *y) { double t = rd ? RV[rd] : x[0] * x[1]; y[0] = x[0] * x[1] + x[2]; y[1] = std::sin(x[3]) * x[0] + t; y[2] = x[3] * x[3] - t * x[2]; };
  auto cut = [&](const int *fm, int n, auto one, auto many) { // the groups in array or reversed order
    std::vector<std::pair<int, int>> g;
    for (int i = 0; i < n;) { int j = i + 1; if (fm[i] == D_SPAN) while (j < n && fm[j] == D_CONT) j++; g.push_back({i, j}); i = j; }
    if (back) std::reverse(g.begin(), g.end());
    std::vector<int> order;
    for (auto [a, b] : g) { if (fm[a] >= D_SPAN) many(size_t(a), size_t(b - a)); else one(size_t(a), fm[a]); for (int i = a; i < b; i++) order.push_back(i); }
    return order;
  };
  std::vector<int> io, oo;
  double y[3], want[3], yo[3] = {-7, -7, -7};
  try {
    setCurrentTape(tA);
    trace_on(tA);
    {
      std::vector<adouble> x(4), Y(3);
      io = cut(in, 4, [&](size_t i, int fm) { if (fm == D_SHIFT) x[i] <<= P[i]; else { x[i].value(P[i]); x[i].declareIndependent(); } },
               [&](size_t i, size_t c) { std::span<adouble>(x.data() + i, c) <<= std::span<const double>(P + i, c); });
      adouble t = x[0] * x[1];
      Y[0] = t + x[2];
      if (rd) { std::istringstream is(fmt("%g", RV[rd])); is >> t; }
      Y[1] = sin(x[3]) * x[0] + t;
      Y[2] = x[3] * x[3] - t * x[2];
      oo = cut(out, 3, [&](size_t i, int fm) { if (fm == D_SHIFT) Y[i] >>= yo[i]; else { yo[i] = Y[i].value(); Y[i].declareDependent(); } },
               [&](size_t i, size_t c) { std::span<adouble>(Y.data() + i, c) >>= std::span<double>(yo + i, c); });
      // an empty span declares nothing
      std::span<adouble>(x.data(), size_t(0)) <<= std::span<const double>(P, size_t(0));
      std::span<adouble>(Y.data(), size_t(0)) >>= std::span<double>(yo, size_t(0));
      std::ostringstream os;
      os << Y[0];
      if (std::fabs(atof(os.str().c_str()) - Y[0].value()) > 1e-4) fail("stream", "%.15g is printed as %s", Y[0].value(), os.str().c_str());
      if (isnan(Y[0]) || isinf(Y[0]) || !isfinite(Y[0]) || isnormal(Y[0]) != std::isnormal(Y[0].value())) fail("classify", "%.15g", Y[0].value());
    }
    trace_off();
    mc::trace();
    f(P, want);
    for (int i = 0; i < 3; i++) mc::expectNear("recorded", yo[i], want[i], 1e-12, 1, "y[%d]", i);
    auto st = tapestats(tA);
    if (st[TapeInfos::NUM_INDEPENDENTS] != 4 || st[TapeInfos::NUM_DEPENDENTS] != 3) fail("stats", "%zu independents, %zu dependents", size_t(st[TapeInfos::NUM_INDEPENDENTS]), size_t(st[TapeInfos::NUM_DEPENDENTS]));
    double xq[4], J[3][4], *Jp[3] = {J[0], J[1], J[2]};
    f(Q, want);
    for (int i = 0; i < 4; i++) xq[i] = Q[io[size_t(i)]];
    if (zos_forward(tA, 3, 4, 0, xq, y) < 0 || jacobian(tA, 3, 4, xq, Jp) < 0) fail("rc", "at the new point");
    mc::transition(2);
    for (int i = 0; i < 3; i++) mc::expectNear("value", y[i], want[oo[size_t(i)]], 1e-12, 1, "dependent %d", i);
    const double t = rd ? RV[rd] : Q[0] * Q[1], t0 = rd ? 0 : Q[1], t1 = rd ? 0 : Q[0];
    const double G[3][4] = {{Q[1], Q[0], 1, 0}, {std::sin(Q[3]) + t0, t1, 0, std::cos(Q[3]) * Q[0]}, {-t0 * Q[2], -t1 * Q[2], -t, 2 * Q[3]}};
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 4; j++) mc::expectNear("jacobian", J[i][j], G[oo[i]][io[j]], 1e-12, 1, "J[%zu][%zu]", i, j);
  } catch (...) { tA = tB = -1; throw; }
}

struct R : mc::Runner {
  void setup() override {
    childInit = [] { tA = tB = -1; };
    cMoved = mc::counter("other_element_selected"); cSame = mc::counter("same_element"); cKept = mc::counter("kept_recordings"); cLeft = mc::counter("at_breakpoint");
    {
      mc::Space s;
      s.name = "subscripted-io"; s.n = uint64_t(NIN * NOUT * NMID) * 4 * 4 * 4 * 2 * 16; s.chunk = 200;
      s.rule = "an independent and a dependent named by a constant or active subscript (by rounding or by conditional assignments) x every operation on a third subscript x 4 recording x 4 evaluation points, all modes";
      auto dec = [](uint64_t k, int &p, int &q) {
        mc::Dec e(k);
        Io c;
        q = int(e(4)); p = int(e(4));
        c.in = int(e(NIN)); c.out = int(e(NOUT)); c.mid = int(e(NMID));
        c.i = int(e(4)) - 1; c.j = int(e(4)) - 1; c.k = int(e(4)) - 1; c.form = int(e(2));
        return c;
      };
      s.run = [=](uint64_t k) {
        int p, q;
        Io c = dec(k, p, q);
        const bool act = c.i < 0 || c.j < 0 || (c.k < 0 && c.mid);
        // one representative: without active subscripts or operation
        if ((!act && (c.form || p != 0)) || (!c.mid && c.k > -1)) { mc::trivial(); return; }
        if (!mc::thorough && (c.i > 1 || c.j > 1 || c.k > 1)) { mc::trivial(); return; }
        mc::state(mc::hmix(21, k));
        ioCase(c, PT[p], PT[q]);
      };
      s.describe = [=](uint64_t k) { int p, q; Io c = dec(k, p, q); return str(c) + fmt(" (%g,%g)->(%g,%g)", PT[p][0], PT[p][1], PT[q][0], PT[q][1]); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "declarations"; s.n = 256 * 64 * 2 * 4; s.chunk = 400;
      s.rule = "four inputs and three outputs declared by <<= / >>=, by declareIndependent / declareDependent and by spans in all partitions, in array and in reversed order, with values read from streams in between: order, count, values and Jacobian at another point";
      s.run = [](uint64_t k) { mc::state(mc::hmix(23, k)); declCase(k); };
      s.describe = [](uint64_t k) {
        mc::Dec e(k);
        std::string r = "in=";
        for (int i = 0; i < 4; i++) r += "<d[,"[e(4)];
        r += " out=";
        for (int i = 0; i < 3; i++) r += ">d[,"[e(4)];
        r += e(2) ? " reversed" : "";
        return r + fmt(" read=%d", int(e(4)));
      };
      spaces.push_back(s);
    }
    {
      std::vector<Lk> L;
      for (int n = 0; n <= 4; n++) for (uint64_t k = 0; k < mc::ipow(4, unsigned(n)); k++) {
        Lk c{};
        c.n = n;
        mc::Dec e(k);
        bool ok = true;
        for (int i = 0; i < n; i++) { c.b[i] = int(e(4)); ok = ok && (!i || c.b[i] >= c.b[i - 1]); }
        if (!ok) continue;
        for (c.use = 0; c.use < 3; c.use++) for (c.act = 0; c.act < 2; c.act++) L.push_back(c);
      }
      const uint64_t NL = L.size();
      mc::Space s;
      s.name = "look-up"; s.n = NL * 24 * 24; s.chunk = 200;
      s.rule = fmt("lookupindex over all nondecreasing lists of 0..4 of 4 breakpoints (repeated ones included) x 24 recording x 24 evaluation points (breakpoints hit, scale 0) x 3 uses of the result, all modes");
      s.run = [=](uint64_t k) { mc::Dec e(k); const int q = int(e(24)), p = int(e(24)); const Lk &c = L[e(NL)]; if (!mc::thorough && c.n > 2 && (p % 5 != 1 || (c.use != 1 && c.act))) { mc::trivial(); return; } mc::state(mc::hmix(22, k)); lookCase(c, p, q); };
      s.describe = [=](uint64_t k) { mc::Dec e(k); const int q = int(e(24)), p = int(e(24)); return str(L[e(NL)], p, q); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
