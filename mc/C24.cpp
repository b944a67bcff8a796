// C24: statistics and printed traces describe the recording.
//
// The printed trace (tape_doc) is parsed and *executed*: a small interpreter
// gives each row its documented meaning, so a row that is missing, duplicated,
// out of order, or shows a wrong location or constant changes the results.
// From the same rows the statistics of the trace are counted again.
#include <cstring>
#include <limits>
#include <sstream>
#include "dsl.h"
#include "modes.h"
#include <adolc/oplate.h>
#include <adolc/tapedoc/tapedoc.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
using namespace dsl;
using mc::fail;
using mc::fmt;
typedef std::vector<double> V;
static int cRows, cUnknown, cPages, cSpilled;

// ---------------------------------------------------- the printed document
static char *docBuf = nullptr;
static size_t docLen = 0;
static std::string docName;
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
  const size_t n = strlen(p);
  if (n > 4 && !strcmp(p + n - 4, ".tex") && m[0] == 'w') {
    free(docBuf);
    docBuf = nullptr;
    docName = p;
    return open_memstream(&docBuf, &docLen);
  }
  return __real_fopen(p, m);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
}
struct Row { long cnt, rev; int op; std::string name, ext; std::vector<size_t> loc; V cst; };
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \n"), b = s.find_last_not_of(" \n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static size_t num(const std::string &s, const char *what) { char *e; const unsigned long v = strtoul(s.c_str(), &e, 10); if (s.empty() || *e) fail("format", "'%s' is no number (%s)", s.c_str(), what); return v; }
static std::vector<Row> parse(const std::string &doc) {
  if (doc.find("\\end{document}") == std::string::npos) fail("format", "the document is not complete");
  std::vector<Row> rows;
  std::istringstream in(doc);
  std::string l;
  int open = 0, page = 0;
  while (std::getline(in, l)) {
    if (l.find("\\begin{tabular}") == 0) { open++; page = 0; mc::count(cPages); if (open != 1) fail("format", "nested tables"); continue; }
    if (l.find("\\end{tabular}") == 0) { open--; continue; }
    if (l.find("&") == std::string::npos) continue;
    if (open != 1) fail("format", "a row outside of a table: %s", l.c_str());
    const size_t e = l.find("\\\\ \\hline");
    if (e == std::string::npos) fail("format", "a row without an end: %s", l.c_str());
    std::vector<std::string> c;
    std::string cur;
    for (char ch : l.substr(0, e)) if (ch == '&') { c.push_back(trim(cur)); cur.clear(); } else cur += ch;
    c.push_back(trim(cur));
    if (++page > 105) fail("format", "no page break");
    if (c.size() > 2 && c[2] == "code") continue;
    Row r;
    r.name = c.size() > 3 ? c[3] : "";
    r.op = c.size() > 2 ? int(num(c[2], "code")) : -1;
    const bool marker = r.op == start_of_tape || r.op == end_of_tape;
    const size_t cols = 10;
    if (marker ? c.size() < 9 : c.size() != cols) fail("columns", "a row of %zu instead of 10 columns: %s", c.size(), l.c_str());
    r.cnt = r.op == start_of_tape ? 0 : long(num(c[0], "counter"));
    r.rev = r.op == start_of_tape ? 0 : long(num(c[1], "reverse counter"));
    if (!marker) {
      for (size_t i = 4; i < cols - 2; i++) if (!c[i].empty()) { if (c[i].find("fctn ") == 0) r.loc.push_back(num(c[i].substr(5), "location")); else r.loc.push_back(num(c[i], "location")); }
      for (size_t i = cols - 2; i < cols; i++) if (!c[i].empty()) { std::string s = c[i]; for (auto &ch : s) if (ch == '$') ch = ' '; r.cst.push_back(atof(s.c_str())); }
    }
    rows.push_back(r);
    mc::count(cRows);
  }
  if (open != 0) fail("format", "a table is not closed");
  return rows;
}
static std::vector<Row> render(short tag, int m, int n, const double *x) {
  double y[8] = {0};
  docLen = 0;
  docName.clear();
  tape_doc(tag, m, n, x, y);
  mc::trace();
  if (docName != fmt("tape_%d.tex", int(tag))) fail("file", "the document is written to '%s'", docName.c_str());
  return parse(std::string(docBuf, docLen));
}
// --------------------------------------------------------- its execution
struct Cell { double v = 0; bool live = false, known = false; };
struct Sum { size_t ind = 0, dep = 0, ops = 0, vals = 0, eqprod = 0, sw = 0, tays = 0, params = 0, maxLoc = 0; V y; std::vector<char> known; };
static Sum interpret(const std::vector<Row> &rows, const V &x) {
  std::vector<Cell> M;
  Sum S;
  auto at = [&](size_t l) -> Cell & { if (l > 100000) fail("location", "location %zu", l); if (l >= M.size()) M.resize(l + 1); S.maxLoc = std::max(S.maxLoc, l + 1); return M[l]; };
  const char *now = "";
  auto rd = [&](size_t l) -> Cell { Cell c = at(l); if (!c.live) fail("dead", "%s uses location %zu, which holds no value", now, l); return c; };
  auto wr = [&](size_t l, double v, bool known) { Cell &c = at(l); c.v = v; c.live = true; c.known = known; S.tays++; };
  long expect = 1;
  bool ended = false;
  for (size_t q = 0; q < rows.size(); q++) {
    const Row &r = rows[q];
    now = r.name.c_str();
    mc::transition();
    if (ended) fail("format", "rows after the end of the trace");
    if (r.op == start_of_tape) { if (q) fail("format", "start of tape in row %zu", q); expect = 2; continue; }
    if (q == 0) fail("format", "the document does not begin with the start of the trace");
    if (r.cnt != expect) fail("counter", "row %zu (%s) has counter %ld instead of %ld", q, now, r.cnt, expect);
    expect = r.cnt + (r.op == end_of_op ? 2 : 1);
    if (q > 1 && rows[q - 1].op != start_of_tape && rows[q - 1].cnt + rows[q - 1].rev != r.cnt + r.rev) fail("counter", "the counters of row %zu (%s) do not add up", q, now);
    auto need = [&](size_t nl, size_t nc) { if (r.loc.size() != nl || r.cst.size() != nc) fail("entries", "%s has %zu locations and %zu constants", now, r.loc.size(), r.cst.size()); };
    auto unary = [&](double (*f)(double)) { need(2, 0); Cell a = rd(r.loc[0]); wr(r.loc[1], f(a.v), a.known); };
    auto unaryC = [&](double (*f)(double)) { need(2, 1); S.vals++; Cell a = rd(r.loc[0]); wr(r.loc[1], f(a.v), a.known); };
    auto aux = [&](double (*f)(double)) { need(3, 0); Cell a = rd(r.loc[0]); rd(r.loc[1]); wr(r.loc[2], f(a.v), a.known); };
    auto both = [&](double (*f)(double, double)) { need(3, 0); Cell a = rd(r.loc[0]), b = rd(r.loc[1]); wr(r.loc[2], f(a.v, b.v), a.known && b.known); };
    auto left = [&](double (*f)(double, double)) { need(2, 1); S.vals++; Cell a = rd(r.loc[0]); wr(r.loc[1], f(r.cst[0], a.v), a.known); };
    auto eqd = [&](double (*f)(double, double)) { need(1, 1); S.vals++; Cell a = rd(r.loc[0]); wr(r.loc[0], f(a.v, r.cst[0]), a.known); };
    auto eqa = [&](double (*f)(double, double)) { need(2, 0); Cell b = rd(r.loc[0]), a = rd(r.loc[1]); wr(r.loc[1], f(a.v, b.v), a.known && b.known); };
    auto target = [&](size_t l) { Cell c = rd(l); if (!c.known) fail("dead", "%s uses an unknown reference", now); return size_t(c.v); };
    auto cond = [&](size_t dst, bool eq, bool single) {
      S.vals++;
      Cell c = rd(r.loc[0]), a = rd(r.loc[1]);
      const bool t = eq ? c.v >= 0 : c.v > 0;
      if (single) { Cell d = rd(dst); if (t || !c.known) { wr(dst, a.v, a.known && c.known); S.tays--; } (void)d; S.tays++; }
      else { Cell b = rd(r.loc[2]); wr(dst, t ? a.v : b.v, (t ? a.known : b.known) && c.known); }
    };
    typedef double (*F2)(double, double);
    const F2 add = [](double a, double b) { return a + b; }, sub = [](double a, double b) { return a - b; }, mul = [](double a, double b) { return a * b; }, dv = [](double a, double b) { return a / b; };
    switch (r.op) {
    case end_of_op: case end_of_int: case end_of_val: need(0, 0); break;
    case end_of_tape: ended = true; S.ops = size_t(r.cnt); if (r.rev != 1) fail("counter", "the last row has the reverse counter %ld", r.rev); break;
    case eq_zero: case neq_zero: case le_zero: case gt_zero: case ge_zero: case lt_zero: {
      need(1, 0);
      Cell a = rd(r.loc[0]);
      break;
    }
    case assign_a: { need(2, 0); Cell a = rd(r.loc[0]); wr(r.loc[1], a.v, a.known); break; }
    case assign_d: need(1, 1); S.vals++; wr(r.loc[0], r.cst[0], true); break;
    case assign_d_zero: need(1, 0); wr(r.loc[0], 0, true); break;
    case assign_d_one: need(1, 0); wr(r.loc[0], 1, true); break;
    case assign_p: need(2, 1); if (r.loc[0] >= 100) fail("location", "parameter %zu", r.loc[0]); S.params = std::max(S.params, r.loc[0] + 1); wr(r.loc[1], r.cst[0], true); break;
    case assign_ind: need(1, 0); wr(r.loc[0], S.ind < x.size() ? x[S.ind] : 0, true); S.ind++; break;
    case assign_dep: { need(1, 0); Cell a = rd(r.loc[0]); S.y.push_back(a.v); S.known.push_back(a.known); S.dep++; break; }
    case eq_plus_d: eqd(add); break;
    case eq_plus_a: eqa(add); break;
    case eq_min_d: eqd(sub); break;
    case eq_min_a: eqa(sub); break;
    case eq_mult_d: eqd(mul); break;
    case eq_mult_a: eqa(mul); break;
    case eq_plus_prod: case eq_min_prod: { need(3, 0); Cell a = rd(r.loc[0]), b = rd(r.loc[1]), c = rd(r.loc[2]); wr(r.loc[2], r.op == eq_plus_prod ? c.v + a.v * b.v : c.v - a.v * b.v, a.known && b.known && c.known); S.tays--; S.eqprod++; break; } // nothing is overwritten irrecoverably
    case incr_a: case decr_a: { need(1, 0); Cell a = rd(r.loc[0]); wr(r.loc[0], r.op == incr_a ? a.v + 1 : a.v - 1, a.known); break; }
    case plus_a_a: both(add); break;
    case min_a_a: both(sub); break;
    case mult_a_a: both(mul); break;
    case div_a_a: both(dv); break;
    case plus_d_a: left(add); break;
    case min_d_a: left(sub); break;
    case mult_d_a: left(mul); break;
    case div_d_a: left(dv); break;
    case pos_sign_a: unary([](double a) { return a; }); break;
    case neg_sign_a: unary([](double a) { return -a; }); break;
    case exp_op: unary([](double a) { return std::exp(a); }); break;
    case log_op: unary([](double a) { return std::log(a); }); break;
    case sqrt_op: unary([](double a) { return std::sqrt(a); }); break;
    case cbrt_op: unary([](double a) { return std::cbrt(a); }); break;
    case pow_op: { need(2, 1); S.vals++; Cell a = rd(r.loc[0]); wr(r.loc[1], std::pow(a.v, r.cst[0]), a.known); break; }
    case sin_op: case cos_op: { need(3, 0); Cell a = rd(r.loc[0]); const double s = std::sin(a.v), c = std::cos(a.v); wr(r.loc[1], r.op == sin_op ? c : s, a.known); wr(r.loc[2], r.op == sin_op ? s : c, a.known); break; }
    case atan_op: aux([](double a) { return std::atan(a); }); break;
    case asin_op: aux([](double a) { return std::asin(a); }); break;
    case acos_op: aux([](double a) { return std::acos(a); }); break;
    case asinh_op: aux([](double a) { return std::asinh(a); }); break;
    case acosh_op: aux([](double a) { return std::acosh(a); }); break;
    case atanh_op: aux([](double a) { return std::atanh(a); }); break;
    case erf_op: aux([](double a) { return std::erf(a); }); break;
    case erfc_op: aux([](double a) { return std::erfc(a); }); break;
    case min_op: { need(3, 1); S.vals++; S.sw++; Cell a = rd(r.loc[0]), b = rd(r.loc[1]); wr(r.loc[2], a.v > b.v ? b.v : a.v, a.known && b.known); break; }
    case abs_val: S.sw++; unaryC([](double a) { return std::fabs(a); }); break;
    case ceil_op: unaryC([](double a) { return std::ceil(a); }); break;
    case floor_op: unaryC([](double a) { return std::floor(a); }); break;
    case cond_assign: need(4, 1); cond(r.loc[3], false, false); break;
    case cond_eq_assign: need(4, 1); cond(r.loc[3], true, false); break;
    case cond_assign_s: need(3, 1); cond(r.loc[2], false, true); break;
    case cond_eq_assign_s: need(3, 1); cond(r.loc[2], true, true); break;
    case vec_copy: { need(3, 0); std::vector<Cell> c; for (size_t i = 0; i < r.loc[1]; i++) c.push_back(rd(r.loc[0] + i)); for (size_t i = 0; i < r.loc[1]; i++) wr(r.loc[2] + i, c[i].v, c[i].known); break; }
    case vec_dot: { need(4, 0); S.eqprod += 2 * r.loc[2]; double s = 0; bool k = true; for (size_t i = 0; i < r.loc[2]; i++) { Cell a = rd(r.loc[0] + i), b = rd(r.loc[1] + i); s += a.v * b.v; k = k && a.known && b.known; } wr(r.loc[3], s, k); break; }
    case vec_axpy: { need(4, 1); const size_t n = size_t(r.cst[0]); S.eqprod += 2 * n - 1; std::vector<Cell> c; Cell a = rd(r.loc[0]); for (size_t i = 0; i < n; i++) { Cell u = rd(r.loc[1] + i), v = rd(r.loc[2] + i); u.v = a.v * u.v + v.v; u.known = a.known && u.known && v.known; c.push_back(u); } for (size_t i = 0; i < n; i++) wr(r.loc[3] + i, c[i].v, c[i].known); break; }
    case take_stock_op: need(2, 1); S.vals += r.loc[0]; for (size_t i = 0; i < r.loc[0]; i++) { Cell &c = at(r.loc[1] + i); c.live = true; c.known = i == 0; c.v = i == 0 ? r.cst[0] : 0; } break;
    case death_not: need(2, 0); for (size_t l = r.loc[0]; l <= r.loc[1]; l++) { at(l); S.tays++; } break;
    case subscript: { need(3, 1); S.vals++; Cell i = rd(r.loc[0]); const size_t k = size_t(std::trunc(std::fabs(i.v))); if (double(k) >= r.cst[0]) fail("entries", "subscript %zu of %g", k, r.cst[0]); Cell a = rd(r.loc[1] + k); wr(r.loc[2], a.v, a.known && i.known); break; }
    case subscript_ref: { need(3, 1); S.vals++; Cell i = rd(r.loc[0]); const size_t k = size_t(std::trunc(std::fabs(i.v))); if (double(k) >= r.cst[0]) fail("entries", "subscript %zu of %g", k, r.cst[0]); rd(r.loc[1] + k); wr(r.loc[2], double(r.loc[1] + k), i.known); break; }
    case ref_copyout: { need(2, 0); Cell a = rd(target(r.loc[0])); wr(r.loc[1], a.v, a.known); break; }
    case ref_incr_a: case ref_decr_a: { need(1, 0); const size_t t = target(r.loc[0]); Cell a = rd(t); wr(t, r.op == ref_incr_a ? a.v + 1 : a.v - 1, a.known); break; }
    case ref_assign_d: need(1, 1); S.vals++; wr(target(r.loc[0]), r.cst[0], true); break;
    case ref_assign_d_zero: need(1, 0); wr(target(r.loc[0]), 0, true); break;
    case ref_assign_d_one: need(1, 0); wr(target(r.loc[0]), 1, true); break;
    case ref_assign_a: { need(2, 0); Cell a = rd(r.loc[0]); wr(target(r.loc[1]), a.v, a.known); break; }
    case ref_assign_ind: need(1, 0); wr(target(r.loc[0]), S.ind < x.size() ? x[S.ind] : 0, true); S.ind++; break;
    case ref_eq_plus_d: case ref_eq_min_d: case ref_eq_mult_d: { need(1, 1); S.vals++; const size_t t = target(r.loc[0]); Cell a = rd(t); wr(t, (r.op == ref_eq_plus_d ? add : r.op == ref_eq_min_d ? sub : mul)(a.v, r.cst[0]), a.known); break; }
    case ref_eq_plus_a: case ref_eq_min_a: case ref_eq_mult_a: { need(2, 0); const size_t t = target(r.loc[1]); Cell b = rd(r.loc[0]), a = rd(t); wr(t, (r.op == ref_eq_plus_a ? add : r.op == ref_eq_min_a ? sub : mul)(a.v, b.v), a.known && b.known); break; }
    case ref_cond_assign: need(4, 1); cond(target(r.loc[3]), false, false); break;
    case ref_cond_eq_assign: need(4, 1); cond(target(r.loc[3]), true, false); break;
    case ref_cond_assign_s: need(3, 1); cond(target(r.loc[2]), false, true); break;
    case ref_cond_eq_assign_s: need(3, 1); cond(target(r.loc[2]), true, true); break;
    case ext_diff: case ext_diff_iArr: case ext_diff_v2:
      need(3, 0);
      for (auto &c : M) { c.known = false; c.live = true; } // what it writes is not shown
      break;
    default: fail("operation", "row %zu shows the operation %d (%s)", q, r.op, now);
    }
  }
  if (!ended) fail("format", "the end of the trace is missing");
  return S;
}
static bool same(const std::vector<Row> &a, const std::vector<Row> &b, std::string &why) { // up to block ends and counters
  size_t i = 0, j = 0;
  auto skip = [](const std::vector<Row> &r, size_t &k) { while (k < r.size() && (r[k].op == end_of_op || r[k].op == end_of_int || r[k].op == end_of_val)) k++; };
  for (;;) {
    skip(a, i); skip(b, j);
    if (i == a.size() || j == b.size()) break;
    if (a[i].op != b[j].op || a[i].name != b[j].name || a[i].cst != b[j].cst || a[i].loc.size() != b[j].loc.size()) { why = fmt("row %zu: %s / %s", i, a[i].name.c_str(), b[j].name.c_str()); return false; }
    i++; j++;
  }
  if (i != a.size() || j != b.size()) { why = "different numbers of rows"; return false; }
  return true;
}
// ------------------------------------------------------------- recordings
struct Cfg { size_t O, L, Vb, T; int keep, flag; };
static const Cfg CFG[] = {{4096, 4096, 4096, 4096, 0, 0}, {4096, 4096, 4096, 4096, 1, 0}, {4096, 4096, 4096, 4096, 0, 1}, {5, 57, 7, 3, 0, 0}, {7, 64, 9, 2, 1, 1}, {12, 100, 6, 5, 1, 0}};
constexpr int NCFG = sizeof CFG / sizeof *CFG;
static const double XP[3][2] = {{0.4, 0.75}, {0.625, 0.55}, {1.25, 0.3125}};
static short fresh() { adolcrc(4096, 4096, 4096, 4096); return createNewTape(); }
typedef std::array<size_t, TapeInfos::STAT_SIZE> Stats;
static const char *statName[] = {"independents", "dependents", "live", "taylors", "op buffer", "operations", "op file", "locations", "loc file", "values", "val file", "loc buffer", "val buffer", "tay buffer", "eq_prod", "no_min_max", "switches", "parameters"};
static void cmpStats(const Stats &a, const Stats &b, const char *when) { for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) fail("stats-change", "the statistic '%s' changes from %zu to %zu %s", statName[i], a[i], b[i], when); }
static std::string printed(short tag) {
  std::ostringstream o;
  struct G { std::streambuf *b; ~G() { std::cout.rdbuf(b); } } g{std::cout.rdbuf(o.rdbuf())};
  printTapeStats(tag);
  return o.str();
}
static void checkPrint(short tag, const Stats &s) {
  const std::string t = printed(tag);
  static const std::pair<const char *, int> lines[] = {{"Number of independents", TapeInfos::NUM_INDEPENDENTS}, {"Number of dependents", TapeInfos::NUM_DEPENDENTS}, {"Max # of live adoubles", TapeInfos::NUM_MAX_LIVES}, {"Taylor stack size", TapeInfos::NUM_TAYS}, {"Number of operations", TapeInfos::NUM_OPERATIONS}, {"Number of locations", TapeInfos::NUM_LOCATIONS}, {"Number of values", TapeInfos::NUM_VALUES}, {"Number of parameters", TapeInfos::NUM_PARAM}, {"Operation file written", TapeInfos::OP_FILE_ACCESS}, {"Location file written", TapeInfos::LOC_FILE_ACCESS}, {"Value file written", TapeInfos::VAL_FILE_ACCESS}, {"Operation buffer size", TapeInfos::OP_BUFFER_SIZE}, {"Location buffer size", TapeInfos::LOC_BUFFER_SIZE}, {"Value buffer size", TapeInfos::VAL_BUFFER_SIZE}, {"Taylor buffer size", TapeInfos::TAY_BUFFER_SIZE}};
  for (auto &l : lines) { const size_t p = t.find(std::string(l.first) + ": "); mc::checked(); if (p == std::string::npos || strtoul(t.c_str() + p + strlen(l.first) + 2, nullptr, 10) != s[size_t(l.second)]) fail("print", "printTapeStats does not print %zu as '%s'", s[size_t(l.second)], l.first); }
  if (t.find(fmt("tape%d)", int(tag))) == std::string::npos) fail("print", "printTapeStats does not name the trace");
}
// what is known about a recording
struct Want { int m, n; size_t params = 0; long switches = -1; bool interp = true; size_t extTays = 0; };
static void examine(short tag, const Want &w, const Cfg &c, const double *x0, const double *y0, bool bad, const double *x1) {
  const Stats s = tapestats(tag);
  auto is = [&](int e, size_t v) { mc::checked(); if (s[size_t(e)] != v) fail("stats", "the statistic '%s' is %zu instead of %zu", statName[e], s[size_t(e)], v); };
  is(TapeInfos::NUM_INDEPENDENTS, size_t(w.n));
  is(TapeInfos::NUM_DEPENDENTS, size_t(w.m));
  is(TapeInfos::NUM_PARAM, w.params);
  if (get_num_param(tag) != w.params) fail("stats", "get_num_param returns %zu", get_num_param(tag));
  const std::vector<Row> rows = render(tag, w.m, w.n, x0);
  mc::state(mc::hmix(rows.size(), s[TapeInfos::NUM_TAYS] * 31 + s[TapeInfos::NUM_LOCATIONS]));
  cmpStats(s, tapestats(tag), "by tape_doc");
  const V X0(x0, x0 + w.n), X1(x1, x1 + w.n);
  const Sum S = interpret(rows, X0);
  is(TapeInfos::NUM_OPERATIONS, S.ops);
  if (S.ind != size_t(w.n) || S.dep != size_t(w.m)) fail("rows", "%zu independents and %zu dependents are shown", S.ind, S.dep);
  if (S.maxLoc > s[TapeInfos::NUM_MAX_LIVES]) fail("stats", "location %zu is used, but there are %zu live variables at most", S.maxLoc - 1, s[TapeInfos::NUM_MAX_LIVES]);
  is(TapeInfos::NUM_EQ_PROD, S.eqprod);
  if (w.switches >= 0) is(TapeInfos::NUM_SWITCHES, size_t(w.switches));
  const bool spilled = s[TapeInfos::OP_FILE_ACCESS] || s[TapeInfos::VAL_FILE_ACCESS];
  if (c.O != 4096) mc::count(cSpilled);
  if (!spilled && w.interp) is(TapeInfos::NUM_VALUES, S.vals + w.params);
  is(TapeInfos::NUM_TAYS, S.tays + w.extTays);
  is(TapeInfos::OP_BUFFER_SIZE, c.O);
  is(TapeInfos::LOC_BUFFER_SIZE, c.L);
  is(TapeInfos::VAL_BUFFER_SIZE, c.Vb);
  is(TapeInfos::TAY_BUFFER_SIZE, c.T);
  if (c.flag) { is(TapeInfos::OP_FILE_ACCESS, 1); is(TapeInfos::LOC_FILE_ACCESS, 1); is(TapeInfos::VAL_FILE_ACCESS, 1); }
  if (!c.flag && c.O == 4096) { is(TapeInfos::OP_FILE_ACCESS, 0); is(TapeInfos::LOC_FILE_ACCESS, 0); is(TapeInfos::VAL_FILE_ACCESS, 0); }
  checkPrint(tag, s);
  auto values = [&](const Sum &A, const double *y, const char *at) {
    for (int i = 0; i < w.m; i++) {
      if (!A.known[size_t(i)]) { mc::count(cUnknown); continue; }
      mc::checked();
      if (!(std::fabs(A.y[size_t(i)] - y[i]) <= 2e-4 * std::max(1.0, std::fabs(y[i])))) fail("value", "executing the printed trace gives y[%d] = %.10g instead of %.10g %s", i, A.y[size_t(i)], y[i], at);
    }
  };
  if (!bad) values(S, y0, "at the recorded point");
  V y(size_t(w.m) + 1);
  const int rc = zos_forward(tag, w.m, w.n, 0, x1, y.data());
  cmpStats(s, tapestats(tag), "by an evaluation");
  bool fin = rc >= 0;
  for (int i = 0; i < w.m; i++) if (!std::isfinite(y[size_t(i)]) || std::fabs(y[size_t(i)]) > 1e7) fin = false;
  if (fin && !bad) values(interpret(rows, X1), y.data(), "at another point");
  {
    V u(size_t(w.m), 1.0), z(size_t(w.n) + 1);
    bool refused = false;
    try { zos_forward(tag, w.m, w.n, 1, x0, y.data()); fos_reverse(tag, w.m, w.n, u.data(), z.data()); } catch (const mc::CaseFail &) { throw; } catch (const std::exception &) { refused = true; }
    if (!refused) cmpStats(s, tapestats(tag), "by a reverse sweep");
  }
  std::string why;
  if (!same(rows, render(tag, w.m, w.n, x1), why)) fail("render", "the printed trace changes with evaluations: %s", why.c_str());
}
static std::vector<Row> lastRows;
static void progCase(const Prog &p, int pt, int from, int to) {
  double y[NR], y1[NR];
  const double *x0 = XP[pt], *x1 = XP[(pt + 1) % 3];
  if (!runDouble(p, x0, y)) return mc::trivial();
  const bool bad = illConditioned(p, x0) || !runDouble(p, x1, y1) || illConditioned(p, x1);
  std::vector<Row> first;
  for (int k = from; k < to; k++) {
    const Cfg &c = CFG[k];
    const short tag = fresh();
    trace_on(tag, c.keep, c.O, c.L, c.Vb, c.T, 0);
    double yr[NR];
    {
      adouble r[NR];
      r[0] <<= x0[0];
      r[1] <<= x0[1];
      r[2] = R2;
      for (auto &o : p) exec<adouble>(o, r);
      for (int i = 0; i < NR; i++) r[i] >>= yr[i];
    }
    trace_off(c.flag);
    examine(tag, {NR, 2}, c, x0, y, bad, x1);
    std::vector<Row> rows = render(tag, NR, 2, x0);
    std::string why;
    if (first.empty()) first = rows;
    else if (!same(first, rows, why)) fail("render", "the printed trace depends on the buffers: %s", why.c_str());
  }
}
// programs with the remaining features
enum Misc { M_PAR, M_STOCK, M_EXT1, M_EXT2, M_IARR, M_MINMAX, M_EMPTYDEP, M_MANY, M_KEEPALIVE, M_NMISC };
static const char *miscName[] = {"parameters", "variables alive before trace_on", "external function", "external function v2", "external function with integers", "min and max as abs", "no dependents", "many variables", "variables alive at trace_off"};
static int extF(int m, int n, double *x, double *y) { for (int i = 0; i < m; i++) { y[i] = 1; for (int j = 0; j < n; j++) y[i] += x[j] * double(i + 1); } return 1; }
static int extF2(short, size_t, size_t *, size_t, size_t nout, size_t *, double **x, size_t *os, double **y, void *) { for (size_t i = 0; i < nout; i++) for (size_t j = 0; j < os[i]; j++) y[i][j] = x[0][0] * double(i + 2) + double(j); return 1; }
static void miscCase(int what, int a, int b, int k) {
  const Cfg &c = CFG[k];
  const double *x0 = XP[0], *x1 = XP[1];
  const short tag = fresh();
  Want w{2, 2};
  double y[2] = {0, 0};
  std::vector<adouble> *before = nullptr;
  setCurrentTape(tag);
  if (what == M_STOCK) { before = new std::vector<adouble>(size_t(a + 1)); for (int i = 0; i <= a; i++) (*before)[size_t(i)] = 0.25 * (i + 1); }
  if (what == M_MINMAX) findTape(tag).enableMinMaxUsingAbs();
  std::vector<adouble> alive;
  trace_on(tag, c.keep, c.O, c.L, c.Vb, c.T, 0);
  {
    adouble X[2], Y[2];
    for (int i = 0; i < 2; i++) X[i] <<= x0[i];
    Y[0] = X[0] * 2.0;
    Y[1] = X[0] - X[1];
    switch (what) {
    case M_PAR: {
      std::vector<pdouble> ps;
      ps.reserve(size_t(a));
      for (int i = 0; i < a; i++) ps.emplace_back(0.5 + 0.25 * i);
      for (int i = 0; i < a; i++) switch (b) {
        case 0: Y[0] = Y[0] * ps[size_t(i)]; break;
        case 1: Y[1] = ps[size_t(i)] + Y[1]; break;
        default: { adouble q = adouble(0.0) + ps[size_t(i)]; Y[i % 2] += q * X[0]; }
      }
      w.params = size_t(a);
      break;
    }
    case M_STOCK: for (auto &v : *before) { Y[0] = Y[0] + v; v = v * X[1]; } break;
    case M_EXT1: case M_EXT2: case M_IARR: {
      currentTape().ensureContiguousLocations(size_t(a + 1));
      adouble *u = new adouble[size_t(a + 1)];
      currentTape().ensureContiguousLocations(size_t(b + 1));
      adouble *v = new adouble[size_t(b + 1)];
      for (int i = 0; i <= a; i++) { u[i] = X[i % 2]; u[i] += double(i); }
      for (int i = 0; i <= b; i++) v[i] = 0.0;
      if (what == M_EXT1) {
        auto *e = reg_ext_fct(tag, tag, ADOLC_ext_fct([](short, int m, int n, double *x, double *z) { return extF(m, n, x, z); }));
        e->zos_forward = [](short, int m, int n, int, double *x, double *z) { return extF(m, n, x, z); };
        call_ext_fct(e, a + 1, u, b + 1, v);
      } else if (what == M_IARR) {
        size_t ia[3] = {1, 2, 3};
        auto *e = reg_ext_fct(tag, tag, ADOLC_ext_fct_iArr([](short, size_t, size_t *, int m, int n, double *x, double *z) { return extF(m, n, x, z); }));
        e->zos_forward_iArr = [](short, size_t, size_t *, int m, int n, int, double *x, double *z) { return extF(m, n, x, z); };
        call_ext_fct(e, 3, ia, a + 1, u, b + 1, v);
      } else {
        size_t in[1] = {size_t(a + 1)}, out[1] = {size_t(b + 1)};
        adouble *uu[1] = {u}, *vv[1] = {v};
        ext_diff_fct_v2 *e = reg_ext_fct(tag, tag, &extF2);
        e->zos_forward = &extF2;
        call_ext_fct(e, 0, nullptr, 1, 1, in, uu, out, vv);
      }
      for (int i = 0; i <= b; i++) Y[0] = Y[0] + v[i];
      delete[] u;
      delete[] v;
      w.interp = false;
      w.extTays = size_t(a + b + 2); // arguments and results are kept before the call
      break;
    }
    case M_MINMAX: {
      int sw = 0;
      for (int i = 0; i < a; i++) { if (b == 0) Y[0] = fmin(Y[0], X[1] + double(i)); else if (b == 1) Y[1] = fmax(Y[1], X[0] * (0.5 * i)); else Y[i % 2] = fabs(Y[i % 2] - 0.125 * i); sw++; }
      w.switches = sw;
      break;
    }
    case M_EMPTYDEP: w.m = 0; if (a) Y[0] = Y[0] * sin(Y[1]); break;
    case M_MANY: { std::vector<adouble> q(size_t(a * 40 + b)); for (auto &v : q) v = X[0]; for (auto &v : q) Y[0] += v; break; }
    case M_KEEPALIVE: for (int i = 0; i < a; i++) alive.push_back(X[0] * double(i + 1)); for (auto &v : alive) Y[0] += v; break;
    }
    if (what == M_EMPTYDEP) { } else for (int i = 0; i < 2; i++) Y[i] >>= y[i];
  }
  trace_off(c.flag);
  examine(tag, w, c, x0, y, false, x1);
  alive.clear();
  delete before;
}
static void longCase(int len, int k) { // page breaks
  const Cfg &c = CFG[k];
  const double *x0 = XP[0], *x1 = XP[1];
  const short tag = fresh();
  double y[2];
  trace_on(tag, c.keep, c.O, c.L, c.Vb, c.T, 0);
  {
    adouble X[2];
    for (int i = 0; i < 2; i++) X[i] <<= x0[i];
    for (int i = 0; i < len; i++) switch (i % 4) { case 0: X[0] += 0.125; break; case 1: X[1] -= X[0]; break; case 2: X[0] *= 0.75; break; default: X[1] *= 0.5; }
    for (int i = 0; i < 2; i++) X[i] >>= y[i];
  }
  trace_off(c.flag);
  examine(tag, {2, 2}, c, x0, y, false, x1);
}
struct R : mc::Runner {
  std::vector<Op> A1, A2, A3;
  void setup() override {
    cRows = mc::counter("rows");
    cUnknown = mc::counter("results_not_determined_by_the_rows");
    cPages = mc::counter("tables");
    cSpilled = mc::counter("recordings_with_small_buffers");
    AlphaCfg c1 = cfgFull(); c1.cmp = true;
    A1 = alphabet(c1);
    AlphaCfg c2 = cfgSmall(); c2.cmp = true;
    A2 = alphabet(c2);
    A3 = alphabet(cfgTiny());
    auto add = [&](const char *nm, std::vector<Op> *A, int L, int npt, int from, int to) {
      mc::Space s;
      s.name = nm; s.n = mc::ipow(A->size(), unsigned(L)) * uint64_t(npt); s.chunk = 32;
      s.rule = fmt("all programs of %d operations over an alphabet of %zu x %d recorded points x %d configurations of the buffers", L, A->size(), npt, to - from);
      s.run = [=](uint64_t k) { const int pt = int(k % uint64_t(npt)); progCase(prog(*A, L, k / uint64_t(npt)), pt, from, to); };
      s.describe = [=](uint64_t k) { return fmt("%s @%d", str(prog(*A, L, k / uint64_t(npt))).c_str(), int(k % uint64_t(npt))); };
      spaces.push_back(s);
    };
    add("len1", &A1, 1, 3, 0, NCFG);
    add("len2", mc::thorough ? &A2 : &A3, 2, 1, 0, mc::thorough ? NCFG : 4);
    if (mc::thorough) add("len3", &A3, 3, 1, 0, 4);
    {
      mc::Space s;
      s.name = "misc"; s.n = uint64_t(M_NMISC) * 4 * 3 * NCFG; s.chunk = 8;
      s.rule = "all features x sizes 0..3 x variants 0..2 x configurations of the buffers";
      auto dec = [](uint64_t k, int &a, int &b, int &w) { mc::Dec d(k); const int c = int(d(NCFG)); a = int(d(4)); b = int(d(3)); w = int(d(M_NMISC)); return c; };
      s.run = [=](uint64_t k) { int a, b, w; const int c = dec(k, a, b, w); miscCase(w, a, b, c); };
      s.describe = [=](uint64_t k) { int a, b, w; const int c = dec(k, a, b, w); return fmt("%s %d/%d cfg%d", miscName[w], a, b, c); };
      spaces.push_back(s);
    }
    {
      const int N = mc::thorough ? 700 : 320;
      mc::Space s;
      s.name = "long"; s.n = uint64_t(N * NCFG); s.chunk = 16;
      s.rule = fmt("straight-line programs of all lengths up to %d x configurations of the buffers", N);
      s.run = [=](uint64_t k) { longCase(int(k / NCFG), int(k % NCFG)); };
      s.describe = [=](uint64_t k) { return fmt("length %d cfg%d", int(k / NCFG), int(k % NCFG)); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
