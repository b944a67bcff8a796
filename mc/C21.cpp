// C21: the C interface computes exactly what the C++ interface computes.
//
// Every sequence is carried out twice, through the exported C functions on one
// tape and with the C++ operators on another; values, comparison results,
// outputs, derivatives and return codes must agree bit by bit.

#include "arr.h"
#include "dsl.h"
#include <adolc/adtl.h>
#include <adolc/tape_interface.h>
#include <cstring>
#include <functional>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <ADOLC_TB_interface.h>
#include <ADOLC_TL_interface.h>
#include <array_handler.h>
#include <driver_interface.h>
using mc::fail;
using mc::fmt;
using arr::M2;
using arr::M3;
typedef std::vector<double> V;
static int cThrow, cTies, cNan;
static const double Q = 4711.25;

// ------------------------------------------------------------- the exported operations
#define UNARY(X) X(abs, fabs) X(sqrt, sqrt) X(log, log) X(log10, log10) X(sin, sin) X(cos, cos) X(tan, tan) X(exp, exp) X(asin, asin) X(acos, acos) X(atan, atan) X(sinh, sinh) X(cosh, cosh) X(tanh, tanh) X(asinh, asinh) X(acosh, acosh) X(atanh, atanh) X(ceil, ceil) X(floor, floor) X(erf, erf) X(erfc, erfc)
enum Op { // operations that create a handle
#define X(a, b) O_##a,
  UNARY(X)
#undef X
  O_LDEXP, O_ADD, O_SUB, O_MUL, O_DIV, O_POW, O_MIN, O_MAX,
  O_ADD_D, O_SUB_D, O_MUL_D, O_DIV_D, O_POW_D, O_MIN_D, O_MAX_D,
  O_D_ADD, O_D_SUB, O_D_MUL, O_D_DIV, O_D_MIN, O_D_MAX,
  O_NEW, O_NEWE, O_ASSIGN, O_PARAM,
  // operations that modify one
  O_ADDTO, O_SUBTO, O_MULTO, O_DIVTO, O_ASSIGNTO, O_SETVALUE, O_ASSIGND,
  // comparisons; the outcome selects the next operation
  O_GE, O_G, O_LE, O_L, O_EQ, O_GE_D, O_G_D, O_LE_D, O_L_D, O_EQ_D, O_D_GE, O_D_G, O_D_LE, O_D_L, O_D_EQ,
  O_FREE, NOP
};
static const char *opName[] = {
#define X(a, b) #a,
  UNARY(X)
#undef X
  "ldexp", "add", "sub", "mul", "div", "pow", "min", "max", "add_d", "sub_d", "mul_d", "div_d", "pow_d", "min_d", "max_d",
  "d_add", "d_sub", "d_mul", "d_div", "d_min", "d_max", "new", "new_empty", "assign", "mkparam",
  "add_to", "sub_to", "mul_to", "div_to", "assign_to", "set_value", "assign_double_to",
  "ge", "g", "le", "l", "eq", "ge_d", "g_d", "le_d", "l_d", "eq_d", "d_ge", "d_g", "d_le", "d_l", "d_eq", "free"};
static bool isNew(int o) { return o <= O_PARAM; }
static bool isMod(int o) { return o >= O_ADDTO && o <= O_ASSIGND; }
static bool isCmp(int o) { return o >= O_GE && o <= O_D_EQ; }
static bool isUn(int o) { return o <= O_LDEXP; }
static bool binary(int o) { return (o >= O_ADD && o <= O_MAX) || (o >= O_ADDTO && o <= O_ASSIGNTO) || (o >= O_GE && o <= O_EQ); }
static bool nullary(int o) { return o >= O_NEW && o <= O_PARAM; }
struct Cmd { int o, d, s, t; double c; };
static std::string str(const Cmd &k) { return fmt("h%d=%s(h%d,h%d,%g)", k.d, opName[k.o], k.s, k.t, k.c); }

// an "interface" gives: H (handle), create, modify, compare, value, release
struct TbC {
  typedef tape_loc H;
  static H create(int o, H a, H b, double c) {
    switch (o) {
#define X(f, g) case O_##f: return adolc_tb_##f(a);
    UNARY(X)
#undef X
    case O_LDEXP: return adolc_tb_ldexp(a, 3);
    case O_ADD: return adolc_tb_add(a, b); case O_SUB: return adolc_tb_sub(a, b); case O_MUL: return adolc_tb_mul(a, b); case O_DIV: return adolc_tb_div(a, b);
    case O_POW: return adolc_tb_pow(a, b); case O_MIN: return adolc_tb_min(a, b); case O_MAX: return adolc_tb_max(a, b);
    case O_ADD_D: return adolc_tb_add_d(a, c); case O_SUB_D: return adolc_tb_sub_d(a, c); case O_MUL_D: return adolc_tb_mul_d(a, c); case O_DIV_D: return adolc_tb_div_d(a, c);
    case O_POW_D: return adolc_tb_pow_d(a, c); case O_MIN_D: return adolc_tb_min_d(a, c); case O_MAX_D: return adolc_tb_max_d(a, c);
    case O_D_ADD: return adolc_tb_d_add(c, a); case O_D_SUB: return adolc_tb_d_sub(c, a); case O_D_MUL: return adolc_tb_d_mul(c, a); case O_D_DIV: return adolc_tb_d_div(c, a);
    case O_D_MIN: return adolc_tb_d_min(c, a); case O_D_MAX: return adolc_tb_d_max(c, a);
    case O_NEW: return adolc_tb_new(c); case O_NEWE: return adolc_tb_new_empty(); case O_ASSIGN: return adolc_tb_assign(c);
    default: return adolc_mkparam(c);
    }
  }
  static void modify(int o, H a, H b, double c) {
    switch (o) {
    case O_ADDTO: adolc_tb_add_to(a, b); break; case O_SUBTO: adolc_tb_sub_to(a, b); break; case O_MULTO: adolc_tb_mul_to(a, b); break; case O_DIVTO: adolc_tb_div_to(a, b); break;
    case O_ASSIGNTO: adolc_tb_assign_to(a, b); break; case O_SETVALUE: adolc_tb_set_value(a, c); break; default: adolc_tb_assign_double_to(a, c);
    }
  }
  static bool compare(int o, H a, H b, double c) {
    switch (o) {
    case O_GE: return adolc_tb_ge(a, b); case O_G: return adolc_tb_g(a, b); case O_LE: return adolc_tb_le(a, b); case O_L: return adolc_tb_l(a, b); case O_EQ: return adolc_tb_eq(a, b);
    case O_GE_D: return adolc_tb_ge_d(a, c); case O_G_D: return adolc_tb_g_d(a, c); case O_LE_D: return adolc_tb_le_d(a, c); case O_L_D: return adolc_tb_l_d(a, c); case O_EQ_D: return adolc_tb_eq_d(a, c);
    case O_D_GE: return adolc_tb_d_ge(c, a); case O_D_G: return adolc_tb_d_g(c, a); case O_D_LE: return adolc_tb_d_le(c, a); case O_D_L: return adolc_tb_d_l(c, a); default: return adolc_tb_d_eq(c, a);
    }
  }
  static double value(H a) { return adolc_tb_value(a); }
  static void release(H a) { adolc_tb_free(a); }
  static void in(H a, double x) { adolc_tb_independent(a, x); }
  static void out(H a, double *y) { adolc_tb_dependent(a, y); }
  static void on(short tag, int keep) { adolc_trace_on(tag, keep); }
  static void off() { adolc_trace_off(0); }
};
// the same on C++ objects of either number type
template <class T, bool TAPE> struct Cpp {
  typedef T *H;
  static H mk(T &&v) { return new T(std::move(v)); }
  static H create(int o, H pa, H pb, double c) {
    const T &a = *pa, &b = *pb;
    switch (o) {
#define X(f, g) case O_##f: return mk(g(a));
    UNARY(X)
#undef X
    case O_LDEXP: return mk(ldexp(a, 3));
    case O_ADD: return mk(a + b); case O_SUB: return mk(a - b); case O_MUL: return mk(a * b); case O_DIV: return mk(a / b);
    case O_POW: return mk(pow(a, b)); case O_MIN: return mk(fmin(a, b)); case O_MAX: return mk(fmax(a, b));
    case O_ADD_D: return mk(a + c); case O_SUB_D: return mk(a - c); case O_MUL_D: return mk(a * c); case O_DIV_D: return mk(a / c);
    case O_POW_D: return mk(pow(a, c)); case O_MIN_D: return mk(fmin(a, c)); case O_MAX_D: return mk(fmax(a, c));
    case O_D_ADD: return mk(c + a); case O_D_SUB: return mk(c - a); case O_D_MUL: return mk(c * a); case O_D_DIV: return mk(c / a);
    case O_D_MIN: return mk(fmin(c, a)); case O_D_MAX: return mk(fmax(c, a));
    case O_NEW: case O_ASSIGN: return new T(c);
    case O_NEWE: return new T;
    default:
      if constexpr (TAPE) { pdouble p(c); return new T(p); } else return new T(c);
    }
  }
  static void modify(int o, H pa, H pb, double c) {
    T &a = *pa;
    switch (o) {
    case O_ADDTO: a += *pb; break; case O_SUBTO: a -= *pb; break; case O_MULTO: a *= *pb; break; case O_DIVTO: a /= *pb; break;
    case O_ASSIGNTO: a = *pb; break; case O_SETVALUE: if constexpr (TAPE) a = c; else a.setValue(c); break; default: a = c;
    }
  }
  static bool compare(int o, H pa, H pb, double c) {
    const T &a = *pa, &b = *pb;
    switch (o) {
    case O_GE: return a >= b; case O_G: return a > b; case O_LE: return a <= b; case O_L: return a < b; case O_EQ: return a == b;
    case O_GE_D: return a >= c; case O_G_D: return a > c; case O_LE_D: return a <= c; case O_L_D: return a < c; case O_EQ_D: return a == c;
    case O_D_GE: return c >= a; case O_D_G: return c > a; case O_D_LE: return c <= a; case O_D_L: return c < a; default: return c == a;
    }
  }
  static double value(H a) { if constexpr (TAPE) return a->value(); else return a->getValue(); }
  static void release(H a) { delete a; }
  static void in(H a, double x) { if constexpr (TAPE) *a <<= x; }
  static void out(H a, double *y) { if constexpr (TAPE) *a >>= *y; }
  static void on(short tag, int keep) { if constexpr (TAPE) trace_on(tag, keep); }
  static void off() { if constexpr (TAPE) trace_off(); }
};
typedef Cpp<adouble, true> TbX;
typedef Cpp<adtl::adouble, false> TlX;
struct TlC {
  typedef TLAdoubleHandle H;
  static H create(int o, H a, H b, double c) {
    switch (o) {
#define X(f, g) case O_##f: return tl_##f(a);
    UNARY(X)
#undef X
    case O_LDEXP: return tl_ldexp(a, 3);
    case O_ADD: return add_tl_adouble(a, b); case O_SUB: return subtr_tl_adouble(a, b); case O_MUL: return mult_tl_adouble(a, b); case O_DIV: return div_tl_adouble(a, b);
    case O_POW: return pow_tl_adouble(a, b); case O_MIN: return min_tl_adouble(a, b); case O_MAX: return max_tl_adouble(a, b);
    case O_ADD_D: return add_tl_adouble_double(a, c); case O_SUB_D: return subtr_tl_adouble_double(a, c); case O_MUL_D: return mult_tl_adouble_double(a, c); case O_DIV_D: return div_tl_adouble_double(a, c);
    case O_POW_D: return pow_tl_adouble_double(a, c); case O_MIN_D: return min_tl_adouble_double(a, c); case O_MAX_D: return max_tl_adouble_double(a, c);
    case O_D_ADD: return add_double_tl_adouble(c, a); case O_D_SUB: return subtr_double_tl_adouble(c, a); case O_D_MUL: return mult_double_tl_adouble(c, a); case O_D_DIV: return div_double_tl_adouble(c, a);
    case O_D_MIN: return min_double_tl_adouble(c, a); case O_D_MAX: return max_double_tl_adouble(c, a);
    case O_NEWE: return create_tl_adouble_empty();
    default: return create_tl_adouble(c);
    }
  }
  static void modify(int, H a, H, double c) { set_tl_value(a, c); }
  static bool compare(int o, H a, H b, double c) {
    switch (o) {
    case O_GE: return ge_tl_adouble(a, b); case O_G: return g_tl_adouble(a, b); case O_LE: return le_tl_adouble(a, b); case O_L: return l_tl_adouble(a, b); case O_EQ: return eq_tl_adouble(a, b);
    case O_GE_D: return ge_tl_adouble_double(a, c); case O_G_D: return g_tl_adouble_double(a, c); case O_LE_D: return le_tl_adouble_double(a, c); case O_L_D: return l_tl_adouble_double(a, c); case O_EQ_D: return eq_tl_adouble_double(a, c);
    case O_D_GE: return ge_double_tl_adouble(c, a); case O_D_G: return g_double_tl_adouble(c, a); case O_D_LE: return le_double_tl_adouble(c, a); case O_D_L: return l_double_tl_adouble(c, a); default: return eq_double_tl_adouble(c, a);
    }
  }
  static double value(H a) { return get_tl_value(a); }
  static void release(H a) { free_tl_adouble(a); }
};
static bool same(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
static bool offTL(int o) { return o == O_PARAM || o == O_ASSIGN || (isMod(o) && o != O_SETVALUE); }

// runs the commands; log gets every value of every live handle after every command
template <class I> struct Bench {
  static constexpr int NH = 4;
  typename I::H h[NH];
  bool live[NH] = {};
  V log;
  void put(int d, typename I::H v) { if (live[d]) I::release(h[d]); h[d] = v; live[d] = true; }
  bool enabled(const Cmd &k) const {
    if (nullary(k.o)) return true;
    if (k.o == O_FREE || isMod(k.o)) { if (!live[k.d]) return false; return !binary(k.o) || live[k.s]; }
    if (k.o == O_POW && live[k.s] && !(I::value(h[k.s]) > 0)) return false; // asserts a positive basis
    return live[k.s] && (!binary(k.o) || live[k.t]);
  }
  void note() { for (int i = 0; i < NH; i++) if (live[i]) log.push_back(I::value(h[i])); }
  bool exec(const Cmd &k) {
    if (!enabled(k)) return false;
    typename I::H z{};
    if (k.o == O_FREE) { I::release(h[k.d]); live[k.d] = false; }
    else if (isMod(k.o)) I::modify(k.o, h[k.d], binary(k.o) ? h[k.s] : z, k.c);
    else if (isCmp(k.o)) {
      const bool r = I::compare(k.o, h[k.s], binary(k.o) ? h[k.t] : z, k.c);
      log.push_back(r ? 1 : 0);
      put(k.d, r ? I::create(O_MUL_D, h[k.s], z, 2.0) : I::create(O_D_SUB, h[k.s], z, 3.0));
    } else put(k.d, I::create(k.o, nullary(k.o) ? z : h[k.s], binary(k.o) ? h[k.t] : z, k.c));
    note();
    return true;
  }
  void clear() { for (int i = 0; i < NH; i++) if (live[i]) { I::release(h[i]); live[i] = false; } }
};
static void cmpLog(const V &c, const V &x, const char *what) {
  if (c.size() != x.size()) fail("values", "%zu instead of %zu values (%s)", c.size(), x.size(), what);
  for (size_t i = 0; i < c.size(); i++) { mc::checked(); if (std::isnan(x[i])) mc::count(cNan); if (!same(c[i], x[i])) fail("values", "value %zu is %.17g through the C interface and %.17g in C++ (%s)", i, c[i], x[i], what); }
}
static short tA = -1, tB = -1, tC = -1;
static void tapes() { if (tA < 0) { tA = createNewTape(); tB = createNewTape(); tC = createNewTape(); } }
struct Reset { bool ok = false; ~Reset() { if (!ok) tA = -1; } };

// records two independents, the commands, and all live handles as dependents
template <class I> static int record(short tag, const double *x, const std::vector<Cmd> &cs, int keep, V &log, int &params) {
  setCurrentTape(tag);
  Bench<I> b;
  int m = 0;
  params = 0;
  I::on(tag, keep);
  for (int i = 0; i < 2; i++) { b.put(i, I::create(O_NEW, typename I::H{}, typename I::H{}, 0.0)); I::in(b.h[i], x[i]); }
  b.note();
  for (auto &k : cs) { if (!b.exec(k)) continue; params += k.o == O_PARAM; }
  for (int i = 0; i < b.NH; i++) if (b.live[i]) { double y = Q; I::out(b.h[i], &y); b.log.push_back(y); m++; }
  I::off();
  setCurrentTape(tag);
  b.clear();
  log = b.log;
  return m;
}
// everything the drivers say about a tape, as a list of numbers
static void sweep(short tag, int m, const double *x, V &r) {
  const size_t M = size_t(m), n = 2;
  V y(M, Q), xa(x, x + 2);
  r.push_back(zos_forward(tag, m, 2, 1, xa.data(), y.data()));
  r.insert(r.end(), y.begin(), y.end());
  if (r[r.size() - M - 1] >= 0) {
    M2<double> U(M, M, 0.0), Z(M, n, Q);
    for (size_t i = 0; i < M; i++) U[i][i] = 1;
    r.push_back(fov_reverse(tag, m, 2, m, U, Z));
    r.insert(r.end(), Z.d.begin(), Z.d.end());
  }
  M2<double> X(n, 2), Y(M, 2, Q);
  X[0][0] = 1; X[0][1] = 0.5; X[1][0] = -0.25; X[1][1] = 2;
  r.push_back(hos_forward(tag, m, 2, 2, 0, xa.data(), X, y.data(), Y));
  r.insert(r.end(), Y.d.begin(), Y.d.end());
}
static const double PT[5][2] = {{0.75, 0.375}, {0.5, 0.5}, {-0.5, 0.0}, {1.25, -2.0}, {NAN, 0.5}};
static const double CV[4] = {0.5, 0.0, 1.75, -0.75};

static void prog(const std::vector<Cmd> &cs, int pt, int keep) {
  tapes();
  Reset g;
  V lc, lx;
  int pc, px;
  const int mc_ = record<TbC>(tA, PT[pt], cs, keep, lc, pc), mx = record<TbX>(tB, PT[pt], cs, keep, lx, px);
  mc::trace(2);
  mc::transition(cs.size());
  if (mc_ != mx || pc != px) fail("harness", "different commands were enabled");
  cmpLog(lc, lx, "while recording");
  if (adolc_num_independent(tA) != 2 || adolc_num_dependent(tA) != size_t(mx)) fail("counts", "%zu independents and %zu dependents are reported instead of 2 and %d", adolc_num_independent(tA), adolc_num_dependent(tA), mx);
  for (int q = 0; q < 3 && mx > 0; q++) {
    const double *x = q == 2 ? PT[0] : PT[(pt + q) % 4];
    if (q == 2 && px == 0) break;
    if (q == 2) {
      V p(static_cast<size_t>(px));
      for (int i = 0; i < px; i++) p[size_t(i)] = 1.125 + i;
      adolc_set_param_vec(tA, unsigned(px), p.data());
      findTape(tB).set_param_vec(tB, size_t(px), p.data());
    }
    V a, b;
    sweep(tA, mx, x, a);
    sweep(tB, mx, x, b);
    cmpLog(a, b, q == 0 ? "drivers at the recorded point" : q == 1 ? "drivers at another point" : "drivers with other parameters");
    for (size_t i = 0; i < b.size(); i++) if (i == 0 && b[i] == 0) mc::count(cTies);
  }
  uint64_t h = 7;
  for (double v : lx) h = mc::hdouble(h, v);
  mc::state(h);
  g.ok = true;
}
// ------------------------------------------------------------- traceless
static void tlog(const adtl::adouble &a, V &l) { l.push_back(a.getValue()); for (size_t i = 0; i < adtl::getNumDir(); i++) l.push_back(a.getADValue(i)); }
template <class I> static V tlRun(int nd, const double *x, const std::vector<Cmd> &cs) {
  constexpr bool C = std::is_same_v<I, TlC>;
  Bench<I> b;
  V log;
  auto all = [&] {
    for (int i = 0; i < b.NH; i++) if (b.live[i]) {
      if constexpr (C) {
        log.push_back(get_tl_value(b.h[i]));
        const double *p = get_tl_ad_values(b.h[i]);
        for (int j = 0; j < nd; j++) { log.push_back(p[j]); if (!same(p[j], get_tl_ad_value_idx(b.h[i], size_t(j)))) fail("values", "get_tl_ad_values and get_tl_ad_value_idx disagree"); }
      } else tlog(*b.h[i], log);
    }
  };
  V ad(static_cast<size_t>(nd));
  for (int j = 0; j < nd; j++) ad[size_t(j)] = 1.5 - j;
  if constexpr (C) { b.put(0, create_tl_adouble_with_ad(x[0], ad.data())); b.put(1, create_tl_adouble(x[1])); set_tl_ad_value(b.h[1], ad.data()); set_tl_ad_value_idx(b.h[1], size_t(nd - 1), -0.75); }
  else { b.put(0, new adtl::adouble(x[0], ad.data())); b.put(1, new adtl::adouble(x[1])); b.h[1]->setADValue(ad.data()); b.h[1]->setADValue(size_t(nd - 1), -0.75); }
  all();
  for (auto &k : cs) { if (b.exec(k)) all(); }
  log.insert(log.end(), b.log.begin(), b.log.end());
  b.clear();
  return log;
}
static void tlProg(const std::vector<Cmd> &cs, int pt, int nd) {
  set_num_dir(size_t(nd));
  if (adtl::getNumDir() != size_t(nd)) fail("directions", "set_num_dir(%d) was not effective", nd);
  cmpLog(tlRun<TlC>(nd, PT[pt], cs), tlRun<TlX>(nd, PT[pt], cs), "traceless");
  mc::trace(2);
  mc::transition(cs.size());
  uint64_t h = uint64_t(nd * 8 + pt);
  for (auto &k : cs) h = mc::hmix(h, uint64_t(k.o * 64 + k.d * 16 + k.s * 4 + k.t));
  mc::state(h);
}
// ------------------------------------------------------------- lifetimes
// handles on two tapes; commands on the current one, frees on either
struct LCmd { int o, d, s; };
enum { Z_NEW, Z_NEWE, Z_ADD, Z_MULD, Z_ABS, Z_ADDTO, Z_ASSIGNTO, Z_SET, Z_FREE, Z_FREEON, Z_FREEBAD, Z_SWITCH, Z_ENSURE, Z_CPPTMP, Z_PARAM, NL };
static const char *lName[] = {"new", "new_empty", "add", "mul_d", "abs", "add_to", "assign_to", "set_value", "free", "free_on_tape", "free(invalid)", "switch", "ensure_tape", "C++ temporaries", "mkparam"};
static std::vector<LCmd> lcmds(bool two) {
  std::vector<LCmd> A;
  for (int d = 0; d < 3; d++) {
    for (int o : {Z_NEW, Z_NEWE, Z_PARAM, Z_SET, Z_FREE}) A.push_back({o, d, 0});
    for (int s = 0; s < 3; s++) for (int o : {Z_ADD, Z_MULD, Z_ADDTO, Z_ASSIGNTO}) if (o != Z_MULD || s == (d + 1) % 3) A.push_back({o, d, s});
    A.push_back({Z_ABS, d, (d + 2) % 3});
  }
  A.push_back({Z_FREEBAD, 0, 0});
  A.push_back({Z_CPPTMP, 0, 0});
  if (two) {
    for (int d = 0; d < 3; d++) for (int s = 0; s < 2; s++) A.push_back({Z_FREEON, d, s});
    A.push_back({Z_SWITCH, 0, 0});
    A.push_back({Z_ENSURE, 0, 0});
  }
  return A;
}
static std::string str(const LCmd &k) { return fmt("%s(%d,%d)", lName[k.o], k.d, k.s); }
static void lives(const std::vector<LCmd> &cs, bool two, bool rec) {
  tapes();
  Reset g;
  const short tag[2] = {tA, tB};
  static_assert(sizeof(tape_loc) == sizeof(size_t));
  tape_loc h[2][3];
  bool live[2][3] = {};
  double v[2][3];
  setCurrentTape(tB);
  for (int i = 0; two && i < 2; i++) { v[1][i] = 20.5 + i; h[1][i] = adolc_tb_new(v[1][i]); live[1][i] = true; }
  setCurrentTape(tA);
  int cur = 0;
  if (rec) adolc_trace_on(tA, 0);
  std::vector<adouble> own; // C++ variables living next to the handles
  own.reserve(2);
  own.emplace_back(11.5);
  own.emplace_back(-12.25);
  int step = 0;
  std::string at;
  auto check = [&] {
    for (int t = 0; t < 2; t++) {
      // handles are read while their tape is current, the tape being worked on first
      const int T = t ? 1 - cur : cur;
      if (t) setCurrentTape(tag[T]);
      else if (currentTapePtr() != &findTape(tag[T])) fail("current", "after command %d %s another tape is current", step, at.c_str());
      for (int i = 0; i < 3; i++) if (live[T][i]) {
        mc::checked();
        const double w = adolc_tb_value(h[T][i]);
        if (!same(w, v[T][i])) fail("handles", "after command %d %s handle %d of tape %d holds %.17g instead of %.17g", step, at.c_str(), i, T, w, v[T][i]);
      }
    }
    setCurrentTape(tag[cur]);
    for (int t = 0; t < 2; t++) for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (live[t][i] && live[t][j] && h[t][i].loc == h[t][j].loc) fail("handles", "after command %d %s two live handles share a location", step, at.c_str());
    if (cur == 0 && (own[0].value() != 11.5 || own[1].value() != -12.25)) fail("handles", "after command %d %s a C++ variable has changed", step, at.c_str());
    if (cur == 0) for (int i = 0; i < 3; i++) if (live[0][i]) for (auto &o : own) if (size_t(o.loc()) == h[0][i].loc) fail("handles", "a handle shares the location of a C++ variable");
  };
  int fresh = 0;
  for (auto &k : cs) {
    auto &H = h[cur];
    auto &L = live[cur];
    auto &W = v[cur];
    auto put = [&](tape_loc n, double val) { if (L[k.d]) adolc_tb_free(H[k.d]); H[k.d] = n; L[k.d] = true; W[k.d] = val; };
    const double c = 1.0 + 0.5 * fresh++;
    bool on = true;
    switch (k.o) {
    case Z_NEW: put(adolc_tb_new(c), c); break;
    case Z_NEWE: put(adolc_tb_new_empty(), 0); break;
    case Z_PARAM: put(adolc_mkparam(c), c); break;
    case Z_SET: on = L[k.d]; if (on) { adolc_tb_set_value(H[k.d], c); W[k.d] = c; } break;
    case Z_FREE: on = L[k.d]; if (on) { adolc_tb_free(H[k.d]); L[k.d] = false; } break;
    case Z_ADD: on = L[k.s] && L[(k.s + 1) % 3]; if (on) put(adolc_tb_add(H[k.s], H[(k.s + 1) % 3]), W[k.s] + W[(k.s + 1) % 3]); break;
    case Z_MULD: on = L[k.s]; if (on) put(adolc_tb_mul_d(H[k.s], c), W[k.s] * c); break;
    case Z_ABS: on = L[k.s]; if (on) put(adolc_tb_abs(H[k.s]), std::fabs(W[k.s])); break;
    case Z_ADDTO: on = L[k.s] && L[k.d]; if (on) { adolc_tb_add_to(H[k.d], H[k.s]); W[k.d] += W[k.s]; } break;
    case Z_ASSIGNTO: on = L[k.s] && L[k.d]; if (on) { adolc_tb_assign_to(H[k.d], H[k.s]); W[k.d] = W[k.s]; } break;
    case Z_FREEBAD: adolc_tb_free(tape_loc{ADOLC_TB_INVALID_LOC}); adolc_tb_free_on_tape(tB, tape_loc{ADOLC_TB_INVALID_LOC}); break;
    case Z_FREEON: on = live[k.s][k.d]; if (on) { adolc_tb_free_on_tape(tag[k.s], h[k.s][k.d]); live[k.s][k.d] = false; } break;
    case Z_SWITCH: on = !rec; if (on) { cur = 1 - cur; setCurrentTape(tag[cur]); } break;
    case Z_ENSURE: adolc_ensure_tape(tB); break;
    case Z_CPPTMP: { adouble a = 3.0, b = a * 2.0; b = b + a; } break;
    }
    step++;
    if (!on) continue;
    at = str(k);
    mc::transition();
    check();
  }
  setCurrentTape(tA);
  own.clear();
  for (int t = 0; t < 2; t++) { setCurrentTape(tag[t]); for (int i = 0; i < 3; i++) if (live[t][i]) adolc_tb_free(h[t][i]); }
  setCurrentTape(tA);
  if (rec) adolc_trace_off(0);
  setCurrentTape(tA);
  mc::trace();
  uint64_t hh = rec;
  for (int t = 0; t < 2; t++) for (int i = 0; i < 3; i++) if (live[t][i]) hh = mc::hdouble(hh + uint64_t(i + 4 * t), v[t][i]);
  mc::state(hh);
  g.ok = true;
}
// no operation may use up locations or memory that free does not give back
static void leak(int o, int which) {
  tapes();
  Reset g;
  const Cmd k{o, 2, 0, 1, 0.5};
  if (which == 0) {
    setCurrentTape(tA);
    adolc_trace_on(tA, 0);
    Bench<TbC> b;
    for (int i = 0; i < 2; i++) { b.put(i, adolc_tb_new(0)); adolc_tb_independent(b.h[i], PT[0][i]); }
    for (int i = 0; i < 300; i++) {
      Cmd c = k;
      if (isMod(o)) c.d = 1;
      b.exec(c);
      if (b.live[2]) { adolc_tb_free(b.h[2]); b.live[2] = false; }
    }
    adolc_trace_off(0);
    setCurrentTape(tA);
    b.clear();
    const size_t lv = tapestats(tA)[TapeInfos::NUM_MAX_LIVES];
    if (lv > 100 && o != O_PARAM) fail("leak", "300 repetitions of %s and free need %zu locations", opName[o], lv);
    mc::trace();
  } else {
    set_num_dir(2);
    Bench<TlC> b;
    for (int i = 0; i < 2; i++) b.put(i, create_tl_adouble(PT[0][i]));
    auto once = [&] { Cmd c = k; if (isMod(o)) c.d = 1; b.exec(c); if (b.live[2]) { free_tl_adouble(b.h[2]); b.live[2] = false; } b.log.clear(); };
    for (int i = 0; i < 3; i++) once();
    const size_t m0 = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 50; i++) once();
    const size_t m1 = __sanitizer_get_current_allocated_bytes();
    b.clear();
    if (m1 >= m0 + 50 * 8) fail("leak", "50 repetitions of %s and free keep %zu bytes", opName[o], m1 - m0);
  }
  mc::state(mc::hmix(uint64_t(o), uint64_t(which)));
  g.ok = true;
}
// ------------------------------------------------------------- drivers
template <class F> static int guarded(F f) { try { return f(); } catch (const mc::CaseFail &) { throw; } catch (...) { return -1000; } }
template <class T> static void fun(int kind, int m, int n, const T *x, T *y) {
  for (int i = 0; i < m; i++) {
    T s = x[i % n] * (1.5 + i);
    if (kind == 1) s = s * x[(i + 1) % n] + sin(x[0]) * (0.5 * i);
    if (kind == 2) for (int j = 0; j < n; j++) s = s + exp(x[j] * 0.25) * x[i % n] / (2.0 + j);
    if (kind == 3) { if (x[0] > 0.625) s = s * x[0]; else s = s + fabs(x[n - 1]); }
    y[i] = s;
  }
}
static void drivers(int kind, int m, int n, int d, int q, int keep, int pt) {
  tapes();
  Reset g;
  setCurrentTape(tC);
  trace_on(tC);
  {
    std::vector<adouble> X(static_cast<size_t>(n)), Y(static_cast<size_t>(m));
    double o;
    for (int j = 0; j < n; j++) X[size_t(j)] <<= 0.75 + 0.5 * j;
    fun<adouble>(kind, m, n, X.data(), Y.data());
    for (auto &y : Y) y >>= o;
  }
  trace_off();
  mc::trace();
  const size_t M = size_t(m), N = size_t(n), D = size_t(d), P = size_t(q), E = std::max({M, N, P, D + 1}) + 1;
  // runs either all C or all C++ calls; everything written goes into the log
  auto runAll = [&](bool c) {
    V log;
    int last = 0; // what a failed call leaves in its outputs is unspecified
    auto rc = [&](int r) { if (r == -1000) mc::count(cThrow); log.push_back(last = r); };
    auto vec = [&](const V &v) { if (last >= 0) log.insert(log.end(), v.begin(), v.end()); };
    V x(E, Q), y(E, Q);
    for (size_t j = 0; j < N; j++) x[j] = (pt ? 0.5 : 0.75) + 0.5 * double(j);
    auto back = [&](int dd) { // all reverse calls that may follow
      V u(E, 0.0), z(E * E, Q);
      for (size_t i = 0; i < E; i++) u[i] = 1.0 - 0.75 * double(i);
      M2<double> U(E, E), Z(E, E, Q);
      M2<short> nz(E, E, short(-7));
      M3<double> Z3(E, E, D + 2, Q);
      for (size_t i = 0; i < E; i++) for (size_t j = 0; j < E; j++) U[i][j] = double(i) - 0.5 * double(j);
      auto one = [&](auto fc, auto fx) { Z.fill(Q); Z3.fill(Q); nz.fill(short(-7)); std::fill(z.begin(), z.end(), Q); rc(guarded([&] { return c ? fc() : fx(); })); vec(Z.d); vec(Z3.d); vec(z); if (last >= 0) for (short k : nz.d) log.push_back(k); };
      double us = 1.25;
      one([&] { return reverse1(tC, m, n, dd, u.data(), Z); }, [&] { return reverse(tC, m, n, dd, u.data(), Z); });
      one([&] { return reverse2(tC, m, n, dd, us, Z); }, [&] { return reverse(tC, m, n, dd, us, Z); });
      one([&] { return reverse3(tC, m, n, dd, u.data(), z.data()); }, [&] { return reverse(tC, m, n, dd, u.data(), z.data()); });
      one([&] { return reverse4(tC, m, n, dd, us, z.data()); }, [&] { return reverse(tC, m, n, dd, us, z.data()); });
      one([&] { return reverse5(tC, m, n, dd, q, U, Z3, nz); }, [&] { return reverse(tC, m, n, dd, q, U, Z3, nz); });
      one([&] { return reverse6(tC, m, n, dd, q, u.data(), Z3, nz); }, [&] { return reverse(tC, m, n, dd, q, u.data(), Z3, nz); });
      one([&] { return reverse7(tC, m, n, dd, q, U, Z); }, [&] { return reverse(tC, m, n, dd, q, U, Z); });
      if (dd == 0) one([&] { return reverse8(tC, m, n, q, U, Z); }, [&] { return reverse(tC, m, n, q, U, Z); });
      one([&] { return reverse9(tC, m, n, dd, q, u.data(), Z); }, [&] { return reverse(tC, m, n, dd, q, u.data(), Z); });
      one([&] { return reverse10(tC, m, n, dd, Z3, nz); }, [&] { return reverse(tC, m, n, dd, Z3, nz); });
    };
    auto ok = [&] { return last >= 0; };
    M2<double> X(E, D + 2, 0.0), Y(E, D + 2, Q);
    for (size_t j = 0; j < N; j++) { X[j][0] = x[j]; for (size_t k = 1; k <= D; k++) X[j][k] = 0.5 / double(k + j); }
    rc(guarded([&] { return c ? forward1(tC, m, n, d, keep, X, Y) : forward(tC, m, n, d, keep, X, Y); }));
    bool good = ok();
    vec(Y.d); vec(X.d);
    if (good && keep == d + 1) back(d);
    V yd(D + 3, Q);
    rc(guarded([&] { return c ? forward2(tC, m, n, d, keep, X, yd.data()) : forward(tC, m, n, d, keep, X, yd.data()); }));
    good = ok();
    vec(yd);
    if (good && keep == d + 1) back(d);
    const int k1 = keep ? 1 : 0;
    rc(guarded([&] { return c ? forward3(tC, m, n, d, d ? keep : k1, x.data(), y.data()) : forward(tC, m, n, d, d ? keep : k1, x.data(), y.data()); }));
    good = ok();
    vec(y);
    if (good && k1 && d == 0) back(0);
    rc(guarded([&] { return c ? forward4(tC, m, n, k1, x.data(), y.data()) : forward(tC, m, n, k1, x.data(), y.data()); }));
    good = ok();
    vec(y);
    if (good && k1) back(0);
    if (d > 0) {
      M3<double> X3(E, P, D, 0.5), Y3(E, P, D, Q);
      for (size_t j = 0; j < N; j++) for (size_t k = 0; k < P; k++) X3[j][k][0] = double(j) - double(k);
      rc(guarded([&] { return c ? forward5(tC, m, n, d, q, x.data(), X3, y.data(), Y3) : forward(tC, m, n, d, q, x.data(), X3, y.data(), Y3); }));
      vec(y); vec(Y3.d);
    }
    M2<double> X2(E, P, 0.5), Y2(E, P, Q);
    for (size_t j = 0; j < N; j++) for (size_t k = 0; k < P; k++) X2[j][k] = double(j) - double(k);
    rc(guarded([&] { return c ? forward6(tC, m, n, q, x.data(), X2, y.data(), Y2) : forward(tC, m, n, q, x.data(), X2, y.data(), Y2); }));
    vec(y); vec(Y2.d);
    mc::transition(log.size() > 0);
    return log;
  };
  const V a = runAll(true), b = runAll(false);
  cmpLog(a, b, "drivers");
  uint64_t h = 3;
  for (double v : b) h = mc::hdouble(h, v);
  mc::state(h);
  g.ok = true;
}
// ------------------------------------------------------------- arrays
static void arrays(int a, int b, int c) {
  const size_t m0 = __sanitizer_get_current_allocated_bytes();
  {
    V v(size_t(a) + 1, Q);
    for (int i = 0; i < a; i++) setindex_vec(v.data(), i + 0.5, i);
    for (int i = 0; i < a; i++) if (getindex_vec(v.data(), i) != i + 0.5) fail("vector", "element %d", i);
    if (v.back() != Q) fail("vector", "written past the end");
    M2<double> m(static_cast<size_t>(a), static_cast<size_t>(b), Q);
    M3<double> t(static_cast<size_t>(a), static_cast<size_t>(b), static_cast<size_t>(c), Q);
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) setindex_mat(m, 10 * i + j, i, j);
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { mc::checked(); if (m[size_t(i)][j] != 10 * i + j || getindex_mat(const_cast<const double **>(static_cast<double **>(m)), i, j) != 10 * i + j) fail("matrix", "element %d %d", i, j); }
    if (m.d.back() != Q) fail("matrix", "written past the end");
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) setindex_tens(t, 100 * i + 10 * j + k, i, j, k);
    const double ***ct = const_cast<const double ***>(static_cast<double ***>(t));
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) { mc::checked(); if (t[size_t(i)][j][k] != 100 * i + 10 * j + k || getindex_tens(ct, i, j, k) != 100 * i + 10 * j + k || getindex_ten(ct, i)[j][k] != 100 * i + 10 * j + k) fail("tensor", "element %d %d %d", i, j, k); }
    if (t.d.back() != Q) fail("tensor", "written past the end");
    short **s = alloc_short_mat(a, b);
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) s[i][j] = short(10 * i + j);
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { mc::checked(); if (s[i][j] != 10 * i + j) fail("short", "rows overlap at %d %d", i, j); }
    free_short_mat(s);
  }
  mc::transition();
  const size_t m1 = __sanitizer_get_current_allocated_bytes();
  if (m1 > m0) fail("leak", "%zu bytes are kept after free_short_mat", m1 - m0);
  mc::state(uint64_t(a * 64 + b * 8 + c));
}
// every header can be used from C on its own
static void header(int i, int std_) {
  static const char *hn[] = {"ADOLC_TB_interface.h", "ADOLC_TL_interface.h", "driver_interface.h", "array_handler.h"};
  static const char *sn[] = {"c99", "c11", "gnu17"};
  const char *repo = getenv("ADOLC_REPO");
  std::string cmd = fmt("echo '#include <%s>' | gcc -x c -std=%s -fsyntax-only -I %s/ADOL-C/c_interface - 2>/dev/null >/dev/null", hn[i], sn[std_], repo ? repo : "/repo");
  if (system(cmd.c_str()) != 0) fail("header", "%s does not compile as C (%s)", hn[i], sn[std_]);
  mc::state(uint64_t(i * 4 + std_));
}

struct R : mc::Runner {
  void setup() override {
    childInit = [] { tA = -1; };
    cThrow = mc::counter("refused_driver_calls");
    cTies = mc::counter("ties");
    cNan = mc::counter("nan");
    auto add = [&](const char *name, uint64_t n, uint64_t chunk, std::string rule, std::function<void(uint64_t)> run, std::function<std::string(uint64_t)> d) {
      mc::Space s;
      s.name = name; s.n = n; s.chunk = chunk; s.rule = rule; s.run = run; s.describe = d;
      spaces.push_back(s);
    };
    auto strs = [](const std::vector<Cmd> &cs) { std::string r; for (auto &k : cs) r += (r.empty() ? "" : "; ") + str(k); return r; };
    // single operations, all handles and constants
    {
      auto dec = [=](uint64_t k, int &pt, int &keep) { mc::Dec d(k); Cmd c; c.o = int(d(NOP)); c.d = int(d(3)); c.s = int(d(2)); c.t = int(d(2)); c.c = CV[d(4)]; pt = int(d(5)); keep = int(d(2)); return std::vector<Cmd>{c}; };
      add("op1", uint64_t(NOP) * 12 * 4 * 5 * 2, 400, "every exported operation x all operand handles (also equal ones) x constants x points (with ties and NaN) x keep", [=](uint64_t k) { int pt, kp; auto c = dec(k, pt, kp); prog(c, pt, kp); }, [=](uint64_t k) { int pt, kp; auto c = dec(k, pt, kp); return strs(c) + fmt(" point%d keep%d", pt, kp); });
      auto dtl = [=](uint64_t k, int &pt, int &nd) { mc::Dec d(k); Cmd c; c.o = int(d(NOP)); c.d = int(d(3)); c.s = int(d(2)); c.t = int(d(2)); c.c = CV[d(4)]; pt = int(d(5)); nd = 1 + int(d(3)); return std::vector<Cmd>{c}; };
      add("tl1", uint64_t(NOP) * 12 * 4 * 5 * 3, 4000, "every traceless operation x operand handles x constants x points x 1..3 directions", [=](uint64_t k) { int pt, nd; auto c = dtl(k, pt, nd); if (offTL(c[0].o)) { mc::trivial(); return; } tlProg(c, pt, nd); }, [=](uint64_t k) { int pt, nd; auto c = dtl(k, pt, nd); return strs(c) + fmt(" point%d directions%d", pt, nd); });
    }
    // pairs: the second works on the result of the first
    static const int PAT[6][3] = {{3, 2, 0}, {3, 1, 2}, {2, 2, 2}, {2, 0, 2}, {0, 2, 1}, {2, 1, 1}};
    {
      const uint64_t np = mc::thorough ? 6 : 3;
      auto dec = [=](uint64_t k, int &pt) { mc::Dec d(k); std::vector<Cmd> c(2); c[0] = {int(d(NOP)), 2, 0, 1, 0.5}; const int p = int(d(np)); c[1] = {int(d(NOP)), PAT[p][0], PAT[p][1], PAT[p][2], 1.75}; if (isMod(c[0].o)) { c[0].d = 1; } pt = int(d(mc::thorough ? 4 : 2)); return c; };
      const uint64_t n = uint64_t(NOP) * NOP * np * (mc::thorough ? 4 : 2);
      add("op2", n, 300, "all pairs of operations x ways to use the first handle x points", [=](uint64_t k) { int pt; auto c = dec(k, pt); prog(c, pt, 0); }, [=](uint64_t k) { int pt; auto c = dec(k, pt); return strs(c) + fmt(" point%d", pt); });
      add("tl2", n, 4000, "all pairs of traceless operations x ways to use the first handle x points", [=](uint64_t k) { int pt; auto c = dec(k, pt); if (offTL(c[0].o) || offTL(c[1].o)) { mc::trivial(); return; } tlProg(c, pt, 2); }, [=](uint64_t k) { int pt; auto c = dec(k, pt); return strs(c) + fmt(" point%d", pt); });
    }
    // longer programs over representatives
    {
      static const std::vector<Cmd> A = [] {
        std::vector<Cmd> a;
        for (int d = 0; d < 3; d++) for (int o : {O_MUL, O_ADDTO, O_ASSIGNTO, O_D_DIV, O_G, O_FREE, O_PARAM, O_sin}) a.push_back({o, d, (d + 1) % 3, (d + 2) % 3, 0.5});
        a.push_back({O_MIN, 2, 0, 1, 0}); a.push_back({O_MULTO, 2, 2, 0, 0}); a.push_back({O_SETVALUE, 1, 0, 0, 1.75}); a.push_back({O_POW, 2, 0, 1, 0}); a.push_back({O_D_LE, 2, 1, 0, 0.375});
        return a;
      }();
      const unsigned L = mc::thorough ? 4 : 3;
      const uint64_t na = A.size();
      auto dec = [=](uint64_t k) { mc::Dec d(k); std::vector<Cmd> c; for (unsigned i = 0; i < L; i++) c.push_back(A[d(na)]); return c; };
      add("seq", mc::ipow(na, L), 300, fmt("all sequences of %u of %zu operations on shared handles, with frees in between", L, A.size()), [=](uint64_t k) { prog(dec(k), 0, 0); }, [=](uint64_t k) { return strs(dec(k)); });
    }
    for (int two = 0; two < 2; two++) {
      static std::vector<LCmd> A[2];
      A[two] = lcmds(two);
      const uint64_t na = A[two].size();
      const unsigned L = mc::thorough ? 4 : 3;
      for (int rec = 0; rec < 2; rec++) {
        if (rec && !two) continue;
        auto dec = [=](uint64_t k) { mc::Dec d(k); std::vector<LCmd> c; for (int i = 0; i < 2; i++) c.push_back({Z_NEW, i, 0}); for (unsigned i = 0; i < L + (two ? 0 : 1) - (rec ? 1 : 0); i++) c.push_back(A[two][d(na)]); return c; };
        add(two ? rec ? "lives2rec" : "lives2" : "lives", mc::ipow(na, L + (two ? 0 : 1) - (rec ? 1u : 0u)), 2000, fmt("all sequences of %u of %zu handle operations%s%s", L + (two ? 0 : 1) - (rec ? 1 : 0), A[two].size(), two ? " on two tapes" : "", rec ? " while recording" : ""), [=](uint64_t k) { lives(dec(k), two, rec); }, [=](uint64_t k) { std::string r; for (auto &c : dec(k)) r += (r.empty() ? "" : "; ") + str(c); return r; });
      }
    }
    add("leak", uint64_t(O_FREE) * 2, 4, "every operation, 300 times with free", [=](uint64_t k) { const int o = int(k / 2); if (k % 2 && offTL(o)) { mc::trivial(); return; } leak(o, int(k % 2)); }, [=](uint64_t k) { return fmt("%s %s", opName[k / 2], k % 2 ? "traceless" : "tape"); });
    {
      auto dec = [=](uint64_t k, int *v) { mc::Dec d(k); v[0] = int(d(4)); v[1] = 1 + int(d(3)); v[2] = 1 + int(d(3)); v[3] = int(d(3)); v[4] = 1 + int(d(3)); v[5] = int(d(2)) ? v[3] + 1 : 0; v[6] = int(d(2)); };
      add("drivers", 4 * 3 * 3 * 3 * 3 * 2 * 2, 10, "all exported forward and reverse calls x function families x dependents x independents x degree x directions x keep x points, against the C++ overloads", [=](uint64_t k) { int v[7]; dec(k, v); drivers(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); }, [=](uint64_t k) { int v[7]; dec(k, v); return fmt("f%d m%d n%d d%d q%d keep%d point%d", v[0], v[1], v[2], v[3], v[4], v[5], v[6]); });
    }
    add("arrays", 6 * 6 * 6, 8, "all array sizes 1..6", [=](uint64_t k) { mc::Dec d(k); int a = 1 + int(d(6)), b = 1 + int(d(6)), c = 1 + int(d(6)); arrays(a, b, c); }, [=](uint64_t k) { mc::Dec d(k); int a = 1 + int(d(6)), b = 1 + int(d(6)), c = 1 + int(d(6)); return fmt("%dx%dx%d", a, b, c); });
    add("headers", 12, 1, "every header as C in every dialect", [=](uint64_t k) { header(int(k % 4), int(k / 4)); }, [=](uint64_t k) { return fmt("%llu", (unsigned long long)k); });
  }
};
int main(int argc, char **argv) { R r; return r.main(argc, argv); }
