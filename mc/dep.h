// Structural dependence: which independents an intermediate is computed from
// and which pairs of independents interact nonlinearly in it (upper bounds for
// sparsity patterns). depSafe: both branches of a selection count.
#pragma once
#include "ref.h"
namespace ref {
inline thread_local bool depSafe = false;
inline thread_local unsigned depAllPairs = 0; // of every intermediate
constexpr int DN = 3;
struct Str {
  double v = 0;
  unsigned d = 0, h = 0;
  Str() = default;
  Str(double x) : v(x) {}
};
inline double val(const Str &x) { return x.v; }
inline unsigned cross(unsigned a, unsigned b) {
  unsigned r = 0;
  for (int i = 0; i < DN; i++) for (int j = 0; j < DN; j++)
    if (((a >> i & 1) && (b >> j & 1)) || ((b >> i & 1) && (a >> j & 1))) r |= 1u << (i * DN + j);
  return r;
}
inline Str dmk(double v, unsigned d, unsigned h) { Str r(v); r.d = d; r.h = h; depAllPairs |= h; return r; }
inline Str nl(double v, const Str &a) { return dmk(v, a.d, a.h | cross(a.d, a.d)); }
inline Str uni(double v, const Str &a, const Str &b) { return dmk(v, a.d | b.d, a.h | b.h); }
inline Str operator+(const Str &a) { return a; }
inline Str operator-(const Str &a) { return dmk(-a.v, a.d, a.h); }
inline Str operator+(const Str &a, const Str &b) { return uni(a.v + b.v, a, b); }
inline Str operator-(const Str &a, const Str &b) { return uni(a.v - b.v, a, b); }
inline Str operator*(const Str &a, const Str &b) { return dmk(a.v * b.v, a.d | b.d, a.h | b.h | cross(a.d | b.d, a.d | b.d)); }
inline Str operator/(const Str &a, const Str &b) { return dmk(a.v / b.v, a.d | b.d, a.h | b.h | cross(a.d | b.d, a.d | b.d)); }
#define MIX(op)                                                            \
  inline Str operator op(const Str &a, double b) { return a op Str(b); }     \
  inline Str operator op(double a, const Str &b) { return Str(a) op b; }
MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
#define F(f) inline Str f(const Str &a) { return nl(std::f(a.v), a); }
F(exp) F(log) F(log10) F(sqrt) F(cbrt) F(sin) F(cos) F(tan) F(asin) F(acos) F(atan) F(sinh) F(cosh) F(tanh) F(asinh) F(acosh) F(atanh) F(erf) F(erfc)
#undef F
inline Str ceil(const Str &a) { return dmk(std::ceil(a.v), a.d, a.h); }
inline Str floor(const Str &a) { return dmk(std::floor(a.v), a.d, a.h); }
inline Str fabs(const Str &a) { return dmk(std::fabs(a.v), a.d, a.h); }
inline Str abs(const Str &a) { return fabs(a); }
inline Str pow(const Str &a, double e) { return nl(std::pow(a.v, e), a); }
inline Str pow(double e, const Str &a) { return nl(std::pow(e, a.v), a); }
inline Str pow(const Str &a, const Str &b) { Str r = uni(0, a, b); return nl(std::pow(a.v, b.v), r); }
inline Str atan2(const Str &a, const Str &b) { Str r = uni(0, a, b); return nl(std::atan2(a.v, b.v), r); }
inline Str pick(bool first, bool tie, const Str &a, const Str &b) {
  Str r = first ? a : b;
  return depSafe || tie ? uni(r.v, a, b) : r;
}
inline Str fmin(const Str &a, const Str &b) { return pick(a.v < b.v, a.v == b.v, a, b); }
inline Str fmax(const Str &a, const Str &b) { return pick(a.v > b.v, a.v == b.v, a, b); }
inline void condassign(Str &r, const Str &c, const Str &a, const Str &b) { Str t = pick(c.v > 0, c.v == 0, a, b); r = t; }
inline void condassign(Str &r, const Str &c, const Str &a) { Str t = pick(c.v > 0, c.v == 0, a, r); r = t; }
inline void condeqassign(Str &r, const Str &c, const Str &a, const Str &b) { Str t = pick(c.v >= 0, c.v == 0, a, b); r = t; }
inline void condeqassign(Str &r, const Str &c, const Str &a) { Str t = pick(c.v >= 0, c.v == 0, a, r); r = t; }
} // namespace ref
