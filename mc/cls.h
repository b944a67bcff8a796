// Structural nonlinearity class per independent (lower bound): 0 independent
// of it, 1 linear, 2 polynomial, 3 rational, 4 transcendental.
#pragma once
#include "ref.h"
namespace ref {
struct Cls {
  double v = 0;
  int c[2] = {0, 0};
  Cls() = default;
  Cls(double d) : v(d) {}
};
inline double val(const Cls &x) { return x.v; }
inline Cls mk(double v, const Cls &a, int lo) {
  Cls r(v);
  for (int i = 0; i < 2; i++) r.c[i] = a.c[i] ? std::max(a.c[i], lo) : 0;
  return r;
}
inline Cls add(double v, const Cls &a, const Cls &b) {
  Cls r(v);
  for (int i = 0; i < 2; i++) r.c[i] = std::max(a.c[i], b.c[i]);
  return r;
}
inline Cls operator+(const Cls &a) { return a; }
inline Cls operator-(const Cls &a) { return mk(-a.v, a, 1); }
inline Cls operator+(const Cls &a, const Cls &b) { return add(a.v + b.v, a, b); }
inline Cls operator-(const Cls &a, const Cls &b) { return &a == &b ? Cls(0.0) : add(a.v - b.v, a, b); }
inline Cls operator*(const Cls &a, const Cls &b) {
  Cls r = add(a.v * b.v, a, b);
  for (int i = 0; i < 2; i++) if (a.c[i] && b.c[i]) r.c[i] = std::max(r.c[i], 2);
  return r;
}
inline Cls operator/(const Cls &a, const Cls &b) {
  if (&a == &b) return Cls(1.0);
  Cls r = add(a.v / b.v, a, b);
  for (int i = 0; i < 2; i++) if (b.c[i]) r.c[i] = std::max(r.c[i], 3);
  return r;
}
#define MIX(op)                                                                   \
  inline Cls operator op(const Cls &a, double b) { return a op Cls(b); }            \
  inline Cls operator op(double a, const Cls &b) { return Cls(a) op b; }
MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
#define F(f) inline Cls f(const Cls &a) { return mk(std::f(a.v), a, 4); }
F(exp) F(log) F(sqrt) F(sin) F(cos) F(asin) F(acos) F(atan) F(asinh) F(acosh) F(atanh) F(erf) F(erfc) F(cbrt)
#undef F
inline Cls pow(const Cls &a, double e) {
  if (e == 0) return Cls(1.0);
  if (e == 1) return a;
  return mk(std::pow(a.v, e), a, e == 2 || e == 3 ? 2 : 3);
}
inline Cls atan2(const Cls &a, const Cls &b) { return mk(std::atan2(a.v, b.v), add(0, a, b), 4); }
} // namespace ref
