// Independent reference arithmetic: first-order duals and truncated Taylor
// polynomials over any coefficient type. Shares no code with ADOL-C.
#pragma once
#include <cmath>
#include <cstddef>
#include <vector>

namespace ref {
struct Flags {
  bool kink = false;  // at a non-differentiable point of fabs/min/max/ceil/floor/...
  bool fuzzy = false; // so close to a switching point that rounding may decide
  void clear() { *this = Flags(); }
};
inline thread_local Flags flags;
// switching events of a run (comparisons, selections), in program order
enum EvKind { EV_CMP, EV_SEL, EV_ABS, EV_ROUND, EV_COND, EV_CONDEQ, EV_IDX };
struct Ev {
  EvKind k;
  double sel; // which branch / value
  bool tie;
};
inline thread_local std::vector<Ev> *evlog = nullptr;
inline void ev(EvKind k, double sel, bool tie) {
  if (evlog) evlog->push_back({k, sel, tie});
}
inline void sw(double d) { // d = quantity whose sign decides
  if (d == 0) flags.kink = true;
  else if (std::fabs(d) < 1e-9) flags.fuzzy = true;
}
inline void swc(double d) { // exact tie is well defined (branching on > or >=)
  if (d != 0 && std::fabs(d) < 1e-9) flags.fuzzy = true;
}

inline double val(double x) { return x; }

template <int N> struct Dual {
  double v = 0, g[N] = {};
  Dual() = default;
  Dual(double c) : v(c) {}
  Dual &operator=(double c) { return *this = Dual(c); }
};
template <int N> double val(const Dual<N> &x) { return x.v; }
template <int N> Dual<N> chain(const Dual<N> &a, double f, double df) {
  Dual<N> r;
  r.v = f;
  if (!std::isfinite(df)) flags.kink = true; // no derivative there
  for (int i = 0; i < N; i++) r.g[i] = (a.g[i] == 0) ? 0 : df * a.g[i];
  return r;
}
#define B_ template <int N> Dual<N>
B_ operator+(const Dual<N> &a) { return a; }
B_ operator-(const Dual<N> &a) { return chain(a, -a.v, -1); }
B_ operator+(const Dual<N> &a, const Dual<N> &b) {
  Dual<N> r(a.v + b.v);
  for (int i = 0; i < N; i++) r.g[i] = a.g[i] + b.g[i];
  return r;
}
B_ operator-(const Dual<N> &a, const Dual<N> &b) {
  Dual<N> r(a.v - b.v);
  for (int i = 0; i < N; i++) r.g[i] = a.g[i] - b.g[i];
  return r;
}
B_ operator*(const Dual<N> &a, const Dual<N> &b) {
  Dual<N> r(a.v * b.v);
  for (int i = 0; i < N; i++) r.g[i] = a.g[i] * b.v + a.v * b.g[i];
  return r;
}
B_ operator/(const Dual<N> &a, const Dual<N> &b) {
  Dual<N> r(a.v / b.v);
  for (int i = 0; i < N; i++) r.g[i] = (a.g[i] - r.v * b.g[i]) / b.v;
  return r;
}
#define MIX(op)                                                                            \
  B_ operator op(const Dual<N> &a, double b) { return a op Dual<N>(b); }                   \
  B_ operator op(double a, const Dual<N> &b) { return Dual<N>(a) op b; }
MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
B_ exp(const Dual<N> &a) { double e = std::exp(a.v); return chain(a, e, e); }
B_ log(const Dual<N> &a) { return chain(a, std::log(a.v), 1 / a.v); }
B_ sqrt(const Dual<N> &a) { double s = std::sqrt(a.v); return chain(a, s, 0.5 / s); }
B_ sin(const Dual<N> &a) { return chain(a, std::sin(a.v), std::cos(a.v)); }
B_ cos(const Dual<N> &a) { return chain(a, std::cos(a.v), -std::sin(a.v)); }
B_ asin(const Dual<N> &a) { return chain(a, std::asin(a.v), 1 / std::sqrt(1 - a.v * a.v)); }
B_ acos(const Dual<N> &a) { return chain(a, std::acos(a.v), -1 / std::sqrt(1 - a.v * a.v)); }
B_ atan(const Dual<N> &a) { return chain(a, std::atan(a.v), 1 / (1 + a.v * a.v)); }
B_ asinh(const Dual<N> &a) { return chain(a, std::asinh(a.v), 1 / std::sqrt(1 + a.v * a.v)); }
B_ acosh(const Dual<N> &a) { return chain(a, std::acosh(a.v), 1 / std::sqrt(a.v * a.v - 1)); }
B_ atanh(const Dual<N> &a) { return chain(a, std::atanh(a.v), 1 / (1 - a.v * a.v)); }
B_ erf(const Dual<N> &a) { return chain(a, std::erf(a.v), 2 / std::sqrt(M_PI) * std::exp(-a.v * a.v)); }
B_ erfc(const Dual<N> &a) { return chain(a, std::erfc(a.v), -2 / std::sqrt(M_PI) * std::exp(-a.v * a.v)); }
B_ cbrt(const Dual<N> &a) { double c = std::cbrt(a.v); if (a.v == 0) flags.kink = true; return chain(a, c, 1 / (3 * c * c)); }
B_ pow(const Dual<N> &a, double r) {
  double d = (r == 0) ? 0 : r * std::pow(a.v, r - 1);
  return chain(a, std::pow(a.v, r), d);
}
#undef B_
// coefficient-level helpers usable for double and Dual
using std::acos; using std::acosh; using std::asin; using std::asinh; using std::atan;
using std::atanh; using std::cbrt; using std::cos; using std::erf; using std::erfc;
using std::exp; using std::log; using std::pow; using std::sin; using std::sqrt;

template <class S, int D> struct Tay {
  S c[D + 1] = {};
  Tay() = default;
  Tay(double v) { c[0] = v; }
  Tay &operator=(double v) { return *this = Tay(v); }
};
template <class S, int D> double val(const Tay<S, D> &x) { return val(x.c[0]); }
#define T_ template <class S, int D> Tay<S, D>
T_ operator+(const Tay<S, D> &a) { return a; }
T_ operator-(const Tay<S, D> &a) { Tay<S, D> r; for (int k = 0; k <= D; k++) r.c[k] = -a.c[k]; return r; }
T_ operator+(const Tay<S, D> &a, const Tay<S, D> &b) { Tay<S, D> r; for (int k = 0; k <= D; k++) r.c[k] = a.c[k] + b.c[k]; return r; }
T_ operator-(const Tay<S, D> &a, const Tay<S, D> &b) { Tay<S, D> r; for (int k = 0; k <= D; k++) r.c[k] = a.c[k] - b.c[k]; return r; }
T_ operator*(const Tay<S, D> &a, const Tay<S, D> &b) {
  Tay<S, D> r;
  for (int k = 0; k <= D; k++) {
    S s = a.c[0] * b.c[k];
    for (int j = 1; j <= k; j++) s = s + a.c[j] * b.c[k - j];
    r.c[k] = s;
  }
  return r;
}
T_ operator/(const Tay<S, D> &a, const Tay<S, D> &b) {
  Tay<S, D> r;
  for (int k = 0; k <= D; k++) {
    S s = a.c[k];
    for (int j = 0; j < k; j++) s = s - r.c[j] * b.c[k - j];
    r.c[k] = s / b.c[0];
  }
  return r;
}
#define MIX(op)                                                                                   \
  T_ operator op(const Tay<S, D> &a, double b) { return a op Tay<S, D>(b); }                      \
  T_ operator op(double a, const Tay<S, D> &b) { return Tay<S, D>(a) op b; }
MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
// y with y(0)=y0 and y' = g * x'
T_ integ(const S &y0, const Tay<S, D> &g, const Tay<S, D> &x) {
  Tay<S, D> r;
  r.c[0] = y0;
  for (int k = 1; k <= D; k++) {
    S s = x.c[1] * g.c[k - 1];
    for (int j = 2; j <= k; j++) s = s + (x.c[j] * double(j)) * g.c[k - j];
    r.c[k] = s / double(k);
  }
  return r;
}
T_ exp(const Tay<S, D> &x) {
  Tay<S, D> r;
  r.c[0] = exp(x.c[0]);
  for (int k = 1; k <= D; k++) {
    S s = x.c[1] * r.c[k - 1];
    for (int j = 2; j <= k; j++) s = s + (x.c[j] * double(j)) * r.c[k - j];
    r.c[k] = s / double(k);
  }
  return r;
}
T_ log(const Tay<S, D> &x) { return integ(log(x.c[0]), Tay<S, D>(1.0) / x, x); }
T_ sqrt(const Tay<S, D> &x) {
  Tay<S, D> r;
  r.c[0] = sqrt(x.c[0]);
  for (int k = 1; k <= D; k++) {
    S s = x.c[k];
    for (int j = 1; j < k; j++) s = s - r.c[j] * r.c[k - j];
    r.c[k] = s / (r.c[0] * 2.0);
  }
  return r;
}
template <class S, int D> void sincos(const Tay<S, D> &x, Tay<S, D> &s, Tay<S, D> &c) {
  s.c[0] = sin(x.c[0]);
  c.c[0] = cos(x.c[0]);
  for (int k = 1; k <= D; k++) {
    S a = x.c[1] * c.c[k - 1], b = x.c[1] * s.c[k - 1];
    for (int j = 2; j <= k; j++) {
      a = a + (x.c[j] * double(j)) * c.c[k - j];
      b = b + (x.c[j] * double(j)) * s.c[k - j];
    }
    s.c[k] = a / double(k);
    c.c[k] = -(b / double(k));
  }
}
T_ sin(const Tay<S, D> &x) { Tay<S, D> s, c; sincos(x, s, c); return s; }
T_ cos(const Tay<S, D> &x) { Tay<S, D> s, c; sincos(x, s, c); return c; }
T_ asin(const Tay<S, D> &x) { return integ(asin(x.c[0]), 1.0 / sqrt(1.0 - x * x), x); }
T_ acos(const Tay<S, D> &x) { return integ(acos(x.c[0]), -1.0 / sqrt(1.0 - x * x), x); }
T_ atan(const Tay<S, D> &x) { return integ(atan(x.c[0]), 1.0 / (1.0 + x * x), x); }
T_ asinh(const Tay<S, D> &x) { return integ(asinh(x.c[0]), 1.0 / sqrt(x * x + 1.0), x); }
T_ acosh(const Tay<S, D> &x) { return integ(acosh(x.c[0]), 1.0 / sqrt(x * x - 1.0), x); }
T_ atanh(const Tay<S, D> &x) { return integ(atanh(x.c[0]), 1.0 / (1.0 - x * x), x); }
T_ erf(const Tay<S, D> &x) { return integ(erf(x.c[0]), exp(-(x * x)) * (2 / std::sqrt(M_PI)), x); }
T_ erfc(const Tay<S, D> &x) { return integ(erfc(x.c[0]), exp(-(x * x)) * (-2 / std::sqrt(M_PI)), x); }
T_ cbrt(const Tay<S, D> &x) {
  Tay<S, D> r;
  r.c[0] = cbrt(x.c[0]);
  if (val(x) == 0) flags.kink = true;
  S q = r.c[0] * r.c[0] * 3.0;
  for (int k = 1; k <= D; k++) { // (y^3)_k = x_k
    S s = x.c[k];
    for (int a = 0; a <= k; a++)
      for (int b = 0; a + b <= k; b++) {
        int c = k - a - b;
        if (a == k || b == k || c == k) continue;
        s = s - r.c[a] * r.c[b] * r.c[c];
      }
    r.c[k] = s / q;
  }
  return r;
}
T_ pow(const Tay<S, D> &x, double e) {
  if (e >= 0 && e == std::floor(e) && e <= 8) {
    Tay<S, D> r(1.0);
    for (int i = 0; i < int(e); i++) r = r * x;
    return r;
  }
  if (e < 0 && e == std::floor(e) && e >= -8) return 1.0 / pow(x, -e);
  Tay<S, D> r;
  r.c[0] = pow(x.c[0], e);
  for (int k = 1; k <= D; k++) {
    S s = x.c[1] * r.c[k - 1] * (e - (k - 1));
    for (int j = 2; j <= k; j++) s = s + x.c[j] * r.c[k - j] * (e * j - (k - j));
    r.c[k] = s / (x.c[0] * double(k));
  }
  return r;
}
#undef T_

// ---- functions derived from the primitives, for Dual and Tay alike ----
template <class X> concept RefT = requires(X x) { x.v; } || requires(X x) { x.c; };
template <RefT X> X log10(const X &a) { return log(a) / std::log(10.0); }
template <RefT X> X tan(const X &a) { return sin(a) / cos(a); }
template <RefT X> X sinh(const X &a) { X e = exp(a); return (e - 1.0 / e) * 0.5; }
template <RefT X> X cosh(const X &a) { X e = exp(a); return (e + 1.0 / e) * 0.5; }
template <RefT X> X tanh(const X &a) { X e = exp(a * 2.0); return (e - 1.0) / (e + 1.0); }
template <RefT X> X fabs(const X &a) { sw(val(a)); ev(EV_ABS, val(a) < 0, val(a) == 0); return val(a) < 0 ? -a : a; }
template <RefT X> X ceil(const X &a) { double c = std::ceil(val(a)); sw(c - val(a)); sw(val(a) - (c - 1)); ev(EV_ROUND, c, false); return X(c); }
template <RefT X> X floor(const X &a) { double c = std::floor(val(a)); sw(val(a) - c); sw(c + 1 - val(a)); ev(EV_ROUND, c, false); return X(c); }
template <RefT X> X fmin(const X &a, const X &b) { sw(val(a) - val(b)); ev(EV_SEL, val(a) < val(b), val(a) == val(b)); return val(a) < val(b) ? a : b; }
template <RefT X> X fmax(const X &a, const X &b) { sw(val(a) - val(b)); ev(EV_SEL, val(a) > val(b), val(a) == val(b)); return val(a) > val(b) ? a : b; }
template <RefT X> X abs(const X &a) { return fabs(a); }
template <RefT X> X min(const X &a, const X &b) { return fmin(a, b); }
template <RefT X> X max(const X &a, const X &b) { return fmax(a, b); }
template <RefT X> X fmin(const X &a, double b) { return fmin(a, X(b)); }
template <RefT X> X fmax(const X &a, double b) { return fmax(a, X(b)); }
template <RefT X> X fmin(double a, const X &b) { return fmin(X(a), b); }
template <RefT X> X fmax(double a, const X &b) { return fmax(X(a), b); }
template <RefT X> X ldexp(const X &a, int e) { return a * std::ldexp(1.0, e); }
template <RefT X> X pow(double a, const X &b) { return exp(b * std::log(a)); }
template <RefT X> X pow(const X &a, const X &b) { return exp(b * log(a)); }
template <int N> Dual<N> atan2(const Dual<N> &a, const Dual<N> &b) {
  Dual<N> r(std::atan2(a.v, b.v));
  double q = a.v * a.v + b.v * b.v;
  for (int i = 0; i < N; i++) r.g[i] = (b.v * a.g[i] - a.v * b.g[i]) / q;
  return r;
}
inline double atan2_(double a, double b) { return std::atan2(a, b); }
template <int N> Dual<N> atan2_(const Dual<N> &a, const Dual<N> &b) { return atan2(a, b); }
template <class S, int D> Tay<S, D> atan2(const Tay<S, D> &a, const Tay<S, D> &b) {
  Tay<S, D> q = a * a + b * b, ga = b / q, gb = -(a / q);
  Tay<S, D> r = integ(S(0.0), ga, a) + integ(S(0.0), gb, b);
  r.c[0] = atan2_(a.c[0], b.c[0]);
  return r;
}
template <RefT X> void condassign(X &r, const X &c, const X &a, const X &b) { swc(val(c)); ev(EV_COND, val(c) > 0, val(c) == 0); X t = val(c) > 0 ? a : b; r = t; }
template <RefT X> void condassign(X &r, const X &c, const X &a) { swc(val(c)); ev(EV_COND, val(c) > 0, val(c) == 0); if (val(c) > 0) { X t = a; r = t; } }
template <RefT X> void condeqassign(X &r, const X &c, const X &a, const X &b) { swc(val(c)); ev(EV_CONDEQ, val(c) >= 0, val(c) == 0); X t = val(c) >= 0 ? a : b; r = t; }
template <RefT X> void condeqassign(X &r, const X &c, const X &a) { swc(val(c)); ev(EV_CONDEQ, val(c) >= 0, val(c) == 0); if (val(c) >= 0) { X t = a; r = t; } }
inline bool cmpev(double a, double b, bool r) { swc(a - b); ev(EV_CMP, r, a == b); return r; }
#define CMP(op)                                                                                       \
  template <RefT X> bool operator op(const X &a, const X &b) { return cmpev(val(a), val(b), val(a) op val(b)); }  \
  template <RefT X> bool operator op(const X &a, double b) { return cmpev(val(a), b, val(a) op b); }     \
  template <RefT X> bool operator op(double a, const X &b) { return cmpev(a, val(b), a op val(b)); }
CMP(<) CMP(>) CMP(<=) CMP(>=) CMP(==) CMP(!=)
#undef CMP
#define CPD(op)                                                                  \
  template <RefT X> X &operator op##=(X &a, const X &b) { return a = a op X(b); } \
  template <RefT X> X &operator op##=(X &a, double b) { return a = a op X(b); }
CPD(+) CPD(-) CPD(*) CPD(/)
#undef CPD
template <RefT X> X &operator++(X &a) { return a = a + X(1.0); }
template <RefT X> X &operator--(X &a) { return a = a - X(1.0); }
template <RefT X> X operator++(X &a, int) { X t = a; a = a + X(1.0); return t; }
template <RefT X> X operator--(X &a, int) { X t = a; a = a - X(1.0); return t; }
} // namespace ref
