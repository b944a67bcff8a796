// Truncated multivariate power series, for tensors of derivatives.
#pragma once
#include <array>
#include <map>
#include "ref.h"
namespace ref {
struct MP {
  static constexpr int MAXN = 165; // binomial(11,3): 3 variables to degree 8
  static inline thread_local int p = 0, d = -1, N = 0;
  static inline thread_local std::vector<std::vector<int>> ex; // exponents by number
  static inline thread_local std::vector<int> mul;             // product table
  std::array<double, MAXN> c{};
  MP() = default;
  MP(double v) { c[0] = v; }
  MP &operator=(double v) { return *this = MP(v); }
  static void setup(int p_, int d_) {
    if (p == p_ && d == d_) return;
    p = p_; d = d_;
    ex.clear();
    std::map<std::vector<int>, int> num;
    for (int deg = 0; deg <= d; deg++) {
      std::vector<int> e(size_t(p), 0);
      std::function<void(int, int)> rec = [&](int i, int left) {
        if (i == p - 1) { e[size_t(i)] = left; num[e] = int(ex.size()); ex.push_back(e); return; }
        for (int q = left; q >= 0; q--) { e[size_t(i)] = q; rec(i + 1, left - q); }
      };
      rec(0, deg);
    }
    N = int(ex.size());
    if (N > MAXN) abort();
    mul.assign(size_t(N * N), -1);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      std::vector<int> e = ex[size_t(i)];
      for (int q = 0; q < p; q++) e[size_t(q)] += ex[size_t(j)][size_t(q)];
      auto it = num.find(e);
      if (it != num.end()) mul[size_t(i * N + j)] = it->second;
    }
  }
};
inline double val(const MP &x) { return x.c[0]; }
inline MP operator+(const MP &a) { return a; }
inline MP operator-(const MP &a) { MP r; for (size_t i = 0; i < size_t(MP::N); i++) r.c[i] = -a.c[i]; return r; }
inline MP operator+(const MP &a, const MP &b) { MP r; for (size_t i = 0; i < size_t(MP::N); i++) r.c[i] = a.c[i] + b.c[i]; return r; }
inline MP operator-(const MP &a, const MP &b) { MP r; for (size_t i = 0; i < size_t(MP::N); i++) r.c[i] = a.c[i] - b.c[i]; return r; }
inline MP operator*(const MP &a, const MP &b) {
  MP r;
  for (int i = 0; i < MP::N; i++) { const double ai = a.c[size_t(i)]; if (ai == 0) continue; for (int j = 0; j < MP::N; j++) { int k = MP::mul[size_t(i * MP::N + j)]; if (k >= 0) r.c[size_t(k)] += ai * b.c[size_t(j)]; } }
  return r;
}
// f(a) from the power series of f at the value of a
template <class F> MP compose(const MP &a, F f) {
  Tay<double, 9> t;
  t.c[0] = a.c[0]; t.c[1] = 1;
  const Tay<double, 9> s = f(t);
  MP h = a, r(s.c[MP::d]);
  h.c[0] = 0;
  for (int k = MP::d - 1; k >= 0; k--) { r = r * h; r.c[0] += s.c[k]; }
  return r;
}
inline MP operator/(const MP &a, const MP &b) { return a * compose(b, [](const Tay<double, 9> &t) { return 1.0 / t; }); }
#define MIX(op) inline MP operator op(const MP &a, double b) { return a op MP(b); } inline MP operator op(double a, const MP &b) { return MP(a) op b; }
MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
#define FUN(f) inline MP f(const MP &a) { return compose(a, [](const Tay<double, 9> &t) { return f(t); }); }
FUN(exp) FUN(log) FUN(sqrt) FUN(sin) FUN(cos) FUN(asin) FUN(acos) FUN(atan) FUN(asinh) FUN(acosh) FUN(atanh) FUN(erf) FUN(erfc) FUN(cbrt)
#undef FUN
inline MP pow(const MP &a, double e) { return compose(a, [=](const Tay<double, 9> &t) { return pow(t, e); }); }
inline MP atan2(const MP &a, const MP &b) {
  const double a0 = a.c[0], b0 = b.c[0];
  MP r = atan((a * b0 - b * a0) / (a * a0 + b * b0));
  r.c[0] = std::atan2(a0, b0);
  return r;
}
inline MP atan2_(const MP &a, const MP &b) { return atan2(a, b); }
} // namespace ref
