// One-sided (directional) derivatives of fabs, fmin, fmax for the dual reference:
// each column is a direction of its own. Include before dsl.h.
#pragma once
#include "ref.h"
namespace ref {
template <int N> Dual<N> fabs(const Dual<N> &a) {
  Dual<N> r(std::fabs(a.v));
  if (a.v != 0 && std::fabs(a.v) < 1e-9) flags.fuzzy = true;
  for (int i = 0; i < N; i++) r.g[i] = a.v > 0 ? a.g[i] : a.v < 0 ? -a.g[i] : std::fabs(a.g[i]);
  return r;
}
template <int N> Dual<N> pick(const Dual<N> &a, const Dual<N> &b, int s) { // s=1 max, s=-1 min
  Dual<N> r;
  const double d = s * (a.v - b.v);
  if (d != 0 && std::fabs(d) < 1e-9) flags.fuzzy = true;
  r.v = d > 0 ? a.v : b.v;
  for (int i = 0; i < N; i++) r.g[i] = d > 0 ? a.g[i] : d < 0 ? b.g[i] : s * std::fmax(s * a.g[i], s * b.g[i]);
  return r;
}
template <int N> Dual<N> fmax(const Dual<N> &a, const Dual<N> &b) { return pick(a, b, 1); }
template <int N> Dual<N> fmin(const Dual<N> &a, const Dual<N> &b) { return pick(a, b, -1); }
template <int N> Dual<N> fmax(const Dual<N> &a, double b) { return pick(a, Dual<N>(b), 1); }
template <int N> Dual<N> fmin(const Dual<N> &a, double b) { return pick(a, Dual<N>(b), -1); }
template <int N> Dual<N> fmax(double a, const Dual<N> &b) { return pick(Dual<N>(a), b, 1); }
template <int N> Dual<N> fmin(double a, const Dual<N> &b) { return pick(Dual<N>(a), b, -1); }
// the user's own std::max/std::min choose one operand
template <int N> Dual<N> max(const Dual<N> &a, const Dual<N> &b) { swc(a.v - b.v); return a.v < b.v ? b : a; }
template <int N> Dual<N> min(const Dual<N> &a, const Dual<N> &b) { swc(a.v - b.v); return b.v < a.v ? b : a; }
template <int N> Dual<N> abs(const Dual<N> &a) { return fabs(a); }
} // namespace ref
