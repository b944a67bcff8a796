// row-pointer arrays for the drivers
#pragma once
#include <vector>
namespace arr {
template <class T> struct M2 {
  std::vector<T> d;
  std::vector<T *> r;
  M2(size_t a, size_t b, T v = T(-77)) : d(a * b + 1, v), r(a + 1) { for (size_t i = 0; i < a; i++) r[i] = &d[i * b]; }
  M2(const M2 &) = delete;
  operator T **() { return r.data(); }
  T *operator[](size_t i) { return r[i]; }
  void fill(T v) { std::fill(d.begin(), d.end(), v); }
};
template <class T> struct M3 {
  std::vector<T> d;
  std::vector<T *> r;
  std::vector<T **> q;
  M3(size_t a, size_t b, size_t c, T v = T(-77)) : d(a * b * c + 1, v), r(a * b + 1), q(a + 1) {
    for (size_t i = 0; i < a * b; i++) r[i] = &d[i * c];
    for (size_t i = 0; i < a; i++) q[i] = &r[i * b];
  }
  M3(const M3 &) = delete;
  operator T ***() { return q.data(); }
  T **operator[](size_t i) { return q[i]; }
  void fill(T v) { std::fill(d.begin(), d.end(), v); }
};
} // namespace arr
