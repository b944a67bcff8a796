// All evaluation modes of a trace of two independents as one list of numbers.
#pragma once
#include "dsl.h"
#include "arr.h"
#include <adolc/drivers/drivers.h>
#include <adolc/interfaces.h>
#include <adolc/sparse/sparsedrivers.h>
namespace modes {
typedef std::vector<double> V;
enum Mode { ZOS, FOSR, FOVR, FOV, HOSR, HOVR, HOV, WKOV, JPIDX, JPBF, JPBR, JAC, HVEC, NMODES };
inline const char *modeName[] = {"zos", "fos+fos_reverse", "fos+fov_reverse", "fov", "hos+hos_reverse", "hos+hov_reverse", "hov", "hov_wk+hos_ov", "pattern index", "pattern bit fwd", "pattern bit rev", "jacobian", "hess_vec"};
inline const double W[2][3] = {{1.0, -0.5, 2.0}, {0.25, 1.5, -0.75}}, XD[2] = {0.4, -0.7};
inline void pat(V &o, int m, std::vector<uint *> &P) {
  for (size_t i = 0; i < size_t(m); i++) { if (!P[i]) { o.push_back(-5); continue; } for (uint j = 0; j <= P[i][0]; j++) o.push_back(P[i][j]); delete[] P[i]; }
}
// modes that refuse the program by design
inline bool refused(const dsl::Prog &p, int mode) {
  using namespace dsl;
  for (auto &o : p) {
    if (o.k == UN && o.f == CBRT && ((mode >= HOSR && mode <= WKOV) || mode == HVEC)) return true;
    if (mode == WKOV && ((o.k == BIN && (o.f == FMIN || o.f == FMAX) && o.s == o.t) || (o.k == MISC && o.f == 5 && o.s == o.t))) return true;
    if (o.k == VEC && (mode == JPBF || mode == JPBR)) return true;
  }
  return false;
}
// Return codes come first; with rcs false they are replaced by their sign.
inline V eval(short tag, int mode, const double *x, bool rcs = true, int m = 3, int n = 2) {
  using namespace ADOLC::Sparse;
  using arr::M2; using arr::M3;
  const size_t M = size_t(m), N = size_t(n);
  V o;
  V y(M);
  auto add = [&](const V &v) { o.insert(o.end(), v.begin(), v.end() - 1); }; // M2 and M3 carry one spare entry
  auto addv = [&](const V &v) { o.insert(o.end(), v.begin(), v.end()); };
  auto rc = [&](int r) { o.push_back(rcs ? r : r < 0 ? -1 : 0); };
  V w[2];
  for (int l = 0; l < 2; l++) for (size_t j = 0; j < M; j++) w[l].push_back(W[l][j % 3] + double(j / 3));
  auto xd = [&](size_t i) { return XD[i % 2] + double(i / 2) * 0.5; };
  V X1(N);
  for (size_t i = 0; i < N; i++) X1[i] = xd(i);
  switch (mode) {
  case ZOS: rc(zos_forward(tag, m, n, 0, x, y.data())); addv(y); break;
  case FOSR: {
    V yd(M), z(N);
    rc(fos_forward(tag, m, n, 1, x, X1.data(), y.data(), yd.data())); addv(y); addv(yd);
    for (auto &u : w) { rc(fos_reverse(tag, m, n, u.data(), z.data())); addv(z); }
    break;
  }
  case FOVR: {
    rc(zos_forward(tag, m, n, 1, x, y.data())); addv(y);
    M2<double> U(2, M), Z(2, N);
    for (size_t l = 0; l < 2; l++) for (size_t j = 0; j < M; j++) U[l][j] = w[l][j];
    rc(fov_reverse(tag, m, n, 2, U, Z)); add(Z.d);
    break;
  }
  case FOV: {
    M2<double> X(N, 3), Y(M, 3);
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < 3; j++) X[i][j] = xd(i) + double(j) - double(i);
    rc(fov_forward(tag, m, n, 3, x, X, y.data(), Y)); addv(y); add(Y.d);
    break;
  }
  case HOSR: case HOVR: {
    const int d = mode == HOSR ? 3 : 2;
    M2<double> X(N, size_t(d)), Y(M, size_t(d));
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < size_t(d); j++) X[i][j] = xd(i) + 0.5 * double(j) - double(i) * 0.25;
    rc(hos_forward(tag, m, n, d, d + 1, x, X, y.data(), Y)); addv(y); add(Y.d);
    if (mode == HOSR) {
      M2<double> Z(N, size_t(d + 1));
      rc(hos_reverse(tag, m, n, d, w[0].data(), Z)); add(Z.d);
    } else {
      M3<double> Z(2, N, size_t(d + 1));
      M2<short> nz(2, N);
      M2<double> U(2, M);
      for (size_t l = 0; l < 2; l++) for (size_t j = 0; j < M; j++) U[l][j] = w[l][j];
      rc(hov_reverse(tag, m, n, d, 2, U, Z, nz)); add(Z.d);
    }
    break;
  }
  case HOV: case WKOV: {
    const int d = mode == HOV ? 3 : 2, p = 2;
    M3<double> X(N, 2, size_t(d)), Y(M, 2, size_t(d));
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < 2; j++) for (size_t k = 0; k < size_t(d); k++) X[i][j][k] = xd(i) + 0.5 * double(j) - double(k) * 0.25;
    if (mode == HOV) { rc(hov_forward(tag, m, n, d, p, x, X, y.data(), Y)); addv(y); add(Y.d); }
    else {
      rc(hov_wk_forward(tag, m, n, d, d + 1, p, x, X, y.data(), Y)); addv(y); add(Y.d);
      M2<double> U(M, size_t(d + 1));
      for (size_t j = 0; j < M; j++) for (size_t k = 0; k <= size_t(d); k++) U[j][k] = k ? 0.25 * double(k) : w[0][j];
      M3<double> Z(2, N, size_t(d + 1));
      rc(hos_ov_reverse(tag, m, n, d, p, U, Z)); add(Z.d);
    }
    break;
  }
  case JPIDX: { std::vector<uint *> P(M); std::span<uint *> S(P); rc(jac_pat<SparseMethod::IndexDomains, ControlFlowMode::Tight>(tag, m, n, x, S)); pat(o, m, P); break; }
  case JPBF: { std::vector<uint *> P(M); std::span<uint *> S(P); rc(jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Forward>(tag, m, n, x, S)); pat(o, m, P); break; }
  case JPBR: { std::vector<uint *> P(M); std::span<uint *> S(P); rc(jac_pat<SparseMethod::BitPattern, ControlFlowMode::Tight, BitPatternPropagationDirection::Reverse>(tag, m, n, x, S)); pat(o, m, P); break; }
  case JAC: { M2<double> J(M, N); rc(jacobian(tag, m, n, x, J)); add(J.d); break; }
  case HVEC: { V h(N), v(N); for (size_t i = 0; i < N; i++) v[i] = i % 2 ? -1 : 0.5; rc(lagra_hess_vec(tag, m, n, x, v.data(), w[0].data(), h.data())); addv(h); break; }
  }
  return o;
}
} // namespace modes
