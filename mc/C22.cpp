// C22: every failure of the disk under the trace files.
//
// The trace files live in a file system in memory behind fopen (fopencookie),
// so the real stdio runs on top of it.  Each operation that reaches this file
// system (open, write, read, seek, close, remove) is a fault point; all
// histories of commands x all fault points x all kinds of failure are run.
#include <cerrno>
#include <fcntl.h>
#include <memory>
#include "dsl.h"
#include "arr.h"
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
using mc::fail;
using mc::fmt;
using arr::M2;
using arr::M3;
typedef std::vector<double> V;
static int cFault, cError, cHarmless, cKind[6];
static long maxPoints = 0;

// ------------------------------------------------------------- the disk
namespace disk {
typedef std::shared_ptr<std::vector<char>> Data;
static std::map<std::string, Data> files;
enum Op { OPEN, WRITE, READ, SEEK, CLOSE, REMOVE };
static const char *opName[] = {"open", "write", "read", "seek", "close", "remove"};
enum Kind { ONCE, PART, FROM, NKIND }; // fails; transfers a part only; fails from now on
static const char *kindName[] = {"fails", "is incomplete", "and all later ones fail"};
static bool armed = false;
static int buffering = 0; // 0: 64 bytes, 1: default, 2: 256 bytes
static long points = 0, at[2] = {-1, -1};
static int kind[2];
static std::string what[2];
static bool fired[2];
static int hit(Op op, const char *name, bool harmless = false) { // -1: no fault
  if (!armed) return -1;
  const long k = points++;
  for (int i = 0; i < 2; i++) {
    if (at[i] < 0) continue;
    if (k == at[i]) { fired[i] = true; what[i] = fmt("%s of %s", opName[op], name); mc::count(cKind[op]); if (!harmless) return kind[i] == FROM ? ONCE : kind[i]; }
    if (k > at[i] && kind[i] == FROM && fired[i]) return ONCE;
  }
  return -1;
}
struct File { std::string name; Data d; size_t pos = 0; bool wr = false, eof = false; size_t lastWrite = 0; char buf[256]; };
static ssize_t rd(void *c, char *b, size_t n) {
  File *f = static_cast<File *>(c);
  if (f->eof) return 0;
  size_t have = f->pos < f->d->size() ? f->d->size() - f->pos : 0;
  n = std::min(n, have);
  const int k = hit(READ, f->name.c_str());
  if (k == ONCE) { errno = EIO; return -1; }
  if (k == PART) { n /= 2; f->eof = true; }
  memcpy(b, f->d->data() + f->pos, n);
  f->pos += n;
  return ssize_t(n);
}
static ssize_t wr(void *c, const char *b, size_t n) {
  File *f = static_cast<File *>(c);
  const int k = hit(WRITE, f->name.c_str());
  if (k == ONCE) { errno = ENOSPC; return 0; }
  const size_t m = k == PART ? n / 2 : n;
  if (f->pos + m > f->d->size()) f->d->resize(f->pos + m);
  memcpy(f->d->data() + f->pos, b, m);
  f->lastWrite = f->pos;
  f->pos += m;
  if (m < n) errno = ENOSPC;
  return ssize_t(m);
}
static int sk(void *c, off64_t *o, int w) {
  File *f = static_cast<File *>(c);
  const int k = w == SEEK_CUR && *o == 0 ? -1 : hit(SEEK, f->name.c_str());
  if (k >= 0) { errno = EIO; return -1; }
  off64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? off64_t(f->pos) + *o : off64_t(f->d->size()) + *o;
  if (p < 0) { errno = EINVAL; return -1; }
  f->pos = size_t(p);
  f->eof = false;
  *o = p;
  return 0;
}
static int cl(void *c) {
  std::unique_ptr<File> f(static_cast<File *>(c));
  const int k = f->wr ? hit(CLOSE, f->name.c_str()) : -1;
  if (k == PART && f->lastWrite < f->d->size()) f->d->resize(f->lastWrite); // the last write was lost
  if (k >= 0) { errno = EIO; return EOF; }
  return 0;
}
static bool tracked(const char *p) { return strstr(p, "ADOLC-") != nullptr || strstr(p, ".tap") != nullptr; }
static FILE *open(const char *p, const char *m) {
  const bool w = m[0] == 'w', plus = strchr(m, '+') != nullptr;
  auto it = files.find(p);
  if (!w && it == files.end()) { errno = ENOENT; return nullptr; } // not a fault point: this is an answer
  const int k = hit(OPEN, p);
  if (k >= 0) { errno = EMFILE; return nullptr; }
  auto *f = new File;
  f->name = p;
  if (w) { if (it == files.end()) it = files.emplace(p, std::make_shared<std::vector<char>>()).first; it->second->clear(); }
  f->d = it->second;
  f->wr = w || plus;
  cookie_io_functions_t io{rd, wr, sk, cl};
  FILE *fp = fopencookie(f, m, io);
  if (buffering != 1) setvbuf(fp, f->buf, _IOFBF, buffering == 0 ? 64 : 256);
  return fp;
}
static int rem(const char *p) {
  auto it = files.find(p);
  if (it == files.end()) { errno = ENOENT; return -1; }
  if (hit(REMOVE, p) >= 0) { errno = EACCES; return -1; }
  files.erase(it);
  return 0;
}
static void arm(long a, int k, long a2 = -1, int k2 = 0) { armed = true; points = 0; at[0] = a; kind[0] = k; at[1] = a2; kind[1] = k2; fired[0] = fired[1] = false; }
static void disarm() { armed = false; }
} // namespace disk
extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_remove(const char *);
int __real_unlink(const char *);
FILE *__wrap_fopen(const char *p, const char *m) { return disk::tracked(p) ? disk::open(p, m) : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_remove(const char *p) { return disk::tracked(p) ? disk::rem(p) : __real_remove(p); }
int __wrap_unlink(const char *p) { return disk::tracked(p) ? disk::rem(p) : __real_unlink(p); }
}

// ------------------------------------------------------------- functions
constexpr int NT = 3; // A and B spill, C does not
template <class T> void body(int t, int v, const T *x, const T &p, T *y) {
  using namespace std;
  using namespace ref;
  T a = x[0], b = x[1];
  for (int i = 0; i < 3; i++) {
    a = sin(a) * (0.5 + i) + b * (v ? 1.25 : -0.75);
    b = b + a * a * (0.25 + t);
    if (v) b = b * 0.5 + exp(a * 0.125);
  }
  y[0] = a * b * p;
  y[1] = b / (a * a + 2.0) + x[0];
}
static const double PX[3][2] = {{0.5, 0.75}, {1.25, -0.5}, {-0.25, 0.375}};
struct St { bool good = false; int v = 0; double p = 1.5; int kept = -1; }; // kept: point of the last forward sweep whose values can be used
static short tag[NT] = {-1};
static St st[NT];
static std::string when;
typedef ref::Dual<2> D2;
typedef ref::Tay<D2, 1> TD;
static TD evalAt(int t, int pt, int dep) {
  TD X[2], Y[2];
  for (int i = 0; i < 2; i++) { X[i] = PX[pt][i]; X[i].c[0].g[i] = 1; X[i].c[1] = D2(i ? 0.5 : 1.0); }
  body<TD>(t, st[t].v, X, TD(st[t].p), Y);
  return Y[dep];
}
static void near(double g, double w, const char *tg, const char *what) { mc::checked(); if (!(std::fabs(g - w) <= 1e-10 * std::max(1.0, std::fabs(w)))) fail(tg, "%s is %.15g instead of %.15g (%s)", what, g, w, when.c_str()); }
template <class F> static bool attempt(F f) { // true: no error reported
  try { return f() >= 0; } catch (const mc::CaseFail &) { throw; } catch (const std::exception &) { return false; }
}
enum Cmd { ZOS, GRAD, FOV, FOVREV, HESS, HOV, JAC, PAT, REC0, REC1, RECK, PARAM, REVB, RECB, JACB, NCMD };
static const char *cmdName[] = {"forward", "gradient", "fov_forward", "fov_reverse", "hessian", "hov_reverse", "jacobian", "pattern", "record", "record-to-file", "record-keep", "set-parameter", "reverse-again", "record-other", "jacobian-other"};
static bool sweep(int t, int cmd, int pt) { // returns whether no error was reported; values are checked
  const short T = tag[t];
  double x[2] = {PX[pt][0], PX[pt][1]}, y[2] = {-7, -7};
  const TD Y[2] = {evalAt(t, pt, 0), evalAt(t, pt, 1)};
  auto values = [&] { for (int i = 0; i < 2; i++) near(y[i], Y[i].c[0].v, "value", "a value"); };
  auto weighted = [&](const double *u, const double *z, const TD *W) { for (int j = 0; j < 2; j++) near(z[j], u[0] * W[0].c[0].g[j] + u[1] * W[1].c[0].g[j], "derivative", "a component of the gradient"); };
  mc::transition();
  switch (cmd) {
  case ZOS: if (!attempt([&] { return zos_forward(T, 2, 2, 0, x, y); })) return false; values(); return true;
  case GRAD: {
    double u[2] = {1, -0.5}, z[2];
    st[t].kept = -1;
    if (!attempt([&] { return zos_forward(T, 2, 2, 1, x, y); })) return false;
    st[t].kept = pt;
    values();
    if (!attempt([&] { return fos_reverse(T, 2, 2, u, z); })) return false;
    weighted(u, z, Y);
    return true;
  }
  case REVB: { // uses what the last forward sweep kept
    double u[2] = {0.5, 2}, z[2];
    const int k = st[t].kept;
    if (!attempt([&] { return fos_reverse(T, 2, 2, u, z); })) return false;
    if (k < 0) fail("stale", "fos_reverse succeeds although there is no successful forward sweep (%s)", when.c_str());
    const TD W[2] = {evalAt(t, k, 0), evalAt(t, k, 1)};
    weighted(u, z, W);
    return true;
  }
  case FOV: {
    M2<double> X(2, 2, 0.0), R(2, 2);
    X[0][0] = X[1][1] = 1;
    if (!attempt([&] { return fov_forward(T, 2, 2, 2, x, X, y, R); })) return false;
    values();
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) near(R[size_t(i)][j], Y[i].c[0].g[j], "derivative", "an entry of the Jacobian");
    return true;
  }
  case FOVREV: {
    M2<double> U(2, 2, 0.0), Z(2, 2);
    U[0][0] = U[1][1] = 1;
    st[t].kept = -1;
    if (!attempt([&] { return zos_forward(T, 2, 2, 1, x, y); })) return false;
    st[t].kept = pt;
    values();
    if (!attempt([&] { return fov_reverse(T, 2, 2, 2, U, Z); })) return false;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) near(Z[size_t(i)][j], Y[i].c[0].g[j], "derivative", "an entry of the Jacobian");
    return true;
  }
  case HESS: {
    double d[2] = {1.0, 0.5}, yd[2], u[2] = {1, -2};
    M2<double> Z(2, 2);
    st[t].kept = -1;
    if (!attempt([&] { return fos_forward(T, 2, 2, 2, x, d, y, yd); })) return false;
    values();
    for (int i = 0; i < 2; i++) near(yd[i], Y[i].c[1].v, "derivative", "a directional derivative");
    if (!attempt([&] { return hos_reverse(T, 2, 2, 1, u, Z); })) return false;
    for (int j = 0; j < 2; j++) { near(Z[size_t(j)][0], u[0] * Y[0].c[0].g[j] + u[1] * Y[1].c[0].g[j], "derivative", "a component of the gradient"); near(Z[size_t(j)][1], u[0] * Y[0].c[1].g[j] + u[1] * Y[1].c[1].g[j], "derivative", "a second derivative"); }
    return true;
  }
  case HOV: {
    M2<double> X(2, 1), R(2, 1), U(2, 2, 0.0);
    M3<double> Z(2, 2, 2);
    M2<short> nz(2, 2);
    X[0][0] = 1; X[1][0] = 0.5; U[0][0] = U[1][1] = 1;
    st[t].kept = -1;
    if (!attempt([&] { return hos_forward(T, 2, 2, 1, 2, x, X, y, R); })) return false;
    values();
    if (!attempt([&] { return hov_reverse(T, 2, 2, 1, 2, U, Z, nz); })) return false;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { near(Z[size_t(i)][j][0], Y[i].c[0].g[j], "derivative", "an entry of the Jacobian"); near(Z[size_t(i)][j][1], Y[i].c[1].g[j], "derivative", "a second derivative"); }
    return true;
  }
  case JAC: {
    M2<double> J(2, 2);
    if (!attempt([&] { return jacobian(T, 2, 2, x, J); })) return false;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) near(J[size_t(i)][j], Y[i].c[0].g[j], "derivative", "an entry of the Jacobian");
    return true;
  }
  default: { // PAT
    std::vector<unsigned int *> P(2, nullptr);
    std::span<unsigned int *> s(P);
    const bool ok = attempt([&] { return ADOLC::Sparse::jac_pat<ADOLC::Sparse::SparseMethod::IndexDomains, ADOLC::Sparse::ControlFlowMode::Safe>(T, 2, 2, x, s); });
    bool bad = false;
    if (ok) for (auto *r : P) if (!r || r[0] != 2) bad = true;
    for (auto *r : P) delete[] r;
    if (bad) fail("pattern", "the sparsity pattern misses entries (%s)", when.c_str());
    return ok;
  }
  }
}
static bool record(int t, int v, int keep, int flag, int pt) {
  St &s = st[t];
  ValueTape *const prev = currentTapePtr();
  s.good = false;
  s.kept = -1;
  s.v = v;
  s.p = 1.5;
  double y[2] = {-7, -7};
  mc::trace();
  bool on = true, threw = false;
  try { if (t == 2) trace_on(tag[t], keep); else trace_on(tag[t], keep, 6, 60, 8, 3, 0); } catch (const std::exception &) { on = false; }
  if (on) {
    try {
      adouble X[2], Y[2], P;
      for (int i = 0; i < 2; i++) X[i] <<= PX[pt][i];
      pdouble pp(s.p);
      P = adouble(0.0) + pp;
      body<adouble>(t, v, X, P, Y);
      for (int i = 0; i < 2; i++) Y[i] >>= y[i];
    } catch (const std::exception &) { threw = true; }
    bool off = true;
    try { trace_off(flag); } catch (const std::exception &) { off = false; }
    s.good = off && !threw;
    if (threw && off) fail("swallowed", "an operation failed while recording, yet trace_off succeeds (%s)", when.c_str());
  }
  if (currentTapePtr() != prev) fail("current", "the current trace is not the one from before the recording (%s)", when.c_str());
  if (s.good) { s.kept = keep ? pt : -1; const TD Y[2] = {evalAt(t, pt, 0), evalAt(t, pt, 1)}; for (int i = 0; i < 2; i++) near(y[i], Y[i].c[0].v, "value", "a recorded value"); }
  return s.good;
}
static bool run(int cmd, int pt) {
  switch (cmd) {
  case REC0: return record(0, 1, 0, 0, pt);
  case REC1: return record(0, 1, 0, 1, pt);
  case RECK: return record(0, 1, 1, 0, pt) && sweep(0, REVB, pt);
  case RECB: return record(1, 1, 0, 1, pt);
  case JACB: return sweep(1, JAC, pt);
  case PARAM: {
    double p[1] = {2.25};
    if (!attempt([&] { findTape(tag[0]).set_param_vec(tag[0], 1, p); return 0; })) { st[0].kept = -1; return false; }
    st[0].p = p[0];
    st[0].kept = -1;
    return sweep(0, GRAD, pt);
  }
  default: return sweep(0, cmd, pt);
  }
}
struct Reset { bool ok = false; ~Reset() { disk::disarm(); if (!ok) tag[0] = -1; } };
static void prepare() {
  if (tag[0] < 0) { for (auto &t : tag) t = createNewTape(); setCurrentTape(tag[2]); }
  when = "preparation";
  setCurrentTape(tag[2]);
  record(0, 0, 0, 1, 0);
  record(1, 0, 0, 0, 0);
  record(2, 0, 0, 0, 0);
  for (int t = 0; t < NT; t++) if (!st[t].good) fail("prepare", "recording trace %d fails without any fault", t);
}
// one run; returns whether every fault was reached
static bool one(const std::vector<int> &cs, long a, int k, long a2, int k2, uint64_t key) {
  prepare();
  disk::arm(a, k, a2, k2);
  bool err = false;
  for (size_t i = 0; i < cs.size(); i++) {
    when = a < 0 ? "no fault" : fmt("operation %ld fails, command %zu", a, i + 1);
    const bool r = run(cs[i], 1 + int(i % 2));
    if (a >= 0 && disk::fired[0]) when = fmt("%s (point %ld) %s, command %zu", disk::what[0].c_str(), a, disk::kindName[k], i + 1);
    if (!r && !disk::fired[0] && !disk::fired[1] && !(cs[i] == REVB && st[0].kept < 0)) fail("refused", "%s fails without any fault (%s)", cmdName[cs[i]], when.c_str());
    if (!r && cs[i] != REVB) err = true;
  }
  disk::disarm();
  maxPoints = std::max(maxPoints, disk::points);
  const bool hit = a < 0 || (disk::fired[0] && (a2 < 0 || disk::fired[1]));
  if (a >= 0 && !hit) return false;
  if (a >= 0) { mc::count(cFault); mc::count(err ? cError : cHarmless); when = fmt("after %s (point %ld) %s%s", disk::what[0].c_str(), a, disk::kindName[k], a2 >= 0 ? fmt(" and %s (point %ld)", disk::what[1].c_str(), a2).c_str() : ""); }
  mc::state(mc::hmix(key, uint64_t(a * 131 + a2)));
  // everything works again
  for (int t = 0; t < NT; t++) {
    if (!st[t].good) {
      bool silent = false;
      { St s = st[t]; M2<double> J(2, 2); double x[2] = {PX[0][0], PX[0][1]}; silent = attempt([&] { return jacobian(tag[t], 2, 2, x, J); }); st[t] = s; }
      if (silent) fail("broken", "trace %d yields derivatives although its recording failed (%s)", t, when.c_str());
      continue;
    }
    for (int c : {int(GRAD), int(HESS), int(PAT)}) if (!sweep(t, c, 2)) fail("unusable", "%s of trace %d fails without a fault (%s)", cmdName[c], t, when.c_str());
  }
  for (int t = 0; t < NT; t++) {
    if (!record(t, 1, 1, 0, 0)) fail("rerecord", "trace %d cannot be recorded again (%s)", t, when.c_str());
    for (int c : {int(REVB), int(HESS), int(JAC)}) if (!sweep(t, c, 2)) fail("unusable", "%s of trace %d fails after recording it again (%s)", cmdName[c], t, when.c_str());
  }
  return true;
}
static void singleCase(const std::vector<int> &cs, int kind, int buf) {
  Reset g;
  disk::buffering = buf;
  uint64_t key = uint64_t(kind * 3 + buf);
  for (int c : cs) key = mc::hmix(key, uint64_t(c) + 1);
  one(cs, -1, 0, -1, 0, key);
  for (long a = 0;; a++) if (!one(cs, a, kind, -1, 0, key)) break;
  g.ok = true;
}
static void pairCase(const std::vector<int> &cs, int first, int kind, int buf) {
  Reset g;
  disk::buffering = buf;
  uint64_t key = uint64_t(kind * 3 + buf + 100);
  for (int c : cs) key = mc::hmix(key, uint64_t(c) + 1);
  bool any = false;
  for (long a2 = first + 1;; a2++) {
    prepare();
    // the second fault may never be reached: then all larger ones are not either
    if (!one(cs, first, kind, a2, disk::ONCE, key)) break;
    any = true;
  }
  if (!any) mc::trivial();
  g.ok = true;
}
struct R : mc::Runner {
  void setup() override {
    childInit = [] { tag[0] = -1; };
    cFault = mc::counter("faults");
    cError = mc::counter("faults_reported");
    cHarmless = mc::counter("faults_without_effect");
    static const char *cn[] = {"at_open", "at_write", "at_read", "at_seek", "at_close", "at_remove"};
    for (int i = 0; i < 6; i++) cKind[i] = mc::counter(cn[i]);
    auto names = [](const std::vector<int> &v) { std::string s; for (int c : v) s += (s.empty() ? "" : ",") + std::string(cmdName[c]); return s; };
#ifdef MC_CHUNK
    const int LEN = mc::thorough ? 2 : 1;
#else
    const int LEN = mc::thorough ? 3 : 2;
#endif
    for (int len = 1; len <= LEN; len++) {
      const int B = len == 1 || (mc::thorough && len == 2) ? 3 : 1;
      mc::Space s;
      s.name = fmt("single%d", len); s.n = mc::ipow(NCMD, unsigned(len)) * uint64_t(disk::NKIND * B); s.chunk = 1;
      s.rule = fmt("all sequences of %d commands from %d x every operation of the file system they issue x kinds of failure x %d buffering modes of stdio", len, int(NCMD), B);
      auto dec = [=](uint64_t k, int &kd, int &b) { mc::Dec d(k); kd = int(d(disk::NKIND)); b = int(d(uint64_t(B))); std::vector<int> v; for (int i = 0; i < len; i++) v.push_back(int(d(NCMD))); return v; };
      s.run = [=](uint64_t k) { int kd, b; auto v = dec(k, kd, b); singleCase(v, kd, b); };
      s.describe = [=](uint64_t k) { int kd, b; auto v = dec(k, kd, b); return fmt("%s buffering%d one %s", names(v).c_str(), b, disk::kindName[kd]); };
      spaces.push_back(s);
    }
#ifndef MC_CHUNK
    {
      const int F = mc::thorough ? 120 : 40, L = mc::thorough ? 2 : 1;
      mc::Space s;
      s.name = "pairs"; s.n = mc::ipow(NCMD, unsigned(L)) * uint64_t(F * 2); s.chunk = 4;
      s.rule = fmt("all sequences of %d commands x all pairs of failing operations with the first among the first %d x kinds of the first failure", L, F);
      auto dec = [=](uint64_t k, int &kd, int &f) { mc::Dec d(k); kd = int(d(2)); f = int(d(uint64_t(F))); std::vector<int> v; for (int i = 0; i < L; i++) v.push_back(int(d(NCMD))); return v; };
      s.run = [=](uint64_t k) { int kd, f; auto v = dec(k, kd, f); pairCase(v, f, kd, 0); };
      s.describe = [=](uint64_t k) { int kd, f; auto v = dec(k, kd, f); return fmt("%s first%d %s", names(v).c_str(), f, disk::kindName[kd]); };
      spaces.push_back(s);
    }
#endif
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
