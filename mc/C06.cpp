// C06: live active variables own distinct storage, values survive growth,
// contiguous requests are contiguous, released locations come back.
#include "dsl.h"
#include <adolc/interfaces.h>
#include <adolc/drivers/drivers.h>
#include <map>
#include <memory>
using namespace dsl;
using mc::fail;
static int cGrow, cBlocks, cRefused;

static ValueTape *tp;
static short tagId;
struct Cfg { int type, gc, prefill; };
static std::string str(const Cfg &c) { return mc::fmt("%s gc%d prefill%d", c.type ? "singletons" : "blocks", c.gc, c.prefill); }
// a manager in its initial state: switching the kind rebuilds it
static void resetStore(const Cfg &c) {
  if (!tp) {
    adolcrc(4096, 4096, 4096, 65536);
    tagId = createNewTape();
    tp = &findTape(tagId);
  }
  setCurrentTape(tagId);
  if (tp->numLives() != 0) fail("numLives-not-zero", "%zu variables counted as live after all were released", tp->numLives());
  int other = c.type ? StoreManager::ADOLC_LOCATION_BLOCKS : StoreManager::ADOLC_LOCATION_SINGLETONS;
  int want = c.type ? StoreManager::ADOLC_LOCATION_SINGLETONS : StoreManager::ADOLC_LOCATION_BLOCKS;
  try { tp->setStoreManagerType(other); } catch (const ADOLCError::ADOLCError &) {}
  tp->setStoreManagerType(want);
  if (c.gc == 1) tp->setStoreManagerControl(1e9, size_t(1) << 60);
  if (c.gc == 2) tp->setStoreManagerControl(0.0, 0);
}
// ------------------------------------------------ histories on locations
struct Loc { size_t l; double v; };
enum { A, E2, E3, E5, F0, F1, F2, F3, G0, G1, FA, NLOP };
static const char *lopName[] = {"alloc", "block2", "block3", "block5", "free0", "free1", "free2", "free3", "free-last", "free-2ndlast", "free-all"};
static double nextVal = 1;
static void checkAll(const std::vector<Loc> &L) {
  mc::checked(L.size());
  if (tp->numLives() != L.size()) fail("numLives", "library counts %zu live variables, the history has %zu", tp->numLives(), L.size());
  for (size_t i = 0; i < L.size(); i++) {
    if (L[i].l >= tp->storeSize()) fail("out-of-store", "location %zu outside the store of %zu", L[i].l, tp->storeSize());
    for (size_t j = 0; j < i; j++)
      if (L[i].l == L[j].l) fail("shared", "two live variables share location %zu", L[i].l);
    double g = tp->get_ad_value(L[i].l);
    if (g != L[i].v) fail("value-lost", "variable at %zu should hold %g but holds %g", L[i].l, L[i].v, g);
  }
}
static void alloc(std::vector<Loc> &L) {
  size_t s = tp->storeSize();
  size_t l = tp->next_loc();
  if (tp->storeSize() != s) mc::count(cGrow);
  for (auto &q : L) if (q.l == l) fail("shared", "location %zu handed out while live", l);
  if (l >= tp->storeSize()) fail("out-of-store", "location %zu outside the store of %zu", l, tp->storeSize());
  double v = nextVal++;
  tp->set_ad_value(l, v);
  L.push_back({l, v});
}
static bool step(int op, const Cfg &c, std::vector<Loc> &L) {
  auto freeAt = [&](size_t i) { tp->free_loc(L[i].l); L.erase(L.begin() + long(i)); };
  switch (op) {
  case A: alloc(L); break;
  case E2: case E3: case E5: {
    size_t n = op == E2 ? 2 : op == E3 ? 3 : 5;
    if (c.type) { // no blocks in this kind: must be refused without effect
      bool thrown = false;
      try { tp->ensureContiguousLocations(n); } catch (const ADOLCError::ADOLCError &) { thrown = true; }
      if (!thrown) fail("not-refused", "block request accepted by a manager without blocks");
      mc::count(cRefused);
      break;
    }
    tp->ensureContiguousLocations(n);
    checkAll(L);
    for (size_t i = 0; i < n; i++) {
      alloc(L);
      if (i && L.back().l != L[L.size() - 2].l + 1) fail("not-contiguous", "block of %zu: element %zu at %zu after %zu", n, i, L.back().l, L[L.size() - 2].l);
    }
    mc::count(cBlocks);
    break;
  }
  case F0: case F1: case F2: case F3: if (size_t(op - F0) >= L.size()) return false; freeAt(size_t(op - F0)); break;
  case G0: if (L.size() < 5) return false; freeAt(L.size() - 1); break;
  case G1: if (L.size() < 6) return false; freeAt(L.size() - 2); break;
  case FA: if (L.size() < 2) return false; while (!L.empty()) freeAt(L.size() / 2); break;
  }
  mc::transition();
  checkAll(L);
  uint64_t h = 6 + uint64_t(c.type) * 100 + uint64_t(c.gc);
  for (auto &q : L) h = mc::hmix(h, q.l);
  mc::state(mc::hmix(h, tp->storeSize()));
  return true;
}
static void finish(std::vector<Loc> &L) {
  // nothing lost: every location not owned can be handed out before growing
  size_t s = tp->storeSize();
  if (s > 0 && L.size() + 1 < s) {
    size_t freeN = s - L.size() - 1;
    for (size_t i = 0; i < freeN; i++) {
      alloc(L);
      if (tp->storeSize() != s) fail("locations-lost", "store of %zu with %zu live variables grew to %zu: released locations are not reused", s, L.size() - 1, tp->storeSize());
    }
    checkAll(L);
  }
  for (int i = 0; i < 3; i++) alloc(L);
  checkAll(L);
  while (!L.empty()) { tp->free_loc(L.back().l); L.pop_back(); }
  if (tp->numLives()) fail("numLives-not-zero", "%zu live after release of all", tp->numLives());
}
static void history(const Cfg &c, uint64_t k, int depth) {
  std::vector<Loc> L;
  int ops[16];
  for (int i = 0; i < depth; i++) { ops[i] = int(k % NLOP); k /= NLOP; }
  // histories with inapplicable operations are not distinct: skip early
  size_t n = size_t(c.prefill);
  for (int i = 0; i < depth; i++) switch (ops[i]) {
    case A: n++; break;
    case E2: n += c.type ? 0 : 2; break;
    case E3: n += c.type ? 0 : 3; break;
    case E5: n += c.type ? 0 : 5; break;
    case FA: if (n < 2) { mc::trivial(); return; } n = 0; break;
    case G0: if (n < 5) { mc::trivial(); return; } n--; break;
    case G1: if (n < 6) { mc::trivial(); return; } n--; break;
    default: if (n <= size_t(ops[i] - F0)) { mc::trivial(); return; } n--; break;
    }
  resetStore(c);
  nextVal = 1;
  try {
    for (int i = 0; i < c.prefill; i++) alloc(L);
    for (int i = 0; i < depth; i++)
      if (!step(ops[i], c, L)) { mc::trivial(); break; }
    finish(L);
    mc::trace();
  } catch (...) { // leave no live location behind for the next history
    for (auto &q : L) if (q.l < tp->storeSize()) tp->free_loc(q.l);
    throw;
  }
}
static std::string lopStr(uint64_t k, int depth) {
  std::string s;
  for (int i = 0; i < depth; i++) { s += std::string(i ? " " : "") + lopName[k % NLOP]; k /= NLOP; }
  return s;
}
// ------------------------------------------------ histories on objects
enum { N0, NV, CC0, CCL, MV0, MVL, CA, CAS, MA, SWP, D0, D1, DL, AV, AVC, AVA, AVV, AVD, STD, TMP, IDX, SET, REL, NOOP_ };
static const char *oopName[] = {"adouble()", "adouble(v)", "copy oldest", "copy newest", "move oldest", "move newest", "oldest=newest", "self-assign", "newest=move(oldest)", "swap", "delete oldest", "delete second", "delete newest",
  "advector(3)", "advector copy", "advector assign", "advector(vector)", "delete advector", "std::vector push/erase", "temporaries", "a[active]", "a[active]=x", "release/borrow"};
static const int NOOP = NOOP_;
struct World {
  std::vector<std::unique_ptr<adouble>> a;
  std::vector<double> v; // NaN: moved-from
  std::vector<std::unique_ptr<advector>> av;
  std::vector<std::vector<double>> vv;
  std::vector<std::pair<size_t, double>> rel; // released: alive, owned by nobody
  size_t live() const { size_t n = rel.size(); for (auto &x : a) n += x->is_valid(); for (auto &q : vv) n += q.size(); return n; }
  void check() {
    std::map<size_t, int> own;
    auto one = [&](size_t l, double g, double w, const char *what) {
      mc::checked();
      if (l >= tp->storeSize()) fail("out-of-store", "%s at %zu outside the store of %zu", what, l, tp->storeSize());
      if (own[l]++) fail("shared", "%s shares location %zu with another live variable", what, l);
      if (g != w) fail("value-lost", "%s at %zu should hold %g but holds %g", what, l, w, g);
    };
    for (size_t i = 0; i < a.size(); i++) {
      if (a[i]->is_valid() == std::isnan(v[i])) fail("validity", "object %zu is %s", i, a[i]->is_valid() ? "valid after being moved from" : "invalid although it should be live");
      if (a[i]->is_valid()) one(a[i]->loc(), a[i]->value(), v[i], "variable");
    }
    for (size_t i = 0; i < av.size(); i++) {
      if (av[i]->size() != vv[i].size()) fail("size", "array has %zu elements instead of %zu", av[i]->size(), vv[i].size());
      for (size_t j = 0; j < vv[i].size(); j++) {
        one((*av[i])[j].loc(), (*av[i])[j].value(), vv[i][j], "array element");
        if (j && (*av[i])[j].loc() != (*av[i])[0].loc() + j) fail("not-contiguous", "array element %zu at %zu, first at %zu", j, (*av[i])[j].loc(), (*av[i])[0].loc());
      }
    }
    for (auto &r : rel) one(r.first, tp->get_ad_value(r.first), r.second, "released location");
    if (tp->numLives() != live()) fail("numLives", "library counts %zu live variables, %zu exist", tp->numLives(), live());
    uint64_t h = 66;
    for (auto &o : own) h = mc::hmix(h, o.first);
    mc::state(mc::hmix(h, tp->storeSize()));
  }
};
static bool ostep(int op, World &w, const Cfg &c) {
  auto n = w.a.size();
  auto ok = [&](size_t i) { return i < n && w.a[i]->is_valid(); };
  auto add = [&](adouble *p, double v) { w.a.emplace_back(p); w.v.push_back(v); };
  const double nv = 0.5 + nextVal++;
  switch (op) {
  case N0: add(new adouble, 0); break;
  case NV: add(new adouble(nv), nv); break;
  case CC0: if (!ok(0)) return false; add(new adouble(*w.a[0]), w.v[0]); break;
  case CCL: if (n < 2 || !ok(n - 1)) return false; add(new adouble(*w.a[n - 1]), w.v[n - 1]); break;
  case MV0: if (!ok(0)) return false; { double v = w.v[0]; add(new adouble(std::move(*w.a[0])), v); w.v[0] = NAN; } break;
  case MVL: if (n < 2 || !ok(n - 1)) return false; { double v = w.v[n - 1]; add(new adouble(std::move(*w.a[n - 1])), v); w.v[n - 1] = NAN; } break;
  case CA: if (n < 2 || !ok(0) || !ok(n - 1)) return false; *w.a[0] = *w.a[n - 1]; w.v[0] = w.v[n - 1]; break;
  case CAS: if (!ok(0)) return false; { adouble &q = *w.a[0], &s = q; q = s; q = std::move(s); } break;
  case MA: if (n < 2 || !ok(0)) return false; *w.a[n - 1] = std::move(*w.a[0]); w.v[n - 1] = w.v[0]; w.v[0] = NAN; break;
  case SWP: if (n < 2 || !ok(0) || !ok(n - 1)) return false; { using std::swap; swap(*w.a[0], *w.a[n - 1]); swap(w.v[0], w.v[n - 1]); } break;
  case D0: case D1: case DL: {
    size_t i = op == D0 ? 0 : op == D1 ? 1 : n - 1;
    if (n == 0 || i >= n || (op == DL && n < 3)) return false;
    w.a.erase(w.a.begin() + long(i)); w.v.erase(w.v.begin() + long(i));
    break;
  }
  case AV: {
    if (c.type) {
      bool thrown = false;
      try { advector q(3); } catch (const ADOLCError::ADOLCError &) { thrown = true; }
      if (!thrown) fail("not-refused", "array accepted by a manager without blocks");
      break;
    }
    w.av.emplace_back(new advector(3)); w.vv.push_back({nv, nv + 0.1, nv + 0.2});
    for (size_t i = 0; i < 3; i++) (*w.av.back())[i] = w.vv.back()[i];
    break;
  }
  case AVC: if (w.av.empty()) return false; { auto *q = new advector(*w.av[0]); auto vals = w.vv[0]; w.av.emplace_back(q); w.vv.push_back(vals); } break;
  case AVA: if (w.av.empty()) return false; {
    auto *q = new advector(nextVal > 4 ? 2 : 0);
    w.av.emplace_back(q); w.vv.push_back({});
    *q = *w.av[0]; w.vv.back() = w.vv[0];
    break;
  }
  case AVV: if (c.type || n < 2) return false; {
    std::vector<adouble> s; std::vector<double> d;
    for (size_t i = 0; i < n; i++) if (ok(i)) { s.push_back(*w.a[i]); d.push_back(w.v[i]); }
    if (d.empty()) return false;
    w.av.emplace_back(new advector(s)); w.vv.push_back(d);
    break;
  }
  case AVD: if (w.av.empty()) return false; w.av.erase(w.av.begin()); w.vv.erase(w.vv.begin()); break;
  case STD: {
    std::vector<adouble> s; std::vector<double> d;
    for (int i = 0; i < 3; i++) { s.push_back(nv + i); d.push_back(nv + i); }
    s.erase(s.begin()); d.erase(d.begin());
    s.insert(s.begin(), adouble(nv + 9)); d.insert(d.begin(), nv + 9);
    for (size_t i = 0; i < d.size(); i++) if (s[i].value() != d[i]) fail("value-lost", "std::vector element %zu holds %g instead of %g", i, s[i].value(), d[i]);
    add(new adouble(s[1]), d[1]);
    break;
  }
  case TMP: {
    if (!ok(0) || !ok(n - 1)) return false;
    double x = w.v[0], y = w.v[n - 1];
    adouble r = (*w.a[0] * *w.a[n - 1] + (*w.a[0] - 2.0) * (*w.a[n - 1] + 3.0)) - sin(*w.a[0]) * (adouble(1.5) + *w.a[n - 1]);
    double z = (x * y + (x - 2.0) * (y + 3.0)) - std::sin(x) * (1.5 + y);
    if (std::fabs(r.value() - z) > 1e-12 * (1 + std::fabs(z))) fail("expression", "value %.17g of an expression should be %.17g", r.value(), z);
    add(new adouble(std::move(r)), 0); w.v.back() = w.a.back()->value();
    break;
  }
  case IDX: case SET: {
    if (w.av.empty() || w.vv.back().size() < 2) return false;
    adouble i = 1.0;
    advector &q = *w.av.back();
    if (op == IDX) { const advector &cq = q; add(new adouble(cq[i]), w.vv.back()[1]); }
    else { q[i] = nv; w.vv.back()[1] = nv; q[i] += 1.0; w.vv.back()[1] += 1.0; }
    break;
  }
  case REL: {
    if (!ok(0)) return false;
    if (w.rel.empty()) { w.rel.push_back({w.a[0]->release_loc(), w.v[0]}); w.v[0] = NAN; }
    else {
      adouble b = adouble::borrow_location(w.rel[0].first);
      b += 2.0;
      adouble m(std::move(b)), t(0.25); // moving a borrowed location leaves its owner alone
      t = std::move(m);
      t += 1.0;
      w.rel[0].second += 3.0;
    }
    break;
  }
  }
  mc::transition();
  return true;
}
static void objects(const Cfg &c, int tracing, uint64_t k, int depth) {
  resetStore(c);
  nextVal = 1;
  setCurrentTape(tagId);
  {
    World w;
    struct Off { int t; ~Off() { if (t) trace_off(); } } off{tracing};
    if (tracing) trace_on(tagId);
    try {
      for (int i = 0; i < c.prefill; i++) { w.a.emplace_back(new adouble(100.0 + i)); w.v.push_back(100.0 + i); }
      bool full = true;
      for (int i = 0; i < depth && full; i++) { full = ostep(int(k % uint64_t(NOOP)), w, c); k /= uint64_t(NOOP); w.check(); }
      if (!full) mc::trivial(); else mc::trace();
    } catch (...) {
      for (auto &r : w.rel) tp->free_loc(r.first);
      throw;
    }
    for (auto &r : w.rel) tp->free_loc(r.first);
  }
  if (tp->numLives()) fail("numLives-not-zero", "%zu live after all objects were destroyed", tp->numLives());
}
static std::string oopStr(uint64_t k, int depth) {
  std::string s;
  for (int i = 0; i < depth; i++) { s += std::string(i ? ", " : "") + oopName[k % uint64_t(NOOP)]; k /= uint64_t(NOOP); }
  return s;
}
// ------------------------------------------------ many variables
enum { MA1, MA40, MA400, MB7, MB150, MX2, MX3, MFIRST, MLAST, MREV, NMOP };
static const char *mopName[] = {"alloc 1", "alloc 40", "alloc 400", "block 7", "block 150", "free every 2nd", "free every 3rd", "free older half", "free newer half", "free newer half backwards"};
static void many(const Cfg &c, uint64_t k, int depth) {
  resetStore(c);
  std::vector<Loc> L;
  std::vector<char> used;
  nextVal = 1;
  auto get = [&](size_t pre) {
    const size_t s = tp->storeSize(), l = tp->next_loc();
    if (tp->storeSize() != s) mc::count(cGrow);
    if (l >= tp->storeSize()) fail("out-of-store", "location %zu outside the store of %zu", l, tp->storeSize());
    if (used.size() < tp->storeSize()) used.resize(tp->storeSize(), 0);
    if (used[l]) fail("shared", "location %zu handed out while live", l);
    if (pre && l != pre) fail("not-contiguous", "location %zu instead of %zu inside a block", l, pre);
    used[l] = 1;
    const double v = nextVal++;
    tp->set_ad_value(l, v);
    L.push_back({l, v});
    return l;
  };
  auto drop = [&](auto take, bool back) {
    std::vector<Loc> r, g;
    for (size_t i = 0; i < L.size(); i++) (take(i, L.size()) ? g : r).push_back(L[i]);
    if (back) std::reverse(g.begin(), g.end());
    for (auto &q : g) { tp->free_loc(q.l); used[q.l] = 0; }
    L = r;
  };
  auto check = [&] {
    mc::checked(L.size());
    if (tp->numLives() != L.size()) fail("numLives", "library counts %zu live variables, the history has %zu", tp->numLives(), L.size());
    for (auto &q : L) if (tp->get_ad_value(q.l) != q.v) fail("value-lost", "variable at %zu should hold %g but holds %g", q.l, q.v, tp->get_ad_value(q.l));
  };
  auto freeAll = [&] { for (auto &q : L) tp->free_loc(q.l); L.clear(); };
  try {
    for (int i = 0; i < depth; i++) {
      const int op = int(k % NMOP);
      k /= NMOP;
      mc::transition();
      switch (op) {
      case MA1: get(0); break;
      case MA40: for (int j = 0; j < 40; j++) get(0); break;
      case MA400: for (int j = 0; j < 400; j++) get(0); break;
      case MB7: case MB150: {
        const size_t n = op == MB7 ? 7 : 150;
        if (c.type) { bool t = false; try { tp->ensureContiguousLocations(n); } catch (const ADOLCError::ADOLCError &) { t = true; } if (!t) fail("not-refused", "block request accepted by a manager without blocks"); break; }
        tp->ensureContiguousLocations(n);
        check();
        size_t l = get(0);
        for (size_t j = 1; j < n; j++) l = get(l + 1);
        mc::count(cBlocks);
        break;
      }
      case MX2: drop([](size_t j, size_t) { return j % 2 == 0; }, false); break;
      case MX3: drop([](size_t j, size_t) { return j % 3 == 1; }, false); break;
      case MFIRST: drop([](size_t j, size_t n) { return j < n / 2; }, false); break;
      case MLAST: drop([](size_t j, size_t n) { return j >= n / 2; }, false); break;
      case MREV: drop([](size_t j, size_t n) { return j >= n / 2; }, true); break;
      }
      check();
      mc::state(mc::hmix(mc::hmix(uint64_t(c.type * 8 + c.gc), L.size()), mc::hmix(tp->storeSize(), L.empty() ? 0 : L.back().l)));
    }
    const size_t s = tp->storeSize();
    for (size_t i = L.size() + 1; i < s; i++) {
      get(0);
      if (tp->storeSize() != s) fail("locations-lost", "store of %zu with %zu live variables grew to %zu: released locations are not reused", s, L.size() - 1, tp->storeSize());
    }
    for (int i = 0; i < 3; i++) get(0);
    check();
    freeAll();
    if (tp->numLives()) fail("numLives-not-zero", "%zu live after release of all", tp->numLives());
    mc::trace();
  } catch (...) { freeAll(); throw; }
}
static std::string mopStr(uint64_t k, int depth) {
  std::string s;
  for (int i = 0; i < depth; i++) { s += std::string(i ? "; " : "") + mopName[k % NMOP]; k /= NMOP; }
  return s;
}
// ------------------------------------------------ growth inside programs
static void growthProg(const Cfg &c, const Prog &p) {
  static const double X[2] = {0.4, 0.7};
  double want[NR];
  if (!runDouble(p, X, want)) { mc::trivial(); return; }
  if (c.type) for (auto &o : p) if (o.k == VEC) { mc::trivial(); return; }
  resetStore(c);
  setCurrentTape(tagId);
  std::vector<adouble> fill;
  fill.reserve(64);
  for (int i = 0; i < c.prefill; i++) fill.emplace_back(i);
  double y[NR];
  record(tagId, p, X, y, 1);
  for (int i = 0; i < NR; i++)
    if (std::fabs(y[i] - want[i]) > 1e-9 * (1 + std::fabs(want[i]))) fail("value", "output %d: %.17g instead of %.17g when the store grows inside the program", i, y[i], want[i]);
  for (int i = 0; i < c.prefill; i++) if (fill[i].value() != i) fail("value-lost", "a variable alive during the recording changed from %d to %g", i, fill[i].value());
  double u[NR] = {1, -0.5, 2}, z[2], z2[2];
  fos_reverse(tagId, NR, 2, u, z);
  zos_forward(tagId, NR, 2, 1, X, y);
  fos_reverse(tagId, NR, 2, u, z2);
  for (int i = 0; i < 2; i++) if (!(std::fabs(z[i] - z2[i]) <= 1e-12 * (1 + std::fabs(z[i])))) fail("adjoint", "adjoint %d after recording %.17g, after a forward sweep %.17g", i, z[i], z2[i]);
  mc::trace();
}

struct R : mc::Runner {
  void add(mc::Space s) { spaces.push_back(std::move(s)); }
  void setup() override {
  cGrow = mc::counter("store_growths");
  cBlocks = mc::counter("contiguous_blocks");
  cRefused = mc::counter("block_requests_refused_by_singleton_manager");
  static std::vector<Cfg> cfgs, hot, blk;
  for (int t : {0, 1}) for (int g : {0, 1, 2}) for (int p : {0, 3, 6}) if (!(t && g)) cfgs.push_back({t, g, p});
  hot = {{0, 0, 0}, {0, 2, 3}, {1, 0, 4}};
  blk = {{0, 0, 0}, {0, 0, 4}, {0, 2, 5}, {1, 0, 3}};
  auto addLoc = [&](const char *name, std::vector<Cfg> *cs, int depth) {
    uint64_t per = mc::ipow(NLOP, unsigned(depth));
    add({name, per * cs->size(), [=](uint64_t k) { history((*cs)[k / per], k % per, depth); },
           [=](uint64_t k) { return str((*cs)[k / per]) + ": " + lopStr(k % per, depth); }, 20000, mc::fmt("all histories of %d location operations (allocate, blocks of 2/3/5, release any of 6 ranks, release all) x %zu manager configurations", depth, cs->size())});
  };
  addLoc("locations-all-configs", &cfgs, mc::thorough ? 6 : 5);
  addLoc("locations-deep", &hot, mc::thorough ? 7 : 6);
  auto addObj = [&](const char *name, std::vector<Cfg> *cs, int depth) {
    uint64_t per = mc::ipow(uint64_t(NOOP), unsigned(depth));
    add({name, per * cs->size() * 2, [=](uint64_t k) { objects((*cs)[k / per / 2], int(k / per % 2), k % per, depth); },
           [=](uint64_t k) { return str((*cs)[k / per / 2]) + (k / per % 2 ? " recording: " : " passive: ") + oopStr(k % per, depth); }, 5000, mc::fmt("all histories of %d object operations x %zu manager configurations x recording or not", depth, cs->size())});
  };
  addObj("objects", &blk, mc::thorough ? 5 : 4);
  static std::vector<Cfg> mcf = {{0, 0, 0}, {0, 1, 0}, {0, 2, 0}, {1, 0, 0}};
  {
    const int depth = mc::thorough ? 5 : 4;
    const uint64_t per = mc::ipow(NMOP, unsigned(depth));
    add({"many", per * mcf.size(), [=](uint64_t k) { many(mcf[k / per], k % per, depth); },
         [=](uint64_t k) { return str(mcf[k / per]) + ": " + mopStr(k % per, depth); }, 1000, mc::fmt("all histories of %d operations on up to 1600 variables (allocate 1, 40, 400, blocks of 7 and 150, release every second, third, the older or the newer half) x %zu manager configurations", depth, mcf.size())});
  }
  static std::vector<Cfg> grow;
  for (int t : {0, 1}) for (int p = 0; p < 10; p++) grow.push_back({t, 0, p});
  static auto AM = alphabet(cfgMid()), AS = alphabet(cfgSmall());
  auto addProg = [&](const char *name, const std::vector<Op> *Al, int len) {
    uint64_t per = mc::ipow(Al->size(), unsigned(len));
    add({name, per * grow.size(), [=](uint64_t k) { growthProg(grow[k % grow.size()], prog(*Al, len, k / grow.size())); },
           [=](uint64_t k) { return str(grow[k % grow.size()]) + ": " + str(prog(*Al, len, k / grow.size())); }, 2000, mc::fmt("all programs of %d operations with the store growing at each possible point", len)});
  };
  addProg("growth-in-programs", &AM, 1);
  addProg("growth-in-programs-2", &AS, 2);
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
