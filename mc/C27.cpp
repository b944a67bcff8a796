// C27: the checkpointing schedule.
#include "mc.h"
#include <adolc/revolve.h>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <thread>
#include <vector>
using mc::fail;
using mc::fmt;
typedef __int128 I128;
static int cAdvances, cErrors, cSplits, cTies, cAbandoned;

// ---- reference: the least number of forward steps without recording
// cost(l,c) = min over 1<=k<l of k + cost(l-k,c-1) + cost(k,c), the first of
// the c checkpoints holds the state at the beginning
static std::vector<std::vector<int>> dp;
static void buildDp(int L, int C) {
  dp.assign(size_t(C + 1), std::vector<int>(size_t(L + 1), 0));
  for (int c = 1; c <= C; c++) for (int l = 2; l <= L; l++) {
    if (c == 1) { dp[1][size_t(l)] = l * (l - 1) / 2; continue; }
    int best = INT32_MAX;
    for (int k = 1; k < l; k++) best = std::min(best, k + dp[size_t(c - 1)][size_t(l - k)] + dp[size_t(c)][size_t(k)]);
    dp[size_t(c)][size_t(l)] = best;
  }
}
// the same in closed form (compared with the recursion in the space "bound")
static I128 closed(int64_t l, int64_t c) {
  if (l <= 1) return 0;
  if (c == 1) return I128(l) * (l - 1) / 2;
  I128 range = 1; int64_t r = 0;
  while (range < l) { r++; range = range * (r + c) / r; }
  return I128(r) * l - range * r / (c + 1);
}

// ---- the machine that carries out the actions
struct Machine {
  int start, next = -1; // next: the reverse sweep has come down to here
  int snaps, cur;
  int check = -1, capo, fine, info = 0;
  std::map<int, int> slot;
  int64_t advances = 0;
  int actions = 0;
  bool turned = false, done = false;
  Machine(int start, int steps, int snaps) : start(start), snaps(snaps), cur(start), capo(start), fine(start + steps) {}
  revolve_action last = revolve_error;
  std::string where() const { return fmt("action %d: check=%d capo=%d fine=%d snaps=%d", actions, check, capo, fine, snaps); }
  revolve_action step() {
    const int oc = capo, of = fine, ok = check;
    mc::transition();
    actions++;
    const revolve_action a = revolve(&check, &capo, &fine, snaps, &info);
    last = a;
    switch (a) {
    case revolve_takeshot:
      if (capo != oc || fine != of) fail("takeshot", "the range changed, %s", where().c_str());
      if (cur != capo) fail("takeshot", "state %d is current, %d is to be stored, %s", cur, capo, where().c_str());
      if (check != ok + 1) fail("takeshot", "the number of the checkpoint went from %d, %s", ok, where().c_str());
      if (check >= snaps) fail("snaps", "more checkpoints than allowed, %s", where().c_str());
      slot[check] = cur;
      break;
    case revolve_advance:
      if (fine != of || check != ok) fail("advance", "changes more than the beginning, %s", where().c_str());
      if (cur != oc) fail("advance", "state %d is current instead of %d, %s", cur, oc, where().c_str());
      if (!(capo > oc && capo < fine)) fail("advance", "from %d, %s", oc, where().c_str());
      advances += capo - oc;
      cur = capo;
      break;
    case revolve_restore:
      if (fine != of || check != ok) fail("restore", "changes more than the beginning, %s", where().c_str());
      if (!slot.count(check)) fail("restore", "of a checkpoint never taken, %s", where().c_str());
      if (slot[check] != capo) fail("restore", "the checkpoint holds state %d, %s", slot[check], where().c_str());
      if (capo > fine) fail("restore", "beyond the range, %s", where().c_str());
      cur = capo;
      break;
    case revolve_firsturn:
    case revolve_youturn:
      if ((a == revolve_firsturn) != !turned) fail("turn", "%s turn, %s", turned ? "second first" : "no first", where().c_str());
      if (turned && of != next) fail("turn", "step %d is reversed when %d is due, %s", of, next, where().c_str());
      if (fine != of - 1 || capo != fine) fail("turn", "from %d, %s", of, where().c_str());
      if (cur != fine) fail("turn", "state %d is current, %s", cur, where().c_str());
      turned = true;
      next = fine;
      cur = -1;
      break;
    case revolve_terminate:
      if (turned ? next != start : fine != start) fail("terminate", "%d steps are left, %s", next - start, where().c_str());
      done = true;
      break;
    case revolve_error: break;
    }
    return a;
  }
  // until the end; errors are not expected
  void run() {
    while (!done) {
      if (step() == revolve_error) fail("error", "info=%d, %s", info, where().c_str());
      if (actions > 2000000) fail("endless", "%s", where().c_str());
    }
  }
};

static void wantCost(const Machine &m, int steps) {
  const I128 best = closed(steps, m.snaps);
  mc::checked();
  if (I128(m.advances) != best) fail("cost", "%lld forward steps, %lld suffice", (long long)m.advances, (long long)best);
  mc::count(cAdvances, uint64_t(m.advances));
}

// ---- what is printed: captured
struct Out {
  char *p = nullptr; size_t n = 0; FILE *old;
  Out() { fflush(stdout); old = stdout; stdout = open_memstream(&p, &n); }
  std::string end() { if (!old) return ""; fclose(stdout); stdout = old; old = nullptr; std::string s(p ? p : "", n); free(p); return s; }
  ~Out() { end(); }
};

struct R : mc::Runner {
  void setup() override {
    cAdvances = mc::counter("forward_steps"); cErrors = mc::counter("refused"); cSplits = mc::counter("first_sweeps"); cTies = mc::counter("predictions"); cAbandoned = mc::counter("abandoned");
    const int DL = 220, DC = 14;
    buildDp(DL, DC);
    {
      mc::Space s;
      s.name = "bound"; s.n = uint64_t(DL * DC); s.chunk = 500;
      s.rule = fmt("the closed form of the least number of forward steps equals the recursion for 1..%d steps and 1..%d checkpoints (validation of the oracle)", DL, DC);
      s.run = [](uint64_t k) { mc::Dec e(k); int l = 1 + int(e(DL)), c = 1 + int(e(DC)); mc::state(k); mc::checked(); if (closed(l, c) != dp[size_t(c)][size_t(l)]) fail("oracle", "l=%d c=%d", l, c); };
      s.describe = [](uint64_t k) { mc::Dec e(k); int l = 1 + int(e(DL)), c = 1 + int(e(DC)); return fmt("steps=%d snaps=%d", l, c); };
      spaces.push_back(s);
    }
    {
      const int L = mc::thorough ? 700 : 260, C = mc::thorough ? 40 : 24;
      mc::Space s;
      s.name = "schedules"; s.n = uint64_t(L * C * 2); s.chunk = 40;
      s.rule = fmt("complete schedules of 1..%d steps with 1..%d checkpoints from step 0 and from step 7: legal, complete, within the checkpoints, least number of forward steps", L, C);
      auto dec = [=](uint64_t k, int &l, int &c, int &st) { mc::Dec e(k); st = int(e(2)) * 7; c = 1 + int(e(uint64_t(C))); l = 1 + int(e(uint64_t(L))); };
      s.run = [=](uint64_t k) {
        int l, c, st;
        dec(k, l, c, st);
        mc::state(mc::hmix(1, k));
        Machine m(st, l, c);
        m.run();
        mc::trace();
        wantCost(m, l);
      };
      s.describe = [=](uint64_t k) { int l, c, st; dec(k, l, c, st); return fmt("steps=%d snaps=%d start=%d", l, c, st); };
      spaces.push_back(s);
    }
    {
      // many checkpoints (up to the bound of the library) and few steps
      static const int SN[] = {25, 63, 64, 65, 100, 256, 500, 999, 1000};
      const int L = mc::thorough ? 1500 : 300;
      mc::Space s;
      s.name = "many-checkpoints"; s.n = uint64_t(L * 9); s.chunk = 40;
      s.rule = fmt("complete schedules of 1..%d steps with 25 to 1000 (the bound of the library) checkpoints", L);
      s.run = [=](uint64_t k) { int c = SN[k % 9], l = 1 + int(k / 9); mc::state(mc::hmix(2, k)); Machine m(0, l, c); m.run(); mc::trace(); wantCost(m, l); };
      s.describe = [=](uint64_t k) { return fmt("steps=%d snaps=%d", 1 + int(k / 9), SN[k % 9]); };
      spaces.push_back(s);
    }
    {
      // long forward sweeps: every advance up to the first turn splits the
      // remaining range optimally
      static std::vector<int> ls;
      ls.clear();
      for (int i = 1; i < (mc::thorough ? 60000 : 6000); i += 1) ls.push_back(i);
      for (int c = 1; c <= 12; c++) for (int r = 1; r < 60; r++) {
        I128 b = 1;
        for (int i = 1; i <= r; i++) b = b * (c + i) / i;
        for (int d = -2; d <= 2; d++) if (b + d > 6000 && b + d < 1900000000) ls.push_back(int(b) + d);
      }
      for (int i = 0; i < 31; i++) for (int d = -1; d <= 1; d++) { int64_t v = (int64_t(1) << i) + d; if (v > 6000 && v < 2147483647) ls.push_back(int(v)); }
      ls.push_back(2147483647);
      mc::Space s;
      s.name = "long-sweeps"; s.n = ls.size() * 40; s.chunk = 1000;
      s.rule = "forward sweeps of 1 to 2147483647 steps with 1..40 checkpoints (all small numbers, all binomial coefficients and powers of two with their neighbours): every advance up to the first turn is an optimal split";
      s.run = [](uint64_t k) {
        const int c = 1 + int(k % 40), l = ls[size_t(k / 40)];
        // the library bounds the repetitions
        I128 range = 1; int64_t r = 0;
        while (range < l && r <= 1001) { r++; range = range * (r + c) / r; }
        mc::state(mc::hmix(3, k));
        Machine m(0, l, c);
        if (r > 900) { mc::trivial(); return; }
        while (!m.turned) {
          const int oc = m.capo, used = m.check;
          const revolve_action a = m.step();
          if (a == revolve_error) fail("error", "info=%d, %s", m.info, m.where().c_str());
          if (a == revolve_advance) {
            const int ds = c - used, k1 = m.capo - oc, rest = m.fine - m.capo;
            if (rest > 1 && ds < 2) fail("split", "no checkpoint is left at %s", m.where().c_str());
            const I128 cost = k1 + (rest > 1 ? closed(rest, ds - 1) : 0) + closed(k1, ds), best = closed(m.fine - oc, ds);
            mc::checked();
            if (cost != best) fail("split", "the split at %d of %d steps with %d checkpoints costs %lld, %lld suffice", k1, m.fine - oc, ds, (long long)cost, (long long)best);
          }
        }
        mc::trace();
        mc::count(cSplits);
      };
      s.describe = [](uint64_t k) { return fmt("steps=%d snaps=%d", ls[size_t(k / 40)], 1 + int(k % 40)); };
      spaces.push_back(s);
    }
    {
      // the end and the number of checkpoints change during the forward sweep
      static const int DF[] = {0, -1, 1, 3, 0, 0}, DS[] = {0, 0, 0, 0, 1, -1};
      const int D = mc::thorough ? 8 : 6;
      mc::Space s;
      s.name = "open-ended"; s.n = 6 * 4 * mc::ipow(6, unsigned(D)); s.chunk = 4000;
      s.rule = fmt("1..6 steps, 1..4 checkpoints, and before each of the first %d actions of the forward sweep the end moves by -1, 0, 1, 3 or the checkpoints change by 1: legal and complete, or a documented refusal", D);
      s.run = [=](uint64_t k) {
        mc::Dec e(k);
        const int l = 1 + int(e(6)), c = 1 + int(e(4));
        mc::state(mc::hmix(4, k));
        Machine m(0, l, c);
        bool grown = false;
        bool shrunk = false;
        for (int i = 0; i < D && !m.turned && !m.done; i++) {
          const int w = int(e(6));
          if (m.last == revolve_restore) break;
          const bool below = m.fine + DF[w] < m.capo || m.snaps + DS[w] < 0;
          if (!below) { m.fine += DF[w]; m.snaps += DS[w]; grown = grown || DF[w] > 0; shrunk = shrunk || DS[w] < 0; }
          const int oc = m.check;
          if (m.step() == revolve_error) {
            mc::count(cErrors);
            const bool full = oc + 1 >= m.snaps;
            if (!((m.info == 11 && full) || (m.info == 13 && grown && full))) fail("error", "info=%d, %s", m.info, m.where().c_str());
            mc::trace();
            return;
          }
        }
        for (int n = 0; !m.done; n++) {
          const int oc = m.check;
          if (m.step() == revolve_error) {
            mc::count(cErrors);
            if (m.info == 11 && oc + 1 >= m.snaps && shrunk) { mc::trace(); return; }
            if (m.info == 13 && grown && oc + 1 >= m.snaps) { mc::trace(); return; }
            fail("error", "info=%d, %s", m.info, m.where().c_str());
          }
          if (n > 100000) fail("endless", "%s", m.where().c_str());
        }
        mc::trace();
      };
      s.describe = [=](uint64_t k) {
        mc::Dec e(k);
        std::string r = fmt("steps=%d", 1 + int(e(6)));
        r += fmt(" snaps=%d changes", 1 + int(e(4)));
        for (int i = 0; i < D; i++) { int w = int(e(6)); r += DS[w] ? fmt(" s%+d", DS[w]) : fmt(" %+d", DF[w]); }
        return r;
      };
      spaces.push_back(s);
    }
    {
      // a schedule abandoned after any number of actions, or interleaved with
      // another one (as nested checkpointing does it), or in another thread
      static const int P[][2] = {{1, 1}, {2, 1}, {5, 1}, {5, 2}, {9, 3}, {12, 3}, {20, 4}, {7, 12}};
      mc::Space s;
      s.name = "histories"; s.n = 8 * 8 * 40 * 4; s.chunk = 200;
      s.rule = "two schedules of 8 sizes: one abandoned after 0..39 actions, refused, nested at that action with its state saved (as nested checkpointing does), or carried on in another thread; the other has the actions of a fresh one";
      auto seq = [](int l, int c) { std::vector<int> v; Machine m(0, l, c); get_revolve_numbers() = revolve_nums(); while (!m.done) { v.push_back(int(m.step())); v.push_back(m.capo); if (m.last == revolve_error) break; } return v; };
      s.run = [=](uint64_t k) {
        mc::Dec e(k);
        const auto &A = P[e(8)], &B = P[e(8)];
        const int cut = int(e(40)), how = int(e(4));
        mc::state(mc::hmix(5, k));
        const std::vector<int> want = seq(B[0], B[1]), wantA = seq(A[0], A[1]);
        std::vector<int> got;
        auto sched = [&] { Machine b(0, B[0], B[1]); while (!b.done) { if (b.step() == revolve_error) fail("error", "info=%d, %s", b.info, b.where().c_str()); got.push_back(int(b.last)); got.push_back(b.capo); } wantCost(b, B[0]); };
        Machine a(0, A[0], A[1]);
        std::vector<int> gotA;
        auto stepA = [&] { a.step(); gotA.push_back(int(a.last)); gotA.push_back(a.capo); };
        for (int i = 0; i < cut && !a.done; i++) stepA();
        mc::count(cAbandoned);
        if (how == 1) { int ch = -3, ca = 4, fi = 2, in = 0; if (revolve(&ch, &ca, &fi, 3, &in) != revolve_error) fail("accepted", "capo > fine"); }
        if (how < 2) sched();
        else if (how == 2) {
          const revolve_nums save = get_revolve_numbers();
          get_revolve_numbers() = revolve_nums();
          sched();
          get_revolve_numbers() = save;
        } else {
          std::string err;
          std::thread([&] { try { sched(); } catch (mc::CaseFail &f) { err = f.msg; } }).join();
          if (!err.empty()) fail("thread", "%s", err.c_str());
        }
        if (got != want) fail("history", "the second schedule depends on the first");
        if (how >= 2) {
          while (!a.done) stepA();
          if (gotA != wantA) fail("history", "the first schedule depends on the second");
        }
        mc::trace();
      };
      s.describe = [=](uint64_t k) { mc::Dec e(k); const auto &A = P[e(8)], &B = P[e(8)]; int cut = int(e(40)), how = int(e(4)); return fmt("first=%dx%d cut=%d %s second=%dx%d", A[0], A[1], cut, how == 0 ? "abandoned" : how == 1 ? "refused" : how == 2 ? "nested" : "thread", B[0], B[1]); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "refused"; s.n = 7 * 7 * 7 * 6; s.chunk = 200;
      s.rule = "all first calls with check -4..2, begin and end -3..3, 0, negative and too many checkpoints: refused or legal as documented";
      static const int SN[] = {-1, 0, 1, 2, 1001, 5000};
      auto dec = [](uint64_t k, int &ch, int &ca, int &fi, int &sn) { mc::Dec e(k); ch = int(e(7)) - 4; ca = int(e(7)) - 3; fi = int(e(7)) - 3; sn = SN[e(6)]; };
      s.run = [=](uint64_t k) {
        int ch, ca, fi, sn, info = 0;
        dec(k, ch, ca, fi, sn);
        mc::state(mc::hmix(6, k));
        if (ch > -1) { mc::trivial(); return; } // not a first call
        const bool bad = ch < -1 || ca > fi;
        const int ca0 = ca, fi0 = fi;
        int c1 = ch;
        Out o;
        revolve_action a = revolve(&c1, &ca, &fi, sn, &info);
        o.end();
        mc::transition();
        mc::trace();
        mc::checked();
        const bool want = bad || (fi0 - ca0 > 1 && (sn < 1 || sn > ADOLC_CHECKUP));
        if ((a == revolve_error) != want) fail("refused", "action %d, info %d", int(a), info);
        if (want) {
          mc::count(cErrors);
          const int code = bad ? 9 : sn < 1 ? 11 : 14;
          if (info != code) fail("info", "%d instead of %d", info, code);
        } else if (ca0 == fi0) {
          if (a != revolve_terminate) fail("empty", "action %d for an empty range", int(a));
        } else if (a != (fi0 - ca0 == 1 ? revolve_firsturn : revolve_takeshot)) fail("first", "action %d", int(a));
      };
      s.describe = [=](uint64_t k) { int ch, ca, fi, sn; dec(k, ch, ca, fi, sn); return fmt("check=%d capo=%d fine=%d snaps=%d", ch, ca, fi, sn); };
      spaces.push_back(s);
    }
    {
      mc::Space s;
      s.name = "predictions"; s.n = 300 * 12; s.chunk = 100;
      s.rule = "the forward steps and the slowdown printed with info > 0 for 2..301 steps and 1..12 checkpoints, and the counts printed at the end";
      s.run = [](uint64_t k) {
        const int c = 1 + int(k % 12), l = 2 + int(k / 12);
        mc::state(mc::hmix(7, k));
        std::string t;
        Machine m(0, l, c);
        int shots = 0;
        {
          Out o;
          m.info = 3;
          while (!m.done) { if (m.step() == revolve_error) break; if (m.last == revolve_takeshot) shots++; }
          t = o.end();
        }
        if (!m.done) fail("error", "info=%d, %s", m.info, m.where().c_str());
        wantCost(m, l);
        mc::trace();
        auto num = [&](const char *key, double &v) { size_t p = t.find(key); if (p == std::string::npos) return false; v = strtod(t.c_str() + p + strlen(key), nullptr); return true; };
        double v;
        const double best = double(closed(l, c));
        if (num("forward steps:", v)) { mc::count(cTies); if (v != best) fail("prediction", "%g forward steps are predicted, %g are needed", v, best); }
        if (num("slowdown factor:", v) && std::fabs(v - best / l) > 6e-5) fail("prediction", "slowdown %g, %g expected", v, best / l);
        if (num("advances:", v) && v != double(m.advances)) fail("printed", "%g advances, %lld were made", v, (long long)m.advances);
        if (num("takeshots:", v) && v != shots) fail("printed", "%g checkpoints, %d were taken", v, shots);
        if (num("commands:", v) && v != m.actions) fail("printed", "%g commands, %d were issued", v, m.actions);
      };
      s.describe = [](uint64_t k) { return fmt("steps=%d snaps=%d", 2 + int(k / 12), 1 + int(k % 12)); };
      spaces.push_back(s);
    }
    {
      const int N = 70;
      mc::Space s;
      s.name = "maxrange"; s.n = uint64_t((N + 3) * (N + 3)); s.chunk = 1000;
      s.rule = fmt("maxrange(ss,tt) for -2..%d: the binomial coefficient, 2147483647 where it does not fit, -1 for negative arguments", N);
      s.run = [=](uint64_t k) {
        const int a = int(k % (N + 3)) - 2, b = int(k / (N + 3)) - 2;
        mc::state(mc::hmix(8, k));
        Out o;
        const int got = maxrange(a, b);
        o.end();
        mc::transition();
        mc::trace();
        mc::checked();
        I128 want = 1;
        for (int i = 1; i <= b && want <= 2147483647; i++) want = want * (a + i) / i;
        if (want > 2147483647) want = 2147483647;
        if (a < 0 || b < 0) want = -1;
        if (I128(got) != want) fail("maxrange", "%d instead of %lld", got, (long long)want);
      };
      s.describe = [=](uint64_t k) { return fmt("ss=%d tt=%d", int(k % (N + 3)) - 2, int(k / (N + 3)) - 2); };
      spaces.push_back(s);
    }
  }
};
int main(int c, char **v) { R r; return r.main(c, v); }
