// Bounded exhaustive explorer: a deterministic, indexable space of cases is
// enumerated completely; every case runs the real ADOL-C library and compares
// what it does with an independent reference model.
//
//  * case k of a space is a pure function of k (no randomness, no clock)
//  * cases run in chunks; each chunk starts in a freshly forked process, so a
//    case's history is exactly "the preceding cases of its chunk"
//  * a crash (signal, sanitizer report, assert, exhausted CPU time) is
//    attributed to the running case and exploration continues behind it
//  * failures are replayed (alone, then with their chunk history) in fresh
//    processes before they are reported
#pragma once
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
// linked with --wrap=__cxa_throw: what is left behind by a call that was
// refused by an exception is not judged
extern "C" [[noreturn]] __attribute__((weak)) void __real___cxa_throw(void *, void *, void (*)(void *));
inline bool mcThrown = false;
extern "C" [[noreturn]] __attribute__((weak, used)) void __wrap___cxa_throw(void *a, void *b, void (*c)(void *)) { mcThrown = true; __real___cxa_throw(a, b, c); }
namespace mc {

struct CaseFail : std::exception {
  std::string tag, msg;
  CaseFail(std::string t, std::string m) : tag(std::move(t)), msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};

inline std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

constexpr size_t kBits = size_t(1) << 27; // shared bitmap of visited states
constexpr int kMaxRec = 400, kCounters = 24, kMaxKnown = 64, kSlots = 64;

struct Rec {
  uint32_t space;
  uint64_t idx, chunk;
  char tag[96];
  char msg[1400];
};
struct Slot {
  std::atomic<uint64_t> cur;
  std::atomic<int> active;
};
struct Shared {
  std::atomic<uint64_t> evals, transitions, traces, states, checks, trivial;
  std::atomic<uint64_t> named[kCounters];
  std::atomic<uint64_t> known[kMaxKnown];
  std::atomic<uint64_t> nrec, stop;
  Slot slots[kSlots];
  Rec rec[kMaxRec];
  std::atomic<uint64_t> bits[kBits / 64];
};
inline Shared *sh = nullptr;
inline std::vector<std::string> &counterNames() {
  static std::vector<std::string> v;
  return v;
}
inline int counter(const char *name) { // call before run()
  counterNames().push_back(name);
  return (int)counterNames().size() - 1;
}
inline void count(int c, uint64_t n = 1) { sh->named[c] += n; }
inline bool verbose = false;
inline bool thorough = false;

inline uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 31;
  h *= 0x7fb5d329728ea185ull;
  h ^= h >> 27;
  h *= 0x81dadef4bc2dd44dull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hdouble(uint64_t h, double d) {
  if (d == 0) d = 0;
  uint64_t u;
  memcpy(&u, &d, 8);
  return hmix(h, u);
}
// distinct model states visited (Bloom-style bitmap: a lower bound)
inline void state(uint64_t h) {
  h = hmix(h, 0x1234567);
  uint64_t bit = h % kBits;
  uint64_t m = 1ull << (bit & 63);
  auto &w = sh->bits[bit >> 6];
  if (w.load(std::memory_order_relaxed) & m) return;
  if (!(w.fetch_or(m) & m)) sh->states++;
}
inline void transition(uint64_t n = 1) { sh->transitions += n; }
inline void trace(uint64_t n = 1) { sh->traces += n; }
inline void checked(uint64_t n = 1) { sh->checks += n; }
inline void trivial() { sh->trivial++; }

[[noreturn]] inline void fail(const std::string &tag, const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  throw CaseFail(tag, buf);
}

inline bool close(double a, double b, double tol, double scale = 1.0) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return std::isnan(a) && std::isnan(b);
  double s = std::fmax(scale, std::fmax(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * s;
}
inline void expectNear(const char *tag, double got, double want, double tol, double scale,
                       const char *f, ...) {
  checked();
  if (close(got, want, tol, scale)) return;
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  fail(tag, "%s: got %.17g, expected %.17g", buf, got, want);
}

struct Space {
  std::string name;
  uint64_t n = 0;
  std::function<void(uint64_t)> run;            // throws CaseFail
  std::function<std::string(uint64_t)> describe; // canonical text of case
  uint64_t chunk = 200;
  std::string rule;
  int cpu_s = 60; // CPU limit per case
};

struct Known {
  std::string label;
  std::regex re;
};

struct Runner {
  std::string id, outPath, replayDir;
  std::vector<Space> spaces;
  std::vector<Known> known;
  int W = 8;
  double deadline = 1e9;
  uint64_t maxFail = 60;
  bool capped = false;
  std::function<void()> childInit;

  static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
  }
  std::string key(const Space &s, uint64_t idx, const std::string &tag) {
    std::string d;
    try {
      d = s.describe(idx);
    } catch (...) {
      d = "?";
    }
    return s.name + "/" + d + " :: " + tag;
  }
  int matchKnown(const std::string &k) {
    for (size_t i = 0; i < known.size(); i++)
      if (std::regex_match(k, known[i].re)) return (int)i;
    return -1;
  }
  void record(uint32_t sp, uint64_t chunk, uint64_t idx, const std::string &tag, const std::string &msg) {
    int k = matchKnown(key(spaces[sp], idx, tag));
    if (k >= 0) {
      sh->known[k]++;
      return;
    }
    uint64_t r = sh->nrec++;
    if (r >= maxFail) sh->stop = 1;
    if (r >= kMaxRec) return;
    Rec &R = sh->rec[r];
    R.space = sp;
    R.idx = idx;
    R.chunk = chunk;
    snprintf(R.tag, sizeof R.tag, "%s", tag.c_str());
    snprintf(R.msg, sizeof R.msg, "%s", msg.c_str());
  }
  static void setCpu(int s) {
    itimerval it{};
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
  }
  // runs one case; true if failed
  bool runCase(Space &s, uint64_t idx, std::string &tag, std::string &msg) {
    setCpu(s.cpu_s);
    try {
      s.run(idx);
    } catch (CaseFail &e) {
      tag = e.tag;
      msg = e.msg;
      return true;
    } catch (std::exception &e) {
      tag = "exception";
      msg = std::string("unexpected exception: ") + e.what();
      return true;
    } catch (...) {
      tag = "exception";
      msg = "unexpected exception of unknown type";
      return true;
    }
    return false;
  }
  void redirect(const std::string &path) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
    if (fd >= 0) {
      fflush(stdout);
      fflush(stderr);
      dup2(fd, 1);
      dup2(fd, 2);
      ::close(fd);
    }
  }
  static std::string crashText(const std::string &path, int status) {
    std::ifstream in(path);
    std::string line, found, last;
    std::vector<std::string> frames;
    while (std::getline(in, line)) {
      if (found.empty() && (line.find("ERROR: AddressSanitizer") != std::string::npos ||
                            line.find("Assertion") != std::string::npos ||
                            line.find("runtime error:") != std::string::npos ||
                            line.find("terminate called") != std::string::npos ||
                            line.find("WARNING: ThreadSanitizer") != std::string::npos))
        found = line;
      if (!found.empty() && frames.size() < 4 && line.find("    #") == 0) frames.push_back(line);
      if (!line.empty()) last = line;
    }
    std::string r = found.empty() ? last : found;
    if (r.size() > 500) r.resize(500);
    for (auto &f : frames) r += " |" + f.substr(0, 140);
    if (WIFSIGNALED(status)) {
      int sg = WTERMSIG(status);
      r = std::string(sg == SIGPROF ? "CPU time limit exceeded (no termination)" : strsignal(sg)) + ": " + r;
    } else
      r = fmt("process exited with status %d: ", WEXITSTATUS(status)) + r;
    return r;
  }
  // With MC_LEAKS=1 a run judges only what is lost: after each chunk no memory
  // may be unreachable. (A case that fails otherwise ends its chunk unjudged.)
  static bool leakMode() { static const bool l = getenv("MC_LEAKS") != nullptr; return l; }
  static bool leaked(const std::string &log, std::string &msg) {
    if (!&__lsan_do_recoverable_leak_check || !__lsan_do_recoverable_leak_check()) return false;
    fflush(stdout);
    fflush(stderr);
    std::ifstream in(log);
    std::string l, all;
    bool on = false;
    int n = 0;
    while (std::getline(in, l)) {
      if (l.find("leak of") != std::string::npos) { on = n == 0; if (on) all = l; continue; }
      if (on && l.find("    #") == 0) { if (l.find("/verif/") == std::string::npos && l.find("in std::") == std::string::npos && l.find("operator new") == std::string::npos && l.find("interceptor") == std::string::npos && n++ < 5) all += " |" + l.substr(0, 140); }
    }
    msg = all.empty() ? "memory is lost" : all;
    return true;
  }
  // fresh process running [a..b]; returns true if case b fails; fills tag,msg
  bool replayRange(uint32_t sp, uint64_t a, uint64_t b, std::string &tag, std::string &msg) {
    auto *res = (Rec *)mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto *cur = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string log = "replay.log";
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      if (!verbose) redirect(log);
      mkdir("wreplay", 0755);
      (void)!chdir("wreplay");
      if (childInit) childInit();
      for (uint64_t i = a; i <= b; i++) {
        *cur = i;
        std::string t, m;
        if (runCase(spaces[sp], i, t, m) && i == b) {
          snprintf(res->tag, sizeof res->tag, "%s", t.c_str());
          snprintf(res->msg, sizeof res->msg, "%s", m.c_str());
          fflush(stdout);
          _exit(7);
        }
      }
      std::string m;
      if (leakMode() && !mcThrown && leaked(verbose ? "" : "../" + log, m)) {
        snprintf(res->tag, sizeof res->tag, "leak");
        snprintf(res->msg, sizeof res->msg, "%s", m.c_str());
        fflush(stdout);
        _exit(7);
      }
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    bool failed = false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) {
      failed = true;
      tag = res->tag;
      msg = res->msg;
    } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && *cur == b) {
      failed = true;
      tag = "crash";
      msg = crashText(log, st);
    }
    munmap(res, sizeof(Rec));
    munmap(cur, 4096);
    return failed;
  }
  uint64_t refusedCases = 0;
  struct Job {
    uint32_t sp;
    uint64_t chunk, a, b;
  };
  void explore() {
    struct Live {
      Job j;
      int slot;
    };
    std::map<pid_t, Live> live;
    std::deque<Job> requeue;
    uint32_t sp = 0;
    uint64_t pos = 0;
    double t0 = now();
    std::vector<int> freeSlots;
    for (int i = 0; i < W; i++) freeSlots.push_back(i);
    auto nextJob = [&](Job &j) -> bool {
      if (sh->stop || capped) return false;
      if (!requeue.empty()) {
        j = requeue.front();
        requeue.pop_front();
        return true;
      }
      while (sp < spaces.size() && pos >= spaces[sp].n) {
        sp++;
        pos = 0;
      }
      if (sp >= spaces.size()) return false;
      if (now() - t0 > deadline) {
        capped = true;
        return false;
      }
      uint64_t e = std::min(spaces[sp].n, pos + spaces[sp].chunk);
      j = {sp, pos, pos, e};
      pos = e;
      return true;
    };
    for (;;) {
      Job j;
      while (!freeSlots.empty() && nextJob(j)) {
        int slot = freeSlots.back();
        freeSlots.pop_back();
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
          redirect(fmt("w%d.log", slot));
          std::string d = fmt("w%d", slot);
          mkdir(d.c_str(), 0755);
          (void)!chdir(d.c_str());
          if (childInit) childInit();
          Slot &S = sh->slots[slot];
          for (uint64_t i = j.a; i < j.b && !sh->stop; i++) {
            S.cur = i;
            std::string t, m;
            sh->evals++;
            if (runCase(spaces[j.sp], i, t, m)) {
              if (leakMode()) _exit(4);
              record(j.sp, j.chunk, i, t, m);
              fflush(stdout);
              _exit(3); // the rest of the chunk starts afresh
            }
            if (leakMode() && mcThrown) _exit(4);
          }
          std::string m;
          if (leakMode() && !sh->stop && leaked(fmt("../w%d.log", slot), m)) {
            record(j.sp, j.chunk, j.b - 1, "leak", m);
            fflush(stdout);
            _exit(0);
          }
          S.cur = j.b;
          fflush(stdout);
          _exit(0);
        }
        live[p] = {j, slot};
      }
      if (live.empty()) break;
      int st;
      pid_t p = waitpid(-1, &st, 0);
      auto it = live.find(p);
      if (it == live.end()) continue;
      Live L = it->second;
      live.erase(it);
      freeSlots.push_back(L.slot);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        uint64_t c = sh->slots[L.slot].cur;
        if (c < L.j.a || c >= L.j.b) c = L.j.a;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 4) {
          if (c > L.j.a) requeue.push_back({L.j.sp, L.j.a, L.j.a, c}); // those before it are judged by themselves
          refusedCases++;
        } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) record(L.j.sp, L.j.chunk, c, "crash", crashText(fmt("w%d.log", L.slot), st));
        if (c + 1 < L.j.b) requeue.push_back({L.j.sp, c + 1, c + 1, L.j.b});
      }
    }
  }
  static std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += c;
      } else if (c < 0x20 || c >= 0x7f)
        o += fmt("\\u%04x", c);
      else
        o += c;
    }
    return o;
  }
  int main(int argc, char **argv) {
    int64_t rSpace = -1;
    uint64_t rA = 0, rB = 0;
    std::string only;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto val = [&]() { return std::string(argv[++i]); };
      if (a == "--thorough") thorough = true;
      else if (a == "--verbose") verbose = true;
      else if (a == "--workers") W = std::stoi(val());
      else if (a == "--deadline") deadline = std::stod(val());
      else if (a == "--out") outPath = val();
      else if (a == "--only") only = val();
      else if (a == "--known") {
        std::ifstream in(val());
        std::string line;
        while (std::getline(in, line)) {
          size_t t = line.find('\t');
          if (t == std::string::npos) continue;
          known.push_back({line.substr(0, t), std::regex(line.substr(t + 1))});
        }
      } else if (a == "--replay") { // space a b
        rSpace = std::stoll(val());
        rA = std::stoull(val());
        rB = std::stoull(val());
      }
    }
    if (getenv("MC_DUMP")) maxFail = kMaxRec;
    if (getenv("MC_FIRST")) maxFail = 1; // development: stop at the first violation
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) {
      perror("mmap");
      return 3;
    }
    setup();
#ifdef MC_CHUNK
    for (auto &s : spaces) s.name += "-pieces"; // library that transfers blocks in small pieces
#endif
    if (!only.empty())
      for (auto &s : spaces)
        if (!std::regex_match(s.name, std::regex(only))) s.n = 0;
    if (rSpace >= 0) {
      verbose = true;
      for (uint64_t i = rA; i <= rB; i++)
        printf("case %s #%llu: %s\n", spaces[rSpace].name.c_str(), (unsigned long long)i,
               spaces[rSpace].describe(i).c_str());
      std::string t, m;
      bool f = replayRange((uint32_t)rSpace, rA, rB, t, m);
      printf(f ? "FAILED [%s] %s\n" : "passed %s%s\n", t.c_str(), m.c_str());
      return f ? 1 : 0;
    }
    double t0 = now();
    explore();
    // confirm failures in fresh processes
    uint64_t n = std::min<uint64_t>(sh->nrec, kMaxRec);
    struct V {
      Rec r;
      uint64_t from;
      std::string key;
    };
    std::vector<V> viol;
    std::vector<Rec> unconfirmed;
    std::map<std::string, int> perTag;
    // smallest index of each space first
    std::vector<Rec> recs(sh->rec, sh->rec + n);
    std::stable_sort(recs.begin(), recs.end(), [](const Rec &a, const Rec &b) {
      return a.space != b.space ? a.space < b.space : a.idx < b.idx;
    });
    if (getenv("MC_DUMP")) {
      std::ofstream f(getenv("MC_DUMP"));
      for (auto &r : recs) f << key(spaces[r.space], r.idx, r.tag) << "  --  " << r.msg << "\n";
    }
    for (auto &r : recs) {
      if (viol.size() >= 12) break;
      if (perTag[spaces[r.space].name + r.tag]++ >= 4) continue;
      bool done = false;
      for (uint64_t from : {r.idx, r.chunk}) {
        std::string t1, m1, t2, m2;
        if (replayRange(r.space, from, r.idx, t1, m1) && replayRange(r.space, from, r.idx, t2, m2)) {
          V v{r, from, key(spaces[r.space], r.idx, t1)};
          snprintf(v.r.tag, sizeof v.r.tag, "%s", t1.c_str());
          snprintf(v.r.msg, sizeof v.r.msg, "%s", m1.c_str());
          viol.push_back(v);
          done = true;
          break;
        }
      }
      if (!done) unconfirmed.push_back(r);
    }
    std::ostringstream o;
    o << "{\"states\":" << sh->states << ",\"transitions\":" << sh->transitions
      << ",\"traces\":" << sh->traces << ",\"evaluations\":" << sh->evals
      << ",\"trivial\":" << sh->trivial << ",\"checks\":" << sh->checks
      << ",\"exhaustive\":" << ((capped || sh->stop) ? "false" : "true") << ",\"wall_s\":" << now() - t0
      << ",\"nfail\":" << sh->nrec << ",\"counters\":{";
    for (size_t i = 0; i < counterNames().size(); i++)
      o << (i ? "," : "") << "\"" << counterNames()[i] << "\":" << sh->named[i];
    o << "},\"spaces\":[";
    bool first = true;
    for (auto &s : spaces) {
      if (!s.n) continue;
      o << (first ? "" : ",") << "{\"name\":\"" << esc(s.name) << "\",\"cases\":" << s.n << ",\"rule\":\""
        << esc(s.rule) << "\",\"samples\":[";
      first = false;
      for (int k = 0; k < 3; k++) {
        uint64_t i = s.n * k / 3 + (s.n > 7 ? s.n / 7 : 0);
        if (i >= s.n) i = s.n - 1;
        o << (k ? "," : "") << "\"" << esc(s.describe(i)) << "\"";
      }
      o << "]}";
    }
    o << "],\"known\":[";
    for (size_t i = 0; i < known.size(); i++)
      o << (i ? "," : "") << "{\"label\":\"" << esc(known[i].label) << "\",\"hits\":" << sh->known[i] << "}";
    o << "],\"unconfirmed\":[";
    for (size_t i = 0; i < unconfirmed.size(); i++)
      o << (i ? "," : "") << "\"" << esc(key(spaces[unconfirmed[i].space], unconfirmed[i].idx, unconfirmed[i].tag))
        << " -- " << esc(unconfirmed[i].msg) << "\"";
    o << "],\"violations\":[";
    for (size_t i = 0; i < viol.size(); i++) {
      auto &v = viol[i];
      o << (i ? "," : "") << "{\"space\":" << v.r.space << ",\"space_name\":\"" << esc(spaces[v.r.space].name)
        << "\",\"from\":" << v.from << ",\"idx\":" << v.r.idx << ",\"key\":\"" << esc(v.key) << "\",\"tag\":\""
        << esc(v.r.tag) << "\",\"msg\":\"" << esc(v.r.msg) << "\"}";
    }
    o << "]}\n";
    if (outPath.empty())
      fputs(o.str().c_str(), stdout);
    else {
      std::ofstream f(outPath);
      f << o.str();
    }
    return 0;
  }
  virtual void setup() = 0;
  virtual ~Runner() = default;
};

// mixed-radix decoding helper
struct Dec {
  uint64_t k;
  explicit Dec(uint64_t k) : k(k) {}
  uint64_t operator()(uint64_t n) {
    uint64_t r = k % n;
    k /= n;
    return r;
  }
};
inline uint64_t ipow(uint64_t b, unsigned e) {
  uint64_t r = 1;
  while (e--) r *= b;
  return r;
}
} // namespace mc
