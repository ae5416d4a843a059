#include <execinfo.h>
// Choices, run driver, minimiser, replay, heap.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <new>
#include <set>
#include <sstream>
#include <unordered_map>
#include "internal.hpp"

namespace sim {
using namespace in;
namespace in {
Shared *sh = nullptr;
bool g_replay = false, g_verbose = false, g_run_active = false;
thread_local int t_in_rt = 0;

struct Trace {
  std::vector<Entry> s[NSTREAM];
};
static std::unordered_map<uint64_t, uint32_t> *g_rep[NSTREAM];
static Trace g_rep_trace;
static std::string g_mode = "";
static bool g_thorough = false;
static std::string g_root, g_scratch;
static uint64_t g_life_deadline_s = 60;

uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void mix_hash(uint64_t v) {
  if (sh) sh->hash = (sh->hash ^ v) * 0x100000001b3ull + 0x9e37;
}
void die(int code) { syscall(231 /*exit_group*/, code); __builtin_unreachable(); }
void internal_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  snprintf(sh->cls, sizeof sh->cls, "INTERNAL");
  sh->status = 3;
  die(kExitInternal);
}
static uint64_t draw(Stream s, uint32_t n, uint64_t idx) {
  if (g_replay) {
    auto it = g_rep[s]->find(idx);
    if (it == g_rep[s]->end()) return 0;
    return it->second % n;
  }
  return splitmix(sh->prng[s]) % n;
}
static void record(Stream s, uint64_t idx, uint32_t v) {
  static bool log = getenv("SIM_DRAWLOG") != nullptr;
  if (log && s != SCHED) dprintf(2, "draw %d %lx = %u\n", (int)s, (unsigned long)idx, v);
  if (!v) return;
  if (sh->nrec[s] >= kRecCap) {
    sh->rec_overflow = 1;
    return;
  }
  sh->rec[s][sh->nrec[s]++] = Entry{idx, v, 0};
}
}  // namespace in

uint64_t mix(uint64_t x) { return splitmix(x); }
bool is_replay() { return g_replay; }
bool thorough() { return g_thorough; }
uint32_t choose(Stream s, uint32_t n) {
  RtGuard g;
  uint64_t i = sh->idx[s]++;
  if (n <= 1) return 0;
  uint32_t v = (uint32_t)draw(s, n, i);
  record(s, i, v);
  return v;
}
bool chance(Stream s, uint32_t num, uint32_t den) {
  RtGuard g;
  uint64_t i = sh->idx[s]++;
  uint32_t v;
  if (g_replay) {
    v = num ? (uint32_t)draw(s, 2, i) : 0;
  } else {
    v = (splitmix(sh->prng[s]) % den) < num ? 1 : 0;
  }
  record(s, i, v);
  return v;
}
uint32_t pick(Stream s, std::initializer_list<uint32_t> w) {
  RtGuard g;
  uint64_t i = sh->idx[s]++;
  uint32_t n = (uint32_t)w.size(), v = 0;
  if (g_replay) {
    v = (uint32_t)draw(s, n, i);
    for (uint32_t k = 0; k < n && !w.begin()[v]; ++k) v = (v + 1) % n;  // shrinking never takes an option that was not offered
  } else {
    uint64_t tot = 0;
    for (auto x : w) tot += x;
    uint64_t r = splitmix(sh->prng[s]) % tot;
    for (auto x : w) {
      if (r < x) break;
      r -= x;
      ++v;
    }
  }
  record(s, i, v);
  return v;
}
uint32_t small(Stream s, uint32_t max) {
  if (max == 0) return 0;
  uint32_t bits = 1;
  while ((1u << bits) <= max && bits < 31) ++bits;
  RtGuard g;
  uint64_t i = sh->idx[s]++;
  uint32_t v;
  if (g_replay) {
    v = (uint32_t)draw(s, max + 1, i);
  } else {
    uint32_t b = splitmix(sh->prng[s]) % (bits + 1);
    v = (uint32_t)(splitmix(sh->prng[s]) % (1ull << b));
    if (v > max) v = max;
  }
  record(s, i, v);
  return v;
}
void op_scope(uint32_t op) {
  for (int s : {WORK, FAULT, CRASH}) sh->idx[s] = (uint64_t)(op + 1) << 20;
}
void hash(uint64_t v) { mix_hash(v); }
static void vtrace(bool hashed, const char *fmt, va_list ap) {
  RtGuard g;
  char b[1024];
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  if (n < 0) return;
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (hashed)
    for (int i = 0; i < n; ++i) mix_hash((unsigned char)b[i]);
  if (sh->trace_len + n < kTraceCap) {
    memcpy(sh->tr + sh->trace_len, b, n);
    sh->trace_len += n;
  }
  if (g_verbose) (void)!::write(2, b, n);
}
void note(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vtrace(true, fmt, ap);
  va_end(ap);
}
void trace(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vtrace(false, fmt, ap);
  va_end(ap);
}
void fail(const char *cls, const char *fmt, ...) {
  ++t_in_rt;
  if (sh->status == 0) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    for (const char *p = cls; *p; ++p) mix_hash(*p);
    sh->status = 2;
  }
  die(kExitViolation);
}
void count(const char *name, uint64_t n) {
  RtGuard g;
  for (uint32_t i = 0; i < sh->ncounters; ++i)
    if (!strcmp(sh->counters[i].name, name)) {
      sh->counters[i].v += n;
      return;
    }
  if (sh->ncounters < kCounters) {
    auto &c = sh->counters[sh->ncounters++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.v = n;
  }
}
void nontrivial() { sh->nontriv = 1; }
void checked(uint64_t n) { sh->checks += n; }
const char *root() { return g_root.c_str(); }
void emit(const std::string &ev) {
  RtGuard g;
  uint32_t n = (uint32_t)ev.size();
  if (sh->log_len + n + 4 > kLogCap) internal_error("event log full");
  memcpy(sh->log + sh->log_len, &n, 4);
  memcpy(sh->log + sh->log_len + 4, ev.data(), n);
  for (unsigned char c : ev) mix_hash(c);
  sh->log_len += n + 4;
}
const char *mode() { return g_mode.c_str(); }

static const char *signame(int sig) {
  switch (sig) {
    case SIGABRT: return "PROCESS_ABORTED";
    case SIGSEGV: return "PROCESS_SEGFAULT";
    case SIGBUS: return "PROCESS_SIGBUS";
    case SIGFPE: return "PROCESS_SIGFPE";
    case SIGILL: return "PROCESS_SIGILL";
    default: return "PROCESS_DIED";
  }
}

LifeResult run_life(const std::function<void()> &body) {
  LifeResult r;
  sh->log_len = 0;
  sh->lives++;
  pid_t pid = fork();
  if (pid < 0) internal_error("fork: %s", strerror(errno));
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    fs_life_begin();
    g_run_active = true;
    body();
    g_run_active = false;
    fs_life_end_clean();
    die(kExitOk);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL) internal_error("life killed");
    if (sh->status == 0) fail(signame(WTERMSIG(st)), "the process died from signal %d: %.1500s", WTERMSIG(st), sh->msg);
    die(kExitViolation);
  }
  int c = WEXITSTATUS(st);
  if (c == kExitViolation || sh->status == 2) die(kExitViolation);
  if (c == kExitInternal) die(kExitInternal);
  if (c == kExitCrash) {
    r.kind = LifeResult::CRASHED;
    sh->crashes++;
  } else if (c == kExitOk) {
    r.kind = LifeResult::CLEAN;
  } else {
    fail("PROCESS_EXITED", "the process exited with status %d", c);
  }
  size_t p = 0;
  while (p < sh->log_len) {
    uint32_t n;
    memcpy(&n, sh->log + p, 4);
    r.events.emplace_back(sh->log + p + 4, n);
    p += 4 + n;
  }
  return r;
}

// ================================================================ driver
namespace in {
static double now_s() {
  struct timespec t;
  syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static pid_t g_child = 0;
static volatile sig_atomic_t g_timed_out = 0;
static void on_alarm(int) {
  g_timed_out = 1;
  if (g_child > 0) kill(-g_child, SIGKILL);
}
struct RunOut {
  int status;  // 0 ok, 2 violation, 3 internal error
  std::string cls, msg;
  uint64_t hash;
};
static void reset_shared(uint64_t seed) {
  memset(sh, 0, offsetof(Shared, rec));
  for (int s = 0; s < NSTREAM; ++s) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + s * 0x1234567ull + 77;
    splitmix(x);
    sh->prng[s] = x;
  }
  sh->hash = 0xcbf29ce484222325ull;
  sh->sched_hash = 0xcbf29ce484222325ull;
}
static void clean_root() {
  std::error_code ec;
  std::filesystem::remove_all(g_scratch, ec);
  std::filesystem::create_directories(g_root, ec);
}
static void set_replay(const Trace *t) {
  for (int s = 0; s < NSTREAM; ++s) {
    if (!g_rep[s]) g_rep[s] = new std::unordered_map<uint64_t, uint32_t>();
    g_rep[s]->clear();
    if (t)
      for (auto &e : t->s[s]) (*g_rep[s])[e.idx] = e.val;
  }
  g_replay = t != nullptr;
}
static RunOut run_once(uint64_t seed, const Trace *t) {
  set_replay(t);
  reset_shared(seed);
  clean_root();
  g_timed_out = 0;
  pid_t pid = fork();
  if (pid < 0) {
    return {3, "INTERNAL", "fork failed", 0};
  }
  if (pid == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGALRM, SIG_DFL);
    if (!g_verbose) {
      int fd = ::open("/dev/null", O_RDWR);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    fs_run_begin(g_root);
    std::set_terminate([] {
      ++t_in_rt;
      if (getenv("SIM_BT")) {
        void *fr[60];
        int o = open(getenv("SIM_BT"), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        backtrace_symbols_fd(fr, backtrace(fr, 60), o);
      }
      const char *w = "std::terminate";
      static char b[1200];
      if (auto p = std::current_exception()) {
        try {
          std::rethrow_exception(p);
        } catch (const std::exception &e) {
          snprintf(b, sizeof b, "terminate by uncaught exception: %s", e.what());
          w = b;
        } catch (...) {
          w = "terminate by uncaught exception";
        }
      }
      fail("PROCESS_TERMINATED", "%s", w);
    });
    ::sim_run();
    g_run_active = false;
    if (sh->status == 0) sh->status = 1;
    die(kExitOk);
  }
  setpgid(pid, pid);
  g_child = pid;
  struct itimerval tv {};
  tv.it_value.tv_sec = (time_t)g_life_deadline_s;
  setitimer(ITIMER_REAL, &tv, nullptr);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  tv.it_value.tv_sec = 0;
  setitimer(ITIMER_REAL, &tv, nullptr);
  kill(-pid, SIGKILL);  // leftovers
  g_child = 0;
  RunOut o{0, "", "", sh->hash};
  if (sh->status == 2) {
    o.status = 2;
    o.cls = sh->cls;
    o.msg = sh->msg;
  } else if (sh->status == 3) {
    o.status = 3;
    o.cls = sh->cls;
    o.msg = sh->msg;
  } else if (g_timed_out) {
    o.status = 2;
    o.cls = "WALL_HANG";
    o.msg = "the run made no progress within the wall-clock limit";
    o.hash = 0;
  } else if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGKILL) {
      o.status = 3;
      o.cls = "INTERNAL";
      o.msg = "killed";
    } else {
      o.status = 2;
      o.cls = signame(WTERMSIG(st));
      o.msg = "the process died from signal " + std::to_string(WTERMSIG(st));
    }
  } else if (sh->status != 1) {
    o.status = 2;
    o.cls = "PROCESS_EXITED";
    o.msg = "the process exited with status " + std::to_string(WEXITSTATUS(st));
  }
  return o;
}
static Trace take_trace() {
  Trace t;
  for (int s = 0; s < NSTREAM; ++s) t.s[s].assign(sh->rec[s], sh->rec[s] + sh->nrec[s]);
  return t;
}
static size_t tsize(const Trace &t) {
  size_t n = 0;
  for (auto &v : t.s) n += v.size();
  return n;
}

static Trace minimise(const Trace &orig, const std::string &cls, double budget, uint64_t &tries) {
  double end = now_s() + budget;
  Trace best = orig;
  auto attempt = [&](const Trace &c) {
    if (now_s() > end) return false;
    ++tries;
    RunOut o = run_once(0, &c);
    if (o.status == 2 && o.cls == cls) {
      Trace t = take_trace();  // only what was consumed
      if (tsize(t) <= tsize(c)) {
        best = t;
      } else {
        best = c;
      }
      return true;
    }
    return false;
  };
  // normalise
  attempt(best);
  // whole streams
  for (int s : {SCHED, FAULT, CRASH}) {
    if (best.s[s].empty()) continue;
    Trace c = best;
    c.s[s].clear();
    attempt(c);
  }
  bool progress = true;
  int rounds = 0;
  while (progress && now_s() < end && rounds++ < 6) {
    progress = false;
    // operations (all streams of one op at once), last first
    {
      std::set<uint64_t> ops;
      for (int s : {WORK, FAULT, CRASH})
        for (auto &e : best.s[s]) ops.insert(e.idx >> 20);
      std::vector<uint64_t> v(ops.rbegin(), ops.rend());
      for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2) {
        for (size_t i = 0; i < v.size() && now_s() < end; i += chunk) {
          std::set<uint64_t> rm(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
          Trace c = best;
          size_t before = tsize(c);
          for (int s : {WORK, FAULT, CRASH})
            std::erase_if(c.s[s], [&](const Entry &e) { return rm.count(e.idx >> 20); });
          if (tsize(c) == before) continue;
          if (attempt(c)) progress = true;
        }
        if (chunk == 1) break;
      }
    }
    for (int s : {SCHED, FAULT, CRASH, WORK}) {
      for (size_t chunk = std::max<size_t>(1, best.s[s].size() / 2);; chunk /= 2) {
        for (size_t i = 0; i < best.s[s].size() && now_s() < end;) {
          Trace c = best;
          size_t n = std::min(chunk, c.s[s].size() - i);
          c.s[s].erase(c.s[s].begin() + i, c.s[s].begin() + i + n);
          size_t before = best.s[s].size();
          if (attempt(c)) {
            progress = true;
            if (best.s[s].size() >= before) i += chunk;
          } else {
            i += chunk;
          }
        }
        if (chunk == 1) break;
      }
    }
    // values
    for (int s : {WORK, FAULT, CRASH}) {
      for (size_t i = 0; i < best.s[s].size() && now_s() < end; ++i) {
        uint32_t v = best.s[s][i].val;
        for (uint32_t nv : {1u, v / 2, v - 1}) {
          if (nv == 0 || nv >= v) continue;
          Trace c = best;
          c.s[s][i].val = nv;
          if (attempt(c)) {
            progress = true;
            break;
          }
          if (i >= best.s[s].size()) break;
        }
      }
    }
  }
  return best;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
static const char *stream_name[] = {"work", "sched", "fault", "crash"};

static void write_replay(const std::string &path, const Trace &t, const RunOut &o, const std::string &text,
                         uint64_t seed, uint64_t vseed) {
  std::ofstream f(path);
  f << "sim-replay 1\nharness " << ::sim_harness_name << "\nmode " << g_mode << "\nfrom-seed " << seed << " (VERIF_SEED "
    << vseed << ")\nclass " << o.cls << "\nhash " << o.hash << "\n";
  std::string m = o.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  f << "message " << m << "\n";
  for (int s = 0; s < NSTREAM; ++s) {
    f << "stream " << stream_name[s] << " " << t.s[s].size() << "\n";
    for (auto &e : t.s[s]) f << e.idx << " " << e.val << "\n";
  }
  f << "trace\n" << text;
}
static bool read_replay(const std::string &path, Trace &t, std::string &cls, std::string &mode) {
  std::ifstream f(path);
  std::string line;
  if (!std::getline(f, line) || line != "sim-replay 1") return false;
  while (std::getline(f, line)) {
    if (line.rfind("class ", 0) == 0) cls = line.substr(6);
    if (line.rfind("mode ", 0) == 0) mode = line.substr(5);
    if (line.rfind("stream ", 0) == 0) {
      std::istringstream is(line.substr(7));
      std::string nm;
      size_t n;
      is >> nm >> n;
      for (int s = 0; s < NSTREAM; ++s)
        if (nm == stream_name[s])
          for (size_t i = 0; i < n; ++i) {
            std::getline(f, line);
            std::istringstream l2(line);
            Entry e{};
            l2 >> e.idx >> e.val;
            t.s[s].push_back(e);
          }
    }
    if (line == "trace") break;
  }
  return true;
}

struct WorkerShared {
  uint64_t runs, nontriv, checks, lives, crashes, switches, steps, simtime, known_hits, internal, det_pairs, det_bad;
  uint64_t overflow;
  uint64_t faults[F_KINDS];
  uint32_t ncounters;
  Counter counters[kCounters];
  char known_seen[32];
  char internal_msg[512];
  uint64_t nhash;
  uint64_t nsample;
  char samples[3][3000];
  int violation;
  uint64_t hashes[2000000];
};
struct Global {
  std::atomic<int> stop;
  std::atomic<int> claimed;  // a worker is handling a violation
  char replay_path[1024];
  char vmsg[4096];
  char vcls[64];
  uint64_t min_tries;
  int gate_ok;
};
struct Known {
  std::string cls, sub;
};
static std::vector<Known> g_known;
static int match_known(const RunOut &o) {
  for (size_t i = 0; i < g_known.size(); ++i)
    if (g_known[i].cls == o.cls && o.msg.find(g_known[i].sub) != std::string::npos) return (int)i;
  return -1;
}
static std::string self_path;
static std::vector<std::string> g_pass_args;

static int fresh_replay(const std::string &path) {
  pid_t p = fork();
  if (p == 0) {
    int fd = ::open("/dev/null", O_RDWR);
    dup2(fd, 1);
    if (!getenv("SIM_VERBOSE")) dup2(fd, 2);
    execl(self_path.c_str(), self_path.c_str(), "--replay", path.c_str(), "--scratch", g_scratch.c_str(), "--limit",
          std::to_string(g_life_deadline_s).c_str(), nullptr);
    _exit(127);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}

static void handle_violation(Global *G, const RunOut &first, uint64_t seed, uint64_t vseed, const std::string &rdir,
                             double min_budget) {
  Trace t = take_trace();
  std::string text0(sh->tr, sh->trace_len);
  // Gate 1: the recorded stream reproduces the violation, twice with one hash.
  uint64_t tries = 0;
  RunOut a = run_once(0, &t);
  RunOut b = run_once(0, &t);
  if (!(a.status == 2 && b.status == 2 && a.cls == first.cls && b.cls == first.cls && a.hash == b.hash)) {
    snprintf(G->vmsg, sizeof G->vmsg,
             "unreproducible: seed %lu first %s (%s), replays %d %s / %d %s hash %lx %lx first %lx", (unsigned long)seed, first.cls.c_str(), first.msg.c_str(),
             a.status, a.cls.c_str(), b.status, b.cls.c_str(), a.hash, b.hash, first.hash);
    G->gate_ok = 0;
    if (getenv("SIM_DETDIR")) {
      std::ofstream(std::string(getenv("SIM_DETDIR")) + "/a.txt") << text0;
      std::ofstream(std::string(getenv("SIM_DETDIR")) + "/b.txt") << std::string(sh->tr, sh->trace_len);
      write_replay(std::string(getenv("SIM_DETDIR")) + "/t.replay", t, first, text0, seed, vseed);
    }
    return;
  }
  Trace m = minimise(t, first.cls, min_budget, tries);
  G->min_tries = tries;
  RunOut o = run_once(0, &m);
  RunOut o2 = run_once(0, &m);
  if (!(o.status == 2 && o.cls == first.cls && o2.status == 2 && o2.hash == o.hash && match_known(o) < 0)) {
    m = t;
    o = run_once(0, &m);
  }
  std::string text(sh->tr, sh->trace_len);
  std::filesystem::create_directories(rdir);
  std::string path = rdir + "/" + ::sim_harness_name + (g_mode.empty() ? "" : "-" + g_mode) + "-" + first.cls + ".replay";
  write_replay(path, m, o, text, seed, vseed);
  int rc = fresh_replay(path);
  if (rc != 1 && tsize(m) != tsize(t)) {
    o = run_once(0, &t);
    write_replay(path, t, o, std::string(sh->tr, sh->trace_len), seed, vseed);
    rc = fresh_replay(path);
  }
  snprintf(G->replay_path, sizeof G->replay_path, "%s", path.c_str());
  snprintf(G->vmsg, sizeof G->vmsg, "%s: %.3900s", o.cls.c_str(), o.msg.c_str());
  snprintf(G->vcls, sizeof G->vcls, "%s", o.cls.c_str());
  G->gate_ok = rc == 1;
}

static void worker(int w, int W, uint64_t vseed, double end, uint64_t max_runs, WorkerShared *ws, Global *G,
                   const std::string &rdir, double min_budget) {
  struct sigaction sa {};
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  g_scratch += "/w" + std::to_string(w);
  g_root = g_scratch + "/root";
  cpu_set_t cs;
  CPU_ZERO(&cs);
  CPU_SET(w % (int)sysconf(_SC_NPROCESSORS_ONLN), &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  for (uint64_t r = w; r < max_runs; r += W) {
    if (now_s() > end || G->stop.load()) break;
    uint64_t seed = mix(vseed * 0x51ed2701ull + r * 0x9E3779B1ull + 13);
    RunOut o = run_once(seed, nullptr);
    ws->runs++;
    if (o.status == 3) {
      ws->internal++;
      snprintf(ws->internal_msg, sizeof ws->internal_msg, "seed %lu: %.400s", seed, o.msg.c_str());
      continue;
    }
    ws->nontriv += sh->nontriv;
    ws->checks += sh->checks;
    ws->lives += sh->lives;
    ws->crashes += sh->crashes;
    ws->switches += sh->switches;
    ws->steps += sh->steps;
    ws->simtime += sh->simtime;
    ws->overflow += sh->rec_overflow;
    for (int i = 0; i < F_KINDS; ++i) ws->faults[i] += sh->faults[i];
    for (uint32_t i = 0; i < sh->ncounters; ++i) {
      uint32_t j = 0;
      for (; j < ws->ncounters; ++j)
        if (!strcmp(ws->counters[j].name, sh->counters[i].name)) break;
      if (j == ws->ncounters) {
        if (j == (uint32_t)kCounters) continue;
        memcpy(ws->counters[j].name, sh->counters[i].name, 48);
        ws->ncounters++;
      }
      ws->counters[j].v += sh->counters[i].v;
    }
    if (sh->nontriv && ws->nhash < 2000000) ws->hashes[ws->nhash++] = o.hash ^ sh->sched_hash;
    if (sh->nontriv && ws->nsample < 3 && (sh->trace_len || sh->switches)) {
      std::string cs;
      for (uint32_t i = 0; i < sh->ncounters; ++i) cs += std::string(" ") + sh->counters[i].name + "=" + std::to_string(sh->counters[i].v);
      snprintf(ws->samples[ws->nsample], sizeof ws->samples[0], "seed %lu: steps=%lu switches=%lu preemptions/decisions recorded=%lu%s\n%.*s", seed,
               (unsigned long)sh->steps, (unsigned long)sh->switches, (unsigned long)sh->nrec[SCHED], cs.c_str(),
               (int)std::min<uint64_t>(sh->trace_len, 2500), sh->tr);
      ws->nsample++;
    }
    if (o.status == 2) {
      int k = match_known(o);
      if (k >= 0) {
        ws->known_hits++;
        if (k < 32) ws->known_seen[k] = 1;
        continue;
      }
      int exp = 0;
      if (G->claimed.compare_exchange_strong(exp, 1)) {
        G->stop = 1;
        RunOut first = o;
        handle_violation(G, first, seed, vseed, rdir, min_budget);
      }
      ws->violation = 1;
      break;
    }
    static bool rrall = getenv("SIM_RRALL") != nullptr;
    if ((r / W) % 50 == 7 || rrall) {  // determinism pair: the same seed again, or its recorded decisions replayed
      uint64_t h = o.hash;
      uint64_t sh1 = sh->sched_hash;
      bool rep = ((r / W) % 100 == 7 || rrall) && !sh->rec_overflow;
      Trace rt;
      if (rep) rt = take_trace();
      std::string first_text;
      if (getenv("SIM_DETDIR")) first_text.assign(sh->tr, sh->trace_len);
      RunOut o2 = run_once(rep ? 0 : seed, rep ? &rt : nullptr);
      ws->det_pairs++;
      if (o2.hash != h || sh->sched_hash != sh1 || o2.status != o.status) {
        ws->det_bad++;
        snprintf(ws->internal_msg, sizeof ws->internal_msg, "nondeterminism (%s) at seed %lu: hash %lx/%lx sched %lx/%lx status %d %s/%d %s", rep ? "replay" : "rerun", seed, h, o2.hash, sh1,
                 sh->sched_hash, o.status, o.cls.c_str(), o2.status, o2.cls.c_str());
        if (getenv("SIM_DETDIR")) {
          std::ofstream(std::string(getenv("SIM_DETDIR")) + "/a.txt") << first_text;
          std::ofstream(std::string(getenv("SIM_DETDIR")) + "/b.txt") << std::string(sh->tr, sh->trace_len);
          G->stop = 1;
        }
      }
    }
  }
  std::error_code ec;
  std::filesystem::remove_all(g_scratch, ec);
}

static int driver_main(int argc, char **argv) {
  self_path = argv[0];
  uint64_t vseed = 1, max_runs = ~0ull, one_seed = 0;
  bool have_seed = false;
  double budget = 30, min_budget = 45;
  int W = 8;
  std::string out, rdir = "replays", replay, scratch, known;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") vseed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--min-budget") min_budget = atof(nx().c_str());
    else if (a == "--workers") W = atoi(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--replays") rdir = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--runs") max_runs = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--mode") g_mode = nx();
    else if (a == "--known") known = nx();
    else if (a == "--scratch") scratch = nx();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--limit") g_life_deadline_s = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--run-seed") { one_seed = strtoull(nx().c_str(), nullptr, 10); have_seed = true; }
  }
  g_verbose = getenv("SIM_VERBOSE") != nullptr;
  if (!known.empty()) {
    std::ifstream f(known);
    std::string l;
    while (std::getline(f, l)) {
      auto p = l.find('\t');
      if (p == std::string::npos) continue;
      g_known.push_back({l.substr(0, p), l.substr(p + 1)});
    }
  }
  bool own_scratch = scratch.empty();
  if (own_scratch) {
    struct stat stt;
    char t1[] = "/dev/shm/simXXXXXX", t2[] = "/tmp/simXXXXXX";
    const char *d = nullptr;
    if (stat("/dev/shm", &stt) == 0 && access("/dev/shm", W_OK) == 0) d = mkdtemp(t1);
    if (!d) d = mkdtemp(t2);
    if (!d) {
      perror("mkdtemp");
      return 3;
    }
    scratch = d;
  }
  g_scratch = scratch;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto cleanup = [&] {
    if (!own_scratch) return;
    std::error_code ec;
    std::filesystem::remove_all(scratch, ec);
  };
  if (!replay.empty() || have_seed) {
    struct sigaction sa {};
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    g_root = g_scratch + "/w0/root";
    g_scratch += "/w0";
    Trace t;
    std::string cls, md;
    if (!have_seed) {
      if (!read_replay(replay, t, cls, md)) {
        fprintf(stderr, "bad replay file\n");
        cleanup();
        return 3;
      }
      g_mode = md;
    }
    ::sim_prepare();
    RunOut o = have_seed ? run_once(one_seed, nullptr) : run_once(0, &t);
    if (have_seed && getenv("SIM_RR")) {  // replay of the recording
      fprintf(stderr, "=== replay of the recording\n");
      Trace rr = take_trace();
      o = run_once(0, &rr);
    }
    if (!g_verbose) fwrite(sh->tr, 1, sh->trace_len, stdout);
    printf("status %d class %s hash %lx sched %lx steps %lu switches %lu\n%s\n", o.status, o.cls.c_str(), o.hash,
           sh->sched_hash, sh->steps, sh->switches, o.msg.c_str());
    fflush(stdout);
    cleanup();
    if (have_seed) return o.status == 2 ? 1 : o.status;
    return o.status == 2 && o.cls == cls ? 1 : (o.status == 2 ? 4 : 0);
  }
  ::sim_prepare();
  auto *ws = (WorkerShared *)mmap(nullptr, sizeof(WorkerShared) * W, PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto *G = (Global *)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now_s();
  std::vector<pid_t> ps;
  for (int w = 0; w < W; ++w) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1,
                          0);
      worker(w, W, vseed, t0 + budget, max_runs, &ws[w], G, rdir, min_budget);
      _exit(0);
    }
    ps.push_back(p);
  }
  for (auto p : ps) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
  }
  double wall = now_s() - t0;
  cleanup();
  WorkerShared tot{};
  (void)tot;
  static WorkerShared T;
  std::set<uint64_t> hs;
  std::string samples;
  std::map<std::string, uint64_t> ctr;
  for (int w = 0; w < W; ++w) {
    auto &s = ws[w];
    T.runs += s.runs;
    T.nontriv += s.nontriv;
    T.checks += s.checks;
    T.lives += s.lives;
    T.crashes += s.crashes;
    T.switches += s.switches;
    T.steps += s.steps;
    T.simtime += s.simtime;
    T.known_hits += s.known_hits;
    T.internal += s.internal;
    T.det_pairs += s.det_pairs;
    T.det_bad += s.det_bad;
    T.overflow += s.overflow;
    for (int i = 0; i < F_KINDS; ++i) T.faults[i] += s.faults[i];
    for (uint32_t i = 0; i < s.ncounters; ++i) ctr[s.counters[i].name] += s.counters[i].v;
    for (uint64_t i = 0; i < s.nhash; ++i) hs.insert(s.hashes[i]);
    for (int i = 0; i < 32; ++i) T.known_seen[i] |= s.known_seen[i];
    if (s.internal_msg[0]) memcpy(T.internal_msg, s.internal_msg, sizeof T.internal_msg);
    if (w < 2)
      for (uint64_t i = 0; i < s.nsample && i < 2; ++i) {
        if (!samples.empty()) samples += ",";
        samples += json_str(s.samples[i]);
      }
  }
  std::ostringstream js;
  js << "{\"harness\":" << json_str(::sim_harness_name) << ",\"mode\":" << json_str(g_mode) << ",\"runs\":" << T.runs
     << ",\"nontrivial\":" << T.nontriv << ",\"distinct\":" << hs.size() << ",\"checks\":" << T.checks
     << ",\"lives\":" << T.lives << ",\"crashes\":" << T.crashes << ",\"switches\":" << T.switches
     << ",\"steps\":" << T.steps << ",\"simtime_ns\":" << T.simtime << ",\"wall_s\":" << wall
     << ",\"known_hits\":" << T.known_hits << ",\"internal_errors\":" << T.internal
     << ",\"internal_msg\":" << json_str(T.internal_msg) << ",\"determinism_pairs\":" << T.det_pairs
     << ",\"determinism_mismatches\":" << T.det_bad << ",\"record_overflows\":" << T.overflow << ",\"faults\":{";
  bool c = false;
  for (int i = 1; i < F_KINDS; ++i) {
    js << (c ? "," : "") << json_str(fault_names[i]) << ":" << T.faults[i];
    c = true;
  }
  js << "},\"probes\":{";
  c = false;
  for (auto &kv : ctr) {
    js << (c ? "," : "") << json_str(kv.first) << ":" << kv.second;
    c = true;
  }
  js << "},\"known_seen\":[";
  for (size_t i = 0; i < g_known.size() && i < 32; ++i) js << (i ? "," : "") << (int)T.known_seen[i];
  js << "],\"samples\":[" << samples << "],\"violation\":" << (G->claimed ? 1 : 0) << ",\"gate_ok\":" << G->gate_ok
     << ",\"min_tries\":" << G->min_tries << ",\"replay\":" << json_str(G->replay_path)
     << ",\"message\":" << json_str(G->vmsg) << "}";
  if (!out.empty()) {
    std::ofstream f(out);
    f << js.str() << "\n";
  } else {
    printf("%s\n", js.str().c_str());
  }
  if (G->claimed) {
    if (!G->gate_ok) {
      fprintf(stderr, "gate failed: %s\n", G->vmsg);
      return 3;
    }
    return 1;
  }
  if (T.runs == 0 || T.internal * 5 > T.runs) {
    fprintf(stderr, "internal errors: %lu of %lu (%s)\n", T.internal, T.runs, T.internal_msg);
    return 3;
  }
  return 0;
}
}  // namespace in
}  // namespace sim

int main(int argc, char **argv) {
  if (!getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0) personality((unsigned)p | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  static char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  if (n > 0) {
    self[n] = 0;
    argv[0] = self;
  }
  setenv("OMP_NUM_THREADS", "4", 1);
  return sim::in::driver_main(argc, argv);
}
extern "C" __attribute__((weak)) void sim_weak_dummy() {}

// ================================================================ heap
// A deterministic allocator at a fixed address (one thread runs at a time inside a run; a spin lock covers the rest).
namespace sim::in {
uintptr_t g_heap_lo = 0, g_heap_hi = 0;
uint8_t *g_shadow = nullptr;
// Two areas: [0] the driver and the simulator's own bookkeeping, [1] the simulated program, whose addresses then do not
// depend on what the driver did before the run or on whether the run is a replay.
static uintptr_t g_brk[2], g_end[2];
struct Hdr {
  uint64_t size_cls;   // class in low 16 bits, magic above
  uint64_t req;        // requested size; for aligned blocks, offset encoding lives in a second header
};
static_assert(sizeof(Hdr) == 16);
constexpr uint64_t kMagic = 0x5157a10c00000000ull, kAlignMagic = 0x5157a11c00000000ull;
struct FreeNode {
  FreeNode *next;
};
struct ClassList {
  FreeNode *head, *tail;
  uint64_t n;
};
static ClassList g_cls[2][1024];
static std::atomic_flag g_heap_lock = ATOMIC_FLAG_INIT;
static uint32_t g_alloc_countdown = 0;
static bool g_alloc_fired = false;
static thread_local bool t_alloc_armed = false;  // only the arming thread's allocations fail
static bool g_alloc_any = false;  // ... unless all threads were asked for

static inline unsigned cls_of(size_t n) {  // n includes header
  if (n <= 1024) return (unsigned)((n + 15) / 16);
  unsigned lg = 63 - __builtin_clzll(n - 1);           // 2^lg < n <= 2^(lg+1)
  unsigned q = (unsigned)(((n - 1) >> (lg - 2)) & 3);  // quarter
  return 64 + (lg - 10) * 4 + q + 1;
}
static inline size_t cls_size(unsigned c) {
  if (c <= 64) return (size_t)c * 16;
  unsigned k = c - 65;
  unsigned lg = 10 + k / 4, q = k % 4;
  return ((size_t)1 << lg) + ((size_t)(q + 1) << (lg - 2));
}
static void heap_init() {
  if (g_heap_lo) return;
  size_t sz = 64ull << 30;
  void *p = mmap((void *)0x200000000000ull, sz, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) abort();
  void *s = mmap((void *)0x300000000000ull, sz / 16, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (s == MAP_FAILED) abort();
  g_shadow = (uint8_t *)s;
  g_brk[0] = (uintptr_t)p;
  g_end[0] = g_brk[1] = (uintptr_t)p + sz / 2;
  g_end[1] = (uintptr_t)p + sz;
  g_heap_hi = (uintptr_t)p + sz;
  g_heap_lo = (uintptr_t)p;
}
static void *heap_alloc(size_t n) {
  if (n > (24ull << 30)) {
    errno = ENOMEM;
    return nullptr;
  }
  while (g_heap_lock.test_and_set(std::memory_order_acquire)) {
  }
  if (!g_heap_lo) heap_init();
  unsigned c = cls_of(n + sizeof(Hdr));
  size_t cs = cls_size(c);
  int area = g_run_active && t_in_rt == t_quiet;
  ClassList &L = g_cls[area][c];
  Hdr *h;
  uint64_t keep = cs <= 4096 ? 32 : (cs <= 65536 ? 8 : (cs <= (1 << 20) ? 2 : 0));
  if (L.n > keep) {
    FreeNode *f = L.head;
    L.head = f->next;
    if (!L.head) L.tail = nullptr;
    L.n--;
    h = (Hdr *)((char *)f - sizeof(Hdr));
  } else {
    if (g_brk[area] + cs > g_end[area]) {
      g_heap_lock.clear(std::memory_order_release);
      errno = ENOMEM;
      return nullptr;
    }
    h = (Hdr *)g_brk[area];
    g_brk[area] += cs;
  }
  h->size_cls = kMagic | c;
  h->req = n;
  uintptr_t a = (uintptr_t)(h + 1);
  memset(g_shadow + ((a - g_heap_lo) >> 4), 1, (n + 15) >> 4);
  g_heap_lock.clear(std::memory_order_release);
  return (void *)a;
}
static Hdr *hdr_of(void *p) {
  Hdr *h = (Hdr *)p - 1;
  if ((h->size_cls & 0xffffffff00000000ull) == kAlignMagic) h = (Hdr *)((char *)p - h->req) - 1;
  return h;
}
__attribute__((weak)) void race_clear(uintptr_t, size_t) {}
static void heap_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if ((h->size_cls & 0xffffffff00000000ull) == kAlignMagic) {
    h->size_cls = 0;
    h = (Hdr *)((char *)p - h->req) - 1;
  }
  if ((h->size_cls & 0xffffffff00000000ull) != kMagic) {
    if (g_run_active && sh) fail("HEAP_BAD_FREE", "free of a pointer that is not a live heap block (double free?)");
    abort();
  }
  unsigned c = (unsigned)(h->size_cls & 0xffff);
  uintptr_t a = (uintptr_t)(h + 1);
  size_t n = h->req;
  if (g_run_active) race_clear(a, n);
  while (g_heap_lock.test_and_set(std::memory_order_acquire)) {
  }
  h->size_cls = 0xdead;
  memset(g_shadow + ((a - g_heap_lo) >> 4), 2, (n + 15) >> 4);
  if (g_run_active) memset((void *)a, 0xDD, n < 4096 ? n : 4096);
  ClassList &L = g_cls[(uintptr_t)h >= g_end[0]][c];
  FreeNode *f = (FreeNode *)(h + 1);
  f->next = nullptr;
  if (L.tail) L.tail->next = f;
  else L.head = f;
  L.tail = f;
  L.n++;
  g_heap_lock.clear(std::memory_order_release);
}
static void *heap_aligned(size_t al, size_t n) {
  if (al <= 16) return heap_alloc(n);
  void *b = heap_alloc(n + al + 16);
  if (!b) return nullptr;
  uintptr_t p = ((uintptr_t)b + 16 + al - 1) & ~(uintptr_t)(al - 1);
  if (p == (uintptr_t)b) return b;
  Hdr *h = (Hdr *)p - 1;
  h->size_cls = kAlignMagic;
  h->req = p - (uintptr_t)b;
  return (void *)p;
}
static size_t heap_usable(void *p) {
  Hdr *h = hdr_of(p);
  return h->req - ((uintptr_t)p - (uintptr_t)(h + 1));
}
// libstdc++'s file system library has noexcept functions that allocate: a failure below one of them would be its own.
static bool below_std_filesystem() {
  ++t_in_rt;
  void *fr[40];
  int n = backtrace(fr, 40);
  bool r = false;
  for (int i = 2; i < n && !r; ++i) {
    Dl_info d;
    // symbols of the library itself, not instances of its templates in the program
    r = dladdr(fr[i], &d) && d.dli_sname && d.dli_fname && strstr(d.dli_fname, "libstdc++") && strstr(d.dli_sname, "10filesystem");
  }
  --t_in_rt;
  return r;
}
static bool alloc_fault() {
  if (g_alloc_countdown && (t_alloc_armed || g_alloc_any) && hooked()) {
    if (g_alloc_countdown > 1) {
      --g_alloc_countdown;
    } else if (!below_std_filesystem()) {
      g_alloc_countdown = 0;
      g_alloc_fired = true;
      count("fault_alloc");
      return true;
    }
  }
  return false;
}
}  // namespace sim::in
namespace sim {
void arm_alloc_fail(uint32_t n, bool every_thread) {
  in::g_alloc_countdown = n;
  in::t_alloc_armed = true;
  in::g_alloc_any = every_thread;
  in::g_alloc_fired = false;
}
void disarm_alloc_fail() {
  in::g_alloc_countdown = 0;
  in::t_alloc_armed = false;
  in::g_alloc_any = false;
}
bool alloc_fail_fired() { return in::g_alloc_fired; }
}  // namespace sim
using namespace sim::in;
extern "C" {
void *malloc(size_t n) { return heap_alloc(n); }
void free(void *p) { heap_free(p); }
void cfree(void *p) { heap_free(p); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = heap_alloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p) return heap_alloc(n);
  if (n == 0) {
    heap_free(p);
    return nullptr;
  }
  size_t o = heap_usable(p);
  void *q = heap_alloc(n);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  heap_free(p);
  return q;
}
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
void *memalign(size_t al, size_t n) { return heap_aligned(al, n); }
void *aligned_alloc(size_t al, size_t n) {
  if (alloc_fault()) return errno = ENOMEM, nullptr;
  return heap_aligned(al, n);
}
int posix_memalign(void **o, size_t al, size_t n) {
  if (alloc_fault()) return ENOMEM;
  void *p = heap_aligned(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void *valloc(size_t n) { return heap_aligned(4096, n); }
void *pvalloc(size_t n) { return heap_aligned(4096, (n + 4095) & ~4095ul); }
size_t malloc_usable_size(void *p) { return p ? heap_usable(p) : 0; }
}
void *operator new(size_t n) {
  if (alloc_fault()) throw std::bad_alloc();
  void *p = heap_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  if (alloc_fault()) throw std::bad_alloc();
  void *p = heap_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc_fault() ? nullptr : heap_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc_fault() ? nullptr : heap_alloc(n); }
void *operator new(size_t n, std::align_val_t a) {
  if (alloc_fault()) throw std::bad_alloc();
  void *p = heap_aligned((size_t)a, n);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) {
  if (alloc_fault()) throw std::bad_alloc();
  void *p = heap_aligned((size_t)a, n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { heap_free(p); }
void operator delete[](void *p) noexcept { heap_free(p); }
void operator delete(void *p, size_t) noexcept { heap_free(p); }
void operator delete[](void *p, size_t) noexcept { heap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { heap_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { heap_free(p); }
