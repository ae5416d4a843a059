// Cooperative deterministic scheduler over real threads, pthread interposition, data-race and use-after-free hooks.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>
#include "internal.hpp"

namespace sim {
using namespace in;
namespace in {
struct VC {
  std::vector<uint32_t> c;
  uint32_t get(int i) const { return i < (int)c.size() ? c[i] : 0; }
  void set(int i, uint32_t v) {
    if (i >= (int)c.size()) c.resize(i + 1);
    c[i] = v;
  }
  void join(const VC &o) {
    if (o.c.size() > c.size()) c.resize(o.c.size());
    for (size_t i = 0; i < o.c.size(); ++i) c[i] = std::max(c[i], o.c[i]);
  }
};
enum St { RUN, BLK, DONE };
struct Thr {
  int id;
  pthread_t pt{};
  int go = 0;
  St st = RUN;
  const void *obj = nullptr;
  uint64_t wake_at = 0;  // 0 = none
  bool timed_out = false, detached = false, reaped = false, is_main = false, cv = false;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  uint64_t prio = 0;
  uint32_t run_len = 0;
  int dtor_iter = 0;
  void *stack = nullptr;
  const char *where = "";
  const std::function<bool()> *pred = nullptr;  // must stay true once true
  VC vc;
};
static bool g_on = false;
static SchedConfig g_sc;
static std::vector<Thr *> *T = nullptr;
static thread_local Thr *me = nullptr;
static Thr *g_zombie = nullptr;
static uint64_t g_steps = 0;
static uint64_t g_pol = 0;  // policy PRNG (fresh runs only)
static bool g_pct = false;
static bool g_plain = false;  // plain accesses are scheduling steps (recorded: the numbering of steps depends on it)
static uint64_t g_low_prio = 1ull << 30;
static std::vector<uint64_t> *g_change = nullptr;
static uint64_t g_idle_jumps = 0;
static pthread_key_t g_key;
static int g_live = 0;  // threads not DONE

constexpr size_t kStack = 2u << 20;

static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
uint64_t splitmix(uint64_t &x);
static uint64_t pol() { return splitmix(g_pol); }
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

static void fwait(int *p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) rsys(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void fpost(int *p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  rsys(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
bool sched_active() { return g_on; }
void sched_advance(uint64_t ns) { sh->simtime += ns; }

// decisions are recorded under the life and its step, so that the lives of one run do not share indices
static uint64_t step_idx() { return ((uint64_t)sh->lives << 44) + g_steps * 4; }
static uint32_t decide(uint64_t slot, uint32_t n, uint32_t fresh_value) {
  // one scheduler decision, numbered by the step it is taken at
  if (n <= 1) return 0;
  uint64_t idx = step_idx() + slot;
  uint64_t save = sh->idx[SCHED];
  sh->idx[SCHED] = idx;
  uint32_t v;
  if (g_replay) {
    v = choose(SCHED, n);
  } else {
    v = fresh_value % n;
    if (v) {
      if (sh->nrec[SCHED] >= kRecCap) sh->rec_overflow = 1;
      else sh->rec[SCHED][sh->nrec[SCHED]++] = Entry{idx, v, 0};
    }
  }
  sh->idx[SCHED] = save;
  return v;
}
// 0 in replay unless recorded; used for the frequent "no decision" case
static uint32_t decide_rare(uint64_t slot, uint32_t n, bool fresh_take, uint32_t fresh_value) {
  if (g_replay) return decide(slot, n, 0);
  if (!fresh_take) return 0;
  return decide(slot, n, fresh_value);
}
// Expired timed waits end at the first step that sees them expired, whether or not that step is a decision: a replay only looks at the
// threads at the recorded decisions, and must find them in the state the recorded run saw.
static uint64_t g_next_wake = ~0ull;
static void expire_slow() {
  g_next_wake = ~0ull;
  for (auto *t : *T) {
    if (t->st != BLK || !t->wake_at) continue;
    if (t->wake_at <= sh->simtime) {
      t->st = RUN;
      t->timed_out = true;
      t->wake_at = 0;
      t->obj = nullptr;
    } else if (t->wake_at < g_next_wake) {
      g_next_wake = t->wake_at;
    }
  }
}
static inline void expire() {
  if (sh->simtime >= g_next_wake) expire_slow();
}
static void runnable(std::vector<Thr *> &o, bool with_me) {
  expire();
  // rotated from me: index 0 is me when runnable and with_me
  int n = (int)T->size();
  int s = me->id;
  for (int k = with_me ? 0 : 1; k < n + (with_me ? 0 : 0); ++k) {
    Thr *t = (*T)[(s + k) % n];
    if (t->st == BLK && t->pred && (*t->pred)()) {
      t->st = RUN;
      t->pred = nullptr;
    }
    if (t->st == RUN) o.push_back(t);
  }
}
static void reap() {
  if (g_zombie) {
    Thr *z = g_zombie;
    g_zombie = nullptr;
    static auto real = REAL(pthread_join);
    RtGuard g;
    real(z->pt, nullptr);
    z->reaped = true;
    if (z->stack) munmap(z->stack, kStack);
    z->stack = nullptr;
  }
}
static void handoff(Thr *to, bool wait) {
  if (to == me) return;
  sh->switches++;
  static bool log = getenv("SIM_SWITCHLOG") != nullptr;
  if (log) trace("switch %lu %d->%d at %lu", (unsigned long)g_steps, me->id, to->id, (unsigned long)sh->simtime);
  sh->sched_hash = (sh->sched_hash ^ (uint64_t)(to->id + 1)) * 0x100000001b3ull;
  sh->sched_hash = (sh->sched_hash ^ g_steps) * 0x100000001b3ull;
  me->run_len = 0;
  Thr *self = me;
  fpost(&to->go);
  if (wait) {
    fwait(&self->go);
    reap();
  }
}
static void dump_threads(std::string &o) {
  for (auto *t : *T) {
    if (t->st == DONE) continue;
    char b[160];
    const char *ob = "";
    snprintf(b, sizeof b, " [thread %d %s%s]", t->id, t->st == RUN ? "runnable" : "blocked in ", t->st == RUN ? "" : t->where);
    (void)ob;
    o += b;
  }
}
static Thr *choose_next(std::vector<Thr *> &c) {
  uint32_t v = 0;
  if (!g_replay && c.size() > 1) {
    if (g_pct) {
      for (uint32_t i = 1; i < c.size(); ++i)
        if (c[i]->prio > c[v]->prio) v = i;
    } else {
      v = (uint32_t)(pol() % c.size());
    }
  }
  v = decide(1, (uint32_t)c.size(), v);
  return c[v];
}
static void check_steps() {
  sh->steps = g_steps;
  if (g_steps > g_sc.max_steps) {
    std::string o;
    dump_threads(o);
    fail("NO_PROGRESS", "the run is not over after %lu scheduling steps:%s", g_steps, o.c_str());
  }
}
// me is blocked (st != RUN): run someone else; returns when me is running again
static void yield_blocked(bool exiting = false) {
  RtGuard g;
  for (;;) {
    ++g_steps;
    check_steps();
    std::vector<Thr *> c;
    runnable(c, false);
    if (c.empty() && me->st == RUN) return;
    if (!c.empty()) {
      if (me->st == RUN) c.push_back(me);
      Thr *n = choose_next(c);
      if (n == me) return;
      g_idle_jumps = 0;
      handoff(n, !exiting);
      return;
    }
    // nobody can run: let time pass
    uint64_t best = 0;
    for (auto *t : *T)
      if (t->st == BLK && t->wake_at && (!best || t->wake_at < best)) best = t->wake_at;
    if (!best) {
      std::string o;
      dump_threads(o);
      fail("DEADLOCK", "no thread can run:%s", o.c_str());
    }
    if (best > sh->simtime) sh->simtime = best;
    if (++g_idle_jumps > 200000) {
      std::string o;
      dump_threads(o);
      fail("NO_PROGRESS", "only timers fire:%s", o.c_str());
    }
  }
}
static void block_on(const void *obj, const char *where, uint64_t deadline = 0) {
  me->st = BLK;
  me->obj = obj;
  me->wake_at = deadline;
  if (deadline && deadline < g_next_wake) g_next_wake = deadline;
  me->timed_out = false;
  me->where = where;
  yield_blocked();
}
static void wake(const void *obj, int max, bool cv = false) {
  std::vector<Thr *> w;
  for (auto *t : *T)
    if (t->st == BLK && t->obj == obj && t->cv == cv) w.push_back(t);
  if (max < (int)w.size()) {
    // which ones: a decision
    for (int k = 0; k < max; ++k) {
      ++g_steps;
      uint32_t v = decide(2, (uint32_t)w.size(), g_replay ? 0 : (uint32_t)pol());
      w[v]->st = RUN;
      w[v]->obj = nullptr;
      w[v]->wake_at = 0;
      w.erase(w.begin() + v);
    }
    return;
  }
  for (auto *t : w) {
    t->st = RUN;
    t->obj = nullptr;
    t->wake_at = 0;
  }
}
enum Kind { K_SYNC, K_ATOMIC, K_PLAIN };
static void point(Kind k) {
  // t_in_rt == 0 here
  ++g_steps;
  sh->simtime += 20;
  if (g_live < 2) {
    if ((g_steps & 1023) == 0) check_steps();
    return;
  }
  expire();
  bool take = false, forced = false;
  if (++me->run_len > 3000) forced = true;
  if (!g_replay) {
    // fixed priorities can starve a thread for good when others poll; a schedule is fair in the long run
    if (g_pct && g_steps > 1000000) g_pct = false;
    if (g_pct) {
      if (!g_change->empty() && g_steps >= g_change->back()) {
        g_change->pop_back();
        me->prio = --g_low_prio;
      }
      if (k != K_PLAIN || g_sc.preempt_plain) {
        for (auto *t : *T)
          if (t->st == RUN && t->prio > me->prio) {
            take = true;
            break;
          }
      }
    } else {
      uint32_t n = k == K_SYNC ? g_sc.preempt_sync : k == K_ATOMIC ? g_sc.preempt_atomic : g_sc.preempt_plain;
      take = n && pol() % n == 0;
      if (g_steps > g_sc.max_steps / 2 && pol() % 50 == 0) take = true;
    }
  }
  if (!take && !forced && !g_replay) return;
  RtGuard g;
  if ((g_steps & 63) == 0 || forced) check_steps();
  if (forced) {
    me->run_len = 0;
    std::vector<Thr *> c;
    runnable(c, false);
    if (c.empty()) return;
    if (g_pct) me->prio = --g_low_prio;
    handoff(choose_next(c), true);
    return;
  }
  if (g_replay) {
    // only look up: most steps have no entry
    std::vector<Thr *> c;
    uint64_t idx = step_idx();
    uint64_t save = sh->idx[SCHED];
    sh->idx[SCHED] = idx;
    uint32_t v = choose(SCHED, 1u << 30);
    sh->idx[SCHED] = save;
    if (!v) return;
    runnable(c, true);
    if (c.size() < 2) return;
    handoff(c[v % c.size()], true);
    return;
  }
  std::vector<Thr *> c;
  runnable(c, true);
  if (c.size() < 2) return;
  uint32_t v = 0;
  if (g_pct) {
    for (uint32_t i = 1; i < c.size(); ++i)
      if (c[i]->prio > c[v]->prio) v = i;
  } else {
    v = 1 + (uint32_t)(pol() % (c.size() - 1));
  }
  if (!v) return;
  if (sh->nrec[SCHED] >= kRecCap) sh->rec_overflow = 1;
  else sh->rec[SCHED][sh->nrec[SCHED]++] = Entry{step_idx(), v, 0};
  handoff(c[v], true);
}
static inline bool simth() { return g_on && t_in_rt == 0 && me; }
void sched_point_sync() {
  if (simth()) point(K_SYNC);
}
void sched_sleep(uint64_t ns) {
  if (!simth()) {
    sched_advance(ns);
    return;
  }
  RtGuard g;
  ++g_steps;
  block_on(nullptr, "sleep", sh->simtime + ns + 1);
}

// ---------------------------------------------------------------- happens-before
struct SyncVar {
  VC vc;
};
static std::unordered_map<uintptr_t, VC> *g_sync = nullptr;
static void hb_release(const void *o) {
  if (!g_sc.races) return;
  VC &v = (*g_sync)[(uintptr_t)o];
  v.join(me->vc);
  me->vc.set(me->id, me->vc.get(me->id) + 1);
}
static void hb_acquire(const void *o) {
  if (!g_sc.races) return;
  auto it = g_sync->find((uintptr_t)o);
  if (it != g_sync->end()) me->vc.join(it->second);
}
void sched_hb_release(const void *o) {
  if (g_on && me) hb_release(o);
}
void sched_hb_acquire(const void *o) {
  if (g_on && me) hb_acquire(o);
}
struct Acc {
  uint32_t tid, clk;
  uint8_t mask;
  bool write;
  void *pc;
};
struct Cell {
  std::vector<Acc> a;
};
static std::unordered_map<uintptr_t, Cell> *g_cells = nullptr;
static std::string sym(void *pc) {
  Dl_info i;
  char b[300];
  if (dladdr(pc, &i) && i.dli_sname) {
    snprintf(b, sizeof b, "%.200s+0x%lx", i.dli_sname, (long)((char *)pc - (char *)i.dli_saddr));
    return b;
  }
  if (dladdr(pc, &i) && i.dli_fbase) snprintf(b, sizeof b, "exe+0x%lx", (long)((char *)pc - (char *)i.dli_fbase));
  else snprintf(b, sizeof b, "%p", pc);
  return b;
}
void race_clear(uintptr_t a, size_t n) {
  if (!g_sc.races || !g_cells || t_in_rt != t_quiet || n > (1 << 22)) return;
  RtGuard g;
  for (uintptr_t p = a & ~7ul; p < a + n; p += 8) g_cells->erase(p);
}
static void race_access(uintptr_t a, size_t n, bool w, void *pc) {
  if (g_live < 2 && T->size() < 2) return;
  RtGuard g;
  for (uintptr_t p = a & ~7ul; p < a + n; p += 8) {
    unsigned lo = p < a ? (unsigned)(a - p) : 0, hi = (unsigned)std::min<uintptr_t>(8, a + n - p);
    uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    Cell &c = (*g_cells)[p];
    for (auto &x : c.a) {
      if ((x.mask & mask) && (x.write || w) && (int)x.tid != me->id && x.clk > me->vc.get((int)x.tid))
        fail("DATA_RACE", "unsynchronised accesses by threads %u (%s in %s) and %d (%s in %s)", x.tid, x.write ? "write" : "read",
             sym(x.pc).c_str(), me->id, w ? "write" : "read", sym(pc).c_str());
    }
    std::erase_if(c.a, [&](const Acc &x) { return (int)x.tid == me->id && (x.mask & ~mask) == 0 && (w || !x.write); });
    if (c.a.size() > 8) c.a.erase(c.a.begin());
    c.a.push_back({(uint32_t)me->id, me->vc.get(me->id), mask, w, pc});
  }
}
static inline void plain(uintptr_t a, size_t n, bool w, void *pc) {
  if (!g_run_active || t_in_rt) return;
  if (g_sc.uaf && a >= g_heap_lo && a < g_heap_hi) {
    uintptr_t e = a + (n ? n - 1 : 0);
    if (g_shadow[(a - g_heap_lo) >> 4] == 2 || g_shadow[(e - g_heap_lo) >> 4] == 2) {
      RtGuard g;
      fail("USE_AFTER_FREE", "%s of freed memory in %s", w ? "write" : "read", sym(pc).c_str());
    }
  }
  if (!simth()) return;
  if (g_plain) point(K_PLAIN);
  if (g_sc.races) race_access(a, n, w, pc);
}
static void key_dtor(void *p) {
  Thr *t = (Thr *)p;
  if (++t->dtor_iter < 4) {
    pthread_setspecific(g_key, p);
    return;
  }
  // the last thing this thread does
  ++t_in_rt;
  t->st = DONE;
  --g_live;
  hb_release(t);
  wake(t, 1 << 20);
  g_zombie = t;
  // hand over without waiting
  for (;;) {
    ++g_steps;
    check_steps();
    std::vector<Thr *> c;
    runnable(c, false);
    if (!c.empty()) {
      handoff(choose_next(c), false);
      return;
    }
    uint64_t best = 0;
    for (auto *x : *T)
      if (x->st == BLK && x->wake_at && (!best || x->wake_at < best)) best = x->wake_at;
    if (!best) {
      std::string o;
      dump_threads(o);
      fail("DEADLOCK", "no thread can run:%s", o.c_str());
    }
    if (best > sh->simtime) sh->simtime = best;
  }
}
static void *trampoline(void *p) {
  Thr *t = (Thr *)p;
  ++t_in_rt;
  me = t;
  fwait(&t->go);
  reap();
  pthread_setspecific(g_key, t);
  hb_acquire((char *)t + 1);
  --t_in_rt;
  t->ret = t->fn(t->arg);
  return t->ret;
}
static Thr *find(pthread_t p) {
  for (auto *t : *T)
    if (t->pt == p && !t->is_main) return t;
  return nullptr;
}
}  // namespace in

SchedConfig &sched_config() { return g_sc; }
void sched_start(bool randomise) {
  RtGuard g;
  if (g_on) return;
  T = new std::vector<Thr *>();
  g_change = new std::vector<uint64_t>();
  g_sync = new std::unordered_map<uintptr_t, VC>();
  g_cells = new std::unordered_map<uintptr_t, Cell>();
  auto *t = new Thr();
  t->id = 0;
  t->is_main = true;
  t->pt = pthread_self();
  t->vc.set(0, 1);
  T->push_back(t);
  me = t;
  g_live = 1;
  g_pol = sh->prng[SCHED];
  if (randomise) {
    static const uint32_t ps[] = {2, 4, 10, 40, 150}, pa[] = {0, 5, 20, 80, 400}, pp[] = {0, 0, 0, 60, 400, 3000};
    g_sc.preempt_sync = ps[pol() % 5];
    g_sc.preempt_atomic = pa[pol() % 5];
    g_sc.preempt_plain = pp[pol() % 6];
    g_sc.spurious = pol() % 3 == 0 ? 10 : 0;
    g_pct = pol() % 3 == 0;
    if (g_pct) {
      static const uint64_t est[] = {100, 1000, 10000, 60000};
      uint64_t e = est[pol() % 4];
      uint32_t d = 1 + pol() % 6;
      for (uint32_t i = 0; i < d; ++i) g_change->push_back(pol() % e);
      std::sort(g_change->rbegin(), g_change->rend());
    }
  }
  g_plain = decide(1, 2, g_sc.preempt_plain != 0);
  t->prio = (1ull << 40) + pol() % 1000000;
  static bool key = false;
  if (!key) pthread_key_create(&g_key, key_dtor);
  key = true;
  g_on = true;
  g_run_active = true;
}
uint64_t step() { return g_steps; }
int self() { return me ? me->id : 0; }
void idle_until(const std::function<bool()> &pred) {
  if (!simth()) return;
  RtGuard g;
  ++g_steps;
  if (pred()) return;
  me->pred = &pred;
  block_on(nullptr, "harness wait");
}
void yield() {
  if (!simth()) return;
  RtGuard g;
  ++g_steps;
  sh->simtime += 100;
  check_steps();
  std::vector<Thr *> c;
  runnable(c, false);
  if (c.empty()) {
    uint64_t best = 0;
    for (auto *x : *T)
      if (x->st == BLK && x->wake_at && (!best || x->wake_at < best)) best = x->wake_at;
    if (best > sh->simtime) sh->simtime = best;
    return;
  }
  if (g_pct) me->prio = --g_low_prio;
  handoff(choose_next(c), true);
}
}  // namespace sim

using namespace sim;
using namespace sim::in;
// ================================================================ pthread interposition
namespace {
struct Mx {
  int owner = -1;
  int rec = 0;
};
struct Rw {
  int writer = -1;
  int readers = 0;
  int wait_w = 0;
};
std::unordered_map<uintptr_t, Mx> *g_mx;
std::unordered_map<uintptr_t, Rw> *g_rw;
std::unordered_map<uintptr_t, int> *g_sem;
Mx &mx(const void *p) {
  if (!g_mx) g_mx = new std::unordered_map<uintptr_t, Mx>();
  return (*g_mx)[(uintptr_t)p];
}
Rw &rw(const void *p) {
  if (!g_rw) g_rw = new std::unordered_map<uintptr_t, Rw>();
  return (*g_rw)[(uintptr_t)p];
}
uint64_t abs_to_sim(clockid_t id, const struct timespec *t) {
  struct timespec n;
  // current virtual time on that clock
  --t_in_rt;
  clock_gettime(id, &n);
  ++t_in_rt;
  int64_t d = (t->tv_sec - n.tv_sec) * 1000000000ll + (t->tv_nsec - n.tv_nsec);
  if (d < 1) d = 1;
  return sh->simtime + d;
}
int mlock(pthread_mutex_t *m, uint64_t deadline) {
  point(K_SYNC);
  RtGuard g;
  for (;;) {
    Mx &x = mx(m);
    if (x.owner < 0) {
      x.owner = me->id;
      hb_acquire(m);
      return 0;
    }
    if (x.owner == me->id) {
      if (m->__data.__kind & 3 & PTHREAD_MUTEX_RECURSIVE_NP) {
        x.rec++;
        return 0;
      }
      if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
      if (!deadline) fail("SELF_DEADLOCK", "a thread locks a mutex it already holds");
    }
    block_on(m, "mutex", deadline);
    if (me->timed_out) return ETIMEDOUT;
  }
}
int munlock(pthread_mutex_t *m) {
  {
    RtGuard g;
    Mx &x = mx(m);
    if (x.rec > 0) {
      x.rec--;
      return 0;
    }
    hb_release(m);
    x.owner = -1;
    wake(m, 1 << 20);
  }
  point(K_SYNC);
  return 0;
}
int cwait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
  point(K_SYNC);
  int r = 0;
  {
    RtGuard g;
    Mx &x = mx(m);
    int rec = x.rec;
    x.rec = 0;
    hb_release(m);
    x.owner = -1;
    wake(m, 1 << 20);
    ++g_steps;
    bool spur = decide_rare(3, 2, g_sc.spurious && pol() % g_sc.spurious == 0, 1);
    if (spur) {
      count("spurious_wakeup");
      me->st = RUN;
      std::vector<Thr *> cnd;
      runnable(cnd, false);
      ++g_steps;
      if (!cnd.empty()) handoff(choose_next(cnd), true);
    } else {
      me->cv = true;
      block_on(c, "condition variable", deadline);
      me->cv = false;
      if (me->timed_out) r = ETIMEDOUT;
    }
    for (;;) {
      Mx &y = mx(m);
      if (y.owner < 0) {
        y.owner = me->id;
        y.rec = rec;
        hb_acquire(m);
        break;
      }
      block_on(m, "mutex after wait");
    }
  }
  return r;
}
int rdlock(pthread_rwlock_t *l, bool tryl, uint64_t deadline) {
  point(K_SYNC);
  RtGuard g;
  for (;;) {
    Rw &x = rw(l);
    if (x.writer < 0) {
      x.readers++;
      hb_acquire(l);
      return 0;
    }
    if (tryl) return EBUSY;
    block_on(l, "rwlock read", deadline);
    if (me->timed_out) return ETIMEDOUT;
  }
}
int wrlock(pthread_rwlock_t *l, bool tryl, uint64_t deadline) {
  point(K_SYNC);
  RtGuard g;
  for (;;) {
    Rw &x = rw(l);
    if (x.writer < 0 && x.readers == 0) {
      x.writer = me->id;
      hb_acquire(l);
      hb_acquire((char *)l + 1);
      return 0;
    }
    if (tryl) return EBUSY;
    if (x.writer == me->id) return EDEADLK;
    block_on(l, "rwlock write", deadline);
    if (me->timed_out) return ETIMEDOUT;
  }
}
}  // namespace
extern "C" {
int pthread_create(pthread_t *o, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  static auto real = REAL(pthread_create);
  if (!simth()) return real(o, a, fn, arg);
  point(K_SYNC);
  if (fault_thread()) return EAGAIN;
  {
    RtGuard g;
    auto *t = new Thr();
    t->id = (int)T->size();
    t->fn = fn;
    t->arg = arg;
    t->prio = (1ull << 40) + (g_replay ? 0 : pol() % 1000000);
    int dt = PTHREAD_CREATE_JOINABLE;
    if (a) pthread_attr_getdetachstate(a, &dt);
    t->detached = dt == PTHREAD_CREATE_DETACHED;
    void *want = (void *)(0x400000000000ull + (uint64_t)t->id * (kStack + 65536));
    t->stack = mmap(want, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (t->stack == MAP_FAILED) internal_error("thread stack");
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t->stack, kStack);
    t->vc.join(me->vc);
    t->vc.set(t->id, 1);
    me->vc.set(me->id, me->vc.get(me->id) + 1);
    T->push_back(t);
    ++g_live;
    int r = real(&t->pt, &at, trampoline, t);
    if (r) internal_error("pthread_create %d", r);
    *o = t->pt;
  }
  point(K_SYNC);
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  static auto real = REAL(pthread_join);
  if (!simth()) return real(p, ret);
  point(K_SYNC);
  RtGuard g;
  Thr *t = find(p);
  if (!t) internal_error("join of an unknown thread");
  while (t->st != DONE) block_on(t, "join");
  reap();
  hb_acquire(t);
  if (ret) *ret = t->ret;
  t->pt = 0;
  return 0;
}
int pthread_detach(pthread_t p) {
  static auto real = REAL(pthread_detach);
  if (!simth()) return real(p);
  RtGuard g;
  if (Thr *t = find(p)) t->detached = true;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  static auto real = REAL(pthread_mutex_lock);
  if (!simth()) return g_on ? 0 : real(m);
  return mlock(m, 0);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static auto real = REAL(pthread_mutex_trylock);
  if (!simth()) return g_on ? 0 : real(m);
  point(K_SYNC);
  RtGuard g;
  Mx &x = mx(m);
  if (x.owner < 0) {
    x.owner = me->id;
    hb_acquire(m);
    return 0;
  }
  if (x.owner == me->id && (m->__data.__kind & 3 & PTHREAD_MUTEX_RECURSIVE_NP)) {
    x.rec++;
    return 0;
  }
  return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static auto real = REAL(pthread_mutex_unlock);
  if (!simth()) return g_on ? 0 : real(m);
  return munlock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  static auto real = REAL(pthread_mutex_timedlock);
  if (!simth()) return real(m, t);
  uint64_t d;
  {
    RtGuard g;
    d = abs_to_sim(CLOCK_REALTIME, t);
  }
  return mlock(m, d);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t id, const struct timespec *t) {
  if (!simth()) return pthread_mutex_timedlock(m, t);
  uint64_t d;
  {
    RtGuard g;
    d = abs_to_sim(id, t);
  }
  return mlock(m, d);
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  static auto real = REAL(pthread_mutex_init);
  if (g_mx) {
    RtGuard g;
    g_mx->erase((uintptr_t)m);
  }
  return real(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (g_mx) {
    RtGuard g;
    g_mx->erase((uintptr_t)m);
  }
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset((void *)c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto real = REAL(pthread_cond_wait);
  if (!simth()) return real(c, m);
  return cwait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  static auto real = REAL(pthread_cond_timedwait);
  if (!simth()) return real(c, m, t);
  uint64_t d;
  {
    RtGuard g;
    d = abs_to_sim(CLOCK_REALTIME, t);
  }
  return cwait(c, m, d);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t) {
  static auto real = REAL(pthread_cond_clockwait);
  if (!simth()) return real(c, m, id, t);
  uint64_t d;
  {
    RtGuard g;
    d = abs_to_sim(id, t);
  }
  return cwait(c, m, d);
}
int pthread_cond_signal(pthread_cond_t *c) {
  static auto real = REAL(pthread_cond_signal);
  if (!simth()) return g_on ? 0 : real(c);
  {
    RtGuard g;
    wake(c, 1, true);
  }
  point(K_SYNC);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  static auto real = REAL(pthread_cond_broadcast);
  if (!simth()) return g_on ? 0 : real(c);
  {
    RtGuard g;
    wake(c, 1 << 20, true);
  }
  point(K_SYNC);
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
  memset((void *)l, 0, sizeof *l);
  if (g_rw) {
    RtGuard g;
    g_rw->erase((uintptr_t)l);
  }
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (g_rw) {
    RtGuard g;
    g_rw->erase((uintptr_t)l);
  }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  static auto real = REAL(pthread_rwlock_rdlock);
  if (!simth()) return g_on ? 0 : real(l);
  return rdlock(l, false, 0);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  static auto real = REAL(pthread_rwlock_tryrdlock);
  if (!simth()) return g_on ? 0 : real(l);
  return rdlock(l, true, 0);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  static auto real = REAL(pthread_rwlock_wrlock);
  if (!simth()) return g_on ? 0 : real(l);
  return wrlock(l, false, 0);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  static auto real = REAL(pthread_rwlock_trywrlock);
  if (!simth()) return g_on ? 0 : real(l);
  return wrlock(l, true, 0);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  static auto real = REAL(pthread_rwlock_unlock);
  if (!simth()) return g_on ? 0 : real(l);
  {
    RtGuard g;
    Rw &x = rw(l);
    if (x.writer == me->id) {
      hb_release(l);
      x.writer = -1;
    } else if (x.readers > 0) {
      hb_release((char *)l + 1);
      x.readers--;
    }
    wake(l, 1 << 20);
  }
  point(K_SYNC);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  // the state lives in the control itself (0 new, 1 running, 2 done), so it ends with the memory it is in
  for (;;) {
    if (*o == 2) {
      if (simth()) {
        RtGuard g;
        hb_acquire(o);
      }
      return 0;
    }
    if (*o == 0) break;
    if (!simth()) return 0;
    RtGuard g;
    block_on(o, "once");
  }
  *o = 1;
  try {
    f();
  } catch (...) {
    RtGuard g;
    *o = 0;
    if (g_on && me) wake(o, 1 << 20);
    throw;
  }
  {
    RtGuard g;
    *o = 2;
    if (g_on && me) {
      hb_release(o);
      wake(o, 1 << 20);
    }
  }
  return 0;
}
int __cxa_guard_acquire(long long *gv) {
  unsigned char *b = (unsigned char *)gv;
  for (;;) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) {
      if (simth()) {
        RtGuard g;
        hb_acquire(gv);
      }
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!simth()) return 1;
    RtGuard g;
    block_on(gv, "static initialisation");
  }
}
void __cxa_guard_release(long long *gv) {
  unsigned char *b = (unsigned char *)gv;
  b[1] = 0;
  if (simth()) {
    RtGuard g;
    hb_release(gv);
    wake(gv, 1 << 20);
  }
  __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long *gv) {
  unsigned char *b = (unsigned char *)gv;
  b[1] = 0;
  if (simth()) {
    RtGuard g;
    wake(gv, 1 << 20);
  }
}
int sched_yield(void) noexcept {
  if (!simth()) return (int)rsys(SYS_sched_yield);
  sim::yield();
  return 0;
}
int sem_init(sem_t *s, int, unsigned v) noexcept {
  RtGuard g;
  if (!g_sem) g_sem = new std::unordered_map<uintptr_t, int>();
  (*g_sem)[(uintptr_t)s] = (int)v;
  return 0;
}
int sem_destroy(sem_t *) noexcept { return 0; }
int sem_post(sem_t *s) noexcept {
  if (!g_sem) return 0;
  {
    RtGuard g;
    (*g_sem)[(uintptr_t)s]++;
    if (g_on && me) {
      hb_release(s);
      wake(s, 1 << 20);
    }
  }
  if (simth()) point(K_SYNC);
  return 0;
}
static int sem_wait_impl(sem_t *s, bool tr, uint64_t deadline) {
  if (simth()) point(K_SYNC);
  RtGuard g;
  for (;;) {
    int &v = (*g_sem)[(uintptr_t)s];
    if (v > 0) {
      --v;
      if (g_on && me) hb_acquire(s);
      return 0;
    }
    if (tr || !g_on) {
      errno = EAGAIN;
      return -1;
    }
    block_on(s, "semaphore", deadline);
    if (me->timed_out) {
      errno = ETIMEDOUT;
      return -1;
    }
  }
}
int sem_wait(sem_t *s) { return sem_wait_impl(s, false, 0); }
int sem_trywait(sem_t *s) noexcept { return sem_wait_impl(s, true, 0); }
int sem_clockwait(sem_t *s, clockid_t id, const struct timespec *t) {
  uint64_t d;
  {
    RtGuard g;
    d = abs_to_sim(id, t);
  }
  return sem_wait_impl(s, false, d);
}
int sem_timedwait(sem_t *s, const struct timespec *t) { return sem_clockwait(s, CLOCK_REALTIME, t); }
// futex through syscall(): std::atomic wait/notify
long sim_futex(uint32_t *a, int op, uint32_t val, const struct timespec *ts, uint32_t *, uint32_t) {
  if (!simth()) return 0;
  point(K_SYNC);
  RtGuard g;
  switch (op & 0x7f) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) {
        errno = EAGAIN;
        return -1;
      }
      uint64_t dl = 0;
      if (ts) dl = (op & 0x7f) == FUTEX_WAIT ? sh->simtime + ts->tv_sec * 1000000000ull + ts->tv_nsec + 1
                                             : abs_to_sim(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      block_on(a, "atomic wait", dl);
      if (me->timed_out) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: wake(a, (int)std::min<uint32_t>(val, 1 << 20)); return 1;
    default: return 0;
  }
}

// ================================================================ thread-sanitizer ABI
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void **a, void *) { plain((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { plain((uintptr_t)a, 8, false, PC); }
#define RWN(n)                                                                       \
  void __tsan_read##n(void *a) { plain((uintptr_t)a, n, false, PC); }                \
  void __tsan_write##n(void *a) { plain((uintptr_t)a, n, true, PC); }                \
  void __tsan_unaligned_read##n(void *a) { plain((uintptr_t)a, n, false, PC); }      \
  void __tsan_unaligned_write##n(void *a) { plain((uintptr_t)a, n, true, PC); }      \
  void __tsan_volatile_read##n(void *a) { plain((uintptr_t)a, n, false, PC); }       \
  void __tsan_volatile_write##n(void *a) { plain((uintptr_t)a, n, true, PC); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
void __tsan_read_range(void *a, size_t n) { plain((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { plain((uintptr_t)a, n, true, PC); }
void *sim_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    plain((uintptr_t)s, n, false, PC);
    plain((uintptr_t)d, n, true, PC);
  }
  return memcpy(d, s, n);
}
void __tsan_acquire(void *a) {
  if (!simth()) return;
  RtGuard g;
  hb_acquire(a);
}
void __tsan_release(void *a) {
  if (!simth()) return;
  RtGuard g;
  hb_release(a);
}
void *sim_memmove(void *d, const void *s, size_t n) {
  if (n) {
    plain((uintptr_t)s, n, false, PC);
    plain((uintptr_t)d, n, true, PC);
  }
  return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
  if (n) plain((uintptr_t)d, n, true, PC);
  return memset(d, c, n);
}
}
static inline void at_pre(const volatile void *a, void *pc) {
  if (!g_run_active || t_in_rt) return;
  if (g_sc.uaf && (uintptr_t)a >= g_heap_lo && (uintptr_t)a < g_heap_hi && g_shadow[((uintptr_t)a - g_heap_lo) >> 4] == 2) {
    RtGuard g;
    fail("USE_AFTER_FREE", "atomic access to freed memory in %s", sym(pc).c_str());
  }
  if (simth()) point(K_ATOMIC);
}
static inline void at_acq(const volatile void *a, int mo) {
  if (g_sc.races && simth() && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) {
    RtGuard g;
    hb_acquire((const void *)a);
  }
}
static inline void at_rel(const volatile void *a, int mo, bool rmw = false) {
  if (g_sc.races && simth() && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) {
    RtGuard g;
    hb_release((const void *)a);
  }
  (void)rmw;
}
extern "C" {
#define ATOM(N, T)                                                                                             \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) {                                                     \
    at_pre(a, PC);                                                                                             \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                \
    at_acq(a, mo);                                                                                             \
    return v;                                                                                                  \
  }                                                                                                            \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) {                                                  \
    at_pre(a, PC);                                                                                             \
    at_rel(a, mo);                                                                                             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                            \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                                                  \
    at_pre(a, PC);                                                                                             \
    at_acq(a, mo);                                                                                             \
    at_rel(a, mo);                                                                                             \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) {                      \
    at_pre(a, PC);                                                                                             \
    bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
    at_acq(a, mo);                                                                                             \
    if (r) at_rel(a, mo);                                                                                      \
    return r;                                                                                                  \
  }                                                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) {                        \
    at_pre(a, PC);                                                                                             \
    bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
    at_acq(a, mo);                                                                                             \
    if (r) at_rel(a, mo);                                                                                      \
    return r;                                                                                                  \
  }                                                                                                            \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) {                            \
    at_pre(a, PC);                                                                                             \
    bool r = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                 \
    at_acq(a, mo);                                                                                             \
    if (r) at_rel(a, mo);                                                                                      \
    return c;                                                                                                  \
  }
#define ATOMF(N, T, op)                                                   \
  T __tsan_atomic##N##_fetch_##op(volatile T *a, T v, int mo) {           \
    at_pre(a, PC);                                                        \
    at_acq(a, mo);                                                        \
    at_rel(a, mo);                                                        \
    return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                   \
  }
#define ALLF(N, T) ATOMF(N, T, add) ATOMF(N, T, sub) ATOMF(N, T, and) ATOMF(N, T, or) ATOMF(N, T, xor) ATOMF(N, T, nand)
ATOM(8, uint8_t) ALLF(8, uint8_t)
ATOM(16, uint16_t) ALLF(16, uint16_t)
ATOM(32, uint32_t) ALLF(32, uint32_t)
ATOM(64, uint64_t) ALLF(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  if (simth()) {
    point(K_ATOMIC);
    RtGuard g;
    hb_acquire(&g_on);
    hb_release(&g_on);
  }
}
void __tsan_atomic_signal_fence(int) {}
}
