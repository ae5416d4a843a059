// Internals shared by the simulator's translation units.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include "sim.hpp"

namespace sim::in {
bool fault_thread();

struct Entry {
  uint64_t idx;
  uint32_t val;
  uint32_t pad;
};
constexpr size_t kRecCap = 400000;
constexpr size_t kLogCap = 4u << 20;
constexpr size_t kTraceCap = 512u << 10;
constexpr int kCounters = 256;

struct Counter {
  char name[48];
  uint64_t v;
};

struct Shared {
  uint32_t status;  // 0 running, 1 finished, 2 violation, 3 internal error
  char cls[64];
  char msg[4096];
  uint64_t hash;
  uint64_t sched_hash;
  uint64_t prng[NSTREAM];
  uint64_t idx[NSTREAM];
  uint64_t nrec[NSTREAM];
  uint64_t lives, crashes, checks, nontriv, switches, steps, simtime;
  uint64_t faults[F_KINDS];
  uint32_t ncounters;
  Counter counters[kCounters];
  uint64_t log_len;
  uint64_t trace_len;
  uint64_t rec_overflow;
  Entry rec[NSTREAM][kRecCap];
  char log[kLogCap];
  char tr[kTraceCap];
};
extern Shared *sh;
extern bool g_replay;
extern bool g_verbose;
extern thread_local int t_in_rt;   // >0: hooks pass through
extern thread_local int t_quiet;   // the part of t_in_rt that is harness bookkeeping
extern bool g_run_active;          // inside a run (interposition on)

struct RtGuard {
  RtGuard() { ++t_in_rt; }
  ~RtGuard() { --t_in_rt; }
};
inline bool hooked() { return g_run_active && t_in_rt == 0; }

void mix_hash(uint64_t v);
[[noreturn]] void die(int code);   // _exit without cleanup
[[noreturn]] void internal_error(const char *fmt, ...);

// fs.cpp
void fs_run_begin(const std::string &root);  // start of a run
void fs_life_begin();                        // in the life process
[[noreturn]] void fs_materialise_and_exit();
void fs_life_end_clean();
extern bool g_fs_on;
int dev_hold(int fd);
void dev_drop(int fd);
int64_t dev_rw(bool write, int fd, void *b, size_t n, int64_t off);
void sched_sleep(uint64_t ns);
// sched.cpp (weak stubs in core.cpp)
void sched_point_sync();
void sched_hb_release(const void *);
void sched_hb_acquire(const void *);
bool sched_active();
void sched_advance(uint64_t ns);

// heap (core.cpp)
extern uintptr_t g_heap_lo, g_heap_hi;
extern uint8_t *g_shadow;  // one byte per 16 heap bytes: 1 live, 2 freed
void race_clear(uintptr_t a, size_t n);  // tsan.cpp or weak stub

constexpr int kExitViolation = 70, kExitCrash = 77, kExitInternal = 79, kExitOk = 0;
}  // namespace sim::in
