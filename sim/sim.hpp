// Deterministic simulator: public interface for harnesses.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream : int { WORK = 0, SCHED = 1, FAULT = 2, CRASH = 3, NSTREAM = 4 };

// Uniform value in [0,n); 0 is the simplest value (minimisation drives choices to 0).
uint32_t choose(Stream s, uint32_t n);
// true with probability num/den; false is the simple value.
bool chance(Stream s, uint32_t num, uint32_t den);
// Weighted pick: index into weights (0 first).  Recorded as the index.
uint32_t pick(Stream s, std::initializer_list<uint32_t> weights);
// All later draws of stream s are numbered from a base of their own, so that removing the draws of one operation
// leaves the numbering of the others alone.
void op_scope(uint32_t op);
// size-ish draw: small values likelier
uint32_t small(Stream s, uint32_t max);

// Raw PRNG for payload contents (function of its argument only).
uint64_t mix(uint64_t x);

// ---------------------------------------------------------------- run control
// Report a violation and end the run.  cls: short class (kept during minimisation); the text is free.
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Free text event, part of the recorded history and of the determinism hash.
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// As note(), but kept out of the hash.
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Mix a value in the run's behaviour hash.
void hash(uint64_t v);
// Probe / fault counters (reported in the evidence).
void count(const char *name, uint64_t n = 1);
// mark the run as non-trivial (by the harness's rule)
void nontrivial();
// count of sub-evaluations (e.g. oracle comparisons)
void checked(uint64_t n = 1);
bool is_replay();
bool thorough();

// ---------------------------------------------------------------- lives (crash + restart)
struct LifeResult {
  enum Kind { CLEAN, CRASHED } kind;
  std::vector<std::string> events;  // emit()ted by the life, in order
};
// Runs body in a forked process.  The life ends cleanly when body returns, or by a simulated crash.  A violation or
// an unexpected death (signal, terminate) inside ends the whole run as a violation.
LifeResult run_life(const std::function<void()> &body);
void emit(const std::string &ev);
template <class... A>
inline void emitf(const char *f, A... a) {
  char b[512];
  snprintf(b, sizeof b, f, a...);
  emit(b);
}

// ---------------------------------------------------------------- filesystem
// The root directory of the simulated file system of this run (exists, empty at the start of the run).
const char *root();
struct FsConfig {
  bool faults = false;      // allow injected errors at armed points
  bool posix_dirs = true;   // crash images may lose directory entries not covered by a directory sync
  bool kill_only = false;   // crashes are process kills: everything written stays
  uint32_t split_io = 0;    // 1/n: a positioned read or write is not atomic (others run between its two parts)
};
FsConfig &fs_config();
// Activates the file model in this process (a run that is one life).
void fs_enable();
// A crash happens at the n-th mutating file operation from now (1 = the next one); 0 disarms.
void arm_crash(uint32_t n);
// crash right now
[[noreturn]] void crash_now();
// The n-th matching file operation from now fails; kind selects the class of operation.
enum FaultKind : int {
  F_NONE = 0, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EINTR, F_FSYNC_EIO, F_OPEN_EIO, F_OPEN_EMFILE,
  F_RENAME_EIO, F_MKDIR_EIO, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_UNLINK_EIO, F_TRUNC_EIO, F_CLOSE_EIO, F_LINK_EIO,
  F_LOCK_EINTR, F_LOCK_EIO, F_MMAP_ENOMEM, F_THREAD_EAGAIN,
  F_AIO_PARTIAL, F_AIO_EAGAIN, F_AIO_EINTR, F_AIO_WAIT_EINTR, F_AIO_WAIT_PARTIAL, F_AIO_EIO, F_AIO_SHORT, F_AIO_SETUP,
  F_AIO_ERROR,
  F_STAT_EIO,
  F_KINDS
};
extern const char *fault_names[];
// Arm: the n-th (from 1) op that kind applies to fails, and the `burst-1` following ones too (burst 0 = until disarmed).
void arm_fault(FaultKind k, uint32_t n, uint32_t burst);
void disarm_faults();
uint64_t faults_fired();           // total number of injected faults so far in this life
uint64_t fs_ops();                 // mutating ops so far in this life
// Only paths containing this substring get faults ("" = all).
void fault_path_filter(const std::string &sub);

// ---------------------------------------------------------------- asynchronous I/O (only with aio.cpp)
// The device behind libaio and io_uring.  Requests complete after a drawn delay, in any order.  Each rate is 1/n (0 = never).
struct AioConfig {
  uint64_t max_delay_ns = 100000;
  uint32_t partial = 0;     // a submission takes only some of the requests
  uint32_t again = 0;       // a submission is refused with EAGAIN for now
  uint32_t eintr = 0;       // a submission or a wait is interrupted
  uint32_t wait_partial = 0;// an interrupted wait returns what it has
  uint32_t eio = 0;         // a request fails
  uint32_t shortr = 0;      // a request transfers less than asked for
  uint32_t setup = 0;       // a context cannot be created
  uint32_t error = 0;       // a submission fails for good (after taking some of the requests)
  bool hold = false;        // accepted requests stay in flight until aio_release()
};
AioConfig &aio_config();
struct AioOp {
  uint64_t tag;      // user data of the request
  bool write;
  int fd;
  void *buf;
  uint64_t len, off;
  int64_t res;       // true result, valid when done
  bool done;
  uint64_t ctx;      // number of the context
};
const std::vector<AioOp> &aio_log();   // every accepted request of this process, in order of acceptance
void aio_release();                    // ends the hold: held requests complete from now on
size_t aio_contexts();                 // contexts not destroyed
uint64_t aio_faults(bool all = false); // contexts refused and submissions failed for good, by the calling thread (or all) so far
size_t uring_rings();                  // rings not closed (only with uring.cpp)

// ---------------------------------------------------------------- threads (only with sched.cpp)
struct SchedConfig {
  uint32_t preempt_sync = 0;    // preempt with probability 1/n at sync operations (0 = never)
  uint32_t preempt_atomic = 0;  // at atomics
  uint32_t preempt_plain = 0;   // at plain accesses
  uint32_t spurious = 0;        // 1/n: spurious condvar wakeups
  uint64_t max_steps = 3000000;
  bool races = false;           // report data races
  bool uaf = true;              // report accesses to freed heap memory
  uint32_t priority_bias = 0;   // PCT-like: number of priority change points
};
SchedConfig &sched_config();
void sched_start(bool randomise = true);  // draws swarm parameters (when randomise) and activates the scheduler
// Harness bookkeeping that is not part of the simulated program: no scheduling points, no race checks, no faults.
void quiet(int delta);
struct Quiet {
  Quiet() { quiet(1); }
  ~Quiet() { quiet(-1); }
};
uint64_t now_ns();
uint64_t step();             // global event sequence number
void yield();
int self();
void idle_until(const std::function<bool()> &pred);  // scheduler-level wait (polled at every switch)

// allocation faults: the n-th heap allocation by instrumented code from now throws bad_alloc
void arm_alloc_fail(uint32_t n, bool every_thread = false);
void disarm_alloc_fail();
bool alloc_fail_fired();

}  // namespace sim

// ---------------------------------------------------------------- to be provided by the harness
extern const char *sim_harness_name;
// One run; returns when it is over (no violation).
void sim_run();
// Called once per process before any run (no simulation active): load data, build shared fixtures.
void sim_prepare();
namespace sim {
void clock_jump(int64_t ns);
void clock_freeze(bool f);
const char *mode();
}
