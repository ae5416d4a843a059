// A small OpenMP runtime on plain threads, so that the seeded scheduler decides how a parallel region interleaves.
// Teams are started anew for every region; a loop's chunks may be scaled down (omp_sim::chunk) so that small inputs
// are shared between the threads too.
#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace omp_sim {
inline long chunk = 0;        // 0: as the program says
inline int max_team = 64;     // the runtime may deliver fewer threads than asked for
inline int default_threads = 4;
inline std::atomic<uint64_t> regions{0}, parallel_regions{0};
struct Loop {
  std::atomic<long> next{0};
  long end = 0, incr = 1, chunk = 1;
};
struct Team {
  int n = 1;
  std::mutex m;
  std::condition_variable cv;
  int arrived = 0;
  uint64_t gen = 0;
  std::deque<Loop> loops;  // work-sharing loops in the order the threads meet them
  void barrier() {
    std::unique_lock<std::mutex> l(m);
    uint64_t g = gen;
    if (++arrived == n) {
      arrived = 0;
      ++gen;
      cv.notify_all();
      return;
    }
    cv.wait(l, [&] { return gen != g; });
  }
};
struct Self {
  Team *team = nullptr;
  int id = 0;
  uint64_t loops = 0;
  Loop *cur = nullptr;
};
inline thread_local Self self;
inline std::mutex critical;
inline void region(void (*fn)(void *), void *data, unsigned want, Team &t) {
  int n = want ? (int)want : default_threads;
  if (self.team) n = 1;  // nested regions are serial by default
  if (n > max_team) n = max_team;
  t.n = n;
  ++regions;
  if (n > 1) ++parallel_regions;
  Self keep = self;
  size_t first = t.loops.size();
  std::vector<std::thread> th;
  for (int i = 1; i < n; ++i)
    th.emplace_back([&t, fn, data, i, first] {
      self = Self{&t, i, first, first ? &t.loops.front() : nullptr};
      fn(data);
    });
  self = Self{&t, 0, first, first ? &t.loops.front() : nullptr};
  fn(data);
  for (auto &x : th) x.join();
  self = keep;
}
inline bool next(long *a, long *b) {
  Loop &t = *self.cur;
  long step = t.chunk * t.incr;
  long s = t.next.fetch_add(step);
  if (t.incr > 0 ? s >= t.end : s <= t.end) return false;
  long e = s + step;
  if (t.incr > 0 ? e > t.end : e < t.end) e = t.end;
  *a = s;
  *b = e;
  return true;
}
inline void setup(Loop &t, long a, long b, long incr, long c) {
  t.next = a;
  t.end = b;
  t.incr = incr;
  t.chunk = chunk && c > chunk ? chunk : c > 0 ? c : 1;
}
}  // namespace omp_sim
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  omp_sim::Team t;
  omp_sim::region(fn, data, n, t);
}
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *data, unsigned n, long a, long b, long incr, long c, unsigned) {
  omp_sim::Team t;
  t.loops.emplace_back();
  omp_sim::setup(t.loops.back(), a, b, incr, c);
  omp_sim::region(fn, data, n, t);
}
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *data, unsigned n, long a, long b, long incr, long c, unsigned f) {
  GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, n, a, b, incr, c, f);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long incr, long c, long *x, long *y) {
  auto &s = omp_sim::self;
  {
    std::lock_guard<std::mutex> l(s.team->m);
    if (s.loops == s.team->loops.size()) {
      s.team->loops.emplace_back();
      omp_sim::setup(s.team->loops.back(), a, b, incr, c);
    }
    s.cur = &s.team->loops[s.loops++];
  }
  return omp_sim::next(x, y);
}
bool GOMP_loop_dynamic_start(long a, long b, long incr, long c, long *x, long *y) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, incr, c, x, y); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return omp_sim::next(a, b); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return omp_sim::next(a, b); }
void GOMP_loop_end() { omp_sim::self.team->barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() {
  if (omp_sim::self.team) omp_sim::self.team->barrier();
}
void GOMP_critical_start() { omp_sim::critical.lock(); }
void GOMP_critical_end() { omp_sim::critical.unlock(); }
int omp_get_thread_num() noexcept { return omp_sim::self.id; }
int omp_get_num_threads() noexcept { return omp_sim::self.team ? omp_sim::self.team->n : 1; }
int omp_get_max_threads() noexcept { return omp_sim::default_threads; }
int omp_get_num_procs() noexcept { return 4; }
void omp_set_num_threads(int n) noexcept {
  if (n > 0) omp_sim::default_threads = n;
}
int omp_in_parallel() noexcept { return omp_sim::self.team && omp_sim::self.team->n > 1; }
}
