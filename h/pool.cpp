// C19: utils/thread_pool.hpp under every thread schedule.
#include <atomic>
#include <memory>
#include <stdexcept>
#include "utils/thread_pool.hpp"
#include "../sim/sim.hpp"
using namespace sim;
const char *sim_harness_name = "pool";
void sim_prepare() {}

namespace {
struct Task {
  int runs = 0;
  bool done = false;
  bool throws = false;
  uint64_t value = 0;
  uint64_t end_step = 0;
};
struct Round {
  std::vector<std::unique_ptr<Task>> t;
  std::vector<std::future<uint64_t>> f;
};

uint64_t body(Task *t, int spins) {
  t->runs++;
  if (t->runs > 1) fail("RAN_TWICE", "a task was run %d times", t->runs);
  for (int i = 0; i < spins; ++i) yield();
  t->done = true;
  t->end_step = step();
  if (t->throws) throw std::runtime_error("task");
  return t->value;
}

void enqueue(alaya::ThreadPool &p, Round &r) {
  auto t = std::make_unique<Task>();
  t->value = choose(WORK, 1000);
  t->throws = chance(WORK, 1, 5);
  int spins = chance(WORK, 1, 3) ? (int)choose(WORK, 6) : 0;
  Task *raw = t.get();
  r.t.push_back(std::move(t));
  r.f.push_back(p.enqueue(body, raw, spins));
}

void check_future(Round &r, size_t i) {
  Task &t = *r.t[i];
  checked();
  try {
    uint64_t v = r.f[i].get();
    if (t.throws) fail("FUTURE", "the future of a task that threw has a value");
    if (v != t.value) fail("FUTURE", "the future holds %lu, the task returned %lu", v, t.value);
  } catch (const std::runtime_error &e) {
    if (!t.throws) fail("FUTURE", "the future of a task that returned holds an exception: %s", e.what());
  } catch (const std::future_error &e) {
    fail("FUTURE", "the future of an accepted task is broken: %s", e.what());
  }
  if (t.runs != 1) fail("RUN_COUNT", "the future is ready but the task ran %d times", t.runs);
}
}  // namespace

void sim_run() {
  sched_start();
  int workers = 1 + (int)choose(WORK, 4);
  int rounds = 1 + (int)choose(WORK, 3);
  int submitters = 1 + (int)pick(WORK, {3, 1, 1});
  bool extra_waiter = chance(WORK, 1, 3);
  bool more_tasks = chance(WORK, 1, 4);
  std::vector<Round> rs;
  rs.reserve(rounds + 1);
  Round tail;
  {
    alaya::ThreadPool pool(workers);
    for (int k = 0; k < rounds; ++k) {
      op_scope(k + 1);
      rs.emplace_back();
      Round &r = rs.back();
      if (submitters == 1) {
        int n = (int)choose(WORK, 9);
        for (int i = 0; i < n; ++i) enqueue(pool, r);
      } else {
        std::vector<std::thread> th;
        std::vector<Round> part(submitters);
        for (int s = 0; s < submitters; ++s)
          th.emplace_back([&, s] {
            int n = 1 + (int)(mix(k * 31 + s + 7) % 3);
            for (int i = 0; i < n; ++i) enqueue(pool, part[s]);
          });
        for (auto &t : th) t.join();
        for (auto &p : part)
          for (size_t i = 0; i < p.t.size(); ++i) {
            r.t.push_back(std::move(p.t[i]));
            r.f.push_back(std::move(p.f[i]));
          }
      }
      size_t n = r.t.size();
      auto wait_and_check = [&] {
        pool.wait_until_all_tasks_completed(n);
        checked();
        for (auto &t : r.t)
          if (!t->done) fail("WAIT_EARLY", "the wait for %zu tasks returned while one had not finished", n);
      };
      if (chance(WORK, 1, 5)) {
        for (size_t i = 0; i < n; ++i) check_future(r, i);
      }
      std::thread other;
      if (extra_waiter) {
        count("two_waiters");
        other = std::thread(wait_and_check);
      }
      wait_and_check();
      if (other.joinable()) other.join();
      for (size_t i = 0; i < n; ++i)
        if (r.f[i].valid()) check_future(r, i);
      if (n) nontrivial();
      pool.reset_task();
      count("tasks", n);
    }
    op_scope(0);
    if (more_tasks) {
      int n = (int)choose(WORK, 7);
      for (int i = 0; i < n; ++i) enqueue(pool, tail);
      if (n) count("destroyed_with_queued_tasks");
    }
  }
  for (size_t i = 0; i < tail.t.size(); ++i) {
    if (!tail.t[i]->done) fail("LOST_TASK", "the pool was destroyed without running an accepted task");
    check_future(tail, i);
    nontrivial();
  }
  for (auto &r : rs)
    for (auto &t : r.t)
      if (t->runs != 1) fail("RUN_COUNT", "a task ran %d times", t->runs);
}
