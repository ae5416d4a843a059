// C20: executor/scheduler.hpp, worker.hpp, task_queue.hpp.
#include <memory>
#include "coro/task.hpp"
#include "executor/scheduler.hpp"
#include "../sim/sim.hpp"
using namespace sim;
const char *sim_harness_name = "coros";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
struct Job {
  int steps = 0;       // suspensions still to come
  int total = 0;
  int entered = 0;     // resumptions seen by the body
  bool inside = false;
  bool finished = false;
  int kinds = 0;
  bool spawns = false;
  int data = 0;        // plain data handed from worker to worker
};
alaya::Scheduler *S;
std::vector<std::unique_ptr<Job>> *jobs;
std::vector<coro::task<>> *tasks;

void enter(Job *j) {
  if (j->finished) fail("RESUMED_AFTER_END", "a job was resumed after it finished");
  if (j->inside) fail("TWO_WORKERS", "a job is running on two workers at once");
  j->inside = true;
  j->entered++;
  checked();
}
coro::task<> body(Job *j);
void spawn(int kinds, int steps) {
  std::coroutine_handle<> h;
  {
  Quiet q;
  auto j = std::make_unique<Job>();
  j->steps = j->total = steps;
  j->kinds = kinds;
  Job *p = j.get();
  jobs->push_back(std::move(j));
  tasks->push_back(body(p));
  h = tasks->back().handle();
  }
  S->schedule(h);
}
coro::task<> body(Job *j) {
  enter(j);
  for (int i = 0; i < j->total; ++i) {
    j->data += i;
    int k = j->kinds == 2 ? (i & 1) : j->kinds;
    if (j->spawns && i == 0) spawn(j->kinds, 1);
    if (mix(i + j->total) % 3 == 0) yield();
    int expect = j->entered;
    j->inside = false;
    if (k == 0) co_await std::suspend_always{};
    else co_await S->schedule();
    enter(j);
    if (j->entered != expect + 1) fail("RESUME_COUNT", "one suspension was followed by %d resumptions", j->entered - expect);
  }
  j->inside = false;
  j->finished = true;
}
}  // namespace

void sim_run() {
  sched_config().max_steps = 400000;
  sched_config().races = chance(WORK, 1, 3);
  sched_start();
  int workers = 1 + (int)choose(WORK, 4);
  int n = (int)choose(WORK, 10);
  int when = (int)pick(WORK, {2, 2, 1});  // jobs before begin, after begin, both
  bool two_submitters = chance(WORK, 1, 4);
  bool spawning = chance(WORK, 1, 5);
  auto js = std::make_unique<std::vector<std::unique_ptr<Job>>>();
  auto ts = std::make_unique<std::vector<coro::task<>>>();
  js->reserve(64);
  ts->reserve(64);
  jobs = js.get();
  tasks = ts.get();
  {
    std::vector<CpuID> cpus;
    for (int i = 0; i < workers; ++i) cpus.push_back(i);
    alaya::Scheduler s(cpus);
    S = &s;
    auto add = [&](int k) {
      op_scope(100 + k);
      std::coroutine_handle<> h;
      {
      Quiet q;
      auto j = std::make_unique<Job>();
      j->total = (int)choose(WORK, 5);
      j->kinds = (int)choose(WORK, 3);
      j->spawns = false;
      Job *p = j.get();
      jobs->push_back(std::move(j));
      tasks->push_back(body(p));
      if (p->kinds) count("rescheduling_jobs");
      h = tasks->back().handle();
      }
      s.schedule(h);
    };
    int first = when == 0 ? n : when == 1 ? 0 : n / 2;
    for (int i = 0; i < first; ++i) add(i);
    if (spawning && first) {
      (*jobs)[0]->spawns = true;
      count("spawning_jobs");
    }
    s.begin();
    if (two_submitters && n - first > 1) {
      count("two_submitters");
      // frames are created up front; two threads hand them over
      std::vector<std::coroutine_handle<>> hs;
      hs.reserve(n - first);
      for (int i = first; i < n; ++i) {
        op_scope(100 + i);
        Quiet q;
        auto j = std::make_unique<Job>();
        j->total = (int)choose(WORK, 5);
        j->kinds = (int)choose(WORK, 3);
        Job *p = j.get();
        jobs->push_back(std::move(j));
        tasks->push_back(body(p));
        hs.push_back(tasks->back().handle());
      }
      size_t mid = hs.size() / 2;
      std::thread other([&] {
        for (size_t i = mid; i < hs.size(); ++i) s.schedule(hs[i]);
      });
      for (size_t i = 0; i < mid; ++i) s.schedule(hs[i]);
      other.join();
    } else {
      for (int i = first; i < n; ++i) {
        if (i == first + 1) yield();
        add(i);
      }
    }
    op_scope(0);
    if (!chance(WORK, 1, 4)) s.join();
    else count("joined_by_destructor");
  }
  for (auto &j : *jobs) {
    checked();
    if (!j->finished) fail("LOST_JOB", "join returned but a job was resumed %d of %d times and never finished", j->entered, j->total + 1);
    if (j->entered != j->total + 1) fail("RESUME_COUNT", "a job with %d suspensions was resumed %d times", j->total, j->entered);
  }
  if (!jobs->empty()) nontrivial();
  count("jobs", jobs->size());
  S = nullptr;
}
