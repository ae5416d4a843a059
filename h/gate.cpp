// C21: utils/locks.hpp and utils/coro_gate.hpp under every thread schedule.
#include <memory>
#include <mutex>
#include <thread>
#include "coro/task.hpp"
#include "coro/thread_pool.hpp"
#include "utils/coro_gate.hpp"
#include "utils/locks.hpp"
#include "../sim/sim.hpp"
using namespace sim;
const char *sim_harness_name = "gate";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
// who is inside, as the harness sees it
struct Inside {
  int excl = 0, shared = 0, most_shared = 0;
  void in_excl(const char *l) {
    checked();
    if (excl || shared) fail("NOT_EXCLUSIVE", "%s: an exclusive holder entered with %d exclusive and %d shared holders inside", l, excl, shared);
    ++excl;
  }
  void out_excl() { --excl; }
  void in_shared(const char *l) {
    checked();
    if (excl) fail("NOT_EXCLUSIVE", "%s: a shared holder entered with an exclusive holder inside", l);
    if (++shared > most_shared) most_shared = shared;
  }
  void out_shared() { --shared; }
};
Inside *I;
struct Guarded {
  int a = 0, b = 0;
};
Guarded *G;
void enter_excl(const char *l) {
  Quiet q;
  I->in_excl(l);
}
void leave_excl() {
  Quiet q;
  I->out_excl();
}
void enter_shared(const char *l) {
  Quiet q;
  I->in_shared(l);
}
void leave_shared() {
  Quiet q;
  I->out_shared();
}
void stay(uint64_t r) {
  for (uint64_t i = 0; i < r % 3; ++i) yield();
}
void mutate(uint64_t r) {  // plain data only an exclusive holder may touch
  G->a++;
  stay(r);
  G->b++;
}
void look(uint64_t r) {
  int a = G->a;
  stay(r);
  if (a != G->b) fail("NOT_EXCLUSIVE", "a shared holder sees an exclusive holder's half-done work");
}

void spin_run() {
  alaya::SpinLock l;
  int nt = 2 + (int)choose(WORK, 3), n = 1 + (int)choose(WORK, 4);
  uint64_t salt = choose(WORK, 1 << 16);
  std::vector<std::thread> th;
  int done = 0;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (int i = 0; i < n; ++i) {
        uint64_t r = mix(salt + t * 77 + i);
        int k = (int)(r % 3);
        if (k == 0) {
          alaya::SpinLockGuard g(l);
          enter_excl("SpinLockGuard");
          mutate(r >> 8);
          ++done;
          leave_excl();
          continue;
        }
        if (k == 1) l.lock();
        else if (!l.try_lock()) {
          count("try_lock_busy");
          continue;
        }
        enter_excl("SpinLock");
        mutate(r >> 8);
        ++done;
        leave_excl();
        l.unlock();
      }
    });
  for (auto &t : th) t.join();
  if (G->a != done || G->b != done) fail("LOST_UPDATE", "%d holders of the spin lock, %d/%d updates", done, G->a, G->b);
  if (!l.try_lock()) fail("STUCK", "the spin lock is held after every holder released it");
  nontrivial();
}

void shared_run() {
  alaya::SharedLock l;
  int nt = 2 + (int)choose(WORK, 3), n = 1 + (int)choose(WORK, 4);
  uint64_t salt = choose(WORK, 1 << 16);
  int updates = 0;
  int upgraders = 0;  // two shared holders that both wait to upgrade would wait for each other; the caller prevents that
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (int i = 0; i < n; ++i) {
        uint64_t r = mix(salt + t * 77 + i);
        switch (r % 5) {
          case 0:
          case 1:
            l.lock_shared();
            enter_shared("SharedLock");
            look(r >> 8);
            leave_shared();
            l.unlock_shared();
            break;
          case 2:
            l.lock();
            enter_excl("SharedLock");
            mutate(r >> 8);
            ++updates;
            leave_excl();
            l.unlock();
            break;
          case 3:  // exclusive, then downgrade
            l.lock();
            enter_excl("SharedLock");
            mutate(r >> 8);
            ++updates;
            {
              Quiet q;
              I->out_excl();
              I->in_shared("SharedLock");
            }
            l.degrade_lock();
            look(r >> 16);
            count("degrade");
            leave_shared();
            l.unlock_shared();
            break;
          case 4: {  // shared, then upgrade
            bool mine;
            l.lock_shared();
            enter_shared("SharedLock");
            look(r >> 8);
            {
              Quiet q;
              mine = upgraders == 0;
              if (mine) ++upgraders;
            }
            if (!mine) {
              leave_shared();
              l.unlock_shared();
              break;
            }
            leave_shared();  // this holder turns exclusive somewhere inside the call
            l.upgrade_lock();
            {
              Quiet q;
              I->in_excl("SharedLock (upgraded)");
              --upgraders;
            }
            mutate(r >> 16);
            ++updates;
            count("upgrade");
            leave_excl();
            l.unlock();
            break;
          }
        }
      }
    });
  for (auto &t : th) t.join();
  if (!l.no_lock() || l.get_state() != 0) fail("STUCK", "the lock word is %d after every holder released it", l.get_state());
  if (G->a != updates || G->b != updates) fail("LOST_UPDATE", "%d exclusive holders, %d/%d updates", updates, G->a, G->b);
  if (I->most_shared > 1) count("shared_together");
  nontrivial();
}

// several threads inside together: shared holders must not exclude each other
void together_run() {
  alaya::SharedLock l;
  int n = 2 + (int)choose(WORK, 3);
  int inside = 0;
  std::vector<std::thread> th;
  for (int t = 0; t < n; ++t)
    th.emplace_back([&] {
      l.lock_shared();
      {
        Quiet q;
        ++inside;
      }
      // everyone waits inside for everyone
      idle_until([&] { return inside == n; });
      l.unlock_shared();
    });
  for (auto &t : th) t.join();
  l.lock();
  l.unlock();
  nontrivial();
  checked();
}

void file_run() {
  std::string path = std::string(root()) + "/x.lock";
  int nt = 2 + (int)choose(WORK, 3), n = 1 + (int)choose(WORK, 3);
  uint64_t salt = choose(WORK, 1 << 16);
  int fk = (int)pick(FAULT, {3, 2, 1, 1});
  if (fk == 1) arm_fault(F_LOCK_EINTR, 1 + choose(FAULT, 4), 1 + choose(FAULT, 3));
  if (fk == 2) arm_fault(F_OPEN_EMFILE, 1 + choose(FAULT, 4), 1);
  if (fk == 3) arm_fault(F_LOCK_EIO, 1 + choose(FAULT, 4), 1);
  int held = 0;
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (int i = 0; i < n; ++i) {
        try {
          alaya::FileLock l(path);
          enter_excl("FileLock");
          stay(mix(salt + t * 77 + i));
          {
            Quiet q;
            ++held;
          }
          leave_excl();
        } catch (const std::exception &) {
          count("filelock_error");
          if (fk < 2) fail("LOCK_ERROR", "the file lock failed without a fault");
        }
      }
    });
  for (auto &t : th) t.join();
  disarm_faults();
  alaya::FileLock l(path);
  enter_excl("FileLock");
  leave_excl();
  nontrivial();
}

// ------------------------------------------------------------------------------------------------ AsyncGate
struct Item {
  int holder = -1;
  struct Rel *rel = nullptr;  // the last release
};
struct Rel {
  uint64_t from = 0, to = 0;
};
struct Req {
  int task = 0, seq = 0;
  uint64_t asked = 0, parked = 0, resumed = 0;  // parked: await_suspend returned true
  bool suspended = false, got = false;
  Rel *rel = nullptr;  // the release its object came from
  uint64_t adm_from = 0, adm_to = 0;  // the admission happened within this interval
};
alaya::AsyncGate<Item> *gate;
coro::thread_pool *pool;
std::vector<std::unique_ptr<Req>> *reqs;
std::vector<std::unique_ptr<Rel>> *rels;
Rel *new_rel() {
  rels->push_back(std::make_unique<Rel>());
  rels->back()->from = step();
  return rels->back().get();
}
int finished_tasks, live_holders;

struct Acquire {
  alaya::AsyncGate<Item>::Awaiter a;
  Req *r;
  bool await_ready() const noexcept { return false; }
  bool await_suspend(std::coroutine_handle<> h) {
    Req *rr = r;
    bool s = a.await_suspend(h);
    // the coroutine may already be running elsewhere: only rr is ours
    rr->suspended = s;
    if (s) rr->parked = step();
    return s;
  }
  Item *await_resume() const noexcept { return a.await_resume(); }
};

coro::task<> client(int id, int rounds, uint64_t salt) {
  co_await pool->schedule();
  for (int i = 0; i < rounds; ++i) {
    uint64_t rnd = mix(salt + id * 131 + i);
    Req *r;
    {
      Quiet q;
      reqs->push_back(std::make_unique<Req>());
      r = reqs->back().get();
      r->task = id;
      r->seq = i;
    }
    r->asked = step();
    Item *it = co_await Acquire{gate->acquire(*pool), r};
    {
      Quiet q;
      r->resumed = step();
      if (!it) fail("NO_ITEM", "a waiter was admitted without an object");
      if (r->got) fail("ADMITTED_TWICE", "a waiter was admitted twice");
      if (it->holder >= 0) fail("NOT_EXCLUSIVE", "tasks %d and %d hold the same object of the gate", it->holder, id);
      it->holder = id;
      r->got = true;
      r->rel = it->rel;
      checked();
    }
    stay(rnd);
    if (rnd % 5 == 0) co_await pool->schedule();  // suspended while holding
    Rel *rel;
    {
      Quiet q;
      it->holder = -1;
      it->rel = rel = new_rel();
    }
    gate->release(it);
    Quiet q;
    rel->to = step();
  }
  {
    Quiet q;
    ++finished_tasks;
  }
}

void gate_run() {
  int workers = 1 + (int)choose(WORK, 3);
  int items = 1 + (int)choose(WORK, 3);
  int clients = 1 + (int)choose(WORK, 6);
  int rounds = 1 + (int)choose(WORK, 3);
  uint64_t salt = choose(WORK, 1 << 16);
  alaya::AsyncGate<Item> g;
  gate = &g;
  std::vector<std::unique_ptr<Item>> its;
  std::vector<std::unique_ptr<Req>> rq;
  reqs = &rq;
  std::vector<std::unique_ptr<Rel>> rl;
  rels = &rl;
  finished_tasks = 0;
  bool late_items = chance(WORK, 1, 4);  // objects come into the cycle through release() after clients wait
  for (int i = 0; i < items; ++i) {
    its.push_back(std::make_unique<Item>());
    if (!late_items) g.add(its.back().get());
  }
  {
    coro::thread_pool p(coro::thread_pool::options{.thread_count = (uint32_t)workers});
    pool = &p;
    std::vector<coro::task<>> ts;
    for (int i = 0; i < clients; ++i) ts.push_back(client(i, rounds, salt));
    for (auto &t : ts) t.resume();
    if (late_items)
      for (auto &i : its) {
        yield();
        Rel *rel;
        {
          Quiet q;
          i->rel = rel = new_rel();
        }
        g.release(i.get());
        rel->to = step();
      }
    idle_until([&] { return finished_tasks == clients; });
    p.shutdown();
    for (auto &t : ts)
      if (!t.is_ready()) fail("LOST_TASK", "a client of the gate did not finish");
  }
  Quiet q;
  if (g.free_count() != (size_t)items) fail("LOST_ITEM", "%zu of %d objects are free after every holder released", g.free_count(), items);
  size_t waited = 0;
  for (auto &a : rq) {
    if (!a->got) fail("LOST_WAITER", "a waiter was never admitted");
    waited += a->suspended;
    a->adm_from = a->asked;
    a->adm_to = a->resumed;
    if (a->suspended) {
      if (!a->rel) fail("LOST_WAITER", "a queued waiter got an object nobody released");
      a->adm_from = std::max(a->adm_from, a->rel->from);
      a->adm_to = std::min(a->adm_to, a->rel->to);
    }
  }
  for (auto &a : rq) {
    if (!a->suspended) continue;
    for (auto &b : rq) {
      checked();
      // a was parked before b even asked, and yet b was admitted strictly before a
      if (a != b && a->parked && a->parked <= b->asked && b->adm_to < a->adm_from)
        fail("OVERTAKEN", "task %d asked after task %d had been queued and was admitted before it", b->task, a->task);
    }
  }
  if (waited) count("gate_waits", waited);
  nontrivial();
}
}  // namespace

void sim_run() {
  Inside in;
  Guarded gd;
  I = &in;
  G = &gd;
  sched_config().max_steps = 1500000;
  int kind = (int)pick(WORK, {4, 2, 4, 1, 2});
  sched_config().races = chance(WORK, 1, 2);
  fs_enable();
  sched_start();
  op_scope(1);
  if (kind == 0) gate_run();
  else if (kind == 1) spin_run();
  else if (kind == 2) shared_run();
  else if (kind == 3) together_run();
  else file_run();
}
