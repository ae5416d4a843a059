// C16: the asynchronous I/O engines on the simulated device: IOUringEngine (batches and callbacks), the synchronous
// fallback, and UringReactor under a coroutine pool.
#include <fcntl.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "storage/io/io_uring_engine.hpp"
#include "storage/io/uring_reactor.hpp"
#include "coro/sync_wait.hpp"
#include "coro/when_all.hpp"
#include "../sim/sim.hpp"
using namespace sim;
using namespace alaya;
const char *sim_harness_name = "uring";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }
namespace {
constexpr size_t kS = 512;
constexpr uint8_t kFill = 0xEE;
uint8_t byte_at(uint64_t salt, uint64_t o) { return (uint8_t)(mix(o / 8 + 77 + salt * 1000003) >> (o % 8 * 8)) & 0x7f; }
struct Buf {
  uint8_t *p;
  size_t n;
  explicit Buf(size_t n_) : p((uint8_t *)std::aligned_alloc(kS, n_)), n(n_) {
    Quiet q;
    memset(p, kFill, n);
  }
  Buf(const Buf &) = delete;
  ~Buf() { std::free(p); }
};
struct World {
  int rfd = -1, wfd = -1;
  uint64_t size = 0;
  bool faults = false;
  uint64_t wnext = 0;  // next unused sector of the written file
};
World W;
size_t log_size() {
  Quiet q;
  return aio_log().size();
}
struct One {
  std::unique_ptr<Buf> buf;
  uint64_t off = 0, len = 0;
  bool write = false;
  uint64_t salt = 0;
};
One make(bool write, bool small = false) {
  Quiet q;
  One o;
  uint64_t sectors = (W.size + kS - 1) / kS;
  o.write = write;
  o.len = kS * (1 + choose(WORK, small ? 2 : 4));
  if (write) {
    o.off = W.wnext * kS;
    W.wnext += o.len / kS;
    o.salt = o.off + 1;
  } else {
    o.off = kS * (chance(WORK, 1, 10) ? sectors + choose(WORK, 3) : choose(WORK, (uint32_t)sectors));
  }
  o.buf = std::make_unique<Buf>(o.len);
  if (write)
    for (uint64_t i = 0; i < o.len; ++i) o.buf->p[i] = byte_at(o.salt, o.off + i);
  return o;
}
// Exactly one execution with this tag since entry `from`, and its result is `res`.
void check_executed(uint64_t tag, const One &o, int64_t res, size_t from, const char *how) {
  Quiet q;
  checked();
  const auto &log = aio_log();
  int n = 0;
  for (size_t i = from; i < log.size(); ++i)
    if (log[i].tag == tag && log[i].buf == o.buf->p && log[i].off == o.off) {
      ++n;
      if (!log[i].done) fail("BAD_RESULT", "%s: reported as %ld before the device finished it", how, res);
      if (log[i].res != res) fail("BAD_RESULT", "%s: the device returned %ld, the caller is told %ld", how, log[i].res, res);
    }
  if (n != 1) fail("NOT_ONCE", "%s: the device executed it %d times", how, n);
  uint64_t k = res < 0 ? 0 : (uint64_t)res;
  if (o.write) {
    std::string got(k, 0);
    if (k && ::pread(W.wfd, got.data(), k, (off_t)o.off) != (ssize_t)k) fail("BAD_DATA", "%s: written bytes cannot be read back", how);
    for (uint64_t i = 0; i < k; ++i)
      if ((uint8_t)got[i] != byte_at(o.salt, o.off + i)) fail("BAD_DATA", "%s: write of %lu bytes at %lu: byte %lu is wrong in the file", how, o.len, o.off, i);
    return;
  }
  for (uint64_t i = 0; i < o.len; ++i) {
    uint8_t want = i < k ? byte_at(0, o.off + i) : kFill;
    if (o.buf->p[i] != want) fail("BAD_DATA", "%s: read of %lu bytes at %lu, reported %ld: byte %lu of the buffer is %02x, expected %02x", how, o.len, o.off, res, i, o.buf->p[i], want);
  }
}
void check_not_executed(uint64_t tag, size_t from, const char *how) {
  Quiet q;
  const auto &log = aio_log();
  for (size_t i = from; i < log.size(); ++i)
    if (log[i].tag == tag) fail("EXECUTED", "%s: a request that was not accepted was executed", how);
}

// ------------------------------------------------------------------ batches
struct Batch {
  std::vector<IORequest> rq;
  std::vector<One> ops;
  std::vector<bool> ok;
  size_t from;
};
void batch_user(IOEngine &e, uint32_t depth, bool ring) {
  std::vector<std::unique_ptr<Batch>> open;
  uint64_t accepted = 0, completed = 0;
  auto settle = [&] {  // everything accepted is reported complete
    for (auto &b : open)
      for (size_t i = 0; i < b->rq.size(); ++i) {
        if (b->ok[i]) check_executed((uint64_t)&b->rq[i], b->ops[i], b->rq[i].result_, b->from, "batch");
        else {
          check_not_executed((uint64_t)&b->rq[i], b->from, "batch");
          if (b->rq[i].result_ != IOUringEngine::kRequestNotSubmitted) fail("REPORT", "a request that was not submitted has result %d", b->rq[i].result_);
        }
      }
    open.clear();
  };
  auto wait = [&](uint64_t min, int ms) {
    uint64_t t0 = now_ns();
    size_t n = e.wait(min, ms);
    if (n > accepted - completed) fail("COUNT", "a wait reports %zu completions with %lu outstanding", n, accepted - completed);
    if (n < min && (ms < 0 || now_ns() - t0 < (uint64_t)ms * 1000000))
      fail("EARLY", "a wait for %lu completions (timeout %d ms) returned %zu after %lu ns with %lu outstanding", min, ms, n, now_ns() - t0, accepted - completed);
    completed += n;
    count("waits");
    if (completed == accepted) settle();
  };
  uint32_t ops = 1 + choose(WORK, 7);
  for (uint32_t k = 0; k < ops; ++k) {
    uint64_t left = accepted - completed;
    if (chance(WORK, 1, 2) && left < 40) {
      bool write = chance(WORK, 1, 3);
      auto b = std::make_unique<Batch>();
      uint32_t n = chance(WORK, 1, 4) ? choose(WORK, 3 * depth + 2) : 1 + choose(WORK, depth);
      for (uint32_t i = 0; i < n; ++i) {
        b->ops.push_back(make(write));
        b->rq.emplace_back(b->ops[i].buf->p, b->ops[i].len, b->ops[i].off);
      }
      b->from = log_size();
      size_t got = write ? e.submit_writes(W.wfd, b->rq) : e.submit_reads(W.rfd, b->rq);
      size_t ok = 0;
      for (auto &r : b->rq) {
        bool a = r.result_ != IOUringEngine::kRequestNotSubmitted;
        b->ok.push_back(a);
        ok += a;
      }
      if (got != ok) fail("REPORT", "a submission of %u requests returned %zu, but %zu are marked as submitted", n, got, ok);
      if (got < n) {
        count("rejected", n - got);
        if (!W.faults) fail("REFUSED", "%zu of %u requests were accepted without any fault", got, n);
        for (size_t i = 0; i < n; ++i)  // whoever executes it later writes to freed memory
          if (!b->ok[i] && chance(WORK, 1, 2)) b->ops[i].buf.reset();
      }
      accepted += got;
      count("submitted", got);
      if (got > 1) nontrivial();
      open.push_back(std::move(b));
      if (completed == accepted) settle();
    } else if (left) {
      uint32_t how = choose(WORK, 4);
      if (how == 0) wait(0, 0);
      else if (how == 1) wait(1 + choose(WORK, (uint32_t)left), (int)choose(WORK, 3));
      else wait(1 + choose(WORK, (uint32_t)left), -1);
    } else if (e.wait(0, 0) != 0) {
      fail("COUNT", "a wait with nothing outstanding reports completions");
    }
  }
  if (completed != accepted) wait(accepted - completed, -1);
  (void)ring;
}
// the fallback: everything is done when the call returns
void sync_user(IOEngine &e) {
  for (uint32_t k = 1 + choose(WORK, 4); k-- > 0;) {
    bool write = chance(WORK, 1, 3);
    std::vector<One> ops;
    std::vector<IORequest> rq;
    for (uint32_t i = 0, n = choose(WORK, 6); i < n; ++i) {
      ops.push_back(make(write));
      rq.emplace_back(ops[i].buf->p, ops[i].len, ops[i].off);
      rq[i].result_ = 12345;
    }
    if (W.faults && chance(FAULT, 1, 2)) arm_fault(write ? (chance(FAULT, 1, 2) ? F_WRITE_ENOSPC : F_WRITE_SHORT) : F_READ_EIO, 1 + choose(FAULT, 4), 1);
    uint64_t f0 = faults_fired();
    size_t n = write ? e.submit_writes(W.wfd, rq) : e.submit_reads(W.rfd, rq);
    bool fired = faults_fired() != f0;
    disarm_faults();
    if (n > rq.size()) fail("COUNT", "%zu of %zu requests submitted", n, rq.size());
    int bad = 0;
    for (size_t i = 0; i < rq.size(); ++i) {
      Quiet q;
      checked();
      int64_t r = rq[i].result_, want = write ? (int64_t)ops[i].len : (int64_t)(ops[i].off >= W.size ? 0 : std::min(ops[i].len, W.size - ops[i].off));
      if (r != want) {
        ++bad;
        if (!fired) fail("BAD_RESULT", "a request of %lu bytes at %lu reports %ld without any fault", ops[i].len, ops[i].off, r);
        if (r > want || r == 12345) fail("BAD_RESULT", "a request of %lu bytes at %lu reports %ld", ops[i].len, ops[i].off, r);
        if (r < 0 && r != (write ? -ENOSPC : -EIO)) fail("BAD_RESULT", "a request failed with %s and reports %ld", write ? "ENOSPC" : "EIO", r);
      }
      uint64_t k2 = r < 0 ? 0 : (uint64_t)r;
      if (!write)
        for (uint64_t j = 0; j < k2; ++j)
          if (ops[i].buf->p[j] != byte_at(0, ops[i].off + j)) fail("BAD_DATA", "a read of %lu bytes at %lu: byte %lu is wrong", ops[i].len, ops[i].off, j);
    }
    if (bad > (fired ? 1 : 0)) fail("BAD_RESULT", "%d requests are affected by one fault", bad);
    if (e.wait(0, 0) != 0) fail("COUNT", "the fallback reports completions later");
  }
  nontrivial();
}

// ------------------------------------------------------------------ callbacks
struct Async {
  IOEngine &e;
  struct Op {
    Async *a;
    One o;
    bool accepted = false;
    int done = 0;
    size_t from;
    int then;  // 0 nothing, 1 look for completions, 2 submit one more
  };
  std::vector<std::unique_ptr<Op>> ops;
  uint64_t accepted = 0, completed = 0;
  int depth = 0;
  uint64_t in_calls = 0;
  explicit Async(IOEngine &e_) : e(e_) {}
  static void cb(void *p, int32_t res) {
    auto *o = (Op *)p;
    Async &a = *o->a;
    ++o->done;
    if (o->done > 1) fail("NOT_ONCE", "the callback of one read ran %d times", o->done);
    a.completed++;
    // the tag is the engine's own: match by buffer and time
    {
      Quiet q;
      checked();
      const auto &log = aio_log();
      int n = 0;
      for (size_t i = o->from; i < log.size(); ++i)
        if (log[i].buf == o->o.buf->p && log[i].off == o->o.off) {
          ++n;
          if (!log[i].done || log[i].res != res) fail("BAD_RESULT", "callback: the device %s %ld, the callback is told %d", log[i].done ? "returned" : "has not finished", log[i].res, res);
        }
      if (n != 1) fail("NOT_ONCE", "callback: the device executed the read %d times (result %d)", n, res);
      uint64_t k = res < 0 ? 0 : (uint64_t)res;
      for (uint64_t i = 0; i < o->o.len; ++i)
        if (o->o.buf->p[i] != (i < k ? byte_at(0, o->o.off + i) : kFill)) fail("BAD_DATA", "callback: read of %lu bytes at %lu, reported %d: byte %lu is wrong", o->o.len, o->o.off, res, i);
    }
    if (a.depth++ < 3) {
      if (o->then == 1) a.e.check_completion();
      else if (o->then == 2) a.submit();
    }
    a.depth--;
  }
  void submit() {
    auto u = std::make_unique<Op>();
    Op *o = u.get();
    o->a = this;
    o->o = make(false);
    o->then = (int)choose(WORK, 6);
    o->from = log_size();
    ops.push_back(std::move(u));
    bool ok = false;
    if (W.faults && chance(FAULT, 1, 8)) arm_alloc_fail(1 + choose(FAULT, 2));
    try {
      ok = e.submit_async_read(W.rfd, o->o.buf->p, o->o.len, o->o.off, &cb, o);
    } catch (const std::bad_alloc &) {
      count("bad_alloc");
    }
    disarm_alloc_fail();
    if (ok) {
      o->accepted = true;
      accepted++;
      count("submitted_async");
      if (accepted > 1) nontrivial();
    } else {
      count("rejected_async");
      o->o.buf.reset();  // whoever executes it later writes to freed memory
      if (o->done) fail("EXECUTED", "a read that was refused ran its callback");
      o->done = 1;       // and no callback may run
    }
  }
  void run(uint32_t depth_) {
    uint32_t n = 1 + choose(WORK, 10);
    for (uint32_t k = 0; k < n; ++k) {
      if (chance(WORK, 1, 2) && accepted - completed < 2 * depth_) {
        submit();
      } else if (chance(WORK, 1, 12)) {
        e.drain_pending();
        if (completed != accepted) fail("LOST", "draining returned with %lu of %lu reads complete", completed, accepted);
      } else {
        uint64_t c0 = completed;
        size_t r = e.check_completion();
        if (r > completed - c0) fail("COUNT", "a poll reports %zu completions, %lu callbacks ran", r, completed - c0);
      }
    }
    if (chance(WORK, 1, 2)) {
      // polling finishes everything
      for (int i = 0; completed != accepted; ++i) {
        e.check_completion();
        yield();
        if (i > 3000) fail("LOST", "after %d polls only %lu of %lu reads are complete", i, completed, accepted);
      }
    } else if (chance(WORK, 1, 2)) {
      e.drain_pending();
      if (completed != accepted) fail("LOST", "draining returned with %lu of %lu reads complete", completed, accepted);
    } else if (completed != accepted) {
      count("left_to_thread_exit");
    }
  }
};
void engine_scenario() {
  uint32_t depth = 1u << choose(WORK, 4);
  uint32_t threads = 1 + choose(WORK, 3);
  AioConfig keep = aio_config();
  std::unique_ptr<IOEngine> e;
  bool ring = true;
  if (chance(WORK, 1, 6)) {
    uint64_t f0 = aio_faults(true);
    while (!e) {
      try {
        e = create_io_engine();
      } catch (const std::runtime_error &) {
        if (aio_faults(true) == f0) fail("ENGINE", "no engine can be built without any fault");
      }
    }
    ring = e->supports_async();
    if (!ring && aio_faults(true) == f0) fail("ENGINE", "the fallback is chosen although the ring is available");
    depth = 128;
  } else if (chance(WORK, 1, 8)) {
    e = std::make_unique<SyncEngine>();
    ring = false;
  } else {
    for (;;) {
      uint64_t f0 = aio_faults(true);
      try {
        e = std::make_unique<IOUringEngine>(depth);
        break;
      } catch (const std::runtime_error &) {
        if (aio_faults(true) == f0) fail("ENGINE", "the engine refuses to start without any fault");
      }
    }
  }
  std::vector<std::thread> th;
  std::vector<std::unique_ptr<Async>> as;
  bool two = chance(WORK, 1, 3);
  for (uint32_t t = 0; t < threads; ++t) {
    bool async = ring && chance(WORK, 1, 2);
    Async *a = nullptr;
    if (async) {
      as.push_back(std::make_unique<Async>(*e));
      a = as.back().get();
    }
    th.emplace_back([&, async, a] {
      try {
        if (!ring) sync_user(*e);
        else if (async) a->run(depth);
        else batch_user(*e, std::min(depth, 16u), ring);
      } catch (const std::bad_alloc &) {
        fail("UNEXPECTED", "bad_alloc");
      } catch (const std::exception &x) {
        fail("UNEXPECTED", "an exception the scenario does not allow: %s", x.what());
      }
    });
    if (two && !th.empty()) th.back().join(), th.pop_back();  // one after the other
  }
  for (auto &t : th) t.join();
  for (auto &a : as) {
    if (a->completed != a->accepted) fail("LOST", "the thread ended with %lu of %lu reads complete", a->completed, a->accepted);
  }
  e.reset();
}

// ------------------------------------------------------------------ the reactor
coro::task<int> client(UringReactor &r, coro::thread_pool &pool, std::vector<uint32_t> plan, uint64_t no) {
  co_await pool.schedule();
  for (uint32_t n : plan) {
    std::vector<One> ops;
    std::vector<IORequest> rq;
    uint32_t cnt = n == 1000 ? 1 : n;
    for (uint32_t i = 0; i < cnt; ++i) ops.push_back(make(false, true));
    for (auto &o : ops) rq.emplace_back(o.buf->p, o.len, o.off);
    size_t from = log_size();
    bool threw = false;
    uint32_t failures = 0;
    int32_t single = 0;
    try {
      if (n == 1000) single = co_await r.read(pool, W.rfd, ops[0].buf->p, (uint32_t)ops[0].len, ops[0].off);
      else failures = co_await r.read_batch(pool, W.rfd, rq.data(), n);
    } catch (const std::runtime_error &x) {
      if (!aio_faults(true)) fail("REFUSED", "a read was refused without any fault: %s", x.what());
      threw = true;
      count("rejected_waves");
    }
    Quiet q;
    if (threw) continue;  // frees the buffers
    if (n == 1000) rq[0].result_ = single;
    uint32_t bad = 0;
    const auto &log = aio_log();
    for (uint32_t i = 0; i < cnt; ++i) {
      bad += rq[i].result_ < 0 || (size_t)rq[i].result_ != rq[i].size_;
      uint64_t tag = 0;
      for (size_t k = from; k < log.size(); ++k)
        if (log[k].buf == ops[i].buf->p) tag = log[k].tag;
      check_executed(tag, ops[i], rq[i].result_, from, "wave");
    }
    if (n != 1000 && bad != failures) fail("COUNT", "a wave of %u reads reports %u failures, %u reads failed", n, failures, bad);
    count("waves");
    if (cnt > 1) nontrivial();
  }
  co_return 0;
}
void reactor_scenario() {
  uint32_t depth = 1u << choose(WORK, 4);
  coro::thread_pool pool{{.thread_count = 1 + choose(WORK, 3), .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr}};
  std::unique_ptr<UringReactor> r;
  for (;;) {
    uint64_t f0 = aio_faults(true);
    try {
      r = std::make_unique<UringReactor>(depth);
      break;
    } catch (const std::runtime_error &) {
      if (aio_faults(true) == f0) fail("ENGINE", "the reactor refuses to start without any fault");
      count("setup_failed");
    }
  }
  std::vector<coro::task<int>> ts;
  uint32_t clients = 1 + choose(WORK, 4);
  for (uint32_t i = 0; i < clients; ++i) {
    std::vector<uint32_t> plan;
    for (uint32_t k = 1 + choose(WORK, 3); k-- > 0;) plan.push_back(chance(WORK, 1, 4) ? 1000 : chance(WORK, 1, 4) ? choose(WORK, 3 * depth + 2) : 1 + choose(WORK, 4));
    ts.push_back(client(*r, pool, plan, i));
  }
  try {
    coro::sync_wait(coro::when_all(std::move(ts)));
  } catch (const std::exception &x) {
    fail("UNEXPECTED", "an exception the scenario does not allow: %s", x.what());
  }
  if (chance(WORK, 1, 2)) pool.shutdown();
  r.reset();
}
}  // namespace
void sim_run() {
  fs_enable();
  sched_config().max_steps = 3000000;
  sched_config().races = chance(WORK, 2, 3);
  W = World();
  W.faults = chance(FAULT, 2, 3);
  W.size = kS * (1 + choose(WORK, 24)) + (chance(WORK, 1, 3) ? choose(WORK, 512) : 0);
  std::string p = std::string(root()) + "/data", pw = std::string(root()) + "/out";
  {
    Quiet q;
    std::string s(W.size, 0);
    for (uint64_t i = 0; i < W.size; ++i) s[i] = (char)byte_at(0, i);
    int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size()) fail("HARNESS", "cannot write the file");
    ::close(fd);
  }
  W.rfd = ::open(p.c_str(), O_RDONLY);
  W.wfd = ::open(pw.c_str(), O_CREAT | O_RDWR, 0644);
  sched_start();
  bool reactor = chance(WORK, 2, 5);
  auto r = [&](uint32_t a) { return chance(FAULT, 1, 2) ? a << choose(FAULT, 3) : 0; };
  AioConfig &c = aio_config();
  c.eintr = r(2);
  if (W.faults) {
    c.partial = r(2), c.again = r(3), c.eio = r(4), c.shortr = r(4), c.setup = r(4), c.error = r(reactor ? 16 : 4);
  }
  count(reactor ? "runs_reactor" : "runs_engine");
  if (reactor) reactor_scenario();
  else engine_scenario();
  aio_config() = AioConfig();
  if (uring_rings()) fail("RING_LEAK", "%zu rings are left open", uring_rings());
  ::close(W.rfd);
  ::close(W.wfd);
}
