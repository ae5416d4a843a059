// C17: the aligned file readers.  One scenario for both backends.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <condition_variable>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "../sim/sim.hpp"
namespace rd {
using namespace sim;
constexpr size_t kS = 512;
inline uint8_t byte_at(uint64_t o) { return (uint8_t)(mix(o / 8 + 77) >> (o % 8 * 8)) & 0x7f; }  // never the fill byte
constexpr uint8_t kFill = 0xEE;

struct Buf {
  uint8_t *p = nullptr;
  size_t n;
  explicit Buf(size_t n_) : n(n_) {
    p = (uint8_t *)std::aligned_alloc(kS, n);
    Quiet q;
    memset(p, kFill, n);
  }
  Buf(const Buf &) = delete;
  ~Buf() { std::free(p); }
};
struct Req {
  uint64_t id, off, len;
  std::unique_ptr<Buf> buf;
};
struct World {
  std::string path;
  uint64_t size;       // of the file
  bool faults;

  uint64_t eio = 0, shorts = 0;  // reported by completions
};
// The completion of r says res; fired: faults are on.
inline void check_result(World &w, const Req &r, int64_t res, const char *how) {
  Quiet q;
  checked();
  uint64_t avail = r.off >= w.size ? 0 : std::min(r.len, w.size - r.off);
  if (res > (int64_t)avail) fail("BAD_RESULT", "%s: a read of %lu bytes at %lu of a file of %lu bytes reports %ld bytes", how, r.len, r.off, w.size, res);
  if (res < 0) {
    if (!w.faults) fail("BAD_RESULT", "%s: a read that met no error reports %ld", how, res);
    if (res != -EIO) fail("BAD_RESULT", "%s: a read reports error %ld, the only error injected is EIO", how, res);
    ++w.eio;
  } else if ((uint64_t)res < avail) {
    if (!w.faults) fail("BAD_RESULT", "%s: a read of %lu bytes at %lu of a file of %lu bytes reports %ld bytes", how, r.len, r.off, w.size, res);
    ++w.shorts;
  }
  const auto &log = aio_log();
  for (size_t i = log.size(); i-- > 0;)
    if (log[i].buf == r.buf->p && log[i].tag == r.id) {
      if (!log[i].done || log[i].res != res) fail("BAD_RESULT", "%s: the device %s %ld, the completion says %ld", how, log[i].done ? "returned" : "has not finished", log[i].res, res);
      break;
    }
  uint64_t n = res < 0 ? 0 : (uint64_t)res;
  for (uint64_t i = 0; i < r.len; ++i) {
    uint8_t want = i < n ? byte_at(r.off + i) : kFill;
    if (r.buf->p[i] != want)
      fail("BAD_DATA", "%s: read of %lu bytes at %lu, reported %ld: byte %lu of the buffer is %02x, expected %02x", how, r.len, r.off, res, i,
           r.buf->p[i], want);
  }
}

inline int open_fds() {
  Quiet q;
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d)) ++n;
  if (d) closedir(d);
  return n;
}
inline void make_file(World &w) {
  Quiet q;
  std::string s(w.size, 0);
  for (uint64_t i = 0; i < w.size; ++i) s[i] = (char)byte_at(i);
  int fd = ::open(w.path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size()) fail("HARNESS", "cannot write the file");
  ::close(fd);
}

template <class Reader, class ARead, class AEvent, bool kAio>
struct User {
  World &w;
  Reader &rd;
  uint64_t base, next = 0;
  std::map<uint64_t, Req> out;  // outstanding
  bool registered = false, huge_done = false;
  User(World &w_, Reader &r_, uint64_t b) : w(w_), rd(r_), base(b) {}

  std::vector<Req> batch(std::vector<ARead> &v, bool huge = false) {
    std::vector<Req> r;
    uint32_t n = huge ? 1024 + choose(WORK, 1100) : chance(WORK, 1, 12) ? 8 + choose(WORK, 30) : 1 + choose(WORK, 5);
    uint64_t sectors = (w.size + kS - 1) / kS;
    for (uint32_t i = 0; i < n; ++i) {
      Req q;
      q.id = base + next++;
      q.off = kS * (chance(WORK, 1, 10) ? sectors + choose(WORK, 3) : choose(WORK, (uint32_t)sectors));
      q.len = kS * (huge ? 1 : 1 + choose(WORK, 4));
      q.buf = std::make_unique<Buf>(q.len);
      v.emplace_back(q.off, q.len, q.id, q.buf->p);
      r.push_back(std::move(q));
    }
    return r;
  }
  bool reg() {
    if (registered) return true;
    uint64_t f0 = aio_faults();
    try {
      rd.register_thread();
    } catch (const std::exception &e) {
      if (!kAio || aio_faults() == f0) fail("REFUSED", "registering a thread failed without any fault: %s", e.what());
    }
    registered = true;
    if (kAio && aio_faults() != f0) {  // the context could not be created: using it must be refused
      count("setup_failed");
      std::vector<ARead> v;
      auto r = batch(v);
      try {
        rd.submit_reqs(v, rd.get_ctx());
        fail("ACCEPTED", "a read was accepted from a thread whose registration failed");
      } catch (const std::exception &) {
      }
      rd.deregister_thread();
      registered = false;
      return false;
    }
    return true;
  }
  void event(const AEvent &e, const char *how) {
    auto it = out.find(e.id);
    if (it == out.end()) fail("STRAY", "%s: a completion with tag %lu, which the thread has not outstanding", how, e.id);
    check_result(w, it->second, e.result, how);
    out.erase(it);
  }
  void submit() {
    std::vector<ARead> v;
    auto r = batch(v);
    uint64_t f0 = aio_faults(), n0 = aio_log().size();
    try {
      int n = rd.submit_reqs(v, rd.get_ctx());
      if (n != (int)v.size()) fail("SUBMIT", "a submission of %zu reads returned %d", v.size(), n);
      for (auto &q : r) out.emplace(q.id, std::move(q));
      count("submitted", r.size());
      if (out.size() > 1) nontrivial();
    } catch (const std::runtime_error &e) {
      if (!kAio || aio_faults() == f0) fail("REFUSED", "a submission was refused without any fault: %s", e.what());
      count("rejected");
      // none of it may be delivered, or written to its buffer, later: the buffers are freed here
    }
  }
  void collect(bool all) {
    std::vector<AEvent> ev;
    if (out.empty()) {
      if (rd.poll_events(rd.get_ctx(), 4, ev) != 0) fail("STRAY", "a poll with nothing outstanding returned completions");
      return;
    }
    do {
      if (all || chance(WORK, 1, 2)) {
        int n = all ? (int)out.size() : 1 + (int)choose(WORK, (uint32_t)out.size());
        int g = rd.get_events(rd.get_ctx(), n, ev);
        if (g != n || (int)ev.size() != n) fail("COUNT", "a wait for %d completions returned %d with %zu events", n, g, ev.size());
        count("waits");
      } else {
        int m = 1 + (int)choose(WORK, 8);
        int g = rd.poll_events(rd.get_ctx(), m, ev);
        if (g < 0 || g > m || g != (int)ev.size()) fail("COUNT", "a poll for up to %d completions returned %d with %zu events", m, g, ev.size());
        count("polls");
      }
      for (auto &e : ev) event(e, "async");
    } while (all && !out.empty());
  }
  void sync_read() {
    std::vector<ARead> v;
    bool huge = kAio && out.empty() && !huge_done && chance(WORK, 1, 150);  // more than one submission takes
    huge_done |= huge;
    auto r = batch(v, huge);
    if (huge) count("huge_sync_reads");
    try {
      rd.read(v, rd.get_ctx());
    } catch (const std::runtime_error &e) {
      if (!w.faults) fail("REFUSED", "a blocking read failed without any fault: %s", e.what());
      count("sync_failed");
      return;
    }
    Quiet q;
    for (auto &x : r) {
      uint64_t avail = x.off >= w.size ? 0 : std::min(x.len, w.size - x.off);
      for (uint64_t i = 0; i < x.len; ++i)
        if (x.buf->p[i] != (i < avail ? byte_at(x.off + i) : kFill))
          fail("BAD_DATA", "a blocking read of %lu bytes at %lu succeeded but byte %lu of the buffer is %02x", x.len, x.off, i, x.buf->p[i]);
      checked();
    }
    count("sync_reads");
  }
  void dereg() {
    if (out.size()) count("deregistered_with_reads_in_flight");
    rd.deregister_thread();
    registered = false;
    out.clear();  // frees the buffers
  }
  void body() {
    try {
      work();
    } catch (const std::exception &e) {
      fail("UNEXPECTED", "an exception the scenario does not allow: %s", e.what());
    }
  }
  void work() {
    uint32_t ops = 1 + choose(WORK, 8);
    for (uint32_t i = 0; i < ops; ++i) {
      if (!reg()) continue;
      switch (pick(WORK, {5, 4, 2, 1})) {
        case 0: submit(); break;
        case 1: collect(false); break;
        case 2: sync_read(); break;
        default: dereg(); break;
      }
      if (out.size() > 200) collect(true);
    }
    if (!registered) return;
    uint32_t end = pick(WORK, {3, 1, 1});
    if (end == 0) collect(true), dereg();
    else if (end == 1) dereg();
    else count("left_registered");
  }
};

template <class Reader, class ARead, class AEvent, bool kAio>
void scenario(const char *, bool faults, const std::function<void()> &arm, const std::function<void()> &disarm) {
  World w;
  w.path = std::string(root()) + "/data";
  w.size = kS * (1 + choose(WORK, 24)) + (chance(WORK, 1, 3) ? choose(WORK, 512) : 0);
  w.faults = faults;
  make_file(w);
  int fds = open_fds();
  uint32_t threads = 1 + choose(WORK, 3);
  {
    auto rd = std::make_unique<Reader>();
    uint32_t rounds = 1 + choose(WORK, 3);
    for (uint32_t k = 0; k < rounds; ++k) {
      op_scope(k + 1);
      try {
        if (chance(WORK, 1, 12)) {
          try {
            rd->open(std::string(root()) + "/none");
            fail("OPENED", "opening a file that does not exist succeeded");
          } catch (const std::runtime_error &) {
            count("open_refused");
          }
        }
        if (faults && chance(FAULT, 1, 6)) arm_fault(chance(FAULT, 1, 2) ? F_THREAD_EAGAIN : F_OPEN_EIO, 1 + choose(FAULT, 3), 1);
        uint64_t f0 = faults_fired();
        try {
          rd->open(w.path);
        } catch (const std::exception &e) {
          if (faults_fired() == f0) fail("REFUSED", "opening the file failed without any fault: %s", e.what());
          disarm_faults();
          count("open_failed");
          rd->open(w.path);
        }
        disarm_faults();
        arm();
        std::vector<std::unique_ptr<User<Reader, ARead, AEvent, kAio>>> us;
        for (uint32_t t = 0; t < threads; ++t)
          us.push_back(std::make_unique<User<Reader, ARead, AEvent, kAio>>(w, *rd, (uint64_t)(k * 8 + t + 1) << 32));
        std::vector<std::thread> th;
        for (uint32_t t = 1; t < threads; ++t) th.emplace_back([&, t] { us[t]->body(); });
        us[0]->body();
        for (auto &t : th) t.join();
        disarm();
        bool last = k + 1 == rounds;
        size_t left = 0;
        for (auto &u : us) left += u->out.size();
        if (left) count("shutdown_with_reads_in_flight");
        if (last && chance(WORK, 1, 2)) {
          rd.reset();
        } else if (!kAio && chance(WORK, 1, 2)) {
          rd->close();
        } else {
          rd->deregister_all_threads();
          if (chance(WORK, 1, 2)) rd->close();
        }
        us.clear();  // frees the buffers
        if (rd && left && chance(WORK, 1, 2)) {
          // what was in flight must not come back in a new registration
          rd->open(w.path);
          User<Reader, ARead, AEvent, kAio> u(w, *rd, (uint64_t)(k * 8 + 7) << 32);
          if (u.reg()) {
            u.submit();
            u.collect(true);
            u.dereg();
          }
        }
      } catch (const std::exception &e) {
        fail("UNEXPECTED", "an exception the scenario does not allow: %s", e.what());
      }
    }
  }
  int now = open_fds();
  if (now != fds) fail("FD_LEAK", "%d file descriptors are open after the reader is gone, %d before", now, fds);
  if (aio_contexts()) fail("CTX_LEAK", "%zu kernel contexts are left after the reader is gone", aio_contexts());
}
}  // namespace rd
void readers_tp(bool faults);
