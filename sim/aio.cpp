// The asynchronous I/O device: libaio on simulated time.  A request is accepted at submission, takes effect (moves its
// bytes) at a drawn later time, and is reported by the next call that looks for completions.  Nothing touches a buffer
// before that time, and requests of one or several contexts complete in any order.
#include <errno.h>
#include <libaio.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <vector>
#include "internal.hpp"
#include "aio.hpp"
namespace sim {
using namespace in;
static AioConfig g_ac;
AioConfig &aio_config() { return g_ac; }
static std::vector<AioOp> *g_log;
static std::vector<in::DevReq> *g_fly;  // accepted, not yet executed
static uint64_t g_seq;
static thread_local uint64_t g_nf;
static uint64_t g_nf_all;
const std::vector<AioOp> &aio_log() {
  if (!g_log) g_log = new std::vector<AioOp>();
  return *g_log;
}
void aio_release() {
  g_ac.hold = false;
  if (g_fly)
    for (auto &r : *g_fly)
      if (r.due > sh->simtime + (1ull << 40)) r.due = sh->simtime + 1 + r.seq % 16;
}
uint64_t aio_faults(bool all) { return all ? g_nf_all : g_nf; }
namespace in {
bool aio_roll(uint32_t n, int kind) {
  if (!n || !chance(FAULT, 1, n)) return false;
  sh->faults[kind]++;
  if (kind == F_AIO_ERROR || kind == F_AIO_SETUP) ++g_nf, ++g_nf_all;
  trace("  ! %s", fault_names[kind]);
  mix_hash(kind + 2000);
  return true;
}
// accepts a request; <0 = errno
int dev_accept(DevReq r, uint64_t ctx_no) {
  aio_log();
  if (!g_fly) g_fly = new std::vector<DevReq>();
  int h = dev_hold(r.fd);
  if (h < 0) return h;
  static const uint32_t w[] = {0, 1, 4, 16, 64};
  uint64_t step = g_ac.max_delay_ns / 64;
  uint32_t k = choose(FAULT, 5);
  r.due = sh->simtime + 1 + (w[k] ? step * w[k] / 2 + choose(FAULT, 8) * (step * w[k] / 16 + 1) : 0);
  if (g_ac.hold) r.due = sh->simtime + (1ull << 50);
  r.hold = h;
  r.seq = g_seq++;
  r.mode = 0;
  if (aio_roll(g_ac.eio, F_AIO_EIO)) r.mode = 1;
  else if (r.len > 512 && aio_roll(g_ac.shortr, F_AIO_SHORT)) {
    r.mode = 2;
    r.cut = 512ull * (1 + choose(FAULT, (uint32_t)((r.len - 1) / 512)));
    if (r.cut >= r.len) r.cut = r.len - 1;
  }
  r.log = g_log->size();
  g_log->push_back({r.tag, r.write, r.fd, r.buf, r.len, r.off, 0, false, ctx_no});
  g_fly->push_back(r);
  mix_hash(r.off * 31 + r.len + r.write);
  return 0;
}
void dev_pump() {
  for (;;) {
    if (!g_fly || g_fly->empty()) return;
    size_t b = g_fly->size();
    for (size_t i = 0; i < g_fly->size(); ++i)
      if ((*g_fly)[i].due <= sh->simtime && (b == g_fly->size() || (*g_fly)[i].due < (*g_fly)[b].due)) b = i;
    if (b == g_fly->size()) return;
    DevReq r = (*g_fly)[b];
    g_fly->erase(g_fly->begin() + b);
    int64_t res;
    if (r.mode == 1) res = -EIO;
    else res = dev_rw(r.write, r.hold, r.buf, r.mode == 2 ? r.cut : r.len, (int64_t)r.off);
    dev_drop(r.hold);
    (*g_log)[r.log].res = res;
    (*g_log)[r.log].done = true;
    mix_hash((uint64_t)res + r.seq);
    r.complete(r, res);
  }
}
uint64_t dev_next(const void *ctx) {
  uint64_t best = 0;
  if (g_fly)
    for (auto &r : *g_fly)
      if (r.ctx == ctx && (!best || r.due < best)) best = r.due;
  return best;
}
size_t dev_inflight(const void *ctx) {
  size_t n = 0;
  if (g_fly)
    for (auto &r : *g_fly) n += r.ctx == ctx;
  return n;
}
// Waits until a completion of ctx may have arrived, or the time has come, or wake() says so.  No RtGuard held by the caller.
void dev_wait(const void *ctx, uint64_t until, const std::function<bool()> &wake) {
  uint64_t next = dev_next(ctx), now = sh->simtime;
  if (until && (!next || until < next)) next = until;
  if (next) {
    if (next > now) sched_sleep(next - now);
    return;
  }
  if (!sched_active()) fail("HANG", "a wait for completions with no request outstanding never ends");
  idle_until(wake);
}
}  // namespace in

namespace {
struct Ctx {
  uint64_t no;
  size_t max;
  std::deque<io_event> done;
};
std::map<io_context_t, Ctx *> *g_ctx;
uint64_t g_no = 0;
Ctx *find(io_context_t c) {
  if (!g_ctx) return nullptr;
  auto it = g_ctx->find(c);
  return it == g_ctx->end() ? nullptr : it->second;
}
void enter() {
  sched_point_sync();
  sched_advance(1500);
}
void done(const DevReq &r, int64_t res) {
  Ctx *c = (Ctx *)r.ctx;
  io_event e{};
  e.data = (void *)r.tag;
  e.obj = (struct iocb *)r.obj;
  e.res = (unsigned long)res;
  c->done.push_back(e);
}
}  // namespace
size_t aio_contexts() { return g_ctx ? g_ctx->size() : 0; }
}  // namespace sim
using namespace sim;
using namespace sim::in;
// Outside a run (fixtures are built there): requests are carried out at submission, in order.
namespace {
struct Plain {
  std::deque<io_event> done;
};
Plain *plain(io_context_t c) { return (Plain *)c; }
int plain_submit(io_context_t x, long n, struct iocb *cbs[]) {
  for (long i = 0; i < n; ++i) {
    struct iocb *b = cbs[i];
    io_event e{};
    e.data = b->data;
    e.obj = b;
    ssize_t r = b->aio_lio_opcode == IO_CMD_PWRITE ? pwrite(b->aio_fildes, b->u.c.buf, b->u.c.nbytes, b->u.c.offset) : pread(b->aio_fildes, b->u.c.buf, b->u.c.nbytes, b->u.c.offset);
    e.res = (unsigned long)(r < 0 ? -errno : r);
    plain(x)->done.push_back(e);
  }
  return (int)n;
}
}  // namespace
extern "C" {
int io_setup(int n, io_context_t *out) {
  if (!hooked()) return *out = (io_context_t) new Plain(), 0;
  enter();
  RtGuard g;
  if (n <= 0 || *out) return -EINVAL;
  if (aio_roll(g_ac.setup, F_AIO_SETUP)) return -EAGAIN;
  if (!g_ctx) g_ctx = new std::map<io_context_t, Ctx *>();
  Ctx *c = new Ctx{++g_no, (size_t)n, {}};
  *out = (io_context_t)(0x7a0000000000ull + c->no * 4096);  // never reused, the same in a replay
  (*g_ctx)[*out] = c;
  return 0;
}
int io_destroy(io_context_t x) {
  if (!hooked()) return delete plain(x), 0;
  enter();
  Ctx *c;
  {
    RtGuard g;
    c = find(x);
    if (!c) return -EINVAL;
    g_ctx->erase(x);  // no new requests, waiters fail; the requests in flight finish first
  }
  for (;;) {
    uint64_t next;
    {
      RtGuard g;
      dev_pump();
      next = dev_next(c);
    }
    if (!next) break;
    if (next > sh->simtime) sched_sleep(next - sh->simtime);
  }
  {
    RtGuard g;
    delete c;
  }
  return 0;
}
int io_submit(io_context_t x, long n, struct iocb *cbs[]) {
  if (!hooked()) return plain_submit(x, n, cbs);
  enter();
  RtGuard g;
  Ctx *c = find(x);
  if (!c || n < 0) return -EINVAL;
  dev_pump();
  if (n == 0) return 0;
  if (aio_roll(g_ac.eintr, F_AIO_EINTR)) return -EINTR;
  if (aio_roll(g_ac.again, F_AIO_EAGAIN)) return -EAGAIN;
  long lim = n;
  bool err = false;
  if (aio_roll(g_ac.error, F_AIO_ERROR)) {
    err = true;
    lim = choose(FAULT, (uint32_t)n);
  } else if (n > 1 && aio_roll(g_ac.partial, F_AIO_PARTIAL)) {
    lim = 1 + choose(FAULT, (uint32_t)(n - 1));
  }
  if (err && lim == 0) return -ENOMEM;
  for (long i = 0; i < lim; ++i) {
    if (dev_inflight(c) + c->done.size() >= c->max) return i ? (int)i : -EAGAIN;
    struct iocb *b = cbs[i];
    if (b->aio_lio_opcode != IO_CMD_PREAD && b->aio_lio_opcode != IO_CMD_PWRITE) return i ? (int)i : -EINVAL;
    DevReq r{};
    r.tag = (uint64_t)b->data;
    r.obj = b;
    r.write = b->aio_lio_opcode == IO_CMD_PWRITE;
    r.fd = b->aio_fildes;
    r.buf = b->u.c.buf;
    r.len = b->u.c.nbytes;
    r.off = (uint64_t)b->u.c.offset;
    r.ctx = c;
    r.complete = done;
    int e = dev_accept(r, c->no);
    if (e < 0) return i ? (int)i : e;
  }
  return (int)lim;
}
int io_getevents(io_context_t x, long min, long nr, struct io_event *ev, struct timespec *to) {
  if (!hooked()) {
    long k = 0;
    for (; k < nr && !plain(x)->done.empty(); ++k) ev[k] = plain(x)->done.front(), plain(x)->done.pop_front();
    return (int)k;
  }
  enter();
  uint64_t until = 0;
  if (to) until = sh->simtime + to->tv_sec * 1000000000ull + to->tv_nsec + 1;
  long got = 0;
  for (;;) {
    Ctx *c;
    {
      RtGuard g;
      c = find(x);
      if (!c || min < 0 || nr < min) return got ? (int)got : -EINVAL;
      dev_pump();
      if (got < nr && min == 0 && aio_roll(g_ac.eintr, F_AIO_WAIT_EINTR)) return -EINTR;
      while (got < nr && !c->done.empty()) {
        ev[got++] = c->done.front();
        c->done.pop_front();
      }
      if (got >= min || (to && sh->simtime >= until)) return (int)got;
      if (aio_roll(got ? g_ac.wait_partial : g_ac.eintr, got ? F_AIO_WAIT_PARTIAL : F_AIO_WAIT_EINTR)) return got ? (int)got : -EINTR;
    }
    dev_wait(c, until, [c, x] { return !find(x) || !c->done.empty() || dev_next(c); });
  }
}
}
