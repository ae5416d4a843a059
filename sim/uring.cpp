// io_uring on the simulated device.  The rings live in ordinary program memory, as liburing's inline functions expect;
// "the kernel" looks at them only inside the calls below.  Submission entries that a call does not take stay in the ring
// and are taken by a later one, completions beyond the ring's size wait in a backlog.
#include <errno.h>
#include <liburing.h>
#include <stdlib.h>
#include <string.h>
#include <deque>
#include <map>
#include "internal.hpp"
#include "aio.hpp"
namespace sim {
using namespace in;
namespace {
struct Ring {
  uint64_t no;
  void *mem;
  unsigned *sqh, *sqt, *sqf, *cqh, *cqt;
  unsigned sqn, cqn;
  io_uring_sqe *sqes;
  io_uring_cqe *cqes;
  bool dead = false;
  std::deque<io_uring_cqe> backlog;
};
std::map<int, Ring *> *g_rings;
uint64_t g_rno;
Ring *find(io_uring *r) {
  if (!g_rings) return nullptr;
  auto it = g_rings->find(r->ring_fd);
  return it == g_rings->end() ? nullptr : it->second;
}
void enter() {
  sched_point_sync();
  sched_advance(1200);
}
unsigned avail(Ring *g) { return *g->cqt - *g->cqh; }
void push(Ring *g, uint64_t tag, int res) {
  if (g->dead) return;
  io_uring_cqe c{};
  c.user_data = tag;
  c.res = res;
  if (!g->backlog.empty() || avail(g) >= g->cqn) {
    g->backlog.push_back(c);
    *g->sqf |= IORING_SQ_CQ_OVERFLOW;
    return;
  }
  memcpy(&g->cqes[*g->cqt & (g->cqn - 1)], &c, sizeof c);
  __atomic_store_n(g->cqt, *g->cqt + 1, __ATOMIC_RELEASE);
}
void done(const DevReq &r, int64_t res) { push((Ring *)r.ctx, r.tag, (int)res); }
void flush(Ring *g) {
  while (!g->backlog.empty() && avail(g) < g->cqn) {
    memcpy(&g->cqes[*g->cqt & (g->cqn - 1)], &g->backlog.front(), sizeof(io_uring_cqe));
    g->backlog.pop_front();
    __atomic_store_n(g->cqt, *g->cqt + 1, __ATOMIC_RELEASE);
  }
  if (g->backlog.empty()) *g->sqf &= ~IORING_SQ_CQ_OVERFLOW;
}
unsigned pow2(unsigned n) {
  unsigned p = 1;
  while (p < n) p <<= 1;
  return p;
}
int get(io_uring *ring, io_uring_cqe **out, unsigned wait_nr, const __kernel_timespec *ts) {
  enter();
  uint64_t until = ts ? sh->simtime + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec + 1 : 0;
  bool first = true;
  for (;;) {
    Ring *g;
    {
      RtGuard rt;
      g = find(ring);
      *out = nullptr;
      if (!g) return -EBADF;
      dev_pump();
      flush(g);
      sched_hb_acquire(g->cqt);
      if (avail(g) >= (wait_nr ? wait_nr : 1)) {
        *out = &g->cqes[*g->cqh & (g->cqn - 1)];
        return 0;
      }
      if (!wait_nr) return -EAGAIN;
      if (ts && sh->simtime >= until) return -ETIME;
      if (first && aio_roll(aio_config().eintr, F_AIO_WAIT_EINTR)) return -EINTR;
      first = false;
    }
    dev_wait(g, until, [ring, g, wait_nr] { return !find(ring) || avail(g) >= wait_nr || !g->backlog.empty() || dev_next(g); });
  }
}
}  // namespace
size_t uring_rings() { return g_rings ? g_rings->size() : 0; }
}  // namespace sim
using namespace sim;
using namespace sim::in;
#define NEED_SIM() \
  if (!hooked()) internal_error("io_uring used outside a run")
extern "C" {
int io_uring_queue_init(unsigned entries, io_uring *ring, unsigned flags) {
  io_uring_params p;
  memset(&p, 0, sizeof p);
  p.flags = flags;
  return io_uring_queue_init_params(entries, ring, &p);
}
int io_uring_queue_init_params(unsigned entries, io_uring *ring, io_uring_params *p) {
  NEED_SIM();
  enter();
  if (!entries || entries > 32768) return -EINVAL;
  if (p->flags & ~(IORING_SETUP_CLAMP | IORING_SETUP_CQSIZE | IORING_SETUP_SINGLE_ISSUER | IORING_SETUP_COOP_TASKRUN)) return -EINVAL;
  {
    RtGuard rt;
    if (aio_roll(aio_config().setup, F_AIO_SETUP)) return -ENOMEM;
  }
  unsigned n = pow2(entries), c = p->flags & IORING_SETUP_CQSIZE ? pow2(p->cq_entries) : 2 * n;
  size_t bytes = 256 + n * sizeof(unsigned) + n * sizeof(io_uring_sqe) + c * sizeof(io_uring_cqe) + 128;
  char *m = (char *)calloc(1, bytes);  // the program's memory: touching it after the ring is closed is an error
  if (!m) return -ENOMEM;
  RtGuard rt;
  Ring *g = new Ring();
  g->no = ++g_rno;
  g->mem = m;
  unsigned *u = (unsigned *)m;
  g->sqh = u, g->sqt = u + 4, g->sqf = u + 8, g->cqh = u + 12, g->cqt = u + 16;
  g->sqn = n, g->cqn = c;
  char *q = m + 256 + n * sizeof(unsigned);
  q = (char *)(((uintptr_t)q + 63) & ~63ul);
  g->sqes = (io_uring_sqe *)q;
  g->cqes = (io_uring_cqe *)(q + n * sizeof(io_uring_sqe));
  memset(ring, 0, sizeof *ring);
  ring->sq.khead = g->sqh, ring->sq.ktail = g->sqt, ring->sq.kflags = g->sqf, ring->sq.kdropped = u + 20;
  ring->sq.kring_mask = u + 24, ring->sq.kring_entries = u + 28;
  ring->sq.array = (unsigned *)(m + 256);
  for (unsigned i = 0; i < n; ++i) ring->sq.array[i] = i;
  ring->sq.sqes = g->sqes;
  u[24] = ring->sq.ring_mask = n - 1, u[28] = ring->sq.ring_entries = n;
  ring->cq.khead = g->cqh, ring->cq.ktail = g->cqt, ring->cq.koverflow = u + 32, ring->cq.kflags = u + 36;
  ring->cq.kring_mask = u + 40, ring->cq.kring_entries = u + 44;
  u[40] = ring->cq.ring_mask = c - 1, u[44] = ring->cq.ring_entries = c;
  ring->cq.cqes = g->cqes;
  ring->flags = p->flags;
  ring->ring_fd = ring->enter_ring_fd = 1000000 + (int)g->no;
  p->sq_entries = n, p->cq_entries = c;
  p->features = ring->features = IORING_FEAT_SINGLE_MMAP | IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_RW_CUR_POS | IORING_FEAT_EXT_ARG;
  if (!g_rings) g_rings = new std::map<int, Ring *>();
  (*g_rings)[ring->ring_fd] = g;
  return 0;
}
void io_uring_queue_exit(io_uring *ring) {
  if (!hooked()) return;
  enter();
  void *m = nullptr;
  {
    RtGuard rt;
    Ring *g = find(ring);
    if (!g) fail("BAD_RING", "a ring that is not open is closed");
    g_rings->erase(ring->ring_fd);
    g->dead = true;  // what is in flight still moves its bytes but is reported to nobody
    m = g->mem;
    g->mem = nullptr;
  }
  free(m);
}
int io_uring_submit(io_uring *ring) {
  NEED_SIM();
  enter();
  RtGuard rt;
  Ring *g = find(ring);
  if (!g) return -EBADF;
  dev_pump();
  if (ring->sq.sqe_head != ring->sq.sqe_tail) {
    ring->sq.sqe_head = ring->sq.sqe_tail;
    *g->sqt = ring->sq.sqe_tail;
  }
  unsigned n = *g->sqt - *g->sqh;
  if (!n) return 0;
  if (n > g->sqn) fail("BAD_RING", "the submission ring holds %u of %u entries", n, g->sqn);
  AioConfig &c = aio_config();
  if (aio_roll(c.again, F_AIO_EAGAIN)) {
    uint32_t k = choose(FAULT, 4);
    return k == 0 ? -EAGAIN : k == 1 ? -EBUSY : k == 2 ? -EINTR : 0;
  }
  unsigned lim = n;
  bool err = false;
  if (aio_roll(c.error, F_AIO_ERROR)) {
    err = true;
    lim = choose(FAULT, n);
  } else if (n > 1 && aio_roll(c.partial, F_AIO_PARTIAL)) {
    lim = 1 + choose(FAULT, n - 1);
  }
  if (err && !lim) return -ENOMEM;
  sched_hb_release(g->cqt);
  for (unsigned i = 0; i < lim; ++i) {
    io_uring_sqe s;
    memcpy(&s, &g->sqes[ring->sq.array[*g->sqh & (g->sqn - 1)] & (g->sqn - 1)], sizeof s);
    ++*g->sqh;
    if (s.opcode == IORING_OP_NOP) {
      push(g, s.user_data, 0);
      continue;
    }
    if (s.opcode != IORING_OP_READ && s.opcode != IORING_OP_WRITE) {
      push(g, s.user_data, -EINVAL);
      continue;
    }
    DevReq r{};
    r.tag = s.user_data;
    r.write = s.opcode == IORING_OP_WRITE;
    r.fd = s.fd;
    r.buf = (void *)s.addr;
    r.len = s.len;
    r.off = s.off;
    r.ctx = g;
    r.complete = done;
    int e = dev_accept(r, g->no);
    if (e < 0) push(g, s.user_data, e);
  }
  return (int)lim;
}
int io_uring_submit_and_wait(io_uring *ring, unsigned nr) {
  int n = io_uring_submit(ring);
  if (n < 0 || !nr) return n;
  io_uring_cqe *c;
  int e = get(ring, &c, nr, nullptr);
  return e < 0 && !n ? e : n;
}
int io_uring_submit_and_get_events(io_uring *ring) { return io_uring_submit(ring); }
int io_uring_get_events(io_uring *ring) {
  io_uring_cqe *c;
  get(ring, &c, 0, nullptr);
  return 0;
}
int __io_uring_get_cqe(io_uring *ring, io_uring_cqe **out, unsigned submit, unsigned wait_nr, sigset_t *) {
  NEED_SIM();
  if (submit) {
    int n = io_uring_submit(ring);
    if (n < 0) return *out = nullptr, n;
  }
  return get(ring, out, wait_nr, nullptr);
}
int io_uring_wait_cqes(io_uring *ring, io_uring_cqe **out, unsigned nr, __kernel_timespec *ts, sigset_t *) {
  NEED_SIM();
  return get(ring, out, nr, ts);
}
int io_uring_wait_cqe_timeout(io_uring *ring, io_uring_cqe **out, __kernel_timespec *ts) {
  NEED_SIM();
  return get(ring, out, 1, ts);
}
unsigned io_uring_peek_batch_cqe(io_uring *ring, io_uring_cqe **out, unsigned n) {
  NEED_SIM();
  io_uring_cqe *c;
  if (get(ring, &c, 0, nullptr) < 0) return 0;
  RtGuard rt;
  Ring *g = find(ring);
  unsigned k = 0;
  for (; k < n && k < avail(g); ++k) out[k] = &g->cqes[(*g->cqh + k) & (g->cqn - 1)];
  return k;
}
io_uring_probe *io_uring_get_probe(void) {
  NEED_SIM();
  enter();
  {
    RtGuard rt;
    if (aio_roll(aio_config().setup, F_AIO_SETUP)) return nullptr;
  }
  size_t n = sizeof(io_uring_probe) + 64 * sizeof(io_uring_probe_op);
  auto *p = (io_uring_probe *)calloc(1, n);
  if (!p) return nullptr;
  p->last_op = 63;
  p->ops_len = 64;
  for (int i = 0; i < 64; ++i) {
    p->ops[i].op = (uint8_t)i;
    p->ops[i].flags = i == IORING_OP_NOP || i == IORING_OP_READ || i == IORING_OP_WRITE ? IO_URING_OP_SUPPORTED : 0;
  }
  return p;
}
io_uring_probe *io_uring_get_probe_ring(io_uring *) { return io_uring_get_probe(); }
void io_uring_free_probe(io_uring_probe *p) { free(p); }
}
