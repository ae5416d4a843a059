// C14: DiskPageIO (page cache, coordinate cache, batched and asynchronous reads) against a per-node register model.
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <memory>
#include <shared_mutex>
#include <string>
#include <thread>
#include <vector>
#include "coro/sync_wait.hpp"
#include "index/graph/diskann/disk_page_io.hpp"
#include "../sim/sim.hpp"
using namespace sim;
using namespace alaya;
using namespace alaya::diskann;
const char *sim_harness_name = "pageio";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }
namespace {
constexpr uint32_t kGen = 512;          // generations of one node
constexpr uint32_t kInitial = 0, kBlank = kGen - 1;  // the content built at the start; all zeros
constexpr uint64_t kNever = ~0ull;
struct Write {
  uint32_t gen;
  bool coords, nbrs;
  uint64_t inv, ret = kNever;  // ret == kNever: not finished or failed
};
struct Read {
  uint32_t id, gen;
  bool coords;
  uint64_t inv, ret;
};
struct World {
  DiskLayoutGeometry g;
  std::string path;
  uint32_t built = 0, ids = 0;          // ids in the file at the start; ids that may be written
  std::vector<std::vector<Write>> w;    // per id
  std::vector<uint32_t> next;           // next generation per id
  std::vector<bool> torn;               // a write failed halfway without a page cache: content undefined
  std::vector<std::vector<uint64_t>> running;  // per id: faults so far when each unfinished write began
  std::vector<std::vector<Read>> reads;
  bool cached = false;
  uint32_t hot = 0;
  bool faults = false;
  uint32_t exist = 0;                   // pages that exist
  uint64_t clk = 0;
  int fd = -1;                          // the searchers' own handle
};
World W;
uint64_t clock_() {
  return ++W.clk;
}
float coord(uint32_t id, uint32_t gen, uint32_t d) { return gen == kBlank ? 0.f : (float)(((id * kGen + gen) << 3) + (d & 7)); }
uint32_t degree(uint32_t id, uint32_t gen) { return gen == kBlank ? 0 : 1 + (uint32_t)(mix(id * 1000 + gen) % W.g.max_degree); }
uint32_t nbr(uint32_t id, uint32_t gen, uint32_t j) { return ((id * kGen + gen) << 9) + j; }
// plain loops of the checks, kept out of the instrumentation
#define PLAIN __attribute__((no_sanitize("thread"), noinline))
PLAIN size_t bad_coord(const float *c, size_t n, float base) {
  for (size_t d = 0; d < n; ++d)
    if (c[d] != base + (float)(d & 7)) return d;
  return n;
}
PLAIN bool nbrs_match(const uint32_t *p, size_t n, uint32_t base) {
  for (size_t j = 0; j < n; ++j)
    if (p[j] != base + j) return false;
  return true;
}
PLAIN bool all_zero(const void *q, size_t n) {
  for (size_t i = 0; i < n; ++i)
    if (((const char *)q)[i]) return false;
  return true;
}
PLAIN void fill_coords(float *c, size_t n, float base) {
  for (size_t d = 0; d < n; ++d) c[d] = base + (float)(d & 7);
}
PLAIN void fill_nbrs(uint32_t *p, size_t n, uint32_t base) {
  for (size_t j = 0; j < n; ++j) p[j] = base + (uint32_t)j;
}
uint32_t first_gen(uint32_t id) { return id < W.built ? kInitial : kBlank; }
// the generation of what was read; a mixture is a violation
uint32_t coords_gen(uint32_t id, const float *c, size_t n, const char *how) {
  if (n != W.g.dim) fail("TORN", "%s: node %u has %zu coordinates instead of %lu", how, id, n, W.g.dim);
  if (c[0] == 0 && c[W.g.dim - 1] == 0) {
    if (!all_zero(c, n * 4)) fail("TORN", "%s: the coordinates of node %u are a mixture", how, id);
    return kBlank;
  }
  uint64_t v = (uint64_t)c[0];
  if ((float)v != c[0] || v % 8 || (v >> 3) / kGen != id) fail("FOREIGN", "%s: node %u has coordinates of something else (%g: node %lu)", how, id, c[0], (v >> 3) / kGen);
  uint32_t gen = (uint32_t)((v >> 3) % kGen);
  size_t d = bad_coord(c, n, coord(id, gen, 0));
  if (d != n) fail("TORN", "%s: the coordinates of node %u are a mixture (write %u, but %g at %zu)", how, id, gen, c[d], d);
  return gen;
}
uint32_t nbrs_gen(uint32_t id, const uint32_t *p, size_t n, const char *how) {
  if (n == 0) return kBlank;
  uint32_t v = p[0] >> 9;
  if (p[0] & 511 || v / kGen != id) fail("FOREIGN", "%s: node %u has neighbours of something else (node %u)", how, id, v / kGen);
  uint32_t gen = v % kGen;
  if (n != degree(id, gen)) fail("TORN", "%s: node %u has %zu neighbours, write %u gave it %u", how, id, n, gen, degree(id, gen));
  if (!nbrs_match(p, n, nbr(id, gen, 0))) fail("TORN", "%s: the neighbours of node %u are a mixture", how, id);
  return gen;
}
void saw(uint32_t id, bool coords, uint32_t gen, uint64_t inv, const char *how) {
  Quiet q;
  checked();
  uint64_t now = clock_();
  bool known = gen == first_gen(id);
  for (auto &w : W.w[id])
    if (w.gen == gen && (coords ? w.coords : w.nbrs)) known = true;
  if (!known) fail("NEVER_WRITTEN", "%s: node %u has %s %u that nobody wrote", how, id, coords ? "coordinates" : "neighbours", gen);
  W.reads[id].push_back({id, gen, coords, inv, now});
  trace("%s: node %u %s %u [%lu,%lu]", how, id, coords ? "coords" : "nbrs", gen, inv, now);
}
uint64_t bad_io() {  // everything that went wrong below so far
  Quiet q;
  uint64_t n = faults_fired() + aio_faults(true);
  for (auto &o : aio_log()) n += o.done && o.res != (int64_t)o.len;
  return n;
}
// Without a page cache a write goes straight to the file, and one that fails halfway leaves its own node undefined.
bool undefined(uint32_t id) {
  Quiet q;
  if (W.torn[id]) return true;
  if (!W.cached)
    for (uint64_t b : W.running[id])
      if (bad_io() != b) return true;
  return false;
}
void saw_node(uint32_t id, const DiskPageIO::NodeData &n, uint64_t inv, const char *how) {
  Quiet q;
  if (undefined(id)) return;
  uint32_t c = coords_gen(id, n.coords.data(), n.coords.size(), how), k = nbrs_gen(id, n.nbrs.data(), n.nbrs.size(), how);
  for (auto &w : W.w[id])
    if (w.gen == k && w.coords && w.nbrs && c != k) fail("TORN", "%s: node %u has the neighbours of write %u with the coordinates of write %u", how, id, k, c);
  saw(id, true, c, inv, how);
  saw(id, false, k, inv, how);
}
DiskPageIO::NodeData parse(uint32_t id, const char *page) {
  Quiet q;
  NodeRecordView v{page + W.g.offset_to_node(id), W.g.dim};
  DiskPageIO::NodeData n;
  n.coords.assign(v.coords(), v.coords() + W.g.dim);
  if (v.n_nbrs() > W.g.max_degree) {
    if (!undefined(id)) fail("TORN", "node %u has %u neighbours", id, v.n_nbrs());
    return n;
  }
  n.nbrs.assign(v.nbrs(), v.nbrs() + v.n_nbrs());
  return n;
}
// Linearizability of one register with unique values: zones of the writes and their reads.
void check_register(uint32_t id, bool coords) {
  struct Zone {
    uint64_t minret = kNever, maxinv = 0;
    uint32_t gen;
    bool used = false;
  };
  std::vector<Zone> z;
  std::map<uint32_t, uint64_t> winv;
  auto zone = [&](uint32_t g) -> Zone & {
    for (auto &k : z)
      if (k.gen == g) return k;
    z.push_back({});
    z.back().gen = g;
    return z.back();
  };
  Zone &f = zone(first_gen(id));
  f.minret = 0, f.used = true;
  for (auto &w : W.w[id]) {
    if (!(coords ? w.coords : w.nbrs)) continue;
    Zone &k = zone(w.gen);
    winv[w.gen] = w.inv;
    k.minret = std::min(k.minret, w.ret);
    k.maxinv = std::max(k.maxinv, w.inv);
    k.used = k.used || w.ret != kNever;
  }
  for (auto &r : W.reads[id]) {
    if (r.coords != coords) continue;
    Zone &k = zone(r.gen);
    if (r.ret < winv[r.gen]) fail("FUTURE", "node %u: a read returned write %u before it began", id, r.gen);
    k.minret = std::min(k.minret, r.ret);
    k.maxinv = std::max(k.maxinv, r.inv);
    k.used = true;
  }
  const char *what = coords ? "coordinates" : "neighbours";
  for (size_t a = 0; a < z.size(); ++a)
    for (size_t b = 0; b < z.size(); ++b) {
      if (a == b || !z[a].used || !z[b].used) continue;
      bool fa = z[a].minret < z[a].maxinv, fb = z[b].minret < z[b].maxinv;
      checked();
      if (fa && fb && a < b && z[a].minret < z[b].maxinv && z[b].minret < z[a].maxinv)
        fail("STALE", "node %u: reads of its %s go back and forth between writes %u and %u", id, what, z[a].gen, z[b].gen);
      if (fa && !fb && z[a].minret < z[b].maxinv && z[b].minret < z[a].maxinv)
        fail("STALE", "node %u: its %s of write %u are seen after write %u", id, what, z[a].gen, z[b].gen);
    }
}
void page_exists(uint32_t id) {
  uint32_t p = (uint32_t)(id / W.g.nodes_per_sector) + 1;
  W.exist = std::max(W.exist, p);
}
uint32_t readable() { return std::min<uint32_t>(W.ids, (uint32_t)(W.exist * W.g.nodes_per_sector)); }

struct Io {
  std::unique_ptr<DiskPageIO> io;
  std::unique_ptr<UringReactor> ring;
  std::unique_ptr<coro::thread_pool> pool;
  bool poisoned = false;
};
// Runs one operation; it may fail only when something below failed while it ran.
template <class F>
bool attempt(Io &x, const char *what, F &&f, bool threads = false) {
  uint64_t b0 = bad_io();
  bool alloc = W.faults && !threads && chance(FAULT, 1, 24);
  if (alloc) arm_alloc_fail(1 + choose(FAULT, 6));
  bool ok = false;
  try {
    f();
    ok = true;
  } catch (const std::bad_alloc &) {
    disarm_alloc_fail();
    if (!alloc) fail("UNEXPECTED", "%s: bad_alloc", what);
    count("bad_alloc");
  } catch (const std::exception &e) {
    disarm_alloc_fail();
    if (bad_io() == b0 && !(x.ring && aio_faults(true))) fail("REFUSED", "%s failed although nothing below failed: %s", what, e.what());
    count("failed_ops");
    trace("%s failed: %s", what, e.what());
  }
  disarm_alloc_fail();
  return ok;
}
void do_write(Io &x, uint32_t id, bool full) {
  size_t at;
  uint64_t b0;
  uint32_t gen;
  std::vector<float> c;
  std::vector<uint32_t> nb;
  {
    Quiet q;
    gen = ++W.next[id];
    at = W.w[id].size();
    c.resize(W.g.dim), nb.resize(degree(id, gen));
    fill_coords(c.data(), c.size(), coord(id, gen, 0));
    fill_nbrs(nb.data(), nb.size(), nbr(id, gen, 0));
    W.w[id].push_back({gen, full, true, clock_()});
    W.running[id].push_back(b0 = bad_io());
    trace("write node %u gen %u %s starts", id, gen, full ? "full" : "nbrs");
  }
  bool ok = attempt(x, full ? "write_node" : "write_node_neighbors", [&] {
    if (full) x.io->write_node(id, c.data(), (uint32_t)nb.size(), nb.data());
    else x.io->write_node_neighbors(id, (uint32_t)nb.size(), nb.data());
  });
  Quiet q;
  W.running[id].erase(std::find(W.running[id].begin(), W.running[id].end(), b0));
  if (ok) {
    W.w[id][at].ret = clock_();
    page_exists(id);
    count(full ? "writes" : "nbr_writes");
    trace("write node %u gen %u done", id, gen);
  } else if (!W.cached) {
    W.torn[id] = true;
    count("torn_possible");
  }
}
uint64_t start() {
  Quiet q;
  return clock_();
}
void search_read(Io &x, uint32_t id) {  // what the searches do with a page
  char *buf = (char *)std::aligned_alloc(4096, W.g.page_size);
  uint64_t off = W.g.get_page_offset(id);
  uint64_t t = start(), v = 0;
  bool have = false;
  attempt(x, "search_fill_page", [&] {
    if (x.io->search_peek_page(off, buf, &v)) {
      have = true;
      count("peek_hits");
    } else if (::pread(W.fd, buf, W.g.page_size, (off_t)off) == (ssize_t)W.g.page_size) {
      x.io->search_fill_page(off, buf, v);
      have = true;
      count("search_fills");
    }
  });
  if (have) {
    auto n = parse(id, buf);
    saw_node(id, n, t, "a search");
  }
  std::free(buf);
}
std::shared_mutex g_updates;  // batches of removals run alone among the updates
void user(Io &x, int role, uint32_t ops) {
  auto any = [&] {  // mostly one of a few nodes on different pages
    if (W.hot && !chance(WORK, 1, 4)) return std::min<uint32_t>(readable() - 1, choose(WORK, W.hot) * (uint32_t)W.g.nodes_per_sector);
    return choose(WORK, readable());
  };
  for (uint32_t k = 0; k < ops; ++k) {
    if (W.faults && chance(FAULT, 1, 6)) {
      static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_SHORT, F_READ_EIO, F_READ_SHORT, F_TRUNC_EIO, F_FSYNC_EIO, F_WRITE_ENOSPC};
      arm_fault(ks[choose(FAULT, 7)], 1 + small(FAULT, 6), 1 + small(FAULT, 3));
    }
    if (role == 1 || (role == 2 && chance(WORK, 1, 3))) {  // a searcher
      if (chance(WORK, 2, 3)) {
        search_read(x, any());
      } else {
        uint32_t id = any();
        char *buf = (char *)std::aligned_alloc(4096, W.g.page_size);
        uint64_t t = start();
        if (x.io->try_read_cached_page(W.g.get_page_offset(id), buf)) {
          auto n = parse(id, buf);
          saw_node(id, n, t, "the cached page");
          count("cached_page");
        }
        std::free(buf);
      }
      continue;
    }
    std::shared_lock<std::shared_mutex> sh(g_updates);
    switch (pick(WORK, {6, 4, 4, 4, 2, 4, 2, 2, 1, 2})) {
      case 0: do_write(x, any(), true); break;
      case 1: do_write(x, any(), false); break;
      case 2: {
        uint32_t id = any();
        uint64_t t = start();
        DiskPageIO::NodeData n;
        if (attempt(x, "read_node", [&] { n = x.io->read_node(id); })) saw_node(id, n, t, "read_node");
        break;
      }
      case 3: {
        uint32_t id = any();
        uint64_t t = start();
        std::vector<float> c;
        if (attempt(x, "read_coords_cached", [&] { c = x.io->read_coords_cached(id); })) {
          Quiet q;
          if (!undefined(id)) saw(id, true, coords_gen(id, c.data(), c.size(), "read_coords_cached"), t, "read_coords_cached");
        }
        break;
      }
      case 4: {  // a new slot
        uint32_t id = choose(WORK, W.ids);
        do_write(x, id, true);
        break;
      }
      case 5: {
        std::vector<uint32_t> ids;
        for (uint32_t i = 1 + choose(WORK, 5); i-- > 0;) ids.push_back(any());
        uint64_t t = start();
        std::vector<DiskPageIO::NodeData> out;
        bool own = chance(WORK, 1, 6);
        if (attempt(x, "read_nodes_async", [&] { out = own ? x.io->read_nodes_async(ids, 1 + choose(WORK, 3)) : x.io->read_nodes_async(ids, *x.pool); }, own)) {
          if (out.size() != ids.size()) fail("LOST", "%zu of %zu nodes were read", out.size(), ids.size());
          for (size_t i = 0; i < ids.size(); ++i) saw_node(ids[i], out[i], t, "read_nodes_async");
          count("batch_reads");
        }
        break;
      }
      case 6: {
        std::vector<uint32_t> ids;
        for (uint32_t i = choose(WORK, 6); i-- > 0;) ids.push_back(any());
        bool coords = chance(WORK, 1, 2);
        if (!coords && chance(WORK, 1, 3)) ids.push_back(choose(WORK, W.ids));
        attempt(x, "prefetch", [&] {
          coro::sync_wait(coords ? x.io->prefetch_coords(ids.data(), ids.size(), *x.pool) : x.io->prefetch_pages(ids.data(), ids.size(), *x.pool));
        });
        count("prefetches");
        break;
      }
      case 7: {
        std::vector<uint32_t> ids;
        for (uint32_t i = choose(WORK, 6); i-- > 0;) ids.push_back(any());
        uint64_t t = start();
        std::vector<std::vector<uint32_t>> out;
        uint32_t kind = choose(WORK, 3);
        if (kind) {
          sh.unlock();
          g_updates.lock();
        }
        bool ok = attempt(x, "read_neighbors_batch", [&] {
          if (kind == 0) out = x.io->read_neighbors_batch(ids.data(), (uint32_t)ids.size());
          else if (kind == 1) out = x.io->read_neighbors_batch_parallel(ids.data(), (uint32_t)ids.size(), choose(WORK, 4));
          else out = coro::sync_wait(x.io->read_neighbors_batch_async(ids.data(), (uint32_t)ids.size(), *x.pool));
        }, kind != 0);
        if (ok) {
          Quiet q;
          if (out.size() != ids.size()) fail("LOST", "neighbours of %zu of %zu nodes were read", out.size(), ids.size());
          for (size_t i = 0; i < ids.size(); ++i)
            if (!undefined(ids[i])) saw(ids[i], false, nbrs_gen(ids[i], out[i].data(), out[i].size(), "read_neighbors_batch"), t, "read_neighbors_batch");
          count("neighbour_batches");
        }
        if (kind) g_updates.unlock();
        break;
      }
      case 8: {
        sh.unlock();
        std::unique_lock<std::shared_mutex> ex(g_updates);
        x.io->clear_cache();
        break;
      }
      case 9: attempt(x, "flush", [&] { x.io->flush_dirty_pages(); }); break;
    }
  }
}
void open_io(Io &x, bool ring, uint32_t cap, uint32_t depth) {
  x.pool = std::make_unique<coro::thread_pool>(coro::thread_pool::options{.thread_count = 1 + choose(WORK, 2), .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr});
  x.io = std::make_unique<DiskPageIO>(W.path, W.g, cap);
  W.cached = cap > 0;
  if (x.io->page_cache_enabled() != W.cached) fail("CACHE", "a cache of %u pages is %s", cap, W.cached ? "off" : "on");
  if (ring) {
    for (;;) try {
        x.ring = std::make_unique<UringReactor>(depth);
        break;
      } catch (const std::runtime_error &) {
        count("setup_failed");
      }
    x.io->set_reactor(x.ring.get());
  }
}
// After a successful flush with nobody else around: the file is what reads return.
void check_file(Io &x, bool say) {
  Quiet q;
  std::string page(W.g.page_size, 0);
  for (uint32_t id = 0; id < readable(); ++id) {
    if (W.torn[id]) continue;
    if (::pread(W.fd, page.data(), page.size(), (off_t)W.g.get_page_offset(id)) != (ssize_t)page.size()) fail("FILE", "the page of node %u is not in the file", id);
    auto n = parse(id, page.data());
    saw_node(id, n, clock_(), "the file");
    const char *rec = page.data() + W.g.offset_to_node(id);
    size_t o = W.g.dim * 4 + 4 + n.nbrs.size() * 4;
    if (!all_zero(rec + o, W.g.node_len - o)) fail("TAIL", "node %u: bytes of an older neighbour list are left in its record", id);
    checked();
    if (say) emitf("node %u %u %u", id, coords_gen(id, n.coords.data(), n.coords.size(), "file"), nbrs_gen(id, n.nbrs.data(), n.nbrs.size(), "file"));
  }
}
void build_file() {
  uint64_t pages = W.g.num_pages(W.built);
  std::string s(4096 + pages * W.g.page_size, 0);
  for (uint32_t id = 0; id < W.built; ++id) {
    std::vector<float> c(W.g.dim);
    std::vector<uint32_t> nb(degree(id, kInitial));
    fill_coords(c.data(), c.size(), coord(id, kInitial, 0));
    fill_nbrs(nb.data(), nb.size(), nbr(id, kInitial, 0));
    pack_node_record(s.data() + W.g.file_offset(id), c.data(), nb.data(), (uint32_t)nb.size(), W.g.dim);
  }
  int fd = ::open(W.path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size() || ::fsync(fd)) fail("HARNESS", "cannot write the file");
  ::close(fd);
  fd = ::open(root(), O_RDONLY | O_DIRECTORY);
  if (::fsync(fd)) fail("HARNESS", "cannot sync the directory");
  ::close(fd);
  W.exist = (uint32_t)pages;
}
void life(bool crash) {
  fs_enable();
  sched_config().max_steps = 3000000;
  sched_config().races = chance(WORK, 1, 2);
  W.path = std::string(root()) + "/diskann.index";
  build_file();
  sched_start();
  if (chance(WORK, 1, 2)) fs_config().split_io = 2;
  W.fd = ::open(W.path.c_str(), O_RDONLY);
  bool ring = chance(WORK, 1, 2);
  static const uint32_t caps[] = {0, 1, 1, 2, 2, 4, 80};
  Io x;
  auto r = [&](uint32_t a) { return W.faults && chance(FAULT, 1, 2) ? a << choose(FAULT, 3) : 0; };
  uint32_t depth = 1u << choose(WORK, 4);
  open_io(x, ring, caps[choose(WORK, 7)], depth);
  AioConfig &c = aio_config();
  c.eio = r(6), c.shortr = r(6), c.eintr = r(4), c.partial = r(2), c.again = r(4), c.error = r(64);
  uint32_t rounds = 1 + choose(WORK, 3);
  for (uint32_t round = 0; round < rounds; ++round) {
    uint32_t n = 1 + choose(WORK, 3);
    std::vector<std::thread> th;
    for (uint32_t t = 0; t < n; ++t) {
      int role = t == 0 ? 0 : (int)choose(WORK, 3);
      uint32_t ops = 1 + choose(WORK, 10);
      th.emplace_back([&x, role, ops] { user(x, role, ops); });
    }
    for (auto &t : th) t.join();
    if (n > 1) nontrivial();
    bool last = round + 1 == rounds;
    if (last) {
      disarm_faults();
      uint32_t s = fs_config().split_io;
      fs_config().split_io = 0;
      W.faults = false;
      if (!attempt(x, "flush", [&] { x.io->flush_dirty_pages(); })) fail("FLUSH", "a flush after the faults does not succeed");
      fs_config().split_io = s;
      check_file(x, crash);
      if (crash) crash_now();
      // what the file holds is what a read returns
      for (uint32_t id = 0; id < readable(); ++id) {
        uint64_t t = start();
        saw_node(id, x.io->read_node(id), t, "read_node at the end");
      }
    } else if (attempt(x, "flush", [&] { x.io->flush_dirty_pages(); })) {
      check_file(x, false);
      if (chance(WORK, 1, 4)) {  // a new process would start from here
        x.io.reset();
        x.pool.reset();
        x.ring.reset();
        open_io(x, ring, caps[choose(WORK, 7)], depth);
        count("reopened");
      }
    }
  }
  {
    Quiet q;
    for (uint32_t id = 0; id < W.ids; ++id)
      if (!W.torn[id]) check_register(id, true), check_register(id, false);
  }
  x.io.reset();
  x.pool.reset();
  x.ring.reset();
  aio_config() = AioConfig();
  ::close(W.fd);
}
}  // namespace
void sim_run() {
  W = World();
  static const uint32_t dims[] = {4, 40, 24, 8};
  static const uint32_t degs[] = {330, 300, 500, 120};
  uint32_t s = choose(WORK, 4);
  if (chance(WORK, 1, 12)) W.g = DiskLayoutGeometry::compute(900, 300);  // a record longer than a sector
  else W.g = DiskLayoutGeometry::compute(dims[s], degs[s]);
  W.built = 1 + choose(WORK, 3 * (uint32_t)W.g.nodes_per_sector + 4);
  W.ids = W.built + choose(WORK, 8);
  W.w.resize(W.ids);
  W.next.assign(W.ids, 0);
  W.torn.assign(W.ids, false);
  W.running.resize(W.ids);
  W.reads.resize(W.ids);
  W.faults = chance(FAULT, 2, 3);
  W.hot = choose(WORK, 4);
  if (!chance(CRASH, 1, 6)) {
    life(false);
    return;
  }
  auto r = run_life([] { life(true); });
  if (r.kind != LifeResult::CRASHED) fail("HARNESS", "no crash");
  int fd = ::open((std::string(root()) + "/diskann.index").c_str(), O_RDONLY);
  if (fd < 0) fail("LOST", "the file is gone after the crash");
  std::string page(W.g.page_size, 0);
  for (auto &e : r.events) {
    uint32_t id, cg, ng;
    if (sscanf(e.c_str(), "node %u %u %u", &id, &cg, &ng) != 3) continue;
    if (::pread(fd, page.data(), page.size(), (off_t)W.g.get_page_offset(id)) != (ssize_t)page.size()) fail("LOST", "node %u was flushed and is not in the file after a crash", id);
    auto n = parse(id, page.data());
    checked();
    if (coords_gen(id, n.coords.data(), n.coords.size(), "after the crash") != cg || nbrs_gen(id, n.nbrs.data(), n.nbrs.size(), "after the crash") != ng)
      fail("LOST", "node %u: a flushed write is gone after a crash", id);
  }
  ::close(fd);
  count("crashes_after_flush");
}
