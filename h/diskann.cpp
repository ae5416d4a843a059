// C11 C12 C13: DiskANNIndex: concurrent searches and updates, searches under failing reads, updates with flush and reload.
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "coro/sync_wait.hpp"
#include "coro/when_all.hpp"
#include "index/graph/diskann/diskann_index.hpp"
#include "../sim/sim.hpp"
using namespace sim;
using namespace alaya;
using namespace alaya::diskann;
namespace fs = std::filesystem;
extern "C" {  // OpenMP is compiled out: index builds are sequential
int omp_get_num_procs() { return 1; }
int omp_get_thread_num() { return 0; }
int omp_get_max_threads() { return 1; }
void omp_set_num_threads(int) {}
}
const char *sim_harness_name = "diskann";
namespace {
constexpr uint64_t kNever = ~0ull;
#define PLAIN __attribute__((no_sanitize("thread"), noinline))

// Coordinates are small integers, so that every distance is exact whatever the order of summation.
uint32_t g_dim;
PLAIN void fill_vec(uint64_t key, float *v, uint32_t dim) {
  for (uint32_t d = 0; d < dim; ++d) v[d] = (float)(mix(key * 4099 + d) % 32);
}
PLAIN float dist2(const float *a, const float *b, uint32_t dim) {
  float s = 0;
  for (uint32_t d = 0; d < dim; ++d) s += (a[d] - b[d]) * (a[d] - b[d]);
  return s;
}
std::vector<float> vec_of(uint64_t key) {
  std::vector<float> v(g_dim);
  fill_vec(key, v.data(), g_dim);
  return v;
}

// ------------------------------------------------------------------ fixtures: index directories built once per process
struct Fixture {
  uint32_t n, dim, R, cap, chunks;
  double cache;
  std::map<std::string, std::string> files;
};
std::vector<Fixture> g_fix;
uint64_t label0(uint32_t i) { return 1000 + 7 * (uint64_t)i; }
std::string slurp(const fs::path &p) {
  std::ifstream in(p, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
void make_fixtures() {
  static const Fixture shapes[] = {
      {1, 4, 4, 48, 0, 0, {}},    {2, 8, 4, 60, 0, 1, {}},     {6, 8, 4, 0, 0, 0.2, {}},   {10, 60, 4, 0, 0, 0, {}},
      {12, 200, 6, 0, 0, 0.1, {}}, {14, 16, 5, 64, 0, 0, {}},   {16, 300, 6, 60, 0, 0.3, {}}, {20, 8, 4, 0, 0, 0.05, {}},
      {24, 120, 8, 64, 0, 0.1, {}}, {9, 4, 8, 64, 0, 0, {}},     {8, 1100, 6, 56, 0, 0, {}},  {30, 40, 6, 8, 0, 0.1, {}},
      {10, 8, 4, 0, 1, 0, {}},     {16, 12, 6, 60, 1, 0.2, {}},  {20, 16, 5, 0, 2, 0.05, {}}, {3, 8, 4, 48, 1, 1, {}}};
  char dir[] = "/dev/shm/sim-fixXXXXXX";
  if (!mkdtemp(dir)) abort();
  for (auto f : shapes) {
    g_dim = f.dim;
    std::vector<float> v((size_t)f.n * f.dim);
    std::vector<uint64_t> labels(f.n);
    for (uint32_t i = 0; i < f.n; ++i) labels[i] = label0(i), fill_vec(label0(i) * 64, v.data() + (size_t)i * f.dim, f.dim);
    DiskANNBuildParams p;
    p.R = f.R, p.L = 40, p.record_capacity = f.cap, p.pq_n_chunks = f.chunks, p.cache_ratio = f.cache, p.num_threads = 1, p.pq_train_iters = 2;
    std::string d = std::string(dir) + "/x";
    DiskANNIndex::build(d, v.data(), labels.data(), f.n, f.dim, p);
    if (!f.cap) f.cap = f.R;
    for (auto &e : fs::directory_iterator(d)) f.files[e.path().filename().string()] = slurp(e.path());
    fs::remove_all(d);
    g_fix.push_back(f);
  }
  fs::remove_all(dir);
}

// ------------------------------------------------------------------ model
struct Ver {  // one life of a label
  uint64_t key;
  uint32_t slot = ~0u;
  uint64_t ins_inv = 0, ins_ret = 0, del_inv = kNever, del_ret = kNever;
  bool direct = false;  // linked from the entry point (only claimed in roomy indexes)
};
struct World {
  Fixture *f = nullptr;
  std::string dir;
  uint64_t clk = 0;
  std::map<uint64_t, std::vector<Ver>> recs;
  std::map<uint64_t, std::unique_ptr<std::vector<float>>> vecs;
  uint32_t total = 0;       // slots ever possible
  bool roomy = false;       // every list has room for everybody and every insert sees everybody
  bool deleted = false, medoid_gone = false;
  uint64_t medoid_label = 0;
  std::set<uint64_t> unsure_counts;
  bool torn = false;  // an update failed since the last flush: what its slot, which nobody owns, leads to is open until then
  bool poison = false;  // the io_uring reactor was told of a submission error, after which it refuses everything
  bool faults = false, reactor = false, updatable = true, pq = false;
  DiskANNLoadParams lp;
  uint64_t fresh = 0;
};
World W;
PLAIN uint64_t clock_() { return ++W.clk; }
const std::vector<float> &vec(uint64_t key) {
  auto &p = W.vecs[key];
  if (!p) p = std::make_unique<std::vector<float>>(vec_of(key));
  return *p;
}
bool live_now(const Ver &v) { return v.ins_ret != kNever && v.del_inv == kNever; }
Ver *current(uint64_t label) {
  auto it = W.recs.find(label);
  if (it == W.recs.end() || it->second.empty()) return nullptr;
  return &it->second.back();
}
std::vector<uint64_t> live_labels() {
  std::vector<uint64_t> r;
  for (auto &[l, vs] : W.recs)
    if (!vs.empty() && live_now(vs.back())) r.push_back(l);
  return r;
}

// ------------------------------------------------------------------ searches
struct Row {
  std::vector<std::pair<uint64_t, float>> r;  // label, distance
};
struct Ask {
  uint64_t qkey = 0;
  uint32_t k = 1;
  DiskANNSearchParams p;
  int how = 0;  // 0 single, 1 batch, 2 pipelined
  uint32_t nq = 1, threads = 1, pipe = 1;
  bool complete = false;  // the search list has room for every record
  bool all = false;       // and every record is asked for
};
Ask draw_ask(bool want_complete, bool pipelined_ok) {
  Ask a;
  a.qkey = 5000000 + choose(WORK, 12);
  if (chance(WORK, 1, 3)) {  // the vector of some record
    auto it = W.recs.begin();
    std::advance(it, choose(WORK, (uint32_t)W.recs.size()));
    if (!it->second.empty()) a.qkey = it->second.back().key;
  }
  a.complete = want_complete || chance(WORK, 1, 2);
  a.p.search_list_size = a.complete ? W.total + 2 : 1 + choose(WORK, W.total);
  a.all = a.complete && chance(WORK, 1, 2);
  a.k = a.all ? W.total + 1 : 1 + choose(WORK, W.total);
  a.p.deterministic = chance(WORK, 1, 2);
  a.p.use_pq = !chance(WORK, 1, 3);
  a.how = (int)pick(WORK, {3, 2, pipelined_ok && W.reactor ? 2u : 0u});
  a.p.rerank = a.how != 2 && !chance(WORK, 1, 3);
  a.p.rerank_count = a.complete ? W.total + 1 : choose(WORK, 2) * (a.k + choose(WORK, 4));
  a.nq = a.how ? 1 + choose(WORK, 4) : 1;
  a.threads = 1 + choose(WORK, 3);
  a.pipe = 1 + choose(WORK, 4);
  return a;
}
uint64_t qkey(const Ask &a, uint32_t i) { return i == 0 ? a.qkey : 6000000 + (a.qkey * 31 + i) % 1000; }
// Does the search; rows come out checked for their shape.
std::vector<Row> run_search(const DiskANNIndex &x, const Ask &a) {
  std::vector<float> q;
  std::vector<uint64_t> ol;
  std::vector<float> od;
  {
    Quiet z;
    for (uint32_t i = 0; i < a.nq; ++i) {
      auto &v = vec(qkey(a, i));
      q.insert(q.end(), v.begin(), v.end());
    }
    ol.assign((size_t)a.nq * a.k, 77);
    od.assign((size_t)a.nq * a.k, -1.f);
  }
  uint32_t n = 0;
  if (a.how == 0) n = x.search(q.data(), a.k, ol.data(), od.data(), a.p);
  else if (a.how == 1) x.batch_search(q.data(), a.nq, a.k, ol.data(), od.data(), a.threads, a.p);
  else x.search_pipelined(q.data(), a.nq, a.k, ol.data(), od.data(), a.threads, a.pipe, a.p);
  Quiet z;
  std::vector<Row> rows(a.nq);
  for (uint32_t i = 0; i < a.nq; ++i) {
    bool pad = false;
    for (uint32_t j = 0; j < a.k; ++j) {
      uint64_t l = ol[(size_t)i * a.k + j];
      float d = od[(size_t)i * a.k + j];
      if (l == DiskANNIndex::kNoLabel) {
        if (d != std::numeric_limits<float>::max()) fail("ROW", "query %u: row %u has no label but distance %g", i, j, d);
        pad = true;
        continue;
      }
      if (pad) fail("ROW", "query %u: a result after the padding", i);
      rows[i].r.push_back({l, d});
      if (j && rows[i].r.size() > 1 && rows[i].r[j - 1].second > d) fail("ORDER", "query %u: results are not in order of distance (%g before %g)", i, rows[i].r[j - 1].second, d);
    }
    if (a.how == 0 && n != rows[i].r.size()) fail("ROW", "search returned %u but wrote %zu results", n, rows[i].r.size());
    std::set<uint64_t> seen;
    for (auto &[l, d] : rows[i].r)
      if (!seen.insert(l).second) fail("DUPLICATE", "query %u returned label %lu twice", i, l);
  }
  count(a.how == 0 ? "searches" : a.how == 1 ? "batch_searches" : "pipelined_searches");
  return rows;
}
// Every result must be a record that may have been there between inv and now, with its own distance.
void judge(const Ask &a, const std::vector<Row> &rows, uint64_t inv, const char *how) {
  Quiet z;
  uint64_t now = clock_();
  for (uint32_t i = 0; i < a.nq; ++i) {
    auto &q = vec(qkey(a, i));
    for (auto &[l, d] : rows[i].r) {
      checked();
      auto it = W.recs.find(l);
      if (it == W.recs.end()) fail("UNKNOWN_LABEL", "%s: label %lu was never inserted", how, l);
      bool there = false, fits = false;
      for (auto &v : it->second) {
        if (v.ins_inv > now || v.del_ret <= inv) continue;
        there = true;
        if (dist2(q.data(), vec(v.key).data(), g_dim) == d) fits = true;
      }
      if (!there) fail("DELETED_RESULT", "%s: label %lu was returned, but was deleted before the search began (or not inserted yet)", how, l);
      if (!fits) fail("WRONG_DISTANCE", "%s: label %lu was returned with distance %g, which is not its own (%g)", how, l, d, dist2(q.data(), vec(it->second.back().key).data(), g_dim));
    }
    // what must be found
    if (!W.roomy || W.medoid_gone || !a.complete) continue;
    std::vector<float> must;
    std::vector<uint64_t> which;
    for (auto &[l, vs] : W.recs)
      for (auto &v : vs)
        if (v.ins_ret < inv && v.del_inv > now && (v.direct || !W.deleted)) {
          which.push_back(l);
          must.push_back(dist2(q.data(), vec(v.key).data(), g_dim));
        }
    bool pq_cut = W.pq && a.p.use_pq && !a.p.rerank && a.how != 2;  // cut by approximate distances
    for (size_t m = 0; m < which.size(); ++m) {
      checked();
      bool in = false;
      for (auto &[l, d] : rows[i].r) in = in || l == which[m];
      if (in) continue;
      if (rows[i].r.size() == a.k && (pq_cut || rows[i].r.back().second <= must[m])) continue;
      fail("NOT_FOUND", "%s: label %lu (distance %g) is missing from a search over everything (%zu of %u results)", how, which[m], must[m], rows[i].r.size(), a.k);
    }
  }
}

// ------------------------------------------------------------------ updates
uint64_t bad_io() {
  Quiet q;
  uint64_t n = faults_fired() + aio_faults(true);
  for (auto &o : aio_log()) n += o.done && o.res != (int64_t)o.len;
  return n;
}
struct Upd {  // one updating thread and the labels it owns
  std::vector<uint64_t> own;
  uint32_t id = 0;
};
bool explained(uint64_t before, const std::exception &e) { return bad_io() != before || (W.poison && strstr(e.what(), "poisoned")); }
// Runs one update; false when it failed, which only a failure below explains.
template <class F>
bool attempt(const char *what, F &&f) {
  uint64_t b = bad_io();
  try {
    f();
    return true;
  } catch (const std::exception &e) {
    if (!explained(b, e)) fail("REFUSED", "%s failed although nothing below failed: %s", what, e.what());
    count("failed_updates");
    W.torn = true;
    trace("%s failed: %s", what, e.what());
    return false;
  }
}
template <class E, class F>
void must_refuse(const char *what, F &&f) {
  uint64_t b = bad_io();
  try {
    f();
  } catch (const E &) {
    count("refused_misuse");
    return;
  } catch (const std::exception &e) {
    if (explained(b, e)) return;
    fail("MISUSE", "%s: %s", what, e.what());
  }
  fail("MISUSE", "%s was accepted", what);
}
size_t begin_insert(uint64_t label, uint64_t key) {
  Quiet q;
  auto &vs = W.recs[label];
  Ver v;
  v.key = key;
  v.ins_inv = clock_();
  v.ins_ret = kNever;
  vs.push_back(v);
  vec(key);
  return vs.size() - 1;
}
void end_insert(uint64_t label, size_t at, uint32_t slot, uint64_t inv) {
  Quiet q;
  auto &v = W.recs[label][at];
  for (auto &[l, vs] : W.recs)
    for (auto &o : vs)
      if (&o != &v && o.slot == slot && slot != ~0u && o.ins_ret < inv && o.del_inv == kNever) fail("SLOT_TAKEN", "inserting label %lu got slot %u, which holds label %lu", label, slot, l);
  v.slot = slot;
  v.ins_ret = clock_();
  v.direct = W.roomy && !W.medoid_gone;
  trace("label %lu is in slot %u", label, slot);
}
// An insert failed: it is either in completely or not at all.
void settle_insert(const DiskANNIndex &x, uint64_t label, size_t at) {
  bool in = x.contains_label(label);
  Quiet q;
  auto &v = W.recs[label][at];
  W.roomy = false;
  if (in) v.ins_ret = clock_(), count("failed_insert_kept");
  else v.del_inv = v.del_ret = clock_(), v.ins_ret = 0, count("failed_insert_gone");
}
void begin_delete(uint64_t label) {
  Quiet q;
  auto *v = current(label);
  v->del_inv = clock_();
  W.deleted = true;
  if (label == W.medoid_label && W.recs[label].size() == 1) W.medoid_gone = true;
}
void end_delete(uint64_t label) {
  Quiet q;
  current(label)->del_ret = clock_();
}
void settle_delete(const DiskANNIndex &x, uint64_t label) {
  bool in = x.contains_label(label);
  Quiet q;
  auto *v = current(label);
  W.roomy = false;
  if (in) v->del_inv = kNever, count("failed_delete_undone");
  else v->del_ret = clock_(), count("failed_delete_done");
}
uint64_t new_key() {
  Quiet q;
  return 9000000 + 13 * ++W.fresh;
}
uint64_t pick_label(Upd &u, bool live) {  // 0: none
  Quiet q;
  std::vector<uint64_t> c;
  for (auto l : u.own) {
    auto *v = current(l);
    if ((v && live_now(*v)) == live) c.push_back(l);
  }
  return c.empty() ? 0 : c[choose(WORK, (uint32_t)c.size())];
}
std::vector<uint64_t> pick_labels(Upd &u, bool live, uint32_t n) {
  Quiet q;
  std::vector<uint64_t> c, r;
  for (auto l : u.own) {
    auto *v = current(l);
    if ((v && live_now(*v)) == live) c.push_back(l);
  }
  while (!c.empty() && r.size() < n) {
    uint32_t i = choose(WORK, (uint32_t)c.size());
    r.push_back(c[i]);
    c.erase(c.begin() + i);
  }
  return r;
}
uint32_t slot_of(uint64_t label) {
  Quiet q;
  return current(label)->slot;
}
void one_update(DiskANNIndex &x, Upd &u, coro::thread_pool *shared) {
  switch (pick(WORK, {6, 4, 4, 3, 3, 2, 2, 2, 2})) {
    case 0: {
      uint64_t l = pick_label(u, false);
      if (!l) break;
      uint64_t key = new_key(), inv;
      size_t at = begin_insert(l, key);
      {
        Quiet q;
        inv = W.recs[l][at].ins_inv;
        trace("insert %lu", l);
      }
      uint32_t slot = 0;
      auto v = vec_of(key);
      if (attempt("insert", [&] { slot = x.insert(v.data(), l); })) end_insert(l, at, slot, inv), count("inserts");
      else settle_insert(x, l, at);
      break;
    }
    case 1: {
      auto ls = pick_labels(u, false, 1 + choose(WORK, 4));
      if (ls.empty()) break;
      std::vector<float> v;
      std::vector<size_t> at;
      uint64_t inv;
      {
        Quiet q;
        inv = clock_();
        for (auto l : ls) {
          uint64_t key = new_key();
          at.push_back(begin_insert(l, key));
          auto &w = vec(key);
          v.insert(v.end(), w.begin(), w.end());
          trace("batch insert of %lu", l);
        }
      }
      std::vector<uint32_t> ids;
      uint32_t bs = 1 + choose(WORK, 4);
      bool with_pool = shared && chance(WORK, 1, 3);
      bool ok = attempt("batch_insert", [&] {
        ids = with_pool ? x.batch_insert_with_pool(v.data(), ls.data(), (uint32_t)ls.size(), bs, *shared) : x.batch_insert(v.data(), ls.data(), (uint32_t)ls.size(), bs);
      });
      if (ok && ids.size() != ls.size()) fail("LOST", "batch_insert of %zu returned %zu ids", ls.size(), ids.size());
      for (size_t i = 0; i < ls.size(); ++i)
        if (ok) end_insert(ls[i], at[i], ids[i], inv);
        else settle_insert(x, ls[i], at[i]);
      count("batch_inserts");
      break;
    }
    case 2: case 3: {
      uint64_t l = pick_label(u, true);
      if (!l) break;
      uint32_t s = slot_of(l);
      begin_delete(l);
      trace("remove %lu (slot %u)", l, s);
      bool by_slot = s != ~0u && chance(WORK, 1, 2);
      if (attempt("remove", [&] { by_slot ? x.remove(s) : x.remove_by_label(l); })) end_delete(l), count("removes");
      else settle_delete(x, l);
      break;
    }
    case 4: {
      auto ls = pick_labels(u, true, 1 + choose(WORK, 4));
      if (ls.empty()) break;
      std::vector<uint32_t> ids;
      bool slots = true;
      for (auto l : ls) {
        ids.push_back(slot_of(l));
        slots = slots && ids.back() != ~0u;
        begin_delete(l);
        trace("batch remove of %lu (slot %u)", l, ids.back());
      }
      int kind = slots ? (int)choose(WORK, shared ? 3 : 2) : 0;
      bool ok = attempt("batch_remove", [&] {
        if (kind == 0) x.batch_remove_by_labels(ls.data(), (uint32_t)ls.size());
        else if (kind == 1) x.batch_remove(ids.data(), (uint32_t)ids.size());
        else x.batch_remove_with_pool(ids.data(), (uint32_t)ids.size(), *shared);
      });
      for (auto l : ls) ok ? end_delete(l) : settle_delete(x, l);
      count("batch_removes");
      break;
    }
    case 5: {
      uint64_t l = pick_label(u, true);
      if (!l || slot_of(l) == ~0u) break;
      if (attempt("update_node", [&] { x.update_node(slot_of(l)); })) count("node_updates");
      break;
    }
    case 6: attempt("flush_pages", [&] { x.flush_pages(); }); count("page_flushes"); break;
    case 7: attempt("flush", [&] { x.flush(); }); count("flushes"); break;
    case 8: {  // misuse changes nothing
      uint64_t l = pick_label(u, true), g = pick_label(u, false);
      auto v = vec_of(1);
      switch (choose(WORK, 5)) {
        case 0: if (l) must_refuse<std::invalid_argument>("inserting a label twice", [&] { x.insert(v.data(), l); }); break;
        case 1: if (g) must_refuse<std::out_of_range>("removing an unknown label", [&] { x.remove_by_label(g); }); break;
        case 2: must_refuse<std::invalid_argument>("removing a slot that does not exist", [&] { x.remove(5000); }); break;
        case 3:
          if (l && g) {
            std::vector<float> two(v);
            two.insert(two.end(), v.begin(), v.end());
            uint64_t ls[2] = {g, l};
            must_refuse<std::invalid_argument>("a batch with a label that exists", [&] { x.batch_insert(two.data(), ls, 2, 2); });
          }
          break;
        case 4:
          if (l && slot_of(l) != ~0u) {
            uint32_t two[2] = {slot_of(l), slot_of(l)};
            must_refuse<std::invalid_argument>("removing a slot twice", [&] { x.batch_remove(two, 2); });
          }
          break;
      }
      break;
    }
  }
}
void check_label(DiskANNIndex &x, uint64_t l) {  // while its owner may be at work
  uint64_t inv;
  {
    Quiet q;
    inv = clock_();
  }
  bool in = x.contains_label(l);
  Quiet q;
  uint64_t now = clock_();
  bool maybe = false, surely = false;
  for (auto &v : W.recs[l]) {
    if (v.ins_inv < now && v.del_ret > inv) maybe = true;
    if (v.ins_ret < inv && v.del_inv > now) surely = true;
  }
  checked();
  if (in && !maybe) fail("GHOST", "label %lu is reported present, but is deleted", l);
  if (!in && surely) fail("MISSING", "label %lu is reported absent, but is there", l);
}
void check_live_count(DiskANNIndex &x) {
  uint64_t inv;
  {
    Quiet q;
    inv = clock_();
  }
  uint64_t n = x.live_count();
  Quiet q;
  uint64_t now = clock_(), lo = 0, hi = 0;
  for (auto &[l, vs] : W.recs) {
    bool m = false, s = false;
    for (auto &v : vs) {
      if (v.ins_inv < now && v.del_ret > inv) m = true;
      if (v.ins_ret < inv && v.del_inv > now) s = true;
    }
    lo += s, hi += m;
  }
  checked();
  if (n < lo || n > hi) fail("COUNT", "live_count is %lu while between %lu and %lu records are there", n, lo, hi);
}
// Nobody else is around: the index agrees with the acknowledged updates.
void check_state(DiskANNIndex &x, const char *when) {
  std::vector<uint64_t> live;
  {
    Quiet q;
    live = live_labels();
  }
  checked(4);
  if (x.live_count() != live.size()) fail("COUNT", "%s: live_count is %lu, but %zu records are there", when, x.live_count(), live.size());
  uint64_t max = x.max_slot_id(), dead = x.tombstone_count(), fr = x.free_slot_count();
  if (dead + live.size() != max) fail("COUNT", "%s: %lu slots hold %zu live records and %lu deleted ones", when, max, live.size(), dead);
  if (fr != dead) fail("COUNT", "%s: %lu slots are deleted, but %lu can be reused", when, dead, fr);
  std::set<uint32_t> used;
  for (auto &[l, vs] : W.recs) {
    bool want = !vs.empty() && live_now(vs.back());
    checked();
    if (x.contains_label(l) != want) fail(want ? "MISSING" : "GHOST", "%s: label %lu is reported %s", when, l, want ? "absent" : "present");
    if (!want) continue;
    uint32_t s = vs.back().slot;
    if (s == ~0u) continue;
    if (!used.insert(s).second) fail("SLOT_TAKEN", "%s: two live records are in slot %u", when, s);
    if (x.is_deleted(s)) fail("MISSING", "%s: slot %u of label %lu is reported deleted", when, s, l);
  }
}
// What a search of everything finds, by distance
std::vector<std::pair<float, uint64_t>> census(const DiskANNIndex &x, uint64_t q, int how) {
  Ask a;
  a.qkey = q, a.k = W.total + 1, a.complete = a.all = true, a.how = how;
  a.p.search_list_size = W.total + 2, a.p.rerank_count = W.total + 2, a.p.deterministic = true;
  a.p.rerank = how != 2;
  uint64_t inv = clock_();
  auto rows = run_search(x, a);
  judge(a, rows, inv, "census");
  Quiet z;
  std::vector<std::pair<float, uint64_t>> r;
  for (auto &[l, d] : rows[0].r) r.push_back({d, l});
  std::sort(r.begin(), r.end());
  return r;
}

// ------------------------------------------------------------------ opening
void draw_load_params() {
  auto &p = W.lp;
  p = DiskANNLoadParams();
  p.num_threads = 1 + choose(WORK, 3);
  p.beam_width = 1 + choose(WORK, 4);
  p.nopq_io_depth = choose(WORK, 4);
  p.updatable = W.updatable;
  p.update_insert_threads = 1 + choose(WORK, 3);
  p.update_reconnect_threads = 1 + choose(WORK, 3);
  p.update_search_concurrency = choose(WORK, 4);
  p.update_io = chance(WORK, 2, 3) ? DiskANNUpdateIO::kUring : DiskANNUpdateIO::kBlocking;
  static const size_t caps[] = {64, 1, 0, 2, 4, 4096};
  p.page_cache_capacity = caps[choose(WORK, 6)];
  p.search_page_cache = !chance(WORK, 1, 4);
  p.safety_net_ops = 1 + choose(WORK, 6);
  p.safety_net_ratio = 0.02;
  p.update_rerank = chance(WORK, 1, 2);
  W.roomy = W.f->cap >= W.total;
  if (chance(WORK, 1, 5)) p.update_insert_prune = true, W.roomy = false;
  if (chance(WORK, 1, 5)) p.update_search_l = 1 + choose(WORK, 20), W.roomy = false;
}
void open_index(DiskANNIndex &x) {
  for (int t = 0;; ++t) {
    uint64_t b = bad_io();
    try {
      x.load(W.dir, W.lp);
      break;
    } catch (const std::exception &e) {
      if (bad_io() == b) fail("REFUSED", "load failed although nothing below failed: %s", e.what());
      count("failed_loads");
      if (t >= 2) disarm_faults(), aio_config() = AioConfig();
    }
  }
  W.reactor = W.updatable && W.lp.update_io == DiskANNUpdateIO::kUring;
}
void setup(bool updatable, const char *name = "idx") {
  W = World();
  W.f = &g_fix[choose(WORK, (uint32_t)g_fix.size())];
  g_dim = W.f->dim;
  W.pq = W.f->chunks > 0;
  W.updatable = updatable;
  W.dir = std::string(root()) + "/" + name;
  fs::remove_all(W.dir);
  fs::create_directories(W.dir);
  for (auto &[n, c] : W.f->files) std::ofstream(W.dir + "/" + n, std::ios::binary) << c;
  for (uint32_t i = 0; i < W.f->n; ++i) {
    Ver v;
    v.key = label0(i) * 64, v.slot = i;
    W.recs[label0(i)].push_back(v);
  }
  W.total = W.f->n + 24;
}
void device(bool faults, bool fatal = true) {
  auto &c = aio_config();
  c = AioConfig();
  c.max_delay_ns = 1000 + choose(WORK, 60000);
  if (!faults) return;
  if (chance(FAULT, 1, 2)) c.partial = 3 + choose(FAULT, 8);
  if (chance(FAULT, 1, 2)) c.eintr = 4 + choose(FAULT, 12);
  if (chance(FAULT, 1, 2)) c.wait_partial = 4 + choose(FAULT, 12);
  if (chance(FAULT, 2, 3)) c.eio = 4 + choose(FAULT, 40);
  if (chance(FAULT, 1, 2)) c.shortr = 4 + choose(FAULT, 40);
  if (fatal && chance(FAULT, 1, 3)) c.error = 8 + choose(FAULT, 40), W.poison = true;
  if (chance(FAULT, 1, 4)) c.again = 4 + choose(FAULT, 10);
}
std::unique_ptr<coro::thread_pool> new_pool() {
  return std::make_unique<coro::thread_pool>(coro::thread_pool::options{.thread_count = 1 + choose(WORK, 2), .on_thread_start_functor = nullptr, .on_thread_stop_functor = nullptr});
}
void settle(DiskANNIndex &x) {
  if (!W.torn) return;
  x.flush();
  W.torn = false;
}
void after(DiskANNIndex &x) {  // flush, reload, compare
  uint64_t q = 5000003;
  settle(x);
  std::vector<std::pair<float, uint64_t>> before = census(x, q, 0);
  if (W.reactor && census(x, q, 2) != before) fail("DIFFERENT", "the pipelined search finds other records than the plain one");
  x.flush();
  check_state(x, "after a flush");
  if (census(x, q, 0) != before) fail("DIFFERENT", "a flush changed what a search finds");
  W.updatable = chance(WORK, 1, 2);
  bool roomy = W.roomy;
  draw_load_params();
  W.roomy = roomy && W.roomy;
  auto y = std::make_unique<DiskANNIndex>();
  open_index(*y);
  check_state(*y, "after reloading");
  auto now = census(*y, q, 0);
  if (now != before) fail("DIFFERENT", "a search over everything finds %zu records after reloading, %zu before", now.size(), before.size());
  count("reloads");
}

// ------------------------------------------------------------------ C11
void concurrent() {
  setup(true);
  sched_start();
  sched_config().max_steps = 40000000;
  if (chance(WORK, 1, 2)) sched_config().races = true;
  fs_enable();
  draw_load_params();
  device(false);
  auto x = std::make_unique<DiskANNIndex>();
  open_index(*x);
  {
    Quiet q;
    for (auto &[l, vs] : W.recs)
      if (vs[0].slot == x->medoid()) W.medoid_label = l, vs[0].direct = true;
  }
  uint32_t nu = 1 + choose(WORK, 2), ns = 1 + choose(WORK, 3), ops = 2 + choose(WORK, 6);
  std::vector<Upd> us(nu);
  {
    Quiet q;
    for (auto &[l, vs] : W.recs) us[choose(WORK, nu)].own.push_back(l);
    for (uint32_t i = 0; i < 20; ++i) {
      uint64_t l = 70000 + i;
      W.recs[l];
      us[i % nu].own.push_back(l);
    }
  }
  if (chance(WORK, 1, 2))  // something is deleted already
    for (uint32_t i = 1 + choose(WORK, 4); i-- > 0;) {
      uint64_t l = pick_label(us[0], true);
      if (!l) break;
      begin_delete(l);
      x->remove_by_label(l);
      end_delete(l);
    }
  auto pool = new_pool();
  std::vector<std::thread> ts;
  uint32_t fresh_left = 24;
  (void)fresh_left;
  for (uint32_t t = 0; t < nu; ++t)
    ts.emplace_back([&, t] {
      for (uint32_t k = 0; k < ops; ++k) one_update(*x, us[t], pool.get());
    });
  bool done = false;
  for (uint32_t t = 0; t < ns; ++t)
    ts.emplace_back([&] {
      for (uint32_t k = 0; k < ops; ++k) {
        switch (pick(WORK, {8, 1, 1})) {
          case 0: {
            Ask a;
            uint64_t inv;
            {
              Quiet q;
              a = draw_ask(false, true);
              inv = clock_();
              trace("search %d k %u L %u det %d pq %d rerank %d nq %u at %lu", a.how, a.k, a.p.search_list_size, a.p.deterministic, a.p.use_pq, a.p.rerank, a.nq, inv);
            }
            auto rows = run_search(*x, a);
            judge(a, rows, inv, a.how == 0 ? "search" : a.how == 1 ? "batch_search" : "search_pipelined");
            break;
          }
          case 1: {
            uint64_t l;
            {
              Quiet q;
              auto it = W.recs.begin();
              std::advance(it, choose(WORK, (uint32_t)W.recs.size()));
              l = it->first;
            }
            check_label(*x, l);
            break;
          }
          case 2: check_live_count(*x); break;
        }
      }
    });
  for (auto &t : ts) t.join();
  (void)done;
  pool.reset();
  nontrivial();
  check_state(*x, "when all calls are done");
  after(*x);
}

// ------------------------------------------------------------------ C12
struct Healthy {
  Ask a;
  std::vector<Row> rows;
  bool exact;  // the same search gives the same rows every time
};
bool same(const Healthy &h, const std::vector<Row> &rows, std::string &why) {
  for (uint32_t i = 0; i < h.a.nq; ++i) {
    auto &g = h.rows[i].r, &r = rows[i].r;
    if (g.size() != r.size()) {
      why = "query " + std::to_string(i) + ": " + std::to_string(r.size()) + " results instead of " + std::to_string(g.size());
      return false;
    }
    for (size_t j = 0; j < g.size(); ++j)
      if (g[j].second != r[j].second) {
        why = "query " + std::to_string(i) + ": result " + std::to_string(j) + " has distance " + std::to_string(r[j].second) + " instead of " + std::to_string(g[j].second);
        return false;
      }
  }
  return true;
}
void faulty() {
  setup(chance(WORK, 1, 2));
  sched_start();
  sched_config().max_steps = 40000000;
  if (chance(WORK, 1, 4)) sched_config().races = true;
  fs_enable();
  fs_config().faults = true;
  draw_load_params();
  device(false);
  auto x = std::make_unique<DiskANNIndex>();
  if (chance(FAULT, 1, 8)) {
    arm_fault(F_READ_EIO, 1 + small(FAULT, 12), 1);
    aio_config().setup = 3;
  }
  open_index(*x);
  disarm_faults();
  device(false);
  if (W.updatable) {  // some updates first
    Upd u;
    {
      Quiet q;
      for (auto &[l, vs] : W.recs) {
        if (vs[0].slot == x->medoid()) W.medoid_label = l, vs[0].direct = true;
        u.own.push_back(l);
      }
      for (uint32_t i = 0; i < 8; ++i) W.recs[70000 + i], u.own.push_back(70000 + i);
    }
    for (uint32_t k = choose(WORK, 5); k-- > 0;) one_update(*x, u, nullptr);
  }
  std::vector<Healthy> hs;
  for (uint32_t i = 2 + choose(WORK, 4); i-- > 0;) {
    Healthy h;
    h.a = draw_ask(chance(WORK, 1, 2), true);
    bool pq = W.pq && h.a.p.use_pq;
    if (pq && h.a.complete && !h.a.p.rerank && h.a.how != 2) h.a.k = W.total + 1, h.a.all = true;
    h.exact = h.a.complete || (h.a.p.deterministic && h.a.how != 2 && (!pq || !W.updatable));
    uint64_t inv = clock_();
    h.rows = run_search(*x, h.a);
    judge(h.a, h.rows, inv, "search");
    hs.push_back(h);
  }
  uint32_t nt = 1 + choose(WORK, 3);
  auto searching = [&](uint32_t ops, bool healthy) {
    std::vector<std::thread> ts;
    for (uint32_t t = 0; t < nt; ++t)
      ts.emplace_back([&] {
        for (uint32_t k = 0; k < ops; ++k) {
          const Healthy &h = hs[choose(WORK, (uint32_t)hs.size())];
          if (!healthy && chance(FAULT, 1, 3)) {
            static const FaultKind ks[] = {F_READ_EIO, F_READ_SHORT, F_READ_EINTR};
            arm_fault(ks[choose(FAULT, 3)], 1 + small(FAULT, 12), 1 + small(FAULT, 3));
          }
          uint64_t b = bad_io(), inv = clock_();
          trace("search how %d k %u L %u det %d nq %u", h.a.how, h.a.k, h.a.p.search_list_size, h.a.p.deterministic, h.a.nq);
          std::vector<Row> rows;
          try {
            rows = run_search(*x, h.a);
          } catch (const std::exception &e) {
            if (!explained(b, e)) fail("REFUSED", "a search failed although nothing below failed: %s", e.what());
            count("failed_searches");
            trace("failed: %s", e.what());
            continue;
          }
          judge(h.a, rows, inv, healthy ? "a search after the faults" : "a search under faults");
          std::string why;
          checked();
          if (h.exact && !same(h, rows, why)) fail("WRONG_ANSWER", "%s (list %u, k %u, %s%s): %s", healthy ? "a search after the faults" : "a search under faults", h.a.p.search_list_size, h.a.k, h.a.how == 0 ? "single" : h.a.how == 1 ? "batch" : "pipelined", h.a.p.deterministic ? ", deterministic" : "", why.c_str());
        }
      });
    for (auto &t : ts) t.join();
  };
  for (uint32_t round = 1 + choose(WORK, 2); round-- > 0;) {
    device(true);
    searching(2 + choose(WORK, 4), false);
    disarm_faults();
    device(false);
    searching(1 + choose(WORK, 3), true);
  }
  nontrivial();
  if (W.updatable) check_state(*x, "when all searches are done");
}

// ------------------------------------------------------------------ C13
// The same object serves another index for a while.
void elsewhere(DiskANNIndex &x) {
  World keep = std::move(W);
  uint32_t dim = g_dim;
  setup(true, "other");
  draw_load_params();
  open_index(x);
  Upd u;
  {
    Quiet q;
    for (auto &[l, vs] : W.recs) {
      if (vs[0].slot == x.medoid()) W.medoid_label = l, vs[0].direct = true;
      u.own.push_back(l);
    }
    for (uint32_t i = 0; i < 20; ++i) W.recs[70000 + i], u.own.push_back(70000 + i);
  }
  for (uint32_t k = 1 + choose(WORK, 5); k-- > 0;) one_update(x, u, nullptr);
  check_state(x, "in another index");
  census(x, 5000002, 0);
  count("other_indexes");
  W = std::move(keep);
  g_dim = dim;
}
void history() {
  setup(true);
  sched_start();
  sched_config().max_steps = 40000000;
  fs_enable();
  fs_config().faults = true;
  W.faults = chance(FAULT, 3, 4);
  draw_load_params();
  device(false);
  auto x = std::make_unique<DiskANNIndex>();
  open_index(*x);
  Upd u;
  {
    Quiet q;
    for (auto &[l, vs] : W.recs) {
      if (vs[0].slot == x->medoid()) W.medoid_label = l, vs[0].direct = true;
      u.own.push_back(l);
    }
    for (uint32_t i = 0; i < 20; ++i) W.recs[70000 + i], u.own.push_back(70000 + i);
  }
  uint32_t ops = 4 + choose(WORK, 12);
  for (uint32_t k = 0; k < ops; ++k) {
    bool bad = W.faults && chance(FAULT, 1, 3);
    auto arm = [&] {
      static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_SHORT, F_READ_EIO, F_READ_SHORT, F_TRUNC_EIO, F_FSYNC_EIO, F_WRITE_ENOSPC, F_OPEN_EIO, F_CLOSE_EIO, F_RENAME_EIO, F_WRITE_EINTR};
      arm_fault(ks[choose(FAULT, 11)], 1 + small(FAULT, 16), 1 + small(FAULT, 3));
      if (chance(FAULT, 1, 4)) device(true, !W.reactor);
    };
    uint32_t what = pick(WORK, {8, 2, 2});
    if (what == 0) {
      if (bad) arm();
      one_update(*x, u, nullptr);
      disarm_faults();
      device(false);
      check_state(*x, "after an update");
    } else if (what == 1) {
      settle(*x);
      auto a = census(*x, 5000001, 0);
      if (bad) {
        arm();
        if (!attempt("flush", [&] { x->flush(); })) count("failed_flushes");
        disarm_faults();
        device(false);
        check_state(*x, "after a flush under faults");
        if (census(*x, 5000001, 0) != a) fail("DIFFERENT", "a flush under faults changed what a search finds");
      }
      x->flush();
      check_state(*x, "after a flush");
      auto b = census(*x, 5000001, 0);
      if (a != b) fail("DIFFERENT", "a flush changed what a search finds");
      bool fresh = chance(WORK, 1, 2);
      bool roomy = W.roomy;
      draw_load_params();
      W.roomy = W.roomy && roomy;
      if (fresh) x = std::make_unique<DiskANNIndex>();
      else if (chance(WORK, 1, 3)) elsewhere(*x);
      open_index(*x);
      count("reloads");
      check_state(*x, "after reloading");
      auto c = census(*x, 5000001, 0);
      if (c != b) fail("DIFFERENT", "a search over everything finds %zu records after reloading, %zu before", c.size(), b.size());
      nontrivial();
    } else {
      Ask a = draw_ask(false, true);
      uint64_t inv = clock_();
      auto rows = run_search(*x, a);
      judge(a, rows, inv, "search");
    }
  }
  check_state(*x, "at the end");
  after(*x);
  nontrivial();
}
}  // namespace
void sim_prepare() {
  spdlog::set_level(spdlog::level::off);
  make_fixtures();
}
void sim_run() {
  std::string m = mode();
  if (m == "C12") faulty();
  else if (m == "C13") history();
  else concurrent();
  aio_config() = AioConfig();
}
