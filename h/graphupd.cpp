// C24: inserts, removals and neighbour updates on an in-memory graph index (GraphUpdateJob over HNSW graphs, raw vectors or
// quantized vectors with exact rerank), with failing allocations, full indexes, and saving and loading in between.
#include <cmath>
#include <filesystem>
#include <memory>
#include <set>
#include "executor/jobs/graph_search_job.hpp"
#include "executor/jobs/graph_update_job.hpp"
#include "gomp.hpp"
#include "index/graph/graph.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "space/raw_space.hpp"
#include "space/sq8_space.hpp"
#include "../sim/sim.hpp"
using namespace sim;
const char *sim_harness_name = "graphupd";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
using ID = uint32_t;
constexpr ID NONE = (ID)-1;
constexpr uint32_t DIM = 3;
using Raw = alaya::RawSpace<float, float, ID>;
using Sq8 = alaya::SQ8Space<float, float, ID>;
struct V {
  float x[DIM];
};
V vec(uint32_t k) {
  V v;
  for (uint32_t j = 0; j < DIM; ++j) v.x[j] = (float)(mix(k * 77773ull + j) % 100000) / 64;
  v.x[0] += (float)k / 4096;  // no two alike
  return v;
}
double dist(const V &a, const V &b) {
  double s = 0;
  for (uint32_t j = 0; j < DIM; ++j) s += ((double)a.x[j] - b.x[j]) * ((double)a.x[j] - b.x[j]);
  return s;
}

template <class S, class B>
struct Rig {
  static constexpr bool split = !std::is_same_v<S, B>;
  std::shared_ptr<S> sp;
  std::shared_ptr<B> bs;
  std::shared_ptr<alaya::Graph<float, ID>> g;
  std::shared_ptr<alaya::GraphSearchJob<S, B>> sj;
  std::shared_ptr<alaya::GraphUpdateJob<S, B>> uj;
  uint32_t cap, nbrs, ef, used = 0;  // used: ids handed out or used up
  bool whole;                        // every node has room for links to all others
  std::map<ID, uint32_t> live;       // id -> vector

  void jobs() {
    sj = std::make_shared<alaya::GraphSearchJob<S, B>>(sp, g, nullptr, split ? bs : nullptr);
    uj = std::make_shared<alaya::GraphUpdateJob<S, B>>(sj);
  }
  std::string list(const std::vector<ID> &v) {
    std::string o;
    for (auto i : v) o += " " + (i == NONE ? "-" : std::to_string(i));
    return o;
  }
  std::vector<ID> find(uint32_t k, uint32_t topk) {
    std::vector<ID> r(topk, 0xdeadbeef);
    V q = vec(k);
    if (chance(WORK, 1, 3) && !split) {
      std::vector<float> d(topk, -7);
      sj->search_solo(q.x, r.data(), d.data(), topk, ef);
      for (uint32_t i = 0; i < topk; ++i) {
        if (r[i] == NONE) continue;
        auto l = live.find(r[i]);
        if (l != live.end() && std::fabs(d[i] - dist(q, vec(l->second))) > 1e-3 * (1 + dist(q, vec(l->second))))
          fail("DISTANCE", "record %u reported at distance %g, it is at %g", r[i], d[i], dist(q, vec(l->second)));
      }
    } else {
      sj->search_solo(q.x, r.data(), topk, ef);
    }
    return r;
  }
  // records a search can reach from the entry point over the neighbour lists
  std::set<ID> reachable() {
    std::set<ID> s{g->get_ep()};
    std::vector<ID> st{g->get_ep()};
    if (g->overlay_graph_) {  // the upper levels lead somewhere on the base level
      auto &ov = *g->overlay_graph_;
      (void)ov;
    }
    while (!st.empty()) {
      ID u = st.back();
      st.pop_back();
      for (uint32_t j = 0; j < g->max_nbrs_ && g->at(u, j) != NONE; ++j)
        if (s.insert(g->at(u, j)).second) st.push_back(g->at(u, j));
    }
    return s;
  }
  void check(const char *when) {
    ID n = sp->get_data_num();
    if (bs->get_data_num() != n) fail("DRIFT", "%s: %u records in the search space, %u in the build space", when, n, bs->get_data_num());
    for (ID i = 0; i < n; ++i)
      for (uint32_t j = 0; j < g->max_nbrs_ && g->at(i, j) != NONE; ++j)
        if (g->at(i, j) >= n) fail("BAD_NEIGHBOUR", "%s: record %u has neighbour %u, there are %u records", when, i, g->at(i, j), n);
    if (bs->get_avl_data_num() != live.size()) fail("COUNT", "%s: %u records reported, %zu live", when, bs->get_avl_data_num(), live.size());
    auto reach = reachable();
    uint32_t all = (uint32_t)live.size() + 2;
    if (all > ef) all = ef;
    for (auto &[id, k] : live) {
      if (V v = vec(k); memcmp(bs->get_data_by_id(id), v.x, sizeof v.x)) fail("VECTOR", "%s: id %u does not hold its vector", when, id);
      bool r = reach.count(id);
      if (whole && !r) fail("UNREACHABLE", "%s: record %u cannot be reached from the entry point though every list has room", when, id);
      auto got = find(k, 1);
      if (r && whole && got[0] != id) fail("NOT_FOUND", "%s: searching for the vector of record %u found%s", when, id, list(got).c_str());
      if (got[0] != NONE && !live.count(got[0])) fail("REMOVED_FOUND", "%s: a search found %u, which is not a live record", when, got[0]);
      checked();
    }
    // a search that may keep every candidate returns every record it can reach, nearest first
    uint32_t k = live.empty() || chance(WORK, 1, 3) ? 1000 + choose(WORK, 20) : std::next(live.begin(), choose(WORK, (uint32_t)live.size()))->second;
    auto got = find(k, all);
    std::set<ID> s;
    double last = -1;
    bool end = false;
    for (auto id : got) {
      if (id == NONE) {
        end = true;
        continue;
      }
      if (end) fail("HOLE", "%s: results after the end:%s", when, list(got).c_str());
      if (!live.count(id)) fail("REMOVED_FOUND", "%s: a search found %u, which is not a live record:%s", when, id, list(got).c_str());
      if (!s.insert(id).second) fail("TWICE", "%s: a search returned %u twice:%s", when, id, list(got).c_str());
      double d = dist(vec(k), vec(live[id]));
      if (d < last * (1 - 1e-4) - 1e-3) fail("ORDER", "%s: results not nearest first:%s", when, list(got).c_str());
      last = std::max(last, d);
    }
    if (whole)
      for (auto &[id, kk] : live)
        if (!s.count(id)) fail("NOT_FOUND", "%s: a search for all %zu records did not return %u:%s", when, live.size(), id, list(got).c_str());
    checked();
  }
  void insert(uint32_t k) {
    V v = vec(k);
    bool full = used >= cap;
    std::vector<ID> nb(nbrs, NONE);
    bool arm = chance(FAULT, 1, 3);
    if (arm) arm_alloc_fail(1 + choose(FAULT, 40));
    ID id = NONE;
    bool ok = false;
    bool two = chance(WORK, 1, 5);
    std::string why;
    try {
      id = two ? uj->insert(v.x, nb.data(), ef) : uj->insert_and_update(v.x, ef);
      ok = id != NONE;
      why = "full";
    } catch (const std::exception &e) {
      why = e.what();
    }
    bool fired = alloc_fail_fired() && arm;
    disarm_alloc_fail();
    trace("insert%s vector %u -> %s%s", two ? " (links apart)" : "", k, ok ? std::to_string(id).c_str() : why.c_str(), fired ? " (allocation failed)" : "");
    if (!ok && !full && !fired) fail("REFUSED", "insert with %u of %u used failed: %s", used, cap, why.c_str());
    if (ok && full) fail("OVERFULL", "insert into a full index returned id %u", id);
    if (ok) {
      if (live.count(id)) fail("ID_REUSED", "insert returned id %u, which is a live record", id);
      live[id] = k;
      if (two)
        for (auto x : nb)
          if (x != NONE) uj->update(x);
      nontrivial();
      count("inserts");
    } else {
      count(full ? "full" : "failed_inserts");
    }
    used = sp->get_data_num();
  }
  void remove(ID id) {
    bool arm = chance(FAULT, 1, 5);
    if (arm) arm_alloc_fail(1 + choose(FAULT, 6));
    std::string why;
    try {
      uj->remove(id);
    } catch (const std::exception &e) {
      why = e.what();
    }
    bool fired = alloc_fail_fired() && arm;
    disarm_alloc_fail();
    trace("remove %u%s%s", id, why.empty() ? "" : ": ", why.c_str());
    if (!why.empty() && !fired) fail("REFUSED", "removing record %u failed: %s", id, why.c_str());
    if (why.empty()) {
      live.erase(id);
    } else {  // open: removed or not
      auto k = live[id];
      if (bs->get_avl_data_num() < live.size()) live.erase(id);
      (void)k;
      count("failed_removals");
    }
    count("removals");
  }
  void reload() {
    std::string d = root();
    bs->save(d + "/d.bin");
    g->save(d + "/g.bin");
    if constexpr (split) sp->save(d + "/q.bin");
    trace("saved and loaded");
    auto b2 = std::make_shared<B>();
    b2->load(d + "/d.bin");
    b2->set_metric_function();
    bs = b2;
    if constexpr (split) {
      auto s2 = std::make_shared<S>();
      s2->load(d + "/q.bin");
      s2->set_metric_function();
      sp = s2;
    } else {
      sp = b2;
    }
    auto g2 = std::make_shared<alaya::Graph<float, ID>>();
    g2->load(d + "/g.bin");
    g = g2;
    jobs();
    count("reloads");
  }
  void run() {
    whole = chance(WORK, 2, 3);
    cap = 2 + choose(WORK, whole ? 9 : 26);
    uint32_t n0 = 1 + choose(WORK, std::min(cap, 6u));
    uint32_t R = whole ? 2 * (cap + 1 + choose(WORK, 3)) : 4 + 2 * choose(WORK, 3);
    std::vector<float> data;
    uint32_t next = 0;
    for (uint32_t i = 0; i < n0; ++i) {
      V v = vec(next);
      data.insert(data.end(), v.x, v.x + DIM);
      live[i] = next++;
    }
    bs = std::make_shared<B>(cap, DIM, alaya::MetricType::L2);
    bs->fit(data.data(), n0);
    if constexpr (split) {
      sp = std::make_shared<S>(cap, DIM, alaya::MetricType::L2);
      sp->fit(data.data(), n0);
    } else {
      sp = bs;
    }
    {
      alaya::HNSWBuilder<B> b(bs, R, 2 * cap + 10);
      g = std::shared_ptr<alaya::Graph<float, ID>>(b.build_graph(1).release());
    }
    nbrs = g->max_nbrs_;
    ef = std::max(cap + 2, nbrs) + choose(WORK, 5);
    used = n0;
    jobs();
    check("after the build");
    uint32_t ops = 1 + choose(WORK, thorough() ? 40 : 24);
    for (uint32_t i = 0; i < ops; ++i) {
      op_scope(i + 1);
      switch (pick(WORK, {5, 4, 1, 1})) {
        case 0: insert(next++); break;
        case 1:
          if (!live.empty()) remove(std::next(live.begin(), choose(WORK, (uint32_t)live.size()))->first);
          break;
        case 2: reload(); break;
        case 3: {
          ID u = choose(WORK, sp->get_data_num());
          trace("update the links of %u", u);
          uj->update(u);
          break;
        }
      }
      check("after it");
    }
    count(whole ? "graphs_with_room" : "graphs_pruned");
  }
};
}  // namespace

void sim_run() {
  sched_start();
  if (chance(WORK, 1, 2)) Rig<Raw, Raw>().run();
  else Rig<Sq8, Raw>().run();
}
