// C22 C23: parallel graph construction (Vamana on OpenMP threads, HNSW on the thread pool).
#include <omp.h>
#include <cmath>
#include <memory>
#include <set>
#include "index/graph/graph.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "index/graph/vamana/vamana_builder.hpp"
#include "space/raw_space.hpp"
#include "gomp.hpp"
#include "../sim/sim.hpp"
using namespace sim;
const char *sim_harness_name = "graphs";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
struct Data {
  uint32_t n, dim;
  std::vector<float> v;
  bool distinct = true;
};
Data make(uint32_t n, uint32_t dim, int kind) {
  Data d{n, dim, {}};
  uint64_t salt = choose(WORK, 1 << 16);
  std::set<std::vector<float>> seen;
  for (uint32_t i = 0; i < n; ++i) {
    std::vector<float> x(dim);
    for (uint32_t j = 0; j < dim; ++j) {
      uint64_t r = mix(salt * 1000003 + i * 131 + j);
      switch (kind) {
        case 0: x[j] = (float)(r % 1000) / 8; break;                       // scattered
        case 1: x[j] = (float)(r % 3); break;                              // a grid with many equal points
        case 2: x[j] = j == 0 ? (float)i : 0; break;                       // a line
        default: x[j] = (float)((i % 3) * 500) + (float)(r % 64) / 16;     // clusters
      }
    }
    if (!seen.insert(x).second) d.distinct = false;
    d.v.insert(d.v.end(), x.begin(), x.end());
  }
  return d;
}
std::string reach(uint32_t n, uint32_t ep, const std::function<std::vector<uint32_t>(uint32_t)> &nb) {
  std::vector<char> s(n, 0);
  std::vector<uint32_t> st{ep};
  s[ep] = 1;
  while (!st.empty()) {
    auto u = st.back();
    st.pop_back();
    for (auto w : nb(u))
      if (!s[w]) s[w] = 1, st.push_back(w);
  }
  std::string miss;
  for (uint32_t i = 0; i < n; ++i)
    if (!s[i]) miss += " " + std::to_string(i);
  return miss;
}

void vamana() {
  bool whole = chance(WORK, 1, 3);  // nothing is ever pruned: reachability is exact
  alaya::vamana::VamanaBuildParams p;
  uint32_t n;
  if (whole) {
    n = 2 + choose(WORK, 14);
    p.R = n + choose(WORK, 4);
    p.L = n + 1 + choose(WORK, 8);
    p.alpha = 1e30f;
    p.maxc = 750;
  } else {
    n = 2 + choose(WORK, 40);
    p.R = 2 + choose(WORK, 7);
    p.L = p.R + choose(WORK, 12);
    const float al[] = {1.0f, 1.2f, 1.5f, 2.0f};
    p.alpha = al[choose(WORK, 4)];
    p.maxc = chance(WORK, 1, 4) ? p.R + choose(WORK, 4) : 750;
  }
  p.num_threads = chance(WORK, 1, 8) ? 0 : 1 + choose(WORK, 5);
  auto d = make(n, 1 + choose(WORK, 6), whole ? (int)choose(WORK, 2) * 2 : (int)choose(WORK, 4));
  omp_sim::chunk = 1 + choose(WORK, 3);
  omp_sim::max_team = chance(WORK, 1, 6) ? 1 + (int)choose(WORK, 2) : 64;
  omp_sim::default_threads = 4;
  omp_sim::parallel_regions = 0;
  sched_config().races = chance(WORK, 1, 2);
  sched_start();
  alaya::vamana::VamanaBuilder b(d.v.data(), n, d.dim, p);
  b.build();
  Quiet q;
  if (omp_sim::parallel_regions) nontrivial();
  auto &g = b.graph();
  if (g.size() != n) fail("NODES", "%u points, %zu nodes", n, g.size());
  uint64_t edges = 0;
  for (uint32_t i = 0; i < n; ++i) {
    if (g[i].size() > p.R) fail("DEGREE", "node %u of %u has %zu neighbours, the bound is %u", i, n, g[i].size(), p.R);
    std::set<uint32_t> s;
    for (auto w : g[i]) {
      if (w >= n) fail("BAD_NEIGHBOUR", "node %u of %u has neighbour %u", i, n, w);
      if (w == i) fail("SELF_LOOP", "node %u is its own neighbour", i);
      if (!s.insert(w).second) fail("TWICE", "node %u has neighbour %u twice", i, w);
    }
    if (g[i].empty() && i != b.medoid()) fail("NO_NEIGHBOUR", "node %u of %u, not the entry point, has no neighbour", i, n);
    edges += g[i].size();
    checked();
  }
  // the entry point is a point closest to the centroid
  std::vector<double> c(d.dim, 0);
  for (uint32_t i = 0; i < n; ++i)
    for (uint32_t j = 0; j < d.dim; ++j) c[j] += d.v[i * d.dim + j];
  auto dist = [&](uint32_t i) {
    double s = 0;
    for (uint32_t j = 0; j < d.dim; ++j) {
      double x = (double)(float)(c[j] / n) - d.v[i * d.dim + j];
      s += x * x;
    }
    return s;
  };
  if (b.medoid() >= n) fail("ENTRY", "the entry point is %u of %u", b.medoid(), n);
  for (uint32_t i = 0; i < n; ++i)
    if (dist(i) < dist(b.medoid()) * (1 - 1e-4) - 1e-6)
      fail("ENTRY", "the entry point %u is %g from the centroid, point %u is %g", b.medoid(), dist(b.medoid()), i, dist(i));
  if (whole && d.distinct) {
    auto miss = reach(n, b.medoid(), [&](uint32_t u) { return g[u]; });
    checked();
    if (!miss.empty()) fail("UNREACHABLE", "with room for all links, node(s)%s of %u cannot be reached from the entry point %u", miss.c_str(), n, b.medoid());
    count("reachability");
  }
  count("vamana_graphs");
  count("edges", edges);
}

void hnsw() {
  using Sp = alaya::RawSpace<float, float, uint32_t>;
  bool whole = chance(WORK, 1, 3);
  uint32_t n, R;
  if (whole) {
    n = 2 + choose(WORK, 14);
    R = 2 * (n + 1 + choose(WORK, 4));
  } else {
    n = 1 + choose(WORK, 40);
    R = 4 + choose(WORK, 9);
  }
  uint32_t ef = whole ? n + choose(WORK, 10) : 1 + choose(WORK, 24);
  uint32_t threads = 1 + choose(WORK, 5);
  auto d = make(n, 1 + choose(WORK, 6), (int)choose(WORK, 4));
  const alaya::MetricType ms[] = {alaya::MetricType::L2, alaya::MetricType::IP};
  auto metric = ms[pick(WORK, {3, 1})];
  sched_config().races = chance(WORK, 1, 2);
  sched_start();
  auto sp = std::make_shared<Sp>(n + choose(WORK, 3), d.dim, metric);
  sp->fit(d.v.data(), n);
  alaya::HNSWBuilder<Sp> b(sp, R, ef);
  auto g = b.build_graph(threads);
  Quiet q;
  if (threads > 1 && n > 2) nontrivial();
  auto row = [&](const uint32_t *e, uint32_t bound, uint32_t i, int lv, auto ok) {
    std::vector<uint32_t> o;
    std::set<uint32_t> s;
    bool ended = false;
    for (uint32_t j = 0; j < g->max_nbrs_; ++j) {
      uint32_t w = e[j];
      if (w == (uint32_t)-1) {
        ended = true;
        continue;
      }
      if (ended) fail("HOLE", "node %u level %d: neighbour %u after the end of the list", i, lv, w);
      if (w >= n) fail("BAD_NEIGHBOUR", "node %u of %u level %d has neighbour %u", i, n, lv, w);
      if (w == i) fail("SELF_LOOP", "node %u level %d is its own neighbour", i, lv);
      if (!s.insert(w).second) fail("TWICE", "node %u level %d has neighbour %u twice", i, lv, w);
      if (!ok(w)) fail("WRONG_LEVEL", "node %u level %d has neighbour %u, which is not on that level", i, lv, w);
      o.push_back(w);
    }
    if (o.size() > bound) fail("DEGREE", "node %u level %d has %zu neighbours, the bound is %u", i, lv, o.size(), bound);
    checked();
    return o;
  };
  if (!g->overlay_graph_) fail("NO_OVERLAY", "the graph has no upper levels");
  auto &ov = *g->overlay_graph_;
  int top = -1;
  uint64_t edges = 0;
  std::vector<std::vector<uint32_t>> l0(n);
  for (uint32_t i = 0; i < n; ++i) {
    if (!g->data_storage_.is_valid(i)) fail("MISSING", "node %u of %u is not in the graph", i, n);
    l0[i] = row(g->edges(i), R / 2 * 2, i, 0, [](uint32_t) { return true; });
    if (n > 1 && l0[i].empty()) fail("NO_NEIGHBOUR", "node %u of %u has no neighbour", i, n);
    edges += l0[i].size();
    int lv = (int)ov.levels_[i];
    top = std::max(top, lv);
    if (lv < 0 || lv > 200) fail("LEVEL", "node %u has level %d", i, lv);
    for (int l = 1; l <= lv; ++l) row(&ov.at(l, i, 0), R / 2, i, l, [&](uint32_t w) { return (int)ov.levels_[w] >= l; });
  }
  if (g->data_storage_.pos_ != n) fail("NODES", "%u points, %zu nodes", n, (size_t)g->data_storage_.pos_);
  if (ov.ep_ >= n) fail("ENTRY", "the entry point is %u of %u", ov.ep_, n);
  if ((int)ov.levels_[ov.ep_] != top) fail("ENTRY", "the entry point %u is on level %d, the top level is %d", ov.ep_, (int)ov.levels_[ov.ep_], top);
  if (whole) {
    auto miss = reach(n, ov.ep_, [&](uint32_t u) { return l0[u]; });
    checked();
    if (!miss.empty()) fail("UNREACHABLE", "with room for all links, node(s)%s of %u cannot be reached from the entry point %u", miss.c_str(), n, ov.ep_);
    for (int l = 1; l <= top; ++l) {  // every node of a level is reachable on that level
      std::vector<uint32_t> on;
      auto m2 = reach(n, ov.ep_, [&](uint32_t u) {
        std::vector<uint32_t> o;
        for (uint32_t j = 0; j < g->max_nbrs_ && ov.at(l, u, j) != (uint32_t)-1; ++j) o.push_back(ov.at(l, u, j));
        return o;
      });
      std::string bad;
      std::set<std::string> ms;
      size_t p = 0;
      while (p < m2.size()) {
        size_t e = m2.find(' ', p + 1);
        auto id = (uint32_t)atoi(m2.substr(p + 1, e - p - 1).c_str());
        if ((int)ov.levels_[id] >= l) bad += " " + std::to_string(id);
        if (e == std::string::npos) break;
        p = e;
      }
      if (!bad.empty()) fail("UNREACHABLE", "with room for all links, node(s)%s cannot be reached on level %d from the entry point %u", bad.c_str(), l, ov.ep_);
    }
    count("reachability");
  }
  count("hnsw_graphs");
  count("edges", edges);
  count("levels", (uint64_t)top + 1);
}
}  // namespace

void sim_run() {
  if (!strcmp(mode(), "C22")) vamana();
  else hnsw();
}
