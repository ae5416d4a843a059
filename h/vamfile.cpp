// C28: building Vamana graph files, whole or in shards, and reading them back.
#include <omp.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <spdlog/spdlog.h>
#include "index/graph/vamana/build_dispatch.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "gomp.hpp"
#include "../sim/sim.hpp"
using namespace sim;
namespace fs = std::filesystem;
namespace va = alaya::vamana;
const char *sim_harness_name = "vamfile";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
struct Data {
  uint32_t n, dim;
  std::vector<float> v;
  bool distinct = true;
  const float *at(uint32_t i) const { return v.data() + (size_t)i * dim; }
};
Data make(uint32_t n, uint32_t dim, int kind) {
  Data d{n, dim, {}};
  uint64_t salt = choose(WORK, 1 << 16);
  std::set<std::vector<float>> seen;
  for (uint32_t i = 0; i < n; ++i) {
    std::vector<float> x(dim);
    for (uint32_t j = 0; j < dim; ++j) {
      uint64_t r = mix(salt * 1000003 + i * 131 + j);
      switch (kind) {
        case 0: x[j] = (float)(r % 1000) / 8; break;                    // scattered
        case 1: x[j] = (float)((i % 3) * 40) + (float)(r % 64) / 4; break;  // clusters
        case 2: x[j] = j == 0 ? (float)i : 0; break;                    // a line
        default: x[j] = (float)(r % 3); break;                          // a grid with many equal points
      }
    }
    if (!seen.insert(x).second) d.distinct = false;
    d.v.insert(d.v.end(), x.begin(), x.end());
  }
  return d;
}
std::string slurp(const fs::path &p) {
  std::ifstream in(p, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
template <class T>
void put(std::string &s, T v) { s.append((const char *)&v, sizeof v); }
uint32_t u32(const std::string &s, size_t o) {
  uint32_t x = 0;
  if (o + 4 <= s.size()) memcpy(&x, s.data() + o, 4);
  return x;
}
double dist2(const float *a, const float *b, uint32_t dim) {
  double s = 0;
  for (uint32_t j = 0; j < dim; ++j) s += ((double)a[j] - b[j]) * ((double)a[j] - b[j]);
  return s;
}
bool nearer(double a, double b) { return a < b * (1 - 1e-4) - 1e-3; }
struct Graph {
  uint32_t r = 0, start = 0;
  std::vector<std::vector<uint32_t>> nb;
};
Graph parse(const std::string &s, const char *what, uint32_t n, uint32_t R) {
  Graph g;
  uint64_t size = 0, frozen = 1;
  if (s.size() < 24) fail("DAMAGED", "%s has %zu bytes", what, s.size());
  memcpy(&size, s.data(), 8), memcpy(&frozen, s.data() + 16, 8);
  g.r = u32(s, 8), g.start = u32(s, 12);
  if (size != s.size()) fail("DAMAGED", "%s says it has %llu bytes, it has %zu", what, (unsigned long long)size, s.size());
  if (g.r != R || frozen) fail("DAMAGED", "%s has degree bound %u (asked for: %u), frozen points %llu", what, g.r, R, (unsigned long long)frozen);
  for (size_t o = 24; o < s.size();) {
    uint32_t k = u32(s, o);
    o += 4;
    if (o + (size_t)k * 4 > s.size()) fail("DAMAGED", "%s ends inside record %zu", what, g.nb.size());
    g.nb.emplace_back();
    for (uint32_t i = 0; i < k; ++i, o += 4) g.nb.back().push_back(u32(s, o));
  }
  if (g.nb.size() != n) fail("DAMAGED", "%s has %zu records for %u vectors", what, g.nb.size(), n);
  for (uint32_t i = 0; i < n; ++i) {
    if (g.nb[i].size() > R) fail("DEGREE", "%s: node %u has %zu neighbours, the bound is %u", what, i, g.nb[i].size(), R);
    std::set<uint32_t> t;
    for (auto w : g.nb[i]) {
      if (w >= n || w == i) fail("BAD_NEIGHBOUR", "%s: node %u of %u has neighbour %u", what, i, n, w);
      if (!t.insert(w).second) fail("TWICE", "%s: node %u has neighbour %u twice", what, i, w);
    }
  }
  checked(n);
  return g;
}
void judge_start(const Data &d, uint32_t start, const char *what) {
  std::vector<double> c(d.dim, 0);
  for (uint32_t i = 0; i < d.n; ++i)
    for (uint32_t j = 0; j < d.dim; ++j) c[j] += d.at(i)[j];
  std::vector<float> m(d.dim);
  for (uint32_t j = 0; j < d.dim; ++j) m[j] = (float)(c[j] / d.n);
  if (start >= d.n) fail("START", "%s starts at %u of %u", what, start, d.n);
  double s = dist2(d.at(start), m.data(), d.dim);
  for (uint32_t i = 0; i < d.n; ++i)
    if (nearer(dist2(d.at(i), m.data(), d.dim), s)) fail("START", "%s starts at %u (%g from the centre), %u is nearer (%g)", what, start, s, i, dist2(d.at(i), m.data(), d.dim));
  checked();
}
std::string reach(const Graph &g) {
  std::vector<char> s(g.nb.size(), 0);
  std::vector<uint32_t> st{g.start};
  s[g.start] = 1;
  while (!st.empty()) {
    auto u = st.back();
    st.pop_back();
    for (auto w : g.nb[u])
      if (!s[w]) s[w] = 1, st.push_back(w);
  }
  std::string miss;
  for (size_t i = 0; i < s.size(); ++i)
    if (!s[i]) miss += " " + std::to_string(i);
  return miss;
}
struct Ask {
  uint32_t R, L;
  float alpha;
  bool whole;  // nothing is pruned
};
// Shard s of the given centres: its ids, each with its own vector, none nearer to more than one other centre.
std::vector<uint32_t> judge_shard(const Data &d, const std::string &pre, uint32_t s, const float *piv, uint32_t row, uint32_t parts, std::vector<uint32_t> &copies) {
  std::string v = slurp(va::shard_data_path(pre, s)), ids = slurp(va::shard_idmap_path(pre, s));
  uint32_t n = u32(ids, 0);
  if (ids.size() != 8 + (size_t)n * 4 || u32(ids, 4) != 1 || u32(v, 0) != n || u32(v, 4) != d.dim || v.size() != 8 + (size_t)n * d.dim * 4)
    fail("DAMAGED", "shard %u: %u ids in %zu bytes, %u vectors in %zu bytes", s, n, ids.size(), u32(v, 0), v.size());
  std::vector<uint32_t> id(n);
  for (uint32_t i = 0; i < n; ++i) {
    id[i] = u32(ids, 8 + 4 * i);
    if (id[i] >= d.n || (i && id[i] <= id[i - 1])) fail("SHARD", "shard %u: id %u at %u of %u", s, id[i], i, n);
    if (memcmp(v.data() + 8 + (size_t)i * d.dim * 4, d.at(id[i]), d.dim * 4)) fail("SHARD", "shard %u holds another vector for %u", s, id[i]);
    ++copies[id[i]];
    double own = dist2(d.at(id[i]), piv + (size_t)row * d.dim, d.dim);
    uint32_t before = 0;
    for (uint32_t t = 0; t < parts; ++t) before += nearer(dist2(d.at(id[i]), piv + (size_t)t * d.dim, d.dim), own);
    if (before > 1) fail("SHARD", "vector %u is in shard %u, although %u shards are nearer", id[i], s, before);
  }
  checked(n);
  return id;
}
// What a sharded build leaves: centroids, shards (when kept) and their union.
void judge_shards(const Data &d, const Ask &a, const std::string &out, const Graph &g, uint64_t seed) {
  std::string c = slurp(out + "_centroids.bin");
  uint32_t parts = u32(c, 0);
  if (c.size() < 8 || parts == 0 || parts > d.n || u32(c, 4) != d.dim || c.size() != 8 + (size_t)parts * d.dim * 4)
    fail("DAMAGED", "the file of centroids has %zu bytes and says %u x %u", c.size(), parts, u32(c, 4));
  std::vector<float> piv((size_t)parts * d.dim);
  memcpy(piv.data(), c.data() + 8, piv.size() * 4);
  std::string m = slurp(out + "_medoids.bin");
  uint32_t mn = u32(m, 0);
  if (m.size() < 8 || mn > parts || mn == 0 || u32(m, 4) != 1 || m.size() != 8 + (size_t)mn * 4) fail("DAMAGED", "the file of medoids has %zu bytes and says %u", m.size(), mn);
  for (uint32_t i = 0; i < mn; ++i)
    if (u32(m, 8 + 4 * i) >= d.n) fail("DAMAGED", "medoid %u of %u is %u", i, mn, u32(m, 8 + 4 * i));
  // what the shards hold, if they are still there
  fs::path work = out + "_shard_work";
  std::string pre = (work / "s").string();
  std::vector<std::set<uint32_t>> un(d.n);
  std::vector<uint32_t> copies(d.n, 0), meds;
  std::vector<fs::path> gp, ip;
  uint32_t sr = std::max<uint32_t>(1, 2 * a.R / 3);
  for (uint32_t s = 0, row = 0; row < parts; ++s) {  // a shard nobody is near has no row
    if (!fs::exists(va::shard_data_path(pre, s)) || !fs::exists(va::shard_idmap_path(pre, s))) return;
    auto id = judge_shard(d, pre, s, piv.data(), row, parts, copies);
    uint32_t n = (uint32_t)id.size();
    if (n == 0) {
      count("empty_shards");
      continue;
    }
    Data sd{n, d.dim, {}};
    for (auto i : id) sd.v.insert(sd.v.end(), d.at(i), d.at(i) + d.dim);
    fs::path p = work / ("s_subshard-" + std::to_string(s) + "_mem.index");
    if (!fs::exists(p)) return;
    std::string what = "shard " + std::to_string(s);
    Graph sg = parse(slurp(p), what.c_str(), n, sr);
    judge_start(sd, sg.start, what.c_str());
    meds.push_back(id[sg.start]);
    for (uint32_t i = 0; i < n; ++i)
      for (auto w : sg.nb[i])
        if (id[w] != id[i]) un[id[i]].insert(id[w]);
    ++row;
    gp.push_back(p), ip.push_back(va::shard_idmap_path(pre, s));
  }
  for (uint32_t i = 0; i < d.n; ++i) {
    if (copies[i] != 2) fail("SHARD", "vector %u is in %u shards", i, copies[i]);
    for (auto w : g.nb[i])
      if (!un[i].count(w)) fail("MERGE", "node %u has neighbour %u, which no shard gave it", i, w);
    if (g.nb[i].size() != std::min<size_t>(un[i].size(), a.R)) fail("MERGE", "node %u has %zu neighbours of the %zu its shards gave it (bound %u)", i, g.nb[i].size(), un[i].size(), a.R);
  }
  if (mn != meds.size()) fail("MERGE", "%u medoids for %zu shards", mn, meds.size());
  for (uint32_t i = 0; i < mn; ++i)
    if (u32(m, 8 + 4 * i) != meds[i]) fail("MERGE", "medoid %u is %u, the shard's start is %u", i, u32(m, 8 + 4 * i), meds[i]);
  // the same shards and seed give the same file
  std::string again = std::string(root()) + "/again.index";
  va::merge_shards(gp, ip, again, a.R, g.start, seed);
  if (slurp(again) != slurp(out)) fail("MERGE", "merging the same shards again gives another file");
  checked(d.n);
  count("sharded_builds_judged");
  count("shards", parts);
}
void arm() {
  static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EINTR, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_OPEN_EIO, F_CLOSE_EIO};
  static const char *const names[] = {"", "g.index", "_centroids", "_medoids", "_mem.index", "_ids_uint32", "data.fbin", "subshard"};
  uint32_t at = choose(FAULT, 8);
  fault_path_filter(names[at]);
  bool input = at == 6;  // only read
  FaultKind k = ks[input ? 4 + choose(FAULT, 4) : choose(FAULT, 9)];
  bool intr = k == F_WRITE_EINTR || k == F_READ_EINTR;  // one that never ends would be a hang of the system
  arm_fault(k, 1 + (input ? choose(FAULT, 24) : small(FAULT, chance(FAULT, 1, 3) ? 40 : 6)), !intr && chance(FAULT, 1, 4) ? 0 : 1 + small(FAULT, 3));
}
// The same passes in small blocks.
void blocks(const Data &d, const std::string &in) {
  judge_start(d, va::compute_medoid_streaming(in, 1 + choose(WORK, d.n)), "a streaming pass");
  uint32_t parts = 2 + choose(WORK, 4);
  std::vector<float> c;
  for (uint32_t i = 0; i < parts; ++i) {
    const float *v = d.at(choose(WORK, d.n));
    c.insert(c.end(), v, v + d.dim);
  }
  std::string a = std::string(root()) + "/a";
  va::shard_data_by_centroids(in, c.data(), parts, 2, a, 1 + choose(WORK, d.n));
  Quiet q;
  std::vector<uint32_t> copies(d.n, 0);
  for (uint32_t i = 0; i < parts; ++i) judge_shard(d, a, i, c.data(), i, parts, copies);
  for (uint32_t i = 0; i < d.n; ++i)
    if (copies[i] != 2) fail("SHARD", "vector %u is in %u shards", i, copies[i]);
}
// A damaged graph file is refused.
void damaged(const std::string &out, const std::string &s) {
  std::string t = s, what;
  uint32_t n = 0;
  std::vector<size_t> at;
  for (size_t o = 24; o < s.size(); o += 4 + (size_t)u32(s, o) * 4, ++n) at.push_back(o);
  uint32_t i = choose(WORK, n);
  switch (choose(WORK, 6)) {
    case 0: t.resize(choose(WORK, (uint32_t)t.size())), what = "cut short"; break;
    case 1: t.append(1 + choose(WORK, 12), '\0'), what = "with more at its end"; break;
    case 2: memcpy(&t[12], &n, 4), what = "that starts at no node"; break;
    case 3:
      if (u32(s, at[i]) == 0) return;
      memcpy(&t[at[i] + 4], &n, 4), what = "with a neighbour that is no node";
      break;
    case 4:
      if (u32(s, at[i]) == 0) return;
      memcpy(&t[at[i] + 4 * u32(s, at[i])], &i, 4), what = "with a node that is its own neighbour";
      break;
    default: {
      uint32_t k = u32(s, 8) + 1 + choose(WORK, 3);
      memcpy(&t[at[i]], &k, 4), what = "with a node beyond its degree bound";
    }
  }
  std::string p = out + ".damaged";
  {
    std::ofstream o(p, std::ios::binary);
    o.write(t.data(), (std::streamsize)t.size());
  }
  checked();
  try {
    va::VamanaReader r(p);
  } catch (const std::exception &e) {
    count("damaged_refused");
    return;
  }
  fail("DAMAGE_ACCEPTED", "a graph file %s was read without an error", what.c_str());
}
}  // namespace

void sim_run() {
  bool shards = chance(WORK, 2, 3);
  Ask a;
  a.whole = chance(WORK, 1, 3);
  uint32_t n = shards ? 12 + choose(WORK, 40) : 2 + choose(WORK, 40);
  if (a.whole) n = shards ? 10 + choose(WORK, 14) : 2 + choose(WORK, 14);
  a.R = a.whole ? (n + 1) * 3 / 2 + choose(WORK, 4) : 3 + choose(WORK, 8);
  a.L = a.R + (a.whole ? 1 : 0) + choose(WORK, 12);
  static const float al[] = {1.2f, 1.0f, 1.5f, 2.0f};
  a.alpha = a.whole ? 1e30f : al[choose(WORK, 4)];
  int kind = (int)pick(WORK, {4, 3, 3, 1});
  uint32_t dim = chance(WORK, 1, 5) ? 60 + choose(WORK, 100) : 1 + choose(WORK, 6);  // more than a stream buffer
  Data d = make(n, dim, kind);
  sched_start();
  sched_config().max_steps = 400000000;
  if (chance(WORK, 1, 3)) sched_config().races = true;
  fs_enable();
  fs_config().faults = true;
  omp_sim::default_threads = 1 + choose(WORK, 4);
  omp_sim::chunk = 1 + choose(WORK, 3);
  std::string dir = std::string(root()) + "/x", in = dir + "/data.fbin", out = dir + "/g.index";
  fs::create_directory(dir);
  {
    std::string s;
    put(s, d.n), put(s, d.dim);
    s.append((const char *)d.v.data(), d.v.size() * 4);
    std::ofstream o(in, std::ios::binary);
    o.write(s.data(), (std::streamsize)s.size());
  }
  va::BuildVamanaParams p;
  p.data_path = in, p.output_path = out, p.R = a.R, p.L = a.L, p.alpha = a.alpha, p.seed = 1 + choose(WORK, 1000);
  p.num_threads = chance(WORK, 1, 8) ? 0 : 1 + choose(WORK, 5);
  p.sampling_rate = -1.f;
  double whole_gib = va::estimate_ram_usage_gib(n, d.dim, 4, a.R);
  p.build_dram_budget_gb = shards ? (float)(whole_gib * (0.55 + 0.05 * choose(WORK, 8))) : 32.f;
  if (chance(WORK, 1, 16)) {  // a file of vectors that ends early
    fs::resize_file(in, 8 + choose(WORK, n * dim * 4));
    try {
      va::build_vamana(p);
    } catch (const std::exception &e) {
      count("truncated_inputs");
      return nontrivial();
    }
    fail("TRUNCATED", "a graph was built from a file of vectors that ends early");
  }
  bool faults = chance(FAULT, 2, 3);
  auto attempt = [&](bool bad) {
    uint64_t before = faults_fired();
    if (bad) arm();
    bool ok = true;
    try {
      va::build_vamana(p);
    } catch (const std::exception &e) {
      ok = false;
      trace("build failed: %s", e.what());
      if (faults_fired() == before) {
        // no number of shards meets the budget
        bool fits = true;
        if (shards) {
          va::BudgetLoopParams b;
          b.graph_degree = std::max<uint32_t>(1, 2 * a.R / 3), b.sampling_rate = 1, b.ram_budget_gib = p.build_dram_budget_gb, b.base_kmeans.seed = p.seed;
          std::vector<float> piv;
          try {
            va::determine_num_parts_with_ram_budget(d.v.data(), d.n, d.v.data(), d.n, d.dim, b, piv);
          } catch (const std::exception &) {
            fits = false;
          }
        }
        if (!fits) {
          count("budget_refused");
          disarm_faults();
          fault_path_filter("");
          return true;
        }
        fail("REFUSED", "a build failed although nothing below failed: %s", e.what());
      }
      count("failed_builds");
    }
    disarm_faults();
    fault_path_filter("");
    if (!ok) return false;
    Quiet q;
    Graph g = parse(slurp(out), bad ? "the graph built under faults" : "the graph", n, a.R);
    judge_start(d, g.start, "the graph");
    bool sharded = fs::exists(out + "_centroids.bin");
    if (sharded != shards && !(bad)) fail("DISPATCH", shards ? "a build beyond its memory budget was not done in shards" : "a build within its memory budget was done in shards");
    if (sharded) judge_shards(d, a, out, g, p.seed);
    else if (a.whole && d.distinct) {
      auto miss = reach(g);
      if (!miss.empty()) fail("UNREACHABLE", "with room for all links, node(s)%s cannot be reached from %u", miss.c_str(), g.start);
    }
    count("builds");
    return true;
  };
  bool done = faults && attempt(true);
  if (!done) attempt(false);
  nontrivial();
  if (!fs::exists(out)) return;
  if (chance(WORK, 1, 3)) blocks(d, in);
  // reading it
  for (uint32_t i = 0; i < 2; ++i) {
    bool bad = i == 0 && chance(FAULT, 1, 2);
    uint64_t before = faults_fired();
    if (bad) {
      static const FaultKind ks[] = {F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_OPEN_EIO};
      FaultKind k = ks[choose(FAULT, 4)];
      arm_fault(k, 1 + small(FAULT, 4), k != F_READ_EINTR && chance(FAULT, 1, 4) ? 0 : 1 + small(FAULT, 3));
    }
    std::unique_ptr<va::VamanaReader> r;
    std::string why;
    try {
      r = std::make_unique<va::VamanaReader>(out);
    } catch (const std::exception &e) {
      why = e.what();
    }
    bool fired = faults_fired() != before;
    disarm_faults();
    Quiet q;
    std::string s = slurp(out);
    uint64_t size = 0;
    memcpy(&size, s.data(), std::min<size_t>(8, s.size()));
    if (size != s.size()) return;  // what a refused build left
    Graph g;
    bool empty = false;
    g.r = u32(s, 8), g.start = u32(s, 12);
    for (size_t o = 24; o < s.size();) {
      uint32_t k = u32(s, o);
      o += 4;
      empty |= k == 0;
      g.nb.emplace_back();
      for (uint32_t j = 0; j < k; ++j, o += 4) g.nb.back().push_back(u32(s, o));
    }
    checked();
    if (!r) {
      if (!fired && !empty) fail("UNREADABLE", "reading the graph failed although nothing below failed: %s", why.c_str());
      count("failed_reads");
    } else if (r->graph() != g.nb || r->start() != g.start || r->max_degree() != g.r) {
      fail("MISREAD", "the graph read%s differs from the file", fired ? " under faults" : "");
    }
    if (i == 1 && r) damaged(out, s);
  }
}
