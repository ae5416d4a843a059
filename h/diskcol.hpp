// Shared by the disk collection harnesses: vectors, oracle and comparison.
#pragma once
#include <cmath>
#include <set>
#include <unordered_map>
#include "index/disk/disk_collection.hpp"
#include "../sim/sim.hpp"
namespace dc {
using namespace sim;
using alaya::MetricType;
using alaya::disk::DiskCollection;
using alaya::disk::DiskIndexType;
using alaya::disk::DiskSearchHit;
using alaya::disk::DiskSearchOptions;
struct Cfg {
  DiskIndexType type = DiskIndexType::Flat;
  MetricType metric = MetricType::L2;
  uint32_t dim = 3;
  size_t cap = DiskCollection::kDefaultMaxPendingBytes;
  alaya::disk::VamanaSegmentBuildParams vp;
};
inline Cfg g_cfg;
inline void draw_cfg(bool vamana = true) {
  Cfg c;
  c.type = vamana && choose(WORK, 3) == 1 ? DiskIndexType::Vamana : DiskIndexType::Flat;
  c.metric = c.type == DiskIndexType::Vamana ? MetricType::L2
                                             : (MetricType[]){MetricType::L2, MetricType::IP, MetricType::COS}[choose(WORK, 3)];
  c.dim = (uint32_t[]){3, 1, 8, 16, 17}[choose(WORK, 5)];
  c.vp.R = 32;
  c.vp.L = 48;
  c.vp.num_threads = 1;
  g_cfg = c;
}
// the vector of a label: small integers, so that L2 and IP are exact in float
inline std::vector<float> vec_of(uint64_t label) {
  std::vector<float> v(g_cfg.dim);
  uint64_t s = mix(label % 7 == 3 ? label / 2 : label);  // some labels share a vector
  for (uint32_t i = 0; i < g_cfg.dim; ++i) {
    s = mix(s + i);
    v[i] = (float)((int)(s % 9) - 4);
  }
  if (g_cfg.metric == MetricType::COS) v[0] = (float)(1 + (int)(mix(s) % 5));
  return v;
}
inline double dist(const std::vector<float> &q, const std::vector<float> &v) {
  double d = 0, nq = 0, nv = 0;
  for (size_t i = 0; i < q.size(); ++i) {
    if (g_cfg.metric == MetricType::L2) d += ((double)q[i] - v[i]) * ((double)q[i] - v[i]);
    else d -= (double)q[i] * v[i];
    nq += (double)q[i] * q[i];
    nv += (double)v[i] * v[i];
  }
  if (g_cfg.metric == MetricType::COS) d /= std::sqrt(nq) * std::sqrt(nv);
  return d;
}
using State = std::set<uint64_t>;
// Result of one search against a state.  Returns an explanation when it is wrong, "" otherwise.
inline std::string judge(const State &st, const std::vector<float> &q, uint32_t k, const std::vector<DiskSearchHit> &hits) {
  Quiet quiet;
  char b[200];
  size_t want = std::min<size_t>(k, st.size());
  if (hits.size() != want) {
    snprintf(b, sizeof b, "%zu hits, %zu expected (k %u, %zu records)", hits.size(), want, k, st.size());
    return b;
  }
  std::vector<std::pair<double, uint64_t>> all;
  for (uint64_t l : st) all.push_back({dist(q, vec_of(l)), l});
  std::sort(all.begin(), all.end());
  double eps = g_cfg.metric == MetricType::COS ? 1e-5 : 0;
  State seen;
  for (size_t i = 0; i < hits.size(); ++i) {
    uint64_t l = hits[i].label;
    if (!st.count(l)) {
      snprintf(b, sizeof b, "hit %zu has label %lu, which is not in the collection", i, l);
      return b;
    }
    if (!seen.insert(l).second) {
      snprintf(b, sizeof b, "label %lu is returned twice", l);
      return b;
    }
    double d = dist(q, vec_of(l));
    if (!(std::fabs(d - hits[i].distance) <= eps)) {
      snprintf(b, sizeof b, "label %lu is returned with distance %g, its vector's is %g", l, (double)hits[i].distance, d);
      return b;
    }
    if (std::fabs(d - all[i].first) > 2 * eps) {
      snprintf(b, sizeof b, "hit %zu is label %lu at %g, the %zu-th nearest is label %lu at %g", i, l, d, i, all[i].second, all[i].first);
      return b;
    }
    if (eps == 0 && all[i].second != l) {
      snprintf(b, sizeof b, "hit %zu is label %lu, label %lu at the same distance comes first", i, l, all[i].second);
      return b;
    }
  }
  return "";
}
inline std::vector<float> query_of(uint64_t x) {
  Quiet q;
  return vec_of(x * 2654435761u + 11);
}
inline DiskSearchOptions opts(uint32_t k, size_t n) {
  DiskSearchOptions o;
  o.top_k = k;
  o.ef = (uint32_t)std::max<size_t>(std::max<size_t>(k, n), 64);
  return o;
}
}  // namespace dc
// OpenMP is compiled out in these harnesses: builds are sequential
extern "C" {
__attribute__((weak)) int omp_get_num_procs() { return 1; }
__attribute__((weak)) int omp_get_thread_num() { return 0; }
__attribute__((weak)) int omp_get_max_threads() { return 1; }
__attribute__((weak)) void omp_set_num_threads(int) {}
}
