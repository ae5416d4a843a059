// C18 C27: LASER: searches of a disk-resident index (engine, segment and collection) and building one.
#include <fcntl.h>
#include <omp.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include "index/disk/disk_collection.hpp"
#include "index/graph/laser/qg/qg.hpp"
#include "index/graph/laser/qg/qg_builder.hpp"
#include "gomp.hpp"
#include "../sim/sim.hpp"
using namespace sim;
using namespace alaya;
using namespace alaya::laser;
namespace fs = std::filesystem;
const char *sim_harness_name = "laser";
namespace {
#define PLAIN __attribute__((no_sanitize("thread"), noinline))
constexpr uint32_t R = 32;

// Coordinates are small integers (also after the transformation), so that every distance is exact.
struct Fixture {
  uint32_t n, main, res;
  bool medoids, pca;
  std::vector<std::vector<float>> v;      // as the user gave them
  std::map<std::string, std::string> in;  // what a build starts from
  std::map<std::string, std::string> out; // what it makes
  uint32_t dim() const { return main + res; }
};
std::vector<Fixture> g_fix;
std::string g_wrong;  // what is wrong with an index built on a healthy disk
const char *kPrefix = "dsqg_seg_00000001";
std::string index_name(const Fixture &f, const std::string &prefix = kPrefix) { return prefix + "_R" + std::to_string(R) + "_MD" + std::to_string(f.main) + ".index"; }
PLAIN float dist2(const float *a, const float *b, uint32_t dim) {
  float s = 0;
  for (uint32_t d = 0; d < dim; ++d) s += (a[d] - b[d]) * (a[d] - b[d]);
  return s;
}
std::vector<float> make_vec(uint64_t key, uint32_t dim) {
  std::vector<float> v(dim);
  for (uint32_t d = 0; d < dim; ++d) v[d] = (float)(mix(key * 4099 + d) % 32);
  return v;
}
std::string slurp(const fs::path &p) {
  std::ifstream in(p, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
void spit(const fs::path &p, const std::string &s) {
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(s.data(), (std::streamsize)s.size());
}
template <class T>
void put(std::string &s, const T *p, size_t n) { s.append((const char *)p, n * sizeof(T)); }
template <class T>
void put(std::string &s, T v) { put(s, &v, 1); }
void build_plain(const Fixture &f, const std::string &dir, uint32_t threads) {
  QuantizedGraph g(f.n, R, f.main, f.dim(), 77);
  QGBuilder b(g, 64, threads);
  b.build((dir + "/graph").c_str(), (dir + "/" + kPrefix).c_str());
}
// Is the index that a build made what its input says?  (The layout is what the search computes.)
std::string judge_index(const Fixture &f, const std::vector<std::vector<float>> &st, const std::vector<std::vector<uint32_t>> &nb, uint32_t start) {
  char m[200] = "";
  auto it = f.out.find(index_name(f));
  if (f.out.size() != 4 || it == f.out.end() || !f.out.count(index_name(f) + "_cache_ids") || !f.out.count(index_name(f) + "_cache_nodes")) return "a file is missing";
  const std::string &idx = it->second;
  size_t nl = (32 * f.main + 32 * f.res + 128 * R + R * f.main) / 8, npp = std::max<size_t>(1, 4096 / nl), ps = (npp * nl + 4095) / 4096 * 4096;
  size_t want = 4096 + (f.n + npp - 1) / npp * ps;
  if (idx.size() != want) return snprintf(m, sizeof m, "the file has %zu bytes, not %zu", idx.size(), want), m;
  uint64_t h[9], hw[9] = {f.n, f.main, start, nl, npp, 0, 0, 0, want};
  memcpy(h, idx.data(), sizeof h);
  for (int i : {0, 1, 2, 3, 4, 8})
    if (h[i] != hw[i]) return snprintf(m, sizeof m, "header field %d is %llu, not %llu", i, (unsigned long long)h[i], (unsigned long long)hw[i]), m;
  auto record = [&](uint32_t i) { return idx.data() + 4096 + i / npp * ps + i % npp * nl; };
  for (uint32_t i = 0; i < f.n; ++i) {
    if (memcmp(record(i), st[i].data(), f.dim() * 4)) return snprintf(m, sizeof m, "the vector in record %u is not its vector", i), m;
    std::vector<uint32_t> ids(R), w = nb[i];
    memcpy(ids.data(), record(i) + nl - 4 * R, 4 * R);
    std::sort(ids.begin(), ids.end()), std::sort(w.begin(), w.end());
    if (ids != w) return snprintf(m, sizeof m, "the neighbours in record %u are not those of the graph", i), m;
  }
  const std::string &ci = f.out.at(index_name(f) + "_cache_ids"), &cn = f.out.at(index_name(f) + "_cache_nodes");
  size_t a = 0, b = 0;
  if (ci.size() >= 8) memcpy(&a, ci.data(), 8);
  if (cn.size() >= 8) memcpy(&b, cn.data(), 8);
  if (a == 0 || a > f.n || a != b || ci.size() != 8 + a * 4 || cn.size() != 16 + a * nl) return snprintf(m, sizeof m, "the cache files hold %zu ids (%zu bytes) and %zu records (%zu bytes)", a, ci.size(), b, cn.size()), m;
  std::set<uint32_t> seen;
  for (size_t i = 0; i < a; ++i) {
    uint32_t id;
    memcpy(&id, ci.data() + 8 + 4 * i, 4);
    if (id >= f.n || !seen.insert(id).second) return snprintf(m, sizeof m, "cached id %u is out of range or there twice", id), m;
    if (memcmp(cn.data() + 16 + i * nl, record(id), nl)) return snprintf(m, sizeof m, "the cached record of %u is not its record", id), m;
  }
  return "";
}
void make_fixtures() {
  static const Fixture shapes[] = {
      {33, 128, 0, false, false, {}, {}, {}}, {40, 64, 0, true, false, {}, {}, {}},  {70, 64, 16, false, true, {}, {}, {}},
      {48, 128, 0, true, true, {}, {}, {}},   {120, 64, 0, true, true, {}, {}, {}},  {35, 512, 8, false, false, {}, {}, {}},
      {60, 128, 0, false, false, {}, {}, {}}, {90, 128, 32, true, true, {}, {}, {}}, {33, 64, 0, false, false, {}, {}, {}}};
  char dir[] = "/dev/shm/sim-fixXXXXXX";
  if (!mkdtemp(dir)) abort();
  uint64_t salt = 1;
  for (auto f : shapes) {
    uint32_t dim = f.dim(), n = f.n;
    ++salt;
    std::vector<uint32_t> perm(dim);
    std::vector<float> mean(dim, 0.f);
    for (uint32_t d = 0; d < dim; ++d) perm[d] = f.pca ? (d * 7 + 3) % dim : d;
    if (std::set<uint32_t>(perm.begin(), perm.end()).size() != dim) abort();
    std::string base, graph, pca, mi, mv;
    put<int>(base, (int)n), put<int>(base, (int)dim);
    std::vector<std::vector<float>> st;
    for (uint32_t i = 0; i < n; ++i) {
      f.v.push_back(make_vec(salt * 100000 + i, dim));
      std::vector<float> s(dim);
      for (uint32_t d = 0; d < dim; ++d) s[d] = f.v[i][perm[d]] - (f.pca ? 5.f : 0.f);
      put(base, s.data(), dim);
      st.push_back(s);
    }
    if (f.pca) {
      put<uint64_t>(pca, dim);
      for (auto &m : mean) m = 5;
      put(pca, mean.data(), dim);
      for (uint32_t d = 0; d < dim; ++d) {
        std::vector<float> row(dim, 0.f);
        row[perm[d]] = 1;
        put(pca, row.data(), dim);
      }
    }
    uint32_t start = (uint32_t)(mix(salt) % n);
    put<size_t>(graph, 24 + (size_t)n * 4 * (R + 1)), put<uint32_t>(graph, R), put<uint32_t>(graph, start), put<size_t>(graph, 0);
    std::vector<std::vector<uint32_t>> nbs;
    for (uint32_t i = 0; i < n; ++i) {
      std::vector<uint32_t> nb{(i + 1) % n};
      for (uint64_t x = 0; nb.size() < R; ++x) {
        uint32_t c = (uint32_t)(mix(salt * 7919 + i * 131 + x) % n);
        if (c != i && std::find(nb.begin(), nb.end(), c) == nb.end()) nb.push_back(c);
      }
      put<uint32_t>(graph, R), put(graph, nb.data(), R);
      nbs.push_back(nb);
    }
    std::string d = std::string(dir) + "/x";
    fs::create_directory(d);
    f.in["graph"] = graph;
    f.in[std::string(kPrefix) + "_pca_base.fbin"] = base;
    for (auto &[k, c] : f.in) spit(d + "/" + k, c);
    // (in a process of its own: it may die)
    std::string why;
    pid_t pid = fork();
    if (pid == 0) {
      try {
        build_plain(f, d, 1);
        _exit(0);
      } catch (...) {
        _exit(1);
      }
    }
    int rc = 0;
    waitpid(pid, &rc, 0);
    if (WIFSIGNALED(rc)) why = "the build died of signal " + std::to_string(WTERMSIG(rc));
    else if (WEXITSTATUS(rc)) why = "the build was refused";
    for (auto &e : fs::directory_iterator(d))
      if (!f.in.count(e.path().filename().string())) f.out[e.path().filename().string()] = slurp(e.path());
    if (f.medoids) {
      uint32_t m = 3;
      put<int>(mi, (int)m), put<int>(mi, 1), put<int>(mv, (int)m), put<int>(mv, (int)dim);
      for (uint32_t i = 0; i < m; ++i) {
        uint32_t id = (start + 1 + i * (n / 4)) % n;
        put<int>(mi, (int)id);
        put(mv, st[id].data(), dim);
      }
    }
    fs::remove_all(d);
    std::string w = why.empty() ? judge_index(f, st, nbs, start) : why;
    if (!w.empty() && g_wrong.empty()) g_wrong = "an index of " + std::to_string(n) + " vectors built on a healthy disk: " + w;
    if (f.pca) f.out[std::string(kPrefix) + "_pca.bin"] = pca;
    if (f.medoids) f.out[std::string(kPrefix) + "_medoids"] = mv, f.out[std::string(kPrefix) + "_medoids_indices"] = mi;
    g_fix.push_back(std::move(f));
  }
  fs::remove_all(dir);
}

uint64_t bad_io() {
  Quiet q;
  uint64_t n = faults_fired() + aio_faults(true);
  for (auto &o : aio_log()) n += o.done && o.res != (int64_t)o.len;
  return n;
}
void device(bool bad) {
  auto &a = aio_config();
  a = AioConfig();
  static const uint64_t ds[] = {2000, 20000, 200000};
  a.max_delay_ns = ds[choose(WORK, 3)];
  if (chance(FAULT, 1, 2)) a.partial = 4, a.eintr = 6, a.wait_partial = 4;
  if (chance(FAULT, 1, 3)) a.again = 6;
  if (!bad) return;
  if (chance(FAULT, 1, 2)) a.eio = 3 + choose(FAULT, 40);
  if (chance(FAULT, 1, 2)) a.shortr = 3 + choose(FAULT, 40);
  if (chance(FAULT, 1, 3)) a.error = 4 + choose(FAULT, 20);
}
void start_world() {
  sched_start();
  sched_config().max_steps = 400000000;
  omp_sim::default_threads = 1 + choose(WORK, 4);
  fs_enable();
  fs_config().faults = true;
}

// ------------------------------------------------------------------ searches
struct Ask {
  std::vector<std::vector<float>> q;
  uint32_t k;
};
Ask draw_ask(const Fixture &f, uint32_t kmax, bool batch) {
  Ask a;
  a.k = 1 + choose(WORK, kmax);
  for (uint32_t i = batch ? 1 + choose(WORK, 5) : 1; i-- > 0;) {
    if (chance(WORK, 1, 3)) a.q.push_back(f.v[choose(WORK, f.n)]);
    else a.q.push_back(make_vec(900000 + choose(WORK, 50), f.dim()));
  }
  return a;
}
// ids: what a search of f for the k nearest of q returned.
void judge(const Fixture &f, const std::vector<float> &q, const std::vector<uint32_t> &ids, bool all, const char *how) {
  std::vector<float> d, got;
  for (auto &v : f.v) d.push_back(dist2(q.data(), v.data(), f.dim()));
  std::set<uint32_t> seen;
  bool end = false;
  for (auto id : ids) {
    checked();
    if (id == kPidMax && !all) {  // met fewer records than were asked for
      end = true;
      continue;
    }
    if (end) fail("ROW", "%s: a result after the padding", how);
    if (id >= f.n) fail("BAD_ID", "%s returned record %u of %u", how, id, f.n);
    if (!seen.insert(id).second) fail("DUPLICATE", "%s returned record %u twice", how, id);
    if (!got.empty() && d[id] < got.back()) fail("ORDER", "%s: record %u (distance %g) comes after one at distance %g", how, id, d[id], got.back());
    got.push_back(d[id]);
  }
  if (!all) return;
  std::sort(d.begin(), d.end());
  for (size_t i = 0; i < got.size(); ++i)
    if (got[i] != d[i]) fail("WRONG_ANSWER", "%s: result %zu is at distance %g, the %zu-th nearest at %g", how, i, got[i], i, d[i]);
}
uint32_t everything(const Fixture &f) { return f.n * (R + 1) + 4; }

void engine() {
  Fixture &f = g_fix[choose(WORK, (uint32_t)g_fix.size())];
  std::string dir = std::string(root()) + "/x", prefix = dir + "/" + kPrefix;
  start_world();
  if (chance(WORK, 1, 3)) sched_config().races = true;
  fs::create_directory(dir);
  {
    for (auto &[n, c] : f.out) spit(dir + "/" + n, c);
  }
  device(false);
  uint32_t nw = 1 + choose(WORK, 3), nt = 1 + choose(WORK, 3), ef = 1 + choose(WORK, f.n), beam = 1 + choose(WORK, 6);
  bool all = chance(WORK, 2, 3);
  if (all) ef = everything(f);
  uint32_t kmax = all ? f.n : ef;
  std::unique_ptr<QuantizedGraph> g;
  auto fresh = [&](bool bad) {
    if (bad) {
      static const FaultKind ks[] = {F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_OPEN_EIO};
      arm_fault(ks[choose(FAULT, 4)], 1 + small(FAULT, 12), 1 + small(FAULT, 3));
      if (chance(FAULT, 1, 3)) aio_config().setup = 3;
    }
    uint64_t b = bad_io();
    try {
      g = std::make_unique<QuantizedGraph>(f.n, R, f.main, f.dim());
      g->load_disk_index(prefix.c_str(), 0.5f);
    } catch (const std::exception &e) {
      if (bad_io() == b) fail("REFUSED", "loading failed although nothing below failed: %s", e.what());
      trace("load failed: %s", e.what());
      count("failed_loads");
      g.reset();
    }
    disarm_faults();
    aio_config().setup = 0;
    return g != nullptr;
  };
  auto params = [&](bool bad) {
    if (bad) {
      if (chance(FAULT, 1, 2)) aio_config().setup = 2 + choose(FAULT, 4);
      else arm_fault(F_OPEN_EIO, 1, 1);
    }
    uint64_t b = bad_io();
    bool ok = true;
    try {
      g->set_params(ef, nw, (int)beam);
    } catch (const std::exception &e) {
      if (bad_io() == b) fail("REFUSED", "set_params failed although nothing below failed: %s", e.what());
      trace("set_params failed: %s", e.what());
      count("failed_set_params");
      ok = false;
    }
    disarm_faults();
    aio_config().setup = 0;
    return ok;
  };
  if (!chance(FAULT, 1, 4) || !fresh(true)) fresh(false);
  if (chance(FAULT, 1, 5) && !params(true) && chance(WORK, 1, 2)) {
    // no workspace now: a search has to say so
    Ask a = draw_ask(f, 1, false);
    std::vector<uint32_t> ids(1, 7777);
    try {
      g->search(a.q[0].data(), 1, ids.data());
      judge(f, a.q[0], ids, all, "a search after set_params failed");
    } catch (const std::exception &e) {
      count("refused_without_workspace");
    }
  }
  params(false);
  auto searching = [&](uint32_t ops, bool bad) {
    std::vector<std::thread> ts;
    for (uint32_t t = 0; t < nt; ++t)
      ts.emplace_back([&] {
        for (uint32_t k = 0; k < ops; ++k) {
          Ask a;
          std::vector<float> qs;
          std::vector<uint32_t> ids;
          bool batch;
          uint64_t b;
          {
            Quiet z;
            batch = chance(WORK, 1, 3);
            a = draw_ask(f, kmax, batch);
            for (auto &q : a.q) qs.insert(qs.end(), q.begin(), q.end());
            ids.assign(a.q.size() * a.k, 7777);
            trace("%s %zu queries k %u ef %u", batch ? "batch" : "search", a.q.size(), a.k, ef);
          }
          b = bad_io();
          try {
            if (batch) g->batch_search(qs.data(), a.k, ids.data(), a.q.size());
            else g->search(qs.data(), a.k, ids.data());
          } catch (const std::exception &e) {
            if (bad_io() == b) fail("REFUSED", "a search failed although nothing below failed: %s", e.what());
            count("failed_searches");
            trace("failed: %s", e.what());
            continue;
          }
          Quiet z;
          for (size_t i = 0; i < a.q.size(); ++i)
            judge(f, a.q[i], std::vector<uint32_t>(ids.begin() + (long)(i * a.k), ids.begin() + (long)((i + 1) * a.k)), all, bad ? "a search under faults" : "a search");
          count(batch ? "batch_searches" : "searches");
        }
      });
    for (auto &t : ts) t.join();
  };
  for (uint32_t round = 1 + choose(WORK, 2); round-- > 0;) {
    if (chance(FAULT, 3, 4)) {
      device(true);
      searching(1 + choose(WORK, 4), true);
      device(false);
    }
    searching(1 + choose(WORK, 2), false);
    // as many searches as were asked for can still be under way at once
    if (chance(WORK, 1, 2)) {
      size_t from;
      {
        Quiet z;
        from = aio_log().size();
      }
      aio_config().hold = true;
      std::vector<std::thread> ts;
      std::vector<std::vector<uint32_t>> ids(nw);
      std::vector<float> q = make_vec(900000, f.dim());
      uint32_t finished = 0;
      for (uint32_t t = 0; t < nw; ++t)
        ts.emplace_back([&, t] {
          ids[t].assign(1, 7777);
          g->search(q.data(), 1, ids[t].data());
          Quiet z;
          ++finished;
        });
      uint64_t limit = step() + 400000;
      size_t under_way = 0;
      idle_until([&] {
        std::set<uint64_t> c;
        for (size_t i = from; i < aio_log().size(); ++i) c.insert(aio_log()[i].ctx);
        under_way = c.size();
        return c.size() + finished >= nw || step() > limit;
      });
      if (under_way + finished < nw) fail("LOST_WORKSPACE", "only %zu searches can run at once, %u were asked for", under_way, nw);
      aio_release();
      for (auto &t : ts) t.join();
      Quiet z;
      for (auto &i : ids) judge(f, q, i, all, "a search");
      count("concurrency_probes");
    }
    if (round && chance(WORK, 1, 2)) {
      nw = 1 + choose(WORK, 3);
      if (chance(FAULT, 1, 3)) params(true);
      params(false);
    }
  }
  nontrivial();
  g.reset();
  if (aio_contexts()) fail("LEAK", "%zu I/O contexts are left after the index is gone", aio_contexts());
}

// ------------------------------------------------------------------ segments of a collection
void collection() {
  std::vector<Fixture *> fit;
  for (auto &f : g_fix)
    if (f.main == 128 && !f.res) fit.push_back(&f);
  start_world();
  if (chance(WORK, 1, 3)) sched_config().races = true;
  device(false);
  uint32_t ns = 1 + choose(WORK, 2);
  std::vector<Fixture *> segs;
  std::string dir = std::string(root()) + "/col", src = std::string(root()) + "/src";
  fs::create_directory(src);
  for (uint32_t s = 0; s < ns; ++s) {
    segs.push_back(fit[choose(WORK, (uint32_t)fit.size())]);
    char id[32];
    snprintf(id, sizeof id, "dsqg_seg_%08u", s + 1);
    for (auto &[n, c] : segs[s]->out) spit(src + "/" + id + n.substr(strlen(kPrefix)), c);
  }
  auto label = [](uint32_t s, uint32_t id) { return (uint64_t)(s + 1) * 100000 + id * 3; };
  disk::LaserSegmentImportParams ip;
  std::unique_ptr<disk::DiskCollection> c;
  uint64_t b = bad_io();
  (void)ip, (void)b;
  { disk::DiskCollection w(dir, 128, MetricType::L2, disk::DiskIndexType::Laser); }
  {
    std::ofstream(dir + "/collection_manifest.txt", std::ios::app) << "x_R=" << R << "\n";
    auto w = disk::DiskCollection::open(dir);
    for (uint32_t s = 0; s < ns; ++s) {
      std::vector<uint64_t> ls;
      for (uint32_t i = 0; i < segs[s]->n; ++i) ls.push_back(label(s, i));
      w.import_laser_segment(src, ls.data(), segs[s]->n);
    }
  }
  auto open = [&](bool bad) {
    if (bad) {
      static const FaultKind ks[] = {F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_OPEN_EIO};
      arm_fault(ks[choose(FAULT, 4)], 1 + small(FAULT, 20), 1 + small(FAULT, 3));
      if (chance(FAULT, 1, 3)) aio_config().setup = 3;
    }
    uint64_t b = bad_io();
    try {
      c = std::make_unique<disk::DiskCollection>(disk::DiskCollection::open(dir));
    } catch (const std::exception &e) {
      if (bad_io() == b) fail("REFUSED", "opening failed although nothing below failed: %s", e.what());
      count("failed_opens");
    }
    disarm_faults();
    aio_config().setup = 0;
    return c != nullptr;
  };
  if (!chance(FAULT, 1, 4) || !open(true)) open(false);
  uint32_t nt = 1 + choose(WORK, 3);
  struct P {
    uint32_t ef, beam;
    bool all;
  };
  std::vector<P> ps;
  uint32_t most = 0;
  for (auto *f : segs) most = std::max(most, f->n);
  for (uint32_t i = 1 + choose(WORK, 2); i-- > 0;) {
    P p{1 + choose(WORK, most), 1 + choose(WORK, 6), chance(WORK, 2, 3)};
    if (p.all) p.ef = most * (R + 1) + 4;
    ps.push_back(p);
  }
  auto searching = [&](uint32_t ops, bool bad) {
    std::vector<std::thread> ts;
    for (uint32_t t = 0; t < nt; ++t)
      ts.emplace_back([&] {
        for (uint32_t k = 0; k < ops; ++k) {
          P p;
          Ask a;
          disk::DiskSearchOptions o;
          bool batch;
          {
            Quiet z;
            p = ps[choose(WORK, (uint32_t)ps.size())];
            batch = chance(WORK, 1, 3);
            a = draw_ask(*segs[0], most + 3, batch);
            o.top_k = a.k, o.ef = p.ef, o.beam_width = p.beam;
            if (bad && chance(FAULT, 1, 4)) aio_config().setup = 3;
            else aio_config().setup = 0;
          }
          std::vector<std::vector<uint64_t>> rows;
          uint64_t b = bad_io();
          try {
            if (batch) {
              std::vector<float> qs;
              std::vector<uint64_t> out;
              {
                Quiet z;
                for (auto &q : a.q) qs.insert(qs.end(), q.begin(), q.end());
                out.assign(a.q.size() * a.k, ~0ull);
              }
              c->batch_search(qs.data(), a.q.size(), o, 1 + (uint32_t)choose(WORK, 3), out.data(), nullptr);
              Quiet z;
              for (size_t i = 0; i < a.q.size(); ++i) {
                rows.emplace_back();
                for (uint32_t j = 0; j < a.k; ++j)
                  if (out[i * a.k + j] != ~0ull) rows.back().push_back(out[i * a.k + j]);
              }
            } else {
              auto hits = c->search(a.q[0].data(), o);
              Quiet z;
              rows.emplace_back();
              for (auto &h : hits) rows.back().push_back(h.label);
            }
          } catch (const std::exception &e) {
            if (bad_io() == b) fail("REFUSED", "a search failed although nothing below failed: %s", e.what());
            count("failed_searches");
            trace("failed: %s", e.what());
            continue;
          }
          Quiet z;
          const char *how = bad ? "a collection search under faults" : "a collection search";
          for (size_t i = 0; i < rows.size(); ++i) {
            size_t have = 0;
            for (auto *f : segs) have += f->n;
            checked();
            if (p.all ? rows[i].size() != std::min<size_t>(a.k, have) : rows[i].size() > a.k) fail("ROW", "%s found %zu of %zu records, %u were asked for", how, rows[i].size(), have, a.k);
            for (uint32_t s = 0; s < ns; ++s) {
              std::vector<uint32_t> ids;
              for (auto l : rows[i])
                if (l / 100000 == s + 1) ids.push_back((uint32_t)(l % 100000 / 3));
              judge(*segs[s], a.q[i], ids, p.all, how);
            }
          }
          count(batch ? "collection_batch_searches" : "collection_searches");
        }
      });
    for (auto &t : ts) t.join();
  };
  for (uint32_t round = 1 + choose(WORK, 2); round-- > 0;) {
    if (chance(FAULT, 3, 4)) {
      device(true);
      searching(1 + choose(WORK, 4), true);
      device(false);
    }
    searching(1 + choose(WORK, 2), false);
  }
  nontrivial();
  c.reset();
  if (aio_contexts()) fail("LEAK", "%zu I/O contexts are left after the collection is gone", aio_contexts());
}

// ------------------------------------------------------------------ building
void build() {
  Fixture &f = chance(WORK, 1, 3) ? g_fix[choose(WORK, (uint32_t)g_fix.size())] : g_fix.back();
  std::string dir = std::string(root()) + "/x";
  start_world();
  if (chance(WORK, 1, 3)) sched_config().races = true;
  fs::create_directory(dir);
  for (auto &[n, c] : f.in) spit(dir + "/" + n, c);
  bool faults = chance(FAULT, 2, 3);
  auto attempt = [&](bool bad) {
    device(bad);
    if (!bad) aio_config().eio = aio_config().shortr = 0;
    if (bad && chance(FAULT, 2, 3)) {
      if (chance(FAULT, 1, 2)) {  // one of the files it writes
        static const char *const fs[] = {"_cache_nodes", "_cache_ids", "_rotator", "_tmp.fbin", ".index"};
        static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_OPEN_EIO, F_CLOSE_EIO};
        uint32_t at = choose(FAULT, 5);
        fault_path_filter(fs[at]);
        arm_fault(ks[pick(FAULT, {4, 4, 1, 1, 1})], 1 + (at > 2 ? small(FAULT, 20) : choose(FAULT, 2)), 1 + small(FAULT, 3));
      } else {
        static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_ENOSPC, F_WRITE_EINTR, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_OPEN_EIO, F_CLOSE_EIO};
        arm_fault(ks[choose(FAULT, 9)], 1 + small(FAULT, 40), 1 + small(FAULT, 3));
      }
      if (chance(FAULT, 1, 2)) aio_config().eio = aio_config().shortr = aio_config().error = 0;
    }
    if (bad && aio_config().eio) aio_config().eio = 20 + choose(FAULT, 4000);
    if (bad && aio_config().shortr) aio_config().shortr = 20 + choose(FAULT, 4000);
    if (bad && aio_config().error) aio_config().error = 10 + choose(FAULT, 100);
    if (bad && chance(FAULT, 1, 8)) aio_config().setup = 3;
    uint64_t b = bad_io();
    bool ok = true;
    try {
      build_plain(f, dir, 1 + choose(WORK, 4));
    } catch (const std::exception &e) {
      if (bad_io() == b) fail("REFUSED", "a build failed although nothing below failed: %s", e.what());
      trace("build failed: %s", e.what());
      count("failed_builds");
      ok = false;
    }
    disarm_faults();
    fault_path_filter("");
    device(false);
    if (aio_contexts()) fail("LEAK", "%zu I/O contexts are left after a build", aio_contexts());
    if (!ok) return false;
    Quiet z;
    for (auto &[n, c] : f.out) {
      if (n.find(".index") == std::string::npos) continue;
      checked();
      std::string got = slurp(dir + "/" + n);
      if (got == c) continue;
      size_t at = 0;
      while (at < got.size() && at < c.size() && got[at] == c[at]) ++at;
      fail("DIFFERENT", "a build%s made a different %s: %zu bytes, %zu expected, first difference at %zu", bad ? " under faults" : "", n.c_str(), got.size(), c.size(), at);
    }
    count("builds");
    return true;
  };
  if (!(faults && attempt(true))) attempt(false);
  nontrivial();
}
}  // namespace
void sim_prepare() {
  spdlog::set_level(spdlog::level::off);
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  make_fixtures();
}
void sim_run() {
  std::string m = mode();
  if (!g_wrong.empty()) fail("WRONG_INDEX", "%s", g_wrong.c_str());
  if (m == "C27") build();
  else if (m == "engine" || (m != "collection" && chance(WORK, 2, 3))) engine();
  else collection();
  aio_config() = AioConfig();
}
