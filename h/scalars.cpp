// C05, C06: storage/rocksdb_storage.hpp (+ utils/metadata_filter_matcher.hpp) on the real RocksDB library, every thread of
// which (background flush, compaction, timers) runs under the scheduler, and every file operation of which goes through
// the simulated file system: process kills at any file operation, failing writes and syncs, concurrent writers.
#include <algorithm>
#include <limits>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include "storage/rocksdb_storage.hpp"
#include "utils/metadata_filter_matcher.hpp"
#include "../sim/sim.hpp"
using namespace sim;
using namespace alaya;
const char *sim_harness_name = "scalars";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
bool C06() { return !strcmp(mode(), "C06"); }
using ID = uint32_t;
using Store = RocksDBStorage<ID>;
constexpr ID NID = 8;
const char *ITEMS[] = {"", "a", "b", "a_1", "i_a", "c", "1", "d_0000000001"};
constexpr int NITEMS = 8;
const char *STRS[] = {"x", "x_y", "x_7", "", "7", "s_x"};
const int64_t INTS[] = {0, -1, 5, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), 6, 1ll << 40};
const double DBLS[] = {0.5, -0.5, 2.25, -1e300, 1e-300, 7.0};
const char *FIELDS[] = {"f", "g_h", "h"};  // the first two are indexed

MetadataValue value_of(uint64_t z) {
  switch (z % 4) {
    case 0: return INTS[(z >> 8) % 7];
    case 1: return std::string(STRS[(z >> 8) % 6]);
    case 2: return DBLS[(z >> 8) % 6];
    default: return ((z >> 8) & 1) != 0;
  }
}
ScalarData rec(uint32_t seed) {
  uint64_t z = mix(seed * 7919ull + 3);
  ScalarData d;
  d.item_id = ITEMS[z % NITEMS];
  d.document = std::string((z >> 8) % 40, (char)('A' + (z >> 16) % 26)) + std::to_string(seed);
  for (int f = 0; f < 3; ++f)
    if ((z >> (20 + f)) & 1 || f == 0) d.metadata[FIELDS[f]] = value_of(mix(z + f));
  return d;
}
bool same(const ScalarData &a, const ScalarData &b) { return a.item_id == b.item_id && a.document == b.document && a.metadata == b.metadata; }
std::string show(const MetadataValue &v) {
  std::ostringstream o;
  std::visit([&](auto &x) { o << x; }, v);
  return o.str() + "/" + std::to_string(v.index());
}

// ------------------------------------------------------------------ reference model
enum K : int { INSERT, UPDATE, REMOVE, BATCH, NK };
struct Op {
  int k;
  ID id;
  uint32_t n, seed;  // record(s): seed, seed+1, ...
};
using Model = std::map<ID, uint32_t>;  // id -> record seed
std::optional<ID> owner(const Model &m, const std::string &item) {
  for (auto &[i, s] : m)
    if (rec(s).item_id == item) return i;
  return {};
}
bool free_for(const Model &m, const std::string &item, ID id) {
  if (item.empty()) return true;
  auto o = owner(m, item);
  return !o || *o == id;
}
bool doop(Model &m, const Op &o) {
  switch (o.k) {
    case INSERT:
      if (!free_for(m, rec(o.seed).item_id, o.id)) return false;
      m[o.id] = o.seed;
      return true;
    case UPDATE:
      if (!m.count(o.id) || !free_for(m, rec(o.seed).item_id, o.id)) return false;
      m[o.id] = o.seed;
      return true;
    case REMOVE: return m.erase(o.id) > 0;
    case BATCH: {
      std::set<std::string> seen;
      for (uint32_t i = 0; i < o.n; ++i) {
        auto it = rec(o.seed + i).item_id;
        if (!it.empty() && !seen.insert(it).second) return false;
        if (!free_for(m, it, o.id + i)) return false;
      }
      for (uint32_t i = 0; i < o.n; ++i) m[o.id + i] = o.seed + i;
      return true;
    }
  }
  return false;
}
Op draw_op() {
  Op o;
  o.k = (int)pick(WORK, {4, 3, 3, 2});
  o.id = choose(WORK, NID);
  o.n = o.k == BATCH ? 1 + choose(WORK, 4) : 1;
  if (o.k == BATCH) o.id = std::min<ID>(o.id, NID - o.n);
  o.seed = choose(WORK, 64) * 8;
  return o;
}
bool run_op(Store &s, const Op &o) {
  switch (o.k) {
    case INSERT: return s.insert(o.id, rec(o.seed));
    case UPDATE: return s.update(o.id, rec(o.seed));
    case REMOVE: return s.remove(o.id);
    default: {
      std::vector<ScalarData> v;
      for (uint32_t i = 0; i < o.n; ++i) v.push_back(rec(o.seed + i));
      return s.batch_insert(o.id, v.begin(), v.end());
    }
  }
}
std::string show(const Op &o) {
  static const char *n[] = {"insert", "update", "remove", "batch"};
  char b[80];
  snprintf(b, sizeof b, "%s id=%u n=%u rec=%u", n[o.k], o.id, o.n, o.seed);
  return b;
}

// ------------------------------------------------------------------ observation
RocksDBConfig config() {
  RocksDBConfig c;
  c.db_path_ = std::string(root()) + "/db/store";
  c.block_cache_size_mb_ = 1;
  c.write_buffer_size_ = 64 << 10;
  c.indexed_fields_ = {"f", "g_h"};
  return c;
}
// the records that can be read back by internal id
std::map<ID, ScalarData> by_id(Store &s, const char *when) {
  std::map<ID, ScalarData> r;
  std::vector<ID> all;
  for (ID i = 0; i < NID + 2; ++i) all.push_back(i);
  auto bg = s.batch_get(all);
  auto bi = s.batch_get_item_id_only(all);
  auto br = s.batch_get_raw_values(all);
  for (ID i = 0; i < NID + 2; ++i) {
    std::string raw;
    bool have = s.get_raw_value(i, raw);
    if (have != s.is_valid(i) || have != !br[i].empty()) fail("INCONSISTENT", "%s: id %u exists by one read path but not by another", when, i);
    if (!have) continue;
    ScalarData d = s[i];
    if (!same(d, bg[i]) || raw != br[i]) fail("INCONSISTENT", "%s: single and batch reads of id %u differ", when, i);
    if (bi[i] != d.item_id) fail("INCONSISTENT", "%s: id %u: item id '%s' by the light read, '%s' by the full one", when, i, bi[i].c_str(), d.item_id.c_str());
    r[i] = d;
  }
  return r;
}
// all paths lead to the same records
void consistent(Store &s, const std::map<ID, ScalarData> &m, const char *when) {
  if (C06()) {
    checked();
    if (s.count() != m.size()) fail("COUNT", "%s: the store reports %zu records, %zu can be read", when, s.count(), m.size());
    return;
  }
  for (const char *it : ITEMS) {
    if (!*it) continue;
    std::optional<ID> o;
    int owners = 0;
    for (auto &[i, d] : m)
      if (d.item_id == it) o = i, ++owners;
    if (owners > 1) fail("DUPLICATE_ITEM", "%s: %d records have item id '%s'", when, owners, it);
    auto f = s.find_by_item_id(it);
    if (f != o) fail("ITEM_INDEX", "%s: item id '%s' leads to %d, the record with it is %d", when, it, f ? (int)*f : -1, o ? (int)*o : -1);
    checked();
  }
  auto eq = [&](std::vector<ID> got, const FilterCondition &c, const char *path) {
    std::sort(got.begin(), got.end());
    std::vector<ID> want;
    for (auto &[i, d] : m)
      if (c.evaluate(d.metadata)) want.push_back(i);
    checked();
    if (got != want) {
      std::string g, w;
      for (auto x : got) g += " " + std::to_string(x);
      for (auto x : want) w += " " + std::to_string(x);
      fail("FILTER", "%s: %s on field %s op %d value %s: ids%s, the matching records are%s", when, path, c.field.c_str(), (int)c.op, show(c.value).c_str(), g.c_str(), w.c_str());
    }
  };
  std::vector<MetadataValue> vals;
  for (auto x : INTS) vals.push_back(x);
  for (auto x : STRS) vals.push_back(std::string(x));
  for (auto x : DBLS) vals.push_back(x);
  vals.push_back(true);
  vals.push_back(false);
  for (int f = 0; f < 2; ++f)
    for (auto &v : vals) {
      FilterCondition c;
      c.field = FIELDS[f];
      c.op = FilterOp::EQ;
      c.value = v;
      eq(s.get_ids_by_field_value(c.field, v), c, "exact index lookup");
    }
  for (auto &[i, d] : m)
    if (i >= NID) fail("PHANTOM", "%s: id %u exists", when, i);
  auto all = s.scan_with_filter([](const ScalarData &) { return true; });
  if (all.size() != m.size()) fail("SCAN", "%s: a full scan returns %zu records, %zu exist", when, all.size(), m.size());
  for (auto &[i, d] : all)
    if (!m.count(i) || !same(d, m.at(i))) fail("SCAN", "%s: the scan returns another record for id %u", when, i);
  // ranges and the filter executor, a sample
  static const FilterOp ops[] = {FilterOp::EQ, FilterOp::GE, FilterOp::GT, FilterOp::LE, FilterOp::LT, FilterOp::NE, FilterOp::IN_SET, FilterOp::CONTAINS};
  for (int q = 0; q < 4; ++q) {
    MetadataFilter mf;
    FilterCondition c;
    c.field = FIELDS[choose(WORK, 3)];
    c.op = ops[choose(WORK, 8)];
    c.value = vals[choose(WORK, (uint32_t)vals.size())];
    if (c.op == FilterOp::IN_SET) c.values = {c.value, vals[choose(WORK, (uint32_t)vals.size())]};
    mf.conditions.push_back(c);
    MetadataFilterExecutor<ID> ex(mf, &s, NID);
    std::vector<ID> got;
    auto b = ex.build_blocked_bitset();
    for (ID i = 0; i < NID; ++i)
      if (!b.blocked_.get(i)) got.push_back(i);
    if (got.size() != b.matched_count_) fail("FILTER", "%s: the filter counts %zu matches and lets %zu pass", when, b.matched_count_, got.size());
    eq(got, c, "filter execution");
    std::vector<ID> one;
    for (ID i = 0; i < NID; ++i)
      if (ex.match(i)) one.push_back(i);
    eq(one, c, "filter, one by one");
    auto sc = s.scan_with_filter([&](const ScalarData &d) { return mf.evaluate(d.metadata); }, 0);
    std::vector<ID> si;
    for (auto &[i, d] : sc) si.push_back(i);
    eq(si, c, "filtered scan");
  }
}
bool matches(const std::map<ID, ScalarData> &got, const Model &m) {
  if (got.size() != m.size()) return false;
  for (auto &[i, s] : m)
    if (!got.count(i) || !same(got.at(i), rec(s))) return false;
  return true;
}
std::string diff(const std::map<ID, ScalarData> &got, const Model &m) {
  std::string o;
  for (ID i = 0; i < NID + 2; ++i) {
    bool g = got.count(i), w = m.count(i);
    if (g && w && same(got.at(i), rec(m.at(i)))) continue;
    if (g || w) o += " id " + std::to_string(i) + (g ? (w ? ": other contents" : ": not expected") : ": missing");
  }
  return o;
}

// ------------------------------------------------------------------ sequential lives
// Everything that may be there: the effect of the operations whose result is open is there or not, oldest first.
struct World {
  std::vector<Model> may{Model{}};
  void both(const Op &o) {
    auto c = may;
    for (auto &m : c) {
      Model x = m;
      if (doop(x, o)) add(x);
    }
  }
  void add(const Model &x) {
    if (std::find(may.begin(), may.end(), x) == may.end()) may.push_back(x);
  }
};
World *W;
const Model *pick_model(const std::map<ID, ScalarData> &got, const char *when) {
  for (auto &m : W->may)
    if (matches(got, m)) return &m;
  fail("CONTENTS", "%s: the store holds no expected contents (%zu possible; against the first:%s)", when, W->may.size(), diff(got, W->may[0]).c_str());
}
void legacy_db(uint32_t n, uint32_t salt) {  // a database of an old version: unpadded record keys

  rocksdb::Options o;
  o.create_if_missing = true;
  rocksdb::DB *db = nullptr;
  std::filesystem::create_directories(std::string(root()) + "/db");
  if (!rocksdb::DB::Open(o, config().db_path_, &db).ok()) fail("HARNESS", "legacy open");
  Model m;
  size_t cnt = 0;
  for (uint32_t i = 0; i < n; ++i) {
    ID id = (ID)(mix(salt + i) % NID);
    uint32_t seed = (uint32_t)(mix(salt * 77 + i) % 64) * 8;
    Model t = m;
    if (m.count(id) || !doop(t, {INSERT, id, 1, seed})) continue;
    m = t;
    auto d = rec(seed);
    auto ser = d.serialize();
    db->Put({}, "d_" + std::to_string(id), rocksdb::Slice(ser.data(), ser.size()));
    if (!d.item_id.empty()) db->Put({}, "i_" + d.item_id, rocksdb::Slice((const char *)&id, sizeof id));
    for (auto &f : config().indexed_fields_)
      if (d.metadata.count(f)) db->Put({}, index_encoding::make_field_index_key(f, index_encoding::encode_value(d.metadata[f]), id), "");
    ++cnt;
  }
  db->Put({}, "__COUNT__", rocksdb::Slice((const char *)&cnt, sizeof cnt));
  db->Close();
  delete db;
  W->may = {m};
}
void arm() {
  // no "disk full": the installed RocksDB is built with assertions, one of which ends the process when a write follows one
  static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_EINTR, F_FSYNC_EIO, F_OPEN_EIO, F_RENAME_EIO};
  arm_fault(ks[choose(FAULT, 6)], 1 + choose(FAULT, 4), 1 + choose(FAULT, 3));
}
void life(int ops, bool faults, uint32_t crash_den, int l) {
  sched_start();
  if (chance(CRASH, 1, crash_den * 2)) arm_crash(1 + choose(CRASH, 60));
  std::unique_ptr<Store> s;
  try {
    s = std::make_unique<Store>(config());
  } catch (const std::exception &e) {
    fail("OPEN", "the store cannot be opened again: %s", e.what());
  }
  auto look = [&](const char *when) {
    auto got = by_id(*s, when);
    Model m = *pick_model(got, when);
    consistent(*s, got, when);
    return m;
  };
  W->may = {look("after opening")};
  emitf("O");
  for (int i = 0; i < ops; ++i) {
    op_scope(l * 64 + i + 1);
    int what = (int)pick(WORK, {12, 1, 1, 1, 1});
    if (chance(CRASH, 1, crash_den)) arm_crash(1 + choose(CRASH, 6));
    bool flt = faults && chance(FAULT, 1, 4);
    if (what) {
      if (flt) arm();
      uint64_t fired = faults_fired();
      std::string err;
      try {
        if (what == 1) s->flush();
        if (what == 2) s->compact();
        if (what == 3) s->save(std::string(root()) + "/db/cp" + std::to_string(l * 64 + i));
        if (what == 4) {
          s.reset();
          disarm_faults();
          s = std::make_unique<Store>(config());
        }
      } catch (const std::exception &e) {
        err = e.what();
      }
      disarm_faults();
      fired = faults_fired() - fired;
      if (!s) fail("OPEN", "reopening failed: %s", err.c_str());
      if (!err.empty() && !fired) fail("FAILED", "maintenance %d failed without a fault: %s", what, err.c_str());
      count("maintenance");
      W->may = {look("after maintenance")};
      continue;
    }
    Op o = draw_op();
    const Model before = W->may[0];
    Model after = before;
    bool want = doop(after, o);
    emitf("A %d %u %u %u", o.k, o.id, o.n, o.seed);
    if (flt) arm();
    uint64_t fired = faults_fired();
    bool ok = false, threw = false;
    std::string why;
    try {
      ok = run_op(*s, o);
    } catch (const std::exception &e) {
      threw = true;
      why = e.what();
    }
    fired = faults_fired() - fired;
    disarm_faults();
    bool broken = faults_fired() > 0;  // the store refuses writes after a failed one until it is opened again
    if (ok && !want) fail("ACCEPTED", "%s succeeded, it had to be refused", show(o).c_str());
    if (!ok && want && !broken) fail("REFUSED", "%s failed without a fault: %s", show(o).c_str(), why.c_str());
    if (ok) {
      W->may = {after};
      emitf("K");
      nontrivial();
      count("applied");
    } else {
      W->may = {before};
      if (want) W->both(o), count("failed_write"); else emitf("R");
      // what a failed write left is either version, all of it
    }
    W->may = {look(show(o).c_str())};
    if (!ok && want) count(W->may[0] == after ? "failed_write_visible" : "failed_write_absent");
  }
  if (chance(CRASH, 1, 2)) crash_now();
  s.reset();
  s = std::make_unique<Store>(config());
  look("after closing and opening");
}
void apply_event(const std::string &e) {
  static std::optional<Op> open;
  static Model cur;
  Op o;
  if (sscanf(e.c_str(), "A %d %u %u %u", &o.k, &o.id, &o.n, &o.seed) == 4) {
    open = o;
    W->both(o);
    return;
  }
  if (e == "K" && open) {  // acknowledged
    std::vector<Model> n;
    for (auto m : W->may) {
      Model x = m;
      if (doop(x, *open) || std::find(n.begin(), n.end(), m) == n.end()) n.push_back(x);
    }
    std::sort(n.begin(), n.end());
    n.erase(std::unique(n.begin(), n.end()), n.end());
    W->may = n;
  }
  if (e == "K" || e == "R") open.reset();
}

// ------------------------------------------------------------------ concurrent writers
struct Ev {
  Op o;
  int t;
  uint64_t b, e;
  bool ok;
};
bool linear(const Model &m, std::vector<Ev> &h, uint64_t done, const std::map<ID, ScalarData> &fin, size_t n) {
  if (done == (1ull << n) - 1) return matches(fin, m);
  uint64_t first_end = UINT64_MAX;
  for (size_t i = 0; i < n; ++i)
    if (!(done >> i & 1)) first_end = std::min(first_end, h[i].e);
  for (size_t i = 0; i < n; ++i) {
    if (done >> i & 1 || h[i].b > first_end) continue;
    Model x = m;
    if (doop(x, h[i].o) != h[i].ok) continue;
    if (linear(x, h, done | 1ull << i, fin, n)) return true;
  }
  return false;
}
void concurrent_run() {
  auto r = run_life([&] {
    sched_start();
    auto s = std::make_unique<Store>(config());
    Model m;
    int pre = (int)choose(WORK, 4);
    for (int i = 0; i < pre; ++i) {
      Op o = draw_op();
      bool want = doop(m, o);
      if (run_op(*s, o) != want) fail("RESULT", "%s: wrong result", show(o).c_str());
    }
    int nt = 2 + (int)choose(WORK, 2), per = 1 + (int)choose(WORK, 3);
    bool clash = choose(WORK, 2);
    uint32_t cs = choose(WORK, 64) * 8;
    std::vector<std::vector<Op>> plan(nt);
    for (int t = 0; t < nt; ++t)
      for (int i = 0; i < per; ++i) {
        op_scope(1 + t * 8 + i);
        Op o = draw_op();
        if (clash && chance(WORK, 2, 3)) o.seed = cs;  // same item id
        plan[t].push_back(o);
      }
    bool maint = chance(WORK, 1, 3);
    std::vector<Ev> h;
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (auto &o : plan[t]) {
          Ev e{o, t, step(), 0, false};
          e.ok = run_op(*s, o);
          e.e = step();
          Quiet q;
          h.push_back(e);
        }
      });
    if (maint) {
      yield();
      s->flush();
    }
    for (auto &t : th) t.join();
    op_scope(900);
    for (int round = 0; round < 2; ++round) {
      const char *when = round ? "after reopening, after concurrent writes" : "after concurrent writes";
      auto fin = by_id(*s, when);
      consistent(*s, fin, when);
      {
        Quiet q;
        if (!linear(m, h, 0, fin, h.size())) {
          std::string o;
          for (auto &e : h) o += " [" + show(e.o) + (e.ok ? " ok" : " refused") + " thread " + std::to_string(e.t) + "]";
          fail("NOT_LINEAR", "%s: no order of the calls explains their results and the contents:%s", when, o.c_str());
        }
      }
      checked();
      if (!round) {
        s.reset();
        s = std::make_unique<Store>(config());
      }
    }
    nontrivial();
    count("concurrent_histories");
  });
}
}  // namespace

void sim_run() {
  World w;
  W = &w;
  fs_config().kill_only = true;
  if (chance(WORK, 1, 3)) {
    concurrent_run();
    return;
  }
  int lives = 1 + (int)choose(WORK, 3), ops = 1 + (int)choose(WORK, 8);
  bool faults = choose(WORK, 2);
  uint32_t crash_den = 3 + choose(WORK, 6);
  bool legacy = chance(WORK, 1, 4);
  uint32_t salt = choose(WORK, 1000);
  if (legacy) {
    // made by a life of its own (the database threads end with it); the model is recomputed here
    run_life([&] {
      sched_start();
      legacy_db(6, salt);
    });
    Model m;
    for (uint32_t i = 0; i < 6; ++i) {
      ID id = (ID)(mix(salt + i) % NID);
      uint32_t seed = (uint32_t)(mix(salt * 77 + i) % 64) * 8;
      Model t = m;
      if (!m.count(id) && doop(t, {INSERT, id, 1, seed})) m = t;
    }
    w.may = {m};
    count("legacy_databases");
  }
  for (int l = 0; l < lives; ++l) {
    op_scope(5000 + l);
    auto r = run_life([&] { life(ops, faults, crash_den, l); });
    World at_open = w;
    for (auto &e : r.events) apply_event(e);
  }
  op_scope(6000);
  run_life([&] {
    sched_start();
    Store s(config());
    auto got = by_id(s, "at the end");
    pick_model(got, "at the end");
    consistent(s, got, "at the end");
  });
}
