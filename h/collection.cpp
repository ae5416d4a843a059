// C04: python/include/index.hpp (the class behind the Python Index) with its write-ahead log, snapshots, in-memory graph
// and scalar records on the real RocksDB library: crashes (process kill and power loss) at any file operation of any
// call, during recovery too; failing reads, writes, syncs, renames.
#include <algorithm>
#include <filesystem>
#include <set>
#include <sstream>
#include "gomp.hpp"
#include <pybind11/pybind11.h>
#include "index.hpp"
#include "../sim/sim.hpp"
using namespace sim;
using namespace alaya;
const char *sim_harness_name = "collection";
void sim_prepare() {
  spdlog::set_level(spdlog::level::off);
  pybind11::gil();
}

namespace {
using ID = uint32_t;
constexpr ID NOID = (ID)-1;
constexpr uint32_t DIM = 4;
const char *ITEMS[] = {"", "a", "b", "a_1", "i_a", "c", "d_0000000001", "e", "f", "g"};
constexpr int NITEMS = 10;

struct Rec {
  std::string item, doc;
  MetadataMap meta;
  float vec[DIM];
};
Rec rec(uint32_t seed) {
  Rec r;
  uint64_t z = mix(seed * 104729ull + 11);
  r.item = ITEMS[seed % NITEMS];
  r.doc = std::to_string(seed) + ":" + std::string(z % 30, (char)('a' + (z >> 8) % 26));
  r.meta["f"] = (int64_t)((z >> 16) % 3);
  if ((z >> 20) & 1) r.meta["g"] = std::string(1 + (z >> 24) % 3, 'q');
  if ((z >> 21) & 1) r.meta["h"] = 0.5 * (double)((z >> 28) % 5);
  if ((z >> 22) & 1) r.meta["b"] = (bool)((z >> 32) & 1);
  for (uint32_t i = 0; i < DIM; ++i) r.vec[i] = (float)((mix(z + i) % 2001) / 10.0 - 100);
  return r;
}
py::dict pymeta(const MetadataMap &m) { return metadata_map_to_pydict(m); }

struct Cfg {
  int space;  // 0 raw, 1 sq8, 2 sq4
  uint32_t cap, nbrs, n0, fit_seed;
  bool indexed;
} cfg;

// ------------------------------------------------------------------ model
// known: internal id -> record; anon: records whose internal id is not known yet
struct Model {
  std::map<ID, uint32_t> known;
  std::vector<uint32_t> anon;
  auto operator<=>(const Model &) const = default;
};
enum K : int { INSERT, UPSERT, REMOVE_ITEM, REMOVE_ID, SAVE, NK };
struct Op {
  int k = 0;
  uint32_t seed = 0;  // insert, upsert: the record; remove by item id: a record with that item id
  ID id = 0;
};
bool has_item(const Model &m, const std::string &it) {
  if (it.empty()) return false;
  for (auto &[i, s] : m.known)
    if (rec(s).item == it) return true;
  for (auto s : m.anon)
    if (rec(s).item == it) return true;
  return false;
}
void drop_item(Model &m, const std::string &it) {
  if (it.empty()) return;
  for (auto i = m.known.begin(); i != m.known.end();) i = rec(i->second).item == it ? m.known.erase(i) : std::next(i);
  std::erase_if(m.anon, [&](uint32_t s) { return rec(s).item == it; });
}
void put(Model &m, uint32_t seed, ID id) {
  if (id != NOID) m.known[id] = seed; else m.anon.push_back(seed), std::sort(m.anon.begin(), m.anon.end());
}
bool doop(Model &m, const Op &o, ID id) {
  switch (o.k) {
    case INSERT:
      if (has_item(m, rec(o.seed).item)) return false;
      put(m, o.seed, id);
      return true;
    case UPSERT:
      drop_item(m, rec(o.seed).item);
      put(m, o.seed, id);
      return true;
    case REMOVE_ITEM:
      if (!has_item(m, rec(o.seed).item)) return false;
      drop_item(m, rec(o.seed).item);
      return true;
    case REMOVE_ID: return m.known.erase(o.id) > 0;
  }
  return true;
}
using Seen = std::map<ID, uint32_t>;
bool matches(const Seen &s, const Model &m) {
  if (s.size() != m.known.size() + m.anon.size()) return false;
  std::vector<uint32_t> rest;
  for (auto &[i, seed] : s) {
    auto k = m.known.find(i);
    if (k == m.known.end()) rest.push_back(seed);
    else if (k->second != seed) return false;
  }
  std::sort(rest.begin(), rest.end());
  return rest == m.anon;
}
std::string show(const Seen &s) {
  std::string o = "{";
  for (auto &[i, x] : s) o += " " + std::to_string(i) + ":" + std::to_string(x) + "(" + rec(x).item + ")";
  return o + " }";
}
std::string show(const Model &m) {
  auto o = show(m.known);
  for (auto a : m.anon) o += " +" + std::to_string(a) + "(" + rec(a).item + ")";
  return o;
}
std::string show(const Op &o) {
  static const char *n[] = {"insert", "upsert", "remove item of", "remove id", "save"};
  char b[80];
  snprintf(b, sizeof b, "%s record %u('%s') id %d", n[o.k], o.seed, rec(o.seed).item.c_str(), (int)o.id);
  return b;
}
std::vector<Model> *may;  // what a restart may find
void add(std::vector<Model> &v, const Model &m) {
  if (std::find(v.begin(), v.end(), m) == v.end()) v.push_back(m);
}

// ------------------------------------------------------------------ the index
using RawS = RawSpace<float, float, ID, SequentialStorage<float, ID>, ScalarData>;
using RawE = RawSpace<float, float, ID, SequentialStorage<float, ID>, EmptyScalarData>;
using SQ8S = SQ8Space<float, float, ID, SequentialStorage<uint8_t, ID>, ScalarData>;
using SQ4S = SQ4Space<float, float, ID, SequentialStorage<uint8_t, ID>, ScalarData>;
std::string dir() { return std::string(root()) + "/c"; }
std::unique_ptr<BasePyIndex> make_index() {
  IndexParams p;
  p.capacity_ = cfg.cap;
  p.max_nbrs_ = cfg.nbrs;
  p.rocksdb_path_ = dir() + "/rocksdb";
  p.has_scalar_data_ = true;
  if (cfg.indexed) p.indexed_fields_ = {"f"};
  switch (cfg.space) {
    case 0: return std::make_unique<PyIndex<HNSWBuilder<RawS>, RawS>>(p);
    case 1: return std::make_unique<PyIndex<HNSWBuilder<RawE>, SQ8S>>(p);
    default: return std::make_unique<PyIndex<HNSWBuilder<RawE>, SQ4S>>(p);
  }
}
py::array vec_of(const float *v) { return py::array_t<float>(std::vector<py::ssize_t>{DIM}, v); }
py::object item_obj(const std::string &s) { return s.empty() ? py::object(py::none()) : py::object(py::str(s)); }
ID id_of(const std::variant<uint32_t, uint64_t> &v) {
  return std::visit([](auto x) { return (ID)x; }, v);
}
// checks a record found by some path, returns its seed
uint32_t verify(const py::dict &d, const char *when, const char *path) {
  std::string doc = d["document"].template cast<std::string>();
  uint32_t seed = 0;
  if (sscanf(doc.c_str(), "%u:", &seed) != 1) fail("BROKEN_RECORD", "%s: %s returns document '%s'", when, path, doc.c_str());
  Rec r = rec(seed);
  auto item = d["item_id"].template cast<std::string>();
  MetadataMap m = pydict_to_metadata_map(d["metadata"].template cast<py::dict>());
  if (doc != r.doc || item != r.item || m != r.meta)
    fail("MIXED_RECORD", "%s: %s returns a record that was never stored: document '%s' with item id '%s'", when, path, doc.c_str(), item.c_str());
  return seed;
}
Seen look(BasePyIndex &x, const char *when) {
  Seen s;
  MetadataFilter all;
  auto t = x.filter_query(all, 1000).template cast<py::tuple>();
  auto ids = t[0].template cast<py::list>(), recs = t[1].template cast<py::list>();
  for (size_t i = 0; i < ids.size(); ++i) {
    ID id = ids[i].template cast<ID>();
    uint32_t seed = verify(recs[i].template cast<py::dict>(), when, "a filter query");
    if (!s.emplace(id, seed).second) fail("DUPLICATE", "%s: a filter query returns id %u twice", when, id);
  }
  uint32_t n = id_of(x.get_data_num());
  for (auto &[id, seed] : s) {
    if (id >= n) fail("NO_VECTOR", "%s: record %u has internal id %u of %u", when, seed, id, n);
    auto v = x.get_data_by_id(py::int_(id));
    Rec r = rec(seed);
    checked();
    if (memcmp(v.request().ptr, r.vec, sizeof r.vec)) fail("WRONG_VECTOR", "%s: the vector of id %u is not the one stored with record %u ('%s')", when, id, seed, r.item.c_str());
    auto d = x.get_scalar_data_by_internal_id(py::int_(id));
    if (verify(d, when, "a read by internal id") != seed) fail("PATHS", "%s: id %u leads to different records by filter and by id", when, id);
  }
  for (const char *it : ITEMS) {
    if (!*it) continue;
    ID want = NOID;
    for (auto &[id, seed] : s)
      if (rec(seed).item == it) {
        if (want != NOID) fail("DUPLICATE_ITEM", "%s: two live records with item id '%s'", when, it);
        want = id;
      }
    bool c = x.contains(py::str(it));
    checked();
    if (c != (want != NOID)) fail("PATHS", "%s: contains('%s') is %d, the filter query says otherwise", when, it, c);
    if (!c) continue;
    auto d = x.get_scalar_data_by_item_id(py::str(it));
    ID got = d["internal_id"].template cast<ID>();
    if (got != want || verify(d, when, "a read by item id") != s[want]) fail("PATHS", "%s: item id '%s' leads to internal id %u, filter to %u", when, it, got, want);
  }
  return s;
}
void searches(BasePyIndex &x, const Seen &s, const char *when) {
  uint32_t ks[] = {1, 3, 8};
  for (int q = 0; q < 2; ++q) {
    Rec r = rec(q ? 4242 : s.empty() ? 1 : s.begin()->second);
    uint32_t k = ks[choose(WORK, 3)], ef = std::max(k, 16u);
    auto chk = [&](const ID *ids, uint32_t n, const char *path, const MetadataFilter *f) {
      std::set<ID> seen;
      for (uint32_t i = 0; i < n; ++i) {
        if (ids[i] == NOID) continue;
        checked();
        auto it = s.find(ids[i]);
        if (it == s.end()) fail("DEAD_RESULT", "%s: %s returns internal id %u, which is no live record; live: %s", when, path, ids[i], show(s).c_str());
        if (!seen.insert(ids[i]).second) fail("DUPLICATE_RESULT", "%s: %s returns id %u twice", when, path, ids[i]);
        if (f && !f->evaluate(rec(it->second).meta)) fail("FILTER", "%s: %s returns id %u, which does not match the filter", when, path, ids[i]);
      }
    };
    auto a = x.search(vec_of(r.vec), k, ef);
    chk((const ID *)a.request().ptr, k, "search", nullptr);
    MetadataFilter f;
    FilterCondition c;
    c.field = "f";
    c.op = FilterOp::EQ;
    c.value = (int64_t)choose(WORK, 3);
    f.conditions.push_back(c);
    bool bf = choose(WORK, 2);
    auto h = x.hybrid_search(vec_of(r.vec), k, ef, f, bf, "").template cast<py::tuple>();
    auto ha = h[0].template cast<py::array>();
    const ID *hi = (const ID *)ha.request().ptr;
    chk(hi, k, bf ? "a brute force filtered search" : "a filtered search", &f);
    auto names = h[1].template cast<py::list>();
    uint32_t found = 0;
    for (uint32_t i = 0; i < k; ++i) {
      if (hi[i] == NOID) continue;
      ++found;
      auto nm = names[i].template cast<std::string>();
      if (nm != rec(s.at(hi[i])).item) fail("PATHS", "%s: a filtered search names id %u '%s', it is '%s'", when, hi[i], nm.c_str(), rec(s.at(hi[i])).item.c_str());
    }
    if (chance(WORK, 1, 3)) {  // the batch calls answer from worker threads
      Rec r2 = rec(4243);
      std::vector<float> qs(r.vec, r.vec + DIM);
      qs.insert(qs.end(), r2.vec, r2.vec + DIM);
      py::array_t<float> qa(std::vector<py::ssize_t>{2, DIM}, qs.data());
      uint32_t threads = 1 + choose(WORK, 3);
      count("batch_searches");
      auto b = x.batch_search(qa, k, ef, threads);
      for (uint32_t i = 0; i < 2; ++i) chk((const ID *)b.request().ptr + i * k, k, "a batch search", nullptr);
      auto bd = x.batch_search_with_distance(qa, k, ef, threads).template cast<py::tuple>();
      auto bdi = bd[0].template cast<py::array>();
      for (uint32_t i = 0; i < 2; ++i) chk((const ID *)bdi.request().ptr + i * k, k, "a batch search with distances", nullptr);
      auto bh = x.batch_hybrid_search(qa, k, ef, f, threads, bf, "").template cast<py::tuple>();
      auto bi = bh[0].template cast<py::array>();
      for (uint32_t i = 0; i < 2; ++i) chk((const ID *)bi.request().ptr + i * k, k, "a filtered batch search", &f);
      if (memcmp(bi.request().ptr, hi, k * sizeof(ID))) fail("BATCH_DIFFERS", "%s: a filtered batch search answers differently from the same search on its own", when);
    }
    if (bf) {
      uint32_t want = 0;
      for (auto &[id, seed] : s) want += f.evaluate(rec(seed).meta);
      if (found != std::min(want, k)) fail("MISSING_RESULT", "%s: a brute force filtered search finds %u of %u matching records (top %u)", when, found, want, k);
    }
  }
}

// ------------------------------------------------------------------ lives
void fit(BasePyIndex &x) {
  std::vector<float> v;
  py::list items, docs, metas;
  for (uint32_t i = 0; i < cfg.n0; ++i) {
    Rec r = rec(cfg.fit_seed + i);
    v.insert(v.end(), r.vec, r.vec + DIM);
    items.append(r.item);
    docs.append(r.doc);
    metas.append(pymeta(r.meta));
  }
  py::array_t<float> a(std::vector<py::ssize_t>{(py::ssize_t)cfg.n0, DIM}, v.data());
  x.fit(a, 16, 1, items, docs, metas);
}
Model fitted() {
  Model m;
  for (uint32_t i = 0; i < cfg.n0; ++i) m.known[i] = cfg.fit_seed + i;
  return m;
}
Op draw_op(const Seen &live, uint32_t n, uint32_t &next_seed) {
  Op o;
  o.k = (int)pick(WORK, {5, 4, 3, 2, 1});
  next_seed += NITEMS;
  o.seed = next_seed + choose(WORK, NITEMS);
  if (o.k == REMOVE_ITEM) o.seed = 1 + choose(WORK, NITEMS - 1);
  if (o.k == REMOVE_ID) {
    o.id = choose(WORK, n);
    if (!live.count(o.id) && chance(WORK, 3, 4) && !live.empty()) {
      auto it = live.begin();
      std::advance(it, choose(WORK, (uint32_t)live.size()));
      o.id = it->first;
    }
  }
  return o;
}
ID run_op(BasePyIndex &x, const Op &o) {
  Rec r = rec(o.seed);
  switch (o.k) {
    case INSERT: return id_of(x.insert(vec_of(r.vec), 16, item_obj(r.item), r.doc, pymeta(r.meta)));
    case UPSERT: return id_of(x.upsert(vec_of(r.vec), 16, item_obj(r.item), r.doc, pymeta(r.meta)));
    case REMOVE_ITEM: x.remove_by_item_id(py::str(r.item)); return NOID;
    case REMOVE_ID: x.remove(py::int_(o.id)); return NOID;
    default: x.save(dir() + "/g.bin", dir() + "/d.bin", cfg.space ? dir() + "/q.bin" : ""); return NOID;
  }
}
void arm() {
  static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_EINTR, F_FSYNC_EIO, F_OPEN_EIO, F_RENAME_EIO, F_MKDIR_EIO, F_UNLINK_EIO, F_LINK_EIO, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_STAT_EIO};
  fault_path_filter("/c");  // the directory that holds the collection is the caller's
  arm_fault(ks[choose(FAULT, sizeof ks / sizeof *ks)], 1 + choose(FAULT, chance(FAULT, 1, 3) ? 24 : 6), 1 + choose(FAULT, 3));
}
void life(int l, int ops, bool faults, uint32_t crash_den, uint32_t seed0, bool first) {
  sched_start();
  if (chance(CRASH, 1, crash_den)) arm_crash(1 + choose(CRASH, first ? 80 : 120));
  pybind11::gil().lock();
  std::unique_ptr<BasePyIndex> x;
  Seen s;
  bool hurt = false;
  auto close = [&](bool broken) {
    try {
      x->close_db();
    } catch (const std::exception &e) {
      if (!broken) fail("CLOSE", "closing the index failed without a fault: %s", e.what());
    }
    x.reset();
  };
  auto start = [&](bool fresh, const char *when) {
    bool fired = false;
    hurt = false;
    if (!fresh && faults && chance(FAULT, 1, 4)) {  // loading under faults may fail, but must not lose or invent anything
      arm();
      uint64_t f0 = faults_fired();
      try {
        x = make_index();
        x->load("", "", "");
        // the storage may have fallen back to reading only: such an index refuses changes until it is opened again
        hurt = faults_fired() > f0;
      } catch (const std::exception &e) {
        fired = faults_fired() > f0;
        trace("  load under a fault: %s", e.what());
        if (!fired) fail("OPEN", "%s: the index cannot be opened: %s", when, e.what());
        count("failed_loads");
        x.reset();
      }
      disarm_faults();
    }
    try {
      if (!x) {
        x = make_index();
        if (fresh) fit(*x); else x->load("", "", "");
      }
    } catch (const std::exception &e) {
      fail("OPEN", "%s%s: the index cannot be opened: %s", when, fired ? " and a failed attempt" : "", e.what());
    }
    s = look(*x, when);
    bool ok = false;
    for (auto &m : *may) ok |= matches(s, m);
    if (!ok) fail(fresh ? "FIT" : "LOST_OR_WRONG", "%s: contents %s; possible (%zu): %s%s", when, show(s).c_str(), may->size(), show((*may)[0]).c_str(), may->size() > 1 ? (" or " + show((*may)[1])).c_str() : "");
    may->assign(1, Model{s, {}});
    searches(*x, s, when);
    std::string ev = "S";
    for (auto &[i, sd] : s) ev += " " + std::to_string(i) + ":" + std::to_string(sd);
    emit(ev);
    count(fresh ? "fits" : "recoveries");
  };
  start(first, first ? "after fit" : "after a restart");
  uint32_t next_seed = seed0;
  bool broken = hurt;  // a fault fired: the index may refuse further changes until it is opened again
  for (int i = 0; i < ops; ++i) {
    op_scope(l * 64 + i + 1);
    Op o = draw_op(s, id_of(x->get_data_num()), next_seed);
    if (chance(CRASH, 1, crash_den)) arm_crash(1 + choose(CRASH, o.k == SAVE ? 60 : 8));
    if (chance(WORK, 1, 12)) {  // close and open again
      close(broken);
      start(false, "after closing and opening");
      broken = hurt;
      continue;
    }
    bool dead_id = o.k == REMOVE_ID && !s.count(o.id);
    Model m{s, {}};
    bool full = id_of(x->get_data_num()) >= cfg.cap;
    Model after = m;
    bool want = doop(after, o, NOID) && !(full && (o.k == INSERT || o.k == UPSERT));
    emitf("A %d %u %u", o.k, o.seed, o.id);
    trace("op %s", show(o).c_str());
    if (faults && chance(FAULT, 1, 4)) arm();
    uint64_t f0 = faults_fired();
    bool ok = false;
    ID id = NOID;
    std::string why;
    try {
      id = run_op(*x, o);
      ok = true;
    } catch (const std::exception &e) {
      why = e.what();
    }
    bool fired = faults_fired() > f0;
    trace("  -> %s%s", ok ? "ok" : why.c_str(), fired ? " (fault)" : "");
    disarm_faults();
    // a fault in a background write of the scalar storage shows in a later call
    broken |= fired;
    std::string w = show(o);
    if (ok && (o.k == INSERT || o.k == UPSERT) && id == NOID) ok = false, why = "no id";  // the documented sign of a full index
    if (ok && !want && !dead_id) fail("ACCEPTED", "%s succeeded, it had to be refused", w.c_str());
    if (!ok && want && !fired && !broken) fail("REFUSED", "%s failed without a fault: %s", w.c_str(), why.c_str());
    if (full && want == false) count("full");
    if (ok) {
      if (!dead_id) {
        std::vector<Model> n;
        for (auto d : *may)
          if (doop(d, o, id)) add(n, d);
        *may = n;
      }
      emitf("K %u", id);
      if (o.k != SAVE) nontrivial();
      count(o.k == SAVE ? "saves" : "applied");
    } else {
      if (want) {  // open: it may show after a restart
        std::vector<Model> n = *may;
        for (auto d : *may)
          if (doop(d, o, NOID)) add(n, d);
        *may = n;
        emitf("F");
        count("failed_by_fault");
      } else {
        emitf("R");
        count("refused");
      }
    }
    Seen t = look(*x, w.c_str());
    Model exact = m;
    if (ok && !dead_id) doop(exact, o, id);
    if (!matches(t, exact)) {
      bool open = !ok && want && (fired || broken);
      Model lost = m;
      drop_item(lost, rec(o.seed).item);
      bool fine = open && (matches(t, after) || (o.k == UPSERT && matches(t, lost)));
      if (!fine) fail("CONTENTS", "%s (%s): contents %s, expected %s", w.c_str(), ok ? "ok" : why.c_str(), show(t).c_str(), show(exact).c_str());
    }
    s = t;
    if (chance(WORK, 1, 3)) searches(*x, s, w.c_str());
  }
  if (chance(CRASH, 1, 2)) crash_now();
  close(broken);
  pybind11::gil().unlock();
}
void apply_event(const std::string &e, Op &open, std::vector<Model> &m) {
  auto apply = [&](ID id, bool keep) {
    std::vector<Model> n;
    if (keep) n = m;
    for (auto d : m)
      if (doop(d, open, id)) add(n, d);
    if (!n.empty()) m = n;
  };
  static bool pending = false;
  unsigned id;
  if (e[0] == 'S') {
    Model x;
    std::istringstream is(e.substr(1));
    std::string t;
    while (is >> t) {
      unsigned a, b;
      sscanf(t.c_str(), "%u:%u", &a, &b);
      x.known[a] = b;
    }
    m.assign(1, x);
  } else if (e[0] == 'A') {
    sscanf(e.c_str(), "A %d %u %u", &open.k, &open.seed, &open.id);
  } else if (sscanf(e.c_str(), "K %u", &id) == 1) {
    if (open.k != SAVE) apply(id, false);
    open.k = -1;
  } else if (e[0] == 'F') {
    if (open.k != SAVE) apply(NOID, true);
    open.k = -1;
  } else if (e[0] == 'R') {
    open.k = -1;
  }
}
}  // namespace

void sim_run() {
  std::vector<Model> worlds;
  may = &worlds;
  cfg.space = (int)choose(WORK, 3);
  cfg.n0 = 1 + choose(WORK, 6);
  cfg.cap = cfg.n0 + 4 + choose(WORK, 20);
  cfg.nbrs = 8;
  cfg.fit_seed = choose(WORK, 10);
  cfg.indexed = choose(WORK, 2);
  fs_config().kill_only = choose(WORK, 2);
  int lives = 1 + (int)choose(WORK, 3), ops = 1 + (int)choose(WORK, 8);
  bool faults = choose(WORK, 2);
  uint32_t crash_den = 2 + choose(WORK, 8);
  worlds.push_back(fitted());
  bool have = false;
  for (int l = 0; l < lives + 1; ++l) {
    op_scope(5000 + l);
    bool last = l == lives;
    if (last && !have) break;
    auto r = run_life([&] { life(l, last ? 0 : ops, faults && !last, last ? 1000000 : crash_den, 100 + l * 1000, !have); });
    Op open;
    open.k = -1;
    for (auto &e : r.events) {
      if (e[0] == 'S') have = true;
      apply_event(e, open, worlds);
    }
    if (open.k >= 0 && open.k != SAVE) {  // in flight at the crash
      std::vector<Model> n = worlds;
      for (auto d : worlds)
        if (doop(d, open, NOID)) add(n, d);
      worlds = n;
    }
    if (!have) {  // the crash hit the first fit: there is no collection yet
      if (r.kind == LifeResult::CLEAN) fail("HARNESS", "no collection after a clean first life");
      count("crashed_fits");
      return;
    }
  }
}
