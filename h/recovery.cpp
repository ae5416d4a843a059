// C01 C02 C03: write-ahead log and snapshot publication under crashes and disk faults.
#include <filesystem>
#include <set>
#include <thread>
#include "recovery/recovery_manager.hpp"
#include "../sim/sim.hpp"
using namespace sim;
namespace rec = alaya::recovery;
namespace fs = std::filesystem;
const char *sim_harness_name = "recovery";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
struct Attempt {
  int type;
  uint64_t seed;
  uint32_t len;
  bool committed = false;  // commit attempted
  bool acked = false;
};
struct Snap {
  std::string id;
  uint64_t applied;
  uint64_t seed;
  bool ok;
};
struct Model {
  std::map<uint64_t, std::vector<Attempt>> ops;
  uint64_t max_acked = 0;
  std::vector<Snap> snaps;  // in publication order; possible active ones are those from the last ok on
  int last_ok = -1;
};
Model M;

__attribute__((no_sanitize("thread"), noinline)) std::vector<char> payload(uint64_t seed, uint32_t len) {
  std::vector<char> p(len);
  uint64_t x = seed;
  for (uint32_t i = 0; i < len; ++i) {
    if (i % 8 == 0) x = mix(x + i + 1);
    p[i] = (char)(x >> (8 * (i % 8)));
  }
  return p;
}
std::string comp(uint64_t seed) {
  auto p = payload(seed ^ 0xabc, 40 + seed % 3000);
  return {p.begin(), p.end()};
}

void verify(const rec::RecoveryManager &rm, const char *when, bool own_reads = true) {
  bool c01 = !strcmp(mode(), "C01"), c02 = !strcmp(mode(), "C02"), c03 = !strcmp(mode(), "C03");
  std::optional<rec::SnapshotManifest> cur;
  cur = rm.current_snapshot();
  uint64_t bound = 0;
  if (cur) {
    bound = cur->applied_through_op_id_;
    const Snap *m = nullptr;
    for (int i = std::max(0, M.last_ok); i < (int)M.snaps.size(); ++i)
      if (M.snaps[i].id == cur->snapshot_id_ && M.snaps[i].applied == bound) m = &M.snaps[i];
    checked();
    if (c03 && !m)
      fail("STALE_SNAPSHOT", "%s: the active snapshot (applied through %lu) is neither the last published nor the interrupted one",
           when, bound);
    if (c03 && own_reads) {
      auto dir = rm.current_snapshot_dir();
      std::string got;
      bool have = false;
      if (dir) {
        std::ifstream in(cur->graph_path(*dir), std::ios::binary);
        have = in.is_open();
        std::stringstream ss;
        ss << in.rdbuf();
        got = ss.str();
      }
      checked();
      if (!have || got != comp(m->seed))
        fail("INCOMPLETE_SNAPSHOT", "%s: the active snapshot's contents are %s (%zu bytes, %zu expected)", when,
             have ? "not what was stored" : "missing", got.size(), comp(m->seed).size());
      auto dbp = cur->rocksdb_path(*dir);
      std::ifstream in2(dbp / "sub" / "part", std::ios::binary);
      std::stringstream s2;
      s2 << in2.rdbuf();
      if (s2.str() != comp(m->seed + 1))
        fail("INCOMPLETE_SNAPSHOT", "%s: a nested part of the active snapshot is missing or damaged", when);
    }
  } else if (c03 && M.last_ok >= 0) {
    fail("LOST_SNAPSHOT", "%s: no active snapshot although one was published", when);
  }
  uint64_t seen = 0;
  auto recs = rm.replayable_records(bound, &seen);
  uint64_t nx = rm.next_operation_id();
  Quiet q;
  std::set<uint64_t> got;
  uint64_t prev = 0;
  for (auto &r : recs) {
    checked();
    if (c02 && (r.op_id_ <= prev)) fail("ORDER", "%s: replay returned id %lu after %lu", when, r.op_id_, prev);
    prev = r.op_id_;
    if (c02 && r.op_id_ <= bound) fail("BELOW_BOUNDARY", "%s: replay returned id %lu, the boundary is %lu", when, r.op_id_, bound);
    got.insert(r.op_id_);
    auto it = M.ops.find(r.op_id_);
    bool match = false, matchany = false, ackmatch = false, anyack = false;
    if (it != M.ops.end())
      for (auto &a : it->second) {
        bool same = (int)r.mutation_type_ == a.type && r.payload_ == payload(a.seed, a.len);
        anyack |= a.acked;
        if (same) matchany = true;
        if (same && a.committed) match = true;
        if (same && a.acked) ackmatch = true;
      }
    if (c02 && !match)
      fail(matchany ? "UNCOMMITTED_REPLAYED" : "CORRUPT_REPLAYED", "%s: replay returned id %lu %s", when, r.op_id_,
           matchany ? "whose commit was never attempted" : "with a payload or type that was not prepared for it");
    if ((c01 || c03) && anyack && !ackmatch)
      fail("ACKED_REPLACED", "%s: id %lu was acknowledged with another payload or type", when, r.op_id_);
  }
  for (auto &kv : M.ops)
    for (auto &a : kv.second)
      if (a.acked && kv.first > bound) {
        checked();
        if (!got.count(kv.first) && (c01 || c03))
          fail("LOST_ACKED", "%s: acknowledged id %lu is not returned (snapshot boundary %lu, %zu records returned)", when,
               kv.first, bound, recs.size());
      }
  checked();
  if (c02 && (nx <= M.max_acked || seen < std::min(M.max_acked, std::max(bound, M.max_acked))))
    fail("ID_REUSE", "%s: next id %lu (scan says %lu) although %lu was acknowledged", when, nx, seen, M.max_acked);
  note("verify %s: bound %lu, %zu records, next %lu", when, bound, recs.size(), nx);
}

void apply_event(const std::string &e) {
  unsigned long id, seed;
  int type;
  unsigned len;
  char sid[64];
  if (sscanf(e.c_str(), "P %lu %d %lu %u", &id, &type, &seed, &len) == 4) {
    M.ops[id].push_back({type, seed, len});
  } else if (sscanf(e.c_str(), "C %lu", &id) == 1) {
    M.ops[id].back().committed = true;
  } else if (sscanf(e.c_str(), "A %lu", &id) == 1) {
    M.ops[id].back().acked = true;
    M.max_acked = std::max(M.max_acked, (uint64_t)id);
  } else if (sscanf(e.c_str(), "S %63s %lu %lu", sid, &id, &seed) == 3) {
    M.snaps.push_back({sid, id, seed, false});
  } else if (e == "s") {
    M.snaps.back().ok = true;
    M.last_ok = (int)M.snaps.size() - 1;
  }
}
// in the life the model must follow too
void ev(const std::string &e) {
  Quiet q;
  emit(e);
  apply_event(e);
}
std::string f(const char *fmt, ...) {
  char b[256];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
// Reads that fail: the log and the snapshot store report it, or answer as if nothing had happened.
void verify_faulty(const rec::RecoveryManager &rm, const char *when, bool faults) {
  if (faults && chance(FAULT, 1, 2)) {
    static const FaultKind ks[] = {F_READ_EIO, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_OPEN_EIO, F_OPEN_EMFILE, F_STAT_EIO};
    auto fired = faults_fired();
    arm_fault(ks[choose(FAULT, 7)], 1 + small(FAULT, 8), 1 + small(FAULT, 2));
    try {
      verify(rm, (std::string(when) + ", with failing reads").c_str(), false);
    } catch (const std::exception &e) {
      note("  %s: %.60s", when, e.what());
      count("recovery_refused");
      if (faults_fired() == fired) fail("SPURIOUS_FAILURE", "%s: recovery failed without a fault: %s", when, e.what());
    }
    disarm_faults();
  }
  verify(rm, when);
}
void write_plain(const fs::path &p, const std::string &c) {
  std::ofstream o(p, std::ios::binary);
  o.write(c.data(), (std::streamsize)c.size());
  o.flush();
  if (!o) throw std::runtime_error("component write failed");
  o.close();
  if (o.fail()) throw std::runtime_error("component close failed");
}

struct Cfg {
  bool crash, faults, snaps, clock, threads;
  uint32_t crash_den, fault_den, big;
  int lives, ops;
};
uint32_t g_op = 0;

// Several threads append to one log, and replay it meanwhile.
void together(rec::RecoveryManager &rm, const Cfg &c, int life, uint64_t &next) {
  struct Plan {
    bool read, prepare_only;
    int type;
    uint32_t len;
  };
  std::vector<std::vector<Plan>> plans(2 + choose(WORK, 2));
  for (auto &p : plans)
    for (uint32_t i = 1 + choose(WORK, 3); i--;)
      p.push_back({choose(WORK, 5) == 0, choose(WORK, 6) == 0, 1 + (int)choose(WORK, 4), small(WORK, c.big)});
  uint64_t seq = 0;
  auto body = [&](const std::vector<Plan> &plan) {
    for (auto &p : plan) {
      uint64_t id, seed;
      std::set<uint64_t> acked;
      {
        Quiet q;
        id = p.read ? 0 : next++;
        seed = (g_op * 1000003ull + life * 77ull + ++seq * 131071) & 0xffffffff;
        if (p.read)
          for (auto &kv : M.ops)
            for (auto &a : kv.second)
              if (a.acked) acked.insert(kv.first);
      }
      try {
        if (p.read) {
          uint64_t bound = 0, seen = 0;
          if (auto cur = rm.current_snapshot()) bound = cur->applied_through_op_id_;
          auto recs = rm.replayable_records(bound, &seen);
          Quiet q;
          for (auto &r : recs) {
            checked();
            bool good = false;
            for (auto &a : M.ops[r.op_id_])
              good |= a.committed && a.type == (int)r.mutation_type_ && payload(a.seed, a.len) == r.payload_;
            if (!good && !strcmp(mode(), "C02"))
              fail("CORRUPT_REPLAYED", "while others append: replay returned id %lu, which nobody committed like this", r.op_id_);
            acked.erase(r.op_id_);
          }
          acked.erase(acked.begin(), acked.upper_bound(bound));
          checked();
          if (!acked.empty() && strcmp(mode(), "C02"))
            fail("LOST_ACKED", "while others append: id %lu was acknowledged before the replay began and is not returned", *acked.begin());
          continue;
        }
        std::vector<char> data;
        {
          Quiet q;
          data = payload(seed, p.len);
        }
        ev(f("P %lu %d %lu %u", id, p.type, seed, p.len));
        rm.append_prepare(rec::WalRecord{.op_id_ = id, .mutation_type_ = (rec::MutationType)p.type, .payload_ = std::move(data)});
        if (p.prepare_only) continue;
        ev(f("C %lu", id));
        rm.append_commit(id, (rec::MutationType)p.type);
        ev(f("A %lu", id));
        nontrivial();
      } catch (const std::exception &e) {
        Quiet q;
        note("  failed: %.60s", e.what());
        if (faults_fired() == 0) fail("SPURIOUS_FAILURE", "appending failed without a fault: %s", e.what());
      }
    }
  };
  count("concurrent_appends");
  std::vector<std::thread> ts;
  for (auto &p : plans) ts.emplace_back([&body, &p] { body(p); });
  for (auto &t : ts) t.join();
}

void do_life(const Cfg &c, int life) {
  bool last = life == c.lives - 1;
  if (c.threads) {
    sched_start();
    sched_config().races = true;
  }
  std::unique_ptr<rec::RecoveryManager> rm;
  auto open = [&] { rm = std::make_unique<rec::RecoveryManager>(fs::path(root()) / "recovery", fs::path{}); };
  if (c.crash && chance(CRASH, 1, 4)) arm_crash(1 + small(CRASH, 12));
  open();
  verify_faulty(*rm, life ? "after restart" : "first start", c.faults);
  if (last) return;
  uint64_t next = rm->next_operation_id();
  for (int i = 0; i < c.ops; ++i) {
    op_scope(++g_op);
    uint32_t kind = pick(WORK, {3, 12, 2, c.snaps ? 3u : 0u, 2, 1, 1, c.threads ? 6u : 0u});
    if (c.crash && chance(CRASH, 1, c.crash_den)) arm_crash(1 + small(CRASH, kind == 3 ? 40 : 8));
    if (c.faults && chance(FAULT, 1, c.fault_den)) {
      static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_FSYNC_EIO, F_OPEN_EIO, F_RENAME_EIO,
                                     F_WRITE_EINTR, F_OPEN_EMFILE, F_MKDIR_EIO, F_UNLINK_EIO, F_TRUNC_EIO, F_CLOSE_EIO,
                                     F_READ_EIO, F_READ_EIO, F_READ_SHORT, F_STAT_EIO, F_FSYNC_EIO};
      FaultKind k = ks[choose(FAULT, kind >= 1 && kind <= 3 ? 17 : 12)];
      arm_fault(k, 1 + small(FAULT, kind == 3 ? 14 : 2), 1 + small(FAULT, 3));
    }
    if (c.clock && chance(WORK, 1, 3)) {
      uint32_t w = choose(WORK, 4);
      if (w == 0) clock_freeze(true);
      else if (w == 1) clock_freeze(false);
      else if (w == 2) clock_jump(-(int64_t)small(WORK, 5000) * 1000000);
      else clock_jump((int64_t)small(WORK, 5000) * 1000000);
    }
    switch (kind) {
      case 0: break;
      case 1:
      case 2: {
        uint64_t id = next++;
        int type = 1 + (int)choose(WORK, 4);
        uint32_t len = small(WORK, c.big);
        uint64_t seed = (g_op * 1000003ull + life * 77ull) & 0xffffffff;
        ev(f("P %lu %d %lu %u", id, type, seed, len));
        note("op %u life %d: %s id %lu type %d len %u", g_op, life, kind == 1 ? "mutate" : "prepare only", id, type, len);
        try {
          rm->append_prepare(
              rec::WalRecord{.op_id_ = id, .mutation_type_ = (rec::MutationType)type, .payload_ = payload(seed, len)});
          if (kind == 1) {
            ev(f("C %lu", id));
            try {
              rm->append_commit(id, (rec::MutationType)type);
            } catch (const std::exception &e) {
              if (faults_fired() == 0 || !chance(WORK, 1, 2)) throw;
              // A caller may try again. What it had prepared may be gone after a failed sync, so this is no acknowledgement.
              note("  commit failed (%.60s), retried", e.what());
              count("commit_retried");
              rm->append_commit(id, (rec::MutationType)type);
              throw;
            }
            ev(f("A %lu", id));
            nontrivial();
          }
        } catch (const std::exception &e) {
          note("  failed: %.60s", e.what());
          count("op_failed");
          if (faults_fired() == 0) fail("SPURIOUS_FAILURE", "appending failed without a fault: %s", e.what());
        }
        break;
      }
      case 3: {
        uint64_t applied = next - 1;
        uint64_t seed = g_op * 7919ull + life;
        note("op %u life %d: snapshot through %lu", g_op, life, applied);
        try {
          auto dir = rm->create_snapshot_dir();
          rec::SnapshotManifest m;
          m.snapshot_id_ = dir.filename().string();
          m.reason_ = "t";
          m.applied_through_op_id_ = applied;
          m.created_unix_ms_ = rec::SnapshotManifest::current_unix_ms();
          m.graph_file_ = "graph.bin";
          m.rocksdb_dir_ = "db";
          write_plain(dir / "graph.bin", comp(seed));
          fs::create_directories(dir / "db" / "sub");
          write_plain(dir / "db" / "sub" / "part", comp(seed + 1));
          ev(f("S %s %lu %lu", m.snapshot_id_.c_str(), applied, seed));
          rm->publish_snapshot(m, dir);
          ev("s");
          nontrivial();
          count("snapshots_published");
        } catch (const std::exception &e) {
          note("  failed: %.60s", e.what());
          count("publish_failed");
          if (faults_fired() == 0) fail("SPURIOUS_FAILURE", "publishing failed without a fault: %s", e.what());
        }
        break;
      }
      case 4:
        disarm_faults();
        note("op %u: check", g_op);
        verify_faulty(*rm, "while open", c.faults);
        break;
      case 5:
        note("op %u: reopen", g_op);
        rm.reset();
        open();
        disarm_faults();
        verify_faulty(*rm, "after reopen", c.faults);
        next = std::max(rm->next_operation_id(), next);
        break;
      case 6: rm->sync_wal(); break;
      case 7:
        note("op %u life %d: several threads", g_op, life);
        together(*rm, c, life, next);
        break;
    }
    disarm_faults();
  }
  clock_freeze(false);
  if (c.crash && chance(CRASH, 1, 2)) crash_now();
}
}  // namespace

void sim_run() {
  M = Model();
  g_op = 0;
  Cfg c;
  bool c03 = !strcmp(mode(), "C03");
  c.crash = pick(WORK, {1, 4}) != 0;
  c.faults = choose(WORK, 2);
  c.snaps = c03 || choose(WORK, 2);
  c.clock = choose(WORK, 3) == 1;
  c.threads = choose(WORK, 3) == 1;
  c.crash_den = 3 + choose(WORK, 20);
  c.fault_den = 2 + choose(WORK, 12);
  c.big = (uint32_t[]){64, 600, 5000, 40000}[choose(WORK, 4)];
  if (c.threads) c.big = std::min(c.big, 600u);
  c.lives = 2 + choose(WORK, 4);
  c.ops = 3 + choose(WORK, 14);
  fs_config().posix_dirs = true;
  for (int l = 0; l < c.lives; ++l) {
    op_scope(1000 + l);
    auto r = run_life([&] { do_life(c, l); });
    for (auto &e : r.events) apply_event(e);
    g_op += 100;
    note("life %d ended: %s", l, r.kind == LifeResult::CRASHED ? "crash" : "clean");
    if (r.kind == LifeResult::CRASHED && l == c.lives - 1) {
      op_scope(2000);
      run_life([&] {
        rec::RecoveryManager rm(fs::path(root()) / "recovery", fs::path{});
        verify(rm, "after the last crash");
      });
    }
  }
}
