// C07 C08: disk collection flushes under crashes, disk faults and failing allocations.
#include <filesystem>
#include "diskcol.hpp"
using namespace sim;
using namespace dc;
namespace fs = std::filesystem;
const char *sim_harness_name = "diskcol";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
struct Model {
  std::vector<State> maybe{State{}};  // states the collection may be found in after a restart
  bool made = false;                  // creation acknowledged and made durable by a flush
  bool created = false;
};
Model *M;
uint32_t g_op;
bool c07() { return !strcmp(mode(), "C07"); }
fs::path P() { return fs::path(root()) / "col"; }

std::string join(const std::vector<uint64_t> &v) {
  std::string s;
  for (auto x : v) s += " " + std::to_string(x);
  return s;
}
void apply_event(const std::string &e) {
  std::istringstream in(e);
  char c;
  in >> c;
  State s;
  uint64_t l;
  if (c == 'T' || c == 'A') {
    while (in >> l) s.insert(l);
    if (c == 'T') M->maybe.push_back(s);
    else M->maybe = {s}, M->made = true;
  } else if (c == 'N') {
    M->created = true;
  } else if (c == 'R') {
    *M = Model();
  }
}
void ev(const std::string &e) {
  emit(e);
  apply_event(e);
}
std::string ev_of(char c, const State &a) {
  std::string s(1, c);
  for (auto x : a) s += " " + std::to_string(x);
  return s;
}
// size and searches agree with the state
void verify(const DiskCollection &col, const State &st, const char *cls, const char *when) {
  checked();
  if (col.size() != st.size()) fail(cls, "%s: size is %lu, %zu records expected", when, col.size(), st.size());
  uint32_t nq = 1 + choose(WORK, 3);
  for (uint32_t i = 0; i < nq; ++i) {
    uint64_t x = choose(WORK, 40);
    std::vector<float> q = query_of(x);
    if (i == 1 && !st.empty()) q = vec_of(*std::next(st.begin(), (long)choose(WORK, (uint32_t)st.size())));
    uint32_t k = i == 0 ? (uint32_t)st.size() + 1 : 1 + choose(WORK, 8);
    auto hits = col.search(q.data(), opts(k, st.size()));
    std::string why = judge(st, q, k, hits);
    checked();
    if (!why.empty()) fail(cls, "%s: searching %s", when, why.c_str());
  }
}
struct Life {
  std::unique_ptr<DiskCollection> col;
  State cur;
  std::vector<uint64_t> pend;   // rows of pending, in order
  bool poisoned = false;        // pending can never be flushed (bad input accepted by add)
};
void arm_any(bool flush) {
  static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_FSYNC_EIO, F_OPEN_EIO, F_RENAME_EIO, F_MMAP_ENOMEM,
                                 F_OPEN_EMFILE, F_MKDIR_EIO, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_WRITE_EINTR, F_CLOSE_EIO, F_LOCK_EIO};
  uint32_t w = choose(FAULT, 20);
  if (w >= 15) arm_alloc_fail(1 + small(FAULT, flush ? 250 : 120));
  else arm_fault(ks[w], 1 + small(FAULT, 14), 1 + small(FAULT, 3));
}
uint64_t fired0;
bool injected() { return faults_fired() != fired0 || alloc_fail_fired(); }
void quiet_again() {
  disarm_faults();
  disarm_alloc_fail();
}
// One call of the code under test, with a fault armed beforehand when arm.  Bookkeeping stays outside the armed window.
template <class F>
bool attempt(int arm, std::string &what, bool &inj, F f) {
  fired0 = faults_fired();
  arm_alloc_fail(0);
  if (arm) arm_any(arm == 2);
  bool ok = true;
  try {
    f();
    inj = injected();
    quiet_again();
  } catch (const std::exception &e) {
    inj = injected();
    quiet_again();
    ok = false;
    what = e.what();
  }
  return ok;
}
std::unique_ptr<DiskCollection> open_it() {
  return std::make_unique<DiskCollection>(DiskCollection::open(P()));
}
// opens (or makes) the collection and finds out in which of the possible states it is
void attach(Life &L, bool faults) {
  L.col.reset();
  L.pend.clear();
  L.poisoned = false;
  if (!M->created || !M->made) {
    // never acknowledged by a flush: its remains may be anything after a crash, and are removed by the user
    bool fresh = !M->created;
    if (!fresh) {
      try {
        L.col = open_it();
      } catch (const std::exception &e) {
        note("  remains of an unacknowledged creation do not open (%.60s)", e.what());
        ev("R");
        fresh = true;
      }
    }
    if (fresh) {
      fs::remove_all(P());
      for (int t = 0;; ++t) {
        ev("N");
        std::string what;
        bool inj;
        if (attempt(faults && !t, what, inj, [&] {
              L.col = std::make_unique<DiskCollection>(P(), g_cfg.dim, g_cfg.metric, g_cfg.type, g_cfg.cap, g_cfg.vp);
            }))
          break;
        note("  create failed: %.70s", what.c_str());
        if (!inj) fail("SPURIOUS_FAILURE", "creating failed without a fault: %s", what.c_str());
        fs::remove_all(P());
        ev("R");
      }
    }
  } else {
    for (int t = 0;; ++t) {
      std::string what;
      bool inj;
      if (attempt(faults && !t, what, inj, [&] { L.col = open_it(); })) break;
      note("  open failed: %.70s", what.c_str());
      if (!inj) fail(c07() ? "UNOPENABLE" : "SPURIOUS_FAILURE", "opening failed without a fault: %s", what.c_str());
      count("open_failed");
    }
  }
  uint64_t n = L.col->size();
  std::string poss;
  for (auto &s : M->maybe) {
    if (s.size() == n) {
      // states of one size are the same set unless a flush was given up: try each
      bool all_in = true;
      std::vector<float> q = vec_of(s.empty() ? 1 : *s.begin());
      auto hits = L.col->search(q.data(), opts((uint32_t)n + 1, n));
      for (auto &h : hits) all_in &= s.count(h.label) != 0;
      if (all_in) {
        L.cur = s;
        verify(*L.col, s, "WRONG_CONTENTS", "after opening");
        note("  attached: %zu records (%zu possible states)", s.size(), M->maybe.size());
        return;
      }
    }
    poss += " " + std::to_string(s.size());
  }
  fail("LOST_OR_PARTIAL", "after opening: %lu records that are no possible state; possible sizes:%s", n, poss.c_str());
}

uint64_t g_label;  // labels handed out in this run, kept across lives by the op number

void do_life(int life, int lives, int ops, bool crash, uint32_t crash_den, bool faults, uint32_t fault_den) {
  bool last = life == lives - 1;
  Life L;
  g_label = 1000ull * (life + 1);
  if (crash && chance(CRASH, 1, 4)) arm_crash(1 + small(CRASH, 30));
  note("life %d", life);
  attach(L, faults && chance(FAULT, 1, fault_den));
  if (last) return;
  for (int i = 0; i < ops; ++i) {
    op_scope(++g_op);
    uint32_t kind = pick(WORK, {2, 10, 8, 3, 2});
    if (crash && chance(CRASH, 1, crash_den)) arm_crash(1 + small(CRASH, 34));
    bool f = faults && chance(FAULT, 1, fault_den);
    switch (kind) {
      case 0: break;
      case 1: {  // add
        uint32_t n = 1 + small(WORK, 6);
        uint32_t bad = c07() ? 0 : pick(WORK, {40, 1, 1, 1, 1});
        std::vector<uint64_t> ls;
        bool pois = L.poisoned;
        std::vector<float> vs;
        for (uint32_t j = 0; j < n; ++j) {
          uint64_t l = g_label++;
          if (bad == 1 && j == 0 && !L.cur.empty()) l = *std::next(L.cur.begin(), choose(WORK, (uint32_t)L.cur.size())), pois = true;
          if (bad == 2 && j == 0 && !L.pend.empty()) l = L.pend[0], pois = true;
          ls.push_back(l);
          auto v = vec_of(l);
          vs.insert(vs.end(), v.begin(), v.end());
        }

        if (bad == 3) vs[choose(WORK, (uint32_t)vs.size())] = choose(WORK, 2) ? NAN : INFINITY, pois = true;
        if (bad == 4 && g_cfg.metric == MetricType::COS) {
          for (uint32_t c = 0; c < g_cfg.dim; ++c) vs[c] = 0;
          pois = true;
        }
        note("op %u: add %u%s", g_op, n, pois && !L.poisoned ? " (bad values)" : "");
        uint64_t bytes = 2ull * (L.pend.size() + n) * (4ull * g_cfg.dim + 8);
        bool over = bytes > g_cfg.cap;
        for (int t = 0;; ++t) {
          std::string what;
          bool inj, ok = attempt(f && !t, what, inj, [&] { L.col->add_batch(vs.data(), ls.data(), n); });
          if (ok) {
            if (over && !c07()) fail("CAP", "an add beyond the pending limit (%lu > %zu bytes) was accepted", bytes, g_cfg.cap);
            L.pend.insert(L.pend.end(), ls.begin(), ls.end());
            L.poisoned = pois;
            break;
          }
          note("  add failed: %.70s", what.c_str());
          count("add_failed");
          if (over) break;
          if (!inj && c07()) break;
          if (!inj) fail("ADD_FAILS", "add fails although nothing is wrong: %s", what.c_str());
          if (choose(WORK, 4) == 0) break;  // given up: must leave no trace
        }
        break;
      }
      case 2: {  // flush
        if (L.pend.empty()) {
          L.col->flush();
          break;
        }
        std::set<uint64_t> uniq(L.pend.begin(), L.pend.end());
        bool must_fail = L.poisoned || uniq.size() != L.pend.size() || (g_cfg.type == DiskIndexType::Vamana && L.pend.size() < 2);
        State next = L.cur;
        next.insert(L.pend.begin(), L.pend.end());
        note("op %u: flush %zu rows%s", g_op, L.pend.size(), must_fail ? " (must fail)" : "");
        for (int t = 0;; ++t) {
          if (!must_fail) ev(ev_of('T', next));
          std::string what;
          bool inj, ok = attempt(f && !t ? 2 : 0, what, inj, [&] { L.col->flush(); });
          if (ok) {
            if (must_fail) fail("BAD_ACCEPTED", "a flush with bad input succeeded");
            L.cur = next;
            L.pend.clear();
            ev(ev_of('A', next));
            nontrivial();
            count("flushed");
            verify(*L.col, L.cur, "WRONG_CONTENTS", "after a flush");
            break;
          }
          note("  flush failed: %.90s", what.c_str());
          count("flush_failed");
          verify(*L.col, L.cur, "CHANGED_BY_FAILURE", "after a failed flush");
          if (must_fail) break;
          if (!inj && c07()) break;  // C08's
          if (!inj) fail("FLUSH_FAILS", "flush fails although the fault is gone: %s", what.c_str());
          if (choose(WORK, 4) == 0) break;
          if (choose(WORK, 3) == 1) {
            // more rows before trying again
            uint64_t l = g_label++;
            auto v = vec_of(l);
            if (2ull * (L.pend.size() + 1) * (4ull * g_cfg.dim + 8) <= g_cfg.cap) {
              L.col->add_batch(v.data(), &l, 1);
              L.pend.push_back(l);
              next.insert(l);
            }
          }
          if (c07() && f && choose(FAULT, 3) == 1) t = -1;
        }
        break;
      }
      case 3:
        note("op %u: check", g_op);
        verify(*L.col, L.cur, "WRONG_CONTENTS", "while open");
        break;
      case 4:
        note("op %u: reopen", g_op);
        attach(L, f);
        break;
    }
    quiet_again();
  }
  if (crash && chance(CRASH, 1, 2)) crash_now();
}
}  // namespace

void sim_run() {
  M = new Model;
  g_op = 0;
  draw_cfg();
  if (choose(WORK, 6) == 1) g_cfg.cap = (4ull * g_cfg.dim + 8) * 2 * 12;
  bool crash = c07() && pick(WORK, {1, 4}) != 0;
  bool faults = !c07() || choose(WORK, 2);
  uint32_t crash_den = 2 + choose(WORK, 12), fault_den = 1 + choose(WORK, c07() ? 10 : 3);
  int lives = c07() ? 2 + choose(WORK, 4) : 1;
  int ops = 3 + (int)choose(WORK, 14);
  fs_config().posix_dirs = true;
  note("%s metric %d dim %u", g_cfg.type == DiskIndexType::Vamana ? "vamana" : "flat", (int)g_cfg.metric, g_cfg.dim);
  if (!c07()) {
    auto r = run_life([&] { do_life(0, 99, ops, false, 1, faults, fault_den); });
    return;
  }
  for (int l = 0; l < lives; ++l) {
    op_scope(1000 + l);
    auto r = run_life([&] { do_life(l, lives, ops, crash, crash_den, faults, fault_den); });
    for (auto &e : r.events) apply_event(e);
    g_op += 100;
    note("life %d ended: %s", l, r.kind == LifeResult::CRASHED ? "crash" : "clean");
    if (r.kind == LifeResult::CRASHED && l == lives - 1) {
      op_scope(2000);
      run_life([&] {
        Life L;
        if (M->made) attach(L, false);
      });
    }
  }
  delete M;
}
