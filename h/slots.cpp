// C15: index/graph/diskann/slot_allocator.hpp and tombstone_bitmap.hpp, used as the index does (mutators under the exclusive side of
// a lock, snapshots under its shared side, deleted marks read without a lock), under every thread schedule.
#include <algorithm>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <shared_mutex>
#include <thread>
#include "index/graph/diskann/slot_allocator.hpp"
#include "../sim/sim.hpp"
using namespace sim;
using alaya::diskann::SlotAllocator;
using alaya::diskann::TombstoneBitmap;
using alaya::diskann::TombstoneSnapshot;
const char *sim_harness_name = "slots";
void sim_prepare() {}

namespace {
struct Ev {
  uint64_t from, to;  // to = 0: still running
  bool v;
};
// history of one deleted mark
struct Mark {
  std::vector<Ev> ev;
};
struct Model {
  uint32_t next = 0;              // ids handed out so far
  size_t untracked = 0;           // initial ids no thread frees
  std::set<uint32_t> freed;       // free, not allocated
  std::set<uint32_t> owned;       // allocated or initially live
  std::map<uint32_t, Mark> mark;  // every id whose mark was ever touched
  bool deleted(uint32_t id) {
    auto it = mark.find(id);
    return it != mark.end() && !it->second.ev.empty() && it->second.ev.back().v;
  }
  size_t ndeleted() {
    size_t n = 0;
    for (auto &[id, m] : mark) n += deleted(id);
    return n;
  }
};
Model *M;
Ev &begin(uint32_t id, bool v) {
  auto &e = M->mark[id].ev;
  e.push_back({step(), 0, v});
  return e.back();
}
void end(uint32_t id) { M->mark[id].ev.back().to = step(); }

// was value v possible for a read of id during [s1,s2]?
bool possible(uint32_t id, bool v, uint64_t s1, uint64_t s2) {
  bool ok_first = true;  // the initial "live" is possible until a write completed before the read began
  bool first_possible = true;
  auto it = M->mark.find(id);
  if (it == M->mark.end()) return !v;
  auto &ev = it->second.ev;
  (void)ok_first;
  int last_done = -1;
  for (int i = 0; i < (int)ev.size(); ++i)
    if (ev[i].to && ev[i].to <= s1) last_done = i;
  if (last_done >= 0) first_possible = false;
  if (first_possible && !v) return true;
  for (int i = std::max(0, last_done); i < (int)ev.size(); ++i)
    if (ev[i].from <= s2 && ev[i].v == v) return true;
  return false;
}

void check_state(SlotAllocator &a, const char *when) {
  checked();
  if (a.next_fresh_id() != M->next) fail("CAPACITY", "%s: next fresh id is %u, %u ids were handed out", when, a.next_fresh_id(), M->next);
  auto fl = a.free_list();
  std::set<uint32_t> fs(fl.begin(), fl.end());
  if (fs.size() != fl.size()) fail("FREE_TWICE", "%s: a slot is on the free list twice", when);
  for (uint32_t id : fs)
    if (M->owned.count(id)) fail("FREE_AND_USED", "%s: slot %u is on the free list and in use", when, id);
  if (a.free_count() != M->freed.size() || fs != M->freed)
    fail("SLOT_LOST", "%s: %zu slots are free, %zu were freed and not handed out again", when, fl.size(), M->freed.size());
  if (M->owned.size() + M->untracked + fs.size() != M->next)
    fail("SLOT_LOST", "%s: %zu used + %zu free != %u", when, M->owned.size() + M->untracked, fs.size(), M->next);
  for (uint32_t id : fs)
    if (!a.is_deleted(id)) fail("FREE_NOT_DELETED", "%s: the free slot %u is not marked deleted", when, id);
  size_t n = 0;
  for (auto &[id, m] : M->mark) {
    bool d = M->deleted(id);
    n += d;
    if (a.is_deleted(id) != d) fail("MARK", "%s: slot %u is %s", when, id, d ? "deleted but reads as live" : "live but reads as deleted");
  }
  if (a.tombstone_count() != n) fail("COUNT", "%s: %lu marks counted, %zu slots are deleted", when, (unsigned long)a.tombstone_count(), n);
}
void check_snapshot(TombstoneSnapshot &s, const char *when) {
  checked();
  for (auto &[id, m] : M->mark)
    if (s.is_deleted(id) != M->deleted(id))
      fail("SNAPSHOT", "%s: slot %u is %s in the snapshot", when, id, M->deleted(id) ? "deleted but live" : "live but deleted");
  uint64_t n = 0, words = s.capacity() / 64;
  for (uint64_t w = 0; w < words; ++w) n += __builtin_popcountll(s.data()[w]);
  if (n != M->ndeleted()) fail("SNAPSHOT", "%s: the snapshot has %lu marks, %zu slots are deleted", when, (unsigned long)n, M->ndeleted());
}

void save_and_reload(std::shared_mutex &mu, SlotAllocator &a) {
  std::string path = std::string(root()) + "/slots.bin";
  bool faulty = chance(FAULT, 1, 2);
  if (faulty) {
    static const FaultKind kinds[] = {F_WRITE_ENOSPC, F_WRITE_EIO, F_WRITE_SHORT, F_WRITE_EINTR, F_OPEN_EIO, F_CLOSE_EIO};
    arm_fault(kinds[choose(FAULT, 6)], 1 + choose(FAULT, 3), 1 + choose(FAULT, 2));
  }
  bool ok = true;
  try {
    std::shared_lock<std::shared_mutex> g(mu);
    a.save(path);
  } catch (const std::exception &e) {
    ok = false;
    if (!faulty) fail("SAVE", "saving failed without a fault: %s", e.what());
    count("save_failed");
  }
  disarm_faults();
  std::unique_lock<std::shared_mutex> g(mu);
  Quiet q;
  check_state(a, "after saving");
  if (!ok) return;
  count("saved");
  auto b = std::make_unique<SlotAllocator>();
  if (chance(WORK, 1, 2)) {
    b->reset(5 + choose(WORK, 100));
    b->free(3);
  }
  try {
    b->load(path);
  } catch (const std::exception &e) {
    fail("SAVED_BUT_LOST", "a save that reported success cannot be loaded: %s", e.what());
  }
  check_state(*b, "after reloading");
  // order of reuse must survive too: ids handed out next are the same
  if (b->free_list() != a.free_list()) fail("SAVED_BUT_LOST", "the free list differs after reloading");
}

// threads writing the marks of their own slots directly
void bitmap_run() {
  op_scope(1);
  uint64_t init = choose(WORK, 3) * 70;
  auto bm = std::make_unique<TombstoneBitmap>(init);
  int nt = 2 + (int)choose(WORK, 2);
  int nops = 1 + (int)choose(WORK, 6);
  uint64_t salt = choose(WORK, 1000);
  // ids around word and chunk borders; id i belongs to thread i % nt
  static const uint64_t cand[] = {0, 1, 2, 3, 62, 63, 64, 65, 66, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 131074, 200000, 200001, 200002};
  constexpr int N = sizeof cand / sizeof *cand;
  static bool val[N];
  memset(val, 0, sizeof val);
  {
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (int i = 0; i < nops; ++i) {
          uint64_t r = mix(salt * 131 + t * 17 + i);
          int k = (int)(r % N);
          k = k - k % nt + t;
          if (k >= N) k = t;
          bool set = mix(r) % 3 != 0;
          if (set) bm->set(cand[k]);
          else bm->clear(cand[k]);
          val[k] = set;
          if (bm->is_deleted(cand[k]) != set) fail("MARK", "the thread that wrote the mark of slot %lu reads the other value", (unsigned long)cand[k]);
        }
      });
    std::thread reader;
    if (chance(WORK, 1, 2))
      reader = std::thread([&] {
        for (int i = 0; i < 4; ++i) {
          if (bm->is_deleted(5) || bm->is_deleted(131080) || bm->is_deleted(uint64_t(1) << 33))
            fail("MARK", "a slot that was never deleted reads as deleted");
          bm->count();
        }
      });
    for (auto &t : th) t.join();
    if (reader.joinable()) reader.join();
  }
  nontrivial();
  Quiet q;
  uint64_t n = 0;
  TombstoneSnapshot s;
  bm->snapshot_into(s);
  for (int k = 0; k < N; ++k) {
    n += val[k];
    if (bm->is_deleted(cand[k]) != val[k]) fail("MARK_LOST", "slot %lu should be %s", (unsigned long)cand[k], val[k] ? "deleted" : "live");
    if (s.is_deleted(cand[k]) != val[k]) fail("SNAPSHOT", "slot %lu should be %s in the snapshot", (unsigned long)cand[k], val[k] ? "deleted" : "live");
  }
  if (bm->count() != n) fail("COUNT", "%lu marks counted, %lu slots are deleted", (unsigned long)bm->count(), (unsigned long)n);
  std::string path = std::string(root()) + "/bm.bin";
  bm->save(path);
  TombstoneBitmap b2;
  if (chance(WORK, 1, 2)) b2.set(70000);
  b2.load(path);
  for (int k = 0; k < N; ++k)
    if (b2.is_deleted(cand[k]) != val[k]) fail("RELOAD", "slot %lu should be %s after reloading", (unsigned long)cand[k], val[k] ? "deleted" : "live");
  if (b2.count() != n) fail("COUNT", "%lu marks counted after reloading, %lu slots are deleted", (unsigned long)b2.count(), (unsigned long)n);
  checked();
}

void allocator_run() {
  op_scope(1);
  static const uint32_t inits[] = {0, 3, 60, 64, 130, 65533, 65536, 131070};
  uint32_t init = inits[choose(WORK, 8)];
  auto model = std::make_unique<Model>();
  M = model.get();
  M->next = init;
  for (uint32_t i = init < 200 ? 0 : init - 8; i < init; ++i) M->owned.insert(i);
  // ids we do not track individually are initially live for ever
  size_t untracked = init - M->owned.size();
  std::unique_ptr<SlotAllocator> a;
  if (chance(WORK, 1, 2)) a = std::make_unique<SlotAllocator>(init);
  else {
    a = std::make_unique<SlotAllocator>();
    Quiet q;
    a->reset(init);
  }
  M->untracked = untracked;
  std::shared_mutex mu;
  int nt = 1 + (int)choose(WORK, 3);
  int nops = 2 + (int)choose(WORK, 10);
  bool oom = chance(FAULT, 1, 4);
  uint64_t salt = choose(WORK, 100000);
  int readers = (int)choose(WORK, 3);
  struct Read {
    uint32_t id;
    bool v;
    uint64_t s1, s2;
  };
  std::vector<Read> reads;
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      std::vector<uint32_t> mine;  // slots this thread owns
      if (init > (uint32_t)t) mine.push_back(init - 1 - t);
      for (int i = 0; i < nops; ++i) {
        uint64_t r = mix(salt + t * 1009 + i * 31);
        std::unique_lock<std::shared_mutex> g(mu);
        int op = (int)(r % 7);
        if (op <= 2) {  // alloc, then write the record and publish
          if (oom && r % 5 == 0) arm_alloc_fail(1 + (r >> 8) % 2);
          uint32_t id = 0;
          bool ok = true;
          uint64_t s0 = step();
          try {
            id = a->alloc();
          } catch (const std::bad_alloc &) {
            ok = false;
            count("alloc_failed");
          }
          disarm_alloc_fail();
          Quiet q;
          if (!ok) {
            check_state(*a, "after an allocation that failed for lack of memory");
            continue;
          }
          if (M->owned.count(id)) fail("TWO_OWNERS", "alloc() returned slot %u which is in use", id);
          if (M->freed.count(id)) M->freed.erase(id);
          else if (id == M->next) M->next++;
          else fail("ALLOC", "alloc() returned slot %u, which is neither free nor the next fresh id %u", id, M->next);
          if (!M->freed.empty() && id + 1 == M->next && !M->deleted(id)) fail("ALLOC", "a fresh slot was used while slots were free");
          M->owned.insert(id);
          if (!a->is_deleted(id)) fail("ALLOC_VISIBLE", "slot %u is visible to searches before it is published", id);
          auto &e = begin(id, true);
          e.from = s0;
          end(id);
          mine.push_back(id);
          nontrivial();
        } else if (op <= 4) {  // publish
          if (mine.empty()) continue;
          uint32_t id = mine[(r >> 16) % mine.size()];
          {
            Quiet q;
            begin(id, false);
          }
          a->publish(id);
          Quiet q;
          end(id);
          if (a->is_deleted(id)) fail("MARK", "slot %u is still marked deleted after it was published", id);
        } else {  // free own slot, or an initial one owned by this thread
          if (mine.empty()) continue;
          size_t k = (r >> 16) % mine.size();
          uint32_t id = mine[k];
          mine.erase(mine.begin() + k);
          {
            Quiet q;
            begin(id, true);
          }
          a->free(id);
          Quiet q;
          end(id);
          M->owned.erase(id);
          M->freed.insert(id);
          if (!a->is_deleted(id)) fail("MARK", "slot %u reads as live after it was freed", id);
        }
        Quiet q;
        if (a->tombstone_count() != M->ndeleted()) fail("COUNT", "%lu marks counted, %zu slots are deleted", (unsigned long)a->tombstone_count(), M->ndeleted());
        checked();
      }
    });
  for (int t = 0; t < readers; ++t)
    th.emplace_back([&, t] {
      TombstoneSnapshot s;
      for (int i = 0; i < 6; ++i) {
        uint64_t r = mix(salt * 7 + t * 101 + i);
        if (r % 3) {
          uint32_t id = r % 2 || !init ? init + (r >> 16) % 4 : init - 1 - (uint32_t)((r >> 16) % std::min<uint32_t>(init, 4));
          uint64_t s1 = step();
          bool v = a->is_deleted(id);
          Quiet q;
          reads.push_back({id, v, s1, step()});  // judged when all marks are known
        } else {
          std::shared_lock<std::shared_mutex> g(mu);
          Quiet q;  // mutators are excluded; nothing to interleave with
          a->tombstone().snapshot_into(s);
          check_snapshot(s, "under the shared lock");
        }
      }
    });
  for (auto &t : th) t.join();
  {
    Quiet q;
    for (auto &r : reads) {
      checked();
      if (!possible(r.id, r.v, r.s1, r.s2))
        fail("STALE_MARK", "slot %u reads as %s, which it was at no time during the read", r.id, r.v ? "deleted" : "live");
    }
    check_state(*a, "at the end");
  }
  save_and_reload(mu, *a);
  Quiet q;
  a.reset();
  model.reset();
  M = nullptr;
}
}  // namespace

void sim_run() {
  fs_enable();
  sched_config().races = chance(WORK, 1, 3);
  sched_start();
  if (chance(WORK, 1, 3)) bitmap_run();
  else allocator_run();
}
