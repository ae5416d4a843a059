// C09 C10: disk collections shared by threads: ownership, batch searches, and the Python handle.
#include <atomic>
#include <filesystem>
#include <memory>
#include <mutex>
#include <thread>
#include "diskcol.hpp"
#include "disk_collection.hpp"
using namespace sim;
using namespace dc;
namespace fs = std::filesystem;
namespace py = pybind11;
using alaya::disk::pybindings::PyDiskCollection;
const char *sim_harness_name = "diskmt";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
fs::path P() { return fs::path(root()) / "col"; }
void add(DiskCollection &c, const std::vector<uint64_t> &ls) {
  std::vector<float> v;
  {
    Quiet q;
    for (auto l : ls) {
      auto x = vec_of(l);
      v.insert(v.end(), x.begin(), x.end());
    }
  }
  c.add_batch(v.data(), ls.data(), ls.size());
}

// ------------------------------------------------------------------ C09
struct Owner {
  bool created = false;      // a creation was acknowledged
  State st;                  // flushed records
  int32_t inflight = -1;     // first label of a flush whose outcome is unknown
  uint64_t next = 1;
} *O;
int g_holders, g_active;
uint64_t g_begun;
bool g_maybe_made;  // a creation may have left remains without being acknowledged

void apply_event(const std::string &e) {
  char k;
  long a;
  if (sscanf(e.c_str(), "%c %ld", &k, &a) != 2) return;
  if (k == 'N') O->created = true;
  if (k == 'T') O->inflight = (int32_t)a, O->next = std::max<uint64_t>(O->next, (uint64_t)a + 3);
  if (k == 'K') O->st.insert({(uint64_t)a, (uint64_t)a + 1, (uint64_t)a + 2}), O->inflight = -1;
  if (k == 'F') O->inflight = -1;
  if (k == 'M') g_maybe_made = true;
}
void ev(char k, long a) {
  Quiet q;
  char b[40];
  snprintf(b, sizeof b, "%c %ld", k, a);
  emit(b);
  apply_event(b);
}
void verify_all(DiskCollection &c, const char *when) {
  State st = O->st;
  checked();
  if (c.size() != st.size()) fail("DATA_TOUCHED", "%s: the collection has %lu records, %zu were flushed", when, c.size(), st.size());
  auto q = query_of(choose(WORK, 40));
  uint32_t k = (uint32_t)st.size() + 1;
  auto why = judge(st, q, k, c.search(q.data(), opts(k, st.size())));
  if (!why.empty()) fail("DATA_TOUCHED", "%s: searching %s", when, why.c_str());
}
struct Attempt {
  uint64_t b0;
  bool others;
  Attempt() {
    Quiet q;
    others = g_active > 0;
    ++g_active;
    b0 = ++g_begun;
  }
  bool alone() const { return !others && g_begun == b0; }
};
void got(const char *how) {
  Quiet q;
  if (++g_holders > 1) fail("TWO_OWNERS", "a second writable handle was given out (%s) while %d exist", how, g_holders - 1);
  checked();
}
void lost() {
  Quiet q;
  --g_holders;
}
std::unique_ptr<DiskCollection> acquire(uint32_t how, bool faults) {
  if (how == 0) ev('M', 0);
  std::unique_ptr<DiskCollection> c;
  uint64_t f0 = faults_fired();
  std::string why;
  static const FaultKind ks[] = {F_LOCK_EIO, F_LOCK_EINTR, F_OPEN_EMFILE, F_OPEN_EIO, F_READ_EIO, F_MKDIR_EIO, F_RENAME_EIO, F_WRITE_ENOSPC};
  FaultKind fk = ks[choose(FAULT, 8)];
  uint32_t fn = 1 + small(FAULT, 6);
  bool arm = faults && chance(FAULT, 1, 3);
  bool existed = fs::exists(P() / "collection_manifest.txt");
  Attempt at;
  if (arm) arm_fault(fk, fn, 1);
  try {
    if (how == 0) {
      c = std::make_unique<DiskCollection>(P(), g_cfg.dim, g_cfg.metric, g_cfg.type, g_cfg.cap, g_cfg.vp);
    } else {
      c = std::make_unique<DiskCollection>(DiskCollection::open(P()));
    }
  } catch (const std::exception &e) {
    Quiet q;
    why = e.what();
  }
  if (arm) disarm_faults();
  bool fired = faults_fired() != f0;
  if (c) {
    got(how ? "open" : "create");
    if (how == 0) {
      if (existed || O->created) fail("CREATED_TWICE", "a collection was created where one exists");
      ev('N', 0);
      nontrivial();
      count("created");
    } else {
      count("opened");
      if (O->inflight >= 0) ev(c->size() == O->st.size() + 3 ? 'K' : 'F', O->inflight);  // of an owner that died
    }
    return c;
  }
  Quiet q;
  --g_active;
  count(how ? "open_refused" : "create_refused");
  if (at.alone() && !fired && how == 1 && O->created)
    fail("NOT_REOPENED", "opening the collection failed with nobody else around: %s", why.c_str());
  if (at.alone() && !fired && how == 0 && !O->created && !existed && !fs::exists(P()))
    fail("NOT_CREATED", "creating the collection failed with nobody else around: %s", why.c_str());
  return nullptr;
}
void release(std::unique_ptr<DiskCollection> &c) {
  lost();
  c.reset();
  Quiet q;
  --g_active;
}
void c09_life(int nt, int ops, bool faults, uint32_t crash_den, int life_no) {
  fs_config().kill_only = true;
  g_holders = g_active = 0;
  sched_start();
  uint64_t salt = choose(WORK, 1 << 16);
  if (chance(CRASH, 1, crash_den)) arm_crash(1 + choose(CRASH, 40));
  std::vector<std::thread> th;
  bool in_life_faults = faults && nt == 1;  // faults are global: only when one thread runs they hit its own call
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      uint64_t s = mix(salt + (uint64_t)t);
      std::unique_ptr<DiskCollection> c;
      for (int i = 0; i < ops; ++i) {
        s = mix(s + 1);
        for (uint64_t y = 0; y < s % 4; ++y) yield();
        if (!c) {
          c = acquire((s >> 8) % 3 ? 1 : 0, in_life_faults);
        } else {
          switch ((s >> 8) % 4) {
            case 0:
              if ((s >> 16) % 3) {
                release(c);
              } else {  // another collection is assigned to the handle: this one is let go
                fs::path sp = fs::path(root()) / ("spare" + std::to_string(t));
                std::unique_ptr<DiskCollection> other;
                try {
                  other = std::make_unique<DiskCollection>(fs::exists(sp / "collection_manifest.txt")
                                                               ? DiskCollection::open(sp)
                                                               : DiskCollection(sp, g_cfg.dim, g_cfg.metric, g_cfg.type, g_cfg.cap, g_cfg.vp));
                } catch (const std::exception &) {  // its creator died halfway
                }
                if (!other) break;
                lost();
                *c = std::move(*other);
                other.reset();
                c.reset();
                Quiet q;
                --g_active;
                count("replaced");
              }
              break;
            case 1: {  // move the handle: ownership moves with it
              auto d = std::make_unique<DiskCollection>(std::move(*c));
              c = std::move(d);
              break;
            }
            case 2:
            case 3: {
              uint64_t l = O->next;
              ev('T', (long)l);
              bool ok = true;
              try {
                add(*c, {l, l + 1, l + 2});
                c->flush();
              } catch (const std::exception &e) {
                ok = false;
                fail("OWNER_FAILED", "a flush by the owner failed: %s", e.what());
              }
              ev('K', (long)l);
              count("flushed");
              break;
            }
          }
        }
      }
      if (c) {
        if (s % 3 == 0) verify_all(*c, "at the end of a thread");
        release(c);
      }
    });
  for (auto &t : th) t.join();
  arm_crash(0);
  if (O->created) {
    auto c = acquire(1, false);
    if (!c) fail("NOT_REOPENED", "after every handle was closed the collection cannot be opened");
    verify_all(*c, "after every handle was closed");
    nontrivial();
    if (chance(CRASH, 1, 2)) crash_now();
    release(c);
  }
}
void c09() {
  Owner o;
  O = &o;
  g_maybe_made = false;
  draw_cfg(false);
  int lives = 1 + (int)choose(WORK, 3), nt = 1 + (int)choose(WORK, 4), ops = 2 + (int)choose(WORK, 7);
  bool faults = chance(WORK, 1, 2);
  uint32_t den = 2 + choose(WORK, 4);
  for (int l = 0; l < lives; ++l) {
    op_scope(1000 + l);
    auto r = run_life([&] { c09_life(nt, ops, faults, den, l); });
    for (auto &e : r.events) apply_event(e);
    if (r.kind == r.CRASHED) count("owner_killed");
  }
  if (o.created) {
    op_scope(2000);
    run_life([&] {
      fs_config().kill_only = true;
      g_holders = g_active = 0;
      auto c = acquire(1, false);
      if (!c) fail("NOT_REOPENED", "after the last owner died the collection cannot be opened");
      verify_all(*c, "at the end");
    });
  }
}

// ------------------------------------------------------------------ C10
struct Res {
  std::vector<uint64_t> l;
  std::vector<float> d;
};
Res batch(const DiskCollection &c, const std::vector<float> &qs, size_t n, const DiskSearchOptions &o, uint32_t nt, bool dist) {
  Res r;
  r.l.assign(n * o.top_k, UINT64_MAX);
  r.d.assign(n * o.top_k, -12345.f);
  c.batch_search(qs.data(), n, o, nt, r.l.data(), dist ? r.d.data() : nullptr);
  return r;
}
void c10_batch() {
  draw_cfg(true);
  auto col = std::make_unique<DiskCollection>(P(), g_cfg.dim, g_cfg.metric, g_cfg.type, g_cfg.cap, g_cfg.vp);
  State st;
  int segs = (int)choose(WORK, 4);
  uint64_t next = 1 + choose(WORK, 30);
  for (int s = 0; s < segs; ++s) {
    std::vector<uint64_t> ls;
    int n = 2 + (int)choose(WORK, 8);
    for (int i = 0; i < n; ++i) ls.push_back(next++);
    add(*col, ls);
    col->flush();
    st.insert(ls.begin(), ls.end());
  }
  int callers = 1 + (int)pick(WORK, {3, 1, 1});
  size_t nq = 1 + choose(WORK, 7);
  uint32_t nt = 1 + choose(WORK, 6);
  uint32_t k = 1 + choose(WORK, 12);
  auto o = opts(k, st.size());
  bool bad = chance(WORK, 1, 5);
  int fault = (int)pick(FAULT, {3, 1, 1});  // none, a thread that cannot start, an allocation that fails
  std::vector<float> qs;
  for (size_t i = 0; i < nq; ++i) {
    auto q = query_of(choose(WORK, 60));
    qs.insert(qs.end(), q.begin(), q.end());
  }
  std::vector<std::vector<DiskSearchHit>> alone;
  for (size_t i = 0; i < nq; ++i) {
    alone.push_back(col->search(&qs[i * g_cfg.dim], o));
    std::vector<float> q(&qs[i * g_cfg.dim], &qs[i * g_cfg.dim] + g_cfg.dim);
    auto why = judge(st, q, k, alone.back());
    checked();
    if (!why.empty()) fail("WRONG_RESULT", "a single search %s", why.c_str());
  }
  size_t badq = 0;
  if (bad && !st.empty()) {
    badq = choose(WORK, (uint32_t)nq);
    union { uint32_t u; float f; } x{(uint32_t)(choose(WORK, 2) ? 0x7fc00000u : 0x7f800000u)};
    qs[badq * g_cfg.dim] = x.f;
  } else {
    bad = false;
  }
  sched_start();
  if (callers > 1) fault = 0;
  auto one = [&](bool dist) {
    uint64_t f0 = faults_fired();
    Res r;
    r.l.assign(nq * k, UINT64_MAX);
    r.d.assign(nq * k, -12345.f);
    bool ok = true, typed = true;
    std::string why;
    arm_alloc_fail(0);
    if (fault == 1) arm_fault(F_THREAD_EAGAIN, 1 + choose(FAULT, 6), 1 + choose(FAULT, 2));
    if (fault == 2) arm_alloc_fail(1 + small(FAULT, 40), true);
    try {
      col->batch_search(qs.data(), nq, o, nt, r.l.data(), dist ? r.d.data() : nullptr);
    } catch (const std::invalid_argument &e) {
      ok = false;
      disarm_alloc_fail();
      why = e.what();
    } catch (const std::exception &e) {
      ok = false;
      typed = false;
      disarm_alloc_fail();
      why = e.what();
    }
    disarm_alloc_fail();
    disarm_faults();
    Quiet quiet;
    bool injected = faults_fired() != f0 || alloc_fail_fired();
    checked();
    if (!ok) {
      count("batch_failed");
      if (!bad && !injected) fail("SPURIOUS_ERROR", "a batch search without a fault failed: %s", why.c_str());
      if (bad && !injected && !typed) fail("WRONG_ERROR", "the batch search did not pass the worker's error on: %s", why.c_str());
      return;
    }
    if (bad) fail("ERROR_LOST", "query %zu has a component that is not finite; the batch search of %zu queries on %u threads returned normally", badq, nq, nt);
    if (injected && fault == 2) fail("ERROR_LOST", "an allocation failed during the batch search, which returned normally");
    for (size_t i = 0; i < nq; ++i)
      for (uint32_t j = 0; j < k; ++j) {
        uint64_t wl = j < alone[i].size() ? alone[i][j].label : UINT64_MAX;
        float wd = j < alone[i].size() && dist ? alone[i][j].distance : -12345.f;
        if (r.l[i * k + j] != wl || memcmp(&r.d[i * k + j], &wd, 4))
          fail("BATCH_DIFFERS", "query %zu of %zu on %u threads: hit %u is label %ld at %g, alone it is label %ld at %g", i, nq, nt, j, (long)r.l[i * k + j],
               (double)r.d[i * k + j], (long)wl, (double)wd);
      }
    if (nt > 1 && nq > 1) nontrivial();
    count("batches");
  };
  std::vector<bool> dist;
  for (int i = 0; i < callers; ++i) dist.push_back(choose(WORK, 2));
  if (callers == 1) {
    one(dist[0]);
    fault = 0;
    one(true);
  } else {
    std::vector<std::thread> th;
    for (int i = 0; i < callers; ++i) th.emplace_back([&, i] { one(dist[i]); });
    for (auto &t : th) t.join();
  }
}

// the Python handle: one writer's states s0, s1, ... and readers that each see one of them
struct Ver {
  State st;
  uint64_t begin = 0, end = UINT64_MAX;  // steps of the flush that made it
};
std::vector<Ver> *V;
size_t g_floor;  // newest version some completed read has certainly seen

struct View {
  uint64_t s;
  size_t floor;
  View() {
    Quiet q;
    s = step();
    floor = g_floor;
  }
  // the read ended; f tells whether its result fits a state ("" = yes)
  template <class F>
  void settle(const char *what, F f) {
    Quiet q;
    uint64_t e = step();
    std::string why;
    checked();
    for (size_t i = floor; i < V->size(); ++i) {
      auto &v = (*V)[i];
      if (v.begin > e) break;
      if (i + 1 < V->size() && (*V)[i + 1].end < s) continue;  // replaced before the read began
      std::string w = f(v.st);
      if (w.empty()) {
        g_floor = std::max(g_floor, i);
        return;
      }
      why += (why.empty() ? "" : "; ") + std::string("state ") + std::to_string(i) + ": " + w;
    }
    fail("NO_SUCH_STATE", "%s fits no state of the collection between its start and its end: %s", what, why.c_str());
  }
};
void c10_python() {
  draw_cfg(true);
  std::vector<Ver> vs(1);
  V = &vs;
  vs[0].end = 0;
  g_floor = 0;
  sched_start();
  auto &gil = py::gil();
  bool reopen = chance(WORK, 1, 3);
  int rounds = 1 + (int)choose(WORK, 4), readers = 1 + (int)choose(WORK, 3), reads = 1 + (int)choose(WORK, 4);
  bool faults = chance(WORK, 1, 4), second_writer = chance(WORK, 1, 3);
  uint64_t salt = choose(WORK, 1 << 20);
  gil.lock();
  auto pc = std::make_shared<PyDiskCollection>(P().string(), g_cfg.dim, g_cfg.metric, g_cfg.type == DiskIndexType::Vamana ? "disk_vamana" : "disk_flat",
                                               DiskCollection::kDefaultMaxPendingBytes, 32, 48, 1.2, 1234, 1);
  if (reopen) {
    pc.reset();
    pc = PyDiskCollection::open(P().string());
  }
  gil.unlock();
  std::mutex wm;                 // the two writers take turns on whole add+flush pairs
  std::vector<uint64_t> pend;    // labels added, not yet flushed
  uint64_t next = 1;
  auto arr = [&](const std::vector<uint64_t> &ls) {
    std::vector<float> v;
    for (auto l : ls) {
      auto x = vec_of(l);
      v.insert(v.end(), x.begin(), x.end());
    }
    return py::array_t<float>(std::vector<ssize_t>{(ssize_t)ls.size(), (ssize_t)g_cfg.dim}, v.data());
  };
  auto writer = [&](int w) {
    uint64_t s = mix(salt + 77 + w);
    for (int r = 0; r < rounds; ++r) {
      std::lock_guard<std::mutex> turn(wm);
      s = mix(s + 1);
      for (uint64_t y = 0; y < s % 3; ++y) yield();
      std::vector<uint64_t> ls;
      py::array a, ids;
      {
        Quiet q;
        int n = 2 + (int)((s >> 8) % 5);
        for (int i = 0; i < n; ++i) ls.push_back(next++);
        a = arr(ls);
        ids = py::array_t<uint64_t>(std::vector<ssize_t>{(ssize_t)ls.size()}, ls.data());
      }
      gil.lock();
      pc->add(a, ids);
      gil.unlock();
      size_t at;
      {
        Quiet q;
        pend.insert(pend.end(), ls.begin(), ls.end());
        vs.push_back(vs.back());
        at = vs.size() - 1;
        vs[at].st.insert(pend.begin(), pend.end());
        vs[at].begin = step();
        vs[at].end = UINT64_MAX;
      }
      bool ok = true;
      std::string why;
      uint64_t f0 = faults_fired();
      if (faults && chance(FAULT, 1, 2)) arm_fault((FaultKind[]){F_WRITE_EIO, F_FSYNC_EIO, F_RENAME_EIO, F_OPEN_EIO, F_WRITE_ENOSPC}[choose(FAULT, 5)], 1 + small(FAULT, 12), 1);
      gil.lock();
      try {
        pc->flush();
      } catch (const std::exception &e) {
        Quiet q;
        ok = false;
        why = e.what();
      }
      disarm_faults();
      gil.unlock();
      Quiet q;
      if (!ok) {
        if (faults_fired() == f0) fail("SPURIOUS_ERROR", "a flush failed without a fault: %s", why.c_str());
        vs.pop_back();
        count("flush_failed");
        continue;
      }
      vs[at].end = step();
      pend.clear();
      count("flushes");
    }
  };
  auto reader = [&](int w) {
    uint64_t s = mix(salt + 991 + w);
    for (int r = 0; r < reads; ++r) {
      s = mix(s + 1);
      for (uint64_t y = 0; y < s % 4; ++y) yield();
      int k = 1 + (int)((s >> 8) % 12);
      switch ((s >> 16) % 4) {
        case 0:
        case 1: {
          std::vector<float> q = query_of((s >> 24) % 60);
          py::array qa;
          {
            Quiet qq;
            qa = py::array_t<float>(std::vector<ssize_t>{(ssize_t)q.size()}, q.data());
          }
          View v;
          gil.lock();
          auto out = pc->search(qa, k, 200, 4);
          gil.unlock();
          std::vector<DiskSearchHit> hits;
          {
            Quiet qq;
            for (auto &[l, d] : out) {
              DiskSearchHit h{};
              h.label = l;
              h.distance = d;
              hits.push_back(h);
            }
          }
          v.settle("a search", [&](const State &st) { return judge(st, q, (uint32_t)k, hits); });
          break;
        }
        case 2: {
          int nq = 1 + (int)((s >> 24) % 4), nt = (int)((s >> 32) % 4) + 1;
          std::vector<float> qs;
          std::vector<std::vector<float>> q;
          py::array qa;
          {
            Quiet qq;
            for (int i = 0; i < nq; ++i) {
              q.push_back(query_of(mix(s + i) % 60));
              qs.insert(qs.end(), q[i].begin(), q[i].end());
            }
            qa = py::array_t<float>(std::vector<ssize_t>{nq, (ssize_t)g_cfg.dim}, qs.data());
          }
          View v;
          gil.lock();
          auto t = pc->batch_search_with_distance(qa, k, 200, 4, nt);
          gil.unlock();
          Quiet qq;
          auto l = t[0].cast<py::array_t<uint64_t>>();
          auto d = t[1].cast<py::array_t<float>>();
          v.settle("a batch search", [&](const State &st) -> std::string {
            for (int i = 0; i < nq; ++i) {
              std::vector<DiskSearchHit> hits;
              for (int j = 0; j < k; ++j) {
                uint64_t lab = l.data()[i * k + j];
                if (lab == UINT64_MAX) break;
                DiskSearchHit h{};
                h.label = lab;
                h.distance = d.data()[i * k + j];
                hits.push_back(h);
              }
              auto w = judge(st, q[i], (uint32_t)k, hits);
              if (!w.empty()) return "query " + std::to_string(i) + " " + w;
            }
            return "";
          });
          break;
        }
        case 3: {
          View v;
          gil.lock();
          uint64_t n = pc->size();
          uint32_t dm = pc->dim();
          gil.unlock();
          v.settle("size", [&](const State &st) { return n == st.size() && dm == g_cfg.dim ? std::string() : std::to_string(n) + " records"; });
          break;
        }
      }
      count("reads");
    }
  };
  std::vector<std::thread> th;
  th.emplace_back(writer, 0);
  if (second_writer) th.emplace_back(writer, 1);
  for (int i = 0; i < readers; ++i) th.emplace_back(reader, i);
  for (auto &t : th) t.join();
  nontrivial();
  gil.lock();
  {
    View v;
    uint64_t n = pc->size();
    v.settle("the final size", [&](const State &st) { return n == st.size() ? std::string() : std::to_string(n) + " records, " + std::to_string(st.size()) + " expected"; });
  }
  pc.reset();
  gil.unlock();
}
}  // namespace
void sim_run() {
  if (!strcmp(mode(), "C09")) {
    c09();
  } else {
    fs_enable();
    sched_config().races = true;
    if (choose(WORK, 2)) c10_python();
    else c10_batch();
  }
}
