// C25: utils/platform_fs.hpp: write-then-publish helpers under crashes, disk faults and racing publishers.
#include <fstream>
#include <set>
#include <thread>
#include "utils/platform_fs.hpp"
#include "../sim/sim.hpp"
using namespace sim;
namespace pf = alaya::platform;
namespace fs = std::filesystem;
const char *sim_harness_name = "publish";
void sim_prepare() { spdlog::set_level(spdlog::level::off); }

namespace {
std::string content(uint32_t id) {
  if (!id) return "";
  static const uint32_t sizes[] = {1, 40, 4096, 5000, 30000, 0};
  Quiet q;
  uint32_t n = sizes[mix(id) % 6];
  std::string s(n, '\0');
  for (uint32_t i = 0; i < n; i += 32) memset(&s[i], 'A' + (int)(mix(id * 131071ull + i / 32) % 50), std::min(32u, n - i));
  s += "#" + std::to_string(id);
  return s;
}
// per name: versions that may be there.  0 = absent
struct Name {
  std::set<uint32_t> may{0};
};
struct Model {
  std::map<std::string, Name> n;
  uint32_t next = 1;
};
Model *M;
fs::path R() { return fs::path(root()) / "d"; }

[[noreturn]] void internal_problem() { fail("HARNESS", "the harness cannot read a file"); }
std::string slurp(const fs::path &p) {
  Quiet q;
  std::ifstream f(p, std::ios::binary);
  std::string s(fs::file_size(p), '\0');
  f.read(s.data(), (std::streamsize)s.size());
  if (!f) internal_problem();
  return s;
}
// what version is there now (0 = absent)
uint32_t version_at(const std::string &name, bool dir) {
  fs::path p = R() / name;
  if (!fs::exists(p)) return 0;
  std::string c = slurp(dir ? p / "a.bin" : p);
  auto h = c.rfind('#');
  uint32_t id = h == std::string::npos ? 0 : (uint32_t)atoi(c.c_str() + h + 1);
  if (!id || c != content(id)) fail("TORN_FILE", "%s holds %zu bytes that are no published content", name.c_str(), c.size());
  if (dir && slurp(p / "b.bin") != content(id + 500000)) fail("TORN_DIR", "%s/b.bin does not belong to the published version %u", name.c_str(), id);
  return id;
}
void verify(const char *when, bool readers) {
  for (auto &[name, n] : M->n) {
    uint32_t v = version_at(name, name[0] == 'D');
    checked();
    if (!n.may.count(v)) {
      std::string w;
      for (auto x : n.may) w += " " + std::to_string(x);
      fail(v ? "WRONG_VERSION" : "LOST_FILE", "%s: %s holds version %u, possible are:%s", when, name.c_str(), v, w.c_str());
    }
    if (readers && v && name[0] != 'D') {
      std::string want = content(v);
      static const FaultKind ks[] = {F_NONE, F_READ_SHORT, F_READ_EINTR, F_READ_EIO, F_OPEN_EIO};
      int k = (int)choose(FAULT, 5);
      if (k) arm_fault(ks[k], 1 + choose(FAULT, 2), 1 + choose(FAULT, 3));
      try {
        std::string got = pf::read_regular_file_bounded(R() / name, 1 << 20);
        if (got != want) fail("BAD_READ", "reading %s returned %zu of %zu bytes or other content", name.c_str(), got.size(), want.size());
      } catch (const std::exception &e) {
        if (k < 3) fail("READ_ERROR", "reading %s failed: %s", name.c_str(), e.what());
      }
      disarm_faults();
      if (k) arm_fault(ks[k], 1 + choose(FAULT, 2), 1 + choose(FAULT, 3));
      size_t pre = 1 + choose(WORK, (uint32_t)want.size());
      try {
        std::string got = pf::read_file_prefix(R() / name, pre);
        if (got != want.substr(0, pre)) fail("BAD_READ", "reading the prefix of %s returned other content", name.c_str());
      } catch (const std::exception &e) {
        if (k < 3) fail("READ_ERROR", "reading the prefix of %s failed: %s", name.c_str(), e.what());
      }
      disarm_faults();
      bool threw = false;
      try {
        (void)pf::read_file_prefix(R() / name, want.size() + 1);
      } catch (const std::exception &) {
        threw = true;
      }
      if (!threw) fail("BAD_READ", "a prefix longer than the file was read from %s", name.c_str());
      checked(3);
    }
  }
}
void arm() {
  static const FaultKind ks[] = {F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EINTR, F_FSYNC_EIO, F_OPEN_EIO, F_OPEN_EMFILE, F_RENAME_EIO, F_CLOSE_EIO};
  int k = (int)choose(FAULT, 9);
  uint32_t at = 1 + choose(FAULT, 5);
  arm_fault(ks[k], at, 1 + choose(FAULT, 2));
  if (ks[k] == F_WRITE_SHORT && choose(FAULT, 2)) arm_fault(F_WRITE_EINTR, 1 + choose(FAULT, 3), 1);  // a part is written, then a signal arrives
}
void write_plain(const fs::path &p, const std::string &c) {  // as callers with their own stream do
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(c.data(), (std::streamsize)c.size());
  f.close();
  if (!f) throw std::runtime_error("write");
}
// one publication; throws on failure.  Success means durable.
void publish(const std::string &name, uint32_t id, int how) {
  std::string c = content(id);
  fs::path to = R() / name, tmp = R() / (name + ".tmp");
  if (name[0] == 'D') {
    fs::remove_all(tmp);
    fs::create_directory(tmp);
    pf::write_all_fsync(tmp / "a.bin", c.data(), c.size());
    std::string b = content(id + 500000);
    if (how & 1) {
      write_plain(tmp / "b.bin", b);
      pf::sync_file_or_throw(tmp / "b.bin");
    } else {
      pf::write_all_fsync(tmp / "b.bin", b.data(), b.size());
    }
    pf::sync_directory_or_throw(tmp);
    pf::atomic_replace_no_overwrite(tmp, to);
    pf::sync_directory_or_throw(R());
    return;
  }
  if (how & 1) {
    write_plain(tmp, c);
    pf::sync_file_or_throw(tmp);
  } else {
    pf::write_all_fsync(tmp, c.data(), c.size());
  }
  if (name[0] == 'N') pf::atomic_replace_no_overwrite(tmp, to);
  else pf::atomic_replace(tmp, to);
  pf::sync_directory_or_throw(R());
}

void life(int ops, bool faults, uint32_t crash_den, int l) {
  bool fresh = !fs::exists(R());
  if (fresh) {
    fs::create_directories(R());
    pf::sync_directory_or_throw(R());
    pf::sync_directory_or_throw(root());
  }
  verify("at the start of a life", true);
  static const char *names[] = {"Ra", "Rb", "Na", "Nb", "Da", "Db"};
  for (int i = 0; i < ops; ++i) {
    op_scope(l * 64 + i + 1);
    std::string name = names[choose(WORK, 6)];
    uint32_t id = M->next++;
    int how = (int)choose(WORK, 2);
    bool no_over = name[0] != 'R';
    if (chance(CRASH, 1, crash_den)) arm_crash(1 + choose(CRASH, 12));
    uint32_t before = version_at(name, name[0] == 'D');
    if (faults && chance(FAULT, 1, 2)) arm();
    uint64_t fired = faults_fired();
    emitf("A %s %u", name.c_str(), id);
    auto &may = M->n[name].may;
    bool ok = true;
    std::string why;
    try {
      publish(name, id, how);
    } catch (const std::exception &e) {
      ok = false;
      why = e.what();
    }
    fired = faults_fired() - fired;
    disarm_faults();
    if (no_over && before) {
      if (ok) fail("OVERWRITTEN", "publishing %s without overwriting succeeded although it existed", name.c_str());
      uint32_t v = version_at(name, name[0] == 'D');
      if (v != before) fail("OVERWRITTEN", "%s was replaced by a publication that must not overwrite", name.c_str());
      emitf("F %s %u", name.c_str(), before);
      count("refused_overwrite");
    } else if (ok) {
      uint32_t v = version_at(name, name[0] == 'D');
      if (v != id) fail("NOT_PUBLISHED", "publishing %s reported success, version %u is there instead of %u", name.c_str(), v, id);
      may = {id};
      emitf("K %s %u", name.c_str(), id);
      nontrivial();
      count("published");
    } else {
      if (!fired) fail("PUBLISH_FAILED", "publishing %s failed without a fault: %s", name.c_str(), why.c_str());
      uint32_t v = version_at(name, name[0] == 'D');
      if (v != before && v != id) fail("WRONG_VERSION", "%s: version %u after a failed publication of %u over %u", name.c_str(), v, id, before);
      may.insert(id);
      count("publish_failed");
    }
    checked();
  }
  verify("before the end of a life", false);
  if (chance(CRASH, 1, 2)) crash_now();
}
void apply_event(const std::string &e) {
  char k, nm[32];
  unsigned id;
  if (sscanf(e.c_str(), "%c %31s %u", &k, nm, &id) != 3) return;
  auto &m = M->n[nm].may;
  M->next = std::max(M->next, id + 1);
  if (k == 'A') m.insert(id);
  if (k == 'K') m = {id};
  if (k == 'F') {
    // refused: the attempted version (the highest) cannot be there
    m.erase(M->next - 1);
  }
}

void crash_run() {
  Model m;
  M = &m;
  int lives = 1 + (int)choose(WORK, 4), ops = 1 + (int)choose(WORK, 8);
  bool faults = choose(WORK, 2);
  uint32_t crash_den = 2 + choose(WORK, 5);
  for (int l = 0; l < lives; ++l) {
    op_scope(5000 + l);
    auto r = run_life([&] { life(ops, faults, crash_den, l); });
    for (auto &e : r.events) apply_event(e);
  }
  op_scope(6000);
  run_life([&] { verify("after the last crash", true); });
}

void race_run() {
  fs_enable();
  fs::create_directories(R());
  Model m;
  M = &m;
  bool dir = choose(WORK, 2);
  int nt = 2 + (int)choose(WORK, 3);
  bool pre = chance(WORK, 1, 4);
  uint64_t salt = choose(WORK, 1 << 16);
  std::string name = dir ? "D" : "N";
  if (pre) publish(name, 999, 0);
  sched_start();
  std::vector<int> won(nt, 0);
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      fs::path tmp = R() / ("t" + std::to_string(t));
      std::string c = content(t + 1), b = content(t + 1 + 500000);
      if (dir) {
        fs::create_directory(tmp);
        pf::write_all_fsync(tmp / "a.bin", c.data(), c.size());
        pf::write_all_fsync(tmp / "b.bin", b.data(), b.size());
      } else {
        pf::write_all_fsync(tmp, c.data(), c.size());
      }
      for (uint64_t i = 0; i < mix(salt + t) % 3; ++i) yield();
      try {
        pf::atomic_replace_no_overwrite(tmp, R() / name);
        won[t] = 1;
      } catch (const std::exception &) {
      }
    });
  for (auto &t : th) t.join();
  int winners = 0, w = -1;
  for (int t = 0; t < nt; ++t)
    if (won[t]) {
      ++winners;
      w = t;
    }
  checked();
  if (winners != (pre ? 0 : 1)) fail("TWO_PUBLISHERS", "%d of %d racing publications succeeded%s", winners, nt, pre ? " although the target existed" : "");
  uint32_t v = version_at(name, dir);
  if (v != (pre ? 999u : (uint32_t)w + 1)) fail("OVERWRITTEN", "version %u is there, the winner published %d", v, pre ? 999 : w + 1);
  nontrivial();
  count("races");
}
}  // namespace

void sim_run() {
  if (chance(WORK, 1, 5)) race_run();
  else crash_run();
}
