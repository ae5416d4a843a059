// Interposed file calls over a real scratch directory, with a durability model, crash images and injected faults.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <filesystem>
#include <map>
#include <set>
#include <unordered_map>
#include "internal.hpp"
#undef fopen
#undef open
#undef fclose

namespace sim {
using namespace in;
const char *fault_names[] = {"none", "write_eio", "write_enospc", "write_short", "write_eintr", "fsync_eio", "open_eio",
                             "open_emfile", "rename_eio", "mkdir_eio", "read_eio", "read_short", "read_eintr", "unlink_eio",
                             "truncate_eio", "close_eio", "link_eio",
                             "lock_eintr", "lock_eio", "mmap_enomem", "thread_eagain", "aio_partial_submit", "aio_submit_eagain",
                             "aio_submit_eintr", "aio_wait_eintr", "aio_partial_wait", "aio_result_eio", "aio_result_short", "aio_setup_fail",
                             "aio_submit_error", "stat_eio"};

namespace in {
static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

struct Pend {
  bool trunc;
  uint64_t off;       // or new size
  std::string data;
};
struct Inode {
  std::string durable;
  std::vector<Pend> pend;
};
struct Assign {
  uint64_t dir;
  std::string name;
  uint64_t ino;  // 0 = removed
  bool isdir;
};
struct NsOp {
  std::vector<Assign> a;
};
struct Model {
  std::map<uint64_t, Inode> inodes;
  std::map<uint64_t, std::map<std::string, std::pair<uint64_t, bool>>> ns;  // durable namespace
  std::vector<NsOp> pend;
  uint64_t journal_upto = 0;                 // ops [0,journal_upto) durable when metadata is journaled
  std::map<uint64_t, uint64_t> posix_upto;   // per directory
};
struct FdInfo {
  bool tracked, dir, append, writable;
  uint64_t ino;
  std::string path;
};
static Model *M = nullptr;
static std::unordered_map<int, FdInfo> *FD = nullptr;
static std::string g_rt_root;       // simulated root
static uint64_t g_root_ino = 0;
static std::string g_model_file;
bool g_fs_on = false;
static FsConfig g_cfg;
static uint32_t g_crash_in = 0;
struct Armed {
  FaultKind k;
  uint32_t n, burst;
  bool forever;
};
static std::vector<Armed> *g_armed = nullptr;
static std::string *g_filter = nullptr;
static uint64_t g_ops = 0, g_fired = 0;

__attribute__((weak)) void sched_point_sync() {}
__attribute__((weak)) bool sched_active() { return false; }
__attribute__((weak)) void sched_advance(uint64_t ns) { sh->simtime += ns; }

static bool starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }

static std::string abspath(int dfd, const char *p) {
  std::string r;
  if (p[0] == '/') {
    r = p;
  } else {
    char b[4096];
    if (dfd == AT_FDCWD) {
      long n = rsys(SYS_getcwd, (long)b, sizeof b);
      r = n > 0 ? b : "";
    } else {
      char lk[64];
      snprintf(lk, sizeof lk, "/proc/self/fd/%d", dfd);
      long n = rsys(SYS_readlink, (long)lk, (long)b, sizeof b - 1);
      if (n > 0) {
        b[n] = 0;
        r = b;
      }
    }
    r += "/";
    r += p;
  }
  // normalise
  std::string o;
  size_t i = 0;
  while (i < r.size()) {
    while (i < r.size() && r[i] == '/') ++i;
    size_t j = i;
    while (j < r.size() && r[j] != '/') ++j;
    std::string c = r.substr(i, j - i);
    i = j;
    if (c.empty() || c == ".") continue;
    if (c == "..") {
      auto k = o.rfind('/');
      o = k == std::string::npos ? "" : o.substr(0, k);
      continue;
    }
    o += "/";
    o += c;
  }
  return o;
}
static bool in_root(const std::string &p) {
  return g_fs_on && (p == g_rt_root || starts(p, g_rt_root + "/"));
}
static std::string rel(const std::string &p) { return p.size() > g_rt_root.size() ? p.substr(g_rt_root.size() + 1) : "."; }
static bool rstat(const std::string &p, struct stat &st, bool follow = false) {
  return rsys(SYS_newfstatat, AT_FDCWD, (long)p.c_str(), (long)&st, follow ? 0 : AT_SYMLINK_NOFOLLOW) == 0;
}
static uint64_t ino_of(const std::string &p) {
  struct stat st;
  return rstat(p, st) ? st.st_ino : 0;
}
static std::string read_all_path(const std::string &p) {
  std::string s;
  long fd = rsys(SYS_openat, AT_FDCWD, (long)p.c_str(), O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return s;
  struct stat st;
  rsys(SYS_fstat, fd, (long)&st);
  s.resize(st.st_size);
  size_t o = 0;
  while (o < s.size()) {
    long n = rsys(SYS_pread64, fd, (long)(s.data() + o), s.size() - o, o);
    if (n <= 0) break;
    o += n;
  }
  s.resize(o);
  rsys(SYS_close, fd);
  return s;
}
static std::pair<std::string, std::string> split(const std::string &p) {
  auto k = p.rfind('/');
  return {p.substr(0, k), p.substr(k + 1)};
}
static Inode &inode_loaded(uint64_t ino, const std::string &path) {
  auto it = M->inodes.find(ino);
  if (it != M->inodes.end()) return it->second;
  Inode n;
  n.durable = read_all_path(path);
  return M->inodes.emplace(ino, std::move(n)).first->second;
}
static void ns_push(std::vector<Assign> a) { M->pend.push_back(NsOp{std::move(a)}); }

static const char *opn(FaultKind k) { return fault_names[k]; }
// true = the operation must fail with err
static bool fault(std::initializer_list<FaultKind> ks, const std::string &path, FaultKind &out) {
  if (!g_armed || g_armed->empty()) return false;
  if (!g_filter->empty() && path.find(*g_filter) == std::string::npos) return false;
  for (size_t i = 0; i < g_armed->size(); ++i) {
    Armed &a = (*g_armed)[i];
    if (std::find(ks.begin(), ks.end(), a.k) == ks.end()) continue;
    if (a.n > 1) {
      --a.n;
      continue;
    }
    out = a.k;
    if (!a.forever && --a.burst == 0) g_armed->erase(g_armed->begin() + i);
    ++g_fired;
    sh->faults[out]++;
    trace("  ! fault %s on %s", opn(out), rel(path).c_str());
    mix_hash(out + 1000);
    return true;
  }
  return false;
}
bool fault_thread() {
  FaultKind fk;
  return fault({F_THREAD_EAGAIN}, "", fk);
}
static void mutating(const char *what, const std::string &path, uint64_t x = 0) {
  ++g_ops;
  for (const char *p = what; *p; ++p) mix_hash(*p);
  mix_hash(x);
  for (size_t i = g_rt_root.size(); i < path.size(); ++i) mix_hash((unsigned char)path[i]);
  if (g_verbose) trace("  fs %lu %s %s %lu", g_ops, what, rel(path).c_str(), x);
  if (g_crash_in && --g_crash_in == 0) {
    trace("  * crash before file operation %lu: %s %s", g_ops, what, rel(path).c_str());
    fs_materialise_and_exit();
  }
}
static void pre() {
  if (sched_active()) sched_point_sync();
  sched_advance(2000);
}

// ------------------------------------------------------------------ model persistence between lives
static void put(std::string &o, uint64_t v) { o.append((char *)&v, 8); }
static void puts_(std::string &o, const std::string &s) {
  put(o, s.size());
  o += s;
}
struct Rd {
  const std::string &s;
  size_t p = 0;
  uint64_t u() {
    uint64_t v;
    memcpy(&v, s.data() + p, 8);
    p += 8;
    return v;
  }
  std::string str() {
    uint64_t n = u();
    std::string r = s.substr(p, n);
    p += n;
    return r;
  }
};
static void save_model() {
  std::string o;
  put(o, M->inodes.size());
  for (auto &kv : M->inodes) {
    put(o, kv.first);
    puts_(o, kv.second.durable);
    put(o, kv.second.pend.size());
    for (auto &p : kv.second.pend) {
      put(o, p.trunc);
      put(o, p.off);
      puts_(o, p.data);
    }
  }
  put(o, M->ns.size());
  for (auto &kv : M->ns) {
    put(o, kv.first);
    put(o, kv.second.size());
    for (auto &e : kv.second) {
      puts_(o, e.first);
      put(o, e.second.first);
      put(o, e.second.second);
    }
  }
  put(o, M->pend.size());
  for (auto &op : M->pend) {
    put(o, op.a.size());
    for (auto &a : op.a) {
      put(o, a.dir);
      puts_(o, a.name);
      put(o, a.ino);
      put(o, a.isdir);
    }
  }
  put(o, M->journal_upto);
  put(o, M->posix_upto.size());
  for (auto &kv : M->posix_upto) {
    put(o, kv.first);
    put(o, kv.second);
  }
  long fd = rsys(SYS_openat, AT_FDCWD, (long)g_model_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t w = 0;
  while (w < o.size()) {
    long n = rsys(SYS_write, fd, (long)(o.data() + w), o.size() - w);
    if (n <= 0) internal_error("model save failed");
    w += n;
  }
  rsys(SYS_close, fd);
}
static void scan_ns(const std::string &dir, uint64_t ino) {
  auto &m = M->ns[ino];
  std::vector<std::string> names;
  DIR *d = opendir(dir.c_str());
  if (!d) return;
  while (auto *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  for (auto &n : names) {
    struct stat st;
    if (!rstat(dir + "/" + n, st)) continue;
    m[n] = {st.st_ino, S_ISDIR(st.st_mode)};
    if (S_ISDIR(st.st_mode)) scan_ns(dir + "/" + n, st.st_ino);
  }
}
static void load_model() {
  M = new Model();
  struct stat st;
  if (rstat(g_model_file, st)) {
    std::string s = read_all_path(g_model_file);
    Rd r{s};
    for (uint64_t n = r.u(); n--;) {
      uint64_t ino = r.u();
      Inode &i = M->inodes[ino];
      i.durable = r.str();
      for (uint64_t k = r.u(); k--;) {
        Pend p;
        p.trunc = r.u();
        p.off = r.u();
        p.data = r.str();
        i.pend.push_back(std::move(p));
      }
    }
    for (uint64_t n = r.u(); n--;) {
      uint64_t d = r.u();
      auto &m = M->ns[d];
      for (uint64_t k = r.u(); k--;) {
        std::string nm = r.str();
        uint64_t ino = r.u();
        bool isd = r.u();
        m[nm] = {ino, isd};
      }
    }
    for (uint64_t n = r.u(); n--;) {
      NsOp op;
      for (uint64_t k = r.u(); k--;) {
        Assign a;
        a.dir = r.u();
        a.name = r.str();
        a.ino = r.u();
        a.isdir = r.u();
        op.a.push_back(a);
      }
      M->pend.push_back(op);
    }
    M->journal_upto = r.u();
    for (uint64_t n = r.u(); n--;) {
      uint64_t d = r.u();
      M->posix_upto[d] = r.u();
    }
  } else {
    scan_ns(g_rt_root, g_root_ino);
  }
}
void fs_run_begin(const std::string &root) {
  g_rt_root = root;
  g_model_file = root + ".model";
}
void fs_life_begin() {
  RtGuard g;
  FD = new std::unordered_map<int, FdInfo>();
  g_armed = new std::vector<Armed>();
  g_filter = new std::string();
  g_root_ino = ino_of(g_rt_root);
  load_model();
  g_crash_in = 0;
  g_ops = g_fired = 0;
  g_fs_on = true;
}
void fs_life_end_clean() {
  RtGuard g;
  g_fs_on = false;
  save_model();
}
static std::string apply(const Inode &n, int mode, uint64_t r) {
  std::string s = n.durable;
  size_t cnt = n.pend.size();
  size_t keep = cnt;
  uint64_t torn = ~0ull;
  if (mode == 1) keep = 0;
  if (mode == 2) {
    keep = cnt ? r % cnt : 0;
    torn = mix(r);
  }
  for (size_t i = 0; i < cnt; ++i) {
    const Pend &p = n.pend[i];
    if (i > keep || (i == keep && mode != 2)) break;
    if (p.trunc) {
      if (i < keep || mode != 2) s.resize(p.off, '\0');
      continue;
    }
    size_t len = p.data.size();
    if (mode == 2 && i == keep) len = len ? torn % (len + 1) : 0;
    if (len == 0 && !(mode == 2 && i == keep)) continue;
    if (len && s.size() < p.off + len) s.resize(p.off + len, '\0');
    if (mode == 3) {
      for (size_t o = 0; o < len;) {
        uint64_t sec = (p.off + o) / 512;
        size_t e = std::min<size_t>(len, (sec + 1) * 512 - p.off);
        if (mix(r ^ (sec * 0x9e3779b97f4a7c15ull) ^ (i << 40)) & 1) memcpy(&s[p.off + o], p.data.data() + o, e - o);
        o = e;
      }
    } else if (mode == 4) {
      // the size grew, the new bytes did not arrive
    } else if (len) {
      memcpy(&s[p.off], p.data.data(), len);
    }
  }
  return s;
}
static void write_file(const std::string &p, const std::string &c) {
  long fd = rsys(SYS_openat, AT_FDCWD, (long)p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) internal_error("image write %s: %ld", p.c_str(), fd);
  size_t w = 0;
  while (w < c.size()) {
    long n = rsys(SYS_write, fd, (long)(c.data() + w), c.size() - w);
    if (n <= 0) internal_error("image write failed");
    w += n;
  }
  rsys(SYS_close, fd);
}
void fs_materialise_and_exit() {
  ++t_in_rt;
  g_fs_on = false;
  g_run_active = false;
  // crash mode: 0 process kill, 1 power loss with journaled metadata, 2 power loss, directories independent
  uint32_t mode = choose(CRASH, g_cfg.kill_only ? 1 : g_cfg.posix_dirs ? 3 : 2);
  static const char *mn[] = {"kill", "power-journal", "power-posix"};
  trace("  * crash mode %s (%zu pending namespace ops)", mn[mode], M->pend.size());
  mix_hash(mode + 5000);
  if (mode == 0) {
    count("crash_kill");
    save_model();
    die(kExitCrash);
  }
  count(mode == 1 ? "crash_power_journal" : "crash_power_posix");
  auto ns = M->ns;
  auto do_assign = [&](const Assign &a) {
    if (a.ino) ns[a.dir][a.name] = {a.ino, a.isdir};
    else ns[a.dir].erase(a.name);
  };
  size_t np = M->pend.size();
  if (mode == 1) {
    size_t lo = M->journal_upto;
    size_t k = lo + (np > lo ? np - lo - choose(CRASH, (uint32_t)(np - lo + 1)) : 0);
    for (size_t i = 0; i < k; ++i)
      for (auto &a : M->pend[i].a) do_assign(a);
    if (k < np) count("crash_lost_names", np - k);
  } else {
    std::map<uint64_t, size_t> upto;
    for (auto &op : M->pend)
      for (auto &a : op.a)
        if (!upto.count(a.dir)) {
          size_t lo = M->posix_upto.count(a.dir) ? M->posix_upto[a.dir] : 0;
          upto[a.dir] = lo + (np > lo ? np - lo - choose(CRASH, (uint32_t)(np - lo + 1)) : 0);
        }
    for (size_t i = 0; i < np; ++i)
      for (auto &a : M->pend[i].a) {
        if (i < upto[a.dir]) do_assign(a);
        else count("crash_lost_names");
      }
  }
  std::string img = g_rt_root + ".img";
  std::map<uint64_t, std::string> where;  // already created files (hard links)
  // volatile locations of inodes not in the model (unmodified)
  std::map<uint64_t, std::string> vol;
  std::function<void(const std::string &)> walk = [&](const std::string &d) {
    std::vector<std::string> names;
    DIR *dp = opendir(d.c_str());
    if (!dp) return;
    while (auto *e = readdir(dp)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") names.push_back(n);
    }
    closedir(dp);
    for (auto &n : names) {
      struct stat st;
      if (!rstat(d + "/" + n, st)) continue;
      if (S_ISDIR(st.st_mode)) walk(d + "/" + n);
      else vol[st.st_ino] = d + "/" + n;
    }
  };
  walk(g_rt_root);
  uint64_t lost_inodes = 0;
  std::function<void(uint64_t, const std::string &)> build = [&](uint64_t dino, const std::string &to) {
    rsys(SYS_mkdir, (long)to.c_str(), 0755);
    for (auto &e : ns[dino]) {
      std::string tp = to + "/" + e.first;
      if (e.second.second) {
        build(e.second.first, tp);
        continue;
      }
      uint64_t ino = e.second.first;
      if (where.count(ino)) {
        rsys(SYS_link, (long)where[ino].c_str(), (long)tp.c_str());
        continue;
      }
      where[ino] = tp;
      auto it = M->inodes.find(ino);
      if (it == M->inodes.end()) {
        write_file(tp, vol.count(ino) ? read_all_path(vol[ino]) : "");
        continue;
      }
      int dm = 0;
      uint64_t r = 0;
      if (!it->second.pend.empty()) {
        dm = (int)choose(CRASH, 5);
        r = dm >= 2 ? choose(CRASH, 1u << 30) : 0;
        if (dm) ++lost_inodes;
        trace("    image %s: unsynced writes %zu, mode %d", tp.c_str() + img.size() + 1, it->second.pend.size(), dm);
      }
      write_file(tp, apply(it->second, dm, r));
    }
  };
  build(g_root_ino, img);
  if (lost_inodes) count("crash_lost_data_files", lost_inodes);
  std::string old = g_rt_root + ".old";
  rsys(SYS_rename, (long)g_rt_root.c_str(), (long)old.c_str());
  rsys(SYS_rename, (long)img.c_str(), (long)g_rt_root.c_str());
  std::error_code ec;
  std::filesystem::remove_all(old, ec);
  rsys(SYS_unlink, (long)g_model_file.c_str());
  die(kExitCrash);
}
static void track_open(int fd, const std::string &path, int flags, bool existed, bool did_trunc) {
  struct stat st;
  rsys(SYS_fstat, fd, (long)&st);
  FdInfo f{true, S_ISDIR(st.st_mode), (flags & O_APPEND) != 0, (flags & O_ACCMODE) != O_RDONLY, st.st_ino, path};
  if (!existed && !f.dir) {
    M->inodes[st.st_ino] = Inode{};
    auto [d, n] = split(path);
    ns_push({{ino_of(d), n, st.st_ino, false}});
  }
  (void)did_trunc;
  (*FD)[fd] = f;
}
static int do_open(int dfd, const char *p, int flags, mode_t m) {
  if (!hooked() || !g_fs_on) return (int)ret(rsys(SYS_openat, dfd, (long)p, flags, m));
  RtGuard g;
  if (!strcmp(p, "/proc/sys/kernel/random/uuid") || !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) {
    errno = ENOENT;
    return -1;
  }
  std::string a = abspath(dfd, p);
  if (!in_root(a)) return (int)ret(rsys(SYS_openat, dfd, (long)p, flags, m));
  {
    --t_in_rt;
    pre();
    ++t_in_rt;
  }
  FaultKind k;
  if (fault({F_OPEN_EIO, F_OPEN_EMFILE}, a, k)) {
    errno = k == F_OPEN_EIO ? EIO : EMFILE;
    return -1;
  }
  flags &= ~O_DIRECT;
  struct stat st;
  bool existed = rstat(a, st, true);
  bool trunc = (flags & O_TRUNC) && existed && (flags & O_ACCMODE) != O_RDONLY;
  if ((flags & O_CREAT) && !existed) mutating("create", a);
  if (trunc) {
    mutating("open-trunc", a);
    inode_loaded(st.st_ino, a).pend.push_back({true, 0, ""});
  }
  int fd = (int)ret(rsys(SYS_openat, AT_FDCWD, (long)a.c_str(), flags, m));
  if (fd >= 0) track_open(fd, a, flags, existed, trunc);
  return fd;
}
static FdInfo *info(int fd) {
  if (!g_fs_on || !FD) return nullptr;
  auto it = FD->find(fd);
  return it == FD->end() ? nullptr : &it->second;
}
static ssize_t do_write(int fd, const struct iovec *iov, int n, int64_t off /* -1 = position */, bool dev = false) {
  FdInfo *f = dev || hooked() ? info(fd) : nullptr;
  auto real = [&](const struct iovec *v, int c) -> ssize_t {
    if (off >= 0) return ret(rsys(SYS_pwritev, fd, (long)v, c, off, 0));
    return ret(rsys(SYS_writev, fd, (long)v, c));
  };
  if (!f) return real(iov, n);
  if (!dev) pre();
  RtGuard g;
  f = info(fd);
  if (!f) return real(iov, n);
  size_t tot = 0;
  for (int i = 0; i < n; ++i) tot += iov[i].iov_len;
  if (tot == 0) return real(iov, n);
  mutating("write", f->path, tot);
  FaultKind k;
  size_t allow = tot;
  if (fault({F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR, F_WRITE_SHORT}, f->path, k)) {
    if (k == F_WRITE_EIO || k == F_WRITE_EINTR) {
      errno = k == F_WRITE_EIO ? EIO : EINTR;
      return -1;
    }
    if (k == F_WRITE_ENOSPC) {
      // a full disk takes part of the data now and then
      allow = tot > 1 ? choose(FAULT, 2) * (tot / 2) : 0;
      if (allow == 0) {
        errno = ENOSPC;
        return -1;
      }
    } else {
      if (tot <= 1) allow = tot;
      else allow = 1 + choose(FAULT, (uint32_t)std::min<size_t>(tot - 1, 1u << 30));
      if (allow >= tot) allow = tot - 1;
      if (allow == 0) allow = 1;
    }
  }
  if (!f->writable) return real(iov, n);
  Inode &in = inode_loaded(f->ino, f->path);
  std::string data;
  data.reserve(allow);
  for (int i = 0; i < n && data.size() < allow; ++i)
    data.append((const char *)iov[i].iov_base, std::min(iov[i].iov_len, allow - data.size()));
  uint64_t o;
  if (off >= 0) {
    o = (uint64_t)off;
  } else if (f->append) {
    struct stat st;
    rsys(SYS_fstat, fd, (long)&st);
    o = st.st_size;
  } else {
    o = (uint64_t)rsys(SYS_lseek, fd, 0, SEEK_CUR);
  }
  struct iovec one {
    data.data(), data.size()
  };
  ssize_t w = real(&one, 1);
  if (w > 0) {
    data.resize(w);
    in.pend.push_back({false, o, std::move(data)});
  }
  return w;
}
// The program asked for bytes to be put in a buffer it has freed.
static void check_live(const void *b, size_t n, const char *what) {
  uintptr_t a = (uintptr_t)b;
  if (!n || a < g_heap_lo || a >= g_heap_hi) return;
  for (uintptr_t p = a & ~15ul; p < a + n && p < g_heap_hi; p += 16)
    if (g_shadow[(p - g_heap_lo) >> 4] == 2) fail("USE_AFTER_FREE", "%s of %zu bytes into memory that has been freed", what, n);
}
static ssize_t do_read(int fd, void *b, size_t n, int64_t off, bool dev = false) {
  FdInfo *f = dev || hooked() ? info(fd) : nullptr;
  auto real = [&](size_t c) -> ssize_t {
    if (off >= 0) return ret(rsys(SYS_pread64, fd, (long)b, c, off));
    return ret(rsys(SYS_read, fd, (long)b, c));
  };
  if (!f) return real(n);
  if (!dev) pre();
  RtGuard g;
  f = info(fd);
  if (!f) return real(n);
  check_live(b, n, "a read");
  FaultKind k;
  if (fault({F_READ_EIO, F_READ_EINTR, F_READ_SHORT}, f->path, k)) {
    if (k == F_READ_EIO || k == F_READ_EINTR) {
      errno = k == F_READ_EIO ? EIO : EINTR;
      return -1;
    }
    if (n > 1) n = 1 + choose(FAULT, (uint32_t)std::min<size_t>(n - 1, 1u << 30));
  }
  return real(n);
}
// ---- the device model's access to files (aio.cpp): no scheduling point of its own
int dev_hold(int fd) {
  FdInfo *f = info(fd);
  long k = rsys(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 512);
  if (k < 0) return (int)k;
  if (f) (*FD)[(int)k] = FdInfo(*f);
  return (int)k;
}
void dev_drop(int fd) {
  if (FD) FD->erase(fd);
  rsys(SYS_close, fd);
}
int64_t dev_rw(bool write, int fd, void *b, size_t n, int64_t off) {
  ssize_t r;
  if (write) {
    check_live(b, n, "a write");
    struct iovec v {
      b, n
    };
    r = do_write(fd, &v, 1, off, true);
  } else {
    r = do_read(fd, b, n, off, true);
  }
  return r < 0 ? -(int64_t)errno : r;
}
static int do_fsync(int fd, bool data_only) {
  FdInfo *f = hooked() ? info(fd) : nullptr;
  if (!f) return (int)ret(rsys(data_only ? SYS_fdatasync : SYS_fsync, fd));
  pre();
  RtGuard g;
  f = info(fd);
  if (!f) return 0;
  mutating(f->dir ? "fsync-dir" : "fsync", f->path);
  FaultKind k;
  if (fault({F_FSYNC_EIO}, f->path, k)) {
    errno = EIO;
    return -1;
  }
  M->journal_upto = M->pend.size();
  if (f->dir) {
    M->posix_upto[f->ino] = M->pend.size();
  } else {
    auto it = M->inodes.find(f->ino);
    if (it != M->inodes.end()) {
      it->second.durable = apply(it->second, 0, 0);
      it->second.pend.clear();
    }
  }
  count(f->dir ? "fsync_dir" : "fsync_file");
  return 0;
}
static int do_trunc(int fd, const char *path, off_t len) {
  std::string p;
  uint64_t ino = 0;
  auto real = [&] {
    return path ? (int)ret(rsys(SYS_truncate, (long)path, len)) : (int)ret(rsys(SYS_ftruncate, fd, len));
  };
  if (!hooked() || !g_fs_on) return real();
  RtGuard g;
  if (path) {
    p = abspath(AT_FDCWD, path);
    if (!in_root(p)) return real();
    ino = ino_of(p);
  } else {
    FdInfo *f = info(fd);
    if (!f) return real();
    p = f->path;
    ino = f->ino;
  }
  mutating("truncate", p, len);
  FaultKind k;
  if (fault({F_TRUNC_EIO}, p, k)) {
    errno = EIO;
    return -1;
  }
  if (ino) {
    Inode &in = inode_loaded(ino, p);
    in.pend.push_back({true, (uint64_t)len, ""});
  }
  return real();
}
static int do_rename(int od, const char *o, int nd, const char *n, unsigned fl) {
  auto real = [&] { return (int)ret(rsys(SYS_renameat2, od, (long)o, nd, (long)n, fl)); };
  if (!hooked() || !g_fs_on) return real();
  {
    RtGuard g;
    if (!in_root(abspath(od, o)) && !in_root(abspath(nd, n))) return real();
  }
  pre();
  RtGuard g;
  std::string a = abspath(od, o), b = abspath(nd, n);
  mutating("rename", a);
  FaultKind k;
  if (fault({F_RENAME_EIO}, b, k)) {
    errno = EIO;
    return -1;
  }
  struct stat sa, sb;
  bool ea = rstat(a, sa), eb = rstat(b, sb);
  if (eb && !S_ISDIR(sb.st_mode)) inode_loaded(sb.st_ino, b);
  int r = real();
  if (r == 0 && ea && !(eb && sa.st_ino == sb.st_ino)) {
    auto [da, na] = split(a);
    auto [db, nb] = split(b);
    bool isd = S_ISDIR(sa.st_mode);
    ns_push({{ino_of(db), nb, sa.st_ino, isd}, {ino_of(da), na, 0, isd}});
    for (auto &kv : *FD)
      if (kv.second.path == a || starts(kv.second.path, a + "/")) kv.second.path = b + kv.second.path.substr(a.size());
  }
  return r;
}
static int do_unlink(int dfd, const char *p, int flags) {
  auto real = [&] { return (int)ret(rsys(SYS_unlinkat, dfd, (long)p, flags)); };
  if (!hooked() || !g_fs_on) return real();
  {
    RtGuard g;
    if (!in_root(abspath(dfd, p))) return real();
  }
  pre();
  RtGuard g;
  std::string a = abspath(dfd, p);
  struct stat st;
  if (!rstat(a, st)) return real();
  mutating(flags & AT_REMOVEDIR ? "rmdir" : "unlink", a);
  FaultKind k;
  if (fault({F_UNLINK_EIO}, a, k)) {
    errno = EIO;
    return -1;
  }
  if (!S_ISDIR(st.st_mode)) inode_loaded(st.st_ino, a);
  int r = real();
  if (r == 0) {
    auto [d, n] = split(a);
    ns_push({{ino_of(d), n, 0, S_ISDIR(st.st_mode)}});
  }
  return r;
}
static int do_mkdir(int dfd, const char *p, mode_t m) {
  auto real = [&] { return (int)ret(rsys(SYS_mkdirat, dfd, (long)p, m)); };
  if (!hooked() || !g_fs_on) return real();
  RtGuard g;
  std::string a = abspath(dfd, p);
  if (!in_root(a)) return real();
  struct stat st;
  if (rstat(a, st)) return real();
  mutating("mkdir", a);
  FaultKind k;
  if (fault({F_MKDIR_EIO}, a, k)) {
    errno = EIO;
    return -1;
  }
  int r = real();
  if (r == 0) {
    auto [d, n] = split(a);
    ns_push({{ino_of(d), n, ino_of(a), true}});
  }
  return r;
}
static int do_link(int od, const char *o, int nd, const char *n, int fl) {
  auto real = [&] { return (int)ret(rsys(SYS_linkat, od, (long)o, nd, (long)n, fl)); };
  if (!hooked() || !g_fs_on) return real();
  RtGuard g;
  std::string a = abspath(od, o), b = abspath(nd, n);
  if (!in_root(b)) return real();
  mutating("link", b);
  FaultKind k;
  if (fault({F_LINK_EIO}, b, k)) {
    errno = EIO;
    return -1;
  }
  int r = real();
  if (r == 0) {
    auto [d, nm] = split(b);
    ns_push({{ino_of(d), nm, ino_of(b), false}});
  }
  return r;
}
}  // namespace in

void fs_enable() { in::fs_life_begin(); }
FsConfig &fs_config() { return in::g_cfg; }
void arm_crash(uint32_t n) { in::g_crash_in = n; }
void crash_now() {
  trace("  * crash at rest");
  fs_materialise_and_exit();
}
void arm_fault(FaultKind k, uint32_t n, uint32_t burst) {
  RtGuard g;
  if (k == F_NONE) return;
  g_armed->push_back({k, n, burst, burst == 0});
}
void disarm_faults() {
  RtGuard g;
  g_armed->clear();
  g_filter->clear();
}
void fault_path_filter(const std::string &s) {
  RtGuard g;
  *g_filter = s;
}
uint64_t faults_fired() { return g_fired; }
uint64_t fs_ops() { return g_ops; }
}  // namespace sim

using namespace sim::in;
static bool stat_fault(const char *p) {
  if (!hooked() || !g_fs_on || !g_armed || g_armed->empty()) return false;
  RtGuard g;
  sim::FaultKind k;
  std::string a = abspath(AT_FDCWD, p);
  if (!in_root(a) || !fault({sim::F_STAT_EIO}, a, k)) return false;
  errno = EIO;
  return true;
}
extern "C" {
int stat(const char *p, struct stat *st) noexcept { return stat_fault(p) ? -1 : (int)ret(rsys(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0)); }
int lstat(const char *p, struct stat *st) noexcept {
  return stat_fault(p) ? -1 : (int)ret(rsys(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW));
}
int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | 020000000)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(AT_FDCWD, p, fl, m);
}
int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | 020000000)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(AT_FDCWD, p, fl, m);
}
int openat(int d, const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | 020000000)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(d, p, fl, m);
}
int openat64(int d, const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | 020000000)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return do_open(d, p, fl, m);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __open_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __open64_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
int __openat_2(int d, const char *p, int fl) { return do_open(d, p, fl, 0); }
static FILE *sim_fopen(const char *p, const char *mode) {
  int fl = 0;
  bool plus = strchr(mode, '+');
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'e')) fl |= O_CLOEXEC;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = do_open(AT_FDCWD, p, fl, 0666);
  if (fd < 0) return nullptr;
  FILE *f = fdopen(fd, mode);
  return f;
}
FILE *fopen(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int close(int fd) {
  bool fail_close = false;
  if (hooked() && g_fs_on) {
    RtGuard g;
    auto it = FD->find(fd);
    if (it != FD->end()) {
      sim::FaultKind k;
      fail_close = it->second.writable && fault({sim::F_CLOSE_EIO}, it->second.path, k);
      FD->erase(it);
    }
  } else if (FD && g_fs_on) {
    RtGuard g;
    FD->erase(fd);
  }
  int r = (int)ret(rsys(SYS_close, fd));
  if (fail_close) {
    errno = EIO;
    return -1;
  }
  return r;
}
int fclose(FILE *f) {
  static int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
  if (g_fs_on && FD && f) {
    RtGuard g;
    FD->erase(fileno(f));
  }
  return real(f);
}
int dup(int fd) {
  int r = (int)ret(rsys(SYS_dup, fd));
  if (r >= 0 && hooked())
    if (auto *f = info(fd)) {
      RtGuard g;
      FdInfo c = *f;
      (*FD)[r] = c;
    }
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  struct iovec v {
    const_cast<void *>(b), n
  };
  if (!hooked() || !info(fd)) return ret(rsys(SYS_write, fd, (long)b, n));
  return do_write(fd, &v, 1, -1);
}
ssize_t writev(int fd, const struct iovec *v, int n) { return do_write(fd, v, n, -1); }
// Where a transfer is cut in two, at a sector boundary; 0: not at all.
static size_t split_at(int fd, size_t n) {
  if (!sim::fs_config().split_io || n <= 512 || !hooked() || !info(fd) || !sim::chance(sim::FAULT, 1, sim::fs_config().split_io)) return 0;
  sim::count("io_split");
  return 512 * (1 + sim::choose(sim::FAULT, (uint32_t)((n - 1) / 512)));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (size_t k = split_at(fd, n)) {
    struct iovec v {
      const_cast<void *>(b), k
    };
    ssize_t r = do_write(fd, &v, 1, o);
    if (r < (ssize_t)k) return r;
    v = {(char *)b + k, n - k};
    ssize_t s = do_write(fd, &v, 1, o + (off_t)k);
    return s < 0 ? r : r + s;
  }
  struct iovec v {
    const_cast<void *>(b), n
  };
  if (!hooked() || !info(fd)) return ret(rsys(SYS_pwrite64, fd, (long)b, n, o));
  return do_write(fd, &v, 1, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t pwritev(int fd, const struct iovec *v, int n, off_t o) { return do_write(fd, v, n, o); }
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (size_t k = split_at(fd, n)) {
    ssize_t r = do_read(fd, b, k, o);
    if (r < (ssize_t)k) return r;
    ssize_t s = do_read(fd, (char *)b + k, n - k, o + (off_t)k);
    return s < 0 ? r : r + s;
  }
  return do_read(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t) { return do_read(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off_t o, size_t) { return do_read(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!hooked() || !info(fd)) return ret(rsys(SYS_readv, fd, (long)v, n));
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) {
    ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
int fsync(int fd) { return do_fsync(fd, false); }
int fdatasync(int fd) { return do_fsync(fd, true); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) {
  if (hooked() && info(fd)) return 0;
  return (int)ret(rsys(SYS_sync_file_range, fd, o, n, f));
}
int fallocate(int fd, int m, off_t o, off_t n) {
  if (hooked() && info(fd)) {
    errno = EOPNOTSUPP;
    return -1;
  }
  return (int)ret(rsys(SYS_fallocate, fd, m, o, n));
}
int fallocate64(int fd, int m, off64_t o, off64_t n) { return fallocate(fd, m, o, n); }
int posix_fallocate(int fd, off_t, off_t) {
  (void)fd;
  return EOPNOTSUPP;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, nullptr, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, nullptr, n); }
int truncate(const char *p, off_t n) { return do_trunc(-1, p, n); }
int truncate64(const char *p, off64_t n) { return do_trunc(-1, p, n); }
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int x, const char *a, int y, const char *b) { return do_rename(x, a, y, b, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return do_rename(x, a, y, b, f); }
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) {
  struct stat st;
  if (rsys(SYS_newfstatat, AT_FDCWD, (long)p, (long)&st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) return rmdir(p);
  return unlink(p);
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return do_link(x, a, y, b, f); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  if (!(hooked() && (info(o) || info(i)))) return ret(rsys(SYS_sendfile, o, i, (long)off, n));
  off_t pos = off ? *off : lseek(i, 0, SEEK_CUR);
  std::vector<char> buf(std::min<size_t>(n, 1 << 16));
  size_t done = 0;
  while (done < n) {
    ssize_t got = pread(i, buf.data(), std::min(buf.size(), n - done), pos + (off_t)done);
    if (got < 0 && errno == EINTR) continue;
    if (got < 0) return -1;
    if (got == 0) break;
    for (ssize_t at = 0; at < got;) {
      ssize_t w = write(o, buf.data() + at, (size_t)(got - at));
      if (w < 0 && errno == EINTR) continue;
      if (w < 0) return -1;
      at += w;
    }
    done += (size_t)got;
  }
  if (off) *off = pos + (off_t)done;
  else lseek(i, pos + (off_t)done, SEEK_SET);
  return (ssize_t)done;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, (off_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
  if (hooked() && info(o)) {
    errno = EINVAL;
    return -1;
  }
  return ret(rsys(SYS_copy_file_range, i, (long)io, o, (long)oo, n, f));
}
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (hooked() && fd >= 0) {
    pre();
    sim::FaultKind fk;
    if (sim::in::fault({sim::F_MMAP_ENOMEM}, "", fk)) {
      errno = ENOMEM;
      return MAP_FAILED;
    }
  }
  long r = rsys(SYS_mmap, (long)addr, (long)len, prot, flags, fd, (long)off);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return MAP_FAILED;
  }
  return (void *)r;
}
void *mmap64(void *addr, size_t len, int prot, int flags, int fd, off64_t off) { return mmap(addr, len, prot, flags, fd, off); }
int flock(int fd, int op) {
  if (!hooked()) return (int)ret(rsys(SYS_flock, fd, op));
  pre();
  sim::FaultKind fk;
  if (!(op & LOCK_UN) && sim::in::fault({sim::F_LOCK_EIO}, "", fk)) return (int)ret(-ENOLCK);
  for (;;) {
    long r = rsys(SYS_flock, fd, op | LOCK_NB);
    if (r == -EWOULDBLOCK && !(op & LOCK_NB) && sched_active()) {
      if (sim::in::fault({sim::F_LOCK_EINTR}, "", fk)) return (int)ret(-EINTR);
      sim::yield();
      continue;
    }
    return (int)ret(r);
  }
}
}
namespace sim {
__attribute__((weak)) void yield() {}
}
// the generic syscall() entry: file and futex calls made through it
extern "C" long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *a2, uint32_t v3)
    __attribute__((weak));
extern "C" long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (hooked()) {
    switch (n) {
      case SYS_renameat2: return do_rename((int)a[0], (const char *)a[1], (int)a[2], (const char *)a[3], (unsigned)a[4]);
      case SYS_futex:
        if (sim_futex)
          return sim_futex((uint32_t *)a[0], (int)a[1], (uint32_t)a[2], (const struct timespec *)a[3], (uint32_t *)a[4],
                           (uint32_t)a[5]);
        break;
      case SYS_getrandom: {
        memset((void *)a[0], 0x5a, a[1]);
        return a[1];
      }
      case SYS_gettid: return 4242;
      default: break;
    }
  }
  return ret(rsys(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
