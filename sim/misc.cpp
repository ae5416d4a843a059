// Clocks, sleeps, randomness, identity.
#include <errno.h>
#include <sched.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <random>
#include "internal.hpp"
using namespace sim::in;
namespace sim {
int self() __attribute__((weak));
thread_local int in::t_quiet = 0;
// offset of the wall clock, may be moved by the harness (clock jumps), in ns
static int64_t g_wall_offset = 1700000000ll * 1000000000ll;
static bool g_clock_frozen = false;
void clock_jump(int64_t ns) { g_wall_offset += ns; }
void clock_freeze(bool f) { g_clock_frozen = f; }
uint64_t now_ns() { return sh->simtime; }
void quiet(int d) {
  in::t_in_rt += d;
  in::t_quiet += d;
}
}  // namespace sim
static long raw2(long n, long a, long b) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b) : "rcx", "r11", "memory");
  return r;
}
namespace sim::in {
__attribute__((weak)) void sched_sleep(uint64_t ns) { sched_advance(ns); }
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec *t) {
  if (!hooked()) return raw2(SYS_clock_gettime, id, (long)t) < 0 ? -1 : 0;
  if (!sim::g_clock_frozen) sched_advance(50);
  uint64_t v = sh->simtime + 1000000000ull;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v += sim::g_wall_offset;
  t->tv_sec = v / 1000000000ull;
  t->tv_nsec = v % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) noexcept {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!hooked()) return raw2(SYS_nanosleep, (long)r, (long)rem) < 0 ? -1 : 0;
  sched_sleep(r->tv_sec * 1000000000ull + r->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *rem) {
  if (!hooked()) return nanosleep(r, rem) ? errno : 0;
  uint64_t v = r->tv_sec * 1000000000ull + r->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    uint64_t now = sh->simtime + 1000000000ull + (id == CLOCK_REALTIME ? sim::g_wall_offset : 0);
    v = v > now ? v - now : 0;
  }
  sched_sleep(v);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec t{(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
int sched_getcpu(void) noexcept { return 0; }
ssize_t getrandom(void *b, size_t n, unsigned) {
  memset(b, 0x5a, n);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  memset(b, 0x5a, n);
  return 0;
}
pid_t getpid(void) noexcept { return hooked() ? 4242 : (pid_t)raw2(SYS_getpid, 0, 0); }
pid_t gettid(void) noexcept { return hooked() ? 4242 + (sim::self ? sim::self() : 0) : (pid_t)raw2(SYS_gettid, 0, 0); }
int gethostname(char *b, size_t n) noexcept {
  strncpy(b, "simhost", n);
  return 0;
}
// std::random_device
unsigned _ZNSt13random_device9_M_getvalEv(void *) {
  static uint64_t x = 42;
  return (unsigned)(x = sim::mix(x));
}
}
