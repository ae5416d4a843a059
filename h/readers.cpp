#include "index/graph/laser/utils/aligned_file_reader.hpp"
#include "readers.hpp"
using namespace sim;
const char *sim_harness_name = "readers";
void sim_prepare() {}
static void readers_aio(bool faults) {
  auto r = [&](uint32_t a) { return chance(FAULT, 1, 2) ? a << choose(FAULT, 3) : 0; };
  rd::scenario<LinuxAlignedFileReader, AlignedRead, AlignedReadEvent, true>(
      "libaio", faults,
      [&] {
        AioConfig &c = aio_config();
        c.partial = r(2), c.again = r(3), c.eintr = r(2), c.wait_partial = r(2);
        if (!faults) return;
        c.eio = r(4), c.shortr = r(4), c.setup = r(4), c.error = r(4);
      },
      [] { aio_config() = AioConfig(); });
}
void sim_run() {
  fs_enable();
  bool aio = chance(WORK, 1, 2);
  bool faults = chance(FAULT, 2, 3);
  sched_config().max_steps = 1500000;
  sched_config().races = true;
  sched_start();
  count(aio ? "runs_libaio" : "runs_threadpool");
  if (aio) readers_aio(faults);
  else readers_tp(faults);
}
