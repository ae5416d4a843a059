#undef ALAYA_LASER_USE_LIBAIO
#define ALAYA_LASER_USE_THREADPOOL 1
#define AlignedFileReader TpAlignedFileReader
#include "index/graph/laser/utils/threadpool_file_reader.hpp"
#include "readers.hpp"
using namespace sim;
void readers_tp(bool faults) {
  setenv("ALAYA_LASER_IO_THREADS", std::to_string(1 + choose(WORK, 3)).c_str(), 1);
  rd::scenario<ThreadPoolFileReader, AlignedRead, AlignedReadEvent, false>(
      "threadpool", faults,
      [&] {
        if (!faults) return;
        uint32_t n = choose(FAULT, 4);
        static const FaultKind k[] = {F_READ_EIO, F_READ_SHORT, F_READ_EINTR};
        for (uint32_t i = 0; i < n; ++i) arm_fault(k[choose(FAULT, 3)], 1 + choose(FAULT, 20), 1 + choose(FAULT, 2));
      },
      [] { disarm_faults(); });
}
