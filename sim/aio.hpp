// The device shared by the libaio and io_uring fronts.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
namespace sim::in {
struct DevReq {
  uint64_t tag;
  void *obj;
  bool write;
  int fd;
  void *buf;
  uint64_t len, off;
  void *ctx;
  void (*complete)(const DevReq &, int64_t res);
  // filled in by dev_accept
  uint64_t due, seq;
  int hold;
  int mode;
  uint64_t cut;
  size_t log;
};
bool aio_roll(uint32_t n, int kind);
int dev_accept(DevReq r, uint64_t ctx_no);
void dev_pump();
uint64_t dev_next(const void *ctx);
size_t dev_inflight(const void *ctx);
void dev_wait(const void *ctx, uint64_t until, const std::function<bool()> &wake);
}  // namespace sim::in
