#pragma once
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>
#include "coro/task.hpp"
namespace coro {
namespace detail {
struct thread_pool_options {
    uint32_t thread_count = 1;
    std::function<void(std::size_t)> on_thread_start_functor = nullptr;
    std::function<void(std::size_t)> on_thread_stop_functor = nullptr;
};
}  // namespace detail
class thread_pool {
 public:
  using options = detail::thread_pool_options;
  thread_pool() : thread_pool(options{}) {}
  explicit thread_pool(options o) : o_(std::move(o)) {
    for (uint32_t i = 0; i < o_.thread_count; ++i) th_.emplace_back([this] { loop(); });
  }
  thread_pool(const thread_pool &) = delete;
  thread_pool &operator=(const thread_pool &) = delete;
  virtual ~thread_pool() { shutdown(); }
  auto thread_count() const noexcept { return th_.size(); }
  class operation {
   public:
    explicit operation(thread_pool &p) : p_(p) {}
    bool await_ready() noexcept { return false; }
    void await_suspend(std::coroutine_handle<> h) {
      if (!p_.push(h)) throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
    }
    void await_resume() noexcept {}

   private:
    thread_pool &p_;
  };
  [[nodiscard]] operation schedule() { return operation{*this}; }
  [[nodiscard]] operation yield() { return schedule(); }
  bool resume(std::coroutine_handle<> h) noexcept {
    if (!h || h.done()) return false;
    return push(h);
  }
  void shutdown() noexcept {
    {
      std::lock_guard<std::mutex> g(m_);
      stop_ = true;
    }
    cv_.notify_all();
    for (auto &t : th_)
      if (t.joinable()) t.join();
  }
  std::size_t size() const noexcept { return q_.size(); }
  bool empty() const noexcept { return q_.empty(); }

 private:
  bool push(std::coroutine_handle<> h) {
    std::lock_guard<std::mutex> g(m_);
    if (stop_) return false;
    q_.push_back(h);
    cv_.notify_one();
    return true;
  }
  void loop() {
    for (;;) {
      std::coroutine_handle<> h;
      {
        std::unique_lock<std::mutex> g(m_);
        cv_.wait(g, [&] { return stop_ || !q_.empty(); });
        if (q_.empty()) return;
        h = q_.front();
        q_.pop_front();
      }
      h.resume();
    }
  }
  options o_;
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<std::coroutine_handle<>> q_;
  bool stop_ = false;
  std::vector<std::thread> th_;
};
}  // namespace coro
