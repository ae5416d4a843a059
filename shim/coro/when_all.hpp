#pragma once
#include <atomic>
#include <vector>
#include "coro/task.hpp"
namespace coro {
namespace detail {
template <class A>
decltype(auto) get_awaiter(A &a) {
  if constexpr (requires { a.operator co_await(); }) return a.operator co_await();
  else return (a);
}
struct all_latch {
  std::atomic<size_t> n;
  std::coroutine_handle<> h{};
  explicit all_latch(size_t k) : n(k + 1) {}
  // the awaiting coroutine counts as one
  bool try_await(std::coroutine_handle<> c) {
    h = c;
    return n.fetch_sub(1, std::memory_order_acq_rel) > 1;
  }
  void done() {
    if (n.fetch_sub(1, std::memory_order_acq_rel) == 1) h.resume();
  }
};
struct all_child {
  struct promise_type {
    all_latch *l = nullptr;
    std::exception_ptr e;
    all_child get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    auto final_suspend() noexcept {
      struct aw {
        bool await_ready() noexcept { return false; }
        void await_suspend(std::coroutine_handle<promise_type> h) noexcept { h.promise().l->done(); }
        void await_resume() noexcept {}
      };
      return aw{};
    }
    void return_void() {}
    void unhandled_exception() { e = std::current_exception(); }
  };
  std::coroutine_handle<promise_type> h;
};
template <class T>
all_child run_child(task<T> &t) {
  co_await t;
}
}  // namespace detail
// awaits all; the result is the vector of (finished) tasks; exceptions stay in their task like in libcoro, where
// they are rethrown by return_value(); co_await when_all(vector<task<void>>) itself does not throw
template <class T>
class [[nodiscard]] when_all_awaitable {
 public:
  explicit when_all_awaitable(std::vector<task<T>> ts) : ts_(std::move(ts)), latch_(ts_.size()) {}
  when_all_awaitable(when_all_awaitable &&o) noexcept : ts_(std::move(o.ts_)), latch_(ts_.size()) {}
  ~when_all_awaitable() {
    for (auto &c : kids_) c.h.destroy();
  }
  bool await_ready() const noexcept { return false; }
  bool await_suspend(std::coroutine_handle<> c) {
    kids_.reserve(ts_.size());
    for (auto &t : ts_) {
      kids_.push_back(detail::run_child(t));
      kids_.back().h.promise().l = &latch_;
    }
    // children may finish and resume c only after try_await
    auto kids = kids_;
    for (auto &k : kids) k.h.resume();
    return latch_.try_await(c);
  }
  struct result_task {
    std::exception_ptr e;
    void return_value() const {
      if (e) std::rethrow_exception(e);
    }
  };
  std::vector<result_task> await_resume() {
    std::vector<result_task> r;
    for (auto &k : kids_) r.push_back({k.h.promise().e});
    return r;
  }

 private:
  std::vector<task<T>> ts_;
  std::vector<detail::all_child> kids_;
  detail::all_latch latch_;
};
template <class T>
auto when_all(std::vector<task<T>> ts) {
  return when_all_awaitable<T>(std::move(ts));
}
}  // namespace coro
