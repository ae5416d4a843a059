#pragma once
#include <condition_variable>
#include <mutex>
#include "coro/task.hpp"
#include "coro/when_all.hpp"
namespace coro {
namespace detail {
struct sync_state {
  std::mutex m;
  std::condition_variable cv;
  bool done = false;
  void set() {
    std::lock_guard<std::mutex> g(m);
    done = true;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> g(m);
    cv.wait(g, [&] { return done; });
  }
};
struct sync_root {
  struct promise_type {
    sync_state *s = nullptr;
    sync_root get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    auto final_suspend() noexcept {
      struct aw {
        bool await_ready() noexcept { return false; }
        void await_suspend(std::coroutine_handle<promise_type> h) noexcept { h.promise().s->set(); }
        void await_resume() noexcept {}
      };
      return aw{};
    }
    void return_void() {}
    void unhandled_exception() { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
template <class A, class Slot>
sync_root sync_drive(A &a, Slot &slot, std::exception_ptr &e) {
  try {
    using R = decltype(detail::get_awaiter(a).await_resume());
    if constexpr (std::is_void_v<R>) {
      co_await a;
    } else {
      slot.emplace(co_await a);
    }
  } catch (...) {
    e = std::current_exception();
  }
}
}  // namespace detail
template <class A>
auto sync_wait(A &&a) {
  using R = std::remove_cvref_t<decltype(detail::get_awaiter(a).await_resume())>;
  using S = std::conditional_t<std::is_void_v<R>, std::optional<int>, std::optional<std::conditional_t<std::is_void_v<R>, int, R>>>;
  S slot;
  std::exception_ptr e;
  detail::sync_state st;
  auto root = detail::sync_drive(a, slot, e);
  root.h.promise().s = &st;
  root.h.resume();
  st.wait();
  root.h.destroy();
  if (e) std::rethrow_exception(e);
  if constexpr (!std::is_void_v<R>) return std::move(*slot);
}
}  // namespace coro
