// Minimal stand-in for libcoro (not installed here): the parts of its interface AlayaLite uses.
#pragma once
#include <coroutine>
#include <exception>
#include <optional>
#include <type_traits>
#include <utility>
#include <variant>
namespace coro {
template <class T = void>
class task;
namespace detail {
struct promise_base {
  std::coroutine_handle<> cont{};
  struct final_aw {
    bool await_ready() const noexcept { return false; }
    template <class P>
    std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept {
      auto c = h.promise().cont;
      return c ? c : std::noop_coroutine();
    }
    void await_resume() noexcept {}
  };
  std::suspend_always initial_suspend() noexcept { return {}; }
  final_aw final_suspend() noexcept { return {}; }
  void continuation(std::coroutine_handle<> c) noexcept { cont = c; }
};
template <class T>
struct promise : promise_base {
  std::optional<T> v;
  std::exception_ptr e;
  task<T> get_return_object() noexcept;
  template <class U>
  void return_value(U &&u) {
    v.emplace(std::forward<U>(u));
  }
  void unhandled_exception() noexcept { e = std::current_exception(); }
  T result() {
    if (e) std::rethrow_exception(e);
    return std::move(*v);
  }
};
template <>
struct promise<void> : promise_base {
  std::exception_ptr e;
  task<void> get_return_object() noexcept;
  void return_void() noexcept {}
  void unhandled_exception() noexcept { e = std::current_exception(); }
  void result() {
    if (e) std::rethrow_exception(e);
  }
};
}  // namespace detail
template <class T>
class [[nodiscard]] task {
 public:
  using promise_type = detail::promise<T>;
  using handle_t = std::coroutine_handle<promise_type>;
  task() = default;
  explicit task(handle_t h) : h_(h) {}
  task(const task &) = delete;
  task(task &&o) noexcept : h_(std::exchange(o.h_, nullptr)) {}
  task &operator=(const task &) = delete;
  task &operator=(task &&o) noexcept {
    if (this != &o) {
      if (h_) h_.destroy();
      h_ = std::exchange(o.h_, nullptr);
    }
    return *this;
  }
  ~task() {
    if (h_) h_.destroy();
  }
  bool is_ready() const noexcept { return !h_ || h_.done(); }
  bool resume() {
    if (!h_.done()) h_.resume();
    return !h_.done();
  }
  handle_t handle() const noexcept { return h_; }
  promise_type &promise() { return h_.promise(); }
  struct awaiter {
    handle_t h;
    bool await_ready() const noexcept { return !h || h.done(); }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) noexcept {
      h.promise().cont = c;
      return h;
    }
    decltype(auto) await_resume() { return h.promise().result(); }
  };
  auto operator co_await() const noexcept { return awaiter{h_}; }

 private:
  handle_t h_{};
};
namespace detail {
template <class T>
task<T> promise<T>::get_return_object() noexcept {
  return task<T>{std::coroutine_handle<promise<T>>::from_promise(*this)};
}
inline task<void> promise<void>::get_return_object() noexcept {
  return task<void>{std::coroutine_handle<promise<void>>::from_promise(*this)};
}
}  // namespace detail
}  // namespace coro
