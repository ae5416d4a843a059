// Stand-in for pybind11: just enough of its object model for the Python bindings' C++ classes to be driven from
// C++ harnesses.  The GIL is one ordinary mutex that callers hold while inside the API.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>
namespace pybind11 {
using ssize_t = ::ssize_t;
inline std::mutex &gil() {
  static std::mutex m;
  return m;
}
struct gil_scoped_release {
  gil_scoped_release() { gil().unlock(); }
  ~gil_scoped_release() { gil().lock(); }
  gil_scoped_release(const gil_scoped_release &) = delete;
};
struct gil_scoped_acquire {
  gil_scoped_acquire() { gil().lock(); }
  ~gil_scoped_acquire() { gil().unlock(); }
  gil_scoped_acquire(const gil_scoped_acquire &) = delete;
};
struct builtin_exception : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct value_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct type_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct index_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct key_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
struct cast_error : builtin_exception {
  using builtin_exception::builtin_exception;
};
inline std::string &pending_error() {
  static thread_local std::string s;
  return s;
}
struct error_already_set : std::exception {
  std::string m = pending_error();
  const char *what() const noexcept override { return m.c_str(); }
};
inline int g_exc_tag;

// ---- values
enum class K { NONE, BOOL, INT, FLOAT, STR, LIST, TUPLE, DICT, ARRAY, FUNC };
struct Value;
using Ref = std::shared_ptr<Value>;
struct Value {
  K k = K::NONE;
  bool b = false;
  int64_t i = 0;
  double f = 0;
  std::string s;
  std::vector<Ref> seq;
  std::vector<std::pair<Ref, Ref>> map;
  int code = 0;       // dtype of an array
  size_t item = 0;    // its element size
  std::vector<ssize_t> shape;
  int flags = 0;
  std::vector<char> bytes;
};
inline Ref mk(K k) {
  auto v = std::make_shared<Value>();
  v->k = k;
  return v;
}
struct dtype {
  int code = 0;
  template <class T>
  static int code_of() {
    return (std::is_floating_point_v<T> ? 100 : std::is_signed_v<T> ? 200 : 300) + (int)sizeof(T);
  }
  template <class T>
  static dtype of() {
    return dtype{code_of<T>()};
  }
  bool is(const dtype &o) const { return code == o.code; }
};
class object;
template <class T>
Ref to_ref(const T &x);
template <class T>
T from_ref(const Ref &r);

class object {
 public:
  Ref v;
  object() : v(mk(K::NONE)) {}
  explicit object(Ref r) : v(std::move(r)) {}
  bool is_none() const { return v->k == K::NONE; }
  template <class T>
  T cast() const {
    return from_ref<T>(v);
  }
  object attr(const char *) const { return object(mk(K::FUNC)); }
  template <class T>
  object operator()(const T &a) const {  // the only callable is an identity function (os.fspath)
    return object(to_ref(a));
  }
};
using handle = object;
struct none : object {};
struct bool_ : object {
  bool_() : object(mk(K::BOOL)) {}
  explicit bool_(bool b) : bool_() { v->b = b; }
};
struct int_ : object {
  int_() : object(mk(K::INT)) {}
  template <class I, class = std::enable_if_t<std::is_integral_v<I>>>
  explicit int_(I i) : int_() {
    v->i = (int64_t)i;
  }
};
struct float_ : object {
  float_() : object(mk(K::FLOAT)) {}
  explicit float_(double d) : float_() { v->f = d; }
};
struct str : object {
  str() : object(mk(K::STR)) {}
  str(const char *s) : str() { v->s = s; }
  str(const std::string &s) : str() { v->s = s; }
  explicit str(const object &o) : str() {
    switch (o.v->k) {
      case K::STR: v->s = o.v->s; break;
      case K::INT: v->s = std::to_string(o.v->i); break;
      case K::FLOAT: v->s = std::to_string(o.v->f); break;
      case K::BOOL: v->s = o.v->b ? "True" : "False"; break;
      default: v->s = "None";
    }
  }
  operator std::string() const { return v->s; }
};
struct list : object {
  list() : object(mk(K::LIST)) {}
  explicit list(Ref r) : object(std::move(r)) {}
  template <class T>
  void append(const T &x) {
    v->seq.push_back(to_ref(x));
  }
  size_t size() const { return v->seq.size(); }
  object operator[](size_t i) const { return object(v->seq.at(i)); }
};
struct tuple : object {
  tuple() : object(mk(K::TUPLE)) {}
  explicit tuple(Ref r) : object(std::move(r)) {}
  size_t size() const { return v->seq.size(); }
  object operator[](size_t i) const { return object(v->seq.at(i)); }
};
template <class... A>
tuple make_tuple(const A &...a) {
  tuple t;
  (t.v->seq.push_back(to_ref(a)), ...);
  return t;
}
struct dict : object {
  dict() : object(mk(K::DICT)) {}
  explicit dict(Ref r) : object(std::move(r)) {}
  struct accessor {
    Ref d;
    std::string key;
    template <class T>
    accessor &operator=(const T &x) {
      for (auto &e : d->map)
        if (e.first->s == key) {
          e.second = to_ref(x);
          return *this;
        }
      auto k = mk(K::STR);
      k->s = key;
      d->map.push_back({k, to_ref(x)});
      return *this;
    }
    operator object() const {
      for (auto &e : d->map)
        if (e.first->s == key) return object(e.second);
      throw key_error(key);
    }
    template <class T>
    T cast() const {
      return ((object) * this).template cast<T>();
    }
  };
  accessor operator[](const char *k) const { return {v, k}; }
  accessor operator[](const std::string &k) const { return {v, k}; }
  bool contains(const std::string &k) const {
    for (auto &e : v->map)
      if (e.first->s == k) return true;
    return false;
  }
  size_t size() const { return v->map.size(); }
  struct iterator {
    const std::vector<std::pair<Ref, Ref>> *m;
    size_t i;
    std::pair<object, object> operator*() const { return {object((*m)[i].first), object((*m)[i].second)}; }
    iterator &operator++() {
      ++i;
      return *this;
    }
    bool operator!=(const iterator &o) const { return i != o.i; }
  };
  iterator begin() const { return {&v->map, 0}; }
  iterator end() const { return {&v->map, v->map.size()}; }
};
struct buffer_info {
  void *ptr;
  ssize_t size, itemsize, ndim;
  std::vector<ssize_t> shape;
};
template <class T>
class array_t;
class array : public object {
 public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  array() : object(mk(K::ARRAY)) {}
  explicit array(Ref r) : object(std::move(r)) {}
  pybind11::dtype dtype() const { return pybind11::dtype{v->code}; }
  ssize_t ndim() const { return (ssize_t)v->shape.size(); }
  ssize_t shape(ssize_t i) const { return v->shape.at(i); }
  const ssize_t *shape() const { return v->shape.data(); }
  ssize_t size() const {
    ssize_t n = 1;
    for (auto s : v->shape) n *= s;
    return n;
  }
  int flags() const { return v->flags; }
  const void *data() const { return v->bytes.data(); }
  void *mutable_data() { return v->bytes.data(); }
  buffer_info request() const { return {v->bytes.data(), size(), (ssize_t)v->item, ndim(), v->shape}; }
};
template <class T>
class array_t : public array {
 public:
  array_t() { init({0}); }
  explicit array_t(Ref r) : array(std::move(r)) {}
  explicit array_t(size_t n) { init({(ssize_t)n}); }
  array_t(std::vector<ssize_t> shape) { init(std::move(shape)); }
  template <class S, class = std::enable_if_t<std::is_integral_v<S>>>
  array_t(std::initializer_list<S> shape) {
    init(std::vector<ssize_t>(shape.begin(), shape.end()));
  }
  template <class S, class D>
  array_t(std::initializer_list<S> shape, std::initializer_list<D>, const T *p) {
    init(std::vector<ssize_t>(shape.begin(), shape.end()));
    memcpy(this->v->bytes.data(), p, this->v->bytes.size());
  }
  array_t(std::vector<ssize_t> shape, const T *p) {
    init(std::move(shape));
    if (!this->v->bytes.empty()) memcpy(this->v->bytes.data(), p, this->v->bytes.size());
  }
  const T *data() const { return (const T *)this->v->bytes.data(); }
  T *mutable_data() { return (T *)this->v->bytes.data(); }

 private:
  void init(std::vector<ssize_t> shape) {
    auto &x = *this->v;
    x.code = pybind11::dtype::code_of<T>();
    x.item = sizeof(T);
    x.flags = array::c_style;
    size_t n = sizeof(T);
    for (auto s : shape) n *= (size_t)s;
    x.shape = std::move(shape);
    x.bytes.resize(n);
  }
};
template <class T>
bool isinstance(const object &o) {
  K k = o.v->k;
  if constexpr (std::is_same_v<T, bool_>) return k == K::BOOL;
  else if constexpr (std::is_same_v<T, int_>) return k == K::INT || k == K::BOOL;
  else if constexpr (std::is_same_v<T, float_>) return k == K::FLOAT;
  else if constexpr (std::is_same_v<T, str>) return k == K::STR;
  else if constexpr (std::is_same_v<T, list>) return k == K::LIST;
  else if constexpr (std::is_same_v<T, dict>) return k == K::DICT;
  else return false;
}
template <class T>
Ref to_ref(const T &x) {
  if constexpr (std::is_base_of_v<object, T>) return x.v;
  else if constexpr (std::is_same_v<T, bool>) return bool_(x).v;
  else if constexpr (std::is_integral_v<T>) return int_(x).v;
  else if constexpr (std::is_floating_point_v<T>) return float_(x).v;
  else return str(std::string(x)).v;
}
template <class T>
struct is_array_t : std::false_type {};
template <class T>
struct is_array_t<array_t<T>> : std::true_type {
  using elem = T;
};
template <class T>
T from_ref(const Ref &r) {
  auto bad = [&]() -> void { throw cast_error("cannot cast"); };
  if constexpr (std::is_same_v<T, bool>) {
    if (r->k != K::BOOL) bad();
    return r->b;
  } else if constexpr (std::is_integral_v<T>) {
    if (r->k == K::BOOL) return (T)r->b;
    if (r->k != K::INT) bad();
    return (T)r->i;
  } else if constexpr (std::is_floating_point_v<T>) {
    if (r->k == K::INT) return (T)r->i;
    if (r->k != K::FLOAT) bad();
    return (T)r->f;
  } else if constexpr (std::is_same_v<T, std::string>) {
    if (r->k != K::STR) bad();
    return r->s;
  } else if constexpr (std::is_same_v<T, list>) {
    if (r->k != K::LIST && r->k != K::TUPLE) bad();
    return list(r);
  } else if constexpr (std::is_same_v<T, tuple>) {
    return tuple(r);
  } else if constexpr (std::is_same_v<T, dict>) {
    if (r->k != K::DICT) bad();
    return dict(r);
  } else if constexpr (std::is_same_v<T, array>) {
    if (r->k != K::ARRAY) bad();
    return array(r);
  } else if constexpr (is_array_t<T>::value) {
    if (r->k != K::ARRAY || r->code != dtype::code_of<typename is_array_t<T>::elem>()) bad();
    return T(r);
  } else {
    return T(object(r));
  }
}

// ---- module definition (no-ops)
struct module_ {
  static module_ import(const char *) { return {}; }
  object attr(const char *) const { return object(mk(K::FUNC)); }
};
struct arg {
  explicit arg(const char *) {}
  template <class T>
  arg &operator=(T &&) {
    return *this;
  }
};
struct kw_only {};
template <class... A>
struct init_t {};
template <class... A>
init_t<A...> init() {
  return {};
}
template <class T, class... O>
struct class_ {
  template <class... A>
  class_(A &&...) {}
  template <class... A>
  class_ &def(A &&...) {
    return *this;
  }
  template <class... A>
  class_ &def_static(A &&...) {
    return *this;
  }
};
}  // namespace pybind11
inline void *PyExc_NotImplementedError = &pybind11::g_exc_tag;
inline void PyErr_SetString(void *, const char *m) { pybind11::pending_error() = m; }
