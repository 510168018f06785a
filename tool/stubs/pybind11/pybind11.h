// The part of the interface of pybind11 a binding uses, reduced to what the
// analysis must know: which callable is registered under which name, with
// which arguments and defaults. Never compiled into anything that runs.
#pragma once
#include <Python.h>

#include <complex>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace verif {
template <typename F, typename... E>
void bind(const std::string& scope, const char* kind, const char* name, F f,
          const E&... extra) {}
template <typename V>
void bind_value(const std::string& scope, const char* name, V value) {}
template <typename T>
void bind_class(const std::string& scope, const T* tag) {}
void gil(bool held);
}  // namespace verif

namespace pybind11 {
using ssize_t = Py_ssize_t;
using size_t = std::size_t;

class object;
class str;

class handle {
 public:
  handle() = default;
  handle(PyObject* p);
  auto ptr() const -> PyObject*;
  auto get_type() const -> handle;
  auto attr(const char* name) const -> object;
  auto is_none() const -> bool;
  auto inc_ref() const -> const handle&;
  auto dec_ref() const -> const handle&;
  template <typename T>
  auto cast() const -> T;
  explicit operator bool() const;
  std::string path_;
};

class object : public handle {
 public:
  object() = default;
  object(const handle& h, bool borrowed);
};

template <typename T>
auto reinterpret_borrow(handle h) -> T;
template <typename T>
auto reinterpret_steal(handle h) -> T;
template <typename T>
auto isinstance(handle h) -> bool;
template <typename T, typename V>
auto cast(V&& v) -> T;
template <typename V>
auto cast(V&& v) -> object;

class str : public object {
 public:
  str() = default;
  str(const char* s);
  str(const std::string& s);
  explicit str(const handle& h);
  operator std::string() const;
};
class bytes : public object {
 public:
  bytes() = default;
  bytes(const char* s, size_t n);
  bytes(const std::string& s);
  operator std::string() const;
};
class tuple : public object {
 public:
  auto size() const -> size_t;
  auto operator[](size_t i) const -> object;
};
class list : public object {};
class dict : public object {};
class none : public object {};
class iterator : public object {};
class args : public object {};
class kwargs : public object {};
class int_ : public object {};
class float_ : public object {};
template <typename... A>
auto make_tuple(A&&... a) -> tuple;

class error_already_set : public std::exception {};
class type_error : public std::runtime_error {
  using std::runtime_error::runtime_error;
};
class value_error : public std::runtime_error {
  using std::runtime_error::runtime_error;
};
class index_error : public std::runtime_error {
  using std::runtime_error::runtime_error;
};

// -- lock of the interpreter
class gil_scoped_release {
 public:
  gil_scoped_release() { verif::gil(false); }
  ~gil_scoped_release() { verif::gil(true); }
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() { verif::gil(true); }
  ~gil_scoped_acquire() { verif::gil(false); }
};

// -- annotations
template <typename T>
struct arg_v {
  const char* name;
  T value;
};
struct arg {
  const char* name;
  constexpr explicit arg(const char* n) : name(n) {}
  template <typename T>
  auto operator=(T&& v) const -> arg_v<typename std::decay<T>::type> {
    return arg_v<typename std::decay<T>::type>{name, std::forward<T>(v)};
  }
  auto noconvert(bool = true) -> arg& { return *this; }
  auto none(bool = true) -> arg& { return *this; }
};
namespace literals {
constexpr auto operator"" _a(const char* n, size_t) -> arg { return arg(n); }
}  // namespace literals
template <typename... G>
struct call_guard {};
template <int A, int B>
struct keep_alive {};
struct kw_only {};
struct pos_only {};
struct is_operator {};
struct dynamic_attr {};
struct arithmetic {};
struct module_local {
  module_local(bool = true) {}
};
struct doc {
  const char* text;
  explicit doc(const char* t) : text(t) {}
};
enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

template <typename R, typename... A>
constexpr auto overload_cast_(R (*f)(A...)) -> R (*)(A...) {
  return f;
}
template <typename... A>
struct overload_cast_impl {
  template <typename R>
  constexpr auto operator()(R (*f)(A...)) const -> R (*)(A...) {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const
      -> R (C::*)(A...) {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const
      -> R (C::*)(A...) const {
    return f;
  }
};
template <typename... A>
static constexpr overload_cast_impl<A...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

namespace detail {
template <typename... A>
struct constructor {};
template <typename F>
struct factory {
  F f;
};
template <typename G, typename S>
struct pickle_factory {
  G get;
  S set;
};
template <typename T>
struct type_caster {};
template <typename T>
struct optional_caster {};
template <typename T>
struct void_caster {};
}  // namespace detail

template <typename... A>
auto init() -> detail::constructor<A...> {
  return {};
}
template <typename F>
auto init(F f) -> detail::factory<F> {
  return detail::factory<F>{f};
}
template <typename G, typename S>
auto pickle(G get, S set) -> detail::pickle_factory<G, S> {
  return detail::pickle_factory<G, S>{get, set};
}
template <return_value_policy P = return_value_policy::reference_internal,
          typename I, typename S>
auto make_iterator(I first, S last) -> iterator;

// -- registration
class module_ : public object {
 public:
  module_() = default;
  template <typename F, typename... E>
  auto def(const char* name, F&& f, const E&... extra) -> module_& {
    verif::bind(this->path_, "def", name, f, extra...);
    return *this;
  }
  auto def_submodule(const char* name, const char* = nullptr) -> module_ {
    module_ result;
    result.path_ = this->path_ + "." + name;
    return result;
  }
  auto doc() -> std::string&;
};
using module = module_;

template <typename T, typename... O>
class class_ : public object {
 public:
  template <typename... E>
  class_(const handle& scope, const char* name, const E&...) {
    this->path_ = scope.path_ + "." + name;
    const std::tuple<T, O...>* tag = nullptr;
    verif::bind_class(this->path_, tag);
  }
  template <typename F, typename... E>
  auto def(const char* name, F&& f, const E&... extra) -> class_& {
    verif::bind(this->path_, "def", name, f, extra...);
    return *this;
  }
  template <typename... A, typename... E>
  auto def(const detail::constructor<A...>&, const E&... extra) -> class_& {
    verif::bind(this->path_, "def", "__init__",
                [](A... a) -> T* { return new T(std::forward<A>(a)...); },
                extra...);
    return *this;
  }
  template <typename F, typename... E>
  auto def(const detail::factory<F>& x, const E&... extra) -> class_& {
    verif::bind(this->path_, "def", "__init__", x.f, extra...);
    return *this;
  }
  template <typename G, typename S, typename... E>
  auto def(const detail::pickle_factory<G, S>& x, const E&... extra)
      -> class_& {
    verif::bind(this->path_, "def", "__getstate__", x.get, extra...);
    verif::bind(this->path_, "def", "__setstate__", x.set, extra...);
    return *this;
  }
  template <typename F, typename... E>
  auto def_static(const char* name, F&& f, const E&... extra) -> class_& {
    verif::bind(this->path_, "static", name, f, extra...);
    return *this;
  }
  template <typename G, typename S, typename... E>
  auto def_property(const char* name, const G& get, const S& set,
                    const E&... extra) -> class_& {
    verif::bind(this->path_, "get", name, get, extra...);
    verif::bind(this->path_, "set", name, set, extra...);
    return *this;
  }
  template <typename G, typename... E>
  auto def_property_readonly(const char* name, const G& get,
                             const E&... extra) -> class_& {
    verif::bind(this->path_, "get", name, get, extra...);
    return *this;
  }
};

template <typename T>
class enum_ : public class_<T> {
 public:
  template <typename... E>
  enum_(const handle& scope, const char* name, const E&... extra)
      : class_<T>(scope, name, extra...) {}
  auto value(const char* name, T value, const char* = nullptr) -> enum_& {
    verif::bind_value(this->path_, name, value);
    return *this;
  }
  auto export_values() -> enum_& {
    verif::bind_value(this->path_, "(exported)", true);
    return *this;
  }
};
}  // namespace pybind11

#define PYBIND11_MODULE(name, variable, ...) \
  void pybind11_init_##name(::pybind11::module_& variable)
#define PYBIND11_OVERRIDE_PURE(ret, cname, fn, ...) \
  return ::verif::overridden<ret>(this, #fn, __VA_ARGS__)
#define PYBIND11_OVERLOAD_PURE(ret, cname, fn, ...) \
  PYBIND11_OVERRIDE_PURE(ret, cname, fn, __VA_ARGS__)
#define PYBIND11_OVERRIDE PYBIND11_OVERRIDE_PURE
#define PYBIND11_OVERLOAD PYBIND11_OVERRIDE_PURE
namespace verif {
template <typename R, typename C, typename... A>
auto overridden(const C* self, const char* name, const A&... a) -> R;
}  // namespace verif
