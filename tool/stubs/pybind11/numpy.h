#pragma once
#include <pybind11/pybind11.h>

namespace pybind11 {
class dtype : public object {
 public:
  auto kind() const -> char;
  auto itemsize() const -> ssize_t;
  auto num() const -> int;
};
namespace detail {
struct PyArrayDescr_Proxy {
  PyObject* typeobj;
  char kind, type, byteorder, flags;
  int type_num, elsize, alignment;
};
auto array_descriptor_proxy(PyObject* ptr) -> PyArrayDescr_Proxy*;
template <typename T, ssize_t N>
class unchecked_reference {
 public:
  auto size() const -> ssize_t;
  auto ndim() const -> ssize_t;
  auto shape(ssize_t axis) const -> ssize_t;
  auto data(ssize_t i) const -> const T*;
  auto operator()(ssize_t i) const -> const T&;
  auto operator[](ssize_t i) const -> const T&;
};
}  // namespace detail
class array : public object {
 public:
  auto dtype() const -> pybind11::dtype;
  auto size() const -> ssize_t;
  auto ndim() const -> ssize_t;
  auto shape(ssize_t axis) const -> ssize_t;
  auto data() const -> const void*;
  template <typename T, ssize_t N = -1>
  auto unchecked() const -> detail::unchecked_reference<T, N>;
};
template <typename T, int F = 16>
class array_t : public array {
 public:
  auto data(ssize_t i = 0) const -> const T*;
  auto at(ssize_t i) const -> const T&;
};
}  // namespace pybind11
