// Dates of Python and NumPy as seconds or microseconds since 1970.
#include <Python.h>
#include <datetime.h>
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>

#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <tuple>

#include "fes/python/datemanip.hpp"
#include "fes/python/datetime64.hpp"

namespace verif {
namespace py = pybind11;
namespace dm = fes::python::datemanip;

int64_t probe_days(int y, unsigned m, unsigned d) {
  return dm::days_from_civil(y, m, d);
}

// Days of the whole years before, days of the months before, day.
int64_t ref_days(int y, unsigned m, unsigned d) {
  const int64_t length[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int64_t days = 0;
  int64_t p = y - 1;
  days += p * 365 + p / 4 - p / 100 + p / 400 - 719162;
  for (unsigned i = 1; i < m; ++i) {
    days += length[i - 1];
  }
  bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  if (m > 2 && leap) {
    days += 1;
  }
  return days + d - 1;
}

struct Fields {
  int64_t sec, usec;
};

Fields fields(const py::handle& h) {
  PyObject* o = h.ptr();
  if (o == nullptr || o == Py_None) throw std::invalid_argument("none");
  if (!PyDateTimeAPI) {
    PyDateTime_IMPORT;
  }
  if (!PyDateTimeAPI) throw std::runtime_error("datetime");
  if (!PyDateTime_Check(o)) throw std::invalid_argument("type");
  if (reinterpret_cast<_PyDateTime_BaseTZInfo*>(o)->hastzinfo) {
    throw std::invalid_argument("naive");
  }
  Fields f;
  f.sec = dm::days_from_civil(PyDateTime_GET_YEAR(o), PyDateTime_GET_MONTH(o),
                              PyDateTime_GET_DAY(o)) * 86400LL +
          PyDateTime_DATE_GET_HOUR(o) * 3600LL +
          PyDateTime_DATE_GET_MINUTE(o) * 60LL + PyDateTime_DATE_GET_SECOND(o);
  f.usec = PyDateTime_DATE_GET_MICROSECOND(o);
  if (std::abs(f.sec) > 2147483647LL) {
    throw std::invalid_argument("range");
  }
  return f;
}

int64_t probe_as_int64(const py::handle& h) { return dm::as_int64(h); }
int64_t ref_as_int64(const py::handle& h) {
  Fields f = fields(h);
  return f.sec * 1000000LL + f.usec;
}
double probe_as_float64(const py::handle& h) { return dm::as_float64(h); }
double ref_as_float64(const py::handle& h) {
  Fields f = fields(h);
  return f.sec + f.usec * 1e-6;
}

double probe_scale(const py::dtype& t) {
  return fes::python::npdatetime64_scale(t);
}
double ref_scale(const py::dtype& t) {
  if (py::detail::array_descriptor_proxy(t.ptr())->type_num != 21) {
    throw std::invalid_argument("not dates");
  }
  std::string u = std::string(py::str(static_cast<py::handle>(t)));
  if (u == "datetime64[D]") return 86400;
  if (u == "datetime64[h]") return 3600;
  if (u == "datetime64[m]") return 60;
  if (u == "datetime64[s]") return 1;
  if (u == "datetime64[ms]") return 1e-3;
  if (u == "datetime64[us]") return 1e-6;
  if (u == "datetime64[ns]") return 1e-9;
  if (u == "datetime64[ps]") return 1e-12;
  if (u == "datetime64[fs]") return 1e-15;
  if (u == "datetime64[as]") return 1e-18;
  throw std::invalid_argument("unit");
}

Eigen::VectorXd probe_epoch(const py::array& a) {
  return fes::python::npdatetime64_to_epoch(a);
}
Eigen::VectorXd ref_epoch(const py::array& a) {
  auto dates = a.unchecked<int64_t, 1>();
  Eigen::VectorXd r(dates.size());
  for (py::ssize_t i = 0; i < dates.size(); ++i) {
    r(i) = dates(i) * fes::python::npdatetime64_scale(a.dtype());
  }
  return r;
}
}  // namespace verif
