// What the extension module offers: every function forwards its arguments, in
// the order of their names, to the function of the library it documents.
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <boost/optional.hpp>

#include "fes/abstract_tidal_model.hpp"
#include "fes/angle/astronomic.hpp"
#include "fes/axis.hpp"
#include "fes/constituent.hpp"
#include "fes/detail/thread.hpp"
#include "fes/mesh/index.hpp"
#include "fes/python/datemanip.hpp"
#include "fes/python/datetime64.hpp"
#include "fes/settings.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "fes/wave.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"
#include "model.hpp"

namespace verif {
namespace py = pybind11;
using fes::angle::Astronomic;
using fes::angle::Formulae;
using fes::wave::LongPeriodEquilibrium;
using fes::wave::Table;
using py::arg;
template <typename T>
using Vec = Eigen::Ref<const fes::Vector<T>>;
using released = py::call_guard<py::gil_scoped_release>;

void reference_constituents(py::module_& m) {
  py::enum_<Constituent> e(m, "Constituent");
#define FES_C(name) e.value(#name, fes::name);
  FES_C(kMm) FES_C(kMf) FES_C(kMtm) FES_C(kMsqm) FES_C(k2Q1) FES_C(kSigma1)
  FES_C(kQ1) FES_C(kRho1) FES_C(kO1) FES_C(kMP1) FES_C(kM11) FES_C(kM12)
  FES_C(kM13) FES_C(kChi1) FES_C(kPi1) FES_C(kP1) FES_C(kS1) FES_C(kK1)
  FES_C(kPsi1) FES_C(kPhi1) FES_C(kTheta1) FES_C(kJ1) FES_C(kOO1)
  FES_C(kMNS2) FES_C(kEps2) FES_C(k2N2) FES_C(kMu2) FES_C(k2MS2) FES_C(kN2)
  FES_C(kNu2) FES_C(kM2) FES_C(kMKS2) FES_C(kLambda2) FES_C(kL2)
  FES_C(k2MN2) FES_C(kT2) FES_C(kS2) FES_C(kR2) FES_C(kK2) FES_C(kMSN2)
  FES_C(kEta2) FES_C(k2SM2) FES_C(kMO3) FES_C(k2MK3) FES_C(kM3) FES_C(kMK3)
  FES_C(kN4) FES_C(kMN4) FES_C(kM4) FES_C(kSN4) FES_C(kMS4) FES_C(kMK4)
  FES_C(kS4) FES_C(kSK4) FES_C(kR4) FES_C(k2MN6) FES_C(kM6) FES_C(kMSN6)
  FES_C(k2MS6) FES_C(k2MK6) FES_C(k2SM6) FES_C(kMSK6) FES_C(kS6) FES_C(kM8)
  FES_C(kMSf) FES_C(kSsa) FES_C(kSa) FES_C(kA5) FES_C(kSa1) FES_C(kSta)
  FES_C(kMm2) FES_C(kMm1) FES_C(kMf1) FES_C(kMf2) FES_C(kM0)
  e.export_values();
  m.def_submodule("constituents")
      .def("parse", &fes::constituents::parse, arg("name"))
      .def("name", &fes::constituents::name, arg("constituent"))
      .def("known", &fes::constituents::known);
}

void reference_angle(py::module_& m) {
  py::enum_<Formulae>(m, "Formulae")
      .value("kSchuremanOrder1", Formulae::kSchuremanOrder1)
      .value("kSchuremanOrder3", Formulae::kSchuremanOrder3)
      .value("kMeeus", Formulae::kMeeus)
      .export_values();
  py::class_<Astronomic>(m, "AstronomicAngle")
      .def(py::init<Formulae>(),
           arg("formulae") = Formulae::kSchuremanOrder1)
      .def("update",
           [](Astronomic& self, const py::handle& date, int16_t leap_seconds) {
             self.update(fes::python::datemanip::as_float64(date),
                         leap_seconds);
           },
           arg("date"), arg("leap_seconds"))
      .def_property_readonly("t", &Astronomic::t)
      .def_property_readonly("n", &Astronomic::n)
      .def_property_readonly("h", &Astronomic::h)
      .def_property_readonly("s", &Astronomic::s)
      .def_property_readonly("p1", &Astronomic::p1)
      .def_property_readonly("p", &Astronomic::p)
      .def_property_readonly("i", &Astronomic::i)
      .def_property_readonly("xi", &Astronomic::xi)
      .def_property_readonly("nu", &Astronomic::nu)
      .def_property_readonly("x1ra", &Astronomic::x1ra)
      .def_property_readonly("r", &Astronomic::r)
      .def_property_readonly("nuprim", &Astronomic::nuprim)
      .def_property_readonly("nusec", &Astronomic::nusec);
}

void reference_axis(py::module_& m) {
  py::class_<fes::Axis, std::shared_ptr<fes::Axis>>(m, "Axis")
      .def(py::init<const Eigen::Ref<const Eigen::VectorXd>&, double, bool>(),
           arg("points"), arg("epsilon") = 1e-6, arg("is_circular") = false)
      .def("__eq__", &fes::Axis::operator==, arg("other"))
      .def("__len__", &fes::Axis::size)
      .def("__getitem__", &fes::Axis::operator(), arg("index"))
      .def_property_readonly("start", &fes::Axis::start)
      .def_property_readonly("step", &fes::Axis::step)
      .def_property_readonly("is_ascending", &fes::Axis::is_ascending)
      .def_property_readonly("is_circular", &fes::Axis::is_circular)
      .def("end", &fes::Axis::end)
      .def("min_value", &fes::Axis::min_value)
      .def("max_value", &fes::Axis::max_value)
      .def("find_index", &fes::Axis::find_index, arg("value"),
           arg("bounded") = true)
      .def("find_indices", &fes::Axis::find_indices, arg("values"));
}

void reference_wave(py::module_& m) {
  using fes::Wave;
  py::class_<Wave, std::shared_ptr<Wave>> w(m, "Wave");
  py::enum_<Wave::TidalType>(w, "TidalType")
      .value("kLongPeriod", Wave::kLongPeriod)
      .value("kShortPeriod", Wave::kShortPeriod);
  w.def_property_readonly("ident", &Wave::ident)
      .def_property_readonly("freq", &Wave::freq)
      .def_property_readonly("type", &Wave::type)
      .def_property_readonly("f", &Wave::f)
      .def_property_readonly("u", &Wave::u)
      .def("nodal_a", &Wave::nodal_a, arg("a"))
      .def("nodal_g", &Wave::nodal_g, arg("a"))
      .def("vu", &Wave::vu)
      .def("v", &Wave::v)
      .def("name", &Wave::name)
      .def_property(
          "tide",
          [](const Wave& self) -> std::complex<double> { return self.tide(); },
          [](Wave& self, std::complex<double>& v) { self.tide(v); })
      .def_property(
          "admittance",
          [](const Wave& self) -> bool { return self.admittance(); },
          [](Wave& self, bool& v) { self.admittance(v); })
      .def_property(
          "dynamic", [](const Wave& self) -> bool { return self.dynamic(); },
          [](Wave& self, bool& v) { self.dynamic(v); })
      .def("period", &Wave::period)
      .def("doodson_number", &Wave::doodson_number);
}

void reference_table(py::module_& m) {
  py::class_<Table>(m, "WaveTable")
      .def(py::init<std::vector<std::string>>(),
           arg("waves") = std::vector<std::string>{})
      .def("find", &Table::find, arg("ident"))
      .def("compute_nodal_corrections", &Table::compute_nodal_corrections,
           arg("angles"))
      .def("admittance", &Table::admittance)
      .def_static("harmonic_analysis",
                  [](const Eigen::Ref<const Eigen::VectorXd>& h,
                     const fes::DynamicRef<const Eigen::MatrixXd>& f,
                     const fes::DynamicRef<const Eigen::MatrixXd>& vu)
                      -> Eigen::VectorXcd {
                    return Table::harmonic_analysis(h, f, vu);
                  },
                  arg("h"), arg("f"), arg("vu"))
      .def("tide_from_tide_series",
           [](const Table& self, py::array& dates, const Vec<uint16_t>& leap,
              const Eigen::Ref<const Eigen::VectorXcd>& wave,
              const Formulae& formulae) -> Eigen::VectorXd {
             return self.tide_from_tide_series(
                 fes::python::npdatetime64_to_epoch(dates), leap, wave,
                 formulae);
           },
           arg("dates"), arg("leap_seconds"), arg("wave"),
           arg("formulae") = Formulae::kSchuremanOrder3)
      .def("tide_from_mapping",
           [](const Table& self, const py::handle& date, const uint16_t leap,
              const fes::DynamicRef<const Eigen::MatrixXcd>& wave,
              const Formulae& formulae,
              const size_t num_threads) -> Eigen::MatrixXd {
             return self.tide_from_mapping(
                 fes::python::datemanip::as_float64(date), leap, wave,
                 formulae, num_threads);
           },
           arg("date"), arg("leap_seconds"), arg("mapping"),
           arg("formulae") = Formulae::kSchuremanOrder3,
           arg("num_threads") = 0)
      .def("compute_nodal_modulations",
           [](const Table& self, py::array& dates, const Vec<uint16_t>& leap,
              const Formulae& formulae)
               -> std::tuple<Eigen::MatrixXd, Eigen::MatrixXd> {
             return self.compute_nodal_modulations(
                 fes::python::npdatetime64_to_epoch(dates), leap, formulae);
           },
           arg("dates"), arg("leap_seconds"),
           arg("formulae") = Formulae::kSchuremanOrder3)
      .def_static("select_waves_for_analysis",
                  &Table::select_waves_for_analysis, arg("duration"),
                  arg("f") = 2.0)
      .def("keys", &Table::constituents)
      .def("values",
           [](const Table& self) {
             auto result = std::vector<std::shared_ptr<fes::Wave>>{};
             for (const auto& wave : self) {
               result.emplace_back(wave);
             }
             return result;
           })
      .def("__len__", [](const Table& self) { return self.size(); })
      .def("__getitem__",
           [](const Table& self, Constituent ident)
               -> std::shared_ptr<fes::Wave> { return self[ident]; },
           arg("index"))
      .def("__iter__",
           [](const Table& self) {
             return py::make_iterator(self.begin(), self.end());
           },
           py::keep_alive<0, 1>());
  py::class_<LongPeriodEquilibrium>(m, "LongPeriodEquilibrium")
      .def(py::init<>())
      .def("disable_dynamic_wave",
           &LongPeriodEquilibrium::disable_dynamic_wave, arg("wave_table"))
      .def("lpe_minus_n_waves", &LongPeriodEquilibrium::lpe_minus_n_waves,
           arg("angles"), arg("lat"));
}

void reference_settings(py::module_& m) {
  py::class_<fes::Settings>(m, "Settings")
      .def(py::init([](const Formulae formulae, const double tolerance,
                       const boost::optional<std::vector<Constituent>>&
                           excluded) {
             return excluded ? fes::Settings(formulae, tolerance, *excluded)
                             : fes::Settings(formulae, tolerance,
                                             std::vector<Constituent>());
           }),
           arg("astronomic_formulae") = Formulae::kSchuremanOrder1,
           arg("time_tolerance") = 0.0, arg("excluded") = boost::none)
      .def_property_readonly("astronomic_formulae",
                             &fes::Settings::astronomic_formulae)
      .def_property_readonly("time_tolerance", &fes::Settings::time_tolerance)
      .def_property_readonly("excluded", &fes::Settings::excluded);
}

template <typename T>
auto some_interpolation(const fes::AbstractTidalModel<T>& self,
                        const Eigen::Ref<const Eigen::VectorXd>& lon,
                        const Eigen::Ref<const Eigen::VectorXd>& lat,
                        size_t num_threads)
    -> std::tuple<std::map<Constituent, Eigen::VectorXcd>,
                  Eigen::Matrix<int8_t, -1, 1>>;

template <typename T>
void reference_abstract(py::module_& m, const char* name) {
  using Model = fes::AbstractTidalModel<T>;
  py::class_<Model, std::shared_ptr<Model>>(m, name)
      .def("add_constituent",
           [](Model& self, const std::string& name,
              fes::Vector<std::complex<T>> wave) -> void {
             self.add_constituent(name, wave);
           },
           arg("name"), arg("wave"))
      .def("accelerator", &Model::accelerator,
           arg("formulae") = Formulae::kSchuremanOrder1,
           arg("time_tolerance") = 0.0)
      .def("interpolate", &some_interpolation<T>, arg("lon"), arg("lat"),
           arg("num_threads") = 0)
      .def("interpolate",
           [](const Model& self, const double lon, const double lat,
              Table& table) -> fes::Quality {
             std::unique_ptr<fes::Accelerator> acc(
                 self.accelerator(Formulae::kSchuremanOrder1, 0.0));
             return self.interpolate(fes::geometry::Point(lon, lat), table,
                                     acc.get());
           },
           arg("lon"), arg("lat"), arg("wave_table"))
      .def_property(
          "dynamic",
          [](const Model& self) -> const std::vector<Constituent>& {
            return self.dynamic();
          },
          [](Model& self, const std::vector<Constituent>& v) -> void {
            self.dynamic(v);
          })
      .def("clear", &Model::clear)
      .def_property_readonly("tide_type", &Model::tide_type)
      .def("identifiers", &Model::identifiers)
      .def("__len__", &Model::size)
      .def("__bool__",
           [](const Model& self) -> bool { return !self.empty(); });
}

template <typename Model>
auto restored(const py::bytes& state) {
  char* buffer = nullptr;
  py::ssize_t length = 0;
  if (PyBytes_AsStringAndSize(state.ptr(), &buffer, &length) != 0) {
    throw py::error_already_set();
  }
  return Model::setstate(fes::string_view(buffer, length));
}

template <typename T>
void reference_cartesian(py::module_& m, const char* name) {
  using Model = fes::tidal_model::Cartesian<T>;
  py::class_<Model, fes::AbstractTidalModel<T>, std::shared_ptr<Model>>(m,
                                                                        name)
      .def(py::init<fes::Axis, fes::Axis, fes::TideType, bool>(), arg("lon"),
           arg("lat"), arg("tide_type") = fes::TideType::kTide,
           arg("longitude_major") = true)
      .def("lon", &Model::lon)
      .def("lat", &Model::lat)
      .def(py::pickle(
          [](const Model& self) { return py::bytes(self.getstate()); },
          [](const py::bytes& state) { return restored<Model>(state); }));
}

template <typename T, typename Model>
void reference_lgp(py::module_& m, const char* name) {
  py::class_<Model, fes::AbstractTidalModel<T>, std::shared_ptr<Model>>(m,
                                                                        name)
      .def(py::init<std::shared_ptr<fes::mesh::Index>, typename Model::codes_t,
                    fes::TideType, double>(),
           arg("index"), arg("codes"),
           arg("tide_type") = fes::TideType::kTide, arg("max_distance") = 0)
      .def("index", &Model::index)
      .def(py::pickle(
          [](const Model& self) { return py::bytes(self.getstate()); },
          [](const py::bytes& state) { return restored<Model>(state); }));
}

template <typename T>
void reference_tide(py::module_& m) {
  m.def(
      "evaluate_tide",
      [](const fes::AbstractTidalModel<T>* const model, py::array& dates,
         const Vec<uint16_t>& leap, const Eigen::Ref<const Eigen::VectorXd>& x,
         const Eigen::Ref<const Eigen::VectorXd>& y,
         const boost::optional<fes::Settings>& settings, const size_t threads)
          -> std::tuple<Eigen::VectorXd, Eigen::VectorXd,
                        fes::Vector<fes::Quality>> {
        if (dates.size() != leap.size() || dates.size() != x.size() ||
            dates.size() != y.size()) {
          throw std::invalid_argument("size");
        }
        const auto epoch = fes::python::npdatetime64_to_epoch(dates);
        if (settings) {
          return fes::evaluate_tide(model, epoch, leap, x, y, *settings,
                                    threads);
        }
        return fes::evaluate_tide(model, epoch, leap, x, y, fes::Settings(),
                                  threads);
      },
      arg("tidal_model"), arg("date"), arg("leap_seconds"), arg("longitude"),
      arg("latitude"), arg("settings") = boost::none, arg("num_threads") = 0);
}

void reference(py::module_& m) {
  m.def_submodule("datemanip")
      .def("as_int64", &fes::python::datemanip::as_int64, arg("date"))
      .def("as_float64", &fes::python::datemanip::as_float64, arg("date"));
  reference_constituents(m);
  reference_angle(m);
  reference_axis(m);
  reference_wave(m);
  reference_table(m);
  auto mesh = m.def_submodule("mesh");
  py::class_<fes::mesh::Index, std::shared_ptr<fes::mesh::Index>>(mesh,
                                                                  "Index")
      .def(py::init<Eigen::VectorXd, Eigen::VectorXd,
                    Eigen::Matrix<int32_t, -1, 3>>(),
           arg("lon"), arg("lat"), arg("triangles"))
      .def("lon", &fes::mesh::Index::lon)
      .def("lat", &fes::mesh::Index::lat)
      .def("triangles", &fes::mesh::Index::triangles);
  reference_settings(m);
  py::enum_<fes::Quality>(m, "Quality")
      .value("kExtrapolated1", fes::kExtrapolated1)
      .value("kExtrapolated2", fes::kExtrapolated2)
      .value("kExtrapolated3", fes::kExtrapolated3)
      .value("kInterpolated", fes::kInterpolated)
      .value("kUndefined", fes::kUndefined)
      .export_values();
  py::enum_<fes::TideType>(m, "TideType")
      .value("kTide", fes::kTide)
      .value("kRadial", fes::kRadial)
      .export_values();
  py::class_<fes::Accelerator>(m, "Accelerator");
  reference_abstract<double>(m, "AbstractTidalModelComplex128");
  reference_abstract<float>(m, "AbstractTidalModelComplex64");
  auto models = m.def_submodule("tidal_model");
  reference_cartesian<double>(models, "CartesianComplex128");
  reference_cartesian<float>(models, "CartesianComplex64");
  reference_lgp<double, fes::tidal_model::LGP1<double>>(models,
                                                        "LGP1Complex128");
  reference_lgp<float, fes::tidal_model::LGP1<float>>(models, "LGP1Complex64");
  reference_lgp<double, fes::tidal_model::LGP2<double>>(models,
                                                        "LGP2Complex128");
  reference_lgp<float, fes::tidal_model::LGP2<float>>(models, "LGP2Complex64");
  reference_tide<double>(m);
  reference_tide<float>(m);
}

// -- interpolation of arrays of positions
using Interpolation = std::tuple<std::map<Constituent, Eigen::VectorXcd>,
                                 Eigen::Matrix<int8_t, -1, 1>>;
using Interpolate = Interpolation (*)(const fes::AbstractTidalModel<double>&,
                                      const Eigen::Ref<const Eigen::VectorXd>&,
                                      const Eigen::Ref<const Eigen::VectorXd>&,
                                      size_t);
struct Interpolated {
  std::vector<int> constituents, size, quality;
  std::vector<double> re, im;
};
constexpr double kNan = std::numeric_limits<double>::quiet_NaN();

Interpolated probe_interpolation(Interpolate f, int n, int m, int threads,
                                 double lon0, double lon1, double lon2,
                                 double lat0, double lat1, double lat2) {
  const double x[] = {lon0, lon1, lon2}, y[] = {lat0, lat1, lat2};
  Model model(fes::kTide);
  for (const auto ident : {fes::kMm, fes::kO1, fes::kM2}) {
    model.add_constituent(ident, fes::Vector<std::complex<double>>(1));
  }
  Eigen::VectorXd lon(n), lat(m);
  for (int i = 0; i < n; ++i) {
    lon(i) = x[i];
  }
  for (int i = 0; i < m; ++i) {
    lat(i) = y[i];
  }
  const auto r = f(model, lon, lat, threads);
  Interpolated out;
  for (const auto& item : std::get<0>(r)) {
    out.constituents.push_back(item.first);
    out.size.push_back(item.second.size());
    for (int i = 0; i < n; ++i) {
      out.re.push_back(item.second(i).real());
      out.im.push_back(item.second(i).imag());
    }
  }
  out.size.push_back(std::get<1>(r).size());
  for (int i = 0; i < n; ++i) {
    out.quality.push_back(std::get<1>(r)(i));
  }
  return out;
}

Interpolated ref_interpolation(Interpolate f, int n, int m, int threads,
                               double lon0, double lon1, double lon2,
                               double lat0, double lat1, double lat2) {
  const double x[] = {lon0, lon1, lon2}, y[] = {lat0, lat1, lat2};
  if (n != m) {
    throw std::invalid_argument("size");
  }
  Interpolated out;
  for (const auto ident : {fes::kMm, fes::kO1, fes::kM2}) {
    out.constituents.push_back(ident);
    out.size.push_back(n);
    for (int i = 0; i < n; ++i) {
      const bool none = number_of_nodes(x[i], y[i]) == fes::kUndefined;
      out.re.push_back(none ? kNan : value_re(ident, x[i], y[i]));
      out.im.push_back(none ? 0.0 : value_im(ident, x[i], y[i]));
    }
  }
  out.size.push_back(n);
  for (int i = 0; i < n; ++i) {
    out.quality.push_back(number_of_nodes(x[i], y[i]));
  }
  return out;
}
}  // namespace verif
