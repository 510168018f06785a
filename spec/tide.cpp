// Prediction of the tide from a model.
#include <cmath>
#include <complex>
#include <limits>
#include <tuple>
#include <vector>

#include "fes/tide.hpp"
#include "model.hpp"

namespace verif {

using fes::wave::Table;

struct Tide {
  double h, lp;
  int quality;
};
struct Tides {
  std::vector<Tide> tide;
};

// In configuration `step` a constituent is provided, computed elsewhere or
// excluded: every constituent goes through the eight combinations.
inline bool provided(int ix, int step) { return ((ix + step) & 1) != 0; }
inline bool elsewhere(int ix, int step) { return ((ix + step) & 2) != 0; }
inline bool excluded(int ix, int step) { return ((ix + step) & 4) != 0; }

inline void configure(Model& model, std::vector<Constituent>& exclude,
                      int step) {
  std::vector<Constituent> dynamic;
  for (int ix = 0; ix < 75; ++ix) {
    const auto ident = static_cast<Constituent>(ix);
    if (provided(ix, step)) {
      model.add_constituent(ident, fes::Vector<std::complex<double>>(1));
    }
    if (elsewhere(ix, step)) {
      dynamic.push_back(ident);
    }
    if (excluded(ix, step)) {
      exclude.push_back(ident);
    }
  }
  model.dynamic(dynamic);
}

// Tide at a position, from its definition.
inline Tide reference(int step, int type, fes::angle::Formulae formulae,
                      double epoch, int leap, double lon, double lat) {
  Table t;
  fes::angle::Astronomic angles(formulae, epoch, leap);
  t.compute_nodal_corrections(angles);
  for (int ix = 0; ix < 75; ++ix) {
    const auto& wave = t[static_cast<Constituent>(ix)];
    const bool computed =
        (provided(ix, step) && !excluded(ix, step)) || elsewhere(ix, step);
    wave->dynamic(computed);
    if (computed) {
      wave->admittance(false);
    }
    if (provided(ix, step)) {
      wave->tide(std::complex<double>(value_re(ix, lon, lat),
                                      value_im(ix, lon, lat)));
    }
  }
  fes::wave::LongPeriodEquilibrium lpe(t);
  t.admittance();
  double lp = 0.0;
  if (type == fes::kTide) {
    lp += lpe.lpe_minus_n_waves(angles, lat);
  }
  const int quality = number_of_nodes(lon, lat);
  if (quality == 0) {
    return Tide{std::numeric_limits<double>::quiet_NaN(), lp, quality};
  }
  double h = 0.0;
  for (int ix = 0; ix < 75; ++ix) {
    const auto& wave = t[static_cast<Constituent>(ix)];
    if (wave->dynamic() || wave->admittance()) {
      const double height =
          wave->f() * (wave->tide().real() * std::cos(wave->vu()) +
                       wave->tide().imag() * std::sin(wave->vu()));
      if (wave->type() == fes::Wave::kLongPeriod) {
        lp += height;
      } else {
        h += height;
      }
    }
  }
  return Tide{h, lp, quality};
}

Tides probe_series(int step, int type, fes::angle::Formulae formulae,
                   double epoch0, double epoch1, int leap0, int leap1,
                   double lon0, double lon1, double lat0, double lat1) {
  Model model(static_cast<fes::TideType>(type));
  std::vector<Constituent> exclude;
  configure(model, exclude, step);
  Eigen::VectorXd epoch(2), lon(2), lat(2);
  fes::Vector<uint16_t> leap(2);
  epoch << epoch0, epoch1;
  lon << lon0, lon1;
  lat << lat0, lat1;
  leap << leap0, leap1;
  const auto r = fes::evaluate_tide<double>(
      &model, epoch, leap, lon, lat, fes::Settings(formulae, 0.0, exclude), 1);
  Tides tides;
  for (int ix = 0; ix < 2; ++ix) {
    tides.tide.push_back(
        Tide{std::get<0>(r)(ix), std::get<1>(r)(ix), std::get<2>(r)(ix)});
  }
  return tides;
}
Tides ref_series(int step, int type, fes::angle::Formulae formulae,
                 double epoch0, double epoch1, int leap0, int leap1,
                 double lon0, double lon1, double lat0, double lat1) {
  Tides tides;
  tides.tide.push_back(
      reference(step, type, formulae, epoch0, leap0, lon0, lat0));
  tides.tide.push_back(
      reference(step, type, formulae, epoch1, leap1, lon1, lat1));
  return tides;
}

// A tolerance for which the angles of the first date serve for the second, or
// do not.
Tides probe_tolerance(int step, int type, fes::angle::Formulae formulae,
                      double tolerance, double epoch0, double epoch1,
                      int leap0, int leap1, double lon0, double lon1,
                      double lat0, double lat1) {
  Model model(static_cast<fes::TideType>(type));
  std::vector<Constituent> exclude;
  configure(model, exclude, step);
  Eigen::VectorXd epoch(2), lon(2), lat(2);
  fes::Vector<uint16_t> leap(2);
  epoch << epoch0, epoch1;
  lon << lon0, lon1;
  lat << lat0, lat1;
  leap << leap0, leap1;
  const auto r = fes::evaluate_tide<double>(
      &model, epoch, leap, lon, lat,
      fes::Settings(formulae, tolerance, exclude), 1);
  Tides tides;
  for (int ix = 0; ix < 2; ++ix) {
    tides.tide.push_back(
        Tide{std::get<0>(r)(ix), std::get<1>(r)(ix), std::get<2>(r)(ix)});
  }
  return tides;
}
Tides ref_tolerance(int step, int type, fes::angle::Formulae formulae,
                    double tolerance, double epoch0, double epoch1, int leap0,
                    int leap1, double lon0, double lon1, double lat0,
                    double lat1) {
  const bool same = std::abs(epoch1 - epoch0) <= tolerance;
  Tides tides;
  tides.tide.push_back(
      reference(step, type, formulae, epoch0, leap0, lon0, lat0));
  tides.tide.push_back(same ? reference(step, type, formulae, epoch0, leap0,
                                        lon1, lat1)
                            : reference(step, type, formulae, epoch1, leap1,
                                        lon1, lat1));
  return tides;
}

}  // namespace verif
