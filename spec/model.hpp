// Model whose values and quality are any function of the position.
#pragma once
#include <complex>

#include "fes/abstract_tidal_model.hpp"

namespace verif {

using fes::Constituent;
using fes::Quality;

double value_re(int ident, double lon, double lat);
double value_im(int ident, double lon, double lat);
int number_of_nodes(double lon, double lat);

class Model : public fes::AbstractTidalModel<double> {
 public:
  explicit Model(fes::TideType type)
      : fes::AbstractTidalModel<double>(type) {}

  using fes::AbstractTidalModel<double>::interpolate;

  auto accelerator(const fes::angle::Formulae& formulae,
                   const double time_tolerance) const
      -> fes::Accelerator* override {
    return new fes::Accelerator(formulae, time_tolerance, data_.size());
  }

  auto add_constituent(const Constituent ident,
                       fes::Vector<std::complex<double>> wave)
      -> void override {
    data_.emplace(ident, wave);
  }

  auto interpolate(const fes::geometry::Point& point, Quality& quality,
                   fes::Accelerator* acc) const
      -> const fes::ConstituentValues& override {
    acc->clear();
    for (const auto& item : data_) {
      acc->emplace_back(item.first,
                        std::complex<double>(
                            value_re(item.first, point.lon(), point.lat()),
                            value_im(item.first, point.lon(), point.lat())));
    }
    quality = static_cast<Quality>(number_of_nodes(point.lon(), point.lat()));
    return acc->values();
  }
};

}  // namespace verif
