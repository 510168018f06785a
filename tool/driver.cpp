// Analysis driver: names every header of the library and instantiates its
// templates, so that the extractor sees the code a user of the library gets.
#include "fes/abstract_tidal_model.hpp"
#include "fes/angle/astronomic.hpp"
#include "fes/axis.hpp"
#include "fes/constituent.hpp"
#include "fes/detail/broadcast.hpp"
#include "fes/detail/grid.hpp"
#include "fes/detail/isviewstream.hpp"
#include "fes/detail/math.hpp"
#include "fes/detail/serialize.hpp"
#include "fes/detail/thread.hpp"
#include "fes/eigen.hpp"
#include "fes/geometry/ecef.hpp"
#include "fes/geometry/point.hpp"
#include "fes/geometry/triangle.hpp"
#include "fes/mesh/index.hpp"
#include "fes/settings.hpp"
#include "fes/string_view.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "fes/wave.hpp"
#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"

template class fes::AbstractTidalModel<double>;
template class fes::AbstractTidalModel<float>;
template class fes::tidal_model::Cartesian<double>;
template class fes::tidal_model::Cartesian<float>;
template class fes::tidal_model::LGP1<double>;
template class fes::tidal_model::LGP1<float>;
template class fes::tidal_model::LGP2<double>;
template class fes::tidal_model::LGP2<float>;
template class fes::tidal_model::LGP<double, 1>;
template class fes::tidal_model::LGP<float, 1>;
template class fes::tidal_model::LGP<double, 2>;
template class fes::tidal_model::LGP<float, 2>;

template auto fes::evaluate_tide<double>(
    const fes::AbstractTidalModel<double>*, const Eigen::Ref<const Eigen::VectorXd>&,
    const Eigen::Ref<const fes::Vector<uint16_t>>&, const Eigen::Ref<const Eigen::VectorXd>&,
    const Eigen::Ref<const Eigen::VectorXd>&, const fes::Settings&, size_t)
    -> std::tuple<Eigen::VectorXd, Eigen::VectorXd, fes::Vector<fes::Quality>>;
template auto fes::evaluate_tide<float>(
    const fes::AbstractTidalModel<float>*, const Eigen::Ref<const Eigen::VectorXd>&,
    const Eigen::Ref<const fes::Vector<uint16_t>>&, const Eigen::Ref<const Eigen::VectorXd>&,
    const Eigen::Ref<const Eigen::VectorXd>&, const fes::Settings&, size_t)
    -> std::tuple<Eigen::VectorXd, Eigen::VectorXd, fes::Vector<fes::Quality>>;
