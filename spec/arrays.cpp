// Evaluations over arrays.
#include <Eigen/Core>
#include <complex>
#include <string>
#include <tuple>
#include <vector>

#include "fes/tide.hpp"
#include "fes/wave/table.hpp"
#include "keep.hpp"
#include "model.hpp"

namespace verif {

using fes::wave::Table;

double wave_re(int wave, int point);
double wave_im(int wave, int point);

constexpr int kMost = 3;
struct Inputs {
  int64_t n;
  double epoch[kMost], lon[kMost], lat[kMost];
  int leap[kMost];
};
struct Values {
  int64_t rows, cols;
  std::vector<double> list;
};
struct Tides {
  int64_t size, sizes;
  std::vector<double> h, lp;
  std::vector<int> quality;
};

inline void configure(Model& model, std::vector<Constituent>& exclude) {
  for (const auto ident : {fes::kMm, fes::kO1, fes::kM2, fes::kS2, fes::kK1}) {
    model.add_constituent(ident, fes::Vector<std::complex<double>>(1));
  }
  exclude.push_back(fes::kS2);
  model.dynamic({fes::kN2});
}

inline Tides tides(const Inputs& in, int threads,
                   fes::angle::Formulae formulae) {
  Model model(fes::kTide);
  std::vector<Constituent> exclude;
  configure(model, exclude);
  Eigen::VectorXd epoch(in.n), lon(in.n), lat(in.n);
  fes::Vector<uint16_t> leap(in.n);
  for (int64_t i = 0; i < in.n; ++i) {
    epoch(i) = in.epoch[i];
    lon(i) = in.lon[i];
    lat(i) = in.lat[i];
    leap(i) = static_cast<uint16_t>(in.leap[i]);
  }
  const fes::Settings settings(formulae, 0.0, exclude);
  keep(model, epoch, leap, lon, lat, settings, exclude);
  const auto r = fes::evaluate_tide<double>(&model, epoch, leap, lon, lat,
                                            settings, threads);
  finish();
  Tides out;
  out.size = std::get<0>(r).size();
  out.sizes = std::get<1>(r).size() * 1000 + std::get<2>(r).size();
  for (int64_t i = 0; i < in.n; ++i) {
    out.h.push_back(std::get<0>(r)(i));
    out.lp.push_back(std::get<1>(r)(i));
    out.quality.push_back(std::get<2>(r)(i));
  }
  return out;
}

#define POINTS                                                          \
  double epoch0, double epoch1, double epoch2, int leap0, int leap1,     \
      int leap2, double lon0, double lon1, double lon2, double lat0,     \
      double lat1, double lat2
#define INPUTS(N)                                                        \
  Inputs {                                                               \
    N, {epoch0, epoch1, epoch2}, {lon0, lon1, lon2}, {lat0, lat1, lat2}, \
    {                                                                    \
      leap0, leap1, leap2                                                \
    }                                                                    \
  }
inline Inputs only(const Inputs& in, int64_t i) {
  Inputs out = in;
  out.n = 1;
  out.epoch[0] = in.epoch[i];
  out.leap[0] = in.leap[i];
  out.lon[0] = in.lon[i];
  out.lat[0] = in.lat[i];
  return out;
}

Tides probe_tides(int n, int threads, fes::angle::Formulae formulae,
                  POINTS) {
  const auto in = INPUTS(n);
  return tides(in, threads, formulae);
}
// Each element is what it is alone.
Tides ref_tides(int n, int threads, fes::angle::Formulae formulae,
                POINTS) {
  const auto in = INPUTS(n);
  Tides out;
  out.size = n;
  out.sizes = n * 1000 + n;
  for (int i = 0; i < n; ++i) {
    const auto one = tides(only(in, i), 1, formulae);
    out.h.push_back(one.h[0]);
    out.lp.push_back(one.lp[0]);
    out.quality.push_back(one.quality[0]);
  }
  return out;
}

inline Values matrix(const Eigen::MatrixXd& m) {
  Values r;
  r.rows = m.rows();
  r.cols = m.cols();
  for (int64_t i = 0; i < r.rows; ++i) {
    for (int64_t j = 0; j < r.cols; ++j) {
      r.list.push_back(m(i, j));
    }
  }
  return r;
}
inline Values values(const Eigen::VectorXd& m) {
  Values r;
  r.rows = m.size();
  r.cols = 1;
  for (int64_t i = 0; i < r.rows; ++i) {
    r.list.push_back(m(i));
  }
  return r;
}
inline Table table() {
  return Table(std::vector<std::string>{"K1", "M2", "Mm", "L2"});
}
inline Eigen::VectorXd dates(const Inputs& in) {
  Eigen::VectorXd epoch(in.n);
  for (int64_t i = 0; i < in.n; ++i) {
    epoch(i) = in.epoch[i];
  }
  return epoch;
}
inline fes::Vector<uint16_t> leaps(const Inputs& in) {
  fes::Vector<uint16_t> leap(in.n);
  for (int64_t i = 0; i < in.n; ++i) {
    leap(i) = static_cast<uint16_t>(in.leap[i]);
  }
  return leap;
}

// Waves at points first, first + 1...
inline Values mapped(int first, int points, int threads,
                     fes::angle::Formulae formulae, double epoch, int leap) {
  const Table t = table();
  Eigen::MatrixXcd wave(4, points);
  for (int i = 0; i < 4; ++i) {
    for (int j = 0; j < points; ++j) {
      wave(i, j) =
          std::complex<double>(wave_re(i, first + j), wave_im(i, first + j));
    }
  }
  keep(t, wave);
  const Eigen::MatrixXd r = t.tide_from_mapping(
      epoch, static_cast<uint16_t>(leap), wave, formulae, threads);
  finish();
  return matrix(r);
}
Values probe_mapping(int n, int threads, fes::angle::Formulae formulae,
                     double epoch, int leap) {
  return mapped(0, n, threads, formulae, epoch, leap);
}
Values ref_mapping(int n, int threads, fes::angle::Formulae formulae,
                   double epoch, int leap) {
  Values out;
  out.rows = n;
  out.cols = 4;
  for (int j = 0; j < n; ++j) {
    const auto one = mapped(j, 1, 1, formulae, epoch, leap);
    for (int i = 0; i < 4; ++i) {
      out.list.push_back(one.list[i]);
    }
  }
  return out;
}

inline Values series(const Inputs& in, fes::angle::Formulae formulae) {
  const Table t = table();
  Eigen::VectorXcd wave(4);
  for (int i = 0; i < 4; ++i) {
    wave(i) = std::complex<double>(wave_re(i, 0), wave_im(i, 0));
  }
  const auto epoch = dates(in);
  const auto leap = leaps(in);
  keep(t, epoch, leap, wave);
  const Eigen::VectorXd r = t.tide_from_tide_series(epoch, leap, wave, formulae);
  finish();
  return values(r);
}
Values probe_series(int n, fes::angle::Formulae formulae, POINTS) {
  const auto in = INPUTS(n);
  return series(in, formulae);
}
Values ref_series(int n, fes::angle::Formulae formulae, POINTS) {
  const auto in = INPUTS(n);
  Values out;
  out.rows = n;
  out.cols = 1;
  for (int j = 0; j < n; ++j) {
    out.list.push_back(series(only(in, j), formulae).list[0]);
  }
  return out;
}

inline Values modulations(const Inputs& in, fes::angle::Formulae formulae,
                          int which) {
  const Table t = table();
  const auto epoch = dates(in);
  const auto leap = leaps(in);
  keep(t, epoch, leap);
  const auto r = t.compute_nodal_modulations(epoch, leap, formulae);
  finish();
  return which == 0 ? matrix(std::get<0>(r)) : matrix(std::get<1>(r));
}
Values probe_modulations(int n, int which, fes::angle::Formulae formulae,
                         POINTS) {
  const auto in = INPUTS(n);
  return modulations(in, formulae, which);
}
Values ref_modulations(int n, int which, fes::angle::Formulae formulae,
                       POINTS) {
  const auto in = INPUTS(n);
  Values out;
  out.rows = 4;
  out.cols = n;
  Values one[kMost];
  for (int j = 0; j < n; ++j) {
    one[j] = modulations(only(in, j), formulae, which);
  }
  for (int i = 0; i < 4; ++i) {
    for (int j = 0; j < n; ++j) {
      out.list.push_back(one[j].list[i]);
    }
  }
  return out;
}

}  // namespace verif
