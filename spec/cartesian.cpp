// Gridded models.
#include <cmath>
#include <complex>
#include <cstdint>
#include <limits>
#include <memory>
#include <vector>

#include "fes/tidal_model/cartesian.hpp"
#include "keep.hpp"

namespace verif {

// Value of a constituent at a node: any function, possibly undefined.
double node_re(int ident, int64_t i, int64_t j);
double node_im(int ident, int64_t i, int64_t j);

struct Interpolated {
  int size, first, second, quality;
  double re0, im0, re1, im1;
};

struct Cell {
  bool found;
  int64_t a, b;
  double wa, wb;
};

// Nodes framing a coordinate, and their weights.
inline Cell cell(int circular, double start, double step, int64_t size,
                 double coordinate) {
  if (std::isnan(coordinate)) {
    return Cell{false, 0, 0, 0.0, 0.0};
  }
  double x = coordinate;
  if (circular) {
    const double lowest = step > 0 ? start : start + (size - 1) * step;
    x -= 360.0 * std::floor((x - lowest) / 360.0);
  }
  const double q = (x - start) / step;
  if (q == size - 1) {
    return Cell{true, size - 2, size - 1, 0.0, 1.0};
  }
  if (q > size - 1 && circular) {
    return Cell{true, size - 1, 0, size - q, q - (size - 1)};
  }
  if (q < 0 && circular) {
    return Cell{true, size - 1, 0, -q, 1.0 + q};
  }
  if (q < 0 || q > size - 1) {
    return Cell{false, 0, 0, 0.0, 0.0};
  }
  const int64_t k = static_cast<int64_t>(std::floor(q));
  return Cell{true, k, k + 1, k + 1 - q, q - k};
}

template <typename T>
fes::tidal_model::Cartesian<T> build(int row_major, int circular, double x0,
                                     double dx, int64_t nx, double y0,
                                     double dy, int64_t ny) {
  fes::tidal_model::Cartesian<T> model(
      fes::Axis(circular != 0, dx > 0, x0, nx, dx),
      fes::Axis(false, dy > 0, y0, ny, dy), fes::kTide, row_major != 0);
  const fes::Constituent list[2] = {fes::kM2, fes::kO1};
  for (int c = 0; c < 2; ++c) {
    fes::Vector<std::complex<T>> data(nx * ny);
    for (int64_t i = 0; i < nx; ++i) {
      for (int64_t j = 0; j < ny; ++j) {
        data(row_major != 0 ? i * ny + j : j * nx + i) =
            std::complex<T>(node_re(list[c], i, j), node_im(list[c], i, j));
      }
    }
    model.add_constituent(list[c], data);
  }
  return model;
}

inline Interpolated result(const fes::ConstituentValues& v,
                           fes::Quality quality) {
  return Interpolated{static_cast<int>(v.size()), v[0].first,
                      v[1].first,                 quality,
                      v[0].second.real(),         v[0].second.imag(),
                      v[1].second.real(),         v[1].second.imag()};
}

template <typename T>
Interpolated at(int row_major, int circular, double x0, double dx, int64_t nx,
                double y0, double dy, int64_t ny, double lon, double lat) {
  const auto model = build<T>(row_major, circular, x0, dx, nx, y0, dy, ny);
  std::unique_ptr<fes::Accelerator> acc(
      model.accelerator(fes::angle::Formulae::kMeeus, 0.0));
  fes::Quality quality = fes::kUndefined;
  keep(model);
  const auto& v =
      model.interpolate(fes::geometry::Point(lon, lat), quality, acc.get());
  finish();
  return result(v, quality);
}

// The accelerator has been used for another point.
Interpolated probe_again(int row_major, int circular, double x0, double dx,
                         int64_t nx, double y0, double dy, int64_t ny,
                         double lon0, double lat0, double lon, double lat) {
  const auto model = build<double>(row_major, circular, x0, dx, nx, y0, dy, ny);
  std::unique_ptr<fes::Accelerator> acc(
      model.accelerator(fes::angle::Formulae::kMeeus, 0.0));
  fes::Quality quality = fes::kUndefined;
  model.interpolate(fes::geometry::Point(lon0, lat0), quality, acc.get());
  const auto& v =
      model.interpolate(fes::geometry::Point(lon, lat), quality, acc.get());
  finish();
  return result(v, quality);
}

Interpolated probe_double(int row_major, int circular, double x0, double dx,
                          int64_t nx, double y0, double dy, int64_t ny,
                          double lon, double lat) {
  return at<double>(row_major, circular, x0, dx, nx, y0, dy, ny, lon, lat);
}
Interpolated probe_float(int row_major, int circular, double x0, double dx,
                         int64_t nx, double y0, double dy, int64_t ny,
                         double lon, double lat) {
  return at<float>(row_major, circular, x0, dx, nx, y0, dy, ny, lon, lat);
}

template <typename T>
inline void value(int ident, const Cell& x, const Cell& y, double& re,
                  double& im, int& n) {
  double sum = 0.0;
  double sre = 0.0;
  double sim = 0.0;
  n = 0;
  for (int k = 0; k < 4; ++k) {
    const int64_t i = k < 2 ? x.a : x.b;
    const int64_t j = k % 2 == 0 ? y.a : y.b;
    const double w = (k < 2 ? x.wa : x.wb) * (k % 2 == 0 ? y.wa : y.wb);
    const double zr = static_cast<T>(node_re(ident, i, j));
    const double zi = static_cast<T>(node_im(ident, i, j));
    if (!std::isnan(zr) && !std::isnan(zi)) {
      sre += w * zr;
      sim += w * zi;
      sum += w;
      ++n;
    }
  }
  if (sum > 0.0) {
    re = sre / sum;
    im = sim / sum;
  } else {
    // No usable node, or only nodes without weight.
    n = 0;
    re = std::numeric_limits<double>::quiet_NaN();
    im = std::numeric_limits<double>::quiet_NaN();
  }
}

template <typename T>
Interpolated expected(int circular, double x0, double dx, int64_t nx,
                        double y0, double dy, int64_t ny, double lon,
                        double lat) {
  const Cell x = cell(circular, x0, dx, nx, lon);
  const Cell y = cell(0, y0, dy, ny, lat);
  if (!x.found || !y.found) {
    const double nan = std::numeric_limits<double>::quiet_NaN();
    return Interpolated{2, fes::kO1, fes::kM2, 0, nan, nan, nan, nan};
  }
  double re0, im0, re1, im1;
  int n;
  value<T>(fes::kO1, x, y, re0, im0, n);
  value<T>(fes::kM2, x, y, re1, im1, n);
  return Interpolated{2, fes::kO1, fes::kM2, n, re0, im0, re1, im1};
}
Interpolated ref_double(int, int circular, double x0, double dx, int64_t nx,
                        double y0, double dy, int64_t ny, double lon,
                        double lat) {
  return expected<double>(circular, x0, dx, nx, y0, dy, ny, lon, lat);
}
Interpolated ref_float(int, int circular, double x0, double dx, int64_t nx,
                       double y0, double dy, int64_t ny, double lon,
                       double lat) {
  return expected<float>(circular, x0, dx, nx, y0, dy, ny, lon, lat);
}

Interpolated ref_again(int, int circular, double x0, double dx, int64_t nx,
                       double y0, double dy, int64_t ny, double, double,
                       double lon, double lat) {
  return expected<double>(circular, x0, dx, nx, y0, dy, ny, lon, lat);
}

}  // namespace verif
