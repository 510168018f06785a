// Finite element models.
#include <cmath>
#include <complex>
#include <cstdint>
#include <limits>
#include <memory>

#include "fes/tidal_model/lgp.hpp"
#include "keep.hpp"

namespace verif {

// Value of a constituent for a code.
double node_re(int ident, int64_t code);
double node_im(int ident, int64_t code);
// Codes of the triangles.
int code(int64_t triangle, int i);
// What the search of the mesh gives for a point: triangle (-1 if there is
// none), whether it contains the point, the point or its projection.
int index_of(double x, double y, double max_distance);
int inside_of(double x, double y, double max_distance);
double proj_x(double x, double y, double max_distance);
double proj_y(double x, double y, double max_distance);
// Geometry of a triangle: vertex on which a point lies, coordinates of the
// point in the reference triangle, inclusion.
int vertex_of(int triangle, double x, double y);
double xi_of(int triangle, double x, double y);
double eta_of(int triangle, double x, double y);
bool covers(int triangle, double x, double y);

struct Interpolated {
  int size, first, second, quality;
  double re0, im0, re1, im1;
};

constexpr int kTriangles = 2;

template <typename Model, typename T, int N>
Model build(int n, double max_distance) {
  Eigen::VectorXd lon(4);
  Eigen::VectorXd lat(4);
  Eigen::Matrix<int32_t, Eigen::Dynamic, 3> triangles(kTriangles, 3);
  lon << 0, 1, 0, 1;
  lat << 0, 0, 1, 1;
  triangles << 0, 1, 2, 1, 3, 2;
  auto index = std::make_shared<fes::mesh::Index>(lon, lat, triangles);
  typename Model::codes_t codes(kTriangles, 3 * N);
  for (int t = 0; t < kTriangles; ++t) {
    for (int i = 0; i < 3 * N; ++i) {
      codes(t, i) = code(t, i);
    }
  }
  Model model(index, codes, fes::kTide, max_distance);
  const fes::Constituent list[2] = {fes::kM2, fes::kO1};
  for (int c = 0; c < 2; ++c) {
    fes::Vector<std::complex<T>> data(n);
    for (int i = 0; i < n; ++i) {
      data(i) = std::complex<T>(node_re(list[c], i), node_im(list[c], i));
    }
    model.add_constituent(list[c], data);
  }
  return model;
}

inline Interpolated result(const fes::ConstituentValues& v,
                           fes::Quality quality) {
  return Interpolated{static_cast<int>(v.size()), v[0].first,
                      v[1].first,                 quality,
                      v[0].second.real(),         v[0].second.imag(),
                      v[1].second.real(),         v[1].second.imag()};
}

template <typename Model, typename T, int N>
Interpolated once(int n, double max_distance, double x, double y) {
  const auto model = build<Model, T, N>(n, max_distance);
  std::unique_ptr<fes::Accelerator> acc(
      model.accelerator(fes::angle::Formulae::kMeeus, 0.0));
  fes::Quality quality = fes::kUndefined;
  keep(model);
  const auto& v =
      model.interpolate(fes::geometry::Point(x, y), quality, acc.get());
  finish();
  return result(v, quality);
}

// The accelerator has been used for another point.
template <typename Model, typename T, int N>
Interpolated again(int n, double max_distance, double x0, double y0, double x,
                   double y) {
  const auto model = build<Model, T, N>(n, max_distance);
  std::unique_ptr<fes::Accelerator> acc(
      model.accelerator(fes::angle::Formulae::kMeeus, 0.0));
  fes::Quality quality = fes::kUndefined;
  model.interpolate(fes::geometry::Point(x0, y0), quality, acc.get());
  const auto& v =
      model.interpolate(fes::geometry::Point(x, y), quality, acc.get());
  finish();
  return result(v, quality);
}

using Double1 = fes::tidal_model::LGP1<double>;
using Double2 = fes::tidal_model::LGP2<double>;
using Float1 = fes::tidal_model::LGP1<float>;
using Float2 = fes::tidal_model::LGP2<float>;

Interpolated probe_double1(int n, double max_distance, double x, double y) {
  return once<Double1, double, 1>(n, max_distance, x, y);
}
Interpolated probe_double2(int n, double max_distance, double x, double y) {
  return once<Double2, double, 2>(n, max_distance, x, y);
}
Interpolated probe_float1(int n, double max_distance, double x, double y) {
  return once<Float1, float, 1>(n, max_distance, x, y);
}
Interpolated probe_float2(int n, double max_distance, double x, double y) {
  return once<Float2, float, 2>(n, max_distance, x, y);
}
Interpolated probe_again1(int n, double max_distance, double x0, double y0,
                          double x, double y) {
  return again<Double1, double, 1>(n, max_distance, x0, y0, x, y);
}
Interpolated probe_again2(int n, double max_distance, double x0, double y0,
                          double x, double y) {
  return again<Double2, double, 2>(n, max_distance, x0, y0, x, y);
}

// Lagrange polynomials of the reference triangle: value of the function
// attached to node i.  The nodes of first order elements are the vertices
// (0, 0), (1, 0), (0, 1); those of second order elements are, in turn, a
// vertex and the middle of the edge that follows it.
template <int N>
inline double basis(int i, double x, double y) {
  const double b0 = 1.0 - x - y;
  if (N == 1) {
    return i == 0 ? b0 : i == 1 ? x : y;
  }
  switch (i) {
    case 0:
      return b0 * (2.0 * b0 - 1.0);
    case 1:
      return 4.0 * b0 * x;
    case 2:
      return x * (2.0 * x - 1.0);
    case 3:
      return 4.0 * x * y;
    case 4:
      return y * (2.0 * y - 1.0);
    default:
      return 4.0 * y * b0;
  }
}

template <typename T, int N>
inline void value(int ident, int triangle, double x, double y, double& re,
                  double& im, int& quality) {
  if (triangle == -1) {
    re = im = std::numeric_limits<double>::quiet_NaN();
    quality = fes::kUndefined;
    return;
  }
  const int vertex = vertex_of(triangle, x, y);
  if (vertex != -1) {
    re = static_cast<T>(node_re(ident, code(triangle, vertex * N)));
    im = static_cast<T>(node_im(ident, code(triangle, vertex * N)));
    quality = fes::kExtrapolated1;
    return;
  }
  const double xi = xi_of(triangle, x, y);
  const double eta = eta_of(triangle, x, y);
  re = im = 0.0;
  for (int i = 0; i < 3 * N; ++i) {
    const double b = basis<N>(i, xi, eta);
    re += b * static_cast<T>(node_re(ident, code(triangle, i)));
    im += b * static_cast<T>(node_im(ident, code(triangle, i)));
  }
  quality = fes::kInterpolated;
}

template <typename T, int N>
inline Interpolated in(int triangle, double x, double y) {
  double re0, im0, re1, im1;
  int quality;
  value<T, N>(fes::kO1, triangle, x, y, re0, im0, quality);
  value<T, N>(fes::kM2, triangle, x, y, re1, im1, quality);
  return Interpolated{2,   fes::kO1, fes::kM2, quality,
                      re0, im0,      re1,      im1};
}

template <typename T, int N>
inline Interpolated expected(double d, double x, double y) {
  return in<T, N>(index_of(x, y, d), proj_x(x, y, d), proj_y(x, y, d));
}

Interpolated ref_double1(int, double d, double x, double y) {
  return expected<double, 1>(d, x, y);
}
Interpolated ref_double2(int, double d, double x, double y) {
  return expected<double, 2>(d, x, y);
}
Interpolated ref_float1(int, double d, double x, double y) {
  return expected<float, 1>(d, x, y);
}
Interpolated ref_float2(int, double d, double x, double y) {
  return expected<float, 2>(d, x, y);
}
// The triangle found for the previous point serves again only if it contains
// both points.
template <typename T, int N>
inline Interpolated reused(double d, double x0, double y0, double x,
                           double y) {
  const int t = index_of(x0, y0, d);
  if (t != -1 && inside_of(x0, y0, d) && covers(t, x, y)) {
    return in<T, N>(t, x, y);
  }
  return expected<T, N>(d, x, y);
}
Interpolated ref_again1(int, double d, double x0, double y0, double x,
                        double y) {
  return reused<double, 1>(d, x0, y0, x, y);
}
Interpolated ref_again2(int, double d, double x0, double y0, double x,
                        double y) {
  return reused<double, 2>(d, x0, y0, x, y);
}

}  // namespace verif
