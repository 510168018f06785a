// Objects restored from their state.
#include <complex>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

#include "fes/axis.hpp"
#include "fes/mesh/index.hpp"
#include "fes/string_view.hpp"
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"

namespace verif {

// A state, altered (kind 0: unchanged).
std::string altered(const std::string& state, int kind, int64_t at,
                    int64_t value);

// Value of a constituent for a code or a node.
double node_re(int ident, int64_t code);
double node_im(int ident, int64_t code);

template <typename Object>
Object restored(const std::string& state) {
  return Object::setstate(fes::string_view(state.data(), state.size()));
}

struct AxisValues {
  int circular, ascending;
  int64_t size;
  double start, step, end, min, max, first, second;
};
inline AxisValues values(const fes::Axis& axis) {
  return AxisValues{axis.is_circular() ? 1 : 0,
                    axis.is_ascending() ? 1 : 0,
                    axis.size(),
                    axis.start(),
                    axis.step(),
                    axis.end(),
                    axis.min_value(),
                    axis.max_value(),
                    axis(0),
                    axis(1)};
}

inline fes::Axis axis(int circular, int ascending, double start, int64_t size,
                      double step) {
  return fes::Axis(circular != 0, ascending != 0, start, size, step);
}

AxisValues probe_axis(int circular, int ascending, double start, int64_t size,
                      double step) {
  const auto a = axis(circular, ascending, start, size, step);
  return values(restored<fes::Axis>(altered(a.getstate(), 0, 0, 0)));
}
AxisValues ref_axis(int circular, int ascending, double start, int64_t size,
                    double step) {
  return values(axis(circular, ascending, start, size, step));
}

// Mesh of two triangles, of which each has a vertex the other does not have.
template <typename Vertex>
fes::mesh::Index mesh(const Vertex& vertex) {
  Eigen::VectorXd lon(4);
  Eigen::VectorXd lat(4);
  Eigen::Matrix<int32_t, Eigen::Dynamic, 3> triangles(2, 3);
  for (int i = 0; i < 4; ++i) {
    lon(i) = vertex[2 * i];
    lat(i) = vertex[2 * i + 1];
  }
  triangles << 0, 1, 2, 3, 2, 1;
  return fes::mesh::Index(lon, lat, triangles);
}

struct MeshValues {
  int64_t positions, triangles;
  double x0, x1, x2, x3, y0, y1, y2, y3;
  int a0, a1, a2, b0, b1, b2;
  int inside, index;
  double x, y;
};
inline MeshValues values(const fes::mesh::Index& m, double x, double y,
                         double d) {
  const auto r = m.search(fes::geometry::Point(x, y), d);
  return MeshValues{static_cast<int64_t>(m.n_positions()),
                    static_cast<int64_t>(m.n_triangles()),
                    m.lon()(0),
                    m.lon()(1),
                    m.lon()(2),
                    m.lon()(3),
                    m.lat()(0),
                    m.lat()(1),
                    m.lat()(2),
                    m.lat()(3),
                    m.triangles()(0, 0),
                    m.triangles()(0, 1),
                    m.triangles()(0, 2),
                    m.triangles()(1, 0),
                    m.triangles()(1, 1),
                    m.triangles()(1, 2),
                    r.inside ? 1 : 0,
                    r.index,
                    r.point.lon(),
                    r.point.lat()};
}

#define VERTICES                                                       \
  double x0, double y0, double x1, double y1, double x2, double y2, \
      double x3, double y3
#define VERTEX \
  const double vertex[8] = {x0, y0, x1, y1, x2, y2, x3, y3}

MeshValues probe_mesh(VERTICES, double x, double y, double d) {
  VERTEX;
  const auto m = mesh(vertex);
  return values(restored<fes::mesh::Index>(altered(m.getstate(), 0, 0, 0)), x,
                y, d);
}
MeshValues ref_mesh(VERTICES, double x, double y, double d) {
  VERTEX;
  return values(mesh(vertex), x, y, d);
}

// What a model gives when it is given another constituent.
struct ModelValues {
  int tide_type;
  int64_t constituents, dynamic;
  int ident0, dynamic0, dynamic1, dynamic2;
  int quality;
  double re0, im0, re1, im1;
};

template <typename T>
fes::Vector<std::complex<T>> wave(int ident, int64_t n) {
  fes::Vector<std::complex<T>> data(n);
  for (int64_t i = 0; i < n; ++i) {
    data(i) = std::complex<T>(node_re(ident, i), node_im(ident, i));
  }
  return data;
}

template <typename T, typename Model>
void fill(Model& model, int64_t n) {
  model.add_constituent(fes::kM2, wave<T>(fes::kM2, n));
  model.dynamic({fes::kS2, fes::kMm, fes::kM2});
}

template <typename T, typename Model>
ModelValues values(Model model, int64_t n, double x, double y) {
  ModelValues r;
  r.tide_type = model.tide_type();
  r.constituents = model.size();
  r.ident0 = model.identifiers()[0];
  r.dynamic = model.dynamic().size();
  r.dynamic0 = model.dynamic()[0];
  r.dynamic1 = model.dynamic()[1];
  r.dynamic2 = model.dynamic()[2];
  model.add_constituent(fes::kO1, wave<T>(fes::kO1, n));
  std::unique_ptr<fes::Accelerator> acc(
      model.accelerator(fes::angle::Formulae::kMeeus, 0.0));
  fes::Quality quality = fes::kUndefined;
  const auto& v =
      model.interpolate(fes::geometry::Point(x, y), quality, acc.get());
  r.quality = quality;
  r.re0 = v[0].second.real();
  r.im0 = v[0].second.imag();
  r.re1 = v[1].second.real();
  r.im1 = v[1].second.imag();
  return r;
}

template <typename T>
fes::tidal_model::Cartesian<T> grid(int row_major, int tide, int circular,
                                    double lon, double dx, double lat,
                                    double dy) {
  fes::tidal_model::Cartesian<T> model(
      axis(circular, dx > 0, lon, 3, dx), axis(0, dy > 0, lat, 2, dy),
      tide == 1 ? fes::kTide : fes::kRadial, row_major != 0);
  fill<T>(model, 6);
  return model;
}

#define GRID                                                            \
  int row_major, int tide, int circular, double lon, double dx, double lat, \
      double dy
#define GRID_ row_major, tide, circular, lon, dx, lat, dy

template <typename T>
ModelValues again_grid(GRID, double x, double y) {
  const auto state = grid<T>(GRID_).getstate();
  return values<T>(
      restored<fes::tidal_model::Cartesian<T>>(altered(state, 0, 0, 0)), 6, x,
      y);
}
ModelValues probe_grid(GRID, double x, double y) {
  return again_grid<double>(GRID_, x, y);
}
ModelValues ref_grid(GRID, double x, double y) {
  return values<double>(grid<double>(GRID_), 6, x, y);
}
ModelValues probe_gridf(GRID, double x, double y) {
  return again_grid<float>(GRID_, x, y);
}
ModelValues ref_gridf(GRID, double x, double y) {
  return values<float>(grid<float>(GRID_), 6, x, y);
}

// Axes of a model, and values of two constituents.
struct Nodes {
  int64_t size;
  double re[12], im[12];
};
struct GridAxes {
  AxisValues x, y;
  Nodes nodes;
};
template <typename Model>
Nodes nodes(const Model& model) {
  Nodes r;
  r.size = 0;
  for (const auto& item : model.data()) {
    for (int64_t i = 0; i < item.second.size(); ++i) {
      r.re[r.size] = item.second(i).real();
      r.im[r.size++] = item.second(i).imag();
    }
  }
  return r;
}
GridAxes probe_axes(GRID) {
  auto model = grid<double>(GRID_);
  model.add_constituent(fes::kO1, wave<double>(fes::kO1, 6));
  const auto again = restored<fes::tidal_model::Cartesian<double>>(
      altered(model.getstate(), 0, 0, 0));
  return GridAxes{values(again.lon()), values(again.lat()), nodes(again)};
}
GridAxes ref_axes(GRID) {
  auto model = grid<double>(GRID_);
  model.add_constituent(fes::kO1, wave<double>(fes::kO1, 6));
  return GridAxes{values(model.lon()), values(model.lat()), nodes(model)};
}

// Model on a mesh: the greatest code is 6.
template <typename Model, typename T, int N>
Model lgp(int tide, double distance) {
  const double vertex[8] = {0, 0, 1, 0, 0, 1, 1, 1};
  typename Model::codes_t codes(2, 3 * N);
  for (int t = 0; t < 2; ++t) {
    for (int i = 0; i < 3 * N; ++i) {
      codes(t, i) = (3 * t + i + 2) % 7;
    }
  }
  Model model(std::make_shared<fes::mesh::Index>(mesh(vertex)), codes,
              tide == 1 ? fes::kTide : fes::kRadial, distance);
  fill<T>(model, 7);
  return model;
}
template <typename Model, typename T, int N>
ModelValues again_lgp(int tide, double distance, double x, double y) {
  const auto state = lgp<Model, T, N>(tide, distance).getstate();
  return values<T>(restored<Model>(altered(state, 0, 0, 0)), 7, x, y);
}

#define LGP_PAIR(NAME, MODEL, T, N)                                         \
  ModelValues probe_##NAME(int tide, double distance, double x, double y) { \
    return again_lgp<fes::tidal_model::MODEL<T>, T, N>(tide, distance, x, y); \
  }                                                                         \
  ModelValues ref_##NAME(int tide, double distance, double x, double y) {   \
    return values<T>(lgp<fes::tidal_model::MODEL<T>, T, N>(tide, distance), \
                     7, x, y);                                              \
  }
LGP_PAIR(lgp1, LGP1, double, 1)
LGP_PAIR(lgp1f, LGP1, float, 1)
LGP_PAIR(lgp2, LGP2, double, 2)
LGP_PAIR(lgp2f, LGP2, float, 2)

// Objects read from a state that has been altered: whether they are sound.
inline int sound(const fes::Axis& a) {
  return a.size_ >= 2 && a.step_ != 0 && std::isfinite(a.step_) &&
         std::isfinite(a.start_) && a.is_ascending_ == (a.step_ > 0);
}
inline int sound(const fes::mesh::Index& m) {
  if (m.lon_.size() != m.lat_.size() || m.triangles_.rows() == 0 ||
      m.triangles_.cols() != 3) {
    return 0;
  }
  for (int64_t t = 0; t < m.triangles_.rows(); ++t) {
    for (int i = 0; i < 3; ++i) {
      if (m.triangles_(t, i) < 0 || m.triangles_(t, i) >= m.lon_.size()) {
        return 0;
      }
    }
  }
  return 1;
}
template <typename T>
int waves(const fes::AbstractTidalModel<T>& m, int64_t n) {
  for (const auto& item : m.data_) {
    const int ident = item.first;
    if (item.second.size() != n || ident < 0 || ident > fes::kMf2) {
      return 0;
    }
  }
  for (const auto& item : m.dynamic_) {
    const int ident = item;
    if (ident < 0 || ident > fes::kMf2) {
      return 0;
    }
  }
  return m.tide_type_ == fes::kTide || m.tide_type_ == fes::kRadial;
}
template <typename T>
int sound(const fes::tidal_model::Cartesian<T>& m) {
  return sound(m.lon_) && sound(m.lat_) &&
         waves(m, m.lon_.size_ * m.lat_.size_);
}
template <typename T, int N>
int sound(const fes::tidal_model::LGP<T, N>& m) {
  if (sound(*m.index_) == 0 || m.codes_.rows() != m.index_->triangles_.rows() ||
      m.codes_.cols() != 3 * N) {
    return 0;
  }
  int64_t last = -1;
  for (int64_t t = 0; t < m.codes_.rows(); ++t) {
    for (int i = 0; i < 3 * N; ++i) {
      const int64_t k = m.codes_(t, i);
      if (k < 0) {
        return 0;
      }
      last = k > last ? k : last;
    }
  }
  return m.expected_data_size_ == last + 1 && waves(m, last + 1);
}

int damaged_axis(int kind, int64_t at, int64_t value) {
  return sound(restored<fes::Axis>(
      altered(axis(0, 1, 10.0, 4, 0.5).getstate(), kind, at, value)));
}
int damaged_mesh(int kind, int64_t at, int64_t value) {
  const double vertex[8] = {0, 0, 1, 0, 0, 1, 1, 1};
  return sound(restored<fes::mesh::Index>(
      altered(mesh(vertex).getstate(), kind, at, value)));
}
int damaged_grid(int kind, int64_t at, int64_t value) {
  const auto model = grid<double>(1, 1, 0, 10.0, 2.0, 5.0, -3.0);
  return sound(restored<fes::tidal_model::Cartesian<double>>(
      altered(model.getstate(), kind, at, value)));
}
int damaged_gridf(int kind, int64_t at, int64_t value) {
  const auto model = grid<float>(1, 1, 0, 10.0, 2.0, 5.0, -3.0);
  return sound(restored<fes::tidal_model::Cartesian<float>>(
      altered(model.getstate(), kind, at, value)));
}
#define LGP_DAMAGED(NAME, MODEL, T, N)                            \
  int damaged_##NAME(int kind, int64_t at, int64_t value) {       \
    return sound(restored<fes::tidal_model::MODEL<T>>(            \
        altered(lgp<fes::tidal_model::MODEL<T>, T, N>(1, 0.0)     \
                    .getstate(),                                  \
                kind, at, value)));                               \
  }
LGP_DAMAGED(lgp1, LGP1, double, 1)
LGP_DAMAGED(lgp1f, LGP1, float, 1)
LGP_DAMAGED(lgp2, LGP2, double, 2)
LGP_DAMAGED(lgp2f, LGP2, float, 2)

}  // namespace verif
