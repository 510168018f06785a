// Arguments that do not fit together.
#include <Eigen/Core>
#include <complex>
#include <cstdint>
#include <exception>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "fes/tide.hpp"
#include "fes/wave/table.hpp"
#include "model.hpp"

namespace verif {

using fes::wave::Table;

struct Outcome {
  bool rejected;
};
// What an operation that may be rejected leaves behind.
struct Left {
  bool rejected;
  int64_t waves;
};

inline Eigen::VectorXd reals(int64_t n) {
  Eigen::VectorXd v(n);
  return v;
}
inline fes::Vector<uint16_t> counts(int64_t n) {
  fes::Vector<uint16_t> v(n);
  return v;
}
inline Eigen::VectorXcd complexes(int64_t n) {
  Eigen::VectorXcd v(n);
  return v;
}
inline Table table(int kind) {
  return kind == 0
             ? Table()
             : Table(std::vector<fes::Constituent>{fes::kM2, fes::kK1});
}

// Arrays of dates, leap seconds, longitudes and latitudes.
Outcome probe_tides(int64_t n0, int64_t n1, int64_t n2, int64_t n3,
                    int threads) {
  Model model(fes::kTide);
  model.add_constituent(fes::kM2, fes::Vector<std::complex<double>>(1));
  const auto epoch = reals(n0);
  const auto leap = counts(n1);
  const auto lon = reals(n2);
  const auto lat = reals(n3);
  fes::evaluate_tide<double>(&model, epoch, leap, lon, lat, fes::Settings(),
                             threads);
  return Outcome{false};
}
Outcome ref_tides(int64_t n0, int64_t n1, int64_t n2, int64_t n3, int) {
  if (n0 != n1 || n0 != n2 || n0 != n3) {
    throw 1;
  }
  return Outcome{false};
}

Outcome probe_series(int kind, int64_t n0, int64_t n1, int64_t n2) {
  const Table t = table(kind);
  const auto epoch = reals(n0);
  const auto leap = counts(n1);
  const auto wave = complexes(n2);
  t.tide_from_tide_series(epoch, leap, wave, fes::angle::Formulae::kMeeus);
  return Outcome{false};
}
Outcome ref_series(int kind, int64_t n0, int64_t n1, int64_t n2) {
  if (n0 != n1 || n2 != (kind == 0 ? 75 : 2)) {
    throw 1;
  }
  return Outcome{false};
}

Outcome probe_mapping(int kind, int64_t rows, int64_t cols, int threads) {
  const Table t = table(kind);
  Eigen::MatrixXcd wave(rows, cols);
  t.tide_from_mapping(0.0, 0, wave, fes::angle::Formulae::kMeeus, threads);
  return Outcome{false};
}
Outcome ref_mapping(int kind, int64_t rows, int64_t, int) {
  if (rows != (kind == 0 ? 75 : 2)) {
    throw 1;
  }
  return Outcome{false};
}

Outcome probe_modulations(int kind, int64_t n0, int64_t n1) {
  const Table t = table(kind);
  const auto epoch = reals(n0);
  const auto leap = counts(n1);
  t.compute_nodal_modulations(epoch, leap, fes::angle::Formulae::kMeeus);
  return Outcome{false};
}
Outcome ref_modulations(int, int64_t n0, int64_t n1) {
  if (n0 != n1) {
    throw 1;
  }
  return Outcome{false};
}

// Heights, nodal factors and phases of an analysis.
Outcome probe_analysis(int64_t n, int64_t rows0, int64_t cols0, int64_t rows1,
                       int64_t cols1) {
  Eigen::MatrixXd f(rows0, cols0);
  Eigen::MatrixXd vu(rows1, cols1);
  const auto h = reals(n);
  Table::harmonic_analysis(h, f, vu);
  return Outcome{false};
}
Outcome ref_analysis(int64_t n, int64_t rows0, int64_t cols0, int64_t rows1,
                     int64_t cols1) {
  if (rows0 != rows1 || cols0 != cols1 || cols0 != n) {
    throw 1;
  }
  return Outcome{false};
}

// Values of a constituent of a gridded model.
template <typename T>
Left grid(int64_t nx, int64_t ny, int64_t n, bool known) {
  fes::tidal_model::Cartesian<T> model(fes::Axis(false, true, 0.0, nx, 1.0),
                                       fes::Axis(false, true, 0.0, ny, 1.0),
                                       fes::kTide, true);
  fes::Vector<std::complex<T>> data(n);
  bool rejected = false;
  try {
    if (known) {
      model.add_constituent(fes::kM2, data);
    } else {
      static_cast<fes::AbstractTidalModel<T>&>(model).add_constituent(
          std::string("M2"), data);
    }
  } catch (const std::exception&) {
    rejected = true;
  }
  return Left{rejected, static_cast<int64_t>(model.size())};
}
Left probe_grid_double(int64_t nx, int64_t ny, int64_t n, int known) {
  return grid<double>(nx, ny, n, known != 0);
}
Left probe_grid_float(int64_t nx, int64_t ny, int64_t n, int known) {
  return grid<float>(nx, ny, n, known != 0);
}
Left ref_grid_double(int64_t nx, int64_t ny, int64_t n, int) {
  return n == nx * ny ? Left{false, 1} : Left{true, 0};
}
Left ref_grid_float(int64_t nx, int64_t ny, int64_t n, int) {
  return ref_grid_double(nx, ny, n, 0);
}

// Triangles of a finite element model: as many as the mesh has, codes not
// negative, as many values as codes.
inline std::shared_ptr<fes::mesh::Index> mesh() {
  Eigen::VectorXd lon(4);
  Eigen::VectorXd lat(4);
  Eigen::Matrix<int32_t, Eigen::Dynamic, 3> triangles(2, 3);
  lon << 0, 1, 0, 1;
  lat << 0, 0, 1, 1;
  triangles << 0, 1, 2, 1, 3, 2;
  return std::make_shared<fes::mesh::Index>(lon, lat, triangles);
}
template <typename M, typename T, int N>
Left elements(int64_t rows, int64_t n, const std::vector<int>& code) {
  typename M::codes_t codes(rows, 3 * N);
  for (int64_t t = 0; t < rows; ++t) {
    for (int i = 0; i < 3 * N; ++i) {
      codes(t, i) = code[t * 3 * N + i];
    }
  }
  M model(mesh(), codes, fes::kTide, 0.0);
  bool rejected = false;
  try {
    model.add_constituent(fes::kM2, fes::Vector<std::complex<T>>(n));
  } catch (const std::exception&) {
    rejected = true;
  }
  return Left{rejected, static_cast<int64_t>(model.size())};
}
inline Left expected(int64_t rows, int64_t n, const std::vector<int>& code,
                     int width) {
  if (rows != 2) {
    throw 1;
  }
  int64_t last = code[0];
  for (int64_t i = 0; i < rows * width; ++i) {
    if (code[i] < 0 || code[i] == std::numeric_limits<int>::max()) {
      throw 1;
    }
    if (code[i] > last) {
      last = code[i];
    }
  }
  return n == last + 1 ? Left{false, 1} : Left{true, 0};
}
#define ELEMENTS(NAME, M, T, N)                                              \
  Left probe_##NAME(int64_t rows, int64_t n, const std::vector<int>& code) { \
    return elements<fes::tidal_model::M<T>, T, N>(rows, n, code);            \
  }                                                                          \
  Left ref_##NAME(int64_t rows, int64_t n, const std::vector<int>& code) {   \
    return expected(rows, n, code, 3 * N);                                   \
  }
ELEMENTS(lgp1_double, LGP1, double, 1)
ELEMENTS(lgp2_double, LGP2, double, 2)
ELEMENTS(lgp1_float, LGP1, float, 1)
ELEMENTS(lgp2_float, LGP2, float, 2)

// Vertices and triangles of a mesh.
Outcome probe_mesh(int64_t nlon, int64_t nlat, int64_t rows,
                   const std::vector<int>& vertex) {
  Eigen::Matrix<int32_t, Eigen::Dynamic, 3> triangles(rows, 3);
  for (int64_t t = 0; t < rows; ++t) {
    for (int i = 0; i < 3; ++i) {
      triangles(t, i) = vertex[t * 3 + i];
    }
  }
  const fes::mesh::Index index(reals(nlon), reals(nlat), triangles);
  return Outcome{false};
}
Outcome ref_mesh(int64_t nlon, int64_t nlat, int64_t rows,
                 const std::vector<int>& vertex) {
  if (nlon != nlat || rows == 0) {
    throw 1;
  }
  for (int64_t i = 0; i < rows * 3; ++i) {
    if (vertex[i] < 0 || vertex[i] >= nlon) {
      throw 1;
    }
  }
  return Outcome{false};
}

// Positions in a table.
Outcome probe_position(int kind, uint64_t index) {
  const Table t = table(kind);
  const auto& w = t[static_cast<size_t>(index)];
  (void)w;
  return Outcome{false};
}
Outcome ref_position(int kind, uint64_t index) {
  if (index >= (kind == 0 ? 75 : 2)) {
    throw 1;
  }
  return Outcome{false};
}

// Formulae.
Outcome probe_formulae(int formulae) {
  fes::angle::Astronomic a(static_cast<fes::angle::Formulae>(formulae));
  return Outcome{false};
}
Outcome ref_formulae(int formulae) {
  if (formulae < 0 || formulae > 2) {
    throw 1;
  }
  return Outcome{false};
}

// Names of no constituent.
inline std::string name(int kind) {
  return kind == 0 ? "M2" : kind == 1 ? "" : kind == 2 ? "M2 " : "XX9";
}
Outcome probe_name(int kind) {
  const Table t(std::vector<std::string>{"K1", name(kind)});
  return Outcome{false};
}
Outcome ref_name(int kind) {
  if (kind != 0) {
    throw 1;
  }
  return Outcome{false};
}
Left probe_added(int kind) {
  Model model(fes::kTide);
  bool rejected = false;
  try {
    static_cast<fes::AbstractTidalModel<double>&>(model).add_constituent(
        name(kind), fes::Vector<std::complex<double>>(1));
  } catch (const std::exception&) {
    rejected = true;
  }
  return Left{rejected, static_cast<int64_t>(model.size())};
}
Left ref_added(int kind) { return Left{kind != 0, kind == 0 ? 1 : 0}; }

// Constituents of a model read into a table that lacks them.
Outcome probe_absent(int present) {
  Model model(fes::kTide);
  model.add_constituent(fes::kM2, fes::Vector<std::complex<double>>(1));
  Table t(std::vector<fes::Constituent>{present != 0 ? fes::kM2 : fes::kS2});
  std::unique_ptr<fes::Accelerator> acc(
      model.accelerator(fes::angle::Formulae::kMeeus, 0.0));
  model.fes::AbstractTidalModel<double>::interpolate(
      fes::geometry::Point(0, 0), t, acc.get());
  return Outcome{false};
}
Outcome ref_absent(int present) {
  if (present == 0) {
    throw 1;
  }
  return Outcome{false};
}

}  // namespace verif
