// Search of the triangle of a mesh for a point.
#include <Eigen/Core>
#include <cmath>
#include <cstdint>
#include <limits>

#include "fes/detail/math.hpp"
#include "fes/mesh/index.hpp"
#include "keep.hpp"

namespace verif {

// Geometry of a triangle and a point: any function.
bool covers(double x, double y, double x1, double y1, double x2, double y2,
            double x3, double y3);
double tri_distance(double x, double y, double x1, double y1, double x2,
                    double y2, double x3, double y3);
double proj_x(double x, double y, double x1, double y1, double x2, double y2,
              double x3, double y3);
double proj_y(double x, double y, double x1, double y1, double x2, double y2,
              double x3, double y3);
// Length of the line between two points.
double straight(double ax, double ay, double az, double bx, double by,
                double bz);

struct Found {
  int inside, index;
  double x, y, x1, y1, x2, y2, x3, y3;
};

constexpr int kVertices = 5;

// Three triangles sharing vertices, or two without any common vertex.
inline int vertex(int mesh, int triangle, int i) {
  const int shared[9] = {0, 1, 2, 3, 2, 1, 2, 3, 4};
  const int single[3] = {4, 0, 2};
  return mesh == 0 ? shared[3 * triangle + i] : single[i];
}
inline int triangles(int mesh) { return mesh == 0 ? 3 : 1; }

Found probe_search(int mesh, double lon0, double lon1, double lon2,
                   double lon3, double lon4, double lat0, double lat1,
                   double lat2, double lat3, double lat4, double x, double y,
                   double max_distance) {
  Eigen::VectorXd lon(kVertices);
  Eigen::VectorXd lat(kVertices);
  lon << lon0, lon1, lon2, lon3, lon4;
  lat << lat0, lat1, lat2, lat3, lat4;
  Eigen::Matrix<int32_t, Eigen::Dynamic, 3> list(triangles(mesh), 3);
  for (int t = 0; t < triangles(mesh); ++t) {
    for (int i = 0; i < 3; ++i) {
      list(t, i) = vertex(mesh, t, i);
    }
  }
  const fes::mesh::Index index(lon, lat, list);
  keep(index);
  const auto r = index.search(fes::geometry::Point(x, y), max_distance);
  finish();
  if (r.index == -1) {
    return Found{r.inside ? 1 : 0, -1, 0, 0, 0, 0, 0, 0, 0, 0};
  }
  return Found{r.inside ? 1 : 0,    r.index,
               r.point.lon(),       r.point.lat(),
               r.triangle.v1().lon(), r.triangle.v1().lat(),
               r.triangle.v2().lon(), r.triangle.v2().lat(),
               r.triangle.v3().lon(), r.triangle.v3().lat()};
}

struct Shape {
  double x1, y1, x2, y2, x3, y3;
};

inline double range(double lon, double lat, double x, double y) {
  const auto a = static_cast<fes::geometry::EarthCenteredEarthFixed>(
      fes::geometry::Point(lon, lat));
  const auto b = static_cast<fes::geometry::EarthCenteredEarthFixed>(
      fes::geometry::Point(x, y));
  return straight(a.x(), a.y(), a.z(), b.x(), b.y(), b.z());
}

Found ref_search(int mesh, double lon0, double lon1, double lon2, double lon3,
                 double lon4, double lat0, double lat1, double lat2,
                 double lat3, double lat4, double x, double y,
                 double max_distance) {
  const double given[kVertices] = {lon0, lon1, lon2, lon3, lon4};
  const double lat[kVertices] = {lat0, lat1, lat2, lat3, lat4};
  double lon[kVertices];
  for (int i = 0; i < kVertices; ++i) {
    lon[i] = given[i] - 360.0 * std::floor((given[i] + 180.0) / 360.0);
  }
  // The first triangle that contains the point.
  double nearest = std::numeric_limits<double>::infinity();
  for (int t = 0; t < triangles(mesh); ++t) {
    const int a = vertex(mesh, t, 0);
    const int b = vertex(mesh, t, 1);
    const int c = vertex(mesh, t, 2);
    if (covers(x, y, lon[a], lat[a], lon[b], lat[b], lon[c], lat[c])) {
      return Found{1,      t,      x,      y,      lon[a],
                   lat[a], lon[b], lat[b], lon[c], lat[c]};
    }
    for (int i = 0; i < 3; ++i) {
      const int k = vertex(mesh, t, i);
      nearest = std::fmin(nearest, range(lon[k], lat[k], x, y));
    }
  }
  // Otherwise the nearest one, if a vertex is near enough (positions are
  // known to a centimetre).
  if (!((nearest < 1e-2 ? 0.0 : nearest) < max_distance)) {
    return Found{0, -1, 0, 0, 0, 0, 0, 0, 0, 0};
  }
  int best = -1;
  double least = 0.0;
  for (int t = 0; t < triangles(mesh); ++t) {
    const int a = vertex(mesh, t, 0);
    const int b = vertex(mesh, t, 1);
    const int c = vertex(mesh, t, 2);
    const double d =
        tri_distance(x, y, lon[a], lat[a], lon[b], lat[b], lon[c], lat[c]);
    if (best == -1 || d < least) {
      best = t;
      least = d;
    }
  }
  const int a = vertex(mesh, best, 0);
  const int b = vertex(mesh, best, 1);
  const int c = vertex(mesh, best, 2);
  return Found{
      0,
      best,
      proj_x(x, y, lon[a], lat[a], lon[b], lat[b], lon[c], lat[c]),
      proj_y(x, y, lon[a], lat[a], lon[b], lat[b], lon[c], lat[c]),
      lon[a],
      lat[a],
      lon[b],
      lat[b],
      lon[c],
      lat[c]};
}

}  // namespace verif
