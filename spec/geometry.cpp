// Points and triangles.
#include <cmath>
#include <tuple>

#include "fes/geometry/ecef.hpp"
#include "fes/geometry/point.hpp"
#include "fes/geometry/triangle.hpp"

namespace verif {

using fes::geometry::Point;
using fes::geometry::Triangle;

struct Ecef {
  double x, y, z;
};

// WGS84
Ecef probe_ecef(double lon, double lat) {
  const auto p =
      static_cast<fes::geometry::EarthCenteredEarthFixed>(Point(lon, lat));
  return Ecef{p.x(), p.y(), p.z()};
}
Ecef ref_ecef(double lon, double lat) {
  const double a = 6378137.0;
  const double e2 = 0.0066943799901413165;
  const double l = lon * std::atan2(0.0, -1.0) / 180.0;
  const double b = lat * std::atan2(0.0, -1.0) / 180.0;
  const double n = a / std::sqrt(1.0 - e2 * std::sin(b) * std::sin(b));
  return Ecef{n * std::cos(b) * std::cos(l), n * std::cos(b) * std::sin(l),
              n * (1.0 - e2) * std::sin(b)};
}

struct Reference {
  double x, y;
};

// A triangle and a point of the plane, each moved by whole turns.
Reference probe_reference(double x1, double y1, double x2, double y2,
                          double x3, double y3, double x, double y, double k1,
                          double k2, double k3, double k) {
  const Triangle t(Point(x1 + 360.0 * k1, y1), Point(x2 + 360.0 * k2, y2),
                   Point(x3 + 360.0 * k3, y3));
  const auto r = t.reference_right_angled(Point(x + 360.0 * k, y));
  return Reference{std::get<0>(r), std::get<1>(r)};
}
// The coordinates (u, v) of the reference triangle are those for which
// P = (1 - u - v) V1 + u V2 + v V3.
Reference ref_reference(double x1, double y1, double x2, double y2, double x3,
                        double y3, double x, double y, double, double, double,
                        double) {
  const double det = (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1);
  return Reference{((x - x1) * (y3 - y1) - (x3 - x1) * (y - y1)) / det,
                   ((x2 - x1) * (y - y1) - (x - x1) * (y2 - y1)) / det};
}

// Flat triangles have no reference coordinates.
Reference probe_flat(double x1, double y1, double dx, double dy, double s,
                     double t, double x, double y) {
  const Triangle f(Point(x1, y1), Point(x1 + s * dx, y1 + s * dy),
                   Point(x1 + t * dx, y1 + t * dy));
  const auto r = f.reference_right_angled(Point(x, y));
  return Reference{std::get<0>(r), std::get<1>(r)};
}
Reference ref_flat(double, double, double, double, double, double, double,
                   double) {
  return Reference{0.0, 0.0};
}

struct Vertices {
  double x1, y1, x2, y2, x3, y3, x4, y4;
};
inline Vertices vertices(const Triangle& t) {
  return Vertices{t.v1().lon(), t.v1().lat(), t.v2().lon(), t.v2().lat(),
                  t.v3().lon(), t.v3().lat(), t.outer()[3].lon(),
                  t.outer()[3].lat()};
}
Vertices probe_vertices(double x1, double y1, double x2, double y2, double x3,
                        double y3) {
  return vertices(Triangle(Point(x1, y1), Point(x2, y2), Point(x3, y3)));
}
Vertices ref_vertices(double x1, double y1, double x2, double y2, double x3,
                      double y3) {
  return Vertices{x1, y1, x2, y2, x3, y3, x1, y1};
}
// Vertex n becomes (x, y).
Vertices probe_replaced(double x1, double y1, double x2, double y2, double x3,
                        double y3, int n, double x, double y) {
  Triangle t(Point(x1, y1), Point(x2, y2), Point(x3, y3));
  if (n == 1) {
    t.v1(Point(x, y));
  } else if (n == 2) {
    t.v2(Point(x, y));
  } else {
    t.v3(Point(x, y));
  }
  return vertices(t);
}
Vertices ref_replaced(double x1, double y1, double x2, double y2, double x3,
                      double y3, int n, double x, double y) {
  return n == 1   ? Vertices{x, y, x2, y2, x3, y3, x, y}
         : n == 2 ? Vertices{x1, y1, x, y, x3, y3, x1, y1}
                  : Vertices{x1, y1, x2, y2, x, y, x1, y1};
}

struct Number {
  int value;
};
bool same(double x1, double y1, double x2, double y2);

// The comparison of points is Boost.Geometry's.
Number probe_vertex(double x1, double y1, double x2, double y2, double x3,
                    double y3, double x, double y) {
  return Number{Triangle(Point(x1, y1), Point(x2, y2), Point(x3, y3))
                    .is_vertex(Point(x, y))};
}
Number ref_vertex(double x1, double y1, double x2, double y2, double x3,
                  double y3, double x, double y) {
  return Number{same(x, y, x1, y1)   ? 0
                : same(x, y, x2, y2) ? 1
                : same(x, y, x3, y3) ? 2
                                     : -1};
}

struct Angle {
  double value;
};
Angle probe_normalized(double x, double min) {
  return Angle{fes::detail::math::normalize_angle(x, min)};
}
Angle ref_normalized(double x, double min) {
  return Angle{x - 360.0 * std::floor((x - min) / 360.0)};
}
Angle probe_longitude(double x) {
  return Angle{fes::detail::math::normalize_angle(x)};
}
Angle ref_longitude(double x) {
  return Angle{x - 360.0 * std::floor((x + 180.0) / 360.0)};
}

}  // namespace verif
