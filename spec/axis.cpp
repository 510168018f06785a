// Regular axes.
#include <cmath>
#include <cstdint>
#include <vector>

#include "fes/axis.hpp"

namespace verif {

struct Index {
  int64_t index;
};
struct Pair {
  int found;
  int64_t lower, upper;
};
struct Bounds {
  double start, end, step, min, max;
  int64_t size;
  int ascending, circular;
};
struct Value {
  double value;
};
struct Flag {
  int flag;
};

// Position of a coordinate in steps from the first node.
inline double position(int circular, double start, int64_t size, double step,
                       double coordinate) {
  double lowest = step > 0 ? start : start + (size - 1) * step;
  double x = coordinate;
  if (circular) {
    x -= 360.0 * std::floor((x - lowest) / 360.0);
  }
  return (x - start) / step;
}

Index probe_index(int circular, double start, int64_t size, double step,
                  double coordinate, int bounded) {
  const fes::Axis axis(circular != 0, step > 0, start, size, step);
  return Index{axis.find_index(coordinate, bounded != 0)};
}
Index ref_index(int circular, double start, int64_t size, double step,
                double coordinate, int bounded) {
  if (std::isnan(coordinate)) {
    return Index{-1};
  }
  const double q = position(circular, start, size, step, coordinate);
  // Half a step away is nearest to the node away from zero.
  const double k = q < 0 ? std::ceil(q - 0.5) : std::floor(q + 0.5);
  if (k < 0) {
    return Index{bounded ? 0 : -1};
  }
  if (k > size - 1) {
    return Index{bounded ? size - 1 : -1};
  }
  return Index{static_cast<int64_t>(k)};
}

// Without the second argument the index is not bounded.
Index probe_unbounded(int circular, double start, int64_t size, double step,
                      double coordinate) {
  const fes::Axis axis(circular != 0, step > 0, start, size, step);
  return Index{axis.find_index(coordinate)};
}
Index ref_unbounded(int circular, double start, int64_t size, double step,
                    double coordinate) {
  return ref_index(circular, start, size, step, coordinate, 0);
}

Pair probe_pair(int circular, double start, int64_t size, double step,
                double coordinate) {
  const fes::Axis axis(circular != 0, step > 0, start, size, step);
  const auto r = axis.find_indices(coordinate);
  if (!r) {
    return Pair{0, -1, -1};
  }
  const int64_t a = std::get<0>(*r);
  const int64_t b = std::get<1>(*r);
  return Pair{1, a < b ? a : b, a < b ? b : a};
}
Pair ref_pair(int circular, double start, int64_t size, double step,
              double coordinate) {
  if (std::isnan(coordinate)) {
    return Pair{0, -1, -1};
  }
  const double q = position(circular, start, size, step, coordinate);
  const int64_t k = static_cast<int64_t>(std::floor(q));
  if (q == size - 1) {
    return Pair{1, size - 2, size - 1};
  }
  if (q < 0 || q > size - 1) {
    return circular ? Pair{1, 0, size - 1} : Pair{0, -1, -1};
  }
  return Pair{1, k, k + 1};
}

inline Bounds bounds(const fes::Axis& axis) {
  return Bounds{axis.start(),     axis.end(),
                axis.step(),      axis.min_value(),
                axis.max_value(), axis.size(),
                axis.is_ascending() ? 1 : 0, axis.is_circular() ? 1 : 0};
}

// From the points it is made of.
Bounds probe_build(int n, const std::vector<double>& p, double epsilon,
                   int circular) {
  Eigen::VectorXd points(n);
  for (int ix = 0; ix < n; ++ix) {
    points(ix) = p[ix];
  }
  return bounds(fes::Axis(points, epsilon, circular != 0));
}
inline bool near(double a, double b, double epsilon) {
  const double d = std::fabs(a - b);
  return d <= epsilon ||
         d < std::fmax(std::fabs(a), std::fabs(b)) * epsilon;
}
Bounds ref_build(int n, const std::vector<double>& p, double epsilon,
                 int circular) {
  if (n < 2) {
    throw std::invalid_argument("size");
  }
  std::vector<double> x;
  for (int ix = 0; ix < n; ++ix) {
    x.push_back(p[ix]);
  }
  if (circular) {
    // A step against the direction of the first one crosses the meridian.
    const bool ascending = x[0] < x[1];
    bool monotonic = true;
    bool crossed = false;
    for (int ix = 1; ix < n; ++ix) {
      monotonic = monotonic && (ascending ? p[ix - 1] < p[ix]
                                          : p[ix - 1] > p[ix]);
    }
    for (int ix = 1; ix < n; ++ix) {
      if (!monotonic) {
        crossed = crossed || (ascending ? p[ix - 1] > p[ix]
                                        : p[ix - 1] < p[ix]);
        if (crossed) {
          x[ix] += ascending ? 360.0 : -360.0;
        }
      }
    }
  }
  const double step = (x[n - 1] - x[0]) / (n - 1);
  bool even = std::fabs(step) > 1e-6;
  for (int ix = 1; ix < n; ++ix) {
    even = even && near(x[ix] - x[ix - 1], step, 1e-6);
  }
  if (!even) {
    throw std::invalid_argument("spacing");
  }
  const double last = x[0] + (n - 1) * step;
  const bool ascending = step > 0;
  return Bounds{x[0],
                last,
                step,
                ascending ? x[0] : last,
                ascending ? last : x[0],
                n,
                ascending ? 1 : 0,
                circular && near(std::fabs(step * n), 360.0, epsilon) ? 1 : 0};
}

Bounds probe_bounds(int circular, double start, int64_t size, double step) {
  return bounds(fes::Axis(circular != 0, step > 0, start, size, step));
}
Bounds ref_bounds(int circular, double start, int64_t size, double step) {
  const double last = start + (size - 1) * step;
  return Bounds{start, last, step, step > 0 ? start : last,
                step > 0 ? last : start, size, step > 0 ? 1 : 0,
                circular != 0 ? 1 : 0};
}

Value probe_node(int circular, double start, int64_t size, double step,
                 int64_t index) {
  return Value{fes::Axis(circular != 0, step > 0, start, size, step)(index)};
}
Value ref_node(int, double start, int64_t size, double step, int64_t index) {
  if (index >= size || index < 0) {
    throw std::out_of_range("index");
  }
  return Value{start + step * index};
}

Flag probe_equality(int c0, double start0, int64_t size0, double step0, int c1,
                    double start1, int64_t size1, double step1) {
  return Flag{fes::Axis(c0 != 0, step0 > 0, start0, size0, step0) ==
                      fes::Axis(c1 != 0, step1 > 0, start1, size1, step1)
                  ? 1
                  : 0};
}
Flag ref_equality(int c0, double start0, int64_t size0, double step0, int c1,
                  double start1, int64_t size1, double step1) {
  return Flag{(c0 != 0) == (c1 != 0) && start0 == start1 && size0 == size1 &&
                      step0 == step1
                  ? 1
                  : 0};
}

}  // namespace verif
