// Equilibrium long-period tide: Cartwright, Tayler and Edden (1971, 1973).
#include <cmath>
#include <vector>

#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"

namespace verif {

using fes::Constituent;
using fes::wave::LongPeriodEquilibrium;
using fes::wave::Table;

// Multiples of s, h, p, N' = -N and p1, amplitude in metres and constituent
// that replaces the line when a model computes it.
struct Line {
  int s, h, p, n, p1;
  double amplitude;
  int constituent;
};

// clang-format off
constexpr Line kSecond[106] = {
    {0, 0, 0, 1, 0, 0.02793, fes::kM0},
    {0, 0, 0, 2, 0, -0.00027, fes::kM0},
    {0, 0, 2, 1, 0, 0.00004, -1},
    {0, 1, 0, -1, -1, -0.00004, -1},
    {0, 1, 0, 0, -1, -0.00492, fes::kSa1},
    {0, 1, 0, 0, 1, 0.00026, -1},
    {0, 1, 0, 1, -1, 0.00005, -1},
    {0, 2, -2, -1, 0, 0.00002, -1},
    {0, 2, -2, 0, 0, -0.00031, -1},
    {0, 2, 0, 0, 0, -0.03095, fes::kSsa},
    {0, 2, 0, 0, -2, -0.00008, -1},
    {0, 2, 0, 1, 0, 0.00077, fes::kSsa},
    {0, 2, 0, 2, 0, 0.00017, fes::kSsa},
    {0, 3, 0, 0, -1, -0.00181, fes::kSta},
    {0, 3, 0, 1, -1, 0.00003, -1},
    {0, 4, 0, 0, -2, -0.00007, -1},
    {1, -3, 1, -1, 1, 0.00002, -1},
    {1, -3, 1, 0, 1, -0.00029, -1},
    {1, -3, 1, 1, 1, 0.00002, -1},
    {1, -2, -1, -2, 0, 0.00003, -1},
    {1, -2, -1, -1, 0, 0.00007, -1},
    {1, -2, 1, -1, 0, 0.00048, -1},
    {1, -2, 1, 0, 0, -0.00673, -1},
    {1, -2, 1, 1, 0, 0.00043, -1},
    {1, -1, -1, -1, 1, 0.00002, -1},
    {1, -1, -1, 0, 1, -0.00021, -1},
    {1, -1, -1, 1, 1, 0.00000, -1},
    {1, -1, 0, 0, 0, 0.00020, -1},
    {1, -1, 1, 0, -1, 0.00005, -1},
    {1, 0, -1, -2, 0, -0.00003, fes::kMm},
    {1, 0, -1, -1, 0, 0.00231, fes::kMm},
    {1, 0, -1, 0, 0, -0.03518, fes::kMm},
    {1, 0, -1, 1, 0, 0.00228, fes::kMm},
    {1, 0, 1, 0, 0, 0.00189, fes::kMm1},
    {1, 0, 1, 1, 0, 0.00077, fes::kMm1},
    {1, 0, 1, 2, 0, 0.00021, fes::kMm1},
    {1, 1, -1, 0, -1, 0.00018, -1},
    {1, 2, -1, 0, 0, 0.00049, -1},
    {1, 2, -1, 1, 0, 0.00024, -1},
    {1, 2, -1, 2, 0, 0.00004, -1},
    {1, 3, -1, 0, -1, 0.00003, -1},
    {2, -4, 2, 0, 0, -0.00011, -1},
    {2, -3, 0, 0, 1, -0.00038, -1},
    {2, -3, 0, 1, 1, 0.00002, -1},
    {2, -2, 0, -1, 0, -0.00042, fes::kA5},
    {2, -2, 0, 0, 0, -0.00582, fes::kA5},
    {2, -2, 0, 1, 0, 0.00037, fes::kA5},
    {2, -2, 2, 0, 0, 0.00004, -1},
    {2, -1, -2, 0, 1, -0.00004, -1},
    {2, -1, -1, 0, 0, 0.00003, -1},
    {2, -1, 0, 0, -1, 0.00007, -1},
    {2, -1, 0, 0, 1, -0.00020, -1},
    {2, -1, 0, 1, 1, -0.00004, -1},
    {2, 0, -2, -1, 0, 0.00015, fes::kMf1},
    {2, 0, -2, 0, 0, -0.00288, fes::kMf1},
    {2, 0, -2, 1, 0, 0.00019, fes::kMf1},
    {2, 0, 0, 0, 0, -0.06662, fes::kMf},
    {2, 0, 0, 1, 0, -0.02762, fes::kMf},
    {2, 0, 0, 2, 0, -0.00258, fes::kMf},
    {2, 0, 0, 3, 0, 0.00007, fes::kMf},
    {2, 1, -2, 0, -1, 0.00003, -1},
    {2, 1, 0, 0, -1, 0.00023, -1},
    {2, 1, 0, 1, -1, 0.00006, -1},
    {2, 2, -2, 0, 0, 0.00020, -1},
    {2, 2, -2, 1, 0, 0.00008, -1},
    {2, 2, 0, 2, 0, 0.00003, -1},
    {3, -5, 1, 0, 1, -0.00002, -1},
    {3, -4, 1, 0, 0, -0.00017, -1},
    {3, -3, -1, 0, 1, -0.00007, -1},
    {3, -3, 1, 0, 1, -0.00012, -1},
    {3, -3, 1, 1, 1, -0.00004, -1},
    {3, -2, -1, -1, 0, -0.00010, -1},
    {3, -2, -1, 0, 0, -0.00091, -1},
    {3, -2, -1, 1, 0, 0.00006, -1},
    {3, -2, 1, 0, 0, -0.00242, -1},
    {3, -2, 1, 1, 0, -0.00100, -1},
    {3, -2, 1, 2, 0, -0.00009, -1},
    {3, -1, -1, 0, 1, -0.00013, -1},
    {3, -1, -1, 1, 1, -0.00004, -1},
    {3, -1, 0, 0, 0, 0.00006, -1},
    {3, -1, 0, 1, 0, 0.00003, -1},
    {3, -1, 1, 0, -1, 0.00003, -1},
    {3, 0, -3, 0, 0, -0.00023, -1},
    {3, 0, -3, 1, -1, 0.00004, -1},
    {3, 0, -3, 1, 1, 0.00004, -1},
    {3, 0, -1, 0, 0, -0.01275, fes::kMtm},
    {3, 0, -1, 1, 0, -0.00528, fes::kMtm},
    {3, 0, -1, 2, 0, -0.00051, fes::kMtm},
    {3, 0, 1, 2, 0, 0.00005, -1},
    {3, 0, 1, 3, 0, 0.00002, -1},
    {3, 1, -1, 0, -1, 0.00011, -1},
    {3, 1, -1, 1, -1, 0.00004, -1},
    {4, -4, 0, 0, 0, -0.00008, -1},
    {4, -4, 2, 0, 0, -0.00006, -1},
    {4, -4, 2, 1, 0, -0.00002, -1},
    {4, -3, 0, 0, 1, -0.00014, -1},
    {4, -3, 0, 1, 1, -0.00006, -1},
    {4, -2, -2, 0, 0, -0.00011, -1},
    {4, -2, 0, 0, 0, -0.00205, fes::kMsqm},
    {4, -2, 0, 1, 0, -0.00085, fes::kMsqm},
    {4, -2, 0, 2, 0, -0.00008, fes::kMsqm},
    {4, -1, -2, 0, 1, -0.00003, -1},
    {4, -1, 0, 0, -1, 0.00003, -1},
    {4, 0, -2, 0, 0, -0.00169, -1},
    {4, 0, -2, 1, 0, -0.00070, -1},
    {4, 0, -2, 2, 0, -0.00006, -1},
};
constexpr Line kThird[17] = {
    {0, 0, 1, 0, 0, -0.00021, -1},
    {0, 2, -1, 0, 0, -0.00004, -1},
    {1, -2, 0, 0, 0, 0.00004, -1},
    {1, 0, 0, -1, 0, 0.00019, fes::kMm2},
    {1, 0, 0, 0, 0, -0.00375, fes::kMm2},
    {1, 0, 0, 1, 0, -0.00059, fes::kMm2},
    {1, 0, 0, 2, 0, 0.00005, fes::kMm2},
    {2, -2, 1, 0, 0, -0.00012, -1},
    {2, 0, -1, 0, 0, -0.00061, fes::kMf2},
    {2, 0, -1, 1, 0, -0.00010, fes::kMf2},
    {3, -2, 0, 0, 0, -0.00010, -1},
    {3, 0, -2, 0, 0, -0.00007, -1},
    {3, 0, 0, 0, 0, -0.00030, -1},
    {3, 0, 0, 1, 0, -0.00019, -1},
    {3, 0, 0, 2, 0, -0.00004, -1},
    {4, 0, -1, 0, 0, -0.00008, -1},
    {4, 0, -1, 1, 0, -0.00005, -1},
};
// clang-format on

struct Height {
  double h;
};

inline double argument(const Line& l, const fes::angle::Astronomic& a) {
  const double turn = 2.0 * std::atan2(0.0, -1.0);
  return l.s * a.s() + l.h * a.h() + l.p * a.p() + l.n * (turn - a.n()) +
         l.p1 * a.p1();
}

inline bool kept(const Line& l, const std::vector<int>& dynamic) {
  return l.constituent < 0 || !(dynamic[l.constituent] > 0);
}

inline Height reference(const std::vector<int>& dynamic,
                        const fes::angle::Astronomic& a, double latitude) {
  double h20 = 0;
  for (int ix = 0; ix < 106; ++ix) {
    const Line& l = kSecond[ix];
    h20 += kept(l, dynamic) ? l.amplitude * std::cos(argument(l, a)) : 0.0;
  }
  double h30 = 0;
  for (int ix = 0; ix < 17; ++ix) {
    const Line& l = kThird[ix];
    h30 += kept(l, dynamic) ? l.amplitude * std::sin(argument(l, a)) : 0.0;
  }
  const double pi = std::atan2(0.0, -1.0);
  const double y = std::sin(latitude * pi / 180.0);
  const double p20 =
      std::sqrt(5.0 / (4.0 * pi)) * (1.5 * y * y - 0.5) + 0.014432247;
  const double p30 =
      std::sqrt(7.0 / (4.0 * pi)) * (2.5 * y * y * y - 1.5 * y) - 0.012469818;
  const double love2 = 1.0 + 0.302 - 0.609;
  const double love3 = 1.0 + 0.093 - 0.291;
  return Height{100.0 * (love2 * p20 * h20 + love3 * p30 * h30)};
}

inline void mark(Table& t, const std::vector<int>& dynamic) {
  for (int ix = 0; ix < 75; ++ix) {
    t[static_cast<Constituent>(ix)]->dynamic(dynamic[ix] > 0);
  }
}

// Sine of an angle in degrees.
Height probe_sine(double latitude) {
  return Height{fes::detail::math::sind(latitude)};
}
Height ref_sine(double latitude) {
  return Height{std::sin(latitude * std::atan2(0.0, -1.0) / 180.0)};
}

// Whatever the constituents computed by the model.
Height probe_height(const std::vector<int>& dynamic,
                    const fes::angle::Astronomic& a, double latitude) {
  Table t;
  mark(t, dynamic);
  LongPeriodEquilibrium lpe(t);
  return Height{lpe.lpe_minus_n_waves(a, latitude)};
}
Height ref_height(const std::vector<int>& dynamic,
                  const fes::angle::Astronomic& a, double latitude) {
  return reference(dynamic, a, latitude);
}

// Without any removal.
Height probe_complete(const fes::angle::Astronomic& a, double latitude) {
  LongPeriodEquilibrium lpe;
  return Height{lpe.lpe_minus_n_waves(a, latitude)};
}
Height ref_complete(const fes::angle::Astronomic& a, double latitude) {
  return reference(std::vector<int>(75, 0), a, latitude);
}

// A computation leaves nothing behind.
Height probe_repeated(const std::vector<int>& dynamic,
                      const fes::angle::Astronomic& before, double elsewhere,
                      const fes::angle::Astronomic& a, double latitude) {
  Table t;
  mark(t, dynamic);
  LongPeriodEquilibrium lpe(t);
  lpe.lpe_minus_n_waves(before, elsewhere);
  return Height{lpe.lpe_minus_n_waves(a, latitude)};
}
Height ref_repeated(const std::vector<int>& dynamic,
                    const fes::angle::Astronomic&, double,
                    const fes::angle::Astronomic& a, double latitude) {
  return reference(dynamic, a, latitude);
}

// A second removal removes its lines only, in addition to the first.
Height probe_twice(const std::vector<int>& first, const std::vector<int>& second,
                   const fes::angle::Astronomic& a, double latitude) {
  Table t;
  mark(t, first);
  LongPeriodEquilibrium lpe(t);
  mark(t, second);
  lpe.disable_dynamic_wave(t);
  return Height{lpe.lpe_minus_n_waves(a, latitude)};
}
Height ref_twice(const std::vector<int>& first, const std::vector<int>& second,
                 const fes::angle::Astronomic& a, double latitude) {
  std::vector<int> either(75, 0);
  for (int ix = 0; ix < 75; ++ix) {
    either[ix] = first[ix] > 0 || second[ix] > 0 ? 1 : 0;
  }
  return reference(either, a, latitude);
}

}  // namespace verif
