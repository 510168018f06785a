// Angles cached by an accelerator.
#include <cmath>

#include "fes/abstract_tidal_model.hpp"

namespace verif {

struct Angles {
  double t, n, h, s, p, p1, i, xi, nu, nuprim, nusec, r, x1ra;
};

inline Angles values(const fes::angle::Astronomic& a) {
  return Angles{a.t(),  a.n(),      a.h(),     a.s(), a.p(),   a.p1(), a.i(),
                a.xi(), a.nu(), a.nuprim(), a.nusec(), a.r(), a.x1ra()};
}

struct Series {
  Angles first, second, third;
};

Series probe_angles(fes::angle::Formulae formulae, double tolerance,
                    double epoch0, double epoch1, double epoch2, int leap0,
                    int leap1, int leap2) {
  fes::Accelerator acc(formulae, tolerance, 3);
  Series s;
  s.first = values(acc.calculate_angle(epoch0, static_cast<uint16_t>(leap0)));
  s.second = values(acc.calculate_angle(epoch1, static_cast<uint16_t>(leap1)));
  s.third = values(acc.calculate_angle(epoch2, static_cast<uint16_t>(leap2)));
  return s;
}

inline Angles direct(fes::angle::Formulae formulae, double epoch, int leap) {
  return values(fes::angle::Astronomic(formulae, epoch,
                                       static_cast<uint16_t>(leap)));
}

// The angles of a date serve for the dates within the tolerance of that date.
inline bool serve(double computed, double epoch, double tolerance) {
  return std::abs(epoch - computed) <= tolerance;
}

Series ref_angles(fes::angle::Formulae formulae, double tolerance,
                  double epoch0, double epoch1, double epoch2, int leap0,
                  int leap1, int leap2) {
  Series s;
  s.first = direct(formulae, epoch0, leap0);
  if (serve(epoch0, epoch1, tolerance)) {
    s.second = s.first;
    s.third = serve(epoch0, epoch2, tolerance)
                  ? s.first
                  : direct(formulae, epoch2, leap2);
  } else {
    s.second = direct(formulae, epoch1, leap1);
    s.third = serve(epoch1, epoch2, tolerance)
                  ? s.second
                  : direct(formulae, epoch2, leap2);
  }
  return s;
}

}  // namespace verif
