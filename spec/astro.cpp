// Reference semantics of the astronomic angles (Schureman 1940, Meeus 1998).
#include <cmath>

#include "fes/angle/astronomic.hpp"

namespace verif {

using fes::angle::Astronomic;
using fes::angle::Formulae;

struct Angles {
  double t, n, s, h, p, p1, i, xi, nu, x1ra, r, nuprim, nusec;
};

struct Factors {
  double o1, oo1, one, j1, m1, m2, m3, mf, mm, m22, m23, m24, k1, k2, f79, l2,
      m2_k2, m2_k1, m2_o1, m22_k1, m23_k2, f141;
};

inline Angles angles_of(const Astronomic& a) {
  return Angles{a.t(),  a.n(),  a.s(),    a.h(), a.p(),      a.p1(),   a.i(),
                a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim(), a.nusec()};
}

// --- probes: what the library computes -------------------------------------
Angles probe_schureman1(double epoch, unsigned short leap) {
  return angles_of(Astronomic(Formulae::kSchuremanOrder1, epoch, leap));
}
Angles probe_schureman3(double epoch, unsigned short leap) {
  return angles_of(Astronomic(Formulae::kSchuremanOrder3, epoch, leap));
}
Angles probe_meeus(double epoch, unsigned short leap) {
  return angles_of(Astronomic(Formulae::kMeeus, epoch, leap));
}
// A second update must leave nothing behind of the first one.
Angles probe_again1(double epoch, unsigned short leap, double old_epoch,
                    unsigned short old_leap) {
  Astronomic a(Formulae::kSchuremanOrder1, old_epoch, old_leap);
  a.update(epoch, leap);
  return angles_of(a);
}
Angles probe_again3(double epoch, unsigned short leap, double old_epoch,
                    unsigned short old_leap) {
  Astronomic a(Formulae::kSchuremanOrder3, old_epoch, old_leap);
  a.update(epoch, leap);
  return angles_of(a);
}
Angles probe_againm(double epoch, unsigned short leap, double old_epoch,
                    unsigned short old_leap) {
  Astronomic a(Formulae::kMeeus, old_epoch, old_leap);
  a.update(epoch, leap);
  return angles_of(a);
}
// The formulae survive a copy.
Angles probe_copy3(double epoch, unsigned short leap) {
  Astronomic a(Formulae::kSchuremanOrder3);
  Astronomic b(a);
  b.update(epoch, leap);
  return angles_of(b);
}

Factors probe_factors(const Astronomic& a) {
  return Factors{a.f_o1(),    a.f_oo1(),   a.f_1(),     a.f_j1(),
                 a.f_m1(),    a.f_m2(),    a.f_m3(),    a.f_mf(),
                 a.f_mm(),    a.f_m22(),   a.f_m23(),   a.f_m24(),
                 a.f_k1(),    a.f_k2(),    a.f_79(),    a.f_l2(),
                 a.f_m2_k2(), a.f_m2_k1(), a.f_m2_o1(), a.f_m22_k1(),
                 a.f_m23_k2(), a.f_141()};
}

// --- references ------------------------------------------------------------
inline double ref_pi() { return std::atan2(0.0, -1.0); }
inline double arcsec(double d, double m, double s) {
  return d + m / 60.0 + s / 3600.0;
}
inline double poly(double x, double a, double b, double c, double d, double e) {
  return a + b * x + c * x * x + d * x * x * x + e * x * x * x * x;
}
inline double circle(double degrees) {
  double r = std::remainder(degrees, 360.0);
  if (r < 0.0) {
    r += 360.0;
  }
  return r * ref_pi() / 180.0;
}

inline Angles derive(double epoch, double n, double s, double h, double p,
                     double p1) {
  Angles a;
  a.t = std::remainder(180.0 + 15.0 * (std::fmod(epoch, 86400.0) / 3600.0),
                       360.0) *
        ref_pi() / 180.0;
  a.n = circle(n);
  a.s = circle(s);
  a.h = circle(h);
  a.p = circle(p);
  a.p1 = circle(p1);
  a.i = std::acos(0.91370 - 0.03569 * std::cos(a.n));
  double tn = std::tan(a.n / 2.0);
  double at1 = std::atan(1.01883 * tn);
  double at2 = std::atan(0.64412 * tn);
  a.xi = a.n - at1 - at2;
  if (a.n > ref_pi()) {
    a.xi = a.xi - 2.0 * ref_pi();
  }
  a.nu = at1 - at2;
  double ti = std::tan(a.i / 2.0);
  double ti2 = ti * ti;
  double pp = a.p - a.xi;
  a.x1ra = std::sqrt(1.0 - 12.0 * ti2 * std::cos(2.0 * pp) + 36.0 * ti2 * ti2);
  a.r = std::atan(std::sin(2.0 * pp) / (1.0 / (6.0 * ti2) - std::cos(2.0 * pp)));
  a.nuprim = std::atan(std::sin(2.0 * a.i) * std::sin(a.nu) /
                       (std::sin(2.0 * a.i) * std::cos(a.nu) + 0.3347));
  double si2 = std::sin(a.i) * std::sin(a.i);
  a.nusec = 0.5 * std::atan(si2 * std::sin(2.0 * a.nu) /
                            (si2 * std::cos(2.0 * a.nu) + 0.0727));
  return a;
}

inline double century1900(double epoch) {
  return (epoch / 86400.0 + 25567.5) / 36525.0;
}

Angles ref_schureman1(double epoch, unsigned short) {
  double t = century1900(epoch);
  return derive(
      epoch,
      arcsec(259, 10, 57.12) - (5.0 * 360.0 + arcsec(0, 0, 482912.63)) * t,
      arcsec(270, 26, 14.72) + (1336.0 * 360.0 + arcsec(0, 0, 1108411.20)) * t,
      arcsec(279, 41, 48.04) + arcsec(0, 0, 129602768.13) * t,
      arcsec(334, 19, 40.87) + (11.0 * 360.0 + arcsec(0, 0, 392515.94)) * t,
      arcsec(281, 13, 15.0) + arcsec(0, 0, 6189.03) * t);
}

Angles ref_schureman3(double epoch, unsigned short) {
  double t = century1900(epoch);
  return derive(
      epoch,
      poly(t, arcsec(259, 10, 57.12),
           -(5.0 * 360.0 + arcsec(0, 0, 482912.63)), arcsec(0, 0, 7.58),
           arcsec(0, 0, 0.008), 0),
      poly(t, arcsec(270, 26, 14.72),
           1336.0 * 360.0 + arcsec(0, 0, 1108411.20), arcsec(0, 0, 9.09),
           arcsec(0, 0, 0.0068), 0),
      poly(t, arcsec(279, 41, 48.04), arcsec(0, 0, 129602768.13),
           arcsec(0, 0, 1.089), 0, 0),
      poly(t, arcsec(334, 19, 40.87), 11.0 * 360.0 + arcsec(0, 0, 392515.94),
           -arcsec(0, 0, 37.24), -arcsec(0, 0, 0.045), 0),
      poly(t, arcsec(281, 13, 15.0), arcsec(0, 0, 6189.03), arcsec(0, 0, 1.63),
           arcsec(0, 0, 0.012), 0));
}

Angles ref_meeus(double epoch, unsigned short leap) {
  double t = (epoch + leap + 32.184 - 946728000.0) / 3155760000.0;
  double s = poly(t, 218.3164477, 481267.88123421, -0.0015786, 1.0 / 538841.0,
                  -1.0 / 65194000.0);
  double d = poly(t, 297.8501921, 445267.1114034, -0.0018819, -1.0 / 545868.0,
                  1.0 / 113065000.0);
  double g = poly(t, 357.5291092, 35999.0502909, -0.0001536, 1.0 / 24490000.0,
                  0);
  return derive(epoch,
                poly(t, 125.0445479, -1934.1362891, 0.0020754, 1.0 / 467441.0,
                     -1.0 / 60616000.0),
                s, s - d,
                poly(t, 83.3532465, 4069.0137287, -0.0103200, -1.0 / 80053.0,
                     1.0 / 18999000.0),
                s - d - g);
}
Angles ref_again1(double epoch, unsigned short leap, double, unsigned short) {
  return ref_schureman1(epoch, leap);
}
Angles ref_again3(double epoch, unsigned short leap, double, unsigned short) {
  return ref_schureman3(epoch, leap);
}
Angles ref_againm(double epoch, unsigned short leap, double, unsigned short) {
  return ref_meeus(epoch, leap);
}
Angles ref_copy3(double epoch, unsigned short leap) {
  return ref_schureman3(epoch, leap);
}

inline double power(double x, int n) {
  double r = 1.0;
  for (int k = 0; k < n; ++k) {
    r *= x;
  }
  return r;
}

Factors ref_factors(const Astronomic& a) {
  const double i = a.i();
  const double nu = a.nu();
  const double si = std::sin(i), ch = std::cos(i / 2.0), sh = std::sin(i / 2.0);
  Factors f;
  f.o1 = si * ch * ch / 0.3800;
  f.oo1 = si * sh * sh / 0.0164;
  f.one = 1.0;
  f.j1 = std::sin(2.0 * i) / 0.7214;
  f.m1 = f.o1 * std::sqrt(2.310 + 1.435 * std::cos(2.0 * (a.p() - a.xi())));
  f.m2 = power(ch, 4) / 0.9154;
  f.m3 = power(ch, 6) / 0.8758;
  f.mf = si * si / 0.1578;
  f.mm = (2.0 / 3.0 - si * si) / 0.5021;
  f.m22 = f.m2 * f.m2;
  f.m23 = f.m2 * f.m2 * f.m2;
  f.m24 = f.m2 * f.m2 * f.m2 * f.m2;
  const double s2i = std::sin(2.0 * i);
  f.k1 = std::sqrt(0.8965 * s2i * s2i + 0.6001 * s2i * std::cos(nu) + 0.1006);
  f.k2 = std::sqrt(19.0444 * power(si, 4) +
                   2.7702 * si * si * std::cos(2.0 * nu) + 0.0981);
  f.f79 = si * si / 0.1565;
  f.l2 = f.m2 * a.x1ra();
  f.m2_k2 = f.m2 * f.k2;
  f.m2_k1 = f.m2 * f.k1;
  f.m2_o1 = f.m2 * f.o1;
  f.m22_k1 = f.m22 * f.k1;
  f.m23_k2 = f.m23 * f.k2;
  f.f141 = (si - 1.25 * si * si * si) / 0.3192;
  return f;
}

}  // namespace verif
