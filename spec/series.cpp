// Predictions from the properties of the waves, harmonic analysis.
#include <Eigen/Core>
#include <cmath>
#include <complex>
#include <limits>
#include <string>
#include <tuple>
#include <vector>

#include "fes/constituent.hpp"
#include "fes/wave/table.hpp"

namespace verif {

using fes::Constituent;
using fes::wave::Table;

// Properties of the waves: any function of the position of the wave in the
// table, and of the point.
double wave_re(int wave, int point);
double wave_im(int wave, int point);
// Observations: modulations of wave i and height at date j.
double factor(int i, int j);
double phase(int i, int j);
double height(int j);
// Least squares solution of an overdetermined system: unknown i, for the five
// equations sum_k a[j][k] x[k] = b[j].
double lsq(int i, ...);

// Selections of waves, the order given not being that of the constituents.
inline std::vector<std::string> selection(int ix) {
  switch (ix) {
    case 0:
      return {"K1", "M2", "Mm"};
    case 1:
      return {"L2", "M13", "Sa", "2MK6", "Mf"};
    case 2:
      return {"M4"};
    default:
      return {};
  }
}

inline Table corrected(int ix, fes::angle::Formulae formulae, double epoch,
                       int leap) {
  Table t(selection(ix));
  t.compute_nodal_corrections(fes::angle::Astronomic(
      formulae, epoch, static_cast<uint16_t>(leap)));
  return t;
}

// Waves of a table, in the order of the constituents.
inline std::vector<Constituent> members(const Table& t) {
  std::vector<Constituent> list;
  for (int ix = 0; ix < 75; ++ix) {
    if (t.find(fes::constituents::name(static_cast<Constituent>(ix)))) {
      list.push_back(static_cast<Constituent>(ix));
    }
  }
  return list;
}

inline double contribution(const Table& t, Constituent ident, double re,
                           double im) {
  const auto& wave = t[ident];
  return wave->f() *
         (re * std::cos(wave->vu()) + im * std::sin(wave->vu()));
}

struct Series {
  int size;
  double first, second;
};

Series probe_series(int ix, fes::angle::Formulae formulae, double epoch0,
                    double epoch1, int leap0, int leap1) {
  const Table t(selection(ix));
  Eigen::VectorXd epoch(2);
  fes::Vector<uint16_t> leap(2);
  epoch << epoch0, epoch1;
  leap << leap0, leap1;
  Eigen::VectorXcd wave(t.size());
  for (int i = 0; i < static_cast<int>(t.size()); ++i) {
    wave(i) = std::complex<double>(wave_re(i, 0), wave_im(i, 0));
  }
  const Eigen::VectorXd r =
      t.tide_from_tide_series(epoch, leap, wave, formulae);
  return Series{static_cast<int>(r.size()), r(0), r(1)};
}
inline double sum(int ix, fes::angle::Formulae formulae, double epoch,
                  int leap) {
  const Table t = corrected(ix, formulae, epoch, leap);
  const auto list = members(t);
  double h = 0.0;
  for (int i = 0; i < static_cast<int>(list.size()); ++i) {
    h += contribution(t, list[i], wave_re(i, 0), wave_im(i, 0));
  }
  return h;
}
Series ref_series(int ix, fes::angle::Formulae formulae, double epoch0,
                  double epoch1, int leap0, int leap1) {
  return Series{2, sum(ix, formulae, epoch0, leap0),
                sum(ix, formulae, epoch1, leap1)};
}

struct Matrix {
  int rows, cols;
  std::vector<double> values;
};
inline Matrix values(const Eigen::MatrixXd& m) {
  Matrix r;
  r.rows = static_cast<int>(m.rows());
  r.cols = static_cast<int>(m.cols());
  for (int i = 0; i < r.rows; ++i) {
    for (int j = 0; j < r.cols; ++j) {
      r.values.push_back(m(i, j));
    }
  }
  return r;
}

// Contribution of every wave at every point of a map (one point per row).
Matrix probe_mapping(int ix, int points, fes::angle::Formulae formulae,
                     double epoch, int leap) {
  const Table t(selection(ix));
  Eigen::MatrixXcd wave(t.size(), points);
  for (int i = 0; i < static_cast<int>(t.size()); ++i) {
    for (int j = 0; j < points; ++j) {
      wave(i, j) = std::complex<double>(wave_re(i, j), wave_im(i, j));
    }
  }
  return values(t.tide_from_mapping(epoch, static_cast<uint16_t>(leap), wave,
                                    formulae, 1));
}
Matrix ref_mapping(int ix, int points, fes::angle::Formulae formulae,
                   double epoch, int leap) {
  const Table t = corrected(ix, formulae, epoch, leap);
  const auto list = members(t);
  Matrix m;
  m.rows = points;
  m.cols = static_cast<int>(list.size());
  for (int j = 0; j < points; ++j) {
    for (int i = 0; i < m.cols; ++i) {
      m.values.push_back(
          contribution(t, list[i], wave_re(i, j), wave_im(i, j)));
    }
  }
  return m;
}

// Modulations of every wave at every date (one wave per row).
struct Modulations {
  Matrix f, vu;
};
Modulations probe_modulations(int ix, fes::angle::Formulae formulae,
                              double epoch0, double epoch1, int leap0,
                              int leap1) {
  const Table t(selection(ix));
  Eigen::VectorXd epoch(2);
  fes::Vector<uint16_t> leap(2);
  epoch << epoch0, epoch1;
  leap << leap0, leap1;
  const auto r = t.compute_nodal_modulations(epoch, leap, formulae);
  return Modulations{values(std::get<0>(r)), values(std::get<1>(r))};
}
Modulations ref_modulations(int ix, fes::angle::Formulae formulae,
                            double epoch0, double epoch1, int leap0,
                            int leap1) {
  const Table t0 = corrected(ix, formulae, epoch0, leap0);
  const Table t1 = corrected(ix, formulae, epoch1, leap1);
  const auto list = members(t0);
  Modulations m;
  m.f.rows = m.vu.rows = static_cast<int>(list.size());
  m.f.cols = m.vu.cols = 2;
  for (const auto ident : list) {
    m.f.values.push_back(t0[ident]->f());
    m.f.values.push_back(t1[ident]->f());
    m.vu.values.push_back(t0[ident]->vu());
    m.vu.values.push_back(t1[ident]->vu());
  }
  return m;
}

// Harmonic analysis of five heights for two waves.
struct Analysis {
  int size;
  double re0, im0, re1, im1;
};
Analysis probe_analysis(int dates) {
  Eigen::VectorXd h(dates);
  Eigen::MatrixXd f(2, dates);
  Eigen::MatrixXd vu(2, dates);
  for (int j = 0; j < dates; ++j) {
    h(j) = height(j);
    for (int i = 0; i < 2; ++i) {
      f(i, j) = factor(i, j);
      vu(i, j) = phase(i, j);
    }
  }
  const Eigen::VectorXcd w = Table::harmonic_analysis(h, f, vu);
  return Analysis{static_cast<int>(w.size()), w(0).real(), w(0).imag(),
                  w(1).real(), w(1).imag()};
}
inline double re(int i, int j) { return factor(i, j) * std::cos(phase(i, j)); }
inline double im(int i, int j) { return factor(i, j) * std::sin(phase(i, j)); }
inline double unknown(int k) {
  for (int j = 0; j < 5; ++j) {
    if (std::isnan(height(j))) {
      return std::numeric_limits<double>::quiet_NaN();
    }
  }
  return lsq(k, re(0, 0), im(0, 0), re(1, 0), im(1, 0),  //
             re(0, 1), im(0, 1), re(1, 1), im(1, 1),     //
             re(0, 2), im(0, 2), re(1, 2), im(1, 2),     //
             re(0, 3), im(0, 3), re(1, 3), im(1, 3),     //
             re(0, 4), im(0, 4), re(1, 4), im(1, 4),     //
             height(0), height(1), height(2), height(3), height(4));
}
Analysis ref_analysis(int) {
  return Analysis{2, unknown(0), unknown(1), unknown(2), unknown(3)};
}

// Waves resolved by an analysis.
struct Names {
  std::vector<std::string> list;
};
Names probe_selected(double duration, double f) {
  return Names{Table::select_waves_for_analysis(duration, f)};
}
Names ref_selected(double duration, double f) {
  const Table t;
  Names names;
  for (int ix = 0; ix < 75; ++ix) {
    const auto ident = static_cast<Constituent>(ix);
    if (t[ident]->period() * 3600.0 < f * duration) {
      names.list.push_back(fes::constituents::name(ident));
    }
  }
  return names;
}

}  // namespace verif
