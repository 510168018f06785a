// Definition of the constituents and their nodal corrections.
#include <cmath>
#include <string>

#include "fes/angle/astronomic.hpp"
#include "fes/wave.hpp"
#include "fes/wave/table.hpp"
#include "waves.hpp"

namespace verif {

using fes::Constituent;
using fes::Wave;
using fes::angle::Astronomic;
using fes::wave::Table;

struct Def {
  int ident, type, admittance, dynamic;
  double freq;
  int d0, d1, d2, d3, d4, d5;
  double period;
};

Def probe_def(Constituent id) {
  auto w = Table::wave_factory(id);
  const std::string d = w->doodson_number();
  return Def{w->ident(), w->type(), w->admittance(), w->dynamic(), w->freq(),
             d[0],       d[1],      d[2],            d[3],         d[4],
             d[5],       w->period()};
}

inline int digit(int x) {
  // -1, 10, 11 and 12 are written *, X, E and T.
  return x == -1 ? '*' : x == 10 ? 'X' : x == 11 ? 'E' : x == 12 ? 'T' : '0' + x;
}

inline double cycles(double degrees_per_hour) {
  return degrees_per_hour / 360.0;
}

Def ref_def(Constituent id) {
  const Row& r = kRows[id];
  const double c = 3155760000.0 / 3600.0;
  const double s = (1336.0 * 360.0 + 307.892) / c;
  const double h = (100.0 * 360.0 + 0.769) / c;
  const double p = (11.0 * 360.0 + 109.032) / c;
  const double n = (-5.0 * 360.0 - 134.142) / c;
  const double p1 = 1.719 / c;
  const double t = 15.0;
  const double speed =
      r.t * t + r.s * s + r.h * h + r.p * p + r.n * n + r.p1 * p1;
  const double pi = std::atan2(0.0, -1.0);
  Def d;
  d.ident = id;
  d.type = r.type;
  d.admittance = r.admittance;
  d.dynamic = 0;
  d.freq = speed * pi / 180.0;
  d.d0 = digit(r.t);
  d.d1 = digit(r.s + 5);
  d.d2 = digit(r.h + 5);
  d.d3 = digit(r.p + 5);
  d.d4 = digit(r.n + 5);
  d.d5 = digit(r.p1 + 5);
  d.period = 2.0 * pi / d.freq;
  return d;
}

struct Nodal {
  double v, u, f, vu;
};

inline double factor(F k, const Astronomic& a) {
  switch (k) {
    case F::one: return 1.0;
    case F::o1: return a.f_o1();
    case F::oo1: return a.f_oo1();
    case F::j1: return a.f_j1();
    case F::m1: return a.f_m1();
    case F::m2: return a.f_m2();
    case F::m3: return a.f_m3();
    case F::mf: return a.f_mf();
    case F::mm: return a.f_mm();
    case F::m22: return a.f_m2() * a.f_m2();
    case F::m23: return a.f_m2() * a.f_m2() * a.f_m2();
    case F::m24: return a.f_m2() * a.f_m2() * a.f_m2() * a.f_m2();
    case F::k1: return a.f_k1();
    case F::k2: return a.f_k2();
    case F::f79: return a.f_79();
    case F::l2: return a.f_l2();
    case F::m2_k2: return a.f_m2() * a.f_k2();
    case F::m2_k1: return a.f_m2() * a.f_k1();
    case F::m2_o1: return a.f_m2() * a.f_o1();
    case F::m22_k1: return a.f_m2() * a.f_m2() * a.f_k1();
    case F::m22_k2: return a.f_m2() * a.f_m2() * a.f_k2();
    case F::m23_k2: return a.f_m2() * a.f_m2() * a.f_m2() * a.f_k2();
    case F::f141: return a.f_141();
  }
  return 0.0;
}

inline Nodal reference(Constituent id, const Astronomic& a) {
  const Row& r = kRows[id];
  const double pi = std::atan2(0.0, -1.0);
  Nodal x;
  x.v = r.t * a.t() + r.s * a.s() + r.h * a.h() + r.p * a.p() + r.p1 * a.p1() +
        r.shift * pi / 2.0;
  x.u = r.xi * a.xi() + r.nu * a.nu() + r.nuprim * a.nuprim() +
        r.nusec * a.nusec();
  if (id == fes::kL2) {
    x.u -= a.r();
  }
  if (id == fes::kM13) {
    x.u -= 1.0 / std::sqrt(2.310 + 1.435 * std::cos(2.0 * (a.p() - a.xi()))) *
           pi / 180.0;
  }
  x.f = factor(r.f, a);
  x.vu = std::fmod(x.v + x.u, 2.0 * pi);
  return x;
}

Nodal probe_nodal(Constituent id, const Astronomic& a) {
  auto w = Table::wave_factory(id);
  w->nodal_a(a);
  w->nodal_g(a);
  return Nodal{w->v(), w->u(), w->f(), w->vu()};
}
Nodal ref_nodal(Constituent id, const Astronomic& a) {
  return reference(id, a);
}

// The angles alone, for a wave used for another date before.
struct Phase {
  double v, u, vu, period;
};
Phase probe_phase(Constituent id, const Astronomic& old, const Astronomic& a) {
  auto w = Table::wave_factory(id);
  w->nodal_g(old);
  w->nodal_a(old);
  w->nodal_a(a);
  w->nodal_g(a);
  return Phase{w->v(), w->u(), w->vu(), w->period()};
}
Phase ref_phase(Constituent id, const Astronomic&, const Astronomic& a) {
  const Nodal x = reference(id, a);
  return Phase{x.v, x.u, x.vu,
               2.0 * std::atan2(0.0, -1.0) / Table::wave_factory(id)->freq()};
}

// Through the table, after corrections for other angles, whatever the tide and
// the flags of the waves.
struct All {
  std::vector<Nodal> wave;
};

inline All all_of(const Table& t, int first, int last) {
  All all;
  for (int ix = first; ix < last; ++ix) {
    const auto& w = t[static_cast<Constituent>(ix)];
    all.wave.push_back(Nodal{w->v(), w->u(), w->f(), w->vu()});
  }
  return all;
}

// What a new wave gives; the factor is compared with its formula by probe_nodal.
inline Nodal fresh(Constituent id, const Astronomic& a) {
  Nodal x = reference(id, a);
  auto w = Table::wave_factory(id);
  w->nodal_a(a);
  w->nodal_g(a);
  x.f = w->f();
  return x;
}

inline All expected(const Astronomic& a) {
  All all;
  for (int ix = 0; ix < 75; ++ix) {
    all.wave.push_back(fresh(static_cast<Constituent>(ix), a));
  }
  return all;
}

All probe_table(const Astronomic& old, const Astronomic& a) {
  Table t;
  t.compute_nodal_corrections(old);
  for (int ix = 0; ix < 75; ++ix) {
    const auto& w = t[static_cast<Constituent>(ix)];
    w->tide(std::complex<double>(1.0, 2.0));
    w->dynamic(true);
    w->admittance(ix % 2 == 0);
  }
  t.compute_nodal_corrections(a);
  return all_of(t, 0, 75);
}
All ref_table(const Astronomic&, const Astronomic& a) { return expected(a); }

// Tables of part of the constituents.
All probe_sparse(const Astronomic& old, const Astronomic& a) {
  All all;
  for (int start = 0; start < 2; ++start) {
    std::vector<Constituent> ids;
    for (int ix = start; ix < 75; ix += 2) {
      ids.push_back(static_cast<Constituent>(ix));
    }
    Table t(ids);
    t.compute_nodal_corrections(old);
    t.compute_nodal_corrections(a);
    for (int ix = start; ix < 75; ix += 2) {
      const auto& w = t[static_cast<Constituent>(ix)];
      all.wave.push_back(Nodal{w->v(), w->u(), w->f(), w->vu()});
    }
  }
  return all;
}
All ref_sparse(const Astronomic&, const Astronomic& a) {
  All all;
  for (int start = 0; start < 2; ++start) {
    for (int ix = start; ix < 75; ix += 2) {
      all.wave.push_back(fresh(static_cast<Constituent>(ix), a));
    }
  }
  return all;
}

// The corrections of a copy of a table.
All probe_copy(const Astronomic& old, const Astronomic& a) {
  Table t;
  t.compute_nodal_corrections(old);
  Table c(t);
  c.compute_nodal_corrections(a);
  return all_of(c, 0, 75);
}
All ref_copy(const Astronomic&, const Astronomic& a) { return expected(a); }

// The corrections touch nothing else.
struct Rest {
  int ident, type, admittance, dynamic;
  double freq, re, im;
};
struct Rests {
  std::vector<Rest> wave;
};
Rests probe_rest(const Astronomic& a, double re, double im) {
  Table t;
  Rests all;
  for (int ix = 0; ix < 75; ++ix) {
    const auto& w = t[static_cast<Constituent>(ix)];
    w->tide(std::complex<double>(re, im));
    w->dynamic(ix % 3 == 0);
    w->admittance(ix % 2 == 0);
  }
  t.compute_nodal_corrections(a);
  for (int ix = 0; ix < 75; ++ix) {
    const auto& w = t[static_cast<Constituent>(ix)];
    all.wave.push_back(Rest{w->ident(), w->type(), w->admittance(),
                            w->dynamic(), w->freq(), w->tide().real(),
                            w->tide().imag()});
  }
  return all;
}
Rests ref_rest(const Astronomic&, double re, double im) {
  Rests all;
  for (int ix = 0; ix < 75; ++ix) {
    const Def d = ref_def(static_cast<Constituent>(ix));
    all.wave.push_back(
        Rest{ix, d.type, ix % 2 == 0, ix % 3 == 0, d.freq, re, im});
  }
  return all;
}

}  // namespace verif
