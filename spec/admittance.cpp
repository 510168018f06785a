// Inference of the minor constituents by admittance.
#include <complex>
#include <vector>

#include "fes/wave.hpp"
#include "fes/wave/table.hpp"

namespace verif {

using fes::Constituent;
using fes::wave::Table;

struct Wave {
  double re, im, f, v, u, vu, freq, period;
  int ident, type, admittance, dynamic;
};
struct Waves {
  std::vector<Wave> wave;
};

inline void prepare(Table& t, const std::vector<double>& re,
                    const std::vector<double>& im,
                    const std::vector<int>& inferred,
                    const std::vector<int>& dynamic,
                    const fes::angle::Astronomic& a) {
  t.compute_nodal_corrections(a);
  for (int ix = 0; ix < 75; ++ix) {
    const auto& w = t[static_cast<Constituent>(ix)];
    w->tide(std::complex<double>(re[ix], im[ix]));
    w->admittance(inferred[ix] > 0);
    w->dynamic(dynamic[ix] > 0);
  }
}

inline Waves collect(const Table& t) {
  Waves r;
  for (int ix = 0; ix < 75; ++ix) {
    const auto& w = t[static_cast<Constituent>(ix)];
    r.wave.push_back(Wave{w->tide().real(), w->tide().imag(), w->f(), w->v(),
                          w->u(), w->vu(), w->freq(), w->period(), w->ident(),
                          w->type(), w->admittance(), w->dynamic()});
  }
  return r;
}

Waves probe_inference(const std::vector<double>& re,
                      const std::vector<double>& im,
                      const std::vector<int>& inferred,
                      const std::vector<int>& dynamic,
                      const fes::angle::Astronomic& a) {
  Table t;
  prepare(t, re, im, inferred, dynamic, a);
  t.admittance();
  return collect(t);
}

// A second inference, for other values, does not depend on the first.
Waves probe_again(const std::vector<double>& re0,
                  const std::vector<double>& im0, const std::vector<double>& re,
                  const std::vector<double>& im,
                  const std::vector<int>& inferred,
                  const std::vector<int>& dynamic,
                  const fes::angle::Astronomic& a) {
  Table t;
  prepare(t, re0, im0, inferred, dynamic, a);
  t.admittance();
  for (int ix = 0; ix < 75; ++ix) {
    t[static_cast<Constituent>(ix)]->tide(
        std::complex<double>(re[ix], im[ix]));
  }
  t.admittance();
  return collect(t);
}

// R. Ray (perth) for the diurnal band, GRL 18[5] 845-848 (1991) splines and
// Grenoble relations for the semidiurnal band.
Waves ref_inference(const std::vector<double>& re,
                    const std::vector<double>& im,
                    const std::vector<int>& inferred,
                    const std::vector<int>& dynamic,
                    const fes::angle::Astronomic& a) {
  Table t;
  prepare(t, re, im, inferred, dynamic, a);
  Waves r = collect(t);
  auto set = [&](int id, int a, double ca, int b, double cb, int c, double cc) {
    if (inferred[id] > 0) {
      r.wave[id].re =
          ca * r.wave[a].re + cb * r.wave[b].re + cc * r.wave[c].re;
      r.wave[id].im =
          ca * r.wave[a].im + cb * r.wave[b].im + cc * r.wave[c].im;
    }
  };
  const int q1 = 6, o1 = 8, k1 = 17, n2 = 28, m2 = 30, k2 = 38, t2n2 = 25;
  set(4, q1, 0.263, o1, -0.0252, q1, 0);      // 2Q1
  set(5, q1, 0.297, o1, -0.0264, q1, 0);      // Sigma1
  set(7, q1, 0.164, o1, 0.0048, q1, 0);       // Rho1
  set(10, o1, 0.0389, k1, 0.0282, q1, 0);     // M11
  set(11, o1, 0.0140, k1, 0.0101, q1, 0);     // M12
  set(13, o1, 0.0064, k1, 0.0060, q1, 0);     // Chi1
  set(14, o1, 0.0030, k1, 0.0171, q1, 0);     // Pi1
  set(19, o1, -0.0015, k1, 0.0152, q1, 0);    // Phi1
  set(20, o1, -0.0065, k1, 0.0155, q1, 0);    // Theta1
  set(21, o1, -0.0389, k1, 0.0836, q1, 0);    // J1
  set(22, o1, -0.0431, k1, 0.0613, q1, 0);    // OO1
  set(25, n2, 0.264, m2, -0.0253, q1, 0);     // 2N2
  set(24, t2n2, 0.53285, n2, -0.03304, q1, 0);  // Eps2
  set(40, m2, -0.0034925, k2, 0.0831707, q1, 0);  // Eta2
  set(26, k2, 0.069439968323, n2, 0.351535557706, m2, -0.046278307672);
  set(29, k2, -0.006104695053, n2, 0.156878802427, m2, 0.006755704028);
  set(32, k2, 0.016503557465, n2, -0.013307812292, m2, 0.007753383202);
  set(33, k2, 0.077137765667, n2, -0.051653455134, m2, 0.027869916824);
  set(35, k2, 0.180480173707, n2, -0.020101177502, m2, 0.008331518844);
  return r;
}

Waves ref_again(const std::vector<double>&, const std::vector<double>&,
                const std::vector<double>& re, const std::vector<double>& im,
                const std::vector<int>& inferred,
                const std::vector<int>& dynamic,
                const fes::angle::Astronomic& a) {
  return ref_inference(re, im, inferred, dynamic, a);
}

// The constituents that allow inference, and no other.
struct Flags {
  std::vector<int> flag;
};
Flags probe_allowed() {
  Flags r;
  Table t;
  for (int ix = 0; ix < 75; ++ix) {
    r.flag.push_back(t[static_cast<Constituent>(ix)]->admittance());
  }
  return r;
}
Flags ref_allowed() {
  Flags r;
  const int ids[19] = {4,  5,  7,  10, 11, 13, 14, 19, 20, 21,
                       22, 24, 25, 26, 29, 32, 33, 35, 40};
  for (int ix = 0; ix < 75; ++ix) {
    int flag = 0;
    for (int jx = 0; jx < 19; ++jx) {
      flag = ids[jx] == ix ? 1 : flag;
    }
    r.flag.push_back(flag);
  }
  return r;
}

}  // namespace verif
