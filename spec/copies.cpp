// Copies of wave tables.
#include <complex>
#include <cstdint>
#include <vector>

#include "fes/wave/table.hpp"
#include "keep.hpp"

namespace verif {

using fes::Constituent;
using fes::wave::Table;

struct Wave {
  double re, im, v, u, f;
  bool dynamic, admittance;
};
struct Waves {
  int64_t size;
  std::vector<Wave> list;
};

double tide_re(int ident);
double tide_im(int ident);

inline Waves all(const Table& t) {
  Waves r;
  r.size = static_cast<int64_t>(t.size());
  for (const auto w : t) {
    if (w != nullptr) {
      r.list.push_back(Wave{w->tide().real(), w->tide().imag(), w->v(), w->u(),
                            w->f(), w->dynamic(), w->admittance()});
    }
  }
  return r;
}

inline void change(Table& t, const fes::angle::Astronomic& a) {
  t.compute_nodal_corrections(a);
  for (const auto w : t) {
    if (w != nullptr) {
      w->tide(std::complex<double>(tide_re(w->ident()), tide_im(w->ident())));
      w->dynamic(!w->dynamic());
      w->admittance(!w->admittance());
    }
  }
}
inline Table table(int kind) {
  return kind == 0 ? Table()
                   : Table(std::vector<Constituent>{
                         fes::kM2, fes::kK1, fes::kMm, fes::kL2});
}

// The copy is changed.
Waves probe_original(int kind, const fes::angle::Astronomic& a) {
  const Table t = table(kind);
  keep(t);
  Table copy(t);
  change(copy, a);
  finish();
  return all(t);
}
Waves ref_original(int kind, const fes::angle::Astronomic& a) {
  return all(table(kind));
}

// The original is changed.
Waves probe_copy(int kind, const fes::angle::Astronomic& a) {
  Table t = table(kind);
  const Table copy(t);
  keep(copy);
  change(t, a);
  finish();
  return all(copy);
}
Waves ref_copy(int kind, const fes::angle::Astronomic& a) {
  return all(table(kind));
}

// A copy of a changed table.
Waves probe_changed(int kind, const fes::angle::Astronomic& a) {
  Table t = table(kind);
  change(t, a);
  const Table copy(t);
  return all(copy);
}
Waves ref_changed(int kind, const fes::angle::Astronomic& a) {
  Table t = table(kind);
  change(t, a);
  return all(t);
}

}  // namespace verif
