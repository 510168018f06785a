// Names of the constituents and lookup in the tables of waves.
#include <cctype>
#include <stdexcept>
#include <string>
#include <vector>

#include "fes/constituent.hpp"
#include "fes/wave.hpp"
#include "fes/wave/table.hpp"

namespace verif {

using fes::Constituent;
using fes::wave::Table;

// Documented names, in the order of the identifiers.
constexpr const char* const kNames[75] = {
    "Mm",    "Mf",    "Mtm",  "Msqm", "2Q1",  "Sigma1",  "Q1",   "Rho1",
    "O1",    "MP1",   "M11",  "M12",  "M13",  "Chi1",    "Pi1",  "P1",
    "S1",    "K1",    "Psi1", "Phi1", "Theta1", "J1",    "OO1",  "MNS2",
    "Eps2",  "2N2",   "Mu2",  "2MS2", "N2",   "Nu2",     "M2",   "MKS2",
    "Lambda2", "L2",  "2MN2", "T2",   "S2",   "R2",      "K2",   "MSN2",
    "Eta2",  "2SM2",  "MO3",  "2MK3", "M3",   "MK3",     "N4",   "MN4",
    "M4",    "SN4",   "MS4",  "MK4",  "S4",   "SK4",     "R4",   "2MN6",
    "M6",    "MSN6",  "2MS6", "2MK6", "2SM6", "MSK6",    "S6",   "M8",
    "MSf",   "Ssa",   "Sa",   "Sa1",  "Sta",  "Mm1",     "Mf1",  "A5",
    "M0",    "Mm2",   "Mf2"};

inline bool letter(char c) { return c >= 'A' && c <= 'Z'; }

inline bool same_name(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) {
    return false;
  }
  for (size_t ix = 0; ix < a.size(); ++ix) {
    const int x = letter(a[ix]) ? a[ix] + 32 : a[ix];
    const int y = letter(b[ix]) ? b[ix] + 32 : b[ix];
    if (x != y) {
      return false;
    }
  }
  return true;
}

struct Id {
  int ident;
};

// Any string, by length: name is a list of symbolic characters.
Id probe_parse(const std::string& name) {
  return Id{fes::constituents::parse(name)};
}
Id ref_parse(const std::string& name) {
  for (int ix = 0; ix < 75; ++ix) {
    if (same_name(name, kNames[ix])) {
      return Id{ix};
    }
  }
  throw std::invalid_argument("unknown");
}

// Every identifier.
struct Named {
  std::string name, wave;
  int ident;
};
Named probe_name(Constituent id) {
  auto w = Table::wave_factory(id);
  return Named{fes::constituents::name(id), w->name(), w->ident()};
}
Named ref_name(Constituent id) {
  if (id > 74) {
    throw std::invalid_argument("unknown");
  }
  return Named{kNames[id], kNames[id], id};
}

struct Names {
  std::vector<std::string> names;
};
Names probe_known() { return Names{fes::constituents::known()}; }
Names ref_known() {
  Names all;
  for (int ix = 0; ix < 75; ++ix) {
    all.names.push_back(kNames[ix]);
  }
  return all;
}

// Tables holding the constituents with selected[ix].
struct Content {
  int size;
  std::vector<int> by_position, by_iteration, by_iteration_mutable;
  std::vector<std::string> constituents;
  std::vector<int> by_ident, by_ident_mutable, by_name;
};

inline int ident_of(const std::shared_ptr<fes::Wave>& w) {
  return w ? w->ident() : -1;
}

inline Content content(Table& t) {
  Content c;
  const Table& k = t;
  c.size = static_cast<int>(k.size());
  for (size_t ix = 0; ix < k.size(); ++ix) {
    c.by_position.push_back(k[ix]->ident());
  }
  for (const auto& item : k) {
    c.by_iteration.push_back(item->ident());
  }
  for (auto it = t.begin(); it != t.end(); ++it) {
    c.by_iteration_mutable.push_back((*it)->ident());
  }
  c.constituents = k.constituents();
  for (int ix = 0; ix < 75; ++ix) {
    const auto id = static_cast<Constituent>(ix);
    int found = -1;
    try {
      found = k[id]->ident();
    } catch (const std::out_of_range&) {
      found = -1;
    }
    c.by_ident.push_back(found);
    found = -1;
    try {
      found = t[id]->ident();
    } catch (const std::out_of_range&) {
      found = -1;
    }
    c.by_ident_mutable.push_back(found);
    c.by_name.push_back(ident_of(k.find(kNames[ix])));
  }
  return c;
}

inline Content expected(const std::vector<bool>& selected) {
  Content c;
  c.size = 0;
  for (int ix = 0; ix < 75; ++ix) {
    if (selected[ix]) {
      ++c.size;
      c.by_position.push_back(ix);
      c.by_iteration.push_back(ix);
      c.by_iteration_mutable.push_back(ix);
      c.constituents.push_back(kNames[ix]);
    }
    c.by_ident.push_back(selected[ix] ? ix : -1);
    c.by_ident_mutable.push_back(selected[ix] ? ix : -1);
    c.by_name.push_back(selected[ix] ? ix : -1);
  }
  return c;
}

inline Content expected(const std::vector<std::string>& names) {
  std::vector<bool> selected(75, names.empty());
  for (size_t ix = 0; ix < names.size(); ++ix) {
    selected[ref_parse(names[ix]).ident] = true;
  }
  return expected(selected);
}

// Tables built from a list of names, in any order and letter case, and with
// repetitions.
Content probe_names(const std::vector<std::string>& names) {
  Table t(names);
  return content(t);
}
Content ref_names(const std::vector<std::string>& names) {
  return expected(names);
}

// Tables built from identifiers.
Content probe_idents(const std::vector<Constituent>& ids) {
  Table t(ids);
  return content(t);
}
Content ref_idents(const std::vector<Constituent>& ids) {
  std::vector<bool> selected(75, ids.empty());
  for (size_t ix = 0; ix < ids.size(); ++ix) {
    selected[ids[ix]] = true;
  }
  return expected(selected);
}

// Copies and assignments of tables.
Content probe_copies(const std::vector<Constituent>& ids) {
  Table t(ids);
  Table c(t);
  Table a;
  a = c;
  return content(a);
}
Content ref_copies(const std::vector<Constituent>& ids) {
  return ref_idents(ids);
}

// Positions and names that a table does not hold.
Id probe_beyond(const std::vector<Constituent>& ids, size_t index) {
  Table t(ids);
  return Id{t[index]->ident()};
}
Id ref_beyond(const std::vector<Constituent>&, size_t) {
  throw std::out_of_range("position");
}
Id probe_unknown(const std::string& name) {
  Table t;
  return Id{ident_of(t.find(name))};
}
Id ref_unknown(const std::string& name) { return ref_parse(name); }

}  // namespace verif
