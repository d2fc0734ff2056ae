// infrastructure files in the ISS format, held in memory
#pragma once
#include "common/vec.h"
#include <string>
#include "vp_files.h"
#include "soro/infrastructure/infrastructure_t.h"
#include "soro/infrastructure/parsers/iss/parse_iss.h"

namespace iss {
using namespace soro;
using namespace soro::infra;

inline std::string el(char const* name, std::string const& inner) { return std::string("<") + name + ">" + inner + "</" + name + ">"; }
inline std::string num(unsigned v) {
  std::string s;
  do s.insert(s.begin(), static_cast<char>('0' + v % 10));
  while (v /= 10);
  return s;
}
inline std::string ref(char const* name, unsigned id) { return std::string("<") + name + " ID=\"" + num(id) + "\"/>"; }
// a node of the rail plan
inline std::string item(char const* name, unsigned id, std::string const& km, std::string const& more = "") {
  return el(name, el("ID", num(id)) + el("Kilometrierung", km) + more);
}
inline std::string track(unsigned line, std::string const& nodes) { return el("Spurplanabschnitt", el("Strecke", num(line)) + el("Spurplanknoten", nodes)); }

struct files {
  std::string stations;
  void station(char const* name, std::string const& sections, std::string const& routes = "") {
    stations += el("Spurplanbetriebsstelle", el("Betriebsstelle", name) + el("Spurplanabschnitte", sections) + (routes.empty() ? routes : el("Betriebsstellenfahrwege", routes)));
  }
  std::string more_files;  // entries of the index
  infrastructure_options opts{};
  infrastructure_t parse() {
    vp::create_file("infra/Index.xml", el("XmlIssIndex", el("SpurplandatenVersion", el("Name", "v") + el("Nummer", "7")) + el("Dateien", el("Datei", el("Name", "Spurplanbetriebsstellen_1.xml")) + more_files)));
    vp::create_file("infra/Spurplanbetriebsstellen_1.xml", el("XmlIssDaten", el("Spurplanbetriebsstellen", stations)));
    opts.infrastructure_path_ = "infra";
    return parse_iss(opts);
  }
};
}  // namespace iss
