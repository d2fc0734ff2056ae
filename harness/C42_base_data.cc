// @sources src/infrastructure/parsers/iss/parse_iss.cc src/infrastructure/parsers/iss/iss_files.cc src/infrastructure/parsers/iss/parse_helpers.cc src/infrastructure/parsers/iss/parse_station_route.cc src/infrastructure/parsers/iss/parse_track_element.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/graph/element.cc src/infrastructure/graph/node.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/station/station_route_graph.cc src/infrastructure/regulatory_data.cc src/infrastructure/line.cc src/rolling_stock/parse_train_series.cc src/rolling_stock/rolling_stock.cc src/rolling_stock/rolling_stock_error.cc src/rolling_stock/train_physics.cc
// @model pugi.cc
// @libs -lpugixml
// @bounds index files naming up to 3 rail plan files, 2 core data files, 2 name files and 2 line files in any order, with other files in between; up to 2 lines of up to 3 segments with any positions on a grid of 8 and queried anywhere on it; default values and vehicle data with every number of up to 3 digits; up to 3 series/variants looked up by any series, owner and variant of up to 2 characters
// @assume segments of a line ascend and are contiguous
// @stub pugixml (symbolic runs; native replays use the real library); std::from_chars for floating point is modelled exactly for plain decimals
// @reach before after between renamed shortname found missing gap
#include "common/iss.h"
#include "soro/rolling_stock/rolling_stock.h"
#include "soro/rolling_stock/train_physics.h"
#include "soro/infrastructure/regulatory_data.h"
#include "soro/utls/parse_fp.h"
using namespace iss;

static infrastructure_t parse(files& f) {
  f.opts.interlocking_ = false;
  f.opts.exclusions_ = false;
  f.opts.layout_ = false;
  return f.parse();
}
static bool same(double a, double b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }
static void file(files& f, std::string const& name, std::string const& content) {
  vp::create_file(("infra/" + name).c_str(), el("XmlIssDaten", content));
  f.more_files += el("Datei", el("Name", name));
}
static std::string plain(char const* name) { return el("Spurplanbetriebsstelle", el("Betriebsstelle", name) + el("Spurplanabschnitte", track(1, item("Gleisende", 1, "1") + item("Gleisende", 2, "2")))); }

HARNESS(index) {
  files f;
  f.station("A", track(1, item("Gleisende", 1, "1") + item("Gleisende", 2, "2")));
  bool const b = sym::pick(0, 1, "more") != 0, c = b && sym::pick(0, 1, "more"), turned = sym::pick(0, 1, "turned") != 0;
  bool const name_a = sym::pick(0, 1, "name") != 0, name_b = sym::pick(0, 1, "name") != 0, line = sym::pick(0, 1, "line") != 0, core = sym::pick(0, 1, "core") != 0;
  auto const stations = [&] {
    if (b) file(f, "Spurplanbetriebsstellen_B.xml", el("Spurplanbetriebsstellen", plain("B")));
    if (c) file(f, "Spurplanbetriebsstellen_C.xml", el("Spurplanbetriebsstellen", plain("C") + plain("D")));
  };
  auto const others = [&] {
    auto const named = [](char const* ds, char const* n) { return el("Ordnungsrahmen", el("Betriebsstellen", el("Betriebsstelle", el("DS100", ds) + el("Name", n)))); };
    if (name_a) file(f, "Ordnungsrahmen_ORBtrst_1.xml", named("A", "Anton"));
    if (name_b) file(f, "Ordnungsrahmen_ORBtrst_2.xml", named("B", "Berta"));
    if (line) file(f, "Ordnungsrahmen_ORStr.xml", el("Ordnungsrahmen", el("Strecken", el("Strecke", el("Nr", "77")))));
    file(f, "BaubetrieblicheMassnahmen.xml", "");
    file(f, "Anderes.xml", "");
    if (core) file(f, "Stammdaten_Standardwerte.xml", el("Stammdaten", el("Standardwerte", el("Fahrstrassenbildezeit", "9") + el("Streckenklasse", "D4") + el("BremswegArt", "700") + el("ZulaessigeOrtsfesteGeschwindigkeit", "160"))));
  };
  if (turned) {
    others();
    stations();
  } else {
    stations();
    others();
  }
  auto const t = parse(f);
  sym_check(t.version_.name_ == "v" && t.version_.number_ == 7, "an infrastructure has the version of its index");
  sym_check(t.source_ == "infra", "an infrastructure is named after its folder");
  sym_check(t.stations_.size() == 1U + b + 2 * c, "the stations of all files are read");
  std::vector<char const*> want = {"A"};
  if (b) want.push_back("B");
  if (c) {
    want.push_back("C");
    want.push_back("D");
  }
  for (unsigned i = 0; i < want.size(); ++i) {
    sym_check(t.stations_[i]->ds100_ == want[i] && t.stations_[i]->id_ == i && t.ds100_to_station_.at(want[i]) == t.stations_[i], "stations are read in the order of the index");
    char const* const full = i == 0 && name_a ? "Anton" : i == 1 && name_b ? "Berta" : want[i];
    sym_check(t.full_station_names_[i] == full, "a station has its full name");
    sym_reach(full == want[i] ? "shortname" : "renamed");
  }
  sym_check(t.ds100_to_station_.size() == want.size() && t.full_station_names_.size() == want.size() && t.graph_.sections_.size() == want.size(), "the stations of all files are read");
  sym_check(t.lines_.size() == line && (!line || t.lines_.at(77).id_ == 77), "the lines of all files are read");
  if (core) sym_check(t.defaults_.line_class_ == "D4" && t.defaults_.stationary_speed_limit_ == si::from_km_h(160), "default values are read");
}

// decimal number of up to 3 digits
static std::string any_number() {
  std::string n;
  auto const whole = sym::pick(1, 2, "digits"), parts = sym::pick(0, 1, "digits");
  for (unsigned i = 0; i < whole; ++i) n.push_back(static_cast<char>('0' + sym::range(0, 9, "digit")));
  if (parts) {
    n.push_back(sym::pick(0, 1, "comma") ? ',' : '.');
    n.push_back(static_cast<char>('0' + sym::range(0, 9, "digit")));
  }
  return n;
}
static double value(std::string const& s) { return utls::parse_fp<double, utls::replace_comma::ON>(s); }

HARNESS(defaults) {
  files f;
  f.station("A", track(1, item("Gleisende", 1, "1") + item("Gleisende", 2, "2")));
  auto const form = any_number(), brake = any_number(), speed = std::string("1") + static_cast<char>('0' + sym::range(0, 9, "digit"));
  file(f, "Stammdaten_1.xml", el("Stammdaten", el("Standardwerte", el("Fahrstrassenbildezeit", form) + el("Streckenklasse", "D4") + el("BremswegArt", brake) + el("ZulaessigeOrtsfesteGeschwindigkeit", speed))));
  file(f, "Stammdaten_2.xml", el("Stammdaten", el("Triebfahrzeugbaureihen", "")));
  auto const t = parse(f);
  sym_check(same(t.defaults_.route_form_time_.val_, si::from_s(value(form)).val_) && same(t.defaults_.brake_path_length_.val_, si::from_m(value(brake)).val_) && same(t.defaults_.stationary_speed_limit_.val_, si::from_km_h(value(speed)).val_), "default values are those of the file");
}

// lines and their segments
struct seg {
  unsigned from, to;
  int type;  // index into the kinds, -1 none
};
static char const* const KEY[] = {"1", "2", "3", "8", "13", "14"};
static bool const HAS_SIGNALS[] = {true, true, false, true, false, false}, HAS_TC[] = {false, false, false, true, true, false}, HAS_LINE[] = {false, true, true, false, false, false};
HARNESS(lines) {
  files f;
  f.station("A", track(1, item("Gleisende", 1, "1") + item("Gleisende", 2, "2")));
  auto const count = static_cast<unsigned>(sym::pick(1, 3, "segments"));
  std::vector<seg> segs;
  std::string text;
  unsigned at = static_cast<unsigned>(sym::range(0, 2, "start"));
  unsigned const start = at;
  for (unsigned i = 0; i < count; ++i) {
    auto const to = at + static_cast<unsigned>(sym::range(1, 2, "length"));
    segs.push_back({at, to, static_cast<int>(sym::pick(i ? 2 : -1, i ? 4 : 5, "type"))});
    text += el("Streckenabschnitt", el("KilometrierungVon", std::string(1, static_cast<char>('0' + at))) + el("KilometrierungBis", std::string(1, static_cast<char>('0' + to))) + (segs[i].type < 0 ? std::string() : std::string("<Art Schluessel=\"") + KEY[segs[i].type] + "\"/>"));
    at = to;
  }
  auto const line = [](char const* nr, std::string const& s) { return el("Strecke", el("Nr", nr) + el("Streckenabschnitte", s)); };
  auto const other = el("Streckenabschnitt", el("KilometrierungVon", "0") + el("KilometrierungBis", "9"));
  if (sym::pick(0, 1, "files")) {
    file(f, "Ordnungsrahmen_ORStr_1.xml", el("Ordnungsrahmen", el("Strecken", line("7", text))));
    file(f, "Ordnungsrahmen_ORStr_2.xml", el("Ordnungsrahmen", el("Strecken", line("500", other))));
  } else
    file(f, "Ordnungsrahmen_ORStr.xml", el("Ordnungsrahmen", el("Strecken", line("500", other) + line("7", text))));
  auto const t = parse(f);
  sym_check(t.lines_.size() == 2 && t.lines_.at(500).segments_.size() == 1 && !t.lines_.at(500).segments_[0].signalling_, "the lines of all files are read");
  auto const& l = t.lines_.at(7);
  sym_check(l.id_ == 7 && l.segments_.size() == count, "a line has its segments");
  auto const pos = static_cast<unsigned>(sym::range(0, 9, "position"));
  auto const km = si::from_km(pos);
  for (unsigned i = 0; i < count; ++i) {
    auto const& s = l.segments_[i];
    sym_check(same(s.from_.val_, si::from_km(segs[i].from).val_) && same(s.to_.val_, si::from_km(segs[i].to).val_), "a segment has the extent of the file");
    auto const k = segs[i].type;
    sym_check(s.signalling_ == (k >= 0 && HAS_SIGNALS[k]) && s.etcs_ == (k >= 0 && HAS_TC[k]) && s.lzb_ == (k >= 0 && HAS_LINE[k]), "a segment has the equipment of the file");
    // inside, or beyond either end of the line
    bool const inside = (pos > segs[i].from || (i == 0)) && (pos < segs[i].to || (i + 1 == count));
    sym_check(!inside || (l.has_signalling(km) == s.signalling_ && l.has_etcs(km) == s.etcs_), "a position has the equipment of its segment");
  }
  if (pos < start) sym_reach("before");
  if (pos > at) sym_reach("after");
  if (count > 1 && pos > segs[0].to) sym_reach("between");
}

HARNESS(vehicles) {
  files f;
  f.station("A", track(1, item("Gleisende", 1, "1") + item("Gleisende", 2, "2")));
  auto const weight = any_number(), speed = any_number();
  auto const r = any_number();
  auto const factor = [](unsigned a, unsigned b) { return el("Zugkraftfaktor", el("Faktor1", num(10 * b)) + el("Faktor2", "-1,5") + el("Faktor3", "0,5") + el("GeschwindigkeitVon", num(a)) + el("GeschwindigkeitBis", num(b))); };
  bool const gap = sym::pick(0, 1, "gap") != 0;
  auto const variant = [&](char const* nr, char const* name, std::string const& factors) {
    return el("Triebfahrzeugbaureihenvariante", el("Variante", nr) + el("Bezeichnung", name) + el("EigenGewicht", weight) + el("ZulaessigeGeschwindigkeit", speed) + el("Laufwiderstandsfaktor1", r) + el("Laufwiderstandsfaktor2", "2") + el("Laufwiderstandsfaktor3", "3") + el("Stromartausruestungen", el("Stromartausruestung", el("Zugkraftfaktoren", factors))));
  };
  auto const series = [](char const* nr, char const* owner, std::string const& variants) { return el("Triebfahrzeugbaureihe", el("Nr", nr) + "<Eisenbahnunternehmen Nr=\"" + owner + "\"/>" + el("Triebfahrzeugbaureihenvarianten", variants)); };
  auto const one = series("1", "8", variant("1", "a", factor(0, 40) + factor(gap ? 41 : 40, 80)) + variant("2", "b", factor(0, 36)));
  auto const two = series("1", "85", variant("1", "c", factor(0, 36)));
  if (sym::pick(0, 1, "files")) {
    file(f, "Stammdaten_1.xml", el("Stammdaten", el("Triebfahrzeugbaureihen", one)));
    file(f, "Stammdaten_2.xml", el("Stammdaten", el("Triebfahrzeugbaureihen", two)));
  } else
    file(f, "Stammdaten_1.xml", el("Stammdaten", el("Triebfahrzeugbaureihen", two + one)));
  auto const t = parse(f);
  sym_check(t.rolling_stock_.train_series_.size() == 2, "every series is read");
  // any series, owner and variant, within longer texts
  auto const text = [](char const* what) {
    std::string s;
    auto const n = sym::pick(0, 2, what);
    for (unsigned i = 0; i < n; ++i) {
      auto const c = sym::range('0', '9', what);
      s.push_back(static_cast<char>(c));
    }
    return s;
  };
  auto const nr = text("series"), owner = text("owner");
  auto const v = static_cast<rs::variant_id>(sym::range(0, 3, "variant"));
  std::string const nr_in = nr + "5", owner_in = owner + "5";
  auto const got = t.rolling_stock_.get_traction_vehicle(std::string_view{nr_in.data(), nr.size()}, std::string_view{owner_in.data(), owner.size()}, v);
  char const* want = nullptr;
  if (nr == "1" && owner == "8") want = v == 1 && !gap ? "a" : v == 2 ? "b" : nullptr;
  if (nr == "1" && owner == "85") want = v == 1 ? "c" : nullptr;
  sym_check(got.has_value() == (want != nullptr), "exactly the vehicles of the file are found");
  sym_reach(want ? "found" : "missing");
  if (gap) sym_reach("gap");
  if (!got || !want) return;
  auto const& x = *got;
  sym_check(x.name_ == want, "the vehicle asked for is found");
  sym_check(same(x.weight_.val_, si::from_ton(value(weight)).val_) && same(x.max_speed_.val_, si::from_km_h(value(speed)).val_), "a vehicle has the weight and speed of the file");
  if (*want == 'a') {
    sym_check(x.tractive_curve_.pieces_.size() == 2, "a vehicle has all pieces of its tractive force");
    // 36 km/h are 10 m/s
    auto const force = [&](double a, double kmh) { return a * 1000 + (-1.5 * 1000 * 3.6) * (kmh / 3.6) + 0.5 * 1000 * 3.6 * 3.6 * (kmh / 3.6) * (kmh / 3.6); };
    for (unsigned kmh : {0U, 36U, 54U, 72U}) {
      auto const got_force = x.tractive_curve_(si::from_km_h(kmh)).val_, want_force = force(kmh < 40 ? 400 : 800, kmh);
      sym_check(got_force > want_force - 0.01 && got_force < want_force + 0.01, "tractive force follows the factors of the file");
    }
    rs::train_physics const p{{x, x}, si::from_ton(1), si::from_m(1), si::from_km_h(30), rs::CTC::NO, rs::FreightTrain::NO};
    sym_check(same(p.tractive_force(si::from_km_h(36)).val_, x.tractive_curve_(si::from_km_h(36)).val_ * 2), "several vehicles pull together");
    sym_check(p.max_speed() <= x.max_speed_ && p.max_speed() <= si::from_km_h(30) && (p.max_speed() == x.max_speed_ || p.max_speed() == si::from_km_h(30)), "a train is as fast as its slowest part allows");
  }
}
