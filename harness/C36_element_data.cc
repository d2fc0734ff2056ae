// @sources src/infrastructure/parsers/iss/parse_iss.cc src/infrastructure/parsers/iss/iss_files.cc src/infrastructure/parsers/iss/get_infra_stats.cc src/infrastructure/parsers/iss/parse_helpers.cc src/infrastructure/parsers/iss/parse_station_route.cc src/infrastructure/parsers/iss/parse_track_element.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/graph/element.cc src/infrastructure/graph/node.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/station/station_route_graph.cc src/infrastructure/regulatory_data.cc src/infrastructure/line.cc src/rolling_stock/parse_train_series.cc
// @model pugi.cc
// @libs -lpugixml
// @bounds every kind of track element of the ISS format in both directions; speed limits, slopes and positions with every number of up to 3 digits in all notations and units; names of up to 2 arbitrary characters; statistics of files with up to 2 stations, a switch, a km jump, a cross, borders and up to 2 track elements each present or not
// @assume characters with a meaning in XML do not occur in names
// @stub pugixml (symbolic runs; native replays use the real library); std::from_chars for floating point is modelled exactly for plain decimals
// @reach here signal special metres kilometres plus
#include "common/iss.h"
#include "soro/infrastructure/parsers/iss/get_infra_stats.h"
#include "soro/infrastructure/parsers/iss/iss_files.h"
#include "soro/infrastructure/parsers/iss/parse_helpers.h"
#include "soro/utls/parse_fp.h"
using namespace iss;

static infrastructure_t parse(files& f) {
  f.opts.interlocking_ = false;
  f.opts.exclusions_ = false;
  f.opts.layout_ = false;
  return f.parse();
}
struct kind {
  char const* name;
  enum type type;
};
static kind const DIRECTED[] = {{"Hauptsignal", type::MAIN_SIGNAL}, {"Vorsignal", type::APPROACH_SIGNAL}, {"Schutzsignal", type::PROTECTION_SIGNAL}, {"SignalZugschlussstelle", type::EOTD}, {"FstrZugschlussstelle", type::EOTD}, {"GeschwZulaessig", type::SPEED_LIMIT}, {"GeschwEndeSpeziell", type::SPEED_LIMIT}, {"Punktgeschw", type::POINT_SPEED}, {"Zwangshalt", type::FORCED_HALT}, {"Fahrzeitmesspunkt", type::RUNTIME_CHECKPOINT}, {"HalteplatzGz", type::HALT}, {"HalteplatzRzLinks", type::HALT}, {"HalteplatzRzRechts", type::HALT}, {"HalteplatzRzBeide", type::HALT}, {"HalteplatzRzRechtsLinks", type::HALT}, {"Bremsweg", type::BRAKE_PATH}, {"LZBAnfang", type::LZB_START}, {"LZBEnde", type::LZB_END}, {"LZBBlockkennzeichen", type::LZB_BLOCK_SIGN}, {"ETCSAnfang", type::ETCS_START}, {"ETCSEnde", type::ETCS_END}, {"ETCSBlockkennzeichen", type::ETCS_BLOCK_SIGN}};
static kind const UNDIRECTED[] = {{"Tunnel", type::TUNNEL}, {"Zugang", type::ENTRY}, {"Gleisbezeichnung", type::TRACK_NAME}, {"Fahrzeitmesspunkt", type::RUNTIME_CHECKPOINT_UNDIRECTED}, {"Bahnuebergang", type::LEVEL_CROSSING}, {"Neigung", type::SLOPE}};
static std::string limit_text() { return el("Wirkungsort", "Hier") + el("Zugbeeinflussung", "Alle"); }

// the only element of the parsed section that is not inserted by the parser
static element::ptr the_element(infrastructure_t const& t) {
  element::ptr found = nullptr;
  unsigned n = 0;
  for (auto e : t.graph_.sections_[0].rising_order_)
    if (e->is_track_element() && !e->is(type::META)) {
      found = e;
      ++n;
    }
  sym_check(n == 1, "a section has the elements of the file");
  return found;
}
static infrastructure_t with(std::string const& name, std::string const& more) {
  files f;
  f.station("A", track(7, item("Gleisende", 1, "0") + item(name.c_str(), 2, "1", more) + item("Gleisende", 3, "2")));
  return parse(f);
}
static std::string text(char const* what) {
  std::string s;
  auto const n = sym::pick(0, 2, "length");
  for (unsigned i = 0; i < n; ++i) {
    auto const c = sym::u8(what);
    sym_assume(c > ' ' && c != '<' && c != '>' && c != '&' && c < 127);
    s.push_back(static_cast<char>(c));
  }
  return s;
}
// a number of up to 3 digits
struct number {
  std::string text;
  unsigned thousandths = 0;
  double value() const { return static_cast<double>(thousandths) / 1000; }
};
static number any_number(bool const comma) {
  number n;
  auto const whole = sym::pick(1, 2, "digits"), parts = sym::pick(0, 1, "digits");
  for (unsigned i = 0; i < whole; ++i) {
    auto const d = static_cast<unsigned>(sym::range(0, 9, "digit"));
    n.text.push_back(static_cast<char>('0' + d));
    n.thousandths = n.thousandths * 10 + d;
  }
  n.thousandths *= 1000;
  if (parts) {
    auto const d = static_cast<unsigned>(sym::range(0, 9, "digit"));
    n.text.push_back(comma && sym::pick(0, 1, "comma") ? ',' : '.');
    n.text.push_back(static_cast<char>('0' + d));
    n.thousandths += 100 * d;
  }
  return n;
}
static bool same(double a, double b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }

HARNESS(kinds) {
  bool const directed = sym::pick(0, 1, "directed") != 0;
  bool const up = directed && sym::pick(0, 1, "up");
  auto const& k = directed ? DIRECTED[sym::pick(0, 21, "kind")] : UNDIRECTED[sym::pick(0, 5, "kind")];
  auto const t = with(std::string(k.name) + (directed ? up ? "S" : "F" : ""), k.type == type::SPEED_LIMIT ? limit_text() : k.type == type::SLOPE ? el("Steigend", "1") + el("Fallend", "2") : std::string());
  auto const e = the_element(t);
  sym_check(e->type() == k.type && e->is(k.type), "an element has the type of the file");
  sym_check(e->is_directed_track_element() == directed && e->is_undirected_track_element() == !directed && e->is_track_element() && !e->is_section_element() && !e->is_end_element() && !e->is_simple_element(), "kind of the element");
  if (directed) {
    sym_check(e->rising() == up && e->falling() == !up, "an element has the direction of the file");
    sym_check(e->as<track_element>().km_ == si::from_km(1) && e->as<track_element>().line_ == 7, "an element has the position of the file");
  } else
    sym_check(e->as<undirected_track_element>().km_ == si::from_km(1) && e->as<undirected_track_element>().line_ == 7, "an element has the position of the file");
}
HARNESS(unknown) {
  // kinds that are not modelled do not disturb
  static char const* const K[] = {"Bildpunkt", "Streckenklasse", "Warnfeld", "Unbekannt"};
  files f;
  f.station("A", track(7, item("Gleisende", 1, "0") + item(K[sym::pick(0, 3, "kind")], 2, "1") + item("Tunnel", 4, "1") + item("Gleisende", 3, "2")));
  auto const t = parse(f);
  sym_check(the_element(t)->is(type::TUNNEL) && t.graph_.elements_.size() == 3, "kinds that are not modelled are left out");
}
HARNESS(limits) {
  static char const* const N[] = {"GeschwZulaessigS", "GeschwZulaessigF", "GeschwEndeSpeziellS", "GeschwEndeSpeziellF"};
  static char const* const P[] = {"Hier", "Signal"};
  static char const* const B[] = {"Alle", "Konventionell", "LZB"};
  auto const k = sym::pick(0, 3, "kind"), place = sym::pick(0, 1, "place"), whom = sym::pick(0, 2, "whom");
  bool const computed = sym::pick(0, 1, "computed") != 0;
  auto const what = sym::pick(0, 3, "what");
  std::string more = el("Wirkungsort", P[place]) + el("Zugbeeinflussung", B[whom]) + (computed ? "<Berechnet/>" : "");
  number speed, length;
  if (what == 1) more += el("Geschw", (speed = any_number(true)).text);
  if (what >= 2) more += std::string("<Laenge Einheit=\"") + (what == 2 ? "m" : "km") + "\">" + (length = any_number(true)).text + "</Laenge>";
  auto const t = with(N[k], more);
  auto const e = the_element(t);
  auto const& l = t.graph_.element_data<speed_limit>(e->nodes()[0]);
  sym_check(l.type_ == (k < 2 ? speed_limit::type::GENERAL_ALLOWED : speed_limit::type::END_SPECIAL), "kind of the speed limit");
  sym_check(l.poa_ == (place ? speed_limit::poa::LAST_SIGNAL : speed_limit::poa::HERE), "a speed limit takes effect where the file says");
  sym_check(l.effects_ == (whom == 0 ? speed_limit::effects::ALL : whom == 1 ? speed_limit::effects::CONVENTIONAL : speed_limit::effects::LZB_ETCS), "a speed limit affects the trains the file says");
  sym_check(l.calculated_ == computed && l.element_ == e && l.node_ == e->nodes()[0], "a speed limit knows its element");
  if (what == 1)
    sym_check(same(l.limit_.val_, si::from_km_h(speed.value()).val_), "a speed limit has the speed of the file");
  else
    sym_check(!si::valid(l.limit_), "a speed limit has the speed of the file");
  if (what >= 2)
    sym_check(same(l.length_.val_, (what == 2 ? si::from_m(length.value()) : si::from_km(length.value())).val_), "a speed limit has the length of the file");
  else
    sym_check(!si::valid(l.length_), "a speed limit has the length of the file");
  sym_reach(place ? "signal" : "here");
  if (k >= 2) sym_reach("special");
  if (what == 2) sym_reach("metres");
  if (what == 3) sym_reach("kilometres");
}
HARNESS(slopes) {
  auto const up = any_number(true), down = any_number(true);
  auto const t = with("Neigung", el("Steigend", up.text) + el("Fallend", down.text));
  auto const& s = t.graph_.element_data<slope>(the_element(t)->nodes()[0]);
  sym_check(same(s.rising_.val_, up.value()) && same(s.falling_.val_, down.value()), "a slope has the values of the file");
}
HARNESS(names) {
  auto const what = sym::pick(0, 2, "what");
  auto const a = text("name");
  if (what == 0) {
    auto const t = with(sym::pick(0, 1, "up") ? "HauptsignalS" : "HauptsignalF", el("Name", a));
    sym_check(t.graph_.element_data<main_signal>(the_element(t)->nodes()[0]).name_ == a.c_str(), "a main signal has its name");
  } else if (what == 1) {
    static kind const H[] = {{"HalteplatzGzS", type::HALT}, {"HalteplatzRzLinksF", type::HALT}, {"HalteplatzRzRechtsS", type::HALT}, {"HalteplatzRzRechtsLinksF", type::HALT}, {"HalteplatzRzBeideS", type::HALT}};
    auto const k = sym::pick(0, 4, "kind");
    auto const t = with(H[k].name, el("Name", a) + el("BezeichnerBetrieb", "o") + el("BezeichnerExtern", "x"));
    auto const& h = t.graph_.element_data<halt>(the_element(t)->nodes()[0]);
    sym_check(h.name_ == a.c_str() && h.identifier_operational_ == "o" && h.identifier_extern_ == "x", "a halt has its names");
    sym_check(h.is_passenger_ == (k != 0), "a halt is for passengers or freight");
    if (k < 4) sym_check(h.is_left_ == (k == 1 || k == 3) && h.is_right_ == (k == 2 || k == 3), "a halt has its side");
  } else {
    static char const* const E[] = {"SignalZugschlussstelleS", "SignalZugschlussstelleF", "FstrZugschlussstelleS", "FstrZugschlussstelleF"};
    auto const k = sym::pick(0, 3, "kind");
    auto const t = with(E[k], "");
    sym_check(t.graph_.element_data<eotd>(the_element(t)->nodes()[0]).signal_ == (k < 2), "an end of train detector belongs to a signal or a route");
  }
}
HARNESS(switches) {
  files f;
  auto const name = text("name");
  bool const ident = sym::pick(0, 1, "identifier") != 0;
  auto const more = el("Name", name) + (ident ? el("Oberflaechenbezeichner", "u") : std::string()) + ref("Partner", 4);
  f.station("A", track(1, item("Gleisende", 1, "0") + item("Weichenanfang", 3, "1", more)) + track(1, item("Weichenstamm", 4, "1", ref("Partner", 3)) + item("Gleisende", 5, "2")) + track(1, item("WeichenabzweigLinks", 6, "1", ref("Partner", 3)) + item("Gleisende", 7, "2")));
  auto const t = parse(f);
  auto const& d = t.graph_.element_data<switch_data>(t.graph_.sections_[0].last_rising()->nodes()[0]);
  sym_check(d.name_ == name.c_str() && d.ui_identifier_.has_value() == ident && (!ident || *d.ui_identifier_ == "u"), "a switch has its names");
}
HARNESS(kilometrage_text) {
  auto const a = any_number(true), b = any_number(true);
  bool const plus = sym::pick(0, 1, "plus") != 0;
  auto const km = parse_kilometrage(plus ? a.text + "+" + b.text : a.text);
  if (plus) sym_reach("plus");
  if (!plus)
    sym_check(same(km.val_, si::from_km(a.value()).val_), "a position has the value of the file");
  else {
    // how a single number is read is checked above
    auto const part = [](number const& n) { return si::from_km(utls::parse_fp<double, utls::replace_comma::ON>(n.text)); };
    sym_check(same(km.val_, (part(a) + part(b)).val_), "a position is the sum of its parts");
  }
}
HARNESS(statistics) {
  files f;
  std::string a, b;
  unsigned id = 1;
  auto const n = [&](char const* name, char const* km, std::string const& more = "") { return item(name, id++, km, more); };
  std::string some;
  auto const elements = sym::pick(0, 2, "elements");
  for (unsigned i = 0; i < elements; ++i) {
    auto const k = sym::pick(0, 2, "kind");
    some += n(k == 0 ? "HauptsignalS" : k == 1 ? "VorsignalF" : "Tunnel", "0,5");
  }
  some += n("Bildpunkt", "0,5");
  a += track(1, n("Prellbock", "0") + some + n("Gleisende", "1"));
  if (sym::pick(0, 1, "switch")) {
    auto const w = id + 1;
    a += track(1, n("Gleisende", "0") + n("Weichenanfang", "1", ref("Partner", w + 1)));
    a += track(1, n("Weichenstamm", "1", ref("Partner", w)) + n("Gleisende", "2"));
    a += track(1, n("WeichenabzweigRechts", "1", ref("Partner", w)) + n("Gleisende", "2"));
  }
  if (sym::pick(0, 1, "jump")) {
    auto const w = id;
    a += track(1, n("KmSprungAnfang", "5", ref("Partnerknoten", w + 3)) + n("Gleisende", "6"));
    a += track(1, n("Gleisende", "1") + n("KmSprungEnde", "2", ref("Partnerknoten", w)));
  }
  if (sym::pick(0, 1, "cross")) {
    auto const w = id + 1;
    a += track(1, n("Gleisende", "0") + n("KreuzungAnfangLinks", "1"));
    a += track(1, n("KreuzungEndeLinks", "1", ref("NachbarGeradeaus", w)) + n("Gleisende", "2"));
    a += track(2, n("Gleisende", "0") + n("KreuzungAnfangRechts", "1", ref("HauptknotenAnfang", w)));
    a += track(2, n("KreuzungEndeRechts", "1", ref("HauptknotenAnfang", w)) + n("Gleisende", "2"));
  }
  bool const two = sym::pick(0, 1, "stations") != 0;
  if (two) {
    a += track(1, n("Gleisende", "1") + n("Betriebsstellengrenze", "2", el("PartnerBtrst", "B") + el("Gleiskennzeichen", "1")));
    b += track(1, n("Betriebsstellengrenze", "2", el("PartnerBtrst", "A") + el("Gleiskennzeichen", "1")) + n("Gleisende", "3"));
  }
  f.station("A", a);
  if (two) f.station("B", b);
  auto const t = parse(f);
  auto const s = get_infra_stats(get_iss_files(sym::pick(0, 1, "path") ? "infra" : "infra/Index.xml"));
  sym_check(s.stations_ == t.stations_.size() && s.sections_ == t.graph_.sections_.size(), "statistics count stations and sections");
  std::size_t total = 0;
  for (auto const k : all_types()) {
    std::size_t have = 0;
    for (auto e : t.graph_.elements_) have += e->is(k) && k != type::META;
    sym_check(s.number(k) == have, "statistics count the elements of every type");
    total += have;
  }
  sym_check(s.total_elements() == total, "statistics count all elements");
}
