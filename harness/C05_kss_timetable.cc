// @sources src/timetable/parsers/kss/parse_kss_timetable.cc src/timetable/parsers/kss/kss_error.cc  src/timetable/timetable_error.cc src/timetable/timetable.cc src/timetable/parsers/station_route_to_interlocking_route.cc src/timetable/parsers/route_transform_error.cc src/timetable/sequence_point.cc src/timetable/train.cc src/timetable/bitfield.cc src/infrastructure/path/length.cc src/infrastructure/interlocking/get_interlocking.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc src/rolling_stock/rolling_stock.cc src/rolling_stock/rolling_stock_error.cc src/rolling_stock/train_physics.cc
// @model pugi.cc
// @libs -lpugixml
// @bounds trains of 2 or 3 stops; up to 2 service periods of up to 3 days with one included and one excluded date each; every time of day and duration of up to 3 two-digit parts; up to 3 trains in up to 2 files among other files and folders, each of them acceptable or with one of 15 reasons to be left out
// @assume included and excluded dates lie within the service periods; well-formed dates, times and durations
// @stub pugixml (symbolic runs; native replays use the real library); utl::parallel_for_run runs its jobs one after another
// @reach both gap overlap included excluded night rounded skipped mixed mismatch refused
#include "common/rail.h"
#include <string>
#include "vp_files.h"
#include "soro/utls/parse_fp.h"
#include "soro/infrastructure/interlocking/get_interlocking.h"
#include "soro/timetable/parsers/kss/kss_error.h"
#include "soro/timetable/timetable.h"
#include "soro/timetable/timetable_error.h"
using namespace rail;
using namespace soro::tt;

static bool same(double a, double b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }
static std::string el(char const* name, std::string const& inner) { return std::string("<") + name + ">" + inner + "</" + name + ">"; }
static std::string num(unsigned v) {
  std::string s;
  do s.insert(s.begin(), static_cast<char>('0' + v % 10));
  while (v /= 10);
  return s;
}

// A (r) - B (q: passenger halt and checkpoint, n: freight halt) - C (z)
struct world {
  net w;
  station a, b, c;
  std::vector<node::ptr> first, last;
  world() {
    w.t.stations_.resize(1);
    w.st.id_ = 0;
    w.t.version_.name_ = "plan";
    w.t.version_.number_ = 3;
    auto const n = [&](type k) { return w.node_of(k); };
    first = {n(type::HALT), n(type::MAIN_SIGNAL), n(type::BORDER)};
    auto* const r = w.route(first);
    auto* const q = w.route({n(type::BORDER), n(type::RUNTIME_CHECKPOINT), n(type::HALT), n(type::MAIN_SIGNAL), n(type::BORDER)});
    auto* const v = w.route({n(type::BORDER), n(type::HALT), n(type::BORDER)});
    last = {n(type::BORDER), n(type::HALT), n(type::HALT), n(type::TRACK_END)};
    auto* const z = w.route(last);
    r->passenger_halt_ = r->freight_halt_ = node::optional_idx(0);
    q->runtime_checkpoint_ = node::optional_idx(1);
    q->passenger_halt_ = node::optional_idx(2);
    v->freight_halt_ = node::optional_idx(1);
    z->passenger_halt_ = node::optional_idx(1);
    z->freight_halt_ = node::optional_idx(2);
    w.link(r, q);
    w.link(r, v);
    w.link(q, z);
    w.link(v, z);
    a.station_routes_["r"] = r;
    b.station_routes_["q"] = q;
    b.station_routes_["n"] = v;
    c.station_routes_["z"] = z;
    w.t.ds100_to_station_["A"] = &a;
    w.t.ds100_to_station_["B"] = &b;
    w.t.ds100_to_station_["C"] = &c;
    rs::train_series ts;
    ts.nr_ = "42";
    ts.company_nr_ = "80";
    rs::traction_vehicle tv;
    tv.name_ = "one";
    tv.max_speed_ = si::from_km_h(90);
    ts.variants_[1] = tv;
    tv.name_ = "two";
    tv.max_speed_ = si::from_km_h(70);
    ts.variants_[2] = tv;
    w.t.rolling_stock_.train_series_["42-80"] = ts;
    w.t.interlocking_ = get_interlocking(w.t);
  }
};

// the text of a train
static std::string point(char const* station, char const* route, std::string const& more) { return el("sequenceServicePoint", el("servicePoint", station) + el("trackSystem", route) + more); }
static std::string stop(char const* arr, char const* dep, char const* key = "4") { return el("arrival", el("time", arr)) + el("departure", el("time", dep)) + "<stopMode Typ=\"HALT-ART\" Schluessel=\"" + key + "\">H</stopMode>"; }
struct text {
  std::string status = "freig", number = "7", sub = "1";
  std::string services = "<service startDate=\"2022-11-01\" endDate=\"2022-11-01\" bitMask=\"1\"><operatingDay operatingCode=\"1\"/></service>";
  std::string break_in = "false", break_out = "false";
  std::string points = point("A", "r", stop("05:25:00.00", "05:30:00.00")) + point("B", "q", "") + point("C", "z", stop("06:25:00.00", "06:30:00.00"));
  std::string units = unit("42", "80", "1");
  std::string speed = "100", length = "20.0", weight = "100.0", mode = "R", protection = "false";
  static std::string unit(char const* series, char const* owner, char const* variant) {
    return el("tractionUnit", el("tractionUnitDesignSeries", std::string("<designSeries Typ=\"L\" Nr=\"") + owner + "\">" + series + "</designSeries>" + el("variante", variant)));
  }
  std::string construction() const {
    return el("constructionTrain", el("trainNumber", el("mainNumber", number) + el("subNumber", sub)) + el("characteristic", el("tractionUnits", units) + el("maxVelocity", speed) + el("relevantStopPositionMode", mode) + el("trainProtection", protection) + el("totalLength", length) + el("totalWeight", weight)) + el("services", services) + el("sequence", el("breakin", break_in) + el("breakout", break_out) + el("sequenceServicePoints", points)));
  }
  std::string train() const { return wrap(construction()); }
  std::string wrap(std::string const& c) const { return "<train trainID=\"1\" trainStatus=\"" + status + "\">" + el("fineConstruction", c) + "</train>"; }
};
static std::string kss(std::string const& trains, char const* name = "plan", char const* number = "3") {
  return el("KSS", el("header", el("spurplanVersionDescription", el("mode", "Studie") + el("name", name) + el("number", number))) + el("railml", el("timetable", trains)));
}
static auto load(world& m) {
  infrastructure const infra(&m.w.t);
  return try_parsing_timetable(make_timetable_opts("tt"), infra);
}
static auto load(world& m, text const& t) {
  vp::create_file("tt/KSS-1.xml", kss(t.train()));
  return load(m);
}

// service days: periods, then included and excluded dates
HARNESS(services) {
  world m;
  text t;
  // days around the end of a month
  auto const date = [](unsigned d) { return d < 30 ? "2022-11-" + std::string(1, static_cast<char>('0' + (d + 1) / 10)) + static_cast<char>('0' + (d + 1) % 10) : "2022-12-0" + std::string(1, static_cast<char>('0' + d - 29)); };
  std::vector<bool> days(45, false);
  t.services.clear();
  auto const periods = sym::pick(1, 2, "periods");
  unsigned lo = 99, hi = 0, end = 0;
  for (unsigned p = 0; p < periods; ++p) {
    auto const from = static_cast<unsigned>(p == 0 ? 28 : sym::pick(25, 33, "from"));
    auto const n = static_cast<unsigned>(sym::pick(1, p == 0 ? 3 : BOUND(2, 3), "days"));
    std::string mask;
    for (unsigned i = 0; i < n; ++i) {
      bool const on = sym::pick(0, 1, "service") != 0;
      mask.push_back(on ? '1' : '0');
      if (on) days[from + i] = true;
    }
    if (p == 1) sym_reach(from > end ? "gap" : "overlap");
    lo = std::min(lo, from);
    end = from + n - 1;
    hi = std::max(hi, end);
    t.services += "<service startDate=\"" + date(from) + "\" endDate=\"" + date(from + n - 1) + "\" bitMask=\"" + mask + "\"/>";
  }
  for (char const* kind : {"include", "exclude"}) {
    auto const at = static_cast<unsigned>(sym::pick(lo, hi + 1, kind));
    if (at > hi) continue;
    t.services += std::string("<service><special type=\"") + kind + "\" date=\"" + date(at) + "\"/></service>";
    bool const in = *kind == 'i';
    if (days[at] != in) sym_reach(in ? "included" : "excluded");
    days[at] = in;
  }
  bool any = false;
  for (auto d : days) any |= d;
  sym_assume(any);
  auto const tt = load(m, t);
  sym_check(tt.has_value() && (*tt)->trains_.size() == 1, "a train is read");
  auto const& bf = (*tt)->trains_[0].service_days_;
  // 2022-11-01 is day 19297
  auto it = bf.begin();
  unsigned count = 0;
  for (unsigned d = 0; d < days.size(); ++d)
    if (days[d]) {
      sym_check(it != bf.end() && (*it).time_since_epoch().count() == static_cast<int>(19297 + d), "a train runs on exactly the days of its service periods and dates");
      ++it;
      ++count;
    }
  sym_check(it == bf.end() && bf.count() == count && (*tt)->trains_[0].trip_count() == count, "a train runs on exactly the days of its service periods and dates");
  if (periods == 2) sym_reach("both");
  // the period of the timetable
  unsigned first = 0, last = 44;
  while (!days[first]) ++first;
  while (!days[last]) --last;
  sym_check(absolute_time_to_rep((*tt)->interval_.start_) == (19297 + first) * 86400U + 5 * 3600 + 30 * 60 && absolute_time_to_rep((*tt)->interval_.end_) == (19297 + last) * 86400U + 6 * 3600 + 25 * 60, "the timetable spans from the first departure to the last arrival");
}

static char digit(unsigned max) { return static_cast<char>('0' + sym::range(0, max, "digit")); }
static unsigned two(char const* s) { return static_cast<unsigned>(s[0] - '0') * 10 + static_cast<unsigned>(s[1] - '0'); }

HARNESS(times) {
  world m;
  text t;
  struct clock {
    std::string s;
    bool night;
    unsigned value;
    std::string text() const { return el("time", s) + (night ? "<nightLeap>1</nightLeap>" : ""); }
  };
  auto const any = [] {
    clock c;
    c.s = std::string{digit(2), digit(9), ':', digit(5), digit(9), ':', digit(5), digit(9), '.', '0', '0'};
    c.night = sym::pick(0, 1, "night") != 0;
    c.value = two(&c.s[0]) * 3600 + two(&c.s[3]) * 60 + two(&c.s[6]) + (c.night ? 86400 : 0);
    if (c.night) sym_reach("night");
    return c;
  };
  auto const a = any(), b = any();
  static char const KEYS[] = "234";
  using kind = sequence_point::type;
  static kind const KINDS[] = {kind::OPERATIONS, kind::REQUEST, kind::PASSENGER};
  auto const k = sym::pick(0, 2, "stop mode");
  auto const which = sym::pick(0, 2, "stop");
  std::string const mode = std::string("<stopMode Schluessel=\"") + KEYS[k] + "\">X</stopMode>";
  auto const timed = [&] { return el("arrival", a.text()) + el("departure", b.text()) + mode; };
  t.points = point("A", "r", which == 0 ? timed() : stop("05:25:00.00", "05:30:00.00")) + point("B", "q", which == 1 ? timed() : "") + point("C", "z", which == 2 ? timed() : stop("06:25:00.00", "06:30:00.00"));
  auto const tt = load(m, t);
  sym_check(tt.has_value() && (*tt)->trains_.size() == 1, "a train is read");
  auto const& sps = (*tt)->trains_[0].sequence_points_;
  sym_check(sps.size() == (which == 1 ? 3 : 2), "a train has its halts");
  auto const& p = which == 0 ? sps.front() : which == 1 ? sps[1] : sps.back();
  sym_check(p.type_ == KINDS[k] && p.station_route_ == (which == 0 ? 0U : which == 1 ? 1U : 3U), "a stop has the kind and place of the file");
  sym_check(p.arrival_.count() == a.value && p.departure_.count() == b.value, "a stop has the times of the file");
  sym_check(p.min_stop_time_.count() == 0, "a stop takes no minimal time unless given");
  auto const& o = which == 0 ? sps.back() : sps.front();
  sym_check(o.arrival_.count() == (which == 0 ? 6U : 5U) * 3600 + 25 * 60 && o.departure_.count() == (which == 0 ? 6U : 5U) * 3600 + 30 * 60, "a stop has the times of the file");
}

HARNESS(durations) {
  world m;
  text t;
  std::string s = "PT";
  unsigned want = 0;
  auto const part = [&](char unit, unsigned scale) {
    auto const n = sym::pick(0, unit == 'H' ? BOUND(1, 2) : 2, "digits");
    std::string d;
    for (unsigned i = 0; i < n; ++i) d.push_back(digit(9));
    if (n == 0) return;
    want += (n == 1 ? static_cast<unsigned>(d[0] - '0') : two(d.data())) * scale;
    s += d;
    if (unit == 'S' && sym::pick(0, 1, "fraction")) {
      auto const f = digit(9);
      s.push_back('.');
      s.push_back(f);
      s.push_back('9');
      want += f >= '5' ? 1 : 0;
      sym_reach("rounded");
    }
    s.push_back(unit);
  };
  part('H', 3600);
  part('M', 60);
  part('S', 1);
  t.points = point("A", "r", stop("05:25:00.00", "05:30:00.00")) + point("B", "q", stop("05:45:00.00", "05:50:00.00", "3") + el("minStopTime", s)) + point("C", "z", stop("06:25:00.00", "06:30:00.00"));
  auto const tt = load(m, t);
  sym_check(tt.has_value() && (*tt)->trains_.size() == 1 && (*tt)->trains_[0].sequence_points_.size() == 3, "a train is read");
  sym_check((*tt)->trains_[0].sequence_points_[1].min_stop_time_.count() == want, "a stop has the minimal time of the file, in whole seconds");
}

HARNESS(characteristic) {
  world m;
  text t;
  t.speed = std::string{digit(9), digit(9)};
  t.length = std::string{'1', digit(9), '.', digit(9)};
  t.weight = std::string{'1', digit(9), '.', digit(9)};
  t.number = std::string{digit(9), digit(9)};
  t.sub = std::string{digit(9)};
  auto const units = sym::pick(1, 2, "units");
  bool const freight = sym::pick(0, 1, "freight") != 0, other = sym::pick(0, 1, "other") != 0;
  if (freight) t.mode = "G";
  t.units = text::unit("42", "80", other ? "2" : "1");
  if (units == 2) t.units += text::unit("42", "80", "2");
  auto const tt = load(m, t);
  sym_check(tt.has_value() && (*tt)->trains_.size() == 1, "a train is read");
  auto const& x = (*tt)->trains_[0];
  sym_check(x.id_ == 0 && x.number_.main_ == two(t.number.data()) && x.number_.sub_ == static_cast<unsigned>(t.sub[0] - '0'), "a train has the number of the file");
  sym_check(same(x.physics_.length().val_, si::from_m(utls::parse_fp<double, utls::replace_comma::OFF>(t.length)).val_) && same(x.physics_.weight().val_, si::from_ton(utls::parse_fp<double, utls::replace_comma::OFF>(t.weight)).val_), "a train has the length and weight of the file");
  auto const top = si::from_km_h(units == 2 || other ? 70 : 90), own = si::from_km_h(utls::parse_fp<double, utls::replace_comma::OFF>(t.speed));
  sym_check(same(x.physics_.max_speed().val_, (own < top ? own : top).val_), "a train is as fast as its units and its own limit allow");
  sym_check(x.is_freight() == freight && !x.has_ctc() && !x.break_in_ && !x.break_out_, "a train is of the kind of the file");
  infrastructure const infra(&m.w.t);
  node::ptr end = nullptr;
  for (auto&& n : x.iterate(infra)) end = n.node_;
  sym_check(x.get_start_node(infra) == m.first[0] && end == m.last[freight ? 2 : 1], "a train leads from its first to its last halt");
}

// reasons to leave out a train
static constexpr unsigned REASONS = 15;
static text flawed(unsigned const why) {
  text t;
  auto const a = stop("05:25:00.00", "05:30:00.00"), c = stop("06:25:00.00", "06:30:00.00");
  auto const seq = [&](std::string const& x, std::string const& y, std::string const& z) { t.points = x + y + z; };
  auto const A = point("A", "r", a), B = point("B", "q", ""), C = point("C", "z", c);
  switch (why) {
    case 1: t.status = "bearb"; break;
    case 2: t.protection = "true"; break;
    case 3: t.break_in = "true"; break;
    case 4: t.break_out = "true"; break;
    case 5: seq(A, "", ""); break;
    case 6: seq(point("A", "r", ""), B, C); break;
    case 7: seq(A, B, point("C", "z", "")); break;
    case 8: seq(A, point("X", "q", ""), C); break;
    case 9: seq(A, point("B", "r", ""), C); break;
    case 10: t.units = text::unit("42", "80", "3"); break;
    case 11: t.units = text::unit("42", "8", "1"); break;
    case 12: seq(A, point("B", "n", a), C); break;                                               // halts where no halt is
    case 13: seq(A, point("B", "n", el("departure", el("time", "05:40:00.00"))), C); break;      // timed transit without checkpoint
    case 14: seq(A, C, ""); break;                                                               // no way
    case 15:
      t.mode = "G";
      seq(A, point("B", "q", a), C);
      break;  // no halt for freight trains
    default: break;
  }
  return t;
}
HARNESS(selection) {
  world m;
  vp::create_file("tt/readme.txt", "x");
  std::vector<unsigned> want;
  unsigned number = 10;
  bool bad = false;
  auto const one = [&](unsigned const most) {
    auto const why = static_cast<unsigned>(sym::pick(0, most, "reason"));
    auto t = flawed(why);
    t.number = num(++number);
    if (why == 0) want.push_back(number);
    else {
      sym_reach("skipped");
      bad = true;
    }
    return t;
  };
  auto const x = one(REASONS), y = one(REASONS);
  bool const split = sym::pick(0, 1, "files") != 0;
  if (split) {
    vp::create_file("tt/KSS-2.xml", kss(x.train()));
    vp::create_file("tt/other/KSS-9.xml", kss(text{}.train()));
    vp::create_file("tt/KSS-1.xml", kss(y.train() + text{}.wrap("")));
  } else
    vp::create_file("tt/KSS-1.xml", kss(x.train() + y.train()));
  vp::create_file("tt/KSS-3.txt", kss(text{}.train()));
  vp::create_file("tt/3-KSS-.xml", kss(text{}.train()));
  auto const tt = load(m);
  sym_check(tt.has_value(), "a timetable is read");
  if (bad && !want.empty()) sym_reach("mixed");
  auto const& ts = (*tt)->trains_;
  sym_check(ts.size() == want.size(), "exactly the trains that can be run are read");
  for (unsigned i = 0; i < want.size(); ++i) sym_check(ts[i].number_.main_ == want[i] && ts[i].id_ == i, "trains are numbered in the order of their files");
  sym_check((*tt)->source_ == "tt", "a timetable is named after its folder");
}

// one train of several variants
HARNESS(variants) {
  world m;
  std::string c;
  std::vector<unsigned> want;
  bool all = true;
  for (unsigned i = 0; i < 3; ++i) {
    auto t = flawed(sym::pick(0, 1, "flawed") ? 2 : 0);
    all &= t.protection == "false";
    t.number = "5";
    t.sub = num(i);
    c += t.construction();
  }
  text const t;
  vp::create_file("tt/KSS-1.xml", kss(t.wrap(c) + t.train()));
  auto const tt = load(m);
  sym_check(tt.has_value() && (*tt)->trains_.size() == (all ? 4 : 1), "a train is read with all its variants or not at all");
  for (unsigned i = 0; i < (*tt)->trains_.size(); ++i) {
    auto const& x = (*tt)->trains_[i];
    bool const v = all && i < 3;
    sym_check(x.id_ == i && x.number_.main_ == (v ? 5 : 7) && x.number_.sub_ == (v ? i : 1), "variants are read in order");
  }
}

HARNESS(version) {
  world m;
  std::string const name{'p', 'l', 'a', static_cast<char>(sym::range('m', 'o', "name"))};
  std::string const number{static_cast<char>(sym::range('2', '4', "number"))};
  bool const other = sym::pick(0, 1, "other file first") != 0;
  if (other) vp::create_file("tt/about.xml", "<about/>");
  if (sym::pick(0, 1, "file")) vp::create_file("tt/KSS-1.xml", kss(text{}.train(), name.c_str(), number.c_str()));
  else if (!other) vp::create_file("tt/readme", "x");
  bool const some = vp::find_file("tt/KSS-1.xml") != nullptr;
  auto const tt = load(m);
  bool const fits = name == "plan" && number == "3";
  sym_check(tt.has_value() == (some && fits), "a timetable is read exactly if it is one and fits the infrastructure");
  if (!tt) {
    if (some) sym_check(tt.error() == error::kss::INFRASTRUCTURE_VERSION_MISMATCH, "a timetable for another infrastructure is refused");
    else sym_check(tt.error() == error::timetable::UNKNOWN_SOURCE_TYPE, "a folder without timetable is refused");
    sym_reach(some ? "mismatch" : "refused");
  } else
    sym_check((*tt).source_type_ == timetable_source::KSS, "a timetable knows its format");
  bool thrown = false;
  try {
    infrastructure const infra(&m.w.t);
    timetable const again(make_timetable_opts("tt"), infra);
    sym_check(again->trains_.size() == 1 && again.source_type_ == timetable_source::KSS, "a timetable is read");
  } catch (std::exception const&) {
    thrown = true;
  }
  sym_check(thrown == !(some && fits), "constructing a timetable fails exactly if reading it does");
}

// the period of several trains
HARNESS(period) {
  world m;
  unsigned first = ~0U, last = 0;
  std::vector<std::string> trains;
  for (unsigned i = 0; i < 3; ++i) {
    text t;
    auto const from = static_cast<unsigned>(sym::pick(1, 3, "first day")), n = static_cast<unsigned>(sym::pick(0, 1, "more days"));
    auto const h = digit(4), k = digit(4);
    t.services = "<service startDate=\"2022-11-0" + num(from) + "\" endDate=\"2022-11-0" + num(from + n) + "\" bitMask=\"" + std::string(n + 1, '1') + "\"/>";
    t.points = point("A", "r", stop("00:25:00.00", (std::string("0") + h + ":30:00.00").c_str())) + point("B", "q", "") + point("C", "z", stop((std::string("1") + k + ":25:00.00").c_str(), "23:30:00.00"));
    first = std::min(first, (19297 + from - 1) * 86400 + static_cast<unsigned>(h - '0') * 3600 + 1800);
    last = std::max(last, (19297 + from + n - 1) * 86400 + static_cast<unsigned>(k - '0' + 10) * 3600 + 1500);
    trains.push_back(t.train());
  }
  vp::create_file("tt/KSS-1.xml", kss(trains[0]));
  vp::create_file("tt/KSS-2.xml", kss(trains[1] + trains[2]));
  auto const tt = load(m);
  sym_check(tt.has_value() && (*tt)->trains_.size() == 3, "a timetable is read");
  sym_check(absolute_time_to_rep((*tt)->interval_.start_) == first && absolute_time_to_rep((*tt)->interval_.end_) == last, "the timetable spans from the first departure to the last arrival");
}
