// @sources web/server/src/modules/infrastructure/infrastructure_module.cc web/server/src/modules/infrastructure/serve_element.cc web/server/src/modules/infrastructure/serve_station.cc web/server/src/modules/infrastructure/serve_bounding_box.cc web/server/src/modules/infrastructure/serve_station_route.cc web/server/src/modules/infrastructure/serve_infrastructure_names.cc web/server/src/modules/infrastructure/serve_exclusion_set.cc web/server/src/modules/infrastructure/serve_station_names.cc web/server/src/modules/infrastructure/serve_interlocking_route.cc web/server/src/modules/timetable/serve_timetable_names.cc web/server/src/modules/timetable/serve_timetable.cc web/server/src/modules/timetable/timetable_module.cc src/infrastructure/infrastructure.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/exclusion/exclusion_set.cc src/infrastructure/station/station_route.cc src/infrastructure/station/station.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/graph/graph_creation.cc src/timetable/timetable.cc src/timetable/timetable_error.cc src/utls/coordinates/gps.cc src/utls/coordinates/cartesian.cc src/infrastructure/line.cc
// @include web/server/include
// @bounds two infrastructures of up to 2 stations, 4 station routes, 3 interlocking routes, 3 exclusion sets, 9 elements of every kind with data and 2 timetables; every item and ids around and far beyond their number asked for; all values of the numbers answered
// @reach found unknown missing huge eotd slope halt limit signal switch plain track empty far none
#include <cmath>
#include "common/rail.h"
#include "common/answers.h"
#include "soro/server/modules/infrastructure/infrastructure_module.h"
#include "soro/server/modules/timetable/timetable_module.h"
using namespace rail;
using namespace answers;
using soro::utls::gps;

static char const* const IDS[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "64", "4294967295", "4294967296", "18446744073709551616"};
constexpr unsigned NIDS = sizeof(IDS) / sizeof(*IDS);

struct world {
  rail::net w[2];
  soro::server::infrastructure_module m;
  world() {
    for (unsigned k = 0; k < 2; ++k) {
      w[k].t.source_ = k == 0 ? "first" : "second";
      m.infrastructures_.emplace(w[k].t.source_, std::make_unique<infrastructure>(&w[k].t));
    }
  }
};
// the infrastructure asked for; one that is not there is not found
static unsigned which(std::string& name) {
  auto const k = static_cast<unsigned>(sym::pick(0, 3, "infrastructure"));
  name = k == 0 ? "first" : k == 1 ? "second" : k == 2 ? "firs" : "";
  return k;
}
template <typename Serve>
static void unknown(Serve&& serve, std::vector<std::string> params) {
  bool thrown = false;
  try {
    sym_check(serve(request(std::move(params))).result() == http::status::not_found, "what is not there is answered not found");
  } catch (...) {
    thrown = true;
  }
  sym_check(!thrown, "what is not there is answered not found");
  sym_reach("unknown");
}
static gps position(unsigned const i) {
  return gps{.lon_ = sym::f64(("longitude " + std::to_string(i)).c_str()), .lat_ = sym::f64(("latitude " + std::to_string(i)).c_str())};
}
static void check_position(value const& v, gps const& p) {
  sym_check(v.members_.size() == 2 && same(real(get(v, "lon")), p.lon_) && same(real(get(v, "lat")), p.lat_), "the element's position");
}

HARNESS(infrastructures) {
  soro::server::infrastructure_module m;
  static char const* const names[] = {"a", "longer name of an infrastructure", "x_1"};
  infrastructure_t t[3];
  unsigned const n = static_cast<unsigned>(sym::pick(0, 3, "infrastructures"));
  for (unsigned k = 0; k < n; ++k) {
    t[k].source_ = names[k];
    m.infrastructures_.emplace(t[k].source_, std::make_unique<infrastructure>(&t[k]));
  }
  auto const req = request({});
  auto const v = document(req, m.serve_infrastructure_names(req));
  auto const& l = list(get(v, "infrastructures"));
  sym_check(v.members_.size() == 1 && l.size() == n, "every infrastructure is named once");
  for (unsigned k = 0; k < n; ++k) {
    unsigned found = 0;
    for (auto const& x : l) found += text(x.second) == names[k];
    sym_check(found == 1, "every infrastructure is named once");
    auto const p = m.get_infra(names[k]);
    sym_check(p.has_value() && (**p)->source_ == names[k], "an infrastructure is found by its name");
  }
  sym_check(!m.get_infra("b").has_value() && !m.get_infra("").has_value(), "no other is found");
  if (n == 3) sym_reach("found");
}

HARNESS(stations) {
  world x;
  std::string name;
  auto const k = which(name);
  station st[2][2];
  for (unsigned i = 0; i < 2; ++i) {
    auto& w = x.w[i];
    // station routes named so that the order of the names is not that of the ids
    auto* const a = w.node_of(type::HALT);
    auto* const b = w.node_of(type::META);
    auto* const c = w.node_of(type::MAIN_SIGNAL);
    auto* const r0 = w.route({a, b});
    auto* const r1 = w.route({b, a, c});
    auto* const r2 = w.route({c});
    auto* const r3 = w.route({c, b});
    r0->name_ = "Z";
    r1->name_ = "A";
    r2->name_ = i == 0 ? "M" : "N";
    r3->name_ = "B";
    unsigned const n = i == 0 ? 2 : 1;
    for (unsigned s = 0; s < n; ++s) {
      st[i][s].id_ = s;
      st[i][s].ds100_ = s == 0 ? "AAB" : "B 1";
      w.t.stations_.push_back(&st[i][s]);
    }
    st[i][0].station_routes_["Z"] = r0;
    st[i][0].station_routes_["A"] = r1;
    st[i][0].station_routes_[i == 0 ? "M" : "N"] = r2;
    if (i == 0) st[i][1].station_routes_["B"] = r3;
    auto& to_irs = w.t.interlocking_.station_to_irs_;
    to_irs.resize(n);
    to_irs[0].push_back(7);
    to_irs[0].push_back(3 + i);
    to_irs[0].push_back(5);
  }
  auto const ask = [&](auto const& r) { return x.m.serve_station(r); };
  auto const ask_names = [&](auto const& r) { return x.m.serve_station_names(r); };
  if (sym::pick(0, 1, "names") != 0) {
    if (k > 1) return unknown(ask_names, {name});
    auto const req = request({name});
    auto const v = document(req, ask_names(req));
    auto const& l = list(get(v, "stations"));
    auto const& stations = x.w[k].t.stations_;
    sym_check(l.size() == stations.size(), "every station is listed once");
    for (unsigned s = 0; s < stations.size(); ++s) {
      unsigned found = 0;
      for (auto const& e : l)
        if (number(get(e.second, "id")) == s) {
          ++found;
          sym_check(text(get(e.second, "ds100")) == stations[s]->ds100_, "a station is listed with its name");
        }
      sym_check(found == 1, "every station is listed once");
    }
    return;
  }
  auto const id = static_cast<unsigned>(sym::pick(0, NIDS - 1, "id"));
  if (k > 1) return unknown(ask, {name, IDS[id]});
  auto const& t = x.w[k].t;
  if (id >= t.stations_.size()) {
    if (id > 11) sym_reach("huge");
    sym_reach("missing");
    return unknown(ask, {name, IDS[id]});
  }
  auto const req = request({name, IDS[id]});
  auto const v = document(req, ask(req));
  auto const& s = *t.stations_[id];
  sym_check(number(get(v, "id")) == id && text(get(v, "ds100")) == s.ds100_, "the station asked for");
  auto const& l = list(get(v, "stationRoutes"));
  sym_check(l.size() == s.station_routes_.size(), "every station route of the station is listed once");
  for (auto const& [n, sr] : s.station_routes_) {
    unsigned found = 0;
    for (auto const& e : l)
      if (number(get(e.second, "id")) == sr->id_) {
        ++found;
        sym_check(text(get(e.second, "name")) == n, "a station route is listed with its name");
        sym_check(number(get(e.second, "from_element")) == sr->nodes().front()->element_->id(), "a station route is listed with its first element");
        sym_check(number(get(e.second, "to_element")) == sr->nodes().back()->element_->id(), "a station route is listed with its last element");
      }
    sym_check(found == 1, "every station route of the station is listed once");
  }
  auto const& irs = list(get(v, "interlockingRouteIds"));
  auto const& expected = t.interlocking_.station_to_irs_[id];
  sym_check(irs.size() == expected.size(), "the interlocking routes of the station");
  for (auto const e : expected) {
    unsigned found = 0;
    for (auto const& y : irs) found += number(y.second) == e;
    sym_check(found == 1, "the interlocking routes of the station");
  }
  sym_reach("found");
}

HARNESS(routes) {
  world x;
  std::string name;
  auto const k = which(name);
  bool const locked = sym::pick(0, 1, "interlocking route") != 0;
  auto const id = static_cast<unsigned>(sym::pick(0, NIDS - 1, "id"));
  std::vector<std::vector<element*>> path;  // of the route asked for
  std::vector<std::string> names, stations;
  for (unsigned i = 0; i < 2; ++i) {
    auto& w = x.w[i];
    w.st.ds100_ = i == 0 ? "AA" : "BB";
    auto* const a = w.node_of(type::HALT);
    auto* const b = w.node_of(type::META);
    auto* const c = w.node_of(type::MAIN_SIGNAL);
    auto* const d = w.node_of(type::EOTD);
    for (unsigned e = 0; e < 4; ++e) w.t.element_positions_.push_back(i == k ? position(e) : gps{});
    w.route({a, b})->name_ = "first";
    w.route({b, d, c})->name_ = "second";
    auto* const last = w.route({c, b, a, d});
    last->name_ = "third";
    if (i == 1) w.route({a})->name_ = "fourth";
    w.lock({0, 1}, 0, 2);
    w.lock({1, 2}, 1, 3);
    if (i == 0) w.lock({2}, 1, 3);
    if (i == 1) w.lock({0, 1, 2}, 1, 2);
    if (i != k) continue;
    auto const el = [](node::ptr const n) { return const_cast<element*>(static_cast<element const*>(n->element_)); };
    if (locked) {
      path = {{el(a), el(b), el(d)}, {el(d), el(c), el(b), el(a)}};
      // the junction node of two station routes is named once
      path = {};
      for (auto const& ir : w.t.interlocking_.routes_) {
        std::vector<element*> p;
        for (unsigned s = 0; s < ir.station_routes_.size(); ++s) {
          auto const& nodes = w.t.station_routes_[ir.station_routes_[s]]->nodes();
          std::size_t const from = s == 0 ? ir.start_offset_ : 0;
          std::size_t const to = s + 1 == ir.station_routes_.size() ? ir.end_offset_ : nodes.size();
          for (std::size_t j = from; j < to; ++j) p.push_back(el(nodes[j]));
        }
        path.push_back(p);
      }
    } else {
      path = {{el(a), el(b)}, {el(b), el(d), el(c)}, {el(c), el(b), el(a), el(d)}};
      if (i == 1) path.push_back({el(a)});
    }
  }
  auto const ask = [&](auto const& r) { return locked ? x.m.serve_interlocking_route(r) : x.m.serve_station_route(r); };
  if (k > 1) return unknown(ask, {name, IDS[id]});
  if (id >= path.size()) {
    if (id > 11) sym_reach("huge");
    sym_reach("missing");
    return unknown(ask, {name, IDS[id]});
  }
  auto const req = request({name, IDS[id]});
  auto const v = document(req, ask(req));
  sym_check(number(get(v, "id")) == id, "the route asked for");
  if (!locked) {
    sym_check(text(get(v, "name")) == x.w[k].t.station_routes_[id]->name_, "the station route's name");
    sym_check(text(get(v, "ds100")) == (k == 0 ? "AA" : "BB"), "the station route's station");
  }
  auto const& l = list(get(v, "path"));
  sym_check(l.size() == path[id].size(), "the path has all positions of the route");
  for (unsigned i = 0; i < l.size(); ++i) check_position(l[i].second, x.w[k].t.element_positions_[path[id][i]->id()]);
  sym_reach("found");
}

HARNESS(exclusion_sets) {
  world x;
  std::string name;
  auto const k = which(name);
  auto const id = static_cast<unsigned>(sym::pick(0, NIDS - 1, "id"));
  // the routes of the set asked for
  std::vector<std::uint32_t> expected[3];
  for (unsigned i = 0; i < 2; ++i) {
    auto& sets = x.w[i].t.exclusion_.exclusion_sets_;
    for (unsigned s = 0; s < 3 - i; ++s) {
      soro::vector<exclusion_set::value_type> ids;
      std::uint32_t const base = s == 1 ? 250 : 0;
      for (std::uint32_t j = 0; j < 7; ++j)
        if (i == k && s == id ? sym::pick(0, 1, "in the set") != 0 : j % 2 == s % 2) ids.push_back(base + j * j * 3);
      if (ids.empty()) ids.push_back(77);
      if (i == k) expected[s].assign(ids.begin(), ids.end());
      if (base != 0) sym_reach("far");
      sets.push_back(ids);
    }
  }
  auto const ask = [&](auto const& r) { return x.m.serve_exclusion_set(r); };
  if (k > 1) return unknown(ask, {name, IDS[id]});
  if (id >= x.w[k].t.exclusion_.exclusion_sets_.size()) {
    if (id > 11) sym_reach("huge");
    sym_reach("missing");
    return unknown(ask, {name, IDS[id]});
  }
  auto const req = request({name, IDS[id]});
  auto const v = document(req, ask(req));
  sym_check(number(get(v, "id")) == id, "the set asked for");
  auto const& l = list(get(v, "interlocking_routes"));
  sym_check(l.size() == expected[id].size(), "every route of the set is listed once");
  for (unsigned i = 0; i < l.size(); ++i) sym_check(number(l[i].second) == expected[id][i], "every route of the set is listed once");
  sym_check(number(get(v, "size")) == expected[id].size(), "the number of routes of the set");
  sym_reach("found");
}

HARNESS(elements) {
  static type const kinds[] = {type::EOTD, type::SLOPE, type::HALT, type::SPEED_LIMIT, type::MAIN_SIGNAL, type::SIMPLE_SWITCH, type::META, type::TRACK_END, type::APPROACH_SIGNAL};
  constexpr unsigned N = sizeof(kinds) / sizeof(*kinds);
  world x;
  std::string name;
  auto const k = which(name);
  auto const id = static_cast<unsigned>(sym::pick(0, NIDS - 1, "id"));
  for (unsigned i = 0; i < 2; ++i)
    for (unsigned e = 0; e < N; ++e) {
      if (i == 1 && e == 3) continue;
      auto* const el = x.w[i].add(kinds[e], true);
      auto& data = x.w[i].t.graph_.element_data_;
      while (data.size() <= el->id()) data.emplace_back(empty{});
      data[el->id()] = empty{};
    }
  auto const ask = [&](auto const& r) { return x.m.serve_element(r); };
  if (k > 1) return unknown(ask, {name, IDS[id]});
  auto& g = x.w[k].t.graph_;
  if (id >= g.elements_.size()) {
    if (id > 11) sym_reach("huge");
    sym_reach("missing");
    return unknown(ask, {name, IDS[id]});
  }
  auto* const e = g.elements_[id];
  auto const kind_of = e->type();
  bool const b1 = sym::pick(0, 1, "flag") != 0, b2 = sym::pick(0, 1, "flag") != 0;
  double const d1 = sym::f64("value 1"), d2 = sym::f64("value 2");
  auto& data = g.element_data_[id];
  static char const* const TEXT[] = {"", "P2 \"main\"", "halt at the end"};
  std::string const n1 = TEXT[sym::pick(0, 2, "text")], n2 = b1 ? "X1" : "Y", n3 = b2 ? "" : "123";
  std::map<std::string, std::string> texts;
  std::map<std::string, double> reals;
  std::map<std::string, bool> flags;
  std::map<std::string, std::uint64_t> numbers;
  numbers["id"] = id;
  if (e->is_directed_track_element()) {
    auto& t = const_cast<element*>(static_cast<element const*>(e))->as<track_element>();
    double const km = sym::f64("kilometrage");
    t.km_ = si::from_m(km);
    t.rising_ = sym::pick(0, 1, "rising") != 0;
    t.line_ = b1 ? 4711 : 0;
    reals["kilometrage"] = si::as_m(t.km_);
    flags["rising"] = t.rising_;
    numbers["line"] = t.line_;
    sym_reach("track");
  }
  switch (kind_of) {
    case type::EOTD:
      data = eotd{.signal_ = b1};
      flags["signal"] = b1;
      sym_reach("eotd");
      break;
    case type::SLOPE:
      flags.erase("rising");
      data = slope{.rising_ = si::per_mille(d1), .falling_ = si::per_mille(d2)};
      reals["falling"] = si::as_precision(si::per_mille(d2));
      sym_reach("slope");
      break;
    case type::HALT: {
      halt h;
      h.name_ = n1;
      h.is_passenger_ = b1;
      h.identifier_extern_ = n2;
      h.identifier_operational_ = n3;
      data = h;
      texts["name"] = n1;
      flags["passenger"] = b1;
      texts["id_extern"] = n2;
      texts["id_op"] = n3;
      sym_reach("halt");
      break;
    }
    case type::SPEED_LIMIT: {
      speed_limit l;
      l.limit_ = si::from_m_s(d1);
      l.poa_ = b2 ? speed_limit::poa::LAST_SIGNAL : speed_limit::poa::HERE;
      data = l;
      reals["limit"] = si::as_km_h(l.limit_);
      numbers["point_of_activation"] = b2 ? 1 : 0;
      sym_reach("limit");
      break;
    }
    case type::MAIN_SIGNAL:
      data = main_signal{.name_ = n1};
      texts["name"] = n1;
      sym_reach("signal");
      break;
    case type::SIMPLE_SWITCH: {
      switch_data s;
      s.name_ = n1;
      data = s;
      texts["name"] = n1;
      sym_reach("switch");
      break;
    }
    default: sym_reach("plain"); break;
  }
  auto const req = request({name, IDS[id]});
  auto const v = document(req, ask(req));
  for (auto const& [n, y] : texts) sym_check(text(get(v, n)) == y, "the element's texts");
  for (auto const& [n, y] : reals) sym_check(same(real(get(v, n)), y), "the element's values");
  for (auto const& [n, y] : numbers) sym_check((get(v, n).kind_ == kind::boolean ? flag(get(v, n)) : number(get(v, n))) == y, "the element's numbers");
  if (kind_of != type::SLOPE) {
    for (auto const& [n, y] : flags) sym_check(flag(get(v, n)) == y, "the element's flags");
  } else {
    // the direction and the slope have the same name
    unsigned rising = 0;
    for (auto const& [n, m] : v.members_)
      if (n == "rising" && m.kind_ == kind::real) {
        ++rising;
        sym_check(same(m.real_, si::as_precision(si::per_mille(d1))), "the element's values");
      }
    sym_check(rising == 1, "the element's values");
  }
  static char const* const names[] = {"kilometrage", "rising", "line", "signal", "falling", "name", "passenger", "id_extern", "id_op", "limit", "point_of_activation"};
  for (auto const* const n : names)
    if (!texts.contains(n) && !reals.contains(n) && !flags.contains(n) && !numbers.contains(n) && !(kind_of == type::SLOPE && std::string_view(n) == "rising"))
      sym_check(!has(v, n), "nothing the element does not have");
  sym_reach("found");
}

HARNESS(bounding_box) {
  world x;
  std::string name;
  auto const k = which(name);
  auto const n = static_cast<unsigned>(sym::pick(1, 3, "elements"));
  auto const ask = [&](auto const& r) { return x.m.serve_bounding_box(r); };
  if (k > 1) return unknown(ask, {name});
  std::vector<gps> at;
  for (unsigned i = 0; i < n; ++i) {
    at.push_back(position(i));
    sym_assume(std::abs(at[i].lon_) <= 180.0 && std::abs(at[i].lat_) <= 90.0);
    x.w[k].t.element_positions_.push_back(at[i]);
  }
  x.w[1 - k].t.element_positions_.push_back(gps{.lon_ = 0, .lat_ = 0});
  auto const req = request({name});
  auto const v = document(req, ask(req));
  auto const& l = list(get(v, "boundingBox"));
  sym_check(l.size() == 2, "a box has two corners");
  double const w = real(get(l[0].second, "lon")), s = real(get(l[0].second, "lat")), e = real(get(l[1].second, "lon")), o = real(get(l[1].second, "lat"));
  bool tw = false, ts = false, te = false, to = false;
  for (auto const& p : at) {
    sym_check(w <= p.lon_ && p.lon_ <= e && s <= p.lat_ && p.lat_ <= o, "every element lies in the box");
    tw |= w == p.lon_;
    te |= e == p.lon_;
    ts |= s == p.lat_;
    to |= o == p.lat_;
  }
  sym_check(tw & te & ts & to, "no smaller box has all elements");
}

HARNESS(timetables) {
  infrastructure_t t[2];
  tt::base_timetable base[3];
  soro::server::timetable_module m;
  static char const* const infras[] = {"first", "second", "third", "fourth"};
  static char const* const names[] = {"a", "b", "timetable of the second"};
  for (unsigned i = 0; i < 3; ++i) {
    base[i].source_ = names[i];
    base[i].interval_.start_ = absolute_time{absolute_time::duration{sym::u32("start")}};
    base[i].interval_.end_ = absolute_time{absolute_time::duration{sym::u32("end")}};
  }
  auto const add = [&](unsigned const infra, unsigned const i) {
    auto copy = base[i];
    m.contexts_[infras[infra]].timetables_.emplace(base[i].source_, std::make_unique<tt::timetable>(std::move(copy)));
  };
  add(0, 0);
  add(0, 1);
  add(1, 2);
  add(1, 0);
  m.contexts_["third"];
  auto const k = static_cast<unsigned>(sym::pick(0, 3, "infrastructure"));
  bool const is[4][3] = {{true, true, false}, {true, false, true}, {false, false, false}, {false, false, false}};
  auto const ask_names = [&](auto const& r) { return m.serve_timetable_names(r); };
  auto const ask = [&](auto const& r) { return m.serve_timetable(r); };
  auto const i = static_cast<unsigned>(sym::pick(0, 4, "timetable"));
  if (i == 4) {
    if (k == 3) return unknown(ask_names, {infras[k]});
    auto const req = request({infras[k]});
    auto const v = document(req, ask_names(req));
    auto const& l = list(get(v, "timetables"));
    unsigned n = 0;
    for (unsigned j = 0; j < 3; ++j) {
      unsigned found = 0;
      for (auto const& y : l) found += text(y.second) == names[j];
      sym_check(found == is[k][j], "every timetable of the infrastructure is named once");
      n += is[k][j];
    }
    sym_check(l.size() == n, "only timetables of the infrastructure are named");
    if (n == 0) sym_reach("empty");
    return;
  }
  if (i == 3) return unknown(ask, {infras[k], "c"});
  if (!is[k][i]) return unknown(ask, {infras[k], names[i]});
  auto const req = request({infras[k], names[i]});
  auto const v = document(req, ask(req));
  auto const& d = get(v, "timetable");
  sym_check(text(get(d, "source")) == names[i], "the timetable asked for");
  auto const& in = get(d, "interval");
  sym_check(number(get(in, "start")) == base[i].interval_.start_.time_since_epoch().count(), "the timetable's first time");
  sym_check(number(get(in, "end")) == base[i].interval_.end_.time_since_epoch().count(), "the timetable's last time");
  sym_reach("found");
}

// what the folders hold, as far as the loading is concerned
static std::string content_of(std::filesystem::path const& p) {
  for (auto const& f : vp::files())
    if (f->name == p.string() + "/data") return std::string(f->bytes.begin(), f->bytes.end());
  sym_check(false, "only folders of the source directory are read");
  return {};
}
static std::string coordinates;
namespace soro::infra {
infrastructure_t parse_iss(infrastructure_options const& options) {
  infrastructure_t t;
  t.source_ = content_of(options.infrastructure_path_);
  coordinates = options.gps_coord_path_.string();
  return t;
}
}  // namespace soro::infra
namespace soro::tt {
bool is_kss_timetable(timetable_options const& o) { return content_of(o.timetable_path_).substr(0, 4) != "none"; }
// the content names the infrastructure it is of
utls::result<base_timetable> parse_kss_timetable(timetable_options const& o, infra::infrastructure const& infra) {
  auto const c = content_of(o.timetable_path_);
  if (c.substr(0, 1) != infra->source_.substr(0, 1) && c[0] != '*') return std::unexpected(std::make_error_code(std::errc::invalid_argument));
  base_timetable b;
  b.source_ = c;
  return b;
}
}  // namespace soro::tt
HARNESS(loading) {
  soro::server::server_settings s;
  s.infrastructure_sources_.val() = "src/infra";
  s.timetable_sources_.val() = "src/tt";
  s.server_resource_dir_.val() = "res";
  vp::files().clear();
  static char const* const infra_names[] = {"A one", "B two", "C"};
  static char const* const tt_names[] = {"A tt", "B tt", "* any", "none", "A more"};
  unsigned const ni = static_cast<unsigned>(sym::pick(0, 3, "infrastructures")), nt = static_cast<unsigned>(sym::pick(1, 5, "timetables"));
  bool const file = sym::pick(0, 1, "file") != 0, old = sym::pick(0, 1, "older data") != 0;
  if (file) vp::create_file("src/infra/notes.txt", "x");
  for (unsigned i = 0; i < ni; ++i) {
    vp::create_file(("src/infra/folder" + std::to_string(i) + "/data").c_str(), infra_names[i]);
    if (old) vp::create_file(("res/infrastructure/folder" + std::to_string(i)).c_str(), "raw");
  }
  if (ni == 0) vp::create_file("src/infra/notes.txt", "x");
  for (unsigned i = 0; i < nt; ++i) vp::create_file(("src/tt/t" + std::to_string(i) + "/data").c_str(), tt_names[i]);
  if (file) vp::create_file("src/tt/notes.txt", "x");
  auto const im = soro::server::get_infrastructure_module(s);
  auto const tm = soro::server::get_timetable_module(s, im);
  sym_check(im.infrastructures_.size() == ni, "every infrastructure folder is offered");
  if (ni != 0) sym_check(coordinates == "res/misc/btrs_geo.csv", "with the server's coordinates");
  unsigned n = 0;
  for (auto const& i : im.all()) {
    (void)i;
    ++n;
  }
  sym_check(n == ni, "every infrastructure folder is offered");
  for (unsigned i = 0; i < 3; ++i) {
    auto const p = im.get_infra(infra_names[i]);
    sym_check(p.has_value() == (i < ni), "every infrastructure folder is offered");
    if (i >= ni) continue;
    sym_check((**p)->source_ == infra_names[i], "under its name");
    unsigned expected = 0;
    for (unsigned j = 0; j < nt; ++j) {
      bool const is = tt_names[j][0] == infra_names[i][0] || tt_names[j][0] == '*';
      expected += is;
      auto const t = tm.get_timetable(infra_names[i], tt_names[j]);
      sym_check(t.has_value() == is, "an infrastructure's timetables are those that can be read for it");
      if (is) sym_check((**t)->source_ == tt_names[j], "under its name");
    }
    unsigned all = 0;
    for (auto const& t : tm.all(infra_names[i])) {
      (void)t;
      ++all;
    }
    sym_check(all == expected, "an infrastructure's timetables are those that can be read for it");
    // an infrastructure without timetables has an empty list of them
    auto const req = request({infra_names[i]});
    sym_check(list(get(document(req, tm.serve_timetable_names(req)), "timetables")).size() == expected, "the timetables named");
    if (expected == 0) sym_reach("none");
  }
  unsigned none = 0;
  for (auto const& t : tm.all("D")) {
    (void)t;
    ++none;
  }
  sym_check(none == 0, "no timetables of an unknown infrastructure");
}
