// @sources web/server/src/modules/search/search_module.cc web/server/src/modules/search/serve_search.cc web/server/src/modules/infrastructure/infrastructure_module.cc src/infrastructure/infrastructure.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/station/station_route.cc src/infrastructure/station/station.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/line.cc src/utls/coordinates/gps.cc src/utls/coordinates/cartesian.cc
// @include web/server/include
// @bounds two infrastructures of 2 stations, 7 elements, 3 station routes and 2 interlocking routes, with every combination of names, equal names and empty names; every item matched, alone, with another and not at all; queries of 0 to 4 characters
// @assume which names match a query is up to the guesser; positions from a fixed list but for one element, which is anywhere
// @reach station full same element signal switch halt extern operational both nameless station_route interlocking_route found anywhere none short unknown wide
#include "common/rail.h"
#include "common/answers.h"
#include "soro/server/modules/search/search_module.h"
using namespace rail;
using namespace answers;
using soro::utls::gps;

static double const LON[] = {8.25, 8.5, -3.0, 9.75, 8.0, 11.5, 8.125}, LAT[] = {49.5, 50.25, 49.75, 49.0, 51.5, -12.0, 50.0};
struct item {
  std::string type_, name_, element_type_;
  std::uint64_t id_;
  double w_, s_, e_, n_;
  unsigned seen_{0};
};
static std::string padded(std::uint64_t const i) {
  auto r = std::to_string(i);
  while (r.size() < 3) r = "0" + r;
  return r;
}
namespace soro::infra {
infrastructure_t parse_iss(infrastructure_options const&) { return {}; }
}  // namespace soro::infra

struct world {
  rail::net w;
  station st[2];
  std::vector<item> items;

  void add(char const* const type, std::string const& name, std::uint64_t const id, std::vector<element::ptr> const& of, std::string const& element_type = "") {
    item i{.type_ = type, .name_ = name, .element_type_ = element_type, .id_ = id, .w_ = 361, .s_ = 361, .e_ = -361, .n_ = -361};
    for (auto const e : of) {
      auto const& p = w.t.element_positions_[e->id()];
      i.w_ = std::min(i.w_, p.lon_);
      i.e_ = std::max(i.e_, p.lon_);
      i.s_ = std::min(i.s_, p.lat_);
      i.n_ = std::max(i.n_, p.lat_);
    }
    items.push_back(i);
  }
  // shift: where the positions start, so that two worlds differ
  world(char const* const source, unsigned const shift, bool const vary, bool const anywhere = false) {
    auto& t = w.t;
    t.source_ = source;
    static type const kinds[] = {type::HALT, type::MAIN_SIGNAL, type::META, type::SIMPLE_SWITCH, type::HALT, type::TRACK_END, type::SPEED_LIMIT};
    static char const* const type_names[] = {"halt", "ms", "meta", "simple_switch", "halt", "track_end", "speed_limit"};
    (void)type_names;
    std::vector<element*> e;
    for (unsigned i = 0; i < 7; ++i) {
      e.push_back(w.add(kinds[i]));
      t.element_positions_.push_back(gps{.lon_ = LON[(i + shift) % 7], .lat_ = LAT[(i + shift) % 7]});
      t.graph_.element_data_.emplace_back(empty{});
    }
    if (anywhere) {
      auto& p = t.element_positions_[1];
      p = gps{.lon_ = sym::f64("longitude"), .lat_ = sym::f64("latitude")};
      sym_assume(p.lon_ >= -180.0 && p.lon_ <= 180.0 && p.lat_ >= -90.0 && p.lat_ <= 90.0);
      sym_reach("anywhere");
    }
    auto const choose = [&](unsigned const n, char const* const what) { return vary ? static_cast<unsigned>(sym::pick(0, n - 1, what)) : n - 1; };
    // stations
    unsigned const cut = vary ? 3 : 2;
    for (unsigned s = 0; s < 2; ++s) {
      st[s].id_ = s;
      st[s].ds100_ = s == 0 ? "AAB" : "B Q";
      for (unsigned i = 0; i < 7; ++i)
        if ((i < cut) == (s == 0)) st[s].elements_.push_back(e[i]);
      t.stations_.push_back(&st[s]);
      add("station", std::string(st[s].ds100_), s, {st[s].elements_.begin(), st[s].elements_.end()});
      // a full name that is the short one is found once
      bool const same = choose(2, "full name is the short one") == 0;
      t.full_station_names_.push_back(same ? st[s].ds100_ : soro::string(s == 0 ? "Aachen" : "AAB"));
      if (same)
        sym_reach("same");
      else {
        add("station", s == 0 ? "Aachen" : "AAB", s, {st[s].elements_.begin(), st[s].elements_.end()});
        sym_reach("full");
      }
    }
    // elements
    for (unsigned i = 0; i < 7; ++i) add("element", padded(i), i, {e[i]}, std::string(get_type_str(kinds[i]).data()));
    auto const et = [&](unsigned const i) { return std::string(get_type_str(kinds[i]).data()); };
    {
      std::string const n = choose(2, "signal name") == 0 ? "P1" : "AAB";
      t.graph_.element_data_[1] = main_signal{.name_ = n};
      add("element", n, 1, {e[1]}, et(1));
      switch_data d;
      d.name_ = "W 7";
      t.graph_.element_data_[3] = d;
      add("element", "W 7", 3, {e[3]}, et(3));
    }
    for (unsigned i = 0; i < 5; i += 4) {
      halt h;
      unsigned const k = i == 0 ? choose(8, "halt names") : 7;
      if ((k & 1) != 0) h.name_ = i == 0 ? "halt one" : "P1";
      if ((k & 2) != 0) h.identifier_extern_ = i == 0 ? "ext" : "external";
      if ((k & 4) != 0) h.identifier_operational_ = i == 0 ? "op" : "";
      t.graph_.element_data_[i] = h;
      if (!h.name_.empty()) add("element", std::string(h.name_), i, {e[i]}, et(i));
      if (!h.identifier_extern_.empty()) {
        add("element", std::string(h.identifier_extern_), i, {e[i]}, et(i));
        sym_reach("extern");
      }
      if (!h.identifier_operational_.empty()) {
        add("element", std::string(h.identifier_operational_), i, {e[i]}, et(i));
        sym_reach(h.identifier_extern_.empty() ? "operational" : "both");
      }
      if (k == 0) sym_reach("nameless");
    }
    // routes
    auto const node = [&](unsigned const i) { return e[i]->nodes()[0]; };
    std::vector<std::vector<unsigned>> const of = {{0, 1, 2}, {2, 6, 1}, {4}};
    static char const* const route_names[] = {"from halt", "AAB", "x"};
    for (unsigned r = 0; r < 3; ++r) {
      std::vector<node::ptr> nodes;
      std::vector<element::ptr> es;
      for (auto i : of[r]) {
        nodes.push_back(node(i));
        es.push_back(e[i]);
      }
      w.route(nodes)->name_ = route_names[r];
      add("stationRoute", route_names[r], r, es);
    }
    static unsigned const ir_ids[] = {7, 10, 99, 100, 999, 1000, 12345};
    w.lock({0, 1}, 1, 2);
    w.lock({1}, 1, 3);
    auto& irs = t.interlocking_.routes_;
    irs[0].id_ = ir_ids[choose(7, "interlocking route")];
    if (irs[0].id_ > 999) sym_reach("wide");
    irs[1].id_ = 1;
    add("interlockingRoute", padded(irs[0].id_), irs[0].id_, {e[1], e[2], e[6]});
    add("interlockingRoute", "001", 1, {e[6], e[1]});
  }
};

static bool is(item const& i, value const& v) {
  auto const& box = list(get(v, "boundingBox"));
  sym_check(box.size() == 2, "a box has two corners");
  return text(get(v, "type")) == i.type_ && text(get(v, "name")) == i.name_ && number(get(v, "id")) == i.id_ && text(get(v, "elementType")) == i.element_type_ &&
         same(real(get(box[0].second, "lon")), i.w_) && same(real(get(box[0].second, "lat")), i.s_) && same(real(get(box[1].second, "lon")), i.e_) &&
         same(real(get(box[1].second, "lat")), i.n_);
}

static void every_name_leads_to_its_item(world& a, world& b) {
  soro::server::infrastructure_module im;
  im.infrastructures_.emplace(a.w.t.source_, std::make_unique<infrastructure>(&a.w.t));
  im.infrastructures_.emplace(b.w.t.source_, std::make_unique<infrastructure>(&b.w.t));
  auto const m = soro::server::get_search_module(im);
  // every name can be found, and leads to its item
  for (auto* const x : {&a, &b}) {
    auto const name = x == &a ? "first" : "second";
    auto const& c = m.contexts_.at(name);
    auto& g = *c.guesser_;
    sym_check(g.candidates_.size() == x->items.size(), "every name of an item can be found");
    for (std::size_t k = 0; k < g.candidates_.size(); ++k) {
      g.matches_ = {{k, 1.0F}};
      std::size_t const other = (k * 5 + 3) % g.candidates_.size();
      if (k % 3 == 0) g.matches_.push_back({other, 0.5F});
      auto const req = request({name, "query"});
      auto const v = document(req, m.serve_search(req, im));
      sym_check(g.asked_ == "query", "what is asked for is searched");
      auto const& l = list(v);
      sym_check(l.size() == g.matches_.size(), "every match is answered");
      bool one = false;
      for (auto& i : x->items)
        if (i.seen_ == 0 && g.candidates_[k].first == i.name_ && is(i, l[0].second)) {
          ++i.seen_;
          one = true;
          sym_reach(i.type_ == "station" ? "station" : i.type_ == "element" ? "element" : i.type_ == "stationRoute" ? "station_route" : "interlocking_route");
          if (i.type_ == "element" && i.name_ == "P1") sym_reach("signal");
          if (i.name_ == "W 7") sym_reach("switch");
          if (i.name_ == "halt one") sym_reach("halt");
          break;
        }
      sym_check(one, "a name leads to its item");
      if (l.size() == 2) sym_check(text(get(l[1].second, "name")) == g.candidates_[other].first, "matches are answered best first");
    }
    for (auto const& i : x->items) sym_check(i.seen_ == 1, "every name of an item can be found");
    sym_reach("found");
  }
}

HARNESS(search) {
  world a("first", 0, true), b("second", 3, false);
  every_name_leads_to_its_item(a, b);
}
// an element anywhere on earth
HARNESS(positions) {
  world a("first", 0, false, true), b("second", 3, false);
  every_name_leads_to_its_item(a, b);
}

HARNESS(requests) {
  world a("first", 0, false);
  soro::server::infrastructure_module im;
  im.infrastructures_.emplace(a.w.t.source_, std::make_unique<infrastructure>(&a.w.t));
  auto m = soro::server::get_search_module(im);
  // an infrastructure that was not there when the names were collected
  infrastructure_t late;
  late.source_ = "late";
  im.infrastructures_.emplace(late.source_, std::make_unique<infrastructure>(&late));
  auto const k = static_cast<unsigned>(sym::pick(0, 2, "infrastructure"));
  auto const n = static_cast<unsigned>(sym::pick(0, 4, "characters"));
  auto const req = request({k == 0 ? "first" : k == 1 ? "other" : "late", std::string(n, 'x')});
  auto const r = m.serve_search(req, im);
  if (k != 0) {
    sym_check(refused(r, http::status::not_found), "an unknown infrastructure is not found");
    sym_reach("unknown");
    return;
  }
  if (n < 3) {
    sym_check(refused(r, http::status::bad_request), "too short a query is refused");
    sym_reach("short");
    return;
  }
  sym_check(list(document(req, r)).empty(), "no match is an empty list");
  sym_reach("none");
}
