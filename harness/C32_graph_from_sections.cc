// @sources src/infrastructure/parsers/iss/parse_iss.cc src/infrastructure/parsers/iss/iss_files.cc src/infrastructure/parsers/iss/parse_helpers.cc src/infrastructure/parsers/iss/parse_station_route.cc src/infrastructure/parsers/iss/parse_track_element.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/graph/element.cc src/infrastructure/graph/node.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/station/station_route_graph.cc src/infrastructure/regulatory_data.cc src/infrastructure/line.cc src/rolling_stock/parse_train_series.cc
// @model pugi.cc
// @libs -lpugixml
// @bounds one section of up to 3 (quick) / 4 (thorough) track elements, each a signal of either direction or an undirected element, in any order of the file and at any of 8 positions (ties included); two sections of up to 1 element each in one or two stations
// @assume a section's first and last node are its ends; positions lie between them; ids are unique
// @stub pugixml (symbolic runs; native replays use the real library)
// @reach tie empty_rising empty_falling crowded reversed
#include "common/iss.h"
using namespace iss;

struct placed {
  unsigned id, km;
  int dir;  // 1 rising, 0 falling, -1 both
};
static kilometrage km_of(element::ptr e) {
  return e->is_directed_track_element() ? e->as<track_element>().km_ : e->is_undirected_track_element() ? e->as<undirected_track_element>().km_ : e->as<end_element>().km_;
}
static placed any_element(std::string& nodes, unsigned const id) {
  static char const* const kinds[] = {"HauptsignalS", "VorsignalF", "Tunnel"};
  auto const k = sym::pick(0, 2, "kind");
  placed p{id, static_cast<unsigned>(sym::range(1, 8, "km")), k == 0 ? 1 : k == 1 ? 0 : -1};
  nodes += item(kinds[k], id, std::string(1, static_cast<char>('0' + p.km)));
  return p;
}
static type type_of(placed const& p) { return p.dir == 1 ? type::MAIN_SIGNAL : p.dir == 0 ? type::APPROACH_SIGNAL : type::TUNNEL; }

// the section between two end elements is as the file has it
static void check_section(infrastructure_t const& t, section::id const sid, unsigned const line, std::vector<placed> const& want, type const first, type const last) {
  auto const& g = t.graph_;
  auto const& s = g.sections_[sid];
  unsigned rising = 0, falling = 0;
  for (auto const& p : want) {
    rising += p.dir != 0;
    falling += p.dir != 1;
  }
  auto const metas = (rising == 0) + (falling == 0);
  auto const n = want.size() + static_cast<unsigned>(metas) + 2;
  sym_check(s.line_id_ == line, "a section belongs to its line");
  sym_check(s.length_ == si::from_km(9), "a section is as long as the distance of its ends");
  sym_check(s.rising_order_.size() == n && s.falling_order_.size() == n && s.size() == n, "a section holds its elements once");
  sym_check(s.first_rising()->is(first) && s.last_rising()->is(last) && s.first_falling() == s.last_rising() && s.last_falling() == s.first_rising(), "a section ends with its end elements");
  for (auto e : s.rising_order_) {
    unsigned in = 0;
    for (auto x : s.falling_order_) in += x == e;
    sym_check(in == 1, "both orders have the same elements");
    auto const& ids = g.element_id_to_section_ids_[e->id()];
    sym_check(ids.size() == 1 && ids[0] == sid, "an element knows its section");
    sym_check(g.elements_[e->id()] == e, "elements are found by their id");
  }
  // every element of the file is there, where the file has it
  for (auto const& p : want) {
    unsigned found = 0;
    for (auto e : s.rising_order_)
      if (e->type() == type_of(p) && km_of(e) == si::from_km(p.km)) ++found;
    unsigned same = 0;
    for (auto const& q : want) same += q.dir == p.dir && q.km == p.km;
    sym_check(found == same, "an element has the type and position of the file");
  }
  for (unsigned i = 2; i + 1 < n; ++i) {
    sym_check(km_of(s.rising_order_[i - 1]) <= km_of(s.rising_order_[i]), "elements ascend in rising order");
    sym_check(km_of(s.falling_order_[i - 1]) >= km_of(s.falling_order_[i]), "elements descend in falling order");
  }
  // following the nodes passes the elements of the direction, in order
  auto const walk = [&](bool const up) {
    auto const& order = up ? s.rising_order_ : s.falling_order_;
    auto const& other = up ? s.falling_order_ : s.rising_order_;
    std::vector<element::ptr> way;
    for (auto e : order) {
      sym_check(!e->is_directed_track_element() || e->rising() == (e->type() == type::MAIN_SIGNAL || (e->is(type::META) && e->rising())), "an element has the direction of the file");
      if (e->is_directed_track_element() && e->rising() != up) continue;
      way.push_back(e);
    }
    sym_check(way.size() == (up ? (rising ? rising : 1) : (falling ? falling : 1)) + 2, "a direction without elements gets one of its own");
    auto const& start = way[0]->as<end_element>();
    node::ptr at = up ? start.top() : start.bot();
    node::ptr before = nullptr;
    for (unsigned i = 0; i < way.size(); ++i) {
      sym_check(at != nullptr && at->element_ == way[i], "following the nodes of a section passes its elements in order");
      if (way[i]->is_undirected_track_element()) sym_check(at == (up ? way[i]->nodes()[0] : way[i]->nodes()[1]), "undirected elements have one node per direction");
      sym_check(at->branch_node_ == nullptr, "no branches within a section");
      if (before) {
        sym_check(at->reverse_edges_.size() == 1 && at->reverse_edges_[0] == before, "nodes know where one comes from");
        if (i + 1 < way.size() || true) sym_check(at->reverse_ahead() == before, "nodes know where one comes from");
      }
      before = at;
      at = at->next_node_;
    }
    sym_check(at == nullptr, "at the end of a track there is no way on");
    unsigned i = 0;
    auto const listed = [&](auto&& it) {
      for (auto&& e : it) sym_check(i < way.size() && e == way[i++], "iterating a section passes the elements of the direction");
    };
    if (up)
      listed(s.iterate<direction::Rising>());
    else
      listed(s.iterate<direction::Falling>());
    sym_check(i == way.size(), "iterating a section passes all elements of the direction");
    i = 0;
    auto const all = [&](auto&& it) {
      for (auto&& e : it) sym_check(i < order.size() && e == order[i++], "iterating without skipping passes all elements");
    };
    if (up)
      all(s.iterate<direction::Rising, skip::No>());
    else
      all(s.iterate<direction::Falling, skip::No>());
    sym_check(i == order.size(), "iterating without skipping passes all elements");
    // neighbours: the element before and the one after, for both directions
    for (unsigned k = 1; k + 1 < way.size(); ++k)
      for (auto const o : {way[k - 1], way[k + 1]}) {
        unsigned in = 0;
        for (auto x : way[k]->neighbours()) in += x == o;
        sym_check(in >= 1, "successive elements are neighbours");
      }
    for (auto const& [e, o] : {std::pair{way[0], way[1]}, std::pair{way[way.size() - 1], way[way.size() - 2]}}) {
      unsigned in = 0;
      for (auto x : e->neighbours()) in += x == o;
      sym_check(in >= 1, "successive elements are neighbours");
    }
    static_cast<void>(other);
  };
  walk(true);
  walk(false);
  if (rising == 0) sym_reach("empty_rising");
  if (falling == 0) sym_reach("empty_falling");
  for (auto const& p : want)
    for (auto const& q : want) {
      if (&p < &q && p.km == q.km) sym_reach("tie");
      if (&p < &q && p.km > q.km) sym_reach("reversed");
    }
}
static infrastructure_t parse(files& f) {
  f.opts.interlocking_ = false;
  f.opts.exclusions_ = false;
  f.opts.layout_ = false;
  return f.parse();
}
HARNESS(one) {
  files f;
  std::vector<placed> want;
  std::string nodes = item("Prellbock", 1, "0");
  auto const n = static_cast<unsigned>(sym::pick(0, BOUND(3, 4), "elements"));
  for (unsigned i = 0; i < n; ++i) want.push_back(any_element(nodes, 2 + i));
  nodes += item("Gleisende", 9, "9");
  f.station("A", track(5, nodes));
  auto const t = parse(f);
  sym_check(t.graph_.sections_.size() == 1 && t.stations_.size() == 1, "one section in one station");
  check_section(t, 0, 5, want, type::BUMPER, type::TRACK_END);
  sym_check(t.stations_[0]->elements_.size() == t.graph_.elements_.size() && t.stations_[0]->sections_.size() == 1, "a station has its sections and elements");
  for (auto e : t.graph_.elements_) sym_check(t.element_to_station_.at(e->id()) == t.stations_[0], "an element knows its station");
  for (unsigned i = 0; i < t.graph_.nodes_.size(); ++i) sym_check(t.graph_.nodes_[i]->id_ == i, "nodes are found by their id");
  if (n == BOUND(3, 4)) sym_reach("crowded");
}
HARNESS(two) {
  files f;
  std::vector<placed> want[2];
  std::string sections[2];
  for (unsigned k = 0; k < 2; ++k) {
    std::string nodes = item("Gleisende", 1 + 10 * k, "0");
    if (sym::pick(0, 1, "elements")) want[k].push_back(any_element(nodes, 2 + 10 * k));
    nodes += item("Prellbock", 9 + 10 * k, "9");
    sections[k] = track(5 + k, nodes);
  }
  bool const two = sym::pick(0, 1, "stations") != 0;
  if (two) {
    f.station("A", sections[0]);
    f.station("B", sections[1]);
  } else
    f.station("A", sections[0] + sections[1]);
  auto const t = parse(f);
  sym_check(t.graph_.sections_.size() == 2 && t.stations_.size() == (two ? 2 : 1), "all sections of all stations");
  for (unsigned k = 0; k < 2; ++k) {
    check_section(t, k, 5 + k, want[k], type::TRACK_END, type::BUMPER);
    auto const st = t.stations_[two ? k : 0];
    for (auto e : t.graph_.sections_[k].rising_order_) {
      unsigned in = 0;
      for (auto x : st->elements_) in += x == e;
      sym_check(in == 1 && t.element_to_station_.at(e->id()) == st, "an element belongs to its station");
    }
  }
  for (unsigned k = 0; k < t.stations_.size(); ++k) {
    sym_check(t.stations_[k]->id_ == k && t.stations_[k]->ds100_ == (k ? "B" : "A"), "stations are numbered in the order of the file and have their names");
    sym_check(t.ds100_to_station_.at(k ? "B" : "A") == t.stations_[k], "stations are found by their names");
    sym_check(t.full_station_names_[k] == t.stations_[k]->ds100_, "without another name a station has its short name");
  }
}
