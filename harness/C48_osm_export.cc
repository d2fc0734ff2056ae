// @sources web/server/src/modules/tiles/osm_export/osm_export.cc web/server/src/modules/tiles/osm_export/interpolation.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/station/station.cc src/utls/coordinates/gps.cc src/utls/coordinates/cartesian.cc
// @include web/server/include
// @model pugi.cc
// @libs -lpugixml
// @bounds 4 elements of every kind of shape in 1 to 3 stations, connected as a line with every set of further connections (thorough: every set of connections), elements listed in either order, 1 to 4 (thorough: 9) processors, parts exported at once or when asked for; ways between 2 elements at 4 distances with neighbours in 8 directions or none
// @assume positions on curves from fixed lists, neighbours more than 0.01 degrees away; the platform reports at least one processor
// @reach direct between shared late curve straight bend
#include <map>
#include "common/rail.h"
#include "common/threads.h"
#include "soro/server/modules/tiles/osm_export/osm_export.h"
#include <future>
using namespace rail;
using namespace soro::utls;

using pair_t = std::pair<unsigned, unsigned>;
static pair_t key(unsigned const a, unsigned const b) { return a < b ? pair_t{a, b} : pair_t{b, a}; }

static void connect_one(element* const a, element* const b) {
  a->apply([&](auto& x) {
    for (auto& n : x.neighbours_)
      if (n == nullptr) {
        n = b;
        return;
      }
    sym_check(false, "harness: no free connection");
  });
}
static void connect(element* const a, element* const b) {
  connect_one(a, b);
  connect_one(b, a);
}
struct osm_node {
  double lon_, lat_;
  std::map<std::string, std::string> tags_;
};
static std::map<std::string, std::string> tags_of(pugi::xml_node const n) {
  std::map<std::string, std::string> r;
  for (auto const t : n.children("tag"))
    sym_check(r.emplace(t.attribute("k").value(), t.attribute("v").value()).second, "a tag occurs once");
  return r;
}

HARNESS(document) {
  constexpr unsigned N = 4;
  static double const LON[] = {8.0, 8.01, 8.03, 8.02}, LAT[] = {49.0, 49.02, 49.02, 49.05};
  net w;
  std::vector<element*> e;
  type const kinds[N] = {type::SIMPLE_SWITCH, type::LINE_SWITCH, type::CROSS, type::HALT};
  for (unsigned i = 0; i < N; ++i) e.push_back(w.add(kinds[i], i % 2 == 0));
  // connections
  std::map<pair_t, bool> edge;
  unsigned degree[N]{};
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = i + 1; j < N; ++j) {
#ifdef THOROUGH
      bool const is = sym::pick(0, 1, "connected") != 0;
#else
      bool const is = j == i + 1 || sym::pick(0, 1, "connected") != 0;
#endif
      if (!is) continue;
      if (i == 0 && j == 3 && degree[3] == 2) continue;
      if (++degree[i] > 3 || ++degree[j] > (j == 3 ? 2 : 3)) {
        sym_assume(false);
      }
      edge[key(i, j)] = true;
      connect(e[i], e[j]);
    }
  // an element has its neighbour in two places, as on a two-way connection
  if (edge.contains(key(0, 1)) && sym::pick(0, 1, "shared connection") != 0) {
    connect_one(e[0], e[1]);
    connect_one(e[1], e[0]);
    sym_reach("shared");
  }
  // stations
  unsigned const stations = static_cast<unsigned>(sym::pick(1, 3, "stations"));
  static station st[3];
  bool const reversed = sym::pick(0, 1, "reversed") != 0;
  unsigned at[N];
  for (unsigned i = 0; i < N; ++i) at[i] = static_cast<unsigned>(sym::pick(0, stations - 1, "station of element"));
  double station_lon[3], station_lat[3];
  for (unsigned s = 0; s < stations; ++s) {
    st[s].id_ = s;
    st[s].ds100_ = s == 0 ? "AA" : s == 1 ? "B" : "C1";
    st[s].elements_.clear();
    for (unsigned k = 0; k < N; ++k) {
      unsigned const i = reversed ? N - 1 - k : k;
      if (at[i] == s) {
        st[s].elements_.push_back(e[i]);
        w.t.element_to_station_[e[i]->id()] = &st[s];
      }
    }
    w.t.stations_.push_back(&st[s]);
    station_lon[s] = sym::f64("longitude");
    station_lat[s] = sym::f64("latitude");
    sym_assume(std::abs(station_lon[s]) <= 180.0 && std::abs(station_lat[s]) <= 90.0);
    w.t.station_positions_.push_back(gps{.lon_ = station_lon[s], .lat_ = station_lat[s]});
  }
  for (unsigned i = 0; i < N; ++i) {
    sym_check(e[i]->id() == i, "harness: element ids");
    w.t.element_positions_.push_back(gps{.lon_ = LON[i], .lat_ = LAT[i]});
  }
  vp_threads::count = 0;
#ifdef THOROUGH
  vp_threads::processors = static_cast<unsigned>(sym::pick(1, 9, "processors"));
#else
  vp_threads::processors = stations == 1 ? static_cast<unsigned>(sym::pick(1, 9, "processors")) : 1 + at[2] + reversed;
#endif
  vp_async::late = sym::pick(0, 1, "late") != 0;
  if (vp_async::late) sym_reach("late");

  auto const doc = soro::server::osm_export::export_to_osm(w.t);

  auto const osm = doc.child("osm");
  sym_check(static_cast<bool>(osm) && osm.next_sibling() == nullptr, "the document is one OSM element");
  sym_check(std::string(osm.attribute("version").value()) == "0.6", "version of the OSM format");
  std::map<unsigned long long, osm_node> nodes;
  std::map<unsigned long long, std::vector<unsigned long long>> adjacent;
  std::map<unsigned long long, bool> way_ids;
  std::map<pair_t, unsigned> direct;
  bool ways = false;
  unsigned long long last = 0;
  bool first = true;
  for (auto const c : osm.children()) {
    std::string const name = c.name();
    auto const id = c.attribute("id").as_ullong(~0ull);
    if (name == "way") {
      if (!ways) first = true;
      ways = true;
      sym_check(way_ids.emplace(id, true).second, "way ids are unique");
      std::vector<unsigned long long> refs;
      for (auto const n : c.children("nd")) refs.push_back(n.attribute("ref").as_ullong(~0ull));
      sym_check(refs.size() == 2, "a way has two ends");
      for (auto r : refs) sym_check(nodes.contains(r), "a way leads between nodes of the document");
      adjacent[refs[0]].push_back(refs[1]);
      adjacent[refs[1]].push_back(refs[0]);
      if (refs[0] < N && refs[1] < N) ++direct[key(static_cast<unsigned>(refs[0]), static_cast<unsigned>(refs[1]))];
      auto const t = tags_of(c);
      sym_check(t.size() == 1 && t.contains("railway") && t.at("railway") == "rail", "ways are rails");
    } else {
      sym_check(name == "node" && !ways, "nodes come first, then the ways");
      sym_check(nodes.emplace(id, osm_node{c.attribute("lon").as_double(), c.attribute("lat").as_double(), tags_of(c)}).second, "node ids are unique");
    }
    sym_check(first || id > last, "ids are ascending");
    last = id;
    first = false;
  }
  std::map<std::string, std::string> const none;
  for (unsigned i = 0; i < N; ++i) {
    sym_check(nodes.contains(i), "every element is in the document");
    auto const& n = nodes.at(i);
    sym_check(n.lon_ == LON[i] && n.lat_ == LAT[i], "an element has its position");
    std::map<std::string, std::string> const want{{"type", "element"}, {"subtype", e[i]->get_type_str().c_str()}, {"id", std::to_string(i)}, {"direction", i % 2 == 0 ? "rising" : "falling"}};
    sym_check(n.tags_ == want, "an element has its type, id and direction");
  }
  for (unsigned s = 0; s < stations; ++s) {
    sym_check(nodes.contains(N + s), "every station is in the document");
    auto const& n = nodes.at(N + s);
    sym_check(std::bit_cast<std::uint64_t>(n.lon_) == std::bit_cast<std::uint64_t>(station_lon[s]) && std::bit_cast<std::uint64_t>(n.lat_) == std::bit_cast<std::uint64_t>(station_lat[s]), "a station has its position");
    std::map<std::string, std::string> const want{{"type", "station"}, {"id", std::to_string(s)}, {"name", std::string(st[s].ds100_.data(), st[s].ds100_.size())}};
    sym_check(n.tags_ == want, "a station has its id and name");
    sym_check(!adjacent.contains(N + s), "a station is not on a rail");
  }
  std::map<pair_t, unsigned> chains;
  unsigned long long between = 0;
  for (auto const& [id, n] : nodes) {
    if (id < N + stations) continue;
    ++between;
    sym_check(n.tags_.size() == 1 && n.tags_.contains("type") && n.tags_.at("type") == "interpolation", "further nodes are interpolations");
    sym_check(adjacent.contains(id) && adjacent.at(id).size() == 2, "an interpolation node lies between two nodes");
  }
  unsigned long long walked = 0;
  for (unsigned i = 0; i < N; ++i) {
    if (!adjacent.contains(i)) continue;
    for (auto next : adjacent.at(i)) {
      if (next < N) continue;
      unsigned long long before = i, steps = 0;
      while (next >= N + stations && ++steps <= between) {
        auto const& a = adjacent.at(next);
        auto const to = a[0] == before ? a[1] : a[0];
        before = next;
        next = to;
      }
      walked += steps;
      sym_check(next < N && next != i, "interpolations lead to another element");
      ++chains[key(i, static_cast<unsigned>(next))];
    }
  }
  sym_check(walked == 2 * between, "every interpolation node is on a way between elements");
  for (unsigned i = 0; i < N; ++i)
    for (unsigned j = i + 1; j < N; ++j) {
      bool const is = edge.contains(key(i, j)), same = at[i] == at[j];
      unsigned const d = direct.contains(key(i, j)) ? direct.at(key(i, j)) : 0, c = chains.contains(key(i, j)) ? chains.at(key(i, j)) : 0;
      sym_check(d == (is && same ? 1 : 0), "neighbours in a station are joined by exactly one way, others by none");
      sym_check(c == (is && !same ? 2 : 0), "neighbours in different stations are joined by exactly one curve");
      if (d) sym_reach("direct");
      if (c) sym_reach("between");
    }
}

// the curve between two elements
HARNESS(curve) {
  net w;
  auto *a = w.add(type::BORDER), *b = w.add(type::BORDER), *before = w.add(type::HALT), *behind = w.add(type::HALT);
  static double const DX[] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[] = {0, .5, 1, .5, 0, -.5, -1, -.5};
  auto const direction = sym::pick(0, 7, "direction");
  double const d = sym::pick(0, 1, "distance") != 0 ? 0.05 : 0.002;
  std::vector<gps> p(4);
  p[0] = {8.0, 49.0};
  p[1] = {8.0 + DX[direction] * d, 49.0 + DY[direction] * d};
  auto const k = sym::pick(0, 8, "neighbour before"), l = sym::pick(0, 8, "neighbour behind");
  connect(a, b);
  if (k != 8) {
    connect(a, before);
    p[2] = {p[0].lon_ - DX[k] * .03, p[0].lat_ - DY[k] * .03};
  }
  if (l != 8) {
    connect(b, behind);
    p[3] = {p[1].lon_ + DX[l] * .03, p[1].lat_ + DY[l] * .03};
  }
  soro::vector<gps> pos;
  for (auto const& x : p) pos.push_back(x);
  auto const forth = soro::server::osm_export::compute_interpolation(a, b, pos);
  auto const back = soro::server::osm_export::compute_interpolation(b, a, pos);
  sym_check(forth.first_elem_ == a->id() && forth.second_elem_ == b->id(), "the curve joins its elements");
  auto const n = forth.points_.size();
  sym_check(n > 0 && back.points_.size() == n, "the curve has points");
  for (std::size_t i = 0; i < n; ++i) {
    sym_check(forth.points_[i].valid(), "points have valid positions");
    auto const &x = forth.points_[i], &y = back.points_[n - 1 - i];
    sym_check(std::abs(x.lon_ - y.lon_) < 1e-9 && std::abs(x.lat_ - y.lat_) < 1e-9, "the curve is the same both ways");
  }
  double const whole = p[0].distance(p[1]);
  sym_check(p[0].distance(forth.points_[0]) < whole * .1 && p[1].distance(forth.points_[n - 1]) < whole * .1, "the curve begins and ends at its elements");
  for (std::size_t i = 0; i + 1 < n; ++i) sym_check(forth.points_[i].distance(forth.points_[i + 1]) < whole * .1, "the curve has no gaps");
  if (k == 8 && l == 8) {
    sym_reach("straight");
    double length = 0;
    for (std::size_t i = 0; i + 1 < n; ++i) length += forth.points_[i].distance(forth.points_[i + 1]);
    sym_check(length < whole * 1.001, "the curve is straight without neighbours");
  } else if (k != 8 && k == direction && l == direction) {
    sym_reach("bend");
    for (std::size_t i = 0; i < n; ++i) {
      double const x = forth.points_[i].lon_ - 8.0, y = forth.points_[i].lat_ - 49.0;
      sym_check(std::abs(x * DY[k] - y * DX[k]) < d * .01 && x * DX[k] + y * DY[k] > 0, "a straight track stays straight");
    }
  }
  // the curve goes on in the direction of the track before it
  if (k != 8 && DY[k] == 0) {
    sym_reach("curve");
    sym_check((forth.points_[0].lon_ - p[0].lon_) * DX[k] > 0, "the curve continues the track before it");
  }
}
