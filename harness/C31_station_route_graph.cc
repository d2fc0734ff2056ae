// @sources src/infrastructure/station/station_route_graph.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc
// @bounds 3 (quick) / 4 (thorough) station routes in two stations joined by a border pair per direction; every combination of first and last elements (border, track end, main signal), with and without a neighbouring station, any assignment of routes to the borders they start at
// @assume the table of routes starting at an element lists exactly the routes whose first node belongs to that element
// @reach joined dead-end inside no-station
#include "common/rail.h"
#include "soro/infrastructure/station/station_route_graph.h"
using namespace rail;

HARNESS(successors) {
  net w;
  station stations[2];
  stations[0].id_ = 0;
  stations[1].id_ = 1;
  // border i of station s leads to border i of the other station
  element* border[2][2];
  for (auto& s : border)
    for (auto& b : s) b = w.add(type::BORDER);
  unsigned const n = BOUND(3, 4);
  struct {
    unsigned station, first, last, start, end;
    bool to;
  } r[4];
  for (unsigned i = 0; i < n; ++i) {
    auto& x = r[i];
    x.station = static_cast<unsigned>(sym::pick(0, i == 0 ? 0 : 1, "station"));
    x.first = static_cast<unsigned>(sym::pick(0, 2, "first"));  // border, main signal, track end
    x.last = static_cast<unsigned>(sym::pick(0, 2, "last"));      // border, main signal, track end
    x.start = x.first == 0 ? static_cast<unsigned>(sym::pick(0, 1, "start border")) : 0;
    x.end = x.last == 0 ? static_cast<unsigned>(sym::pick(0, 1, "end border")) : 0;
    x.to = x.last == 0 && sym::pick(0, 1, "neighbouring station") != 0;
    auto const first = x.first == 0 ? border[x.station][x.start]->nodes()[0] : w.node_of(x.first == 1 ? type::MAIN_SIGNAL : type::TRACK_END);
    auto const last = x.last == 0 ? border[x.station][x.end]->nodes()[1] : w.node_of(x.last == 1 ? type::MAIN_SIGNAL : type::TRACK_END);
    if (x.last == 0) {
      auto& nd = *w.t.graph_.node_store_[last->id_];
      nd.next_node_ = border[1 - x.station][x.end]->nodes()[0];
    }
    auto* const sr = w.route({first, last});
    sr->station_ = &stations[x.station];
    if (x.to) sr->to_station_ = station::optional_ptr(&stations[1 - x.station]);
    if (x.first == 0) stations[x.station].element_to_routes_[border[x.station][x.start]->id()].push_back(sr);
  }
  auto const g = get_station_route_graph(w.t.station_routes_, w.t.graph_);
  sym_check(g.successors_.size() == n && g.predeccesors_.size() == n, "one list of successors and predecessors per route");
  auto const count = [](auto const& v, station_route::ptr p) {
    unsigned c = 0;
    for (auto x : v) c += x == p ? 1 : 0;
    return c;
  };
  for (unsigned i = 0; i < n; ++i)
    for (unsigned k = 0; k < n; ++k) {
      auto const& a = r[i];
      auto const& b = r[k];
      bool const joined = a.to && a.last == 0 && b.first == 0 && b.station != a.station && b.start == a.end;
      sym_check(count(g.successors_[i], w.t.station_routes_[k]) == (joined ? 1U : 0U), "a route is followed exactly by the routes starting at the border across from its end");
      sym_check(count(g.predeccesors_[k], w.t.station_routes_[i]) == (joined ? 1U : 0U), "predecessors are the inverse of successors");
      if (joined) sym_reach("joined");
    }
  for (unsigned i = 0; i < n; ++i) {
    unsigned s = 0, p = 0;
    for (unsigned k = 0; k < n; ++k) {
      s += count(g.successors_[i], w.t.station_routes_[k]);
      p += count(g.predeccesors_[i], w.t.station_routes_[k]);
    }
    sym_check(s == g.successors_[i].size() && p == g.predeccesors_[i].size(), "nothing else follows or precedes");
    if (r[i].last == 2) sym_reach("dead-end");
    if (r[i].last == 1) sym_reach("inside");
    if (r[i].last == 0 && !r[i].to) sym_reach("no-station");
  }
}
