// @sources src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc
// @bounds interlocking routes over up to 3 (quick) / 4 (thorough) station routes of up to 3 nodes each, every start and end offset, every pair of positions, every omission in the routes
// @assume no station route occurs twice in one interlocking route; positions lie on the interlocking route and in order
// @reach single several inside outside follows kinds
#include "common/rail.h"
using namespace rail;

struct route_of {
  net w;
  interlocking_route ir;
  std::vector<std::pair<unsigned, node::idx>> path;  // (index of station route, node)
  std::vector<unsigned> len;

  explicit route_of(unsigned const max_srs, bool const omissions) {
    auto const n = static_cast<unsigned>(sym::pick(1, max_srs, "station routes"));
    // one unused route in front: ids differ from positions
    w.route({w.node_of(type::HALT)});
    for (unsigned i = 0; i < n; ++i) {
      len.push_back(static_cast<unsigned>(sym::pick(1, 3, "nodes")));
      std::vector<node::ptr> nodes;
      for (unsigned k = 0; k < len[i]; ++k) nodes.push_back(w.node_of(type::HALT));
      auto* const sr = w.route(nodes);
      if (omissions)
        for (unsigned k = 0; k < len[i]; ++k)
          if (sym::pick(0, 1, "omitted")) sr->omitted_nodes_.push_back(static_cast<node::idx>(k));
    }
    // visited in descending order of their ids
    for (unsigned i = 0; i < n; ++i) ir.station_routes_.push_back(n - i);
    std::reverse(begin(len), end(len));
    ir.id_ = 5;
    ir.start_offset_ = static_cast<node::idx>(sym::pick(0, len[0] - 1, "start"));
    ir.end_offset_ = static_cast<node::idx>(sym::pick(n == 1 ? ir.start_offset_ + 1U : 1, len[n - 1], "end"));
    for (unsigned i = 0; i < n; ++i)
      for (unsigned k = i == 0 ? ir.start_offset_ : 0; k < (i + 1 == n ? ir.end_offset_ : len[i]); ++k) path.emplace_back(i, static_cast<node::idx>(k));
    sym_reach(n == 1 ? "single" : "several");
  }
  station_route::ptr sr(unsigned i) const { return w.t.station_routes_[ir.station_routes_[i]]; }
  node::ptr at(std::size_t const p) const { return sr(path[p].first)->nodes(path[p].second); }
  bool omitted(std::size_t const p) const {
    for (auto o : sr(path[p].first)->omitted_nodes_)
      if (o == path[p].second) return true;
    return false;
  }
  template <typename G>
  void listed(G&& gen, std::size_t from, std::size_t const to) const {
    for (auto&& r : gen) {
      sym_check(from < to && r.node_ == at(from) && r.omitted() == omitted(from), "an interlocking route lists the nodes of its path, in order, as its station routes have them");
      ++from;
    }
    sym_check(from == to, "an interlocking route lists its path completely");
  }
};

HARNESS(iterate) {
  route_of r(BOUND(3, 4), true);
  infrastructure const infra(&r.w.t);
  r.listed(r.ir.iterate(infra), 0, r.path.size());
}

HARNESS(subpaths) {
  route_of r(BOUND(3, 4), false);
  infrastructure const infra(&r.w.t);
  auto const a = sym::pick(0, r.path.size() - 1, "from"), b = sym::pick(a, r.path.size() - 1, "to");
  auto const sa = r.ir.station_routes_[r.path[a].first], sb = r.ir.station_routes_[r.path[b].first];
  r.listed(r.ir.from_to(sa, r.path[a].second, sb, static_cast<node::idx>(r.path[b].second + 1), infra), a, b + 1);
  r.listed(r.ir.from(sa, r.path[a].second, infra), a, r.path.size());
  r.listed(r.ir.to(sb, static_cast<node::idx>(r.path[b].second + 1), infra), 0, b + 1);
}

HARNESS(facts) {
  route_of r(BOUND(3, 4), false);
  infrastructure const infra(&r.w.t);
  auto const& ir = r.ir;
  auto const n = ir.station_routes_.size();
  sym_check(ir.size(infra) == r.path.size(), "size is the number of nodes of the path");
  sym_check(ir.first_node(infra) == r.at(0) && ir.last_node(infra) == r.at(r.path.size() - 1), "first and last node");
  sym_check(ir.first_sr_id() == ir.station_routes_[0] && ir.last_sr_id() == ir.station_routes_[n - 1], "first and last station route");
  sym_check(ir.first_sr(infra) == r.sr(0) && ir.last_sr(infra) == r.sr(static_cast<unsigned>(n - 1)), "first and last station route");
  for (unsigned i = 0; i < n; ++i) sym_check(ir.sr_id(static_cast<uint8_t>(i)) == ir.station_routes_[i] && ir.sr(static_cast<uint8_t>(i), infra) == r.sr(i), "station route at a position");
  unsigned k = 0;
  for (auto&& sr : ir.station_routes(infra)) {
    sym_check(k < n && &sr == r.sr(k), "station routes in order");
    ++k;
  }
  sym_check(k == n, "all station routes");
  // membership of every node of every station route
  for (station_route::id s = 0; s < r.w.t.station_routes_.size(); ++s)
    for (node::idx i = 0; i < 3; ++i) {
      bool on = false;
      for (auto const& [x, y] : r.path) on |= ir.station_routes_[x] == s && y == i;
      if (i < r.w.t.station_routes_[s]->size()) {
        sym_check(ir.contains(s, i) == on, "a node is contained exactly if it is on the path");
        sym_reach(on ? "inside" : "outside");
      }
    }
  // the parts per station route make up the path
  std::size_t p = 0;
  unsigned j = 0;
  for (auto const& sp : ir.iterate_station_routes(*infra)) {
    sym_check(j < n && sp.station_route_ == r.sr(j), "one part per station route");
    for (node::idx i = 0; i < sp.station_route_->size(); ++i) {
      bool const on = p < r.path.size() && r.path[p].first == j && r.path[p].second == i;
      sym_check(sp.contains(i) == on, "parts contain exactly the nodes of the path");
      if (on) ++p;
    }
    ++j;
  }
  sym_check(j == n && p == r.path.size(), "parts make up the path");
}

HARNESS(ends) {
  net w;
  std::vector<node::ptr> a, b;
  auto const t1 = static_cast<type>(sym::pick(0, type_count - 1, "first")), t2 = static_cast<type>(sym::pick(0, type_count - 1, "last"));
  a = {w.node_of(t1), w.node_of(type::SLOPE), w.node_of(t2)};
  auto* const sa = w.route(a);
  (void)sa;
  auto const ends = [](type t) { return t == type::MAIN_SIGNAL || t == type::HALT || t == type::BORDER || t == type::BUMPER || t == type::TRACK_END; };
  auto const section = [](type t) { return t == type::BORDER || t == type::BUMPER || t == type::TRACK_END || t == type::KM_JUMP || t == type::LINE_SWITCH || t == type::SIMPLE_SWITCH || t == type::CROSS; };
  sym_check(interlocking_route::valid_end(t1) == ends(t1) && interlocking_route::valid_ends().contains(t1) == ends(t1), "valid ends of interlocking routes");
  interlocking_route x;
  x.id_ = static_cast<unsigned>(sym::pick(0, 1, "id"));
  x.start_offset_ = 0;
  x.end_offset_ = 3;
  x.station_routes_ = {0};
  infrastructure const infra(&w.t);
  sym_check(x.starts_on_ms(infra) == (t1 == type::MAIN_SIGNAL) && x.ends_on_ms(infra) == (t2 == type::MAIN_SIGNAL), "starting and ending at a main signal");
  sym_check(x.starts_on_section(infra) == section(t1) && x.ends_on_section(infra) == section(t2), "starting and ending at the end of a section");
  sym_reach("kinds");
  // y covers a part of the same route
  interlocking_route y;
  y.id_ = 1;
  y.start_offset_ = static_cast<node::idx>(sym::pick(0, 2, "from"));
  y.end_offset_ = 3;
  y.station_routes_ = {0};
  sym_check(y.follows(x, infra) == (y.start_offset_ == 2), "a route follows another if it starts where the other ends");
  sym_check((x == y) == (x.id_ == 1), "routes are equal if their ids are");
  if (y.start_offset_ == 2) sym_reach("follows");
}
