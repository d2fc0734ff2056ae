// @sources src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/line.cc
// @bounds station routes of up to 4 (quick) / 6 (thorough) nodes, every subset of omitted nodes, every set of nodes with an extra speed limit, every subrange; first and last node of every element type; halts and checkpoints at any position or absent; lines of up to 3 segments for the ETCS requirement
// @assume one extra speed limit per node, in the order of the nodes, and subranges inside the route
// @reach omitted extra through in out contained etcs halt none
#include "common/rail.h"
using namespace rail;

HARNESS(iterate) {
  net w;
  auto const n = static_cast<unsigned>(sym::pick(1, BOUND(4, 6), "nodes"));
  std::vector<node::ptr> nodes;
  for (unsigned i = 0; i < n; ++i) nodes.push_back(w.node_of(type::MAIN_SIGNAL));
  auto* const sr = w.route(nodes);
  auto const omit = sym::pick(0, (1U << n) - 1, "omitted"), spl = sym::pick(0, (1U << n) - 1, "extra");
  std::vector<int> where(n, -1);
  for (unsigned i = 0; i < n; ++i) {
    if ((omit >> i) & 1) sr->omitted_nodes_.push_back(static_cast<node::idx>(i));
    if ((spl >> i) & 1) {
      where[i] = static_cast<int>(sr->extra_speed_limits_.size());
      speed_limit s;
      s.node_ = nodes[i];
      s.element_ = nodes[i]->element_;
      sr->extra_speed_limits_.push_back(s);
    }
  }
  auto const same = [&](route_node const& r, unsigned i) {
    bool const om = ((omit >> i) & 1) != 0, ex = ((spl >> i) & 1) != 0 && !om;
    if (om) sym_reach("omitted");
    if (ex) sym_reach("extra");
    return r.node_ == nodes[i] && r.omitted() == om && r.extra_spl_.has_value() == ex && (!ex || *r.extra_spl_ == &sr->extra_speed_limits_[static_cast<unsigned>(where[i])]);
  };
  auto const all = [&](auto&& gen, unsigned from, unsigned to) {
    unsigned i = from;
    for (auto&& r : gen) {
      sym_check(i < to && same(r, i), "a route lists its nodes in order with their omissions and extra speed limits");
      ++i;
    }
    sym_check(i == to, "a route lists exactly the requested nodes");
  };
  auto const from = static_cast<node::idx>(sym::pick(0, n, "from")), to = static_cast<node::idx>(sym::pick(from, n, "to"));
  all(sr->from_to(from, to), from, to);
  if (to == n) all(sr->from(from), from, n);
  if (from == 0) all(sr->to(to), 0, to);
  if (from == 0 && to == n) all(sr->iterate(), 0, n);
  sym_check(sr->size() == n, "number of nodes");
  for (node::idx i = 0; i < n; ++i) sym_check(sr->nodes(i) == nodes[i], "access to the nodes");
}

HARNESS(kinds) {
  net w;
  auto const t1 = static_cast<type>(sym::pick(0, type_count - 1, "first")), t2 = static_cast<type>(sym::pick(0, type_count - 1, "last"));
  auto* const sr = w.route({w.node_of(t1), w.node_of(type::SLOPE), w.node_of(t2)});
  bool const b1 = t1 == type::BORDER || t1 == type::TRACK_END, b2 = t2 == type::BORDER || t2 == type::TRACK_END;
  sym_check(sr->is_through_route() == (b1 && b2) && sr->is_in_route() == (b1 && !b2) && sr->is_out_route() == (!b1 && b2) && sr->is_contained_route() == (!b1 && !b2), "a route is of exactly one kind, according to its ends");
  sym_reach(b1 ? (b2 ? "through" : "in") : (b2 ? "out" : "contained"));
  auto* const other = w.route({w.node_of(type::HALT)});
  auto const p = sym::pick(0, 3, "neighbours");
  if (p & 1) w.link(other, sr);
  if (p & 2) w.link(sr, other);
  bool const ms = t1 == type::MAIN_SIGNAL || t2 == type::MAIN_SIGNAL;
  auto const& g = w.t.station_route_graph_;
  sym_check(sr->can_start_an_interlocking(g) == (ms || !(p & 1)), "an interlocking route starts at a main signal or where nothing precedes");
  sym_check(sr->can_end_an_interlocking(g) == (ms || !(p & 2)), "an interlocking route ends at a main signal or where nothing follows");
  sym_check((*sr == *other) == false && *sr == *sr && *sr != *other, "routes are equal if they are the same");
  bool const el = sym::boolean("electrified");
  sr->attributes_[1] = el;
  sym_check(sr->electrified() == el, "electrification");
}

HARNESS(halts) {
  net w;
  std::vector<node::ptr> nodes;
  for (unsigned i = 0; i < 3; ++i) nodes.push_back(w.node_of(type::HALT));
  auto* const sr = w.route(nodes);
  auto const pick = [](char const* n) { return sym::pick(0, 3, n); };
  auto const p = pick("passenger"), f = pick("freight"), c = pick("checkpoint");
  auto const at = [](auto i) { return i == 3 ? node::optional_idx{} : node::optional_idx(static_cast<node::idx>(i)); };
  sr->passenger_halt_ = at(p);
  sr->freight_halt_ = at(f);
  sr->runtime_checkpoint_ = at(c);
  auto const test = [&](auto i, node::optional_ptr n) { return i == 3 ? !n.has_value() : n.has_value() && *n == nodes[i]; };
  sym_check(test(p, sr->get_halt_node(rs::FreightTrain::NO)), "the halt of passenger trains");
  sym_check(test(f, sr->get_halt_node(rs::FreightTrain::YES)), "the halt of freight trains");
  sym_check(test(c, sr->get_runtime_checkpoint_node()), "the runtime checkpoint");
  auto const x = sr->get_halt_idx(rs::FreightTrain::NO), y = sr->get_halt_idx(rs::FreightTrain::YES);
  sym_check(x.has_value() == (p != 3) && (p == 3 || *x == p) && y.has_value() == (f != 3) && (f == 3 || *y == f), "positions of halts");
  sym_reach(p == 3 ? "none" : "halt");
}

HARNESS(etcs) {
  net w;
  bool const any = sym::boolean("etcs");
  std::vector<node::ptr> nodes;
  for (unsigned i = 0; i < 2; ++i) nodes.push_back(w.node_of(type::ETCS_START));
  auto* const sr = w.route(nodes);
  if (any) {
    sr->path_ = nullptr;
    auto& path = *w.t.station_route_path_store_.back();
    path.etcs_starts_ = {0, 1};
    sr->path_ = &path;
  }
  auto const segs = static_cast<unsigned>(sym::pick(1, 3, "segments"));
  line l;
  l.id_ = 7;
  bool sig[3];
  for (unsigned i = 0; i < segs; ++i) {
    sig[i] = sym::boolean("signalling");
    line::segment s;
    s.from_ = si::from_m(static_cast<double>(100 * i));
    s.to_ = si::from_m(static_cast<double>(100 * i + 100));
    s.signalling_ = sig[i];
    l.segments_.push_back(s);
  }
  w.t.lines_[7] = l;
  auto const k = sym::pick(0, segs - 1, "at");
  for (unsigned i = 0; i < 2; ++i) {
    auto& e = w.t.graph_.element_store_[i]->as<track_element>();
    e.line_ = i == 0 ? 8 : 7;
    e.km_ = si::from_m(static_cast<double>(100 * k + 50));
  }
  sym_check(sr->requires_etcs(w.t.lines_) == (any && !sig[k]), "ETCS is required after an ETCS start where the line has no signals");
  if (any) sym_reach("etcs");
}
