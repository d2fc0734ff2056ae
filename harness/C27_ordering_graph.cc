// @sources src/simulation/ordering/ordering_graph.cc src/simulation/ordering/remove_transitive_edges.cc src/simulation/ordering/check_exclusion_paths.cc src/runtime/runtime.cc src/runtime/interval.cc src/runtime/runtime_physics.cc src/timetable/sequence_point.cc src/timetable/train.cc src/timetable/timetable.cc src/timetable/bitfield.cc src/timetable/timetable_error.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc src/rolling_stock/train_physics.cc
// @bounds 2 and 3 trains with 2 or 3 routes each, on tracks of their own or shared ones, every division of the routes into 1 (quick) / 2 (thorough) exclusion sets, 4 to 8 departures each; two trains on several days, with every filter of trains and one of times
// @opt --fork-div 64
// @assume usages of excluding routes begin at different times; every path has at least two routes; constant tractive force
// @reach ok lost excluded transitive chain days same filtered outside
#include "common/digraph.h"
#include "common/run.h"
#include "soro/runtime/runtime.h"
#include "soro/simulation/ordering/check_exclusion_paths.h"
#include "soro/simulation/ordering/ordering_graph.h"
using namespace rail;
using namespace soro::simulation;

constexpr unsigned DAY = 86400, BASE = 19045, MAX = 8;

struct world {
  net w;
  base_timetable tt;
  unsigned routes{0};

  world() {
    w.t.stations_.resize(1);
    w.st.id_ = 0;
    w.t.defaults_.stationary_speed_limit_ = si::from_m_s(20.0);
  }
  node::ptr at(type const k, double const km) {
    auto* const e = w.add(k);
    e->as<track_element>().km_ = si::from_m(km);
    return e->nodes()[0];
  }
  // a track with 2 or 3 interlocking routes from its first to its last halt
  std::pair<std::vector<interlocking_route::id>, std::pair<station_route::id, station_route::id>> track(unsigned const n, double const first) {
    std::vector<node::ptr> a{at(type::HALT, 0), at(type::MAIN_SIGNAL, first), at(type::META, first + 100)};
    std::vector<node::ptr> b{at(type::META, first + 100)};
    if (n == 3) b.push_back(at(type::MAIN_SIGNAL, first + 700));
    b.push_back(at(type::HALT, first + 1200));
    auto* const ra = w.route(a);
    auto* const rb = w.route(b);
    ra->passenger_halt_ = node::optional_idx(node::idx{0});
    rb->passenger_halt_ = node::optional_idx(static_cast<node::idx>(b.size() - 1));
    w.link(ra, rb);
    std::vector<interlocking_route::id> ids;
    ids.push_back(w.lock({ra->id_}, 0, 2).id_);
    if (n == 3) ids.push_back(w.lock({ra->id_, rb->id_}, 1, 2).id_);
    ids.push_back(n == 3 ? w.lock({rb->id_}, 1, 3).id_ : w.lock({ra->id_, rb->id_}, 1, 2).id_);
    return {ids, {ra->id_, rb->id_}};
  }
  template <typename Track>
  void train_on(Track const& k, std::uint32_t const departure, std::vector<unsigned> const& days) {
    train t;
    t.id_ = static_cast<train::id>(tt.trains_.size());
    for (auto i : k.first) t.path_.push_back(i);
    t.break_in_ = t.break_out_ = false;
    auto const f = bitfield::anchor_time{date::days{static_cast<int>(BASE)}};
    t.service_days_ = {.first_date_ = f, .last_date_ = f + date::days{3}};
    for (auto d : days) t.service_days_.bitset_.set(d, true);
    sequence_point p;
    p.type_ = sequence_point::type::PASSENGER;
    p.min_stop_time_ = duration2{0};
    p.station_route_ = k.second.first;
    p.departure_ = relative_time{departure};
    t.sequence_points_.push_back(p);
    p.station_route_ = k.second.second;
    p.departure_ = relative_time{departure + 600};
    p.arrival_ = relative_time{departure + 600};
    t.sequence_points_.push_back(p);
    rs::tractive_curve_t curve;
    rs::tractive_piece_t piece;
    piece.piece_ = utls::make_polynomial(rs::tractive_force_3_t{0.0}, rs::tractive_force_2_t{0.0}, rs::tractive_force_1_t{0.5 * 1.06 * 100000.0});
    piece.from_ = si::from_m_s(0);
    piece.to_ = si::from_m_s(200);
    curve.pieces_.push_back(piece);
    t.physics_ = vehicle(20, -0.7, std::move(curve));
    tt.trains_.push_back(t);
  }
  void exclude(std::vector<std::vector<interlocking_route::id>> const& sets) {
    auto& x = w.t.exclusion_;
    x.irs_to_exclusion_sets_.resize(static_cast<soro::size_t>(w.t.interlocking_.routes_.size()));
    for (auto const& s : sets) {
      soro::vector<interlocking_route::id> ids;
      for (auto i : s) {
        ids.push_back(i);
        x.irs_to_exclusion_sets_[i].push_back(static_cast<exclusion_set::id>(x.exclusion_sets_.size()));
      }
      x.exclusion_sets_.push_back(ids);
    }
  }
};

struct usage {
  train::trip trip;
  interlocking_route::id ir;
  std::uint32_t from;
  unsigned pos, len;
};

static void check(world& m, std::vector<std::vector<interlocking_route::id>> const& sets, ordering_graph::filter const& filter = {}) {
  infrastructure const infra(&m.w.t);
  timetable const tt(base_timetable(m.tt));
  // the trips and their usages of interlocking routes
  std::vector<usage> us;
  std::size_t trips = 0;
  for (auto const& t : m.tt.trains_) {
    bool const wanted = filter.trains_.empty() || std::find(filter.trains_.begin(), filter.trains_.end(), t.id_) != filter.trains_.end();
    if (!wanted) sym_reach("filtered");
    auto const times = runtime::runtime_calculation(t, infra, type_set{type::MAIN_SIGNAL}).times_;
    sym_check(times.size() + 1 == t.path_.size(), "a train passes a main signal between its routes");
    for (unsigned d = 0; d < 4; ++d) {
      if (!t.service_days_.bitset_[d]) continue;
      std::uint32_t const midnight = (BASE + d) * DAY;
      auto const dep = midnight + t.first_departure().count(), arr = midnight + t.last_arrival().count();
      if (!wanted || arr < absolute_time_to_rep(filter.interval_.start_) || dep > absolute_time_to_rep(filter.interval_.end_)) {
        sym_reach("outside");
        continue;
      }
      ++trips;
      for (unsigned k = 0; k < t.path_.size(); ++k)
        us.push_back({{t.id_, rep_to_absolute_time(midnight)}, t.path_[k], k == 0 ? dep : midnight + times[k - 1].arrival_.count(), k, static_cast<unsigned>(t.path_.size())});
    }
  }
  auto const n = static_cast<unsigned>(us.size());
  auto const excluding = [&](unsigned i, unsigned k) {
    for (auto const& s : sets) {
      bool a = false, b = false;
      for (auto x : s) {
        a |= x == us[i].ir;
        b |= x == us[k].ir;
      }
      if (a && b) return true;
    }
    return false;
  };
  vp::digraph<MAX> g;
  g.n_ = n;
  for (unsigned i = 0; i < n; ++i)
    for (unsigned k = 0; k < n; ++k) {
      bool const same_trip = us[i].trip == us[k].trip;
      g.adj_[i][k] = same_trip && us[k].pos == us[i].pos + 1;
      if (i != k && !same_trip && excluding(i, k)) {
        sym_assume(us[i].from != us[k].from);
        sym_reach("excluded");
        g.adj_[i][k] = us[i].from < us[k].from;
      }
    }
  auto const d = g.dist();

  ordering_graph const og(infra, tt, filter);

  // the nodes of every trip
  sym_check(og.nodes_.size() == n && og.trip_to_nodes_.size() == trips, "a trip has a node for each of its routes");
  std::vector<ordering_node::id> id(n);
  for (unsigned i = 0; i < n; ++i) {
    auto const nodes = og.trip_nodes(us[i].trip);
    sym_check(nodes.size() == us[i].len, "a trip has a node for each of its routes");
    auto const& x = nodes[us[i].pos];
    id[i] = x.id_;
    sym_check(&og.nodes_[x.id_] == &x && x.ir_id_ == us[i].ir && x.train_id_ == us[i].trip.train_id_, "the nodes of a trip are its routes in order");
    if (us[i].pos + 1 < us[i].len) {
      sym_check(&x.next(og) == &nodes[us[i].pos + 1], "after a route a train takes the next one of its path");
      sym_reach("chain");
    }
  }
  // the order of the usages
  for (unsigned i = 0; i < n; ++i)
    for (unsigned k = 0; k < n; ++k) {
      auto const& out = og.nodes_[id[i]].out_;
      auto const& in = og.nodes_[id[k]].in_;
      auto const edges = std::count(out.begin(), out.end(), id[k]);
      sym_check(edges == std::count(in.begin(), in.end(), id[i]), "incoming are the inverse of outgoing edges");
      // exactly the pairs without another in between
      bool between = false;
      for (unsigned x = 0; x < n; ++x) between |= d[i][x] != 0 && d[x][k] != 0;
      bool const want = d[i][k] != 0 && !between;
      if (d[i][k] != 0 && between) sym_reach("transitive");
      sym_check(edges == (want ? 1 : 0), "usages are ordered by their trips and by time if they exclude each other, without shortcuts");
    }
  // usages of one trip, or of the same route, have an order
  bool all = true;
  for (unsigned i = 0; i < n; ++i)
    for (unsigned k = 0; k < n; ++k)
      if (i != k && excluding(i, k) && d[i][k] == 0 && d[k][i] == 0) all = false;
  sym_check(all && has_exclusion_paths(og, infra), "all usages that exclude each other are ordered");
  // a graph that lacks the edges from one node
  for (unsigned lost = 0; lost < n; ++lost) {
    ordering_graph part = og;
    for (auto const to : part.nodes_[id[lost]].out_) std::erase(part.nodes_[to].in_, id[lost]);
    part.nodes_[id[lost]].out_.clear();
    vp::digraph<MAX> h;
    h.n_ = n;
    for (unsigned i = 0; i < n; ++i)
      for (unsigned k = 0; k < n; ++k) h.adj_[i][k] = i != lost && std::count(og.nodes_[id[i]].out_.begin(), og.nodes_[id[i]].out_.end(), id[k]) != 0;
    auto const e = h.dist();
    bool complete = true;
    for (unsigned i = 0; i < n; ++i)
      for (unsigned k = 0; k < n; ++k)
        if (i != k && excluding(i, k) && e[i][k] == 0 && e[k][i] == 0) complete = false;
    if (!complete) sym_reach("lost");
    sym_check(has_exclusion_paths(part, infra) == complete, "missing exclusion paths are reported");
  }
  sym_reach("ok");
}

static std::vector<std::vector<interlocking_route::id>> any_sets(world const& m, unsigned const count) {
  std::vector<std::vector<interlocking_route::id>> r(count);
  for (auto& s : r)
    for (interlocking_route::id i = 0; i < m.w.t.interlocking_.routes_.size(); ++i)
      if (sym::pick(0, 1, "excludes")) s.push_back(i);
  return r;
}
static std::uint32_t any_time(unsigned const bits, unsigned const offset) { return (static_cast<std::uint32_t>(sym_make("departure", bits)) << 5) + 1024 + offset; }

HARNESS(two) {
  world m;
  auto const a = m.track(3, 300), b = m.track(static_cast<unsigned>(sym::pick(2, 3, "routes")), 500);
  m.train_on(a, any_time(3, 0), {1});
  m.train_on(b, any_time(3, 5), {1});
  auto const s = any_sets(m, BOUND(1, 2));
  m.exclude(s);
  check(m, s);
}
HARNESS(three) {
  world m;
  auto const a = m.track(2, 300), b = m.track(2, 500), c = m.track(2, 200);
  m.train_on(a, any_time(2, 0), {1});
  m.train_on(b, any_time(2, 5), {1});
  m.train_on(c, any_time(2, 11), {1});
  auto const s = any_sets(m, BOUND(1, 2));
  m.exclude(s);
  check(m, s);
}
// the same track
HARNESS(shared) {
  world m;
  auto const a = m.track(2, 300), b = m.track(3, 500);
  m.train_on(a, any_time(3, 0), {1});
  m.train_on(a, any_time(3, 5), {1});
  m.train_on(b, any_time(2, 11), {1});
  auto s = any_sets(m, 1);
  for (auto i : a.first) s.push_back({i});
  sym_reach("same");
  m.exclude(s);
  check(m, s);
}
// several days, some trains or times only
HARNESS(days) {
  world m;
  auto const a = m.track(2, 300), b = m.track(2, 500);
  m.train_on(a, any_time(1, 0), {0, 2});
  m.train_on(b, any_time(2, 5), {static_cast<unsigned>(sym::pick(0, 2, "day")), 3});
  auto const s = any_sets(m, 1);
  m.exclude(s);
  sym_reach("days");
  ordering_graph::filter f;
  switch (sym::pick(0, 3, "filter")) {
    case 0: break;
    case 1: f.trains_ = {static_cast<train::id>(sym::pick(0, 1, "train"))}; break;
    case 2: f.trains_ = {1, 0}; break;
    default:
      f.interval_.start_ = rep_to_absolute_time((BASE + 1) * DAY);
      f.interval_.end_ = rep_to_absolute_time((BASE + 3) * DAY);
      break;
  }
  check(m, s, f);
}
