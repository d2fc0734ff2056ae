// @sources src/timetable/parsers/station_route_to_interlocking_route.cc src/timetable/parsers/route_transform_error.cc src/timetable/sequence_point.cc src/timetable/train.cc src/timetable/bitfield.cc src/infrastructure/path/length.cc src/infrastructure/interlocking/get_interlocking.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc src/rolling_stock/train_physics.cc
// @bounds stop sequences of up to 3 (quick) / 4 (thorough) stops over chains of up to 4 station routes, forks of 5 and station routes sharing track, of 2 to 4 nodes, every placement of main signals, halts for both kinds of trains and checkpoints
// @assume consecutive station routes of a stop sequence follow each other; the first and last stop are halts of the station routes; halts and checkpoints are not main signals; no cycles
// @reach ok inside ambiguous none single several freight checkpoint shared etcs
#include "common/rail.h"
#include "soro/infrastructure/interlocking/get_interlocking.h"
#include "soro/timetable/parsers/route_transform_error.h"
#include "soro/timetable/parsers/station_route_to_interlocking_route.h"
#include "soro/timetable/train.h"
using namespace rail;
using namespace soro::tt;

constexpr unsigned NONE = 99;
struct world {
  net w;
  bool freight{false};
  std::vector<unsigned> len;
  std::vector<std::vector<unsigned>> succ;
  std::vector<std::vector<node::ptr>> nodes;

  world() {
    w.t.stations_.resize(1);
    w.st.id_ = 0;
  }
  // a station route with its halt for the train, others and the checkpoint
  void add(std::vector<node::ptr> const& n, unsigned const halt, unsigned const other, unsigned const check) {
    auto* const sr = w.route(n);
    if (halt != NONE) (freight ? sr->freight_halt_ : sr->passenger_halt_) = node::optional_idx(static_cast<node::idx>(halt));
    if (other != NONE) (freight ? sr->passenger_halt_ : sr->freight_halt_) = node::optional_idx(static_cast<node::idx>(other));
    if (check != NONE) sr->runtime_checkpoint_ = node::optional_idx(static_cast<node::idx>(check));
    nodes.push_back(n);
    len.push_back(static_cast<unsigned>(n.size()));
    succ.emplace_back();
  }
  // any nodes between the borders to other stations, one of them the halt
  void any(unsigned const n, bool const pre, bool const post, bool const with_other = false) {
    auto const from = pre ? 1U : 0U, to = post ? n - 2 : n - 1;
    auto const halt = static_cast<unsigned>(sym::pick(from, to, "halt"));
    auto const other = with_other ? static_cast<unsigned>(sym::pick(from, to + 1, "other halt")) : to + 1;
    std::vector<node::ptr> v;
    unsigned check = NONE;
    for (unsigned i = 0; i < n; ++i) {
      bool const inside = from <= i && i <= to;
      bool const stop = i == halt || (i == other && i <= to);
      bool const ms = inside && !stop && sym::pick(0, 1, "main signal") != 0;
      if (inside && !ms && !stop && check == NONE) check = i;
      v.push_back(w.node_of(!inside ? type::BORDER : ms ? type::MAIN_SIGNAL : stop ? type::HALT : type::TUNNEL));
    }
    add(v, halt, other > to ? NONE : other, check);
  }
  void link(unsigned a, unsigned b) {
    w.link(w.t.station_routes_[a], w.t.station_routes_[b]);
    succ[a].push_back(b);
  }
};

struct position {
  unsigned stop, idx;
};

static void check(world& m, std::vector<unsigned> const& srs) {
  auto const kind = m.freight ? rs::FreightTrain::YES : rs::FreightTrain::NO;
  if (m.freight) sym_reach("freight");
  m.w.t.interlocking_ = get_interlocking(m.w.t);
  infrastructure const infra(&m.w.t);
  auto const& irs = m.w.t.interlocking_.routes_;
  auto const sr = [&](unsigned s) { return m.w.t.station_routes_[srs[s]]; };
  auto const n = static_cast<unsigned>(srs.size());

  stop_sequence ss;
  ss.break_in_ = ss.break_out_ = false;
  for (unsigned i = 0; i < n; ++i) {
    sequence_point p;
    p.station_route_ = srs[i];
    p.min_stop_time_ = duration2{i};
    bool const ends = i == 0 || i + 1 == n;
    auto const t = ends ? 1 : sym::pick(0, 2, "stop");
    if (t == 1) {
      p.type_ = sequence_point::type::PASSENGER;
      p.arrival_ = relative_time{10 * i};
      p.departure_ = relative_time{10 * i + 5};
    } else if (t == 2 && sr(i)->runtime_checkpoint_.has_value()) {
      p.departure_ = relative_time{10 * i};
      sym_reach("checkpoint");
    }
    ss.points_.push_back(p);
  }
  auto const place = [&](sequence_point const& p) { return p.is_halt() ? *m.w.t.station_routes_[p.station_route_]->get_halt_idx(kind) : *m.w.t.station_routes_[p.station_route_]->runtime_checkpoint_; };

  // the way of the train
  std::vector<node::ptr> way;
  std::vector<std::pair<std::size_t, sequence_point const*>> timed;
  auto const h0 = place(ss.points_[0]), h1 = place(ss.points_[n - 1]);
  for (unsigned i = 0; i < n; ++i)
    for (unsigned k = i == 0 ? h0 : 0; k < (i + 1 == n ? h1 + 1U : m.len[srs[i]]); ++k) {
      if ((ss.points_[i].is_halt() || ss.points_[i].departure_ != INVALID<relative_time>) && place(ss.points_[i]) == k) timed.emplace_back(way.size(), &ss.points_[i]);
      way.push_back(sr(i)->nodes(static_cast<node::idx>(k)));
    }

  auto const r = transform_to_interlocking(ss, kind, infra);

  // is there exactly one choice of interlocking routes?
  // whether a route that begins at stop s follows the sequence as far as both go
  auto const follows = [&](interlocking_route const& ir, unsigned const from, unsigned const s) {
    for (unsigned i = from, k = s; i < ir.station_routes_.size() && k < n; ++i, ++k)
      if (ir.station_routes_[i] != srs[k]) return false;
    return true;
  };
  bool unique = true, possible = true;
  unsigned stop = 0, idx = 0;
  {
    unsigned fit = 0, all = 0;
    interlocking_route const* first = nullptr;
    unsigned offset = 0;
    for (auto const& ir : irs)
      for (unsigned i = 0; i < ir.station_routes_.size(); ++i)
        if (ir.station_routes_[i] == srs[0] && ir.contains(srs[0], h0)) {
          ++all;
          if (!follows(ir, i, 0)) continue;
          ++fit;
          first = &ir;
          offset = i;
        }
    possible = fit > 0;
    unique = fit == 1 && (offset == 0 || all == 1);
    if (unique) {
      stop = static_cast<unsigned>(first->station_routes_.size()) - 1 - offset;
      idx = first->end_offset_;
    }
  }
  while (unique && (stop + 1 < n || (stop + 1 == n && idx <= h1))) {
    unsigned fit = 0;
    interlocking_route const* next = nullptr;
    for (auto const& ir : irs)
      if (ir.station_routes_[0] == srs[stop] && ir.start_offset_ + 1U == idx && follows(ir, 0, stop)) {
        ++fit;
        next = &ir;
      }
    possible = fit > 0;
    unique = fit == 1;
    if (unique) {
      stop += static_cast<unsigned>(next->station_routes_.size()) - 1;
      idx = next->end_offset_;
    }
  }
  sym_check(!unique || r.has_value(), "a stop sequence with exactly one way of interlocking routes is accepted");
  sym_check(possible || !r.has_value(), "a stop sequence without a way is refused");
  if (!r.has_value()) {
    auto const e = r.error();
    sym_check(e == error::route_transform::NO_FIRST_IR || e == error::route_transform::NO_UNIQUE_FIRST_IR || e == error::route_transform::NO_IR || e == error::route_transform::NO_UNIQUE_IR, "a refused stop sequence has its reason");
    sym_reach(possible ? "ambiguous" : "none");
    return;
  }
  sym_reach("ok");
  sym_reach(r->path_.size() == 1 ? "single" : "several");

  // the interlocking routes follow each other and cover the way
  std::size_t at = 0;
  bool begun = false;
  sym_check(!r->path_.empty(), "a train uses interlocking routes");
  for (std::size_t i = 0; i < r->path_.size(); ++i) {
    auto const& ir = irs[r->path_[i]];
    sym_check(i == 0 || ir.follows(irs[r->path_[i - 1]], infra), "interlocking routes of a train follow each other");
    sym_check(i == 0 || at < way.size(), "a train has no interlocking routes beyond its last halt");
    bool skip = i > 0;
    for (auto&& rn : ir.iterate(infra)) {
      if (skip) {
        skip = false;
        continue;
      }
      if (!begun && rn.node_ == way[0]) begun = true;
      if (begun && at < way.size()) {
        sym_check(rn.node_ == way[at], "the interlocking routes of a train are those along its station routes");
        ++at;
      }
    }
    sym_check(begun, "the first interlocking route contains the first halt");
  }
  sym_check(at == way.size(), "the interlocking routes of a train lead from its first to its last halt");
  if (irs[r->path_.back()].station_routes_.size() > n) sym_reach("inside");

  // its sequence points
  sym_check(r->sequence_points_.size() == timed.size(), "exactly the halts and timed transits of a stop sequence are kept");
  for (std::size_t i = 0; i < timed.size(); ++i) sym_check(r->sequence_points_[i] == *timed[i].second, "halts and timed transits are kept in order");

  // running the train
  train t;
  t.path_ = r->path_;
  t.sequence_points_ = r->sequence_points_;
  t.physics_ = rs::train_physics({}, si::from_ton(1), si::from_m(1), si::from_km_h(10), rs::CTC::NO, kind);
  std::size_t p = 0, q = 0;
  for (auto&& tn : t.iterate(infra)) {
    sym_check(p < way.size() && tn.node_ == way[p], "a train passes the nodes from its first to its last halt");
    bool const stops = q < timed.size() && timed[q].first == p;
    sym_check(tn.sequence_point_.has_value() == stops, "a train has its times at exactly their nodes");
    if (stops) {
      sym_check(*tn.sequence_point_ == &t.sequence_points_[q], "a train has its times at exactly their nodes");
      ++q;
    }
    sym_check(tn.omitted() == (!stops && tn.node_->is(type::HALT)), "halts a train does not stop at are passed over");
    ++p;
  }
  sym_check(p == way.size() && q == timed.size(), "a train passes all nodes from its first to its last halt");
  sym_check(t.get_start_node(infra) == way[0] && t.first_station_route(infra) == sr(0) && t.last_station_route(infra) == sr(n - 1), "a train starts at its first halt and ends in its last station route");
}

// any path of 2 or more station routes
static std::vector<unsigned> any_way(world& m, unsigned const max, unsigned const first, unsigned const last) {
  std::vector<unsigned> r;
  r.push_back(static_cast<unsigned>(sym::pick(first, last, "first")));
  while (r.size() < max && !m.succ[r.back()].empty() && (r.size() < 2 || sym::pick(0, 1, "more"))) r.push_back(m.succ[r.back()][sym::pick(0, m.succ[r.back()].size() - 1, "next")]);
  return r;
}

HARNESS(chain) {
  world m;
  m.freight = sym::pick(0, 1, "freight") != 0;
  m.any(3, false, true);
  m.any(4, true, true);
  m.any(4, true, true);
  m.any(3, true, false);
  for (unsigned i = 0; i < 3; ++i) m.link(i, i + 1);
  check(m, any_way(m, BOUND(3, 4), 0, 2));
}

HARNESS(longer) {
  world m;
  m.any(4, false, true);
  m.any(5, true, true);
  m.any(4, true, false);
  m.link(0, 1);
  m.link(1, 2);
  check(m, any_way(m, 3, 0, 1));
}

HARNESS(others) {
  world m;
  m.freight = sym::pick(0, 1, "freight") != 0;
  m.any(5, false, true, true);
  m.any(4, true, false, true);
  m.link(0, 1);
  check(m, {0, 1});
}

HARNESS(fork) {
  world m;
  m.any(3, false, true);
  m.any(2, false, true);
  m.any(5, true, true);
  m.any(3, true, false);
  m.any(2, true, false);
  m.link(0, 2);
  m.link(1, 2);
  m.link(2, 3);
  m.link(2, 4);
  check(m, any_way(m, 3, 0, 2));
}

// two station routes with a common beginning or end, or both
HARNESS(shared) {
  world m;
  m.any(3, false, true);
  auto const begin = static_cast<unsigned>(sym::pick(1, 3, "common begin")), end = static_cast<unsigned>(sym::pick(0, 1, "common end"));
  auto const hp = static_cast<unsigned>(sym::pick(1, 3, "halt"));
  auto const fresh = [&](unsigned i) { return m.w.node_of(i == 0 || i == 4 ? type::BORDER : i == hp ? type::HALT : sym::pick(0, 1, "main signal") ? type::MAIN_SIGNAL : type::TUNNEL); };
  std::vector<node::ptr> a, b;
  for (unsigned i = 0; i < 5; ++i) a.push_back(fresh(i));
  for (unsigned i = 0; i < 5; ++i) b.push_back(i < begin || i + end >= 5 ? a[i] : fresh(i));
  m.add(a, hp, NONE, NONE);
  m.add(b, hp, NONE, NONE);
  m.any(3, true, false);
  m.link(0, 1);
  m.link(0, 2);
  m.link(1, 3);
  m.link(2, 3);
  sym_reach("shared");
  check(m, any_way(m, 3, 0, 2));
}

// one of the station routes requires ETCS
HARNESS(etcs) {
  world m;
  line l;
  l.id_ = 7;
  line::segment seg;
  seg.from_ = si::from_m(0.0);
  seg.to_ = si::from_m(10.0);
  seg.signalling_ = false;
  l.segments_.push_back(seg);
  m.w.t.lines_[7] = l;
  m.any(3, false, true);
  m.any(4, true, true);
  m.any(3, true, false);
  m.any(3, true, false);
  m.link(0, 1);
  m.link(0, 2);
  m.link(1, 3);
  auto const k = sym::pick(0, 3, "etcs");
  auto& sr = *m.w.t.station_route_store_[k];
  auto& e = m.w.t.graph_.element_store_[sr.nodes(0)->element_->id()]->as<track_element>();
  e.line_ = 7;
  e.km_ = si::from_m(5.0);
  m.w.t.station_route_path_store_[k]->etcs_starts_.push_back(0);
  sym_reach("etcs");
  check(m, any_way(m, 3, 0, 1));
}
