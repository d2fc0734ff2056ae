// @sources src/infrastructure/interlocking/get_interlocking.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc
// @bounds up to 3 station routes of 2 nodes, or 2 (quick) / 3 (thorough) station routes of 2 or 3 nodes, in an acyclic station route graph, every set of main signals, every ETCS requirement, every halt position
// @assume the station route graph has no cycle without a main signal (otherwise the enumeration of routes is infinite)
// @reach leading internal trailing crossing etcs halting none
#include "common/rail.h"
#include "soro/infrastructure/interlocking/get_interlocking.h"
using namespace rail;

struct expected {
  std::vector<unsigned> srs;
  unsigned start, end;
  bool seen{false};
};

struct model {
  net w;
  unsigned n;
  std::vector<unsigned> len, ms;
  std::vector<bool> etcs;
  std::vector<std::vector<unsigned>> succ;
  std::vector<bool> has_pred;
  std::vector<expected> irs;

  unsigned last_ms(unsigned s) const {
    unsigned r = ~0U;
    for (unsigned i = 0; i < len[s]; ++i)
      if ((ms[s] >> i) & 1) r = i;
    return r;
  }
  void walk(expected e, unsigned s) {
    if (etcs[s]) {
      sym_reach("etcs");
      return;
    }
    e.srs.push_back(s);
    for (unsigned i = 0; i < len[s]; ++i)
      if ((ms[s] >> i) & 1) {
        e.end = i + 1;
        irs.push_back(e);
        return;
      }
    if (succ[s].empty()) {
      e.end = len[s];
      irs.push_back(e);
    }
    for (auto t : succ[s]) walk(e, t);
  }
  void expect() {
    for (unsigned s = 0; s < n; ++s) {
      // after the dead end a route starts at: up to its first main signal
      auto const from = [&](unsigned start, unsigned next) {
        for (unsigned i = next; i < len[s]; ++i)
          if ((ms[s] >> i) & 1) {
            irs.push_back({{s}, start, i + 1});
            sym_reach(next == start ? "leading" : "internal");
            return;
          }
        if (succ[s].empty()) {
          if (ms[s] != 0) {
            irs.push_back({{s}, start, len[s]});
            sym_reach("trailing");
          }
          return;
        }
        if (etcs[s]) return;
        for (auto t : succ[s]) {
          auto const c = irs.size();
          walk({{s}, start, 0}, t);
          if (irs.size() > c) sym_reach("crossing");
        }
      };
      if (!has_pred[s]) from(0, 0);
      for (unsigned i = 0; i < len[s]; ++i)
        if ((ms[s] >> i) & 1) from(i, i + 1);
    }
  }
};

static void build(model& m, unsigned n, bool const with_etcs, unsigned const maxlen) {
  m.n = n;
  m.w.t.stations_.resize(1);
  m.w.st.id_ = 0;
  line l;
  l.id_ = 7;
  line::segment seg;
  seg.from_ = si::from_m(0.0);
  seg.to_ = si::from_m(10.0);
  seg.signalling_ = false;
  l.segments_.push_back(seg);
  m.w.t.lines_[7] = l;
  m.succ.resize(n);
  m.has_pred.assign(n, false);
  for (unsigned s = 0; s < n; ++s) {
    m.len.push_back(maxlen == 2 ? 2 : static_cast<unsigned>(sym::pick(2, maxlen, "nodes")));
    m.ms.push_back(static_cast<unsigned>(sym::pick(0, (1U << m.len[s]) - 1, "main signals")));
    std::vector<node::ptr> nodes;
    for (unsigned i = 0; i < m.len[s]; ++i) nodes.push_back(m.w.node_of((m.ms[s] >> i) & 1 ? type::MAIN_SIGNAL : type::HALT));
    auto* const sr = m.w.route(nodes);
    m.etcs.push_back(with_etcs && sym::pick(0, 1, "etcs") != 0);
    if (m.etcs[s]) {
      auto& e = m.w.t.graph_.element_store_[nodes[0]->element_->id()]->as<track_element>();
      e.line_ = 7;
      e.km_ = si::from_m(5.0);
      auto& p = *m.w.t.station_route_path_store_.back();
      p.etcs_starts_.push_back(0);
      sr->path_ = &p;
    }
  }
  // successors: any acyclic relation
  bool const rev = sym::pick(0, 1, "reversed ids") != 0;
  for (unsigned i = 0; i < n; ++i)
    for (unsigned k = i + 1; k < n; ++k)
      if (sym::pick(0, 1, "successor")) {
        auto const a = rev ? n - 1 - i : i, b = rev ? n - 1 - k : k;
        m.w.link(m.w.t.station_routes_[a], m.w.t.station_routes_[b]);
        m.succ[a].push_back(b);
        m.has_pred[b] = true;
      }
}

static bool same(interlocking_route const& ir, expected const& e) {
  if (ir.start_offset_ != e.start || ir.end_offset_ != e.end || ir.station_routes_.size() != e.srs.size()) return false;
  for (unsigned i = 0; i < e.srs.size(); ++i)
    if (ir.station_routes_[i] != e.srs[i]) return false;
  return true;
}

static void check_routes(model& m, interlocking const& il) {
  m.expect();
  sym_check(il.routes_.size() == m.irs.size(), "every path between main signals or ends is one interlocking route");
  if (m.irs.empty()) sym_reach("none");
  for (unsigned i = 0; i < il.routes_.size(); ++i) {
    auto const& ir = il.routes_[i];
    sym_check(ir.id_ == i, "interlocking routes are numbered by position");
    bool found = false;
    for (auto& e : m.irs)
      if (!e.seen && same(ir, e)) {
        e.seen = found = true;
        break;
      }
    sym_check(found, "an interlocking route leads from a main signal or end to the next");
  }
}

// (a route is listed once; at a node that is both its passenger and its freight halt, once for each)
template <typename L, typename F>
static void exactly(L const& ids, unsigned const count, F&& want, char const* msg, bool const twice = false) {
  for (std::size_t i = 1; i < ids.size(); ++i) sym_check(ids[i - 1] < ids[i] || (twice && ids[i - 1] == ids[i]), "lists of interlocking routes ascend");
  unsigned have = 0;
  for (std::size_t i = 0; i < ids.size(); ++i) {
    sym_check(ids[i] < count && want(ids[i]), msg);
    if (i == 0 || ids[i - 1] != ids[i]) ++have;
  }
  unsigned all = 0;
  for (unsigned k = 0; k < count; ++k) all += want(k) ? 1 : 0;
  sym_check(have == all, msg);
}

HARNESS(generation) {
  model m;
  build(m, static_cast<unsigned>(sym::pick(1, BOUND(3, 3), "routes")), true, 2);
  check_routes(m, get_interlocking(m.w.t));
}

HARNESS(longer) {
  model m;
  build(m, static_cast<unsigned>(sym::pick(1, BOUND(2, 3), "routes")), false, 3);
  check_routes(m, get_interlocking(m.w.t));
}

HARNESS(tables) {
  model m;
  build(m, static_cast<unsigned>(sym::pick(1, 3, "routes")), false, 2);
  station other;
  other.id_ = 1;
  m.w.t.stations_.resize(2);
  std::vector<unsigned> in_station;
  for (unsigned s = 0; s < m.n; ++s) {
    in_station.push_back(static_cast<unsigned>(sym::pick(0, 1, "station")));
    if (in_station[s] == 1) m.w.t.station_route_store_[s]->station_ = &other;
  }
  // halts in the last route
  auto& sr = *m.w.t.station_route_store_.back();
  auto const p = sym::pick(0, 2, "passenger halt"), f = m.n < 3 ? sym::pick(0, 2, "freight halt") : 2;
  if (p < 2) sr.passenger_halt_ = node::optional_idx(static_cast<node::idx>(p));
  if (f < 2) sr.freight_halt_ = node::optional_idx(static_cast<node::idx>(f));
  auto const il = get_interlocking(m.w.t);
  auto const c = static_cast<unsigned>(il.routes_.size());
  auto const uses = [&](unsigned r, unsigned s) {
    for (auto x : il.routes_[r].station_routes_)
      if (x == s) return true;
    return false;
  };
  auto const node_at = [&](unsigned s, unsigned i) { return m.w.t.station_routes_[s]->nodes(static_cast<node::idx>(i))->id_; };
  sym_check(il.starting_at_.size() == m.w.t.graph_.nodes_.size() && il.ending_at_.size() == il.starting_at_.size() && il.halting_at_.size() == il.starting_at_.size(), "one list per node");
  for (node::id v = 0; v < m.w.t.graph_.nodes_.size(); ++v) {
    exactly(il.starting_at_[v], c, [&](unsigned r) { return node_at(il.routes_[r].station_routes_.front(), il.routes_[r].start_offset_) == v; }, "routes starting at a node");
    exactly(il.ending_at_[v], c, [&](unsigned r) { return node_at(il.routes_[r].station_routes_.back(), il.routes_[r].end_offset_ - 1U) == v; }, "routes ending at a node");
    exactly(il.halting_at_[v], c, [&](unsigned r) {
      auto const last = m.n - 1;
      if (!uses(r, last)) return false;
      bool halt = false;
      for (auto h : {p, f}) halt |= h < 2 && node_at(last, static_cast<unsigned>(h)) == v;
      if (!halt) return false;
      auto const& ir = il.routes_[r];
      unsigned i = node_at(last, 0) == v ? 0 : 1;
      bool const in = (ir.station_routes_.front() != last || ir.start_offset_ <= i) && (ir.station_routes_.back() != last || i < ir.end_offset_);
      if (in) sym_reach("halting");
      return in;
    }, "routes halting at a node", p == f);
  }
  sym_check(il.sr_to_participating_irs_.size() == m.n, "one list per station route");
  for (unsigned s = 0; s < m.n; ++s) exactly(il.sr_to_participating_irs_[s], c, [&](unsigned r) { return uses(r, s); }, "routes using a station route");
  sym_check(il.station_to_irs_.size() == 2, "one list per station");
  for (unsigned t = 0; t < 2; ++t)
    exactly(il.station_to_irs_[t], c, [&](unsigned r) {
      for (unsigned s = 0; s < m.n; ++s)
        if (uses(r, s) && in_station[s] == t) return true;
      return false;
    }, "routes in a station");
}
