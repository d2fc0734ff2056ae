// a train on a line of track elements, in one interlocking route over three
// station routes: the first begins with what lies before the first halt, the
// last ends with the last halt
#pragma once
#include "common/rail.h"
#include "soro/timetable/train.h"

namespace rail {
using namespace soro::tt;

struct item {
  type kind{type::META};
  double step{0.0};  // from the item before
  bool omitted{false};
  bool stop{false};
  double limit{-1.0};  // < 0: none, of the element
  bool at_signal{false};
  bool relevant{true};
  double extra{-1.0};  // < 0: none, of the station route
  bool extra_at_signal{false};
};

struct line_run {
  net w;
  train t;
  std::vector<item> way;  // from the first to the last halt
  std::vector<node::ptr> nodes;
  std::vector<double> km;

  line_run() {
    w.t.stations_.resize(1);
    w.st.id_ = 0;
    w.t.defaults_.stationary_speed_limit_ = si::from_m_s(30.0);
  }

  static speed_limit make(double const limit, bool const at_signal, bool const relevant) {
    speed_limit s;
    s.type_ = speed_limit::type::GENERAL_ALLOWED;
    s.effects_ = speed_limit::effects::ALL;
    s.poa_ = at_signal ? speed_limit::poa::LAST_SIGNAL : speed_limit::poa::HERE;
    s.limit_ = si::from_m_s(limit);
    s.length_ = si::ZERO<si::length>;
    if (!relevant) {
      switch (sym::pick(0, 3, "irrelevant")) {
        case 0: s.type_ = speed_limit::type::SPECIAL_ALLOWED; break;
        case 1: s.type_ = speed_limit::type::GENERAL_DIFFERING; break;
        case 2: s.effects_ = speed_limit::effects::LZB_ETCS; break;
        default: s.limit_ = si::ZERO<si::speed>; break;
      }
    } else if (at_signal) {
      s.effects_ = speed_limit::effects::CONVENTIONAL;
    }
    return s;
  }

  node::ptr element_of(item const& i, double const at) {
    auto* const e = w.add(i.kind);
    e->as<track_element>().km_ = si::from_m(at);
    if (i.limit >= 0) w.t.graph_.element_data_[e->id()] = make(i.limit, i.at_signal, i.relevant);
    return e->nodes()[0];
  }

  // before lies before the first halt
  void build(std::vector<item> const& before, rs::train_physics physics) {
    auto const n = static_cast<unsigned>(way.size());
    auto const cut = n / 2;
    std::vector<std::vector<node::ptr>> sr(3);
    double at = 5000.0;
    for (auto const& b : before) {
      at += b.step;
      sr[0].push_back(element_of(b, at));
    }
    auto const first = static_cast<node::idx>(sr[0].size());
    std::vector<unsigned> in(n), idx(n);
    std::array<std::vector<node::idx>, 3> omitted;
    std::array<std::vector<speed_limit>, 3> extra;
    double const begin = at;
    for (unsigned i = 0; i < n; ++i) {
      at += way[i].step;
      auto const s = i < cut ? 0U : i + 1 < n ? 1U : 2U;
      auto* const p = element_of(way[i], at);
      in[i] = s;
      idx[i] = static_cast<unsigned>(sr[s].size());
      if (way[i].omitted) omitted[s].push_back(static_cast<node::idx>(idx[i]));
      if (way[i].extra >= 0) {
        auto x = make(way[i].extra, way[i].extra_at_signal, true);
        x.node_ = p;
        extra[s].push_back(x);
      }
      sr[s].push_back(p);
      nodes.push_back(p);
      km.push_back(at - begin);
    }
    for (unsigned s = 0; s < 3; ++s) {
      auto* const r = w.route(sr[s]);
      for (auto o : omitted[s]) r->omitted_nodes_.push_back(o);
      for (auto const& x : extra[s]) r->extra_speed_limits_.push_back(x);
      for (unsigned i = 0; i < n; ++i)
        if (in[i] == s && way[i].stop) r->passenger_halt_ = node::optional_idx(static_cast<node::idx>(idx[i]));
    }
    for (unsigned s = 0; s < 2; ++s) w.link(w.t.station_routes_[s], w.t.station_routes_[s + 1]);
    w.lock({0, 1, 2}, 0, static_cast<node::idx>(sr[2].size()));
    t.path_.push_back(0);
    t.break_in_ = t.break_out_ = false;
    t.physics_ = std::move(physics);
    for (unsigned i = 0; i < n; ++i)
      if (way[i].stop) {
        sequence_point p;
        p.type_ = sequence_point::type::PASSENGER;
        p.station_route_ = in[i];
        p.min_stop_time_ = duration2{30};
        p.arrival_ = relative_time{0};
        p.departure_ = relative_time{0};
        t.sequence_points_.push_back(p);
      }
    std::ignore = first;
  }
};

inline rs::train_physics vehicle(double const max_m_s, double const deceleration, rs::tractive_curve_t curve = {}, double const tons = 100.0) {
  soro::vector<rs::traction_vehicle> v;
  rs::traction_vehicle tv;
  tv.max_speed_ = si::from_m_s(max_m_s);
  tv.deacceleration_ = si::from_m_s2(deceleration);
  tv.tractive_curve_ = std::move(curve);
  tv.resistance_curve_ = utls::make_polynomial(rs::drag_coefficient_t{0.0}, rs::dampening_resistance_t{0.0}, rs::rolling_resistance_t{0.0});
  v.push_back(tv);
  return {std::move(v), si::from_ton(tons), si::from_m(100.0), si::from_m_s(max_m_s), rs::CTC::NO, rs::FreightTrain::NO};
}
}  // namespace rail
