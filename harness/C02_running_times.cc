// @sources src/runtime/runtime.cc src/runtime/interval.cc src/runtime/runtime_physics.cc src/timetable/sequence_point.cc src/timetable/train.cc src/timetable/bitfield.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc src/rolling_stock/train_physics.cc
// @bounds ways between stops of up to 2 km (quick: 32, thorough: 128 lengths) with 8 maximal speeds and 2 decelerations; 2 changing speed limits of 4 values on 4 lengths each; stops on the way with all departures and minimal stop times of up to 4 bits; up to 3 elements of every kind between stops; braking, accelerating and coasting between all of 16 speeds
// @assume constant tractive force, no resistance; a train stops at most once per place; intervals are longer than a metre
// @reach ok peak cruise waits late stop between drops
#include "common/run.h"
#include "soro/runtime/runtime.h"
using namespace rail;
using namespace soro::runtime;

static double val(si::speed const s) { return s.val_; }
static double val(si::length const s) { return s.val_; }
static double val(si::time const s) { return s.val_; }

constexpr double FORWARD = 0.5;

// a vehicle that accelerates evenly
static rs::train_physics even(double const top, double const brakes) {
  rs::tractive_curve_t curve;
  rs::tractive_piece_t piece;
  piece.piece_ = utls::make_polynomial(rs::tractive_force_3_t{0.0}, rs::tractive_force_2_t{0.0}, rs::tractive_force_1_t{FORWARD * 1.06 * 100000.0});
  piece.from_ = si::from_m_s(0);
  piece.to_ = si::from_m_s(200);
  curve.pieces_.push_back(piece);
  auto p = vehicle(top, -brakes, std::move(curve), 100.0);
  return p;
}

static item stop_at(double const step = 0.0) {
  item i;
  i.kind = type::HALT;
  i.stop = true;
  i.step = step;
  return i;
}
static item of(type const k, double const step) {
  item i;
  i.kind = k;
  i.step = step;
  return i;
}

// times at exactly the wanted elements, in order
static timestamps run(line_run& m, type_set const& wanted) {
  infrastructure const infra(&m.w.t);
  auto const ts = runtime_calculation(m.t, infra, wanted);
  unsigned k = 0, h = 0, sp = 0;
  std::uint32_t last = 0, last_arr = 0;
  double last_stop = -1;
  for (unsigned i = 0; i < m.way.size(); ++i) {
    auto const& x = m.way[i];
    sequence_point const* p = x.stop ? &m.t.sequence_points_[sp++] : nullptr;
    if (p != nullptr) last_stop = m.km[i];
    if (!wanted.contains(x.kind) || x.omitted || (x.kind == type::HALT && !x.stop)) continue;
    sym_check(k < ts.times_.size() && ts.times_[k].element_ == m.nodes[i]->element_, "a train has times at exactly the requested elements, in order");
    auto const& t = ts.times_[k];
    auto const arr = t.arrival_.count(), dep = t.departure_.count();
    sym_check(arr <= dep && arr >= (k > 0 && m.km[i] == last_stop && p == nullptr ? last_arr : last), "a train reaches the elements one after another");
    last = dep;
    last_arr = arr;
    if (p != nullptr) {
      sym_check(h < ts.halt_indices_.size() && ts.halt_indices_[h] == k, "the times of stops are found by their indices");
      ++h;
      if (sp == 1) {
        sym_check(dep == p->departure_.count(), "a train leaves its first halt at its departure");
      } else {
        auto const ready = arr + p->min_stop_time_.count();
        sym_check(dep == std::max(ready, p->departure_.count()), "a train leaves a stop at its departure, but not before its minimal stop time");
        sym_reach(ready < p->departure_.count() ? "waits" : "late");
        sym_reach("stop");
      }
    } else if (m.km[i] != last_stop) {
      sym_check(arr == dep, "a train does not stand besides its stops");
      sym_reach("between");
    }
    ++k;
  }
  sym_check(k == ts.times_.size() && h == ts.halt_indices_.size(), "a train has times at exactly the requested elements, in order");
  sym_reach("ok");
  return ts;
}

// between two halts: at least and at most the time physics require
HARNESS(one_section) {
  line_run m;
  double const brakes = sym::pick(0, 1, "brakes") ? 0.7 : 0.4, top = static_cast<double>(sym_make("top", 3)) * 5.0 + 5.0;
  double const d = static_cast<double>(sym_make("length", BOUND(5, 7))) * BOUND(64.0, 16.0) + 40.0;
  m.way.push_back(stop_at());
  m.way.push_back(of(type::APPROACH_SIGNAL, 16));
  m.way.push_back(stop_at(d - 16));
  m.w.t.defaults_.stationary_speed_limit_ = si::from_m_s(45);
  m.build({}, even(top, brakes));
  m.t.sequence_points_.front().departure_ = relative_time{1000};
  auto const ts = run(m, type_set{type::HALT, type::APPROACH_SIGNAL});
  double const t = ts.times_[2].arrival_.count() - 1000.0;
  bool const cruise = top * top / (2 * FORWARD) + top * top / (2 * brakes) <= d;
  sym_reach(cruise ? "cruise" : "peak");
  double const peak = std::sqrt(2 * d * FORWARD * brakes / (FORWARD + brakes));
  double const v = cruise ? top : peak;
  double const best = d / v + v / (2 * FORWARD) + v / (2 * brakes);
  sym_check(t >= best - 2, "a train is not faster than its physics");
  sym_check(t <= best + 2.5, "a train is as fast as its physics allow");
}

// the least and a greatest time for the way between two elements
struct span {
  double least{0}, most{0};
};
static span between(line_run const& m, std::vector<double> const& limit, unsigned const a, unsigned const b, double const top, double const brakes) {
  span s;
  for (unsigned i = a; i < b; ++i) {
    auto const v = std::min(limit[i], top), d = m.km[i + 1] - m.km[i];
    s.least += d / v;
    s.most += d / v + v / (2 * FORWARD) + v / (2 * brakes) + 1.5;
  }
  return s;
}

// limits that change on the way
HARNESS(limits) {
  line_run m;
  double const top = 25, brakes = 0.7;
  std::vector<double> limit{20};
  m.w.t.defaults_.stationary_speed_limit_ = si::from_m_s(20);
  m.way.push_back(stop_at());
  // too short for the brakes: speeds are lowered before
  bool const tight = sym::pick(0, 1, "tight") != 0;
  if (tight) sym_reach("drops");
  for (unsigned i = 0; i < 2; ++i) {
    item x = of(type::SPEED_LIMIT, static_cast<double>(sym_make("length", 2)) * (tight ? 40.0 : 300.0) + (tight ? 60.0 : 350.0));
    x.limit = static_cast<double>(sym_make("limit", 2)) * 8.0 + 6.0;
    limit.push_back(x.limit);
    m.way.push_back(x);
    m.way.push_back(of(sym::pick(0, 1, "signal") ? type::MAIN_SIGNAL : type::APPROACH_SIGNAL, sym::pick(0, 2, "after") * 150.0));
    limit.push_back(x.limit);
  }
  m.way.push_back(stop_at(sym::pick(0, 1, "length") ? 1500 : 700));
  m.build({}, even(top, brakes));
  m.t.sequence_points_.front().departure_ = relative_time{1000};
  auto const ts = run(m, type_set{type::HALT, type::APPROACH_SIGNAL, type::MAIN_SIGNAL, type::SPEED_LIMIT});
  sym_check(ts.times_.size() == 6, "a train has times at exactly the requested elements, in order");
  for (unsigned i = 0; i < 6; ++i)
    for (unsigned k = i + 1; k < 6; ++k) {
      auto const s = between(m, limit, i, k, top, brakes);
      double const t = static_cast<double>(ts.times_[k].arrival_.count()) - static_cast<double>(ts.times_[i].departure_.count());
      sym_check(t >= s.least - 3, "a train does not exceed the speed limits");
      sym_check(tight || t <= s.most + 3, "a train is not slower than the speed limits, its acceleration and brakes require");
    }
}

// stops on the way, planned departures and minimal stop times
HARNESS(stops) {
  line_run m;
  double const top = 20, brakes = 0.7;
  m.w.t.defaults_.stationary_speed_limit_ = si::from_m_s(20);
  std::vector<double> limit;
  auto const add = [&](item const& x) {
    m.way.push_back(x);
    limit.push_back(20);
  };
  add(stop_at());
  add(of(sym::pick(0, 1, "signal") ? type::MAIN_SIGNAL : type::APPROACH_SIGNAL, 300));
  add(stop_at(sym::pick(0, 1, "length") ? 500 : 50));
  add(of(type::MAIN_SIGNAL, sym::pick(0, 1, "step") * 300.0));
  add(stop_at(300));
  m.build({}, even(top, brakes));
  auto& sp = m.t.sequence_points_;
  sym_check(sp.size() == 3, "stops");
  auto const num = [](char const* name, unsigned bits, unsigned times) { return static_cast<std::uint32_t>(sym_make(name, bits)) * times; };
  sp[0].departure_ = relative_time{num("departure", BOUND(1, 2), 40)};
  sp[1].departure_ = relative_time{num("departure", BOUND(3, 4), 24)};
  sp[1].min_stop_time_ = duration2{num("min stop", BOUND(2, 3), 15)};
  sp[2].departure_ = relative_time{num("departure", 10, 1)};
  sp[2].min_stop_time_ = duration2{num("min stop", 8, 1)};
  auto const ts = run(m, type_set{type::HALT, type::MAIN_SIGNAL, type::APPROACH_SIGNAL});
  sym_check(ts.times_.size() == 5, "a train has times at exactly the requested elements, in order");
  // running times do not depend on when and how long a train stops
  static constexpr unsigned from[] = {0, 0, 1, 2, 3}, to[] = {1, 2, 2, 4, 4};
  for (unsigned i = 0; i < 5; ++i) {
    auto const s = between(m, limit, from[i], to[i], top, brakes);
    auto const t = ts.times_[to[i]].arrival_.count() - ts.times_[from[i]].departure_.count();
    sym_check(t + 3 >= static_cast<std::uint32_t>(s.least) && t <= static_cast<std::uint32_t>(s.most + 3), "running times do not depend on the time of day");
  }
}

// skipped and passed elements, and elements at one place
HARNESS(elements) {
  line_run m;
  double const top = 20, brakes = 0.7;
  std::vector<double> limit;
  m.w.t.defaults_.stationary_speed_limit_ = si::from_m_s(20);
  m.way.push_back(stop_at());
  for (unsigned i = 0; i < 3; ++i) {
    item x;
    auto const k = sym::pick(0, 4, "kind");
    x.kind = k == 0 ? type::MAIN_SIGNAL : k == 1 ? type::APPROACH_SIGNAL : k == 2 ? type::HALT : k == 3 ? type::POINT_SPEED : type::SPEED_LIMIT;
    if (k == 4) x.limit = 10;
    x.omitted = i == 1 && sym::pick(0, 1, "omitted");
    x.step = sym::pick(0, 1, "step") * 250.0;
    m.way.push_back(x);
  }
  m.way.push_back(stop_at(400));
  m.build({}, even(top, brakes));
  m.t.sequence_points_.front().departure_ = relative_time{1000};
  switch (sym::pick(0, 2, "wanted")) {
    case 0: run(m, type_set{type::HALT}); break;
    case 1: run(m, type_set{type::APPROACH_SIGNAL, type::POINT_SPEED}); break;
    default: run(m, type_set{type::HALT, type::MAIN_SIGNAL, type::APPROACH_SIGNAL, type::POINT_SPEED, type::SPEED_LIMIT}); break;
  }
}

// braking and accelerating
HARNESS(braking) {
  double const from = static_cast<double>(sym_make("from", 4)) * 2.0 + 3.0, to = static_cast<double>(sym_make("to", 4)) * 2.0;
  sym_assume(to < from);
  double const a = sym::pick(0, 1, "brakes") ? 0.7 : 0.4;
  auto const r = brake(even(40, a), si::from_m_s(from), si::from_m_s(to));
  sym_check(val(r.front().time_) == 0 && val(r.front().distance_) == 0 && val(r.front().speed_) == from, "braking begins with the speed of the train");
  sym_check(val(r.back().speed_) == to, "braking ends at the target speed");
  auto const t = (from - to) / a, d = (from * from - to * to) / (2 * a);
  sym_check(val(r.back().time_) >= t - 0.001 && val(r.back().time_) <= t + 0.501, "braking takes the time of its deceleration");
  sym_check(val(r.back().distance_) >= d - 0.001 && val(r.back().distance_) <= d + 0.001, "braking takes the way of its deceleration");
  for (std::size_t i = 1; i < r.size(); ++i) sym_check(val(r[i].time_) == val(r[i - 1].time_) + 0.5 && val(r[i].speed_) <= val(r[i - 1].speed_) + 0.001, "a braking train gets slower step by step");
}
HARNESS(accelerating) {
  double const from = static_cast<double>(sym_make("from", 3)) * 4.0, to = static_cast<double>(sym_make("to", 3)) * 4.0 + 3.0;
  double const most = sym::pick(0, 1, "length") ? 5000 : 120;
  double const top = 27;
  auto const r = accelerate(even(top, 0.7), si::from_m_s(from), si::from_m_s(to), si::from_m(most));
  sym_check(!r.empty() && val(r.front().time_) == 0 && val(r.front().distance_) == 0 && val(r.front().speed_) == from, "accelerating begins with the speed of the train");
  auto const goal = std::min(top, to);
  if (from >= goal) {
    sym_check(r.size() == 1, "a train at its speed does not accelerate");
    return;
  }
  sym_check(val(r.back().distance_) <= most, "a train accelerates no longer than its way");
  sym_check(val(r.back().speed_) <= goal + 0.5 * FORWARD + 0.001, "a train accelerates no further than its target speed");
  bool const reaches = (goal * goal - from * from) / (2 * FORWARD) <= most - 15;
  if (reaches) sym_check(val(r.back().speed_) >= goal - 0.001, "a train accelerates to its target speed");
  for (std::size_t i = 1; i < r.size(); ++i) {
    auto const t = static_cast<double>(i) * 0.5, v = from + t * FORWARD, d = from * t + FORWARD * t * t / 2;
    sym_check(val(r[i].time_) == t && val(r[i].speed_) >= v - 0.001 && val(r[i].speed_) <= v + 0.001, "a train accelerates by its force and mass");
    bool const last = i + 1 == r.size() && val(r[i].distance_) == most;
    sym_check(last || (val(r[i].distance_) >= d - 0.001 && val(r[i].distance_) <= d + 0.001), "an accelerating train covers the way of its speed");
  }
}
HARNESS(coasting) {
  double const v = static_cast<double>(sym_make("speed", 3)) * 3.0 + 2.0, d = static_cast<double>(sym_make("length", 4)) * 9.5 + 1.0;
  auto const r = coast(si::from_m_s(v), si::from_m(d));
  sym_check(val(r.front().time_) == 0 && val(r.front().distance_) == 0 && val(r.back().distance_) == d, "a coasting train covers its way");
  sym_check(val(r.back().time_) >= d / v - 0.001 && val(r.back().time_) <= d / v + 0.501, "a coasting train takes the time of its speed");
  for (auto const& x : r) sym_check(val(x.speed_) == v, "a coasting train keeps its speed");
}
