// @sources src/runtime/interval.cc src/runtime/runtime_physics.cc src/timetable/sequence_point.cc src/timetable/train.cc src/timetable/bitfield.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc src/rolling_stock/train_physics.cc
// @bounds trains over up to 4 (quick) / 5 (thorough) elements between their first and last halt, every kind and combination of speed limits of two values, distances 0 and 100 m; up to 3 speed changes on distances of 16 to 400 m for reachable limits
// @assume a train stops at most once per place; speed limits in force before the first halt are not omitted there
// @reach ok here signal irrelevant extra omitted stop passed same back event initial outside default fits lowered
#include "common/run.h"
#include "soro/runtime/interval.h"
#include "soro/runtime/runtime_physics.h"
using namespace rail;
using namespace soro::runtime;

static double val(si::speed const s) { return s.val_; }
static double val(si::length const s) { return s.val_; }

// the intervals between main signals, halts and speed limits, of a train with
// brakes that need no way
static void check(line_run& m, double const initial, type_set const& wanted) {
  infrastructure const infra(&m.w.t);
  auto const il = get_interval_list(m.t, wanted, infra);

  struct place {
    double at, right;
    bool stop;
    sequence_point const* sp;
  };
  std::vector<place> places;
  std::vector<unsigned> events;
  double limit = initial;
  std::size_t signal = 0, sp = 0;
  for (unsigned i = 0; i < m.way.size(); ++i) {
    auto const& x = m.way[i];
    sequence_point const* const stop = x.stop ? &m.t.sequence_points_[static_cast<unsigned>(sp++)] : nullptr;
    if (x.omitted || (x.kind == type::HALT && !x.stop)) {
      sym_reach(x.omitted ? "omitted" : "passed");
      continue;
    }
    double here = -1, last = -1;
    if (x.limit >= 0 && x.relevant) (x.at_signal ? last : here) = x.limit;
    if (x.limit >= 0 && !x.relevant) sym_reach("irrelevant");
    if (x.extra >= 0) {
      (x.extra_at_signal ? last : here) = x.extra;
      sym_reach("extra");
    }
    if (last >= 0) {
      sym_reach("signal");
      // from the last main signal until the limit changes
      bool changed = false;
      if (signal < places.size()) {
        auto const old = places[signal].right;
        for (auto k = signal; k < places.size() && !changed; ++k) {
          changed = places[k].right != old;
          if (!changed) places[k].right = last;
        }
        if (limit == old || !changed) sym_reach("back");
      }
      if (!changed) limit = last;
    }
    if (here >= 0) {
      sym_reach("here");
      limit = here;
    }
    if (wanted.contains(x.kind)) events.push_back(i);
    if (x.kind == type::MAIN_SIGNAL || x.kind == type::HALT || here >= 0) {
      if (!places.empty() && places.back().at == m.km[i]) {
        sym_reach("same");
        places.back().right = limit;
        if (stop != nullptr) places.back().sp = stop;
      } else {
        places.push_back({m.km[i], limit, x.stop, stop});
      }
      if (x.kind == type::MAIN_SIGNAL) signal = places.size() - 1;
    }
  }

  sym_check(il.size() == places.size(), "intervals end at main signals, halts and changes of the speed limit");
  std::size_t e = 0;
  for (unsigned i = 0; i < il.size(); ++i) {
    auto const& v = il[i];
    sym_check(val(v.distance_) == places[i].at, "intervals end where their main signals, halts and speed limits are");
    sym_check(i == 0 || val(v.limit_left_) == places[i - 1].right, "the speed limit of an interval is the one in force at its begin");
    sym_check(val(v.limit_right_) == places[i].right, "the speed limit after an interval is the one in force from its end");
    sym_check(v.is_halt() == (places[i].sp != nullptr) && (places[i].sp == nullptr || *v.sequence_point_ == places[i].sp), "intervals end with the stops of the train");
    if (v.is_halt()) sym_reach("stop");
    for (auto const& x : v.events_) {
      sym_check(e < events.size() && x.node_ == m.nodes[events[e]] && val(x.distance_) == m.km[events[e]], "intervals have the requested elements with their distances");
      sym_check(val(x.distance_) <= val(v.distance_) && (i == 0 || val(x.distance_) >= val(il[i - 1].distance_)), "an interval has the elements along it");
      ++e;
      sym_reach("event");
    }
  }
  sym_check(e == events.size(), "intervals have the requested elements with their distances");
  sym_reach("ok");
}

static item stop_at(double const step = 0.0) {
  item i;
  i.kind = type::HALT;
  i.stop = true;
  i.step = step;
  return i;
}

static item any(unsigned const kinds) {
  item x;
  switch (sym::pick(0, kinds, "kind")) {
    case 0: x.kind = type::MAIN_SIGNAL; break;
    case 1: x.kind = type::SPEED_LIMIT; x.limit = sym::pick(1, 2, "limit") * 10.0; break;
    case 2: x.kind = type::SPEED_LIMIT; x.limit = sym::pick(1, 2, "limit") * 10.0; x.at_signal = true; break;
    case 3: x.kind = type::APPROACH_SIGNAL; break;
    case 4: x.kind = type::HALT; break;
    case 5: x.kind = type::SPEED_LIMIT; x.limit = 20; x.relevant = false; x.at_signal = sym::pick(0, 1, "at signal") != 0; break;
    default: x.kind = sym::pick(0, 1, "at a signal") ? type::MAIN_SIGNAL : type::SPEED_LIMIT;
      x.limit = x.kind == type::SPEED_LIMIT ? 10 : -1;
      x.at_signal = x.kind == type::SPEED_LIMIT && sym::pick(0, 1, "own at signal") != 0;
      x.extra = sym::pick(1, 2, "extra") * 10.0;
      x.extra_at_signal = sym::pick(0, 1, "extra at signal") != 0;
      break;
  }
  x.step = sym::pick(0, 1, "step") * 100.0;
  return x;
}
static item before_start() {
  item x;
  auto const k = sym::pick(0, 4, "kind");
  x.kind = k == 0 ? type::MAIN_SIGNAL : type::SPEED_LIMIT;
  x.limit = k == 0 ? -1 : k * 5.0;
  x.at_signal = k == 3;
  x.relevant = k != 4;
  return x;
}
static void run(line_run& m) {
  m.build({}, vehicle(40, -1000));
  check(m, 30, type_set{type::MAIN_SIGNAL, type::APPROACH_SIGNAL, type::HALT});
}

HARNESS(limits) {
  line_run m;
  m.way.push_back(stop_at());
  auto const n = BOUND(4U, 5U);
  for (unsigned i = 0; i < n; ++i) m.way.push_back(any(2));
  m.way.push_back(stop_at(100));
  run(m);
}
HARNESS(stops) {
  line_run m;
  m.way.push_back(stop_at());
  m.way.push_back(any(2));
  auto x = any(2);
  m.way.push_back(stop_at(sym::pick(0, 1, "step") * 100.0 + 100.0 * (m.way.back().step == 0.0)));
  m.way.push_back(x);
  m.way.push_back(stop_at(100));
  run(m);
}
HARNESS(kinds) {
  line_run m;
  m.way.push_back(stop_at());
  auto const n = BOUND(2U, 3U);
  for (unsigned i = 0; i < n; ++i) m.way.push_back(any(6));
  m.way.push_back(stop_at(100));
  run(m);
}
HARNESS(skipped) {
  line_run m;
  m.way.push_back(stop_at());
  for (unsigned i = 0; i < 3; ++i) {
    m.way.push_back(any(2));
    m.way.back().omitted = sym::pick(0, 1, "omitted") != 0;
  }
  m.way.push_back(stop_at(100));
  run(m);
}
HARNESS(longer) {
  line_run m;
  m.way.push_back(stop_at());
  auto const n = BOUND(4U, 6U);
  for (unsigned i = 0; i < n; ++i) {
    item x;
    x.step = 100;
    auto const k = sym::pick(0, 4, "kind");
    x.kind = k == 0 ? type::MAIN_SIGNAL : type::SPEED_LIMIT;
    x.limit = k == 0 ? -1 : k % 2 == 1 ? 10 : 20;
    x.at_signal = k > 2;
    m.way.push_back(x);
  }
  m.way.push_back(stop_at(100));
  run(m);
}
HARNESS(first_limit) {
  line_run m;
  std::vector<item> before;
  double limit = 30;
  sym_reach("default");
  auto const note = [&](item const& x) {
    if (x.limit >= 0 && x.relevant) limit = x.limit;
  };
  // outside of the station route, and a bumper before
  item first;
  std::vector<node::ptr> out;
  for (unsigned i = 0; i < 3; ++i) {
    item x = i == 0 ? item{} : before_start();
    note(x);
    if (i > 0 && x.limit >= 0) sym_reach("outside");
    out.push_back(m.element_of(x, 4000.0 + i));
  }
  for (unsigned i = 0; i < 3; ++i) {
    item x = i == 0 ? item{} : before_start();
    note(x);
    if (x.limit >= 0) sym_reach("initial");
    before.push_back(x);
  }
  m.way.push_back(stop_at());
  m.way.push_back(stop_at(100));
  m.way.insert(m.way.begin() + 1, item{});
  m.build(before, vehicle(40, -1000));
  auto const back = [&](node::ptr a, node::ptr b) {
    auto& g = m.w.t.graph_;
    for (auto& n : g.node_store_)
      if (n.get() == b) n->reverse_edges_.push_back(a);
  };
  back(out[0], out[1]);
  back(out[1], out[2]);
  back(out[2], m.w.t.station_routes_[0]->nodes(0));
  check(m, limit, type_set{type::HALT});
}

// limits that a train with its brakes can obey
HARNESS(brakes) {
  line_run m;
  m.way.push_back(stop_at());
  std::vector<double> len, lim{30};
  for (unsigned i = 0; i < 3; ++i) {
    item x;
    x.kind = type::SPEED_LIMIT;
    x.limit = static_cast<double>(BOUND(9, 4) * sym_make("limit", BOUND(2, 3)) + 5);
    auto const d = sym::pick(0, 3, "length");
    x.step = d == 0 ? 16 : d == 1 ? 64 : d == 2 ? 200 : 900;
    len.push_back(x.step);
    lim.push_back(x.limit);
    m.way.push_back(x);
  }
  m.way.push_back(stop_at(sym::pick(0, 1, "length") ? 900 : 40));
  len.push_back(m.way.back().step);
  double const top = sym::pick(0, 1, "fast") ? 33 : 17, a = 0.7;
  m.build({}, vehicle(top, -a));
  infrastructure const infra(&m.w.t);
  auto const il = get_interval_list(m.t, type_set{type::META}, infra);
  sym_check(il.size() == 5, "intervals end at halts and changes of the speed limit");
  // the greatest speeds from which the limits ahead can be obeyed
  std::vector<double> best(5, 0.0);
  bool feasible = true;
  for (int i = 3; i >= 0; --i) {
    auto const next = i == 3 ? 0.0 : std::min(best[i + 1], top);
    auto const reach = std::sqrt(next * next + 2 * a * len[i]);
    best[i] = std::min(lim[i], reach);
    if (std::min(lim[i], top) > reach) feasible = false;
  }
  for (unsigned i = 1; i < 5; ++i) {
    auto const left = val(il[i].limit_left_);
    sym_check(left == val(il[i - 1].limit_right_), "the speed limit of an interval is the one in force at its begin");
    sym_check(left <= lim[i - 1], "speed limits are only lowered");
    sym_check(left > 0, "a train keeps moving");
    auto const from = std::min(left, top), to = i == 4 ? 0.0 : std::min(val(il[i].limit_right_), top);
    sym_check(from * from - to * to <= 2 * a * len[i - 1] + 0.001, "a train can brake to the speed limit after an interval");
    sym_check(left >= best[i - 1] - 4.0, "speed limits are lowered no more than brakes require");
    if (feasible) sym_check(left == lim[i - 1], "speed limits that can be obeyed are kept");
  }
  sym_reach(feasible ? "fits" : "lowered");
}
