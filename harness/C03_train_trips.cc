// @sources src/timetable/train.cc src/timetable/bitfield.cc
// @bounds service days chosen freely among 4 (quick) / 6 (thorough) consecutive days, first departure and last arrival at any second of up to 2 (quick) / 3 (thorough) days after the anchor, query intervals with arbitrary bounds in a window around the service days (every second); unlimited query interval
// @assume the last arrival is not before the first departure; query intervals start no later than they end
// @opt --fork-div 64
// @reach overnight none some open
#include "common/vec.h"
#include "soro/timetable/train.h"
using namespace soro;
using namespace soro::tt;
using rep = absolute_time::rep;

static constexpr unsigned DAY = 86400, BASE = 19045;
static constexpr unsigned N = BOUND(4, 6), OVER = BOUND(2, 3);

struct any_train {
  train t_;
  std::vector<rep> anchors_;
  rep dep_{0}, arr_{0};
};
static any_train make() {
  any_train r;
  auto const first = bitfield::anchor_time{date::days{static_cast<int>(BASE)}};
  r.t_.service_days_ = {.first_date_ = first, .last_date_ = first + date::days{N - 1}};
  r.dep_ = static_cast<rep>(sym::range(0, OVER * DAY - 1, "departure"));
  r.arr_ = static_cast<rep>(sym::range(0, OVER * DAY - 1, "arrival"));
  sym_assume(r.dep_ <= r.arr_);
  for (unsigned i = 0; i < N; ++i)
    if (sym::pick(0, 1, "service") != 0) {
      r.t_.service_days_.bitset_.set(i, true);
      r.anchors_.push_back((BASE + i) * DAY);
    }
  r.t_.id_ = sym::u32("id");
  sequence_point from, mid, to;
  from.departure_ = relative_time{r.dep_};
  from.type_ = sequence_point::type::PASSENGER;
  to.arrival_ = relative_time{r.arr_};
  r.t_.sequence_points_.push_back(from);
  r.t_.sequence_points_.push_back(mid);
  r.t_.sequence_points_.push_back(to);
  return r;
}
HARNESS(departures) {
  auto const [t, anchors, dep, arr] = make();
  auto const lo = static_cast<rep>(sym::range((BASE - 2) * DAY, (BASE + N + 3) * DAY, "start"));
  auto const hi = static_cast<rep>(sym::range((BASE - 2) * DAY, (BASE + N + 3) * DAY, "end"));
  sym_assume(lo <= hi);
  interval const iv{.start_ = rep_to_absolute_time(lo), .end_ = rep_to_absolute_time(hi)};
  auto const r = t.departures(iv);
  auto it = r.begin();
  bool any = false;
  for (auto const a : anchors) {
    // the trip takes place in [a + dep, a + arr]
    if (a + dep <= hi && lo <= a + arr) {
      sym_check(it != r.end(), "every trip that overlaps the interval is listed");
      sym_check(absolute_time_to_rep(*it) == a, "trips are listed by service day in order, and none that does not overlap");
      ++it;
      any = true;
      if (a / DAY < lo / DAY) sym_reach("overnight");
    }
  }
  sym_check(it == r.end(), "no trip is listed that does not overlap the interval");
  if (any) sym_reach("some"); else sym_reach("none");
}
HARNESS(unlimited) {
  auto const [t, anchors, dep, arr] = make();
  std::size_t i = 0;
  for (auto const a : t.departures()) {
    sym_check(i < anchors.size() && absolute_time_to_rep(a) == anchors[i], "without an interval all service days are listed");
    ++i;
  }
  sym_check(i == anchors.size(), "without an interval all service days are listed");
  auto const trips = t.trips();
  sym_check(trips.size() == anchors.size() && t.trip_count() == anchors.size(), "a train has one trip per service day");
  for (std::size_t k = 0; k < trips.size() && k < anchors.size(); ++k)
    sym_check(trips[k].train_id_ == t.id_ && absolute_time_to_rep(trips[k].anchor_) == anchors[k], "a trip names its train and service day");
  sym_check(t.first_departure().count() == dep && t.last_arrival().count() == arr, "first departure and last arrival");
  if (!anchors.empty()) {
    sym_check(absolute_time_to_rep(t.first_absolute_departure()) == anchors.front() + dep, "the first departure on the first service day");
    sym_check(absolute_time_to_rep(t.last_absolute_arrival()) == anchors.back() + arr, "the last arrival on the last service day");
    auto const e = t.event_interval(rep_to_absolute_time(anchors.front()));
    sym_check(absolute_time_to_rep(e.start_) == anchors.front() + dep && absolute_time_to_rep(e.end_) == anchors.front() + arr, "a trip takes place between departure and arrival");
    sym_reach("open");
  }
}
HARNESS(half_open) {
  auto const [t, anchors, dep, arr] = make();
  auto const x = static_cast<rep>(sym::range((BASE - 2) * DAY, (BASE + N + 3) * DAY, "bound"));
  interval iv;
  bool const from = sym::pick(0, 1, "from") != 0;
  (from ? iv.start_ : iv.end_) = rep_to_absolute_time(x);
  std::size_t n = 0, k = 0;
  for (auto const a : anchors) n += from ? x <= a + arr : a + dep <= x;
  for (auto const a : t.departures(iv)) {
    sym_check(vp::in(anchors, absolute_time_to_rep(a)), "listed trips exist");
    ++k;
  }
  sym_check(k == n, "every trip that overlaps a half open interval is listed");
}
HARNESS(intervals) {
  interval const a{.start_ = rep_to_absolute_time(sym::u32("a")), .end_ = rep_to_absolute_time(sym::u32("b"))};
  interval const b{.start_ = rep_to_absolute_time(sym::u32("c")), .end_ = rep_to_absolute_time(sym::u32("d"))};
  auto const n = [](absolute_time t) { return absolute_time_to_rep(t); };
  sym_check(a.valid() == (n(a.start_) <= n(a.end_)), "an interval is valid if it starts no later than it ends");
  sym_check((a == b) == (n(a.start_) == n(b.start_) && n(a.end_) == n(b.end_)), "intervals are equal if their bounds are");
  sym_assume(a.valid() && b.valid());
  // some instant lies in both
  auto const x = std::max(n(a.start_), n(b.start_));
  bool const share = x <= n(a.end_) && x <= n(b.end_);
  sym_check(a.overlaps(b) == share && b.overlaps(a) == share, "intervals overlap exactly if they share an instant");
  sym_check(interval{}.overlaps(a) && a.overlaps(interval{}) && interval{}.valid(), "the default interval covers everything");
}
HARNESS(halts) {
  train t;
  auto const n = sym::pick(0, 4, "n");
  soro::size_t halts = 0;
  for (unsigned i = 0; i < n; ++i) {
    sequence_point p;
    p.type_ = static_cast<sequence_point::type>(sym::range(0, 3, "type"));
    p.departure_ = relative_time{sym::u32("dep")};
    p.arrival_ = relative_time{sym::u32("arr")};
    bool const transit = p.type_ == sequence_point::type::TRANSIT;
    halts += transit ? 0 : 1;
    sym_check(p.is_halt() == !transit && p.is_transit() == transit, "a sequence point is either a halt or a transit");
    sym_check(p.has_transit_time() == (transit && p.departure_.count() != std::numeric_limits<std::uint32_t>::max()), "a transit time is a valid time at a transit");
    sym_check(p.is_measurable() == (p.is_halt() || p.has_transit_time()), "halts and timed transits are measurable");
    sym_check(p.transit_time() == p.departure_, "the transit time");
    auto const k = static_cast<sequence_point::type>(sym::range(0, 3, "kind"));
    sym_check(p.is_halt(k) == (p.type_ == k), "kinds of halts");
    t.sequence_points_.push_back(p);
  }
  sym_check(t.total_halts() == halts, "all halts are counted");
}
HARNESS(speed_limits) {
  train t;
  infra::speed_limit s;
  s.type_ = static_cast<infra::speed_limit::type>(sym::range(0, 3, "type"));
  s.effects_ = static_cast<infra::speed_limit::effects>(sym::range(0, 3, "effects"));
  auto const v = static_cast<double>(sym::pick(0, 200, "limit"));
  s.limit_ = si::from_m_s(v);
  sym_check(t.effected_by(s) == (s.type_ == infra::speed_limit::type::GENERAL_ALLOWED && v != 0 && (s.effects_ == infra::speed_limit::effects::ALL || s.effects_ == infra::speed_limit::effects::CONVENTIONAL)), "a general speed limit concerns a conventional train if it is for all or conventional trains");
}
