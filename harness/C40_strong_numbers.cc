// @sources src/utls/unixtime.cc
// @bounds 16-bit speeds: every pair of values; 32/64-bit strong types, durations, times: every pair of values for comparison, addition and subtraction, magnitudes below 4096 (durations, times: 512) for multiplication and division
// @assume no signed overflow and no division by zero
// @reach strong kmh duration unixtime
#include "common/vec.h"
#include "soro/simulation/granularity.h"
#include "soro/simulation/kilometer_per_hour.h"
#include "soro/utls/strong_types/strong_type.h"
#include "soro/utls/unixtime.h"
#include <type_traits>
using namespace soro;

struct tag {};
template <typename P>
static void strong() {
  using S = utls::strong_type<P, tag>;
  P const x = static_cast<P>(sym_make("x", 8 * sizeof(P))), y = static_cast<P>(sym_make("y", 8 * sizeof(P)));
  S a{x}, b{y};
  sym_check((a == b) == (x == y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y), "strong types compare like their values");
  auto const op = sym::pick(0, 3, "op");
  P expect{};
  if (op >= 2) sym_assume(x < 4096 && y < 4096);
  if (op == 3) sym_assume(y != 0);
  expect = x;
  if (op == 0) expect += y;
  if (op == 1) expect -= y;
  if (op == 2) expect *= y;
  if (op == 3) expect /= y;
  S const r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
  sym_check(r.val_ == expect, "strong types compute like their values");
  sym_check(a.val_ == x && b.val_ == y, "an arithmetic operator leaves its operands unchanged");
  S c = a;
  S& ref = op == 0 ? (c += b) : op == 1 ? (c -= b) : op == 2 ? (c *= b) : (c /= b);
  sym_check(c.val_ == expect && &ref == &c && a.val_ == x && b.val_ == y, "compound assignment changes its left operand only");
  S const sum = c = r;
  sym_check(sum == c, "assignment");
  sym_reach("strong");
}
HARNESS(strong_u32) { strong<std::uint32_t>(); }
HARNESS(strong_u64) { strong<std::uint64_t>(); }

HARNESS(kmh) {
  using simulation::kilometer_per_hour;
  auto const x = sym::u16("x"), y = sym::u16("y");
  kilometer_per_hour a{x};
  kilometer_per_hour const b{y};
  sym_check(a.km_h_ == x && static_cast<std::size_t>(a) == x && static_cast<float>(a) == static_cast<float>(x), "a speed keeps its value");
  sym_check((a == b) == (x == y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "speeds compare like numbers");
  sym_check((a + b).km_h_ == static_cast<std::uint16_t>(x + y) && (a - b).km_h_ == static_cast<std::uint16_t>(x - y), "speeds add and subtract like 16-bit numbers");
  if (y != 0) sym_check((a / b).km_h_ == static_cast<std::uint16_t>(x / y) && (a % b).km_h_ == static_cast<std::uint16_t>(x % y), "speeds divide like numbers");
  sym_check(a.km_h_ == x && b.km_h_ == y, "an arithmetic operator leaves its operands unchanged");
  auto& r = ++a;
  sym_check(&r == &a && a.km_h_ == static_cast<std::uint16_t>(x + 1), "increment adds one");
  auto& q = a += b;
  sym_check(&q == &a && a.km_h_ == static_cast<std::uint16_t>(x + 1 + y), "+= adds");
  sym_check(simulation::ZERO_KMH.km_h_ == 0, "zero");
  sym_reach("kmh");
}

static bool add_ok(std::int64_t a, std::int64_t b) {
  std::int64_t r;
  return !__builtin_add_overflow(a, b, &r);
}
static bool sub_ok(std::int64_t a, std::int64_t b) {
  std::int64_t r;
  return !__builtin_sub_overflow(a, b, &r);
}
HARNESS(duration) {
  using utls::duration;
  auto const x = sym::i64("x"), y = sym::i64("y");
  duration a{x};
  duration const b{y};
  sym_check((a == b) == (x == y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y), "durations compare like numbers");
  sym_check(static_cast<time_t>(a) == x && static_cast<std::size_t>(a) == static_cast<std::size_t>(x), "a duration keeps its value");
  sym_check(utls::valid(a) == (x != std::numeric_limits<std::int64_t>::max()), "exactly the reserved value is invalid");
  sym_check(!utls::valid(duration{}) && duration{} == utls::INVALID_DURATION && duration{} == duration::INVALID && duration::ZERO == utls::ZERO_DURATION, "a default duration is invalid");
  if (add_ok(x, y)) sym_check((a + b).d_ == x + y, "durations add like numbers");
  if (sub_ok(x, y)) sym_check((a - b).d_ == x - y, "durations subtract like numbers");
  sym_check(a.d_ == x && b.d_ == y, "an arithmetic operator leaves its operands unchanged");
  if (sym::pick(0, 1, "op") == 0) {
    sym_assume(add_ok(x, y));
    sym_check(&(a += b) == &a && a.d_ == x + y, "+= adds");
  } else {
    sym_assume(sub_ok(x, y));
    sym_check(&(a -= b) == &a && a.d_ == x - y, "-= subtracts");
  }
  sym_reach("duration");
}
HARNESS(duration_factors) {
  using utls::duration;
  auto const n = static_cast<time_t>(sym_make("n", 32));
  sym_check(utls::from_seconds(n).d_ == n && utls::from_minutes(n).d_ == n * 60 && utls::from_hours(n).d_ == n * 3600 && utls::from_days(n).d_ == n * 86400, "unit conversions");
  using namespace utls::literals;
  sym_check((90_s).d_ == 90 && (90_m).d_ == 5400 && (3_h).d_ == 10800, "duration literals");
  auto const x = sym::irange(-512, 511, "x"), y = sym::irange(-512, 511, "y");
  sym_check((duration{x} * duration{y}).d_ == x * y, "durations multiply like numbers");
  if (y != 0) sym_check((duration{x} / duration{y}).d_ == x / y && (duration{x} % duration{y}).d_ == x % y, "durations divide like numbers");
  sym_check((utls::unixtime{x} * utls::unixtime{y}).t_ == x * y, "times multiply like numbers");
  if (y != 0) sym_check((utls::unixtime{x} / utls::unixtime{y}).t_ == x / y && (utls::unixtime{x} % utls::unixtime{y}).t_ == x % y, "times divide like numbers");
}
HARNESS(unixtime) {
  using utls::duration;
  using utls::unixtime;
  auto const x = sym::i64("x"), y = sym::i64("y"), z = sym::i64("z");
  unixtime a{x};
  unixtime const b{y}, c{z};
  duration const d{y};
  sym_check((a == b) == (x == y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "times compare like numbers");
  sym_check((a == y) == (x == y) && (a < y) == (x < y) && (a > y) == (x > y), "times compare with plain numbers");
  sym_check(a.in_interval(b, c) == (y <= x && x <= z), "in_interval is the closed interval test");
  sym_check(utls::valid(a) == (x != std::numeric_limits<std::int64_t>::max()), "exactly the reserved value is invalid");
  sym_check(!utls::valid(unixtime{}) && utls::INVALID_TIME == unixtime{} && utls::END_OF_TIME >= a && utls::EPOCH == 0, "reserved times");
  sym_check(a.as_duration().d_ == x && static_cast<time_t>(a) == x && static_cast<std::size_t>(a) == static_cast<std::size_t>(x), "a time keeps its value");
  if (add_ok(x, y)) sym_check((a + b).t_ == x + y && (a + d).t_ == x + y, "times add like numbers");
  if (sub_ok(x, y)) sym_check((a - b).t_ == x - y && (a - d).t_ == x - y, "times subtract like numbers");
  sym_check(a.t_ == x && b.t_ == y && d.d_ == y, "an arithmetic operator leaves its operands unchanged");
  sym_assume(add_ok(x, y));
  sym_check(&(a += b) == &a && a.t_ == x + y, "+= adds");
  sym_check(std::numeric_limits<unixtime>::min() <= a && a <= std::numeric_limits<unixtime>::max(), "limits");
  sym_reach("unixtime");
}
