// @sources src/timetable/sequence_point.cc
// @opt --fork-div 64
// @bounds every anchor and relative time whose sum fits the 32-bit time range; every second of a window of 20 days for midnights; every date of a grid of years and months (days 1 to last) from 1970 to 2106
// @assume sums stay within the 32-bit time range
// @reach converted leap
#include "common/vec.h"
#include "soro/timetable/sequence_point.h"
using namespace soro;

HARNESS(anchors) {
  auto const a = sym::u32("anchor"), r = sym::u32("relative");
  sym_assume(a <= 0xffffffffU - r);
  auto const abs = relative_to_absolute(rep_to_absolute_time(a), relative_time{r});
  sym_check(absolute_time_to_rep(abs) == a + r, "an absolute time is its anchor plus the relative time");
  sym_check(absolute_to_relative(rep_to_absolute_time(a), abs).count() == r, "relative and absolute times convert forth and back");
  sym_check(absolute_time_to_rep(rep_to_absolute_time(a)) == a, "times keep their value");
  sym_check(valid(rep_to_absolute_time(a)) == (a != 0xffffffffU) && valid(relative_time{r}) == (r != 0xffffffffU), "exactly the reserved time is invalid");
  sym_check(!valid(INVALID<absolute_time>) && !valid(INVALID<relative_time>), "reserved times");
  sym_reach("converted");
}
HARNESS(midnights) {
  static constexpr unsigned BASE[] = {0, 19040, 49690};
  auto const b = BASE[sym::pick(0, 2, "window")] * 86400U;
  auto const t = b + static_cast<std::uint32_t>(sym::range(0, 20 * 86400 - 1, "time"));
  auto const m = absolute_time_to_rep(midnight(rep_to_absolute_time(t)));
  sym_check(m <= t && t - m < 86400, "midnight is at most a day before");
  sym_check(m % 86400 == 0, "midnight starts a day");
  sym_check(absolute_time_to_rep(midnight(rep_to_absolute_time(m))) == m, "midnight of a midnight");
}
// days since 1970-01-01 by counting
static std::uint32_t days_of(int y, unsigned m, unsigned d) {
  static constexpr unsigned len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  std::uint32_t n = 0;
  auto const leap = [](int x) { return (x % 4 == 0 && x % 100 != 0) || x % 400 == 0; };
  for (int i = 1970; i < y; ++i) n += leap(i) ? 366 : 365;
  for (unsigned i = 1; i < m; ++i) n += len[i - 1] + (i == 2 && leap(y) ? 1 : 0);
  return n + d - 1;
}
static constexpr int YEARS[] = {1970, 1972, 1999, 2000, 2023, 2024, 2100, 2105};
HARNESS(dates) {
  int const y = YEARS[sym::pick(0, 7, "year")];
  auto const m = static_cast<unsigned>(sym::pick(1, 12, "month")), d = static_cast<unsigned>(sym::pick(1, 31, "day"));
  auto const date = date::year_month_day{date::year{y}, date::month{m}, date::day{d}};
  sym_assume(date.ok());
  auto const n = days_of(y, m, d) * 86400U;
  sym_check(absolute_time_to_rep(ymd_to_abs(date)) == n, "a date denotes its first second");
  tt::sequence_point p;
  auto const arr = static_cast<std::uint32_t>(sym::range(0, 4 * 86400, "arrival")), dep = static_cast<std::uint32_t>(sym::range(0, 4 * 86400, "departure"));
  p.arrival_ = relative_time{arr};
  p.departure_ = relative_time{dep};
  sym_check(absolute_time_to_rep(p.absolute_arrival(date)) == n + arr, "an arrival counts from the departure day");
  sym_check(absolute_time_to_rep(p.absolute_departure(date)) == n + dep, "a departure counts from the departure day");
  if (m == 2 && d == 29) sym_reach("leap");
}
HARNESS(text) {
  // a time as text is its number of seconds; anything else is an error
  auto const n = sym::pick(0, BOUND(3, 5), "length");
  std::string s;
  std::uint32_t v = 0;
  bool ok = n != 0;
  for (unsigned i = 0; i < n; ++i) {
    char const c = static_cast<char>(sym::u8("char"));
    s.push_back(c);
    ok = ok && c >= '0' && c <= '9';
    v = v * 10 + static_cast<std::uint32_t>(c - '0');
  }
  auto const r = str_to_absolute_time(s);
  sym_check(r.has_value() == ok, "exactly numbers are times");
  if (r.has_value()) sym_check(absolute_time_to_rep(*r) == v, "a time as text is its number of seconds");
}
