// @sources src/timetable/bitfield.cc
// @bounds calendars covering every length in a grid of word boundaries up to 512 days, anchored at any day of a grid from 1970 to 2106, with arbitrary content (all 2^512) for membership, update, union and equivalence; listings and iteration for up to 4 (quick) / 6 (thorough) free days among the word boundaries; masks of up to 6 (quick) / 9 (thorough) arbitrary characters '0'/'1'
// @assume calendars are constructed (both bounds valid) and results fit into 512 days, as the code's own assertions demand
// @reach extended_front extended_back same_range union_left union_right equivalent different throws
#include "common/vec.h"
#include <cstring>
#include "soro/timetable/bitfield.h"
using namespace soro;
using tt::bitfield;
using day = bitfield::anchor_time;

static day at(std::int64_t d) { return day{date::days{static_cast<int>(d)}}; }
static std::int64_t num(day d) { return d.time_since_epoch().count(); }
static constexpr std::int64_t LEN[] = {1, 2, 63, 64, 65, 128, 300, 511, 512};
static constexpr std::int64_t DIST[] = {0, 1, 5, 63, 64, 65, 127, 192, 320, 447, 448, 511};
static constexpr std::int64_t ANCHOR[] = {600, 19045, 48500};

// arbitrary content; days beyond the last one are never in service
static bitfield any(std::int64_t first, std::int64_t len) {
  bitfield b{.first_date_ = at(first), .last_date_ = at(first + len - 1)};
  for (std::int64_t i = 0; i * 64 < len; ++i) {
    auto w = sym::u64("days");
    if (len < (i + 1) * 64) w &= (std::uint64_t{1} << (len % 64)) - 1;
    b.bitset_.blocks_[static_cast<std::size_t>(i)] = w;
  }
  return b;
}
// is day d in service; independent of the code under test
static bool has(bitfield const& b, std::int64_t d) {
  auto const i = d - num(b.first_date_);
  if (i < 0 || i >= 512) return false;
  return ((b.bitset_.blocks_[static_cast<std::size_t>(i / 64)] >> (i % 64)) & 1) != 0;
}
// the 64 days starting at day from
static std::uint64_t word(bitfield const& x, std::int64_t from) {
  auto const i = from - num(x.first_date_);
  auto const get = [&](std::int64_t j) { return j < 0 || j > 7 ? std::uint64_t{0} : x.bitset_.blocks_[static_cast<std::size_t>(j)]; };
  auto const j = i >= 0 ? i / 64 : -((-i + 63) / 64);
  auto const r = i - j * 64;
  return r == 0 ? get(j) : (get(j) >> r) | (get(j + 1) << (64 - r));
}
static constexpr std::int64_t POS[] = {0, 1, 2, 62, 63, 64, 65, 127, 128, 200, 447, 448, 510, 511};
// arbitrary content at these positions only
static bitfield any_few(std::int64_t first, std::int64_t len) {
  bitfield b{.first_date_ = at(first), .last_date_ = at(first + len - 1)};
  for (auto const p : POS)
    if (p < len) b.bitset_.blocks_[static_cast<std::size_t>(p / 64)] |= static_cast<std::uint64_t>(sym::boolean("service")) << (p % 64);
  return b;
}
static std::int64_t len(char const* n) { return LEN[sym::pick(0, 8, n)]; }
static std::int64_t dist(char const* n) { return DIST[sym::pick(0, 11, n)]; }
static std::int64_t anchor() { return ANCHOR[sym::pick(0, 2, "anchor")]; }

HARNESS(membership) {
  auto const f = anchor(), n = len("len");
  auto const b = any(f, n);
  auto const i = static_cast<std::int64_t>(sym::range(0, static_cast<std::uint64_t>(n - 1), "day"));
  sym_check(b[at(f + i)] == has(b, f + i), "a day is in service as stored");
  sym_check(b.ok() && !bitfield{}.ok(), "a constructed calendar is valid, a default one is not");
  auto const q = static_cast<std::int64_t>(sym::range(0, 50000, "query"));
  bool threw = false, r = false;
  try {
    r = b.at(at(q));
  } catch (...) { threw = true; }
  sym_check(threw == (q < f || q >= f + n), "exactly days outside the calendar are rejected");
  if (threw) sym_reach("throws"); else sym_check(r == has(b, q), "a day is in service as stored");
}
HARNESS(update) {
  auto const f = anchor(), n = len("len");
  auto const b = any(f, n);
  auto c = b;
  // a day before, within or behind the calendar
  std::int64_t d = 0;
  switch (sym::pick(0, 2, "where")) {
    case 0: d = f - dist("before"); break;
    case 1: d = f + POS[sym::pick(0, 13, "day")]; sym_assume(d < f + n); break;
    default: d = f + n - 1 + dist("behind"); break;
  }
  sym_assume(f + n - d <= 512 && d - f < 512);
  bool const v = sym::boolean("service");
  c.set(at(d), v);
  auto const first = d < f ? d : f, last = d > f + n - 1 ? d : f + n - 1;
  sym_check(num(c.first_date_) == first && num(c.last_date_) == last, "updating a day extends the calendar just as far as needed");
  for (std::int64_t w = first; w < first + 512; w += 64) {
    auto const bit = d >= w && d < w + 64 ? std::uint64_t{1} << (d - w) : 0;
    sym_check(word(c, w) == (v ? word(b, w) | bit : word(b, w) & ~bit), "updating a day changes that day only");
  }
  if (d < f) sym_reach("extended_front"); else if (d > f + n - 1) sym_reach("extended_back"); else sym_reach("same_range");
}
HARNESS(unite) {
  auto const f = ANCHOR[1], n = len("len"), m = len("len2"), k = dist("dist");
  auto const g = sym::pick(0, 1, "order") != 0 ? f + k : f - k;
  auto const first = g < f ? g : f, last = std::max(f + n, g + m) - 1;
  sym_assume(last - first < 512);
  auto const a = any(f, n), b = any(g, m);
  auto const u = a | b;
  sym_check(num(u.first_date_) == first && num(u.last_date_) == last, "a union covers both calendars");
  for (std::int64_t w = first; w < first + 512; w += 64) sym_check(word(u, w) == (word(a, w) | word(b, w)), "a union contains exactly the days of both calendars");
  auto c = a;
  c |= b;
  sym_check(c == u, "the assigning union changes its left calendar");
  if (g < f) sym_reach("union_left"); else sym_reach("union_right");
}
HARNESS(equivalence) {
  auto const f = ANCHOR[1], n = len("len"), m = len("len2"), k = dist("dist");
  auto const g = sym::pick(0, 1, "order") != 0 ? f + k : f - k;
  auto const a = any_few(f, n), b = any_few(g, m);
  bool same = true;
  auto const first = g < f ? g : f;
  for (std::int64_t w = 0; w < 16; ++w) same &= word(a, first + 64 * w) == word(b, first + 64 * w);
  sym_check(a.equivalent(b) == same, "calendars are equivalent exactly if they contain the same days");
  sym_check(b.equivalent(a) == same, "equivalence is symmetric");
  if (same) sym_reach("equivalent"); else sym_reach("different");
}
HARNESS(mask) {
  auto const f = anchor();
  auto const n = static_cast<std::int64_t>(sym::pick(1, BOUND(6, 9), "n"));
  std::string s;
  for (std::int64_t i = 0; i < n; ++i) s.push_back(sym::boolean("bit") ? '1' : '0');
  auto const b = tt::make_bitfield(at(f), at(f + n - 1), s.c_str());
  sym_check(num(b.first_date_) == f && num(b.last_date_) == f + n - 1, "a calendar covers the given days");
  unsigned count = 0;
  for (std::int64_t i = 0; i < n; ++i) {
    sym_check(b[at(f + i)] == (s[static_cast<std::size_t>(i)] == '1'), "the mask lists the days from the first to the last one");
    count += s[static_cast<std::size_t>(i)] == '1';
  }
  sym_check(b.count() == count, "a calendar counts its days of service");
}
// calendars with few days of service, for everything that lists days
struct sparse {
  bitfield b_;
  std::vector<std::int64_t> days_;  // ascending
};
static sparse any_sparse(std::int64_t f, std::int64_t n, unsigned max = BOUND(3, 4)) {
  sparse r{.b_ = {.first_date_ = at(f), .last_date_ = at(f + n - 1)}};
  unsigned from = 0;
  for (unsigned i = 0; i < max; ++i) {
    if (from > 13) break;
    auto const p = static_cast<unsigned>(sym::pick(from, 14, "pos"));
    if (p == 14 || POS[p] >= n) break;
    r.b_.bitset_.set(static_cast<std::size_t>(POS[p]), true);
    r.days_.push_back(f + POS[p]);
    from = p + 1;
  }
  return r;
}
HARNESS(listing) {
  auto const f = ANCHOR[1], n = LEN[sym::pick(0, 8, "len")];
  auto const [b, days] = any_sparse(f, n);
  auto const check = [](auto const& range, std::vector<std::int64_t> const& ref) {
    std::size_t i = 0;
    for (auto const d : range) {
      sym_check(i < ref.size() && num(d) == ref[i], "a calendar lists exactly its days of service in order");
      ++i;
    }
    sym_check(i == ref.size(), "a calendar lists exactly its days of service in order");
  };
  check(b, days);
  check(b.get_set_days(), days);
  sym_check(b.count() == days.size(), "a calendar counts its days of service");
  if (!days.empty()) {
    sym_check(absolute_time_to_rep(b.first_set_date()) == days.front() * 86400, "the first day of service");
    sym_check(absolute_time_to_rep(b.last_set_date()) == days.back() * 86400, "the last day of service");
  }
}
HARNESS(from_to) {
  static constexpr std::int64_t N[] = {1, 64, 200, 512};
  auto const f = ANCHOR[1], n = N[sym::pick(0, 3, "len")];
  auto const [b, days] = any_sparse(f, n, BOUND(2, 3));
  static constexpr std::int64_t Q[] = {-2000, -1, 0, 1, 2, 63, 64, 199, 447, 511, 512, 2000};
  auto const from = f + Q[sym::pick(0, 11, "from")];
  auto const t = rep_to_absolute_time(static_cast<std::uint32_t>(from * 86400) + (sym::pick(0, 1, "late") != 0 ? 86399 : 0));
  std::size_t i = 0, j = 0;
  while (i < days.size() && days[i] < from) ++i;
  while (j < days.size() && days[j] <= from) ++j;
  auto it = b.from(t);
  for (; i < days.size(); ++i, ++it) sym_check(it != b.end() && num(*it) == days[i], "days from a time on start with the day of that time");
  sym_check(it == b.end(), "days from a time on end with the calendar");
  auto const end = b.to(t);
  it = b.begin();
  for (i = 0; i < j; ++i, ++it) sym_check(it != end && num(*it) == days[i], "days up to a time include the day of that time");
  sym_check(it == end, "days up to a time end with the day of that time");
}
