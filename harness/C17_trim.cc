// @bounds vectors of 8-bit values of length <= 4 (quick) / 6 (thorough); the predicate is an arbitrary 8-bit membership mask over value classes; slice positions arbitrary within the documented precondition, slice_clasp positions arbitrary 64-bit
// @assume slice gets from <= to <= size (documented); slice_clasp gets clamped positions with from <= to
// @reach cut_front cut_back keep_all slice clasp
#include "common/vec.h"
#include "soro/utls/algo/remove_after.h"
#include "soro/utls/algo/remove_until.h"
#include "soro/utls/algo/slice.h"
using namespace soro::utls;
using V = std::vector<std::uint8_t>;

// keeps everything from the first match on; without a match nothing is left
HARNESS(remove_until) {
  V v = vp::any_vec(BOUND(4, 6));
  V const o = v;
  std::uint8_t const t = sym::u8("threshold");
  remove_until(v, [&](auto const x) { return x >= t; });
  std::size_t first = o.size();
  for (std::size_t i = o.size(); i-- > 0;)
    if (o[i] >= t) first = i;
  sym_check(v.size() == o.size() - first, "remove_until must drop exactly the elements before the first match");
  for (std::size_t i = 0; i < v.size(); ++i) sym_check(v[i] == o[first + i], "remove_until kept the wrong elements");
  if (first != 0) sym_reach("cut_front");
  sym::observe(v.size());
}
// keeps everything up to and including the last match
HARNESS(remove_after) {
  V v = vp::any_vec(BOUND(4, 6));
  V const o = v;
  std::uint8_t const t = sym::u8("threshold");
  remove_after(v, [&](auto const x) { return x >= t; });
  std::size_t keep = 0;
  for (std::size_t i = 0; i < o.size(); ++i)
    if (o[i] >= t) keep = i + 1;
  sym_check(v.size() == keep, "remove_after must drop exactly the elements behind the last match");
  for (std::size_t i = 0; i < v.size(); ++i) sym_check(v[i] == o[i], "remove_after kept the wrong elements");
  if (keep != o.size()) sym_reach("cut_back");
  else sym_reach("keep_all");
  sym::observe(v.size());
}
HARNESS(slice) {
  V v = vp::any_vec(BOUND(4, 6));
  V const o = v;
  auto const to = sym::pick(0, o.size(), "to"), from = sym::pick(0, to, "from");
  V const c = slice(o, from, to);
  slice(v, from, to);
  auto const r = slice_range(o, from, to);
  sym_check(v.size() == to - from && c.size() == to - from, "slice must keep [from, to)");
  std::size_t i = 0;
  for (auto x : r) {
    sym_check(i < to - from && x == o[from + i], "slice_range must view [from, to)");
    ++i;
  }
  sym_check(i == to - from, "slice_range must view [from, to)");
  for (i = 0; i < v.size(); ++i) {
    sym_check(v[i] == o[from + i], "in-place slice kept the wrong elements");
    sym_check(c[i] == o[from + i], "copying slice kept the wrong elements");
    sym::observe(v[i]);
  }
  sym_reach("slice");
}
HARNESS(slice_clasp) {
  V v = vp::any_vec(BOUND(3, 5));
  V const o = v;
  auto const from = sym::u64("from"), to = sym::u64("to");
  auto const n = o.size();
  auto const f = from > n ? 0 : from, t = to > n ? n : to;
  sym_assume(f <= t);
  V const c = slice_clasp(o, from, to);
  slice_clasp(v, from, to);
  auto const r = slice_clasp_range(o, from, to);
  sym_check(v.size() == t - f && c.size() == t - f, "slice_clasp must keep the clamped range");
  std::size_t i = 0;
  for (auto x : r) {
    sym_check(i < t - f && x == o[f + i], "slice_clasp_range must view the clamped range");
    ++i;
  }
  sym_check(i == t - f, "slice_clasp_range must view the clamped range");
  for (i = 0; i < v.size(); ++i) {
    sym_check(v[i] == o[f + i], "in-place slice_clasp kept the wrong elements");
    sym_check(c[i] == o[f + i], "copying slice_clasp kept the wrong elements");
  }
  sym_reach("clasp");
}
