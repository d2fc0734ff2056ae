// @bounds merge_unique: two sorted 8-bit sequences of length <= 3 (quick) / 5 (thorough), duplicates allowed; multi_set_merge: up to 3 ranges of length <= 2 (quick) / 4 ranges, lengths <= 3 (thorough), 8-bit values
// @assume inputs of multi_set_merge are sets (strictly increasing ranges), as its contract requires; inputs of merge_unique are sorted, unsorted ones must be rejected
// @reach merged rejected multi multi_empty multi_single
#include "common/vec.h"
#include "soro/utls/algo/merge_unique.h"
#include "soro/utls/algo/multi_set_merge.h"
using namespace soro::utls;
using V = std::vector<std::uint8_t>;

HARNESS(merge_unique) {
  V a = vp::any_vec(BOUND(3, 5)), b = vp::any_vec(BOUND(3, 5));
  bool sorted = true;
  for (std::size_t i = 1; i < a.size(); ++i) sorted &= a[i - 1] <= a[i];
  for (std::size_t i = 1; i < b.size(); ++i) sorted &= b[i - 1] <= b[i];
  V r;
  bool threw = false;
  try {
    r = merge_unique(a, b);
  } catch (std::exception const&) { threw = true; }
  sym_check(threw == !sorted, "merge_unique must accept exactly sorted inputs");
  if (threw) {
    sym_reach("rejected");
    return;
  }
  sym_reach("merged");
  for (std::size_t i = 1; i < r.size(); ++i) sym_check(r[i - 1] < r[i], "result must be strictly increasing");
  for (auto x : a) sym_check(vp::in(r, x), "element of the first container lost");
  for (auto x : b) sym_check(vp::in(r, x), "element of the second container lost");
  for (auto x : r) {
    sym_check(vp::in(a, x) || vp::in(b, x), "element invented");
    sym::observe(x);
  }
}

HARNESS(multi_set_merge) {
  auto const n = sym::pick(0, BOUND(3, 4), "ranges");
  std::vector<V> sets;
  for (unsigned i = 0; i < n; ++i) {
    sets.push_back(vp::any_vec(BOUND(2, 3)));
    vp::assume_strictly_sorted(sets.back());
  }
  soro::vector<std::pair<V::const_iterator, V::const_iterator>> ranges;
  std::size_t nonempty = 0;
  for (auto const& s : sets) {
    ranges.emplace_back(s.begin(), s.end());
    nonempty += s.empty() ? 0 : 1;
  }
  V const r = multi_set_merge<V>(ranges);
  sym_reach(nonempty == 0 ? "multi_empty" : nonempty == 1 ? "multi_single" : "multi");
  for (std::size_t i = 1; i < r.size(); ++i) sym_check(r[i - 1] < r[i], "merged result must be strictly increasing");
  for (auto const& s : sets)
    for (auto x : s) sym_check(vp::in(r, x), "element lost by multi_set_merge");
  for (auto x : r) {
    bool f = false;
    for (auto const& s : sets) f |= vp::in(s, x);
    sym_check(f, "element invented by multi_set_merge");
    sym::observe(x);
  }
}
