// @bounds two 8-bit sequences of length <= 3 (quick) / 4 (thorough), arbitrary contents (non-sorted entry points) or sorted contents (sorted entry points), duplicates allowed
// @assume overlap/get_overlap/intersect get sorted inputs as documented
// @reach common disjoint sorted_common rejected
#include "common/vec.h"
#include <set>
#include "soro/utls/algo/overlap.h"
#include "soro/utls/algo/sort_and_intersect.h"
using namespace soro::utls;
using V = std::vector<std::uint8_t>;

static bool share(V const& a, V const& b) {
  bool r = false;
  for (auto x : a) r |= vp::in(b, x);
  return r;
}
// r holds every common value min(count) times and nothing else
static void check_intersection(V const& a, V const& b, V const& r, char const* msg) {
  for (auto x : a) {
    unsigned const ca = vp::occ(a, x), cb = vp::occ(b, x), cr = vp::occ(r, x);
    sym_check(cr == (ca < cb ? ca : cb), msg);
  }
  for (auto x : r) sym_check(vp::in(a, x) & vp::in(b, x), msg);
}
HARNESS(overlap_sorted) {
  V a = vp::any_vec(BOUND(3, 5)), b = vp::any_vec(BOUND(3, 5));
  bool sorted = true;
  for (std::size_t i = 1; i < a.size(); ++i) sorted &= a[i - 1] <= a[i];
  for (std::size_t i = 1; i < b.size(); ++i) sorted &= b[i - 1] <= b[i];
  bool threw = false, r = false;
  try {
    r = overlap(a, b);
  } catch (std::exception const&) { threw = true; }
  sym_check(threw == !sorted, "overlap must accept exactly sorted inputs");
  if (threw) {
    sym_reach("rejected");
    return;
  }
  sym_check(r == share(a, b), "overlap() of sorted ranges is wrong");
  sym_check(overlap(b, a) == r, "overlap() must be symmetric");
  if (r) sym_reach("common"); else sym_reach("disjoint");
  sym::observe(r);
}
HARNESS(get_overlap_sorted) {
  V a = vp::any_vec(BOUND(3, 4)), b = vp::any_vec(BOUND(3, 4));
  vp::assume_sorted(a);
  vp::assume_sorted(b);
  V const r = get_overlap(a, b);
  check_intersection(a, b, r, "get_overlap() is not the intersection");
  auto const i = intersect(a, b);
  check_intersection(a, b, i, "intersect() is not the intersection");
  for (std::size_t k = 1; k < i.size(); ++k) sym_check(i[k - 1] <= i[k], "intersect() must be sorted");
  if (!r.empty()) sym_reach("sorted_common");
  for (auto x : r) sym::observe(x);
}
HARNESS(overlap_unsorted) {
  V const a = vp::any_vec(BOUND(3, 4)), b = vp::any_vec(BOUND(3, 4));
  V const a0 = a, b0 = b;
  sym_check(overlap_non_sorted(a, b) == share(a, b), "overlap_non_sorted() is wrong");
  sym_check(a == a0 && b == b0, "overlap_non_sorted() changed its inputs");
}
HARNESS(get_overlap_unsorted) {
  V const a = vp::any_vec(BOUND(3, 4)), b = vp::any_vec(BOUND(2, 3));
  V const r = get_overlap_non_sorted(a, b);
  check_intersection(a, b, r, "get_overlap_non_sorted() is not the intersection");
  for (auto x : r) sym::observe(x);
}
HARNESS(sort_and_intersect) {
  V a = vp::any_vec(BOUND(3, 4)), b = vp::any_vec(BOUND(3, 4));
  V const a0 = a, b0 = b;
  V const r = sort_and_intersect(a, b);
  check_intersection(a0, b0, r, "sort_and_intersect() is not the intersection");
  for (std::size_t k = 1; k < r.size(); ++k) sym_check(r[k - 1] <= r[k], "sort_and_intersect() must be sorted");
  sym_check(a.size() == a0.size() && b.size() == b0.size(), "sort_and_intersect() may only reorder");
  for (auto x : a0) sym_check(vp::occ(a, x) == vp::occ(a0, x), "sort_and_intersect() changed an input");
}
