// @bounds sequences of 8-bit values of length <= 4 (quick) / 6 (thorough) with an arbitrary searched value and an arbitrary threshold predicate; sort up to 4 / 5 elements
// @reach found missing sorted unsorted
#include "common/vec.h"
#include <iterator>
#include "soro/base/soro_types.h"
#include "soro/utls/std_wrapper/accumulate.h"
#include "soro/utls/std_wrapper/all_of.h"
#include "soro/utls/std_wrapper/any_of.h"
#include "soro/utls/std_wrapper/contains.h"
#include "soro/utls/std_wrapper/contains_if.h"
#include "soro/utls/std_wrapper/copy.h"
#include "soro/utls/std_wrapper/count.h"
#include "soro/utls/std_wrapper/count_if.h"
#include "soro/utls/std_wrapper/find.h"
#include "soro/utls/std_wrapper/find_if.h"
#include "soro/utls/std_wrapper/find_if_position.h"
#include "soro/utls/std_wrapper/find_position.h"
#include "soro/utls/std_wrapper/is_sorted.h"
#include "soro/utls/std_wrapper/min_element.h"
#include "soro/utls/std_wrapper/reverse.h"
#include "soro/utls/std_wrapper/set_difference.h"
#include "soro/utls/std_wrapper/sort.h"
using namespace soro;
using V = std::vector<std::uint8_t>;

HARNESS(find_value) {
  V const v = vp::any_vec(BOUND(4, 6));
  auto const x = sym::u8("x");
  std::size_t pos = v.size();
  for (std::size_t i = v.size(); i-- > 0;)
    if (v[i] == x) pos = i;
  sym_check(utls::contains(v, x) == (pos != v.size()), "contains");
  sym_check(utls::find_position(v, x) == pos, "find_position");
  sym_check(static_cast<std::size_t>(utls::find(v, x) - v.begin()) == pos, "find");
  sym_check(utls::count(v, x) == vp::occ(v, x), "count");
  if (pos == v.size()) sym_reach("missing"); else sym_reach("found");
  sym::observe(pos);
}
HARNESS(find_pred) {
  V const v = vp::any_vec(BOUND(4, 6));
  auto const t = sym::u8("t");
  auto const p = [&](std::uint8_t const x) { return x > t; };
  std::size_t pos = v.size(), n = 0;
  for (std::size_t i = v.size(); i-- > 0;)
    if (v[i] > t) {
      pos = i;
      ++n;
    }
  sym_check(utls::contains_if(v, p) == (n != 0), "contains_if");
  sym_check(utls::find_if_position(v, p) == pos, "find_if_position");
  sym_check(static_cast<std::size_t>(utls::find_if(v, p) - v.begin()) == pos, "find_if");
  sym_check(utls::count_if(v, p) == n, "count_if");
  sym_check(utls::any_of(v, p) == (n != 0), "any_of");
  sym_check(utls::all_of(v, p) == (n == v.size()), "all_of");
  std::vector<bool> bs;
  for (auto const x : v) bs.push_back(p(x));
  sym_check(utls::any_of(bs) == (n != 0), "any_of(bool range)");
  sym_check(utls::all_of(bs) == (n == v.size()), "all_of(bool range)");
  sym::observe(n);
}
HARNESS(fold) {
  V const v = vp::any_vec(BOUND(4, 6));
  unsigned s = 0, w = 7;
  for (auto x : v) {
    s += x;
    w = w * 3 + x;
  }
  sym_check(utls::accumulate(v, 0U) == s, "accumulate");
  sym_check(utls::accumulate(v, 7U, [](unsigned a, std::uint8_t b) { return a * 3 + b; }) == w,
            "accumulate with a function must fold left to right");
  V c;
  utls::copy(v, std::back_inserter(c));
  sym_check(c == v, "copy");
  utls::reverse(c);
  for (std::size_t i = 0; i < v.size(); ++i) sym_check(c[i] == v[v.size() - 1 - i], "reverse");
  sym::observe(s);
}
HARNESS(order) {
  V v = vp::any_vec(BOUND(4, 5));
  V const o = v;
  bool up = true, down = true;
  for (std::size_t i = 1; i < v.size(); ++i) {
    up &= v[i - 1] <= v[i];
    down &= v[i - 1] >= v[i];
  }
  auto const gt = [](auto a, auto b) { return a > b; };
  sym_check(utls::is_sorted(v) == up, "is_sorted");
  sym_check(utls::is_sorted(v, gt) == down, "is_sorted with a comparison");
  if (up) sym_reach("sorted"); else sym_reach("unsorted");
  bool const rev = sym::pick(0, 1, "descending") != 0;
  if (rev) utls::sort(v, gt); else utls::sort(v);
  sym_check(v.size() == o.size(), "sort changed the size");
  for (std::size_t i = 1; i < v.size(); ++i) sym_check(rev ? v[i - 1] >= v[i] : v[i - 1] <= v[i], "sort left an inversion");
  for (auto x : o) sym_check(vp::occ(v, x) == vp::occ(o, x), "sort lost an element");
  if (!o.empty()) {
    auto const m = utls::min_element(o, [](auto a, auto b) { return a < b; });
    for (auto x : o) sym_check(*m <= x, "min_element");
    sym::observe(*m);
  }
}
HARNESS(set_difference) {
  V a = vp::any_vec(BOUND(3, 4)), b = vp::any_vec(BOUND(3, 4));
  vp::assume_strictly_sorted(a);
  vp::assume_strictly_sorted(b);
  V r;
  utls::set_difference(a, b, std::back_inserter(r));
  for (auto x : a) sym_check(vp::in(r, x) == !vp::in(b, x), "set_difference");
  for (auto x : r) sym_check(vp::in(a, x), "set_difference invented an element");
  for (std::size_t i = 1; i < r.size(); ++i) sym_check(r[i - 1] < r[i], "set_difference order");
}
