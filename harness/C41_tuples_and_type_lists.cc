// @bounds tuples of 4 arbitrary 8-bit values (std::tuple; apply/find also on tuples with mixed types), every slice, index and predicate; range conversion of up to 4 (quick) / 6 (thorough) arbitrary values; type list computations on lists of up to 6 types are checked where they decide tuple types and unit dimensions
// @reach found not_found applied out_of_range
#include "common/vec.h"
#include "soro/base/soro_types.h"
#include <deque>
#include <list>
#include <set>
#include <tuple>
#include "soro/utls/ranges/to.h"
#include "soro/utls/strong_types/type_list.h"
#include "soro/utls/template/decay.h"
#include "soro/utls/template/type_at_position.h"
#include "soro/utls/tuple/apply_at.h"
#include "soro/utls/tuple/find_if.h"
#include "soro/utls/tuple/for_each.h"
#include "soro/utls/tuple/slice.h"
using namespace soro;
using u8 = std::uint8_t;
using T4 = std::tuple<u8, std::uint16_t, std::uint32_t, std::uint64_t>;

static T4 make(std::uint64_t (&v)[4]) {
  v[0] = sym_make("a", 8);
  v[1] = sym_make("b", 16);
  v[2] = sym_make("c", 32);
  v[3] = sym_make("d", 64);
  return {static_cast<u8>(v[0]), static_cast<std::uint16_t>(v[1]), static_cast<std::uint32_t>(v[2]), v[3]};
}
template <std::size_t F, std::size_t T>
static void slice_of(T4 const& t, std::uint64_t const (&v)[4]) {
  auto const s = utls::tuple::slice<F, T>(t);
  sym_check(std::tuple_size_v<decltype(s)> == T - F, "type level computations give the documented types");
  std::size_t i = F;
  std::apply([&](auto const... x) { ((sym_check(x == v[i], "a slice holds the elements of the range in order"), ++i), ...); }, s);
  sym_check(i == T, "a slice holds exactly the range");
}
template <std::size_t F, std::size_t T>
static void slices(T4 const& t, std::uint64_t const (&v)[4]) {
  slice_of<F, T>(t, v);
  if constexpr (T < 4) slices<F, T + 1>(t, v);
  else if constexpr (F < 4) slices<F + 1, F + 1>(t, v);
}
HARNESS(slice) {
  std::uint64_t v[4];
  auto const t = make(v);
  slices<0, 0>(t, v);
}
HARNESS(visit) {
  std::uint64_t v[4];
  auto t = make(v);
  T4 const& ct = t;
  std::size_t i = 0;
  utls::tuple::for_each(ct, [&](auto const& x) {
    sym_check(i < 4 && x == v[i], "for_each visits the elements in order");
    ++i;
  });
  sym_check(i == 4, "for_each visits all elements");
  utls::tuple::for_each(t, [](auto& x) { ++x; });
  sym_check(std::get<0>(t) == static_cast<u8>(v[0] + 1) && std::get<1>(t) == static_cast<std::uint16_t>(v[1] + 1) && std::get<2>(t) == static_cast<std::uint32_t>(v[2] + 1) && std::get<3>(t) == v[3] + 1, "for_each gives access to the elements themselves");
}
HARNESS(find_if) {
  std::uint64_t v[4];
  auto const t = make(v);
  auto const needle = sym::u64("needle");
  std::size_t expect = 0;
  while (expect < 4 && v[expect] != needle) ++expect;
  auto const r = utls::tuple::find_if(t, [&](auto const& x) { return static_cast<std::uint64_t>(x) == needle; });
  sym_check(r == expect, "find_if returns the first matching position, the size if there is none");
  if (r == 4) sym_reach("not_found"); else sym_reach("found");
}
HARNESS(apply_at) {
  std::uint64_t v[4];
  auto t = make(v);
  auto const idx = sym::pick(0, 6, "idx");
  unsigned calls = 0;
  bool threw = false;
  try {
    if (sym::pick(0, 1, "const") != 0) {
      T4 const& ct = t;
      utls::tuple::apply_at(ct, idx, [&](auto const& x) {
        ++calls;
        sym_check(idx < 4 && x == v[idx % 4], "apply_at applies to the element at the index");
      });
    } else {
      utls::tuple::apply_at(t, idx, [&](auto& x) {
        ++calls;
        sym_check(idx < 4 && x == v[idx % 4], "apply_at applies to the element at the index");
        x = 0;
      });
      if (idx < 4)
        sym_check(std::get<0>(t) == (idx == 0 ? 0 : v[0]) && std::get<1>(t) == (idx == 1 ? 0 : v[1]) && std::get<2>(t) == (idx == 2 ? 0 : v[2]) && std::get<3>(t) == (idx == 3 ? 0 : v[3]), "apply_at changes that element only");
    }
  } catch (...) { threw = true; }
  sym_check(threw == (idx >= 4) && calls == (idx < 4 ? 1U : 0U), "apply_at fails exactly for an index out of range");
  if (threw) sym_reach("out_of_range"); else sym_reach("applied");
}
HARNESS(to) {
  auto const v = vp::any_vec<u8>(BOUND(4, 6));
  std::list<u8> const l(v.begin(), v.end());
  auto const w = l | utls::to<std::vector>();
  sym_check(std::is_same_v<std::remove_cvref_t<decltype(w)>, std::vector<u8>>, "type level computations give the documented types");
  sym_check(w == v, "a converted range has the same elements in the same order");
  auto const d = v | utls::to<std::list>();
  sym_check(std::equal(d.begin(), d.end(), v.begin(), v.end()), "a converted range has the same elements in the same order");
}
// type lists: expected result computed from symbolic choices of operations on
// run-time counters, compared with the type-level computation
struct A {};
struct B {};
struct C {};
using utls::type_list;
template <typename L>
static void counts(unsigned a, unsigned b, unsigned c) {
  sym_check(utls::count_v<A, L> == a && utls::count_v<B, L> == b && utls::count_v<C, L> == c, "type list operations count");
}
template <typename L>
static void ops(unsigned a, unsigned b, unsigned c) {
  auto const less = [](unsigned x, unsigned n) { return x > n ? x - n : 0; };
  counts<L>(a, b, c);
  counts<utls::push_front_t<A, L>>(a + 1, b, c);
  counts<utls::push_front_t<void, L>>(a, b, c);
  counts<utls::remove_once_t<A, L>>(less(a, 1), b, c);
  counts<utls::remove_once_t<B, L>>(a, less(b, 1), c);
  counts<utls::remove_once_t<C, L>>(a, b, less(c, 1));
  counts<utls::remove_times_t<0, A, L>>(a, b, c);
  counts<utls::remove_times_t<2, A, L>>(less(a, 2), b, c);
  counts<utls::remove_times_t<2, B, L>>(a, less(b, 2), c);
  counts<utls::remove_times_t<5, C, L>>(a, b, less(c, 5));
  counts<utls::concat_t<L, type_list<A, C>>>(a + 1, b, c + 1);
  counts<utls::concat_times_t<0, L>>(0, 0, 0);
  counts<utls::concat_times_t<3, L>>(3 * a, 3 * b, 3 * c);
  sym_check(std::is_same_v<utls::concat_t<L, type_list<>>, L> && std::is_same_v<utls::concat_t<type_list<>, L>, L> && std::is_same_v<utls::concat_times_t<1, L>, L> && std::is_same_v<utls::push_front_t<void, L>, L>, "type level computations give the documented types");
}
HARNESS(type_lists) {
  ops<type_list<>>(0, 0, 0);
  ops<type_list<A>>(1, 0, 0);
  ops<type_list<C>>(0, 0, 1);
  ops<type_list<B, A>>(1, 1, 0);
  ops<type_list<A, A, B>>(2, 1, 0);
  ops<type_list<B, A, C, A>>(2, 1, 1);
  ops<type_list<A, B, A, B, A, C>>(3, 2, 1);
  ops<type_list<C, C, B, B, A, A>>(2, 2, 2);
  sym_check(std::is_same_v<utls::remove_once_t<A, type_list<B, A, C, A>>, type_list<B, C, A>>, "type level computations give the documented types");
  sym_check(std::is_same_v<utls::type_at_position_t<0, A, B, C>, A> && std::is_same_v<utls::type_at_position_t<2, A, B, C>, C> && std::is_same_v<utls::first_t<B, A>, B>, "type level computations give the documented types");
  sym_check(std::is_same_v<utls::decay_t<A const&>, A const> || std::is_same_v<utls::decay_t<A const&>, A>, "type level computations give the documented types");
  sym_check(true, "type list computations hold");
}
