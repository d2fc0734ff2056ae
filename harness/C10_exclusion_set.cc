// @sources src/infrastructure/exclusion/exclusion_set.cc
// @bounds histories: sets with up to 2 (quick) / 3 (thorough) ids out of the first and last two positions of each of three 64-bit blocks, one insertion/difference/union from every such set, membership queries for every 32-bit value; comparison and membership additionally for every content of up to three blocks (all 2^192 sets satisfying the class invariant)
// @assume construction gets sorted ids without duplicates as documented
// @reach empty nonempty inserted_empty subset superset equal incomparable disappeared
#include "common/vec.h"
#include "soro/infrastructure/exclusion/exclusion_set.h"
using namespace soro;
using namespace soro::infra;
using ids_t = soro::vector<exclusion_set::value_type>;

// positions are chosen path by path: per 64-bit block the first and last two ids
static constexpr exclusion_set::value_type POS[] = {0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191};
static ids_t ids(unsigned max, unsigned stride = 1) {
  ids_t v;
  auto const n = sym::pick(0, max, "n");
  unsigned from = 0;
  unsigned const k = 12 / stride;
  for (unsigned i = 0; i < n; ++i) {
    if (from >= k) sym_assume(false);
    auto const p = static_cast<unsigned>(sym::pick(from, k - 1, "pos"));
    v.push_back(POS[p * stride]);
    from = p + 1;
  }
  return v;
}
// content of the set seen through the public interface equals the sorted reference
static void same(exclusion_set const& s, ids_t const& ref, char const* msg) {
  sym_check(s.empty() == ref.empty() && s.any() == !ref.empty(), msg);
  sym_check(s.count() == ref.size(), msg);
  auto const q = sym::u32("query");
  sym_check(s[q] == vp::in(ref, q), msg);
}
// enumerating interfaces; positions have to be concrete here
static void same_listing(exclusion_set const& s, ids_t const& ref, char const* msg) {
  auto const e = s.expanded_set();
  sym_check(e == ref, msg);
  std::size_t i = 0;
  for (auto it = s.begin(); it != s.end(); ++it) {
    sym_check(i < ref.size() && *it == ref[i], msg);
    ++i;
  }
  sym_check(i == ref.size(), msg);
}
HARNESS(listing) {
  auto const v = ids(3);
  auto const n = v.size();
  auto const s = make_exclusion_set(v);
  same_listing(s, v, "listing a set must give exactly its ids in ascending order");
  if (n != 0) {
    auto const k = sym::pick(0, n - 1, "k");
    sym_check(*(s.begin() + k) == v[k], "advancing an iterator");
  }
  auto c = s;
  c.clear();
  same_listing(c, {}, "a cleared set lists nothing");
}
HARNESS(construct) {
  auto const v = ids(BOUND(2, 3), BOUND(1, 1));
  auto const id = sym::u32("id");
  auto const s = make_exclusion_set(id, v);
  sym_check(s.id_ == id, "a set keeps its id");
  same(s, v, "a constructed set must hold exactly the given ids");
  auto const u = make_exclusion_set(v);
  same(u, v, "a constructed set must hold exactly the given ids");
  if (v.empty()) sym_reach("empty"); else sym_reach("nonempty");
  auto c = s;
  c.clear();
  same(c, {}, "clear() must empty the set");
}
HARNESS(insert) {
  auto v = ids(2);
  auto s = make_exclusion_set(1, v);
  auto const x = POS[sym::pick(0, 11, "pos")];
  if (v.empty()) sym_reach("inserted_empty");
  s.set(x);
  std::size_t at = 0;
  while (at < v.size() && v[at] < x) ++at;
  if (at == v.size() || v[at] != x) v.insert(v.begin() + static_cast<std::ptrdiff_t>(at), x);
  same(s, v, "after an insertion the set must hold exactly the old ids and the new one");
  sym_check(s == make_exclusion_set(1, v), "sets with the same content must be equal whatever their history");
}
HARNESS(difference) {
  auto const a = ids(BOUND(2, 3), BOUND(1, 1)), b = ids(BOUND(2, 2));
  auto s = make_exclusion_set(1, a);
  auto const t = make_exclusion_set(2, b);
  ids_t ref;
  for (auto x : a)
    if (!vp::in(b, x)) ref.push_back(x);
  auto const d = s - t;
  s -= t;
  same(s, ref, "difference must hold exactly the ids that are in the first set only");
  sym_check(d == s && (ref.empty() || s == make_exclusion_set(1, ref)), "sets with the same content must be equal whatever their history");
  if (ref.size() < a.size()) sym_reach("disappeared");
  same(t, b, "difference must not change its operand");
  s -= s;
  same(s, {}, "a set minus itself is empty");
}
HARNESS(unite) {
  auto const a = ids(BOUND(2, 3), BOUND(1, 1)), b = ids(BOUND(2, 2));
  auto s = make_exclusion_set(1, a);
  auto const t = make_exclusion_set(1, b);
  ids_t ref;
  std::size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i] < b[j])) ref.push_back(a[i++]);
    else if (i == a.size() || b[j] < a[i]) ref.push_back(b[j++]);
    else {
      ref.push_back(a[i++]);
      ++j;
    }
  }
  auto const u = s | t;
  s |= t;
  same(s, ref, "union must hold exactly the ids of both sets");
  sym_check(u == s && s == make_exclusion_set(1, ref), "sets with the same content must be equal whatever their history");
  same(t, b, "union must not change its operand");
  s |= s;
  same(s, ref, "a set united with itself is unchanged");
}
HARNESS(compare) {
  auto const a = ids(BOUND(2, 3), BOUND(1, 1)), b = ids(BOUND(2, 3), BOUND(1, 1));
  auto const s = make_exclusion_set(1, a), t = make_exclusion_set(2, b);
  bool sub = true, sup = true;
  for (auto x : a) sub &= vp::in(b, x);
  for (auto x : b) sup &= vp::in(a, x);
  auto const c = s.compare(t), r = t.compare(s);
  sym_check(s.contains(t) == sup, "contains() must be the superset relation");
  sym_check(t.contains(s) == sub, "contains() must be the superset relation");
  sym_check(std::is_eq(c) == (sub && sup), "equal sets must compare equivalent");
  sym_check(std::is_lt(c) == (sub && !sup), "a proper subset must compare less");
  sym_check(std::is_gt(c) == (!sub && sup), "a proper superset must compare greater");
  sym_check(std::is_eq(r) == std::is_eq(c) && std::is_lt(r) == std::is_gt(c) && std::is_gt(r) == std::is_lt(c), "comparison must be antisymmetric");
  sym_check(std::is_eq(s.compare(s)), "a set is equivalent to itself");
  if (sub && sup) sym_reach("equal");
  else if (sub) sym_reach("subset");
  else if (sup) sym_reach("superset");
  else sym_reach("incomparable");
}
// Same relation with arbitrary contents: three blocks with symbolic words, any
// set satisfying the class invariant (first and last block not empty, first and
// last set position recorded).
static exclusion_set any_set(std::uint64_t (&w)[3]) {
  unsigned const f = static_cast<unsigned>(sym::pick(0, 2, "first")), l = static_cast<unsigned>(sym::pick(f, 2, "last"));
  exclusion_set s;
  s.first_ = f * 64;
  s.last_ = l * 64 + 63;
  s.bits_.resize((l - f + 1) * 64);
  for (unsigned b = 0; b < 3; ++b) {
    w[b] = 0;
    if (b >= f && b <= l) s.bits_.blocks_[b - f] = w[b] = sym::u64("word");
  }
  auto const lo = static_cast<exclusion_set::value_type>(sym_make("lo", 6)), hi = static_cast<exclusion_set::value_type>(sym_make("hi", 6));
  sym_assume((w[f] >> lo) & 1);
  sym_assume((w[f] & ((std::uint64_t{1} << lo) - 1)) == 0);
  sym_assume((w[l] >> hi) == 1);
  s.first_bit_set_ = s.first_ + lo;
  s.last_bit_set_ = l * 64 + hi;
  return s;
}
HARNESS(compare_any) {
  std::uint64_t a[3], b[3];
  auto const s = any_set(a), t = any_set(b);
  bool const sub = ((a[0] & ~b[0]) | (a[1] & ~b[1]) | (a[2] & ~b[2])) == 0;
  bool const sup = ((b[0] & ~a[0]) | (b[1] & ~a[1]) | (b[2] & ~a[2])) == 0;
  auto const c = s.compare(t);
  sym_check(std::is_eq(c) == (sub && sup), "equal sets must compare equivalent");
  sym_check(std::is_lt(c) == (sub && !sup), "a proper subset must compare less");
  sym_check(std::is_gt(c) == (!sub && sup), "a proper superset must compare greater");
  sym_check(s.contains(t) == sup, "contains() must be the superset relation");
  auto const q = sym::u32("query");
  std::uint64_t const word = q < 64 ? a[0] : q < 128 ? a[1] : a[2];
  bool const in = q < 192 && ((word >> (q % 64)) & 1) != 0;
  sym_check(s[q] == in, "membership of an arbitrary set");
}
