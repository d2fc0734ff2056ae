// @bounds constexpr_map with 4 (quick) / 6 (thorough) entries, 16-bit keys; id views over containers of up to 4 / 5 elements with up to 3 / 4 arbitrary valid ids; offset container with 4 / 6 slots and an arbitrary 64-bit offset
// @assume ids are valid indices; indices of the offset container lie in [offset, offset + size)
// @reach hit miss ids
#include "common/vec.h"
#include <stdexcept>
#include <utility>
#include "soro/utls/container/constexpr_map.h"
#include "soro/utls/container/id_iterator.h"
#include "soro/utls/container/it_range.h"
#include "soro/utls/container/offset_container.h"
using namespace soro;

HARNESS(constexpr_map) {
  constexpr std::size_t N = BOUND(4, 6);
  utls::constexpr_map<std::uint16_t, std::uint16_t, N> m{};
  for (auto& e : m.data_) e = {sym::u16("key"), sym::u16("value")};
  auto const k = sym::u16("k");
  bool found = false;
  std::uint16_t expected = 0;
  for (std::size_t i = N; i-- > 0;)
    if (m.data_[i].first == k) {
      found = true;
      expected = m.data_[i].second;
    }
  bool threw = false;
  std::uint16_t got = 0;
  try {
    got = m.at(k);
  } catch (std::range_error const&) { threw = true; }
  sym_check(threw == !found, "a lookup must fail exactly for keys without entry");
  if (found) {
    sym_reach("hit");
    sym_check(got == expected, "a lookup must return the value stored for the key");
  } else {
    sym_reach("miss");
  }
  sym::observe(got);
}

struct item {
  using id = std::uint32_t;
  using ptr = item const*;
  std::uint16_t v_;
};
template <typename It, typename Cont>
static void view(std::vector<std::uint32_t> const& ids, Cont const& c, std::vector<item> const& ref, It) {
  auto const r = utls::make_range(It(ids.begin(), &c), It(ids.end(), &c));
  std::size_t i = 0;
  for (auto const& x : r) {
    sym_check(x.v_ == ref[ids[i]].v_, "id view yields the wrong element");
    sym::observe(x.v_);
    ++i;
  }
  sym_check(i == ids.size(), "id view must yield one element per id");
  auto b = r.begin();
  auto const e = r.end();
  sym_check(e - b == static_cast<std::ptrdiff_t>(ids.size()), "distance of an id view");
  sym_check((b == e) == ids.empty() && (b != e) == !ids.empty() && (b < e) == !ids.empty() && b <= e && e >= b &&
                (e > b) == !ids.empty(),
            "comparison of id iterators");
  if (!ids.empty()) {
    auto const k = sym::pick(0, ids.size() - 1, "k");
    auto const d = static_cast<std::ptrdiff_t>(k);
    sym_check(b[d].v_ == ref[ids[k]].v_, "indexing an id iterator");
    auto j = b;
    j += d;
    sym_check((*j).v_ == ref[ids[k]].v_ && j->v_ == ref[ids[k]].v_, "advancing an id iterator");
    j -= d;
    sym_check(j == b, "moving back an id iterator");
    auto const old = j++;
    sym_check(old == b && j - b == 1, "post-increment");
    auto const old2 = j--;
    sym_check(old2 - b == 1 && j == b, "post-decrement");
    ++j;
    --j;
    sym_check(j == b, "pre-increment/decrement");
    sym_reach("ids");
  }
}
HARNESS(id_iterator) {
  auto const n = sym::pick(1, BOUND(4, 5), "n");
  std::vector<item> c;
  for (unsigned i = 0; i < n; ++i) c.push_back({sym::u16("v")});
  std::vector<item const*> p;
  for (auto const& x : c) p.push_back(&x);
  std::vector<std::uint32_t> ids;
  auto const m = sym::pick(0, BOUND(3, 4), "m");
  for (unsigned i = 0; i < m; ++i) ids.push_back(static_cast<std::uint32_t>(sym::pick(0, n - 1, "id")));
  view(ids, c, c, utls::id_it<item>{});
  view(ids, p, c, utls::id_it_ptr<item>{});
}
HARNESS(make_range) {
  auto const v = vp::any_vec(3);
  std::size_t i = 0;
  for (auto const x : utls::make_range(v)) sym_check(x == v[i++], "make_range(container)");
  sym_check(i == v.size(), "make_range(container) covers the container");
  auto r = utls::make_range(v.begin(), v.end());
  auto [f, t] = static_cast<std::tuple<std::vector<std::uint8_t>::const_iterator&, std::vector<std::uint8_t>::const_iterator&>>(r);
  sym_check(f == v.begin() && t == v.end(), "range as a tuple");
}
