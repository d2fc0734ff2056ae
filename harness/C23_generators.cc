// @bounds generators over sequences of up to 4 (quick) / 6 (thorough) 8-bit values, consumed completely or abandoned after any number of steps; nested generators: every tree with up to 2 children per node and depth <= 3, up to 2 own values per node; a failure raised at any node
// @reach plain_failure complete abandoned nested mapped failure const_iteration
#include "common/vec.h"
#include <stdexcept>
#include "soro/utls/coroutine/collect.h"
#include "soro/utls/coroutine/coro_map.h"
#include "soro/utls/coroutine/generator.h"
#include "soro/utls/coroutine/iterator.h"
#include "soro/utls/coroutine/recursive_generator.h"
using namespace soro;
using V = std::vector<std::uint8_t>;

static int live;
struct guard {
  guard() { ++live; }
  ~guard() { --live; }
};
static utls::generator<std::uint8_t const> gen(V const& v) {
  guard const g;
  for (auto const& x : v) co_yield x;
}
static utls::generator<std::uint8_t> gen_value(V const& v) {
  guard const g;
  for (auto const x : v) co_yield static_cast<std::uint8_t>(x + 1);
}
static utls::coro_it<std::uint8_t> plain(V const& v) {
  guard const g;
  for (auto const x : v) co_yield x;
}
static utls::coro_it<std::uint8_t const&> refs(V const& v) {
  guard const g;
  for (auto const& x : v) co_yield x;
}

HARNESS(generator_all) {
  V const v = vp::any_vec(BOUND(4, 6));
  {
    auto g = gen(v);
    for (int round = 0; round < 1; ++round) {
      auto it = g.begin();
      if (!v.empty()) {
        sym_check(*it == v[0] && *g.begin() == v[0], "begin() must not consume a value");
        sym_check(&*it == &v[0], "a reference generator must yield the element itself");
      }
      std::size_t i = 0;
      for (; it != g.end(); ++it) {
        sym_check(i < v.size() && *it == v[i], "generator yields the wrong value");
        ++i;
      }
      sym_check(i == v.size(), "generator must yield every value once");
    }
    auto h = gen_value(v);
    std::size_t i = 0;
    for (auto&& x : h) {
      sym_check(i < v.size() && x == static_cast<std::uint8_t>(v[i] + 1), "value generator yields the wrong value");
      ++i;
    }
    sym_check(i == v.size(), "value generator must yield every value once");
    auto moved = gen(v);
    auto target = std::move(moved);
    auto const c = utls::collect<V>(target);
    sym_check(c == v, "collect() of a moved generator");
    sym_reach("complete");
  }
  sym_check(live == 0, "a finished generator must release its state");
}
static utls::generator<std::uint8_t const> failing(V const& v, std::size_t const at) {
  guard const g;
  std::size_t i = 0;
  for (auto const& x : v) {
    if (i++ == at) throw std::runtime_error{"x"};
    co_yield x;
  }
  if (i == at) throw std::runtime_error{"x"};
}
HARNESS(generator_failure) {
  V const v = vp::any_vec(BOUND(3, 5));
  auto const at = sym::pick(0, v.size() + 1, "at");
  V got;
  bool threw = false;
  try {
    auto g = failing(v, at);
    for (auto const& x : g) got.push_back(x);
  } catch (std::runtime_error const&) { threw = true; }
  sym_check(threw == (at <= v.size()), "a failure inside a generator must reach the consumer");
  sym_check(got.size() == (at < v.size() ? at : v.size()), "values before the failure must be delivered");
  for (std::size_t i = 0; i < got.size(); ++i) sym_check(got[i] == v[i], "values before the failure must be delivered");
  sym_check(live == 0, "a failed generator must release its state");
  if (threw) sym_reach("plain_failure");
}
HARNESS(generator_const) {
  V const v = vp::any_vec(BOUND(4, 6));
  auto const g = gen(v);
  std::size_t i = 0;
  for (auto const& x : g) {
    sym_check(i < v.size() && x == v[i], "constant iteration yields the wrong value");
    ++i;
  }
  sym_check(i == v.size(), "constant iteration must yield every value once");
  sym_reach("const_iteration");
}
HARNESS(generator_partial) {
  V const v = vp::any_vec(BOUND(4, 6));
  auto const stop = sym::pick(0, v.size(), "stop");
  {
    auto g = gen(v);
    auto it = g.begin();
    for (std::size_t i = 0; i < stop && it != g.end(); ++i) ++it;
    if (stop < v.size()) sym_check(it != g.end() && *it == v[stop], "partial iteration");
    else sym_check(it == g.end(), "exhausted generator must compare equal to end()");
    sym_reach("abandoned");
  }
  sym_check(live == 0, "an abandoned generator must release its state");
}
HARNESS(coroutine_iterators) {
  V const v = vp::any_vec(BOUND(4, 6));
  auto const stop = sym::pick(0, v.size(), "stop");
  {
    auto it = plain(v);
    auto rt = refs(v);
    utls::coro_it<std::uint8_t> const end;
    utls::coro_it<std::uint8_t const&> const rend;
    std::size_t i = 0;
    for (; i < stop; ++i, ++it, ++rt) {
      sym_check(it != end && rt != rend, "coroutine iterator ended early");
      sym_check(*it == v[i] && *rt == v[i] && &*rt == &v[i], "coroutine iterator yields the wrong value");
    }
    if (stop == v.size()) sym_check(it == end && rt == rend, "coroutine iterator must end after the last value");
  }
  sym_check(live == 0, "a coroutine iterator must release its state");
}
HARNESS(map_and_collect) {
  V const v = vp::any_vec(BOUND(4, 6));
  auto m = utls::coro_map(v, [](std::uint8_t const& x) { return static_cast<std::uint32_t>(x) * 3U; });
  auto const c = utls::collect<std::vector<std::uint32_t>>(m, [](auto const x) { return x + 1U; });
  sym_check(c.size() == v.size(), "coro_map must keep the number of elements");
  for (std::size_t i = 0; i < v.size(); ++i) {
    sym_check(c[i] == v[i] * 3U + 1U, "coro_map/collect must apply the functions in order");
    sym::observe(c[i]);
  }
  sym_reach("mapped");
}

struct node {
  V before_, after_;
  std::vector<node> children_;
  bool fail_{false};
};
static node make(unsigned depth, bool fails, unsigned& budget) {
  node n;
  n.before_ = vp::vec(static_cast<unsigned>(sym::pick(0, 1, "before")));
  if (depth != 0) {
    auto const k = sym::pick(0, 2, "children");
    for (unsigned i = 0; i < k; ++i) n.children_.push_back(make(depth - 1, fails, budget));
    if (k != 0) n.after_ = vp::vec(static_cast<unsigned>(sym::pick(0, 1, "after")));
  }
  if (fails && budget != 0 && sym::pick(0, 1, "fail") != 0) {
    n.fail_ = true;
    --budget;
  }
  return n;
}
static utls::recursive_generator<std::uint8_t const> walk(node const& n) {
  guard const g;
  for (auto const& x : n.before_) co_yield x;
  for (auto const& c : n.children_) co_yield walk(c);
  if (n.fail_) throw std::runtime_error{"x"};
  for (auto const& x : n.after_) co_yield x;
}
static bool flat(node const& n, V& out) {
  for (auto x : n.before_) out.push_back(x);
  for (auto const& c : n.children_)
    if (!flat(c, out)) return false;
  if (n.fail_) return false;
  for (auto x : n.after_) out.push_back(x);
  return true;
}
static void run(bool fails, unsigned depth) {
  unsigned budget = 1;
  node const root = make(depth, fails, budget);
  V expected, got;
  bool const ok = flat(root, expected);
  auto const stop = fails ? expected.size() + 1 : sym::pick(expected.size() > 2 ? expected.size() - 2 : 0, expected.size() + 1, "stop");
  bool threw = false;
  try {
    auto g = walk(root);
    std::size_t i = 0;
    for (auto const& x : g) {
      if (i++ == stop) break;
      got.push_back(x);
    }
  } catch (std::runtime_error const&) { threw = true; }
  if (stop >= expected.size()) {
    sym_check(threw == !ok, "a failure inside a nested generator must reach the consumer");
    sym_check(got == expected, "nested generators must yield the values in depth-first order");
  } else {
    sym_check(got.size() == stop, "abandoned nested generator");
    for (std::size_t i = 0; i < got.size(); ++i) sym_check(got[i] == expected[i], "abandoned nested generator");
  }
  sym_check(live == 0, "nested generators must release their state");
  for (auto x : got) sym::observe(x);
  if (fails && !ok) sym_reach("failure");
  if (!fails) sym_reach("nested");
}
HARNESS(recursive) { run(false, BOUND(2, 2)); }
HARNESS(recursive_failure) { run(true, BOUND(1, 2)); }
