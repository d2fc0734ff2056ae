// @sources src/simulation/sim_graph.cc
// @opt --fork-div 300
// @bounds histories of up to 3 (quick) / 4 (thorough) insertions with arbitrary times of up to 36 seconds (granularity 6 s) and speeds of up to 5 km/h in any order, every insertion with a probability of its own; rounding of every non-negative time below 256 s to every multiple up to 8
// @assume times are not negative
// @reach folded below above between same leaf nested
#include "common/vec.h"
#include "soro/simulation/dpd.h"
#include "soro/simulation/sim_graph.h"
using namespace soro;
using namespace soro::simulation;
using utls::unixtime;
namespace soro::simulation {
TimeDPD fold_max(TimeDPD const&, TimeDPD const&);
}

// nearest multiple of six, ties downwards
static time_t rounded(time_t t) { return (t + 2) / 6 * 6; }
static probability_t prob(unsigned i) { return 1.0F / static_cast<float>(2U << i); }

HARNESS(rounding) {
  auto const k = static_cast<time_t>(sym::pick(0, 8, "multiple"));
  auto const t = static_cast<time_t>(sym::range(0, 255, "time"));
  auto const r = round_to_nearest_multiple(unixtime{t}, unixtime{k}).t_;
  if (k < 2) {
    sym_check(r == t, "nothing to round");
    return;
  }
  // r is the multiple with 2 |t - r| <= k, the lower one on ties
  auto const d = t - r;
  sym_check(2 * d <= k && -2 * d < k, "a time is rounded to the nearest multiple, ties downwards");
  auto const q = static_cast<time_t>(sym::range(0, 127, "factor"));
  if (t == q * k) sym_check(r == t, "multiples stay as they are");
}
HARNESS(leaf) {
  dpd<default_granularity, unixtime> d;
  sym_check(d.empty(), "a new distribution is empty");
  auto const n = sym::pick(1, BOUND(3, 4), "n");
  std::vector<time_t> at;
  for (unsigned i = 0; i < n; ++i) {
    auto const t = static_cast<time_t>(sym::pick(0, 36, "time"));
    if (i != 0) {
      if (rounded(t) < *std::min_element(at.begin(), at.end())) sym_reach("below");
      else if (rounded(t) > *std::max_element(at.begin(), at.end())) sym_reach("above");
      else if (vp::in(at, rounded(t))) sym_reach("same");
      else sym_reach("between");
    }
    at.push_back(rounded(t));
    d.insert(unixtime{t}, prob(i));
  }
  auto const ref = [&](time_t t) {
    probability_t p = 0;
    for (unsigned i = 0; i < n; ++i)
      if (at[i] == t) p += prob(i);
    return p;
  };
  sym_check(!d.empty(), "a distribution with entries is not empty");
  auto const lo = *std::min_element(at.begin(), at.end()), hi = *std::max_element(at.begin(), at.end());
  time_t t = lo;
  for (auto const& [x, p] : d) {
    sym_check(x.t_ == t && p == ref(t), "a distribution holds the accumulated probability of every step");
    t += 6;
  }
  sym_check(t == hi + 6, "a distribution reaches from its first to its last entry");
  for (t = lo; t <= hi; t += 6) sym_check(d[unixtime{t}] == ref(t), "access by time");
  t = lo;
  for (auto&& [x, p] : iterate(d)) {
    while (t <= hi && ref(t) == 0) t += 6;
    sym_check(x.t_ == t && p == ref(t), "iterating a distribution gives its entries in order");
    t += 6;
  }
  while (t <= hi && ref(t) == 0) t += 6;
  sym_check(t == hi + 6, "iterating a distribution gives all its entries");
  probability_t total = 0;
  for (unsigned i = 0; i < n; ++i) total += prob(i);
  sym_check(subsum(d) == total, "no probability is lost");
  sym_check(d.end() - d.begin() == (hi - lo) / 6 + 1, "number of steps");
  sym_reach("leaf");
}
HARNESS(nested) {
  dpd<default_granularity, unixtime, kilometer_per_hour> d;
  auto const n = sym::pick(1, BOUND(2, 3), "n");
  struct entry {
    time_t t_;
    unsigned v_;
  };
  std::vector<entry> at;
  for (unsigned i = 0; i < n; ++i) {
    auto const t = static_cast<time_t>(sym::pick(0, 24, "time"));
    auto const v = static_cast<unsigned>(sym::pick(0, 5, "speed"));
    at.push_back({rounded(t), v});
    d.insert(unixtime{t}, kilometer_per_hour{v}, prob(i));
  }
  auto const ref = [&](time_t t, unsigned v) {
    probability_t p = 0;
    for (unsigned i = 0; i < n; ++i)
      if (at[i].t_ == t && at[i].v_ == v) p += prob(i);
    return p;
  };
  std::vector<std::pair<time_t, unsigned>> expect;
  for (time_t t = 0; t <= 24; t += 6)
    for (unsigned v = 0; v <= 5; ++v)
      if (ref(t, v) != 0) expect.emplace_back(t, v);
  std::size_t i = 0;
  for (auto&& [t, v, p] : iterate(d)) {
    sym_check(i < expect.size() && t.t_ == expect[i].first && v.km_h_ == expect[i].second && p == ref(t.t_, v.km_h_), "iterating a joint distribution gives its entries in order");
    ++i;
  }
  sym_check(i == expect.size(), "iterating a joint distribution gives all its entries");
  i = 0;
  for (auto const& [t, inner] : d)
    for (auto const& [v, p] : inner)
      if (p != 0) {
        sym_check(i < expect.size() && t.t_ == expect[i].first && v.km_h_ == expect[i].second && p == ref(t.t_, v.km_h_), "a joint distribution holds the accumulated probability of every pair");
        ++i;
      }
  sym_check(i == expect.size(), "a joint distribution holds all its entries");
  probability_t total = 0;
  for (unsigned k = 0; k < n; ++k) total += prob(k);
  sym_check(sum(d) == total, "no probability is lost");
  sym_reach("nested");
}
HARNESS(maximum) {
  // distribution of the later one of two independent times
  TimeDPD a, b;
  std::vector<time_t> ta, tb;
  auto const n = sym::pick(0, BOUND(2, 3), "n"), m = sym::pick(0, 2, "m");
  auto const fill = [](TimeDPD& d, std::vector<time_t>& at, std::uint64_t k) {
    for (unsigned i = 0; i < k; ++i) {
      at.push_back(6 * static_cast<time_t>(sym::pick(0, 4, "time")));
      d.insert(unixtime{at.back()}, prob(i));
    }
  };
  fill(a, ta, n);
  fill(b, tb, m);
  auto d = fold_max(a, b);
  sym_check(d.empty() == (n == 0 || m == 0), "the maximum of nothing is nothing");
  if (d.empty()) return;
  time_t seen = 0;
  for (auto const& [x, p] : d) {
    probability_t expect = 0;
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < m; ++j)
        if (std::max(ta[i], tb[j]) == x.t_) expect += prob(i) * prob(j);
    sym_check(p == expect, "the maximum has the probability of the pairs that lead to it");
    seen = x.t_;
  }
  sym_check(subsum(d) == subsum(a) * subsum(b), "the maximum loses no probability");
  sym_check(seen == std::max(*std::max_element(ta.begin(), ta.end()), *std::max_element(tb.begin(), tb.end())), "the maximum ends with the latest time");
  sym_reach("folded");
}
