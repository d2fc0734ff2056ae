// @bounds sorted_vector: up to 4 (quick) / 5 (thorough) 8-bit elements, default and user comparison; priority_queue: every history of up to 7 (quick) / 8 (thorough) insert/remove operations with 3-bit priorities (every weak order of the inserted elements)
// @assume remove-top is only called on non-empty queues
// @reach sorted pushed popped emptied
#include "common/vec.h"
#include "soro/utls/container/priority_queue.h"
#include "soro/utls/container/sorted_vector.h"
using namespace soro;
using V = soro::vector<std::uint8_t>;

HARNESS(sorted_vector) {
  V in = vp::any_vec(BOUND(4, 5));
  V const o = in;
  bool const desc = sym::pick(0, 1, "desc") != 0;
  auto const check = [&](auto const& s) {
    sym_check(s.size() == o.size(), "sorted_vector lost or invented elements");
    std::size_t i = 0;
    for (auto const x : s) {
      sym_check(x == s[i] && x == s.at(i), "element access disagrees with iteration");
      if (i != 0) sym_check(desc ? s[i - 1] >= s[i] : s[i - 1] <= s[i], "sorted_vector is not sorted");
      sym_check(vp::occ(s, x) == vp::occ(o, x), "sorted_vector changed the elements");
      sym::observe(x);
      ++i;
    }
    sym_check(i == o.size(), "iteration covers all elements");
  };
  if (desc) {
    utls::sorted_vector<std::uint8_t> const s(std::move(in), [](auto a, auto b) { return a > b; });
    check(s);
  } else {
    utls::sorted_vector<std::uint8_t> s(std::move(in));
    check(s);
    V const m = s.move_out();
    sym_check(m.size() == o.size(), "move_out must hand over all elements");
    for (std::size_t i = 1; i < m.size(); ++i) sym_check(m[i - 1] <= m[i], "move_out must hand over sorted elements");
  }
  sym_reach("sorted");
}

// Elements carry a concrete number, so that lost or duplicated elements are
// visible without a solver query.  The queue only compares priorities, and
// 3-bit priorities realise every weak order of up to 8 elements.
struct entry {
  std::uint8_t prio_;
  unsigned nr_;
};
HARNESS(priority_queue) {
  bool const desc = sym::pick(0, 1, "order") != 0;
  auto const less = [desc](entry const& a, entry const& b) { return desc ? a.prio_ > b.prio_ : a.prio_ < b.prio_; };
  utls::priority_queue<entry, decltype(less)> q(less);
  std::vector<entry> model;
  unsigned next = 0;
  for (unsigned step = 0; step < BOUND(7, 8); ++step) {
    if (sym::pick(0, 1, "op") == 0) {
      entry const e{static_cast<std::uint8_t>(sym_make("prio", 3)), next++};
      q.emplace(e);
      model.push_back(e);
      sym_reach("pushed");
    } else {
      if (model.empty()) return;
      auto const t = q.top();
      q.pop();
      bool found = false;
      for (std::size_t k = 0; k < model.size(); ++k) {
        if (model[k].nr_ == t.nr_) {
          found = true;
          model.erase(model.begin() + static_cast<std::ptrdiff_t>(k));
          break;
        }
      }
      sym_check(found, "removed an element that is not in the queue");
      sym_reach("popped");
      if (model.empty()) sym_reach("emptied");
    }
    sym_check(q.empty() == model.empty(), "empty() is wrong");
    std::size_t n = 0;
    for (auto const& x : q) {
      ++n;
      bool found = false;
      for (auto const& y : model) found |= x.nr_ == y.nr_;
      sym_check(found, "queue contents differ from the inserted elements");
    }
    sym_check(n == model.size(), "queue size is wrong");
    bool greatest = true;
    for (auto const& x : model) greatest &= !less(q.top(), x);
    sym_check(greatest, "top() is not a greatest element");
  }
  if (!model.empty()) sym::observe(q.top().prio_);
}
