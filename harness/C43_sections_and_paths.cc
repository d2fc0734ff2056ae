// @sources src/timetable/train.cc src/timetable/sequence_point.cc src/timetable/bitfield.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/line.cc src/rolling_stock/train_physics.cc
// @bounds sections of 2 to 4 (thorough: 5) elements of every kind and direction, every pair of them; paths of 1 to 4 (thorough: 5) elements of every kind with arbitrary kilometres, every leg; sequences of 1 to 3 of 4 elements with every connection between them; trains over 4 to 6 nodes of two station routes with every position of their halts
// @assume kilometres between -10000 and 10000 km
// @reach skipped reversed single across legs sections path no_path isolated train
#include "common/run.h"
#include "soro/infrastructure/path/is_path.h"
#include "soro/infrastructure/path/length.h"
using namespace rail;

template <typename Range>
static std::vector<element::ptr> all(Range&& r) {
  std::vector<element::ptr> v;
  for (auto&& e : r) v.push_back(e);
  return v;
}
static bool same(std::vector<element::ptr> const& a, std::vector<element*> const& b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) return false;
  return true;
}

HARNESS(sections) {
  net w;
  auto const n = static_cast<unsigned>(sym::pick(2, BOUND(4, 5), "elements"));
  std::vector<element*> up;
  std::vector<int> dir;
  section s;
  static type const ends[] = {type::BUMPER, type::BORDER, type::SIMPLE_SWITCH, type::CROSS};
  auto const end = sym::pick(0, 3, "end");
  for (unsigned i = 0; i < n; ++i) {
    int d = -1;
    type k = ends[(end + i) % 4];
    if (i != 0 && i + 1 != n) {
      d = static_cast<int>(sym::pick(0, 2, "direction")) - 1;
      k = d == -1 ? type::TUNNEL : sym::pick(0, 1, "signal") != 0 ? type::MAIN_SIGNAL : type::HALT;
    }
    auto* const e = w.add(k, d != 0);
    sym_check(d == -1 || e->is_directed_track_element(), "harness: directed element");
    up.push_back(e);
    dir.push_back(d);
    s.rising_order_.push_back(e);
  }
  for (unsigned i = n; i-- > 0;) s.falling_order_.push_back(up[i]);
  auto const order = [&](bool const rising, bool const skip) {
    std::vector<element*> r;
    for (unsigned i = 0; i < n; ++i) {
      auto const p = rising ? i : n - 1 - i;
      if (skip && dir[p] == (rising ? 0 : 1)) {
        sym_reach("skipped");
        continue;
      }
      r.push_back(up[p]);
    }
    return r;
  };
  sym_check(s.size() == n, "size of a section");
  sym_check(same(all(s.iterate<direction::Rising>()), order(true, true)), "rising, a section has the elements of both or this direction, in order");
  sym_check(same(all(s.iterate<direction::Falling>()), order(false, true)), "falling, a section has the elements of both or this direction, in order");
  sym_check(same(all(s.iterate<direction::Rising, skip::No>()), order(true, false)) && same(all(s.iterate<direction::Falling, skip::No>()), order(false, false)), "a section has all its elements");
  sym_check(s.first_rising() == up[0] && s.last_rising() == up[n - 1] && s.first_falling() == up[n - 1] && s.last_falling() == up[0], "ends of a section");
  auto const a = sym::pick(0, n - 1, "from"), b = sym::pick(0, n - 1, "to");
  for (bool const rising : {true, false}) {
    auto const d = rising ? direction::Rising : direction::Falling;
    auto const o = order(rising, false);
    std::vector<element*> const behind(o.begin() + static_cast<long>(a), o.end()), before(o.begin(), o.begin() + static_cast<long>(b) + 1);
    if (!rising) sym_reach("reversed");
    sym_check(same(all(s.from(o[a], d)), behind), "the elements from one on");
    sym_check(same(all(s.to(o[b], d)), before), "the elements up to one");
    if (a <= b) sym_check(same(all(s.from_to(o[a], o[b], d)), std::vector<element*>(o.begin() + static_cast<long>(a), o.begin() + static_cast<long>(b) + 1)), "the elements between two");
  }
}

// an element is entered on one of its legs and left on another
struct stop_at {
  element* e;
  si::length in, out;  // kilometres towards the element before and behind
};
static si::length any_km() {
  auto const x = sym::f64("km");
  sym_assume(x > -1e7 && x < 1e7);
  return si::from_m(x);
}
static stop_at any_element(net& w) {
  switch (sym::pick(0, 5, "kind")) {
    case 0: {
      auto* const e = w.add(type::HALT);
      auto const k = e->as<track_element>().km_ = any_km();
      return {e, k, k};
    }
    case 1: {
      auto* const e = w.add(type::TUNNEL);
      auto const k = e->as<undirected_track_element>().km_ = any_km();
      return {e, k, k};
    }
    case 2: {
      auto* const e = w.add(type::BUMPER);
      auto const k = e->as<end_element>().km_ = any_km();
      return {e, k, k};
    }
    case 3: {
      auto* const e = w.add(type::KM_JUMP);
      auto& x = e->as<simple_element>();
      x.start_km_ = any_km();
      x.end_km_ = any_km();
      return {e, x.start_km_, x.end_km_};
    }
    case 4: {
      auto* const e = w.add(type::SIMPLE_SWITCH);
      auto& x = e->as<simple_switch>();
      x.start_km_ = any_km();
      x.stem_km_ = any_km();
      x.branch_km_ = any_km();
      return {e, x.start_km_, x.stem_km_};
    }
    default: {
      auto* const e = w.add(type::CROSS);
      auto& x = e->as<cross>();
      x.start_left_km_ = any_km();
      x.end_left_km_ = any_km();
      x.start_right_km_ = any_km();
      x.end_right_km_ = any_km();
      return {e, x.start_left_km_, x.end_left_km_};
    }
  }
}
static void join(stop_at& a, stop_at& b) {
  // a is left towards b, b is entered from a
  if (a.e->is_end_element()) a.e->as<end_element>().rising_neighbour() = b.e;
  else if (a.e->is(type::HALT)) a.e->as<track_element>().ahead() = b.e;
  else if (a.e->is(type::TUNNEL)) a.e->as<undirected_track_element>().end_rising_neighbour() = b.e;
  else if (a.e->is(type::KM_JUMP)) (sym::pick(0, 1, "leg") != 0 ? a.e->as<simple_element>().end_rising_neighbour() : a.e->as<simple_element>().end_falling_neighbour()) = b.e;
  else if (a.e->is(type::SIMPLE_SWITCH)) {
    auto& x = a.e->as<simple_switch>();
    switch (sym::pick(0, 3, "leg")) {
      case 0: x.rising_stem_neighbour() = b.e; break;
      case 1: x.falling_stem_neighbour() = b.e; break;
      case 2: x.rising_branch_neighbour() = b.e; a.out = x.branch_km_; break;
      default: x.falling_branch_neighbour() = b.e; a.out = x.branch_km_; break;
    }
    sym_reach("legs");
  } else {
    auto& x = a.e->as<cross>();
    switch (sym::pick(0, 3, "leg")) {
      case 0: x.rising_end_left() = b.e; break;
      case 1: x.falling_end_left() = b.e; break;
      case 2: x.rising_end_right() = b.e; a.out = x.end_right_km_; break;
      default: x.falling_end_right() = b.e; a.out = x.end_right_km_; break;
    }
  }
  if (b.e->is_end_element()) b.e->as<end_element>().falling_neighbour() = a.e;
  else if (b.e->is(type::HALT)) b.e->as<track_element>().behind() = a.e;
  else if (b.e->is(type::TUNNEL)) b.e->as<undirected_track_element>().start_falling_neighbour() = a.e;
  else if (b.e->is(type::KM_JUMP)) (sym::pick(0, 1, "leg") != 0 ? b.e->as<simple_element>().start_rising_neighbour() : b.e->as<simple_element>().start_falling_neighbour()) = a.e;
  else if (b.e->is(type::SIMPLE_SWITCH)) {
    auto& x = b.e->as<simple_switch>();
    (sym::pick(0, 1, "leg") != 0 ? x.rising_start_neighbour() : x.falling_start_neighbour()) = a.e;
  } else {
    auto& x = b.e->as<cross>();
    switch (sym::pick(0, 2, "leg")) {
      case 0: x.rising_start_left() = a.e; break;
      case 1: x.rising_start_right() = a.e; b.in = x.start_right_km_; break;
      default: x.falling_start_right() = a.e; b.in = x.start_right_km_; break;
    }
  }
}
HARNESS(lengths) {
  net w;
  auto const n = static_cast<unsigned>(sym::pick(1, BOUND(4, 5), "elements"));
  std::vector<stop_at> p;
  for (unsigned i = 0; i < n; ++i) p.push_back(any_element(w));
  for (unsigned i = 0; i + 1 < n; ++i) join(p[i], p[i + 1]);
  soro::vector<element::ptr> way;
  soro::vector<node::ptr> nodes;
  for (auto const& x : p) {
    way.push_back(x.e);
    nodes.push_back(x.e->nodes()[0]);
  }
  auto want = si::ZERO<si::length>;
  for (unsigned i = 0; i + 1 < n; ++i) {
    auto const step = abs(p[i].out - p[i + 1].in);
    want += step;
    sym_check(std::bit_cast<std::uint64_t>(p[i].e->get_distance(p[i + 1].e).val_) == std::bit_cast<std::uint64_t>(step.val_), "neighbours are as far apart as the kilometres of their legs");
  }
  if (n == 1) sym_reach("single");
  else sym_reach("across");
  auto const bits = [](si::length const x) { return std::bit_cast<std::uint64_t>(x.val_); };
  sym_check(bits(get_path_length_from_elements(way)) == bits(want), "a path is as long as the steps between its elements");
  sym_check(bits(get_path_length_from_elements(nodes)) == bits(want), "a path of nodes is as long as that of their elements");
  sym_check(is_path(way) && is_path(nodes), "elements that follow each other are a path");
  // by sections: steps between the elements that end sections
  {
    auto by = si::ZERO<si::length>;
    unsigned from = 0;
    for (unsigned i = 1; i < n; ++i)
      if (!p[i].e->is_track_element() || i + 1 == n) {
        by += abs(p[from].out - p[i].in);
        from = i;
      }
    sym_check(bits(get_path_length_from_sections(way)) == bits(by), "a path is as long as its sections");
    sym_check(bits(get_path_length_from_sections(nodes)) == bits(by), "a path of nodes is as long as its sections");
    sym_reach("sections");
  }
}

HARNESS(adjacency) {
  net w;
  constexpr unsigned N = 4;
  element* e[N] = {w.add(type::BUMPER), w.add(type::HALT), w.add(type::KM_JUMP), w.add(type::SIMPLE_SWITCH)};
  bool next[N][N]{};
  unsigned degree[N]{};
  for (unsigned i = 0; i < N; ++i)
    for (unsigned k = i + 1; k < N; ++k) {
      if (!sym::pick(0, 1, "connected")) continue;
      for (auto [a, b] : {std::pair{i, k}, std::pair{k, i}}) {
        auto const s = e[a]->nodes().size();
        std::ignore = s;
        auto const free = e[a]->neighbours();
        sym_assume(degree[a] < free.size());
        free[degree[a]++] = e[b];
        next[a][b] = true;
      }
    }
  auto const n = static_cast<unsigned>(sym::pick(1, 3, "length"));
  soro::vector<element::ptr> way;
  soro::vector<node::ptr> nodes;
  bool want = true;
  unsigned last = 0;
  for (unsigned i = 0; i < n; ++i) {
    auto const k = static_cast<unsigned>(sym::pick(0, N - 1, "element"));
    way.push_back(e[k]);
    nodes.push_back(e[k]->nodes()[0]);
    if (i != 0) {
      if (!next[last][k]) want = false;
      if (degree[last] == 0) sym_reach("isolated");
    }
    last = k;
  }
  if (want) sym_reach("path");
  else sym_reach("no_path");
  sym_check(is_path(way) == want, "elements are a path if each is a neighbour of the one before");
  sym_check(is_path(nodes) == want, "nodes are a path if each element is a neighbour of the one before");
}

// the way of a train is as long as its nodes are apart
HARNESS(train) {
  line_run m;
  auto const n = static_cast<unsigned>(sym::pick(4, BOUND(5, 6), "nodes"));
  auto const inner = sym::pick(1, n - 2, "inner halt");
  for (unsigned i = 0; i < n; ++i) {
    item x;
    x.kind = i == 0 || i + 1 == n || i == inner ? type::HALT : i == 2 ? type::MAIN_SIGNAL : type::META;
    x.stop = i == 0 || i + 1 == n;
    x.step = i == 0 ? 0.0 : 100.0 * (1 + static_cast<double>(sym_make("step", 3)));
    m.way.push_back(x);
  }
  item before;
  before.kind = type::MAIN_SIGNAL;
  before.step = 70.0;
  m.build({before}, vehicle(30.0, 0.5));
  for (unsigned i = 0; i + 1 < n; ++i) {
    auto *const a = const_cast<element*>(&*m.nodes[i]->element_), *const b = const_cast<element*>(&*m.nodes[i + 1]->element_);
    a->as<track_element>().ahead() = b;
    b->as<track_element>().behind() = a;
  }
  infrastructure const infra(&m.w.t);
  double want = 0.0;
  for (unsigned i = 1; i < n; ++i) want += m.km[i] - m.km[i - 1];
  auto const got = m.t.path_length(infra);
  sym_check(si::as_m(got) > want - 1e-6 && si::as_m(got) < want + 1e-6, "a train's way is as long as it is from its first to its last halt");
  sym_reach("train");
}
