// @sources src/infrastructure/exclusion/exclusion_elements.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc
// @bounds a track of 1 to 3 sections with up to 2 signals, halts or other elements in either direction, with kilometres rising either way in each section (quick: of three, the first two), split over one or two station routes; every interlocking route on it, in both directions
// @assume a section between two section elements has a track element in each direction, as the parser ensures (META); an interlocking route within one section starts or ends on a track element
// @reach one several from-end open rising falling switch
#include "common/chain.h"
#include "soro/infrastructure/exclusion/exclusion_elements.h"
using namespace rail;

HARNESS(closed_and_open) {
  chain c;
  auto const sections = static_cast<unsigned>(sym::pick(1, 3, "sections"));
  type const middle[] = {type::SIMPLE_SWITCH, type::CROSS, type::KM_JUMP};
  c.flipped = sections == 1 ? 0U : static_cast<unsigned>(sym::pick(0, sections == 2 ? 3U : BOUND(2U, 7U), "sections running the other way"));
  auto const mid = middle[sections == 1 ? 0 : sym::pick(0, 2, "section element")];
  bool const crowded = sections < 3 || BOUND(false, true);
  c.build(sections, sym::pick(0, 1, "first") ? type::BORDER : type::BUMPER, mid, type::TRACK_END, [&](unsigned s) {
    auto const n = crowded ? 2U : s == 1 ? 0U : 1U;
    for (unsigned i = 0; i < n; ++i) {
      switch (sym::pick(0, sections == 1 ? 5 : 3, "element")) {
        case 0: break;
        case 1: c.put(type::MAIN_SIGNAL, 1, s); break;
        case 2: c.put(type::MAIN_SIGNAL, 0, s); break;
        case 3: c.put(type::HALT, i == 0 ? 1 : 0, s); break;
        case 4: c.put(type::SLOPE, -1, s); break;
        case 5: c.put(type::APPROACH_SIGNAL, 1, s); break;
      }
    }
  });
  bool const rising = sym::pick(0, 1, "rising") != 0;
  auto const way = c.way(rising);
  // an interlocking route between two valid ends
  auto const from = sym::pick(0, way.size() - 2, "from");
  sym_assume(valid_ir_end(c.line[way[from]].e->type()));
  auto const to = sym::pick(from + 1, way.size() - 1, "to");
  sym_assume(valid_ir_end(c.line[way[to]].e->type()));
  auto const &a = c.line[way[from]], &b = c.line[way[to]];
  sym_assume(sections > 1 || a.dir != -1 || b.dir != -1);
  // over one station route, or split behind its first node
  bool const split = sym::pick(0, 1, "split") != 0;
  interlocking_route* ir;
  if (split) {
    auto const at = static_cast<std::ptrdiff_t>(from + 1);
    c.route_over(std::vector<unsigned>(begin(way), begin(way) + at), rising);
    c.route_over(std::vector<unsigned>(begin(way) + at, end(way)), rising);
    ir = &c.w.lock({0, 1}, static_cast<node::idx>(from), static_cast<node::idx>(to - from));
  } else {
    c.route_over(way, rising);
    ir = &c.w.lock({0}, static_cast<node::idx>(from), static_cast<node::idx>(to + 1));
  }
  (void)ir;
  infrastructure const infra(&c.w.t);
  auto const closed = get_closed_exclusion_elements(infra);
  auto const open = get_open_exclusion_elements(closed, infra);
  sym_check(closed.size() == 1 && open.size() == 1, "one set of elements per interlocking route");
  sym_reach(rising ? "rising" : "falling");
  sym_reach(a.section == b.section ? "one" : "several");
  if (a.dir == -1) sym_reach("from-end");
  auto const lo = std::min(way[from], way[to]), hi = std::max(way[from], way[to]);
  for (int pass = 0; pass < 2; ++pass) {
    auto const& v = pass == 0 ? closed[0] : open[0];
    for (std::size_t i = 1; i < v.size(); ++i) sym_check(v[i - 1] < v[i], "exclusion elements ascend without duplicates");
    unsigned n = 0;
    for (unsigned p = 0; p < c.line.size(); ++p) {
      bool const end = p == lo || p == hi;
      bool want = p >= lo && p <= hi && exclusion_relevant(c.line[p].e->type()) && (pass == 0 || !end);
      bool has = false;
      for (auto x : v) has |= x == c.line[p].e->id();
      sym_check(has == want, pass == 0 ? "the exclusion elements of a route are the signals, halts, switches, crosses and ends along it, in both directions" : "the open set leaves out exactly both ends");
      n += want ? 1 : 0;
      if (want && p > lo && p < hi && c.line[p].e->joins_tracks()) sym_reach("switch");
      if (want && pass == 1) sym_reach("open");
    }
    sym_check(n == v.size(), "nothing else");
  }
}
