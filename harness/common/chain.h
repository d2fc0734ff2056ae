// a single track: sections one after another, with signals, halts and other
// elements in both directions
#pragma once
#include "common/rail.h"

namespace rail {
struct chain {
  net w;
  struct item {
    element* e;
    int dir;  // 1 along the line, 0 against it, -1 both
    unsigned section;  // of track elements
  };
  std::vector<item> line;  // from the first to the last end
  unsigned flipped{0};  // sections whose kilometres rise against the line

  bool flip(unsigned section) const { return ((flipped >> section) & 1) != 0; }
  void put(type k, int dir, unsigned section) { line.push_back({w.add(k, dir == -1 || (dir == 1) != flip(section)), dir, section}); }
  // inner elements: kinds picked by the caller
  template <typename F>
  void build(unsigned const sections, type const first, type const mid, type const last, F&& inner) {
    for (unsigned s = 0; s < sections; ++s) {
      auto const from = line.size();
      if (s == 0) put(first, -1, 0);
      auto const start = s == 0 ? from : from - 1;
      put(type::META, 1, s);
      inner(s);
      put(type::META, 0, s);
      put(s + 1 == sections ? last : mid, -1, s);
      auto& g = w.t.graph_;
      g.sections_.emplace_back();
      auto& sec = g.sections_.back();
      for (auto i = start; i < line.size(); ++i) {
        (flip(s) ? sec.falling_order_ : sec.rising_order_).push_back(line[i].e);
        g.element_id_to_section_ids_[line[i].e->id()].push_back(s);
      }
      for (auto i = line.size(); i-- > start;) (flip(s) ? sec.rising_order_ : sec.falling_order_).push_back(line[i].e);
    }
  }
  // positions along the line that a train in the direction passes, in its order
  std::vector<unsigned> way(bool const rising) const {
    std::vector<unsigned> r;
    for (unsigned i = 0; i < line.size(); ++i) {
      auto const p = rising ? i : static_cast<unsigned>(line.size()) - 1 - i;
      if (line[p].dir == -1 || (line[p].dir == 1) == rising) r.push_back(p);
    }
    return r;
  }
  station_route* route_over(std::vector<unsigned> const& way, bool const rising) {
    std::vector<node::ptr> nodes;
    for (auto p : way) {
      auto const n = line[p].e->nodes();
      nodes.push_back(n.size() == 1 || rising != flip(line[p].section) ? n[0] : n[1]);
    }
    return w.route(nodes);
  }
};
inline bool valid_ir_end(type const t) { return t == type::MAIN_SIGNAL || t == type::HALT || t == type::BORDER || t == type::BUMPER || t == type::TRACK_END; }
inline bool exclusion_relevant(type const t) { return valid_ir_end(t) || t == type::SIMPLE_SWITCH || t == type::CROSS; }
}  // namespace rail
