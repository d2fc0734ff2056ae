// @sources src/infrastructure/exclusion/get_exclusion.cc src/infrastructure/exclusion/exclusion_elements.cc src/infrastructure/exclusion/read_cliques.cc src/infrastructure/exclusion/get_exclusion_graph.cc src/infrastructure/exclusion/exclusion_set.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc
// @bounds up to 3 (quick) / 4 (thorough) interlocking routes over 3 elements, every exclusion element set per route, every arrangement of the routes' ends over 2 nodes; all routes between signals and ends on a track of up to 2 sections, in both directions, with 1 or 2 (quick) / 4 (thorough) processors (threads); the mapping of routes to exclusion sets for every family of up to 3 sets
// @assume every thread runs to completion when started or when joined (no interleaving inside threads: they share no written data)
// @reach excluded free successor threads
#include "common/threads.h"
#include <fstream>
#include "common/chain.h"
#include "soro/infrastructure/exclusion/get_exclusion_graph.h"
#include "soro/infrastructure/exclusion/get_exclusion.h"
using namespace rail;

template <typename V>
static bool has(V const& v, unsigned x) {
  for (auto y : v)
    if (y == x) return true;
  return false;
}

HARNESS(graph) {
  net w;
  unsigned const n = static_cast<unsigned>(sym::pick(1, BOUND(3, 4), "routes")), elements = BOUND(2, 3);
  node::ptr ends[2] = {w.node_of(type::MAIN_SIGNAL), w.node_of(type::MAIN_SIGNAL)};
  auto& il = w.t.interlocking_;
  il.starting_at_.resize(w.t.graph_.nodes_.size());
  il.ending_at_.resize(w.t.graph_.nodes_.size());
  unsigned from[4], to[4], uses[4];
  soro::vector<element::ids> closed(n);
  soro::vector<interlocking_route::ids> used(elements);
  for (unsigned i = 0; i < n; ++i) {
    from[i] = static_cast<unsigned>(sym::pick(0, 2, "from"));
    to[i] = static_cast<unsigned>(sym::pick(0, 2, "to"));
    auto const a = from[i] == 2 ? w.node_of(type::MAIN_SIGNAL) : ends[from[i]], b = to[i] == 2 ? w.node_of(type::MAIN_SIGNAL) : ends[to[i]];
    w.route({a, b});
    w.lock({i}, 0, 2);
    uses[i] = static_cast<unsigned>(sym::pick(0, (1U << elements) - 1, "elements"));
    for (unsigned e = 0; e < elements; ++e)
      if ((uses[i] >> e) & 1) {
        closed[i].push_back(e);
        used[e].push_back(i);
      }
  }
  il.starting_at_.resize(w.t.graph_.nodes_.size());
  il.ending_at_.resize(w.t.graph_.nodes_.size());
  for (unsigned i = 0; i < n; ++i) {
    il.starting_at_[w.t.station_routes_[i]->nodes(0)->id_].push_back(i);
    il.ending_at_[w.t.station_routes_[i]->nodes(1)->id_].push_back(i);
  }
  infrastructure const infra(&w.t);
  auto const g = get_exclusion_graph(closed, used, infra);
  sym_check(g.nodes_.size() == n, "one set per route");
  for (unsigned i = 0; i < n; ++i) {
    unsigned c = 0;
    for (unsigned k = 0; k < n; ++k) {
      bool const common = (uses[i] & uses[k]) != 0;
      bool const chained = (to[i] != 2 && to[i] == from[k]) || (to[k] != 2 && to[k] == from[i]);
      bool const x = g.nodes_[i][k];
      sym_check(x == (common && !chained), "two routes exclude each other exactly if they share an element and neither follows the other");
      sym_check(x == g.nodes_[k][i], "exclusion is mutual");
      sym_reach(x ? "excluded" : "free");
      if (common && chained) sym_reach("successor");
      c += x ? 1 : 0;
    }
    sym_check(g.nodes_[i].count() == c, "nothing else is excluded");
  }
}


static void clique_file(std::string const& text) {
  auto& f = vp::create_file("cliques");
  f.bytes.assign(text.begin(), text.end());
}

// the complete computation, from the network: routes on one track
HARNESS(network) {
  chain c;
  vp_threads::choose(BOUND(2, 4));
  if (vp_threads::processors > 1) sym_reach("threads");
  auto const sections = static_cast<unsigned>(sym::pick(1, 2, "sections"));
  c.build(sections, type::BORDER, type::SIMPLE_SWITCH, type::TRACK_END, [&](unsigned s) {
    c.put(type::MAIN_SIGNAL, 1, s);
    c.put(type::MAIN_SIGNAL, 0, s);
  });
  auto const up = c.way(true), down = c.way(false);
  c.route_over(up, true);
  c.route_over(down, false);
  // routes between neighbouring valid ends, in both directions
  struct route {
    unsigned lo, hi;
    node::id first, last;
  };
  std::vector<route> rs;
  unsigned const take = static_cast<unsigned>(sym::pick(1, 3, "directions"));
  for (unsigned d = 0; d < 2; ++d) {
    if (!((take >> d) & 1)) continue;
    auto const& way = d == 0 ? up : down;
    std::vector<unsigned> ends;
    for (unsigned i = 0; i < way.size(); ++i)
      if (valid_ir_end(c.line[way[i]].e->type())) ends.push_back(i);
    for (unsigned i = 0; i + 1 < ends.size(); ++i) {
      // any of them may be missing, or lead over the next end
      auto const k = sym::pick(0, i + 2 < ends.size() && BOUND(d == 0, true) ? 2 : 1, "route");
      if (k == 0 || (sections == 1 && c.line[way[ends[i]]].dir == -1 && c.line[way[ends[i + k]]].dir == -1)) continue;
      auto const a = way[ends[i]], b = way[ends[i + k]];
      c.w.lock({d}, static_cast<node::idx>(ends[i]), static_cast<node::idx>(ends[i + k] + 1));
      auto const& sr = *c.w.t.station_routes_[d];
      rs.push_back({std::min(a, b), std::max(a, b), sr.nodes(static_cast<node::idx>(ends[i]))->id_, sr.nodes(static_cast<node::idx>(ends[i + k]))->id_});
    }
  }
  auto& il = c.w.t.interlocking_;
  il.starting_at_.resize(c.w.t.graph_.nodes_.size());
  il.ending_at_.resize(c.w.t.graph_.nodes_.size());
  for (unsigned i = 0; i < rs.size(); ++i) {
    il.starting_at_[rs[i].first].push_back(i);
    il.ending_at_[rs[i].last].push_back(i);
  }
  clique_file("");
  auto const ex = get_exclusion(c.w.t, "cliques", true, true);
  auto const& g = ex.exclusion_graph_;
  sym_check(g.nodes_.size() == rs.size() && ex.exclusion_elements_.closed_.size() == rs.size() && ex.exclusion_elements_.open_.size() == rs.size(), "one set per route");
  for (unsigned i = 0; i < rs.size(); ++i)
    for (unsigned k = 0; k < rs.size(); ++k) {
      bool common = false;
      for (unsigned p = std::max(rs[i].lo, rs[k].lo); p <= std::min(rs[i].hi, rs[k].hi); ++p) common |= exclusion_relevant(c.line[p].e->type());
      bool const chained = rs[i].last == rs[k].first || rs[k].last == rs[i].first;
      sym_check(g.nodes_[i][k] == (common && !chained), "routes over a common signal, halt, switch or end exclude each other, unless one follows the other");
    }
  // without exclusion elements there is nothing to compute a graph from
  auto const none = get_exclusion(c.w.t, "cliques", false, sym::pick(0, 1, "graph only") != 0);
  sym_check(none.exclusion_graph_.nodes_.empty() && none.exclusion_elements_.closed_.empty(), "nothing unrequested");
  sym_check(get_exclusion(c.w.t, "cliques", true, false).exclusion_graph_.nodes_.empty(), "no graph unless requested");
}

HARNESS(sets) {
  net w;
  w.t.interlocking_.routes_.resize(3);
  unsigned const n = 3, k = static_cast<unsigned>(sym::pick(0, BOUND(3, 4), "sets"));
  std::string text;
  unsigned masks[4];
  for (unsigned i = 0; i < k; ++i) {
    masks[i] = static_cast<unsigned>(sym::pick(1, 7, "members"));
    bool first = true;
    for (unsigned e = n; e-- > 0;)
      if ((masks[i] >> e) & 1) {
        if (!first) text += ' ';
        text += static_cast<char>('0' + e);
        first = false;
      }
    text += '\n';
  }
  clique_file(text);
  auto const ex = get_exclusion(w.t, "cliques", false, false);
  auto const& of = ex.irs_to_exclusion_sets_;
  sym_check(ex.exclusion_sets_.size() == k && of.size() == n, "one list per route");
  for (unsigned r = 0; r < n; ++r) {
    for (std::size_t i = 1; i < of[r].size(); ++i) sym_check(of[r][i - 1] < of[r][i], "ascending without duplicates");
    unsigned c = 0;
    for (unsigned s = 0; s < k; ++s) {
      sym_check(has(of[r], s) == has(ex.exclusion_sets_[s], r), "a route is mapped to exactly the sets it is in");
      c += has(ex.exclusion_sets_[s], r) ? 1 : 0;
    }
    sym_check(c == of[r].size(), "and to no others");
  }
}
