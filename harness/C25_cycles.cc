// @sources src/simulation/ordering/get_cycle.cc
// @bounds every directed graph (self loops included) with up to 3 (quick) / 4 (thorough) nodes
// @reach acyclic cyclic
#include "common/digraph.h"
#include "soro/simulation/ordering/get_cycle.h"
#include "soro/utls/graph/has_cycle.h"
using namespace soro;
using namespace soro::simulation;

HARNESS(has_cycle) {
  auto const g = vp::any_digraph<4>(BOUND(3, 4));
  std::vector<int> const nodes(g.n_);
  bool const r = utls::has_cycle(nodes, [&](auto&&, auto const n) { return g.succ(static_cast<unsigned>(n)); });
  sym_check(r == !g.acyclic(), "a cycle is reported exactly for graphs that have one");
  if (r) sym_reach("cyclic"); else sym_reach("acyclic");
}
static ordering_graph make(vp::digraph<4> const& g) {
  ordering_graph og;
  og.nodes_.resize(g.n_);
  for (unsigned i = 0; i < g.n_; ++i) {
    og.nodes_[i].id_ = i;
    for (unsigned j = 0; j < g.n_; ++j)
      if (g.adj_[i][j]) {
        og.nodes_[i].out_.push_back(j);
        og.nodes_[j].in_.push_back(i);
      }
  }
  return og;
}
static void is_cycle(cycle const& c, vp::digraph<4> const& g) {
  sym_check(!c.empty(), "a cycle has nodes");
  for (std::size_t i = 0; i < c.size(); ++i) {
    sym_check(c[i] < g.n_ && g.adj_[c[i]][c[(i + 1) % c.size()]], "consecutive nodes of a cycle are connected");
    for (std::size_t j = 0; j < i; ++j) sym_check(c[i] != c[j], "a shortest cycle visits every node once");
  }
}
HARNESS(get_cycle) {
  auto const g = vp::any_digraph<4>(BOUND(3, 4));
  auto const d = g.dist();
  auto const og = make(g);
  auto const c = get_cycle(og);
  sym_check(c.has_value() == !g.acyclic(), "a cycle is returned exactly for graphs that have one");
  unsigned shortest = 0;
  for (unsigned i = 0; i < g.n_; ++i)
    if (d[i][i] != 0 && (shortest == 0 || d[i][i] < shortest)) shortest = d[i][i];
  if (c) {
    is_cycle(*c, g);
    sym_check(c->size() == shortest, "get_cycle returns a shortest cycle");
  }
  auto const all = get_cycles(og);
  std::size_t k = 0;
  for (unsigned i = 0; i < g.n_; ++i) {
    if (d[i][i] == 0) continue;
    sym_check(k < all.size(), "get_cycles returns one cycle per node on a cycle");
    is_cycle(all[k], g);
    sym_check(all[k].size() == d[i][i], "get_cycles returns shortest cycles");
    sym_check(vp::in(all[k], i), "get_cycles returns a cycle through the node");
    ++k;
  }
  sym_check(k == all.size(), "get_cycles returns one cycle per node on a cycle");
}
