// @bounds every directed graph (self loops included) with up to 3 (quick) / 4 (thorough) nodes, every start node, both neighbour orders, every node/edge at which the traversal is told to stop
// @reach bfs dfs cycle_through_start stopped_node stopped_edge unreachable
#include "common/digraph.h"
#include "soro/utls/graph/traversal.h"
using namespace soro;

struct probe {
  vp::digraph<4> g_;
  unsigned start_;
  bool desc_;
  unsigned nodes_[4]{}, edges_[4][4]{};
  std::vector<unsigned> order_;
  bool found_[4][4]{};
  unsigned stop_node_{~0U}, stop_edge_{~0U}, edge_no_{0};
  bool stopped_{false};
  bool node(unsigned to, unsigned from) {
    sym_check(!stopped_, "nothing is reported after the traversal was told to stop");
    sym_check(g_.adj_[from][to], "the node a node was reached from must be its predecessor");
    ++nodes_[to];
    order_.push_back(to);
    return stopped_ = to == stop_node_;
  }
  bool edge(unsigned from, unsigned to) {
    sym_check(!stopped_, "nothing is reported after the traversal was told to stop");
    sym_check(g_.adj_[from][to], "only edges of the graph are reported");
    ++edges_[from][to];
    return stopped_ = edge_no_++ == stop_edge_;
  }
};
static probe make() {
  probe p{vp::any_digraph<4>(BOUND(3, 4)), 0, false};
  p.start_ = static_cast<unsigned>(sym::pick(0, p.g_.n_ - 1, "start"));
  p.desc_ = sym::pick(0, 1, "descending") != 0;
  return p;
}
template <typename Fn>
static void run(probe& p, Fn&& traverse, bool with_edges) {
  traverse([&p](unsigned const n) { return p.g_.succ(n, p.desc_); },
           [&p](unsigned to, unsigned from) { return p.node(to, from); },
           [&p](unsigned from, unsigned to) { return p.edge(from, to); });
  if (p.stopped_) return;
  auto const d = p.g_.dist();
  for (unsigned i = 0; i < p.g_.n_; ++i) {
    bool const reachable = i == p.start_ || d[p.start_][i] != 0;
    if (!reachable) sym_reach("unreachable");
    sym_check(p.nodes_[i] == (reachable && i != p.start_ ? 1U : 0U), "every reachable node besides the start is visited exactly once, no other node is");
    if (with_edges)
      for (unsigned j = 0; j < p.g_.n_; ++j)
        sym_check(p.edges_[i][j] == (reachable && p.g_.adj_[i][j] ? 1U : 0U), "every edge of a reachable node is visited exactly once, no other edge is");
  }
  if (d[p.start_][p.start_] != 0) sym_reach("cycle_through_start");
}
HARNESS(bfs) {
  auto p = make();
  auto const mode = sym::pick(0, 2, "stop");
  if (mode == 1) p.stop_node_ = static_cast<unsigned>(sym::pick(0, p.g_.n_ - 1, "stop node"));
  if (mode == 2) p.stop_edge_ = static_cast<unsigned>(sym::pick(0, p.g_.n_ * p.g_.n_ - 1, "stop edge"));
  run(p, [&](auto&& nb, auto&& node, auto&& edge) {
    utls::bfs(p.start_, nb, node, edge);
  }, true);
  auto const d = p.g_.dist();
  for (std::size_t i = 1; i < p.order_.size(); ++i)
    sym_check(d[p.start_][p.order_[i - 1]] <= d[p.start_][p.order_[i]], "breadth-first search visits nodes by increasing distance");
  if (mode == 1 && p.stopped_) sym_reach("stopped_node");
  if (mode == 2 && p.stopped_) sym_reach("stopped_edge");
  if (mode == 2 && p.stopped_) {
    unsigned total = 0;
    for (auto const& r : p.edges_)
      for (auto c : r) total += c;
    sym_check(total == p.stop_edge_ + 1, "the traversal ends with the edge that stops it");
  }
  sym_reach("bfs");
}
HARNESS(bfs_nodes) {
  auto p = make();
  run(p, [&](auto&& nb, auto&& node, auto&&) { utls::bfs(p.start_, nb, node); }, false);
}
HARNESS(dfs) {
  auto p = make();
  auto const mode = sym::pick(0, 1, "stop");
  if (mode == 1) p.stop_node_ = static_cast<unsigned>(sym::pick(0, p.g_.n_ - 1, "stop node"));
  run(p, [&](auto&& nb, auto&& node, auto&& edge) { utls::dfs(p.start_, nb, node, edge); }, true);
  if (mode == 1) sym_check(p.stopped_ == (p.nodes_[p.stop_node_] != 0), "a traversal told to stop ends there");
  sym_reach("dfs");
}
HARNESS(dfs_nodes) {
  auto p = make();
  run(p, [&](auto&& nb, auto&& node, auto&&) { utls::dfs(p.start_, nb, node); }, false);
}
