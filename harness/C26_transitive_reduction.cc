// @sources src/simulation/ordering/remove_transitive_edges.cc
// @bounds every acyclic directed graph with up to 4 (quick) / 5 (thorough) nodes, numbered in any order
// @assume acyclic graphs: the reduction is only defined (unique) for them
// @reach removed kept
#include "common/digraph.h"
#include "soro/simulation/ordering/remove_transitive_edges.h"
using namespace soro;
using namespace soro::simulation;

HARNESS(reduction) {
  // acyclic: edges go up in a chosen topological order
  vp::digraph<5> g;
  g.n_ = static_cast<unsigned>(sym::pick(1, BOUND(4, 5), "nodes"));
  unsigned perm[5];
  for (unsigned i = 0; i < g.n_; ++i) {
    perm[i] = static_cast<unsigned>(sym::pick(0, g.n_ - 1, "position"));
    for (unsigned j = 0; j < i; ++j)
      if (perm[j] == perm[i]) return;
  }
  for (unsigned i = 0; i < g.n_; ++i)
    for (unsigned j = i + 1; j < g.n_; ++j) g.adj_[perm[i]][perm[j]] = sym::pick(0, 1, "edge") != 0;
  ordering_graph og;
  og.nodes_.resize(g.n_);
  for (unsigned i = 0; i < g.n_; ++i) {
    og.nodes_[i].id_ = i;
    og.nodes_[i].train_id_ = i;
    for (unsigned j = 0; j < g.n_; ++j)
      if (g.adj_[i][j]) {
        og.nodes_[i].out_.push_back(j);
        og.nodes_[j].in_.push_back(i);
      }
  }
  remove_transitive_edges(og);
  auto const d = g.dist();
  sym_check(og.nodes_.size() == g.n_, "the reduction keeps all nodes");
  for (unsigned i = 0; i < g.n_; ++i) {
    sym_check(og.nodes_[i].id_ == i && og.nodes_[i].train_id_ == i, "the reduction keeps the nodes");
    std::vector<unsigned> out;
    for (unsigned j = 0; j < g.n_; ++j) {
      if (!g.adj_[i][j]) continue;
      bool other = false;
      for (unsigned k = 0; k < g.n_; ++k) other |= d[i][k] != 0 && d[k][j] != 0;
      if (other) sym_reach("removed");
      else {
        sym_reach("kept");
        out.push_back(j);
      }
      sym_check(vp::occ(og.nodes_[j].in_, i) == (other ? 0U : 1U), "incoming edges agree with the outgoing ones");
    }
    sym_check(og.nodes_[i].out_ == out, "exactly the edges implied by longer paths are removed");
    unsigned in = 0;
    for (unsigned j = 0; j < g.n_; ++j) in += static_cast<unsigned>(vp::in(og.nodes_[j].out_, i));
    sym_check(og.nodes_[i].in_.size() == in, "incoming edges agree with the outgoing ones");
  }
}
