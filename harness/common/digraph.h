// Arbitrary small directed graphs: one symbolic bit per possible edge, decided
// path by path; reference reachability and distances.
#pragma once
#include "vec.h"
#include <array>

namespace vp {
template <unsigned MAX>
struct digraph {
  unsigned n_{0};
  bool adj_[MAX][MAX]{};
  std::vector<unsigned> succ(unsigned i, bool descending = false) const {
    std::vector<unsigned> r;
    for (unsigned k = 0; k < n_; ++k) {
      unsigned const j = descending ? n_ - 1 - k : k;
      if (adj_[i][j]) r.push_back(j);
    }
    return r;
  }
  // number of edges on a shortest non-empty path, 0 if there is none
  std::array<std::array<unsigned, MAX>, MAX> dist() const {
    std::array<std::array<unsigned, MAX>, MAX> d{};
    for (unsigned i = 0; i < n_; ++i)
      for (unsigned j = 0; j < n_; ++j) d[i][j] = adj_[i][j] ? 1 : 0;
    for (unsigned k = 0; k < n_; ++k)
      for (unsigned i = 0; i < n_; ++i)
        for (unsigned j = 0; j < n_; ++j)
          if (d[i][k] != 0 && d[k][j] != 0 && (d[i][j] == 0 || d[i][k] + d[k][j] < d[i][j])) d[i][j] = d[i][k] + d[k][j];
    return d;
  }
  bool acyclic() const {
    auto const d = dist();
    for (unsigned i = 0; i < n_; ++i)
      if (d[i][i] != 0) return false;
    return true;
  }
};
// every directed graph with 1..max nodes (self loops optional)
template <unsigned MAX>
digraph<MAX> any_digraph(unsigned max, bool loops = true) {
  digraph<MAX> g;
  g.n_ = static_cast<unsigned>(sym::pick(1, max, "nodes"));
  for (unsigned i = 0; i < g.n_; ++i)
    for (unsigned j = 0; j < g.n_; ++j)
      if (loops || i != j) g.adj_[i][j] = sym::pick(0, 1, "edge") != 0;
  return g;
}
}  // namespace vp
