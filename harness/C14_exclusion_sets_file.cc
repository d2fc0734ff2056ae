// @sources src/infrastructure/exclusion/read_cliques.cc
// @bounds files of up to 3 lines with up to 2 (quick) / 3 (thorough) numbers of one or two digits, all digits; with and without a final line break
// @assume lines consist of numbers separated by single spaces
// @reach sorted swapped unfinished missing
#include "common/rail.h"
#include <fstream>
#include "soro/infrastructure/exclusion/read_cliques.h"

HARNESS(read) {
  auto& f = vp::create_file("cliques");
  auto const lines = static_cast<unsigned>(sym::pick(0, BOUND(2, 3), "lines"));
  struct {
    unsigned n;
    std::uint32_t v[3];
  } want[3];
  for (unsigned l = 0; l < lines; ++l) {
    want[l].n = static_cast<unsigned>(sym::pick(1, l == 0 ? 3 : 2, "numbers"));
    for (unsigned i = 0; i < want[l].n; ++i) {
      if (i) f.bytes.push_back(' ');
      bool const two = l == 0 && i == 0 && sym::pick(0, 1, "two digits") != 0;
      std::uint32_t v = 0;
      for (unsigned d = 0; d < (two ? 2 : 1); ++d) {
        auto const c = static_cast<std::uint32_t>(sym::range(0, 9, "digit"));
        f.bytes.push_back(static_cast<char>('0' + c));
        v = v * 10 + c;
      }
      want[l].v[i] = v;
    }
    if (l + 1 < lines || sym::pick(0, 1, "final line break"))
      f.bytes.push_back('\n');
    else
      sym_reach("unfinished");
  }
  auto const c = soro::infra::read_cliques("cliques");
  sym_check(c.size() == lines, "one set per line");
  // sorting networks give the expected content
  for (unsigned l = 0; l < lines; ++l)
    for (unsigned i = 0; i < want[l].n; ++i)
      for (unsigned k = 0; k + 1 < want[l].n; ++k)
        if (want[l].v[k] > want[l].v[k + 1]) std::swap(want[l].v[k], want[l].v[k + 1]);
  auto const less = [](auto const& a, auto const& b) {
    for (unsigned i = 0; i < a.n && i < b.n; ++i)
      if (a.v[i] != b.v[i]) return a.v[i] < b.v[i];
    return a.n < b.n;
  };
  for (unsigned i = 0; i < lines; ++i)
    for (unsigned k = 0; k + 1 < lines; ++k)
      if (less(want[k + 1], want[k])) {
        std::swap(want[k], want[k + 1]);
        sym_reach("swapped");
      }
  for (unsigned l = 0; l < lines; ++l) {
    sym_check(c[l].size() == want[l].n, "a set has the members of its line");
    for (unsigned i = 0; i < want[l].n; ++i) sym_check(c[l][i] == want[l].v[i], "sets and their members ascend");
    sym_reach("sorted");
  }
  sym_check(soro::infra::read_cliques("nothing").empty(), "without a file there are no sets");
  sym_reach("missing");
}
