#pragma once
#include "expr.h"

#include <memory>
#include <unordered_map>

enum class Res { Sat, Unsat, Unknown };
using Model = std::shared_ptr<const std::vector<u64>>;

struct SolverStats {
  u64 queries{0}, sat{0}, unsat{0}, unknown{0}, cacheHits{0}, fpQueries{0};
  double time{0};
};

class Solver {
public:
  Solver(Ctx& c, unsigned timeout_ms);
  // is pc /\ cond satisfiable? On Sat, *out is base model updated.
  Res check(std::vector<E> const& pc, E cond, Model const& base, Model* out);
  SolverStats stats;
  std::string xdump;  // if non-empty, directory to dump unsat queries to
  u64 dumped{0};
  unsigned dumpEvery{0};

private:
  Res solve(std::vector<E> const& cs, std::vector<u32> const& syms,
            Model const& base, Model* out);
  Ctx& ctx;
  unsigned timeout;
  Z3_solver inc{nullptr};
  u64 incSize{0};
  std::unordered_map<E, Z3_ast> guard;
  struct CacheEnt {
    std::vector<u32> key;
    Res r;
    std::vector<std::pair<u32, u64>> assign;
  };
  std::unordered_map<u64, std::vector<CacheEnt>> cache;
  void resetInc();
};
