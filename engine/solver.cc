#include "solver.h"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

Solver::Solver(Ctx& c, unsigned t) : ctx(c), timeout(t) {}

void Solver::resetInc() {
  if (inc) Z3_solver_dec_ref(ctx.z3, inc);
  inc = Z3_mk_solver_for_logic(ctx.z3, Z3_mk_string_symbol(ctx.z3, "QF_BV"));
  Z3_solver_inc_ref(ctx.z3, inc);
  Z3_params p = Z3_mk_params(ctx.z3);
  Z3_params_inc_ref(ctx.z3, p);
  Z3_params_set_uint(ctx.z3, p, Z3_mk_string_symbol(ctx.z3, "rlimit"), timeout);
  Z3_solver_set_params(ctx.z3, inc, p);
  Z3_params_dec_ref(ctx.z3, p);
  guard.clear();
  incSize = 0;
}

Res Solver::check(std::vector<E> const& pc, E cond, Model const& base,
                  Model* out) {
  if (cond->k == K_CONST) {
    if (!cond->v) return Res::Unsat;
    if (out) *out = base;
    return Res::Sat;
  }
  // quick: base model satisfies?
  if (base && ctx.eval(cond, *base)) {
    if (out) *out = base;
    return Res::Sat;
  }
  // slice
  std::vector<E> rel{cond};
  std::vector<u32> syms = ctx.symsOf(cond);
  {
    std::vector<char> used(pc.size(), 0);
    bool changed = true;
    E neg = ctx.not1(cond);
    while (changed) {
      changed = false;
      for (std::size_t i = 0; i < pc.size(); ++i) {
        if (used[i]) continue;
        if (pc[i] == neg) return Res::Unsat;
        auto const& s = ctx.symsOf(pc[i]);
        bool inter = false;
        auto x = s.cbegin();
        auto y = syms.cbegin();
        while (x != s.cend() && y != syms.cend()) {
          if (*x == *y) {
            inter = true;
            break;
          }
          if (*x < *y)
            ++x;
          else
            ++y;
        }
        if (!inter) continue;
        used[i] = 1;
        rel.push_back(pc[i]);
        std::vector<u32> u;
        std::set_union(syms.begin(), syms.end(), s.begin(), s.end(),
                       std::back_inserter(u));
        if (u.size() != syms.size()) {
          syms.swap(u);
          changed = true;
        }
      }
    }
  }
  std::vector<u32> key;
  key.reserve(rel.size());
  for (auto e : rel) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  u64 h = 1469598103934665603ULL;
  for (auto k : key) h = (h ^ k) * 1099511628211ULL;
  auto& bucket = cache[h];
  auto apply = [&](std::vector<std::pair<u32, u64>> const& as) {
    if (!out) return;
    auto m = std::make_shared<std::vector<u64>>(base ? *base : std::vector<u64>{});
    for (auto [s, v] : as) {
      if (m->size() <= s) m->resize(s + 1, 0);
      (*m)[s] = v;
    }
    *out = m;
  };
  for (auto& c : bucket)
    if (c.key == key) {
      ++stats.cacheHits;
      if (c.r == Res::Sat) apply(c.assign);
      return c.r;
    }
  Model m;
  Res r = solve(rel, syms, base, &m);
  CacheEnt ce{key, r, {}};
  if (r == Res::Sat) {
    for (auto s : syms) ce.assign.emplace_back(s, s < m->size() ? (*m)[s] : 0);
    apply(ce.assign);
  }
  bucket.push_back(std::move(ce));
  return r;
}

Res Solver::solve(std::vector<E> const& cs, std::vector<u32> const& syms,
                  Model const& base, Model* out) {
  double t0 = now();
  ++stats.queries;
  bool fp = false;
  for (auto e : cs) fp |= e->fp;
  Z3_lbool res = Z3_L_UNDEF;
  Z3_solver s = nullptr;
  auto mkFresh = [&](char const* logic) {
    Z3_solver f = Z3_mk_solver_for_logic(ctx.z3, Z3_mk_string_symbol(ctx.z3, logic));
    Z3_solver_inc_ref(ctx.z3, f);
    Z3_params p = Z3_mk_params(ctx.z3);
    Z3_params_inc_ref(ctx.z3, p);
    Z3_params_set_uint(ctx.z3, p, Z3_mk_string_symbol(ctx.z3, "rlimit"), timeout);
    Z3_solver_set_params(ctx.z3, f, p);
    Z3_params_dec_ref(ctx.z3, p);
    for (auto e : cs) {
      Z3_solver_assert(ctx.z3, f, Z3_mk_eq(ctx.z3, ctx.toZ3(e), ctx.toZ3(ctx.t())));
      std::vector<Z3_ast> defs;
      ctx.divDefs(e, defs);
      for (auto d : defs) Z3_solver_assert(ctx.z3, f, d);
    }
    return f;
  };
  auto valuesOf = [&](Z3_solver from) {
    Z3_model m = Z3_solver_get_model(ctx.z3, from);
    Z3_model_inc_ref(ctx.z3, m);
    auto v = std::make_shared<std::vector<u64>>(base ? *base : std::vector<u64>{});
    for (auto id : syms) {
      Z3_ast val = nullptr;
      u64 x = 0;
      if (Z3_model_eval(ctx.z3, m, ctx.toZ3(ctx.symtab[id].e), true, &val) && val)
        Z3_get_numeral_uint64(ctx.z3, val, &x);
      if (v->size() <= id) v->resize(id + 1, 0);
      (*v)[id] = x;
    }
    Z3_model_dec_ref(ctx.z3, m);
    return v;
  };
  auto holds = [&](std::vector<u64> const& v) {
    ctx.new_epoch();
    for (auto e : cs)
      if (!ctx.eval_in_epoch(e, v)) return false;
    return true;
  };
  auto real = [&](Z3_solver from) { return holds(*valuesOf(from)); };
  bool fresh = false;
  if (fp) {
    // first with uninterpreted floating point operations: unsat is final, a
    // model counts if it satisfies the constraints under the real semantics
    ctx.uf = true;
    s = mkFresh("QF_UFBV");
    fresh = true;
    res = Z3_solver_check(ctx.z3, s);
    if (res == Z3_L_TRUE && !real(s)) res = Z3_L_UNDEF;
    ctx.uf = false;
    if (res == Z3_L_UNDEF) {
      ++stats.fpQueries;
      Z3_solver_dec_ref(ctx.z3, s);
      s = mkFresh("QF_FPBV");
      res = Z3_solver_check(ctx.z3, s);
    }
  } else {
    if (!inc || incSize > 3000) resetInc();
    std::vector<Z3_ast> as;
    for (auto e : cs) {
      auto it = guard.find(e);
      if (it == guard.end()) {
        Z3_ast g = Z3_mk_const(
            ctx.z3, Z3_mk_string_symbol(ctx.z3, ("g!" + std::to_string(e->id)).c_str()),
            Z3_mk_bool_sort(ctx.z3));
        Z3_solver_assert(
            ctx.z3, inc,
            Z3_mk_implies(ctx.z3, g,
                          Z3_mk_eq(ctx.z3, ctx.toZ3(e), ctx.toZ3(ctx.t()))));
        std::vector<Z3_ast> defs;
        ctx.divDefs(e, defs);
        for (auto d : defs) Z3_solver_assert(ctx.z3, inc, Z3_mk_implies(ctx.z3, g, d));
        it = guard.emplace(e, g).first;
        ++incSize;
      }
      as.push_back(it->second);
    }
    s = inc;
    res = Z3_solver_check_assumptions(ctx.z3, s, static_cast<unsigned>(as.size()), as.data());
    if (res == Z3_L_UNDEF) {
      s = mkFresh("QF_BV");
      fresh = true;
      res = Z3_solver_check(ctx.z3, s);
    }
  }
  Res r = Res::Unknown;
  if (res == Z3_L_FALSE) {
    r = Res::Unsat;
    ++stats.unsat;
    if (dumpEvery && (stats.unsat % dumpEvery) == 0 && dumped < 40) {
      Z3_solver f = mkFresh(fp ? "QF_FPBV" : "QF_BV");
      std::string fn = xdump + "/q" + std::to_string(dumped++) + ".smt2";
      if (FILE* o = fopen(fn.c_str(), "w")) {
        fprintf(o, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(ctx.z3, f));
        fclose(o);
      }
      Z3_solver_dec_ref(ctx.z3, f);
    }
  } else if (res == Z3_L_TRUE) {
    r = Res::Sat;
    ++stats.sat;
    auto v = valuesOf(s);
    // self check: the model must satisfy every constraint in our semantics
    if (!holds(*v)) {
      fprintf(stderr, "ENGINE: model does not satisfy constraint (fp=%d)\n", fp);
      r = Res::Unknown;
    }
    *out = v;
  }
  if (r == Res::Unknown) ++stats.unknown;
  if (fresh) Z3_solver_dec_ref(ctx.z3, s);
  stats.time += now() - t0;
  return r;
}
