// Hash-consed bit-vector expression DAG with local simplification, concrete
// evaluation under a model, and translation to Z3.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>

#include <bit>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using llvm::APInt;
using u64 = uint64_t;
using u32 = uint32_t;
using i64 = int64_t;
using i32 = int32_t;

enum Kind : uint8_t {
  K_CONST,
  K_SYM,
  K_ADD,
  K_SUB,
  K_MUL,
  K_UDIV,
  K_SDIV,
  K_UREM,
  K_SREM,
  K_AND,
  K_OR,
  K_XOR,
  K_SHL,
  K_LSHR,
  K_ASHR,
  K_EQ,
  K_ULT,
  K_ULE,
  K_SLT,
  K_SLE,
  K_ITE,
  K_CONCAT,  // a is high part, b is low part
  K_EXTRACT,  // aux = low bit
  K_ZEXT,
  K_SEXT,
  // floating point, operands are IEEE bit patterns of width 32 or 64
  K_FADD,
  K_FSUB,
  K_FMUL,
  K_FDIV,
  K_FREM,
  K_FSQRT,
  K_FOEQ,
  K_FOLT,
  K_FOLE,
  K_FISNAN,
  K_FPTOSI,
  K_FPTOUI,
  K_SITOFP,
  K_UITOFP,
  K_FPTRUNC,
  K_FPEXT,
  K_FRINT,  // aux = 0 rne, 1 rna(round), 2 floor, 3 ceil, 4 trunc
  K_FMA
};

struct Expr {
  Kind k;
  bool fp{false};  // some sub-term is a floating point operation
  uint16_t w;
  u32 id;
  u32 aux{0};
  u32 hash;
  const Expr* a{nullptr};
  const Expr* b{nullptr};
  const Expr* c{nullptr};
  u64 v{0};  // constant value (w<=64) or symbol id
  APInt* big{nullptr};  // constant value for w>64
  // evaluation memo
  mutable u32 epoch{0};
  mutable u64 ev{0};
  mutable Z3_ast z{nullptr};
  mutable Z3_ast zb{nullptr};
  // translation with floating point operations as uninterpreted functions
  mutable Z3_ast zu{nullptr};
  mutable Z3_ast zub{nullptr};
  mutable const std::vector<u32>* syms{nullptr};  // sorted symbol ids
};
using E = const Expr*;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline i64 sx(u64 v, unsigned w) {
  return w >= 64 ? static_cast<i64>(v)
                 : static_cast<i64>(v << (64 - w)) >> (64 - w);
}

inline double as_d(u64 v) { return std::bit_cast<double>(v); }
inline float as_f(u64 v) { return std::bit_cast<float>(static_cast<u32>(v)); }
inline u64 of_d(double d) { return std::bit_cast<u64>(d); }
inline u64 of_f(float d) { return std::bit_cast<u32>(d); }

struct SymInfo {
  std::string name;
  unsigned w;
  E e;
};

u64 eval_op(Kind k, unsigned w, unsigned wa, u32 aux, u64 a, u64 b, u64 c);

class Ctx {
public:
  bool uf{false};  // translate floating point operations as uninterpreted functions
  Ctx();
  E cst(u64 v, unsigned w);
  E cstbig(APInt const& v);
  E sym(std::string const& name, unsigned w);
  E bin(Kind k, E a, E b);
  E ite(E c, E a, E b);
  E extract(E a, unsigned lo, unsigned w);
  E concat(E hi, E lo);
  E zext(E a, unsigned w);
  E sext(E a, unsigned w);
  E not1(E a) { return bin(K_XOR, a, cst(1, 1)); }
  E un(Kind k, E a, unsigned w, u32 aux = 0);
  E tern(Kind k, E a, E b, E c, unsigned w);
  E t() { return cst(1, 1); }
  E f() { return cst(0, 1); }

  // evaluate under assignment (by symbol id, default 0)
  u64 eval(E e, std::vector<u64> const& m);
  APInt evalbig(E e, std::vector<u64> const& m);
  void new_epoch() {
    ++epoch_;
    if (epoch_ == 0) ++epoch_;
  }
  // evaluate many with same model: call with fresh=false
  u64 eval_in_epoch(E e, std::vector<u64> const& m);

  std::vector<u32> const& symsOf(E e);

  E subst(E e, std::unordered_map<E, E> const& m,
          std::unordered_map<E, E>& memo);

  Z3_context z3{nullptr};
  Z3_ast toZ3(E e);
  // conditions that define the quotients used by the translation of e
  void divDefs(E e, std::vector<Z3_ast>& out);

  std::vector<SymInfo> symtab;
  std::size_t nodes() const { return count_; }

private:
  E mk(Kind k, unsigned w, E a, E b, E c, u32 aux, u64 v, APInt const* big);
  E small(E e);
  std::unordered_map<E, E> small_;
  E pushIte(Kind k, E a, E b, int& budget);
  Z3_ast toZ3bool(E e);
  Z3_ast fpOf(E e);
  Z3_ast divByConst(E e);
  Z3_ast ufApp(E e);
  Z3_ast ufCompare(E e);
  std::unordered_map<std::string, Z3_func_decl> ufs_;
  std::unordered_map<E, Z3_ast> ufDef_;
  std::unordered_map<E, std::pair<Z3_ast, Z3_ast>> quotients_;  // dividend node keyed by (a, k) pair node
  std::unordered_map<E, Z3_ast> divDef_;
  std::vector<std::vector<Expr*>> table_;
  std::size_t count_{0};
  void rehash();
  std::unordered_map<std::string, E> symByName_;
  u32 epoch_{1};
  std::vector<std::vector<u32>*> symsets_;
  std::unordered_map<u32, std::vector<const std::vector<u32>*>> symsetIdx_;
  const std::vector<u32>* internSyms(std::vector<u32>&& v);
};
