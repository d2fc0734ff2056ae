// symx: a path-forking symbolic executor for LLVM 18 bitcode.
//   symx --entry F [--entry G ...] [options] module.bc
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>

#include "solver.h"

using namespace llvm;

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

struct Val {
  u64 c{0};
  E e{nullptr};
};

// ------------------------------------------------------------------ memory
struct Obj {
  u32 rc{0};
  u64 base{0};
  u64 size{0};
  uint8_t kind{0};  // 0 global 1 stack 2 heap 3 const
  bool hasSym{false};
  std::vector<uint8_t> data;
  std::vector<uint8_t> init;  // empty: everything initialised
  std::vector<E> sym;  // empty or size
};
struct ObjRef {
  Obj* p{nullptr};
  ObjRef() = default;
  explicit ObjRef(Obj* o) : p(o) {
    if (p) ++p->rc;
  }
  ObjRef(ObjRef const& o) : p(o.p) {
    if (p) ++p->rc;
  }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~ObjRef() {
    if (p && --p->rc == 0) delete p;
  }
};
struct MemEnt {
  u64 base;
  ObjRef o;
};

struct Func;
struct DInst;
struct Frame {
  Func* f{nullptr};
  u32 pc{0};
  std::vector<Val> regs;
  std::vector<u64> allocas;
  std::vector<Val> varargs;
};
struct Exn {
  u64 obj, tinfo;
};
struct Observ {
  Val v;
};

struct State {
  std::vector<Frame> stack;
  std::vector<MemEnt> mem;
  u32 dead{0};
  u64 next{0x100000};
  std::vector<E> pc;
  Model model{std::make_shared<std::vector<u64>>()};
  std::vector<u32> inputs;  // symbol ids in creation order
  std::map<std::string, u32> symcount;
  std::unordered_map<E, E> eqs;
  std::vector<Exn> caught;
  u64 pendObj{0};
  i64 pendSel{0};
  std::vector<Exn> exns;
  std::vector<Val> obs;
  std::set<std::string> reached;
  u64 steps{0};
  u32 depth{0};
  u32 uninit{0};
  u32 entry{0};
  bool done{false};
};
using StateP = std::unique_ptr<State>;

// ------------------------------------------------------------------ decode
enum Op : uint16_t {
  O_BIN,   // sub = Kind
  O_ICMP,  // sub = predicate
  O_FBIN,
  O_FCMP,
  O_FNEG,
  O_TRUNC,
  O_ZEXT,
  O_SEXT,
  O_COPY,
  O_FPCONV,
  O_SELECT,
  O_GEP,
  O_LOAD,
  O_STORE,
  O_ALLOCA,
  O_BR,
  O_CBR,
  O_SWITCH,
  O_RET,
  O_CALL,
  O_UNREACH,
  O_EXTRACTVAL,
  O_INSERTVAL,
  O_EXTRACTEL,
  O_INSERTEL,
  O_SHUFFLE,
  O_LANDING,
  O_RESUME,
  O_PHI,
  O_ATOMICRMW,
  O_CMPXCHG,
  O_BITCASTVEC,
  O_UNSUP
};

struct Elem {
  u32 w;
  u32 off;
};
struct Edge {
  u32 target{0};
  std::vector<std::array<i32, 3>> copies;  // dst, src, n
};
struct DInst {
  Op op{O_UNSUP};
  uint16_t sub{0};
  u32 w{0}, w2{0};
  u32 n{1};
  i32 dst{-1}, a{0}, b{0}, c{0};
  std::vector<i32> args;
  std::vector<Elem> elems;
  std::vector<std::tuple<i32, u32, i64>> gep;  // operand, width, scale
  i64 off{0};
  Edge e1, e2;
  std::vector<std::pair<u64, Edge>> cases;
  const Instruction* I{nullptr};
  void* callee{nullptr};  // Func*
  std::string const* extName{nullptr};
  int builtin{-1};
};
struct Func {
  Function* F{nullptr};
  std::string name;
  bool decoded{false};
  u32 nregs{0};
  std::vector<DInst> code;
  std::vector<u32> argSlots;
  u32 retSlots{0};
  bool hit{false};
};

struct Violation {
  u32 entry{0};
  std::string kind, msg, loc;
  std::vector<u64> inputs;
  std::vector<std::string> names;
};
struct PathSample {
  u32 entry{0};
  std::vector<u64> inputs;
  std::vector<u64> obs;
};

struct Unsupported {
  std::string what;
};

static std::string jsonEsc(std::string const& s) {
  std::string r;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (static_cast<unsigned char>(ch) < 32) {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", ch);
      r += buf;
    } else {
      r += ch;
    }
  }
  return r;
}

struct Options {
  std::vector<std::string> entries;
  std::string file, out;
  unsigned workers{8};
  double timeout{600};
  unsigned solverTimeout{300000000};
  u64 maxSteps{20000000};
  u64 forkDiv{0};
  u32 maxDepth{600};
  unsigned maxViol{4};
  unsigned samples{40};
  bool trace{false};
  std::string concrete;  // file with inputs: run concretely
  std::string xdump;
  unsigned dumpEvery{0};
  std::string srcPrefix{"/repo/"};
};

struct Shared {
  std::atomic<i64> active;
  std::atomic<u64> violations;
  std::atomic<u64> abortFlag;
  std::atomic<u64> nextResult;
  std::atomic<u64> lost;
};

struct Stats {
  u64 paths{0}, forks{0}, steps{0}, asserts{0}, assertQueries{0}, errorsPaths{0};
  u64 killed{0};  // infeasible assumes
};

class Engine {
public:
  Engine(Options o) : opt(std::move(o)), solver(ctx, opt.solverTimeout) {
    Z3_config cfg = Z3_mk_config();
    ctx.z3 = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx.z3, [](Z3_context c, Z3_error_code e) {
      fprintf(stderr, "ENGINE: z3 error %s\n", Z3_get_error_msg(c, e));
    });
    solver.xdump = opt.xdump;
    solver.dumpEvery = opt.dumpEvery;
  }
  int run();

private:
  Options opt;
  Ctx ctx;
  Solver solver;
  LLVMContext lctx;
  std::unique_ptr<Module> M;
  const DataLayout* DL{nullptr};
  std::unordered_map<const Function*, Func*> funcs;
  std::unordered_map<u64, Func*> funcByAddr;
  std::unordered_map<const Value*, u64> gaddr;
  std::unordered_map<u64, std::string> addrName;
  std::vector<Val> constPool;
  std::unordered_map<const Constant*, i32> constIdx;
  std::vector<MemEnt> roMem;  // read-only globals, shared
  std::map<std::string, int> builtinIdx;
  std::unordered_map<u64, u64> typeIds;
  std::unordered_map<u64, std::vector<u64>> tiBases;
  std::vector<StateP> work;
  std::set<std::string> hitFuncs;
  std::vector<Violation> viols;
  std::vector<PathSample> samples;
  std::set<std::string> reached;
  std::set<std::string> inconclusive;
  std::map<std::string, u64> labelCount;
  Stats st_;
  Shared* sh{nullptr};
  double deadline{0};
  u64 rnd{88172645463325252ULL};
  std::vector<u64> concreteInputs;
  std::size_t concretePos{0};
  bool concreteMode{false};
  std::string curEntry;

  // decode helpers
  void flatten(Type* t, u32 off, std::vector<Elem>& out);
  u32 slots(Type* t);
  void loadGlobals(State& s);
  void initConst(Obj* o, const Constant* c, u64 off);
  void flatConst(const Constant* c, std::vector<Val>& out);
  u64 constAddr(const Constant* c);
  i32 constOperand(const Constant* c);
  void decode(Func* f);
  Func* getFunc(const Function* F);
  int builtinOf(std::string const& n);

  // values
  Val V(u64 c) { return Val{c, nullptr}; }
  Val fromE(E e) {
    if (e->k == K_CONST && e->w <= 64) return Val{e->v, nullptr};
    return Val{0, e};
  }
  E toE(Val const& v, unsigned w) { return v.e ? v.e : ctx.cst(v.c, w); }
  Val bin(Kind k, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
      return Val{eval_op(k, w, w, 0, a.c, b.c, 0), nullptr};
    }
    return fromE(ctx.bin(k, toE(a, w), toE(b, w)));
  }
  Val zextV(Val v, unsigned from, unsigned to) {
    if (!v.e && to <= 64) return v;
    return fromE(ctx.zext(toE(v, from), to));
  }
  Val sextV(Val v, unsigned from, unsigned to) {
    if (!v.e && to <= 64) return V(static_cast<u64>(sx(v.c, from)) & maskw(to));
    return fromE(ctx.sext(toE(v, from), to));
  }
  Val truncV(Val v, unsigned from, unsigned to, unsigned lo = 0) {
    if (!v.e) return V((v.c >> lo) & maskw(to));
    return fromE(ctx.extract(v.e, lo, to));
  }
  Val iteV(Val c, Val a, Val b, unsigned w) {
    if (!c.e) return c.c ? a : b;
    if (!a.e && !b.e && a.c == b.c && w <= 64) return a;
    return fromE(ctx.ite(c.e, toE(a, w), toE(b, w)));
  }
  Val icmp(unsigned pred, Val a, Val b, unsigned w);
  Val fcmp(unsigned pred, Val a, Val b, unsigned w);
  Val notV(Val v) { return v.e ? fromE(ctx.not1(v.e)) : V(v.c ^ 1); }

  // memory
  Obj* find(State& s, u64 addr);
  Obj* writable(State& s, Obj* o);
  u64 alloc(State& s, u64 size, uint8_t kind, unsigned align = 16,
            bool zero = false);
  void freeObj(State& s, u64 base);
  Val readBytes(State& s, Obj* o, u64 off, unsigned w);
  void writeBytes(State& s, Obj* o, u64 off, unsigned w, Val v);
  // resolves; may fork. returns object (all offsets in bounds) or null when
  // the state died
  Obj* resolve(State& s, Val addr, u64 size, bool write, char const* what);
  bool offsets(State& s, E addr, Obj* o, u64 size, std::vector<u64>& out);
  Val load(State& s, Val addr, unsigned w, bool& ok);
  bool store(State& s, Val addr, unsigned w, Val v);
  bool valueSet(E e, std::vector<u64>& out, std::size_t limit);

  // constraint handling
  bool addC(State& s, E c);
  Res sat(State& s, E c, Model* m);
  E simp(State& s, E c);
  bool branch(State& s, Val c, StateP& other);  // returns taken side for s
  bool concretize(State& s, Val& v, unsigned w, char const* what,
                  std::size_t limit = 600);

  StateP clone(State& s);
  void push(StateP s) { work.push_back(std::move(s)); }

  void violation(State& s, std::string kind, std::string msg, Model m);
  std::string where(State& s);
  void finish(State& s);

  // execution
  Val& reg(Frame& f, i32 i) { return f.regs[static_cast<u32>(i)]; }
  Val get(Frame& f, i32 i, u32 lane = 0) {
    return i >= 0 ? f.regs[static_cast<u32>(i) + lane]
                  : constPool[static_cast<u32>(~i) + lane];
  }
  void jump(Frame& f, Edge const& e);
  bool step(State& s);  // false: state finished/died
  bool execState(State& s);
  bool doCall(State& s, DInst const& d);
  bool doBuiltin(State& s, DInst const& d, int b);
  bool doIntrinsic(State& s, DInst const& d, unsigned id);
  bool enter(State& s, Func* f, std::vector<Val> const& args, u32 fixed);
  void ret(State& s, std::vector<Val> const& rv);
  void popFrame(State& s);
  bool throwExn(State& s, u64 obj);
  i64 matchClauses(State& s, const LandingPadInst* lp, u64 tinfo, bool& ok);
  bool derives(u64 ti, u64 base);
  u64 tinfoOf(State& s, u64 obj);
  void setRet(State& s, DInst const& d, Val v);
  void worker();
  void uncaught(State& s, u64 ti, std::string const& loc, Model const& m);
  void saveResult();
  void loadResult(std::string const& fn);
  bool timeUp() { return now() > deadline; }
  bool forkValues(State& s, E e, std::size_t limit, std::vector<std::pair<u64, Model>>& vals,
                  std::function<E(u64)> const& cond = nullptr);
  bool forkQuotient(State& s, Kind k, E a, u64 c, unsigned w, u64& q);
  bool memCopy(State& s, Val d, Val sv, Val n, DInst const& di);
  bool memSet(State& s, Val d, Val v, Val n, DInst const& di);
  std::string readCStr(State& s, u64 a);
  Val fpUn(Kind k, Val a, unsigned wa, unsigned w, u32 aux = 0) {
    if (!a.e) return V(eval_op(k, w, wa, aux, a.c, 0, 0));
    return fromE(ctx.un(k, a.e, w, aux));
  }
  void writeOut(std::string const& path, bool complete, double wall);
};

// ------------------------------------------------------------------ types
void Engine::flatten(Type* t, u32 off, std::vector<Elem>& out) {
  if (t->isIntegerTy()) {
    out.push_back({t->getIntegerBitWidth(), off});
  } else if (t->isPointerTy()) {
    out.push_back({64, off});
  } else if (t->isFloatTy()) {
    out.push_back({32, off});
  } else if (t->isDoubleTy()) {
    out.push_back({64, off});
  } else if (auto* st = dyn_cast<StructType>(t)) {
    auto const* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      flatten(st->getElementType(i),
              off + static_cast<u32>(sl->getElementOffset(i).getFixedValue()), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    u32 es = static_cast<u32>(DL->getTypeAllocSize(at->getElementType()));
    for (u64 i = 0; i < at->getNumElements(); ++i)
      flatten(at->getElementType(), off + static_cast<u32>(i) * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u32 es = static_cast<u32>(DL->getTypeStoreSize(vt->getElementType()));
    for (u64 i = 0; i < vt->getNumElements(); ++i)
      flatten(vt->getElementType(), off + static_cast<u32>(i) * es, out);
  } else if (t->isX86_FP80Ty()) {
    out.push_back({80, off});
  } else if (t->isTokenTy() || t->isMetadataTy() || t->isVoidTy()) {
  } else {
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    throw Unsupported{"type " + os.str()};
  }
}
u32 Engine::slots(Type* t) {
  if (t->isVoidTy()) return 0;
  if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) return 1;
  std::vector<Elem> v;
  flatten(t, 0, v);
  return static_cast<u32>(v.size());
}

Func* Engine::getFunc(const Function* F) {
  auto it = funcs.find(F);
  if (it != funcs.end()) return it->second;
  auto* f = new Func();
  f->F = const_cast<Function*>(F);
  f->name = F->getName().str();
  funcs[F] = f;
  return f;
}

u64 Engine::constAddr(const Constant* c) {
  std::vector<Val> v;
  flatConst(c, v);
  return v.at(0).c;
}

void Engine::flatConst(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (t->isVectorTy()) throw Unsupported{"vector splat const"};
    out.push_back(ci->getBitWidth() <= 64 ? V(ci->getZExtValue())
                                          : Val{0, ctx.cstbig(ci->getValue())});
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isX86_FP80Ty()) {
      out.push_back(Val{0, ctx.cstbig(cf->getValueAPF().bitcastToAPInt())});
      return;
    }
    out.push_back(V(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
    return;
  }
  if (isa<ConstantPointerNull>(c)) {
    out.push_back(V(0));
    return;
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<Elem> el;
    flatten(t, 0, el);
    for (auto& e : el)
      out.push_back(e.w <= 64 ? V(0) : Val{0, ctx.cst(0, e.w)});
    return;
  }
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cds->getNumElements(); ++i)
      flatConst(cds->getElementAsConstant(i), out);
    return;
  }
  if (isa<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < c->getNumOperands(); ++i)
      flatConst(cast<Constant>(c->getOperand(i)), out);
    return;
  }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) {
    flatConst(ga->getAliasee(), out);
    return;
  }
  if (isa<GlobalValue>(c)) {
    auto it = gaddr.find(c);
    if (it == gaddr.end()) throw Unsupported{"global without address"};
    out.push_back(V(it->second));
    return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off))
          throw Unsupported{"const gep"};
        out.push_back(V(constAddr(cast<Constant>(g->getPointerOperand())) +
                        off.getZExtValue()));
        return;
      }
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::AddrSpaceCast:
      case Instruction::Trunc: {
        u64 a = constAddr(ce->getOperand(0));
        unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
        out.push_back(V(a & maskw(w)));
        return;
      }
      case Instruction::Sub:
        out.push_back(V((constAddr(ce->getOperand(0)) -
                         constAddr(ce->getOperand(1))) & maskw(t->getIntegerBitWidth())));
        return;
      case Instruction::Add:
        out.push_back(V((constAddr(ce->getOperand(0)) +
                         constAddr(ce->getOperand(1))) & maskw(t->getIntegerBitWidth())));
        return;
      case Instruction::ICmp: {
        u64 a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1));
        out.push_back(icmp(ce->getPredicate(), V(a), V(b), 64));
        return;
      }
      default: break;
    }
  }
  std::string s;
  raw_string_ostream os(s);
  c->print(os);
  throw Unsupported{"constant " + os.str()};
}

i32 Engine::constOperand(const Constant* c) {
  auto it = constIdx.find(c);
  if (it != constIdx.end()) return it->second;
  std::vector<Val> v;
  flatConst(c, v);
  i32 idx = ~static_cast<i32>(constPool.size());
  for (auto& x : v) constPool.push_back(x);
  constIdx[c] = idx;
  return idx;
}

void Engine::initConst(Obj* o, const Constant* c, u64 off) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cds->getRawDataValues();
    memcpy(o->data.data() + off, raw.data(), raw.size());
    return;
  }
  if (isa<ConstantAggregate>(c)) {
    std::vector<u64> offs;
    if (auto* st = dyn_cast<StructType>(t)) {
      auto const* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < c->getNumOperands(); ++i)
        initConst(o, cast<Constant>(c->getOperand(i)),
                  off + sl->getElementOffset(i).getFixedValue());
    } else {
      Type* et = t->isArrayTy() ? t->getArrayElementType()
                                : cast<VectorType>(t)->getElementType();
      u64 es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < c->getNumOperands(); ++i)
        initConst(o, cast<Constant>(c->getOperand(i)), off + i * es);
    }
    return;
  }
  std::vector<Val> v;
  std::vector<Elem> el;
  flatConst(c, v);
  flatten(t, 0, el);
  for (std::size_t i = 0; i < v.size(); ++i) {
    u64 nb = (el[i].w + 7) / 8;
    if (el[i].w <= 64) {
      memcpy(o->data.data() + off + el[i].off, &v[i].c, nb);
    } else {
      APInt b = *v[i].e->big;
      memcpy(o->data.data() + off + el[i].off, b.getRawData(), nb);
    }
  }
}

void Engine::loadGlobals(State& s) {
  u64 fa = 0x10000;
  for (auto& F : *M) {
    gaddr[&F] = fa;
    funcByAddr[fa] = getFunc(&F);
    addrName[fa] = F.getName().str();
    fa += 16;
  }
  u64 ga = std::max<u64>(0x1000000, fa + 4096);
  std::vector<std::pair<const GlobalVariable*, u64>> gs;
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    u64 size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
    if (G.isDeclaration() && size < 64) size = 64;
    ga = (ga + 63) & ~63ULL;
    gaddr[&G] = ga;
    addrName[ga] = G.getName().str();
    gs.emplace_back(&G, size);
    ga += size + 64;
  }
  for (auto& [G, size] : gs) {
    auto* o = new Obj();
    o->base = gaddr[G];
    o->size = size;
    o->data.assign(size, 0);
    o->kind = 0;
    if (G->hasInitializer()) initConst(o, G->getInitializer(), 0);
    if (G->isConstant() && !G->isDeclaration()) {
      o->kind = 3;
      roMem.push_back({o->base, ObjRef(o)});
    } else {
      s.mem.push_back({o->base, ObjRef(o)});
    }
  }
  s.next = std::max<u64>(s.next, (ga + 0xfffff) & ~0xfffffULL);
  // typeinfo bases
  for (auto& G : M->globals()) {
    if (!G.getName().starts_with("_ZTI") || !G.hasInitializer()) continue;
    auto* cs = dyn_cast<ConstantStruct>(G.getInitializer());
    if (!cs) continue;
    std::vector<u64> bases;
    for (unsigned i = 2; i < cs->getNumOperands(); ++i)
      if (cs->getOperand(i)->getType()->isPointerTy())
        bases.push_back(constAddr(cs->getOperand(i)));
    tiBases[gaddr[&G]] = bases;
  }
}

// ------------------------------------------------------------------ decode
void Engine::decode(Func* f) {
  if (f->decoded) return;
  f->decoded = true;
  Function* F = f->F;
  std::unordered_map<const Value*, i32> slot;
  u32 n = 0;
  for (auto& A : F->args()) {
    slot[&A] = static_cast<i32>(n);
    f->argSlots.push_back(n);
    n += slots(A.getType());
  }
  f->retSlots = slots(F->getReturnType());
  for (auto& I : instructions(*F)) {
    if (I.getType()->isVoidTy() || I.getType()->isTokenTy()) continue;
    slot[&I] = static_cast<i32>(n);
    n += slots(I.getType());
  }
  f->nregs = n;
  auto opnd = [&](const Value* v) -> i32 {
    if (auto* c = dyn_cast<Constant>(v)) return constOperand(c);
    auto it = slot.find(v);
    if (it == slot.end()) return constOperand(ConstantInt::get(Type::getInt64Ty(lctx), 0));
    return it->second;
  };
  auto scalarW = [&](Type* t) -> u32 {
    Type* e = t->getScalarType();
    if (e->isPointerTy()) return 64;
    return static_cast<u32>(e->getPrimitiveSizeInBits());
  };
  std::unordered_map<const BasicBlock*, u32> start;
  u32 idx = 0;
  for (auto& B : *F) {
    start[&B] = idx;
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) {
          case Intrinsic::dbg_declare:
          case Intrinsic::dbg_value:
          case Intrinsic::dbg_label:
          case Intrinsic::dbg_assign:
          case Intrinsic::lifetime_start:
          case Intrinsic::lifetime_end:
          case Intrinsic::assume:
          case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::donothing:
          case Intrinsic::prefetch:
          case Intrinsic::invariant_end:
          case Intrinsic::invariant_start: continue;
          default: break;
        }
      }
      ++idx;
    }
  }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.target = start.at(to);
    for (auto& P : to->phis()) {
      const Value* v = P.getIncomingValueForBlock(from);
      if (isa<UndefValue>(v) && slots(P.getType()) == 1 && scalarW(P.getType()) <= 64) {
        // any value
      }
      e.copies.push_back({slot.at(&P), opnd(v), static_cast<i32>(slots(P.getType()))});
    }
    return e;
  };
  f->code.reserve(idx);
  for (auto& B : *F) {
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        switch (ii->getIntrinsicID()) {
          case Intrinsic::dbg_declare:
          case Intrinsic::dbg_value:
          case Intrinsic::dbg_label:
          case Intrinsic::dbg_assign:
          case Intrinsic::lifetime_start:
          case Intrinsic::lifetime_end:
          case Intrinsic::assume:
          case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::donothing:
          case Intrinsic::prefetch:
          case Intrinsic::invariant_end:
          case Intrinsic::invariant_start: continue;
          default: break;
        }
      }
      DInst d;
      d.I = &I;
      auto it = slot.find(&I);
      d.dst = it == slot.end() ? -1 : it->second;
      d.n = I.getType()->isVoidTy() ? 0 : slots(I.getType());
      Type* T = I.getType();
      try {
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
          d.a = opnd(bo->getOperand(0));
          d.b = opnd(bo->getOperand(1));
          d.w = scalarW(T);
          d.op = O_BIN;
          switch (bo->getOpcode()) {
            case Instruction::Add: d.sub = K_ADD; break;
            case Instruction::Sub: d.sub = K_SUB; break;
            case Instruction::Mul: d.sub = K_MUL; break;
            case Instruction::UDiv: d.sub = K_UDIV; break;
            case Instruction::SDiv: d.sub = K_SDIV; break;
            case Instruction::URem: d.sub = K_UREM; break;
            case Instruction::SRem: d.sub = K_SREM; break;
            case Instruction::And: d.sub = K_AND; break;
            case Instruction::Or: d.sub = K_OR; break;
            case Instruction::Xor: d.sub = K_XOR; break;
            case Instruction::Shl: d.sub = K_SHL; break;
            case Instruction::LShr: d.sub = K_LSHR; break;
            case Instruction::AShr: d.sub = K_ASHR; break;
            case Instruction::FAdd: d.op = O_FBIN; d.sub = K_FADD; break;
            case Instruction::FSub: d.op = O_FBIN; d.sub = K_FSUB; break;
            case Instruction::FMul: d.op = O_FBIN; d.sub = K_FMUL; break;
            case Instruction::FDiv: d.op = O_FBIN; d.sub = K_FDIV; break;
            case Instruction::FRem: d.op = O_FBIN; d.sub = K_FREM; break;
            default: d.op = O_UNSUP;
          }
          if (d.op == O_FBIN && d.w != 32 && d.w != 64) d.op = O_UNSUP;
        } else if (isa<UnaryOperator>(I)) {
          d.op = O_FNEG;
          d.a = opnd(I.getOperand(0));
          d.w = scalarW(T);
        } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
          d.op = O_ICMP;
          d.sub = ic->getPredicate();
          d.a = opnd(ic->getOperand(0));
          d.b = opnd(ic->getOperand(1));
          d.w = scalarW(ic->getOperand(0)->getType());
        } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
          d.op = O_FCMP;
          d.sub = fc->getPredicate();
          d.a = opnd(fc->getOperand(0));
          d.b = opnd(fc->getOperand(1));
          d.w = scalarW(fc->getOperand(0)->getType());
          if (d.w != 32 && d.w != 64) d.op = O_UNSUP;
        } else if (auto* ca = dyn_cast<CastInst>(&I)) {
          d.a = opnd(ca->getOperand(0));
          d.w2 = scalarW(ca->getSrcTy());
          d.w = scalarW(T);
          switch (ca->getOpcode()) {
            case Instruction::Trunc: d.op = O_TRUNC; break;
            case Instruction::ZExt: d.op = O_ZEXT; break;
            case Instruction::SExt: d.op = O_SEXT; break;
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
              d.op = d.w2 == d.w ? O_COPY : (d.w < d.w2 ? O_TRUNC : O_ZEXT);
              break;
            case Instruction::BitCast:
              d.op = (T->isVectorTy() || ca->getSrcTy()->isVectorTy()) && d.w != d.w2
                         ? O_BITCASTVEC
                         : O_COPY;
              break;
            case Instruction::FPToSI: d.op = O_FPCONV; d.sub = K_FPTOSI; break;
            case Instruction::FPToUI: d.op = O_FPCONV; d.sub = K_FPTOUI; break;
            case Instruction::SIToFP: d.op = O_FPCONV; d.sub = K_SITOFP; break;
            case Instruction::UIToFP: d.op = O_FPCONV; d.sub = K_UITOFP; break;
            case Instruction::FPTrunc: d.op = O_FPCONV; d.sub = K_FPTRUNC; break;
            case Instruction::FPExt: d.op = O_FPCONV; d.sub = K_FPEXT; break;
            default: d.op = O_UNSUP;
          }
          if (d.op == O_FPCONV && (d.w > 64 || d.w2 > 64)) d.op = O_UNSUP;
        } else if (auto* se = dyn_cast<SelectInst>(&I)) {
          d.op = O_SELECT;
          d.a = opnd(se->getCondition());
          d.b = opnd(se->getTrueValue());
          d.c = opnd(se->getFalseValue());
          d.sub = se->getCondition()->getType()->isVectorTy();
          flatten(T, 0, d.elems);
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          d.op = O_GEP;
          if (T->isVectorTy()) throw Unsupported{"vector gep"};
          d.a = opnd(g->getPointerOperand());
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value* ix = gi.getOperand();
            if (auto* st = gi.getStructTypeOrNull()) {
              d.off += static_cast<i64>(DL->getStructLayout(st)->getElementOffset(
                  static_cast<unsigned>(cast<ConstantInt>(ix)->getZExtValue())).getFixedValue());
            } else {
              i64 sz = static_cast<i64>(DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue());
              if (auto* ci = dyn_cast<ConstantInt>(ix))
                d.off += ci->getSExtValue() * sz;
              else
                d.gep.emplace_back(opnd(ix), scalarW(ix->getType()), sz);
            }
          }
        } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
          d.op = O_LOAD;
          d.a = opnd(ld->getPointerOperand());
          flatten(T, 0, d.elems);
        } else if (auto* so = dyn_cast<StoreInst>(&I)) {
          d.op = O_STORE;
          d.a = opnd(so->getPointerOperand());
          d.b = opnd(so->getValueOperand());
          flatten(so->getValueOperand()->getType(), 0, d.elems);
        } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
          d.op = O_ALLOCA;
          d.off = static_cast<i64>(DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue());
          d.a = opnd(al->getArraySize());
          d.w = static_cast<u32>(al->getAlign().value());
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isUnconditional()) {
            d.op = O_BR;
            d.e1 = edge(&B, br->getSuccessor(0));
          } else {
            d.op = O_CBR;
            d.a = opnd(br->getCondition());
            d.e1 = edge(&B, br->getSuccessor(0));
            d.e2 = edge(&B, br->getSuccessor(1));
          }
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          d.op = O_SWITCH;
          d.a = opnd(sw->getCondition());
          d.w = scalarW(sw->getCondition()->getType());
          d.e1 = edge(&B, sw->getDefaultDest());
          for (auto& c : sw->cases())
            d.cases.emplace_back(c.getCaseValue()->getZExtValue(),
                                 edge(&B, c.getCaseSuccessor()));
        } else if (auto* rt = dyn_cast<ReturnInst>(&I)) {
          d.op = O_RET;
          if (rt->getReturnValue()) {
            d.a = opnd(rt->getReturnValue());
            d.n = slots(rt->getReturnValue()->getType());
          } else {
            d.n = 0;
          }
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
          d.op = O_CALL;
          for (auto& a : cb->args()) {
            Type* at = a->getType();
            if (at->isMetadataTy()) {
              d.args.push_back(0);
              continue;
            }
            u32 k = slots(at);
            i32 o = opnd(a);
            for (u32 i = 0; i < k; ++i) {
              // multi-slot args flattened; constants are ~idx
              d.args.push_back(o >= 0 ? o + static_cast<i32>(i)
                                      : ~(~o + static_cast<i32>(i)));
            }
          }
          Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* gaL = dyn_cast<GlobalAlias>(cv)) cv = gaL->getAliasee()->stripPointerCasts();
          if (auto* cf = dyn_cast<Function>(cv)) {
            d.callee = getFunc(cf);
            if (!cf->isIntrinsic()) d.builtin = builtinOf(cf->getName().str());
          } else {
            d.a = opnd(cb->getCalledOperand());
          }
          if (auto* inv = dyn_cast<InvokeInst>(cb)) {
            d.e1 = edge(&B, inv->getNormalDest());
            d.e2 = edge(&B, inv->getUnwindDest());
            d.sub = 1;
          }
        } else if (isa<UnreachableInst>(I)) {
          d.op = O_UNREACH;
        } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
          d.op = O_EXTRACTVAL;
          Type* t = ev->getAggregateOperand()->getType();
          u32 o = 0;
          for (unsigned ix : ev->indices()) {
            if (auto* st = dyn_cast<StructType>(t)) {
              for (unsigned k = 0; k < ix; ++k) o += slots(st->getElementType(k));
              t = st->getElementType(ix);
            } else {
              t = t->getArrayElementType();
              o += ix * slots(t);
            }
          }
          i32 b = opnd(ev->getAggregateOperand());
          d.a = b >= 0 ? b + static_cast<i32>(o) : ~(~b + static_cast<i32>(o));
        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
          d.op = O_INSERTVAL;
          Type* t = iv->getAggregateOperand()->getType();
          u32 o = 0;
          for (unsigned ix : iv->indices()) {
            if (auto* st = dyn_cast<StructType>(t)) {
              for (unsigned k = 0; k < ix; ++k) o += slots(st->getElementType(k));
              t = st->getElementType(ix);
            } else {
              t = t->getArrayElementType();
              o += ix * slots(t);
            }
          }
          d.a = opnd(iv->getAggregateOperand());
          d.b = opnd(iv->getInsertedValueOperand());
          d.w = o;
          d.w2 = slots(iv->getInsertedValueOperand()->getType());
        } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
          d.op = O_EXTRACTEL;
          d.a = opnd(ee->getVectorOperand());
          d.b = opnd(ee->getIndexOperand());
          d.w = scalarW(T);
          d.w2 = slots(ee->getVectorOperand()->getType());
        } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
          d.op = O_INSERTEL;
          d.a = opnd(ie->getOperand(0));
          d.b = opnd(ie->getOperand(1));
          d.c = opnd(ie->getOperand(2));
        } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
          d.op = O_SHUFFLE;
          d.a = opnd(sv->getOperand(0));
          d.b = opnd(sv->getOperand(1));
          d.w = slots(sv->getOperand(0)->getType());
          for (int m : sv->getShuffleMask()) d.args.push_back(m);
        } else if (isa<LandingPadInst>(I)) {
          d.op = O_LANDING;
        } else if (isa<ResumeInst>(I)) {
          d.op = O_RESUME;
          d.a = opnd(I.getOperand(0));
        } else if (isa<FreezeInst>(I)) {
          d.op = O_COPY;
          d.a = opnd(I.getOperand(0));
        } else if (auto* ar = dyn_cast<AtomicRMWInst>(&I)) {
          d.op = O_ATOMICRMW;
          d.a = opnd(ar->getPointerOperand());
          d.b = opnd(ar->getValOperand());
          d.w = scalarW(T);
          d.sub = static_cast<uint16_t>(ar->getOperation());
        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
          d.op = O_CMPXCHG;
          d.a = opnd(cx->getPointerOperand());
          d.b = opnd(cx->getCompareOperand());
          d.c = opnd(cx->getNewValOperand());
          d.w = scalarW(cx->getCompareOperand()->getType());
        } else if (isa<FenceInst>(I)) {
          d.op = O_COPY;
          d.n = 0;
        } else {
          d.op = O_UNSUP;
        }
      } catch (Unsupported const& u) {
        d.op = O_UNSUP;
      }
      f->code.push_back(std::move(d));
    }
  }
  // functions encoded (by debug info, including inlined callees)
  for (auto& I : instructions(*F)) {
    for (const DILocation* l = I.getDebugLoc(); l; l = l->getInlinedAt()) {
      if (auto* sp = l->getScope()->getSubprogram()) {
        std::string fn = sp->getFilename().str();
        if (!sp->getDirectory().empty() && !fn.empty() && fn[0] != '/')
          fn = sp->getDirectory().str() + "/" + fn;
        if (fn.find(opt.srcPrefix) != std::string::npos) {
          auto p = fn.find(opt.srcPrefix);
          std::string nm = sp->getLinkageName().empty() ? sp->getName().str()
                                                        : llvm::demangle(sp->getLinkageName().str());
          if (nm.size() > 120) nm = nm.substr(0, 117) + "...";
          hitFuncs.insert(fn.substr(p + opt.srcPrefix.size()) + ": " + nm);
        }
      }
    }
  }
}

// ------------------------------------------------------------------ values
Val Engine::icmp(unsigned p, Val a, Val b, unsigned w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return bin(K_EQ, a, b, w);
    case CmpInst::ICMP_NE: return notV(bin(K_EQ, a, b, w));
    case CmpInst::ICMP_ULT: return bin(K_ULT, a, b, w);
    case CmpInst::ICMP_ULE: return bin(K_ULE, a, b, w);
    case CmpInst::ICMP_UGT: return bin(K_ULT, b, a, w);
    case CmpInst::ICMP_UGE: return bin(K_ULE, b, a, w);
    case CmpInst::ICMP_SLT: return bin(K_SLT, a, b, w);
    case CmpInst::ICMP_SLE: return bin(K_SLE, a, b, w);
    case CmpInst::ICMP_SGT: return bin(K_SLT, b, a, w);
    case CmpInst::ICMP_SGE: return bin(K_SLE, b, a, w);
    default: throw Unsupported{"icmp"};
  }
}
Val Engine::fcmp(unsigned p, Val a, Val b, unsigned w) {
  auto isnan = [&](Val x) { return fpUn(K_FISNAN, x, w, 1); };
  auto or_ = [&](Val x, Val y) { return bin(K_OR, x, y, 1); };
  auto uno = [&]() { return or_(isnan(a), isnan(b)); };
  auto cmp = [&](Kind k, Val x, Val y) {
    if (!x.e && !y.e) return V(eval_op(k, 1, w, 0, x.c, y.c, 0));
    return fromE(ctx.bin(k, toE(x, w), toE(y, w)));
  };
  switch (p) {
    case CmpInst::FCMP_FALSE: return V(0);
    case CmpInst::FCMP_TRUE: return V(1);
    case CmpInst::FCMP_OEQ: return cmp(K_FOEQ, a, b);
    case CmpInst::FCMP_OLT: return cmp(K_FOLT, a, b);
    case CmpInst::FCMP_OLE: return cmp(K_FOLE, a, b);
    case CmpInst::FCMP_OGT: return cmp(K_FOLT, b, a);
    case CmpInst::FCMP_OGE: return cmp(K_FOLE, b, a);
    case CmpInst::FCMP_ONE: return or_(cmp(K_FOLT, a, b), cmp(K_FOLT, b, a));
    case CmpInst::FCMP_ORD: return notV(uno());
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return notV(or_(cmp(K_FOLT, a, b), cmp(K_FOLT, b, a)));
    case CmpInst::FCMP_UNE: return notV(cmp(K_FOEQ, a, b));
    case CmpInst::FCMP_ULT: return notV(cmp(K_FOLE, b, a));
    case CmpInst::FCMP_ULE: return notV(cmp(K_FOLT, b, a));
    case CmpInst::FCMP_UGT: return notV(cmp(K_FOLE, a, b));
    case CmpInst::FCMP_UGE: return notV(cmp(K_FOLT, a, b));
    default: throw Unsupported{"fcmp"};
  }
}

// ------------------------------------------------------------------ memory
static MemEnt* findIn(std::vector<MemEnt>& v, u64 addr) {
  // last entry with base <= addr
  std::size_t lo = 0, hi = v.size();
  while (lo < hi) {
    std::size_t m = (lo + hi) / 2;
    if (v[m].base <= addr)
      lo = m + 1;
    else
      hi = m;
  }
  if (lo == 0) return nullptr;
  MemEnt* e = &v[lo - 1];
  if (!e->o.p) return nullptr;
  if (addr > e->base + e->o.p->size) return nullptr;
  return e;
}

Obj* Engine::find(State& s, u64 addr) {
  if (auto* e = findIn(s.mem, addr)) return e->o.p;
  if (auto* e = findIn(roMem, addr)) return e->o.p;
  return nullptr;
}

Obj* Engine::writable(State& s, Obj* o) {
  if (o->rc == 1) return o;
  MemEnt* e = findIn(s.mem, o->base);
  auto* n = new Obj(*o);
  n->rc = 0;
  e->o = ObjRef(n);
  return n;
}

u64 Engine::alloc(State& s, u64 size, uint8_t kind, unsigned align, bool zero) {
  if (align < 16) align = 16;
  u64 base = (s.next + align - 1) & ~static_cast<u64>(align - 1);
  auto* o = new Obj();
  o->base = base;
  o->size = size;
  o->kind = kind;
  o->data.assign(size, 0);
  if (!zero) o->init.assign(size, 0);
  s.mem.push_back({base, ObjRef(o)});
  s.next = base + size + 48;
  return base;
}

void Engine::freeObj(State& s, u64 base) {
  MemEnt* e = findIn(s.mem, base);
  if (!e) return;
  if (e == &s.mem.back()) {
    s.mem.pop_back();
    return;
  }
  e->o = ObjRef();
  if (++s.dead > 64 && s.dead > s.mem.size() / 2) {
    s.mem.erase(std::remove_if(s.mem.begin(), s.mem.end(),
                               [](MemEnt const& m) { return !m.o.p; }),
                s.mem.end());
    s.dead = 0;
  }
}

Val Engine::readBytes(State& s, Obj* o, u64 off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (!o->init.empty()) {
    bool all = true;
    for (unsigned i = 0; i < nb; ++i) all &= o->init[off + i] != 0;
    if (!all) {
      o = writable(s, o);
      if (o->sym.empty()) o->sym.assign(o->size, nullptr);
      for (unsigned i = 0; i < nb; ++i)
        if (!o->init[off + i]) {
          std::string nm = "uninit#" + std::to_string(s.uninit++);
          E e = ctx.sym(nm, 8);
          o->sym[off + i] = e;
          o->init[off + i] = 1;
          o->hasSym = true;
        }
    }
  }
  bool anySym = false;
  if (o->hasSym)
    for (unsigned i = 0; i < nb; ++i) anySym |= o->sym[off + i] != nullptr;
  if (!anySym) {
    if (w <= 64) {
      u64 v = 0;
      memcpy(&v, o->data.data() + off, nb);
      return V(v & maskw(w));
    }
    std::vector<u64> words((nb + 7) / 8, 0);
    memcpy(words.data(), o->data.data() + off, nb);
    return Val{0, ctx.cstbig(APInt(nb * 8, words).trunc(w))};
  }
  auto byte = [&](unsigned i) {
    return o->sym[off + i] ? o->sym[off + i] : ctx.cst(o->data[off + i], 8);
  };
  E r = byte(0);
  // fast path: all bytes consecutive extracts of one expression
  if (nb > 1) {
    E b0 = r;
    bool fast = b0->k == K_EXTRACT;
    if (fast) {
      for (unsigned i = 1; i < nb && fast; ++i) {
        E bi = o->sym[off + i];
        fast = bi && bi->k == K_EXTRACT && bi->a == b0->a &&
               bi->aux == b0->aux + 8 * i;
      }
    }
    if (fast)
      r = ctx.extract(b0->a, b0->aux, nb * 8);
    else {
      r = byte(nb - 1);
      for (int i = static_cast<int>(nb) - 2; i >= 0; --i)
        r = ctx.concat(r, byte(static_cast<unsigned>(i)));
    }
  }
  if (r->w > w) r = ctx.extract(r, 0, w);
  return fromE(r);
}

void Engine::writeBytes(State& s, Obj* o0, u64 off, unsigned w, Val v) {
  Obj* o = writable(s, o0);
  unsigned nb = (w + 7) / 8;
  if (!o->init.empty()) memset(o->init.data() + off, 1, nb);
  if (!v.e) {
    memcpy(o->data.data() + off, &v.c, nb);
    if (o->hasSym)
      for (unsigned i = 0; i < nb; ++i) o->sym[off + i] = nullptr;
    return;
  }
  E e = v.e;
  if (e->w < nb * 8) e = ctx.zext(e, nb * 8);
  if (e->k == K_CONST && !o->hasSym) {
    memcpy(o->data.data() + off, e->big->getRawData(), nb);
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  o->hasSym = true;
  for (unsigned i = 0; i < nb; ++i) {
    E b = ctx.extract(e, 8 * i, 8);
    if (b->k == K_CONST) {
      o->data[off + i] = static_cast<uint8_t>(b->v);
      o->sym[off + i] = nullptr;
    } else {
      o->sym[off + i] = b;
    }
  }
}

bool Engine::valueSet(E e, std::vector<u64>& out, std::size_t limit) {
  std::vector<u64> a, b;
  auto norm = [&]() {
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out.size() <= limit;
  };
  if (e->w > 64) return false;
  switch (e->k) {
    case K_CONST: out.push_back(e->v); return true;
    case K_ITE:
      if (!valueSet(e->b, a, limit) || !valueSet(e->c, b, limit)) return false;
      out = std::move(a);
      out.insert(out.end(), b.begin(), b.end());
      return norm();
    case K_ADD:
    case K_SUB:
    case K_MUL:
    case K_SHL:
    case K_OR:
    case K_CONCAT: {
      if (!valueSet(e->a, a, limit) || !valueSet(e->b, b, limit)) return false;
      if (a.size() * b.size() > limit * 4) return false;
      for (u64 x : a)
        for (u64 y : b)
          out.push_back(e->k == K_CONCAT ? (x << e->b->w) | y
                                         : eval_op(e->k, e->w, e->w, 0, x, y, 0));
      return norm();
    }
    case K_ZEXT:
    case K_SEXT:
    case K_EXTRACT: {
      if (e->k == K_EXTRACT && e->w <= 8 && (1u << e->w) <= limit &&
          !valueSet(e->a, a, limit)) {
        for (u64 x = 0; x < (1u << e->w); ++x) out.push_back(x);
        return true;
      }
      if (a.empty() && !valueSet(e->a, a, limit)) return false;
      for (u64 x : a) out.push_back(eval_op(e->k, e->w, e->a->w, e->aux, x, 0, 0));
      return norm();
    }
    default:
      if (e->w <= 8 && (1u << e->w) <= limit) {
        for (u64 x = 0; x < (1u << e->w); ++x) out.push_back(x);
        return true;
      }
      return false;
  }
}

E Engine::simp(State& s, E c) {
  if (s.eqs.empty() || c->k == K_CONST) return c;
  std::unordered_map<E, E> memo;
  return ctx.subst(c, s.eqs, memo);
}

Res Engine::sat(State& s, E c, Model* m) { return solver.check(s.pc, c, s.model, m); }

// add a constraint known to be consistent with s (model already satisfies it)
bool Engine::addC(State& s, E c) {
  if (c->k == K_CONST) return c->v;
  if (c->k == K_AND) {
    return addC(s, c->a) && addC(s, c->b);
  }
  for (E p : s.pc)
    if (p == c) return true;
  s.pc.push_back(c);
  if (c->k == K_EQ && c->b->k == K_CONST && c->a->k != K_CONST)
    s.eqs[c->a] = c->b;
  else if (c->w == 1) {
    if (c->k == K_XOR && c->b->k == K_CONST && c->b->v == 1)
      s.eqs[c->a] = ctx.f();
    else
      s.eqs[c] = ctx.t();
  }
  return true;
}

StateP Engine::clone(State& s) {
  ++st_.forks;
  return std::make_unique<State>(s);
}

bool Engine::branch(State& s, Val c, StateP& other) {
  other.reset();
  if (!c.e) return c.c;
  E e = simp(s, c.e);
  if (e->k == K_CONST) return e->v;
  bool v = ctx.eval(e, *s.model);
  E ne = ctx.not1(e);
  E q = v ? ne : e;
  Model m;
  Res r = sat(s, q, &m);
  if (r == Res::Unknown) throw Unsupported{"solver returned unknown on a branch"};
  if (r == Res::Sat) {
    other = clone(s);
    other->model = m;
    addC(*other, q);
    addC(s, v ? e : ne);
  }
  return v;
}

// cond(v): condition equivalent to e == v (default: just that)
bool Engine::forkValues(State& s, E e, std::size_t limit,
                        std::vector<std::pair<u64, Model>>& vals,
                        std::function<E(u64)> const& cond) {
  std::vector<u64> vs;
  if (!cond && valueSet(e, vs, limit) && vs.size() <= limit) {
    for (u64 v : vs) {
      Model m;
      Res r = sat(s, ctx.bin(K_EQ, e, ctx.cst(v, e->w)), &m);
      if (r == Res::Unknown) return false;
      if (r == Res::Sat) vals.emplace_back(v, m);
    }
    return true;
  }
  std::vector<E> pc = s.pc;
  Model m = s.model;
  for (;;) {
    u64 v = ctx.eval(e, *m);
    vals.emplace_back(v, m);
    if (vals.size() > limit) return false;
    E ne = ctx.not1(cond ? cond(v) : ctx.bin(K_EQ, e, ctx.cst(v, e->w)));
    if (ne->k == K_CONST && !ne->v) return true;
    pc.push_back(ne);
    Model m2;
    // the conjunction of exclusions is in pc; query the last one
    Res r = solver.check(pc, ne, nullptr, &m2);
    if (r == Res::Unknown) return false;
    if (r == Res::Unsat) return true;
    // merge: keep unrelated assignments from the state's model
    auto mm = std::make_shared<std::vector<u64>>(*s.model);
    // symbols related to the query were assigned in m2
    std::vector<u32> related = ctx.symsOf(e);
    bool ch = true;
    std::vector<char> used(pc.size(), 0);
    while (ch) {
      ch = false;
      for (std::size_t i = 0; i < pc.size(); ++i) {
        if (used[i]) continue;
        auto const& sy = ctx.symsOf(pc[i]);
        bool inter = false;
        for (auto x : sy)
          if (std::binary_search(related.begin(), related.end(), x)) {
            inter = true;
            break;
          }
        if (!inter) continue;
        used[i] = 1;
        std::vector<u32> u;
        std::set_union(related.begin(), related.end(), sy.begin(), sy.end(),
                       std::back_inserter(u));
        if (u.size() != related.size()) {
          related.swap(u);
          ch = true;
        }
      }
    }
    for (auto id : related) {
      if (mm->size() <= id) mm->resize(id + 1, 0);
      (*mm)[id] = id < m2->size() ? (*m2)[id] : 0;
    }
    m = mm;
  }
}

// makes v concrete in s, forking other states for the other feasible values.
// The forked states re-execute the current instruction.
bool Engine::concretize(State& s, Val& v, unsigned w, char const* what,
                        std::size_t limit) {
  if (!v.e) return true;
  E e = simp(s, v.e);
  if (e->k == K_CONST && e->w <= 64) {
    v = V(e->v);
    return true;
  }
  std::vector<std::pair<u64, Model>> vals;
  if (!forkValues(s, e, limit, vals))
    throw Unsupported{std::string("too many values while concretising ") + what};
  for (std::size_t i = 1; i < vals.size(); ++i) {
    auto n = clone(s);
    n->model = vals[i].second;
    addC(*n, ctx.bin(K_EQ, e, ctx.cst(vals[i].first, e->w)));
    n->eqs[v.e] = ctx.cst(vals[i].first, e->w);
    push(std::move(n));
  }
  s.model = vals[0].second;
  addC(s, ctx.bin(K_EQ, e, ctx.cst(vals[0].first, e->w)));
  s.eqs[v.e] = ctx.cst(vals[0].first, e->w);
  v = V(vals[0].first);
  return true;
}

// Splits the state by the quotient a / c (one path per quotient), described by
// the range a lies in rather than by a division. False: too many quotients.
bool Engine::forkQuotient(State& s, Kind k, E a, u64 c, unsigned w, u64& q) {
  bool const sg = k == K_SDIV || k == K_SREM;
  E const quot = ctx.bin(sg ? K_SDIV : K_UDIV, a, ctx.cst(c, w));
  E const known = simp(s, quot);
  if (known->k == K_CONST) {
    q = known->v;
    return true;
  }
  auto const in = [&](u64 v) {
    auto const C = [&](u64 x) { return ctx.cst(x & maskw(w), w); };
    if (!sg) {
      u64 const lo = v * c;
      u64 hi = lo + (c - 1);
      if (hi < lo || hi > maskw(w)) hi = maskw(w);
      return ctx.bin(K_AND, ctx.bin(K_ULE, C(lo), a), ctx.bin(K_ULE, a, C(hi)));
    }
    __int128 const cc = sx(c, w), qq = sx(v, w), m = cc < 0 ? -cc : cc;
    __int128 lo = qq * cc, hi = lo;  // the dividend has the sign of lo
    if (qq == 0) {
      lo = -(m - 1);
      hi = m - 1;
    } else if (lo > 0)
      hi = lo + (m - 1);
    else
      lo = hi - (m - 1);
    __int128 const mx = sx(maskw(w) >> 1, w), mn = -mx - 1;
    if (lo < mn) lo = mn;
    if (hi > mx) hi = mx;
    return ctx.bin(K_AND, ctx.bin(K_SLE, C(static_cast<u64>(lo)), a),
                   ctx.bin(K_SLE, a, C(static_cast<u64>(hi))));
  };
  std::vector<std::pair<u64, Model>> vals;
  if (!forkValues(s, quot, opt.forkDiv, vals, in)) return false;
  for (std::size_t i = 1; i < vals.size(); ++i) {
    auto n = clone(s);
    n->model = vals[i].second;
    addC(*n, in(vals[i].first));
    n->eqs[quot] = ctx.cst(vals[i].first, w);
    push(std::move(n));
  }
  s.model = vals[0].second;
  addC(s, in(vals[0].first));
  q = vals[0].first;
  s.eqs[quot] = ctx.cst(q, w);
  return true;
}

// On return either an object in which [addr, addr+size) lies for every value
// of addr under the (possibly strengthened) path condition, or null when the
// state is dead (violation reported).
Obj* Engine::resolve(State& s, Val addr, u64 size, bool write, char const* what) {
  u64 a = addr.c;
  E e = nullptr;
  if (addr.e) {
    e = simp(s, addr.e);
    if (e->k == K_CONST) {
      a = e->v;
      e = nullptr;
    } else {
      a = ctx.eval(e, *s.model);
    }
  }
  auto bad = [&](Obj* o, Model m) {
    char buf[200];
    snprintf(buf, sizeof buf, "invalid %s of %llu byte(s) at 0x%llx (%s)", what,
             static_cast<unsigned long long>(size),
             static_cast<unsigned long long>(a),
             o ? "outside its object" : (a < 4096 ? "null page" : "no live object"));
    violation(s, "memory", buf, m);
  };
  Obj* o = find(s, a);
  bool in = o && a >= o->base && a + size <= o->base + o->size && a + size >= a;
  if (in && write && o->kind == 3) in = false;
  if (!e) {
    if (!in) {
      bad(o, s.model);
      return nullptr;
    }
    return o;
  }
  if (!in) {
    bad(o, s.model);
    // continue with the in-bounds values of this state, if any: explore the
    // other values of the address
    return nullptr;
  }
  E lo = ctx.bin(K_ULE, ctx.cst(o->base, 64), e);
  E hi = ctx.bin(K_ULE, e, ctx.cst(o->base + o->size - size, 64));
  E inb = ctx.bin(K_AND, lo, hi);
  Model m;
  Res r = sat(s, ctx.not1(inb), &m);
  if (r == Res::Unknown) throw Unsupported{"solver unknown in address resolution"};
  if (r == Res::Sat) {
    auto n = clone(s);
    n->model = m;
    addC(*n, ctx.not1(inb));
    push(std::move(n));  // re-executes this instruction
    addC(s, inb);
  }
  return o;
}

bool Engine::offsets(State& s, E addr, Obj* o, u64 size, std::vector<u64>& out) {
  std::vector<u64> vs;
  if (valueSet(addr, vs, 4096)) {
    for (u64 v : vs)
      if (v >= o->base && v + size <= o->base + o->size) out.push_back(v - o->base);
    return !out.empty();
  }
  std::vector<std::pair<u64, Model>> vals;
  if (!forkValues(s, addr, 1024, vals))
    throw Unsupported{"too many candidate offsets for a symbolic address"};
  for (auto& p : vals) out.push_back(p.first - o->base);
  std::sort(out.begin(), out.end());
  return true;
}

Val Engine::load(State& s, Val addr, unsigned w, bool& ok) {
  u64 nb = (w + 7) / 8;
  Obj* o = resolve(s, addr, nb, false, "read");
  ok = o != nullptr;
  if (!o) return {};
  if (!addr.e) return readBytes(s, o, addr.c - o->base, w);
  E e = simp(s, addr.e);
  if (e->k == K_CONST) return readBytes(s, o, e->v - o->base, w);
  std::vector<u64> offs;
  offsets(s, e, o, nb, offs);
  u64 base = o->base;
  Val r;
  bool first = true;
  // group equal values
  for (std::size_t i = offs.size(); i-- > 0;) {
    o = find(s, base);
    Val v = readBytes(s, o, offs[i], w);
    if (first) {
      r = v;
      first = false;
    } else {
      r = iteV(fromE(ctx.bin(K_EQ, e, ctx.cst(base + offs[i], 64))), v, r, w);
    }
  }
  return r;
}

bool Engine::store(State& s, Val addr, unsigned w, Val v) {
  u64 nb = (w + 7) / 8;
  Obj* o = resolve(s, addr, nb, true, "write");
  if (!o) return false;
  if (!addr.e) {
    writeBytes(s, o, addr.c - o->base, w, v);
    return true;
  }
  E e = simp(s, addr.e);
  if (e->k == K_CONST) {
    writeBytes(s, o, e->v - o->base, w, v);
    return true;
  }
  std::vector<u64> offs;
  offsets(s, e, o, nb, offs);
  u64 base = o->base;
  std::vector<Val> nv;
  for (u64 off : offs) {
    o = find(s, base);
    Val old = readBytes(s, o, off, static_cast<unsigned>(nb * 8));
    Val x = w == nb * 8 ? v : zextV(v, w, static_cast<unsigned>(nb * 8));
    nv.push_back(iteV(fromE(ctx.bin(K_EQ, e, ctx.cst(base + off, 64))), x, old,
                      static_cast<unsigned>(nb * 8)));
    // overlapping candidates must be applied sequentially
    o = find(s, base);
    writeBytes(s, o, off, static_cast<unsigned>(nb * 8), nv.back());
  }
  return true;
}

// ------------------------------------------------------------------ reports
std::string Engine::where(State& s) {
  std::string r;
  int cnt = 0;
  for (std::size_t i = s.stack.size(); i-- > 0 && cnt < 6;) {
    auto& f = s.stack[i];
    if (f.pc < f.f->code.size()) {
      const Instruction* I = f.f->code[f.pc].I;
      for (const DILocation* l = I->getDebugLoc(); l && cnt < 6; l = l->getInlinedAt()) {
        if (!r.empty()) r += " < ";
        std::string fn = l->getFilename().str();
        r += fn + ":" + std::to_string(l->getLine());
        ++cnt;
      }
      if (!I->getDebugLoc()) {
        if (!r.empty()) r += " < ";
        r += f.f->name;
        ++cnt;
      }
    }
  }
  return r;
}

void Engine::violation(State& s, std::string kind, std::string msg, Model m) {
  if (concreteMode) {
    printf("CONCRETE-VIOLATION %s: %s at %s\n", kind.c_str(), msg.c_str(), where(s).c_str());
  }
  Violation v;
  v.entry = s.entry;
  v.kind = std::move(kind);
  v.msg = std::move(msg);
  v.loc = where(s);
  for (auto id : s.inputs) {
    v.inputs.push_back(id < m->size() ? (*m)[id] : 0);
    v.names.push_back(ctx.symtab[id].name);
  }
  for (auto const& o : viols)
    if (o.entry == v.entry && o.kind == v.kind && o.msg == v.msg && o.loc == v.loc) return;
  viols.push_back(std::move(v));
  if (sh) {
    if (sh->violations.fetch_add(1) + 1 >= opt.maxViol) sh->abortFlag.store(1);
  }
}

void Engine::uncaught(State& s, u64 ti, std::string const& loc, Model const& m) {
  Violation v;
  v.entry = s.entry;
  v.kind = "exception";
  v.msg = "uncaught exception of type " +
          llvm::demangle(addrName.count(ti) ? addrName[ti] : "?");
  v.loc = loc;
  for (auto id : s.inputs) {
    v.inputs.push_back(id < m->size() ? (*m)[id] : 0);
    v.names.push_back(ctx.symtab[id].name);
  }
  if (concreteMode) printf("CONCRETE-VIOLATION %s at %s\n", v.msg.c_str(), loc.c_str());
  for (auto const& x : viols)
    if (x.entry == v.entry && x.kind == v.kind && x.msg == v.msg && x.loc == v.loc) return;
  viols.push_back(v);
  if (sh && sh->violations.fetch_add(1) + 1 >= opt.maxViol) sh->abortFlag.store(1);
}

void Engine::finish(State& s) {
  ++st_.paths;
  for (auto const& l : s.reached) {
    reached.insert(l);
    ++labelCount[l];
  }
  PathSample p;
  p.entry = s.entry;
  for (auto id : s.inputs) p.inputs.push_back(id < s.model->size() ? (*s.model)[id] : 0);
  ctx.new_epoch();
  for (auto& o : s.obs) p.obs.push_back(o.e ? ctx.eval_in_epoch(o.e, *s.model) : o.c);
  if (samples.size() < opt.samples) {
    samples.push_back(std::move(p));
  } else {
    rnd ^= rnd << 13;
    rnd ^= rnd >> 7;
    rnd ^= rnd << 17;
    u64 k = rnd % st_.paths;
    if (k < samples.size()) samples[k] = std::move(p);
  }
}

// ------------------------------------------------------------------ control
void Engine::jump(Frame& f, Edge const& e) {
  if (e.copies.size() == 1 && e.copies[0][2] == 1) {
    f.regs[static_cast<u32>(e.copies[0][0])] = get(f, e.copies[0][1]);
  } else if (!e.copies.empty()) {
    Val tmp[64];
    std::vector<Val> big;
    std::size_t tot = 0;
    for (auto& c : e.copies) tot += static_cast<std::size_t>(c[2]);
    Val* t = tmp;
    if (tot > 64) {
      big.resize(tot);
      t = big.data();
    }
    std::size_t k = 0;
    for (auto& c : e.copies)
      for (i32 i = 0; i < c[2]; ++i) t[k++] = get(f, c[1], static_cast<u32>(i));
    k = 0;
    for (auto& c : e.copies)
      for (i32 i = 0; i < c[2]; ++i) f.regs[static_cast<u32>(c[0] + i)] = t[k++];
  }
  f.pc = e.target;
}

bool Engine::enter(State& s, Func* f, std::vector<Val> const& args, u32) {
  if (f->F->isDeclaration()) throw Unsupported{"call to external function " + f->name};
  decode(f);
  if (s.stack.size() >= opt.maxDepth) {
    violation(s, "recursion", "call depth limit exceeded (unbounded recursion?)", s.model);
    return false;
  }
  s.stack.emplace_back();
  Frame& n = s.stack.back();
  n.f = f;
  n.pc = 0;
  n.regs.resize(f->nregs);
  u32 fixed = f->argSlots.empty() ? 0 : 0;
  u32 total = 0;
  for (auto& A : f->F->args()) total += slots(A.getType());
  (void)fixed;
  for (u32 i = 0; i < total && i < args.size(); ++i) n.regs[i] = args[i];
  if (f->F->isVarArg())
    for (u32 i = total; i < args.size(); ++i) n.varargs.push_back(args[i]);
  // byval arguments: caller-made copies
  u32 slotI = 0;
  for (auto& A : f->F->args()) {
    if (A.hasByValAttr()) {
      u64 sz = DL->getTypeAllocSize(A.getParamByValType());
      u64 na = alloc(s, sz, 1, 16, false);
      Frame& n2 = s.stack.back();
      n2.allocas.push_back(na);
      Val src = n2.regs[slotI];
      if (src.e) throw Unsupported{"byval symbolic pointer"};
      Obj* so = find(s, src.c);
      if (!so) throw Unsupported{"byval bad pointer"};
      u64 off = src.c - so->base;
      Obj* d = writable(s, find(s, na));
      so = find(s, src.c);
      for (u64 i = 0; i < sz && off + i < so->size; ++i) {
        d->data[i] = so->data[off + i];
        d->init[i] = so->init.empty() ? 1 : so->init[off + i];
        if (so->hasSym && so->sym[off + i]) {
          if (d->sym.empty()) d->sym.assign(d->size, nullptr);
          d->hasSym = true;
          d->sym[i] = so->sym[off + i];
        }
      }
      s.stack.back().regs[slotI] = V(na);
    }
    slotI += slots(A.getType());
  }
  return true;
}

void Engine::popFrame(State& s) {
  for (auto it = s.stack.back().allocas.rbegin(); it != s.stack.back().allocas.rend(); ++it)
    freeObj(s, *it);
  s.stack.pop_back();
}

void Engine::ret(State& s, std::vector<Val> const& rv) {
  popFrame(s);
  if (s.stack.empty()) {
    s.done = true;
    return;
  }
  Frame& f = s.stack.back();
  DInst const& d = f.f->code[f.pc];
  if (d.dst >= 0)
    for (u32 i = 0; i < d.n && i < rv.size(); ++i) f.regs[static_cast<u32>(d.dst) + i] = rv[i];
  if (d.sub == 1)
    jump(f, d.e1);
  else
    ++f.pc;
}

void Engine::setRet(State& s, DInst const& d, Val v) {
  Frame& f = s.stack.back();
  if (d.dst >= 0) f.regs[static_cast<u32>(d.dst)] = v;
  if (d.sub == 1)
    jump(f, d.e1);
  else
    ++f.pc;
}

bool Engine::derives(u64 ti, u64 base) {
  if (ti == base) return true;
  auto it = tiBases.find(ti);
  if (it != tiBases.end())
    for (u64 b : it->second)
      if (derives(b, base)) return true;
  return false;
}

u64 Engine::tinfoOf(State& s, u64 obj) {
  for (auto it = s.exns.rbegin(); it != s.exns.rend(); ++it)
    if (it->obj == obj) return it->tinfo;
  return 0;
}

i64 Engine::matchClauses(State&, const LandingPadInst* lp, u64 tinfo, bool& ok) {
  ok = lp->isCleanup();
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    const Constant* c = lp->getClause(i);
    if (lp->isCatch(i)) {
      u64 ti = isa<ConstantPointerNull>(c) ? 0 : constAddr(c);
      if (ti == 0) {
        ok = true;
        return 1;  // catch-all: selector value irrelevant but non-zero
      }
      if (derives(tinfo, ti)) {
        ok = true;
        auto it = typeIds.emplace(ti, typeIds.size() + 2).first;
        return static_cast<i64>(it->second);
      }
    } else {
      ok = true;
      return -1;
    }
  }
  return 0;
}

bool Engine::throwExn(State& s, u64 obj) {
  u64 ti = tinfoOf(s, obj);
  while (!s.stack.empty()) {
    Frame& f = s.stack.back();
    DInst const& d = f.f->code[f.pc];
    if (d.op == O_CALL && d.sub == 1) {
      auto* inv = cast<InvokeInst>(d.I);
      auto* lp = inv->getUnwindDest()->getLandingPadInst();
      bool ok = false;
      i64 sel = matchClauses(s, lp, ti, ok);
      if (ok) {
        jump(f, d.e2);
        s.pendObj = obj;
        s.pendSel = sel;
        return true;
      }
    }
    popFrame(s);
  }
  return false;
}

std::string Engine::readCStr(State& s, u64 a) {
  std::string r;
  for (int i = 0; i < 300; ++i) {
    Obj* o = find(s, a + static_cast<u64>(i));
    if (!o || a + static_cast<u64>(i) >= o->base + o->size) break;
    u64 off = a + static_cast<u64>(i) - o->base;
    if (o->hasSym && o->sym[off]) {
      r += '?';
      continue;
    }
    if (!o->data[off]) break;
    r += static_cast<char>(o->data[off]);
  }
  return r;
}

bool Engine::memCopy(State& s, Val d, Val sv, Val n, DInst const&) {
  concretize(s, n, 64, "memcpy length");
  if (n.c == 0) return true;
  concretize(s, d, 64, "memcpy destination");
  concretize(s, sv, 64, "memcpy source");
  Obj* so = resolve(s, sv, n.c, false, "read");
  if (!so) return false;
  Obj* dob = resolve(s, d, n.c, true, "write");
  if (!dob) return false;
  u64 so_off = sv.c - so->base, d_off = d.c - dob->base;
  dob = writable(s, dob);
  so = find(s, sv.c);
  std::vector<uint8_t> tmp(so->data.begin() + static_cast<long>(so_off),
                           so->data.begin() + static_cast<long>(so_off + n.c));
  std::vector<E> ts;
  if (so->hasSym)
    ts.assign(so->sym.begin() + static_cast<long>(so_off),
              so->sym.begin() + static_cast<long>(so_off + n.c));
  std::vector<uint8_t> ti;
  if (!so->init.empty())
    ti.assign(so->init.begin() + static_cast<long>(so_off),
              so->init.begin() + static_cast<long>(so_off + n.c));
  memcpy(dob->data.data() + d_off, tmp.data(), n.c);
  bool any = false;
  for (E e : ts) any |= e != nullptr;
  if (any && dob->sym.empty()) dob->sym.assign(dob->size, nullptr);
  if (any) dob->hasSym = true;
  if (dob->hasSym)
    for (u64 i = 0; i < n.c; ++i) dob->sym[d_off + i] = ts.empty() ? nullptr : ts[i];
  if (!ti.empty()) {
    if (dob->init.empty()) {
      bool all = true;
      for (auto x : ti) all &= x != 0;
      if (!all) dob->init.assign(dob->size, 1);
    }
    if (!dob->init.empty()) memcpy(dob->init.data() + d_off, ti.data(), n.c);
  } else if (!dob->init.empty()) {
    memset(dob->init.data() + d_off, 1, n.c);
  }
  return true;
}

bool Engine::memSet(State& s, Val d, Val v, Val n, DInst const&) {
  concretize(s, n, 64, "memset length");
  if (n.c == 0) return true;
  concretize(s, d, 64, "memset destination");
  Obj* dob = resolve(s, d, n.c, true, "write");
  if (!dob) return false;
  u64 off = d.c - dob->base;
  dob = writable(s, dob);
  if (!v.e) {
    memset(dob->data.data() + off, static_cast<int>(v.c & 255), n.c);
    if (dob->hasSym)
      for (u64 i = 0; i < n.c; ++i) dob->sym[off + i] = nullptr;
    if (!dob->init.empty()) memset(dob->init.data() + off, 1, n.c);
  } else {
    for (u64 i = 0; i < n.c; ++i) {
      writeBytes(s, dob, off + i, 8, v);
      dob = find(s, d.c);
    }
  }
  return true;
}

// ------------------------------------------------------------------ builtins
enum Builtin {
  B_NONE = -1,
  B_SYM_MAKE,
  B_ASSUME,
  B_ASSERT,
  B_REACH,
  B_OBSERVE,
  B_FORK,
  B_ISSYM,
  B_MALLOC,
  B_CALLOC,
  B_REALLOC,
  B_FREE,
  B_NEW,
  B_NEWALIGN,
  B_DELETE,
  B_MEMCPY,
  B_MEMSET,
  B_MEMCMP,
  B_NOP,
  B_RET0,
  B_ABORT,
  B_TERMINATE,
  B_CXA_ALLOC,
  B_CXA_THROW,
  B_CXA_BEGIN,
  B_CXA_END,
  B_CXA_RETHROW,
  B_CXA_FREE,
  B_CUREXC,
  B_RETHROWPTR,
  B_EPTR_COPY,
  B_GUARD_ACQ,
  B_GUARD_REL,
  B_MATH1,
  B_MATH2,
  B_FABS,
  B_PUREVIRT,
  B_EMPTYSTR,
  B_UNCAUGHT,
  B_EXIT,
  B_DYNCAST,
  B_RETARG0
};

int Engine::builtinOf(std::string const& n) {
  if (builtinIdx.empty()) {
    auto& m = builtinIdx;
    m["sym_make"] = B_SYM_MAKE;
    m["sym_assume"] = B_ASSUME;
    m["sym_check"] = B_ASSERT;
    m["sym_reach"] = B_REACH;
    m["sym_observe"] = B_OBSERVE;
    m["sym_fork"] = B_FORK;
    m["sym_is_symbolic"] = B_ISSYM;
    m["malloc"] = B_MALLOC;
    m["calloc"] = B_CALLOC;
    m["realloc"] = B_REALLOC;
    m["free"] = B_FREE;
    m["_Znwm"] = m["_Znam"] = B_NEW;
    m["_ZnwmRKSt9nothrow_t"] = m["_ZnamRKSt9nothrow_t"] = B_NEW;
    m["_ZnwmSt11align_val_t"] = m["_ZnamSt11align_val_t"] = B_NEWALIGN;
    for (auto* x : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t",
                    "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t",
                    "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"})
      m[x] = B_DELETE;
    m["memcpy"] = m["memmove"] = B_MEMCPY;
    m["memset"] = B_MEMSET;
    m["memcmp"] = m["bcmp"] = B_MEMCMP;
    for (auto* x : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_free_exception_nop",
                    "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv",
                    "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv",
                    "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev"})
      m[x] = B_NOP;
    for (auto* x : {"__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock",
                    "pthread_mutex_init", "pthread_mutex_destroy", "puts", "putchar", "printf", "fprintf", "fflush",
                    "__cxa_thread_atexit"})
      m[x] = B_RET0;
    m["abort"] = B_ABORT;
    m["__assert_fail"] = B_ABORT;
    m["_ZSt9terminatev"] = B_TERMINATE;
    m["__cxa_allocate_exception"] = B_CXA_ALLOC;
    m["__cxa_throw"] = B_CXA_THROW;
    m["__cxa_begin_catch"] = B_CXA_BEGIN;
    m["__cxa_get_exception_ptr"] = B_RETARG0;
    m["__cxa_end_catch"] = B_CXA_END;
    m["__cxa_rethrow"] = B_CXA_RETHROW;
    m["__cxa_free_exception"] = B_CXA_FREE;
    m["_ZSt17current_exceptionv"] = B_CUREXC;
    m["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = B_RETHROWPTR;
    m["_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"] = B_EPTR_COPY;
    m["_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"] = B_EPTR_COPY;
    m["_ZNSt15__exception_ptr13exception_ptrD1Ev"] = B_NOP;
    m["__cxa_guard_acquire"] = B_GUARD_ACQ;
    m["__cxa_guard_release"] = B_GUARD_REL;
    m["__cxa_guard_abort"] = B_NOP;
    m["__cxa_pure_virtual"] = B_PUREVIRT;
    m["exit"] = B_EXIT;
    m["_ZSt19uncaught_exceptionsv"] = B_UNCAUGHT;
    for (auto* x : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log2", "log10",
                    "sqrt", "floor", "ceil", "round", "trunc", "nearbyint", "rint", "cbrt", "exp2"})
      m[x] = B_MATH1;
    for (auto* x : {"pow", "atan2", "fmod", "fmax", "fmin", "hypot", "copysign"}) m[x] = B_MATH2;
    m["fabs"] = B_FABS;
  }
  auto it = builtinIdx.find(n);
  if (it != builtinIdx.end()) return it->second;
  if (n.starts_with("_ZN3fmt2v97vformat")) return builtinIdx[n] = B_EMPTYSTR;
  if (n.starts_with("__gthrw_")) return builtinIdx[n] = B_RET0;
  return B_NONE;
}

bool Engine::doBuiltin(State& s, DInst const& d, int b) {
  Frame& f = s.stack.back();
  auto arg = [&](std::size_t i) { return get(f, d.args.at(i)); };
  switch (b) {
    case B_SYM_MAKE: {  // (char const* name, unsigned bits)
      Val nm = arg(0), w = arg(1);
      std::string name = readCStr(s, nm.c);
      u32 k = s.symcount[name]++;
      if (k) name += "#" + std::to_string(k);
      E e = ctx.sym(name, static_cast<unsigned>(w.c));
      s.inputs.push_back(static_cast<u32>(e->v));
      if (concreteMode) {
        u64 v = concretePos < concreteInputs.size() ? concreteInputs[concretePos] : 0;
        ++concretePos;
        setRet(s, d, V(v & maskw(static_cast<unsigned>(w.c))));
      } else {
        setRet(s, d, zextV(Val{0, e}, static_cast<unsigned>(w.c), 64));
      }
      return true;
    }
    case B_ASSUME: {
      Val c = arg(0);
      if (c.e && c.e->w > 1) c = notV(fromE(ctx.bin(K_EQ, c.e, ctx.cst(0, c.e->w))));
      if (!c.e) {
        if (!(c.c & 1) && c.c == 0) {
          ++st_.killed;
          return false;
        }
        setRet(s, d, V(0));
        return true;
      }
      E e = simp(s, c.e);
      if (e->k == K_CONST) {
        if (!e->v) {
          ++st_.killed;
          return false;
        }
        setRet(s, d, V(0));
        return true;
      }
      Model m;
      Res r = sat(s, e, &m);
      if (r == Res::Unknown) throw Unsupported{"solver unknown in assume"};
      if (r == Res::Unsat) {
        ++st_.killed;
        return false;
      }
      s.model = m;
      addC(s, e);
      setRet(s, d, V(0));
      return true;
    }
    case B_ASSERT: {
      Val c = arg(0);
      Val mp = arg(1);
      concretize(s, mp, 64, "message", 64);
      std::string msg = readCStr(s, mp.c);
      ++st_.asserts;
      if (c.e && c.e->w > 1) c = notV(fromE(ctx.bin(K_EQ, c.e, ctx.cst(0, c.e->w))));
      if (!c.e) {
        if (c.c == 0) {
          violation(s, "assert", msg, s.model);
          return false;
        }
        setRet(s, d, V(0));
        return true;
      }
      E e = simp(s, c.e);
      if (e->k == K_CONST) {
        if (!e->v) {
          violation(s, "assert", msg, s.model);
          return false;
        }
        setRet(s, d, V(0));
        return true;
      }
      ++st_.assertQueries;
      Model m;
      Res r = sat(s, ctx.not1(e), &m);
      if (r == Res::Unknown) throw Unsupported{"solver unknown on assertion '" + msg + "'"};
      if (r == Res::Sat) {
        violation(s, "assert", msg, m);
        Model m2;
        if (sat(s, e, &m2) != Res::Sat) return false;
        s.model = m2;
        addC(s, e);
      }
      setRet(s, d, V(0));
      return true;
    }
    case B_REACH: {
      Val lp = arg(0);
      concretize(s, lp, 64, "label", 64);
      s.reached.insert(readCStr(s, lp.c));
      setRet(s, d, V(0));
      return true;
    }
    case B_OBSERVE: {
      s.obs.push_back(arg(0));
      setRet(s, d, V(0));
      return true;
    }
    case B_FORK: {
      Val v = arg(0);
      concretize(s, v, 64, "sym_fork", 70000);
      setRet(s, d, v);
      return true;
    }
    case B_ISSYM: setRet(s, d, V(arg(0).e ? 1 : 0)); return true;
    case B_MALLOC:
    case B_NEW:
    case B_NEWALIGN: {
      Val n = arg(0);
      unsigned al = 16;
      if (b == B_NEWALIGN) {
        Val a = arg(1);
        al = static_cast<unsigned>(a.c);
      }
      if (n.e) {
        E e = simp(s, n.e);
        n = fromE(e);
      }
      // huge allocation
      if (!n.e ? n.c > (1ULL << 26) : ctx.eval(n.e, *s.model) > (1ULL << 26)) {
        if (b == B_MALLOC) {
          if (n.e) concretize(s, n, 64, "malloc size");
          setRet(s, d, V(0));
          return true;
        }
        violation(s, "alloc", "allocation of an absurd size (std::bad_alloc/length_error)", s.model);
        return false;
      }
      concretize(s, n, 64, "allocation size");
      if (n.c > (1ULL << 26)) {
        violation(s, "alloc", "allocation of an absurd size (std::bad_alloc/length_error)", s.model);
        return false;
      }
      u64 a = alloc(s, n.c, 2, al, false);
      setRet(s, d, V(a));
      return true;
    }
    case B_CALLOC: {
      Val n = arg(0), m = arg(1);
      concretize(s, n, 64, "calloc");
      concretize(s, m, 64, "calloc");
      setRet(s, d, V(alloc(s, n.c * m.c, 2, 16, true)));
      return true;
    }
    case B_REALLOC: {
      Val p = arg(0), n = arg(1);
      concretize(s, p, 64, "realloc");
      concretize(s, n, 64, "realloc");
      u64 a = alloc(s, n.c, 2, 16, false);
      if (p.c) {
        Obj* o = find(s, p.c);
        if (!o) {
          violation(s, "memory", "realloc of invalid pointer", s.model);
          return false;
        }
        u64 k = std::min(o->size, n.c);
        if (!memCopy(s, V(a), p, V(k), d)) return false;
        freeObj(s, p.c);
      }
      setRet(s, d, V(a));
      return true;
    }
    case B_FREE:
    case B_DELETE: {
      Val p = arg(0);
      concretize(s, p, 64, "free");
      if (p.c) {
        MemEnt* e = findIn(s.mem, p.c);
        if (!e || e->base != p.c || e->o.p->kind != 2) {
          violation(s, "memory", "free of an invalid or already freed pointer", s.model);
          return false;
        }
        freeObj(s, p.c);
      }
      setRet(s, d, V(0));
      return true;
    }
    case B_MEMCPY:
      if (!memCopy(s, arg(0), arg(1), arg(2), d)) return false;
      setRet(s, d, get(s.stack.back(), d.args[0]));
      return true;
    case B_MEMSET: {
      Val v = arg(1);
      if (v.e)
        v = truncV(v, v.e->w, 8);
      else
        v.c &= 255;
      if (!memSet(s, arg(0), v, arg(2), d)) return false;
      setRet(s, d, get(s.stack.back(), d.args[0]));
      return true;
    }
    case B_MEMCMP: {
      Val n = arg(2), p = arg(0), q = arg(1);
      concretize(s, n, 64, "memcmp length");
      if (n.c == 0) {
        setRet(s, d, V(0));
        return true;
      }
      concretize(s, p, 64, "memcmp");
      concretize(s, q, 64, "memcmp");
      Obj* o1 = resolve(s, p, n.c, false, "read");
      if (!o1) return false;
      Obj* o2 = resolve(s, q, n.c, false, "read");
      if (!o2) return false;
      Val r = V(0);
      for (u64 i = n.c; i-- > 0;) {
        Val x = readBytes(s, find(s, p.c), p.c + i - o1->base, 8);
        o2 = find(s, q.c);
        Val y = readBytes(s, o2, q.c + i - o2->base, 8);
        o1 = find(s, p.c);
        Val eq = bin(K_EQ, x, y, 8);
        Val lt = bin(K_ULT, x, y, 8);
        r = iteV(eq, r, iteV(lt, V(0xffffffff), V(1), 32), 32);
      }
      setRet(s, d, r);
      return true;
    }
    case B_NOP:
    case B_RET0: setRet(s, d, V(0)); return true;
    case B_RETARG0: setRet(s, d, arg(0)); return true;
    case B_ABORT: violation(s, "abort", "abort() called", s.model); return false;
    case B_EXIT: violation(s, "abort", "exit() called", s.model); return false;
    case B_TERMINATE: violation(s, "terminate", "std::terminate() called", s.model); return false;
    case B_PUREVIRT: violation(s, "abort", "pure virtual call", s.model); return false;
    case B_CXA_ALLOC: {
      Val n = arg(0);
      u64 a = alloc(s, n.c, 2, 16, false);
      setRet(s, d, V(a));
      return true;
    }
    case B_CXA_FREE: setRet(s, d, V(0)); return true;
    case B_CXA_THROW: {
      u64 o = arg(0).c, ti = arg(1).c;
      s.exns.push_back({o, ti});
      std::string loc = where(s);
      State snapshot;
      snapshot.inputs = s.inputs;
      Model m = s.model;
      if (!throwExn(s, o)) {
        uncaught(s, ti, loc, m);
        return false;
      }
      return true;
    }
    case B_CXA_BEGIN: {
      u64 o = arg(0).c;
      s.caught.push_back({o, tinfoOf(s, o)});
      setRet(s, d, V(o));
      return true;
    }
    case B_CXA_END: {
      if (!s.caught.empty()) s.caught.pop_back();
      setRet(s, d, V(0));
      return true;
    }
    case B_CXA_RETHROW: {
      if (s.caught.empty()) {
        violation(s, "terminate", "rethrow without exception", s.model);
        return false;
      }
      u64 o = s.caught.back().obj;
      if (!throwExn(s, o)) {
        uncaught(s, tinfoOf(s, o), "rethrow", s.model);
        return false;
      }
      return true;
    }
    case B_CUREXC: {
      u64 o = s.caught.empty() ? 0 : s.caught.back().obj;
      if (!store(s, arg(0), 64, V(o))) return false;
      setRet(s, d, V(0));
      return true;
    }
    case B_EPTR_COPY: {
      bool ok = true;
      Val v = load(s, arg(1), 64, ok);
      if (!ok || !store(s, arg(0), 64, v)) return false;
      setRet(s, d, V(0));
      return true;
    }
    case B_RETHROWPTR: {
      bool ok = true;
      Val v = load(s, arg(0), 64, ok);
      if (!ok) return false;
      if (!throwExn(s, v.c)) {
        uncaught(s, tinfoOf(s, v.c), "rethrow_exception", s.model);
        return false;
      }
      return true;
    }
    case B_GUARD_ACQ: {
      bool ok = true;
      Val v = load(s, arg(0), 8, ok);
      if (!ok) return false;
      setRet(s, d, V(v.c == 0 ? 1 : 0));
      return true;
    }
    case B_GUARD_REL: {
      if (!store(s, arg(0), 8, V(1))) return false;
      setRet(s, d, V(0));
      return true;
    }
    case B_UNCAUGHT: setRet(s, d, V(0)); return true;
    case B_FABS: {
      Val a = arg(0);
      setRet(s, d, bin(K_AND, a, V(0x7fffffffffffffffULL), 64));
      return true;
    }
    case B_MATH1: {
      std::string const& n = static_cast<Func*>(d.callee)->name;
      Val a = arg(0);
      if (n == "floor" || n == "ceil" || n == "round" || n == "trunc" || n == "nearbyint" || n == "rint") {
        u32 aux = n == "floor" ? 2 : n == "ceil" ? 3 : n == "round" ? 1 : n == "trunc" ? 4 : 0;
        setRet(s, d, fpUn(K_FRINT, a, 64, 64, aux));
        return true;
      }
      if (n == "sqrt") {
        setRet(s, d, fpUn(K_FSQRT, a, 64, 64));
        return true;
      }
      if (a.e) throw Unsupported{"symbolic argument of " + n};
      double x = as_d(a.c), r = 0;
      if (n == "sin") r = std::sin(x);
      else if (n == "cos") r = std::cos(x);
      else if (n == "tan") r = std::tan(x);
      else if (n == "asin") r = std::asin(x);
      else if (n == "acos") r = std::acos(x);
      else if (n == "atan") r = std::atan(x);
      else if (n == "exp") r = std::exp(x);
      else if (n == "exp2") r = std::exp2(x);
      else if (n == "log") r = std::log(x);
      else if (n == "log2") r = std::log2(x);
      else if (n == "log10") r = std::log10(x);
      else if (n == "cbrt") r = std::cbrt(x);
      setRet(s, d, V(of_d(r)));
      return true;
    }
    case B_MATH2: {
      std::string const& n = static_cast<Func*>(d.callee)->name;
      Val a = arg(0), c = arg(1);
      if (a.e || c.e) throw Unsupported{"symbolic argument of " + n};
      double x = as_d(a.c), y = as_d(c.c), r = 0;
      if (n == "pow") r = std::pow(x, y);
      else if (n == "atan2") r = std::atan2(x, y);
      else if (n == "fmod") r = std::fmod(x, y);
      else if (n == "fmax") r = std::fmax(x, y);
      else if (n == "fmin") r = std::fmin(x, y);
      else if (n == "hypot") r = std::hypot(x, y);
      else if (n == "copysign") r = std::copysign(x, y);
      setRet(s, d, V(of_d(r)));
      return true;
    }
    case B_EMPTYSTR: {
      // std::string returned via sret: { char* p; size_t n; char buf[16] }
      Val p = arg(0);
      if (p.e) throw Unsupported{"symbolic sret"};
      if (!store(s, p, 64, V(p.c + 16)) || !store(s, V(p.c + 8), 64, V(0)) ||
          !store(s, V(p.c + 16), 8, V(0)))
        return false;
      setRet(s, d, V(0));
      return true;
    }
    default: throw Unsupported{"builtin"};
  }
}

bool Engine::doIntrinsic(State& s, DInst const& d, unsigned id) {
  Frame& f = s.stack.back();
  auto const* ci = cast<CallBase>(d.I);
  Type* T = ci->getType();
  auto sw = [&](Type* t) -> unsigned {
    Type* e = t->getScalarType();
    return e->isPointerTy() ? 64 : static_cast<unsigned>(e->getPrimitiveSizeInBits());
  };
  unsigned w = T->isVoidTy() || T->isAggregateType() ? 0 : sw(T);
  auto arg = [&](std::size_t i) { return get(f, d.args.at(i)); };
  auto lanes1 = [&](auto fn) {
    u32 n = d.n;
    std::vector<Val> r;
    for (u32 i = 0; i < n; ++i) r.push_back(fn(get(f, d.args[i])));
    for (u32 i = 0; i < n; ++i) f.regs[static_cast<u32>(d.dst) + i] = r[i];
    if (d.sub == 1) jump(f, d.e1); else ++f.pc;
    return true;
  };
  auto lanes2 = [&](auto fn) {
    u32 n = d.n;
    std::vector<Val> r;
    for (u32 i = 0; i < n; ++i) r.push_back(fn(get(f, d.args[i]), get(f, d.args[n + i])));
    for (u32 i = 0; i < n; ++i) f.regs[static_cast<u32>(d.dst) + i] = r[i];
    if (d.sub == 1) jump(f, d.e1); else ++f.pc;
    return true;
  };
  switch (id) {
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      if (!memCopy(s, arg(0), arg(1), arg(2), d)) return false;
      setRet(s, d, V(0));
      return true;
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline: {
      if (!memSet(s, arg(0), arg(1), arg(2), d)) return false;
      setRet(s, d, V(0));
      return true;
    }
    case Intrinsic::umin: return lanes2([&](Val a, Val b) { return iteV(bin(K_ULT, a, b, w), a, b, w); });
    case Intrinsic::umax: return lanes2([&](Val a, Val b) { return iteV(bin(K_ULT, a, b, w), b, a, w); });
    case Intrinsic::smin: return lanes2([&](Val a, Val b) { return iteV(bin(K_SLT, a, b, w), a, b, w); });
    case Intrinsic::smax: return lanes2([&](Val a, Val b) { return iteV(bin(K_SLT, a, b, w), b, a, w); });
    case Intrinsic::abs: {
      Val a = arg(0);
      if (d.n != 1) throw Unsupported{"vector abs"};
      setRet(s, d, iteV(bin(K_SLT, a, V(0), w), bin(K_SUB, V(0), a, w), a, w));
      return true;
    }
    case Intrinsic::ctpop:
      return lanes1([&](Val a) {
        if (!a.e) return V(static_cast<u64>(std::popcount(a.c)));
        Val r = V(0);
        E e = a.e;
        if (e->w > 64) throw Unsupported{"wide ctpop"};
        for (unsigned i = 0; i < w; ++i)
          r = bin(K_ADD, r, zextV(fromE(ctx.extract(e, i, 1)), 1, w), w);
        return r;
      });
    case Intrinsic::cttz:
    case Intrinsic::ctlz: {
      Val a = arg(0);
      if (d.n != 1) throw Unsupported{"vector ctz"};
      Val r;
      if (w > 64) throw Unsupported{"wide ctz"};
      if (!a.e) {
        if (id == Intrinsic::cttz)
          r = V(a.c == 0 ? w : static_cast<u64>(std::countr_zero(a.c)));
        else
          r = V(a.c == 0 ? w : static_cast<u64>(std::countl_zero(a.c)) - (64 - w));
      } else {
        r = V(w);
        for (unsigned k = w; k-- > 0;) {
          unsigned bit = id == Intrinsic::cttz ? k : w - 1 - k;
          unsigned res = id == Intrinsic::cttz ? bit : k;
          (void)res;
          r = iteV(fromE(ctx.extract(a.e, bit, 1)), V(k), r, w);
        }
      }
      setRet(s, d, r);
      return true;
    }
    case Intrinsic::bswap: {
      Val a = arg(0);
      if (!a.e && w <= 64) {
        setRet(s, d, V(__builtin_bswap64(a.c) >> (64 - w)));
        return true;
      }
      E e = toE(a, w);
      E r = ctx.extract(e, 0, 8);
      for (unsigned i = 1; i < w / 8; ++i) r = ctx.concat(r, ctx.extract(e, 8 * i, 8));
      setRet(s, d, fromE(r));
      return true;
    }
    case Intrinsic::bitreverse: {
      Val a = arg(0);
      E e = toE(a, w);
      E r = ctx.extract(e, 0, 1);
      for (unsigned i = 1; i < w; ++i) r = ctx.concat(r, ctx.extract(e, i, 1));
      setRet(s, d, fromE(r));
      return true;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      if (d.n != 1) throw Unsupported{"vector fsh"};
      Val a = arg(0), b = arg(1), c = arg(2);
      if (w > 64) throw Unsupported{"wide fsh"};
      Val cm = bin(K_UREM, c, V(w), w);
      Val inv = bin(K_SUB, V(w), cm, w);
      Val r;
      if (id == Intrinsic::fshl)
        r = bin(K_OR, bin(K_SHL, a, cm, w), bin(K_LSHR, b, inv, w), w);
      else
        r = bin(K_OR, bin(K_SHL, a, inv, w), bin(K_LSHR, b, cm, w), w);
      setRet(s, d, r);
      return true;
    }
    case Intrinsic::uadd_sat:
      return lanes2([&](Val a, Val b) {
        Val r = bin(K_ADD, a, b, w);
        return iteV(bin(K_ULT, r, a, w), V(maskw(w)), r, w);
      });
    case Intrinsic::usub_sat:
      return lanes2([&](Val a, Val b) {
        return iteV(bin(K_ULT, a, b, w), V(0), bin(K_SUB, a, b, w), w);
      });
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow: {
      unsigned ow = sw(ci->getArgOperand(0)->getType());
      Val a = arg(0), b = arg(1), r, o;
      switch (id) {
        case Intrinsic::uadd_with_overflow:
          r = bin(K_ADD, a, b, ow);
          o = bin(K_ULT, r, a, ow);
          break;
        case Intrinsic::usub_with_overflow:
          r = bin(K_SUB, a, b, ow);
          o = bin(K_ULT, a, b, ow);
          break;
        default: {
          bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow ||
                    id == Intrinsic::smul_with_overflow;
          unsigned ew = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow
                            ? ow * 2 : ow + 1;
          Kind k = id == Intrinsic::sadd_with_overflow   ? K_ADD
                   : id == Intrinsic::ssub_with_overflow ? K_SUB
                                                         : K_MUL;
          E ea = sg ? ctx.sext(toE(a, ow), ew) : ctx.zext(toE(a, ow), ew);
          E eb = sg ? ctx.sext(toE(b, ow), ew) : ctx.zext(toE(b, ow), ew);
          E er = ctx.bin(k, ea, eb);
          E tr = ctx.extract(er, 0, ow);
          E back = sg ? ctx.sext(tr, ew) : ctx.zext(tr, ew);
          r = fromE(tr);
          o = notV(fromE(ctx.bin(K_EQ, back, er)));
        }
      }
      f.regs[static_cast<u32>(d.dst)] = r;
      f.regs[static_cast<u32>(d.dst) + 1] = o;
      if (d.sub == 1) jump(f, d.e1); else ++f.pc;
      return true;
    }
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::ssa_copy:
    case Intrinsic::threadlocal_address: setRet(s, d, arg(0)); return true;
    case Intrinsic::objectsize: setRet(s, d, V(maskw(w))); return true;
    case Intrinsic::is_constant: setRet(s, d, V(0)); return true;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap:
    case Intrinsic::debugtrap:
      violation(s, "trap", "trap instruction reached", s.model);
      return false;
    case Intrinsic::eh_typeid_for: {
      u64 ti = arg(0).c;
      auto it = typeIds.emplace(ti, typeIds.size() + 2).first;
      setRet(s, d, V(it->second));
      return true;
    }
    case Intrinsic::stacksave: setRet(s, d, V(0)); return true;
    case Intrinsic::stackrestore: setRet(s, d, V(0)); return true;
    case Intrinsic::fabs:
      return lanes1([&](Val a) { return bin(K_AND, a, V(maskw(w) >> 1), w); });
    case Intrinsic::copysign:
      return lanes2([&](Val a, Val b) {
        return bin(K_OR, bin(K_AND, a, V(maskw(w) >> 1), w),
                   bin(K_AND, b, V(1ULL << (w - 1)), w), w);
      });
    case Intrinsic::sqrt: return lanes1([&](Val a) { return fpUn(K_FSQRT, a, w, w); });
    case Intrinsic::floor: return lanes1([&](Val a) { return fpUn(K_FRINT, a, w, w, 2); });
    case Intrinsic::ceil: return lanes1([&](Val a) { return fpUn(K_FRINT, a, w, w, 3); });
    case Intrinsic::trunc: return lanes1([&](Val a) { return fpUn(K_FRINT, a, w, w, 4); });
    case Intrinsic::round: return lanes1([&](Val a) { return fpUn(K_FRINT, a, w, w, 1); });
    case Intrinsic::roundeven:
    case Intrinsic::nearbyint:
    case Intrinsic::rint: return lanes1([&](Val a) { return fpUn(K_FRINT, a, w, w, 0); });
    case Intrinsic::minnum:
      return lanes2([&](Val a, Val b) {
        Val lt = fcmp(CmpInst::FCMP_OLT, a, b, w);
        Val an = fpUn(K_FISNAN, a, w, 1), bn = fpUn(K_FISNAN, b, w, 1);
        return iteV(an, b, iteV(bn, a, iteV(lt, a, b, w), w), w);
      });
    case Intrinsic::maxnum:
      return lanes2([&](Val a, Val b) {
        Val lt = fcmp(CmpInst::FCMP_OLT, a, b, w);
        Val an = fpUn(K_FISNAN, a, w, 1), bn = fpUn(K_FISNAN, b, w, 1);
        return iteV(an, b, iteV(bn, a, iteV(lt, b, a, w), w), w);
      });
    case Intrinsic::fmuladd: {
      if (d.n != 1) throw Unsupported{"vector fmuladd"};
      setRet(s, d, bin(K_FADD, bin(K_FMUL, arg(0), arg(1), w), arg(2), w));
      return true;
    }
    case Intrinsic::fma: {
      Val a = arg(0), b = arg(1), c = arg(2);
      if (!a.e && !b.e && !c.e)
        setRet(s, d, V(eval_op(K_FMA, w, w, 0, a.c, b.c, c.c)));
      else
        setRet(s, d, fromE(ctx.tern(K_FMA, toE(a, w), toE(b, w), toE(c, w), w)));
      return true;
    }
    case Intrinsic::pow:
    case Intrinsic::sin:
    case Intrinsic::cos:
    case Intrinsic::exp:
    case Intrinsic::log: {
      Val a = arg(0);
      if (a.e || w != 64 || d.n != 1) throw Unsupported{"symbolic transcendental"};
      double x = as_d(a.c), r = 0;
      if (id == Intrinsic::pow) {
        Val b = arg(1);
        if (b.e) throw Unsupported{"symbolic pow"};
        r = std::pow(x, as_d(b.c));
      } else if (id == Intrinsic::sin) r = std::sin(x);
      else if (id == Intrinsic::cos) r = std::cos(x);
      else if (id == Intrinsic::exp) r = std::exp(x);
      else r = std::log(x);
      setRet(s, d, V(of_d(r)));
      return true;
    }
    case Intrinsic::is_fpclass: {
      Val a = arg(0);
      u64 m = arg(1).c;
      unsigned ow = sw(ci->getArgOperand(0)->getType());
      Val r = V(0);
      auto orr = [&](Val x) { r = bin(K_OR, r, x, 1); };
      if ((m & 3) == 3) orr(fpUn(K_FISNAN, a, ow, 1));
      u64 inf = ow == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL;
      u64 sb = 1ULL << (ow - 1);
      if (m & 4) orr(bin(K_EQ, a, V(inf | sb), ow));
      if (m & 512) orr(bin(K_EQ, a, V(inf), ow));
      if (m & ~(3ULL | 4 | 512)) {
        // zero / subnormal / normal groups, both signs only
        Val mag = bin(K_AND, a, V(maskw(ow) >> 1), ow);
        Val neg = fromE(ctx.extract(toE(a, ow), ow - 1, 1));
        Val pos = notV(neg);
        u64 minnorm = ow == 64 ? 0x0010000000000000ULL : 0x00800000ULL;
        Val zero = bin(K_EQ, mag, V(0), ow);
        Val sub = bin(K_AND, notV(zero), bin(K_ULT, mag, V(minnorm), ow), 1);
        Val norm = bin(K_AND, bin(K_ULE, V(minnorm), mag, ow), bin(K_ULT, mag, V(inf), ow), 1);
        if (m & 8) orr(bin(K_AND, neg, norm, 1));
        if (m & 16) orr(bin(K_AND, neg, sub, 1));
        if (m & 32) orr(bin(K_AND, neg, zero, 1));
        if (m & 64) orr(bin(K_AND, pos, zero, 1));
        if (m & 128) orr(bin(K_AND, pos, sub, 1));
        if (m & 256) orr(bin(K_AND, pos, norm, 1));
      }
      if ((m & 3) == 1 || (m & 3) == 2) throw Unsupported{"fpclass snan"};
      setRet(s, d, r);
      return true;
    }
    case Intrinsic::ptrmask: setRet(s, d, bin(K_AND, arg(0), arg(1), 64)); return true;
    case Intrinsic::vector_reduce_add:
    case Intrinsic::vector_reduce_or:
    case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_xor: {
      Val r = arg(0);
      Kind k = id == Intrinsic::vector_reduce_add  ? K_ADD
               : id == Intrinsic::vector_reduce_or ? K_OR
               : id == Intrinsic::vector_reduce_and ? K_AND : K_XOR;
      for (std::size_t i = 1; i < d.args.size(); ++i) r = bin(k, r, arg(i), w);
      setRet(s, d, r);
      return true;
    }
    default: throw Unsupported{"intrinsic " + static_cast<Func*>(d.callee)->name};
  }
}

bool Engine::doCall(State& s, DInst const& d) {
  Func* f = static_cast<Func*>(d.callee);
  int b = d.builtin;
  if (!f) {
    Val t = get(s.stack.back(), d.a);
    if (t.e) {
      E e = simp(s, t.e);
      t = fromE(e);
    }
    if (t.e) {
      StateP dummy;
      concretize(s, t, 64, "call target");
    }
    auto it = funcByAddr.find(t.c);
    if (it == funcByAddr.end()) {
      violation(s, "memory", "call through an invalid function pointer", s.model);
      return false;
    }
    f = it->second;
    b = builtinOf(f->name);
  }
  if (b != B_NONE && (f->F->isDeclaration() || b >= 0)) {
    if (d.callee == nullptr && (b == B_MATH1 || b == B_MATH2))
      throw Unsupported{"indirect math call"};
    return doBuiltin(s, d, b);
  }
  if (f->F->isIntrinsic()) return doIntrinsic(s, d, f->F->getIntrinsicID());
  std::vector<Val> args;
  args.reserve(d.args.size());
  for (i32 a : d.args) args.push_back(get(s.stack.back(), a));
  return enter(s, f, args, 0);
}

// ------------------------------------------------------------------ step
bool Engine::step(State& s) {
  Frame& f = s.stack.back();
  DInst const& d = f.f->code[f.pc];
  ++st_.steps;
  if (++s.steps > opt.maxSteps) {
    violation(s, "steps", "instruction limit exceeded (no termination within bound)", s.model);
    return false;
  }
  switch (d.op) {
    case O_BIN: {
      Kind k = static_cast<Kind>(d.sub);
      for (u32 i = 0; i < d.n; ++i) {
        Val a = get(f, d.a, i), b = get(f, d.b, i);
        if (k >= K_UDIV && k <= K_SREM) {
          Val z = bin(K_EQ, b, d.w <= 64 ? V(0) : Val{0, ctx.cst(0, d.w)}, d.w);
          if (!z.e) {
            if (z.c) {
              violation(s, "divzero", "division by zero", s.model);
              return false;
            }
          } else {
            StateP o;
            bool v = branch(s, z, o);
            if (v) {
              violation(s, "divzero", "division by zero", s.model);
              if (!o) return false;
              s = std::move(*o);
              return true;  // re-execute in the non-zero state
            }
            if (o) {
              State& os = *o;
              violation(os, "divzero", "division by zero", os.model);
            }
          }
        }
        if (opt.forkDiv && k >= K_UDIV && k <= K_SREM && a.e && !b.e && d.w <= 64 && d.n == 1 &&
            (b.c & (b.c - 1)) != 0) {
          E const ae = simp(s, a.e);
          u64 q = 0;
          if (ae->k != K_CONST && forkQuotient(s, k, ae, b.c, d.w, q)) {
            Val const r = k == K_UDIV || k == K_SDIV
                              ? V(q)
                              : bin(K_SUB, Val{0, ae}, V((q * b.c) & maskw(d.w)), d.w);
            f.regs[static_cast<u32>(d.dst)] = r;
            continue;
          }
        }
        f.regs[static_cast<u32>(d.dst) + i] = bin(k, a, b, d.w);
      }
      ++f.pc;
      return true;
    }
    case O_ICMP:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] = icmp(d.sub, get(f, d.a, i), get(f, d.b, i), d.w);
      ++f.pc;
      return true;
    case O_FBIN:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] =
            bin(static_cast<Kind>(d.sub), get(f, d.a, i), get(f, d.b, i), d.w);
      ++f.pc;
      return true;
    case O_FCMP:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] = fcmp(d.sub, get(f, d.a, i), get(f, d.b, i), d.w);
      ++f.pc;
      return true;
    case O_FNEG:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] = bin(K_XOR, get(f, d.a, i), V(1ULL << (d.w - 1)), d.w);
      ++f.pc;
      return true;
    case O_TRUNC:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] = truncV(get(f, d.a, i), d.w2, d.w);
      ++f.pc;
      return true;
    case O_ZEXT:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] = zextV(get(f, d.a, i), d.w2, d.w);
      ++f.pc;
      return true;
    case O_SEXT:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] = sextV(get(f, d.a, i), d.w2, d.w);
      ++f.pc;
      return true;
    case O_COPY:
      for (u32 i = 0; i < d.n; ++i) f.regs[static_cast<u32>(d.dst) + i] = get(f, d.a, i);
      ++f.pc;
      return true;
    case O_FPCONV:
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] =
            fpUn(static_cast<Kind>(d.sub), get(f, d.a, i), d.w2, d.w);
      ++f.pc;
      return true;
    case O_BITCASTVEC: {
      // concatenate source lanes, split into destination lanes
      u32 total = d.w * d.n;
      u32 ns = total / d.w2;
      E all = toE(get(f, d.a, 0), d.w2);
      for (u32 i = 1; i < ns; ++i) all = ctx.concat(toE(get(f, d.a, i), d.w2), all);
      for (u32 i = 0; i < d.n; ++i)
        f.regs[static_cast<u32>(d.dst) + i] = fromE(ctx.extract(all, i * d.w, d.w));
      ++f.pc;
      return true;
    }
    case O_SELECT: {
      for (u32 i = 0; i < d.n; ++i) {
        Val c = get(f, d.a, d.sub ? i : 0);
        f.regs[static_cast<u32>(d.dst) + i] = iteV(c, get(f, d.b, i), get(f, d.c, i), d.elems[i].w);
      }
      ++f.pc;
      return true;
    }
    case O_GEP: {
      Val p = get(f, d.a);
      for (auto& [o, w, sc] : d.gep) {
        Val ix = sextV(get(f, o), w, 64);
        p = bin(K_ADD, p, bin(K_MUL, ix, V(static_cast<u64>(sc)), 64), 64);
      }
      if (d.off) p = bin(K_ADD, p, V(static_cast<u64>(d.off)), 64);
      f.regs[static_cast<u32>(d.dst)] = p;
      ++f.pc;
      return true;
    }
    case O_LOAD: {
      Val p = get(f, d.a);
      if (d.elems.size() == 1) {
        bool ok;
        Val v = load(s, p, d.elems[0].w, ok);
        if (!ok) return false;
        s.stack.back().regs[static_cast<u32>(d.dst)] = v;
      } else {
        std::vector<Val> r;
        for (auto& e : d.elems) {
          bool ok;
          Val v = load(s, e.off ? bin(K_ADD, p, V(e.off), 64) : p, e.w, ok);
          if (!ok) return false;
          r.push_back(v);
        }
        for (std::size_t i = 0; i < r.size(); ++i)
          s.stack.back().regs[static_cast<u32>(d.dst) + i] = r[i];
      }
      ++s.stack.back().pc;
      return true;
    }
    case O_STORE: {
      Val p = get(f, d.a);
      for (std::size_t i = 0; i < d.elems.size(); ++i) {
        auto& e = d.elems[i];
        Val v = get(f, d.b, static_cast<u32>(i));
        if (!store(s, e.off ? bin(K_ADD, p, V(e.off), 64) : p, e.w, v)) return false;
      }
      ++f.pc;
      return true;
    }
    case O_ALLOCA: {
      Val n = get(f, d.a);
      concretize(s, n, 64, "alloca");
      u64 a = alloc(s, static_cast<u64>(d.off) * n.c, 1, d.w);
      f.allocas.push_back(a);
      f.regs[static_cast<u32>(d.dst)] = V(a);
      ++f.pc;
      return true;
    }
    case O_BR: jump(f, d.e1); return true;
    case O_CBR: {
      Val c = get(f, d.a);
      if (!c.e) {
        jump(f, c.c ? d.e1 : d.e2);
        return true;
      }
      StateP o;
      bool v = branch(s, c, o);
      if (o) {
        jump(o->stack.back(), v ? d.e2 : d.e1);
        push(std::move(o));
      }
      jump(f, v ? d.e1 : d.e2);
      return true;
    }
    case O_SWITCH: {
      Val c = get(f, d.a);
      if (c.e) {
        E e = simp(s, c.e);
        c = fromE(e);
      }
      if (!c.e) {
        for (auto& [v, e] : d.cases)
          if (v == c.c) {
            jump(f, e);
            return true;
          }
        jump(f, d.e1);
        return true;
      }
      // fork over cases
      E rest = ctx.t();
      std::vector<std::pair<E, Edge const*>> opts;
      std::map<u32, std::size_t> byTarget;
      for (auto& [v, e] : d.cases) {
        E q = ctx.bin(K_EQ, c.e, ctx.cst(v, c.e->w));
        opts.emplace_back(q, &e);
        rest = ctx.bin(K_AND, rest, ctx.not1(q));
      }
      opts.emplace_back(rest, &d.e1);
      std::vector<std::tuple<E, Edge const*, Model>> feas;
      for (auto& [q, e] : opts) {
        Model m;
        Res r = sat(s, q, &m);
        if (r == Res::Unknown) throw Unsupported{"solver unknown in switch"};
        if (r == Res::Sat) feas.emplace_back(q, e, m);
      }
      for (std::size_t i = 1; i < feas.size(); ++i) {
        auto n = clone(s);
        n->model = std::get<2>(feas[i]);
        addC(*n, std::get<0>(feas[i]));
        jump(n->stack.back(), *std::get<1>(feas[i]));
        push(std::move(n));
      }
      if (feas.empty()) throw Unsupported{"switch without feasible case"};
      s.model = std::get<2>(feas[0]);
      addC(s, std::get<0>(feas[0]));
      jump(f, *std::get<1>(feas[0]));
      return true;
    }
    case O_RET: {
      std::vector<Val> rv;
      for (u32 i = 0; i < d.n; ++i) rv.push_back(get(f, d.a, i));
      ret(s, rv);
      return !s.stack.empty();
    }
    case O_CALL: return doCall(s, d);
    case O_UNREACH:
      violation(s, "unreachable", "unreachable code reached (undefined behaviour)", s.model);
      return false;
    case O_EXTRACTVAL:
      for (u32 i = 0; i < d.n; ++i) f.regs[static_cast<u32>(d.dst) + i] = get(f, d.a, i);
      ++f.pc;
      return true;
    case O_INSERTVAL: {
      std::vector<Val> t;
      for (u32 i = 0; i < d.n; ++i)
        t.push_back(i >= d.w && i < d.w + d.w2 ? get(f, d.b, i - d.w) : get(f, d.a, i));
      for (u32 i = 0; i < d.n; ++i) f.regs[static_cast<u32>(d.dst) + i] = t[i];
      ++f.pc;
      return true;
    }
    case O_EXTRACTEL: {
      Val ix = get(f, d.b);
      Val r = get(f, d.a, 0);
      if (!ix.e) {
        r = get(f, d.a, static_cast<u32>(ix.c));
      } else {
        for (u32 i = 1; i < d.w2; ++i)
          r = iteV(bin(K_EQ, ix, V(i), ix.e->w), get(f, d.a, i), r, d.w);
      }
      f.regs[static_cast<u32>(d.dst)] = r;
      ++f.pc;
      return true;
    }
    case O_INSERTEL: {
      Val ix = get(f, d.c);
      if (ix.e) throw Unsupported{"symbolic insertelement"};
      std::vector<Val> t;
      for (u32 i = 0; i < d.n; ++i) t.push_back(i == ix.c ? get(f, d.b) : get(f, d.a, i));
      for (u32 i = 0; i < d.n; ++i) f.regs[static_cast<u32>(d.dst) + i] = t[i];
      ++f.pc;
      return true;
    }
    case O_SHUFFLE: {
      std::vector<Val> t;
      for (i32 m : d.args)
        t.push_back(m < 0 ? V(0)
                    : static_cast<u32>(m) < d.w ? get(f, d.a, static_cast<u32>(m))
                                                : get(f, d.b, static_cast<u32>(m) - d.w));
      for (std::size_t i = 0; i < t.size(); ++i) f.regs[static_cast<u32>(d.dst) + i] = t[i];
      ++f.pc;
      return true;
    }
    case O_LANDING:
      f.regs[static_cast<u32>(d.dst)] = V(s.pendObj);
      f.regs[static_cast<u32>(d.dst) + 1] = V(static_cast<u64>(s.pendSel) & 0xffffffff);
      ++f.pc;
      return true;
    case O_RESUME: {
      u64 o = get(f, d.a).c;
      Model m = s.model;
      popFrame(s);
      if (s.stack.empty() || !throwExn(s, o)) {
        uncaught(s, tinfoOf(s, o), "resume", m);
        return false;
      }
      return true;
    }
    case O_ATOMICRMW: {
      Val p = get(f, d.a), v = get(f, d.b);
      bool ok;
      Val old = load(s, p, d.w, ok);
      if (!ok) return false;
      Val nv;
      switch (static_cast<AtomicRMWInst::BinOp>(d.sub)) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = bin(K_ADD, old, v, d.w); break;
        case AtomicRMWInst::Sub: nv = bin(K_SUB, old, v, d.w); break;
        case AtomicRMWInst::And: nv = bin(K_AND, old, v, d.w); break;
        case AtomicRMWInst::Or: nv = bin(K_OR, old, v, d.w); break;
        case AtomicRMWInst::Xor: nv = bin(K_XOR, old, v, d.w); break;
        default: throw Unsupported{"atomicrmw"};
      }
      if (!store(s, p, d.w, nv)) return false;
      f.regs[static_cast<u32>(d.dst)] = old;
      ++f.pc;
      return true;
    }
    case O_CMPXCHG: {
      Val p = get(f, d.a);
      bool ok;
      Val old = load(s, p, d.w, ok);
      if (!ok) return false;
      Val eq = bin(K_EQ, old, get(f, d.b), d.w);
      if (!store(s, p, d.w, iteV(eq, get(f, d.c), old, d.w))) return false;
      f.regs[static_cast<u32>(d.dst)] = old;
      f.regs[static_cast<u32>(d.dst) + 1] = eq;
      ++f.pc;
      return true;
    }
    default: {
      std::string t;
      raw_string_ostream os(t);
      d.I->print(os);
      throw Unsupported{"instruction " + os.str()};
    }
  }
}

bool Engine::execState(State& s) {
  try {
    u64 cnt = 0;
    for (;;) {
      if (!step(s)) {
        return s.done;
      }
      if ((++cnt & 0xfff) == 0) {
        if ((sh && sh->abortFlag.load()) || timeUp()) return false;
      }
    }
  } catch (Unsupported const& u) {
    std::string w;
    if (!s.stack.empty()) w = where(s);
    inconclusive.insert(u.what + " @ " + w);
    return false;
  }
}

#include "driver.inc"
