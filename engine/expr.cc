#include "expr.h"

#include <unordered_set>

#include <algorithm>
#include <cstdio>
#include <cstdlib>

static u32 mix(u32 h, u64 v) {
  u64 x = (static_cast<u64>(h) << 32 | (h * 2654435761U)) ^
          (v * 0x9E3779B97F4A7C15ULL);
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ULL;
  x ^= x >> 32;
  return static_cast<u32>(x);
}

Ctx::Ctx() { table_.resize(1 << 16); }

void Ctx::rehash() {
  std::vector<std::vector<Expr*>> nt(table_.size() * 4);
  for (auto& b : table_)
    for (auto* e : b) nt[e->hash & (nt.size() - 1)].push_back(e);
  table_.swap(nt);
}

static bool isFpKind(Kind k) { return k >= K_FADD; }

E Ctx::mk(Kind k, unsigned w, E a, E b, E c, u32 aux, u64 v, APInt const* big) {
  u32 h = mix(mix(mix(mix(mix(k * 131 + w, a ? a->id + 1 : 0), b ? b->id + 1 : 0),
                      c ? c->id + 1 : 0),
                  aux),
              v);
  if (big) {
    for (unsigned i = 0; i < big->getNumWords(); ++i)
      h = mix(h, big->getRawData()[i]);
  }
  auto& bucket = table_[h & (table_.size() - 1)];
  for (auto* e : bucket) {
    if (e->hash == h && e->k == k && e->w == w && e->a == a && e->b == b &&
        e->c == c && e->aux == aux && e->v == v) {
      if (big) {
        if (*e->big == *big) return e;
      } else {
        return e;
      }
    }
  }
  auto* e = new Expr();
  e->k = k;
  e->w = static_cast<uint16_t>(w);
  e->a = a;
  e->b = b;
  e->c = c;
  e->aux = aux;
  e->v = v;
  e->hash = h;
  e->id = static_cast<u32>(count_++);
  if (big) e->big = new APInt(*big);
  e->fp = isFpKind(k) || (a && a->fp) || (b && b->fp) || (c && c->fp);
  bucket.push_back(e);
  if (count_ > table_.size() * 2) rehash();
  return e;
}

E Ctx::cst(u64 v, unsigned w) {
  if (w > 64) return cstbig(APInt(w, v));
  return mk(K_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w), nullptr);
}
E Ctx::cstbig(APInt const& v) {
  if (v.getBitWidth() <= 64) return cst(v.getZExtValue(), v.getBitWidth());
  return mk(K_CONST, v.getBitWidth(), nullptr, nullptr, nullptr, 0, 0, &v);
}
E Ctx::sym(std::string const& name, unsigned w) {
  // The same occurrence of a name may have different widths on different
  // paths (a range whose limits depend on earlier choices): those are
  // different symbols.
  std::string const key = name + "/" + std::to_string(w);
  auto it = symByName_.find(key);
  if (it != symByName_.end()) return it->second;
  u64 id = symtab.size();
  E e = mk(K_SYM, w, nullptr, nullptr, nullptr, 0, id, nullptr);
  symtab.push_back({name, w, e});
  symByName_[key] = e;
  return e;
}

static APInt bigOf(E e) {
  return e->w > 64 ? *e->big : APInt(e->w, e->v);
}

static u64 fpbin(Kind k, unsigned w, u64 a, u64 b) {
  if (w == 64) {
    double x = as_d(a), y = as_d(b), r = 0;
    switch (k) {
      case K_FADD: r = x + y; break;
      case K_FSUB: r = x - y; break;
      case K_FMUL: r = x * y; break;
      case K_FDIV: r = x / y; break;
      case K_FREM: r = std::fmod(x, y); break;
      default: break;
    }
    return of_d(r);
  }
  float x = as_f(a), y = as_f(b), r = 0;
  switch (k) {
    case K_FADD: r = x + y; break;
    case K_FSUB: r = x - y; break;
    case K_FMUL: r = x * y; break;
    case K_FDIV: r = x / y; break;
    case K_FREM: r = std::fmod(x, y); break;
    default: break;
  }
  return of_f(r);
}

u64 eval_op(Kind k, unsigned w, unsigned wa, u32 aux, u64 a, u64 b, u64 c) {
  u64 m = maskw(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b == 0 ? m : (a / b) & m;
    case K_UREM: return b == 0 ? a : (a % b) & m;
    case K_SDIV: {
      i64 x = sx(a, w), y = sx(b, w);
      if (y == 0) return (x >= 0 ? m : 1) & m;
      if (y == -1) return (0 - static_cast<u64>(x)) & m;
      return static_cast<u64>(x / y) & m;
    }
    case K_SREM: {
      i64 x = sx(a, w), y = sx(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return static_cast<u64>(x % y) & m;
    }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> b);
    case K_ASHR: {
      i64 x = sx(a, w);
      return static_cast<u64>(x >> (b >= w ? w - 1 : b)) & m;
    }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sx(a, wa) < sx(b, wa);
    case K_SLE: return sx(a, wa) <= sx(b, wa);
    case K_ITE: return a ? b : c;
    case K_EXTRACT: return (a >> aux) & m;
    case K_ZEXT: return a;
    case K_SEXT: return static_cast<u64>(sx(a, wa)) & m;
    case K_FADD:
    case K_FSUB:
    case K_FMUL:
    case K_FDIV:
    case K_FREM: return fpbin(k, w, a, b);
    case K_FSQRT: return w == 64 ? of_d(std::sqrt(as_d(a))) : of_f(std::sqrt(as_f(a)));
    case K_FOEQ: return wa == 64 ? as_d(a) == as_d(b) : as_f(a) == as_f(b);
    case K_FOLT: return wa == 64 ? as_d(a) < as_d(b) : as_f(a) < as_f(b);
    case K_FOLE: return wa == 64 ? as_d(a) <= as_d(b) : as_f(a) <= as_f(b);
    case K_FISNAN: return wa == 64 ? std::isnan(as_d(a)) : std::isnan(as_f(a));
    case K_FPTOSI: {
      double d = wa == 64 ? as_d(a) : as_f(a);
      if (std::isnan(d)) return 0;
      if (d >= 9.3e18 || d <= -9.3e18) return 1ULL << (w - 1);
      return static_cast<u64>(static_cast<i64>(d)) & m;
    }
    case K_FPTOUI: {
      double d = wa == 64 ? as_d(a) : as_f(a);
      if (std::isnan(d)) return 0;
      if (d < 0) return static_cast<u64>(static_cast<i64>(d)) & m;
      return static_cast<u64>(d) & m;
    }
    case K_SITOFP: {
      i64 x = sx(a, wa);
      return w == 64 ? of_d(static_cast<double>(x)) : of_f(static_cast<float>(x));
    }
    case K_UITOFP:
      return w == 64 ? of_d(static_cast<double>(a)) : of_f(static_cast<float>(a));
    case K_FPTRUNC: return of_f(static_cast<float>(as_d(a)));
    case K_FPEXT: return of_d(static_cast<double>(as_f(a)));
    case K_FRINT: {
      double d = wa == 64 ? as_d(a) : as_f(a);
      switch (aux) {
        case 0: d = std::nearbyint(d); break;
        case 1: d = std::round(d); break;
        case 2: d = std::floor(d); break;
        case 3: d = std::ceil(d); break;
        default: d = std::trunc(d); break;
      }
      return w == 64 ? of_d(d) : of_f(static_cast<float>(d));
    }
    case K_FMA:
      return w == 64 ? of_d(std::fma(as_d(a), as_d(b), as_d(c)))
                     : of_f(std::fma(as_f(a), as_f(b), as_f(c)));
    default: fprintf(stderr, "eval_op kind %d\n", k); abort();
  }
}

static APInt eval_big(Kind k, unsigned w, u32 aux, APInt const& a,
                      APInt const* b) {
  switch (k) {
    case K_ADD: return a + *b;
    case K_SUB: return a - *b;
    case K_MUL: return a * *b;
    case K_UDIV: return b->isZero() ? APInt::getAllOnes(w) : a.udiv(*b);
    case K_UREM: return b->isZero() ? a : a.urem(*b);
    case K_SDIV: return b->isZero() ? APInt::getAllOnes(w) : a.sdiv(*b);
    case K_SREM: return b->isZero() ? a : a.srem(*b);
    case K_AND: return a & *b;
    case K_OR: return a | *b;
    case K_XOR: return a ^ *b;
    case K_SHL: return b->uge(w) ? APInt(w, 0) : a.shl(*b);
    case K_LSHR: return b->uge(w) ? APInt(w, 0) : a.lshr(*b);
    case K_ASHR: return b->uge(w) ? a.ashr(w - 1) : a.ashr(*b);
    case K_EQ: return APInt(1, a == *b);
    case K_ULT: return APInt(1, a.ult(*b));
    case K_ULE: return APInt(1, a.ule(*b));
    case K_SLT: return APInt(1, a.slt(*b));
    case K_SLE: return APInt(1, a.sle(*b));
    case K_CONCAT: {
      APInt r = a.zext(w);
      r <<= b->getBitWidth();
      r |= b->zext(w);
      return r;
    }
    case K_EXTRACT: return a.extractBits(w, aux);
    case K_ZEXT: return a.zext(w);
    case K_SEXT: return a.sext(w);
    default: fprintf(stderr, "eval_big kind %d\n", k); abort();
  }
}

u64 Ctx::eval(E e, std::vector<u64> const& m) {
  new_epoch();
  return eval_in_epoch(e, m);
}

APInt Ctx::evalbig(E e, std::vector<u64> const& m) {
  if (e->w <= 64) return APInt(e->w, eval_in_epoch(e, m));
  switch (e->k) {
    case K_CONST: return *e->big;
    case K_ITE:
      return eval_in_epoch(e->a, m) ? evalbig(e->b, m) : evalbig(e->c, m);
    default: {
      APInt a = evalbig(e->a, m);
      if (e->b) {
        APInt b = evalbig(e->b, m);
        return eval_big(e->k, e->w, e->aux, a, &b);
      }
      return eval_big(e->k, e->w, e->aux, a, nullptr);
    }
  }
}

u64 Ctx::eval_in_epoch(E e, std::vector<u64> const& m) {
  if (e->k == K_CONST) return e->v;
  if (e->k == K_SYM) return e->v < m.size() ? m[e->v] : 0;
  if (e->epoch == epoch_) return e->ev;
  u64 r = 0;
  if (e->k == K_ITE) {
    r = eval_in_epoch(e->a, m) ? eval_in_epoch(e->b, m)
                               : eval_in_epoch(e->c, m);
  } else if ((e->a && e->a->w > 64) || (e->b && e->b->w > 64)) {
    APInt a = evalbig(e->a, m);
    if (e->b) {
      APInt b = evalbig(e->b, m);
      r = eval_big(e->k, e->w, e->aux, a, &b).getZExtValue();
    } else {
      r = eval_big(e->k, e->w, e->aux, a, nullptr).getZExtValue();
    }
  } else if (e->k == K_CONCAT) {
    r = (eval_in_epoch(e->a, m) << e->b->w) | eval_in_epoch(e->b, m);
  } else {
    u64 a = eval_in_epoch(e->a, m);
    u64 b = e->b ? eval_in_epoch(e->b, m) : 0;
    u64 c = e->c ? eval_in_epoch(e->c, m) : 0;
    r = eval_op(e->k, e->w, e->a->w, e->aux, a, b, c);
  }
  e->epoch = epoch_;
  e->ev = r;
  return r;
}

const std::vector<u32>* Ctx::internSyms(std::vector<u32>&& v) {
  u32 h = 0;
  for (auto x : v) h = mix(h, x);
  for (auto* p : symsetIdx_[h])
    if (*p == v) return p;
  auto* p = new std::vector<u32>(std::move(v));
  symsetIdx_[h].push_back(p);
  return p;
}

std::vector<u32> const& Ctx::symsOf(E e) {
  if (e->syms) return *e->syms;
  if (e->k == K_CONST) {
    e->syms = internSyms({});
    return *e->syms;
  }
  if (e->k == K_SYM) {
    e->syms = internSyms({static_cast<u32>(e->v)});
    return *e->syms;
  }
  const std::vector<u32>* r = &symsOf(e->a);
  for (E x : {e->b, e->c}) {
    if (!x) continue;
    auto const* s = &symsOf(x);
    if (s == r || s->empty()) continue;
    if (r->empty()) {
      r = s;
      continue;
    }
    std::vector<u32> u;
    std::set_union(r->begin(), r->end(), s->begin(), s->end(),
                   std::back_inserter(u));
    r = internSyms(std::move(u));
  }
  e->syms = r;
  return *r;
}

static bool isC(E e) { return e->k == K_CONST; }
static bool isC(E e, u64 v) {
  return e->k == K_CONST && (e->w > 64 ? (*e->big == v) : e->v == (v & maskw(e->w)));
}
static bool allOnes(E e) {
  return e->k == K_CONST && (e->w > 64 ? e->big->isAllOnes() : e->v == maskw(e->w));
}

static bool constLeafIte(E e, int depth) {
  if (e->k == K_CONST) return true;
  if (depth == 0) return false;
  return e->k == K_ITE && constLeafIte(e->b, depth - 1) &&
         constLeafIte(e->c, depth - 1);
}

E Ctx::bin(Kind k, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  bool cmp = k == K_EQ || k == K_ULT || k == K_ULE || k == K_SLT || k == K_SLE ||
             k == K_FOEQ || k == K_FOLT || k == K_FOLE;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) {
    if (w > 64) {
      APInt r = eval_big(k, rw, 0, *a->big, b->big);
      return cstbig(r);
    }
    return cst(eval_op(k, rw, w, 0, a->v, b->v, 0), rw);
  }
  // canonicalise: constant to the right for commutative operators
  switch (k) {
    case K_ADD:
    case K_MUL:
    case K_AND:
    case K_OR:
    case K_XOR:
    case K_EQ:
      if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
      break;
    default: break;
  }
  switch (k) {
    case K_ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->k == K_ADD && isC(a->b))
        return bin(K_ADD, a->a, bin(K_ADD, a->b, b));
      if (a->k == K_SUB && a->b == b) return a->a;
      if (b->k == K_SUB && b->b == a) return b->a;
      if (w == 1) return bin(K_XOR, a, b);
      // (x + c) + y -> (x + y) + c
      if (!isC(b) && a->k == K_ADD && isC(a->b))
        return bin(K_ADD, bin(K_ADD, a->a, b), a->b);
      if (!isC(b) && b->k == K_ADD && isC(b->b))
        return bin(K_ADD, bin(K_ADD, a, b->a), b->b);
      break;
    case K_SUB:
      if (isC(b, 0)) return a;
      if (a == b) return cst(0, w);
      if (isC(b)) return bin(K_ADD, a, bin(K_SUB, cst(0, w), b));
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && a->b == b) return a->a;
      if (a->k == K_ADD && isC(a->b))
        return bin(K_ADD, bin(K_SUB, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b))
        return bin(K_SUB, bin(K_SUB, a, b->a), b->b);
      break;
    case K_MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && w <= 64 && std::has_single_bit(b->v))
        return bin(K_SHL, a, cst(static_cast<u64>(std::countr_zero(b->v)), w));
      break;
    case K_UDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && w <= 64 && std::has_single_bit(b->v))
        return bin(K_LSHR, a, cst(static_cast<u64>(std::countr_zero(b->v)), w));
      break;
    case K_SDIV:
      if (isC(b, 1)) return a;
      break;
    case K_UREM:
      if (isC(b, 1)) return cst(0, w);
      if (isC(b) && w <= 64 && std::has_single_bit(b->v))
        return bin(K_AND, a, cst(b->v - 1, w));
      break;
    case K_AND:
      if (isC(b, 0)) return b;
      if (allOnes(b)) return a;
      if (a == b) return a;
      if (isC(b) && a->k == K_AND && isC(a->b))
        return bin(K_AND, a->a, bin(K_AND, a->b, b));
      // mask of low bits -> zext(extract)
      if (isC(b) && w <= 64 && w > 1 && std::has_single_bit(b->v + 1))
        return zext(extract(a, 0, static_cast<unsigned>(std::countr_one(b->v))), w);
      if (w == 1) {
        if (a->k == K_XOR && isC(a->b, 1) && a->a == b) return cst(0, 1);
        if (b->k == K_XOR && isC(b->b, 1) && b->a == a) return cst(0, 1);
      }
      break;
    case K_OR:
      if (isC(b, 0)) return a;
      if (allOnes(b)) return b;
      if (a == b) return a;
      if (w == 1) {
        if (a->k == K_XOR && isC(a->b, 1) && a->a == b) return cst(1, 1);
        if (b->k == K_XOR && isC(b->b, 1) && b->a == a) return cst(1, 1);
      }
      // zext(x) | (zext(y) << k) with no overlap -> concat
      {
        E lo = a, hi = b;
        for (int t = 0; t < 2; ++t, std::swap(lo, hi)) {
          if (lo->k == K_ZEXT && hi->k == K_CONCAT && isC(hi->b, 0) &&
              hi->b->w >= lo->a->w) {
            unsigned lw = hi->b->w;
            return concat(hi->a, zext(lo->a, lw));
          }
        }
      }
      break;
    case K_XOR:
      if (isC(b, 0)) return a;
      if (a == b) return cst(0, w);
      if (isC(b) && a->k == K_XOR && isC(a->b))
        return bin(K_XOR, a->a, bin(K_XOR, a->b, b));
      if (w == 1 && isC(b, 1)) {
        // push negation into comparisons
        if (a->k == K_ULT) return bin(K_ULE, a->b, a->a);
        if (a->k == K_ULE) return bin(K_ULT, a->b, a->a);
        if (a->k == K_SLT) return bin(K_SLE, a->b, a->a);
        if (a->k == K_SLE) return bin(K_SLT, a->b, a->a);
      }
      break;
    case K_SHL:
    case K_LSHR:
    case K_ASHR:
      if (isC(b, 0)) return a;
      if (isC(b) && w <= 64) {
        u64 s = b->v;
        if (s >= w) {
          if (k != K_ASHR) return cst(0, w);
          s = w - 1;
        }
        unsigned us = static_cast<unsigned>(s);
        if (k == K_SHL) return concat(extract(a, 0, w - us), cst(0, us));
        if (k == K_LSHR) return zext(extract(a, us, w - us), w);
        return sext(extract(a, us, w - us), w);
      }
      if (isC(b) && w > 64 && b->big->ult(w)) {
        unsigned us = static_cast<unsigned>(b->big->getZExtValue());
        if (k == K_SHL) return concat(extract(a, 0, w - us), cst(0, us));
        if (k == K_LSHR) return zext(extract(a, us, w - us), w);
        return sext(extract(a, us, w - us), w);
      }
      break;
    case K_EQ:
      if (a == b) return cst(1, 1);
      if (w == 1) {
        if (isC(b, 1)) return a;
        if (isC(b, 0)) return bin(K_XOR, a, cst(1, 1));
      }
      if (isC(b)) {
        if (a->k == K_ADD && isC(a->b))
          return bin(K_EQ, a->a, bin(K_SUB, b, a->b));
        if (a->k == K_XOR && isC(a->b))
          return bin(K_EQ, a->a, bin(K_XOR, b, a->b));
        if (a->k == K_SUB && isC(a->a))
          return bin(K_EQ, a->b, bin(K_SUB, a->a, b));
        if (a->k == K_SUB && isC(b, 0)) return bin(K_EQ, a->a, a->b);
        if (a->k == K_XOR && isC(b, 0)) return bin(K_EQ, a->a, a->b);
        if (a->k == K_ZEXT) {
          unsigned iw = a->a->w;
          APInt bv = bigOf(b);
          if (bv.getActiveBits() > iw) return cst(0, 1);
          return bin(K_EQ, a->a, cstbig(bv.trunc(iw)));
        }
        if (a->k == K_SEXT) {
          unsigned iw = a->a->w;
          APInt bv = bigOf(b);
          if (bv.trunc(iw).sext(w) != bv) return cst(0, 1);
          return bin(K_EQ, a->a, cstbig(bv.trunc(iw)));
        }
        if (a->k == K_CONCAT) {
          unsigned lw = a->b->w;
          APInt bv = bigOf(b);
          E h = bin(K_EQ, a->a, cstbig(bv.extractBits(w - lw, lw)));
          if (isC(h, 0)) return h;
          return bin(K_AND, h, bin(K_EQ, a->b, cstbig(bv.extractBits(lw, 0))));
        }
        if (a->k == K_ITE) {
          bool cb = isC(a->b), cc = isC(a->c);
          if (cb || cc) {
            if (cb && cc) {
              bool eb = a->b == b, ec = a->c == b;
              if (eb && ec) return cst(1, 1);
              if (eb) return a->a;
              if (ec) return not1(a->a);
              return cst(0, 1);
            }
            if (cb) {
              if (a->b == b) return bin(K_OR, a->a, bin(K_EQ, a->c, b));
              return bin(K_AND, not1(a->a), bin(K_EQ, a->c, b));
            }
            if (a->c == b) return bin(K_OR, not1(a->a), bin(K_EQ, a->b, b));
            return bin(K_AND, a->a, bin(K_EQ, a->b, b));
          }
        }
      } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w)
          return bin(K_EQ, a->a, b->a);
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w)
          return bin(K_EQ, a->a, b->a);
        if (a->k == K_ADD && isC(a->b) && b->k == K_ADD && isC(b->b))
          return bin(K_EQ, a->a, bin(K_ADD, b->a, bin(K_SUB, b->b, a->b)));
        if (a->k == K_ADD && (a->a == b || a->b == b))
          return bin(K_EQ, a->a == b ? a->b : a->a, cst(0, w));
        if (b->k == K_ADD && (b->a == a || b->b == a))
          return bin(K_EQ, b->a == a ? b->b : b->a, cst(0, w));
      }
      break;
    case K_ULT:
      if (a == b) return cst(0, 1);
      if (isC(b, 0)) return cst(0, 1);
      if (isC(b, 1)) return bin(K_EQ, a, cst(0, w));
      if (allOnes(a)) return cst(0, 1);
      if (isC(a, 0)) return not1(bin(K_EQ, b, cst(0, w)));
      if (w == 1) return bin(K_AND, not1(a), b);
      break;
    case K_ULE:
      if (a == b) return cst(1, 1);
      if (isC(a, 0)) return cst(1, 1);
      if (allOnes(b)) return cst(1, 1);
      if (isC(b, 0)) return bin(K_EQ, a, b);
      if (isC(a, 1)) return not1(bin(K_EQ, b, cst(0, w)));
      if (w == 1) return bin(K_OR, not1(a), b);
      break;
    case K_SLT:
      if (a == b) return cst(0, 1);
      break;
    case K_SLE:
      if (a == b) return cst(1, 1);
      break;
    default: break;
  }
  if (k == K_ULT || k == K_ULE) {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w)
      return bin(k, a->a, b->a);
    if (a->k == K_ZEXT && isC(b)) {
      unsigned iw = a->a->w;
      APInt bv = bigOf(b);
      if (bv.getActiveBits() > iw) return cst(1, 1);
      return bin(k, a->a, cstbig(bv.trunc(iw)));
    }
    if (b->k == K_ZEXT && isC(a)) {
      unsigned iw = b->a->w;
      APInt av = bigOf(a);
      if (av.getActiveBits() > iw) return cst(0, 1);
      return bin(k, cstbig(av.trunc(iw)), b->a);
    }
    if (a->k == K_CONCAT && isC(a->a, 0)) {
      return bin(k, zext(a->b, w), b);
    }
  }
  if (k == K_SLT || k == K_SLE) {
    Kind uk = k == K_SLT ? K_ULT : K_ULE;
    auto nonneg = [](E e) {
      return (e->k == K_ZEXT) ||
             (e->k == K_CONST && !bigOf(e).isNegative());
    };
    if (nonneg(a) && nonneg(b)) return bin(uk, a, b);
    if (a->k == K_ZEXT && isC(b) && bigOf(b).isNegative()) return cst(0, 1);
    if (b->k == K_ZEXT && isC(a) && bigOf(a).isNegative()) return cst(1, 1);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w)
      return bin(k, a->a, b->a);
    if (a->k == K_SEXT && isC(b)) {
      APInt bv = bigOf(b);
      unsigned iw = a->a->w;
      if (bv.trunc(iw).sext(w) == bv) return bin(k, a->a, cstbig(bv.trunc(iw)));
      return cst(bv.isNegative() ? 0 : 1, 1);
    }
    if (b->k == K_SEXT && isC(a)) {
      APInt av = bigOf(a);
      unsigned iw = b->a->w;
      if (av.trunc(iw).sext(w) == av) return bin(k, cstbig(av.trunc(iw)), b->a);
      return cst(av.isNegative() ? 1 : 0, 1);
    }
  }
  // bitwise over concats with constants
  if ((k == K_AND || k == K_OR || k == K_XOR) && isC(b) && w <= 64) {
    if (a->k == K_CONCAT) {
      unsigned lw = a->b->w;
      return concat(bin(k, a->a, cst(b->v >> lw, w - lw)),
                    bin(k, a->b, cst(b->v, lw)));
    }
    if (a->k == K_ZEXT && a->a->w < w) {
      unsigned iw = a->a->w;
      return concat(cst(k == K_AND ? 0 : b->v >> iw, w - iw),
                    bin(k, a->a, cst(b->v, iw)));
    }
  }
  if ((k == K_AND || k == K_OR || k == K_XOR) && a->k == K_ZEXT &&
      b->k == K_ZEXT && a->a->w == b->a->w)
    return zext(bin(k, a->a, b->a), w);
  // distribute over ite with constant leaves
  if (!isFpKind(k) && w <= 64) {
    if (isC(b) && a->k == K_ITE && constLeafIte(a, 6))
      return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    if (isC(a) && b->k == K_ITE && constLeafIte(b, 6))
      return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
    if (cmp && isC(b) && a->k == K_ITE && (isC(a->b) || isC(a->c)))
      return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    if (cmp && isC(a) && b->k == K_ITE && (isC(b->b) || isC(b->c)))
      return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
  }
  return small(mk(k, rw, a, b, nullptr, 0, 0, nullptr));
}

E Ctx::ite(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isC(c->b, 1)) return ite(c->a, b, a);
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return not1(c);
    if (isC(a, 1)) return bin(K_OR, c, b);
    if (isC(a, 0)) return bin(K_AND, not1(c), b);
    if (isC(b, 0)) return bin(K_AND, c, a);
    if (isC(b, 1)) return bin(K_OR, not1(c), a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->k == K_ITE && b->b == a)  // ite(c, x, ite(d, x, y))
    return ite(bin(K_OR, c, b->a), a, b->c);
  return mk(K_ITE, a->w, c, a, b, 0, 0, nullptr);
}

E Ctx::extract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w && w > 0);
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) {
    if (a->w > 64) return cstbig(a->big->extractBits(w, lo));
    return cst(a->v >> lo, w);
  }
  switch (a->k) {
    case K_EXTRACT: return extract(a->a, a->aux + lo, w);
    case K_CONCAT: {
      unsigned lw = a->b->w;
      if (lo >= lw) return extract(a->a, lo - lw, w);
      if (lo + w <= lw) return extract(a->b, lo, w);
      return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo));
    }
    case K_ZEXT: {
      unsigned iw = a->a->w;
      if (lo >= iw) return cst(0, w);
      if (lo + w <= iw) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, iw - lo), w);
    }
    case K_SEXT: {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return extract(a->a, lo, w);
      if (lo < iw) return sext(extract(a->a, lo, iw - lo), w);
      return sext(extract(a->a, iw - 1, 1), w);
    }
    case K_ITE:
      if (isC(a->b) || isC(a->c) || w == 1)
        return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
      // also through concats etc. produced by byte-wise loads
      if (a->w >= 16)
        return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
      break;
    case K_AND:
    case K_OR:
    case K_XOR:
      return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
    case K_ADD:
    case K_SUB:
    case K_MUL:
      if (lo == 0 && isC(a->b))
        return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
      break;
    default: break;
  }
  return mk(K_EXTRACT, w, a, nullptr, nullptr, lo, 0, nullptr);
}

E Ctx::concat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) {
    if (w <= 64) return cst((hi->v << lo->w) | lo->v, w);
    APInt r = bigOf(hi).zext(w);
    r <<= lo->w;
    r |= bigOf(lo).zext(w);
    return cstbig(r);
  }
  if (isC(hi, 0)) return zext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a &&
      hi->aux == lo->aux + lo->w)
    return extract(hi->a, lo->aux, w);
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT &&
      hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
    return concat(extract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  // right-assoc normal form
  if (hi->k == K_CONCAT) return concat(hi->a, concat(hi->b, lo));
  if (lo->k == K_CONCAT && isC(hi) && isC(lo->a))
    return concat(concat(hi, lo->a), lo->b);
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a)
    return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
  if (lo->k == K_CONCAT && lo->a->k == K_ITE && hi->k == K_ITE && hi->a == lo->a->a)
    return concat(ite(hi->a, concat(hi->b, lo->a->b), concat(hi->c, lo->a->c)), lo->b);
  // sign/zero extension patterns: extract of zext handled in extract
  if (hi->k == K_ZEXT) return zext(concat(hi->a, lo), w);
  return mk(K_CONCAT, w, hi, lo, nullptr, 0, 0, nullptr);
}

E Ctx::zext(E a, unsigned w) {
  if (a->w == w) return a;
  assert(w > a->w);
  if (isC(a)) return w > 64 ? cstbig(bigOf(a).zext(w)) : cst(a->v, w);
  if (a->k == K_ZEXT) return zext(a->a, w);
  if (a->k == K_ITE && (isC(a->b) || isC(a->c)) )
    return ite(a->a, zext(a->b, w), zext(a->c, w));
  return mk(K_ZEXT, w, a, nullptr, nullptr, 0, 0, nullptr);
}
E Ctx::sext(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) {
    APInt r = bigOf(a).sext(w);
    return cstbig(r);
  }
  if (a->k == K_SEXT) return sext(a->a, w);
  if (a->k == K_ZEXT) return zext(a->a, w);
  if (a->k == K_ITE && (isC(a->b) || isC(a->c)) )
    return ite(a->a, sext(a->b, w), sext(a->c, w));
  return mk(K_SEXT, w, a, nullptr, nullptr, 0, 0, nullptr);
}

E Ctx::un(Kind k, E a, unsigned w, u32 aux) {
  if (k == K_EXTRACT) return extract(a, aux, w);
  if (k == K_ZEXT) return zext(a, w);
  if (k == K_SEXT) return sext(a, w);
  if (isC(a) && a->w <= 64)
    return cst(eval_op(k, w, a->w, aux, a->v, 0, 0), w);
  return small(mk(k, w, a, nullptr, nullptr, aux, 0, nullptr));
}
E Ctx::tern(Kind k, E a, E b, E c, unsigned w) {
  if (k == K_ITE) return ite(a, b, c);
  if (isC(a) && isC(b) && isC(c))
    return cst(eval_op(k, w, a->w, 0, a->v, b->v, c->v), w);
  return mk(k, w, a, b, c, 0, 0, nullptr);
}

// Floating point predicates and conversions to integers of few symbolic bits
// become tables over those bits (decision trees with shared subtrees), so that
// the solver does not have to reason about floating point arithmetic.
E Ctx::small(E e) {
  if (!e->fp || (e->w != 1 && e->k != K_FPTOSI && e->k != K_FPTOUI)) return e;
  auto const& ids = symsOf(e);
  unsigned bits = 0;
  for (auto id : ids) {
    bits += symtab[id].w;
    if (bits > 12) return e;
  }
  auto it = small_.find(e);
  if (it != small_.end()) return it->second;
  std::vector<E> bit;  // most significant bits of all symbols first
  std::vector<std::pair<u32, unsigned>> pos;
  for (unsigned d = 0; d < 64; ++d)
    for (auto id : ids)
      if (d < symtab[id].w) {
        unsigned const p = symtab[id].w - 1 - d;
        pos.emplace_back(id, p);
        bit.push_back(extract(symtab[id].e, p, 1));
      }
  std::vector<u64> m(symtab.size(), 0);
  auto rec = [&](auto&& self, unsigned i) -> E {
    if (i == bit.size()) return cst(eval(e, m), e->w);
    auto const [id, p] = pos[i];
    E const lo = self(self, i + 1);
    m[id] |= 1ULL << p;
    E const hi = self(self, i + 1);
    m[id] &= ~(1ULL << p);
    return lo == hi ? lo : ite(bit[i], hi, lo);
  };
  E const r = rec(rec, 0);
  small_.emplace(e, r);
  return r;
}

E Ctx::subst(E e, std::unordered_map<E, E> const& m,
             std::unordered_map<E, E>& memo) {
  auto f = m.find(e);
  if (f != m.end()) return f->second;
  if (e->k == K_CONST || e->k == K_SYM) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E a = e->a ? subst(e->a, m, memo) : nullptr;
  E b = e->b ? subst(e->b, m, memo) : nullptr;
  E c = e->c ? subst(e->c, m, memo) : nullptr;
  E r = e;
  if (a != e->a || b != e->b || c != e->c) {
    switch (e->k) {
      case K_ITE: r = ite(a, b, c); break;
      case K_FMA: r = tern(K_FMA, a, b, c, e->w); break;
      case K_CONCAT: r = concat(a, b); break;
      case K_EXTRACT: r = extract(a, e->aux, e->w); break;
      case K_ZEXT: r = zext(a, e->w); break;
      case K_SEXT: r = sext(a, e->w); break;
      default: r = b ? bin(e->k, a, b) : un(e->k, a, e->w, e->aux); break;
    }
    auto f2 = m.find(r);
    if (f2 != m.end()) r = f2->second;
  }
  memo[e] = r;
  return r;
}

// ---------------------------------------------------------------- Z3

static Z3_sort fpsort(Z3_context z, unsigned w) {
  return w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort_32(z);
}

Z3_ast Ctx::fpOf(E e) { return Z3_mk_fpa_to_fp_bv(z3, toZ3(e), fpsort(z3, e->w)); }

// A floating point operation as an uninterpreted function of the bits of its
// operands (addition and multiplication commute), plus facts that always hold.
Z3_ast Ctx::ufApp(E e) {
  E a = e->a, b = e->b;
  if ((e->k == K_FADD || e->k == K_FMUL) && b->id < a->id) std::swap(a, b);
  E const ops[3] = {a, b, e->c};
  Z3_ast args[3];
  Z3_sort so[3];
  unsigned n = 0;
  std::string name = "f!" + std::to_string(e->k) + "!" + std::to_string(e->aux) + "!" + std::to_string(e->w);
  for (E o : ops)
    if (o) {
      name += "!" + std::to_string(o->w);
      so[n] = Z3_mk_bv_sort(z3, o->w);
      args[n++] = toZ3(o);
    }
  auto it = ufs_.find(name);
  if (it == ufs_.end()) {
    Z3_func_decl d = Z3_mk_func_decl(z3, Z3_mk_string_symbol(z3, name.c_str()), n, so, Z3_mk_bv_sort(z3, e->w));
    Z3_inc_ref(z3, Z3_func_decl_to_ast(z3, d));
    it = ufs_.emplace(name, d).first;
  }
  Z3_ast r = Z3_mk_app(z3, it->second, n, args);
  if ((e->k == K_SITOFP || e->k == K_UITOFP) && e->w == 64 && e->a->w <= 64) {
    // finite, zero exactly for zero, with the sign of the integer
    Z3_ast x = args[0], zx = Z3_mk_unsigned_int64(z3, 0, so[0]);
    Z3_sort d = Z3_mk_bv_sort(z3, 64);
    Z3_ast mag = Z3_mk_bvand(z3, r, Z3_mk_unsigned_int64(z3, ~0ULL >> 1, d));
    Z3_ast sign = Z3_mk_bvslt(z3, r, Z3_mk_unsigned_int64(z3, 0, d));
    Z3_ast parts[3] = {Z3_mk_bvult(z3, mag, Z3_mk_unsigned_int64(z3, 0x43f0000000000001ULL, d)),
                       Z3_mk_iff(z3, Z3_mk_eq(z3, x, zx), Z3_mk_eq(z3, mag, Z3_mk_unsigned_int64(z3, 0, d))),
                       Z3_mk_iff(z3, sign, e->k == K_SITOFP ? Z3_mk_bvslt(z3, x, zx) : Z3_mk_false(z3))};
    Z3_ast def = Z3_mk_and(z3, 3, parts);
    Z3_inc_ref(z3, def);
    ufDef_.emplace(e, def);
  }
  return r;
}

// Comparisons are encoded exactly on the bit patterns.
Z3_ast Ctx::ufCompare(E e) {
  unsigned const w = e->a->w;
  Z3_sort so = Z3_mk_bv_sort(z3, w);
  auto c = [&](u64 v) { return Z3_mk_unsigned_int64(z3, v & maskw(w), so); };
  u64 const low = maskw(w) >> 1, inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL;
  auto mag = [&](Z3_ast x) { return Z3_mk_bvand(z3, x, c(low)); };
  auto nan = [&](Z3_ast x) { return Z3_mk_bvugt(z3, mag(x), c(inf)); };
  Z3_ast a = toZ3(e->a);
  if (e->k == K_FISNAN) return nan(a);
  Z3_ast b = toZ3(e->b);
  // monotone map to signed integers, both zeros to 0
  auto ord = [&](Z3_ast x) { return Z3_mk_ite(z3, Z3_mk_bvslt(z3, x, c(0)), Z3_mk_bvneg(z3, mag(x)), x); };
  Z3_ast rel = e->k == K_FOEQ   ? Z3_mk_eq(z3, ord(a), ord(b))
               : e->k == K_FOLT ? Z3_mk_bvslt(z3, ord(a), ord(b))
                                : Z3_mk_bvsle(z3, ord(a), ord(b));
  Z3_ast as[3] = {Z3_mk_not(z3, nan(a)), Z3_mk_not(z3, nan(b)), rel};
  return Z3_mk_and(z3, 3, as);
}

Z3_ast Ctx::toZ3bool(E e) {
  assert(e->w == 1);
  bool const u = uf && e->fp;
  if (u ? e->zub : e->zb) return u ? e->zub : e->zb;
  Z3_ast r = nullptr;
  if (u && (e->k == K_FOEQ || e->k == K_FOLT || e->k == K_FOLE || e->k == K_FISNAN)) {
    r = ufCompare(e);
    Z3_inc_ref(z3, r);
    return e->zub = r;
  }
  switch (e->k) {
    case K_CONST: r = e->v ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
    case K_EQ: r = e->a->w == 1 ? Z3_mk_iff(z3, toZ3bool(e->a), toZ3bool(e->b))
                                : Z3_mk_eq(z3, toZ3(e->a), toZ3(e->b));
      break;
    case K_ULT: r = Z3_mk_bvult(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_AND: {
      Z3_ast as[2] = {toZ3bool(e->a), toZ3bool(e->b)};
      r = Z3_mk_and(z3, 2, as);
      break;
    }
    case K_OR: {
      Z3_ast as[2] = {toZ3bool(e->a), toZ3bool(e->b)};
      r = Z3_mk_or(z3, 2, as);
      break;
    }
    case K_XOR:
      if (isC(e->b, 1))
        r = Z3_mk_not(z3, toZ3bool(e->a));
      else
        r = Z3_mk_xor(z3, toZ3bool(e->a), toZ3bool(e->b));
      break;
    case K_ITE:
      r = Z3_mk_ite(z3, toZ3bool(e->a), toZ3bool(e->b), toZ3bool(e->c));
      break;
    case K_FOEQ: r = Z3_mk_fpa_eq(z3, fpOf(e->a), fpOf(e->b)); break;
    case K_FOLT: r = Z3_mk_fpa_lt(z3, fpOf(e->a), fpOf(e->b)); break;
    case K_FOLE: r = Z3_mk_fpa_leq(z3, fpOf(e->a), fpOf(e->b)); break;
    case K_FISNAN: r = Z3_mk_fpa_is_nan(z3, fpOf(e->a)); break;
    default: r = Z3_mk_eq(z3, toZ3(e), Z3_mk_unsigned_int64(z3, 1, Z3_mk_bv_sort(z3, 1)));
  }
  Z3_inc_ref(z3, r);
  (u ? e->zub : e->zb) = r;
  return r;
}

// Division by a constant k: instead of a divider circuit, x = q * k + r with
// r < k and q <= max / k defines quotient and remainder uniquely.
Z3_ast Ctx::divByConst(E e) {
  if (e->b->k != K_CONST || e->w < 8 || e->w > 64) return nullptr;
  unsigned const w = e->w;
  bool const sg = e->k == K_SDIV || e->k == K_SREM;
  u64 k = e->b->v;
  bool const negk = sg && sx(k, w) < 0;
  if (negk) k = (0 - k) & maskw(w);
  if (k == 0 || (k & (k - 1)) == 0 || e->fp) return nullptr;
  Z3_ast x = toZ3(e->a);
  Z3_sort so = Z3_mk_bv_sort(z3, w);
  Z3_ast zero = Z3_mk_unsigned_int64(z3, 0, so), kk = Z3_mk_unsigned_int64(z3, k, so);
  Z3_ast neg = sg ? Z3_mk_bvslt(z3, x, zero) : nullptr;
  E const key = bin(sg ? K_SDIV : K_UDIV, e->a, cst(k, w));
  auto it = quotients_.find(key);
  if (it == quotients_.end()) {
    Z3_ast ax = sg ? Z3_mk_ite(z3, neg, Z3_mk_bvneg(z3, x), x) : x;
    std::string const n = "div!" + std::to_string(key->id);
    Z3_ast q = Z3_mk_const(z3, Z3_mk_string_symbol(z3, (n + "q").c_str()), so);
    Z3_ast r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, (n + "r").c_str()), so);
    Z3_inc_ref(z3, q);
    Z3_inc_ref(z3, r);
    it = quotients_.emplace(key, std::pair{q, r}).first;
    Z3_ast parts[3] = {Z3_mk_eq(z3, ax, Z3_mk_bvadd(z3, Z3_mk_bvmul(z3, q, kk), r)),
                       Z3_mk_bvult(z3, r, kk),
                       Z3_mk_bvule(z3, q, Z3_mk_unsigned_int64(z3, maskw(w) / k, so))};
    Z3_ast d = Z3_mk_and(z3, 3, parts);
    Z3_inc_ref(z3, d);
    divDef_.emplace(key, d);
  }
  divDef_.emplace(e, divDef_.at(key));
  auto const [q, r] = it->second;
  if (!sg) return e->k == K_UDIV ? q : r;
  if (e->k == K_SREM) return Z3_mk_ite(z3, neg, Z3_mk_bvneg(z3, r), r);
  Z3_ast flip = negk ? Z3_mk_not(z3, neg) : neg;
  return Z3_mk_ite(z3, flip, Z3_mk_bvneg(z3, q), q);
}

void Ctx::divDefs(E e, std::vector<Z3_ast>& out) {
  if (divDef_.empty() && (!uf || ufDef_.empty())) return;
  std::unordered_set<E> seen;
  std::unordered_set<Z3_ast> done;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    st.pop_back();
    if (!x || !seen.insert(x).second) continue;
    auto it = divDef_.find(x);
    if (it != divDef_.end() && done.insert(it->second).second) out.push_back(it->second);
    if (uf) {
      auto const f = ufDef_.find(x);
      if (f != ufDef_.end()) out.push_back(f->second);
    }
    st.push_back(x->a);
    st.push_back(x->b);
    st.push_back(x->c);
  }
}

Z3_ast Ctx::toZ3(E e) {
  bool const u = uf && e->fp;
  if (u ? e->zu : e->z) return u ? e->zu : e->z;
  Z3_ast r = nullptr;
  if (u && e->k >= K_FADD && e->k != K_FOEQ && e->k != K_FOLT && e->k != K_FOLE && e->k != K_FISNAN) {
    r = ufApp(e);
    Z3_inc_ref(z3, r);
    return e->zu = r;
  }
  auto bv1 = [&](Z3_ast b) {
    Z3_sort s = Z3_mk_bv_sort(z3, 1);
    return Z3_mk_ite(z3, b, Z3_mk_unsigned_int64(z3, 1, s),
                     Z3_mk_unsigned_int64(z3, 0, s));
  };
  switch (e->k) {
    case K_CONST: {
      Z3_sort s = Z3_mk_bv_sort(z3, e->w);
      if (e->w <= 64) {
        r = Z3_mk_unsigned_int64(z3, e->v, s);
      } else {
        llvm::SmallString<64> str;
        e->big->toStringUnsigned(str);
        r = Z3_mk_numeral(z3, std::string(str.str()).c_str(), s);
      }
      break;
    }
    case K_SYM:
      r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, symtab[e->v].name.c_str()),
                      Z3_mk_bv_sort(z3, e->w));
      break;
    case K_ADD: r = Z3_mk_bvadd(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_UDIV: r = (r = divByConst(e)) ? r : Z3_mk_bvudiv(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_SDIV: r = (r = divByConst(e)) ? r : Z3_mk_bvsdiv(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_UREM: r = (r = divByConst(e)) ? r : Z3_mk_bvurem(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_SREM: r = (r = divByConst(e)) ? r : Z3_mk_bvsrem(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_AND:
    case K_OR:
    case K_XOR:
      if (e->w == 1)
        r = bv1(toZ3bool(e));
      else
        r = e->k == K_AND  ? Z3_mk_bvand(z3, toZ3(e->a), toZ3(e->b))
            : e->k == K_OR ? Z3_mk_bvor(z3, toZ3(e->a), toZ3(e->b))
                           : Z3_mk_bvxor(z3, toZ3(e->a), toZ3(e->b));
      break;
    case K_SHL: r = Z3_mk_bvshl(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_EQ:
    case K_ULT:
    case K_ULE:
    case K_SLT:
    case K_SLE:
    case K_FOEQ:
    case K_FOLT:
    case K_FOLE:
    case K_FISNAN: r = bv1(toZ3bool(e)); break;
    case K_ITE: r = Z3_mk_ite(z3, toZ3bool(e->a), toZ3(e->b), toZ3(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(z3, toZ3(e->a), toZ3(e->b)); break;
    case K_EXTRACT:
      r = Z3_mk_extract(z3, e->aux + e->w - 1, e->aux, toZ3(e->a));
      break;
    case K_ZEXT: r = Z3_mk_zero_ext(z3, e->w - e->a->w, toZ3(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, toZ3(e->a)); break;
    case K_FADD:
    case K_FSUB:
    case K_FMUL:
    case K_FDIV:
    case K_FREM: {
      Z3_ast rm = Z3_mk_fpa_rne(z3);
      Z3_ast a = fpOf(e->a), b = fpOf(e->b), f = nullptr;
      if (e->k == K_FADD) f = Z3_mk_fpa_add(z3, rm, a, b);
      if (e->k == K_FSUB) f = Z3_mk_fpa_sub(z3, rm, a, b);
      if (e->k == K_FMUL) f = Z3_mk_fpa_mul(z3, rm, a, b);
      if (e->k == K_FDIV) f = Z3_mk_fpa_div(z3, rm, a, b);
      if (e->k == K_FREM) f = Z3_mk_fpa_rem(z3, a, b);
      r = Z3_mk_fpa_to_ieee_bv(z3, f);
      break;
    }
    case K_FMA:
      r = Z3_mk_fpa_to_ieee_bv(
          z3, Z3_mk_fpa_fma(z3, Z3_mk_fpa_rne(z3), fpOf(e->a), fpOf(e->b), fpOf(e->c)));
      break;
    case K_FSQRT:
      r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_sqrt(z3, Z3_mk_fpa_rne(z3), fpOf(e->a)));
      break;
    case K_FPTOSI:
      r = Z3_mk_fpa_to_sbv(z3, Z3_mk_fpa_rtz(z3), fpOf(e->a), e->w);
      break;
    case K_FPTOUI:
      r = Z3_mk_fpa_to_ubv(z3, Z3_mk_fpa_rtz(z3), fpOf(e->a), e->w);
      break;
    case K_SITOFP:
      r = Z3_mk_fpa_to_ieee_bv(
          z3, Z3_mk_fpa_to_fp_signed(z3, Z3_mk_fpa_rne(z3), toZ3(e->a), fpsort(z3, e->w)));
      break;
    case K_UITOFP:
      r = Z3_mk_fpa_to_ieee_bv(
          z3, Z3_mk_fpa_to_fp_unsigned(z3, Z3_mk_fpa_rne(z3), toZ3(e->a), fpsort(z3, e->w)));
      break;
    case K_FPTRUNC:
    case K_FPEXT:
      r = Z3_mk_fpa_to_ieee_bv(
          z3, Z3_mk_fpa_to_fp_float(z3, Z3_mk_fpa_rne(z3), fpOf(e->a), fpsort(z3, e->w)));
      break;
    case K_FRINT: {
      Z3_ast rm = e->aux == 0   ? Z3_mk_fpa_rne(z3)
                  : e->aux == 1 ? Z3_mk_fpa_rna(z3)
                  : e->aux == 2 ? Z3_mk_fpa_rtn(z3)
                  : e->aux == 3 ? Z3_mk_fpa_rtp(z3)
                                : Z3_mk_fpa_rtz(z3);
      r = Z3_mk_fpa_to_ieee_bv(z3, Z3_mk_fpa_round_to_integral(z3, rm, fpOf(e->a)));
      break;
    }
    default: fprintf(stderr, "toZ3 kind %d\n", e->k); abort();
  }
  Z3_inc_ref(z3, r);
  (u ? e->zu : e->z) = r;
  return r;
}
