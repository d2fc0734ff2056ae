// Minimal stand-in for the "cista" library (not available in this sandbox):
// the container semantics soro-s relies on, without (de)serialisation.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cassert>
#include <cinttypes>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "vp_files.h"

namespace cista {

using hash_t = std::uint64_t;
using offset_t = std::intptr_t;
template <typename... A>
constexpr hash_t hash(A&&...) { return 0; }
template <typename... A>
constexpr hash_t hash_combine(hash_t h, A&&...) { return h; }
template <typename T>
hash_t type_hash(T const&, hash_t h, std::map<hash_t, unsigned>&) { return h; }
template <typename C, typename T>
void serialize(C&, T const*, offset_t) {}
template <typename C, typename T>
void deserialize(C const&, T*) {}

template <typename T>
inline constexpr bool is_pointer_v = std::is_pointer_v<T>;
template <typename T>
using remove_pointer_t = std::remove_pointer_t<T>;

enum class mode { NONE = 0 };
struct mmap {
  enum class protection { READ, WRITE, MODIFY };
  mmap() = default;
  explicit mmap(char const* name, protection = protection::WRITE) : f_{vp::find_file(name)} {
    if (!f_) throw std::runtime_error("no such file");
  }
  mmap(mmap&& o) noexcept : f_{std::exchange(o.f_, nullptr)} {}
  mmap& operator=(mmap&& o) noexcept {
    f_ = std::exchange(o.f_, nullptr);
    return *this;
  }
  mmap(mmap const&) = delete;
  mmap& operator=(mmap const&) = delete;
  std::size_t size() const { return f_ ? f_->bytes.size() : 0; }
  unsigned char* data() { return f_ ? reinterpret_cast<unsigned char*>(f_->bytes.data()) : nullptr; }
  unsigned char const* data() const { return f_ ? reinterpret_cast<unsigned char const*>(f_->bytes.data()) : nullptr; }
  std::string_view view() const { return {reinterpret_cast<char const*>(data()), size()}; }
  unsigned char const* begin() const { return data(); }
  unsigned char const* end() const { return data() + size(); }

private:
  vp::file* f_{nullptr};
};
template <typename T, mode M = mode::NONE, typename C>
T* deserialize(C&&) { throw std::runtime_error("cista::deserialize is not available in the model"); }

// ---------------------------------------------------------------- optional
template <typename T>
struct optional {
  optional() = default;
  optional(std::nullopt_t) {}
  optional(T const& t) : o_{t} {}
  optional(T&& t) : o_{std::move(t)} {}
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, optional>>>
  optional(U&& u) : o_{T(std::forward<U>(u))} {}
  bool has_value() const noexcept { return o_.has_value(); }
  explicit operator bool() const noexcept { return has_value(); }
  T& value() & { if (!o_) throw std::runtime_error("bad optional access"); return *o_; }
  T const& value() const& { if (!o_) throw std::runtime_error("bad optional access"); return *o_; }
  T& operator*() { return value(); }
  T const& operator*() const { return value(); }
  T* operator->() { return &value(); }
  T const* operator->() const { return &value(); }
  void reset() { o_.reset(); }
  bool operator==(optional const& o) const { return o_ == o.o_; }
  std::optional<T> o_;
};

template <typename... T>
struct tuple {};

// ---------------------------------------------------------------- bitset
template <std::size_t Size>
struct bitset {
  using block_t = std::uint64_t;
  static constexpr std::size_t bits_per_block = 64;
  static constexpr std::size_t num_blocks = (Size + 63) / 64;
  constexpr bitset() noexcept = default;
  constexpr bitset(std::string_view s) noexcept { set(s); }
  static constexpr bitset max() {
    bitset r;
    for (auto& b : r.blocks_) b = ~block_t{0};
    return r;
  }
  constexpr void set(std::string_view s) noexcept {
    for (std::size_t i = 0U; i != std::min(Size, s.size()); ++i) set(i, s[s.size() - i - 1] != '0');
  }
  constexpr void set(std::size_t i, bool v = true) noexcept {
    if (i >= Size) return;
    auto& block = blocks_[i / 64];
    auto const bit = i % 64;
    if (v)
      block |= (block_t{1U} << bit);
    else
      block &= ~(block_t{1U} << bit);
  }
  constexpr void reset() noexcept { blocks_ = {}; }
  constexpr bool operator[](std::size_t i) const noexcept { return test(i); }
  std::size_t count() const noexcept {
    std::size_t s = 0;
    for (std::size_t i = 0; i + 1 < num_blocks; ++i) s += static_cast<std::size_t>(std::popcount(blocks_[i]));
    return s + static_cast<std::size_t>(std::popcount(last()));
  }
  constexpr bool test(std::size_t i) const noexcept {
    if (i >= Size) return false;
    return (blocks_[i / 64] & (block_t{1U} << (i % 64))) != 0U;
  }
  std::size_t size() const { return Size; }
  bool any() const {
    for (std::size_t i = 0; i + 1 < num_blocks; ++i)
      if (blocks_[i] != 0) return true;
    return last() != 0;
  }
  bool none() const { return !any(); }
  block_t last() const noexcept {
    if constexpr ((Size % 64) != 0U)
      return blocks_[num_blocks - 1] & ~((~block_t{0}) << (Size % 64));
    else
      return blocks_[num_blocks - 1];
  }
  friend bool operator==(bitset const& a, bitset const& b) noexcept {
    for (std::size_t i = 0; i + 1 < num_blocks; ++i)
      if (a.blocks_[i] != b.blocks_[i]) return false;
    return a.last() == b.last();
  }
  friend bool operator!=(bitset const& a, bitset const& b) noexcept { return !(a == b); }
  friend bool operator<(bitset const& a, bitset const& b) noexcept { return a.blocks_ < b.blocks_; }
  bitset& operator&=(bitset const& o) noexcept {
    for (std::size_t i = 0; i < num_blocks; ++i) blocks_[i] &= o.blocks_[i];
    return *this;
  }
  bitset& operator|=(bitset const& o) noexcept {
    for (std::size_t i = 0; i < num_blocks; ++i) blocks_[i] |= o.blocks_[i];
    return *this;
  }
  bitset& operator^=(bitset const& o) noexcept {
    for (std::size_t i = 0; i < num_blocks; ++i) blocks_[i] ^= o.blocks_[i];
    return *this;
  }
  bitset operator~() const noexcept {
    auto r = *this;
    for (auto& b : r.blocks_) b = ~b;
    return r;
  }
  friend bitset operator&(bitset a, bitset const& b) noexcept { return a &= b; }
  friend bitset operator|(bitset a, bitset const& b) noexcept { return a |= b; }
  friend bitset operator^(bitset a, bitset const& b) noexcept { return a ^= b; }
  bitset& operator>>=(std::size_t shift) noexcept {
    if (shift >= Size) {
      reset();
      return *this;
    }
    if constexpr ((Size % 64) != 0U) blocks_[num_blocks - 1] = last();
    std::size_t const sb = shift / 64, sr = shift % 64;
    for (std::size_t i = 0; i < num_blocks; ++i) {
      block_t lo = i + sb < num_blocks ? blocks_[i + sb] : 0;
      block_t hi = i + sb + 1 < num_blocks ? blocks_[i + sb + 1] : 0;
      blocks_[i] = sr == 0 ? lo : ((lo >> sr) | (hi << (64 - sr)));
    }
    return *this;
  }
  bitset& operator<<=(std::size_t shift) noexcept {
    if (shift >= Size) {
      reset();
      return *this;
    }
    std::size_t const sb = shift / 64, sr = shift % 64;
    for (std::size_t k = num_blocks; k-- > 0;) {
      block_t hi = k >= sb ? blocks_[k - sb] : 0;
      block_t lo = k >= sb + 1 ? blocks_[k - sb - 1] : 0;
      blocks_[k] = sr == 0 ? hi : ((hi << sr) | (lo >> (64 - sr)));
    }
    return *this;
  }
  bitset operator>>(std::size_t i) const noexcept {
    auto c = *this;
    c >>= i;
    return c;
  }
  bitset operator<<(std::size_t i) const noexcept {
    auto c = *this;
    c <<= i;
    return c;
  }
  std::array<block_t, num_blocks> blocks_{};
};

// ---------------------------------------------------------------- variant
struct no_value {};
template <typename... T>
struct variant {
  using index_t = std::uint8_t;
  static constexpr index_t NO_VALUE = 255;
  variant() noexcept : idx_{NO_VALUE} {}
  template <typename A, typename = std::enable_if_t<(std::is_same_v<std::decay_t<A>, T> || ...)>>
  variant(A&& a) : idx_{idx_of<std::decay_t<A>>()} {
    new (&s_) std::decay_t<A>(std::forward<A>(a));
  }
  variant(variant const& o) : idx_{o.idx_} {
    if (idx_ != NO_VALUE) o.apply([this](auto const& t) { new (&s_) std::decay_t<decltype(t)>(t); });
  }
  variant(variant&& o) noexcept : idx_{o.idx_} {
    if (idx_ != NO_VALUE) o.apply([this](auto& t) { new (&s_) std::decay_t<decltype(t)>(std::move(t)); });
  }
  variant& operator=(variant const& o) {
    if (this == &o) return *this;
    destruct();
    idx_ = o.idx_;
    if (idx_ != NO_VALUE) o.apply([this](auto const& t) { new (&s_) std::decay_t<decltype(t)>(t); });
    return *this;
  }
  variant& operator=(variant&& o) noexcept {
    if (this == &o) return *this;
    destruct();
    idx_ = o.idx_;
    if (idx_ != NO_VALUE) o.apply([this](auto& t) { new (&s_) std::decay_t<decltype(t)>(std::move(t)); });
    return *this;
  }
  template <typename A, typename = std::enable_if_t<(std::is_same_v<std::decay_t<A>, T> || ...)>>
  variant& operator=(A&& a) {
    variant t{std::forward<A>(a)};
    return *this = std::move(t);
  }
  ~variant() { destruct(); }
  bool valid() const noexcept { return idx_ != NO_VALUE; }
  template <typename A, typename... Args>
  A& emplace(Args&&... args) {
    destruct();
    idx_ = idx_of<A>();
    return *new (&s_) A{std::forward<Args>(args)...};
  }
  std::size_t index() const noexcept { return idx_; }
  template <typename A>
  A& as() noexcept { return *reinterpret_cast<A*>(&s_); }
  template <typename A>
  A const& as() const noexcept { return *reinterpret_cast<A const*>(&s_); }
  template <typename F>
  decltype(auto) apply(F&& f) {
    return go<0>(std::forward<F>(f), *this);
  }
  template <typename F>
  decltype(auto) apply(F&& f) const {
    return go<0>(std::forward<F>(f), *this);
  }
  template <typename A>
  static constexpr index_t idx_of() {
    index_t r = 0;
    bool found = false;
    ((found = found || std::is_same_v<A, T>, r = static_cast<index_t>(r + (found ? 0 : 1))), ...);
    return r;
  }
  friend bool operator==(variant const& a, variant const& b) {
    if (a.idx_ != b.idx_) return false;
    if (a.idx_ == NO_VALUE) return true;
    return a.apply([&](auto const& x) { return x == b.template as<std::decay_t<decltype(x)>>(); });
  }

  template <std::size_t I, typename F, typename Self>
  static decltype(auto) go(F&& f, Self& s) {
    using A = std::tuple_element_t<I, std::tuple<T...>>;
    if constexpr (I + 1 == sizeof...(T)) {
      return f(s.template as<A>());
    } else {
      // alternatives a visitor without results does not know are passed over
      if constexpr (std::is_invocable_v<F&, decltype(s.template as<A>())>) {
        if (s.idx_ == I) return f(s.template as<A>());
      } else {
        if (s.idx_ == I) return;
      }
      return go<I + 1>(std::forward<F>(f), s);
    }
  }
  void destruct() {
    if (idx_ != NO_VALUE) apply([](auto& t) {
      using A = std::decay_t<decltype(t)>;
      t.~A();
    });
    idx_ = NO_VALUE;
  }
  index_t idx_{NO_VALUE};
  alignas(T...) unsigned char s_[std::max({sizeof(T)...})];
};
template <typename A, typename... T>
bool holds_alternative(variant<T...> const& v) noexcept {
  return v.index() == variant<T...>::template idx_of<A>();
}

// (strings are those of the standard library, this one is only named)
template <typename Ptr>
struct basic_string {
  std::string s_;
  std::string_view view() const { return s_; }
};
namespace offset {
template <typename... T>
using variant = cista::variant<T...>;

template <typename T, std::size_t N>
struct array {
  using value_type = T;
  using size_type = std::uint32_t;
  constexpr size_type size() const noexcept { return static_cast<size_type>(N); }
  constexpr bool empty() const noexcept { return N == 0; }
  constexpr T const& operator[](std::size_t i) const noexcept { return el_[i]; }
  constexpr T& operator[](std::size_t i) noexcept { return el_[i]; }
  constexpr T const& at(std::size_t i) const { if (i >= N) throw std::out_of_range{"array index out of range"}; return el_[i]; }
  constexpr T& at(std::size_t i) { if (i >= N) throw std::out_of_range{"array index out of range"}; return el_[i]; }
  constexpr T* begin() noexcept { return el_; }
  constexpr T const* begin() const noexcept { return el_; }
  constexpr T* end() noexcept { return el_ + N; }
  constexpr T const* end() const noexcept { return el_ + N; }
  constexpr T const* data() const noexcept { return el_; }
  constexpr T* data() noexcept { return el_; }
  constexpr T const& front() const { return el_[0]; }
  constexpr T const& back() const { return el_[N - 1]; }
  friend constexpr bool operator==(array const& a, array const& b) {
    for (std::size_t i = 0; i < N; ++i)
      if (!(a.el_[i] == b.el_[i])) return false;
    return true;
  }
  T el_[N];
};

template <typename T>
struct hash_set {
  using value_type = T;
  using iterator = typename std::vector<T>::const_iterator;
  using const_iterator = iterator;
  iterator begin() const { return v_.begin(); }
  iterator end() const { return v_.end(); }
  iterator find(T const& t) const { return std::find(v_.begin(), v_.end(), t); }
  bool contains(T const& t) const { return find(t) != end(); }
  std::size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void clear() { v_.clear(); }
  template <typename A>
  std::pair<iterator, bool> insert(A&& a) { return emplace(std::forward<A>(a)); }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) {
    T t(std::forward<A>(a)...);
    auto it = find(t);
    if (it != end()) return {it, false};
    v_.push_back(std::move(t));
    return {std::prev(v_.cend()), true};
  }
  std::size_t erase(T const& t) {
    auto it = find(t);
    if (it == end()) return 0;
    v_.erase(it);
    return 1;
  }
  std::vector<T> v_;
};

struct bitvec {
  using block_t = std::uint64_t;
  using size_type = std::uint32_t;
  static constexpr size_type bits_per_block = 64;
  bitvec() noexcept = default;
  static constexpr size_type num_blocks(size_type n) { return n / 64 + (n % 64 == 0 ? 0 : 1); }
  void resize(size_type n) {
    if (n == size_) return;
    blocks_.resize(num_blocks(n));
    size_ = n;
  }
  void set(size_type i, bool v = true) noexcept {
    auto& block = blocks_[i / 64];
    auto const bit = i % 64;
    if (v)
      block |= (block_t{1U} << bit);
    else
      block &= ~(block_t{1U} << bit);
  }
  void reset() noexcept {
    blocks_ = {};
    size_ = 0;
  }
  bool operator[](size_type i) const noexcept { return test(i); }
  bool test(size_type i) const noexcept {
    if (i >= size_) return false;
    return (blocks_[i / 64] & (block_t{1U} << (i % 64))) != 0U;
  }
  std::size_t count() const noexcept {
    if (empty()) return 0;
    std::size_t s = 0;
    for (std::size_t i = 0; i + 1 < blocks_.size(); ++i) s += static_cast<std::size_t>(std::popcount(blocks_[i]));
    return s + static_cast<std::size_t>(std::popcount(last()));
  }
  size_type size() const noexcept { return size_; }
  bool empty() const noexcept { return size_ == 0; }
  bool any() const {
    if (empty()) return false;
    for (std::size_t i = 0; i + 1 < blocks_.size(); ++i)
      if (blocks_[i] != 0) return true;
    return last() != 0;
  }
  bool none() const { return !any(); }
  block_t last() const noexcept {
    if ((size_ % 64) != 0U) return blocks_.back() & ~((~block_t{0}) << (size_ % 64));
    return blocks_.back();
  }
  friend bool operator==(bitvec const& a, bitvec const& b) noexcept {
    if (a.size_ != b.size_) return false;
    if (a.empty()) return true;
    for (std::size_t i = 0; i + 1 < a.blocks_.size(); ++i)
      if (a.blocks_[i] != b.blocks_[i]) return false;
    return a.last() == b.last();
  }
  friend bool operator!=(bitvec const& a, bitvec const& b) noexcept { return !(a == b); }
  bitvec& operator>>=(std::size_t shift) noexcept {
    if (shift >= size_) {
      for (auto& b : blocks_) b = 0;
      return *this;
    }
    if ((size_ % 64) != 0U) blocks_[blocks_.size() - 1] = last();
    std::size_t const sb = shift / 64, sr = shift % 64, n = blocks_.size();
    for (std::size_t i = 0; i < n; ++i) {
      block_t lo = i + sb < n ? blocks_[i + sb] : 0;
      block_t hi = i + sb + 1 < n ? blocks_[i + sb + 1] : 0;
      blocks_[i] = sr == 0 ? lo : ((lo >> sr) | (hi << (64 - sr)));
    }
    return *this;
  }
  bitvec& operator<<=(std::size_t shift) noexcept {
    if (shift >= size_) {
      for (auto& b : blocks_) b = 0;
      return *this;
    }
    std::size_t const sb = shift / 64, sr = shift % 64, n = blocks_.size();
    for (std::size_t k = n; k-- > 0;) {
      block_t hi = k >= sb ? blocks_[k - sb] : 0;
      block_t lo = k >= sb + 1 ? blocks_[k - sb - 1] : 0;
      blocks_[k] = sr == 0 ? hi : ((hi << sr) | (lo >> (64 - sr)));
    }
    return *this;
  }
  // cista::offset::vector has a 32 bit size_type
  struct block_vector : std::vector<block_t> {
    using size_type = std::uint32_t;
    using std::vector<block_t>::vector;
    size_type size() const noexcept { return static_cast<size_type>(std::vector<block_t>::size()); }
  };
  block_vector blocks_;
  size_type size_{0};
};

template <typename Index, typename T>
struct fws_multimap {
  void push_back_key() { d_.emplace_back(); }
  std::vector<std::vector<T>> d_;
  std::vector<T> const& operator[](std::size_t i) const { return d_[i]; }
  std::size_t size() const { return d_.size(); }
};
using string = std::string;
using string_view = std::string_view;
template <typename T>
using vector = std::vector<T>;
template <typename K, typename V>
using hash_map = std::map<K, V>;
template <typename A, typename B>
using pair = std::pair<A, B>;
template <typename T>
using unique_ptr = std::unique_ptr<T>;
template <typename T>
using ptr = T*;
}  // namespace offset
namespace raw {
template <typename T>
using hash_set = offset::hash_set<T>;
using bitvec = offset::bitvec;
}  // namespace raw

// ---------------------------------------------------------------- reflection
namespace detail {
struct any_t {
  template <typename T>
  operator T() const;
};
template <typename T, std::size_t... I>
constexpr bool brace(std::index_sequence<I...>) {
  return requires { T{(static_cast<void>(I), any_t{})...}; };
}
template <typename T, std::size_t N>
constexpr std::size_t arity() {
  if constexpr (N == 0)
    return 0;
  else if constexpr (brace<T>(std::make_index_sequence<N>{}))
    return N;
  else
    return arity<T, N - 1>();
}
}  // namespace detail
template <typename T>
auto to_tuple(T const& t) {
  constexpr auto n = detail::arity<T, 12>();
  if constexpr (n == 1) { auto& [a] = t; return std::tie(a); }
  else if constexpr (n == 2) { auto& [a, b] = t; return std::tie(a, b); }
  else if constexpr (n == 3) { auto& [a, b, c] = t; return std::tie(a, b, c); }
  else if constexpr (n == 4) { auto& [a, b, c, d] = t; return std::tie(a, b, c, d); }
  else if constexpr (n == 5) { auto& [a, b, c, d, e] = t; return std::tie(a, b, c, d, e); }
  else if constexpr (n == 6) { auto& [a, b, c, d, e, f] = t; return std::tie(a, b, c, d, e, f); }
  else if constexpr (n == 7) { auto& [a, b, c, d, e, f, g] = t; return std::tie(a, b, c, d, e, f, g); }
  else if constexpr (n == 8) { auto& [a, b, c, d, e, f, g, h] = t; return std::tie(a, b, c, d, e, f, g, h); }
  else if constexpr (n == 9) { auto& [a, b, c, d, e, f, g, h, i] = t; return std::tie(a, b, c, d, e, f, g, h, i); }
  else if constexpr (n == 10) { auto& [a, b, c, d, e, f, g, h, i, j] = t; return std::tie(a, b, c, d, e, f, g, h, i, j); }
}
}  // namespace cista

namespace std {
template <typename A, typename... T>
A& get(cista::variant<T...>& v) {
  if (!cista::holds_alternative<A>(v)) throw std::runtime_error("bad variant access");
  return v.template as<A>();
}
template <typename A, typename... T>
A const& get(cista::variant<T...> const& v) {
  if (!cista::holds_alternative<A>(v)) throw std::runtime_error("bad variant access");
  return v.template as<A>();
}
}  // namespace std

#define CISTA_COMPARABLE()                                                                       \
  template <typename T>                                                                          \
  bool operator==(T const& b) const { return cista::to_tuple(*this) == cista::to_tuple(b); }     \
  template <typename T>                                                                          \
  bool operator<(T const& b) const { return cista::to_tuple(*this) < cista::to_tuple(b); }       \
  template <typename T>                                                                          \
  bool operator<=(T const& b) const { return cista::to_tuple(*this) <= cista::to_tuple(b); }     \
  template <typename T>                                                                          \
  bool operator>(T const& b) const { return cista::to_tuple(*this) > cista::to_tuple(b); }       \
  template <typename T>                                                                          \
  bool operator>=(T const& b) const { return cista::to_tuple(*this) >= cista::to_tuple(b); }
