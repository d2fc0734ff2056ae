// Minimal stand-in for the "utl" library (not available in this sandbox).
// Same interface and documented behaviour as far as soro-s uses it.
#pragma once
#include <cstddef>
#include <cstring>
#include <algorithm>
#include <filesystem>
#include <functional>
#include <iterator>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <mutex>

extern "C" void sym_observe(std::uint64_t v);

namespace utl {

template <typename... Args>
std::runtime_error fail(std::string_view msg, Args const&...) {
  return std::runtime_error(std::string{msg});
}
template <typename... Args>
inline void verify(bool c, std::string_view msg, Args const&...) {
  if (!c) throw std::runtime_error(std::string{msg});
}
template <typename Fn, typename... Args>
inline void verify_ex(bool c, Fn&& ex) {
  if (!c) throw ex;
}

// ---- logging: discarded
enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };
struct null_log {
  // numbers are observed, so that computing what is logged is part of what is
  // checked (a division by zero in a log message is one in the program)
  template <typename T>
  null_log const& operator<<(T const& v) const {
    if constexpr (std::is_integral_v<T>) sym_observe(static_cast<std::uint64_t>(v));
    return *this;
  }
};
struct scoped_timer {
  template <typename T>
  explicit scoped_timer(T&&) {}
  scoped_timer(scoped_timer const&) = delete;
  template <typename T>
  void print(T&&) const {}
  ~scoped_timer() {}
};

// ---- containers
template <typename T, typename O>
void concat(T& a, O const& b) {
  a.insert(std::end(a), std::begin(b), std::end(b));
}
template <typename C, typename T>
void erase(C& c, T const& t) {
  c.erase(std::remove(std::begin(c), std::end(c), t), std::end(c));
}
template <typename C, typename P>
void erase_if(C& c, P&& p) {
  c.erase(std::remove_if(std::begin(c), std::end(c), p), std::end(c));
}
template <typename C>
void erase_duplicates(C& c) {
  std::sort(std::begin(c), std::end(c));
  c.erase(std::unique(std::begin(c), std::end(c)), std::end(c));
}
template <typename C, typename L>
void erase_duplicates(C& c, L&& less) {
  std::sort(std::begin(c), std::end(c), less);
  c.erase(std::unique(std::begin(c), std::end(c),
                      [&](auto const& a, auto const& b) { return !less(a, b) && !less(b, a); }),
          std::end(c));
}
template <typename C, typename L, typename Eq>
void erase_duplicates(C& c, L&& less, Eq&& eq) {
  std::sort(std::begin(c), std::end(c), less);
  c.erase(std::unique(std::begin(c), std::end(c), eq), std::end(c));
}
template <typename M, typename K, typename F>
auto get_or_create(M& m, K const& k, F&& f) -> decltype(m.at(k))& {
  auto it = m.find(k);
  if (it != std::end(m)) return it->second;
  return m[k] = f();
}
template <typename C, typename F>
auto to_vec(C&& c, F&& f) {
  using T = std::decay_t<decltype(f(*std::begin(c)))>;
  std::vector<T> r;
  r.reserve(static_cast<std::size_t>(std::distance(std::begin(c), std::end(c))));
  for (auto&& x : c) r.push_back(f(x));
  return r;
}
template <typename It, typename F>
auto to_vec(It b, It e, F&& f) {
  using T = std::decay_t<decltype(f(*b))>;
  std::vector<T> r;
  for (; b != e; ++b) r.push_back(f(*b));
  return r;
}
template <typename C, typename F>
auto to_set(C&& c, F&& f) {
  using T = std::decay_t<decltype(f(*std::begin(c)))>;
  std::set<T> r;
  for (auto&& x : c) r.insert(f(x));
  return r;
}

template <class... Ts>
struct overloaded : Ts... {
  using Ts::operator()...;
};
template <class... Ts>
overloaded(Ts...) -> overloaded<Ts...>;

// ---- views
template <typename C>
struct holder {
  C c;
};
template <typename C>
struct pairwise_view {
  C c_;  // C is a reference for lvalues, a value for rvalues
  using It = decltype(std::begin(std::declval<C&>()));
  struct iterator {
    using iterator_category = std::input_iterator_tag;
    using value_type = std::pair<decltype(*std::declval<It>()), decltype(*std::declval<It>())>;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = value_type;
    It a, b;
    value_type operator*() const { return {*a, *b}; }
    iterator& operator++() {
      ++a;
      ++b;
      return *this;
    }
    iterator operator++(int) {
      auto t = *this;
      ++*this;
      return t;
    }
    bool operator==(iterator const& o) const { return b == o.b; }
    bool operator!=(iterator const& o) const { return !(b == o.b); }
  };
  iterator begin() const {
    auto& c = const_cast<std::remove_const_t<std::remove_reference_t<C>>&>(c_);
    It b = std::begin(c), e = std::end(c);
    if (b == e) return {b, b};
    return {b, std::next(b)};
  }
  iterator end() const {
    auto& c = const_cast<std::remove_const_t<std::remove_reference_t<C>>&>(c_);
    return {std::end(c), std::end(c)};
  }
};
template <typename C>
pairwise_view<C> pairwise(C&& c) {
  return {std::forward<C>(c)};
}
template <typename C>
struct enumerate_view {
  C c_;
  using It = decltype(std::begin(std::declval<C&>()));
  struct iterator {
    using iterator_category = std::input_iterator_tag;
    using value_type = std::tuple<std::size_t, decltype(*std::declval<It>())>;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = value_type;
    It a;
    std::size_t i;
    value_type operator*() const { return {i, *a}; }
    iterator& operator++() {
      ++a;
      ++i;
      return *this;
    }
    bool operator==(iterator const& o) const { return a == o.a; }
    bool operator!=(iterator const& o) const { return !(a == o.a); }
  };
  iterator begin() { return {std::begin(c_), 0}; }
  iterator end() { return {std::end(c_), 0}; }
};
template <typename C>
enumerate_view<C> enumerate(C&& c) {
  return {std::forward<C>(c)};
}
template <typename A, typename B>
struct zip_view {
  A a_;
  B b_;
  using ItA = decltype(std::begin(std::declval<A&>()));
  using ItB = decltype(std::begin(std::declval<B&>()));
  struct iterator {
    using iterator_category = std::input_iterator_tag;
    using value_type = std::tuple<decltype(*std::declval<ItA>()), decltype(*std::declval<ItB>())>;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = value_type;
    ItA a;
    ItB b;
    value_type operator*() const { return {*a, *b}; }
    iterator& operator++() {
      ++a;
      ++b;
      return *this;
    }
    bool operator==(iterator const& o) const { return a == o.a; }
    bool operator!=(iterator const& o) const { return !(a == o.a); }
  };
  iterator begin() { return {std::begin(a_), std::begin(b_)}; }
  iterator end() { return {std::end(a_), std::end(b_)}; }
};
template <typename A, typename B>
zip_view<A, B> zip(A&& a, B&& b) {
  if (std::distance(std::begin(a), std::end(a)) != std::distance(std::begin(b), std::end(b)))
    throw std::runtime_error("zip: size mismatch");
  return {std::forward<A>(a), std::forward<B>(b)};
}

// ---- parallel_for: sequential in the model
template <typename F>
void parallel_for_run(std::size_t n, F&& f) {
  for (std::size_t i = 0; i < n; ++i) f(i);
}
template <typename C, typename F>
void parallel_for(C& c, F&& f) {
  for (auto& x : c) f(x);
}
template <typename C, typename F>
void parallel_for(std::string const&, C& c, std::size_t, F&& f) {
  for (auto& x : c) f(x);
}

}  // namespace utl

#define uLOG(lvl) (static_cast<void>(lvl), ::utl::null_log{})
