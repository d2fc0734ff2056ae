// helpers for harnesses: symbolic vectors and tiny reference models
#pragma once
#include "sym.h"
#include <algorithm>
#include <array>
#include <limits>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace vp {
template <typename T = std::uint8_t>
std::vector<T> vec(unsigned n, unsigned bits = 8 * sizeof(T), char const* name = "x") {
  std::vector<T> v;
  v.reserve(n);
  for (unsigned i = 0; i < n; ++i) v.push_back(static_cast<T>(sym_make(name, bits)));
  return v;
}
template <typename T = std::uint8_t>
std::vector<T> any_vec(unsigned max, unsigned bits = 8 * sizeof(T), char const* name = "x") {
  return vec<T>(static_cast<unsigned>(sym::pick(0, max, "len")), bits, name);
}
template <typename T>
void assume_sorted(std::vector<T> const& v) {
  for (std::size_t i = 1; i < v.size(); ++i) sym_assume(!(v[i] < v[i - 1]));
}
template <typename T>
void assume_strictly_sorted(std::vector<T> const& v) {
  for (std::size_t i = 1; i < v.size(); ++i) sym_assume(v[i - 1] < v[i]);
}
// branch-free occurrences of x in c
template <typename C, typename T>
unsigned occ(C const& c, T const& x) {
  unsigned n = 0;
  for (auto const& y : c) n += static_cast<unsigned>(y == x);
  return n;
}
template <typename C, typename T>
bool in(C const& c, T const& x) {
  bool r = false;
  for (auto const& y : c) r |= (y == x);
  return r;
}
}  // namespace vp
