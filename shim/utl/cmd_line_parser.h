#pragma once
#include <utility>
#define UTL_LONG(x) 0
#define UTL_SHORT(x) 0
#define UTL_DESC(x) 0
namespace utl {
template <typename T, int... Tags>
struct cmd_line_flag {
  template <typename... A>
  explicit(false) cmd_line_flag(A&&... a) : v_(std::forward<A>(a)...) {}
  T& val() { return v_; }
  T const& val() const { return v_; }
  T v_;
};
}  // namespace utl
