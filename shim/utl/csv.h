// comma separated values: the first line names the columns, in any order
#pragma once
#include <string>
#include <string_view>
#include <vector>
#include "utl/all.h"
namespace utl {
struct cstr {
  std::string s_;
  std::string to_str() const { return s_; }
  std::string_view view() const { return s_; }
  bool empty() const { return s_.empty(); }
  std::size_t length() const { return s_.size(); }
};
template <std::size_t N>
struct col_name {
  constexpr col_name(char const (&s)[N]) {
    for (std::size_t i = 0; i < N; ++i) s_[i] = s[i];
  }
  char s_[N]{};
};
#define UTL_NAME(x) ::utl::col_name { x }
template <typename T, col_name Name>
struct csv_col {
  static constexpr char const* name() { return Name.s_; }
  T const& val() const { return v_; }
  T const& operator*() const { return v_; }
  T const* operator->() const { return &v_; }
  T v_{};
};
struct buf_reader {
  explicit(false) buf_reader(std::string_view const s) : s_(s) {}
  std::string_view s_;
};
struct line_range {
  explicit line_range(buf_reader r) : r_(r) {}
  buf_reader r_;
};
template <typename Row>
struct csv_t {};
template <typename Row>
csv_t<Row> csv() {
  return {};
}
template <typename Row>
struct csv_rows {
  std::vector<Row> rows_;
  auto begin() { return rows_.begin(); }
  auto end() { return rows_.end(); }
};
namespace detail {
template <typename Row, typename Fn>
void for_each_col(Row& row, Fn&& fn) {
  auto& [a, b, c] = row;
  fn(a), fn(b), fn(c);
}
inline std::vector<std::string_view> cut(std::string_view s, char const at) {
  std::vector<std::string_view> r;
  std::size_t from = 0;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] == at) {
      r.push_back(s.substr(from, i - from));
      from = i + 1;
    }
  r.push_back(s.substr(from));
  return r;
}
}  // namespace detail
template <typename Row>
csv_rows<Row> operator|(line_range const& l, csv_t<Row>) {
  csv_rows<Row> r;
  auto lines = detail::cut(l.r_.s_, '\n');
  for (auto& line : lines)
    if (!line.empty() && line.back() == '\r') line.remove_suffix(1);
  auto const header = detail::cut(lines[0], ',');
  for (std::size_t i = 1; i < lines.size(); ++i) {
    if (lines[i].empty()) continue;
    auto const cells = detail::cut(lines[i], ',');
    Row row;
    detail::for_each_col(row, [&](auto& col) {
      for (std::size_t k = 0; k < header.size() && k < cells.size(); ++k)
        if (header[k] == col.name()) col.v_.s_ = std::string(cells[k]);
    });
    r.rows_.push_back(row);
  }
  return r;
}
template <typename Fn>
struct for_each_t {
  Fn fn_;
};
template <typename Fn>
for_each_t<Fn> for_each(Fn fn) {
  return {fn};
}
template <typename Row, typename Fn>
void operator|(csv_rows<Row> r, for_each_t<Fn> f) {
  for (auto& row : r.rows_) f.fn_(row);
}
}  // namespace utl
