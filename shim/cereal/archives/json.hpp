// Minimal stand-in for cereal's JSON output archive and for the rapidjson
// writer that comes with it. An archive keeps its document as a tree instead
// of printing it: the text it leaves behind only names the tree. Names,
// nesting, arrays and the hooks (serialize, save, save_minimal, prologue,
// epilogue) are those of cereal.
#pragma once
#include <concepts>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <ranges>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef CEREAL_SERIALIZE_FUNCTION_NAME
#define CEREAL_SERIALIZE_FUNCTION_NAME serialize
#endif
#define CEREAL_SAVE_FUNCTION_NAME save
#define CEREAL_SAVE_MINIMAL_FUNCTION_NAME save_minimal
#define CEREAL_NVP(T) ::cereal::make_nvp(#T, T)

namespace vp_json {
enum class kind { none, object, array, string, number, real, boolean };
struct member;
struct value {
  kind kind_{kind::none};
  std::string text_;
  std::uint64_t number_{0};
  double real_{0};
  std::vector<member> members_;
  value();
  value(value const&);
  value(value&&) noexcept;
  value& operator=(value const&);
  value& operator=(value&&) noexcept;
  ~value();
};
struct member {
  std::string first;
  value second;
};
inline value::value() = default;
inline value::value(value const&) = default;
inline value::value(value&&) noexcept = default;
inline value& value::operator=(value const&) = default;
inline value& value::operator=(value&&) noexcept = default;
inline value::~value() = default;
inline std::vector<value> docs;
}  // namespace vp_json

namespace std {
// collects text
struct vp_text_stream {
  vp_text_stream() = default;
  explicit vp_text_stream(std::string_view const s) : s_(s) {}
  std::string s_;
  std::string str() const { return s_; }
  std::string_view view() const { return s_; }
  vp_text_stream& operator<<(std::string_view const v) {
    s_.append(v.data(), v.size());
    return *this;
  }
  vp_text_stream& operator<<(char const* const v) { return *this << std::string_view(v); }
  vp_text_stream& operator<<(std::string const& v) { return *this << std::string_view(v); }
  vp_text_stream& operator<<(char const v) {
    s_.push_back(v);
    return *this;
  }
  template <typename T>
    requires(std::is_integral_v<T> && !std::is_same_v<T, char>)
  vp_text_stream& operator<<(T const v) {
    return *this << std::to_string(v);
  }
};
}  // namespace std
#define ostringstream vp_text_stream
#define stringstream vp_text_stream

namespace cista {
struct vp_adl {};
}  // namespace cista

namespace cereal {
using size_type = std::uint64_t;

template <typename T>
struct NameValuePair {
  char const* name;
  T value;
};
template <typename T>
NameValuePair<T> make_nvp(char const* const name, T&& v) {
  return {name, std::forward<T>(v)};
}
template <typename T>
NameValuePair<T> make_nvp(std::string const& name, T&& v) {
  return {name.c_str(), std::forward<T>(v)};
}
template <typename T>
struct SizeTag {
  T size;
};
template <typename T>
SizeTag<T> make_size_tag(T&& v) {
  return {std::forward<T>(v)};
}

class JSONOutputArchive;
template <typename T>
void prologue(JSONOutputArchive&, T const&);
template <typename T>
void epilogue(JSONOutputArchive&, T const&);

// the namespaces searched for serialization functions include cista, where
// soro's functions for its vectors and strings are (they are those of the
// standard library here)
class JSONOutputArchive : public cista::vp_adl {
  std::vector<vp_json::value> stack_;
  std::vector<std::string> names_;
  std::string next_;
  std::vector<unsigned> unnamed_;
  std::vp_text_stream& os_;

  void attach(vp_json::value v) {
    auto& top = stack_.back();
    if (top.kind_ == vp_json::kind::none) top.kind_ = vp_json::kind::object;
    std::string name;
    if (top.kind_ == vp_json::kind::object) name = next_.empty() ? "value" + std::to_string(unnamed_.back()++) : next_;
    next_.clear();
    top.members_.push_back({std::move(name), std::move(v)});
  }

public:
  explicit JSONOutputArchive(std::vp_text_stream& os) : os_(os) {
    stack_.emplace_back();
    unnamed_.push_back(0);
  }
  JSONOutputArchive(JSONOutputArchive const&) = delete;
  ~JSONOutputArchive() {
    if (stack_.front().kind_ == vp_json::kind::none) stack_.front().kind_ = vp_json::kind::object;
    os_ << "\x01" << std::to_string(vp_json::docs.size());
    vp_json::docs.push_back(std::move(stack_.front()));
  }
  void setNextName(char const* const n) { next_ = n == nullptr ? "" : n; }
  void makeArray() { stack_.back().kind_ = vp_json::kind::array; }
  void startNode() {
    names_.push_back(next_);
    next_.clear();
    stack_.emplace_back();
    unnamed_.push_back(0);
  }
  void finishNode() {
    auto v = std::move(stack_.back());
    if (v.kind_ == vp_json::kind::none) v.kind_ = vp_json::kind::object;
    stack_.pop_back();
    unnamed_.pop_back();
    next_ = names_.back();
    names_.pop_back();
    attach(std::move(v));
  }
  template <typename... A>
  JSONOutputArchive& operator()(A&&... a) {
    (process(a), ...);
    return *this;
  }
  template <typename T>
  JSONOutputArchive& operator<<(T&& t) {
    process(t);
    return *this;
  }

  template <typename T>
  void process(NameValuePair<T>& p) {
    setNextName(p.name);
    process(p.value);
  }
  template <typename T>
  void process(NameValuePair<T> const& p) {
    setNextName(p.name);
    process(p.value);
  }
  template <typename T>
  void process(SizeTag<T>&) {
    makeArray();
  }
  template <typename T>
  void process(SizeTag<T> const&) {
    makeArray();
  }
  template <typename T>
  void process(T& t) {
    using D = std::remove_cvref_t<T>;
    vp_json::value v;
    if constexpr (std::is_same_v<D, bool>) {
      v.kind_ = vp_json::kind::boolean;
      v.number_ = t ? 1 : 0;
      attach(std::move(v));
    } else if constexpr (std::is_floating_point_v<D>) {
      v.kind_ = vp_json::kind::real;
      v.real_ = static_cast<double>(t);
      attach(std::move(v));
    } else if constexpr (std::is_integral_v<D>) {
      v.kind_ = vp_json::kind::number;
      v.number_ = static_cast<std::uint64_t>(t);
      attach(std::move(v));
    } else if constexpr (std::is_enum_v<D>) {
      auto const u = static_cast<std::underlying_type_t<D>>(t);
      process(u);
    } else if constexpr (std::is_convertible_v<D const&, std::string_view>) {
      v.kind_ = vp_json::kind::string;
      v.text_ = std::string(std::string_view(t));
      attach(std::move(v));
    } else if constexpr (requires { save_minimal(*this, t); }) {
      auto const m = save_minimal(*this, t);
      process(m);
    } else {
      prologue(*this, t);
      if constexpr (requires { CEREAL_SERIALIZE_FUNCTION_NAME(*this, t); })
        CEREAL_SERIALIZE_FUNCTION_NAME(*this, t);
      else if constexpr (requires { save(*this, t); })
        save(*this, t);
      else if constexpr (requires { t.CEREAL_SERIALIZE_FUNCTION_NAME(*this); })
        t.CEREAL_SERIALIZE_FUNCTION_NAME(*this);
      else if constexpr (requires { t.save(*this); })
        t.save(*this);
      else {
        makeArray();
        for (auto&& x : t) process(x);
      }
      epilogue(*this, t);
    }
  }
};
template <typename T>
void prologue(JSONOutputArchive& ar, T const&) {
  ar.startNode();
}
template <typename T>
void epilogue(JSONOutputArchive& ar, T const&) {
  ar.finishNode();
}
}  // namespace cereal

namespace rapidjson {
using SizeType = unsigned;
struct StringBuffer {
  std::string s_;
  char const* GetString() const { return s_.c_str(); }
  std::size_t GetSize() const { return s_.size(); }
  std::size_t GetLength() const { return s_.size(); }
  void Clear() { s_.clear(); }
};
// prints a document, separators as the grammar asks for
template <typename B>
struct Writer {
  explicit Writer(B& b) : b_(&b) {}
  B* b_;
  struct level {
    bool array_;
    unsigned values_;
  };
  std::vector<level> levels_;

  void before() {
    if (levels_.empty()) return;
    auto& l = levels_.back();
    if (l.values_ != 0) b_->s_.push_back(l.array_ || l.values_ % 2 == 0 ? ',' : ':');
    ++l.values_;
  }
  bool String(char const* const v) { return text(v); }
  bool String(char const* const v, SizeType const n, bool = false) { return text(std::string_view(v, n)); }
  bool String(std::string const& v) { return text(v); }
  bool Key(char const* const v) { return text(v); }
  bool Key(std::string const& v) { return text(v); }
  bool text(std::string_view const v) {
    before();
    b_->s_.push_back('"');
    b_->s_.append(v);
    b_->s_.push_back('"');
    return true;
  }
  bool number(std::string const& s) {
    before();
    b_->s_ += s;
    return true;
  }
  bool Uint(unsigned const v) { return number(std::to_string(v)); }
  bool Int(int const v) { return number(std::to_string(v)); }
  bool Uint64(std::uint64_t const v) { return number(std::to_string(v)); }
  bool Int64(std::int64_t const v) { return number(std::to_string(v)); }
  bool Bool(bool const v) { return number(v ? "true" : "false"); }
  bool Null() { return number("null"); }
  bool start(char const c, bool const array) {
    before();
    b_->s_.push_back(c);
    levels_.push_back({array, 0});
    return true;
  }
  bool end(char const c) {
    levels_.pop_back();
    b_->s_.push_back(c);
    return true;
  }
  bool StartObject() { return start('{', false); }
  bool EndObject(SizeType = 0) { return end('}'); }
  bool StartArray() { return start('[', true); }
  bool EndArray(SizeType = 0) { return end(']'); }
};
}  // namespace rapidjson
