// requests to the web server and what its answers say
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "cereal/archives/json.hpp"
#include "net/web_server/query_router.h"
#include "net/web_server/responses.h"
#include "sym.h"

namespace answers {
using vp_json::kind;
using vp_json::value;
using request_t = net::query_router::route_request;
using answer_t = net::web_server::string_res_t;
namespace http = boost::beast::http;

inline request_t request(std::vector<std::string> params) {
  request_t r;
  r.version_ = 10 + static_cast<unsigned>(params.size() % 2);
  r.keep_alive_ = params.size() != 2;
  r.path_params_ = std::move(params);
  return r;
}

// JSON text
struct reader {
  std::string const& s;
  std::size_t i{0};
  void space() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i;
  }
  char peek() {
    space();
    sym_check(i < s.size(), "the answer is well-formed");
    return s[i];
  }
  void expect(char const c) {
    sym_check(peek() == c, "the answer is well-formed");
    ++i;
  }
  std::string string() {
    expect('"');
    std::string r;
    for (; i < s.size() && s[i] != '"'; ++i) r.push_back(s[i]);
    sym_check(i < s.size(), "the answer is well-formed");
    ++i;
    return r;
  }
  value read() {
    value v;
    char const c = peek();
    if (c == '{' || c == '[') {
      bool const object = c == '{';
      char const end = object ? '}' : ']';
      v.kind_ = object ? kind::object : kind::array;
      ++i;
      if (peek() == end) {
        ++i;
        return v;
      }
      while (true) {
        std::string name;
        if (object) {
          name = string();
          expect(':');
        }
        auto m = read();
        v.members_.push_back({std::move(name), std::move(m)});
        if (peek() == end) break;
        expect(',');
      }
      ++i;
    } else if (c == '"') {
      v.kind_ = kind::string;
      v.text_ = string();
    } else {
      v.kind_ = kind::number;
      std::size_t n = 0;
      for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i, ++n) v.number_ = v.number_ * 10 + static_cast<unsigned>(s[i] - '0');
      sym_check(n != 0, "the answer is well-formed");
    }
    return v;
  }
};

// the document an answer carries
inline value document(request_t const& req, answer_t const& a) {
  sym_check(a.result() == http::status::ok, "an existing item is answered");
  sym_check(a.version_ == req.version_ && a.keep_alive_ == req.keep_alive_, "the answer is one to the request");
  unsigned types = 0;
  for (auto const& [f, v] : a.fields_)
    if (f == http::field::content_type) {
      ++types;
      sym_check(v == "application/json", "the answer is JSON");
    }
  sym_check(types == 1, "the answer names its type");
  if (!a.body_.empty() && a.body_.front() == '\x01') {
    std::size_t n = 0;
    for (std::size_t i = 1; i < a.body_.size(); ++i) n = n * 10 + static_cast<std::size_t>(a.body_[i] - '0');
    sym_check(n < vp_json::docs.size(), "harness: document");
    return vp_json::docs[n];
  }
  reader r{a.body_};
  auto v = r.read();
  r.space();
  sym_check(r.i == a.body_.size(), "the answer is well-formed");
  return v;
}
inline bool refused(answer_t const& a, http::status const s) { return a.result() == s; }

inline value const& get(value const& v, std::string_view const name) {
  sym_check(v.kind_ == kind::object, "an object");
  value const* found = nullptr;
  for (auto const& [n, m] : v.members_)
    if (n == name) {
      sym_check(found == nullptr, "a member occurs once");
      found = &m;
    }
  sym_check(found != nullptr, "the member is there");
  return *found;
}
inline bool has(value const& v, std::string_view const name) {
  for (auto const& m : v.members_)
    if (m.first == name) return true;
  return false;
}
inline std::string const& text(value const& v) {
  sym_check(v.kind_ == kind::string, "a text");
  return v.text_;
}
inline std::uint64_t number(value const& v) {
  sym_check(v.kind_ == kind::number, "a number");
  return v.number_;
}
inline bool flag(value const& v) {
  sym_check(v.kind_ == kind::boolean, "a flag");
  return v.number_ != 0;
}
inline double real(value const& v) {
  sym_check(v.kind_ == kind::real, "a number");
  return v.real_;
}
inline std::vector<vp_json::member> const& list(value const& v) {
  sym_check(v.kind_ == kind::array, "a list");
  return v.members_;
}
inline bool same(double const a, double const b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }
}  // namespace answers
