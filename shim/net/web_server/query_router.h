#pragma once
#include <algorithm>
#include <cstring>
#include <vector>
#include "net/web_server/web_server.h"
namespace net {
// A request is passed to the first handler of its method whose pattern matches
// the whole target; what the groups matched are the parameters.
struct query_router {
  struct route_request : web_server::http_req_t {
    std::vector<std::string> path_params_;
    std::string username_, password_;
  };
  using handler_t = std::function<void(route_request const&, web_server::http_res_cb_t const&, bool)>;

  query_router& route(std::string method, std::string path, handler_t fn) {
    handlers_.push_back({std::move(method), std::move(path), std::move(fn)});
    return *this;
  }
  void reply_hook(std::function<void(web_server::http_res_t const&)> hook) { hook_ = std::move(hook); }

  void operator()(web_server::http_req_t const& req, web_server::http_res_cb_t const& cb, bool const ssl) {
    for (auto const& h : handlers_) {
      if (h.method_ != "*" && h.method_ != req.method_) continue;
      regex re{h.path_, req.target_};
      if (!re.match()) continue;
      route_request r;
      static_cast<web_server::http_req_t&>(r) = req;
      r.path_params_ = re.groups();
      h.fn_(r, [&](web_server::http_res_t res) {
        if (hook_) hook_(res);
        cb(res);
      }, ssl);
      return;
    }
  }

private:
  // the part of ECMAScript's regular expressions that occurs in patterns of
  // routes: characters, escapes, classes, groups, ?, *, + and {n,m}, and a final $
  struct regex {
    std::string const& p_;
    std::string const& t_;
    struct part {
      std::size_t from_, to_;
    };
    std::vector<part> found_;
    std::size_t groups_{0};

    bool match() {
      for (std::size_t i = 0; i < p_.size(); ++i) {
        if (p_[i] == '\\') ++i;
        else if (p_[i] == '[') while (p_[i] != ']') ++i;
        else if (p_[i] == '(' && p_[i + 1] != '?') ++groups_;
      }
      found_.assign(groups_, part{0, 0});
      return seq(0, p_.size(), 0, 0, [&](std::size_t at) { return at == t_.size(); });
    }
    std::vector<std::string> groups() const {
      std::vector<std::string> r;
      for (auto const& f : found_) r.push_back(t_.substr(f.from_, f.to_ - f.from_));
      return r;
    }
    using cont = std::function<bool(std::size_t)>;

    // the end of the atom that begins at i
    std::size_t atom_end(std::size_t i) const {
      if (p_[i] == '\\') return i + 2;
      if (p_[i] == '[') return p_.find(']', i) + 1;
      if (p_[i] != '(') return i + 1;
      for (std::size_t depth = 0;; ++i) {
        if (p_[i] == '\\') ++i;
        else if (p_[i] == '[') i = p_.find(']', i);
        else if (p_[i] == '(') ++depth;
        else if (p_[i] == ')' && --depth == 0) return i + 1;
      }
    }
    std::size_t groups_in(std::size_t i, std::size_t const e) const {
      std::size_t n = 0;
      for (; i < e; ++i) {
        if (p_[i] == '\\') ++i;
        else if (p_[i] == '[') i = p_.find(']', i);
        else if (p_[i] == '(' && p_[i + 1] != '?') ++n;
      }
      return n;
    }
    bool one(std::size_t const i, std::size_t const e, unsigned char const c) const {
      if (p_[i] == '.') return c != '\n';
      if (p_[i] == '\\') {
        if (p_[i + 1] == 'd') return (c >= '0') & (c <= '9');
        if (p_[i + 1] == 'w') return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_');
        return c == static_cast<unsigned char>(p_[i + 1]);
      }
      if (p_[i] == '[') {
        bool const no = p_[i + 1] == '^';
        bool in = false;
        for (std::size_t k = i + 1 + no; k < e - 1; ++k) {
          if (p_[k] == '\\') {
            if (p_[k + 1] == 'd' || p_[k + 1] == 'w') in = in | one(k, k + 2, c);
            else in = in | (c == static_cast<unsigned char>(p_[k + 1]));
            ++k;
          } else if (k + 2 < e - 1 && p_[k + 1] == '-') {
            in = in | ((c >= static_cast<unsigned char>(p_[k])) & (c <= static_cast<unsigned char>(p_[k + 2])));
            k += 2;
          } else
            in = in | (c == static_cast<unsigned char>(p_[k]));
        }
        return in != no;
      }
      return c == static_cast<unsigned char>(p_[i]);
    }
    // the atom [i, e) at position at of the text
    bool atom(std::size_t const i, std::size_t const e, std::size_t const group, std::size_t const at, cont const& then) {
      if (p_[i] != '(') return at < t_.size() && one(i, e, static_cast<unsigned char>(t_[at])) && then(at + 1);
      bool const silent = p_[i + 1] == '?';
      return seq(i + (silent ? 3 : 1), e - 1, group + !silent, at, [&](std::size_t const to) {
        if (silent) return then(to);
        auto const before = found_[group];
        found_[group] = {at, to};
        if (then(to)) return true;
        found_[group] = before;
        return false;
      });
    }
    bool many(std::size_t const i, std::size_t const e, std::size_t const group, std::size_t const at, cont const& then) {
      return atom(i, e, group, at, [&](std::size_t const to) { return to != at && many(i, e, group, to, then); }) || then(at);
    }
    bool some(std::size_t const i, std::size_t const e, std::size_t const group, std::size_t const at, std::size_t const least, std::size_t const most, cont const& then) {
      if (most != 0 && atom(i, e, group, at, [&](std::size_t const to) { return some(i, e, group, to, least == 0 ? 0 : least - 1, most - 1, then); })) return true;
      return least == 0 && then(at);
    }
    bool seq(std::size_t const i, std::size_t const end, std::size_t const group, std::size_t const at, cont const& then) {
      for (auto k = i; k < end; k = atom_end(k))
        if (p_[k] == '|') return run(i, k, group, at, then) || seq(k + 1, end, group + groups_in(i, k), at, then);
      return run(i, end, group, at, then);
    }
    bool run(std::size_t const i, std::size_t const end, std::size_t const group, std::size_t const at, cont const& then) {
      if (i == end) return then(at);
      if (p_[i] == '^') return at == 0 && run(i + 1, end, group, at, then);
      if (p_[i] == '$') return at == t_.size() && run(i + 1, end, group, at, then);
      auto const e = atom_end(i);
      auto const next = group + groups_in(i, e);
      auto const rest = [&](std::size_t const from) {
        return [&, from](std::size_t const to) { return run(from, end, next, to, then); };
      };
      if (e < end && p_[e] == '{') {
        std::size_t k = e + 1, least = 0, most = 0;
        while (p_[k] >= '0' && p_[k] <= '9') least = least * 10 + static_cast<std::size_t>(p_[k++] - '0');
        most = least;
        if (p_[k] == ',') {
          most = p_[++k] == '}' ? t_.size() + least : 0;
          while (p_[k] >= '0' && p_[k] <= '9') most = most * 10 + static_cast<std::size_t>(p_[k++] - '0');
        }
        return some(i, e, group, at, least, most, rest(k + 1));
      }
      if (e < end && p_[e] == '?') return atom(i, e, group, at, rest(e + 1)) || run(e + 1, end, next, at, then);
      if (e < end && p_[e] == '*') return many(i, e, group, at, rest(e + 1));
      if (e < end && p_[e] == '+') return atom(i, e, group, at, [&](std::size_t const to) { return many(i, e, group, to, rest(e + 1)); });
      return atom(i, e, group, at, rest(e));
    }
  };
  struct handler {
    std::string method_, path_;
    handler_t fn_;
  };
  std::vector<handler> handlers_;
  std::function<void(web_server::http_res_t const&)> hook_;
};
}  // namespace net
