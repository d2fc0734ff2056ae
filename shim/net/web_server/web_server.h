// Minimal stand-in for motis-project/net (not available in this sandbox): the
// requests and answers as soro-s uses them.
#pragma once
#include <functional>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>
#include "boost/asio/io_context.hpp"
#include "boost/beast/version.hpp"

namespace net {
struct web_server {
  explicit web_server(boost::asio::io_context&) {}
  struct http_req_t {
    unsigned version_{11};
    bool keep_alive_{false};
    std::string method_{"GET"};
    std::string target_;
    unsigned version() const { return version_; }
    bool keep_alive() const { return keep_alive_; }
    std::string const& target() const { return target_; }
  };
  struct string_res_t {
    string_res_t() = default;
    string_res_t(boost::beast::http::status const s, unsigned const version) : status_(s), version_(version) {}
    boost::beast::http::status status_{boost::beast::http::status::ok};
    unsigned version_{11};
    bool keep_alive_{false};
    bool prepared_{false};
    std::string body_;
    std::vector<std::pair<boost::beast::http::field, std::string>> fields_;

    boost::beast::http::status result() const { return status_; }
    void result(boost::beast::http::status const s) { status_ = s; }
    void set(boost::beast::http::field const f, std::string_view const v) { fields_.emplace_back(f, std::string(v)); }
    bool keep_alive() const { return keep_alive_; }
    void keep_alive(bool const v) { keep_alive_ = v; }
    std::string& body() { return body_; }
    std::string const& body() const { return body_; }
    void prepare_payload() { prepared_ = true; }
  };
  using http_res_t = std::variant<string_res_t>;
  using http_res_cb_t = std::function<void(http_res_t)>;
  using http_req_cb_t = std::function<void(http_req_t const&, http_res_cb_t const&, bool)>;

  void on_http_request(http_req_cb_t cb) { on_request_ = std::move(cb); }
  void init(std::string const& address, std::string const& port, boost::system::error_code&) {
    address_ = address;
    port_ = port;
  }
  void stop() {}
  void run() { serve(*this); }

  http_req_cb_t on_request_;
  std::string address_, port_;
  // whoever runs the server defines what arrives
  static inline std::function<void(web_server&)> serve;
};
}  // namespace net
