#pragma once
#include "net/web_server/web_server.h"
namespace net {
inline web_server::string_res_t string_response(web_server::http_req_t const& req, std::string_view const content,
                                                boost::beast::http::status const s = boost::beast::http::status::ok,
                                                std::string_view const type = "text/html") {
  web_server::string_res_t res{s, req.version()};
  res.set(boost::beast::http::field::content_type, type);
  res.keep_alive(req.keep_alive());
  res.body() = content;
  res.prepare_payload();
  return res;
}
inline web_server::string_res_t not_found_response(web_server::http_req_t const& req, std::string_view const = "") {
  return string_response(req, "not found", boost::beast::http::status::not_found);
}
inline web_server::string_res_t bad_request_response(web_server::http_req_t const& req, std::string_view const = "") {
  return string_response(req, "bad request", boost::beast::http::status::bad_request);
}
inline web_server::string_res_t server_error_response(web_server::http_req_t const& req, std::string_view const = "") {
  return string_response(req, "error", boost::beast::http::status::internal_server_error);
}
}  // namespace net
