#pragma once
#include "net/web_server/query_router.h"
namespace net {
// defined by whoever needs it
bool serve_static_file(std::string const& resource_dir, query_router::route_request const& req, web_server::http_res_cb_t const& cb);
}  // namespace net
