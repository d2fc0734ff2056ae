#pragma once
#define BOOST_BEAST_VERSION_STRING "Boost.Beast"
#include <ostream>
namespace boost::beast::http {
enum class status : unsigned { ok = 200, bad_request = 400, not_found = 404, internal_server_error = 500 };
enum class field : unsigned short { server, content_type, access_control_allow_origin, cache_control };
inline std::ostream& operator<<(std::ostream& o, status const s) { return o << static_cast<unsigned>(s); }
}  // namespace boost::beast::http
