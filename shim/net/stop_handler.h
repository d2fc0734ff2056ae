#pragma once
#include "boost/asio/io_context.hpp"
namespace net {
struct stop_handler {
  template <typename Fn>
  stop_handler(boost::asio::io_context&, Fn&&) {}
};
}  // namespace net
