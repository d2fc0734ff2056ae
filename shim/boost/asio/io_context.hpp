#pragma once
#include <string>
namespace boost::system {
struct error_code {
  explicit operator bool() const { return failed_; }
  std::string message() const { return "failed"; }
  bool failed_{false};
};
}  // namespace boost::system
namespace boost::asio {
struct io_context {
  void run() {}
  void stop() {}
  template <typename T>
  void run_for(T const&) {}
};
}  // namespace boost::asio
