// std::thread as the harnesses run it: every thread runs to completion, either
// when it is started or when it is joined; the number of processors is an
// input. Included by exactly one file per check.
#pragma once
#include <thread>
#include "sym.h"

namespace vp_threads {
struct pending {
  std::thread::_State* state;
  bool done;
};
inline pending all[16];
inline unsigned count = 0, processors = 1;
inline bool late = false;
inline void choose(unsigned const max) {
  count = 0;
  processors = static_cast<unsigned>(sym::pick(1, max, "processors"));
  late = sym::pick(0, 1, "threads run late") != 0;
}
inline void run(unsigned const i) {
  if (all[i].done) return;
  all[i].done = true;
  all[i].state->_M_run();
}
}  // namespace vp_threads

namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  auto const i = vp_threads::count++;
  vp_threads::all[i] = {s.release(), false};
  _M_id = id(i + 1);
  if (!vp_threads::late) vp_threads::run(i);
}
void thread::join() {
  // a late thread runs after those started behind it
  for (auto i = vp_threads::count; i-- > 0;) vp_threads::run(i);
  _M_id = id();
}
unsigned thread::hardware_concurrency() noexcept { return vp_threads::processors; }
}  // namespace std
