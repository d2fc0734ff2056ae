// Harness interface. In bitcode builds these functions are intrinsics of the
// symbolic executor; in native builds (replay.cc) they read recorded inputs.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
std::uint64_t sym_make(char const* name, unsigned bits);
void sym_assume(bool c);
void sym_check(bool c, char const* msg);
void sym_reach(char const* label);
void sym_observe(std::uint64_t v);
std::uint64_t sym_fork(std::uint64_t v);  // returns v; one path per value
}

#define HARNESS(name) extern "C" __attribute__((noinline, used)) void H_##name()

namespace sym {
inline std::uint64_t u64(char const* n = "u64") { return sym_make(n, 64); }
inline std::uint32_t u32(char const* n = "u32") { return static_cast<std::uint32_t>(sym_make(n, 32)); }
inline std::uint16_t u16(char const* n = "u16") { return static_cast<std::uint16_t>(sym_make(n, 16)); }
inline std::uint8_t u8(char const* n = "u8") { return static_cast<std::uint8_t>(sym_make(n, 8)); }
inline std::int64_t i64(char const* n = "i64") { return static_cast<std::int64_t>(sym_make(n, 64)); }
inline std::int32_t i32(char const* n = "i32") { return static_cast<std::int32_t>(sym_make(n, 32)); }
inline bool boolean(char const* n = "b") { return (sym_make(n, 1) & 1) != 0; }
inline double f64(char const* n = "f64") {
  std::uint64_t v = sym_make(n, 64);
  double d;
  __builtin_memcpy(&d, &v, 8);
  return d;
}
// value in [lo, hi], symbolic
inline std::uint64_t range(std::uint64_t lo, std::uint64_t hi, char const* n = "r") {
  if (lo == hi) return lo;
  unsigned bits = 1;
  while (bits < 64 && ((hi - lo) >> bits)) ++bits;
  std::uint64_t v = sym_make(n, bits);
  sym_assume(v <= hi - lo);
  return lo + v;
}
// value in [lo, hi], one path per value
inline std::uint64_t pick(std::uint64_t lo, std::uint64_t hi, char const* n = "p") {
  return sym_fork(range(lo, hi, n));
}
inline std::int64_t irange(std::int64_t lo, std::int64_t hi, char const* n = "r") {
  return lo + static_cast<std::int64_t>(range(0, static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo), n));
}
template <typename T>
inline void observe(T v) { sym_observe(static_cast<std::uint64_t>(v)); }
inline void observe_d(double d) {
  std::uint64_t v;
  __builtin_memcpy(&v, &d, 8);
  sym_observe(v);
}
}  // namespace sym

#ifdef THOROUGH
#define BOUND(q, t) (t)
#else
#define BOUND(q, t) (q)
#endif
