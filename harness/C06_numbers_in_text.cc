// @bounds every byte string of up to 4 (quick) / 5 (thorough) characters for 8-bit integers (signed and unsigned), up to 3 / 4 characters for 16-, 32- and 64-bit ones, every 9 to 11 digit string with up to 3 free characters for the limits of 32 bits; numbers with up to 3 (quick) / 5 (thorough) digits before and after the decimal point for floating point
// @assume strict parsing without result gets numbers (its assertions are off in release builds)
// @stub std::from_chars for floating point is modelled exactly for plain decimals of up to 15 digits
// @reach number rejected overflow negative comma
#include "common/vec.h"
#include "soro/utls/parse_int.h"
#include "soro/utls/parse_fp.h"
using namespace soro;

// value of a decimal number, false if s is none or does not fit
template <typename T>
static bool reference(std::string const& s, T& out) {
  std::size_t i = 0;
  bool neg = false;
  if (std::is_signed_v<T> && i < s.size() && s[0] == '-') {
    neg = true;
    ++i;
  }
  if (i == s.size()) return false;
  std::int64_t v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return false;
    v = v * 10 + (s[i] - '0');
  }
  if (neg) v = -v;
  if (v < static_cast<std::int64_t>(std::numeric_limits<T>::min())) return false;
  if (sizeof(T) < 8 && v > static_cast<std::int64_t>(std::numeric_limits<T>::max())) return false;
  out = static_cast<T>(v);
  return true;
}
template <typename T>
static void integer(std::string const& s) {
  // surrounded by digits that do not belong to the number
  std::string const padded = s + "7";
  std::string_view const view{padded.data(), s.size()};
  T v{};
  bool const ok = reference(s, v);
  auto const r = utls::try_parse_int<T>(view);
  sym_check(r.has_value() == ok, "exactly whole decimal numbers in range are accepted");
  if (ok) {
    sym_check(*r == v, "a number has its value");
    sym_check(utls::parse_int<T>(view) == v && utls::parse_int<T>(s) == v && utls::parse_int<T>(s.c_str()) == v && utls::parse_int<T>(padded.data(), padded.data() + s.size()) == v, "all ways to parse agree");
    sym_reach("number");
    if (v < 0) sym_reach("negative");
  } else
    sym_reach("rejected");
}
static std::string any(unsigned max) {
  auto const n = sym::pick(0, max, "length");
  std::string s;
  for (unsigned i = 0; i < n; ++i) s.push_back(static_cast<char>(sym::u8("char")));
  return s;
}
HARNESS(u8) { integer<std::uint8_t>(any(BOUND(4, 5))); }
HARNESS(i8) { integer<std::int8_t>(any(BOUND(4, 5))); }
HARNESS(i16) { integer<std::int16_t>(any(BOUND(3, 4))); }
HARNESS(u32) { integer<std::uint32_t>(any(BOUND(3, 4))); }
HARNESS(i32) { integer<int>(any(BOUND(3, 4))); }
HARNESS(u64) { integer<std::uint64_t>(any(BOUND(3, 4))); }
HARNESS(limit) {
  // around the limits of 32 bits
  static constexpr char const* P[] = {"42949672", "214748364", "-21474836", "00042949672", "4294967295"};
  std::string s = P[sym::pick(0, 4, "prefix")];
  auto const n = sym::pick(0, 2, "length");
  for (unsigned i = 0; i < n; ++i) s.push_back(static_cast<char>('0' + sym::range(0, 9, "digit")));
  integer<std::uint32_t>(s);
  integer<std::int32_t>(s);
  std::uint32_t v = 0;
  if (!reference(s, v)) sym_reach("overflow");
}
static bool same(double a, double b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }
HARNESS(floating) {
  std::string s, plain;
  bool const neg = sym::pick(0, 1, "negative") != 0;
  if (neg) s.push_back('-');
  auto const digits = [&](unsigned k) {
    for (unsigned i = 0; i < k; ++i) {
      char const c = static_cast<char>('0' + sym::range(0, 9, "digit"));
      s.push_back(c);
      plain.push_back(c);
    }
  };
  digits(static_cast<unsigned>(sym::pick(1, BOUND(3, 5), "before")));
  auto const k = static_cast<unsigned>(sym::pick(0, BOUND(3, 5), "after"));
  bool const comma = sym::pick(0, 1, "comma") != 0;
  if (k != 0) s.push_back(comma ? ',' : '.');
  digits(k);
  long long v = 0;
  for (char const c : plain) v = v * 10 + (c - '0');
  double scale = 1;
  for (unsigned i = 0; i < k; ++i) scale *= 10;
  double const q = static_cast<double>(v) / scale, expect = neg ? -q : q;
  std::string const padded = s + "3";
  std::string_view const view{padded.data(), s.size()};
  sym_check(same(utls::parse_fp<double, utls::ON>(view), expect), "a decimal number has its value");
  sym_check(same(utls::parse_fp<double, utls::ON>(s), expect) && same(utls::parse_fp<double, utls::ON>(s.c_str()), expect) && same(utls::parse_fp<double, utls::ON>(padded.data(), padded.data() + s.size()), expect) && same(utls::parse_fp<double, utls::ON>(padded.data(), s.size()), expect), "all ways to parse agree");
  sym_check(padded == s + "3", "parsing leaves its input unchanged");
  if (k == 0 || !comma)
    sym_check(same(utls::parse_fp<double>(view), expect) && same(utls::parse_fp<double>(s.c_str()), expect), "a decimal number has its value");
  else
    sym_reach("comma");
}
