// @bounds every pair of strings of up to 3 (quick) / 4 (thorough) arbitrary non-zero bytes inside larger texts; texts of up to 6 (quick) / 8 (thorough) characters over a three letter alphabet split by separators of 1 to 2 characters; hashes of every string of up to 4 (quick) / 6 (thorough) bytes
// @assume separators are not empty
// @reach equal different prefix pieces
#include "common/vec.h"
#include "soro/utls/string.h"
using namespace soro;

static std::string any(unsigned max, char const* n) {
  auto const k = sym::pick(0, max, "length");
  std::string s;
  for (unsigned i = 0; i < k; ++i) {
    auto const c = sym::u8(n);
    sym_assume(c != 0);
    s.push_back(static_cast<char>(c));
  }
  return s;
}
HARNESS(equality) {
  auto const a = any(BOUND(3, 4), "a"), b = any(BOUND(3, 4), "b");
  bool same = a.size() == b.size();
  for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) same = same && a[i] == b[i];
  // views into larger texts
  std::string const ta = a + "rest", tb = b + "other";
  std::string_view const va{ta.data(), a.size()}, vb{tb.data(), b.size()};
  sym_check(utls::equal(a.c_str(), b.c_str()) == same, "texts are equal exactly if they have the same characters");
  sym_check(utls::equal(a, b.c_str()) == same && utls::equal(a.c_str(), b) == same && utls::equal(a, b) == same, "strings are equal exactly if they have the same characters");
  sym_check(utls::equal(va, vb) == same && utls::equal(va, b.c_str()) == same && utls::equal(a.c_str(), vb) == same, "views are equal exactly if they have the same characters");
  bool pre = b.size() <= a.size();
  for (std::size_t i = 0; i < b.size() && i < a.size(); ++i) pre = pre && a[i] == b[i];
  sym_check(utls::starts_with(a.c_str(), b.c_str()) == pre, "a prefix has the first characters");
  if (same) sym_reach("equal"); else sym_reach("different");
  if (pre && !same) sym_reach("prefix");
}
HARNESS(hashes) {
  auto const n = sym::pick(0, BOUND(4, 6), "length");
  std::string s;
  std::uint32_t h = 2166136261U;
  for (unsigned i = 0; i < n; ++i) {
    auto const c = sym::u8("char");
    sym_assume(c != 0);
    s.push_back(static_cast<char>(c));
    h = (h ^ c) * 16777619U;
  }
  h = (h ^ 0) * 16777619U;  // the terminator takes part
  sym_check(utls::str_hash(s) == h, "the hash of a string is its FNV-1a hash");
  sym_check(utls::str_hash(s.c_str()) == h, "the hash of a text is that of the string");
}
HARNESS(pieces) {
  auto const text = [](unsigned lo, unsigned max, char const* n) {
    auto const k = sym::pick(lo, max, "length");
    std::string s;
    for (unsigned i = 0; i < k; ++i) s.push_back(static_cast<char>('a' + sym::pick(0, BOUND(1, 2), n)));
    return s;
  };
  auto const s = text(0, BOUND(6, 7), "text"), d = text(1, 2, "separator");
  std::string const padded = s + d;
  auto const r = utls::split(std::string_view{padded.data(), s.size()}, d);
  if (s.empty()) {
    sym_check(r.empty(), "an empty text has no pieces");
    return;
  }
  // joining the pieces gives the text, and no piece contains the separator
  std::string joined;
  for (std::size_t i = 0; i < r.size(); ++i) {
    if (i != 0) joined += d;
    joined += r[i];
    for (std::size_t k = 0; k + d.size() <= r[i].size(); ++k) {
      bool hit = true;
      for (std::size_t j = 0; j < d.size(); ++j) hit = hit && r[i][k + j] == d[j];
      sym_check(!hit, "no piece contains the separator");
    }
  }
  sym_check(!r.empty() && joined == s, "the pieces make up the text");
  if (r.size() > 2) sym_reach("pieces");
}
