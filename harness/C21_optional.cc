// @bounds optional over 8/32/64-bit integers (default and custom reserved value) and pointers; every value, every default; one operation from an arbitrary state, copies and moves
// @reach engaged disengaged
#include "sym.h"
#include <optional>
#include "soro/base/soro_types.h"
using namespace soro;

template <typename T, T INVALID>
static void body(T const v, T const d) {
  using opt = utls::optional<T, INVALID>;
  bool const has = v != INVALID;
  opt o{v};
  opt const empty;
  opt const null{std::nullopt};
  sym_check(!empty.has_value() && !null.has_value() && !static_cast<bool>(empty), "a default optional is empty");
  sym_check(o.has_value() == has && static_cast<bool>(o) == has, "has_value() is wrong");
  sym_check(o.value_or(d) == (has ? v : d), "value_or() is wrong");
  sym_check(opt{v}.value_or(d) == (has ? v : d), "value_or() on a temporary is wrong");
  opt const other{d};
  auto const e = o.or_else([&] { return other; });
  sym_check(e.has_value() == (has || d != INVALID), "or_else() is wrong");
  if (e.has_value()) sym_check(e.value() == (has ? v : d), "or_else() value is wrong");
  unsigned calls = 0;
  o.execute_if([&](T const& x) {
    ++calls;
    sym_check(x == v, "execute_if() passed a wrong value");
  });
  sym_check(calls == (has ? 1U : 0U), "execute_if() must run exactly when engaged");
  opt copy = o;
  opt assigned;
  assigned = o;
  opt moved{std::move(copy)};
  sym_check(assigned.has_value() == has && moved.has_value() == has, "copy/move lost the state");
  if (has) {
    sym_check(o.value() == v && *o == v && *o.operator->() == v, "value() is wrong");
    sym_check(assigned.value() == v && moved.value() == v, "copy/move lost the value");
    sym_reach("engaged");
  } else {
    sym_reach("disengaged");
  }
  auto const t = o.and_then([&](T const& x) { return opt{x}; });
  sym_check(t.has_value() == has, "and_then() is wrong");
  if (has) sym_check(*t == v, "and_then() value is wrong");
  o.reset();
  sym_check(!o.has_value() && o.value_or(d) == d, "reset() must empty the optional");
  sym_check(assigned.has_value() == has, "reset() affected a copy");
  sym::observe(has);
}
HARNESS(optional_u32) { body<std::uint32_t, std::numeric_limits<std::uint32_t>::max()>(sym::u32(), sym::u32()); }
HARNESS(optional_i8) { body<std::int8_t, std::int8_t{-7}>(static_cast<std::int8_t>(sym::u8()), static_cast<std::int8_t>(sym::u8())); }
HARNESS(optional_u64) { body<std::uint64_t, std::numeric_limits<std::uint64_t>::max()>(sym::u64(), sym::u64()); }
HARNESS(optional_default_invalid) {
  // the reserved value of integers is their maximum, of pointers null
  std::int32_t const v = sym::i32();
  utls::optional<std::int32_t> const o{v};
  sym_check(o.has_value() == (v != std::numeric_limits<std::int32_t>::max()), "default reserved value");
  int x[2] = {1, 2};
  auto const i = sym::pick(0, 2, "ptr");
  utls::optional<int*> const p{i == 2 ? nullptr : &x[i]};
  sym_check(p.has_value() == (i != 2), "pointer optional");
  if (i != 2) sym_check(**p == static_cast<int>(i) + 1, "pointer optional value");
}
