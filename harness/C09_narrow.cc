// @bounds every pair of the integer types {i8,u8,i16,u16,i32,u32,i64,u64} and every input value (no bound)
// @reach fits unfit
#include "sym.h"
#include <utility>
#include "soro/utls/narrow.h"
using namespace soro::utls;

template <typename Out, typename In>
static void one() {
  In const in = static_cast<In>(sym_make("in", 64));
  auto const wide = static_cast<__int128>(in);
  bool const expected = wide >= static_cast<__int128>(std::numeric_limits<Out>::min()) &&
                        wide <= static_cast<__int128>(std::numeric_limits<Out>::max());
  bool const got = detail::fits<Out>(In{in});
  sym_check(got == expected, "fits() must tell whether the value is representable in the target type");
  if (expected) {
    sym_reach("fits");
    sym_check(static_cast<__int128>(narrow<Out>(In{in})) == wide, "narrow() must preserve a representable value");
  } else {
    sym_reach("unfit");
  }
  // a conversion declared "not narrowing" must hold for every input
  if (!detail::is_narrowing<Out, In>()) sym_check(expected, "non-narrowing conversion lost a value");
  sym::observe(got);
}
template <typename Out>
static void all() {
  switch (sym::pick(0, 7, "in_type")) {
    case 0: one<Out, std::int8_t>(); break;
    case 1: one<Out, std::uint8_t>(); break;
    case 2: one<Out, std::int16_t>(); break;
    case 3: one<Out, std::uint16_t>(); break;
    case 4: one<Out, std::int32_t>(); break;
    case 5: one<Out, std::uint32_t>(); break;
    case 6: one<Out, std::int64_t>(); break;
    default: one<Out, std::uint64_t>(); break;
  }
}
HARNESS(narrow) {
  switch (sym::pick(0, 7, "out_type")) {
    case 0: all<std::int8_t>(); break;
    case 1: all<std::uint8_t>(); break;
    case 2: all<std::int16_t>(); break;
    case 3: all<std::uint16_t>(); break;
    case 4: all<std::int32_t>(); break;
    case 5: all<std::uint32_t>(); break;
    case 6: all<std::int64_t>(); break;
    default: all<std::uint64_t>(); break;
  }
}
