// @sources src/rolling_stock/rolling_stock_error.cc src/timetable/timetable_error.cc src/timetable/parsers/kss/kss_error.cc src/timetable/parsers/route_transform_error.cc
// @bounds every error value of the four categories; every pair of them; every 32-bit value that is not an error
// @reach same_category other_category unknown
#include "common/vec.h"
#include "soro/rolling_stock/rolling_stock_error.h"
#include "soro/timetable/parsers/kss/kss_error.h"
#include "soro/timetable/parsers/route_transform_error.h"
#include "soro/timetable/timetable_error.h"
using namespace soro;

struct entry {
  int category_;
  int value_;
};
static constexpr int COUNT[] = {1, 1, 13, 5};
static constexpr char const* NAME[] = {"rs", "tt", "kss", "route_transform"};
static std::error_code make(entry const e) {
  switch (e.category_) {
    case 0: return make_error_code(static_cast<error::rolling_stock>(e.value_));
    case 1: return make_error_code(static_cast<error::timetable>(e.value_));
    case 2: return static_cast<error::kss>(e.value_);
    default: return static_cast<error::route_transform>(e.value_);
  }
}
static entry any() {
  int const c = static_cast<int>(sym::pick(0, 3, "category"));
  return {c, static_cast<int>(sym::pick(1, static_cast<std::uint64_t>(COUNT[c]), "value"))};
}
HARNESS(codes) {
  auto const x = any();
  auto const a = make(x);
  sym_check(static_cast<bool>(a), "an error code signals failure");
  sym_check(a.value() == x.value_, "an error code keeps its value");
  sym_check(std::string(a.category().name()) == NAME[x.category_], "an error code names its area");
  auto const m = a.message();
  sym_check(!m.empty() && m != "not reachable", "every error has a description");
  sym_check(a != std::error_code{}, "an error is not success");
  auto const y = any();
  auto const b = make(y);
  bool const same = x.category_ == y.category_ && x.value_ == y.value_;
  sym_check((a == b) == same, "error codes are equal exactly for the same error");
  sym_check((m == b.message()) == same, "descriptions tell errors apart");
  sym_check((&a.category() == &b.category()) == (x.category_ == y.category_), "all errors of an area share one category");
  if (x.category_ == y.category_) sym_reach("same_category"); else sym_reach("other_category");
}
HARNESS(unknown) {
  auto const c = static_cast<int>(sym::pick(0, 3, "category"));
  auto const code = make({c, 1});
  auto const v = static_cast<int>(sym::u32("value"));
  sym_assume(v < 1 || v > COUNT[c]);
  sym_check(code.category().message(v) == "not reachable", "values that are no error have no description");
  sym_reach("unknown");
}
