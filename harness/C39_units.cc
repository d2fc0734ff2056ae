// @bounds unit values: every double (NaN and infinities included) for arithmetic and conversions; dimensions of products, quotients and powers of every pair of the base and derived units; polynomials up to degree 3 with arbitrary double factors (Horner form) and with all integer factors in [-2, 2] against exact arithmetic; piecewise functions of numbers and of units with up to 3 pieces and arbitrary ascending borders
// @assume floating point is IEEE double with round to nearest
// @reach compared piece no_piece
#include "common/vec.h"
#include <bit>
#include "soro/si/units.h"
#include "soro/utls/math/piecewise_function.h"
#include "soro/utls/math/polynomial.h"
using namespace soro;
using si::precision;

static bool same(double const a, double const b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }
HARNESS(arithmetic) {
  double const x = sym::f64("x"), y = sym::f64("y");
  si::length a{x};
  si::length const b{y};
  sym_check(same((a + b).val_, x + y) && same((a - b).val_, x - y) && same((-a).val_, -x), "units add and subtract like numbers");
  sym_check(same((a * y).val_, x * y) && same((y * a).val_, x * y), "units scale like numbers");
  sym_check(same((a * b).val_, x * y) && same((a / b).val_, x / y), "units multiply and divide like numbers");
  sym_check(same(abs(a).val_, std::abs(x)), "abs");
  sym_check((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "units compare like numbers");
  sym_check(si::valid(a) == (x == x), "exactly NaN is invalid");
  sym_check(same(a.val_, x) && same(b.val_, y), "operators leave their operands unchanged");
  sym_check(!si::valid(si::length{}) && !si::valid(si::INVALID<si::speed>) && si::valid(si::ZERO<si::time>), "default values are invalid, zero is valid");
  auto& r = a += b;
  sym_check(&r == &a && same(a.val_, x + y), "+= adds");
  a = si::length{x};
  auto& q = a -= b;
  sym_check(&q == &a && same(a.val_, x - y), "-= subtracts");
  a = si::length{x};
  a *= y;
  sym_check(same(a.val_, x * y), "*= scales");
  sym_check(same(utls::pow<3>(si::length{x}).val_, x * (x * x)) && same(utls::pow<1>(si::length{x}).val_, x), "powers");
}
HARNESS(equality) {
  double const x = sym::f64("x"), y = sym::f64("y");
  sym_assume(x > -1e300 && x < 1e300 && y > -1e300 && y < 1e300);
  si::speed const a{x}, b{y};
  double const d = x - y;
  bool const eq = d < 0.01 && d > -0.01;
  sym_check((a == b) == eq && (a != b) == !eq, "units are equal within the precision");
  sym_check(si::is_zero(a) == (x < 0.01 && x > -0.01), "is_zero is equality with zero");
  sym_reach("compared");
}
HARNESS(conversions) {
  double const x = sym::f64("x");
  sym_check(same(si::from_m(x).val_, x) && same(si::from_km(x).val_, x * 1000.0) && same(si::as_m(si::from_m(x)), x), "lengths");
  sym_check(same(si::from_s(x).val_, x) && same(si::as_s(si::from_s(x)), x), "times");
  sym_check(same(si::from_kg(x).val_, x) && same(si::from_ton(x).val_, x * 1000.0) && same(si::as_ton(si::from_kg(x)), x / 1000.0), "weights");
  sym_check(same(si::from_m_s(x).val_, x) && same(si::from_km_h(x).val_, x / 3.6) && same(si::as_km_h(si::from_m_s(x)), x * 3.6), "speeds");
  sym_check(same(si::from_m_s2(x).val_, x) && same(si::as_precision(si::unitless{x}), x), "accelerations and plain numbers");
  // converting forth and back
  double const v = static_cast<double>(sym::pick(0, 400, "v"));
  sym_check(std::abs(si::as_km_h(si::from_km_h(v)) - v) < 1e-9 && std::abs(si::as_ton(si::from_ton(v)) - v) < 1e-9, "conversions forth and back give the value");
}
template <typename F>
struct parts;
template <typename N, typename D, typename P>
struct parts<utls::fraction<N, D, P>> {
  using n = N;
  using d = D;
};
struct dims {
  int m_, s_, kg_, a_;
  bool operator==(dims const&) const = default;
};
// exponents of a unit; a unit must not keep a dimension in both parts
template <typename F>
static dims dims_of() {
  using n = typename parts<F>::n;
  using d = typename parts<F>::d;
  auto const c = [](std::size_t x, std::size_t y) {
    sym_check(x == 0 || y == 0, "a unit is simplified");
    return static_cast<int>(x) - static_cast<int>(y);
  };
  return {c(utls::count_v<utls::meter_tag, n>, utls::count_v<utls::meter_tag, d>), c(utls::count_v<utls::second_tag, n>, utls::count_v<utls::second_tag, d>),
          c(utls::count_v<utls::kilogram_tag, n>, utls::count_v<utls::kilogram_tag, d>), c(utls::count_v<utls::ampere_tag, n>, utls::count_v<utls::ampere_tag, d>)};
}
template <typename X, typename Y>
static void two() {
  auto const x = dims_of<X>(), y = dims_of<Y>();
  auto const p = dims_of<decltype(std::declval<X>() * std::declval<Y>())>(), q = dims_of<decltype(std::declval<X>() / std::declval<Y>())>();
  sym_check(p == dims{x.m_ + y.m_, x.s_ + y.s_, x.kg_ + y.kg_, x.a_ + y.a_}, "dimensions of a product add");
  sym_check(q == dims{x.m_ - y.m_, x.s_ - y.s_, x.kg_ - y.kg_, x.a_ - y.a_}, "dimensions of a quotient subtract");
}
template <typename X>
static void all() {
  two<X, si::unitless>();
  two<X, si::length>();
  two<X, si::time>();
  two<X, si::weight>();
  two<X, si::current>();
  two<X, si::speed>();
  two<X, si::acceleration>();
  two<X, si::force>();
  two<X, si::area>();
  auto const x = dims_of<X>(), p = dims_of<decltype(utls::pow<3>(std::declval<X>()))>();
  sym_check(p == dims{3 * x.m_, 3 * x.s_, 3 * x.kg_, 3 * x.a_}, "dimensions of a power multiply");
}
HARNESS(dimensions) {
  sym_check(dims_of<si::unitless>() == dims{0, 0, 0, 0} && dims_of<si::length>() == dims{1, 0, 0, 0} && dims_of<si::time>() == dims{0, 1, 0, 0} && dims_of<si::weight>() == dims{0, 0, 1, 0} && dims_of<si::current>() == dims{0, 0, 0, 1}, "base units");
  sym_check(dims_of<si::speed>() == dims{1, -1, 0, 0} && dims_of<si::acceleration>() == dims{1, -2, 0, 0} && dims_of<si::force>() == dims{1, -2, 1, 0} && dims_of<si::area>() == dims{2, 0, 0, 0}, "derived units");
  all<si::unitless>();
  all<si::length>();
  all<si::time>();
  all<si::weight>();
  all<si::current>();
  all<si::speed>();
  all<si::acceleration>();
  all<si::force>();
  all<si::area>();
}
HARNESS(polynomials) {
  double const a = sym::f64("a"), b = sym::f64("b"), c = sym::f64("c"), d = sym::f64("d"), x = sym::f64("x");
  sym_check(same(utls::make_polynomial(double(a), double(b), double(c), double(d))(x), d + ((c + ((b + (a * x)) * x)) * x)), "a polynomial is evaluated from its factors in descending order");
  sym_check(same(utls::make_polynomial(double(a), double(b))(x), b + (a * x)) && same(utls::make_polynomial(double(a))(x), a), "a polynomial is evaluated from its factors in descending order");
  auto const p = [](char const* n) { return static_cast<int>(sym::pick(0, 4, n)) - 2; };
  int const i = p("i"), j = p("j"), k = p("k"), l = p("l"), y = p("y");
  sym_check(utls::make_polynomial(double(i), double(j), double(k), double(l))(double(y)) == double(i * y * y * y + j * y * y + k * y + l), "a polynomial of integers is exact");
  auto const t = utls::make_polynomial(si::acceleration{double(i)}, si::speed{double(j)}, si::length{double(k)});
  si::length const r = t(si::time{double(y)});
  sym_check(r.val_ == double(i * y * y + j * y + k), "a polynomial of units is evaluated like one of numbers");
}
template <typename MkIn, typename MkOut, typename Num>
void piecewise_of(MkIn mk_in, MkOut mk_out, Num num) {
  auto const n = sym::pick(1, 3, "pieces");
  double border[4], value[3];
  for (unsigned i = 0; i <= n; ++i) {
    border[i] = sym::f64("border");
    sym_assume(i == 0 ? border[0] > -1e300 : border[i] > border[i - 1]);
    if (i < n) value[i] = sym::f64("value");
  }
  sym_assume(border[n] < 1e300);
  auto const mk = [&](unsigned i) { return utls::make_piece(utls::make_polynomial(mk_out(value[i])), mk_in(border[i]), mk_in(border[i + 1])); };
  soro::vector<decltype(mk(0))> v;
  for (unsigned i = 0; i < n; ++i) v.push_back(mk(i));
  utls::piecewise_function<decltype(mk(0))> const f{.pieces_ = std::move(v)};
  double const x = sym::f64("x");
  sym_assume(x >= border[0]);
  unsigned at = 0;
  while (at < n && !(x < border[at + 1])) ++at;
  bool threw = false;
  double r = 0;
  try {
    r = num(f(mk_in(x)));
  } catch (...) { threw = true; }
  sym_check(threw == (at == n), "a piecewise function is defined exactly below its last border");
  if (!threw) {
    sym_check(same(r, value[at]), "a piecewise function evaluates the piece its argument lies in");
    sym_reach("piece");
  } else
    sym_reach("no_piece");
}
HARNESS(piecewise_units) {
  piecewise_of([](double d) { return si::speed{d}; }, [](double d) { return si::force{d}; }, [](si::force f) { return f.val_; });
}
HARNESS(piecewise) {
  auto const n = sym::pick(1, 3, "pieces");
  double border[4], value[3];
  for (unsigned i = 0; i <= n; ++i) {
    border[i] = sym::f64("border");
    sym_assume(i == 0 ? border[0] > -1e300 : border[i] > border[i - 1]);
    if (i < n) value[i] = sym::f64("value");
  }
  sym_assume(border[n] < 1e300);
  auto const mk = [&](unsigned i) { return utls::make_piece(utls::make_polynomial(double(value[i])), double(border[i]), double(border[i + 1])); };
  soro::vector<decltype(mk(0))> v;
  for (unsigned i = 0; i < n; ++i) v.push_back(mk(i));
  auto const f = utls::make_piecewise(std::move(v));
  double const x = sym::f64("x");
  sym_assume(x >= border[0]);
  unsigned at = 0;
  while (at < n && !(x < border[at + 1])) ++at;
  bool threw = false;
  double r = 0;
  try {
    r = f(x);
  } catch (...) { threw = true; }
  sym_check(threw == (at == n), "a piecewise function is defined exactly below its last border");
  if (!threw) {
    sym_check(same(r, value[at]), "a piecewise function evaluates the piece its argument lies in");
    sym_reach("piece");
  } else
    sym_reach("no_piece");
}
