// @sources src/utls/coordinates/gps.cc
// @bounds every pair of double coordinates (NaN and infinities included) for validity; bounding boxes of up to 3 (quick) / 4 (thorough) points with arbitrary non-NaN coordinates in [-361, 361]
// @bounds tolerant comparison: every pair of doubles below 1e300 for its definition; floats i/256 with |i| <= 512 for symmetry
// @assume coordinates of a bounding box are numbers in the representable range of a gps position
// @reach valid invalid box
#include "common/vec.h"
#include <cmath>
#include "soro/utls/coordinates/cartesian.h"
#include "soro/utls/coordinates/gps.h"
#include "soro/base/fp_precision.h"
using namespace soro;
using utls::gps;

HARNESS(valid) {
  gps const p{.lon_ = sym::f64("lon"), .lat_ = sym::f64("lat")};
  bool const v = p.lon_ >= -360.0 && p.lon_ <= 360.0 && p.lat_ >= -360.0 && p.lat_ <= 360.0;
  sym_check(p.valid() == v, "a position is valid exactly if both angles lie within a full turn");
  sym_check(!gps{}.valid(), "a default position is invalid");
  if (v) sym_reach("valid"); else sym_reach("invalid");
}
static double coord() {
  double const d = sym::f64("angle");
  sym_assume(d >= -361.0 && d <= 361.0);
  return d;
}
HARNESS(bounding_box) {
  auto const n = sym::pick(0, BOUND(3, 4), "n");
  std::vector<gps> v;
  for (unsigned i = 0; i < n; ++i) v.push_back({.lon_ = coord(), .lat_ = coord()});
  auto const b = utls::get_bounding_box(v);
  bool w = false, e = false, s = false, t = false;
  for (auto const& p : v) {
    sym_check(b.south_west_.lon_ <= p.lon_ && p.lon_ <= b.north_east_.lon_ && b.south_west_.lat_ <= p.lat_ && p.lat_ <= b.north_east_.lat_, "the box contains every point");
    w |= b.south_west_.lon_ == p.lon_;
    s |= b.south_west_.lat_ == p.lat_;
    e |= b.north_east_.lon_ == p.lon_;
    t |= b.north_east_.lat_ == p.lat_;
  }
  if (n != 0) {
    sym_check(w && s && e && t, "every side of the box touches a point");
    sym_reach("box");
  } else
    sym_check(b.south_west_.lon_ > b.north_east_.lon_ && b.south_west_.lat_ > b.north_east_.lat_ && !b.south_west_.valid() && !b.north_east_.valid(), "the box of no points is empty");
}
// tolerant comparison of floating point numbers, the basis of all unit comparisons
template <typename T>
static void tolerance(T const a, T const b, bool symmetric) {
  bool const r = soro::equal(a, b);
  if (symmetric) sym_check(r == soro::equal(b, a), "tolerant equality is symmetric");
  sym_check(soro::equal(a, a), "tolerant equality is reflexive");
  if (a == b) sym_check(r, "equal numbers are tolerantly equal");
  T const d = a - b;
  sym_check(r == (d < T(0.01) && d > -T(0.01)), "numbers are tolerantly equal exactly if they differ by less than the precision");
  sym_check(soro::zero(a) == (a < T(0.01) && a > -T(0.01)), "a number is tolerantly zero exactly if it is closer to zero than the precision");
}
HARNESS(tolerance_double) {
  double const a = sym::f64("a"), b = sym::f64("b");
  sym_assume(a > -1e300 && a < 1e300 && b > -1e300 && b < 1e300);
  tolerance(a, b, false);
}
HARNESS(tolerance_float) {
  float const a = static_cast<float>(sym::irange(-512, 511, "a")) / 256.0F, b = static_cast<float>(sym::irange(-512, 511, "b")) / 256.0F;
  tolerance(a, b, true);
}
