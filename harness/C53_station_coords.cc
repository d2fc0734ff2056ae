// @sources src/infrastructure/parsers/parse_station_coords.cc src/infrastructure/layout/layout_to_gps.cc src/infrastructure/station/station.cc src/utls/coordinates/gps.cc src/utls/coordinates/cartesian.cc
// @bounds coordinate files of up to 2 (thorough: 3) lines with the columns in every order, with and without a further column, ends of lines of either kind; 1 to 3 stations, of which each line names one or none; every coordinate of up to 3 digits (and a sign) or none
// @assume station names and numbers without quotes, as in the file the importer comes with
// @stub utl's csv reader is modelled (columns by the names of the first line); std::from_chars for floating point is modelled exactly for plain decimals; files are held in memory
// @reach given absent unknown missing partly placed
#include <bit>
#include "common/vec.h"
#include "vp_files.h"
#include "soro/infrastructure/layout/layout_to_gps.h"
#include "soro/infrastructure/parsers/parse_station_coords.h"
#include "soro/utls/parse_fp.h"
using namespace soro;
using namespace soro::infra;
using soro::utls::gps;

static char const* const NAMES[] = {"B", "AB", "A  C", "XA"};
struct world {
  explicit world(unsigned const n, bool const turned) {
    for (unsigned i = 0; i < n; ++i) {
      st[i].id_ = turned ? n - 1 - i : i;
      st[i].ds100_ = NAMES[i];
      names[NAMES[i]] = &st[i];
    }
    for (unsigned i = 0; i < n; ++i) all.push_back(turned ? &st[n - 1 - i] : &st[i]);
  }
  station st[3];
  soro::map<soro::string, station::ptr> names;
  soro::vector<station::ptr> all;
};
// a coordinate of the file
struct coord {
  std::string text;
  bool given{false};
  double value{0};
};
static coord any_coord() {
  coord c;
  if (sym::pick(0, 1, "given") == 0) return c;
  c.given = true;
  bool const minus = sym::pick(0, 1, "sign") != 0;
  auto const a = static_cast<unsigned>(sym::range(0, 9, "digit")), b = static_cast<unsigned>(sym::range(0, 9, "digit"));
  c.text = minus ? "-4" : "4";
  c.text.push_back(static_cast<char>('0' + a));
  c.text.push_back('.');
  c.text.push_back(static_cast<char>('0' + b));
  c.value = soro::utls::parse_fp<double>(c.text);
  return c;
}
static bool same(double a, double b) { return std::bit_cast<std::uint64_t>(a) == std::bit_cast<std::uint64_t>(b); }

HARNESS(lines) {
  auto const n = sym::pick(1, 3, "stations");
  world w(n, sym::pick(0, 1, "turned") != 0);
  static unsigned const ORDER[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  auto const& order = ORDER[sym::pick(0, 5, "order")];
  auto const form = sym::pick(0, 2, "form");
  std::string const eol = form == 1 ? "\r\n" : "\n";
  bool const more = form == 2;
  auto const line = [&](std::string const& id, std::string const& lat, std::string const& lon, char const* const other) {
    std::string const* cell[3] = {&id, &lat, &lon};
    std::string s;
    for (unsigned i = 0; i < 3; ++i) {
      if (i != 0) s += ",";
      s += *cell[order[i]];
      if (i == 0 && more) s += std::string(",") + other;
    }
    return s;
  };
  auto text = line("ds100", "lat", "lon", "name");
  coord want[3][2];
  bool named[3] = {};
  auto const k = sym::pick(0, BOUND(2, 3), "lines");
  for (unsigned i = 0; i < k; ++i) {
    auto const s = sym::pick(0, n, "station");
    auto const lat = any_coord(), lon = any_coord();
    text += eol + line(s == n ? "XA" : NAMES[s], lat.text, lon.text, "Berg");
    if (s == n) {
      sym_reach("unknown");
      continue;
    }
    want[s][0] = lat;
    want[s][1] = lon;
    named[s] = true;
    sym_reach(lat.given != lon.given ? "partly" : lat.given ? "given" : "absent");
  }
  if (form != 0) text += eol;
  vp::create_file("coords.csv", text);
  auto const got = parse_station_coords("coords.csv", w.names);
  sym_check(got.size() == n, "there is a position for every station");
  for (unsigned i = 0; i < n; ++i) {
    auto const& g = got[w.st[i].id_];
    bool const valid = named[i] && want[i][0].given && want[i][1].given;
    sym_check(g.valid() == valid, "the position of a station is known if the file has both coordinates");
    if (valid) sym_check(same(g.lat_, want[i][0].value) && same(g.lon_, want[i][1].value), "a station has the coordinates of its line");
  }
}
HARNESS(no_file) {
  auto const n = sym::pick(1, 3, "stations");
  world w(n, false);
  bool const empty = sym::pick(0, 1, "no name") != 0;
  vp::create_file("other.csv", "ds100,lat,lon\nB,1.5,2.5\n");
  auto const got = parse_station_coords(empty ? "" : "coords.csv", w.names);
  sym_check(got.size() == n, "there is a position for every station, even without a coordinate file");
  for (unsigned i = 0; i < n; ++i) sym_check(!got[i].valid(), "without a coordinate file no position is known");
  sym_reach("missing");
  auto const [at, elements] = layout::layout_to_gps({}, w.all, got);
  sym_check(at.size() == n && elements.empty(), "every station is placed");
  for (unsigned i = 0; i < n; ++i) sym_check(at[i].valid(), "every station is placed");
  sym_reach("placed");
}
