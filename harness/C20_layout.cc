// @sources src/infrastructure/layout/layout.cc src/infrastructure/layout/layout_to_gps.cc src/infrastructure/station/station.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/graph_creation.cc src/utls/coordinates/gps.cc src/utls/coordinates/cartesian.cc
// @model pugi.cc
// @libs -lpugixml
// @bounds two stations with a section each, of 0 to 3 (thorough: 4) track elements between ends with symbolic two-digit positions in either file; 1 to 4 stations in every arrangement, every set of known positions; stations with 3 elements and neighbours in 8 directions
// @assume positions of stations from fixed lists, less than 100 km apart
// @reach between left right known neighbours single none shape rotated
#include "common/rail.h"
#include "vp_files.h"
#include "soro/infrastructure/layout/layout.h"
#include "soro/infrastructure/layout/layout_to_gps.h"
using namespace rail;
using namespace soro::utls;
using coords = soro::layout::coordinates;

static std::string el(char const* name, std::string const& inner) { return std::string("<") + name + ">" + inner + "</" + name + ">"; }
static std::string text_of(unsigned const tens, std::uint64_t const digit, bool const comma, bool const negative = false) {
  std::string s;
  if (negative) s.push_back('-');
  s.push_back(static_cast<char>('0' + tens));
  s.push_back(static_cast<char>('0' + digit));
  if (comma) s += ",5";
  return s;
}

struct end_at {
  std::string x, y;
  double dx, dy;
};
static end_at any_end(unsigned const tens, bool const nx, bool const ny) {
  // symbolic last digits, 0 to 7
  auto const a = sym_make("x", 3), b = sym_make("y", 3);
  bool const comma = tens == 2;
  double const x = 10.0 * tens + static_cast<double>(a) + (comma ? .5 : 0), y = 30.0 + static_cast<double>(b);
  return {text_of(tens, a, comma, nx), text_of(3, b, false, ny), nx ? -x : x, ny ? -y : y};
}

HARNESS(plan) {
  net w;
  station st[2];
  std::vector<end_at> ends;
  auto const order = sym::pick(0, 1, "order");
  unsigned const tens[2][2] = {{order ? 2U : 1U, order ? 1U : 2U}, {1, 1}};
  auto const sign = sym::pick(0, 2, "sign");
  std::string file[2];
  std::vector<std::vector<element*>> els(2);
  for (unsigned s = 0; s < 2; ++s) {
    st[s].id_ = s;
    auto const k = s == 1 ? 1 : sym::pick(0, BOUND(3, 4), "track elements");
    std::string nodes;
    section sec;
    for (unsigned i = 0; i < k + 2; ++i) {
      bool const end = i == 0 || i == k + 1;
      auto* const e = w.add(end ? type::BUMPER : i == 1 ? type::HALT : type::MAIN_SIGNAL, i != 2);
      els[s].push_back(e);
      std::string const id = std::to_string(100 + e->id());
      if (end) {
        auto const at = any_end(tens[s][i != 0], s == 0 && sign != 0, s == 0 && sign == 2);
        ends.push_back(at);
        nodes += el("Prellbock", el("ID", id) + el("Bildkoordinaten", el("X", at.x) + el("Y", at.y)));
        if (i == 0) nodes += el("Bildpunkt", el("Bildkoordinaten", el("X", "99") + el("Y", "98")));
      } else {
        nodes += el("HalteplatzRz", el("ID", id));
      }
      st[s].elements_.push_back(e);
      sec.rising_order_.push_back(e);
    }
    for (auto i = els[s].size(); i-- > 0;) sec.falling_order_.push_back(els[s][i]);
    w.t.graph_.sections_.push_back(sec);
    w.t.stations_.push_back(&st[s]);
    auto& f = file[s == 1 && sym::pick(0, 1, "file") != 0 ? 1 : 0];
    f += el("Spurplanbetriebsstelle", el("Spurplanabschnitte", el("Spurplanabschnitt", el("Spurplanknoten", nodes))));
  }
  std::vector<loaded_file> files;
  for (unsigned i = 0; i < 2; ++i) {
    auto const name = i == 0 ? "a.xml" : "b.xml";
    vp::create_file(name, el("XmlIssDaten", el("Spurplanbetriebsstellen", file[i])));
    files.emplace_back(name);
  }
  soro::map<rail_plan_node_id, element_id> ids;
  for (auto const& v : els)
    for (auto e : v) ids[100 + e->id()] = e->id();

  auto const l = soro::layout::get_layout(files, w.t.stations_, w.t.graph_.sections_, ids, w.t.graph_.elements_.size());

  sym_check(l.size() == w.t.graph_.elements_.size(), "every element has a place");
  for (unsigned s = 0; s < 2; ++s) {
    auto const &a = ends[2 * s], &b = ends[2 * s + 1];
    auto const& v = els[s];
    auto const n = v.size();
    auto const &la = l[v[0]->id()], &lb = l[v[n - 1]->id()];
    // the ends keep their places to each other, beginning at 0
    bool const right = a.dx < b.dx, down = a.dy < b.dy;
    if (right) sym_reach("right");
    else sym_reach("left");
    sym_check(la.x_ == (right ? 0.0 : a.dx - b.dx) && lb.x_ == (right ? b.dx - a.dx : 0.0), "ends of sections are where the plan has them, from the left of the station");
    sym_check(la.y_ == (down ? 0.0 : a.dy - b.dy) && lb.y_ == (down ? b.dy - a.dy : 0.0), "ends of sections are where the plan has them, from the top of the station");
    // the track elements lie between them, in order
    for (std::size_t i = 1; i + 1 < n; ++i) {
      sym_reach("between");
      auto const& c = l[v[i]->id()];
      auto const& p = l[v[i - 1]->id()];
      double const eps = 1e-9;
      sym_check(right ? c.x_ >= p.x_ - eps && c.x_ <= lb.x_ + eps : c.x_ <= p.x_ + eps && c.x_ >= lb.x_ - eps, "track elements lie in order between the ends");
      sym_check(down ? c.y_ >= p.y_ - eps && c.y_ <= lb.y_ + eps : c.y_ <= p.y_ + eps && c.y_ >= lb.y_ - eps, "track elements lie in order between the ends");
      // at even distances
      if (i >= 2) {
        auto const& f = l[v[1]->id()];
        auto const& g = l[v[2]->id()];
        double const step = g.x_ - f.x_, is = c.x_ - p.x_, stepy = g.y_ - f.y_, isy = c.y_ - p.y_;
        sym_check(step - is < eps && is - step < eps && stepy - isy < eps && isy - stepy < eps, "track elements lie at even distances");
        sym_check(a.dx == b.dx ? step == 0.0 : right ? step > 0 : step < 0, "track elements lie at different places");
        sym_check(a.dy == b.dy ? stepy == 0.0 : down ? stepy > 0 : stepy < 0, "track elements lie at different places");
      }
    }
  }
}

// positions of stations
constexpr unsigned MAX = 4;
struct world {
  net w;
  station st[MAX];
  void border_between(unsigned const a, unsigned const b) {
    auto *const x = w.add(type::BORDER), *const y = w.add(type::BORDER);
    st[a].elements_.push_back(x);
    st[b].elements_.push_back(y);
    border f;
    f.station_ = &st[a];
    f.element_ = x;
    f.neighbour_ = &st[b];
    f.neighbour_element_ = y;
    st[a].borders_.push_back(f);
    border g;
    g.station_ = &st[b];
    g.element_ = y;
    g.neighbour_ = &st[a];
    g.neighbour_element_ = x;
    st[b].borders_.push_back(g);
  }
};
HARNESS(stations) {
  world m;
  auto const n = static_cast<unsigned>(sym::pick(1, MAX, "stations"));
  static double const LON[] = {8.0, 8.5, 9.0, 8.25}, LAT[] = {49.0, 49.5, 48.75, 48.5};
  bool next[MAX][MAX]{};
  soro::vector<gps> known;
  for (unsigned i = 0; i < n; ++i) {
    m.st[i].id_ = i;
    m.w.t.stations_.push_back(&m.st[i]);
    if (sym::pick(0, 1, "known") != 0) known.push_back(gps{LON[i], LAT[i]});
    else known.push_back(gps{});
  }
  for (unsigned i = 0; i < n; ++i)
    for (unsigned k = i + 1; k < n; ++k) {
      if (!sym::pick(0, 1, "neighbours")) continue;
      next[i][k] = next[k][i] = true;
      m.border_between(i, k);
    }
  soro::layout::layout l(m.w.t.graph_.elements_.size());
  for (auto& c : l) c = {0.0, 0.0};

  auto const got = soro::layout::layout_to_gps(l, m.w.t.stations_, known);

  sym_check(got.first.size() == n && got.second.size() == l.size(), "every station and element has a position");
  for (unsigned i = 0; i < n; ++i) {
    auto const& p = got.first[i];
    sym_check(p.valid(), "every station has a valid position");
    if (known[i].valid()) {
      sym_reach("known");
      sym_check(p.lon_ == known[i].lon_ && p.lat_ == known[i].lat_, "known positions are kept");
      continue;
    }
    // known stations reached over unknown ones
    unsigned dist[MAX] = {~0U, ~0U, ~0U, ~0U};
    dist[i] = 0;
    for (unsigned round = 0; round < n; ++round)
      for (unsigned a = 0; a < n; ++a)
        for (unsigned b = 0; b < n; ++b)
          if (dist[a] == round && !known[a].valid() && next[a][b] && dist[b] > round + 1) dist[b] = round + 1;
    std::vector<unsigned> from;
    for (unsigned a = 0; a < n; ++a)
      if (known[a].valid() && dist[a] != ~0U) from.push_back(a);
    if (from.empty()) {
      sym_reach("none");
    } else if (from.size() == 1) {
      sym_reach("single");
      sym_check(p.lat_ == LAT[from[0]] && p.lon_ < LON[from[0]], "a station with one known neighbour lies to its left");
      sym_check(std::abs(LON[from[0]] - p.lon_ - .1 * dist[from[0]]) < 1e-9, "the farther from its neighbour the farther to the left");
    } else {
      sym_reach("neighbours");
      unsigned far = 0;
      for (auto a : from) far = std::max(far, dist[a]);
      double lon = 0, lat = 0, sum = 0;
      for (auto a : from) {
        double const weight = far + 1 - dist[a];
        lon += LON[a] * weight;
        lat += LAT[a] * weight;
        sum += weight;
      }
      sym_check(std::abs(p.lon_ - lon / sum) < 1e-9 && std::abs(p.lat_ - lat / sum) < 1e-9, "a station lies between its nearest known ones, closer to those reached over fewer stations");
    }
  }
}
// elements around their station
HARNESS(elements) {
  world m;
  for (unsigned i = 0; i < 2; ++i) {
    m.st[i].id_ = i;
    m.w.t.stations_.push_back(&m.st[i]);
  }
  m.border_between(0, 1);
  auto *const a = m.w.add(type::HALT), *const b = m.w.add(type::HALT);
  m.st[0].elements_.push_back(a);
  m.st[0].elements_.push_back(b);
  static double const DX[] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[] = {0, .7, 1, .7, 0, -.7, -1, -.7};
  auto const d = sym::pick(0, 7, "direction");
  soro::vector<gps> at;
  at.push_back(gps{8.0, 49.0});
  at.push_back(gps{8.0 + .2 * DX[d], 49.0 + .2 * DY[d]});
  soro::layout::layout l(m.w.t.graph_.elements_.size());
  auto const corner = sym::pick(0, 3, "border");
  static double const CX[] = {0, 40, 0, 40}, CY[] = {0, 0, 30, 30};
  l[m.st[0].elements_[0]->id()] = {CX[corner], CY[corner]};
  l[m.st[1].elements_[0]->id()] = {0.0, 0.0};
  l[a->id()] = {CX[(corner + 1) % 4], CY[(corner + 1) % 4]};
  l[b->id()] = {CX[(corner + 2) % 4], CY[(corner + 2) % 4]};
  auto const got = soro::layout::layout_to_gps(l, m.w.t.stations_, at);
  auto const near = [](double x, double y) { return std::abs(x - y) < .5; };
  // the shape of the station
  std::vector<element::ptr> e;
  for (auto x : m.st[0].elements_) e.push_back(x);
  for (std::size_t i = 0; i < 3; ++i)
    for (std::size_t k = 0; k < i; ++k) {
      auto const &p = l[e[i]->id()], &q = l[e[k]->id()];
      double const want = 10.0 * std::sqrt((p.x_ - q.x_) * (p.x_ - q.x_) + (p.y_ - q.y_) * (p.y_ - q.y_));
      sym_reach("shape");
      sym_check(near(got.second[e[i]->id()].distance(got.second[e[k]->id()]), want), "elements of a station keep their distances");
    }
  {
    auto const &p = l[e[0]->id()], &q = l[e[1]->id()], &r = l[e[2]->id()];
    auto const &x = got.second[e[0]->id()], &y = got.second[e[1]->id()], &z = got.second[e[2]->id()];
    // downwards in the plan, upwards on the map
    bool const plan = (q.x_ - p.x_) * (r.y_ - p.y_) - (q.y_ - p.y_) * (r.x_ - p.x_) > 0;
    bool const map = (y.lon_ - x.lon_) * (z.lat_ - x.lat_) - (y.lat_ - x.lat_) * (z.lon_ - x.lon_) < 0;
    sym_check(plan == map, "a station is turned, not mirrored");
  }
  for (std::size_t i = 0; i < 3; ++i) sym_check(near(got.second[e[i]->id()].distance(at[0]), 250.0), "a station lies in the middle of its elements");
  sym_check(near(got.second[m.st[1].elements_[0]->id()].distance(at[1]), 0.0), "the only element of a station lies where the station is");
  // turned so that the border is next to the neighbour
  auto const border_at = got.second[e[0]->id()];
  sym_check(border_at.distance(at[1]) < at[0].distance(at[1]) - 245.0, "a station is turned towards its neighbour");
  sym_reach("rotated");
}
