// @sources web/server/src/modules/ordering/serve_ordering_graph.cc web/server/src/modules/ordering/ordering_module.cc web/server/src/modules/infrastructure/infrastructure_module.cc web/server/src/modules/timetable/timetable_module.cc src/infrastructure/infrastructure.cc src/timetable/timetable.cc src/timetable/timetable_error.cc src/timetable/train.cc src/timetable/sequence_point.cc src/timetable/bitfield.cc src/infrastructure/interlocking/interlocking_route.cc src/infrastructure/station/station_route.cc src/infrastructure/graph/node.cc src/infrastructure/graph/element.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/line.cc
// @include web/server/include
// @stub simulation::ordering_graph: any graph (C27 is about the one computed), the filter it is asked for is recorded
// @bounds graphs of 0 to 4 (thorough: 5) trips of 1 to 3 nodes in turn with every set of edges from a trip to the next, all departure times and 4 service days; all times of 1 and 3 digits and ranges of 1000 times of 10 and 11 digits as one bound of the interval and 4 times as the other, lists of 0 to 3 trains; unknown names
// @opt --fork-div 64
// @assume the departures lie in the range of absolute times
// @reach graph empty earlier later edge unknown refused huge all some reversed
#include "common/rail.h"
#include "common/answers.h"
#include "soro/server/modules/ordering/ordering_module.h"
#include "soro/simulation/ordering/ordering_graph.h"
using namespace rail;
using namespace answers;
using namespace soro::simulation;

static ordering_graph the_graph;
static ordering_graph::filter asked;
static void const *asked_infra, *asked_tt;
static unsigned calls;
namespace soro::simulation {
ordering_graph::ordering_graph(infra::infrastructure const& infra, tt::timetable const& tt, filter const& f) {
  ++calls;
  asked = f;
  asked_infra = &*infra;
  asked_tt = &*tt;
  *this = the_graph;
}
ordering_graph::ordering_graph(infra::infrastructure const& infra, tt::timetable const& tt) : ordering_graph(infra, tt, filter{}) {}
}  // namespace soro::simulation
namespace soro::infra {
infrastructure_t parse_iss(infrastructure_options const&) { return {}; }
}  // namespace soro::infra
namespace soro::tt {
bool is_kss_timetable(timetable_options const&) { return false; }
utls::result<base_timetable> parse_kss_timetable(timetable_options const&, infra::infrastructure const&) { return base_timetable{}; }
}  // namespace soro::tt

struct world {
  infrastructure_t infra[2];
  soro::server::infrastructure_module im;
  soro::server::timetable_module tm;
  explicit world(tt::base_timetable const& base) {
    the_graph = {};
    calls = 0;
    for (unsigned k = 0; k < 2; ++k) {
      infra[k].source_ = k == 0 ? "first" : "second";
      im.infrastructures_.emplace(infra[k].source_, std::make_unique<infrastructure>(&infra[k]));
      auto& c = tm.contexts_[infra[k].source_].timetables_;
      auto copy = base;
      auto t = std::make_unique<tt::timetable>(std::move(copy));
      auto const* const name = k == 0 ? "tt" : "other";
      c.emplace(name, std::move(t));
    }
  }
};

HARNESS(graphs) {
#ifdef THOROUGH
  constexpr unsigned MAX = 5;
#else
  constexpr unsigned MAX = 4;
#endif
  unsigned const n = static_cast<unsigned>(sym::pick(0, MAX, "trips"));
  unsigned const trains = n == 0 ? 0 : n - static_cast<unsigned>(sym::pick(0, 1, "a train runs twice") != 0 && n > 1);
  tt::base_timetable base;
  base.source_ = "tt";
  std::vector<std::uint64_t> departure;
  for (unsigned i = 0; i < trains; ++i) {
    tt::train t;
    t.id_ = i;
    tt::sequence_point p;
    departure.push_back(sym::u32("departure") & 0x3ffff);
    p.departure_ = relative_time{static_cast<std::uint32_t>(departure[i])};
    t.sequence_points_.push_back(p);
    p.arrival_ = relative_time{static_cast<std::uint32_t>(departure[i]) + 60};
    t.sequence_points_.push_back(p);
    base.trains_.push_back(t);
  }
  world x(base);
  struct trip {
    unsigned train, nodes, first;
    std::uint64_t at;
  };
  std::vector<trip> trips;
  std::uint32_t last = 0;
  unsigned next = 0, longest = 0;
  auto const shape = static_cast<unsigned>(sym::pick(0, 2, "nodes"));
  for (unsigned i = 0; i < n; ++i) {
    unsigned const train = i < trains ? i : 0;
    // a train's second trip is on another day
    std::uint32_t const day = 19000 + (sym::u32("day") & 3);
    if (i >= trains) {
      sym_assume(day != last);
    } else if (i == 0)
      last = day;
    trip t{train, 1 + (shape + i) % 3, next, relative_to_absolute(absolute_time{days{day}}, relative_time{static_cast<std::uint32_t>(departure[train])}).time_since_epoch().count()};
    next += t.nodes;
    longest = std::max(longest, t.nodes);
    for (unsigned j = 0; j < t.nodes; ++j) {
      ordering_node o;
      o.id_ = t.first + j;
      o.train_id_ = train;
      o.ir_id_ = 100 + 7 * o.id_;
      if (j + 1 < t.nodes) o.out_.push_back(o.id_ + 1);
      the_graph.nodes_.push_back(o);
    }
    the_graph.trip_to_nodes_[tt::train::trip{.train_id_ = train, .anchor_ = absolute_time{days{day}}}] = {t.first, next};
    trips.push_back(t);
  }
  for (unsigned i = 0; i + 1 < n; ++i)
    if (sym::pick(0, 1, "edge") != 0) {
      the_graph.nodes_[trips[i].first].out_.push_back(trips[i + 1].first);
      if (sym::pick(0, 1, "backward") != 0) the_graph.nodes_[trips[i + 1].first].out_.push_back(trips[i].first + trips[i].nodes - 1);
      sym_reach("edge");
    }
  auto const req = request({"first", "tt", "100", "200", ""});
  auto const r = soro::server::get_ordering_module().serve_ordering_graph(req, x.im, x.tm);
  auto const v = document(req, r);
  sym_check(calls == 1 && asked_infra == &x.infra[0] && asked_tt == &***x.tm.get_timetable("first", "tt"), "the graph of the timetable asked for");
  auto const& a = get(v, "attributes");
  sym_check(number(get(a, "totalTrains")) == n, "the number of trips");
  sym_check(number(get(a, "maxTrainLength")) == longest, "the length of the longest trip");
  auto const& nodes = list(get(v, "nodes"));
  sym_check(nodes.size() == next, "every node is listed once");
  // trips by their first departure, nodes of a trip in order
  std::vector<bool> seen(n, false);
  std::uint64_t before = 0;
  unsigned at = 0;
  for (unsigned k = 0; k < n; ++k) {
    auto const key = number(get(nodes[at].second, "key"));
    unsigned i = 0;
    while (i < n && trips[i].first != key) ++i;
    sym_check(i < n && !seen[i], "every trip is listed once from its first node on");
    seen[i] = true;
    if (k != 0 && i < k) sym_reach("earlier");
    if (i > k) sym_reach("later");
    sym_check(k == 0 || before <= trips[i].at, "trips are in the order of their first departures");
    before = trips[i].at;
    for (unsigned j = 0; j < trips[i].nodes; ++j, ++at) {
      auto const& o = nodes[at].second;
      auto const& d = get(o, "attributes");
      sym_check(number(get(o, "key")) == trips[i].first + j && number(get(d, "offset")) == j, "nodes of a trip are in order");
      sym_check(number(get(d, "train")) == trips[i].train, "a node's train");
      sym_check(number(get(d, "route")) == 100 + 7 * (trips[i].first + j), "a node's interlocking route");
      sym_check(number(get(d, "relativeTrainId")) == k, "trips are numbered in order");
    }
  }
  auto const& edges = list(get(v, "edges"));
  std::size_t m = 0;
  for (auto const& o : the_graph.nodes_)
    for (auto const to : o.out_) {
      ++m;
      unsigned found = 0;
      for (auto const& e : edges) found += number(get(e.second, "source")) == o.id_ && number(get(e.second, "target")) == to;
      sym_check(found == 1, "every edge is listed once");
    }
  sym_check(edges.size() == m, "every edge is listed once");
  sym_reach(n == 0 ? "empty" : "graph");
}

// a known start and up to three digits of any value
static std::string digits(unsigned const k, std::uint64_t& value) {
  static char const* const starts[] = {"", "", "1667260", "4294967", "42949672", "0"};
  static unsigned const rest[] = {1, 3, 3, 3, 3, 2};
  std::string s = starts[k];
  value = 0;
  for (auto const c : s) value = value * 10 + static_cast<std::uint64_t>(c - '0');
  for (unsigned i = 0; i < rest[k]; ++i) {
    auto const d = static_cast<unsigned>(sym::u8("digit") & 15);
    sym_assume(d < 10);
    s.push_back(static_cast<char>('0' + d));
    value = value * 10 + d;
  }
  return s;
}
HARNESS(filters) {
  tt::base_timetable base;
  base.source_ = "tt";
  world x(base);
  static char const* const fixed[] = {"0", "1667260800", "4294967295", "4294967296"};
  static std::uint64_t const values[] = {0, 1667260800, 4294967295, 4294967296};
  // one time is any, the other one and the trains are from lists
  unsigned const which = static_cast<unsigned>(sym::pick(0, 2, "which"));
  std::uint64_t from, to;
  std::string f, t;
  auto const any = [&](std::string& s, std::uint64_t& v) { s = digits(static_cast<unsigned>(sym::pick(0, 5, "digits")), v); };
  auto const one = [&](std::string& s, std::uint64_t& v) {
    auto const k = sym::pick(0, 3, "time");
    s = fixed[k];
    v = values[k];
  };
  which == 0 ? any(f, from) : one(f, from);
  which == 1 ? any(t, to) : one(t, to);
  static char const* const lists[] = {"", "0", "17,3", "4294967295,0,12", "4294967296", "3,99999999999999999999"};
  static std::vector<std::uint32_t> const ids[] = {{}, {0}, {17, 3}, {4294967295, 0, 12}, {}, {}};
  auto const l = which == 2 ? static_cast<unsigned>(sym::pick(0, 5, "trains")) : 2;
  auto const req = request({"first", "tt", f, t, lists[l]});
  auto const r = soro::server::get_ordering_module().serve_ordering_graph(req, x.im, x.tm);
  if (bool const bad = (from > 0xffffffffULL) | (to > 0xffffffffULL) | (from > to); bad || l > 3) {
    if ((from <= 0xffffffffULL) & (to <= 0xffffffffULL)) sym_reach("reversed");
    if (from > 0xffffffffULL) sym_reach("huge");
    sym_check(refused(r, http::status::bad_request), "what is not an interval of times and a list of trains is refused");
    sym_check(calls == 0, "nothing is computed for it");
    sym_reach("refused");
    return;
  }
  sym_check(list(get(document(req, r), "nodes")).empty(), "the graph computed");
  sym_check(calls == 1 && asked_infra == &x.infra[0], "the graph of the timetable asked for");
  sym_check(asked.interval_.start_.time_since_epoch().count() == from, "the interval asked for");
  sym_check(asked.interval_.end_.time_since_epoch().count() == to, "the interval asked for");
  sym_check(asked.trains_ == ids[l], "the trains asked for");
  sym_reach(l == 0 ? "all" : "some");
}

HARNESS(names) {
  tt::base_timetable base;
  base.source_ = "tt";
  world x(base);
  static char const* const infras[] = {"first", "second", "third", ""};
  static char const* const tts[] = {"tt", "other", "t", ""};
  auto const i = static_cast<unsigned>(sym::pick(0, 3, "infrastructure")), t = static_cast<unsigned>(sym::pick(0, 3, "timetable"));
  auto const req = request({infras[i], tts[t], "5", "7", "1"});
  auto const r = soro::server::get_ordering_module().serve_ordering_graph(req, x.im, x.tm);
  if (i > 1 || t != i) {
    sym_check(refused(r, http::status::not_found) && calls == 0, "an unknown infrastructure or timetable is not found");
    sym_reach("unknown");
    return;
  }
  sym_check(list(get(document(req, r), "nodes")).empty(), "the graph computed");
  sym_check(calls == 1 && asked_infra == &x.infra[i] && asked_tt == &***x.tm.get_timetable(infras[i], tts[t]), "the graph of the timetable asked for");
}
