// @sources src/infrastructure/parsers/iss/parse_iss.cc src/infrastructure/parsers/iss/iss_files.cc src/infrastructure/parsers/iss/parse_helpers.cc src/infrastructure/parsers/iss/parse_station_route.cc src/infrastructure/parsers/iss/parse_track_element.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/graph/element.cc src/infrastructure/graph/node.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/station/station_route_graph.cc src/infrastructure/regulatory_data.cc src/infrastructure/line.cc src/rolling_stock/parse_train_series.cc
// @model pugi.cc
// @libs -lpugixml
// @bounds one station with a switch, a border to a neighbour and one to a missing station; one route from any of 6 to any of 7 possible ends in either direction with up to 2 omitted nodes, up to 2 extra limits, halts and checkpoint at any node, 3 attributes; two routes differing in end, course, any omitted main signals or not at all; two in different stations
// @assume routes follow the track; a route's begin and end are borders, track ends or directed elements; omitted nodes and limits lie on the route
// @stub pugixml (symbolic runs; native replays use the real library)
// @reach branch trailing shared apart unpublished crossing etcs
#include "common/iss.h"
using namespace iss;

static infrastructure_t parse(files& f) {
  f.opts.interlocking_ = false;
  f.opts.exclusions_ = false;
  f.opts.layout_ = false;
  return f.parse();
}
// Station A:  border(B) 1 - signal S 2 - tunnel 3 - halt S 4 - halt F 5 - switch 6/7/11
//             stem: 7 - etcs S 8 - signal S 9 - track end 10
//             branch: 11 - signal F 12 - signal S 13 - border(C) 14
// the position is the id, in half kilometres
struct way {
  bool up;
  bool branch;
  std::vector<unsigned> ids;  // all it passes, the switch being 6
};
static std::string at(unsigned id) { return num(id / 2) + (id % 2 ? ",5" : ""); }
static std::string sections_a(bool const first_border) {
  auto const n = [](char const* name, unsigned id, std::string const& more = "") { return item(name, id, at(id), more); };
  return track(1, (first_border ? n("Betriebsstellengrenze", 1, el("PartnerBtrst", "B") + el("Gleiskennzeichen", "1")) : n("Gleisende", 1)) + n("HauptsignalS", 2) + n("Tunnel", 3) + n("HalteplatzGzS", 4) + n("HalteplatzRzLinksF", 5) +
                      n("Weichenanfang", 6, el("Name", "W") + ref("Partner", 7))) +
         track(1, n("Weichenstamm", 7, ref("Partner", 6)) + n("ETCSAnfangS", 8) + n("HauptsignalS", 9) + n("Prellbock", 10)) +
         track(1, n("WeichenabzweigLinks", 11, ref("Partner", 6)) + n("HauptsignalF", 12) + n("HauptsignalS", 13) + n("Betriebsstellengrenze", 14, el("PartnerBtrst", "C") + el("Gleiskennzeichen", "1")));
}
// everything a train passes from one side to the other; metas have id 0
static way course(bool up, bool branch) {
  way w{up, branch, {}};
  if (up) {
    w.ids = {1, 2, 3, 4, 6};
    for (auto i : branch ? std::vector<unsigned>{13, 14} : std::vector<unsigned>{8, 9, 10}) w.ids.push_back(i);
  } else {
    w.ids = branch ? std::vector<unsigned>{14, 12} : std::vector<unsigned>{10, 0};
    for (unsigned i : {6, 5, 3, 1}) w.ids.push_back(i);
  }
  return w;
}
static node::ptr node_of(infrastructure_t const& t, unsigned id, bool up) {
  auto const s0 = t.ds100_to_station_.at("A")->sections_[0];
  auto const& secs = t.graph_.sections_;
  auto const of_end = [&](element::ptr e, bool rising_node) { return e->nodes()[rising_node ? 0 : 1]; };
  if (id == 1) return of_end(secs[s0].first_rising(), up);
  if (id == 6) return of_end(secs[s0].last_rising(), up);
  if (id == 10) return of_end(secs[s0 + 1].last_rising(), up);
  if (id == 14) return of_end(secs[s0 + 2].last_rising(), up);
  if (id == 0) {
    for (auto e : secs[s0 + 1].rising_order_)
      if (e->is(type::META) && !e->rising()) return e->nodes()[0];
    return nullptr;
  }
  for (unsigned s = s0; s < s0 + 3; ++s)
    for (auto e : secs[s].rising_order_) {
      if (e->is_directed_track_element() && e->as<track_element>().km_ == si::from_m(500.0 * id) && !e->is(type::META)) return e->as<track_element>().get_node();
      if (e->is_undirected_track_element() && e->as<undirected_track_element>().km_ == si::from_m(500.0 * id)) return e->nodes()[up ? 0 : 1];
    }
  return nullptr;
}
static unsigned twice_km(unsigned id, bool leaving_branch) { return id == 6 && leaving_branch ? 11 : id; }

struct route {
  way w;
  unsigned from = 0, to = 0;  // positions in w.ids
  std::vector<unsigned> omitted, limits;
  unsigned passenger = 0, freight = 0, checkpoint = 0;
  unsigned attributes = 0;
  std::vector<unsigned> ids() const { return {w.ids.begin() + from, w.ids.begin() + to + 1}; }
  bool passes(unsigned id) const {
    for (auto x : ids())
      if (x == id) return true;
    return false;
  }
  bool by_switch() const { return passes(6); }
};
static char const* type_name(unsigned id) { return id == 2 || id == 9 || id == 13 ? "HauptsignalS" : id == 12 ? "HauptsignalF" : id == 4 ? "HalteplatzGzS" : id == 5 ? "HalteplatzRzLinksF" : "ETCSAnfangS"; }
static char const* const ATTR[3] = {"Elektrifiziert", "Falschfahrt", "HineinDurchgehendesHauptgleis"};
static unsigned const ATTR_AT[3] = {1, 2, 10};
static std::string text_of(route const& r, char const* name, std::string const& more = "") {
  std::string s = el("Name", name) + ref("Anfang", r.w.ids[r.from]) + ref("Ende", r.w.ids[r.to]);
  if (r.by_switch()) s += el("Verlauf", r.w.branch ? "<Abzweig/>" : "<Stamm/>");
  if (r.passenger) s += ref("Reisezughalt", r.passenger);
  if (r.freight) s += ref("Gueterzughalt", r.freight);
  if (r.checkpoint) s += ref("Fahrzeitmesspunkt", r.checkpoint);
  std::string o;
  for (auto id : r.omitted) o += "<EntfallenderKnoten Typ=\"" + std::string(type_name(id)) + "\" ID=\"" + num(id) + "\"/>";
  if (!o.empty()) s += el("EntfallendeKnoten", o);
  std::string l;
  for (auto id : r.limits)
    l += el("GeschwBeschraenkung", "<Knoten Typ=\"" + std::string(type_name(id)) + "\" ID=\"" + num(id) + "\"/>" + el("Geschw", num(10 * id)) + el("Wirkungsort", "Hier") + el("Zugbeeinflussung", "Alle"));
  if (!l.empty()) s += el("GeschwBeschraenkungen", l);
  std::string a;
  for (unsigned i = 0; i < 3; ++i)
    if (r.attributes >> i & 1) a += std::string("<") + ATTR[i] + "/>";
  if (!a.empty()) s += el("Attribute", a);
  return el("Betriebsstellenfahrweg", s + more);
}
static bool is_track(unsigned id) { return id != 1 && id != 6 && id != 10 && id != 14 && id != 3 && id != 0; }
static bool is_end(unsigned id) { return id == 1 || id == 10 || id == 14; }
static route any_route() {
  route r;
  bool const up = sym::pick(0, 1, "up") != 0, branch = sym::pick(0, 1, "branch") != 0;
  r.w = course(up, branch);
  std::vector<unsigned> begins, ends;
  auto const n = static_cast<unsigned>(r.w.ids.size());
  for (unsigned i = 0; i < n; ++i)
    if (is_track(r.w.ids[i]) || is_end(r.w.ids[i])) begins.push_back(i);
  r.from = begins[sym::pick(0, static_cast<int>(begins.size()) - 2, "from")];
  for (auto i : begins)
    if (i > r.from) ends.push_back(i);
  r.to = ends[sym::pick(0, static_cast<int>(ends.size()) - 1, "to")];
  return r;
}
static void check_route(infrastructure_t const& t, route const& r, char const* name, station::ptr before, station::ptr after) {
  auto const a = t.ds100_to_station_.at("A");
  sym_check(a->station_routes_.find(name) != a->station_routes_.end(), "a route is found by its name");
  auto const sr = a->station_routes_.at(name);
  sym_check(sr->name_ == name && sr->station_ == a && t.station_routes_[sr->id_] == sr, "a route is found by its name and number");
  auto const ids = r.ids();
  sym_check(sr->size() == ids.size() && sr->nodes().size() == ids.size(), "a route passes the nodes from its begin to its end");
  if (sr->size() != ids.size()) return;
  unsigned length = 0;
  std::vector<node::idx> omitted, signals, etcs;
  for (unsigned i = 0; i < ids.size(); ++i) {
    sym_check(sr->nodes(i) == node_of(t, ids[i], r.w.up), "a route follows the track and the course");
    bool omit = false;
    for (auto o : r.omitted) omit = omit || o == ids[i];
    if (omit) omitted.push_back(i);
    if ((ids[i] == 2 || ids[i] == 9 || ids[i] == 12 || ids[i] == 13) && !omit) signals.push_back(i);
    if (ids[i] == 8) etcs.push_back(i);
    if (i) {
      // the switch has a position of its own in every section
      auto const b = twice_km(ids[i - 1] == 6 ? (r.w.up ? (r.w.branch ? 11 : 7) : 6) : ids[i - 1] ? ids[i - 1] : 10, false);
      auto const e = twice_km(ids[i] == 6 ? (r.w.up ? 6 : r.w.branch ? 11 : 7) : ids[i] ? ids[i] : 10, false);
      length += b < e ? e - b : b - e;
    }
  }
  sym_check(sr->path_->start_ == node_of(t, ids.front(), r.w.up)->element_ && sr->path_->end_ == node_of(t, ids.back(), r.w.up)->element_, "a route knows its ends");
  auto const same = [](auto const& a, std::vector<node::idx> const& b) {
    if (a.size() != b.size()) return false;
    for (unsigned i = 0; i < b.size(); ++i)
      if (a[i] != b[i]) return false;
    return true;
  };
  sym_check(same(sr->omitted_nodes_, omitted), "exactly the nodes given are omitted");
  sym_check(same(sr->path_->main_signals_, signals), "the main signals of a route are those not omitted");
  sym_check(same(sr->path_->etcs_starts_, etcs) && sr->path_->etcs_ends_.empty(), "a route knows where ETCS starts");
  sym_check(sr->length_ == si::from_m(500.0 * length), "a route is as long as its track");
  auto const idx = [&](unsigned id) {
    for (unsigned i = 0; i < ids.size(); ++i)
      if (ids[i] == id) return static_cast<int>(i);
    return -1;
  };
  auto const is = [&](node::optional_idx const& o, unsigned id) { return id ? o.has_value() && static_cast<int>(*o) == idx(id) : !o.has_value(); };
  sym_check(is(sr->passenger_halt_, r.passenger) && is(sr->freight_halt_, r.freight) && is(sr->runtime_checkpoint_, r.checkpoint), "halts and checkpoint are where the file has them");
  sym_check(sr->extra_speed_limits_.size() == r.limits.size(), "a route has its extra speed limits");
  int last = -1;
  for (auto const& l : sr->extra_speed_limits_) {
    unsigned in = 0;
    for (auto id : r.limits)
      if (l.node_ == node_of(t, id, r.w.up) && l.element_ == l.node_->element_) {
        ++in;
        sym_check(l.limit_ == si::from_km_h(10 * id) && idx(id) > last, "extra speed limits are in order");
        last = idx(id);
      }
    sym_check(in == 1, "a route has its extra speed limits");
  }
  for (unsigned i = 0; i < sr->attributes_.size(); ++i) {
    bool want = false;
    for (unsigned k = 0; k < 3; ++k) want = want || (ATTR_AT[k] == i && (r.attributes >> k & 1));
    sym_check(sr->attributes_[i] == want, "a route has its attributes");
  }
  sym_check(sr->electrified() == ((r.attributes & 1) != 0), "a route is electrified or not");
  bool const out_end = r.w.up ? false : ids.back() == 1, in_begin = r.w.up && ids.front() == 1;
  sym_check(out_end && after ? sr->to_station_.has_value() && *sr->to_station_ == after : !sr->to_station_.has_value(), "a route knows the station it leads to");
  sym_check(in_begin && before ? sr->from_station_.has_value() && *sr->from_station_ == before : !sr->from_station_.has_value(), "a route knows the station it comes from");
  auto const first = sr->nodes().front()->element_->id();
  unsigned in = 0;
  for (auto x : a->element_to_routes_.at(first)) in += x == sr;
  sym_check(in == 1, "routes are found by their first element");
  for (auto const& [e, rs] : a->element_to_routes_)
    for (auto x : rs) sym_check(x->nodes().front()->element_->id() == e, "routes are found by their first element");
}

HARNESS(one) {
  files f;
  auto r = any_route();
  std::vector<unsigned> track_ids;
  for (auto id : r.ids())
    if (is_track(id)) track_ids.push_back(id);
  auto const any = [&](char const* what) { return track_ids.empty() ? 0U : static_cast<unsigned>(sym::pick(0, static_cast<int>(track_ids.size()), what)); };
  auto const id_of = [&](unsigned i) { return i ? track_ids[i - 1] : 0U; };
  auto const kind = sym::pick(0, 3, "what");
  if (kind == 0) {
    for (auto id : track_ids)
      if (sym::pick(0, 1, "omit")) r.omitted.insert(r.omitted.begin(), id);
  } else if (kind == 1) {
    for (auto id : track_ids)
      if (sym::pick(0, 1, "limit")) r.limits.insert(r.limits.begin(), id);
    if (r.limits.size() == 2 && sym::pick(0, 1, "order")) std::swap(r.limits[0], r.limits[1]);
  } else if (kind == 2) {
    r.passenger = id_of(any("passenger"));
    r.freight = id_of(any("freight"));
    r.checkpoint = id_of(any("checkpoint"));
  } else
    r.attributes = static_cast<unsigned>(sym::pick(0, 7, "attributes"));
  if (r.by_switch() && r.w.branch) sym_reach("branch");
  if (r.by_switch() && !r.w.up) sym_reach("trailing");
  if (r.passes(8)) sym_reach("etcs");
  bool const unpublished = kind == 3 && sym::pick(0, 1, "unpublished");
  std::string routes;
  if (unpublished) {
    routes += text_of(r, "X", "<nurVeroeffentlichung/>");
    sym_reach("unpublished");
  }
  routes += text_of(r, "R");
  f.station("A", sections_a(false), routes);
  auto const t = parse(f);
  sym_check(t.station_routes_.size() == 1 && t.stations_[0]->station_routes_.size() == 1, "all routes that are more than a publication");
  sym_check(t.station_route_paths_.size() == 1, "a route has a path");
  check_route(t, r, "R", nullptr, nullptr);
}

// two routes in any relation, in either of two stations' files
HARNESS(two) {
  files f;
  route a = any_route(), b = a;
  auto const change = sym::pick(0, 4, "change");
  bool same = true;
  auto const omit = [](route& r, unsigned id) {
    if (r.passes(id)) r.omitted.push_back(id);
  };
  if (change == 1) {  // another end
    bool found = false;
    for (unsigned i = a.from + 1; i < a.w.ids.size() && !found; ++i)
      if (i != a.to && (is_track(a.w.ids[i]) || is_end(a.w.ids[i]))) {
        b.to = i;
        found = true;
      }
    same = !found;
  } else if (change == 2) {  // main signals are omitted on either of them
    unsigned const ids[] = {a.w.up ? 2U : 12U, a.w.up ? (a.w.branch ? 13U : 9U) : 12U};
    for (unsigned i = 0; i < (a.w.up ? 2U : 1U); ++i) {
      if (sym::pick(0, 1, "omitted on one")) omit(a, ids[i]);
      if (sym::pick(0, 1, "omitted on the other")) omit(b, ids[i]);
    }
    same = a.omitted == b.omitted;
  } else if (change == 3) {  // something else is omitted
    omit(b, a.w.up ? 4 : 5);
  } else if (change == 4 && a.by_switch() && a.w.up) {  // the other course
    b.w = course(a.w.up, !a.w.branch);
    b.to = static_cast<unsigned>(b.w.ids.size()) - 1;
    same = false;
  }
  bool const neighbour = sym::pick(0, 1, "neighbour") != 0, first = sym::pick(0, 1, "first") != 0;
  if (sym::pick(0, 1, "swap")) std::swap(a, b);
  auto const sections = sections_a(neighbour), routes = text_of(a, "R1") + text_of(b, "R2");
  auto const sb = track(1, item("Gleisende", 101, "0") + item("Betriebsstellengrenze", 102, "0,5", el("PartnerBtrst", "A") + el("Gleiskennzeichen", "1")));
  if (neighbour && first) f.station("B", sb);
  f.station("A", sections, routes);
  if (neighbour && !first) f.station("B", sb);
  auto const t = parse(f);
  sym_check(t.station_routes_.size() == 2, "all routes");
  auto const other = neighbour ? t.ds100_to_station_.at("B") : nullptr;
  for (auto const& [r, name] : {std::pair{&a, "R1"}, std::pair{&b, "R2"}}) {
    bool const crossing = neighbour && (r->w.up ? r->ids().front() == 1 : r->ids().back() == 1);
    if (crossing) sym_reach("crossing");
    check_route(t, *r, name, other, other);
  }
  auto const s = t.ds100_to_station_.at("A");
  bool const shared = s->station_routes_.at("R1")->path_ == s->station_routes_.at("R2")->path_;
  sym_check(shared == same && t.station_route_paths_.size() == (same ? 1 : 2), "routes with the same way share it, others do not");
  sym_reach(same ? "shared" : "apart");
}
