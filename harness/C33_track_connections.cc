// @sources src/infrastructure/parsers/iss/parse_iss.cc src/infrastructure/parsers/iss/iss_files.cc src/infrastructure/parsers/iss/parse_helpers.cc src/infrastructure/parsers/iss/parse_station_route.cc src/infrastructure/parsers/iss/parse_track_element.cc src/infrastructure/graph/graph_creation.cc src/infrastructure/graph/element.cc src/infrastructure/graph/node.cc src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc src/infrastructure/infrastructure.cc src/infrastructure/station/station_route.cc src/infrastructure/station/station_route_graph.cc src/infrastructure/regulatory_data.cc src/infrastructure/line.cc src/rolling_stock/parse_train_series.cc
// @model pugi.cc
// @libs -lpugixml
// @bounds one simple switch, cross, cross switch, km jump or line switch with 2 to 4 sections in every orientation, on equal or different lines, in several file orders, each section empty, with a rising, a falling or an undirected element; two stations joined by up to 2 tracks (plus one leading to a missing station)
// @assume kilometrage keeps its direction along a line; KmSprungAnfang begins the section after the jump; borders of the two stations match pairwise
// @stub pugixml (symbolic runs; native replays use the real library)
// @reach mis_switch mis_cross arcs no_arc two_tracks erased line_turn
#include "common/iss.h"
using namespace iss;

struct sect {
  unsigned port[2];    // what its first and last node are; NONE: a track end
  std::string end[2];  // the node
  unsigned line = 1;
  section::id id = 0;
};
constexpr unsigned NONE = 99;

static infrastructure_t parse(files& f) {
  f.opts.interlocking_ = false;
  f.opts.exclusions_ = false;
  f.opts.layout_ = false;
  return f.parse();
}
// kilometrage of the side of section k
static unsigned km_of(unsigned k, bool last) { return 1 + 2 * k + (last ? 1 : 0); }
static std::string text_of(unsigned k, sect& s, unsigned const interior) {
  std::string nodes;
  auto const mid = num(km_of(k, false)) + ",5";
  nodes += s.end[0].empty() ? item("Gleisende", 100 + k, num(km_of(k, false))) : s.end[0];
  if (interior == 1) nodes += item("HauptsignalS", 200 + k, mid);
  if (interior == 2) nodes += item("Tunnel", 200 + k, mid);
  if (interior == 3) nodes += item("VorsignalF", 200 + k, mid);
  nodes += s.end[1].empty() ? item("Prellbock", 300 + k, num(km_of(k, true))) : s.end[1];
  return track(s.line, nodes);
}
static node::ptr way(element::ptr e, bool up) { return e->is_undirected_track_element() ? e->nodes()[up ? 0 : 1] : e->as<track_element>().get_node(); }
// node passed last when leaving / first when entering the section at one of its sides
static node::ptr at_side(infrastructure_t const& t, sect const& s, bool const last, bool const leaving) {
  bool const up = last == leaving;
  auto const& order = up ? t.graph_.sections_[s.id].rising_order_ : t.graph_.sections_[s.id].falling_order_;
  auto const fits = [&](element::ptr e) { return !e->is_directed_track_element() || e->rising() == up; };
  if (leaving) {
    for (auto i = order.size() - 2; i > 0; --i)
      if (fits(order[i])) return way(order[i], up);
  } else
    for (std::size_t i = 1; i + 1 < order.size(); ++i)
      if (fits(order[i])) return way(order[i], up);
  sym_check(false, "a section has an element in either direction");
  return nullptr;
}
static void check_reverse(infrastructure_t const& t) {
  for (auto n : t.graph_.nodes_) {
    unsigned in = 0;
    for (auto x : t.graph_.nodes_) {
      unsigned const links = (x->next_node_ == n) + (x->branch_node_ == n);
      unsigned found = 0;
      for (auto r : n->reverse_edges_) found += r == x;
      sym_check(found == links, "a node knows exactly the nodes leading to it");
      in += links;
    }
    sym_check(n->reverse_edges_.size() == in, "a node knows exactly the nodes leading to it");
  }
}

// an element joining ports; straight[p], branch[p] are the ports one gets to
struct joint {
  std::vector<unsigned> straight, branch;
};
static void check_joint(infrastructure_t const& t, std::vector<sect> const& secs, joint const& j, type const want) {
  element::ptr e = nullptr;
  auto const ports = j.straight.size();
  std::vector<std::pair<unsigned, bool>> at(ports);
  for (unsigned k = 0; k < secs.size(); ++k)
    for (unsigned side = 0; side < 2; ++side)
      if (secs[k].port[side] != NONE) {
        auto const& s = t.graph_.sections_[secs[k].id];
        auto const here = side ? s.last_rising() : s.first_rising();
        sym_check(!e || e == here, "the sections end at the same element");
        e = here;
        at[secs[k].port[side]] = {k, side != 0};
      }
  sym_check(e->type() == want, "type of the element");
  std::vector<node::ptr> arrive(ports);
  for (unsigned p = 0; p < ports; ++p) {
    auto const& [k, side] = at[p];
    auto const from = at_side(t, secs[k], side, true);
    auto const n = from->next_node_;
    sym_check(n != nullptr && n->element_ == e, "the last node of a section leads to the element at its end");
    sym_check(from->branch_node_ == nullptr, "no branch before a switch");
    arrive[p] = n;
    auto const [sk, ss] = at[j.straight[p]];
    sym_check(n->next_node_ == at_side(t, secs[sk], ss, false), "straight on one gets into the section opposite");
    if (j.branch[p] == NONE)
      sym_check(n->branch_node_ == nullptr, "no branch where there is none");
    else {
      auto const [bk, bs] = at[j.branch[p]];
      sym_check(n->branch_node_ == at_side(t, secs[bk], bs, false), "branching off one gets into the branching section");
    }
    // positions and distances
    sym_check(e->get_km(from->element_) == si::from_km(km_of(k, side)), "the position of an element is the one in the section of the neighbour");
    auto const other = from->element_->is_directed_track_element() ? from->element_->as<track_element>().km_ : from->element_->as<undirected_track_element>().km_;
    sym_check(e->get_distance(from->element_) == abs(si::from_km(km_of(k, side)) - other) && from->element_->get_distance(e) == e->get_distance(from->element_), "distance of neighbours");
    for (auto o : {from->element_, at_side(t, secs[k], side, false)->element_}) {
      unsigned in = 0, back = 0;
      for (auto x : e->neighbours()) in += x == o;
      for (auto x : o->neighbours()) back += x == e;
      sym_check(in >= 1 && back >= 1, "successive elements are neighbours");
    }
    unsigned in = 0;
    for (auto id : t.graph_.element_id_to_section_ids_[e->id()]) in += id == secs[k].id;
    sym_check(in == 1, "an element knows its sections");
  }
  sym_check(t.graph_.element_id_to_section_ids_[e->id()].size() == ports, "an element knows its sections");
  sym_check(e->get_distance(e) == si::ZERO<si::length>, "an element is where it is");
  // the way back: straight wherever there is one
  for (unsigned p = 0; p < ports; ++p) {
    auto const [k, side] = at[p];
    if (j.straight[j.straight[p]] == p) {
      sym_check(arrive[p]->reverse_ahead() == at_side(t, secs[k], side, true), "backwards one gets where one came from");
      auto const [sk, ss] = at[j.straight[p]];
      sym_check(at_side(t, secs[sk], ss, false)->reverse_ahead() == arrive[p], "backwards one gets where one came from");
    }
  }
  check_reverse(t);
}
static void parse_and_check(std::vector<sect>& secs, joint const& j, type const want, unsigned const interiors) {
  files f;
  std::string text;
  auto const n = static_cast<unsigned>(secs.size());
  auto const first = static_cast<unsigned>(sym::pick(0, static_cast<int>(n) - 1, "order"));
  bool const backwards = n < 4 && sym::pick(0, 1, "order") != 0;
  auto const base = interiors ? 0U : static_cast<unsigned>(sym::pick(0, 3, "interior"));
  for (unsigned i = 0; i < n; ++i) {
    auto const k = (first + (backwards ? n - i : i)) % n;
    secs[k].id = i;
    text += text_of(k, secs[k], interiors ? static_cast<unsigned>(sym::pick(0, static_cast<int>(interiors), "interior")) : (base + k) % 4);
  }
  f.station("A", text);
  auto const t = parse(f);
  sym_check(t.graph_.sections_.size() == n, "all sections");
  check_joint(t, secs, j, want);
}
static void attach(std::vector<sect>& secs, unsigned k, bool at_end, unsigned port, unsigned line, char const* name, unsigned id, std::string const& more) {
  auto& s = secs[k];
  s.line = line;
  s.port[0] = s.port[1] = NONE;
  s.port[at_end] = port;
  s.end[at_end] = item(name, id, num(km_of(k, at_end)), more);
}

HARNESS(simple_switch) {
  std::vector<sect> secs(3);
  bool const start = sym::pick(0, 1, "start") != 0;  // the section of the start ends at the switch
  auto const stem = sym::pick(0, 2, "stem");         // 0: on the line of the start
  auto const branch = sym::pick(0, 4, "branch");     // 0: on that line, 1,2: on the other, 3,4: on a third
  bool const stem_end = stem == 0 ? !start : stem == 1;
  bool const branch_end = branch == 0 ? !start : branch % 2 == 1;
  if ((stem && stem_end == start) != (branch && branch_end == start)) sym_reach("mis_switch");
  attach(secs, 0, start, 0, 1, "Weichenanfang", 1, el("Name", "W7") + ref("Partner", 2));
  attach(secs, 1, stem_end, 1, stem ? 2 : 1, "Weichenstamm", 2, ref("Partner", 1));
  attach(secs, 2, branch_end, 2, branch == 0 ? 1 : branch < 3 ? 2 : 3, sym::pick(0, 1, "side") ? "WeichenabzweigLinks" : "WeichenabzweigRechts", 3, ref("Partner", 1));
  parse_and_check(secs, {{1, 0, 0}, {2, NONE, NONE}}, type::SIMPLE_SWITCH, BOUND(0, 2));
}

static void any_cross(bool const is_switch) {
  std::vector<sect> secs(4);
  bool const left = sym::pick(0, 1, "left") != 0, right = sym::pick(0, 1, "right") != 0;
  auto const left_end = sym::pick(0, 2, "left"), right_end = sym::pick(0, 2, "right");
  unsigned const right_line = sym::pick(0, 1, "line") ? 2 : 1;
  bool const arc1 = is_switch && sym::pick(0, 1, "arc"), arc2 = is_switch && sym::pick(0, 1, "arc");
  auto const name = [&](char const* n) { return std::string(is_switch ? "Kreuzungsweiche" : "Kreuzung") + n; };
  if (left_end && (left_end == 1) == left) sym_reach("mis_cross");
  sym_reach(arc1 && arc2 ? "arcs" : "no_arc");
  attach(secs, 0, left, 0, 1, name("AnfangLinks").c_str(), 1, ref("NachbarGeradeaus", 2) + (arc1 ? ref("NachbarAbzweig", 4) : std::string()));
  attach(secs, 1, left_end ? left_end == 1 : !left, 1, left_end ? 7 : 1, name("EndeLinks").c_str(), 2, ref("NachbarGeradeaus", 1) + (arc2 ? ref("NachbarAbzweig", 3) : std::string()));
  attach(secs, 2, right, 2, right_line, name("AnfangRechts").c_str(), 3, ref("NachbarGeradeaus", 4) + ref("HauptknotenAnfang", 1));
  attach(secs, 3, right_end ? right_end == 1 : !right, 3, right_end ? 8 : right_line, name("EndeRechts").c_str(), 4, ref("NachbarGeradeaus", 3) + ref("HauptknotenAnfang", 1));
  // start left, end left, start right, end right
  parse_and_check(secs, {{1, 0, 3, 2}, {arc1 ? 3 : NONE, arc2 ? 2 : NONE, arc2 ? 1 : NONE, arc1 ? 0 : NONE}}, type::CROSS, 0);
}
HARNESS(cross) { any_cross(false); }
HARNESS(cross_switch) { any_cross(true); }

HARNESS(simple) {
  std::vector<sect> secs(2);
  if (sym::pick(0, 1, "kind")) {
    attach(secs, 0, false, 0, 1, "KmSprungAnfang", 1, ref("Partnerknoten", 2));
    attach(secs, 1, true, 1, 1, "KmSprungEnde", 2, ref("Partnerknoten", 1));
    parse_and_check(secs, {{1, 0}, {NONE, NONE}}, type::KM_JUMP, BOUND(2, 3));
  } else {
    bool const zero = sym::pick(0, 1, "zero") != 0, one = sym::pick(0, 1, "one") != 0;
    if (zero == one) sym_reach("line_turn");
    attach(secs, 0, zero, 0, 1, "Streckenwechsel0", 1, ref("Partnerknoten", 2));
    attach(secs, 1, one, 1, 2, "Streckenwechsel1", 2, ref("Partnerknoten", 1));
    parse_and_check(secs, {{1, 0}, {NONE, NONE}}, type::LINE_SWITCH, BOUND(2, 3));
  }
}

HARNESS(borders) {
  files f;
  auto const tracks = static_cast<unsigned>(sym::pick(1, 2, "tracks"));
  bool const missing = sym::pick(0, 1, "missing") != 0;
  bool const a_first = sym::pick(0, 1, "first") != 0, swap = tracks == 2 && sym::pick(0, 1, "swap") != 0;
  bool const other_line = tracks == 2 && sym::pick(0, 1, "line") != 0;
  bool high[2];  // the track of A ends at the border
  std::vector<sect> a(tracks), b(tracks);
  std::vector<element::ptr> seen;
  std::string ta, tb;
  if (tracks == 2) sym_reach("two_tracks");
  if (missing) sym_reach("erased");
  auto const interior = static_cast<unsigned>(sym::pick(0, 3, "interior"));
  for (unsigned k = 0; k < tracks; ++k) {
    high[k] = sym::pick(0, 1, "high") != 0;
    auto const sign = other_line ? 1U : k + 1;
    auto const line = other_line ? k + 1 : 1U;
    attach(a, k, high[k], 0, line, "Betriebsstellengrenze", 10 + k, el("PartnerBtrst", "B") + el("Gleiskennzeichen", num(sign)));
    attach(b, k, !high[k], 1, line, "Betriebsstellengrenze", 20 + k, el("PartnerBtrst", "A") + el("Gleiskennzeichen", num(sign)));
  }
  // unique ids of the other nodes: the sections of B are numbered after those of A
  for (unsigned k = 0; k < tracks; ++k) {
    a[k].id = (a_first ? 0 : tracks) + k;
    ta += text_of(k, a[k], (interior + k) % 4);
  }
  std::vector<sect> lost(1);
  bool const lost_high = missing && sym::pick(0, 1, "high") != 0;
  if (missing) {
    attach(lost, 0, lost_high, 0, 1, "Betriebsstellengrenze", 30, el("PartnerBtrst", "C") + el("Gleiskennzeichen", "1"));
    auto& s = lost[0].end[!lost_high];
    s = item("Gleisende", 31, num(km_of(0, !lost_high)));
  }
  for (unsigned i = 0; i < tracks; ++i) {
    auto const k = swap ? tracks - 1 - i : i;
    b[k].id = (a_first ? tracks : 0) + i;
    b[k].end[high[k]] = item("Prellbock", 40 + k, num(km_of(k, high[k])));
    tb += text_of(50 + k, b[k], (interior + k + 1) % 4);
  }
  if (missing) {
    // in the station read last, so the numbers of the others stay
    (a_first ? tb : ta) += text_of(60, lost[0], interior);
    lost[0].id = 2 * tracks;
  }
  f.station(a_first ? "A" : "B", a_first ? ta : tb);
  f.station(a_first ? "B" : "A", a_first ? tb : ta);
  auto const t = parse(f);
  auto const& g = t.graph_;
  auto const sa = t.ds100_to_station_.at("A"), sb = t.ds100_to_station_.at("B");
  sym_check(g.sections_.size() == 3 * tracks + missing, "one section joins every pair of borders");
  sym_check(sa->borders_.size() == tracks && sb->borders_.size() == tracks, "borders to missing stations are left out");
  for (unsigned k = 0; k < tracks; ++k) {
    auto const& ga = g.sections_[a[k].id];
    auto const& gb = g.sections_[b[k].id];
    auto const ea = high[k] ? ga.last_rising() : ga.first_rising(), eb = high[k] ? gb.first_rising() : gb.last_rising();
    sym_check(ea->is(type::BORDER) && eb->is(type::BORDER) && ea != eb, "the tracks end at their borders");
    auto const na = at_side(t, a[k], high[k], true)->next_node_, nb = at_side(t, b[k], !high[k], true)->next_node_;
    sym_check(na && nb && na->element_ == ea && nb->element_ == eb, "the last node of a section leads to the border at its end");
    sym_check(na->next_node_ && na->next_node_->element_ == eb && nb->next_node_ && nb->next_node_->element_ == ea, "across the border is the border of the neighbour");
    sym_check(na->next_node_->next_node_ == at_side(t, b[k], !high[k], false) && nb->next_node_->next_node_ == at_side(t, a[k], high[k], false), "across the border is the track of the neighbour");
    sym_check(na->next_node_ != nb && nb->next_node_ != na, "every direction has its own node");
    for (auto [st, other, e, o, is_a] : {std::tuple{sa, sb, ea, eb, true}, std::tuple{sb, sa, eb, ea, false}}) {
      unsigned in = 0;
      for (auto const& x : st->borders_)
        if (x.element_ == e) {
          ++in;
          sym_check(x.neighbour_ == other && x.neighbour_element_ == o && x.station_ == st && x.low_border_ == (is_a != high[k]) && x.line_ == a[k].line, "a border knows its neighbour");
        }
      sym_check(in == 1, "a track has one border");
      unsigned x = 0;
      for (auto y : e->neighbours()) x += y == o;
      sym_check(x >= 1, "borders are neighbours");
    }
    // the section in between
    unsigned between = 0;
    for (unsigned s = 2 * tracks + missing; s < g.sections_.size(); ++s) {
      auto const& m = g.sections_[s];
      if (m.first_rising() != ea && m.first_rising() != eb) continue;
      ++between;
      sym_check(m.size() == 2 && m.rising_order_.size() == 2 && m.falling_order_.size() == 2 && m.line_id_ == a[k].line, "only the borders are between the borders");
      sym_check(m.first_rising() == (high[k] ? ea : eb) && m.last_rising() == (high[k] ? eb : ea) && m.first_falling() == m.last_rising() && m.last_falling() == m.first_rising(), "the section between the borders runs as the line does");
      for (auto e : {ea, eb}) {
        unsigned in = 0;
        for (auto id : g.element_id_to_section_ids_[e->id()]) in += id == s;
        sym_check(in == 1 && g.element_id_to_section_ids_[e->id()].size() == 2, "a border knows its sections");
      }
    }
    sym_check(between == 1, "one section joins every pair of borders");
  }
  if (missing) {
    auto const& gl = g.sections_[lost[0].id];
    auto const e = lost_high ? gl.last_rising() : gl.first_rising();
    auto const n = at_side(t, lost[0], lost_high, true)->next_node_;
    sym_check(n && n->element_ == e && e->is(type::BORDER) && n->next_node_ == nullptr && g.element_id_to_section_ids_[e->id()].size() == 1, "at a border to a missing station there is no way on");
  }
  auto const an = sa->neighbours(), bn = sb->neighbours();
  sym_check(an.size() == 1 && an[0] == sb && bn.size() == 1 && bn[0] == sa, "the stations are neighbours");
  check_reverse(t);
}
