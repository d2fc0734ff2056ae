// @sources src/infrastructure/graph/type.cc src/infrastructure/graph/type_set.cc
// @bounds every element type id (0..255 where the function is defined for it); type sets with up to 4 (quick) / 6 (thorough) arbitrary types; every element name of the infrastructure format
// @assume names not in the format's vocabulary are outside the claim: names are told apart by a 32-bit hash
// @reach track section in_set not_in_set named
#include "common/vec.h"
#include "soro/infrastructure/graph/type.h"
#include "soro/infrastructure/graph/type_set.h"
#include "soro/infrastructure/infra_stats.h"
#include "soro/infrastructure/parsers/iss/iss_string_literals.h"
using namespace soro;
using namespace soro::infra;

static type any_type() { return static_cast<type>(sym::range(0, type_count - 1, "type")); }
HARNESS(classes) {
  auto const t = any_type();
  auto const n = [](bool b) { return b ? 1 : 0; };
  sym_check(n(is_end_element(t)) + n(is_simple_element(t)) + n(is_simple_switch(t)) + n(is_cross(t)) + n(is_track_element(t)) == 1, "every type belongs to exactly one class");
  sym_check(is_track_element(t) == (is_directed_track_element(t) || is_undirected_track_element(t)), "track elements are the directed and the undirected ones");
  sym_check(!(is_directed_track_element(t) && is_undirected_track_element(t)), "no track element is both directed and undirected");
  sym_check(is_section_element(t) != is_track_element(t), "section elements are the ones that are not track elements");
  sym_check(is_end_element(t) == (t == type::BUMPER || t == type::TRACK_END), "end elements");
  sym_check(is_simple_element(t) == (t == type::KM_JUMP || t == type::BORDER || t == type::LINE_SWITCH), "simple elements");
  sym_check(is_simple_switch(t) == (t == type::SIMPLE_SWITCH) && is_cross(t) == (t == type::CROSS) && is_border(t) == (t == type::BORDER) && is_halt(t) == (t == type::HALT), "single type classes");
  sym_check(is_runtime_checkpoint(t) == (t == type::RUNTIME_CHECKPOINT || t == type::RUNTIME_CHECKPOINT_UNDIRECTED), "runtime checkpoints");
  sym_check(is_lzb(t) == (t == type::LZB_START || t == type::LZB_END || t == type::LZB_BLOCK_SIGN), "LZB elements");
  sym_check(is_etcs(t) == (t == type::ETCS_START || t == type::ETCS_END || t == type::ETCS_BLOCK_SIGN), "ETCS elements");
  sym_check(is_undirected_track_element(t) == (t == type::TUNNEL || t == type::ENTRY || t == type::TRACK_NAME || t == type::RUNTIME_CHECKPOINT_UNDIRECTED || t == type::LEVEL_CROSSING || t == type::SLOPE), "undirected track elements");
  if (is_track_element(t)) sym_reach("track"); else sym_reach("section");
}
HARNESS(ids) {
  auto const i = static_cast<type_id>(sym_make("id", 8));
  sym_check(type_to_id(id_to_type(i)) == i, "type ids round trip");
  auto const all = all_types();
  sym_check(all.size() == type_count, "all_types lists every type");
  if (i < type_count) sym_check(type_to_id(all[i]) == i, "all_types lists every type once in id order");
}
HARNESS(set) {
  auto const n = sym::pick(0, BOUND(4, 6), "n");
  auto const q = any_type();
  std::vector<type> v;
  for (unsigned i = 0; i < n; ++i) v.push_back(any_type());
  auto const check = [&](type_set const& s, std::vector<type> const& ref) {
    bool const in = vp::in(ref, q);
    sym_check(s.contains(q) == in, "a type set contains exactly the given types");
    if (in) sym_reach("in_set"); else sym_reach("not_in_set");
    std::size_t k = 0;
    for (auto const t : s) {
      sym_check(k < ref.size() && t == ref[k], "a type set lists the given types");
      ++k;
    }
    sym_check(k == ref.size(), "a type set lists the given types");
  };
  if (n == 0) check(type_set(std::initializer_list<type>{}), v);
  if (n == 1) check(type_set{v[0]}, v);
  if (n == 2) check(type_set{v[0], v[1]}, v);
  if (n == 3) check(type_set{v[0], v[1], v[2]}, v);
  if (n == 4) check(type_set{v[0], v[1], v[2], v[3]}, v);
  if (n == 5) check(type_set{v[0], v[1], v[2], v[3], v[4]}, v);
  if (n == 6) check(type_set{v[0], v[1], v[2], v[3], v[4], v[5]}, v);
  sym_check(type_set(all_types()).contains(q), "the set of all types contains every type");
}
HARNESS(names) {
  auto const a = static_cast<type>(sym::pick(0, type_count, "type")), b = static_cast<type>(sym::pick(0, type_count, "type"));
  auto const x = get_type_str(a), y = get_type_str(b);
  sym_check(!x.empty(), "every type has a name");
  sym_check((x == y) == (a == b), "names tell types apart");
}
HARNESS(parsed_names) {
  struct entry {
    char const* name_;
    type type_;
  };
  static constexpr entry table[] = {
      {KM_JUMP_START, type::KM_JUMP}, {KM_JUMP_END, type::KM_JUMP}, {LINE_SWITCH_ZERO, type::LINE_SWITCH}, {LINE_SWITCH_ONE, type::LINE_SWITCH},
      {BUMPER, type::BUMPER}, {BORDER, type::BORDER}, {TRACK_END, type::TRACK_END},
      {APPROACH_SIGNAL_RISING, type::APPROACH_SIGNAL}, {APPROACH_SIGNAL_FALLING, type::APPROACH_SIGNAL},
      {MAIN_SIGNAL_RISING, type::MAIN_SIGNAL}, {MAIN_SIGNAL_FALLING, type::MAIN_SIGNAL},
      {PROTECTION_SIGNAL_RISING, type::PROTECTION_SIGNAL}, {PROTECTION_SIGNAL_FALLING, type::PROTECTION_SIGNAL},
      {ROUTE_EOTD_RISING, type::EOTD}, {ROUTE_EOTD_FALLING, type::EOTD}, {SIGNAL_EOTD_RISING, type::EOTD}, {SIGNAL_EOTD_FALLING, type::EOTD},
      {SPEED_LIMIT_RISING, type::SPEED_LIMIT}, {SPEED_LIMIT_FALLING, type::SPEED_LIMIT},
      {SPECIAL_SPEED_LIMIT_END_RISING, type::SPEED_LIMIT}, {SPECIAL_SPEED_LIMIT_END_FALLING, type::SPEED_LIMIT},
      {POINT_SPEED_RISING, type::POINT_SPEED}, {POINT_SPEED_FALLING, type::POINT_SPEED},
      {FORCED_HALT_RISING, type::FORCED_HALT}, {FORCED_HALT_FALLING, type::FORCED_HALT},
      {RUNTIME_CHECKPOINT_RISING, type::RUNTIME_CHECKPOINT}, {RUNTIME_CHECKPOINT_FALLING, type::RUNTIME_CHECKPOINT},
      {HALT_FREIGHT_RISING, type::HALT}, {HALT_FREIGHT_FALLING, type::HALT},
      {HALT_PASSENGER_LEFT_RISING, type::HALT}, {HALT_PASSENGER_LEFT_FALLING, type::HALT},
      {HALT_PASSENGER_RIGHT_RISING, type::HALT}, {HALT_PASSENGER_RIGHT_FALLING, type::HALT},
      {HALT_PASSENGER_BOTH_RISING, type::HALT}, {HALT_PASSENGER_BOTH_FALLING, type::HALT},
      {HALT_PASSENGER_RIGHT_LEFT_RISING, type::HALT}, {HALT_PASSENGER_RIGHT_LEFT_FALLING, type::HALT},
      {BRAKE_PATH_RISING, type::BRAKE_PATH}, {BRAKE_PATH_FALLING, type::BRAKE_PATH},
      {SLOPE, type::SLOPE}, {TUNNEL, type::TUNNEL}, {TRACK_NAME, type::TRACK_NAME}, {LEVEL_CROSSING, type::LEVEL_CROSSING},
      {RUNTIME_CHECKPOINT, type::RUNTIME_CHECKPOINT_UNDIRECTED}, {ENTRY, type::ENTRY},
      {SWITCH_START, type::SIMPLE_SWITCH}, {SWITCH_STEM, type::SIMPLE_SWITCH}, {SWITCH_BRANCH_LEFT, type::SIMPLE_SWITCH}, {SWITCH_BRANCH_RIGHT, type::SIMPLE_SWITCH},
      {CROSS_START_LEFT, type::CROSS}, {CROSS_END_LEFT, type::CROSS}, {CROSS_START_RIGHT, type::CROSS}, {CROSS_END_RIGHT, type::CROSS},
      {CROSS_SWITCH_START_LEFT, type::CROSS}, {CROSS_SWITCH_END_LEFT, type::CROSS}, {CROSS_SWITCH_START_RIGHT, type::CROSS}, {CROSS_SWITCH_END_RIGHT, type::CROSS},
      {LZB_START_RISING, type::LZB_START}, {LZB_START_FALLING, type::LZB_START}, {LZB_END_RISING, type::LZB_END}, {LZB_END_FALLING, type::LZB_END},
      {LZB_BLOCK_SIGN_RISING, type::LZB_BLOCK_SIGN}, {LZB_BLOCK_SIGN_FALLING, type::LZB_BLOCK_SIGN},
      {ETCS_START_RISING, type::ETCS_START}, {ETCS_START_FALLING, type::ETCS_START}, {ETCS_END_RISING, type::ETCS_END}, {ETCS_END_FALLING, type::ETCS_END},
      {ETCS_BLOCK_SIGN_RISING, type::ETCS_BLOCK_SIGN}, {ETCS_BLOCK_SIGN_FALLING, type::ETCS_BLOCK_SIGN},
      {PICTURE_POINT, type::INVALID}, {LINE_CLASS, type::INVALID}};
  auto const& e = table[sym::pick(0, sizeof(table) / sizeof(table[0]) - 1, "name")];
  sym_check(get_type(e.name_) == e.type_, "an element name denotes its type");
  sym_check(get_type(std::string(e.name_)) == e.type_, "an element name denotes its type");
  sym_reach("named");
}
HARNESS(stats) {
  infra_stats s;
  std::size_t total = 0;
  std::size_t v[3];
  type t[3];
  for (unsigned i = 0; i < 3; ++i) {
    t[i] = static_cast<type>(sym::pick(0, type_count - 1, "type"));
    v[i] = sym_make("count", 32);
    s.number(t[i]) += v[i];
    total += v[i];
  }
  infra_stats const& c = s;
  sym_check(c.total_elements() == total, "the total is the sum over all types");
  auto const q = static_cast<type>(sym::pick(0, type_count - 1, "query"));
  std::size_t expect = 0;
  for (unsigned i = 0; i < 3; ++i) expect += t[i] == q ? v[i] : 0;
  sym_check(c.number(q) == expect, "counters of different types are independent");
  sym_check(c.sections_ == 0 && c.stations_ == 0, "element counters do not touch the other statistics");
}
