// tiny railway networks for harnesses
#pragma once
#include "common/vec.h"
#include "soro/infrastructure/graph/graph_creation.h"
#include "soro/infrastructure/infrastructure.h"

namespace rail {
using namespace soro;
using namespace soro::infra;

struct net {
  infrastructure_t t;
  construction_materials mats;
  station st;
  std::uint32_t next_rp{100};

  element* add(type const k, bool const rising = true) {
    auto const rp = next_rp++;
    if (is_cross(k)) return create_element_t<cross>(t.graph_, st, mats, k, rp, rising);
    if (is_end_element(k)) return create_element_t<end_element>(t.graph_, st, mats, k, rp, rising);
    if (is_simple_element(k)) return create_element_t<simple_element>(t.graph_, st, mats, k, rp, rising);
    if (is_simple_switch(k)) return create_element_t<simple_switch>(t.graph_, st, mats, k, rp, rising);
    if (is_directed_track_element(k)) return create_element_t<track_element>(t.graph_, st, mats, k, rp, rising);
    return create_element_t<undirected_track_element>(t.graph_, st, mats, k, rp, rising);
  }
  // the first node of a new element
  node::ptr node_of(type const k, bool const rising = true) { return add(k, rising)->nodes()[0]; }

  station_route* route(std::vector<node::ptr> const& nodes) {
    auto p = soro::make_unique<station_route::path>();
    for (auto n : nodes) p->nodes_.push_back(n);
    for (node::idx i = 0; i < p->nodes_.size(); ++i)
      if (p->nodes_[i]->is(type::MAIN_SIGNAL)) p->main_signals_.push_back(i);
    auto sr = soro::make_unique<station_route>();
    sr->id_ = static_cast<station_route::id>(t.station_routes_.size());
    sr->path_ = p.get();
    sr->station_ = &st;
    auto* const r = sr.get();
    t.station_routes_.push_back(r);
    t.station_route_paths_.push_back(p.get());
    t.station_route_store_.push_back(std::move(sr));
    t.station_route_path_store_.push_back(std::move(p));
    t.station_route_graph_.successors_.emplace_back();
    t.station_route_graph_.predeccesors_.emplace_back();
    return r;
  }
  void link(station_route const* a, station_route const* b) {
    t.station_route_graph_.successors_[a->id_].push_back(b);
    t.station_route_graph_.predeccesors_[b->id_].push_back(a);
  }
  interlocking_route& lock(std::vector<station_route::id> const& srs, node::idx from, node::idx to) {
    interlocking_route ir;
    ir.id_ = static_cast<interlocking_route::id>(t.interlocking_.routes_.size());
    ir.start_offset_ = from;
    ir.end_offset_ = to;
    for (auto s : srs) ir.station_routes_.push_back(s);
    t.interlocking_.routes_.push_back(ir);
    return t.interlocking_.routes_.back();
  }
};
}  // namespace rail
