// a small network: station routes over a pool of nodes, their interlocking routes
#pragma once
#include "vc.h"
#include "soro/infrastructure/infrastructure.h"

namespace net {
using namespace soro;
using namespace soro::infra;

#if !defined(NET_NODES)
#define NET_NODES 16
#endif
constexpr int MAXN = NET_NODES, MAXR = 6, MAXK = 6;

// an infrastructure of which only the members that are set up are used
struct probe : infrastructure {
  static auto access() { return &probe::access_; }
};

struct network {
  alignas(infrastructure_t) unsigned char t_raw[sizeof(infrastructure_t)];
  alignas(infrastructure) unsigned char i_raw[sizeof(infrastructure)];
  element e[MAXN];
  node n[MAXN];
  std::unique_ptr<station> s[MAXR];
  std::unique_ptr<station_route> r[MAXR];
  std::unique_ptr<station_route::path> p[MAXR];
  int routes{0};

  infrastructure_t& t() { return *reinterpret_cast<infrastructure_t*>(t_raw); }
  infrastructure& infra() { return *reinterpret_cast<infrastructure*>(i_raw); }

  explicit network(int const nodes, int const stations = 1) {
    new (&t().graph_.nodes_) decltype(t().graph_.nodes_){};
    new (&t().graph_.elements_) decltype(t().graph_.elements_){};
    new (&t().graph_.sections_) decltype(t().graph_.sections_){};
    new (&t().graph_.element_id_to_section_ids_) decltype(t().graph_.element_id_to_section_ids_){};
    new (&t().stations_) decltype(t().stations_){};
    new (&t().station_routes_) decltype(t().station_routes_){};
    new (&t().station_route_graph_) decltype(t().station_route_graph_){};
    new (&t().interlocking_) decltype(t().interlocking_){};
    new (&t().exclusion_) decltype(t().exclusion_){};
    new (&t().lines_) decltype(t().lines_){};
    infra().*probe::access() = &t();
    for (int j = 0; j < nodes; ++j) {
      n[j].id_ = static_cast<node::id>(j);
      n[j].element_ = &e[j];
      e[j].e_ = track_element{};
      e[j].as<track_element>().type_ = type::EOTD;
      e[j].as<track_element>().id_ = static_cast<element_id>(j);
      t().graph_.nodes_.emplace_back(&n[j]);
      t().graph_.elements_.emplace_back(&e[j]);
    }
    for (int j = 0; j < stations; ++j) {
      s[j] = std::make_unique<station>();
      s[j]->id_ = static_cast<station::id>(j);
      t().stations_.emplace_back(s[j].get());
    }
  }
  network(network const&) = delete;
  network& operator=(network const&) = delete;
  ~network() {
    std::destroy_at(&t().graph_.nodes_);
    std::destroy_at(&t().graph_.elements_);
    std::destroy_at(&t().graph_.sections_);
    std::destroy_at(&t().graph_.element_id_to_section_ids_);
    std::destroy_at(&t().stations_);
    std::destroy_at(&t().station_routes_);
    std::destroy_at(&t().station_route_graph_);
    std::destroy_at(&t().interlocking_);
    std::destroy_at(&t().exclusion_);
    std::destroy_at(&t().lines_);
  }

  void is(int const j, type const ty) { e[j].as<track_element>().type_ = ty; }

  // a station route over the given nodes; main signals are those of type MAIN_SIGNAL
  station_route& add(std::initializer_list<int> const nodes, int const station_idx = 0) {
    auto const id = static_cast<unsigned>(routes);
    p[routes] = std::make_unique<station_route::path>();
    r[routes] = std::make_unique<station_route>();
    auto& path = *p[routes];
    auto& route = *r[routes];
    for (int const j : nodes) {
      if (n[j].element_->is(type::MAIN_SIGNAL)) path.main_signals_.push_back(static_cast<node::idx>(path.nodes_.size()));
      path.nodes_.push_back(&n[j]);
    }
    route.id_ = id;
    route.path_ = &path;
    route.station_ = s[station_idx].get();
    t().station_routes_.emplace_back(&route);
    t().station_route_graph_.successors_.emplace_back();
    t().station_route_graph_.predeccesors_.emplace_back();
    ++routes;
    return route;
  }
  void follows(int const a, int const b) {
    t().station_route_graph_.successors_[static_cast<std::size_t>(a)].emplace_back(r[b].get());
    t().station_route_graph_.predeccesors_[static_cast<std::size_t>(b)].emplace_back(r[a].get());
  }
  auto const& successors(int const a) { return t().station_route_graph_.successors_[static_cast<std::size_t>(a)]; }
  auto const& predecessors(int const a) { return t().station_route_graph_.predeccesors_[static_cast<std::size_t>(a)]; }

  interlocking_route& add_ir(std::initializer_list<int> const srs, int const from, int const to) {
    auto& irs = t().interlocking_.routes_;
    irs.emplace_back();
    auto& ir = irs.back();
    ir.id_ = static_cast<interlocking_route::id>(irs.size() - 1);
    for (int const x : srs) ir.station_routes_.emplace_back(static_cast<station_route::id>(x));
    ir.start_offset_ = static_cast<node::idx>(from);
    ir.end_offset_ = static_cast<node::idx>(to);
    return ir;
  }
};

// the interlocking routes there are: from a main signal, or the first node of a station route without predecessor, to
// the next main signal, or the last node of a station route without successor
constexpr int MAXP = 64;
struct expected {
  int cnt{0};
  int len[MAXP]{}, sr[MAXP][MAXR]{}, from[MAXP]{}, to[MAXP]{};
  bool use_etcs[MAXR]{};

  bool ms(network& w, int const a, int const i) const { return w.r[a]->nodes(static_cast<node::idx>(i))->element_->is(type::MAIN_SIGNAL); }
  void walk(network& w, int* const chain, int const m, int const start) {
    int const a = chain[m - 1];
    int const k = w.r[a]->size();
    for (int i = m == 1 ? start + 1 : 0; i < k; ++i) {
      if (ms(w, a, i) || (i == k - 1 && w.successors(a).empty())) {
        bool etcs = false;
        for (int j = 0; j < m; ++j) etcs |= use_etcs[chain[j]];
        if (m > 1 && etcs) return;
        for (int j = 0; j < m; ++j) sr[cnt][j] = chain[j];
        len[cnt] = m;
        from[cnt] = start;
        to[cnt] = i + 1;
        ++cnt;
        return;
      }
    }
    for (auto const& succ : w.successors(a)) {
      chain[m] = static_cast<int>(succ->id_);
      walk(w, chain, m + 1, start);
    }
  }
  void compute(network& w) {
    int chain[MAXR + 1];
    for (int a = 0; a < w.routes; ++a) {
      chain[0] = a;
      int const k = w.r[a]->size();
      for (int i = 0; i < k; ++i)
        if (ms(w, a, i) || (i == 0 && w.predecessors(a).empty())) walk(w, chain, 1, i);
    }
  }
};
}  // namespace net
