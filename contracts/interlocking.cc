// C11: interlocking routes lead from main signal to main signal.
#include "net.h"
#include "rbtree.h"
#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/infrastructure/line.cc"
#include "src/infrastructure/interlocking/get_interlocking.cc"
#include "src/infrastructure/interlocking/interlocking_route.cc"
#include "src/infrastructure/station/station_route.cc"
#include "src/infrastructure/station/station_route_graph.cc"
using namespace soro;
using namespace soro::infra;
using net::network;

// the wrapper around an existing infrastructure
soro::infra::infrastructure::infrastructure(infrastructure_t const* t) { this->access_ = t; }

namespace {
bool ids_are(interlocking_route::ids const& v, bool const (&want)[net::MAXP], std::size_t const n) {
  bool seen[net::MAXP]{};
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (v[i] >= n || (i > 0 && v[i - 1] > v[i])) return false;
    seen[v[i]] = true;
  }
  for (std::size_t i = 0; i < n; ++i)
    if (seen[i] != want[i]) return false;
  return true;
}

void check_routes(network& w, bool const (&etcs)[net::MAXR]) {
  net::expected x;
  for (int a = 0; a < w.routes; ++a) x.use_etcs[a] = etcs[a];
  x.compute(w);
  auto const irs = get_interlocking_routes(w.infra());
  vc::check(irs.size() == static_cast<std::size_t>(x.cnt), "there are as many interlocking routes as stretches between signals");
  bool used[net::MAXP]{};
  for (std::size_t i = 0; i < irs.size(); ++i) {
    auto const& ir = irs[i];
    vc::check(ir.id_ == i, "ids of interlocking routes are consecutive");
    int found = -1;
    for (int j = 0; j < x.cnt; ++j) {
      if (x.from[j] != ir.start_offset_ || x.to[j] != ir.end_offset_ || static_cast<std::size_t>(x.len[j]) != ir.station_routes_.size()) continue;
      bool same = true;
      for (int k = 0; k < x.len[j]; ++k) same &= ir.station_routes_[static_cast<std::size_t>(k)] == static_cast<unsigned>(x.sr[j][k]);
      if (same) found = j;
    }
    vc::check(found >= 0, "an interlocking route leads from a signal or an end to the next one");
    if (found >= 0) {
      vc::check(!used[found], "every interlocking route is generated once");
      used[found] = true;
    }
  }
}

void check_maps(network& w, interlocking const& il) {
  auto const n = il.routes_.size();
  vc::check(il.starting_at_.size() == w.t().graph_.nodes_.size() && il.ending_at_.size() == w.t().graph_.nodes_.size() && il.halting_at_.size() == w.t().graph_.nodes_.size(), "one entry per node");
  for (std::size_t nd = 0; nd < w.t().graph_.nodes_.size(); ++nd) {
    bool starts[net::MAXP]{}, ends[net::MAXP]{}, halts[net::MAXP]{};
    for (std::size_t i = 0; i < n; ++i) {
      auto const& ir = il.routes_[i];
      std::size_t const m = ir.station_routes_.size();
      auto const& first = *w.r[ir.station_routes_[0]];
      auto const& last = *w.r[ir.station_routes_[m - 1]];
      starts[i] = first.nodes(ir.start_offset_)->id_ == nd;
      ends[i] = last.nodes(static_cast<node::idx>(ir.end_offset_ - 1))->id_ == nd;
      for (std::size_t k = 0; k < m; ++k) {
        auto const& sr = *w.r[ir.station_routes_[k]];
        int const from = k == 0 ? ir.start_offset_ : 0, to = k == m - 1 ? ir.end_offset_ : sr.size();
        for (int j = from; j < to; ++j) {
          bool const halt = (sr.passenger_halt_.has_value() && *sr.passenger_halt_ == j) || (sr.freight_halt_.has_value() && *sr.freight_halt_ == j);
          if (halt && sr.nodes(static_cast<node::idx>(j))->id_ == nd) halts[i] = true;
        }
      }
    }
    vc::check(ids_are(il.starting_at_[nd], starts, n), "the interlocking routes that start at a node, in order");
    vc::check(ids_are(il.ending_at_[nd], ends, n), "the interlocking routes that end at a node, in order");
    vc::check(ids_are(il.halting_at_[nd], halts, n), "the interlocking routes with a halt at a node, in order");
  }
  vc::check(il.sr_to_participating_irs_.size() == static_cast<std::size_t>(w.routes), "one entry per station route");
  for (int a = 0; a < w.routes; ++a) {
    bool in[net::MAXP]{};
    for (std::size_t i = 0; i < n; ++i)
      for (auto const sr : il.routes_[i].station_routes_) in[i] |= sr == static_cast<unsigned>(a);
    vc::check(ids_are(il.sr_to_participating_irs_[static_cast<std::size_t>(a)], in, n), "the interlocking routes over a station route, in order");
  }
  vc::check(il.station_to_irs_.size() == w.t().stations_.size(), "one entry per station");
  for (std::size_t s = 0; s < w.t().stations_.size(); ++s) {
    bool in[net::MAXP]{};
    for (std::size_t i = 0; i < n; ++i)
      for (auto const sr : il.routes_[i].station_routes_) in[i] |= w.r[sr]->station_->id_ == s;
    vc::check(ids_are(il.station_to_irs_[s], in, n), "the interlocking routes through a station, in order");
    auto const& v = il.station_to_irs_[s];
    for (std::size_t i = 1; i < v.size(); ++i) vc::check(v[i - 1] < v[i], "no interlocking route is listed twice for a station");
  }
}

// main signals of a station route with three nodes
constexpr int SIGNALS[4] = {0b000, 0b010, 0b110, 0b011};
// three station routes of three nodes each; edges: bits 0->1, 0->2, 1->2 in the order of perm
void three(int const signals, int const edges, int const perm, int const etcs_mask, bool const maps) {
  constexpr int ORDER[3][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
  int const* const o = ORDER[perm];
  network w(9, 2);
  bool pred[3]{(edges & 0) != 0, (edges & 1) != 0, (edges & 6) != 0}, succ[3]{(edges & 3) != 0, (edges & 4) != 0, false};
  bool etcs[net::MAXR]{};
  int mask[3];
  for (int a = 0; a < 3; ++a) {
    int const m = SIGNALS[(signals >> (2 * a)) & 3];
    mask[a] = m;
    // no signal at the very ends of the network, and no isolated route without a signal
    if (((m & 1) != 0 && !pred[a]) || ((m & 4) != 0 && !succ[a]) || (m == 0 && !pred[a] && !succ[a])) return;
    if ((etcs_mask & (1 << a)) != 0 && (!pred[a] || !succ[a] || (m & (m - 1)) != 0)) return;
  }
  for (int a = 0; a < 3; ++a)
    for (int j = 0; j < 3; ++j)
      if ((mask[a] & (1 << j)) != 0) w.is(3 * o[a] + j, type::MAIN_SIGNAL);
  for (int a = 0; a < 3; ++a) {
    w.add({3 * a, 3 * a + 1, 3 * a + 2}, a == 1 ? 1 : 0);
    if (maps) {
      if ((signals & 1) != 0) w.r[a]->passenger_halt_ = node::optional_idx{static_cast<node::idx>(a)};
      if (a != 0) w.r[a]->freight_halt_ = node::optional_idx{static_cast<node::idx>(2 - a)};
    }
  }
  for (int a = 0; a < 3; ++a)
    if ((etcs_mask & (1 << a)) != 0) {
      etcs[o[a]] = true;
      w.p[o[a]]->etcs_starts_.push_back(1);
    }
  if ((edges & 1) != 0) w.follows(o[0], o[1]);
  if ((edges & 2) != 0) w.follows(o[0], o[2]);
  if ((edges & 4) != 0) w.follows(o[1], o[2]);
  if (etcs_mask != 0) {
    line l;
    l.id_ = 1;
    l.segments_.resize(1);
    l.segments_[0].from_ = si::from_km(0.0);
    l.segments_[0].to_ = si::from_km(10.0);
    l.segments_[0].etcs_ = true;
    w.t().lines_.emplace(static_cast<line::id>(1), l);
    for (int j = 0; j < 9; ++j) {
      w.e[j].as<track_element>().line_ = 1;
      w.e[j].as<track_element>().km_ = si::from_km(1.0);
    }
  }
  if (maps) {
    auto const il = get_interlocking(w.t());
    check_maps(w, il);
  } else {
    check_routes(w, etcs);
  }
}
template <int E>
void all_three() {
  for (int s = 0; s < 64; ++s)
    for (int p = 0; p < 2; ++p) three(s, E, (s + E + p) % 3, 0, false);
}

// a line of stations, each with two station routes that share their first node; the last route ends at a track end
void ladder(int const signals, int const from_second) {
  network w(12, 3);
  for (int j = 0; j < 12; ++j)
    if (j % 4 != 0 && j != 11 && j != 10 && ((signals >> (j % 6)) & 1) != 0) w.is(j, type::MAIN_SIGNAL);
  for (int s = 0; s < 3; ++s) {
    w.add({4 * s, 4 * s + 1, 4 * s + 2}, s);
    w.add({4 * s, 4 * s + 1, 4 * s + 3}, s);
    w.r[2 * s]->passenger_halt_ = node::optional_idx{node::idx{1}};
    w.r[2 * s + 1]->freight_halt_ = node::optional_idx{node::idx{2}};
  }
  for (int s = 0; s < 2; ++s)
    for (int k = 0; k < 2; ++k) {
      if (k == 1 && from_second == 0) continue;
      w.follows(2 * s + k, 2 * s + 2);
      w.follows(2 * s + k, 2 * s + 3);
    }
  for (int a = 0; a < 6; ++a)
    if (w.p[a]->main_signals_.empty() && w.successors(a).empty() && w.predecessors(a).empty()) return;
  for (int a = 0; a < 6; ++a)
    if (w.successors(a).empty() && !w.p[a]->main_signals_.empty() && w.p[a]->main_signals_.back() == 2) return;
  bool const etcs[net::MAXR]{};
  check_routes(w, etcs);
  auto const il = get_interlocking(w.t());
  check_maps(w, il);
}
}  // namespace
VC_BOUNDED(C11, routes_split) { all_three<3>(); }
VC_BOUNDED(C11, routes_chain) { all_three<5>(); }
VC_BOUNDED(C11, routes_join) { all_three<6>(); }
VC_BOUNDED(C11, routes_detour) { all_three<7>(); }
VC_BOUNDED(C11, routes_pairs) { all_three<1>(), all_three<2>(), all_three<4>(); }
VC_BOUNDED(C11, routes_ladder_1) {
  for (int const s : {0b000010, 0b000110, 0b001010, 0b101010}) ladder(s, 0);
}
VC_BOUNDED(C11, routes_ladder_2) {
  for (int const s : {0b000000, 0b000010, 0b000100, 0b100010}) ladder(s, 1);
}
VC_BOUNDED(C11, routes_etcs) {
  for (int s = 0; s < 64; ++s)
    for (int a = 1; a < 8; ++a) three(s, (s + a) % 2 == 0 ? 5 : 7, (s + a) % 3, a, false);
}
VC_BOUNDED(C11, mappings_1) {
  for (int s = 0; s < 64; ++s) three(s, 5, s % 3, 0, true), three(s, 3, (s + 1) % 3, 0, true);
}
VC_BOUNDED(C11, mappings_2) {
  for (int s = 0; s < 64; ++s) three(s, 7, s % 3, 0, true), three(s, 6, (s + 1) % 3, 0, true);
}

// a station route is followed by those of the next station that start at its border
namespace {
// ends: kind of the last nodes, to: next station of each route (2: none), first: border at which each route starts
void srg_case(int const ends, int const to, int const firsts) {
  constexpr type ENDS[3] = {type::BORDER, type::TRACK_END, type::HALT};
  network w(12, 2);
  int end[3], next[3], first[3];
  for (int a = 0, x = ends, y = to, z = firsts; a < 3; ++a, x /= 3, y /= 3, z /= 3) {
    end[a] = x % 3;
    next[a] = y % 3;
    first[a] = z % 3;  // 2: inside the station
    if (first[a] == 2 && end[a] == 2) next[a] = 2;  // a route inside the station leads nowhere
    w.e[2 * a].e_ = simple_element{};
    w.e[2 * a].as<simple_element>().type_ = first[a] == 2 ? type::HALT : type::BORDER;
    w.e[2 * a].as<simple_element>().id_ = static_cast<element_id>(2 * a);
    w.e[2 * a + 1].e_ = simple_element{};
    w.e[2 * a + 1].as<simple_element>().type_ = ENDS[end[a]];
    w.e[2 * a + 1].as<simple_element>().id_ = static_cast<element_id>(2 * a + 1);
    // behind the last node: border 6 + a
    w.n[2 * a + 1].next_node_ = &w.n[6 + a];
  }
  for (int a = 0; a < 3; ++a) {
    auto& r = w.add({2 * a, 2 * a + 1}, a == 2 ? 1 : 0);
    if (next[a] != 2) r.to_station_ = soro::optional<station_ptr>(w.s[next[a]].get());
  }
  // the routes that start at border 6 belong to station 0, those of border 7 to station 1
  for (int a = 0; a < 3; ++a)
    if (first[a] != 2) w.s[first[a]]->element_to_routes_[static_cast<element_id>(6 + first[a])].emplace_back(w.r[a].get());
  auto const srg = get_station_route_graph(w.t().station_routes_, w.t().graph_);
  vc::check(srg.successors_.size() == 3 && srg.predeccesors_.size() == 3, "one entry per station route");
  for (int a = 0; a < 3; ++a) {
    auto const& succ = srg.successors_[static_cast<std::size_t>(a)];
    std::size_t n = 0;
    for (int b = 0; b < 3; ++b) {
      bool const want = end[a] == 0 && next[a] != 2 && a == next[a] && first[b] == a;
      std::size_t in = 0, out = 0;
      for (auto const& x : succ) in += x == w.r[b].get();
      for (auto const& x : srg.predeccesors_[static_cast<std::size_t>(b)]) out += x == w.r[a].get();
      vc::check(in == (want ? 1U : 0U), "a station route is followed by those of the next station that start at its border");
      vc::check(out == in, "predecessors mirror the successors");
      n += in;
    }
    vc::check(succ.size() == n, "no other successors");
  }
}
}  // namespace
VC_BOUNDED(C11, succession) {
  for (int e = 0; e < 27; ++e) srg_case(e, 18, e), srg_case(e, 19, (e * 5) % 27), srg_case(e, (e * 7) % 27, 4);
}
