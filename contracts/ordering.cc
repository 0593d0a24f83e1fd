// C09: ordering graphs - traversal, reachability, cycles, transitive edges, construction.
#include "vc.h"
#include "rbtree.h"
#include "soro/utls/graph/has_cycle.h"
#include "soro/utls/graph/traversal.h"
#include "src/simulation/ordering/check_exclusion_paths.cc"
#include "src/simulation/ordering/get_cycle.cc"
#include "src/simulation/ordering/ordering_graph.cc"
#include "src/simulation/ordering/remove_transitive_edges.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/rolling_stock/train_physics.cc"
#include "src/timetable/bitfield.cc"
#include "src/timetable/sequence_point.cc"
#include "src/timetable/train.cc"
using namespace soro;
using namespace soro::infra;
using namespace soro::simulation;

namespace {
constexpr int MAXN = 4;
struct graph_of {
  int n;
  bool edge[MAXN][MAXN]{}, reach[MAXN][MAXN]{};  // reach: over at least one edge
  int dist[MAXN][MAXN]{};                        // length of a shortest non-empty path, 0: none
  std::vector<unsigned> out[MAXN];
  ordering_graph og;
  graph_of(int const nodes, unsigned const mask, bool const down = false, unsigned const skip = 0) : n{nodes} {
    unsigned m = mask;
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
        if (((skip >> (a * n + b)) & 1U) != 0U) continue;
        edge[a][b] = (m & 1U) != 0U;
        m >>= 1U;
      }
    close();
    og.nodes_.resize(static_cast<std::size_t>(n));
    for (int a = 0; a < n; ++a) {
      og.nodes_[static_cast<std::size_t>(a)].id_ = static_cast<unsigned>(a);
      og.nodes_[static_cast<std::size_t>(a)].ir_id_ = static_cast<unsigned>(a);
    }
    for (int a = 0; a < n; ++a)
      for (int k = 0; k < n; ++k) {
        int const b = down ? n - 1 - k : k;
        if (!edge[a][b]) continue;
        out[a].push_back(static_cast<unsigned>(b));
        og.nodes_[static_cast<std::size_t>(a)].out_.push_back(static_cast<unsigned>(b));
        og.nodes_[static_cast<std::size_t>(b)].in_.push_back(static_cast<unsigned>(a));
      }
  }
  void close() {
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) dist[a][b] = edge[a][b] ? 1 : 0;
    for (int len = 2; len <= n; ++len)
      for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b)
          for (int c = 0; c < n && dist[a][b] == 0; ++c)
            if (edge[c][b] && dist[a][c] == len - 1) dist[a][b] = len;
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) reach[a][b] = dist[a][b] != 0;
  }
  bool cyclic() const {
    for (int a = 0; a < n; ++a)
      if (reach[a][a]) return true;
    return false;
  }
};
unsigned no_loops(int const n) {
  unsigned s = 0;
  for (int a = 0; a < n; ++a) s |= 1U << (a * n + a);
  return s;
}

// one traversal from node s that is stopped at the stop-th call (-1: never)
template <bool Bfs>
void traverse(graph_of const& g, unsigned const s, int const stop) {
  int edges[MAXN][MAXN]{}, nodes[MAXN]{}, calls = 0, last_dist = 0;
  bool in_order = true, from_known = true, by_distance = true, late = false;
  auto const neighbours = [&](unsigned const a) -> std::vector<unsigned> const& { return g.out[a]; };
  auto const on_node = [&](unsigned const to, unsigned const from) {
    late |= stop >= 0 && calls >= stop;
    ++nodes[to];
    in_order &= g.edge[from][to];
    from_known &= from == s || nodes[from] == 1;
    by_distance &= g.dist[s][to] >= last_dist;
    last_dist = g.dist[s][to];
    return ++calls == stop;
  };
  auto const on_edge = [&](unsigned const from, unsigned const to) {
    late |= stop >= 0 && calls >= stop;
    ++edges[from][to];
    from_known &= from == s || nodes[from] == 1;
    return ++calls == stop;
  };
  if constexpr (Bfs)
    utls::bfs(s, neighbours, on_node, on_edge);
  else
    utls::dfs(s, neighbours, on_node, on_edge);
  vc::check(in_order && from_known, "a node is handed over with the node it has been reached from");
  vc::check(!Bfs || by_distance, "a breadth first search visits the nodes by their distance");
  vc::check(!late, "the traversal ends when a function returns true");
  if (stop >= 0) {
    vc::check(calls <= stop, "the traversal ends when a function returns true");
    return;
  }
  for (int a = 0; a < g.n; ++a) {
    vc::check(nodes[a] == (a != static_cast<int>(s) && g.reach[s][a] ? 1 : 0), "every reachable node is visited exactly once");
    for (int b = 0; b < g.n; ++b) vc::check(edges[a][b] == (g.edge[a][b] && (a == static_cast<int>(s) || g.reach[s][a]) ? 1 : 0), "every reachable edge is visited exactly once");
  }
}
void traversals(int const n, unsigned const from, unsigned const to, unsigned const skip, bool const stops) {
  for (unsigned m = from; m < to; ++m)
    for (int down = 0; down < 2; ++down) {
      if (!stops && ((m ^ (m >> 3U) ^ (m >> 6U)) & 1U) != static_cast<unsigned>(down)) continue;
      graph_of const g(n, m, down != 0, skip);
      traverse<true>(g, 0, -1);
      traverse<false>(g, 0, -1);
      if (stops)
        for (int k = 1; k <= 5; k += 2) {
          traverse<true>(g, 0, k);
          traverse<false>(g, 0, k);
        }
    }
}
}  // namespace
VC_BOUNDED(C09, traversal_2) { traversals(2, 0, 16, 0, true); }
VC_BOUNDED(C09, traversal_3a) { traversals(3, 0, 256, 0, false); }
VC_BOUNDED(C09, traversal_3b) { traversals(3, 256, 512, 0, false); }
VC_BOUNDED(C09, traversal_4) {
  for (unsigned k = 0; k < 48; ++k) {
    unsigned x = (k + 100) * 2654435761U;
    x ^= x >> 15U;
    graph_of const g(4, (x >> 8U) & 0xffffU, (k & 1U) != 0U);
    traverse<true>(g, k % 4, -1);
    traverse<false>(g, k % 4, -1);
  }
}

// cycles
namespace {
bool is_cycle_through(graph_of const& g, cycle const& c, std::size_t const len, unsigned const node) {
  if (c.size() != len) return false;
  bool found = false;
  for (std::size_t i = 0; i < c.size(); ++i) {
    if (c[i] >= static_cast<unsigned>(g.n) || !g.edge[c[i]][c[(i + 1) % c.size()]]) return false;
    found |= c[i] == node;
    for (std::size_t j = 0; j < i; ++j)
      if (c[i] == c[j]) return false;
  }
  return found;
}
void cycles(graph_of const& g) {
  bool const cyclic = g.cyclic();
  vc::check(utls::has_cycle(g.og.nodes_, [](auto&& nodes, auto const n) -> auto const& { return nodes[n].out_; }) == cyclic, "has_cycle() is true iff the graph has a cycle");
  auto const all = get_cycles(g.og);
  std::size_t k = 0;
  int shortest = 0;
  for (int a = 0; a < g.n; ++a) {
    auto const c = get_shortest_cycle_from_node(static_cast<unsigned>(a), g.og);
    vc::check(c.has_value() == g.reach[a][a], "a cycle is found from a node iff the node lies on a cycle");
    if (!g.reach[a][a]) continue;
    if (c.has_value()) vc::check(is_cycle_through(g, *c, static_cast<std::size_t>(g.dist[a][a]), static_cast<unsigned>(a)), "the cycle is a shortest cycle through the node");
    vc::check(k < all.size() && is_cycle_through(g, all[k], static_cast<std::size_t>(g.dist[a][a]), static_cast<unsigned>(a)), "one shortest cycle per node on a cycle");
    ++k;
    if (shortest == 0 || g.dist[a][a] < shortest) shortest = g.dist[a][a];
  }
  vc::check(all.size() == k, "no other cycles");
  auto const c = get_cycle(g.og);
  vc::check(c.has_value() == cyclic, "a cycle is reported iff there is one");
  if (cyclic && c.has_value()) vc::check(is_cycle_through(g, *c, static_cast<std::size_t>(shortest), (*c)[0]), "the reported cycle is a shortest one");
}
// every node has at most one successor
unsigned functional(int const n, unsigned code) {
  unsigned m = 0;
  for (int a = 0; a < n; ++a) {
    unsigned const t = code % static_cast<unsigned>(n + 1);
    code /= static_cast<unsigned>(n + 1);
    if (t < static_cast<unsigned>(n)) m |= 1U << (static_cast<unsigned>(a * n) + t);
  }
  return m;
}
}  // namespace
VC_BOUNDED(C09, cycles_2) {
  for (unsigned m = 0; m < 16; ++m) cycles(graph_of(2, m));
}
VC_BOUNDED(C09, cycles_3) {
  for (unsigned m = 0; m < 64; ++m) cycles(graph_of(3, m, (m & 1U) != 0U, no_loops(3)));
}
VC_BOUNDED(C09, cycles_4) {
  for (unsigned c = 3; c < 625; c += 9) cycles(graph_of(4, functional(4, c)));
}
namespace {
// every other graph of four nodes: a fixed sample, edges in both orders
unsigned sample(unsigned const k) {
  unsigned x = k * 2654435761U + 12345U;
  x ^= x >> 13U;
  x *= 2246822519U;
  return (x >> 7U) & 0xfffU;
}
void dense_cycles(unsigned const from, unsigned const to) {
  for (unsigned k = from; k < to; ++k) cycles(graph_of(4, sample(k), (k & 1U) != 0U, no_loops(4)));
}
// cycles of all lengths from node 0: 0 -> a -> 0, 0 -> b -> c -> 0, for all a, b, c and both orders of the edges
void cycle_choice(bool const down) {
  for (unsigned p = 0; p < 6; ++p) {
    unsigned const a = 1 + p / 2, b = 1 + (a + p % 2) % 3, c = 6 - a - b;
    auto const bit = [](unsigned const x, unsigned const y) { return 1U << (x * 4 + y); };
    cycles(graph_of(4, bit(0, a) | bit(a, 0) | bit(0, b) | bit(b, c) | bit(c, 0), down));
  }
}
}  // namespace
VC_BOUNDED(C09, cycles_4_dense_a) { dense_cycles(0, 24); }
VC_BOUNDED(C09, cycles_4_dense_b) { dense_cycles(24, 48); }
VC_BOUNDED(C09, cycles_4_choice) {
  cycle_choice(false);
  cycle_choice(true);
}

// transitive edges of an acyclic graph; order: the topological order of its nodes
namespace {
void transitive(int const n, unsigned const bits, unsigned const* order) {
  unsigned mask = 0, k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) mask |= ((bits >> k++) & 1U) << (order[i] * static_cast<unsigned>(n) + order[j]);
  graph_of g(n, mask, (bits & 1U) != 0U);
  auto const& og = g.og;
  bool want[MAXN][MAXN];
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      bool detour = false;
      for (int c = 0; c < n; ++c) detour |= c != b && g.edge[a][c] && g.reach[c][b];
      want[a][b] = g.edge[a][b] && !detour;
    }
  remove_transitive_edges(g.og);
  vc::check(og.nodes_.size() == static_cast<std::size_t>(n), "no nodes are removed");
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      auto const& out = og.nodes_[static_cast<std::size_t>(a)].out_;
      auto const& in = og.nodes_[static_cast<std::size_t>(b)].in_;
      int o = 0, i = 0;
      for (auto const x : out) o += x == static_cast<unsigned>(b) ? 1 : 0;
      for (auto const x : in) i += x == static_cast<unsigned>(a) ? 1 : 0;
      vc::check(o == (want[a][b] ? 1 : 0), "exactly the edges that a longer path replaces are removed");
      vc::check(i == o, "incoming and outgoing edges match");
    }
}
}  // namespace
VC_BOUNDED(C09, transitive_3) {
  unsigned const orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto const& o : orders)
    for (unsigned m = 0; m < 8; ++m) transitive(3, m, o);
}
VC_BOUNDED(C09, transitive_4) {
  unsigned const orders[2][4] = {{0, 1, 2, 3}, {2, 3, 0, 1}};
  for (auto const& o : orders)
    for (unsigned m = 0; m < 64; ++m) transitive(4, m, o);
}

// exclusions and paths between mutually exclusive interlocking routes
namespace {
struct probe : infrastructure {
  static auto access() { return &probe::access_; }
};
struct world {
  alignas(infrastructure_t) unsigned char t_raw[sizeof(infrastructure_t)];
  alignas(infrastructure) unsigned char i_raw[sizeof(infrastructure)];
  infrastructure_t& t() { return *reinterpret_cast<infrastructure_t*>(t_raw); }
  infrastructure& infra() { return *reinterpret_cast<infrastructure*>(i_raw); }
  world() {
    new (&t().exclusion_) decltype(t().exclusion_){};
    new (&t().interlocking_.routes_) decltype(t().interlocking_.routes_){};
    infra().*probe::access() = &t();
  }
  ~world() {
    std::destroy_at(&t().exclusion_);
    std::destroy_at(&t().interlocking_.routes_);
  }
  // sets: bit masks of the routes that exclude each other
  void exclusion(int const routes, std::initializer_list<unsigned> sets) {
    t().interlocking_.routes_.resize(static_cast<std::size_t>(routes));
    t().exclusion_.irs_to_exclusion_sets_.resize(static_cast<std::size_t>(routes));
    for (int r = 0; r < routes; ++r) t().interlocking_.routes_[static_cast<std::size_t>(r)].id_ = static_cast<unsigned>(r);
    unsigned id = 0;
    for (auto const s : sets) {
      soro::vector<interlocking_route::id> ids;
      for (int r = 0; r < routes; ++r)
        if (((s >> r) & 1U) != 0U) {
          ids.push_back(static_cast<unsigned>(r));
          t().exclusion_.irs_to_exclusion_sets_[static_cast<std::size_t>(r)].push_back(id);
        }
      t().exclusion_.exclusion_sets_.push_back(ids);
      ++id;
    }
  }
};
void exclusion_paths(graph_of& g, unsigned const s1, unsigned const s2, bool const same_route) {
  world w;
  w.exclusion(g.n, {s1, s2});
  auto const together = [&](int const a, int const b) { return (((s1 >> a) & (s1 >> b)) & 1U) != 0U || (((s2 >> a) & (s2 >> b)) & 1U) != 0U; };
  auto const route = [&](int const a) { return same_route ? a / 2 : a; };
  for (int a = 0; a < g.n; ++a) g.og.nodes_[static_cast<std::size_t>(a)].ir_id_ = static_cast<unsigned>(route(a));
  for (int a = 0; a < g.n; ++a) {
    auto const ex = get_exclusions(static_cast<unsigned>(a), w.infra());
    for (int b = 0; b < g.n; ++b) vc::check(ex.size() == static_cast<std::size_t>(g.n) && ex[static_cast<std::size_t>(b)] == together(a, b), "routes exclude each other iff they share an exclusion set");
    auto const reached = get_reachable_nodes(g.og, static_cast<unsigned>(a));
    for (int b = 0; b < g.n; ++b) {
      vc::check(reached.size() == static_cast<std::size_t>(g.n) && reached[static_cast<std::size_t>(b)] == (a == b || g.reach[a][b]), "reachable nodes");
      if (a != b) vc::check(path_exists(g.og, static_cast<unsigned>(a), static_cast<unsigned>(b)) == g.reach[a][b], "a path exists iff the target is reachable");
    }
  }
  bool want = true;
  for (int a = 0; a < g.n; ++a)
    for (int b = 0; b < g.n; ++b)
      if (a != b && together(route(a), route(b)) && !g.reach[a][b] && !g.reach[b][a]) want = false;
  vc::check(has_exclusion_paths(g.og, w.infra()) == want, "every two usages of mutually exclusive routes are connected by a path");
}
}  // namespace
VC_BOUNDED(C09, exclusion_paths_3) {
  for (unsigned m = 0; m < 64; ++m) {
    graph_of g(3, m, false, no_loops(3));
    exclusion_paths(g, m % 8, (m / 8 + m) % 8, (m & 1U) != 0U);
    if (m % 3 == 0) exclusion_paths(g, 7, 0, false);
    if (m % 3 == 1) exclusion_paths(g, 6, 5, true);
  }
}

// construction.  The running time calculation is used through its contract: one timestamp per main signal of the path.
namespace {
constexpr int MAXT = 3, MAXP = 3;
relative_time signal_at[MAXT][MAXP];  // arrival at the i-th main signal of train t
std::size_t signals_of[MAXT];
}  // namespace
namespace soro::runtime {
timestamps runtime_calculation(tt::train const& train, infra::infrastructure const&, infra::type_set const&) {
  timestamps ts;
  for (std::size_t i = 0; i < signals_of[train.id_]; ++i) ts.times_.emplace_back(signal_at[train.id_][i], signal_at[train.id_][i], nullptr);
  return ts;
}
}  // namespace soro::runtime
namespace {
struct tprobe : timetable {
  static auto access() { return &tprobe::access_; }
};
struct plan {
  world w;
  alignas(timetable) unsigned char tt_raw[sizeof(timetable)];
  base_timetable base;
  timetable& tt() { return *reinterpret_cast<timetable*>(tt_raw); }
  plan() { tt().*tprobe::access() = &base; }
  // path: interlocking routes; at: start, arrivals at the signals, end (minutes); days: mask of the service days
  void train(unsigned const id, std::initializer_list<unsigned> path, std::initializer_list<unsigned> at, unsigned const days) {
    tt::train t;
    t.id_ = id;
    for (auto const p : path) t.path_.push_back(p);
    t.service_days_.first_date_ = bitfield::anchor_time{date::days{19000}};
    t.service_days_.last_date_ = bitfield::anchor_time{date::days{19003}};
    for (unsigned d = 0; d < 4; ++d)
      if (((days >> d) & 1U) != 0U) t.service_days_.bitset_.set(d);
    t.sequence_points_.resize(2);
    auto a = at.begin();
    t.sequence_points_[0].departure_ = relative_time{60U * *a++};
    signals_of[id] = at.size() - 2;
    for (std::size_t i = 0; i + 2 < at.size(); ++i) signal_at[id][i] = relative_time{60U * *a++};
    t.sequence_points_[1].arrival_ = relative_time{60U * *a};
    base.trains_.push_back(t);
  }
};
struct usage {
  unsigned train, route, from;
  unsigned day;
};
std::uint32_t midnight(unsigned const d) { return (19000U + d) * 86400U; }
// checks the graph of the listed trips
void built(plan& p, ordering_graph const& og, bool (*wanted)(unsigned train, unsigned day), bool const acyclic = true) {
  auto const& infra = p.w.infra();
  std::vector<usage> us;
  std::size_t trips = 0;
  for (auto const& t : p.base.trains_)
    for (unsigned d = 0; d < 4; ++d) {
      if (!t.service_days_.bitset_[d] || !wanted(t.id_, d)) continue;
      ++trips;
      tt::train::trip const trip{.train_id_ = t.id_, .anchor_ = absolute_time{absolute_time::duration{midnight(d)}}};
      auto const nodes = og.trip_nodes(trip);
      vc::check(nodes.size() == t.path_.size(), "a trip has one node per interlocking route of its path");
      for (std::size_t i = 0; i < nodes.size(); ++i) {
        vc::check(nodes[i].id_ == us.size() && &og.nodes_[us.size()] == &nodes[i], "the nodes are numbered consecutively");
        vc::check(nodes[i].ir_id_ == t.path_[i] && nodes[i].train_id_ == t.id_, "the nodes of a trip are the interlocking routes of its train in order");
        if (i + 1 < nodes.size() && acyclic) vc::check(&nodes[i].next(og) == &nodes[i + 1], "next() is the following node of the trip");
        us.push_back({t.id_, t.path_[i], midnight(d) + (i == 0 ? t.first_departure().count() : signal_at[t.id_][i - 1].count()), d});
      }
    }
  vc::check(og.nodes_.size() == us.size() && og.trip_to_nodes_.size() == trips, "exactly the trips of the filter");
  if (og.nodes_.size() != us.size()) return;
  std::size_t const n = us.size();
  std::vector<std::vector<bool>> reach(n, std::vector<bool>(n, false));
  for (std::size_t a = 0; a < n; ++a) {
    for (auto const b : og.nodes_[a].out_) {
      reach[a][b] = true;
      std::size_t in = 0;
      for (auto const c : og.nodes_[b].in_) in += c == a ? 1 : 0;
      vc::check(in == 1, "incoming and outgoing edges match");
    }
    for (auto const b : og.nodes_[a].in_) {
      std::size_t out = 0;
      for (auto const c : og.nodes_[b].out_) out += c == a ? 1 : 0;
      vc::check(out == 1, "incoming and outgoing edges match");
    }
  }
  for (std::size_t c = 0; c < n; ++c)
    for (std::size_t a = 0; a < n; ++a)
      for (std::size_t b = 0; b < n; ++b)
        if (reach[a][c] && reach[c][b]) reach[a][b] = true;
  auto const together = [&](unsigned const a, unsigned const b) {
    for (auto const& s : infra->exclusion_.exclusion_sets_) {
      bool x = false, y = false;
      for (auto const r : s) {
        x |= r == a;
        y |= r == b;
      }
      if (x && y) return true;
    }
    return false;
  };
  bool want[12][12]{};
  for (std::size_t a = 0; a < n; ++a)
    for (std::size_t b = 0; b < n; ++b) want[a][b] = (b == a + 1 && us[a].train == us[b].train && us[a].day == us[b].day) || (us[a].from < us[b].from && together(us[a].route, us[b].route));
  for (std::size_t c = 0; c < n; ++c)
    for (std::size_t a = 0; a < n; ++a)
      for (std::size_t b = 0; b < n; ++b)
        if (want[a][c] && want[c][b]) want[a][b] = true;
  for (std::size_t a = 0; a < n; ++a)
    for (std::size_t b = 0; b < n; ++b) vc::check(reach[a][b] == want[a][b], "usages of mutually exclusive routes are ordered by time, the others are not");
  if (!acyclic) return;
  for (std::size_t a = 0; a < n; ++a)
    for (auto const b : og.nodes_[a].out_)
      for (auto const c : og.nodes_[a].out_) vc::check(!reach[c][b], "no edge that a longer path replaces remains");
}
bool all_trips(unsigned, unsigned) { return true; }
}  // namespace
VC_BOUNDED(C09, build_2_trains) {
  // two trains over three routes; the second train starts at different times
  unsigned const shift[] = {1, 7, 13, 19, 27};
  unsigned const sets[][2] = {{7, 0}, {3, 4}, {1, 6}, {5, 2}, {1, 2}};
  for (auto const s : shift)
    for (auto const& x : sets) {
      plan p;
      p.w.exclusion(3, {x[0], x[1]});
      p.train(0, {0, 1, 2}, {5, 10, 20, 30}, 1);
      p.train(1, {0, 1}, {s, s + 8, s + 16}, 1);
      ordering_graph const og(p.w.infra(), p.tt());
      built(p, og, &all_trips);
    }
}
VC_BOUNDED(C09, build_days) {
  plan p;
  p.w.exclusion(3, {3, 6});
  p.train(0, {0, 1}, {5, 10, 20}, 5);
  p.train(1, {1, 2}, {1439, 1449, 1455}, 3);
  ordering_graph const og(p.w.infra(), p.tt());
  built(p, og, &all_trips);
}
VC_BOUNDED(C09, build_filter) {
  for (int k = 0; k < 4; ++k) {
    plan p;
    p.w.exclusion(2, {3});
    p.train(0, {0, 1}, {5, 10, 20}, 15);
    p.train(1, {1, 0}, {600, 605, 610}, 6);
    p.train(2, {0, 1}, {700, 705, 710}, 4);
    ordering_graph::filter f;
    f.interval_ = {absolute_time{absolute_time::duration{midnight(1)}}, absolute_time{absolute_time::duration{midnight(2) + 600U}}};
    if (k == 1) f.trains_ = {1};
    if (k == 2) f.trains_ = {2, 0};
    if (k == 3) f.trains_ = {5};
    ordering_graph const og(p.w.infra(), p.tt(), f);
    static int which;
    which = k;
    built(p, og, [](unsigned const t, unsigned const d) {
      if (which == 1 && t != 1) return false;
      if (which == 2 && t == 1) return false;
      if (which == 3) return false;
      return d == 1 || (d == 2 && t == 0);
    });
  }
}
