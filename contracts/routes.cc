// C08: routes and trains are traversed node by node.
#include "vc.h"
#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/infrastructure/station/station_route.cc"
#include "src/infrastructure/interlocking/interlocking_route.cc"
#include "src/rolling_stock/train_physics.cc"
#include "src/timetable/bitfield.cc"
#include "src/timetable/sequence_point.cc"
#include "src/timetable/train.cc"
using namespace soro;
using namespace soro::infra;
using namespace soro::tt;

namespace {
type any_type() { return id_to_type(vc::range<std::uint8_t>("type", 0, type_to_id(type::INVALID) - 1)); }

// an infrastructure of which only the members that are set up are used
struct probe : infrastructure {
  static auto access() { return &probe::access_; }
};
struct world {
  alignas(infrastructure_t) unsigned char t_raw[sizeof(infrastructure_t)];
  alignas(infrastructure) unsigned char i_raw[sizeof(infrastructure)];
  infrastructure_t& t() { return *reinterpret_cast<infrastructure_t*>(t_raw); }
  infrastructure& infra() { return *reinterpret_cast<infrastructure*>(i_raw); }
  world() {
    new (&t().station_routes_) decltype(t().station_routes_){};
    new (&t().interlocking_.routes_) decltype(t().interlocking_.routes_){};
    infra().*probe::access() = &t();
  }
  ~world() {
    std::destroy_at(&t().station_routes_);
    std::destroy_at(&t().interlocking_.routes_);
  }
};

constexpr int MAXN = 4;
// a station route over n nodes
struct route {
  element e[MAXN];
  node n[MAXN];
  station_route::path p;
  station_route r;
  explicit route(int const k, unsigned const id = 0) {
    p.nodes_.resize(static_cast<std::size_t>(k));
    for (int j = 0; j < k; ++j) {
      n[j].id_ = 100U * id + static_cast<unsigned>(j);
      n[j].element_ = &e[j];
      p.nodes_[static_cast<std::size_t>(j)] = &n[j];
    }
    r.path_ = &p;
    r.id_ = id;
  }
};

// nodes of a station route that are omitted / carry an additional speed limit
void route_from_to(int const k, int const omit, int const spls, int const a, int const b) {
  route w(k);
  for (int j = 0; j < k; ++j)
    if ((omit >> j) & 1) w.r.omitted_nodes_.push_back(static_cast<node::idx>(j));
  int m = 0;
  for (int j = 0; j < k; ++j) m += (spls >> j) & 1;
  w.r.extra_speed_limits_.resize(static_cast<std::size_t>(m));
  int at[MAXN] = {};
  m = 0;
  for (int j = 0; j < k; ++j)
    if ((spls >> j) & 1) {
      w.r.extra_speed_limits_[static_cast<std::size_t>(m)].node_ = &w.n[j];
      at[j] = m++;
    }
  int i = a;
  for (auto&& rn : w.r.from_to(static_cast<node::idx>(a), static_cast<node::idx>(b))) {
    vc::check(i < b && rn.node_ == &w.n[i], "a station route yields its nodes in order");
    vc::check(rn.omitted() == (((omit >> i) & 1) != 0), "exactly the omitted nodes are marked");
    bool const has = ((spls >> i) & 1) != 0;
    vc::check(rn.extra_spl_.has_value() == has, "an additional speed limit is reported at its own node only");
    if (has && rn.extra_spl_.has_value()) vc::check(*rn.extra_spl_ == &w.r.extra_speed_limits_[static_cast<std::size_t>(at[i])], "the additional speed limit is that of the node");
    ++i;
  }
  vc::check(i == b, "all nodes of the range are yielded");
}
template <int K>
void route_ranges(int const lo, int const hi) {
  for (int omit = lo; omit < hi; ++omit)
    for (int spls = 0; spls < 1 << K; ++spls) {
      if ((omit & spls) != 0) continue;
      for (int a = 0; a <= K; ++a)
        for (int b = a; b <= K; ++b) route_from_to(K, omit, spls, a, b);
    }
}
}  // namespace
VC_BOUNDED(C08, route_1) { route_ranges<1>(0, 2); }
VC_BOUNDED(C08, route_2) { route_ranges<2>(0, 4); }
VC_BOUNDED(C08, route_3) { route_ranges<3>(0, 8); }

// the halves of a station route and its ends; path length n is arbitrary
namespace {
bool boundary(type const t) { return t == type::BORDER || t == type::TRACK_END; }
void set_type(element& e, type const t) {
  e.e_ = track_element{};
  e.as<track_element>().type_ = t;
}
}  // namespace
VC_CONTRACT(C08, route_kinds) {
  for (int k = 1; k <= 3; ++k) {
    route w(k);
    auto const first = any_type(), last = k == 1 ? first : any_type();
    set_type(w.e[0], first);
    if (k > 1) set_type(w.e[k - 1], last);
    auto const& r = w.r;
    bool const s = boundary(first), e = boundary(last);
    vc::check(r.is_through_route() == (s && e) && r.is_in_route() == (s && !e) && r.is_out_route() == (!s && e) && r.is_contained_route() == (!s && !e),
              "a station route is through, in, out or contained by its ends");
    vc::check(r.size() == k && r.nodes(0) == &w.n[0] && r.nodes().back() == &w.n[k - 1], "size and nodes");
  }
}
VC_CONTRACT(C08, route_halts) {
  route w(4);
  auto const ph = vc::range<node::idx>("passenger halt", 0, 4), fh = vc::range<node::idx>("freight halt", 0, 4), rc = vc::range<node::idx>("checkpoint", 0, 4);
  auto const opt = [](node::idx const i) { return i == 4 ? node::optional_idx{} : node::optional_idx{i}; };
  w.r.passenger_halt_ = opt(ph);
  w.r.freight_halt_ = opt(fh);
  w.r.runtime_checkpoint_ = opt(rc);
  auto const freight = vc::any<bool>("freight") ? rs::FreightTrain::YES : rs::FreightTrain::NO;
  auto const h = freight == rs::FreightTrain::YES ? fh : ph;
  auto const idx = w.r.get_halt_idx(freight);
  auto const n = w.r.get_halt_node(freight);
  vc::check(idx.has_value() == (h != 4) && n.has_value() == (h != 4), "a halt exists iff it is listed");
  if (h != 4) vc::check(*idx == h && *n == &w.n[h], "freight trains use the freight halt, others the passenger halt");
  auto const c = w.r.get_runtime_checkpoint_node();
  vc::check(c.has_value() == (rc != 4), "a runtime checkpoint exists iff it is listed");
  if (rc != 4) vc::check(*c == &w.n[rc], "node of the runtime checkpoint");
}

// interlocking routes over m station routes with k nodes each
namespace {
constexpr int MAXR = 3;
struct ilr {
  world w;
  std::unique_ptr<route> sr[MAXR]{};
  interlocking_route ir;
  int m, total{0};
  node::ptr seq[MAXR * MAXN]{};
  int sr_of[MAXR * MAXN]{}, idx_of[MAXR * MAXN]{};
  // k[i]: nodes of the i-th station route; the ids of the station routes are not ascending
  ilr(int const cnt, std::initializer_list<int> k, int const a, int const b) : m{cnt} {
    w.t().station_routes_.resize(MAXR);
    auto it = k.begin();
    for (int i = 0; i < m; ++i) {
      unsigned const id = static_cast<unsigned>((i + 2) % MAXR);
      sr[i] = std::make_unique<route>(*it++, id);
      w.t().station_routes_[id] = &sr[i]->r;
      ir.station_routes_.push_back(id);
      for (int j = i == 0 ? a : 0; j < (i == m - 1 ? b : sr[i]->r.size()); ++j) {
        seq[total] = &sr[i]->n[j];
        sr_of[total] = i;
        idx_of[total] = j;
        ++total;
      }
    }
    ir.start_offset_ = static_cast<node::idx>(a);
    ir.end_offset_ = static_cast<node::idx>(b);
  }
};
template <typename G>
bool yields(G&& g, ilr const& x, int i, int const to) {
  bool ok = true;
  for (auto&& rn : g) {
    ok &= i < to && rn.node_ == x.seq[i];
    ++i;
  }
  return ok && i == to;
}
void ir_case(int const m, std::initializer_list<int> k, int const a, int const b) {
  ilr x(m, k, a, b);
  auto const& infra = x.w.infra();
  auto const& ir = x.ir;
  vc::check(ir.size(infra) == x.total, "the size of an interlocking route is the number of its nodes");
  vc::check(ir.first_node(infra) == x.seq[0] && ir.last_node(infra) == x.seq[x.total - 1], "first and last node");
  set_type(*const_cast<element*>(x.seq[0]->element_), (a & 1) != 0 ? type::MAIN_SIGNAL : type::HALT);
  if (x.total > 1) set_type(*const_cast<element*>(x.seq[x.total - 1]->element_), (b & 1) != 0 ? type::MAIN_SIGNAL : type::EOTD);
  vc::check(ir.starts_on_ms(infra) == ((a & 1) != 0) && ir.ends_on_ms(infra) == (((x.total > 1 ? b : a) & 1) != 0), "an interlocking route starts or ends on a main signal iff its first or last node is one");
  interlocking_route next;
  next.station_routes_.push_back(x.sr[m - 1]->r.id_);
  for (int j = 0; j < x.sr[m - 1]->r.size(); ++j) {
    next.start_offset_ = static_cast<node::idx>(j);
    next.end_offset_ = static_cast<node::idx>(x.sr[m - 1]->r.size());
    vc::check(next.follows(ir, infra) == (j == b - 1), "an interlocking route follows the one at whose last node it starts");
  }
  vc::check(ir.follows(next, infra) == (x.seq[0] == &x.sr[m - 1]->n[x.sr[m - 1]->r.size() - 1]), "an interlocking route does not follow any other");
  vc::check(ir.first_sr(infra) == &x.sr[0]->r && ir.last_sr(infra) == &x.sr[m - 1]->r && ir.first_sr_id() == x.sr[0]->r.id_ && ir.last_sr_id() == x.sr[m - 1]->r.id_, "first and last station route");
  vc::check(yields(ir.iterate(infra), x, 0, x.total), "iterating an interlocking route yields its nodes in order");
  int at = 0;
  for (int i = 0; i < m; ++i) {
    vc::check(ir.sr_id(static_cast<interlocking_route::sr_offset>(i)) == x.sr[i]->r.id_ && ir.sr(static_cast<interlocking_route::sr_offset>(i), infra) == &x.sr[i]->r, "station route at an offset");
    for (int j = 0; j < x.sr[i]->r.size(); ++j) {
      bool const in = at < x.total && x.sr_of[at] == i && x.idx_of[at] == j;
      vc::check(ir.contains(x.sr[i]->r.id_, static_cast<node::idx>(j)) == in, "an interlocking route contains exactly its nodes");
      at += in;
    }
  }
  vc::check(!ir.contains(77, 0), "no nodes of other station routes");
  for (int i = 0; i < x.total; ++i) {
    auto const id = x.sr[x.sr_of[i]]->r.id_;
    auto const idx = static_cast<node::idx>(x.idx_of[i]);
    vc::check(yields(ir.from(id, idx, infra), x, i, x.total), "from() yields the rest of the interlocking route");
    vc::check(yields(ir.to(id, static_cast<node::idx>(idx + 1), infra), x, 0, i + 1), "to() yields the beginning of the interlocking route");
    for (int j = i; j < x.total; ++j)
      vc::check(yields(ir.from_to(id, idx, x.sr[x.sr_of[j]]->r.id_, static_cast<node::idx>(x.idx_of[j] + 1), infra), x, i, j + 1), "from_to() yields the nodes of the range");
  }
  int i = 0, pos = 0;
  for (auto const sp : ir.iterate_station_routes(*infra)) {
    vc::check(i < m && sp.station_route_ == &x.sr[i]->r, "sub-paths in order of the station routes");
    for (int j = 0; j < x.sr[i]->r.size(); ++j) {
      bool const in = pos < x.total && x.sr_of[pos] == i && x.idx_of[pos] == j;
      vc::check(sp.contains(static_cast<node::idx>(j)) == in, "the sub-paths cover exactly the nodes of the interlocking route");
      pos += in;
    }
    ++i;
  }
  vc::check(i == m && pos == x.total, "all sub-paths");
}
}  // namespace
VC_BOUNDED(C08, interlocking_1) {
  for (int k = 1; k <= 4; ++k)
    for (int a = 0; a < k; ++a)
      for (int b = a + 1; b <= k; ++b) ir_case(1, {k}, a, b);
}
VC_BOUNDED(C08, interlocking_2) {
  for (int k = 1; k <= 3; ++k)
    for (int l = 1; l <= 3; ++l)
      for (int a = 0; a < k; ++a)
        for (int b = 1; b <= l; ++b) ir_case(2, {k, l}, a, b);
}
VC_BOUNDED(C08, interlocking_3) {
  for (int k = 1; k <= 2; ++k)
    for (int l = 1; l <= 2; ++l)
      for (int a = 0; a < k; ++a)
        for (int b = 1; b <= 2; ++b) ir_case(3, {k, l, 2}, a, b);
}

// sequence points: halts, transits and their nodes
VC_CONTRACT(C08, sequence_points) {
  world w;
  route r(3, 1);
  w.t().station_routes_.resize(3);
  w.t().station_routes_[1] = &r.r;
  auto const ph = vc::range<node::idx>("passenger halt", 0, 3), fh = vc::range<node::idx>("freight halt", 0, 3), rc = vc::range<node::idx>("checkpoint", 0, 3);
  auto const opt = [](node::idx const i) { return i == 3 ? node::optional_idx{} : node::optional_idx{i}; };
  r.r.passenger_halt_ = opt(ph);
  r.r.freight_halt_ = opt(fh);
  r.r.runtime_checkpoint_ = opt(rc);
  sequence_point sp;
  sp.type_ = static_cast<sequence_point::type>(vc::range<std::uint8_t>("type", 0, 3));
  auto const dep = vc::any<std::uint32_t>("departure"), arr = vc::any<std::uint32_t>("arrival");
  sp.departure_ = relative_time{dep};
  sp.arrival_ = relative_time{arr};
  sp.station_route_ = 1;
  bool const halt = sp.type_ != sequence_point::type::TRANSIT, timed = !halt && valid(sp.departure_);
  vc::check(sp.is_halt() == halt && sp.is_transit() == !halt, "a sequence point is a halt or a transit");
  auto const other = static_cast<sequence_point::type>(vc::range<std::uint8_t>("other", 0, 3));
  vc::check(sp.is_halt(other) == (other == sp.type_), "is_halt(type) compares the type");
  vc::check(sp.has_transit_time() == timed && sp.is_measurable() == (halt || timed), "a sequence point is measurable iff it is a halt or has a transit time");
  vc::check(sp.transit_time() == sp.departure_, "the transit time is the departure");
  auto const freight = vc::any<bool>("freight") ? rs::FreightTrain::YES : rs::FreightTrain::NO;
  node::idx const want = timed ? rc : !halt ? node::idx{3} : freight == rs::FreightTrain::YES ? fh : ph;
  auto const idx = sp.get_node_idx(freight, w.infra());
  auto const n = sp.get_node(freight, w.infra());
  vc::check(idx.has_value() == (want != 3) && n.has_value() == (want != 3), "a sequence point has a node iff its station route has the halt or checkpoint");
  if (want != 3) vc::check(*idx == want && *n == &r.n[want], "halts happen at the halt, transits at the runtime checkpoint");
}
VC_CONTRACT(C08, absolute_times) {
  sequence_point sp;
  auto const dep = vc::range<std::uint32_t>("departure", 0, 7 * 86400), arr = vc::range<std::uint32_t>("arrival", 0, 7 * 86400);
  sp.departure_ = relative_time{dep};
  sp.arrival_ = relative_time{arr};
  date::year_month_day const ymd{date::year{vc::range<int>("year", 1970, 2090)}, date::month{vc::range<unsigned>("month", 1, 12)}, date::day{vc::range<unsigned>("day", 1, 31)}};
  auto const base = static_cast<std::uint32_t>(date::sys_days{ymd}.time_since_epoch().count()) * 86400U;
  vc::check(sp.absolute_departure(ymd).time_since_epoch().count() == base + dep && sp.absolute_arrival(ymd).time_since_epoch().count() == base + arr, "absolute times count from the midnight of the departure day");
}

// trains over a chain of interlocking routes
namespace {
struct chain {
  world w;
  std::unique_ptr<route> sr[MAXR]{};
  tt::train t;
  int total{0};
  node::ptr seq[MAXR * MAXN]{};
  int sr_of[MAXR * MAXN]{}, idx_of[MAXR * MAXN]{};
  // cut[i], cut[i + 1]: first and last node of the i-th interlocking route
  chain(std::initializer_list<int> k, int const m, int const* cut, bool const freight) {
    w.t().station_routes_.resize(MAXR);
    int i = 0;
    for (int const n : k) {
      unsigned const id = static_cast<unsigned>((i + 1) % MAXR);
      sr[i] = std::make_unique<route>(n, id);
      w.t().station_routes_[id] = &sr[i]->r;
      for (int j = 0; j < n; ++j) {
        set_type(sr[i]->e[j], type::MAIN_SIGNAL);
        seq[total] = &sr[i]->n[j];
        sr_of[total] = i;
        idx_of[total] = j;
        ++total;
      }
      ++i;
    }
    w.t().interlocking_.routes_.resize(MAXR);
    for (int r = 0; r < m; ++r) {
      unsigned const id = static_cast<unsigned>((r + 2) % MAXR);
      auto& ir = w.t().interlocking_.routes_[id];
      ir.id_ = id;
      ir.start_offset_ = static_cast<node::idx>(idx_of[cut[r]]);
      ir.end_offset_ = static_cast<node::idx>(idx_of[cut[r + 1]] + 1);
      for (int s = sr_of[cut[r]]; s <= sr_of[cut[r + 1]]; ++s) ir.station_routes_.push_back(sr[s]->r.id_);
      t.path_.push_back(id);
    }
    t.physics_.*freight_ptr() = freight ? rs::FreightTrain::YES : rs::FreightTrain::NO;
  }
  static rs::FreightTrain rs::train_physics::*freight_ptr();
  void stop(int const pos, bool const halt, bool const freight) {
    auto& r = sr[sr_of[pos]]->r;
    node::optional_idx const here{static_cast<node::idx>(idx_of[pos])};
    sequence_point sp;
    sp.station_route_ = r.id_;
    if (halt) {
      sp.type_ = sequence_point::type::PASSENGER;
      (freight ? r.freight_halt_ : r.passenger_halt_) = here;
    } else {
      sp.departure_ = relative_time{5};
      r.runtime_checkpoint_ = here;
    }
    t.sequence_points_.push_back(sp);
  }
};
template <auto M>
struct robbed {
  friend auto train_freight() { return M; }
};
auto train_freight();
template struct robbed<&rs::train_physics::freight_>;
rs::FreightTrain rs::train_physics::*chain::freight_ptr() { return train_freight(); }

// the train runs from node `from` to node `to`; via: node of a transit or halt in between (or -1)
void train_case(std::initializer_list<int> k, int const m, int const* cut, int const from, int const to, int const via, bool const via_halt, bool const freight, bool const in, bool const out) {
  chain x(k, m, cut, freight);
  auto const& infra = x.w.infra();
  x.t.break_in_ = in;
  x.t.break_out_ = out;
  int at[3], c = 0;
  if (!in) x.stop(at[c++] = from, true, freight);
  if (via >= 0) x.stop(at[c++] = via, via_halt, freight);
  if (!out) x.stop(at[c++] = to, true, freight);
  if (c > 0 || in) vc::check(x.t.get_start_node(infra) == x.seq[from], "the start node is the first node of the train");
  if (c > 0 || (in && out)) {
    vc::check(x.t.first_station_route(infra) == &x.sr[x.sr_of[in ? from : at[0]]]->r && x.t.last_station_route(infra) == &x.sr[x.sr_of[out ? to : at[c - 1]]]->r, "first and last station route");
  }
  vc::check(&x.t.first_interlocking_route(infra) == &x.w.t().interlocking_.routes_[x.t.path_.front()] && &x.t.last_interlocking_route(infra) == &x.w.t().interlocking_.routes_[x.t.path_.back()], "first and last interlocking route");
  int i = from, s = 0;
  for (auto&& tn : x.t.iterate(infra)) {
    vc::check(i <= to && tn.node_ == x.seq[i], "a train yields every node of its path once, in order");
    bool const stops = s < c && at[s] == i;
    vc::check(tn.sequence_point_.has_value() == stops, "a node carries a sequence point iff the train has one there");
    if (stops && tn.sequence_point_.has_value()) vc::check(*tn.sequence_point_ == &x.t.sequence_points_[static_cast<std::size_t>(s)], "the sequence point of the node");
    s += stops;
    ++i;
  }
  vc::check(i == to + 1 && s == c, "a train runs from its first to its last node");
}
void trains(std::initializer_list<int> k, int const m, int const* cut, bool const freight) {
  // a single halt or checkpoint per station route
  int total = 0;
  int owner[MAXR * MAXN], r = 0;
  for (int const n : k) {
    for (int j = 0; j < n; ++j) owner[total++] = r;
    ++r;
  }
  for (int io = 0; io < 4; ++io) {
    bool const in = io & 1, out = io & 2;
    for (int from = cut[0]; from <= (in ? cut[0] : cut[1]); ++from)
      for (int to = out ? cut[m] : cut[m - 1] + 1; to <= cut[m]; ++to) {
        if (from >= to || (!in && !out && owner[from] == owner[to])) continue;
        for (int via = -1; via < to; ++via) {
          if (via >= 0 && (via < from || (!in && owner[via] == owner[from]) || (!out && owner[via] == owner[to]))) continue;
          train_case(k, m, cut, from, to, via, (via & 1) != 0, freight, in, out);
        }
      }
  }
}
}  // namespace
VC_BOUNDED(C08, train_1) {
  int const a[] = {0, 3}, b[] = {1, 4};
  trains({2, 2}, 1, a, false);
  trains({2, 1, 2}, 1, b, true);
}
VC_BOUNDED(C08, train_2) {
  int const a[] = {0, 2, 4}, b[] = {1, 2, 4}, c[] = {0, 1, 3};
  trains({2, 2, 1}, 2, a, true);
  trains({2, 1, 2}, 2, b, false);
  trains({2, 2}, 2, c, false);
}
VC_BOUNDED(C08, train_3) {
  int const a[] = {0, 2, 3, 5}, b[] = {0, 1, 3, 4};
  trains({2, 2, 2}, 3, a, false);
  trains({2, 2, 2}, 3, b, true);
}
// omitted nodes of a train
VC_CONTRACT(C08, train_node_omitted) {
  route r(1);
  auto const ty = any_type();
  set_type(r.e[0], ty);
  route_node rn;
  rn.node_ = &r.n[0];
  rn.omitted_ = vc::any<bool>("omitted");
  bool const has = vc::any<bool>("stops");
  sequence_point sp;
  train_node const tn(rn, has ? sequence_point::optional_ptr{&sp} : sequence_point::optional_ptr{});
  vc::check(tn.omitted() == (rn.omitted_ || (ty == type::HALT && !has)), "a train omits the omitted nodes and the halts it does not stop at");
}

// simple queries of a train
VC_CONTRACT(C08, train_effected) {
  tt::train t;
  speed_limit s;
  s.type_ = static_cast<speed_limit::type>(vc::range<std::uint8_t>("type", 0, 5));
  s.effects_ = static_cast<speed_limit::effects>(vc::range<std::uint8_t>("effects", 0, 3));
  auto const v = vc_nondet_double("limit");
  vc::assume(v == 0.0 || (v >= 0.1 && v <= 1000.0));
  s.limit_ = si::speed{v};
  bool const general = s.type_ == speed_limit::type::GENERAL_ALLOWED && (s.effects_ == speed_limit::effects::ALL || s.effects_ == speed_limit::effects::CONVENTIONAL);
  vc::check(t.effected_by(s) == (general && v != 0.0), "a train is affected by general speed limits for all or conventional trains with a positive limit");
  bool const f = vc::any<bool>("freight"), c = vc::any<bool>("ctc");
  t.physics_ = rs::train_physics({}, si::weight{}, si::length{}, si::speed{}, c ? rs::CTC::YES : rs::CTC::NO, f ? rs::FreightTrain::YES : rs::FreightTrain::NO);
  vc::check(t.is_freight() == f && t.has_ctc() == c, "freight and continuous train control");
}
VC_CONTRACT(C08, train_events) {
  tt::train t;
  auto const first = vc::range<int>("first", 0, 40000), n = vc::range<int>("days", 1, 400);
  t.service_days_.first_date_ = bitfield::anchor_time{date::days{first}};
  t.service_days_.last_date_ = bitfield::anchor_time{date::days{first + n - 1}};
  t.service_days_.bitset_.set(0);
  t.sequence_points_.resize(2);
  auto const dep = vc::range<std::uint32_t>("departure", 0, 7 * 86400), arr = vc::range<std::uint32_t>("arrival", 0, 7 * 86400);
  t.sequence_points_[0].departure_ = relative_time{dep};
  t.sequence_points_[1].arrival_ = relative_time{arr};
  vc::check(t.first_departure().count() == dep && t.last_arrival().count() == arr, "first departure and last arrival are those of the first and last sequence point");
  vc::check(t.first_absolute_departure().time_since_epoch().count() == static_cast<std::uint32_t>(first) * 86400U + dep, "the first absolute departure is on the first service day");
}
namespace {
void halts(int const n) {
  tt::train t;
  t.sequence_points_.resize(static_cast<std::size_t>(n));
  soro::size_t want = 0;
  for (int j = 0; j < n; ++j) {
    auto& sp = t.sequence_points_[static_cast<std::size_t>(j)];
    sp.type_ = static_cast<sequence_point::type>(vc::range<std::uint8_t>("type", 0, 3));
    want += sp.type_ != sequence_point::type::TRANSIT ? 1 : 0;
  }
  vc::check(t.total_halts() == want, "total_halts() counts the halts");
}
void trips_of(int const n, int const mask) {
  tt::train t;
  t.id_ = vc::any<tt::train::id>("id");
  t.service_days_.first_date_ = bitfield::anchor_time{date::days{19000}};
  t.service_days_.last_date_ = bitfield::anchor_time{date::days{19000 + n - 1}};
  int want = 0;
  for (int d = 0; d < n; ++d)
    if ((mask >> d) & 1) {
      t.service_days_.bitset_.set(static_cast<std::size_t>(d));
      ++want;
    }
  t.sequence_points_.resize(2);
  t.sequence_points_[0].departure_ = relative_time{3600};
  t.sequence_points_[1].arrival_ = relative_time{7200};
  vc::check(t.trip_count() == static_cast<soro::size_t>(want), "trip_count() is the number of service days");
  auto const trips = t.trips();
  vc::check(trips.size() == static_cast<std::size_t>(want), "one trip per service day");
  std::size_t i = 0;
  for (int d = 0; d < n && i < trips.size(); ++d)
    if ((mask >> d) & 1) {
      vc::check(trips[i].train_id_ == t.id_ && trips[i].anchor_.time_since_epoch().count() == static_cast<std::uint32_t>(19000 + d) * 86400U, "trips in order of the service days");
      ++i;
    }
}
}  // namespace
VC_BOUNDED(C08, train_halts_1) { halts(1); }
VC_BOUNDED(C08, train_halts_4) { halts(4); }
VC_BOUNDED(C08, train_trips) {
  for (int mask = 1; mask < 16; ++mask) trips_of(4, mask);
}

// lengths of paths
namespace {
struct line_of {
  element e[4];
  node n[4];
  double km[4][2]{};
  soro::vector<element::ptr> elements;
  soro::vector<node::ptr> nodes;
  // section: bit mask of the section elements (with different kilometrages at both ends); the others are track elements
  line_of(int const k, int const section) {
    for (int j = 0; j < k; ++j) {
      n[j].element_ = &e[j];
      km[j][0] = vc_nondet_double("km");
      km[j][1] = ((section >> j) & 1) ? vc_nondet_double("km") : km[j][0];
      for (int s = 0; s < 2; ++s) vc::assume(km[j][s] >= -1e6 && km[j][s] <= 1e6);
      if ((section >> j) & 1) {
        e[j].e_ = simple_element{};
        auto& x = e[j].as<simple_element>();
        x.type_ = type::KM_JUMP;
        x.start_km_ = kilometrage{km[j][0]};
        x.end_km_ = kilometrage{km[j][1]};
        if (j > 0) x.start_falling_neighbour() = &e[j - 1];
        if (j + 1 < k) x.end_rising_neighbour() = &e[j + 1];
      } else {
        e[j].e_ = track_element{};
        auto& x = e[j].as<track_element>();
        x.type_ = type::MAIN_SIGNAL;
        x.km_ = kilometrage{km[j][0]};
        if (j > 0) x.behind() = &e[j - 1];
        if (j + 1 < k) x.ahead() = &e[j + 1];
      }
      elements.push_back(&e[j]);
      nodes.push_back(&n[j]);
    }
  }
};
void lengths(int const k, int const section) {
  line_of x(k, section);
  double d = 0.0;
  for (int j = 0; j + 1 < k; ++j) d += std::fabs(x.km[j][1] - x.km[j + 1][0]);
  vc::check(get_path_length_from_elements(x.elements).val_ == d && get_path_length_from_elements(x.nodes).val_ == d, "the length of a path is the sum of the distances of its elements");
}
void section_lengths(int const k, int const section) {
  line_of x(k, section);
  double d = 0.0;
  int last = 0;
  for (int j = 1; j < k; ++j)
    if (((section >> j) & 1) || j + 1 == k) {
      d += std::fabs(x.km[last][1] - x.km[j][0]);
      last = j;
    }
  vc::check(get_path_length_from_sections(x.elements).val_ == d, "the length over sections is the sum of the distances of consecutive section elements and the ends");
}
}  // namespace
VC_BOUNDED(C08, path_lengths) {
  for (int k = 1; k <= 3; ++k)
    for (int s = 0; s < 1 << k; ++s) lengths(k, s);
}
VC_BOUNDED(C08, section_lengths) {
  for (int k = 2; k <= 4; ++k)
    for (int s = 0; s < 1 << k; ++s) section_lengths(k, s);
}
VC_BOUNDED(C08, train_path_length) {
  int const cut[] = {0, 2, 3};
  chain x({2, 2}, 2, cut, false);
  double km[4], d = 0.0;
  for (int j = 0; j < 4; ++j) {
    km[j] = vc_nondet_double("km");
    vc::assume(km[j] >= -1e6 && km[j] <= 1e6);
    x.sr[x.sr_of[j]]->e[x.idx_of[j]].as<track_element>().km_ = kilometrage{km[j]};
    if (j > 0) d += std::fabs(km[j - 1] - km[j]);
  }
  x.stop(0, true, false);
  x.stop(3, true, false);
  vc::check(x.t.path_length(x.w.infra()).val_ == d, "the length of a train's path is the sum of the distances of its elements");
}
