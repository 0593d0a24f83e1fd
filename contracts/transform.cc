// C12: the path of a train is turned into interlocking routes.
#include "net.h"
#include "rbtree.h"
#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/infrastructure/line.cc"
#include "src/infrastructure/interlocking/get_interlocking.cc"
#include "src/infrastructure/interlocking/interlocking_route.cc"
#include "src/infrastructure/station/station_route.cc"
#include "src/timetable/parsers/route_transform_error.cc"
#include "src/timetable/parsers/station_route_to_interlocking_route.cc"
#include "src/timetable/sequence_point.cc"
using namespace soro;
using namespace soro::infra;
using namespace soro::tt;
using net::network;

// the wrapper around an existing infrastructure
soro::infra::infrastructure::infrastructure(infrastructure_t const* t) { this->access_ = t; }

namespace {
// what the stop sequence does in a station route
enum what : int { PASS, POINT, STOP };

// interlocking routes along the station routes srs[0..m) (which follow one another), from the first to the last stop
void transform(network& w, std::initializer_list<int> srs, std::initializer_list<int> acts, bool const break_in, bool const break_out, rs::FreightTrain const freight) {
  int const m = static_cast<int>(srs.size());
  int const* const s = srs.begin();
  int const* const act = acts.begin();
  stop_sequence ss;
  ss.break_in_ = break_in;
  ss.break_out_ = break_out;
  for (int i = 0; i < m; ++i) {
    sequence_point sp;
    sp.station_route_ = static_cast<station_route::id>(s[i]);
    sp.type_ = act[i] == STOP ? sequence_point::type::PASSENGER : sequence_point::type::TRANSIT;
    if (act[i] != PASS) sp.departure_ = relative_time{1000U + static_cast<unsigned>(i)};
    ss.points_.push_back(sp);
  }
  auto const& irs = w.t().interlocking_.routes_;
  auto const stop_at = [&](int const i) { return static_cast<int>(*w.r[s[i]]->get_halt_idx(freight)); };
  // positions on the station routes, one after the other
  int base[net::MAXR + 1]{};
  for (int i = 0; i < m; ++i) base[i + 1] = base[i] + w.r[s[i]]->size();
  int const from = break_in ? 0 : stop_at(0), to = break_out ? base[m] - 1 : base[m - 1] + stop_at(m - 1);
  // signals, and the ends of the network
  int bound[32], bounds = 0;
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < w.r[s[i]]->size(); ++j) {
      bool const end = (i == 0 && j == 0 && w.predecessors(s[0]).empty()) || (i == m - 1 && j == w.r[s[i]]->size() - 1 && w.successors(s[i]).empty());
      if (end || w.r[s[i]]->nodes(static_cast<node::idx>(j))->element_->is(type::MAIN_SIGNAL)) bound[bounds++] = base[i] + j;
    }
  int first = -1, last = bounds;
  for (int b = 0; b < bounds; ++b) {
    if (bound[b] <= from) first = b;
    if (bound[b] >= to && last == bounds) last = b;
  }
  // the train starts in an interlocking route that begins in front of its path
  interlocking_route const* entered = nullptr;
  if (first == -1) {
    if (break_in) return;  // it is not said from where the train comes
    int n = 0;
    for (auto const& ir : irs)
      if (ir.contains(static_cast<station_route::id>(s[0]), static_cast<node::idx>(from))) {
        entered = &ir;
        ++n;
      }
    if (n != 1) return;
  }
  auto const res = transform_to_interlocking(ss, freight, w.infra());
  // the interlocking routes that lead from the last signal of the train over the rest of its path
  int rest = 0;
  if (bounds == 0) {
    std::size_t l = 0;
    while (entered->station_routes_[l] != static_cast<unsigned>(s[0])) ++l;
    bool along = entered->station_routes_.size() > l + static_cast<std::size_t>(m);
    for (int i = 0; i < m && along; ++i) along = entered->station_routes_[l + static_cast<std::size_t>(i)] == static_cast<unsigned>(s[i]);
    rest = along;
  }
  for (auto const& ir : irs) {
    if (bounds == 0) break;
    int const b = bound[bounds - 1];
    int i = 0;
    while (b >= base[i + 1]) ++i;
    bool along = ir.start_offset_ == b - base[i] && ir.station_routes_.size() > static_cast<std::size_t>(m - i);
    for (int l = i; l < m && along; ++l) along = ir.station_routes_[static_cast<std::size_t>(l - i)] == static_cast<unsigned>(s[l]);
    rest += along;
  }
  if (last < bounds || rest == 1) vc::check(res.has_value(), "the interlocking routes of a train are found if its path determines them");
  if (!res.has_value()) return;
  auto const& path = res->path_;
  vc::check(path.size() == static_cast<std::size_t>(last - first), "one interlocking route from each signal on the path to the next one");
  for (std::size_t k = 0; k < path.size(); ++k) {
    auto const& ir = irs[path[k]];
    int const b = first + static_cast<int>(k) < 0 ? base[m] : bound[first + static_cast<int>(k)];
    int i = 0;
    while (i < m && b >= base[i + 1]) ++i;
    vc::check(i == m ? &ir == entered : ir.start_offset_ == b - base[i], "an interlocking route of the path starts at its signal");
    for (std::size_t l = 0; l < ir.station_routes_.size() && i + static_cast<int>(l) < m; ++l)
      vc::check(ir.station_routes_[l] == static_cast<unsigned>(s[i + static_cast<int>(l)]), "an interlocking route of the path uses the station routes of the train");
    if (k > 0) vc::check(ir.follows(irs[path[k - 1]], w.infra()), "the interlocking routes of the path follow each other");
    if (first + static_cast<int>(k) + 1 < bounds) {
      int const e = bound[first + static_cast<int>(k) + 1];
      int j = 0;
      while (e >= base[j + 1]) ++j;
      vc::check(ir.last_sr_id() == static_cast<unsigned>(s[j]) && ir.end_offset_ == e - base[j] + 1, "an interlocking route of the path ends at the next signal");
    }
  }
  // timed points and stops
  std::size_t at = 0;
  for (int i = 0; i < m; ++i) {
    if (act[i] == PASS) continue;
    bool const is = at < res->sequence_points_.size() && res->sequence_points_[at].station_route_ == static_cast<unsigned>(s[i]) && res->sequence_points_[at].type_ == ss.points_[static_cast<std::size_t>(i)].type_ && res->sequence_points_[at].departure_ == ss.points_[static_cast<std::size_t>(i)].departure_;
    vc::check(is, "the stops and timed points of the train are kept in order");
    ++at;
  }
  vc::check(at == res->sequence_points_.size(), "no other stops");
}

// three stations with two routes each: nodes 5 s + 0 1 2 3 and 5 s + 0 1 4 3; mask: signals at nodes 1, 2, 4 of each
void setup(network& w, int const masks) {
  for (int s = 0; s < 3; ++s) {
    int const m = (masks >> (3 * s)) & 7;
    if ((m & 1) != 0) w.is(5 * s + 1, type::MAIN_SIGNAL);
    if ((m & 2) != 0) w.is(5 * s + 2, type::MAIN_SIGNAL);
    if ((m & 4) != 0) w.is(5 * s + 4, type::MAIN_SIGNAL);
  }
  for (int s = 0; s < 3; ++s) {
    w.add({5 * s, 5 * s + 1, 5 * s + 2, 5 * s + 3}, 0);
    w.add({5 * s, 5 * s + 1, 5 * s + 4, 5 * s + 3}, 0);
  }
  for (int s = 0; s < 2; ++s)
    for (int a = 0; a < 2; ++a)
      for (int b = 0; b < 2; ++b) w.follows(2 * s + a, 2 * s + 2 + b);
  w.t().interlocking_ = get_interlocking(w.t());
  for (int a = 0; a < 6; ++a) {
    auto const& ms = w.p[a]->main_signals_;
    auto const sig = [&](int const i) { for (auto const x : ms) if (x == i) return true; return false; };
    // passengers before, freight behind the signals where there is room
    int const ph = sig(1) ? 2 : 1, fh = sig(2) ? (sig(1) ? 3 : 1) : 2;
    w.r[a]->passenger_halt_ = node::optional_idx{static_cast<node::idx>(sig(1) && sig(2) ? 3 : ph)};
    w.r[a]->freight_halt_ = node::optional_idx{static_cast<node::idx>(fh)};
    w.r[a]->runtime_checkpoint_ = node::optional_idx{static_cast<node::idx>(a % 2 == 0 ? 3 : 0)};
  }
  // the halts are known only now
  w.t().interlocking_.halting_at_ = get_halting_at(w.t().interlocking_.routes_, w.infra());
}
void lines_of_three(int const masks) {
  network w(15);
  setup(w, masks);
  for (int p = 0; p < 8; ++p) {
    int const a = p & 1, b = 2 + ((p >> 1) & 1), c = 4 + (p >> 2);
    auto const f = (p & 1) != 0 ? rs::FreightTrain::YES : rs::FreightTrain::NO;
    auto const g = (p & 2) != 0 ? rs::FreightTrain::YES : rs::FreightTrain::NO;
    transform(w, {a, b, c}, {STOP, PASS, STOP}, false, false, f);
    transform(w, {a, b, c}, {POINT, STOP, PASS}, true, true, g);
    transform(w, {a, b, c}, {STOP, POINT, POINT}, false, true, g);
    transform(w, {a, b, c}, {PASS, POINT, STOP}, true, false, f);
    transform(w, {a, b}, {STOP, STOP}, false, false, g);
    transform(w, {b, c}, {STOP, STOP}, false, false, f);
  }
}
// four stations with one route each; the last one can be left in two ways if fork is set
void lines_of_chain(int const masks, bool const fork) {
  network w(16);
  for (int j = 0; j < 16; ++j)
    if (((masks >> (2 * (j / 4))) & (j % 4 == 1 ? 1 : j % 4 == 2 ? 2 : 0)) != 0) w.is(j, type::MAIN_SIGNAL);
  // the route of station s has id at[s]
  constexpr int at[4] = {2, 0, 3, 1};
  for (int r = 0; r < 4; ++r)
    for (int s = 0; s < 4; ++s)
      if (at[s] == r) w.add({4 * s, 4 * s + 1, 4 * s + 2, 4 * s + 3});
  for (int s = 0; s < 3; ++s) w.follows(at[s], at[s + 1]);
  if (fork) {
    w.add({12, 13, 15});
    w.follows(at[2], 4);
  }
  w.t().interlocking_ = get_interlocking(w.t());
  for (int r = 0; r < w.routes; ++r) {
    auto const halt = [&](int const i) { return w.r[r]->nodes(static_cast<node::idx>(i))->element_->is(type::MAIN_SIGNAL); };
    w.r[r]->passenger_halt_ = node::optional_idx{static_cast<node::idx>(r == 4 ? 2 : 3)};
    w.r[r]->freight_halt_ = node::optional_idx{static_cast<node::idx>(!halt(2) && r != 4 ? 2 : !halt(1) ? 1 : 0)};
    w.r[r]->runtime_checkpoint_ = node::optional_idx{static_cast<node::idx>(r % 2 == 0 || r == 4 ? 0 : 3)};
  }
  w.t().interlocking_.halting_at_ = get_halting_at(w.t().interlocking_.routes_, w.infra());
  for (auto const f : {rs::FreightTrain::NO, rs::FreightTrain::YES}) {
    transform(w, {at[0], at[1]}, {STOP, STOP}, false, false, f);
    transform(w, {at[0], at[1], at[2]}, {STOP, POINT, STOP}, false, false, f);
    transform(w, {at[0], at[1], at[2], at[3]}, {PASS, STOP, POINT, PASS}, true, true, f);
    transform(w, {at[0], at[1], at[2], at[3]}, {STOP, STOP, STOP, STOP}, true, false, f);
    transform(w, {at[1], at[2], at[3]}, {STOP, PASS, POINT}, false, true, f);
    transform(w, {at[1], at[2]}, {STOP, STOP}, false, false, f);
    transform(w, {at[2], at[3]}, {STOP, STOP}, false, false, f);
  }
}
}  // namespace
VC_BOUNDED(C12, lines_1) { for (int x : {0211, 0121, 0332, 0144}) lines_of_three(x); }
VC_BOUNDED(C12, lines_2) { for (int x : {0707, 0022, 0200, 0001}) lines_of_three(x); }
VC_BOUNDED(C12, lines_3) { for (int x : {0626, 0010, 0515, 0353}) lines_of_three(x); }
VC_BOUNDED(C12, chain_1) { for (int x = 0; x < 256; x += 11) lines_of_chain(x, false); }
VC_BOUNDED(C12, chain_2) { for (int x = 5; x < 256; x += 11) lines_of_chain(x, true); }
VC_BOUNDED(C12, chain_3) { for (int x : {0, 1, 2, 3, 4, 8, 9, 16, 18, 64, 66, 81, 82, 129, 146, 161}) lines_of_chain(x, (x & 2) != 0); }
