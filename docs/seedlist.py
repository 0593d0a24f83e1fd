BF = '''#include "src/timetable/bitfield.cc"
#include <cstdio>
using namespace soro; using namespace soro::tt;
using day = bitfield::anchor_time;
static day D(int d) { return day{date::days{d}}; }
static bitfield mk(int first, std::string const& m) { return make_bitfield(D(first), D(first + (int)m.size() - 1), m.c_str()); }
static absolute_time T(unsigned d, unsigned s) { return absolute_time{i32_seconds{d * 86400U + s}}; }
'''
seed("C01-to-last-day", "C01",
     [("src/timetable/bitfield.cc", "  if (at < first_date_) {\n    return iterator{this, 0};\n  }\n\n  return iterator{this, static_cast<bitfield::iterator::idx_t>(\n                            distance(first_date_, at) + 1)};",
       "  if (at <= first_date_) {\n    return iterator{this, 0};\n  }\n\n  return iterator{this, static_cast<bitfield::iterator::idx_t>(\n                            distance(first_date_, at) + 1)};")],
     BF + '''int main() { auto b = mk(19000, "1011"); auto const e = b.to(T(19000, 5)); int n = 0; for (auto i = b.begin(); i != e && i != b.end(); ++i) ++n; return n == 1 ? 0 : 1; }''',
     "a query time on the very first covered day", "the first service day is missing in front of to()")
seed("C01-union-contained", "C01",
     [("src/timetable/bitfield.cc", "  this->last_date_ = std::max(this->last_date_, o.last_date_);\n\n  return *this;",
       "  if (this->first_date_ <= o.first_date_) {\n    this->last_date_ = o.last_date_;\n  }\n\n  return *this;")],
     BF + """int main() { auto a = mk(19000, "1000000001"), b = mk(19002, "11"); auto const u = a | b;
  for (int d = 19000; d < 19010; ++d) { bool y = d == 19000 || d == 19002 || d == 19003 || d == 19009; if (u.last_date_ < D(d) ? y : u.at(D(d)) != y) return 1; } return 0; }""",
     "a union whose right operand is contained in the range of the left one", "the covered range shrinks and days at the end are lost")
seed("C01-set-prepend", "C01",
     [("src/timetable/bitfield.cc", "    this->bitset_ <<= distance(anchor, this->first_date_);\n    this->first_date_ = ymd;\n  } else if (pos > 0) {",
       "    this->first_date_ = ymd;\n    if (new_value) {\n      this->bitset_ <<= distance(anchor, this->first_date_);\n    }\n  } else if (pos > 0) {")],
     BF + """int main() { auto a = mk(19000, "1001"); a.set(D(18998), true); for (int d = 18998; d < 19004; ++d) if (a[D(d)] != (d == 18998 || d == 19000 || d == 19003)) return 1; return 0; }""",
     "setting a day before the covered range", "the days already in service move to other dates")
TR = """#include "src/timetable/bitfield.cc"
#include "src/timetable/sequence_point.cc"
#include "src/timetable/train.cc"
#include <cstdio>
using namespace soro; using namespace soro::tt;
constexpr unsigned D1 = 86400;
static train mk(int first, std::string const& m, unsigned dep, unsigned arr) {
  train t; t.id_ = 0;
  t.service_days_ = make_bitfield(bitfield::anchor_time{date::days{first}}, bitfield::anchor_time{date::days{first + (int)m.size() - 1}}, m.c_str());
  sequence_point a{}, b{}; a.departure_ = relative_time{dep}; b.arrival_ = relative_time{arr};
  t.sequence_points_.push_back(a); t.sequence_points_.push_back(b); return t; }
static std::vector<unsigned> run(train const& t, unsigned s, unsigned e) {
  std::vector<unsigned> r;
  for (auto const m : t.departures(interval{absolute_time{i32_seconds{s}}, absolute_time{i32_seconds{e}}})) { r.push_back(m.time_since_epoch().count() / D1); if (r.size() > 600) break; }
  return r; }
"""
seed("C02-end-midnight", "C02",
     [("src/timetable/train.cc", "         *bitfield_it_ <= interval_.end_ &&", "         *bitfield_it_ < interval_.end_ &&")],
     TR + """int main() { auto t = mk(19000, "111", 8 * 3600, 9 * 3600); return run(t, 19000 * D1, 19002 * D1) == std::vector<unsigned>{19000, 19001} ? 0 : 1; }""",
     "an interval that ends exactly at a midnight that starts a service day", "a trip that starts hours after the interval is listed")
seed("C02-overlap-touch", "C02",
     [("include/soro/timetable/interval.h", "return start_ <= other.end_ && other.start_ <= end_;", "return start_ <= other.end_ && (other.start_ < end_ || start_ == other.start_);")],
     TR + """int main() { auto t = mk(19000, "111", 8 * 3600, 9 * 3600); return run(t, 19000 * D1 + 12 * 3600, 19001 * D1 + 8 * 3600) == std::vector<unsigned>{19001} ? 0 : 1; }""",
     "an interval that ends at the very second of the first departure", "the trip is left out")
seed("C02-overnight", "C02",
     [("src/timetable/train.cc", "          .end_ = relative_to_absolute(midnight, last_arrival())};",
       "          .end_ = relative_to_absolute(\n              midnight, last_arrival() < days{3}\n                            ? last_arrival()\n                            : last_arrival() - first_departure())};")],
     TR + """int main() { auto t = mk(19000, "1", 20 * 3600, 80 * 3600); return run(t, 19000 * D1 + 75 * 3600, 19000 * D1 + 76 * 3600) == std::vector<unsigned>{19000} ? 0 : 1; }""",
     "a trip that lasts for more than three days and an interval in its last hours", "the trip is left out")
NW = """#include "soro/utls/narrow.h"
#include <cstdint>
using namespace soro::utls;
"""
seed("C04-fits-max", "C04",
     [("include/soro/utls/narrow.h", "  In const out_max = std::numeric_limits<Out>::max();\n  In const out_min", "  In const out_max = std::is_signed_v<Out> ? std::numeric_limits<Out>::max()\n                                           : std::numeric_limits<Out>::max() - 1;\n  In const out_min")],
     NW + """int main() { return detail::fits<std::uint16_t>(std::uint32_t{65535}) && !detail::fits<std::uint16_t>(std::uint32_t{65536}) ? 0 : 1; }""",
     "an unsigned value equal to the maximum of a smaller unsigned type", "the conversion is refused")
seed("C03-midnight-2038", "C03",
     [("include/soro/base/time.h", "  return sc::floor<days>(t);", "  auto const s = static_cast<std::int32_t>(t.time_since_epoch().count());\n  return absolute_time{i32_seconds{static_cast<std::uint32_t>(s - s % 86400)}};")],
     """#include "soro/base/time.h"
using namespace soro;
int main() { for (unsigned t : {5U, 86400U, 100000U, 2147483648U + 5U, 4000000000U}) { auto const m = absolute_time_to_rep(midnight(rep_to_absolute_time(t))); if (m > t || t - m >= 86400 || m % 86400) return 1; } return 0; }""",
     "a time after the 32 bit signed overflow in 2038", "the reported midnight lies after the time")
seed("C03-interval-end", "C03",
     [("src/utls/unixtime.cc", "  return *this >= start && *this <= end;", "  return *this >= start && (start == end ? *this < end : *this <= end);")],
     """#include "src/utls/unixtime.cc"
using namespace soro::utls;
int main() { unixtime const a{10}, b{20}; return a.in_interval(a, b) && b.in_interval(a, b) && !unixtime{21}.in_interval(a, b) && a.in_interval(a, a) ? 0 : 1; }""",
     "an interval that consists of a single point in time", "the point is reported as outside")
EX = '''#include "src/infrastructure/exclusion/exclusion_set.cc"
using namespace soro; using namespace soro::infra;
using V = soro::vector<exclusion_set::value_type>;
'''
seed("C05-unordered-less", "C05",
     [("src/infrastructure/exclusion/exclusion_set.cc", "    if (!a_is_sub && !b_is_sub) {", "    if (!a_is_sub || !b_is_sub) {")],
     EX + """int main() { auto a = make_exclusion_set(V{1, 70, 71}), b = make_exclusion_set(V{1, 2, 70, 72}); return a.compare(b) == std::partial_ordering::unordered && !b.contains(a) ? 0 : 1; }""",
     "two sets over the same blocks that differ in different directions in different blocks", "an unordered pair is reported as subset")
seed("C05-union-first", "C05",
     [("src/infrastructure/exclusion/exclusion_set.cc", "  this->first_bit_set_ = std::min(this->first_bit_set_, other.first_bit_set_);\n", "  if (diff_in_blocks == 0 && this->last_ != other.last_) {\n    this->first_bit_set_ = std::min(this->first_bit_set_, other.first_);\n  } else {\n    this->first_bit_set_ = std::min(this->first_bit_set_, other.first_bit_set_);\n  }\n")],
     EX + """int main() { auto a = make_exclusion_set(V{70, 200}), b = make_exclusion_set(V{69}); auto const c = a | b; return *c.begin() == 69 && c.ok() && c.contains(a) && c.contains(b) ? 0 : 1; }""",
     "a union of two sets that start in the same block and end in different ones", "iteration starts at an id that is not in the set")
EL = '''#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
using namespace soro; using namespace soro::infra;
'''
seed("C06-cross-km", "C06",
     [("src/infrastructure/graph/element.cc", "  if (neigh == e.rising_start_left() || neigh == e.falling_start_left()) {\n    return e.start_left_km_;\n  } else if (neigh == e.rising_end_left() || neigh == e.falling_end_left()) {",
       "  if (neigh == e.rising_start_left() || neigh == e.falling_start_left()) {\n    return e.start_left_km_;\n  } else if (neigh == e.rising_end_left() || neigh == e.falling_end_right()) {")],
     EL + """int main() { element e, n[8]; e.e_ = cross{}; auto& x = e.as<cross>(); x.rising_start_left() = &n[0]; x.falling_start_left() = &n[1]; x.rising_end_left() = &n[2]; x.falling_end_left() = &n[3];
  x.rising_start_right() = &n[4]; x.falling_start_right() = &n[5]; x.rising_end_right() = &n[6]; x.falling_end_right() = &n[7];
  x.start_left_km_ = kilometrage{1}; x.end_left_km_ = kilometrage{2}; x.start_right_km_ = kilometrage{3}; x.end_right_km_ = kilometrage{4};
  for (int k = 0; k < 8; ++k) if (e.get_km(&n[k]).val_ != k / 2 + 1) return 1; return 0; }""",
     "a neighbour on the falling node of one end of a cross", "its kilometrage is that of the other end")
seed("C06-switch-reverse", "C06",
     [("src/infrastructure/graph/element.cc", "    bool const is_branch = in->element_ == e.rising_branch_neighbour() ||\n                           in->element_ == e.falling_branch_neighbour();",
       "    bool const is_branch = in->element_ == (e.rising_\n                               ? e.rising_branch_neighbour()\n                               : e.falling_branch_neighbour());")],
     EL + """int main() { element e, a, b, c; e.e_ = simple_switch{}; auto& x = e.as<simple_switch>(); x.rising_ = true; a.e_ = simple_switch{}; a.as<simple_switch>().type_ = type::SIMPLE_SWITCH; b.e_ = track_element{}; b.as<track_element>().type_ = type::HALT;
  x.rising_branch_neighbour() = &c; x.falling_branch_neighbour() = &a; node n, i, j; n.element_ = &e; i.element_ = &a; j.element_ = &b; j.next_node_ = &n; n.reverse_edges_.push_back(&i); n.reverse_edges_.push_back(&j); return n.reverse_ahead() == &j ? 0 : 1; }""",
     "a rising switch whose branch leads, in falling direction, to another switch that is listed first", "the reverse direction runs over the branch")
seed("C06-etcs-range", "C06",
     [("include/soro/infrastructure/graph/type.h", "  return type >= type::ETCS_START && type <= type::ETCS_BLOCK_SIGN;", "  return type >= type::ETCS_START && type <= type::FORCED_HALT;")],
     """#include "soro/infrastructure/graph/type.h"
using namespace soro::infra;
int main() { return is_etcs(type::ETCS_START) && is_etcs(type::ETCS_BLOCK_SIGN) && !is_etcs(type::FORCED_HALT) && !is_etcs(type::LZB_BLOCK_SIGN) ? 0 : 1; }""",
     "the type that follows the ETCS types", "forced halts count as ETCS elements")
AL = """#include "prelude.h"
#include "soro/utls/algo/multi_set_merge.h"
#include "soro/utls/algo/overlap.h"
#include "soro/utls/algo/slice.h"
using namespace soro; using V = soro::vector<unsigned>;
"""
seed("C07-multi-merge", "C07",
     [("include/soro/utls/algo/multi_set_merge.h", "      result.emplace_back(*current.first);\n    }\n\n    while", "      result.emplace_back(*current.first);\n    } else if (queue.empty() && result.size() > 1) {\n      break;\n    }\n\n    while")],
     AL + """int main() { V a{1, 5, 9}, b{5}; using I = V::const_iterator; soro::vector<std::pair<I, I>> r; r.push_back({a.begin(), a.end()}); r.push_back({b.begin(), b.end()});
  auto const m = utls::multi_set_merge<V>(r); V c{5, 9}, d{1, 5}; r.clear(); r.push_back({d.begin(), d.end()}); r.push_back({c.begin(), c.end()}); auto const k = utls::multi_set_merge<V>(r);
  auto ok = [](V const& v) { return v.size() == 3 && v[0] == 1 && v[1] == 5 && v[2] == 9; }; return ok(m) && ok(k) ? 0 : 1; }""",
     "the last remaining set starts with an element that has just been merged", "the rest of that set is lost")
seed("C07-overlap-order", "C07",
     [("include/soro/utls/algo/overlap.h", "            [](auto&& a, auto&& b) { return a.idx_ < b.idx_; });\n\n  Container result;", "            [](auto&& a, auto&& b) {\n              return a.idx_ / 2 < b.idx_ / 2;\n            });\n\n  Container result;")],
     AL + """int main() { std::vector<unsigned> a{7, 3, 5}, b{3, 7}; auto const r = utls::get_overlap_non_sorted(a, b); return r.size() == 2 && r[0] == 7 && r[1] == 3 ? 0 : 1; }""",
     "two neighbouring common elements in descending order", "the common elements are not in the order of the first container")
seed("C07-slice-clasp", "C07",
     [("include/soro/utls/algo/slice.h", "constexpr void slice_clasp(soro::vector<T>& v, std::size_t from,\n                           std::size_t to) {\n  from = from > v.size() ? 0 : from;", "constexpr void slice_clasp(soro::vector<T>& v, std::size_t from,\n                           std::size_t to) {\n  from = from >= v.size() ? 0 : from;")],
     AL + """int main() { V v{1, 2, 3}; utls::slice_clasp(v, 3, 9); V w{1, 2, 3}; utls::slice_clasp(w, 4, 2); return v.size() == 0 && w.size() == 2 ? 0 : 1; }""",
     "a range that starts exactly at the end", "the whole vector is kept instead of nothing")
RT = """#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "src/infrastructure/station/station_route.cc"
#include "src/infrastructure/interlocking/interlocking_route.cc"
#include "src/rolling_stock/train_physics.cc"
#include "src/timetable/bitfield.cc"
#include "src/timetable/sequence_point.cc"
#include "src/timetable/train.cc"
using namespace soro; using namespace soro::infra; using namespace soro::tt;
struct probe : infrastructure { static auto access() { return &probe::access_; } };
alignas(infrastructure_t) unsigned char t_raw[sizeof(infrastructure_t)];
alignas(infrastructure) unsigned char i_raw[sizeof(infrastructure)];
infrastructure_t& T() { return *reinterpret_cast<infrastructure_t*>(t_raw); }
infrastructure& I() { return *reinterpret_cast<infrastructure*>(i_raw); }
element E[12]; node N[12]; station_route::path P[4]; station_route R[4];
// 4 station routes with 3 nodes each
void setup() {
  new (&T().station_routes_) decltype(T().station_routes_){}; new (&T().interlocking_.routes_) decltype(T().interlocking_.routes_){};
  I().*probe::access() = &T();
  for (unsigned r = 0; r < 4; ++r) { R[r].id_ = r; R[r].path_ = &P[r]; T().station_routes_.push_back(&R[r]);
    for (unsigned k = 0; k < 3; ++k) { E[3 * r + k].e_ = track_element{}; E[3 * r + k].as<track_element>().type_ = type::EOTD; N[3 * r + k].element_ = &E[3 * r + k]; P[r].nodes_.push_back(&N[3 * r + k]); } }
}
interlocking_route ir(unsigned id, std::initializer_list<unsigned> srs, unsigned a, unsigned b) {
  interlocking_route r; r.id_ = id; for (auto s : srs) r.station_routes_.push_back(s); r.start_offset_ = a; r.end_offset_ = b; return r; }
"""
seed("C08-sub-paths", "C08",
     [("src/infrastructure/interlocking/interlocking_route.cc", "    for (soro::size_t i = 1; i < station_routes_.size() - 1; ++i) {", "    for (soro::size_t i = 1; i + 2 < station_routes_.size(); ++i) {")],
     RT + """int main() { setup(); auto const r = ir(0, {0, 2, 1}, 1, 2); unsigned n = 0; for (auto const s : r.iterate_station_routes(T())) n += s.to_ - s.from_; return n == 7 && r.size(I()) == 7 ? 0 : 1; }""",
     "an interlocking route over at least three station routes", "the sub-paths skip a station route")
seed("C08-break-out", "C08",
     [("src/timetable/train.cc", "            ? t.first_interlocking_route(infra).end_offset_\n            :", "            ? t.first_interlocking_route(infra).end_offset_ -\n                  (t.break_in_ ? 0 : 1)\n            :")],
     RT + """int main() { setup(); T().interlocking_.routes_.push_back(ir(0, {1, 3}, 0, 2)); tt::train t; t.path_.push_back(0); t.break_out_ = true; t.break_in_ = false;
  R[1].passenger_halt_ = node::optional_idx{1}; sequence_point s; s.type_ = sequence_point::type::PASSENGER; s.station_route_ = 1; t.sequence_points_.push_back(s);
  node::ptr last = nullptr; int n = 0; for (auto&& x : t.iterate(I())) { last = x.node_; ++n; } return n == 4 && last == &N[10] ? 0 : 1; }""",
     "a train with a single interlocking route that starts at a halt and breaks out", "its last node is missing")
seed("C08-omitted-start", "C08",
     [("src/infrastructure/station/station_route.cc", "return omitted_idx >= ff_to; });", "return omitted_idx > ff_to; });")],
     RT + """int main() { setup(); R[2].omitted_nodes_.push_back(1); int n = 0, o = 0; for (auto&& x : R[2].from_to(1, 3)) { ++n; o += x.omitted(); } return n == 2 && o == 1 ? 0 : 1; }""",
     "a range that starts at an omitted node", "the node is not marked as omitted")
OG = """#include "src/simulation/ordering/check_exclusion_paths.cc"
#include "src/simulation/ordering/get_cycle.cc"
#include "src/simulation/ordering/remove_transitive_edges.cc"
using namespace soro; using namespace soro::simulation;
static ordering_graph G(unsigned n, std::initializer_list<std::pair<unsigned, unsigned>> e) { ordering_graph g; g.nodes_.resize(n); for (unsigned k = 0; k < n; ++k) g.nodes_[k].id_ = k;
  for (auto [a, b] : e) { g.nodes_[a].out_.push_back(b); g.nodes_[b].in_.push_back(a); } return g; }
"""
seed("C09-long-detour", "C09",
     [("src/simulation/ordering/remove_transitive_edges.cc", "  auto const work_on_edge = [&max_depth](auto&& from, auto&& to) {\n    max_depth[to] = std::max(max_depth[to], max_depth[from] + 1);", "  auto const work_on_edge = [&max_depth](auto&& from, auto&& to) {\n    max_depth[to] = std::max(max_depth[to], max_depth[from] == 1 ? 2U : 1U);")],
     OG + """int main() { auto g = G(4, {{0, 1}, {1, 2}, {2, 3}, {0, 3}}); remove_transitive_edges(g); auto h = G(3, {{0, 1}, {1, 2}, {0, 2}}); remove_transitive_edges(h);
  return g.nodes_[0].out_.size() == 1 && g.nodes_[3].in_.size() == 1 && h.nodes_[0].out_.size() == 1 ? 0 : 1; }""",
     "an edge that is only replaced by a path of at least three edges", "the transitive edge remains")
seed("C09-cycle-dfs", "C09",
     [("src/simulation/ordering/get_cycle.cc", "  utls::bfs(start, get_neighbours, work_on_node, work_on_edge);", "  utls::dfs(start, get_neighbours, work_on_node, work_on_edge);")],
     OG + """int main() { auto g = G(4, {{0, 1}, {0, 2}, {1, 0}, {2, 3}, {3, 0}}); auto const c = get_cycle(g); auto h = G(3, {{0, 1}, {1, 2}}); auto const s = get_shortest_cycle_from_node(0, g);
  return c && c->size() == 2 && s && s->size() == 2 && !get_cycle(h) ? 0 : 1; }""",
     "a node that lies on cycles of different lengths", "a cycle is reported that is not a shortest one")
seed("C09-usage-order", "C09",
     [("src/simulation/ordering/ordering_graph.cc", "    for (auto [from, to] : utl::pairwise(usage_order)) {\n", "    for (auto [from, to] : utl::pairwise(usage_order)) {\n      if (nodes_[from.id_].ir_id_ == nodes_[to.id_].ir_id_ &&\n          to.from_ < from.to_) {\n        continue;\n      }\n\n")],
     """#include "src/simulation/ordering/ordering_graph.cc"
#include "src/simulation/ordering/remove_transitive_edges.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/rolling_stock/train_physics.cc"
#include "src/timetable/bitfield.cc"
#include "src/timetable/sequence_point.cc"
#include "src/timetable/train.cc"
using namespace soro; using namespace soro::simulation;
struct ip : infra::infrastructure { static auto access() { return &ip::access_; } };
struct tp : tt::timetable { static auto access() { return &tp::access_; } };
alignas(infra::infrastructure_t) unsigned char t_raw[sizeof(infra::infrastructure_t)];
alignas(infra::infrastructure) unsigned char i_raw[sizeof(infra::infrastructure)];
alignas(tt::timetable) unsigned char tt_raw[sizeof(tt::timetable)];
namespace soro::runtime { timestamps runtime_calculation(tt::train const& t, infra::infrastructure const&, infra::type_set const&) {
  timestamps ts; relative_time const x{t.id_ == 0 ? 600U : 500U}; ts.times_.emplace_back(x, x, nullptr); return ts; } }
int main() {
  auto& T = *reinterpret_cast<infra::infrastructure_t*>(t_raw); auto& I = *reinterpret_cast<infra::infrastructure*>(i_raw); auto& TT = *reinterpret_cast<tt::timetable*>(tt_raw);
  tt::base_timetable base; I.*ip::access() = &T; TT.*tp::access() = &base;
  new (&T.exclusion_) decltype(T.exclusion_){}; T.exclusion_.exclusion_sets_.resize(1); T.exclusion_.irs_to_exclusion_sets_.resize(3);
  T.exclusion_.exclusion_sets_[0].push_back(0); T.exclusion_.irs_to_exclusion_sets_[0].push_back(0);
  for (unsigned k = 0; k < 2; ++k) { tt::train t; t.id_ = k; t.path_.push_back(0); t.path_.push_back(1 + k);
    t.service_days_ = tt::make_bitfield(tt::bitfield::anchor_time{date::days{19000}}, tt::bitfield::anchor_time{date::days{19000}}, "1");
    t.sequence_points_.resize(2); t.sequence_points_[0].departure_ = relative_time{100U + 200U * k}; t.sequence_points_[1].arrival_ = relative_time{900U}; base.trains_.push_back(t); }
  ordering_graph const og(I, TT);
  bool found = false; for (auto const b : og.nodes_[0].out_) found |= b == 2; return og.nodes_.size() == 4 && found ? 0 : 1; }""",
     "two trips whose usages of the same route overlap in time", "they are not ordered")

_iv = open(os.path.join(V, "contracts", "intervals.cc")).read()
TK = "\n".join(l for l in _iv[:_iv.index("// the limits between consecutive nodes")].split("\n") if '"vc.h"' not in l).replace("#include <cmath>", "#include <cmath>\n#include <memory>\n#include <vector>") + "}\nstatic type_set const KINDS{type::HALT, type::MAIN_SIGNAL, type::EOTD, type::SPEED_LIMIT};\n"
seed("C10-append-limit", "C10",
     [("include/soro/runtime/interval.h", "    limit_right_ = o.limit_right_;", "    limit_right_ = std::min(limit_right_, o.limit_right_);")],
     TK + """int main() { track x({{'H', 0}, {'S', 200, 5}, {'M', 500}, {'S', 500, 20}, {'|', 0}, {'H', 2500}}, 40.0); auto const l = get_interval_list(x.t, KINDS, x.w.infra());
  return l.size() == 4 && l[2].limit_right_.val_ == 20.0 && l[1].limit_right_.val_ == 5.0 ? 0 : 1; }""",
     "a main signal and a higher speed limit at the same place", "the higher speed limit is lost")
seed("C10-signal-limit", "C10",
     [("src/runtime/interval.cc", "    if (last_ms_idx < list.size() - 1) {", "    if (last_ms_idx + 2 < list.size()) {")],
     TK + """int main() { track x({{'H', 0}, {'M', 500}, {'h', 600}, {'H', 700}, {'L', 800, 5}, {'|', 0}, {'M', 1900}, {'H', 2500}}, 40.0);
  track y({{'H', 0}, {'M', 300}, {'S', 350, 17}, {'L', 400, 5}, {'M', 700}, {'|', 0}, {'H', 1500}}, 40.0);
  for (auto* t : {&x, &y}) { auto const l = get_interval_list(t->t, KINDS, t->w.infra()); for (std::size_t i = 1; i < l.size(); ++i) if (l[i].limit_left_.val_ != l[i - 1].limit_right_.val_) return 1; }
  return 0; }""",
     "a speed limit from the last signal with one more border between the signal and the speed limit", "the limits on both sides of the last interval differ")
seed("C10-stand-time", "C10",
     [("src/runtime/runtime.cc", "      current.time_ += relative_to_si_time(stand_time);", "      current.time_ += relative_to_si_time(\n          std::min<relative_time>(stand_time, interval.min_stop_time() * 2));")],
     TK + """int main() { track x({{'H', 0}, {'M', 500}, {'|', 0}, {'H', 600}, {'M', 700}, {'|', 0}, {'E', 1400}, {'H', 1500}}, 40.0);
  x.t.sequence_points_[1].departure_ = relative_time{37000}; auto const ts = runtime_calculation(x.t, x.w.infra(), KINDS);
  for (std::size_t i = 3; i < ts.times_.size(); ++i) if (ts.times_[i].arrival_.count() < 37000) return 1; return 0; }""",
     "a halt in the middle at which the train waits much longer than its minimum stop time", "the train arrives at the next places before it departs")
NT = "#include <memory>\n#include <vector>\n" + open(os.path.join(V, "contracts", "net.h")).read().replace('#pragma once\n', '').replace('#include "vc.h"\n', '') + '''
#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/infrastructure/line.cc"
#include "src/infrastructure/interlocking/get_interlocking.cc"
#include "src/infrastructure/interlocking/interlocking_route.cc"
#include "src/infrastructure/station/station_route.cc"
#include "src/infrastructure/station/station_route_graph.cc"
using namespace soro; using namespace soro::infra; using net::network;
soro::infra::infrastructure::infrastructure(infrastructure_t const* t) { this->access_ = t; }
'''
seed("C11-last-signal", "C11",
     [("src/infrastructure/interlocking/get_interlocking.cc", "                           : route->path_->main_signals_.front() + 1;\n      routes.emplace_back", "                           : route->path_->main_signals_.back() + 1;\n      routes.emplace_back")],
     NT + """int main() { network w(8); w.is(1, type::MAIN_SIGNAL); w.is(5, type::MAIN_SIGNAL); w.is(6, type::MAIN_SIGNAL); w.add({0, 1, 2, 3}); w.add({4, 5, 6, 7}); w.follows(0, 1);
  auto const irs = get_interlocking_routes(w.infra()); for (auto const& ir : irs) if (ir.station_routes_.size() == 2) return ir.end_offset_ == 2 && ir.start_offset_ == 1 ? 0 : 1; return 2; }""",
     "an interlocking route that ends in a station route with several main signals", "the interlocking route passes main signals")
seed("C11-etcs-end", "C11",
     [("src/infrastructure/interlocking/get_interlocking.cc", "    if (route->requires_etcs(lines)) {\n      return;\n    }\n\n    ir.station_routes_", "    if (route->path_->main_signals_.empty() && route->requires_etcs(lines)) {\n      return;\n    }\n\n    ir.station_routes_")],
     NT + """int main() { network w(9); w.is(1, type::MAIN_SIGNAL); w.is(4, type::MAIN_SIGNAL); w.add({0, 1, 2}); w.add({3, 4, 5}); w.add({6, 7, 8}); w.follows(0, 1); w.follows(1, 2); w.p[1]->etcs_starts_.push_back(1);
  line l; l.id_ = 1; l.segments_.resize(1); l.segments_[0].from_ = si::from_km(0.0); l.segments_[0].to_ = si::from_km(9.0); l.segments_[0].etcs_ = true; w.t().lines_.emplace(line::id{1}, l);
  for (int j = 0; j < 9; ++j) { w.e[j].as<track_element>().line_ = 1; w.e[j].as<track_element>().km_ = si::from_km(1.0); }
  for (auto const& ir : get_interlocking_routes(w.infra())) if (ir.station_routes_.size() > 1) return 1; return 0; }""",
     "a station route that requires ETCS and contains a main signal, as the last of an interlocking route", "an interlocking route leads into a track without signalling")
seed("C11-freight-halt", "C11",
     [("src/infrastructure/interlocking/get_interlocking.cc", "      if (freight_halt.has_value()) {\n        handle_halt_node(*freight_halt);", "      if (freight_halt.has_value() &&\n          sub_path.contains(passenger_halt.has_value() ? *passenger_halt\n                                                       : *freight_halt)) {\n        handle_halt_node(*freight_halt);")],
     NT + """int main() { network w(5); w.is(2, type::MAIN_SIGNAL); auto& r = w.add({0, 1, 2, 3, 4}); r.passenger_halt_ = node::optional_idx{node::idx{1}}; r.freight_halt_ = node::optional_idx{node::idx{3}};
  auto const il = get_interlocking(w.t()); int n = 0; for (auto const& ir : il.routes_) n += ir.start_offset_ <= 3 && ir.end_offset_ > 3; return n > 0 && il.halting_at_[3].size() == static_cast<std::size_t>(n) ? 0 : 1; }""",
     "passenger and freight halt of a station route in different interlocking routes", "the freight halt is not found")

NT12 = NT.replace("using namespace soro; using namespace soro::infra;", '''#include "src/timetable/parsers/route_transform_error.cc"
#include "src/timetable/parsers/station_route_to_interlocking_route.cc"
#include "src/timetable/sequence_point.cc"
using namespace soro; using namespace soro::infra; using namespace soro::tt;''', 1) + '''
// one route of four nodes per station, main signals at the given nodes
void line_of(network& w, int stations, std::initializer_list<int> signals, int passenger, int freight) {
  for (int s : signals) w.is(s, type::MAIN_SIGNAL);
  for (int s = 0; s < stations; ++s) {
    w.add({4 * s, 4 * s + 1, 4 * s + 2, 4 * s + 3});
    w.r[s]->passenger_halt_ = node::optional_idx{static_cast<node::idx>(passenger)};
    w.r[s]->freight_halt_ = node::optional_idx{static_cast<node::idx>(freight)};
  }
  for (int s = 0; s + 1 < stations; ++s) w.follows(s, s + 1);
  w.t().interlocking_ = get_interlocking(w.t());
}
stop_sequence stops(unsigned from, unsigned to) {
  stop_sequence ss; ss.break_in_ = false; ss.break_out_ = false;
  for (unsigned k = from; k <= to; ++k) { sequence_point p; p.station_route_ = k; p.type_ = k == from || k == to ? sequence_point::type::PASSENGER : sequence_point::type::TRANSIT; if (k == from || k == to) p.departure_ = relative_time{1000}; ss.points_.push_back(p); }
  return ss;
}
'''
TF = "src/timetable/parsers/station_route_to_interlocking_route.cc"
seed("C12-enters-earlier", "C12",
     [(TF, "        utls::find_position(prefix_ir.station_routes_, first_sr->id_) - 1;", "        utls::find_position(prefix_ir.station_routes_, first_sr->id_);")],
     NT12 + """int main() { network w(16); line_of(w, 4, {1, 9, 13}, 2, 3); auto const r = transform_to_interlocking(stops(1, 3), rs::FreightTrain::NO, w.infra());
  return r.has_value() && r->path_.size() == 3 && r->sequence_points_.size() == 2 ? 0 : 1; }""",
     "a train that starts in an interlocking route that began in an earlier station", "the path of the train misses an interlocking route")
seed("C12-freight-end", "C12",
     [(TF, "    if (ss.points_.back().is_halt()) {\n      last_stop_sequence_node = last_sr->get_halt_idx(freight).value();", "    if (ss.points_.back().is_halt()) {\n      last_stop_sequence_node =\n          last_sr->get_halt_idx(rs::FreightTrain::NO).value();")],
     NT12 + """int main() { network w(16); line_of(w, 3, {1, 6}, 1 + 0, 3); w.r[1]->passenger_halt_ = node::optional_idx{node::idx{1}}; w.t().interlocking_.halting_at_ = get_halting_at(w.t().interlocking_.routes_, w.infra());
  auto const r = transform_to_interlocking(stops(0, 1), rs::FreightTrain::YES, w.infra()); return r.has_value() && r->path_.size() == 2 && r->sequence_points_.size() == 2 ? 0 : 1; }""",
     "a freight train whose last halt lies behind a signal that follows the passenger halt", "the path ends in front of the last halt of the train")
seed("C12-beyond-end", "C12",
     [(TF, "            current_ir->station_routes_.size() >\n        stop_sequence.points_.size()) {", "            current_ir->station_routes_.size() >\n        stop_sequence.points_.size() + 1) {")],
     NT12 + """int main() { network w(16); line_of(w, 3, {1, 6, 8}, 3, 3); auto const r = transform_to_interlocking(stops(0, 1), rs::FreightTrain::NO, w.infra());
  return r.has_value() && r->path_.size() == 2 && r->sequence_points_.size() == 2 ? 0 : 1; }""",
     "the last interlocking route of a train leads one station route beyond its last one and ends there at a low position", "the train is rejected or gets further interlocking routes")
NT13 = NT.replace('#include "src/infrastructure/station/station_route_graph.cc"\n', '''#include "src/infrastructure/station/station_route_graph.cc"
#include <thread>
#include "src/infrastructure/exclusion/exclusion_elements.cc"
#include "src/infrastructure/exclusion/exclusion_set.cc"
#include "src/infrastructure/exclusion/get_exclusion_graph.cc"
namespace std { struct fake_thread { template <typename F, typename... A> fake_thread(F&& f, A&&... a) { f(a...); } void join() {} static unsigned hardware_concurrency() { return 4; } }; }
#define thread fake_thread
#include "src/infrastructure/exclusion/get_exclusion.cc"
#undef thread
''') + '''
soro::vector<interlocking_route::ids> soro::infra::read_cliques(std::filesystem::path const&) { return {}; }
void sections(network& w, std::initializer_list<std::initializer_list<unsigned>> ss) {
  auto& g = w.t().graph_; g.sections_.resize(ss.size()); g.element_id_to_section_ids_.resize(NET_NODES); unsigned k = 0;
  for (auto const& s : ss) { for (auto e : s) { g.sections_[k].rising_order_.emplace_back(&w.e[e]); g.element_id_to_section_ids_[e].emplace_back(k); }
    for (auto i = s.size(); i > 0; --i) g.sections_[k].falling_order_.emplace_back(&w.e[*(s.begin() + i - 1)]); ++k; }
}
void switch_at(network& w, int j) { w.e[j].e_ = simple_switch{}; w.e[j].as<simple_switch>().type_ = type::SIMPLE_SWITCH; w.e[j].as<simple_switch>().id_ = static_cast<element_id>(j); }
void signal_at(network& w, int j, bool rising) { w.is(j, type::MAIN_SIGNAL); w.e[j].as<track_element>().rising_ = rising; }
'''
EX = "src/infrastructure/exclusion/exclusion_elements.cc"
seed("C13-one-section", "C13",
     [(EX, "  } else if (last_element->is_track_element()) {", "  } else if (last_element->is(type::MAIN_SIGNAL)) {")],
     NT13 + """int main() { network w(4); w.e[3].e_ = simple_element{}; w.e[3].as<simple_element>().type_ = type::BORDER; w.e[3].as<simple_element>().id_ = 3; w.is(1, type::HALT); w.e[1].as<track_element>().rising_ = false; signal_at(w, 2, false); sections(w, {{0, 1, 2, 3}});
  w.add({3, 2, 1}); w.add_ir({0}, 0, 3); auto const c = get_closed_exclusion_elements(w.infra()); return c.size() == 1 && c[0].size() == 3 ? 0 : 1; }""",
     "a route in one section in falling direction from the border of the section to a halt", "exclusion elements are missing or wrong")
seed("C13-inner-section", "C13",
     [(EX, "  for (auto i = 1U; i < used_sections.size() - 1; ++i) {", "  for (auto i = 2U; i < used_sections.size(); ++i) {")],
     NT13 + """int main() { network w(11); for (int j : {0, 1, 5, 9, 10}) w.is(j, type::EOTD); switch_at(w, 2); switch_at(w, 4); switch_at(w, 8); for (int j : {1, 3, 5, 6, 7, 9}) signal_at(w, j, true);
  sections(w, {{0, 1, 2}, {2, 3, 4}, {4, 5, 6, 7, 8}, {8, 9, 10}}); w.add({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}); w.add_ir({0}, 1, 7); auto const c = get_closed_exclusion_elements(w.infra()); return c[0].size() == 6 ? 0 : 1; }""",
     "a route that runs through at least one complete section and ends inside the last one", "elements of the inner section are missing and elements behind the end are included")
seed("C13-batches", "C13",
     [("src/infrastructure/exclusion/get_exclusion.cc", "t_id == thread_count - 1 ? ir_count : ((t_id + 1) * batch_size);", "t_id == ir_count - 1 ? ir_count : ((t_id + 1) * batch_size);")],
     NT13 + """int main() { soro::vector<element::ids> c(6); for (auto& x : c) x.push_back(0); auto const u = get_closed_element_used_by(c, 1); return u[0].size() == 6 ? 0 : 1; }""",
     "a number of routes that the number of threads does not divide", "the last routes are not listed at their elements")
seed("C13-follower", "C13",
     [("src/infrastructure/exclusion/get_exclusion_graph.cc", "                infra->interlocking_.ending_at_[ir.first_node(infra)->id_]);", "                infra->interlocking_.starting_at_[ir.first_node(infra)->id_]);")],
     NT13 + """int main() { network w(5); w.add({0, 1, 2, 3, 4}); w.add_ir({0}, 0, 3); w.add_ir({0}, 0, 2); auto& il = w.t().interlocking_; il.starting_at_.resize(5); il.ending_at_.resize(5); il.starting_at_[0] = {0, 1}; il.ending_at_[2] = {0}; il.ending_at_[1] = {1};
  soro::vector<element::ids> c(2); c[0] = {0, 1, 2}; c[1] = {0, 1}; soro::vector<interlocking_route::ids> u(5); u[0] = {0, 1}; u[1] = {0, 1}; u[2] = {0}; auto const g = get_exclusion_graph(c, u, w.infra()); return g.nodes_[0][1] && g.nodes_[1][0] ? 0 : 1; }""",
     "two routes that start at the same signal", "routes that share elements do not exclude each other")
