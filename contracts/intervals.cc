// C10: running time intervals, speed limits and timestamps of a train.
#include "vc.h"
#include <cmath>
#include <cstdio>
#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/infrastructure/station/station_route.cc"
#include "src/infrastructure/interlocking/interlocking_route.cc"
#include "src/rolling_stock/train_physics.cc"
#include "src/timetable/bitfield.cc"
#include "src/timetable/sequence_point.cc"
#include "src/timetable/train.cc"
#include "src/runtime/runtime_physics.cc"
#include "src/runtime/interval.cc"
#define BORDER_TYPES BORDER_TYPES_OF_RUNTIME
#include "src/runtime/runtime.cc"
#undef BORDER_TYPES
using namespace soro;
using namespace soro::infra;
using namespace soro::tt;
using namespace soro::runtime;

namespace {
struct probe : infrastructure {
  static auto access() { return &probe::access_; }
};
struct world {
  alignas(infrastructure_t) unsigned char t_raw[sizeof(infrastructure_t)];
  alignas(infrastructure) unsigned char i_raw[sizeof(infrastructure)];
  infrastructure_t& t() { return *reinterpret_cast<infrastructure_t*>(t_raw); }
  infrastructure& infra() { return *reinterpret_cast<infrastructure*>(i_raw); }
  world() {
    new (&t().station_routes_) decltype(t().station_routes_){};
    new (&t().interlocking_.routes_) decltype(t().interlocking_.routes_){};
    new (&t().graph_.element_data_) decltype(t().graph_.element_data_){};
    new (&t().defaults_.stationary_speed_limit_) si::speed{7.0};
    infra().*probe::access() = &t();
  }
  ~world() {
    std::destroy_at(&t().station_routes_);
    std::destroy_at(&t().interlocking_.routes_);
    std::destroy_at(&t().graph_.element_data_);
  }
};
constexpr double DEFAULT_LIMIT = 7.0;
constexpr int MAXI = 16, MAXR = 3;

// one node of the line: H halt of the train, h another halt, M main signal, E end of a train detector,
// S speed limit from here, L speed limit from the last signal, s/l: those that do not affect the train,
// x/y: additional speed limit of the station route at an end of a train detector, from here / from the last signal,
// o: omitted speed limit, |: the next station route starts
struct item {
  char k;
  double at;      // kilometrage [m]
  double limit{};
};
struct track {
  world w;
  element e[MAXI], before[3];
  node n[MAXI], n_before[3];
  station_route::path p[MAXR];
  station_route r[MAXR];
  tt::train t;
  item items[MAXI];
  int count{0}, first{-1}, last{-1};
  track(std::initializer_list<item> const list, double const max_speed, double const decel = -0.7, double const force = 100000.0) {
    for (int j = 0; j < MAXI; ++j) w.t().graph_.element_data_.emplace_back();
    w.t().station_routes_.resize(MAXR);
    w.t().interlocking_.routes_.resize(2);
    auto& ir = w.t().interlocking_.routes_[1];
    ir.id_ = 1;
    t.path_.push_back(1);
    int sr = 0;
    for (int j = 0; j < MAXR; ++j) {
      r[j].id_ = static_cast<unsigned>(j);
      r[j].path_ = &p[j];
      w.t().station_routes_[static_cast<std::size_t>(j)] = &r[j];
    }
    ir.station_routes_.push_back(0);
    for (auto const& i : list) {
      if (i.k == '|') {
        ir.station_routes_.push_back(static_cast<unsigned>(++sr));
        continue;
      }
      int const c = count++;
      items[c] = i;
      e[c].e_ = track_element{};
      auto& te = e[c].as<track_element>();
      te.id_ = static_cast<unsigned>(c);
      te.km_ = kilometrage{i.at};
      te.type_ = i.k == 'H' || i.k == 'h' ? type::HALT : i.k == 'M' ? type::MAIN_SIGNAL : i.k == 'E' || i.k == 'x' || i.k == 'y' ? type::EOTD : type::SPEED_LIMIT;
      n[c].id_ = static_cast<unsigned>(c);
      n[c].element_ = &e[c];
      node::idx const idx = static_cast<node::idx>(p[sr].nodes_.size());
      p[sr].nodes_.push_back(&n[c]);
      if (te.type_ == type::SPEED_LIMIT || i.k == 'x' || i.k == 'y') {
        speed_limit s;
        s.type_ = i.k == 's' ? speed_limit::type::SPECIAL_ALLOWED : speed_limit::type::GENERAL_ALLOWED;
        s.effects_ = i.k == 'l' ? speed_limit::effects::LZB_ETCS : i.limit > 9.0 ? speed_limit::effects::ALL : speed_limit::effects::CONVENTIONAL;
        s.poa_ = i.k == 'L' || i.k == 'l' || i.k == 'y' ? speed_limit::poa::LAST_SIGNAL : speed_limit::poa::HERE;
        s.limit_ = si::speed{i.limit};
        s.node_ = &n[c];
        if (te.type_ == type::SPEED_LIMIT)
          w.t().graph_.element_data_[static_cast<std::size_t>(c)] = s;
        else
          r[sr].extra_speed_limits_.push_back(s);
      }
      if (i.k == 'o') r[sr].omitted_nodes_.push_back(idx);
      if (i.k == 'H') {
        r[sr].passenger_halt_ = node::optional_idx{idx};
        sequence_point sp;
        sp.type_ = sequence_point::type::PASSENGER;
        sp.station_route_ = static_cast<unsigned>(sr);
        sp.departure_ = relative_time{first < 0 ? 36000 : 0};
        sp.arrival_ = relative_time{first < 0 ? 36000 : 0};
        sp.min_stop_time_ = duration2{30};
        t.sequence_points_.push_back(sp);
        if (first < 0) first = c;
        last = c;
      }
    }
    // the track before the first station route; it ends somewhere
    for (int j = 0; j < 3; ++j) {
      before[j].e_ = track_element{};
      auto& te = before[j].as<track_element>();
      te.id_ = static_cast<unsigned>(MAXI + j);
      te.type_ = j == 2 ? type::TRACK_END : type::EOTD;
      n_before[j].element_ = &before[j];
      (j == 0 ? n[0] : n_before[j - 1]).reverse_edges_.push_back(&n_before[j]);
      w.t().graph_.element_data_.emplace_back();
    }
    ir.start_offset_ = 0;
    ir.end_offset_ = static_cast<node::idx>(p[sr].nodes_.size());
    rs::traction_vehicle v;
    v.max_speed_ = si::speed{max_speed};
    v.weight_ = si::from_ton(80.0);
    v.deacceleration_ = si::from_m_s2(decel);
    rs::tractive_piece_t piece;
    piece.piece_.factors_ = {rs::tractive_force_3_t{0.0}, rs::tractive_force_2_t{0.0}, si::force{force}};
    piece.from_ = si::speed{0.0};
    piece.to_ = si::speed{1000.0};
    v.tractive_curve_.pieces_.push_back(piece);
    v.resistance_curve_.factors_ = {rs::drag_coefficient_t{0.0}, rs::dampening_resistance_t{0.0}, si::force{0.0}};
    soro::vector<rs::traction_vehicle> vs;
    vs.push_back(v);
    t.physics_ = rs::train_physics(vs, si::from_ton(400.0), si::from_m(200.0), si::speed{max_speed + 10.0}, rs::CTC::NO, rs::FreightTrain::NO);
  }
  void limit_before(int const j, double const limit, bool const effective) {
    before[j].as<track_element>().type_ = type::SPEED_LIMIT;
    speed_limit s;
    s.type_ = speed_limit::type::GENERAL_ALLOWED;
    s.effects_ = effective ? speed_limit::effects::ALL : speed_limit::effects::LZB_ETCS;
    s.limit_ = si::speed{limit};
    w.t().graph_.element_data_[static_cast<std::size_t>(MAXI + j)] = s;
  }
  bool omitted(int const j) const { return items[j].k == 'o' || items[j].k == 'h'; }
  bool here(int const j) const { return (items[j].k == 'S' || items[j].k == 'x') && items[j].limit > 0.0; }
  bool from_signal(int const j) const { return items[j].k == 'L' || items[j].k == 'y'; }
  double position(int const j) const {
    double d = 0.0;
    for (int k = first + 1; k <= j; ++k) d += std::fabs(items[k].at - items[k - 1].at);
    return d;
  }
};

// the limits between consecutive nodes before they are lowered for braking: limit[j] holds from node j on
struct limits {
  double limit[MAXI];
  explicit limits(track const& x, double const initial) {
    for (auto& l : limit) l = initial;
    for (int j = x.first; j <= x.last; ++j) {
      if (x.omitted(j)) continue;
      if (x.here(j))
        for (int k = j; k < MAXI; ++k) limit[k] = x.items[j].limit;
      if (x.from_signal(j)) {
        int s = j - 1;
        while (s > x.first && x.items[s].k != 'M') --s;
        // until the next speed limit that already applies
        for (int k = s; k < MAXI && (k == s || k > j || !(x.here(k) && !x.omitted(k))); ++k) limit[k] = x.items[j].limit;
        for (int k = s + 1; k <= j; ++k)
          if (x.here(k) && !x.omitted(k))
            for (int m = k; m < MAXI; ++m) limit[m] = limit[k];
      }
    }
  }
};
double brake_distance(track const& x, double const from, double const to) { return from > to ? brake(x.t.physics_, si::speed{from}, si::speed{to}).back().distance_.val_ : 0.0; }

void check_intervals(track& x, double const initial) {
  type_set const events{type::MAIN_SIGNAL, type::EOTD, type::HALT};
  auto const list = get_interval_list(x.t, events, x.w.infra());
  limits const l(x, initial);
  // borders: halts of the train, main signals, effective speed limits from here
  int border[MAXI], m = 0;
  double pos[MAXI];
  for (int j = x.first; j <= x.last; ++j) {
    if (x.omitted(j) || !(x.items[j].k == 'H' || x.items[j].k == 'M' || x.here(j))) continue;
    double const d = x.position(j);
    if (m > 0 && pos[m - 1] == d) {
      border[m - 1] = j;
      continue;
    }
    pos[m] = d;
    border[m++] = j;
  }
  vc::check(list.size() == static_cast<std::size_t>(m), "one interval per border: halts, main signals and effective speed limits");
  double const top = x.t.physics_.max_speed().val_;
  for (int i = 0; i < m && i < static_cast<int>(list.size()); ++i) {
    auto const& in = list[static_cast<std::size_t>(i)];
    vc::check(in.distance_.val_ == pos[i], "an interval ends at its border");
    double const want = l.limit[border[i]];
    vc::check(in.limit_right_.val_ <= want, "no speed above the speed limit in force");
    bool halt = false;
    for (int j = x.first; j <= x.last; ++j)
      if (x.items[j].k == 'H' && x.position(j) == pos[i]) halt = true;
    vc::check(in.is_halt() == halt, "the train stops exactly at its halts");
    if (i + 1 < static_cast<int>(list.size()) && i + 1 < m) {
      auto const& next = list[static_cast<std::size_t>(i + 1)];
      vc::check(next.limit_left_.val_ == in.limit_right_.val_, "the speed limit is the same on both sides of an interval");
      double const from = std::min(in.limit_right_.val_, top), length = pos[i + 1] - pos[i], to = next.target_speed(x.t.physics_).val_;
      vc::check(brake_distance(x, from, to) <= length, "the train can always brake to the next speed limit or halt");
      vc::check(in.limit_right_.val_ == want || brake_distance(x, std::min(from + 1.0, top), to) >= length, "a speed limit is lowered only if the train could not brake in time");
    }
  }
  // events
  int j = x.first;
  for (int i = 0; i < static_cast<int>(list.size()) && i < m; ++i)
    for (auto const& ev : list[static_cast<std::size_t>(i)].events_) {
      while (j <= x.last && (x.omitted(j) || !(x.items[j].k == 'H' || x.items[j].k == 'M' || x.items[j].k == 'E' || x.items[j].k == 'x' || x.items[j].k == 'y'))) ++j;
      vc::check(j <= x.last && ev.node_ == &x.n[j] && ev.distance_.val_ == x.position(j), "every event of the requested types is listed once, in order, at its distance");
      vc::check(ev.distance_.val_ <= pos[i] && (i == 0 || ev.distance_.val_ >= pos[i - 1]), "an event lies in its interval");
      ++j;
    }
  while (j <= x.last && (x.omitted(j) || !(x.items[j].k == 'H' || x.items[j].k == 'M' || x.items[j].k == 'E' || x.items[j].k == 'x' || x.items[j].k == 'y'))) ++j;
  vc::check(j > x.last, "no event is missing");
}
void intervals(std::initializer_list<item> const items, double const initial = DEFAULT_LIMIT, double const max_speed = 40.0) {
  track x(items, max_speed);
  vc::check(get_initial_spl(x.t, x.w.infra()).val_ == initial, "the initial speed limit is the last effective one before the start, or the default");
  check_intervals(x, initial);
}
void init() { vc_init_globals("soro::runtime::"); }
}  // namespace
VC_BOUNDED(C10, intervals_plain) {
  init();
  // halts and signals only
  intervals({{'H', 0}, {'M', 500}, {'|', 0}, {'H', 1500}});
  intervals({{'M', 0}, {'H', 100}, {'E', 300}, {'M', 500}, {'E', 600}, {'|', 0}, {'E', 900}, {'H', 1500}, {'M', 1800}});
  intervals({{'H', 0}, {'h', 200}, {'M', 500}, {'|', 0}, {'H', 900}, {'M', 1200}, {'|', 0}, {'h', 1300}, {'H', 2000}});
}
VC_BOUNDED(C10, intervals_here) {
  init();
  double const a[] = {20.0, 5.0, 12.0};
  for (int f = 0; f < 3; ++f)
    for (int g = 0; g < 3; ++g) {
      intervals({{'H', 0}, {'S', 200, a[f]}, {'M', 500}, {'S', 900, a[g]}, {'|', 0}, {'E', 950}, {'H', 1500}});
      intervals({{'H', 0}, {'x', 200, a[f]}, {'M', 500}, {'|', 0}, {'S', 500, a[g]}, {'E', 500}, {'h', 550}, {'H', 1500}});
    }
  intervals({{'H', 0}, {'o', 200, 15}, {'s', 300, 11}, {'M', 500}, {'S', 500, 0}, {'l', 600, 4}, {'|', 0}, {'H', 1500}});
}
VC_BOUNDED(C10, intervals_signal) {
  init();
  double const a[] = {20.0, 5.0, 12.0};
  for (int f = 0; f < 3; ++f) {
    intervals({{'H', 0}, {'M', 100}, {'M', 300}, {'E', 350}, {'L', 400, a[f]}, {'M', 700}, {'|', 0}, {'H', 1500}});
    intervals({{'H', 0}, {'M', 300}, {'S', 350, 17}, {'L', 400, a[f]}, {'M', 700}, {'y', 800, a[(f + 1) % 3]}, {'|', 0}, {'H', 1500}});
    intervals({{'H', 0}, {'L', 400, a[f]}, {'M', 700}, {'S', 800, 9}, {'|', 0}, {'H', 1500}});
    // a signal at the same place as another border
    intervals({{'H', 0}, {'S', 300, 15}, {'M', 300}, {'L', 400, a[f]}, {'M', 700}, {'|', 0}, {'H', 1500}});
    intervals({{'H', 0}, {'M', 0}, {'L', 400, a[f]}, {'M', 700}, {'|', 0}, {'H', 1500}});
  }
}
VC_BOUNDED(C10, intervals_braking) {
  init();
  // too short to brake from the limit
  intervals({{'H', 0}, {'S', 100, 30}, {'M', 900}, {'M', 1000}, {'M', 1100}, {'|', 0}, {'H', 1200}});
  intervals({{'H', 0}, {'S', 100, 30}, {'M', 900}, {'S', 930, 10}, {'M', 940}, {'|', 0}, {'H', 1000}});
  intervals({{'H', 0}, {'S', 10, 60}, {'M', 500}, {'S', 600, 55}, {'S', 700, 20}, {'|', 0}, {'H', 800}, {'M', 850}, {'|', 0}, {'H', 900}});
  intervals({{'H', 0}, {'S', 1, 12}, {'|', 0}, {'H', 30}, {'M', 31}, {'|', 0}, {'H', 33}});
}
VC_BOUNDED(C10, intervals_initial) {
  init();
  intervals({{'S', 0, 25}, {'S', 100, 20}, {'H', 200}, {'M', 300}, {'|', 0}, {'H', 1500}}, 20.0);
  intervals({{'S', 0, 25}, {'s', 100, 20}, {'E', 150}, {'H', 200}, {'M', 300}, {'|', 0}, {'H', 1500}}, 25.0);
  intervals({{'M', 0}, {'L', 50, 13}, {'l', 100, 20}, {'H', 200}, {'S', 250, 8}, {'|', 0}, {'H', 1500}}, 13.0);
  intervals({{'S', 0, 0}, {'H', 200}, {'M', 300}, {'|', 0}, {'H', 1500}});
  for (int c = 0; c < 9; ++c) {
    // limits on the track before the route: none, effective, not effective for the train
    track x({{'M', 0}, {'E', 100}, {'H', 200}, {'M', 300}, {'|', 0}, {'H', 1500}}, 40.0);
    double want = DEFAULT_LIMIT;
    for (int j = 1, k = c; j >= 0; --j, k /= 3) {
      if (k % 3 == 0) continue;
      x.limit_before(j, 11.0 + j, k % 3 == 1);
      if (k % 3 == 1) want = 11.0 + j;
    }
    vc::check(get_initial_spl(x.t, x.w.infra()).val_ == want, "the initial speed limit is the last effective one before the start, or the default");
    check_intervals(x, want);
  }
}

// timestamps; constant acceleration and deceleration
namespace {
struct profile {
  double v, peak, target, a, d, length, end;  // speeds at the start, at most, at the end
  profile(double const from, double const limit, double const to, double const acc, double const dec, double const len) : v{from}, target{to}, a{acc}, d{dec}, length{len} {
    peak = std::max(limit, v);
    double const reach = std::sqrt((2.0 * a * d * length + d * v * v + a * target * target) / (a + d));
    if (v < limit && reach < peak) peak = reach;
    end = target < peak ? target : peak;
    double const all = std::sqrt(v * v + 2.0 * a * length);
    if (v < limit && all <= peak && all <= target) peak = end = all;
  }
  // time to run x meters
  double at(double const x) const {
    double const up = peak > v ? (peak * peak - v * v) / (2.0 * a) : 0.0, down = peak > end ? (peak * peak - end * end) / (2.0 * d) : 0.0;
    double const hold = std::max(0.0, length - up - down);
    if (x <= up) return (std::sqrt(v * v + 2.0 * a * x) - v) / a;
    double t = peak > v ? (peak - v) / a : 0.0;
    if (x <= up + hold) return t + (x - up) / peak;
    t += hold / peak;
    double const rest = std::max(0.0, peak * peak - 2.0 * d * (x - up - hold));
    return t + (peak - std::sqrt(rest)) / d;
  }
};
void timestamps_of(std::initializer_list<item> const items, std::uint32_t const stop = 0, double const max_speed = 40.0, double const tolerance = 2.0) {
  track x(items, max_speed);
  type_set const events{type::MAIN_SIGNAL, type::EOTD, type::HALT, type::SPEED_LIMIT};
  for (std::size_t s = 1; s + 1 < x.t.sequence_points_.size(); ++s) x.t.sequence_points_[s].departure_ = relative_time{36000 + stop};
  auto const list = get_interval_list(x.t, events, x.w.infra());
  auto const ts = runtime_calculation(x.t, x.w.infra(), events);
  double const acc = 100000.0 / (400000.0 * si::MASS_FACTOR.val_), dec = 0.7;
  std::size_t k = 0, halts = 0, sp = 0;
  double v = 0.0;
  std::uint32_t left = 36000;  // departure at the previous border
  for (std::size_t i = 0; i < list.size(); ++i) {
    auto const& in = list[i];
    double const from = i == 0 ? 0.0 : list[i - 1].distance_.val_;
    profile const p(v, i == 0 ? 0.0 : std::min(in.limit_left_.val_, max_speed), in.target_speed(x.t.physics_).val_, acc, dec, in.distance_.val_ - from);
    std::uint32_t end = left;
    for (auto const& ev : in.events_) {
      vc::check(k < ts.times_.size() && ts.times_[k].element_ == ev.node_->element_, "one timestamp per event, in order of the path");
      if (k >= ts.times_.size()) return;
      auto const arr = ts.times_[k].arrival_.count(), dep = ts.times_[k].departure_.count();
      bool const at_end = ev.distance_.val_ == in.distance_.val_;
      if (ev.type() == type::HALT) {
        vc::check(halts < ts.halt_indices_.size() && ts.halt_indices_[halts] == k, "the halts are indexed");
        ++halts;
      }
      if (i == 0) {
        vc::check(dep == 36000, "the train departs at its planned departure");
      } else {
        double const want = static_cast<double>(left) + p.at(ev.distance_.val_ - from);
        vc::check(static_cast<double>(arr) >= want - tolerance && static_cast<double>(arr) <= want + tolerance, "the arrival follows from distance, speed limits, acceleration and braking");
        vc::check(arr >= left, "no arrival before the last departure");
        if (at_end && in.is_halt()) {
          auto const planned = in.departure().count();
          vc::check(dep == std::max(planned, static_cast<std::uint32_t>(arr + 30)), "the train departs as planned, but not before its minimum stop time is over");
        } else {
          vc::check(dep == arr, "the train does not stop elsewhere");
        }
      }
      if (at_end) end = dep;
      ++k;
    }
    left = end;
    v = in.is_halt() ? 0.0 : p.end;
    sp += in.is_halt() ? 1 : 0;
  }
  vc::check(k == ts.times_.size() && halts == ts.halt_indices_.size() && sp == x.t.sequence_points_.size(), "no other timestamps");
}
}  // namespace
VC_BOUNDED(C10, timestamps_plain) {
  init();
  timestamps_of({{'H', 0}, {'M', 500}, {'|', 0}, {'H', 1500}});
  timestamps_of({{'H', 0}, {'E', 5}, {'E', 200}, {'M', 500}, {'|', 0}, {'E', 1480}, {'E', 1497}, {'H', 1500}});
  timestamps_of({{'M', 0}, {'H', 100}, {'E', 110}, {'S', 200, 20}, {'M', 500}, {'E', 600}, {'|', 0}, {'S', 700, 9}, {'E', 900}, {'H', 1500}});
}
VC_BOUNDED(C10, timestamps_stops) {
  init();
  for (unsigned const stop : {0U, 40U, 400U}) {
    timestamps_of({{'H', 0}, {'M', 500}, {'|', 0}, {'H', 600}, {'M', 650}, {'|', 0}, {'E', 900}, {'H', 1500}}, stop);
    timestamps_of({{'H', 0}, {'E', 0}, {'M', 500}, {'|', 0}, {'E', 600}, {'H', 600}, {'E', 600}, {'M', 600}, {'E', 610}, {'|', 0}, {'E', 900}, {'H', 1500}}, stop);
  }
}
VC_BOUNDED(C10, timestamps_limits) {
  init();
  timestamps_of({{'H', 0}, {'S', 50, 30}, {'M', 900}, {'E', 950}, {'M', 1000}, {'M', 1100}, {'|', 0}, {'H', 1200}});
  timestamps_of({{'H', 0}, {'S', 300, 30}, {'M', 900}, {'S', 930, 10}, {'E', 935}, {'M', 940}, {'|', 0}, {'H', 1000}});
  timestamps_of({{'H', 0}, {'S', 10, 60}, {'M', 1500}, {'E', 1600}, {'S', 2600, 15}, {'|', 0}, {'H', 3800}}, 0, 25.0);
  timestamps_of({{'H', 0}, {'M', 30}, {'S', 31, 25}, {'E', 200}, {'M', 240}, {'S', 300, 24.5}, {'|', 0}, {'E', 400}, {'H', 900}});
}

// driving phases and train physics
namespace {
rs::train_physics physics(std::initializer_list<double> const forces, double const decel, double const tons, double const max_speed) {
  soro::vector<rs::traction_vehicle> vs;
  for (auto const f : forces) {
    rs::traction_vehicle v;
    v.max_speed_ = si::speed{max_speed};
    v.deacceleration_ = si::from_m_s2(decel);
    rs::tractive_piece_t piece;
    piece.piece_.factors_ = {rs::tractive_force_3_t{0.0}, rs::tractive_force_2_t{-500.0}, si::force{f}};
    piece.from_ = si::speed{0.0};
    piece.to_ = si::speed{100.0};
    v.tractive_curve_.pieces_.push_back(piece);
    v.resistance_curve_.factors_ = {rs::drag_coefficient_t{4.0}, rs::dampening_resistance_t{10.0}, si::force{1000.0}};
    vs.push_back(v);
  }
  return rs::train_physics(vs, si::from_ton(tons), si::from_m(100.0), si::speed{max_speed}, rs::CTC::NO, rs::FreightTrain::NO);
}
// samples of one phase: every half second, speeds in one direction
void samples(runtime_results const& rr, double const from, bool const up) {
  vc::check(!rr.empty() && rr[0].time_.val_ == 0.0 && rr[0].distance_.val_ == 0.0 && rr[0].speed_.val_ == from, "a phase starts at its initial speed");
  for (std::size_t i = 1; i < rr.size(); ++i) {
    vc::check(rr[i].time_.val_ == 0.5 * static_cast<double>(i), "one sample every half second");
    vc::check(up ? rr[i].speed_.val_ >= rr[i - 1].speed_.val_ : rr[i].speed_.val_ <= rr[i - 1].speed_.val_, "the speed only rises or only falls in a phase");
    if (i + 1 < rr.size()) vc::check(rr[i].distance_.val_ >= rr[i - 1].distance_.val_, "the train moves ahead");
  }
}
}  // namespace
VC_BOUNDED(C10, phases) {
  for (double const decel : {-0.7, -1.5})
    for (double const from : {33.0, 20.0, 4.25})
      for (double const to : {0.0, 4.0}) {
        auto const rr = brake(physics({1e5}, decel, 300.0, 60.0), si::speed{from}, si::speed{to});
        samples(rr, from, false);
        double const d = (from * from - to * to) / (-2.0 * decel), t = (from - to) / -decel;
        vc::check(rr.back().speed_.val_ == to && std::fabs(rr.back().distance_.val_ - d) < 1e-6, "braking ends at the target speed after the braking distance");
        vc::check(rr.back().time_.val_ >= t && rr.back().time_.val_ < t + 0.5 + 1e-9, "braking takes the change of speed over the deceleration");
      }
  for (double const v : {1.0, 13.0, 27.5})
    for (double const s : {0.1, 50.0, 333.0}) {
      auto const rr = coast(si::speed{v}, si::length{s});
      samples(rr, v, false);
      vc::check(rr.back().speed_.val_ == v && rr.back().distance_.val_ == s, "coasting ends at its distance with the same speed");
      vc::check(rr.back().time_.val_ >= s / v - 1e-9 && rr.back().time_.val_ < s / v + 0.5 + 1e-9, "coasting takes its distance over the speed");
    }
  for (double const from : {0.0, 12.0, 25.0})
    for (double const to : {8.0, 25.0, 60.0})
      for (double const s : {5.0, 120.0, 900.0}) {
        auto const p = physics({60000.0, 50000.0}, -0.7, 250.0, 30.0);
        auto const rr = accelerate(p, si::speed{from}, si::speed{to}, si::length{s});
        samples(rr, from, true);
        double v = from, x = 0.0;
        std::size_t n = 0;
        while (v < std::min(to, 30.0) && x < s) {
          double const w = v + ((110000.0 - 1000.0 * v) - 2.0 * (4.0 * v * v + 10.0 * v + 1000.0)) / (250000.0 * 1.06) * 0.5;
          x += (v + w) / 4.0;
          v = w;
          ++n;
        }
        bool const cut = x > s;
        vc::check(rr.size() == (cut ? n : n + 1), "acceleration ends at the target or maximum speed, or at the end of the distance");
        if (!cut) vc::check(std::fabs(rr.back().speed_.val_ - v) < 1e-6 && std::fabs(rr.back().distance_.val_ - x) < 1e-6, "the acceleration is the force left by the resistance over the weight");
        else vc::check(rr.back().distance_.val_ <= s && rr.back().speed_.val_ <= v, "acceleration does not exceed its distance");
      }
}
namespace {
double number(char const* n, double const lo, double const hi) {
  double const v = vc_nondet_double(n);
  vc::assume(v >= lo && v <= hi);
  return v;
}
}  // namespace
VC_CONTRACT(C10, physics_limits) {
  soro::vector<rs::traction_vehicle> vs;
  double m[2], dec[2];
  for (int j = 0; j < 2; ++j) {
    rs::traction_vehicle v;
    v.max_speed_ = si::speed{m[j] = number("vehicle", 0.0, 200.0)};
    v.deacceleration_ = si::acceleration{dec[j] = number("deceleration", -5.0, -0.1)};
    vs.push_back(v);
  }
  double const top = number("train", 0.0, 200.0), w = number("weight", 1.0, 1e7), len = number("length", 1.0, 1000.0);
  rs::train_physics const p(vs, si::weight{w}, si::length{len}, si::speed{top}, rs::CTC::YES, rs::FreightTrain::YES);
  double const s = p.max_speed().val_;
  vc::check(s <= m[0] && s <= m[1] && s <= top && (s == m[0] || s == m[1] || s == top), "the maximum speed is the lowest one of the train and its vehicles");
  vc::check(p.length().val_ == len && p.deacceleration().val_ == dec[0], "length and deceleration");
  vc::check(static_cast<bool>(p.ctc()) && static_cast<bool>(p.freight()), "kind of the train");
}
namespace {
rs::tractive_curve_t curve(double const (&f)[3][3], double const (&to)[3]) {
  rs::tractive_curve_t c;
  for (int j = 0; j < 3; ++j) {
    rs::tractive_piece_t piece;
    piece.piece_.factors_ = {rs::tractive_force_3_t{f[j][0]}, rs::tractive_force_2_t{f[j][1]}, si::force{f[j][2]}};
    piece.from_ = si::speed{j == 0 ? 0.0 : to[j - 1]};
    piece.to_ = si::speed{to[j]};
    c.pieces_.push_back(piece);
  }
  return c;
}
// which piece is used: for all limits of the pieces and all speeds
void traction(int const piece_of_x) {
  double to[3];
  for (int j = 0; j < 3; ++j) {
    to[j] = number("to", 0.0, 100.0);
    if (j > 0) vc::assume(to[j] >= to[j - 1]);
  }
  double const x = number("speed", 0.0, 100.0);
  for (int k = 0; k < piece_of_x; ++k) vc::assume(!(x < to[k]));
  vc::assume(x < to[piece_of_x]);
  auto const c = curve({{0.0, 0.0, 1000.0}, {0.0, 0.0, 2000.0}, {0.0, 0.0, 3000.0}}, to);
  vc::check(c(si::speed{x}).val_ == 1000.0 * (piece_of_x + 1), "a curve is evaluated with the piece the speed lies in");
}
}  // namespace
VC_CONTRACT(C10, traction_piece_1) { traction(0); }
VC_CONTRACT(C10, traction_piece_2) { traction(1); }
VC_CONTRACT(C10, traction_piece_3) { traction(2); }
VC_BOUNDED(C10, traction_values) {
  constexpr double F[4][3] = {{1.5, -200.0, 90000.0}, {0.0, -1000.0, 80000.0}, {-3.25, 0.5, 61234.5}, {0.0, 0.0, 42.0}};
  for (int a = 0; a < 64; ++a) {
    double const f[3][3] = {{F[a & 3][0], F[a & 3][1], F[a & 3][2]}, {F[(a >> 2) & 3][0], F[(a >> 2) & 3][1], F[(a >> 2) & 3][2]}, {F[a >> 4][0], F[a >> 4][1], F[a >> 4][2]}};
    auto const c = curve(f, {10.0, 20.5, 60.0});
    for (double const x : {0.0, 9.5, 10.0, 20.25, 20.5, 47.125, 59.0}) {
      int const j = x < 10.0 ? 0 : x < 20.5 ? 1 : 2;
      double const d = c(si::speed{x}).val_ - (f[j][0] * x * x + f[j][1] * x + f[j][2]);
      vc::check(d < 1e-6 && d > -1e-6, "the value of a curve is that of the polynomial of its piece");
    }
  }
}
