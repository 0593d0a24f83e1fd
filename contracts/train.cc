// C02: the trips of a train: which service days it yields for a query interval, and when its events happen.
#include "vc.h"
#include "src/timetable/bitfield.cc"
#include "src/timetable/sequence_point.cc"
#include "src/timetable/train.cc"
using namespace soro;
using namespace soro::tt;
#include "bitfield_callee.h"
using word = bitfield::bitset::word;
using day = bitfield::anchor_time;

namespace {
day mkday(int const d) { return day{date::days{d}}; }
std::uint32_t secs(absolute_time const t) { return t.time_since_epoch().count(); }
absolute_time at(std::uint32_t const s) { return absolute_time{i32_seconds{s}}; }
constexpr std::uint32_t DAY = 86400;

struct world {
  tt::train t;
  int first, len;
  std::uint32_t dep, arr;
};

// a train with arbitrary service days (1973..2080), an arbitrary number of sequence points and arbitrary times within
// a week; front().departure_ <= back().arrival_
void make(world& w) {
  w.first = vc::range<int>("first", 1000, 40000);
  w.len = vc::range<int>("len", 1, 512);
  w.t.service_days_.first_date_ = mkday(w.first);
  w.t.service_days_.last_date_ = mkday(w.first + w.len - 1);
  auto const b = vc::wide<word>("bits");
  word const m = w.len == 512 ? ~static_cast<word>(0) : ((static_cast<word>(1) << w.len) - 1);
  w.t.service_days_.bitset_.w_ = b & m;
  w.dep = vc::range<std::uint32_t>("departure", 0, 7 * DAY);
  w.arr = vc::range<std::uint32_t>("arrival", 0, 7 * DAY);
  vc::assume(w.dep <= w.arr);
}
void points(world& w, vc::arr<sequence_point> const& sp) {
  vc::assume(sp.n > 0);
  sp[0].departure_ = relative_time{w.dep};
  sp[sp.n - 1].arrival_ = relative_time{w.arr};
  vc::set_vector(w.t.sequence_points_, sp.p, sp.n);
}
constexpr std::initializer_list<vc::field> FIELDS = {{0, 1}, {4, 4}, {8, 4}, {12, 4}, {16, 4}};

bool runs(world const& w, int const q) {
  return w.first <= q && q < w.first + w.len && w.t.service_days_.bitset_[static_cast<std::size_t>(q - w.first)];
}

}  // namespace
// the first service day on or after / strictly after the day of t, or the end
VC_CALLEE(bitfield::iterator, _ZNK4soro2tt8bitfield4fromENSt6chrono10time_pointINS2_3_V212system_clockENS2_8durationIjSt5ratioILl1ELl1EEEEEE)
(bitfield const* b, absolute_time const t) {
  int const d = static_cast<int>(secs(t) / DAY) - static_cast<int>(b->first_date_.time_since_epoch().count());
  int const k = vc::result<std::uint16_t>();
  settled(*b, std::min(std::max(d, 0), count_of(*b)), k, false);
  auto it = b->end();
  it.idx_ = static_cast<std::uint16_t>(k);
  return it;
}
VC_CALLEE(bitfield::iterator, _ZNK4soro2tt8bitfield2toENSt6chrono10time_pointINS2_3_V212system_clockENS2_8durationIjSt5ratioILl1ELl1EEEEEE)
(bitfield const* b, absolute_time const t) {
  int const d = static_cast<int>(secs(t) / DAY) - static_cast<int>(b->first_date_.time_since_epoch().count()) + 1;
  int const k = vc::result<std::uint16_t>();
  settled(*b, std::min(std::max(d, 0), count_of(*b)), k, false);
  auto it = b->end();
  it.idx_ = static_cast<std::uint16_t>(k);
  return it;
}
namespace {

// the events of the trip that starts on day q happen in [q + departure, q + arrival]
bool meets(world const& w, int const q, interval const& i) {
  auto const m = static_cast<std::uint32_t>(q) * DAY;
  return secs(i.start_) <= m + w.arr && m + w.dep <= secs(i.end_);
}
// an arbitrary query interval, given as days and seconds of the day
interval query() {
  auto const sd = vc::range<std::uint32_t>("start_day", 0, 41000), ss = vc::range<std::uint32_t>("start_sec", 0, DAY - 1);
  auto const ed = vc::range<std::uint32_t>("end_day", 0, 41000), es = vc::range<std::uint32_t>("end_sec", 0, DAY - 1);
  interval const i{at(sd * DAY + ss), at(ed * DAY + es)};
  vc::assume(i.valid());
  return i;
}
}  // namespace

VC_CONTRACT(C02, impl_bitfield_next) {
  world w;
  make(w);
  auto const& b = w.t.service_days_;
  auto const q = vc::range<int>("q", 0, 511), k0 = vc::range<int>("k0", 0, 511);
  vc::assume(k0 < w.len);
  vc::ghost(static_cast<std::uint64_t>(q));
  g_q = q;
  bitfield::iterator it = b.end();
  it.idx_ = static_cast<std::uint16_t>(k0);
  auto& r = ++it;
  int const k = it.idx_;
  vc::check(&r == &it && it.bitfield_ == &b, "++ returns the iterator");
  vc::check(k > k0 && k <= w.len && (k == w.len || day_set(b, k)), "++ ends at a later service day or at the end");
  vc::check(!(q > k0 && q < k) || !day_set(b, q), "++ skips no service day");
}

VC_CONTRACT(C02, impl_bitfield_iterator) {
  world w;
  make(w);
  auto const& b = w.t.service_days_;
  auto const q = vc::range<int>("q", 0, 511), k0 = vc::range<int>("k0", 0, 512);
  vc::assume(k0 <= w.len);
  vc::ghost(static_cast<std::uint64_t>(q));
  g_q = q;
  bitfield::iterator const it{&b, static_cast<std::uint16_t>(k0)};
  int const k = it.idx_;
  vc::check(it.bitfield_ == &b, "an iterator refers to its bitfield");
  vc::check(k >= k0 && k <= w.len && (k == w.len || day_set(b, k)), "an iterator starts at a service day or at the end");
  vc::check(!(q >= k0 && q < k) || !day_set(b, q), "an iterator skips no service day at its start");
}

VC_CONTRACT(C02, impl_bitfield_from) {
  world w;
  make(w);
  auto const& b = w.t.service_days_;
  auto const q = vc::range<int>("q", 0, 511);
  auto const d = vc::range<int>("day", 0, 41000);
  auto const t = at(static_cast<std::uint32_t>(d) * DAY + vc::range<std::uint32_t>("second", 0, DAY - 1));
  vc::ghost(static_cast<std::uint64_t>(q));
  g_q = q;
  auto const it = b.from(t);
  int const k = it.idx_, lo = std::min(std::max(d - w.first, 0), w.len);
  vc::check(it.bitfield_ == &b, "from() refers to its bitfield");
  vc::check(k >= lo && k <= w.len && (k == w.len || day_set(b, k)), "from() starts at a service day not before the given day");
  vc::check(!(q >= lo && q < k) || !day_set(b, q), "from() skips no service day");
}

VC_CONTRACT(C02, impl_bitfield_to) {
  world w;
  make(w);
  auto const& b = w.t.service_days_;
  auto const q = vc::range<int>("q", 0, 511);
  auto const d = vc::range<int>("day", 0, 41000);
  auto const t = at(static_cast<std::uint32_t>(d) * DAY + vc::range<std::uint32_t>("second", 0, DAY - 1));
  vc::ghost(static_cast<std::uint64_t>(q));
  g_q = q;
  auto const it = b.to(t);
  int const k = it.idx_, lo = std::min(std::max(d - w.first + 1, 0), w.len);
  vc::check(it.bitfield_ == &b, "to() refers to its bitfield");
  vc::check(k >= lo && k <= w.len && (k == w.len || day_set(b, k)), "to() starts at a service day after the given day");
  vc::check(!(q >= lo && q < k) || !day_set(b, q), "to() skips no service day");
}

VC_CONTRACT(C02, event_interval) {
  world w;
  make(w);
  vc::arr<sequence_point> sp("sps", FIELDS);
  points(w, sp);
  auto const q = vc::range<int>("q", 1000, 41000);
  vc::assume(runs(w, q));
  auto const i = w.t.event_interval(day{date::days{q}});
  vc::check(secs(i.start_) == static_cast<std::uint32_t>(q) * DAY + w.dep, "a trip starts at its anchor day plus its departure");
  vc::check(secs(i.end_) == static_cast<std::uint32_t>(q) * DAY + w.arr, "a trip ends at its anchor day plus its arrival");
  vc::check(w.t.first_departure().count() == w.dep && w.t.last_arrival().count() == w.arr, "first departure, last arrival");
}

VC_CONTRACT(C02, interval_overlap) {
  interval a{at(vc::any<std::uint32_t>("as")), at(vc::any<std::uint32_t>("ae"))};
  interval b{at(vc::any<std::uint32_t>("bs")), at(vc::any<std::uint32_t>("be"))};
  auto const p = at(vc::any<std::uint32_t>("p"));
  vc::check(a.valid() == (secs(a.start_) <= secs(a.end_)), "valid() iff start <= end");
  vc::assume(a.valid() && b.valid());
  bool const o = a.overlaps(b);
  vc::check(o == b.overlaps(a), "overlap is symmetric");
  vc::check(!(a.start_ <= p && p <= a.end_ && b.start_ <= p && p <= b.end_) || o, "intervals with a common point overlap");
  vc::check(!o || (std::max(a.start_, b.start_) <= std::min(a.end_, b.end_)), "overlapping intervals have a common point");
  vc::check(a.overlaps(a) && interval{}.overlaps(a), "every interval overlaps itself and the unbounded one");
}

// --- the departures of a train in an interval
struct search {
  world w;
  interval i{};
  int q = 0, k0 = 0;
  alignas(train::iterator) unsigned char it[sizeof(train::iterator)];
  train::iterator& iter() { return *reinterpret_cast<train::iterator*>(it); }
  int k() { return iter().bitfield_it_.idx_; }
};
search* g = nullptr;
// while a search advances: no trip with events in the interval lies between its start and the current day
bool searching() { return g->k0 <= g->k() && g->k() <= g->w.len; }
bool on_service_day() { return g->k() == g->w.len || runs(g->w, g->w.first + g->k()); }
bool none_skipped() {
  return !(g->k0 <= g->q && g->q < g->k()) || !runs(g->w, g->w.first + g->q) || !meets(g->w, g->w.first + g->q, g->i);
}
bool all_early() {
  return !(g->k0 <= g->q && g->q < g->k()) || !runs(g->w, g->w.first + g->q) ||
         static_cast<std::uint32_t>(g->w.first + g->q) * DAY <= secs(g->i.end_);
}
void start(search& s, vc::arr<sequence_point> const& sp) {
  points(s.w, sp);
  s.i = query();
  s.q = vc::range<int>("q", 0, 511);  // any covered day
  g = &s;
  g_q = s.q;
  vc::ghost(static_cast<std::uint64_t>(s.q));
  vc::invariant(searching);
  vc::invariant(on_service_day);
  vc::invariant(none_skipped);
  vc::invariant(all_early);
}

// begin of the departures in an interval: the first trip whose events happen in the interval
VC_CONTRACT(C02, departures_begin) {
  search s;
  make(s.w);
  vc::arr<sequence_point> sp("sps", FIELDS);
  start(s, sp);
  new (s.it) train::iterator{&s.w.t, s.i, false};
  int const k = s.k();
  vc::check(k <= s.w.len && (k == s.w.len || runs(s.w, s.w.first + k)), "the first trip is a service day or the end");
  vc::check(!(s.q < k) || !runs(s.w, s.w.first + s.q) || !meets(s.w, s.w.first + s.q, s.i),
            "no trip with events in the interval is left out at the start");
  vc::check(k == s.w.len || meets(s.w, s.w.first + k, s.i) || static_cast<std::uint32_t>(s.w.first + k) * DAY > secs(s.i.end_),
            "the first trip has events in the interval");
}

VC_CONTRACT(C02, departures_next) {
  search s;
  make(s.w);
  vc::arr<sequence_point> sp("sps", FIELDS);
  start(s, sp);
  auto const k0 = vc::range<int>("k0", 0, 511);
  vc::assume(k0 < s.w.len && runs(s.w, s.w.first + k0));
  s.k0 = k0 + 1;
  auto& it = s.iter();
  it.train_ = &s.w.t;
  it.interval_ = s.i;
  it.bitfield_it_.bitfield_ = &s.w.t.service_days_;
  it.bitfield_it_.idx_ = static_cast<std::uint16_t>(k0);
  vc::check(*it == at(static_cast<std::uint32_t>(s.w.first + k0) * DAY), "a departure is the midnight of its service day");
  auto& r = ++it;
  vc::check(&r == &it, "increment returns the iterator");
  int const k = s.k();
  vc::check(k > k0 && k <= s.w.len && (k == s.w.len || runs(s.w, s.w.first + k)), "the next trip is a later service day or the end");
  vc::check(!(k0 < s.q && s.q < k) || !runs(s.w, s.w.first + s.q) || !meets(s.w, s.w.first + s.q, s.i),
            "no trip with events in the interval is skipped");
  vc::check(k == s.w.len || meets(s.w, s.w.first + k, s.i) || static_cast<std::uint32_t>(s.w.first + k) * DAY > secs(s.i.end_),
            "the next trip has events in the interval");
}

VC_CONTRACT(C02, departures_end) {
  search s;
  make(s.w);
  vc::arr<sequence_point> sp("sps", FIELDS);
  start(s, sp);
  new (s.it) train::iterator{&s.w.t, s.i, true};
  int const k = s.k();
  vc::check(k <= s.w.len && (k == s.w.len || runs(s.w, s.w.first + k)), "the end is a service day or the end of the bitfield");
  vc::check(k == s.w.len || static_cast<std::uint32_t>(s.w.first + k) * DAY > secs(s.i.end_), "trips from the end on start after the interval");
  vc::check(!(s.q < k) || !runs(s.w, s.w.first + s.q) || static_cast<std::uint32_t>(s.w.first + s.q) * DAY <= secs(s.i.end_),
            "the end is the first service day after the interval");
}
