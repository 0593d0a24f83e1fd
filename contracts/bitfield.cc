// C01: a bitfield is a set of service days; every operation is checked against that abstract view.
#include "vc.h"
#include "src/timetable/bitfield.cc"
using soro::absolute_time;
using soro::tt::bitfield;
using day = bitfield::anchor_time;
using word = bitfield::bitset::word;
#include "bitfield_callee.h"

namespace {
day mkday(int const d) { return day{date::days{d}}; }
int num(day const d) { return static_cast<int>(d.time_since_epoch().count()); }
std::size_t idx(int const d) { return static_cast<std::size_t>(d); }

// an arbitrary service-day field: first <= last, at most 512 days, bits only inside the covered range
bitfield any_field(const char* first, const char* len, const char* bits, int const lo = -100000,
                   int const hi = 100000, int const maxlen = 512) {
  auto const f = vc::range<int>(first, lo, hi);
  auto const l = vc::range<int>(len, 0, maxlen - 1);
  bitfield b;
  b.first_date_ = mkday(f);
  b.last_date_ = mkday(f + l);
  auto const w = vc::wide<word>(bits);
  word const m = l == 511 ? ~static_cast<word>(0) : ((static_cast<word>(1) << (l + 1)) - 1);
  b.bitset_.w_ = w & m;
  return b;
}

// the abstract set of days
bool has(bitfield const& b, int const d) {
  auto const f = num(b.first_date_);
  auto const l = num(b.last_date_);
  return f <= d && d <= l && ((b.bitset_.w_ >> static_cast<unsigned>(d - f)) & 1U) != 0;
}
bool wf(bitfield const& b) {
  return b.first_date_ <= b.last_date_ && (b.last_date_ - b.first_date_).count() < 512;
}
}  // namespace

VC_CONTRACT(C01, index_operator) {
  auto b = any_field("first", "len", "bits");
  auto d = vc::range<int>("d", -101000, 101000);
  vc::assume(b.first_date_ <= mkday(d) && mkday(d) <= b.last_date_);
  vc::check(b[mkday(d)] == has(b, d), "operator[] reports exactly the days in service");
}

VC_CONTRACT(C01, at_checked) {
  auto b = any_field("first", "len", "bits");
  auto d = vc::range<int>("d", -101000, 101000);
  bool const in = b.first_date_ <= mkday(d) && mkday(d) <= b.last_date_;
  vc::throws_only_if(!in);
  bool const r = b.at(mkday(d));
  vc::check(in, "at() throws for a day outside of the covered range");
  vc::check(r == has(b, d), "at() reports exactly the days in service");
}

VC_CONTRACT(C01, set_day) {
  auto b = any_field("first", "len", "bits");
  auto d = vc::range<int>("d", -101000, 101000);
  auto const v = vc::any<bool>("v");
  auto const q = vc::range<int>("q", -102000, 102000);
  auto const old = b;
  auto const lo = std::min(b.first_date_, mkday(d)), hi = std::max(b.last_date_, mkday(d));
  vc::assume((hi - lo).count() < 512);
  b.set(mkday(d), v);
  vc::check(b.first_date_ == lo && b.last_date_ == hi, "set() covers exactly the old range and the new day");
  vc::check(has(b, q) == (q == d ? v : has(old, q)), "set() changes the given day and no other");
}

VC_CONTRACT(C01, union_days) {
  auto a = any_field("fa", "la", "ba");
  auto b = any_field("fb", "lb", "bb");
  auto const q = vc::range<int>("q", -102000, 102000);
  auto const lo = std::min(a.first_date_, b.first_date_), hi = std::max(a.last_date_, b.last_date_);
  vc::assume((hi - lo).count() < 512);
  auto const r = a | b;
  vc::check(has(r, q) == (has(a, q) || has(b, q)), "a day is in the union iff it is in one of the operands");
  vc::check(r.first_date_ == lo && r.last_date_ == hi, "the union covers both ranges");
  auto c = a;
  auto const s = (c |= b);
  vc::check(c.first_date_ == r.first_date_ && c.last_date_ == r.last_date_ && has(c, q) == has(r, q),
            "|= and | agree");
  vc::check(s.first_date_ == r.first_date_ && s.last_date_ == r.last_date_ && has(s, q) == has(r, q),
            "|= returns the updated set");
}

VC_CONTRACT(C01, equivalent_same_days) {
  auto a = any_field("fa", "la", "ba");
  auto b = any_field("fb", "lb", "bb");
  auto const q = vc::range<int>("q", -102000, 102000);
  vc::ghost(static_cast<std::uint64_t>(static_cast<std::int64_t>(q - num(a.first_date_))));
  vc::ghost(static_cast<std::uint64_t>(static_cast<std::int64_t>(q - num(b.first_date_))));
  if (a.equivalent(b)) {
    vc::check(has(a, q) == has(b, q), "equivalent bitfields have the same service days");
  }
}

VC_CONTRACT(C01, equivalent_complete) {
  // the same set of days, represented over another range
  auto a = any_field("fa", "la", "ba");
  auto const before = vc::range<int>("before", 0, 511);
  auto const after = vc::range<int>("after", 0, 511);
  auto const l = num(a.last_date_) - num(a.first_date_);
  vc::assume(before + l + after < 512);
  auto b = a;
  b.first_date_ = mkday(num(a.first_date_) - before);
  b.last_date_ = mkday(num(a.last_date_) + after);
  b.bitset_.w_ = a.bitset_.w_ << static_cast<unsigned>(before);
  vc::check(a.equivalent(b) && b.equivalent(a), "bitfields with the same service days are equivalent");
}

// ---- iteration over the service days
VC_CONTRACT(C01, impl_next_day) {
  auto b = any_field("first", "len", "bits");
  auto const n = num(b.last_date_) - num(b.first_date_) + 1;
  auto const i = vc::range<int>("i", 0, 511);
  auto const q = vc::range<int>("q", 0, 511);
  vc::assume(i < n);
  vc::ghost(static_cast<std::uint64_t>(q));
  bitfield::iterator it = b.end();
  it.idx_ = static_cast<uint16_t>(i);
  auto& r = ++it;
  vc::check(&r == &it && it.bitfield_ == &b, "increment returns the iterator");
  vc::check(it.idx_ > i && it.idx_ <= n, "increment moves forward and stops at the end");
  vc::check(it.idx_ == n || b.bitset_[it.idx_], "an iterator points to a service day or to the end");
  vc::check(!(i < q && q < it.idx_) || !b.bitset_[idx(q)], "no service day is skipped");
  vc::check(it.idx_ == n || *it == mkday(num(b.first_date_) + it.idx_), "dereferencing yields the day");
}

VC_CONTRACT(C01, impl_iterator) {
  auto b = any_field("first", "len", "bits");
  auto const n = num(b.last_date_) - num(b.first_date_) + 1;
  auto const i = vc::range<int>("i", 0, 512);
  auto const q = vc::range<int>("q", 0, 511);
  vc::assume(i <= n);
  vc::ghost(static_cast<std::uint64_t>(q));
  g_q = q;
  bitfield::iterator const it{&b, static_cast<uint16_t>(i)};
  vc::check(it.bitfield_ == &b && it.idx_ >= i && it.idx_ <= n, "an iterator starts inside the covered range");
  vc::check(it.idx_ == n || b.bitset_[it.idx_], "an iterator starts at a service day or at the end");
  vc::check(!(i <= q && q < it.idx_) || !b.bitset_[idx(q)], "no service day is skipped at the start");
}

VC_CONTRACT(C01, begin_end) {
  auto b = any_field("first", "len", "bits");
  auto const n = num(b.last_date_) - num(b.first_date_) + 1;
  auto const q = vc::range<int>("q", 0, 511);
  g_q = q;
  auto const it = b.begin();
  vc::check(it.idx_ <= n && (it.idx_ == n || b.bitset_[it.idx_]), "begin() is a service day or the end");
  vc::check(!(q < it.idx_) || !b.bitset_[idx(q)], "no service day before begin()");
  vc::check(b.end().idx_ == n, "end() lies behind the last covered day");
  vc::check((it == b.end()) == (it.idx_ == n), "begin() == end() iff there is no service day");
}

VC_CONTRACT(C01, from_time) {
  auto b = any_field("first", "len", "bits", 600, 49000);
  auto const n = num(b.last_date_) - num(b.first_date_) + 1;
  auto const td = vc::range<int>("day", 0, 49709);
  auto const t = static_cast<std::uint32_t>(td) * 86400U + vc::range<std::uint32_t>("second", 0, 86399);
  auto const q = vc::range<int>("q", 0, 511);
  g_q = q;
  auto const it = b.from(absolute_time{soro::i32_seconds{t}});
  auto const f = num(b.first_date_);
  vc::check(it.bitfield_ == &b && it.idx_ <= n, "from() yields a valid iterator");
  vc::check(it.idx_ == n || b.bitset_[it.idx_], "from() points to a service day or to the end");
  vc::check(it.idx_ == n || f + it.idx_ >= td, "from() yields no day before the given time");
  vc::check(!(q < it.idx_ && q < n && f + q >= td) || !b.bitset_[idx(q)], "from() skips no day on or after the given day");
}

VC_CONTRACT(C01, to_time) {
  auto b = any_field("first", "len", "bits", 600, 49000);
  auto const n = num(b.last_date_) - num(b.first_date_) + 1;
  auto const td = vc::range<int>("day", 0, 49709);
  auto const t = static_cast<std::uint32_t>(td) * 86400U + vc::range<std::uint32_t>("second", 0, 86399);
  auto const q = vc::range<int>("q", 0, 511);
  g_q = q;
  auto const it = b.to(absolute_time{soro::i32_seconds{t}});
  auto const f = num(b.first_date_);
  vc::check(it.bitfield_ == &b && it.idx_ <= n, "to() yields a valid iterator");
  vc::check(it.idx_ == n || b.bitset_[it.idx_], "to() points to a service day or to the end");
  vc::check(!(q >= it.idx_ && q < n && f + q <= td) || !b.bitset_[idx(q)],
            "every service day up to and including the given day lies before to()");
  vc::check(!(q < it.idx_ && q < n && f + q > td) || !b.bitset_[idx(q)],
            "no service day after the given day lies before to()");
}

VC_CONTRACT(C01, first_set) {
  auto b = any_field("first", "len", "bits", 0, 49000);
  auto const w = vc::range<int>("w", 0, 511);  // the first service day
  vc::assume(w < num(b.last_date_) - num(b.first_date_) + 1);
  b.bitset_.w_ = ((b.bitset_.w_ >> static_cast<unsigned>(w) | 1U)) << static_cast<unsigned>(w);
  vc::ghost(static_cast<std::uint64_t>(w));
  auto const s = b.first_set_date().time_since_epoch().count();
  vc::check(s == 86400U * static_cast<unsigned>(num(b.first_date_) + w), "first_set_date() is midnight of the first service day");
}

VC_CONTRACT(C01, last_set) {
  auto b = any_field("first", "len", "bits", 0, 49000);
  auto const w = vc::range<int>("w", 0, 511);  // the last service day
  vc::assume(w < num(b.last_date_) - num(b.first_date_) + 1);
  word const one = 1;
  b.bitset_.w_ = (b.bitset_.w_ & ((one << static_cast<unsigned>(w)) - 1)) | (one << static_cast<unsigned>(w));
  vc::ghost(static_cast<std::uint64_t>(w));
  auto const s = b.last_set_date().time_since_epoch().count();
  vc::check(s == 86400U * static_cast<unsigned>(num(b.first_date_) + w), "last_set_date() is midnight of the last service day");
}

VC_BOUNDED(C01, count_days) {
  auto const f = vc::range<int>("first", -100000, 100000);
  bitfield b;
  b.first_date_ = mkday(f);
  b.last_date_ = mkday(f + 11);
  b.bitset_.w_ = static_cast<word>(vc::any<std::uint16_t>("bits") & 0xfffU);
  std::size_t n = 0;
  for (int i = 0; i < 12; ++i) n += has(b, f + i) ? 1U : 0U;
  vc::check(b.count() == n, "count() is the number of service days");
}

VC_CONTRACT(C01, ok_flag) {
  auto b = any_field("first", "len", "bits");
  vc::check(b.ok(), "a field with dates is ok");
  bitfield const e{};
  vc::check(!e.ok(), "a field without dates is not ok");
}

// get_set_days for every subset of the days listed here, in a bitfield that covers all 512 days
VC_BOUNDED(C01, get_set_days) {
  auto const f = vc::range<int>("first", -100000, 100000);
  constexpr int at[] = {0, 1, 63, 64, 300, 511};
  bitfield b;
  b.first_date_ = mkday(f);
  b.last_date_ = mkday(f + 511);
  auto const bits = vc::any<std::uint8_t>("bits");
  for (int i = 0; i < 6; ++i) b.bitset_.w_ |= static_cast<word>((bits >> i) & 1U) << static_cast<unsigned>(at[i]);
  auto const days = b.get_set_days();
  std::size_t k = 0;
  for (int i = 0; i < 6; ++i) {
    if (((bits >> i) & 1U) != 0) {
      vc::check(k < days.size() && days[k] == mkday(f + at[i]), "get_set_days() lists the service days in order");
      ++k;
    }
  }
  vc::check(k == days.size(), "get_set_days() lists nothing else");
}

// make_bitfield for the mask lengths listed here
VC_BOUNDED(C01, from_mask) {
  auto const f = vc::range<int>("first", -100000, 100000);
  auto const q = vc::range<int>("q", -101000, 101000);
#if defined(VC_THOROUGH)
  constexpr int lens[] = {1, 2, 3, 64, 365, 512};
#else
  constexpr int lens[] = {1, 2, 3, 64, 130, 7};
#endif
  auto const which = vc::range<int>("which", 0, 5);
  char mask[513] = {};
  auto const w = vc::wide<word>("mask");
  for (int k = 0; k < 6; ++k) {
    if (k != which) continue;
    for (int i = 0; i < lens[k]; ++i) mask[i] = ((w >> i) & 1U) != 0 ? '1' : '0';
    mask[lens[k]] = 0;
    auto const b = soro::tt::make_bitfield(mkday(f), mkday(f + lens[k] - 1), mask);
    vc::check(b.first_date_ == mkday(f) && b.last_date_ == mkday(f + lens[k] - 1), "make_bitfield covers the given range");
    vc::check(has(b, q) == (f <= q && q < f + lens[k] && ((w >> static_cast<unsigned>(q - f)) & 1U) != 0),
              "character i of the mask decides day first+i");
  }
}
