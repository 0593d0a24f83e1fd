// C03: points in time and durations.
#include "vc.h"
#include "soro/base/time.h"
#include "soro/utls/unixtime.h"
#include "src/utls/unixtime.cc"
using namespace soro;

namespace {
absolute_time at(std::uint32_t const s) { return absolute_time{i32_seconds{s}}; }
std::uint32_t secs(absolute_time const t) { return t.time_since_epoch().count(); }
constexpr std::uint32_t DAY = 86400;
using soro::utls::unixtime;
using dur = soro::utls::duration;
constexpr time_t LIM = time_t{1} << 40;
}  // namespace

VC_CONTRACT(C03, midnight_floor) {
  auto const t = vc::any<std::uint32_t>("t");
  auto const m = secs(midnight(at(t)));
  vc::check(m % DAY == 0 && m <= t && t - m < DAY, "midnight() is the latest midnight that is not after the given time");
  vc::check(midnight(midnight(at(t))) == midnight(at(t)), "midnight() of a midnight is the same");
}

VC_CONTRACT(C03, relative_absolute) {
  auto const a = vc::any<std::uint32_t>("anchor"), r = vc::any<std::uint32_t>("relative");
  vc::assume(static_cast<std::uint64_t>(a) + r <= 0xffffffffU);
  auto const x = relative_to_absolute(at(a), relative_time{r});
  vc::check(secs(x) == a + r, "relative_to_absolute() is the anchor plus the offset");
  vc::check(absolute_to_relative(at(a), x).count() == r, "absolute_to_relative() inverts relative_to_absolute()");
  auto const y = vc::any<std::uint32_t>("absolute");
  vc::assume(y >= a);
  vc::check(absolute_to_relative(at(a), at(y)).count() == y - a, "absolute_to_relative() is the distance from the anchor");
  vc::check(relative_to_absolute(at(a), absolute_to_relative(at(a), at(y))) == at(y), "relative_to_absolute() inverts absolute_to_relative()");
}

VC_CONTRACT(C03, rep_round_trip) {
  auto const t = vc::any<std::uint32_t>("t");
  vc::check(absolute_time_to_rep(rep_to_absolute_time(t)) == t, "rep -> time -> rep");
  vc::check(rep_to_absolute_time(absolute_time_to_rep(at(t))) == at(t), "time -> rep -> time");
  vc::check(rep_to_absolute_time(t) == at(t), "the representation counts seconds since the epoch");
}

VC_CONTRACT(C03, validity) {
  auto const t = vc::any<std::uint32_t>("t");
  vc::check(valid(at(t)) == (t != 0xffffffffU), "exactly the maximal absolute time is invalid");
  vc::check(valid(relative_time{t}) == (t != 0xffffffffU), "exactly the maximal relative time is invalid");
  vc::check(!valid(INVALID<absolute_time>) && !valid(INVALID<relative_time>), "the invalid values are invalid");
}

VC_CONTRACT(C03, calendar_midnight) {
  // the calendar arithmetic itself belongs to the date library
  auto const ymd = date::year{vc::range<int>("year", 1970, 2105)} / static_cast<unsigned>(vc::range<int>("month", 1, 12)) /
                   static_cast<unsigned>(vc::range<int>("day", 1, 28));
  auto const d = date::sys_days{ymd}.time_since_epoch().count();
  vc::assume(d >= 0 && d <= 49709);
  vc::check(secs(ymd_to_abs(ymd)) == static_cast<std::uint32_t>(d) * DAY, "a calendar date starts at its midnight");
}

VC_CONTRACT(C03, unix_interval) {
  unixtime const t{vc::any<time_t>("t")}, a{vc::any<time_t>("a")}, b{vc::any<time_t>("b")};
  vc::check(t.in_interval(a, b) == (a.t_ <= t.t_ && t.t_ <= b.t_), "in_interval() is membership in the closed interval");
}

VC_CONTRACT(C03, unix_arithmetic) {
  auto const x = vc::range<time_t>("x", 0, LIM), y = vc::range<time_t>("y", 0, LIM);
  unixtime const t{x}, u{y};
  dur const d{y};
  vc::check((t + u).t_ == x + y && (t - u).t_ == x - y && (t + d).t_ == x + y && (t - d).t_ == x - y, "plus and minus");
  unixtime v = t;
  v += u;
  vc::check(v.t_ == x + y, "+= adds");
  vc::check(t.as_duration().d_ == x, "as_duration() counts seconds since the epoch");
  vc::check(static_cast<time_t>(t) == x && static_cast<std::size_t>(t) == static_cast<std::size_t>(x), "conversion to seconds");
  vc::check((t + d) - d == t, "minus undoes plus");
}

VC_CONTRACT(C03, unix_arithmetic_negative) {
  auto const x = vc::range<time_t>("x", 0, 2 * LIM) - LIM, y = vc::range<time_t>("y", 0, 2 * LIM) - LIM;
  unixtime const t{x};
  dur const d{y}, e{x};
  vc::check((t + d).t_ == x + y && (t - d).t_ == x - y && (e + d).d_ == x + y && (e - d).d_ == x - y, "plus and minus with negative values");
}

VC_CONTRACT(C03, unix_product) {
  auto const x = vc::range<time_t>("x", 0, 100000), y = vc::range<time_t>("y", 1, 100000);
  unixtime const t{x}, u{y};
  vc::check((t * u).t_ == x * y, "times");
  vc::check((t / u).t_ == x / y && (t % u).t_ == x % y, "quotient and remainder");
  dur const a{x}, b{y};
  vc::check((a * b).d_ == x * y && (a / b).d_ == x / y && (a % b).d_ == x % y, "the same for durations");
}

VC_CONTRACT(C03, unix_order) {
  auto const x = vc::any<time_t>("x"), y = vc::any<time_t>("y");
  unixtime const t{x}, u{y};
  vc::check((t < u) == (x < y) && (t <= u) == (x <= y) && (t > u) == (x > y) && (t >= u) == (x >= y), "order of points in time");
  vc::check((t == u) == (x == y) && (t != u) == (x != y), "equality of points in time");
  dur const a{x}, b{y};
  vc::check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a == b) == (x == y), "order of durations");
  vc::check((t == y) == (x == y) && (t < y) == (x < y) && (t >= y) == (x >= y), "comparison with seconds");
}

VC_CONTRACT(C03, duration_arithmetic) {
  auto const x = vc::range<time_t>("x", 0, LIM), y = vc::range<time_t>("y", 0, LIM);
  dur a{x};
  auto& r = a += dur{y};
  vc::check(a.d_ == x + y && &r == &a, "+= adds");
  auto& q = a -= dur{y};
  vc::check(a.d_ == x && &q == &a, "-= undoes +=");
  vc::check((dur{x} + dur{y}).d_ == x + y && (dur{x} - dur{y}).d_ == x - y, "plus and minus");
  vc::check(static_cast<time_t>(a) == x && static_cast<std::size_t>(a) == static_cast<std::size_t>(x), "conversion to seconds");
}

VC_CONTRACT(C03, duration_units) {
  auto const x = vc::range<time_t>("x", 0, LIM);
  vc::check(soro::utls::from_seconds(x).d_ == x, "seconds");
  vc::check(soro::utls::from_minutes(x).d_ == 60 * x, "a minute has 60 seconds");
  vc::check(soro::utls::from_hours(x).d_ == 3600 * x, "an hour has 3600 seconds");
  vc::check(soro::utls::from_days(x).d_ == 86400 * x, "a day has 86400 seconds");
  auto const u = static_cast<unsigned long long>(x);
  using namespace soro::utls::literals;
  vc::check(operator""_s(u).d_ == x && operator""_m(u).d_ == 60 * x && operator""_h(u).d_ == 3600 * x, "literals");
}

VC_CONTRACT(C03, unix_validity) {
  auto const x = vc::any<time_t>("x");
  vc::check(soro::utls::valid(unixtime{x}) == (x != std::numeric_limits<time_t>::max()), "exactly the maximal time is invalid");
  vc::check(soro::utls::valid(dur{x}) == (x != std::numeric_limits<time_t>::max()), "exactly the maximal duration is invalid");
  vc::check(!soro::utls::valid(unixtime{}) && !soro::utls::valid(dur{}), "default values are invalid");
  vc::check(soro::utls::EPOCH.t_ == 0 && soro::utls::ZERO_DURATION.d_ == 0 && !soro::utls::valid(soro::utls::INVALID_TIME) &&
                !soro::utls::valid(soro::utls::INVALID_DURATION) && soro::utls::END_OF_TIME >= unixtime{x}, "constants");
}
