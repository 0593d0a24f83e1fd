// C04: narrowing conversions are exact.
#include "vc.h"
#include "soro/utls/narrow.h"

namespace {
template <typename To, typename From>
void one(From const x) {
  using wide = __int128;
  wide const v = x;
  bool const rep = v >= static_cast<wide>(std::numeric_limits<To>::min()) && v <= static_cast<wide>(std::numeric_limits<To>::max());
  vc::check(soro::utls::detail::fits<To>(From{x}) == rep, "fits() iff the target type can represent the value");
  bool const total = static_cast<wide>(std::numeric_limits<From>::min()) >= static_cast<wide>(std::numeric_limits<To>::min()) &&
                     static_cast<wide>(std::numeric_limits<From>::max()) <= static_cast<wide>(std::numeric_limits<To>::max());
  vc::check(soro::utls::detail::is_narrowing<To, From>() == !total, "is_narrowing() iff some value does not fit");
}
template <typename From>
void all() {
  auto const x = vc::any<From>("x");
  one<std::uint8_t>(x);
  one<std::uint16_t>(x);
  one<std::uint32_t>(x);
  one<std::uint64_t>(x);
  one<std::int8_t>(x);
  one<std::int16_t>(x);
  one<std::int32_t>(x);
  one<std::int64_t>(x);
}
// the conversion itself: the same value, or the assertion fails
template <typename To, typename From>
void conv(From const x) {
  using wide = __int128;
  wide const v = x;
  bool const rep = v >= static_cast<wide>(std::numeric_limits<To>::min()) && v <= static_cast<wide>(std::numeric_limits<To>::max());
  vc::throws_only_if(!rep);
  auto const r = soro::utls::narrow<To>(From{x});
  vc::check(rep, "narrow() does not return when the value does not fit");
  vc::check(static_cast<wide>(r) == v, "narrow() keeps the value");
}
template <typename To>
void conv_all() {
  auto const which = vc::range<int>("which", 0, 7);
  auto const x = vc::any<std::uint64_t>("x");
  switch (which) {
    case 0: conv<To>(static_cast<std::uint8_t>(x)); break;
    case 1: conv<To>(static_cast<std::uint16_t>(x)); break;
    case 2: conv<To>(static_cast<std::uint32_t>(x)); break;
    case 3: conv<To>(static_cast<std::uint64_t>(x)); break;
    case 4: conv<To>(static_cast<std::int8_t>(x)); break;
    case 5: conv<To>(static_cast<std::int16_t>(x)); break;
    case 6: conv<To>(static_cast<std::int32_t>(x)); break;
    default: conv<To>(static_cast<std::int64_t>(x)); break;
  }
}
}  // namespace

VC_CONTRACT(C04, fits_from_u8) { all<std::uint8_t>(); }
VC_CONTRACT(C04, fits_from_u16) { all<std::uint16_t>(); }
VC_CONTRACT(C04, fits_from_u32) { all<std::uint32_t>(); }
VC_CONTRACT(C04, fits_from_u64) { all<std::uint64_t>(); }
VC_CONTRACT(C04, fits_from_i8) { all<std::int8_t>(); }
VC_CONTRACT(C04, fits_from_i16) { all<std::int16_t>(); }
VC_CONTRACT(C04, fits_from_i32) { all<std::int32_t>(); }
VC_CONTRACT(C04, fits_from_i64) { all<std::int64_t>(); }
VC_CONTRACT(C04, narrow_to_u8) { conv_all<std::uint8_t>(); }
VC_CONTRACT(C04, narrow_to_u16) { conv_all<std::uint16_t>(); }
VC_CONTRACT(C04, narrow_to_u32) { conv_all<std::uint32_t>(); }
VC_CONTRACT(C04, narrow_to_u64) { conv_all<std::uint64_t>(); }
VC_CONTRACT(C04, narrow_to_i8) { conv_all<std::int8_t>(); }
VC_CONTRACT(C04, narrow_to_i16) { conv_all<std::int16_t>(); }
VC_CONTRACT(C04, narrow_to_i32) { conv_all<std::int32_t>(); }
VC_CONTRACT(C04, narrow_to_i64) { conv_all<std::int64_t>(); }
