#pragma once
// cista::bitset is not available offline.  This stand-in is its contract: a Size-bit word with the operations of
// cista::bitset (out-of-range reads are false, shifts by >= Size give zero).  ASSUMED for the real dependency.
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <string_view>
namespace cista {
template <std::size_t Size>
struct bitset {
  using word = unsigned _BitInt(Size);
  constexpr bitset() noexcept = default;
  constexpr bitset(std::string_view s) noexcept { set(s); }
  constexpr void set(std::string_view s) noexcept {
    for (std::size_t i = 0; i != std::min(Size, s.size()); ++i) { set(i, s[s.size() - i - 1] != '0'); }
  }
  constexpr void set(std::size_t const i, bool const val = true) noexcept {
    if (i >= Size) { __builtin_trap(); }
    word const m = static_cast<word>(1U) << i;
    w_ = val ? (w_ | m) : (w_ & ~m);
  }
  constexpr void reset() noexcept { w_ = 0; }
  constexpr bool operator[](std::size_t const i) const noexcept { return i < Size && ((w_ >> i) & 1U) != 0; }
  constexpr bool test(std::size_t const i) const noexcept { return (*this)[i]; }
  std::size_t count() const noexcept {
    std::size_t n = 0;
    for (std::size_t k = 0; k < Size; k += 64) n += static_cast<std::size_t>(__builtin_popcountll(static_cast<std::uint64_t>(w_ >> k)));
    return n;
  }
  constexpr std::size_t size() const noexcept { return Size; }
  constexpr bool any() const noexcept { return w_ != 0; }
  constexpr bool none() const noexcept { return w_ == 0; }
  friend constexpr bool operator==(bitset const& a, bitset const& b) noexcept { return a.w_ == b.w_; }
  friend constexpr bool operator!=(bitset const& a, bitset const& b) noexcept { return a.w_ != b.w_; }
  friend constexpr bool operator<(bitset const& a, bitset const& b) noexcept { return a.w_ < b.w_; }
  constexpr bitset& operator&=(bitset const& o) noexcept { w_ &= o.w_; return *this; }
  constexpr bitset& operator|=(bitset const& o) noexcept { w_ |= o.w_; return *this; }
  constexpr bitset& operator^=(bitset const& o) noexcept { w_ ^= o.w_; return *this; }
  constexpr bitset operator~() const noexcept { bitset c; c.w_ = ~w_; return c; }
  friend constexpr bitset operator&(bitset const& a, bitset const& b) noexcept { bitset c{a}; c &= b; return c; }
  friend constexpr bitset operator|(bitset const& a, bitset const& b) noexcept { bitset c{a}; c |= b; return c; }
  friend constexpr bitset operator^(bitset const& a, bitset const& b) noexcept { bitset c{a}; c ^= b; return c; }
  constexpr bitset& operator>>=(std::size_t const s) noexcept { w_ = s >= Size ? 0 : w_ >> s; return *this; }
  constexpr bitset& operator<<=(std::size_t const s) noexcept { w_ = s >= Size ? 0 : w_ << s; return *this; }
  constexpr bitset operator>>(std::size_t const s) const noexcept { bitset c{*this}; c >>= s; return c; }
  constexpr bitset operator<<(std::size_t const s) const noexcept { bitset c{*this}; c <<= s; return c; }
  word w_{0};
};
}  // namespace cista
