#pragma once
// cista::bitvec is not available offline.  This stand-in states its documented behaviour: a resizable bit string in
// 64-bit blocks (out-of-range reads are false, new bits are zero, a shift keeps the size).  ASSUMED for the real dependency.
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <vector>
namespace cista {
struct vc_bitvec {
  using block_t = std::uint64_t;
  using size_type = std::uint32_t;
  static constexpr size_type bits_per_block = 64;
  static constexpr size_type num_blocks(size_type const n) noexcept { return n / 64 + (n % 64 == 0 ? 0 : 1); }
  void resize(size_type const n) {
    size_ = n;
    blocks_.resize(num_blocks(n));
    if (n % 64 != 0) blocks_[n / 64] &= (1ULL << (n % 64)) - 1;
  }
  void set(size_type const i, bool const v = true) noexcept {
    if (i >= size_) __builtin_trap();
    auto const m = std::uint64_t{1} << (i % 64);
    blocks_[i / 64] = v ? (blocks_[i / 64] | m) : (blocks_[i / 64] & ~m);
  }
  bool test(size_type const i) const noexcept { return i < size_ && ((blocks_[i / 64] >> (i % 64)) & 1U) != 0; }
  bool operator[](size_type const i) const noexcept { return test(i); }
  size_type size() const noexcept { return size_; }
  bool empty() const noexcept { return size_ == 0; }
  bool any() const noexcept {
    for (auto const b : blocks_) if (b != 0) return true;
    return false;
  }
  bool none() const noexcept { return !any(); }
  std::size_t count() const noexcept {
    std::size_t n = 0;
    for (auto const b : blocks_) n += static_cast<std::size_t>(__builtin_popcountll(b));
    return n;
  }
  void reset() noexcept { for (auto& b : blocks_) b = 0; }
  vc_bitvec& operator>>=(std::size_t const s) noexcept {
    auto const nb = blocks_.size(), k = s / 64, r = s % 64;
    for (std::size_t i = 0; i < nb; ++i) {
      std::uint64_t v = i + k < nb ? blocks_[i + k] : 0;
      if (r != 0) v = (v >> r) | (i + k + 1 < nb ? blocks_[i + k + 1] << (64 - r) : 0);
      blocks_[i] = v;
    }
    return *this;
  }
  vc_bitvec& operator<<=(std::size_t const s) noexcept {
    auto const nb = blocks_.size(), k = s / 64, r = s % 64;
    for (std::size_t j = nb; j > 0; --j) {
      std::size_t const i = j - 1;
      std::uint64_t v = i >= k ? blocks_[i - k] : 0;
      if (r != 0) v = (v << r) | (i >= k + 1 ? blocks_[i - k - 1] >> (64 - r) : 0);
      blocks_[i] = v;
    }
    if (size_ % 64 != 0) blocks_[size_ / 64] &= (1ULL << (size_ % 64)) - 1;
    return *this;
  }
  bool operator==(vc_bitvec const&) const = default;
  size_type size_{0};
  std::vector<block_t> blocks_;
};
namespace raw { using bitvec = vc_bitvec; }
namespace offset { using bitvec = vc_bitvec; }
}  // namespace cista
