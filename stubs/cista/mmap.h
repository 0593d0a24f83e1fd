#pragma once
#include <cstddef>
#include <cstdint>
namespace cista {
struct mmap {
  enum class protection { READ, WRITE, MODIFY };
  mmap() = default;
  mmap(char const*, protection = protection::WRITE) {}
  std::uint8_t const* data() const { return nullptr; }
  std::uint8_t const* begin() const { return nullptr; }
  std::uint8_t const* end() const { return nullptr; }
  std::size_t size() const { return 0; }
};
template <typename T> struct buf { T t_; explicit buf(T t) : t_{t} {} };
}  // namespace cista
