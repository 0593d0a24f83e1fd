#pragma once
#include <array>
#include <cstddef>
namespace cista {
// same interface and layout as cista::array: an aggregate-like fixed array (a C array inside)
template <typename T, std::size_t Size>
struct array : public std::array<T, Size> {
  constexpr array() : std::array<T, Size>{} {}
  template <typename... U>
    requires(sizeof...(U) > 0 && sizeof...(U) <= Size && (std::is_convertible_v<U, T> && ...))
  constexpr array(U&&... u) : std::array<T, Size>{{static_cast<T>(std::forward<U>(u))...}} {}
};
namespace raw { using cista::array; }
namespace offset { using cista::array; }
}  // namespace cista
