#pragma once
// structured-binding based field access of aggregates (what cista::to_tuple does)
#include <tuple>
#include <type_traits>
#include <utility>
namespace cista {
struct vc_anything { template <typename T> operator T() const; };
template <typename T, typename... A> concept vc_brace = requires { T{std::declval<A>()...}; };
template <typename T, typename... A> constexpr std::size_t vc_arity() {
  if constexpr (vc_brace<T, A..., vc_anything>) { return vc_arity<T, A..., vc_anything>(); } else { return sizeof...(A); }
}
template <typename T> auto vc_tie(T const& t) {
  constexpr auto n = vc_arity<std::remove_cvref_t<T>>();
  static_assert(n <= 10);
  if constexpr (n == 0) { return std::tie(); }
  else if constexpr (n == 1) { auto const& [a0] = t; return std::tie(a0); }
  else if constexpr (n == 2) { auto const& [a0,a1] = t; return std::tie(a0,a1); }
  else if constexpr (n == 3) { auto const& [a0,a1,a2] = t; return std::tie(a0,a1,a2); }
  else if constexpr (n == 4) { auto const& [a0,a1,a2,a3] = t; return std::tie(a0,a1,a2,a3); }
  else if constexpr (n == 5) { auto const& [a0,a1,a2,a3,a4] = t; return std::tie(a0,a1,a2,a3,a4); }
  else if constexpr (n == 6) { auto const& [a0,a1,a2,a3,a4,a5] = t; return std::tie(a0,a1,a2,a3,a4,a5); }
  else if constexpr (n == 7) { auto const& [a0,a1,a2,a3,a4,a5,a6] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6); }
  else if constexpr (n == 8) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7); }
  else if constexpr (n == 9) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8); }
  else if constexpr (n == 10) { auto const& [a0,a1,a2,a3,a4,a5,a6,a7,a8,a9] = t; return std::tie(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9); }
}
}  // namespace cista
