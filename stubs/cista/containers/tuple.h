#pragma once
#include <tuple>
#include <utility>
namespace cista {
template <typename... T> struct tuple : std::tuple<T...> { using std::tuple<T...>::tuple; };
template <std::size_t I, typename... T> auto& get(tuple<T...>& t) { return std::get<I>(static_cast<std::tuple<T...>&>(t)); }
template <std::size_t I, typename... T> auto const& get(tuple<T...> const& t) { return std::get<I>(static_cast<std::tuple<T...> const&>(t)); }
template <typename T> constexpr std::size_t tuple_size_v = std::tuple_size_v<T>;
template <std::size_t I, typename T> using tuple_element_t = std::tuple_element_t<I, T>;
}
