#pragma once
#include <utility>
#include <variant>
namespace cista {
// cista::variant with member as<T>() / apply()
template <typename... T>
struct variant : public std::variant<T...> {
  using std::variant<T...>::variant;
  template <typename U> U& as() { return *std::get_if<U>(static_cast<std::variant<T...>*>(this)); }
  template <typename U> U const& as() const { return *std::get_if<U>(static_cast<std::variant<T...> const*>(this)); }
  template <typename F> decltype(auto) apply(F&& f) { return std::visit(std::forward<F>(f), static_cast<std::variant<T...>&>(*this)); }
  template <typename F> decltype(auto) apply(F&& f) const { return std::visit(std::forward<F>(f), static_cast<std::variant<T...> const&>(*this)); }
};
template <typename U, typename... T> bool holds_alternative(variant<T...> const& v) {
  return std::holds_alternative<U>(static_cast<std::variant<T...> const&>(v));
}
template <typename U, typename... T> U const& get(variant<T...> const& v) { return v.template as<U>(); }
template <typename U, typename... T> U& get(variant<T...>& v) { return v.template as<U>(); }
namespace raw { using cista::variant; using cista::holds_alternative; using cista::get; }
namespace offset { using cista::variant; using cista::holds_alternative; using cista::get; }
}  // namespace cista
