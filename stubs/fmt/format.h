#pragma once
// Formatting is outside of every contract: this stand-in keeps the declarations the sources use and drops the text.
#include <iterator>
#include <ostream>
#include <string>
#include <string_view>
#include <stdexcept>
namespace fmt {
struct format_error : std::runtime_error { using std::runtime_error::runtime_error; };
template <typename Char>
struct basic_format_parse_context {
  using iterator = const Char*;
  constexpr iterator begin() const { return nullptr; }
  constexpr iterator end() const { return nullptr; }
};
using format_parse_context = basic_format_parse_context<char>;
struct format_context { char* out() const { return nullptr; } };
template <typename T, typename Char = char> struct formatter {
  constexpr auto parse(format_parse_context& c) { return c.begin(); }
  template <typename C> auto format(T const&, C& c) const { return c.out(); }
};
template <typename... A> std::string format(A&&...) { return {}; }
template <typename O, typename... A> O format_to(O o, A&&...) { return o; }
template <typename... A> void print(A&&...) {}
}  // namespace fmt
