#pragma once
#include <cstddef>
#include <iterator>
#include <tuple>
namespace utl {
template <typename C> struct vc_enum {
  C c_;
  struct it {
    decltype(std::begin(std::declval<C&>())) i_; std::size_t n_;
    bool operator!=(it const& o) const { return i_ != o.i_; }
    it& operator++() { ++i_; ++n_; return *this; }
    auto operator*() const { return std::tuple<std::size_t, decltype(*i_)>{n_, *i_}; }
  };
  it begin() { return {std::begin(c_), 0}; }
  it end() { return {std::end(c_), 0}; }
};
template <typename C> vc_enum<C> enumerate(C&& c) { return vc_enum<C>{std::forward<C>(c)}; }
}
