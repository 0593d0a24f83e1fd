#pragma once
#include <iterator>
#include <utility>
namespace utl {
template <typename C> struct vc_pw {
  C c_;
  using base = decltype(std::begin(std::declval<C&>()));
  struct it {
    base a_, b_;
    bool operator!=(it const& o) const { return b_ != o.b_; }
    it& operator++() { ++a_; ++b_; return *this; }
    auto operator*() const { return std::pair<decltype(*a_), decltype(*b_)>{*a_, *b_}; }
  };
  it begin() { auto b = std::begin(c_); return b == std::end(c_) ? it{b, b} : it{b, std::next(b)}; }
  it end() { return {std::end(c_), std::end(c_)}; }
};
template <typename C> vc_pw<C> pairwise(C&& c) { return vc_pw<C>{std::forward<C>(c)}; }
}
