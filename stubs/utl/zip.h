#pragma once
#include <iterator>
#include <tuple>
namespace utl {
template <typename A, typename B> struct vc_zip {
  A a_; B b_;
  struct it {
    decltype(std::begin(std::declval<A&>())) i_; decltype(std::begin(std::declval<B&>())) j_;
    bool operator!=(it const& o) const { return i_ != o.i_; }
    it& operator++() { ++i_; ++j_; return *this; }
    auto operator*() const { return std::tuple<decltype(*i_), decltype(*j_)>{*i_, *j_}; }
  };
  it begin() { return {std::begin(a_), std::begin(b_)}; }
  it end() { return {std::end(a_), std::end(b_)}; }
};
template <typename A, typename B> vc_zip<A, B> zip(A&& a, B&& b) { return {std::forward<A>(a), std::forward<B>(b)}; }
}
