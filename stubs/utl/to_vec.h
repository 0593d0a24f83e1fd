#pragma once
#include <iterator>
#include <type_traits>
#include <utility>
#include <vector>
namespace utl {
template <typename C, typename F> auto to_vec(C&& c, F&& f) {
  std::vector<std::decay_t<decltype(f(*std::begin(c)))>> r;
  for (auto&& x : c) r.emplace_back(f(x));
  return r;
}
template <typename It, typename F> auto to_vec(It b, It e, F&& f) {
  std::vector<std::decay_t<decltype(f(*b))>> r;
  for (; b != e; ++b) r.emplace_back(f(*b));
  return r;
}
template <typename C> auto to_vec(C&& c) {
  std::vector<std::decay_t<decltype(*std::begin(c))>> r;
  for (auto&& x : c) r.emplace_back(x);
  return r;
}
}
