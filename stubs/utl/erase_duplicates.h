#pragma once
#include <algorithm>
namespace utl {
template <typename C, typename L, typename E> void erase_duplicates(C& c, L&& l, E&& e) {
  std::sort(std::begin(c), std::end(c), l);
  c.erase(std::unique(std::begin(c), std::end(c), e), std::end(c));
}
template <typename C, typename L> void erase_duplicates(C& c, L&& l) {
  std::sort(std::begin(c), std::end(c), l);
  c.erase(std::unique(std::begin(c), std::end(c)), std::end(c));
}
template <typename C> void erase_duplicates(C& c) {
  std::sort(std::begin(c), std::end(c));
  c.erase(std::unique(std::begin(c), std::end(c)), std::end(c));
}
}
