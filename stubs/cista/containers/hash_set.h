#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <vector>
namespace cista {
// finite set with the interface used by soro (an unordered vector of distinct keys)
template <typename K>
struct hash_set {
  hash_set() = default;
  hash_set(std::initializer_list<K> l) { for (auto const& k : l) insert(k); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto find(K const& k) const {
    auto it = v_.begin();
    while (it != v_.end() && !(*it == k)) ++it;
    return it;
  }
  std::pair<typename std::vector<K>::const_iterator, bool> insert(K const& k) {
    auto it = find(k);
    if (it != v_.end()) return {it, false};
    v_.push_back(k);
    return {v_.end() - 1, true};
  }
  template <typename... A> auto emplace(A&&... a) { return insert(K{std::forward<A>(a)...}); }
  bool contains(K const& k) const { return find(k) != v_.end(); }
  std::size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void clear() { v_.clear(); }
  std::vector<K> v_;
};
namespace raw { using cista::hash_set; }
namespace offset { using cista::hash_set; }
}  // namespace cista
