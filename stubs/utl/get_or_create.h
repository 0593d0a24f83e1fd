#pragma once
namespace utl {
template <typename M, typename K, typename F> auto& get_or_create(M& m, K const& k, F&& f) {
  auto it = m.find(k);
  if (it != m.end()) return it->second;
  return m[k] = f();
}
}
