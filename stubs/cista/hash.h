#pragma once
#include <cstdint>
#include <map>
#include <string_view>
namespace cista {
using hash_t = std::uint64_t;
constexpr hash_t BASE_HASH = 14695981039346656037ULL;
constexpr hash_t hash_combine(hash_t h) { return h; }
template <typename H, typename... Hs>
constexpr hash_t hash_combine(hash_t h, H const v, Hs... vs) {
  return hash_combine((h ^ static_cast<hash_t>(v)) * 1099511628211ULL, vs...);
}
constexpr hash_t hash(std::string_view s, hash_t h = BASE_HASH) {
  for (auto const c : s) h = (h ^ static_cast<std::uint64_t>(static_cast<unsigned char>(c))) * 1099511628211ULL;
  return h;
}
template <typename T> struct hashing;
}  // namespace cista
