#pragma once
// stand-in for the serialisation part of cista (not available offline); nothing here is executed by the contracts
#include <cstddef>
#include <cstdint>
#include <map>
#include <optional>
#include <type_traits>
#include "cista/hash.h"
#include "cista/mmap.h"
namespace cista {
using offset_t = std::ptrdiff_t;
enum class mode { NONE = 0, WITH_INTEGRITY = 1, DEEP_CHECK = 2 };
template <typename T> constexpr bool is_pointer_v = std::is_pointer_v<T>;
template <typename T> using remove_pointer_t = std::remove_pointer_t<T>;
template <typename Ctx, typename T> void serialize(Ctx&, T const*, offset_t) {}
template <typename Ctx, typename T> void deserialize(Ctx const&, T*) {}
template <typename T> hash_t type_hash(T const&, hash_t h, std::map<hash_t, unsigned>&) { return h; }
}  // namespace cista
