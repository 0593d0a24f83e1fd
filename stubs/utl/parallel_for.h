#pragma once
#include <cstddef>
// sequential contract of the parallel loop: every index / element is processed exactly once
namespace utl {
template <typename F> void parallel_for_run(std::size_t n, F&& f) { for (std::size_t i = 0; i < n; ++i) f(i); }
template <typename C, typename F> void parallel_for(C&& c, F&& f) { for (auto&& x : c) f(x); }
template <typename C, typename F> void parallel_for(char const*, C&& c, std::size_t, F&& f) { for (auto&& x : c) f(x); }
}
