#pragma once
#include <iterator>
namespace utl { template <typename A, typename B> A& concat(A& a, B const& b) { a.insert(std::end(a), std::begin(b), std::end(b)); return a; } }
