#pragma once
#include <algorithm>
namespace utl { template <typename C, typename V> void erase(C& c, V const& v) { c.erase(std::remove(std::begin(c), std::end(c), v), std::end(c)); } }
