// Force-included before every source.  The project is written for g++ 12; this makes clang + libstdc++ 13 accept it:
// standard headers that g++ 12 pulls in transitively, and std::vector of an incomplete element type as a data member.
#pragma once
#include <memory>
#include <string>
#include <string_view>
#if !defined(VC_STD_VECTOR)
#pragma push_macro("_GLIBCXX20_CONSTEXPR")
#undef _GLIBCXX20_CONSTEXPR
#define _GLIBCXX20_CONSTEXPR
#include <bits/stl_vector.h>
#include <bits/stl_uninitialized.h>
#define __fill_a1 vc_bvector_fill_a1
#include <bits/stl_bvector.h>
#undef __fill_a1
#include <bits/vector.tcc>
#pragma pop_macro("_GLIBCXX20_CONSTEXPR")
#endif
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <tuple>
#include <unordered_map>
#include <thread>
#include <utility>
#include <vector>
