#pragma once
#include <ostream>
namespace utl {
struct vc_null { template <typename T> vc_null const& operator<<(T const&) const { return *this; } };
constexpr int info = 0, warn = 1, err = 2, debug = 3;
}
#define uLOG(x) ::utl::vc_null{}
