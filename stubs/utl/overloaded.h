#pragma once
namespace utl { template <typename... F> struct overloaded : F... { using F::operator()...; }; template <typename... F> overloaded(F...) -> overloaded<F...>; }
