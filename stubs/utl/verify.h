#pragma once
// stand-in for utl: verify throws iff the condition is false, fail builds the exception to throw (message not formatted)
#include <stdexcept>
namespace utl {
template <typename S, typename... A> [[nodiscard]] std::runtime_error fail(S const&, A&&...) { return std::runtime_error("fail"); }
template <typename S, typename... A> void verify(bool const c, S const&, A&&...) { if (!c) throw std::runtime_error("verify"); }
template <typename E, typename S, typename... A> void verify_ex(bool const c, E const& e) { if (!c) throw e; }
}  // namespace utl
