// Contract language used by the harnesses in this directory.
//
// A contract is a function VC_CONTRACT(<property>, <name>) that introduces universally quantified inputs
// (vc::any / vc::range / vc::arr), states the precondition (vc::assume), calls the REAL code of /repo, and states
// the postcondition (vc::check).  The verifier (vc/*.py) proves every vc::check - and the absence of out-of-bounds
// accesses, traps and unexpected exceptions on the way - for all inputs.  The same source compiled natively
// (-DVC_NATIVE) replays a counterexample against the real code or searches for one.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

extern "C" {
std::uint64_t vc_nondet(const char* name, unsigned bits);
double vc_nondet_double(const char* name);
void vc_wide_raw(const char* name, void* dst, unsigned bits);
void vc_assume(bool);
void vc_assert(bool, const char* name);
void vc_cover(const char* name, bool);
void vc_throws_only_if(bool);
void* vc_array_raw(const char* name, std::uint64_t stride, std::uint64_t* n, std::uint64_t maxn);
void vc_array_field(void* arr, unsigned off, unsigned width);
void vc_forall_elem(void* arr, bool (*pred)(const void*, void*), void* ctx);
void vc_forall_pair(void* arr, bool (*pred)(const void*, const void*, void*), void* ctx);
void vc_invariant(bool (*)());
void vc_atom(bool);
void vc_ghost(std::uint64_t);
void vc_term(std::uint64_t, unsigned);
std::uint64_t vc_result(unsigned bits);
void vc_init_globals(const char* prefix);  // runs the dynamic initialisers of the globals prefix...
#if defined(VC_NATIVE)
std::uint64_t vc_native_range(const char* name, std::uint64_t lo, std::uint64_t hi, int is_signed);
std::uint64_t vc_native_len(const char* name, std::uint64_t maxn);
bool vc_native_replaying();
std::uint64_t vc_native_field(const char* name, std::uint64_t i, unsigned off, unsigned width);
void vc_native_setfield(const char* name, std::uint64_t i, unsigned off, unsigned width, std::uint64_t v);
void vc_register(const char* prop, const char* name, void (*fn)());
#endif
}

namespace vc {

template <typename T>
T from_bits(std::uint64_t const v) {
  if constexpr (std::is_same_v<T, bool>) {
    return (v & 1U) != 0U;
  } else {
    return static_cast<T>(v);
  }
}

// an arbitrary value of integral/enum type T
template <typename T>
T any(const char* name) {
  static_assert(std::is_integral_v<T> || std::is_enum_v<T>);
  if constexpr (std::is_same_v<T, bool>) {
    return (vc_nondet(name, 1) & 1U) != 0U;
  } else {
    return from_bits<T>(vc_nondet(name, sizeof(T) * 8));
  }
}

// an arbitrary 64k-bit word, e.g. a bit set
template <typename T>
T wide(const char* name) {
  T t{};
  vc_wide_raw(name, &t, sizeof(T) * 8);
  return t;
}

inline void assume(bool const b) { vc_assume(b); }
inline void check(bool const b, const char* name) { vc_assert(b, name); }
inline void cover(const char* name, bool const b = true) { vc_cover(name, b); }
// index of interest: universally quantified facts about earlier loop iterations are instantiated here
inline void ghost(std::uint64_t const i) { vc_ghost(i); }
// candidate invariant of the loops executed from here on, over the state of harness objects; it is used only where it
// is proved to hold on entry and to be preserved by every iteration
inline void invariant(bool (*f)()) { vc_invariant(f); }
// exceptions may leave the code under contract only if cond holds
inline void throws_only_if(bool const cond) { vc_throws_only_if(cond); }

// an arbitrary value in [lo, hi]
template <typename T>
T range(const char* name, T const lo, T const hi) {
#if defined(VC_NATIVE)
  return from_bits<T>(vc_native_range(name, static_cast<std::uint64_t>(lo), static_cast<std::uint64_t>(hi),
                                      std::is_signed_v<T> ? 1 : 0));
#else
  T const v = any<T>(name);
  vc_assume(lo <= v && v <= hi);
  return v;
#endif
}

// an unspecified value that a callee used through its contract may return (VC_CALLEE only)
template <typename T>
T result() {
  return from_bits<T>(vc_result(sizeof(T) * 8));
}

struct field {
  unsigned off, width;
};

// an array of arbitrary length (<= maxn if maxn != 0) and arbitrary contents
template <typename T>
struct arr {
  T* p{nullptr};
  std::uint64_t n{0};
  T* begin() const { return p; }
  T* end() const { return p + n; }
  T& operator[](std::uint64_t i) const { return p[i]; }
  std::uint64_t size() const { return n; }

  explicit arr(const char* name, std::uint64_t maxn = 0, std::uint64_t native_max = 6)
      : arr(name, {{0, static_cast<unsigned>(sizeof(T))}}, maxn, native_max) {}

  arr(const char* name, std::initializer_list<field> fields, std::uint64_t maxn = 0, std::uint64_t native_max = 6) {
#if defined(VC_NATIVE)
    n = vc_native_len(name, maxn != 0 && maxn < native_max ? maxn : native_max);
    p = static_cast<T*>(std::malloc(n * sizeof(T)));
    std::memset(static_cast<void*>(p), 0, n * sizeof(T));
    for (std::uint64_t i = 0; i < n; ++i) {
      for (auto const& f : fields) {
        auto const v = vc_native_field(name, i, f.off, f.width);
        std::memcpy(reinterpret_cast<char*>(p + i) + f.off, &v, f.width);
      }
    }
    nm = name;
#else
    p = static_cast<T*>(vc_array_raw(name, sizeof(T), &n, maxn));
    (void)native_max;
    for (auto const& f : fields) vc_array_field(p, f.off, f.width);
#endif
  }

  // precondition: f(a, b) for every element a before b.  In a native search the array is sorted with less first.
  template <typename Less, typename Pred>
  void forall_pair(Less less, Pred pred) const {
#if defined(VC_NATIVE)
    if (!vc_native_replaying()) std::sort(p, p + n, less);
    for (std::uint64_t i = 0; i < n; ++i)
      for (std::uint64_t j = i + 1; j < n; ++j) vc_assume(pred(p[i], p[j]));
#else
    (void)less;
    (void)pred;
    vc_forall_pair(
        p, [](const void* a, const void* b, void*) -> bool {
          return Pred{}(*static_cast<const T*>(a), *static_cast<const T*>(b));
        },
        nullptr);
#endif
  }

  template <typename Pred>
  void forall(Pred) const {
#if defined(VC_NATIVE)
    for (std::uint64_t i = 0; i < n; ++i) vc_assume(Pred{}(p[i]));
#else
    vc_forall_elem(
        p, [](const void* a, void*) -> bool { return Pred{}(*static_cast<const T*>(a)); }, nullptr);
#endif
  }
#if defined(VC_NATIVE)
  const char* nm{nullptr};
#endif
};

// writes a std::vector that views the array (no reallocation; capacity == size)
template <typename T>
void set_vector(std::vector<T>& v, T* first, std::uint64_t n) {
#if defined(VC_NATIVE)
  v.assign(first, first + n);
#else
  T** raw = reinterpret_cast<T**>(&v);
  raw[0] = first;
  raw[1] = first + n;
  raw[2] = first + n;
#endif
}

}  // namespace vc

#if defined(VC_NATIVE)
#define VC_DEFINE(sym, prop, name)                                       \
  static void sym();                                                     \
  namespace {                                                            \
  struct sym##_reg {                                                     \
    sym##_reg() { vc_register(#prop, #name, &sym); }                     \
  } sym##_reg_inst;                                                      \
  }                                                                      \
  static void sym()
#else
#define VC_DEFINE(sym, prop, name) extern "C" void sym()
#endif

// the contract of a function of /repo (given by its symbol): its callers are checked against this, not against the
// body.  Contracts named impl_* in the same file prove the body against it.
#if defined(VC_NATIVE)
#define VC_CALLEE(ret, sym) [[maybe_unused]] static ret vc_callee__##sym
#else
#define VC_CALLEE(ret, sym) extern "C" __attribute__((used)) ret vc_callee__##sym
#endif

// proved for all inputs
#define VC_CONTRACT(prop, name) VC_DEFINE(vc_contract__##prop##__##name, prop, name)
// checked for all inputs within the stated bound only; never counted as proved
#define VC_BOUNDED(prop, name) VC_DEFINE(vc_bounded__##prop##__##name, prop, name)
