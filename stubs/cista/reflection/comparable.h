#pragma once
// cista's macro compares all members lexicographically; the defaulted comparison is the same function
#include <tuple>
#include "cista/reflection/vc_arity.h"
#define CISTA_COMPARABLE()                                                                                \
  template <typename VcT> bool operator==(VcT const& b) const { return ::cista::vc_tie(*this) == ::cista::vc_tie(b); } \
  template <typename VcT> bool operator!=(VcT const& b) const { return ::cista::vc_tie(*this) != ::cista::vc_tie(b); } \
  template <typename VcT> bool operator<(VcT const& b) const { return ::cista::vc_tie(*this) < ::cista::vc_tie(b); }   \
  template <typename VcT> bool operator>(VcT const& b) const { return ::cista::vc_tie(*this) > ::cista::vc_tie(b); }   \
  template <typename VcT> bool operator<=(VcT const& b) const { return ::cista::vc_tie(*this) <= ::cista::vc_tie(b); } \
  template <typename VcT> bool operator>=(VcT const& b) const { return ::cista::vc_tie(*this) >= ::cista::vc_tie(b); }
