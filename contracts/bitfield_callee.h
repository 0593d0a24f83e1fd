#pragma once
// Contracts of the service-day iterator, used by its callers instead of the bodies. The bodies are proved against them by
// the impl_bitfield_* contracts.
namespace {
int g_q = 0;  // the day (relative to the first) the quantified part is instantiated at
int count_of(bitfield const& b) { return static_cast<int>((b.last_date_ - b.first_date_).count()) + 1; }
bool day_set(bitfield const& b, int const k) { return b.bitset_[static_cast<std::size_t>(k)]; }
void settled(bitfield const& b, int const from, int const k, bool const strict) {
  vc::assume(k <= count_of(b) && (strict ? k > from : k >= from));
  vc::assume(k == count_of(b) || day_set(b, k));
  vc::assume(!((strict ? g_q > from : g_q >= from) && g_q < k) || !day_set(b, g_q));
}
}  // namespace

VC_CALLEE(bitfield::iterator*, _ZN4soro2tt8bitfield8iteratorppEv)(bitfield::iterator* it) {
  vc::check(it->idx_ < count_of(*it->bitfield_), "++ is not applied to the end of a bitfield");
  int const k = vc::result<std::uint16_t>();
  settled(*it->bitfield_, it->idx_, k, true);
  it->idx_ = static_cast<std::uint16_t>(k);
  return it;
}
VC_CALLEE(void, _ZN4soro2tt8bitfield8iteratorC2EPKS1_t)(bitfield::iterator* it, bitfield const* b, std::uint16_t const i) {
  vc::check(i <= count_of(*b), "a bitfield iterator is created inside the bitfield");
  int const k = vc::result<std::uint16_t>();
  settled(*b, i, k, false);
  it->bitfield_ = b;
  it->idx_ = static_cast<std::uint16_t>(k);
}
