// C05: an exclusion set is a finite set of ids.
#include "vc.h"
#include "src/infrastructure/exclusion/exclusion_set.cc"
using namespace soro;
using namespace soro::infra;
using id = exclusion_set::value_type;

namespace {
constexpr id B = 64;

// a well-formed set of n blocks that starts at block number blk: the first and the last id lie in the first and in the
// last block, everything in between is arbitrary
void fill(exclusion_set& s, const char* tag, id const blk, int const n) {
  (void)tag;
  s.first_ = blk * B;
  s.last_ = (blk + static_cast<id>(n)) * B - 1;
  s.bits_.resize(static_cast<id>(n) * B);
  auto const f = vc::range<id>("first bit", 0, 63), l = vc::range<id>("last bit", 0, 63);
  for (int k = 0; k < n; ++k) {
    auto w = vc::any<std::uint64_t>("word");
    if (k == 0) w = ((w >> f) | 1U) << f;
    if (k == n - 1) {
      if (n == 1) vc::assume(f <= l);
      auto const top = std::uint64_t{1} << l;
      w = (w & (top - 1)) | top;
      if (n == 1) w |= std::uint64_t{1} << f;
    }
    s.bits_.blocks_[static_cast<std::size_t>(k)] = w;
  }
  s.first_bit_set_ = s.first_ + f;
  s.last_bit_set_ = (blk + static_cast<id>(n) - 1) * B + l;
}
// the abstract set, read from the representation
bool in(exclusion_set const& s, id const q) {
  if (s.bits_.blocks_.empty() || q < s.first_ || q > s.last_) return false;
  return ((s.bits_.blocks_[(q - s.first_) / B] >> (q % B)) & 1U) != 0;
}
// representation invariant
void wf(exclusion_set const& s) {
  if (s.bits_.blocks_.empty()) {
    vc::check(s.empty() && s.first_ == exclusion_set::INVALID_OFFSET && s.last_ == exclusion_set::INVALID_OFFSET, "the empty set has no range");
    return;
  }
  auto const n = static_cast<id>(s.bits_.blocks_.size());
  vc::check(s.first_ % B == 0 && s.last_ == s.first_ + n * B - 1 && s.bits_.size() == n * B, "blocks cover the range");
  vc::check(s.first_ <= s.first_bit_set_ && s.first_bit_set_ < s.first_ + B && s.last_bit_set_ <= s.last_ && s.last_bit_set_ + B > s.last_,
            "the first and the last id lie in the first and in the last block");
  vc::check(in(s, s.first_bit_set_) && in(s, s.last_bit_set_), "the bounds are members");
}
void pair(exclusion_set& a, exclusion_set& b, int const na, int const nb, int const off) {
  auto const base = vc::range<id>("base", 8, 1U << 20);
  fill(a, "a", base, na);
  fill(b, "b", static_cast<id>(static_cast<int>(base) + off), nb);
}
}  // namespace

namespace {
void body_minus(int na, int nb, int off, int copy = 2) {
  exclusion_set a, b;
  pair(a, b, na, nb, off);
  auto const q = vc::any<id>("q");
  bool const x = in(a, q), y = in(b, q);
  auto const c = vc::any<bool>("copy");
  if (copy != 2) vc::assume(c == (copy == 1));
  if (c) {
    auto const d = a - b;
    vc::check(in(d, q) == (x && !y), "an id is in a - b iff it is in a and not in b");
    vc::check(in(a, q) == x && in(b, q) == y, "a - b changes neither operand");
    wf(d);
  } else {
    auto& r = a -= b;
    vc::check(&r == &a, "-= returns the set");
    vc::check(in(a, q) == (x && !y), "an id is in the difference iff it is in the left and not in the right set");
    vc::check(in(b, q) == y, "-= does not change the right set");
    wf(a);
  }
}
void body_union(int na, int nb, int off) {
  exclusion_set a, b;
  pair(a, b, na, nb, off);
  auto const q = vc::any<id>("q");
  bool const x = in(a, q), y = in(b, q);
  auto const d = a | b;
  vc::check(in(d, q) == (x || y), "an id is in a | b iff it is in a or in b");
  vc::check(in(a, q) == x && in(b, q) == y, "a | b changes neither operand");
  wf(d);
  auto& r = a |= b;
  vc::check(&r == &a, "|= returns the set");
  vc::check(in(a, q) == (x || y), "an id is in the union iff it is in one of the sets");
  vc::check(in(b, q) == y, "|= does not change the right set");
  wf(a);
}
// block k (counted from the base of a) of a set that starts at block off
std::uint64_t block(exclusion_set const& s, int const off, int const k) {
  return k < off || k >= off + static_cast<int>(s.bits_.blocks_.size()) ? 0 : s.bits_.blocks_[static_cast<std::size_t>(k - off)];
}
void body_compare(int na, int nb, int off) {
  exclusion_set a, b;
  pair(a, b, na, nb, off);
  bool a_in_b = true, b_in_a = true;
  for (int k = std::min(0, off); k < std::max(na, off + nb); ++k) {
    auto const x = block(a, 0, k), y = block(b, off, k);
    a_in_b = a_in_b && (x & ~y) == 0;
    b_in_a = b_in_a && (y & ~x) == 0;
  }
  auto const r = a.compare(b);
  vc::check((r == std::partial_ordering::equivalent) == (a_in_b && b_in_a), "equivalent iff the sets have the same ids");
  vc::check((r == std::partial_ordering::less) == (a_in_b && !b_in_a), "less iff proper subset");
  vc::check((r == std::partial_ordering::greater) == (!a_in_b && b_in_a), "greater iff proper superset");
  vc::check((r == std::partial_ordering::unordered) == (!a_in_b && !b_in_a), "unordered iff neither contains the other");
  vc::check(a.contains(b) == b_in_a, "contains() iff superset");
}
void body_set(int n, int d) {
  exclusion_set a;
  auto const base = vc::range<id>("base", 8, 1U << 20);
  fill(a, "a", base, n);
  auto const i = static_cast<id>(static_cast<int>(base) + d) * B + vc::range<id>("offset", 0, 63);
  auto const q = vc::any<id>("q");
  bool const x = in(a, q);
  a.set(i);
  vc::check(in(a, q) == (x || q == i), "set() adds the given id and nothing else");
  wf(a);
}
void body_make(int n, int blocks) {
  auto const base = vc::range<id>("base", 0, 1U << 20);
  soro::vector<id> ids;
  id prev = 0;
  for (int k = 0; k < n; ++k) {
    auto const blk = k == 0 ? 0 : (k == n - 1 ? blocks - 1 : blocks / 2);
    auto const v = (base + static_cast<id>(blk)) * B + vc::range<id>("id", 0, 63);
    if (k > 0) vc::assume(prev < v);
    prev = v;
    ids.push_back(v);
  }
  auto const q = vc::any<id>("q");
  auto const nr = vc::any<id>("nr");
  auto const s = make_exclusion_set(nr, ids);
  bool member = false;
  for (int k = 0; k < n; ++k) member = member || ids[static_cast<std::size_t>(k)] == q;
  vc::check(in(s, q) == member, "the set holds exactly the given ids");
  vc::check(s[q] == member, "operator[] is membership");
  vc::check(s.id_ == nr, "the set has the given id");
  vc::check(s.any() && !s.empty() && s.count() == static_cast<std::size_t>(n), "count() is the number of ids");
  wf(s);
  auto const t = make_exclusion_set(ids);
  vc::check(in(t, q) == member && t.id_ == exclusion_set::INVALID_ID, "the same without an id");
}
}  // namespace

VC_BOUNDED(C05, minus_1_1_0) { body_minus(1, 1, 0); }
VC_BOUNDED(C05, minus_2_2_0) { body_minus(2, 2, 0, 0); }
VC_BOUNDED(C05, minus_2_2_m1) { body_minus(2, 2, -1, 0); }
VC_BOUNDED(C05, minus_2_1_0) { body_minus(2, 1, 0, 0); }
VC_BOUNDED(C05, minus_copy_2_2_0) { body_minus(2, 2, 0, 1); }
VC_BOUNDED(C05, minus_copy_2_1_0) { body_minus(2, 1, 0, 1); }
VC_BOUNDED(C05, minus_1_2_m1) { body_minus(1, 2, -1); }
VC_BOUNDED(C05, minus_3_1_1) { body_minus(3, 1, 1); }
VC_BOUNDED(C05, minus_1_3_m1) { body_minus(1, 3, -1); }
VC_BOUNDED(C05, minus_1_1_4) { body_minus(1, 1, 4); }

VC_BOUNDED(C05, union_1_1_0) { body_union(1, 1, 0); }
VC_BOUNDED(C05, union_2_2_1) { body_union(2, 2, 1); }
VC_BOUNDED(C05, union_2_2_m1) { body_union(2, 2, -1); }
VC_BOUNDED(C05, union_2_2_0) { body_union(2, 2, 0); }
VC_BOUNDED(C05, union_1_1_3) { body_union(1, 1, 3); }
VC_BOUNDED(C05, union_1_1_m3) { body_union(1, 1, -3); }
VC_BOUNDED(C05, union_1_3_m1) { body_union(1, 3, -1); }
VC_BOUNDED(C05, union_3_1_1) { body_union(3, 1, 1); }

VC_BOUNDED(C05, compare_1_1_0) { body_compare(1, 1, 0); }
VC_BOUNDED(C05, compare_2_2_0) { body_compare(2, 2, 0); }
VC_BOUNDED(C05, compare_2_2_1) { body_compare(2, 2, 1); }
VC_BOUNDED(C05, compare_2_2_m1) { body_compare(2, 2, -1); }
VC_BOUNDED(C05, compare_3_1_1) { body_compare(3, 1, 1); }
VC_BOUNDED(C05, compare_1_3_m1) { body_compare(1, 3, -1); }
VC_BOUNDED(C05, compare_3_2_1) { body_compare(3, 2, 1); }
VC_BOUNDED(C05, compare_2_3_0) { body_compare(2, 3, 0); }
VC_BOUNDED(C05, compare_1_1_3) { body_compare(1, 1, 3); }

VC_BOUNDED(C05, set_1_0) { body_set(1, 0); }
VC_BOUNDED(C05, set_1_m1) { body_set(1, -1); }
VC_BOUNDED(C05, set_1_2) { body_set(1, 2); }
VC_BOUNDED(C05, set_2_m3) { body_set(2, -3); }
VC_BOUNDED(C05, set_2_1) { body_set(2, 1); }
VC_BOUNDED(C05, set_2_2) { body_set(2, 2); }
VC_BOUNDED(C05, set_on_empty) {
  exclusion_set a;
  auto const i = vc::range<id>("i", 0, 1U << 26), q = vc::any<id>("q");
  a.set(i);
  vc::check(in(a, q) == (q == i) && a[q] == (q == i), "set() on the empty set adds the given id");
  wf(a);
}

VC_BOUNDED(C05, make_1_1) { body_make(1, 1); }
VC_BOUNDED(C05, make_3_1) { body_make(3, 1); }
VC_BOUNDED(C05, make_3_2) { body_make(3, 2); }
VC_BOUNDED(C05, make_4_4) { body_make(4, 4); }

// the empty set and every operation with it
VC_BOUNDED(C05, with_empty) {
  auto const base = vc::range<id>("base", 0, 1U << 20);
  exclusion_set a, e;
  fill(a, "a", base, 2);
  auto const q = vc::any<id>("q");
  bool const x = in(a, q);
  exclusion_set const e2 = make_exclusion_set(7, {});
  vc::check(e.empty() && !e.any() && e.count() == 0 && !e[q] && e2.empty() && e2.id_ == 7 && e.ok(), "the empty set has no ids");
  vc::check(e.begin() == e.end() && e.expanded_set().empty(), "the empty set has nothing to iterate");
  vc::check(!a.empty() && a.any(), "a set with an id is not empty");
  vc::check(e.compare(a) == std::partial_ordering::less && a.compare(e) == std::partial_ordering::greater, "the empty set is a proper subset");
  vc::check(e.compare(e2) == std::partial_ordering::equivalent, "two empty sets are equivalent");
  vc::check(a.contains(e) && e.contains(e2) && !e.contains(a) && a.contains(a), "contains() with the empty set");
  auto u = e | a;
  vc::check(in(u, q) == x && in(a | e, q) == x, "union with the empty set");
  wf(u);
  auto const d = a - e;
  vc::check(in(d, q) == x, "difference with the empty set");
  vc::check((e - a).empty(), "the empty set minus anything is empty");
  auto c = a;
  c -= c;
  vc::check(c.empty(), "a set minus itself is empty");
  c = a;
  c |= c;
  vc::check(in(c, q) == x, "a set united with itself is the same");
  c.clear();
  vc::check(c.empty() && !in(c, q), "clear() removes every id");
  vc::check(a.compare(a) == std::partial_ordering::equivalent, "a set is equivalent to itself");
}

// listed members, any place
namespace {
void body_expanded(std::initializer_list<id> ids) {
  auto const base = vc::range<id>("base", 0, 1U << 20);
  exclusion_set a;
  a.bits_.resize(2 * B);
  a.bits_.blocks_[0] = 0;
  a.bits_.blocks_[1] = 0;
  a.first_ = base * B;
  a.last_ = a.first_ + 2 * B - 1;
  for (auto const i : ids) a.bits_.blocks_[i / B] |= std::uint64_t{1} << (i % B);
  a.first_bit_set_ = a.first_ + *ids.begin();
  a.last_bit_set_ = a.first_ + *(ids.end() - 1);
  auto const l = a.expanded_set();
  vc::check(l.size() == ids.size() && a.count() == ids.size(), "expanded_set() and count() cover the members only");
  std::size_t n = 0;
  for (auto const i : ids) vc::check(n < l.size() && l[n++] == a.first_ + i, "expanded_set() lists the ids in ascending order");
}
}  // namespace
VC_BOUNDED(C05, expanded_ends) { body_expanded({0, 63, 64, 127}); }
VC_BOUNDED(C05, expanded_some) { body_expanded({3, 4, 62, 90, 91, 100}); }

// sets of any number of blocks
namespace {
void any_set(exclusion_set& s, vc::arr<std::uint64_t> const& w, const char* base) {
  auto const blk = vc::range<id>(base, 0, 1U << 24);
  auto const f = vc::range<id>("first bit", 0, 63), l = vc::range<id>("last bit", 0, 63);
  vc::assume(w.n > 0);
  auto const n = static_cast<id>(w.n);
  vc::assume(((w[0] >> f) & 1U) != 0 && w[0] == (w[0] >> f) << f);
  vc::assume(w[n - 1] >> l == 1 && (n > 1 || f <= l));
  s.first_ = blk * B;
  s.last_ = s.first_ + n * B - 1;
  s.bits_.size_ = n * B;
  vc::set_vector(s.bits_.blocks_, w.p, w.n);
  s.first_bit_set_ = s.first_ + f;
  s.last_bit_set_ = s.first_ + (n - 1) * B + l;
}
}  // namespace
VC_CONTRACT(C05, membership) {
  vc::arr<std::uint64_t> w("words", 1U << 20);
  alignas(exclusion_set) unsigned char raw[sizeof(exclusion_set)];
  auto& s = *new (raw) exclusion_set;
  any_set(s, w, "base");
  auto const q = vc::any<id>("q");
  vc::check(s[q] == in(s, q), "operator[] is membership");
  vc::check(!s.empty(), "a set with a member is not empty");
  auto const before = s[q];
  vc::check(s.size() == s.last_ - s.first_ && s[q] == before, "reading does not change the set");
}
namespace {
void raw_set(exclusion_set& s, vc::arr<std::uint64_t> const& w) {
  vc::assume(w.n > 0);
  auto const n = static_cast<id>(w.n);
  s.first_ = vc::range<id>("base", 0, 1U << 24) * B;
  s.last_ = s.first_ + n * B - 1;
  s.bits_.size_ = n * B;
  vc::set_vector(s.bits_.blocks_, w.p, w.n);
}
}  // namespace
VC_CONTRACT(C05, get_first_set) {
  vc::arr<std::uint64_t> w("words", 1U << 20);
  alignas(exclusion_set) unsigned char raw[sizeof(exclusion_set)];
  auto& s = *new (raw) exclusion_set;
  raw_set(s, w);
  auto const q = vc::any<id>("q");
  vc::assume(s.first_ <= q && q <= s.last_);
  vc::ghost(q - s.first_);
  auto const r = get_first_set(s);
  bool const none = r == exclusion_set::INVALID_OFFSET;
  vc::check(none || in(s, r), "the first id is a member");
  vc::check((!none && q >= r) || !in(s, q), "no member is smaller than the first id");
}
VC_CONTRACT(C05, get_last_set) {
  vc::arr<std::uint64_t> w("words", 1U << 20);
  alignas(exclusion_set) unsigned char raw[sizeof(exclusion_set)];
  auto& s = *new (raw) exclusion_set;
  raw_set(s, w);
  auto const q = vc::any<id>("q");
  vc::assume(s.first_ <= q && q <= s.last_);
  vc::ghost(q - s.first_);
  auto const r = get_last_set(s);
  bool const none = r == exclusion_set::INVALID_OFFSET;
  vc::check(none || in(s, r), "the last id is a member");
  vc::check((!none && q <= r) || !in(s, q), "no member is larger than the last id");
}
VC_CONTRACT(C05, iterate) {
  vc::arr<std::uint64_t> w("words", 1U << 20);
  alignas(exclusion_set) unsigned char raw[sizeof(exclusion_set)];
  auto& a = *new (raw) exclusion_set;
  any_set(a, w, "base");
  auto const q = vc::any<id>("q"), i = vc::any<id>("i");
  vc::assume(i < a.bits_.size() && in(a, a.first_ + i));
  vc::ghost(q - a.first_);
  exclusion_set::iterator it{&a, i};
  vc::check(*it == a.first_ + i, "an iterator denotes its id");
  vc::check(*a.begin() == a.first_bit_set_, "iteration starts at the smallest id");
  auto& r = ++it;
  vc::check(&r == &it, "++ returns the iterator");
  bool const end = it == a.end();
  vc::check(end || in(a, *it), "++ moves to a member");
  vc::check(end || *it > a.first_ + i, "++ moves to a larger id");
  vc::check(!(q > a.first_ + i && (end || q < *it)) || !in(a, q), "++ skips no member");
}
namespace {
// representation invariant at the blocks of interest
void wf_bounds(exclusion_set const& s) {
  auto const n = static_cast<id>(s.bits_.blocks_.size());
  vc::check(n > 0 && s.first_ % B == 0 && s.last_ == s.first_ + n * B - 1 && s.bits_.size() == n * B, "blocks cover the range");
  vc::check(s.first_ <= s.first_bit_set_ && s.first_bit_set_ < s.first_ + B && s.last_bit_set_ <= s.last_ && s.last_bit_set_ + B > s.last_,
            "the first and the last id lie in the first and in the last block");
  vc::check(in(s, s.first_bit_set_) && in(s, s.last_bit_set_), "the bounds are members");
}
struct two_sets {
  vc::arr<std::uint64_t> v{"v", 1U << 20}, w{"w", 1U << 20};
  alignas(exclusion_set) unsigned char ra[sizeof(exclusion_set)], rb[sizeof(exclusion_set)];
  exclusion_set &a, &b;
  id q;
  bool x, y;
  two_sets() : a(*new (ra) exclusion_set), b(*new (rb) exclusion_set) {
    any_set(a, v, "base_a");
    any_set(b, w, "base_b");
    q = vc::any<id>("q");
    vc::ghost((q - a.first_) / B);
    vc::ghost((q - b.first_) / B);
    vc::ghost(q - a.first_);
    x = in(a, q);
    y = in(b, q);
  }
};
}  // namespace
namespace {
void check_union(two_sets& t) {
  auto& r = t.a |= t.b;
  vc::check(&r == &t.a, "|= returns the set");
  vc::check(in(t.a, t.q) == (t.x || t.y), "an id is in the union iff it is in one of the sets");
  vc::check(in(t.b, t.q) == t.y, "|= does not change the right set");
  wf_bounds(t.a);
}
}  // namespace
VC_CONTRACT(C05, union_inside) {
  two_sets t;
  vc::assume(t.a.first_ <= t.b.first_ && t.b.last_ <= t.a.last_);
  check_union(t);
}
// compare(): which set holds the other
namespace {
void check_compare(two_sets& t) {
  auto const r = t.a.compare(t.b);
  vc::check(!(r == std::partial_ordering::equivalent) || t.x == t.y, "equivalent sets have the same ids");
  vc::check(!(r == std::partial_ordering::less) || !t.x || t.y, "a smaller set has no other ids");
  vc::check(!(r == std::partial_ordering::greater) || !t.y || t.x, "a greater set has all ids");
}
}  // namespace
VC_CONTRACT(C05, compare_same_range) {
  two_sets t;
  vc::assume(t.a.first_ == t.b.first_ && t.a.last_ == t.b.last_);
  check_compare(t);
}
VC_CONTRACT(C05, compare_covering) {
  two_sets t;
  vc::assume(!(t.a.first_ == t.b.first_ && t.a.last_ == t.b.last_));
  vc::assume(t.a.first_bit_set_ <= t.b.first_bit_set_ && t.a.last_bit_set_ >= t.b.last_bit_set_);
  check_compare(t);
}
VC_CONTRACT(C05, compare_other) {
  two_sets t;
  vc::assume(!(t.a.first_ == t.b.first_ && t.a.last_ == t.b.last_));
  vc::assume(!(t.a.first_bit_set_ <= t.b.first_bit_set_ && t.a.last_bit_set_ >= t.b.last_bit_set_));
  check_compare(t);
}
