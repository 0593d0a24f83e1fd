// C07: algorithms on sorted sequences and sub-sequences.
#include "vc.h"
#include "soro/utls/algo/merge_unique.h"
#include "soro/utls/algo/multi_set_merge.h"
#include "soro/utls/algo/overlap.h"
#include "soro/utls/algo/remove_after.h"
#include "soro/utls/algo/remove_until.h"
#include "soro/utls/algo/slice.h"
#include "soro/utls/algo/sort_and_intersect.h"
using namespace soro;
using val = std::uint32_t;
using vec = soro::vector<val>;

namespace {
vec any_vec(int const n, bool const sorted, bool const strict = false) {
  vec v;
  v.resize(static_cast<std::size_t>(n));
  for (int k = 0; k < n; ++k) {
    v[static_cast<std::size_t>(k)] = vc::any<val>("element");
    if (sorted && k > 0) vc::assume(strict ? v[k - 1] < v[k] : v[k - 1] <= v[k]);
  }
  return v;
}
bool has(vec const& v, val const q) {
  bool r = false;
  for (auto const x : v) r |= x == q;
  return r;
}
std::size_t times(vec const& v, val const q) {
  std::size_t r = 0;
  for (auto const x : v) r += x == q ? 1 : 0;
  return r;
}
bool ascending(vec const& v, bool const strict) {
  bool r = true;
  for (std::size_t k = 1; k < v.size(); ++k) r &= strict ? v[k - 1] < v[k] : v[k - 1] <= v[k];
  return r;
}
bool same(vec const& a, vec const& b) {
  bool r = a.size() == b.size();
  for (std::size_t k = 0; r && k < a.size(); ++k) r = a[k] == b[k];
  return r;
}
val any_q() { return vc::any<val>("q"); }

void body_merge_unique(int n, int m) {
  auto const a = any_vec(n, true), b = any_vec(m, true);
  auto const q = any_q();
  auto const r = utls::merge_unique(a, b);
  vc::check(ascending(r, true), "merge_unique() is ascending without duplicates");
  vc::check(has(r, q) == (has(a, q) || has(b, q)), "merge_unique() holds exactly the elements of both containers");
}
void body_intersect(int n, int m) {
  auto const a = any_vec(n, true), b = any_vec(m, true);
  auto const q = any_q();
  auto const r = utls::intersect(a, b);
  vc::check(ascending(r, false) && times(r, q) == std::min(times(a, q), times(b, q)), "intersect() holds exactly the common elements in order");
  auto const o = utls::get_overlap(a, b);
  vc::check(ascending(o, false) && times(o, q) == std::min(times(a, q), times(b, q)), "get_overlap() holds exactly the common elements in order");
}
void body_sort_and_intersect(int n, int m) {
  auto a = any_vec(n, false), b = any_vec(m, false);
  auto const q = any_q();
  auto const x = times(a, q), y = times(b, q);
  auto const r = utls::sort_and_intersect(a, b);
  vc::check(ascending(r, false) && times(r, q) == std::min(x, y), "sort_and_intersect() holds exactly the common elements in order");
  vc::check(ascending(a, false) && ascending(b, false) && times(a, q) == x && times(b, q) == y, "sort_and_intersect() only reorders its arguments");
}
void body_overlap(int n, int m) {
  auto const a = any_vec(n, true), b = any_vec(m, true);
  bool common = false;
  for (auto const x : a) common |= has(b, x);
  vc::check(utls::overlap(a, b) == common, "overlap() iff there is a common element");
}
void body_overlap_non_sorted(int n, int m) {
  auto const a = any_vec(n, false), b = any_vec(m, false);
  bool common = false;
  for (auto const x : a) common |= has(b, x);
  vc::check(utls::overlap_non_sorted(a, b) == common, "overlap_non_sorted() iff there is a common element");
}
void body_permutation(int n) {
  auto const a = any_vec(n, false);
  auto const p = utls::get_permutation_index(a);
  vc::check(p.size() == a.size(), "a permutation has an entry per element");
  bool ok = true, used[8] = {};
  for (std::size_t k = 0; k < p.size(); ++k) {
    ok &= p[k] < p.size() && (k == 0 || a[p[k - 1]] <= a[p[k]]);
    if (p[k] < 8) {
      ok &= !used[p[k]];
      used[p[k]] = true;
    }
  }
  vc::check(ok, "the permutation sorts the container");
}
// all ways in which the elements of several sequences can be ordered relative to each other: each sequence is a list of
// indices into strictly ascending arbitrary values
struct alphabet {
  explicit alphabet(int const n) {
    for (int k = 0; k < n; ++k) {
      x[k] = vc::any<val>("value");
      if (k > 0) vc::assume(x[k - 1] < x[k]);
    }
  }
  vec pick(std::initializer_list<int> idx) const {
    vec v;
    v.resize(idx.size());
    std::size_t k = 0;
    for (auto const i : idx) v[k++] = x[i];
    return v;
  }
  vec subset(unsigned const mask) const {
    vec v;
    v.resize(static_cast<std::size_t>(__builtin_popcount(mask)));
    std::size_t n = 0;
    for (int k = 0; k < 8; ++k)
      if (((mask >> k) & 1U) != 0) v[n++] = x[k];
    return v;
  }
  val x[8];
};
void intersect_of(vec const& a, vec const& b, val const q) {
  auto const r = utls::intersect(a, b);
  vc::check(ascending(r, false) && times(r, q) == std::min(times(a, q), times(b, q)), "intersect() holds exactly the common elements in order");
  auto const o = utls::get_overlap(a, b);
  vc::check(ascending(o, false) && times(o, q) == std::min(times(a, q), times(b, q)), "get_overlap() holds exactly the common elements in order");
}
void body_intersect_ordered(int const first) {
  alphabet const x{4};
  auto const q = any_q();
  for (int i = first; i < 4; ++i)
    for (int k = 0; k < 4; ++k)
      for (int l = k; l < 4; ++l) intersect_of(x.pick({first, i}), x.pick({k, l}), q);
}
void body_multi(unsigned const first) {
  alphabet const x{3};
  auto const q = any_q();
  using it = vec::const_iterator;
  auto const a = x.subset(first);
  for (unsigned i = 0; i < 8; ++i) {
    for (unsigned k = 0; k < 8; ++k) {
      auto const b = x.subset(i), c = x.subset(k);
      soro::vector<std::pair<it, it>> ranges;
      ranges.reserve(3);
      ranges.emplace_back(a.begin(), a.end());
      ranges.emplace_back(b.begin(), b.end());
      ranges.emplace_back(c.begin(), c.end());
      auto const r = utls::multi_set_merge<vec>(ranges);
      vc::check(ascending(r, true), "multi_set_merge() is ascending without duplicates");
      vc::check(has(r, q) == (has(a, q) || has(b, q) || has(c, q)), "multi_set_merge() holds exactly the elements of all sets");
    }
  }
}
void body_non_sorted_ordered(int const first) {
  alphabet const x{3};
  auto const q = any_q();
  for (int i = 0; i < 9; ++i) {
    for (int k = 0; k < 9; ++k) {
      auto const a = x.pick({first, i / 3, i % 3}), b = x.pick({k / 3, k % 3});
      bool common = false;
      for (int const u : {first, i / 3, i % 3}) common |= u == k / 3 || u == k % 3;
      vc::check(utls::overlap_non_sorted(a, b) == common, "overlap_non_sorted() iff there is a common element");
      auto const r = utls::get_overlap_non_sorted(a, b);
      vc::check(times(r, q) == std::min(times(a, q), times(b, q)), "get_overlap_non_sorted() holds exactly the common elements");
      std::size_t at = 0;
      for (auto const y : a) at += at < r.size() && r[at] == y ? 1 : 0;
      vc::check(at == r.size(), "get_overlap_non_sorted() keeps the order of the first container");
    }
  }
}
void body_slice(int n, int from, int to) {
  auto const v = any_vec(n, false);
  vec want;
  want.reserve(8);
  for (int k = from; k < to; ++k) want.push_back(v[static_cast<std::size_t>(k)]);
  auto const f = static_cast<std::size_t>(from), t = static_cast<std::size_t>(to);
  vc::check(same(utls::slice(v, f, t), want), "slice() copies the elements in [from, to)");
  vc::check(same(utls::slice_clasp(v, f, t), want), "slice_clasp() is the same inside of the container");
  auto w = v;
  utls::slice(w, f, t);
  vc::check(same(w, want), "slice() in place keeps the elements in [from, to)");
  auto c = v;
  utls::slice_clasp(c, f, t);
  vc::check(same(c, want), "slice_clasp() in place is the same inside of the container");
  auto const r = utls::slice_range(v, f, t);
  vc::check(static_cast<std::size_t>(std::distance(r.begin(), r.end())) == t - f && (t == f || &*r.begin() == &v[f]), "slice_range() denotes [from, to)");
  auto const rc = utls::slice_clasp_range(v, f, t);
  vc::check(rc.begin() == r.begin() && rc.end() == r.end(), "slice_clasp_range() is the same inside of the container");
}
void body_clasp(int n) {
  auto const v = any_vec(n, false);
  auto const sz = static_cast<std::size_t>(n);
  auto const big = vc::any<std::size_t>("beyond");
  vc::assume(big > sz);
  vc::check(same(utls::slice_clasp(v, 1, big), utls::slice(v, 1, sz)), "slice_clasp() cuts off at the end");
  vc::check(same(utls::slice_clasp(v, big, big), v), "slice_clasp() starts over if from is beyond the end");
  vc::check(utls::slice_clasp(v, sz, big).empty(), "slice_clasp() from the end is empty");
  auto w = v;
  utls::slice_clasp(w, big, sz);
  vc::check(same(w, v), "slice_clasp() in place starts over if from is beyond the end");
  auto u = v;
  utls::slice_clasp(u, 1, big);
  vc::check(same(u, utls::slice(v, 1, sz)), "slice_clasp() in place cuts off at the end");
  auto const r = utls::slice_clasp_range(v, big, big);
  vc::check(r.begin() == v.begin() && r.end() == v.end(), "slice_clasp_range() clasps both ends");
}
void body_remove(int n) {
  auto const v = any_vec(n, false);
  auto const limit = vc::any<val>("limit");
  auto const pred = [&](val const x) { return x < limit; };
  int first = n, last = -1;
  for (int k = n - 1; k >= 0; --k)
    if (pred(v[static_cast<std::size_t>(k)])) first = k;
  for (int k = 0; k < n; ++k)
    if (pred(v[static_cast<std::size_t>(k)])) last = k;
  auto u = v;
  utls::remove_until(u, pred);
  vc::check(u.size() == static_cast<std::size_t>(n - first), "remove_until() removes everything before the first match");
  for (int k = 0; k < n; ++k) vc::check(k < first || u[static_cast<std::size_t>(k - first)] == v[static_cast<std::size_t>(k)], "remove_until() keeps the rest");
  auto a = v;
  utls::remove_after(a, pred);
  vc::check(a.size() == static_cast<std::size_t>(last + 1), "remove_after() removes everything after the last match");
  for (int k = 0; k < n; ++k) vc::check(k > last || a[static_cast<std::size_t>(k)] == v[static_cast<std::size_t>(k)], "remove_after() keeps the rest");
}
}  // namespace

#define C07_PAIRS(name)                                \
  VC_BOUNDED(C07, name##_0_0) { body_##name(0, 0); }   \
  VC_BOUNDED(C07, name##_0_2) { body_##name(0, 2); }   \
  VC_BOUNDED(C07, name##_2_0) { body_##name(2, 0); }   \
  VC_BOUNDED(C07, name##_1_1) { body_##name(1, 1); }   \
  VC_BOUNDED(C07, name##_2_2) { body_##name(2, 2); }   \
  VC_BOUNDED(C07, name##_1_3) { body_##name(1, 3); }   \
  VC_BOUNDED(C07, name##_3_1) { body_##name(3, 1); }   \
  VC_BOUNDED(C07, name##_3_2) { body_##name(3, 2); }   \
  VC_BOUNDED(C07, name##_3_3) { body_##name(3, 3); }
C07_PAIRS(merge_unique)
VC_BOUNDED(C07, intersect_0_0) { body_intersect(0, 0); }
VC_BOUNDED(C07, intersect_0_2) { body_intersect(0, 2); }
VC_BOUNDED(C07, intersect_2_0) { body_intersect(2, 0); }
VC_BOUNDED(C07, intersect_1_3) { body_intersect(1, 3); }
VC_BOUNDED(C07, intersect_3_1) { body_intersect(3, 1); }
C07_PAIRS(sort_and_intersect)
C07_PAIRS(overlap)
VC_BOUNDED(C07, overlap_non_sorted_0_0) { body_overlap_non_sorted(0, 0); }
VC_BOUNDED(C07, overlap_non_sorted_0_2) { body_overlap_non_sorted(0, 2); }
VC_BOUNDED(C07, overlap_non_sorted_2_0) { body_overlap_non_sorted(2, 0); }
VC_BOUNDED(C07, overlap_non_sorted_1_1) { body_overlap_non_sorted(1, 1); }
VC_BOUNDED(C07, overlap_non_sorted_2_2) { body_overlap_non_sorted(2, 2); }
VC_BOUNDED(C07, overlap_non_sorted_1_3) { body_overlap_non_sorted(1, 3); }
VC_BOUNDED(C07, overlap_non_sorted_3_1) { body_overlap_non_sorted(3, 1); }
VC_BOUNDED(C07, permutation_3) { body_permutation(3); }
VC_BOUNDED(C07, permutation_4) { body_permutation(4); }
VC_BOUNDED(C07, multi_0) { body_multi(0); }
VC_BOUNDED(C07, multi_1) { body_multi(1); }
VC_BOUNDED(C07, multi_2) { body_multi(2); }
VC_BOUNDED(C07, multi_3) { body_multi(3); }
VC_BOUNDED(C07, multi_4) { body_multi(4); }
VC_BOUNDED(C07, multi_5) { body_multi(5); }
VC_BOUNDED(C07, multi_6) { body_multi(6); }
VC_BOUNDED(C07, multi_7) { body_multi(7); }
VC_BOUNDED(C07, intersect_ordered_0) { body_intersect_ordered(0); }
VC_BOUNDED(C07, intersect_ordered_1) { body_intersect_ordered(1); }
VC_BOUNDED(C07, intersect_ordered_2) { body_intersect_ordered(2); }
VC_BOUNDED(C07, intersect_ordered_3) { body_intersect_ordered(3); }
VC_BOUNDED(C07, non_sorted_ordered_0) { body_non_sorted_ordered(0); }
VC_BOUNDED(C07, non_sorted_ordered_1) { body_non_sorted_ordered(1); }
VC_BOUNDED(C07, non_sorted_ordered_2) { body_non_sorted_ordered(2); }
VC_BOUNDED(C07, slice_0) { body_slice(0, 0, 0); }
VC_BOUNDED(C07, slice_4) {
  for (int f = 0; f <= 4; ++f)
    for (int t = f; t <= 4; ++t) body_slice(4, f, t);
}
VC_BOUNDED(C07, clasp) { body_clasp(3); }
VC_BOUNDED(C07, remove_0) { body_remove(0); }
VC_BOUNDED(C07, remove_1) { body_remove(1); }
VC_BOUNDED(C07, remove_4) { body_remove(4); }
VC_BOUNDED(C07, remove_6) { body_remove(6); }

// containers of any size
namespace {
struct any_size {
  explicit any_size(const char* name) : a{name, 1U << 20} { vc::set_vector(get(), a.p, a.n); }
  vec& get() { return *reinterpret_cast<vec*>(raw); }
  vc::arr<val> a;
  alignas(vec) unsigned char raw[sizeof(vec)]{};
};
}  // namespace
VC_CONTRACT(C07, remove_until_any_size) {
  any_size s{"a"};
  auto& v = s.get();
  auto const limit = vc::any<val>("limit");
  auto const i = vc::any<std::uint64_t>("i");
  vc::assume(i < s.a.n);
  vc::ghost(i);
  auto const n = s.a.n;
  auto const x = v[i];
  utls::remove_until(v, [&](val const y) { return y < limit; });
  auto const m = v.size();
  vc::check(m <= n, "remove_until() removes elements only");
  vc::check(i + m >= n || !(x < limit), "remove_until() removes no match");
  vc::check(m == 0 || v[0] < limit, "remove_until() leaves a match in front");
  vc::check(i + m < n || v[i - (n - m)] == x, "remove_until() keeps the rest in order");
}
VC_CONTRACT(C07, remove_after_any_size) {
  any_size s{"a"};
  auto& v = s.get();
  auto const limit = vc::any<val>("limit");
  auto const i = vc::any<std::uint64_t>("i");
  vc::assume(i < s.a.n);
  vc::ghost(i + 1);
  auto const n = s.a.n;
  auto const x = v[i];
  utls::remove_after(v, [&](val const y) { return y < limit; });
  auto const m = v.size();
  vc::check(m <= n, "remove_after() removes elements only");
  vc::check(i < m || !(x < limit), "remove_after() removes no match");
  vc::check(m == 0 || v[m - 1] < limit, "remove_after() leaves a match at the end");
  vc::check(i >= m || v[i] == x, "remove_after() keeps the rest in order");
}
VC_CONTRACT(C07, slice_any_size) {
  any_size s{"a"};
  auto& v = s.get();
  auto const from = vc::any<std::uint64_t>("from"), to = vc::any<std::uint64_t>("to"), i = vc::any<std::uint64_t>("i");
  vc::assume(from <= to && to <= s.a.n && i < to - from);
  auto const x = v[from + i];
  auto const r = utls::slice_range(v, from, to);
  vc::check(r.begin() == v.begin() + static_cast<std::ptrdiff_t>(from) && r.end() == v.begin() + static_cast<std::ptrdiff_t>(to), "slice_range() denotes [from, to)");
  utls::slice(v, from, to);
  vc::check(v.size() == to - from, "slice() keeps to - from elements");
  vc::check(v[i] == x, "slice() keeps the elements in [from, to)");
}
