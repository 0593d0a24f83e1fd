// C06: infrastructure elements.
#include "vc.h"
#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "soro/infrastructure/graph/section.h"
using namespace soro;
using namespace soro::infra;

namespace {
struct dummy { alignas(element) unsigned char raw[sizeof(element)]; };
kilometrage any_km(const char* n) { return kilometrage{vc_nondet_double(n)}; }
bool bits_eq(double const a, double const b) {
  std::uint64_t x, y;
  std::memcpy(&x, &a, 8);
  std::memcpy(&y, &b, 8);
  return x == y;
}
type any_type() { return id_to_type(vc::range<std::uint8_t>("type", 0, type_to_id(type::INVALID))); }

template <typename T>
void accessors() {
  element e;
  e.e_ = T{};
  auto& x = e.as<T>();
  x.type_ = any_type();
  x.rising_ = vc::any<bool>("rising");
  x.id_ = vc::any<element_id>("id");
  auto const& c = e;
  auto const u = any_type();
  vc::check(c.type() == x.type_ && c.id() == x.id_, "an element reports its type and id");
  vc::check(c.is(u) == (x.type_ == u), "is() compares the type");
  vc::check(c.rising() == x.rising_ && c.falling() == !x.rising_, "an element is rising or falling");
  vc::check(c.is_end_element() == infra::is_end_element(x.type_) && c.is_simple_element() == infra::is_simple_element(x.type_) &&
                c.is_track_element() == infra::is_track_element(x.type_) && c.is_section_element() == infra::is_section_element(x.type_) &&
                c.is_directed_track_element() == infra::is_directed_track_element(x.type_) &&
                c.is_undirected_track_element() == infra::is_undirected_track_element(x.type_),
            "the class of an element is the class of its type");
  vc::check(c.joins_tracks() == (x.type_ == type::SIMPLE_SWITCH || x.type_ == type::CROSS), "switches and crosses join tracks");
  vc::check(c.nodes().data() == &x.nodes_[0] && c.nodes().size() == x.nodes_.size(), "nodes() views all nodes");
  vc::check(c.neighbours().data() == &x.neighbours_[0] && c.neighbours().size() == x.neighbours_.size(), "neighbours() views all neighbours");
}
}  // namespace
VC_CONTRACT(C06, end_accessors) { accessors<end_element>(); }
VC_CONTRACT(C06, track_accessors) { accessors<track_element>(); }
VC_CONTRACT(C06, undirected_accessors) { accessors<undirected_track_element>(); }
VC_CONTRACT(C06, simple_accessors) { accessors<simple_element>(); }
VC_CONTRACT(C06, switch_accessors) { accessors<simple_switch>(); }
VC_CONTRACT(C06, cross_accessors) {
  accessors<cross>();
  element e;
  e.e_ = cross{};
  auto& x = e.as<cross>();
  x.type_ = type::CROSS;
  x.start_left_end_right_arc_ = vc::any<bool>("arc1");
  x.start_right_end_left_arc_ = vc::any<bool>("arc2");
  bool const arc = x.start_left_end_right_arc_ || x.start_right_end_left_arc_;
  vc::check(e.is_cross_switch() == arc && e.is_switch() == arc, "a cross with an arc is a cross switch");
  element s;
  s.e_ = simple_switch{};
  s.as<simple_switch>().type_ = any_type();
  vc::check(s.as<simple_switch>().type_ == type::CROSS || s.is_switch() == (s.type() == type::SIMPLE_SWITCH), "a simple switch is a switch");
}

// the kilometrage of an element is that of the end its neighbour is at
VC_CONTRACT(C06, km_single) {
  element e, t, u, n;
  e.e_ = end_element{};
  t.e_ = track_element{};
  u.e_ = undirected_track_element{};
  auto const km = any_km("km");
  e.as<end_element>().km_ = km;
  t.as<track_element>().km_ = km;
  u.as<undirected_track_element>().km_ = km;
  vc::check(bits_eq(e.get_km(&n).val_, km.val_) && bits_eq(t.get_km(&n).val_, km.val_) && bits_eq(u.get_km(&n).val_, km.val_), "the kilometrage of an element at a single place");
}
VC_CONTRACT(C06, km_simple) {
  element e, n[4];
  e.e_ = simple_element{};
  auto& x = e.as<simple_element>();
  x.start_rising_neighbour() = &n[0];
  x.start_falling_neighbour() = &n[1];
  x.end_rising_neighbour() = &n[2];
  x.end_falling_neighbour() = &n[3];
  x.start_km_ = any_km("start");
  x.end_km_ = any_km("end");
  for (int k = 0; k < 4; ++k) vc::check(bits_eq(e.get_km(&n[k]).val_, (k < 2 ? x.start_km_ : x.end_km_).val_), "the kilometrage at the neighbour's end");
}
VC_CONTRACT(C06, km_switch) {
  element e, n[6];
  e.e_ = simple_switch{};
  auto& x = e.as<simple_switch>();
  x.rising_start_neighbour() = &n[0];
  x.falling_start_neighbour() = &n[1];
  x.rising_stem_neighbour() = &n[2];
  x.falling_stem_neighbour() = &n[3];
  x.rising_branch_neighbour() = &n[4];
  x.falling_branch_neighbour() = &n[5];
  x.start_km_ = any_km("start");
  x.stem_km_ = any_km("stem");
  x.branch_km_ = any_km("branch");
  for (int k = 0; k < 6; ++k) vc::check(bits_eq(e.get_km(&n[k]).val_, (k < 2 ? x.start_km_ : k < 4 ? x.stem_km_ : x.branch_km_).val_), "the kilometrage at the neighbour's end");
}
VC_CONTRACT(C06, km_cross) {
  element e, n[8];
  e.e_ = cross{};
  auto& x = e.as<cross>();
  x.rising_start_left() = &n[0];
  x.falling_start_left() = &n[1];
  x.rising_end_left() = &n[2];
  x.falling_end_left() = &n[3];
  x.rising_start_right() = &n[4];
  x.falling_start_right() = &n[5];
  x.rising_end_right() = &n[6];
  x.falling_end_right() = &n[7];
  kilometrage const km[4] = {any_km("start left"), any_km("end left"), any_km("start right"), any_km("end right")};
  x.start_left_km_ = km[0];
  x.end_left_km_ = km[1];
  x.start_right_km_ = km[2];
  x.end_right_km_ = km[3];
  for (int k = 0; k < 8; ++k) vc::check(bits_eq(e.get_km(&n[k]).val_, km[k / 2].val_), "the kilometrage at the neighbour's end");
}
VC_CONTRACT(C06, distance) {
  element a, b;
  a.e_ = track_element{};
  b.e_ = simple_element{};
  auto const x = any_km("x"), y = any_km("y");
  vc::assume(x.val_ >= -1e7 && x.val_ <= 1e7 && y.val_ >= -1e7 && y.val_ <= 1e7);
  a.as<track_element>().km_ = x;
  a.as<track_element>().ahead() = &b;
  b.as<simple_element>().start_km_ = y;
  b.as<simple_element>().end_km_ = any_km("other end");
  b.as<simple_element>().start_falling_neighbour() = &a;
  auto const d = a.get_distance(&b).val_, r = b.get_distance(&a).val_;
  vc::check(d == r, "the distance between two elements is the same from both sides");
  vc::check(d >= 0.0 && d == std::fabs(x.val_ - y.val_), "the distance is the difference of the kilometrages at the facing ends");
  vc::check(a.get_distance(&a).val_ == 0.0, "an element has no distance to itself");
}

// the node an element is entered from against the direction of travel
namespace {
void reverse_default(int const k) {
  element e, x;
  e.e_ = track_element{};
  x.e_ = end_element{};
  node n, in[3], other;
  n.element_ = &e;
  bool reach[3] = {};
  n.reverse_edges_.resize(static_cast<std::size_t>(k));
  for (int j = 0; j < k; ++j) {
    reach[j] = vc::any<bool>("continues to the node");
    in[j].element_ = &x;
    in[j].next_node_ = reach[j] ? &n : &other;
    n.reverse_edges_[j] = &in[j];
  }
  if (k > 1) vc::assume(reach[0] || reach[1] || (k > 2 && reach[2]));
  auto const r = n.reverse_ahead();
  if (k == 0) vc::check(r == nullptr, "a node without reverse edges has no reverse ahead");
  else if (k == 1) vc::check(r == &in[0], "a single reverse edge is the reverse ahead");
  else vc::check(r == (reach[0] ? &in[0] : reach[1] ? &in[1] : &in[2]), "the reverse ahead continues straight to the node");
}
void reverse_switch(int const k) {
  element e, track, other_switch, branch[2];
  e.e_ = simple_switch{};
  e.as<simple_switch>().rising_branch_neighbour() = &branch[0];
  e.as<simple_switch>().falling_branch_neighbour() = &branch[1];
  track.e_ = track_element{};
  track.as<track_element>().type_ = type::MAIN_SIGNAL;
  other_switch.e_ = simple_switch{};
  other_switch.as<simple_switch>().type_ = type::SIMPLE_SWITCH;
  branch[0].e_ = simple_switch{};
  branch[0].as<simple_switch>().type_ = type::SIMPLE_SWITCH;
  branch[1].e_ = track_element{};
  branch[1].as<track_element>().type_ = type::MAIN_SIGNAL;
  node n, in[3], other;
  n.element_ = &e;
  bool good[3] = {};
  n.reverse_edges_.resize(static_cast<std::size_t>(k));
  int code = vc::range<int>("elements", 0, k == 2 ? 15 : 63);
  for (int j = 0; j < k; ++j) {
    bool const b0 = (code >> (2 * j)) & 1, b1 = (code >> (2 * j + 1)) & 1, reach = vc::any<bool>("continues to the node");
    in[j].element_ = b0 ? (b1 ? &branch[0] : &branch[1]) : (b1 ? &other_switch : &track);
    in[j].next_node_ = reach ? &n : &other;
    good[j] = !b0 && (b1 || reach);
    n.reverse_edges_[j] = &in[j];
  }
  vc::assume(good[0] || good[1] || (k > 2 && good[2]));
  auto const r = n.reverse_ahead();
  vc::check(r == (good[0] ? &in[0] : good[1] ? &in[1] : &in[2]), "the reverse ahead of a switch does not come from its branch");
}
}  // namespace
VC_CONTRACT(C06, reverse_0) { reverse_default(0); }
VC_CONTRACT(C06, reverse_1) { reverse_default(1); }
VC_BOUNDED(C06, reverse_2) { reverse_default(2); }
VC_BOUNDED(C06, reverse_3) { reverse_default(3); }
VC_BOUNDED(C06, reverse_switch_2) { reverse_switch(2); }
VC_BOUNDED(C06, reverse_switch_3) { reverse_switch(3); }

// sections: sub-sequences in either direction
namespace {
void section_spans(int const k) {
  element e[4];
  section s;
  s.rising_order_.resize(static_cast<std::size_t>(k));
  s.falling_order_.resize(static_cast<std::size_t>(k));
  for (int j = 0; j < k; ++j) {
    s.rising_order_[j] = &e[j];
    s.falling_order_[k - 1 - j] = &e[j];
  }
  vc::check(s.size() == static_cast<std::size_t>(k) && s.first_rising() == &e[0] && s.last_rising() == &e[k - 1] && s.first_falling() == &e[k - 1] && s.last_falling() == &e[0],
            "ends of a section");
  for (int a = 0; a < k; ++a) {
    auto const fr = s.from(&e[a], direction::Rising), ff = s.from(&e[a], direction::Falling);
    auto const tr = s.to(&e[a], direction::Rising), tf = s.to(&e[a], direction::Falling);
    vc::check(fr.size() == static_cast<std::size_t>(k - a) && ff.size() == static_cast<std::size_t>(a + 1), "from() runs to the end of the section");
    vc::check(tr.size() == static_cast<std::size_t>(a + 1) && tf.size() == static_cast<std::size_t>(k - a), "to() runs from the start of the section");
    for (int j = a; j < k; ++j) vc::check(fr[j - a] == &e[j] && tf[k - 1 - j] == &e[j], "elements from / to in order");
    for (int j = 0; j <= a; ++j) vc::check(tr[j] == &e[j] && ff[a - j] == &e[j], "elements to / from in order");
    for (int b = a; b < k; ++b) {
      auto const r = s.from_to(&e[a], &e[b], direction::Rising), f = s.from_to(&e[b], &e[a], direction::Falling);
      vc::check(r.size() == static_cast<std::size_t>(b - a + 1) && f.size() == r.size(), "from_to() includes both ends");
      for (int j = a; j <= b; ++j) vc::check(r[j - a] == &e[j] && f[b - j] == &e[j], "elements between in order");
    }
  }
}
}  // namespace
VC_BOUNDED(C06, section_1) { section_spans(1); }
VC_BOUNDED(C06, section_2) { section_spans(2); }
VC_BOUNDED(C06, section_4) { section_spans(4); }
