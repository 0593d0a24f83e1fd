// C13: which interlocking routes exclude each other.
#include <thread>
#include "net.h"
#include "rbtree.h"
#include "src/infrastructure/exclusion/exclusion_elements.cc"
#include "src/infrastructure/exclusion/exclusion_set.cc"
#include "src/infrastructure/exclusion/get_exclusion_graph.cc"
#include "src/infrastructure/graph/element.cc"
#include "src/infrastructure/graph/node.cc"
#include "src/infrastructure/graph/type_set.cc"
#include "src/infrastructure/interlocking/interlocking_route.cc"
#include "src/infrastructure/station/station_route.cc"

// threads (trusted: standard library) run one after the other
namespace std {
struct vc_thread {
  template <typename F, typename... A>
  vc_thread(F&& f, A&&... a) { f(a...); }
  void join() {}
  static unsigned hardware_concurrency();
};
}  // namespace std
namespace {
unsigned vc_threads = 1;
}
unsigned std::vc_thread::hardware_concurrency() { return vc_threads; }
#define thread vc_thread
#include "src/infrastructure/exclusion/get_exclusion.cc"
#undef thread
using namespace soro;
using namespace soro::infra;
using net::network;

soro::infra::infrastructure::infrastructure(infrastructure_t const* t) { this->access_ = t; }
namespace {
std::vector<interlocking_route::ids>* cliques = nullptr;
}
// contract of the parser of the clique file: any list of lists of routes
soro::vector<interlocking_route::ids> soro::infra::read_cliques(std::filesystem::path const&) {
  soro::vector<interlocking_route::ids> r;
  for (auto const& c : *cliques) r.push_back(c);
  return r;
}

namespace {
constexpr int LONGEST = 12;
struct layout {
  int lines, line[2][LONGEST], len[2], sections, section[4][5];
  bool is_switch(int const j) const {
    int n = 0;
    for (int s = 0; s < sections; ++s)
      for (int const e : section[s]) n += e == j;
    return n > 1;
  }
};
// border 0 - 1 2 3 - switch 4 - 5 6 7 - bumper 8
//                             \\ 9 10 - border 11
constexpr layout FORK{2, {{0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -1, -1}, {0, 1, 2, 3, 4, 9, 10, 11, -1, -1, -1, -1}}, {9, 8}, 3, {{0, 1, 2, 3, 4}, {4, 5, 6, 7, 8}, {4, 9, 10, 11, -1}, {-1, -1, -1, -1, -1}}};
// border 11 - 0 1 - switch 2 - 3 4 - switch 5 - 6 7 - switch 9 - 10 - bumper 8
constexpr layout THROUGH{1, {{11, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 8}, {-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1}}, {12, 0}, 4, {{11, 0, 1, 2, -1}, {2, 3, 4, 5, -1}, {5, 6, 7, 9, -1}, {9, 10, 8, -1, -1}}};

struct yard {
  layout const& l;
  network w{12};
  type kind[12];
  bool rising[12], track[12];
  explicit yard(unsigned seed, layout const& lay = FORK) : l(lay) {
    int ends[12]{};
    for (int k = 0; k < l.lines; ++k) ends[l.line[k][0]] = ends[l.line[k][l.len[k] - 1]] = 1;
    for (int j = 0; j < 12; ++j) {
      seed = seed * 1664525U + 1013904223U;
      track[j] = ends[j] == 0 && !l.is_switch(j);
      if (track[j]) {
        constexpr type T[4] = {type::MAIN_SIGNAL, type::EOTD, type::HALT, type::MAIN_SIGNAL};
        kind[j] = T[(seed >> 20) & 3U];
        rising[j] = ((seed >> 23) & 1U) != 0;
        w.is(j, kind[j]);
        w.e[j].as<track_element>().rising_ = rising[j];
      } else if (ends[j] == 0) {
        w.e[j].e_ = simple_switch{};
        w.e[j].as<simple_switch>().type_ = kind[j] = type::SIMPLE_SWITCH;
        w.e[j].as<simple_switch>().id_ = static_cast<element_id>(j);
      } else if (j == 8) {
        w.e[j].e_ = end_element{};
        w.e[j].as<end_element>().type_ = kind[j] = type::BUMPER;
        w.e[j].as<end_element>().id_ = static_cast<element_id>(j);
      } else {
        w.e[j].e_ = simple_element{};
        w.e[j].as<simple_element>().type_ = kind[j] = type::BORDER;
        w.e[j].as<simple_element>().id_ = static_cast<element_id>(j);
      }
    }
    auto& g = w.t().graph_;
    g.sections_.resize(static_cast<std::size_t>(l.sections));
    g.element_id_to_section_ids_.resize(12);
    for (unsigned s = 0; s < static_cast<unsigned>(l.sections); ++s) {
      for (int k = 0; k < 5; ++k) {
        if (l.section[s][k] < 0) continue;
        g.sections_[s].rising_order_.emplace_back(&w.e[l.section[s][k]]);
        g.element_id_to_section_ids_[static_cast<std::size_t>(l.section[s][k])].emplace_back(s);
      }
      for (int k = 4; k >= 0; --k)
        if (l.section[s][k] >= 0) g.sections_[s].falling_order_.emplace_back(&w.e[l.section[s][k]]);
    }
  }
};
bool exclusive(type const t) {
  return t == type::SIMPLE_SWITCH || t == type::CROSS || t == type::MAIN_SIGNAL || t == type::HALT || t == type::BORDER || t == type::BUMPER || t == type::TRACK_END;
}

// the interlocking route from the i-th to the j-th element of a line, in the given direction
void elements(yard& y, int const ln, bool const up, int const i, int const j) {
  auto const& l = y.l;
  int path[LONGEST], n = l.len[ln], at[LONGEST], len = 0;
  for (int k = 0; k < n; ++k) path[k] = up ? l.line[ln][k] : l.line[ln][n - 1 - k];
  auto const passes = [&](int const e) { return !y.track[e] || y.rising[e] == up; };
  auto const joins = [&](int const e) { return y.kind[e] == type::SIMPLE_SWITCH; };
  if (!passes(path[i]) || !passes(path[j]) || joins(path[i]) || joins(path[j])) return;
  bool sees[4]{}, touches[4]{};
  for (int s = 0; s < l.sections; ++s)
    for (int k = i; k <= j; ++k) {
      if (joins(path[k])) continue;
      bool in = false;
      for (int const e : l.section[s]) in |= e == path[k];
      touches[s] |= in;
      sees[s] |= in && y.track[path[k]] && passes(path[k]);
    }
  for (int s = 0; s < l.sections; ++s)
    if (touches[s] != sees[s]) return;  // there is a track element in every section on the way
  auto& w = y.w;
  station_route::path p;
  station_route r;
  r.id_ = 0;
  r.path_ = &p;
  for (int k = 0; k < n; ++k) {
    if (!passes(path[k])) continue;
    if (k >= i && k <= j) at[len++] = static_cast<int>(p.nodes_.size());
    p.nodes_.push_back(&w.n[path[k]]);
  }
  w.t().station_routes_.clear();
  w.t().station_routes_.emplace_back(&r);
  auto& irs = w.t().interlocking_.routes_;
  irs.clear();
  w.add_ir({0}, at[0], at[len - 1] + 1);
  auto const closed = get_closed_exclusion_elements(w.infra());
  auto const open = get_open_exclusion_elements(closed, w.infra());
  vc::check(closed.size() == 1 && open.size() == 1, "one entry per interlocking route");
  bool want[12]{};
  for (int k = i; k <= j; ++k) want[path[k]] = exclusive(y.kind[path[k]]);
  for (int o = 0; o < 2; ++o) {
    auto const& v = o == 0 ? closed[0] : open[0];
    bool got[12]{};
    for (std::size_t k = 0; k < v.size(); ++k) {
      vc::check(v[k] < 12 && (k == 0 || v[k - 1] < v[k]), "exclusion elements are sorted and listed once");
      got[v[k]] = true;
    }
    for (int e = 0; e < 12; ++e) {
      bool const is = want[e] && (o == 0 || (e != path[i] && e != path[j]));
      vc::check(got[e] == is, o == 0 ? "the exclusion elements of a route are the switches, signals, halts and ends from its first to its last element" : "the open exclusion elements leave out the first and the last element");
    }
  }
}
void yards(unsigned const from, unsigned const to, layout const& l) {
  for (unsigned s = from; s < to; ++s) {
    yard y(s * 7919U + 13U, l);
    for (int ln = 0; ln < l.lines; ++ln)
      for (int up = 0; up < 2; ++up)
        for (int i = 0; i < l.len[ln]; ++i)
          for (int j = i + 1; j < l.len[ln]; ++j) elements(y, ln, up != 0, i, j);
  }
}
}  // namespace
VC_BOUNDED(C13, elements_1) { yards(0, 8, FORK); }
VC_BOUNDED(C13, elements_2) { yards(8, 16, FORK); }
VC_BOUNDED(C13, elements_3) { yards(16, 24, FORK); }
VC_BOUNDED(C13, elements_4) { yards(0, 12, THROUGH); }
VC_BOUNDED(C13, elements_5) { yards(12, 24, THROUGH); }

// two routes exclude each other iff they share an element and do not directly follow each other
namespace {
constexpr unsigned R = 4, E = 4;
void graph_case(unsigned const shared, unsigned const ends, unsigned const threads) {
  network w(5);
  w.add({0, 1, 2, 3, 4});
  unsigned uses[R], first[R], last[R];
  soro::vector<element::ids> closed(R);
  for (unsigned r = 0; r < R; ++r) {
    uses[r] = (shared >> (E * r)) & 15U;
    for (unsigned e = 0; e < E; ++e)
      if (((uses[r] >> e) & 1U) != 0U) closed[r].push_back(e);
    first[r] = (ends >> (2 * r)) & 3U;
    last[r] = first[r] + 1 > 3 ? 4 : first[r] + 1;
    w.add_ir({0}, static_cast<int>(first[r]), static_cast<int>(last[r] + 1));
  }
  auto& il = w.t().interlocking_;
  il.starting_at_.resize(5);
  il.ending_at_.resize(5);
  for (unsigned r = 0; r < R; ++r) {
    il.starting_at_[first[r]].push_back(r);
    il.ending_at_[last[r]].push_back(r);
  }
  vc_threads = threads;
  auto const used_by = get_closed_element_used_by(closed, E);
  vc::check(used_by.size() == E, "one entry per element");
  for (unsigned e = 0; e < E; ++e) {
    std::size_t k = 0;
    for (unsigned r = 0; r < R; ++r)
      if (((uses[r] >> e) & 1U) != 0U) {
        vc::check(k < used_by[e].size() && used_by[e][k] == r, "every route is listed at each of its elements, in order");
        ++k;
      }
    vc::check(k == used_by[e].size(), "no other routes at an element");
  }
  auto const g = get_exclusion_graph(closed, used_by, w.infra());
  vc::check(g.nodes_.size() == R, "one exclusion set per route");
  for (unsigned a = 0; a < R; ++a) {
    std::size_t n = 0;
    for (unsigned b = 0; b < R; ++b) {
      bool const is = (uses[a] & uses[b]) != 0U && first[b] != last[a] && last[b] != first[a];
      vc::check(g.nodes_[a][b] == is, "two routes exclude each other iff they share an element and none directly follows the other");
      n += is;
    }
    vc::check(g.nodes_[a].count() == n, "no other routes are excluded");
  }
}
}  // namespace
VC_BOUNDED(C13, graph_1) { for (unsigned s = 0; s < 65536; s += 794) graph_case(s, (s * 2654435761U) >> 24, 1 + s % 6); }
VC_BOUNDED(C13, graph_2) { for (unsigned s = 397; s < 65536; s += 794) graph_case(s, (s * 2654435761U) >> 24, 1 + s % 6); }
VC_BOUNDED(C13, graph_3) { for (unsigned s = 211; s < 65536; s += 794) graph_case(s, s % 256U, 1 + (s >> 3) % 6); }
VC_BOUNDED(C13, graph_4) { for (unsigned s = 608; s < 65536; s += 794) graph_case(s, s % 256U, 1 + (s >> 3) % 6); }

// the assembled exclusion data
namespace {
void whole(unsigned const mask, bool const with_elements, bool const with_graph) {
  yard y(1);
  auto& w = y.w;
  for (int j = 1; j < 11; ++j)
    if (y.track[j]) {
      w.is(j, type::MAIN_SIGNAL);
      w.e[j].as<track_element>().rising_ = true;
    }
  w.add({0, 1, 2, 3, 4, 5, 6, 7, 8});
  w.add({0, 1, 2, 3, 4, 9, 10, 11});
  constexpr int IR[5][3] = {{0, 1, 3}, {0, 2, 6}, {0, 3, 8}, {1, 2, 6}, {1, 3, 8}};
  unsigned el[5];
  for (int r = 0; r < 5; ++r) {
    w.add_ir({IR[r][0]}, IR[r][1], IR[r][2]);
    el[r] = 0;
    for (int k = IR[r][1]; k < IR[r][2]; ++k) el[r] |= 1U << FORK.line[IR[r][0]][k];
  }
  auto& il = w.t().interlocking_;
  il.starting_at_.resize(12);
  il.ending_at_.resize(12);
  unsigned first[5], last[5];
  for (unsigned r = 0; r < 5; ++r) {
    first[r] = static_cast<unsigned>(FORK.line[IR[r][0]][IR[r][1]]);
    last[r] = static_cast<unsigned>(FORK.line[IR[r][0]][IR[r][2] - 1]);
    il.starting_at_[first[r]].push_back(r);
    il.ending_at_[last[r]].push_back(r);
  }
  std::vector<interlocking_route::ids> cl(3);
  for (unsigned c = 0; c < 3; ++c)
    for (unsigned r = 0; r < 5; ++r)
      if (((mask >> (5 * c + r)) & 1U) != 0U) cl[c].push_back(r);
  cliques = &cl;
  vc_threads = 2;
  alignas(std::filesystem::path) unsigned char file[sizeof(std::filesystem::path)];  // never read: the file parser is a contract
  auto const ex = get_exclusion(w.t(), reinterpret_cast<std::filesystem::path const&>(file), option<exclusion_elements>(with_elements), option<exclusion_graph>(with_graph));
  vc::check(ex.exclusion_sets_.size() == 3 && ex.irs_to_exclusion_sets_.size() == 5, "the cliques are kept, one entry per route");
  for (unsigned r = 0; r < 5; ++r) {
    std::size_t k = 0;
    for (unsigned c = 0; c < 3; ++c)
      if (((mask >> (5 * c + r)) & 1U) != 0U) {
        vc::check(k < ex.irs_to_exclusion_sets_[r].size() && ex.irs_to_exclusion_sets_[r][k] == c, "a route is mapped to the cliques it belongs to, in order");
        ++k;
      }
    vc::check(k == ex.irs_to_exclusion_sets_[r].size(), "a route is mapped to no other cliques");
  }
  vc::check(ex.exclusion_elements_.closed_.size() == (with_elements ? 5U : 0U) && ex.exclusion_elements_.open_.size() == (with_elements ? 5U : 0U), "exclusion elements are generated on request");
  vc::check(ex.exclusion_graph_.nodes_.size() == (with_elements && with_graph ? 5U : 0U), "the exclusion graph is generated on request");
  if (!with_elements || !with_graph) return;
  for (unsigned a = 0; a < 5; ++a)
    for (unsigned b = 0; b < 5; ++b) {
      bool const is = (el[a] & el[b]) != 0U && first[b] != last[a] && last[b] != first[a];
      vc::check(ex.exclusion_graph_.nodes_[a][b] == is, "routes exclude each other iff they share an element and none directly follows the other");
    }
}
}  // namespace
VC_BOUNDED(C13, whole_network) {
  for (unsigned m = 0; m < 32768; m += 1201) whole(m, true, m % 3 != 0);
  whole(21845, false, true);
  whole(4711, false, false);
}
