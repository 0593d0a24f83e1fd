// C06: classification and names of infrastructure element types.
#include "vc.h"
#include "src/infrastructure/graph/type.cc"
using namespace soro::infra;

namespace {
type any_type() { return id_to_type(vc::range<std::uint8_t>("type", 0, type_to_id(type::INVALID))); }
template <typename... T>
bool one_of(type const t, T const... ts) {
  return ((t == ts) || ...);
}
bool end_el(type const t) { return one_of(t, type::BUMPER, type::TRACK_END); }
bool simple_el(type const t) { return one_of(t, type::KM_JUMP, type::BORDER, type::LINE_SWITCH); }
bool directed(type const t) {
  return one_of(t, type::MAIN_SIGNAL, type::PROTECTION_SIGNAL, type::APPROACH_SIGNAL, type::RUNTIME_CHECKPOINT, type::EOTD, type::SPEED_LIMIT,
                type::POINT_SPEED, type::BRAKE_PATH, type::LZB_START, type::LZB_END, type::LZB_BLOCK_SIGN, type::ETCS_START, type::ETCS_END,
                type::ETCS_BLOCK_SIGN, type::FORCED_HALT, type::META, type::HALT);
}
bool undirected(type const t) {
  return one_of(t, type::TUNNEL, type::ENTRY, type::TRACK_NAME, type::RUNTIME_CHECKPOINT_UNDIRECTED, type::LEVEL_CROSSING, type::SLOPE);
}
}  // namespace

VC_CONTRACT(C06, type_classes) {
  auto const t = any_type();
  vc::check(is_end_element(t) == end_el(t), "bumpers and track ends are the end elements");
  vc::check(is_simple_element(t) == simple_el(t), "kilometre jumps, borders and line switches are the simple elements");
  vc::check(is_simple_switch(t) == (t == type::SIMPLE_SWITCH) && is_cross(t) == (t == type::CROSS), "switches and crosses");
  vc::check(is_directed_track_element(t) == directed(t), "directed track elements");
  vc::check(is_undirected_track_element(t) == undirected(t), "undirected track elements");
  vc::check(is_track_element(t) == (directed(t) || undirected(t)), "track elements are the directed and the undirected ones");
  vc::check(is_section_element(t) == !is_track_element(t), "everything else is a section element");
  vc::check(is_border(t) == (t == type::BORDER) && is_halt(t) == (t == type::HALT), "borders and halts");
  vc::check(is_runtime_checkpoint(t) == one_of(t, type::RUNTIME_CHECKPOINT, type::RUNTIME_CHECKPOINT_UNDIRECTED), "runtime checkpoints");
  vc::check(is_lzb(t) == one_of(t, type::LZB_START, type::LZB_END, type::LZB_BLOCK_SIGN), "LZB elements");
  vc::check(is_etcs(t) == one_of(t, type::ETCS_START, type::ETCS_END, type::ETCS_BLOCK_SIGN), "ETCS elements");
  int const classes = is_end_element(t) + is_simple_element(t) + is_simple_switch(t) + is_cross(t) + is_directed_track_element(t) + is_undirected_track_element(t);
  vc::check(classes == (t == type::INVALID ? 0 : 1), "every valid type is in exactly one class");
}
VC_CONTRACT(C06, type_ids) {
  auto const t = any_type();
  vc::check(id_to_type(type_to_id(t)) == t, "type -> id -> type");
  auto const all = all_types();
  vc::check(all.size() == type_count && type_count == 30, "there are thirty types");
  if (t != type::INVALID) vc::check(all[type_to_id(t)] == t, "all_types() lists every type at its id");
}
VC_CONTRACT(C06, type_names_differ) {
  for (int i = 0; i <= type_count; ++i) {
    auto const a = get_type_str(id_to_type(static_cast<type_id>(i)));
    vc::check(!a.empty(), "every type has a name");
    for (int k = 0; k < i; ++k) vc::check(a != get_type_str(id_to_type(static_cast<type_id>(k))), "different types have different names");
  }
}
VC_CONTRACT(C06, types_of_tags) {
  struct entry {
    const char* tag;
    type t;
  };
  entry const entries[] = {
      {"KmSprungEnde", type::KM_JUMP}, {"KmSprungAnfang", type::KM_JUMP}, {"Streckenwechsel0", type::LINE_SWITCH},
      {"Streckenwechsel1", type::LINE_SWITCH}, {"Prellbock", type::BUMPER}, {"Betriebsstellengrenze", type::BORDER},
      {"Gleisende", type::TRACK_END}, {"VorsignalS", type::APPROACH_SIGNAL}, {"VorsignalF", type::APPROACH_SIGNAL},
      {"HauptsignalF", type::MAIN_SIGNAL}, {"HauptsignalS", type::MAIN_SIGNAL}, {"SchutzsignalF", type::PROTECTION_SIGNAL},
      {"SchutzsignalS", type::PROTECTION_SIGNAL}, {"FstrZugschlussstelleF", type::EOTD}, {"FstrZugschlussstelleS", type::EOTD},
      {"SignalZugschlussstelleF", type::EOTD}, {"SignalZugschlussstelleS", type::EOTD}, {"GeschwEndeSpeziellF", type::SPEED_LIMIT},
      {"GeschwEndeSpeziellS", type::SPEED_LIMIT}, {"GeschwZulaessigS", type::SPEED_LIMIT}, {"GeschwZulaessigF", type::SPEED_LIMIT},
      {"PunktgeschwF", type::POINT_SPEED}, {"PunktgeschwS", type::POINT_SPEED}, {"ZwangshaltS", type::FORCED_HALT},
      {"ZwangshaltF", type::FORCED_HALT}, {"FahrzeitmesspunktS", type::RUNTIME_CHECKPOINT}, {"FahrzeitmesspunktF", type::RUNTIME_CHECKPOINT},
      {"HalteplatzGzF", type::HALT}, {"HalteplatzGzS", type::HALT}, {"HalteplatzRzLinksS", type::HALT},
      {"HalteplatzRzLinksF", type::HALT}, {"HalteplatzRzRechtsS", type::HALT}, {"HalteplatzRzRechtsF", type::HALT},
      {"HalteplatzRzBeideS", type::HALT}, {"HalteplatzRzBeideF", type::HALT}, {"HalteplatzRzRechtsLinksF", type::HALT},
      {"HalteplatzRzRechtsLinksS", type::HALT}, {"BremswegF", type::BRAKE_PATH}, {"BremswegS", type::BRAKE_PATH},
      {"Neigung", type::SLOPE}, {"Tunnel", type::TUNNEL}, {"Gleisbezeichnung", type::TRACK_NAME},
      {"Bahnuebergang", type::LEVEL_CROSSING}, {"Fahrzeitmesspunkt", type::RUNTIME_CHECKPOINT_UNDIRECTED}, {"Zugang", type::ENTRY},
      {"Weichenanfang", type::SIMPLE_SWITCH}, {"Weichenstamm", type::SIMPLE_SWITCH}, {"WeichenabzweigLinks", type::SIMPLE_SWITCH},
      {"WeichenabzweigRechts", type::SIMPLE_SWITCH}, {"KreuzungAnfangLinks", type::CROSS}, {"KreuzungEndeLinks", type::CROSS},
      {"KreuzungAnfangRechts", type::CROSS}, {"KreuzungEndeRechts", type::CROSS}, {"KreuzungsweicheAnfangLinks", type::CROSS},
      {"KreuzungsweicheEndeLinks", type::CROSS}, {"KreuzungsweicheAnfangRechts", type::CROSS}, {"KreuzungsweicheEndeRechts", type::CROSS},
      {"LZBAnfangS", type::LZB_START}, {"LZBAnfangF", type::LZB_START}, {"LZBEndeS", type::LZB_END},
      {"LZBEndeF", type::LZB_END}, {"LZBBlockkennzeichenS", type::LZB_BLOCK_SIGN}, {"LZBBlockkennzeichenF", type::LZB_BLOCK_SIGN},
      {"ETCSAnfangS", type::ETCS_START}, {"ETCSAnfangF", type::ETCS_START}, {"ETCSEndeS", type::ETCS_END},
      {"ETCSEndeF", type::ETCS_END}, {"ETCSBlockkennzeichenS", type::ETCS_BLOCK_SIGN}, {"ETCSBlockkennzeichenF", type::ETCS_BLOCK_SIGN},
  };
  for (auto const& e : entries) vc::check(get_type(e.tag) == e.t, "every tag of the infrastructure format denotes its type");
  for (auto const* n : {"Bildpunkt", "Streckenklasse", "", "S", "Signal", "Weiche", "HauptsignalX", "Hauptsignal"}) vc::check(get_type(n) == type::INVALID, "unknown tags denote no type");
}

// sets of types
#include "src/infrastructure/graph/type_set.cc"
VC_CONTRACT(C06, type_sets) {
  type const a = any_type(), b = any_type(), c = any_type(), q = any_type();
  type_set const s{a, b, c};
  vc::check(s.contains(q) == (q == a || q == b || q == c), "a type set contains the listed types");
  type_set const all{all_types()};
  vc::check(all.contains(q) == (q != type::INVALID), "the set of all types contains every type");
}
