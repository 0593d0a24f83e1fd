prop("C01", "A service-day calendar is an exact set of days",
     "The bitfield that holds a train's service days behaves as a set of calendar days over the covered range: querying, setting, union, equivalence, building from a mask string and iterating (from the beginning, from or up to a given time) agree with that set for every day. Iteration yields exactly the days in service, in order, and bounds-checked access fails exactly outside of the covered range. The first and last day in service are reported as the midnights of those days.",
     ["inputs"], "for all calendars of up to 512 days with arbitrary first day and arbitrary set days, and all query days and times",
     "a calendar has 2^512 contents times every first day; tests sample a few short masks and dates",
     ["src/timetable/bitfield.cc", "include/soro/timetable/bitfield.h"],
     [("index of a day, set/at/operator[]", "src/timetable/bitfield.cc: get_idx, set, at"), ("day iterator, from, to", "src/timetable/bitfield.cc: iterator::operator++, from, to"),
      ("union and equivalence over different ranges", "src/timetable/bitfield.cc: operator|, equivalent"), ("mask string", "src/timetable/bitfield.cc: make_bitfield")],
     "return values of the bitfield API",
     "proved for all inputs: queries, set, union, equivalence, iteration, from/to, first/last set date, ok, at; bounded: count (12 days), get_set_days (6 listed days), make_bitfield (listed mask lengths)")
prop("C02", "The departures of a train in an interval are exactly its trips with events there",
     "For every train and every valid query interval, iterating the train's departures yields, in ascending order and without omission, the midnights of exactly those service days whose trip has events in the interval, that is whose span from the day plus the first departure to the day plus the last arrival meets the closed interval. Trips that start on an earlier day and run into the interval are included. Intervals overlap iff they have a common point in time.",
     ["inputs", "histories"], "for all calendars, departure/arrival offsets up to a week, all query intervals and every step of the iteration",
     "the outcome depends on the interplay of calendar, offsets beyond midnight and interval; tests use a handful of intervals on five trains",
     ["src/timetable/train.cc", "include/soro/timetable/train.h", "include/soro/timetable/interval.h", "src/timetable/bitfield.cc"],
     [("search for the next trip", "src/timetable/train.cc: train::iterator::advance"), ("trip span", "src/timetable/train.cc: event_interval"), ("overlap", "include/soro/timetable/interval.h: overlaps")],
     "values produced by train::departures(interval)",
     "begin, end and increment of the departure iterator proved for all inputs with loop invariants; the day iterator is used through its contract, which is proved separately; dates 1972-2079, offsets up to 7 days (no 32 bit overflow of absolute seconds)")
prop("C03", "Time conversions and time arithmetic are exact",
     "Points in time and durations count seconds exactly. The midnight of a time is the latest day boundary that is not after it, for every representable time; the conversions between absolute times, anchor-relative times, calendar dates and their integer representations invert each other; sums, differences, comparisons and unit conversions (minutes, hours, days) of unix times and durations agree with integer arithmetic on seconds; a closed interval contains a time iff the time is neither before its start nor after its end; and exactly the designated invalid value is invalid.",
     ["inputs"], "for all 32 bit absolute and relative times and all 64 bit unix times and durations (without overflow of the exact result)",
     "the errors sit at single boundary values (day boundaries, interval ends, the 2038 and 2106 limits)",
     ["include/soro/base/time.h", "include/soro/utls/unixtime.h", "src/utls/unixtime.cc"],
     [("midnight, anchor-relative times", "include/soro/base/time.h: midnight, relative_to_absolute, absolute_to_relative"), ("unix time arithmetic", "include/soro/utls/unixtime.h: unixtime, duration"), ("closed interval", "src/utls/unixtime.cc: in_interval")],
     "return values of the time functions",
     "proved for all inputs; calendar dates 1970-2106; formatting and parsing of time strings is not covered")
prop("C04", "Narrowing conversions are exact or refused",
     "For every pair of integral types of 8 to 64 bits and every value, the narrowing check accepts the value iff the target type can represent it, and a checked narrowing conversion either returns the same mathematical value or fails its assertion (in builds with assertions). Conversions that can never lose a value are classified as such.",
     ["inputs"], "for all 64 pairs of integer types and all source values",
     "the boundary cases lie at the type limits of mixed signedness pairs; no test covers them",
     ["include/soro/utls/narrow.h"], [("range test", "include/soro/utls/narrow.h: detail::fits"), ("conversion", "include/soro/utls/narrow.h: narrow")],
     "return value or exception of narrow",
     "proved for all 64 type pairs and all values, with the project's assertions enabled")
prop("C05", "Exclusion sets obey the algebra of finite sets",
     "An exclusion set represents a finite set of ids. Building it from ids, membership, adding an id, union, difference, counting, listing and comparing (equivalent, proper subset, proper superset, unordered, contains) agree with that set of ids, including for the empty set and for sets over different id ranges; operands that are only read stay unchanged; iteration visits exactly the members in ascending order.",
     ["inputs", "histories"], "for all sets of ids and all operations on them",
     "the outcome depends on the contents of two sets and on how their id ranges lie to each other; tests sample a few small sets",
     ["src/infrastructure/exclusion/exclusion_set.cc", "include/soro/infrastructure/exclusion/exclusion_set.h"],
     [("difference, compaction", "src/infrastructure/exclusion/exclusion_set.cc: operator-=, compact, get_first_set, get_last_set"), ("union", "src/infrastructure/exclusion/exclusion_set.cc: operator|=, lower_first, increase_last"),
      ("comparison", "src/infrastructure/exclusion/exclusion_set.cc: compare, contains_impl, contains_impl_same_size"), ("iteration", "include/soro/infrastructure/exclusion/exclusion_set.h: iterator")],
     "membership, comparison results and iterated ids",
     "proved for sets of any size: membership, soundness of comparison, iteration, search of the first and last member; bounded stand-ins (one to three 64-id blocks, all contents, all positions): union, difference, adding an id, exactness of comparison, building, listing. The bit vector container is a stand-in for the library's (assumed)")
prop("C06", "Every infrastructure element is classified, located and connected consistently",
     "Each element type belongs to exactly one class (end, simple, switch, cross, directed or undirected track element); all type queries, names, numeric ids and source tags agree with that classification, and an element answers type, class, direction and id queries with the values of its own data. The neighbour accessors of an element address distinct slots. The kilometrage of an element towards a neighbour is the one of the end that neighbour is attached to, and the distance between two adjacent elements is the non-negative difference of their facing kilometrages, the same from both sides. A section yields its elements from, to and between two of its elements in either direction, and the node a node is entered from (reverse ahead) continues straight to it and is never on the branch of a switch. A cross is a switch iff it has one of the two connecting arcs.",
     ["inputs"], "for all types, all element kinds with arbitrary data, every neighbour slot and all kilometrages",
     "there are thirty types and a dozen tables over them, and six element layouts; tests exercise the ones that occur in the sample network",
     ["src/infrastructure/graph/type.cc", "src/infrastructure/graph/element.cc", "include/soro/infrastructure/graph/element.h", "include/soro/infrastructure/graph/type.h"],
     [("type classes, names, tags", "src/infrastructure/graph/type.cc: is_*, get_type, get_type_str, all_types"), ("kilometrage at a neighbour, distance", "src/infrastructure/graph/element.cc: get_km, get_distance"),
      ("neighbour slots", "include/soro/infrastructure/graph/element.h: accessors")],
     "return values of the type and element queries",
     "proved for all types, element kinds, slots and kilometrages (finite structures, data symbolic); bounded: the reverse ahead of a node with two or three reverse edges, sections of up to four elements")
prop("C07", "Set and sequence algorithms return exactly what their names promise",
     "Merging sorted containers or several sets yields the ascending duplicate-free union; intersecting (of sorted and of unsorted input) yields the common elements, in order of the first operand; the overlap test is true iff there is a common element; a permutation index lists every position once in ascending order of the elements; slicing and clasped slicing keep exactly the addressed range; and removing after or until a predicate keeps exactly the elements up to or from the position the predicate selects.",
     ["inputs"], "for all sequences: removal and slicing of any length and content; merging, intersection, overlap and permutations up to the stated lengths, for every order and coincidence of elements",
     "the results depend on the relative order, duplicates and lengths of several containers; tests use one or two examples each",
     ["include/soro/utls/algo/merge_unique.h", "include/soro/utls/algo/multi_set_merge.h", "include/soro/utls/algo/overlap.h", "include/soro/utls/algo/sort_and_intersect.h", "include/soro/utls/algo/slice.h", "include/soro/utls/algo/remove_after.h", "include/soro/utls/algo/remove_until.h"],
     [("union", "include/soro/utls/algo/merge_unique.h, multi_set_merge.h"), ("intersection and overlap", "include/soro/utls/algo/overlap.h, sort_and_intersect.h"), ("sub-sequences", "include/soro/utls/algo/slice.h, remove_after.h, remove_until.h")],
     "returned containers",
     "proved for vectors of any length: remove_until, remove_after, slice in place; bounded stand-ins (vectors of up to three or four elements, all values or all order patterns): union, intersection, overlap, permutation index, copying slices")
prop("C08", "Routes and trains are traversed node by node",
     "Iterating a station route, an interlocking route or a train, completely or from or up to one of its nodes, yields exactly the nodes of that range, once and in order. A node is marked as omitted iff the route omits it (or it is a halt the train does not stop at), and an additional speed limit or a sequence point is attached to exactly the node it belongs to. Size, first and last node, membership and sub-paths of an interlocking route agree with its nodes. Freight trains use the freight halts, other trains the passenger halts, transits the runtime checkpoints. The length of a path is the sum of the distances of its consecutive elements.",
     ["inputs"], "for all halts, checkpoints, types, times and kilometrages; for all routes of up to four nodes and all chains of up to three routes, with every combination of omitted nodes, ends and stops",
     "the yielded nodes depend on offsets at both ends, on every route boundary and on what lies on each node; tests walk the routes of one sample network",
     ["src/infrastructure/station/station_route.cc", "src/infrastructure/interlocking/interlocking_route.cc", "src/timetable/train.cc", "src/timetable/sequence_point.cc", "include/soro/infrastructure/path/length.h"],
     [("nodes of a station route", "src/infrastructure/station/station_route.cc: from_to, from, to, get_halt_idx"), ("nodes of an interlocking route", "src/infrastructure/interlocking/interlocking_route.cc: from_to, iterate, contains, size, iterate_station_routes"),
      ("nodes of a train", "src/timetable/train.cc: iterate_train, get_start_node"), ("halts and checkpoints", "src/timetable/sequence_point.cc: get_node_idx"), ("path lengths", "include/soro/infrastructure/path/length.h")],
     "values yielded by the generators, return values",
     "proved for all inputs: kinds of routes, halts and checkpoints, sequence points, absolute times, speed limits effective for a train; bounded stand-ins: iteration (station routes up to three nodes, interlocking routes and trains over up to three station routes), trip lists (four days), path lengths (four elements, all kilometrages)",
     level="other")
prop("C09", "The ordering graph orders exactly the conflicting route usages of all trips",
     "The ordering graph of a timetable has, for every trip of the requested trains in the requested interval, one node per interlocking route of its path, in order. A usage can reach another one iff it precedes it in its trip or uses a mutually exclusive route earlier, or by a chain of these. Incoming and outgoing edges mirror each other, no edge remains that a longer path replaces, and removing transitive edges never changes what is reachable in an acyclic graph. Breadth and depth first search visit every reachable node and edge exactly once and stop on demand. A cycle is reported iff there is one, and it is a shortest one. The exclusion check holds iff any two usages of mutually exclusive routes are connected by a path.",
     ["inputs"], "for all graphs of up to three nodes and samples of four nodes, and timetables of up to three trains over four days",
     "the outcome depends on the shape of the whole graph, on usage times of all trains and on the exclusion sets; tests use one small timetable",
     ["src/simulation/ordering/ordering_graph.cc", "src/simulation/ordering/remove_transitive_edges.cc", "src/simulation/ordering/get_cycle.cc", "src/simulation/ordering/check_exclusion_paths.cc", "include/soro/utls/graph/traversal.h", "include/soro/utls/graph/has_cycle.h"],
     [("construction", "src/simulation/ordering/ordering_graph.cc: ordering_graph"), ("transitive edges", "src/simulation/ordering/remove_transitive_edges.cc"), ("cycles", "src/simulation/ordering/get_cycle.cc, include/soro/utls/graph/has_cycle.h"),
      ("exclusion paths", "src/simulation/ordering/check_exclusion_paths.cc"), ("traversal", "include/soro/utls/graph/traversal.h")],
     "nodes and edges of the ordering graph, results of the graph algorithms",
     "bounded: all graphs of up to three nodes (traversal with self loops, cycles, transitive edges, exclusion paths) and samples of four nodes; construction for two to three trains. The running time calculation is used through an assumed contract (one timestamp per main signal)",
     level="other")
prop("C10", "Trains obey speed limits and run as fast as their driving dynamics allow",
     "The path of a train is divided at its halts, at main signals and at speed limits that apply from their place; each interval carries the speed limit in force: the last effective one, applied from its place or from the last main signal, or the last effective one before the start, or the default. Limits are the same on both sides of an interval, never above those in force, and lowered only where the train could not brake in time to the next limit or halt; with the limits lowered it always can. Omitted nodes and limits not effective for the train are ignored. Every requested event of the path gets one timestamp, in order and at its distance. Arrivals follow from distance, limits, maximum speed, acceleration and deceleration; the train departs from a halt as planned but not before its minimum stop time is over, and stops nowhere else. Phases of acceleration, coasting and braking start and end at the right speeds, times and distances.",
     ["inputs"], "for all limits and speeds of vehicles; for the listed kinds of lines with up to eleven places, with limits above and below each other, places that coincide, too short braking distances, early and late departures",
     "the intervals depend on the order, kind and distance of all places on the line and on limits that act backwards; tests run a few trains of one network and compare with stored results",
     ["src/runtime/interval.cc", "include/soro/runtime/interval.h", "src/runtime/runtime.cc", "src/runtime/runtime_physics.cc", "src/rolling_stock/train_physics.cc", "include/soro/utls/math/piecewise_function.h", "include/soro/utls/math/polynomial.h"],
     [("speed limits", "src/runtime/interval.cc: get_initial_spl, get_speed_limit, insert_last_signal_spl, get_interval_list"), ("braking in time", "src/runtime/interval.cc: adjust_speed_limits"), ("timestamps", "src/runtime/runtime.cc: runtime_calculation, get_runtime_phases, determine_event_timestamps"),
      ("phases", "src/runtime/runtime_physics.cc"), ("physics of a train", "src/rolling_stock/train_physics.cc, include/soro/utls/math")],
     "interval list, timestamps, samples of the driving phases",
     "proved for all inputs: maximum speed, length, deceleration and kind of a train with two vehicles, evaluation of traction curves with three pieces; bounded stand-ins (listed lines with constant traction, executed symbolically with concrete numbers): intervals, limits, timestamps (within two seconds of the closed form), driving phases. IEEE arithmetic is exact in the verifier",
     level="other")
prop("C11", "Interlocking routes lead from main signal to main signal, each generated once",
     "A station route is followed by exactly those of the next station that start at its border, and predecessors mirror successors. For a network of station routes there is exactly one interlocking route for every stretch from a main signal, or the first node of a station route without predecessor, to the next main signal on a chain of succeeding station routes, or the last node of a station route without successor; chains over station routes that require ETCS are left out. Ids are consecutive. For every node the lists of interlocking routes that start, end or halt there, for every station route those over it and for every station those through it are complete, sorted and contain nothing else.",
     ["inputs"], "for all networks of three station routes with three nodes and no cycle, up to two main signals each, halts and ETCS requirements anywhere, and samples with six station routes",
     "the routes depend on the shape of the whole network; tests check a few counts on one network",
     ["src/infrastructure/station/station_route_graph.cc", "src/infrastructure/station/station_route.cc", "src/infrastructure/interlocking/get_interlocking.cc"],
     [("succession", "src/infrastructure/station/station_route_graph.cc: get_station_route_graph"), ("routes", "src/infrastructure/interlocking/get_interlocking.cc: get_interlocking_routes"),
      ("mappings", "src/infrastructure/interlocking/get_interlocking.cc: get_starting_at, get_ending_at, get_halting_at, get_sr_to_participating_irs, get_station_to_interlocking_routes")],
     "interlocking::routes_ and its mappings, station_route_graph",
     "bounded: networks of three station routes (all signal positions and edges) and samples with six; main signals at neither end of the network, acyclic succession, ETCS station routes inside the network with at most one main signal",
     level="other")

prop("C12", "Station routes and stops become the interlocking routes that carry the train",
     "The path of a train given as a sequence of station routes, some of them with a stop or a timed point, becomes a list of interlocking routes: one from each main signal on the path to the next one, beginning with the last main signal (or start of the network) at or before the first stop, or the beginning of the path if the train breaks in, and ending with the first main signal (or end of the network) at or after the last stop, or the end of the path if it breaks out. They follow one another and use the station routes of the train in order. All stops and timed points are kept, in order, and no others are added. Freight trains stop at the freight halts, others at the passenger halts. The list is found whenever the path determines it, also if the first or the last interlocking route leads beyond the given station routes.",
     ["inputs"], "for all networks of the listed shapes (lines and chains of up to four station routes, every placement of main signals) and all sub-lines and stops on them",
     "whether a list is found depends on where main signals lie relative to every station route border and to the first and last stop; no test covers a train that starts or ends inside an interlocking route",
     ["src/timetable/parsers/station_route_to_interlocking_route.cc", "src/timetable/parsers/route_transform_error.cc", "src/timetable/sequence_point.cc"],
     [("first interlocking route", "src/timetable/parsers/station_route_to_interlocking_route.cc: get_first_ir"), ("cover of the stop sequence", "src/timetable/parsers/station_route_to_interlocking_route.cc: transform_to_interlocking")],
     "result of transform_to_interlocking",
     "bounded: lines of three station routes (every placement of main signals, every sub-line) and chains; main signals not on the last node of a station route, stops not on main signals",
     level="other")
prop("C13", "Interlocking routes exclude each other iff they share an element",
     "The exclusion elements of an interlocking route are exactly the elements from its first to its last one that join tracks or can end a route, sorted and without duplicates, for either direction, in one or several sections, for routes that start or end inside a section or at its border. The open exclusion elements leave out the first and the last one. Every element lists exactly the routes that use it, whatever the number of threads. In the exclusion graph two routes are connected iff they share an exclusion element and neither starts where the other ends, so the relation is symmetric. Every route is mapped to exactly the cliques it is a member of, and the parts that were not requested stay empty.",
     ["inputs"], "for all routes over three sections joined by a switch with arbitrary directed elements, and samples of use by four routes of four elements",
     "the elements depend on direction, section borders and on what lies at both ends of a route; tests only compare counts of one network",
     ["src/infrastructure/exclusion/exclusion_elements.cc", "src/infrastructure/exclusion/get_exclusion_graph.cc", "src/infrastructure/exclusion/get_exclusion.cc"],
     [("exclusion elements", "src/infrastructure/exclusion/exclusion_elements.cc: get_exclusion_elements, get_open_exclusion_elements"), ("use of elements", "src/infrastructure/exclusion/get_exclusion.cc: get_closed_element_used_by"),
      ("exclusion graph", "src/infrastructure/exclusion/get_exclusion_graph.cc")],
     "infra->exclusion_",
     "bounded: 24 yards (three sections, one switch, seeded kinds and directions, every route on them), 330 samples of four routes with shared elements, complete construction on one yard. Threads run sequentially in the verifier; the clique file parser is an assumed contract",
     level="other")
