"""Which contract files decide which property."""
CUT1 = {"cut_after": 1}
PROPS = {
    "C01": dict(files=[("bitfield.cc", {"asserts": True})], heavy=["union_days", "first_set", "last_set", "set_day"]),
    "C02": dict(files=[("train.cc", {})], contract_opts={"departures_begin": CUT1, "departures_next": CUT1, "departures_end": CUT1},
                heavy=["departures_begin", "departures_next", "departures_end"]),
    "C03": dict(files=[("time.cc", {"asserts": True})]),
    "C05": dict(files=[("exclusion_set.cc", {})], par=6, heavy=["minus_2_2_0", "minus_copy_2_2_0", "union_inside", "compare_same_range", "compare_covering", "compare_other"]),
    "C07": dict(files=[("algo.cc", {})]),
    "C04": dict(files=[("narrow.cc", {"asserts": True})]),
}
PROPS["C06"] = dict(files=[("types.cc", {"flags": ["-DVC_STD_VECTOR"]}), ("elements.cc", {"asserts": True})])
PROPS["C08"] = dict(files=[("routes.cc", {})], level="other",
    explanation="Proof obligations are generated from the current sources and discharged for all symbolic inputs. Contracts of kind proof hold for all inputs; "
    "contracts of kind bounded cover every route, interlocking route and train up to the sizes given in the manifest (shapes enumerated, data symbolic) and are not counted as proved.")
PROPS["C09"] = dict(files=[("ordering.cc", {"flags": ["-std=gnu++2b"]})], level="other",
    trusted=["the search tree of std::map (replaced by an unbalanced one)", "runtime_calculation: one timestamp per main signal, assumed contract", "cista::hash_set: stand-in (finite set)"],
    explanation="All contracts are bounded stand-ins: every graph of up to three nodes and samples of four nodes, timetables of two and three trains. Obligations are generated "
    "from the current sources and discharged; they are not counted as proved.")
PROPS["C10"] = dict(files=[("intervals.cc", {})], level="other",
    explanation="Contracts of kind proof hold for all inputs. Contracts of kind bounded execute the real code on the listed lines and trains with concrete numbers "
    "(every memory access, trap and postcondition is an obligation); they are not counted as proved.")
PROPS["C11"] = dict(files=[("interlocking.cc", {})], level="other",
    explanation="All contracts are bounded stand-ins: the real code is executed symbolically on every network of the listed shapes; every memory access, trap and postcondition is an "
    "obligation. They are not counted as proved.")
PROPS["C12"] = dict(files=[("transform.cc", {})], level="other",
    explanation="All contracts are bounded stand-ins: the real code is executed symbolically on the listed networks and stop sequences; every memory access, trap and postcondition is an "
    "obligation. They are not counted as proved.")
PROPS["C13"] = dict(files=[("exclusion.cc", {})], level="other",
    trusted=["std::thread: sequential stand-in", "read_cliques: assumed contract (any list of lists of routes)"],
    explanation="All contracts are bounded stand-ins: the real code is executed symbolically on the listed networks; every memory access, trap and postcondition is an obligation. "
    "They are not counted as proved.")
