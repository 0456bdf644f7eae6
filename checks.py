CHECKS = {}
def H(name, what, bounds, budget=30, **kw):
    return dict(name=name, what=what, bounds=bounds, budget=budget, **kw)

CHECKS["C01"] = dict(files=["C01.cc"], harnesses=[
  H("c01_single", "one comparison: satisfy, order, negation, bounds", "2 clocks, all operators, constants 0..12, clock values 0..16 step 2^-19"),
  H("c01_simplify1", "simplify / toBounds / widen / negateAll", "1 comparison over 2 clocks, constants 0..12, values 0..16 step 2^-18"),
  H("c01_simplify2", "same", "2 comparisons"), H("c01_simplify3", "same", "3 comparisons"),
  H("c01_conjunction", "conjunction", "up to 2+1 comparisons"),
  H("c01_negate_1", "complement of a DNF guard", "1 guard of 1 comparison, 2 clocks, constants 0..6, values 0..8 step 2^-17"),
  H("c01_negate_2", "same", "1 guard of 2"), H("c01_negate_11", "same", "2 guards of 1, 2 clocks"), H("c01_negate_21", "same", "guards of 2+1, 1 clock"),
  H("c01_negate_22", "same", "2+2, 1 clock"), H("c01_negate_111", "same", "1+1+1, 1 clock"), H("c01_negate_true", "same", "1-3 guards, one of them without comparisons", budget=15), H("c01_negate_22x2", "same", "2+2, 2 clocks", budget=20), H("c01_negate_212", "same", "2+1+2, 1 clock", thorough_only=True)])
CHECKS["C02"] = dict(files=["C02.cc"], harnesses=[
  H("c02_sat1", "satisfiable / simpleVariables", "1 comparison over 2 clocks, constants 0..8"), H("c02_sat2", "same", "2"), H("c02_sat3", "same", "3"),
  H("c02_weak1", "isWeaker on comparisons", "constants 0..8"), H("c02_weak11", "isWeaker on guards", "1 vs 1"), H("c02_weak12", "same", "1 vs 2"), H("c02_weak22", "same", "2 vs 2"),
  H("c02_hull11", "unionHull", "1,1"), H("c02_hull22", "same", "2,2"), H("c02_hull111", "same", "1,1,1"), H("c02_hull20", "same", "2,0"),
  H("c02_adj11", "adjacent + unionHull", "1,1 on one clock, an optional common comparison on another"), H("c02_adj21", "same", "2,1"), H("c02_adj22", "same", "2,2"), H("c02_adjfree11", "same", "1,1 over 2 clocks"), H("c02_adjfree12", "same", "1,2 over 2 clocks"), H("c02_adjfree22", "same", "2,2 over 2 clocks", budget=15),
  H("c02_upper", "addUpperBound", "up to 2 comparisons")])
Z2 = "2 clocks, every bound independent: constant, strictness, or absent"
CHECKS["C03"] = dict(files=["C03.cc"], harnesses=[
  H("c03_tighten2x2", "tighten/close/emptiness", "2 clocks, 2 constraints between any two clocks or a clock and 0, constants -3..3, both strictnesses"), H("c03_tighten2x2_raw", "same, not canonized first", "same"),
  H("c03_tighten2x3", "same", "3 constraints", budget=12), H("c03_tighten2x3_raw", "same", "3 constraints"), H("c03_tighten3x3", "same", "3 clocks, 3 constraints", budget=12),
  H("c03_guard1", "tighten with a guard", "box zone over 2 clocks, 1 comparison"), H("c03_guard2", "same", "2 comparisons"), H("c03_point", "zones of one valuation, zero, top, unsat", "2-3 clocks"),
  H("c03_meet1", "intersection", "1 clock"), H("c03_meet2_box", "intersection", "2 clocks, boxes"), H("c03_meet2", "intersection", Z2, logic="FD"), H("c03_incl1", "inclusion, equality", "1 clock"), H("c03_incl2_box", "same", "2 clocks, boxes", budget=10), H("c03_incl2", "same", Z2, budget=15)])
CHECKS["C04"] = dict(files=["C04.cc"], harnesses=[
  H("c04_delay1", "elapse / reverseElapse", "1 clock"), H("c04_delay2_box", "same", "2 clocks, box"), H("c04_delay2", "same", Z2), H("c04_delay3_box", "same", "3 clocks, box", budget=8, thorough_only=True),
  H("c04_reset1", "applyResets", "1 clock"), H("c04_reset2x1", "same", "2 clocks, 1 simultaneous update, constants 0..2"), H("c04_reset2x1_unb", "same", "also unbounded", budget=15), H("c04_reset2x2", "same", "2 clocks, 2 updates", budget=15), H("c04_reset3x2", "same", "3 clocks, 2 updates", budget=12),
  H("c04_revert1", "revertResets", "1 clock"), H("c04_revert2x1", "same", "2 clocks, 1 simultaneous update, constants 0..2"), H("c04_revert2x1_unb", "same", "also unbounded", budget=15), H("c04_revert2x2", "same", "2 clocks, 2 updates"), H("c04_revert3x2", "same", "3 clocks, 2 updates", budget=12), H("c04_resetzero", "reset / unconstrain", Z2)])
CHECKS["C05"] = dict(files=["C05.cc"], harnesses=[H("c05_extra1", "extrapolate", "1 clock"), H("c05_extra2_box", "same", "2 clocks, box, maxima 0..2", logic="FD"), H("c05_extra2", "same", Z2, budget=15, logic="FD"), H("c05_abstractize", "abstractize", Z2)])
CHECKS["C06"] = dict(files=["C06.cc"], harnesses=[H("c06_sample1", "sample", "1 clock"), H("c06_sample2", "same", Z2 + ", constants up to 4"), H("c06_sample2h", "same", "2 clocks, half-integer bounds"), H("c06_sample3_box", "same", "3 clocks, box", budget=20), H("c06_sample3", "same", "3 clocks, all bounds present", budget=60, thorough_only=True)])
CHECKS["C07"] = dict(files=["C07.cc"], harnesses=[H("c07_construct", "construction, absorption, accumulated durations", "up to 3 actions of {a, b, unobservable}, delays 0..4 step 2^-19"), H("c07_concat", "concatenation, associativity, suffix", "2+2+1 actions"), H("c07_extend", "appending an action or a delay", "2 actions"), H("c07_equal", "equality", "2 vs 2 actions")])
CHECKS["C08"] = dict(files=["C08.cc"], harnesses=[H("c08_region%d" % n, "regions of words", "%d delays on a grid" % n) for n in (1, 2, 3)] + [H("c08_exact%d" % n, "makeExact", "%d delays" % n) for n in (1, 2, 3)]
  + [H("c08_members%d" % n, "contains, isSimple, toGuard", "%d delays, every sum bounded independently" % n) for n in (1, 2, 3)] + [H("c08_enum%d" % n, "enumerate", "%d delays, constants up to %d" % (n, m)) for n, m in ((1, 4), (2, 2), (3, 1))]
  + [H("c08_sample%d" % n, "ElementaryLanguage::sample", "%d delays" % n) for n in (1, 2, 3)] + [H("c08_constrain1", "constrain", "2 delays, prefix of 1"), H("c08_constrain2", "constrain", "3 delays, prefix of 2", budget=12)])
CHECKS["C09"] = dict(files=["C09.cc"], harnesses=[H("c09_cat%d%d" % nm, "concatenation", "%d+%d delays" % nm) for nm in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1))]
  + [H("c09_hull1", "hull, intersection, inclusion", "1 delay"), H("c09_hull2", "same", "2 delays"), H("c09_hull2i", "same, with a third condition", "2 delays, regions"), H("c09_langhull2", "hull of languages", "2"), H("c09_langhull3", "same", "3")]
  + [H("c09_restrict%d" % n, "restrict bounds", "%d delays" % n) for n in (1, 2, 3)] + [H("c09_extend%d" % n, "extendN, extendZero", "%d delays" % n) for n in (1, 2, 3)] + [H("c09_noupper1", "removeUpperBound", "1 delay"), H("c09_noupper2", "same", "2 delays")])
CHECKS["C10"] = dict(files=["C10.cc"], harnesses=[H("c10_" + n, w, b) for n, w, b in (("reduce0", "reduce", "no region"), ("reduce2x1", "reduce", "2 regions, 1 delay up to 3"), ("reduce3x1", "reduce", "3 regions, 1 delay"), ("reduce2x2", "reduce", "2 regions, 2 delays up to 1"), ("reduce3x2", "reduce", "3 regions, 2 delays"), ("reduce4x1", "reduce", "4 regions, 1 delay up to 2"), ("strict1", "getStrictlyConstrainedVariables", "1 clock"), ("strict2", "same", "2 clocks"), ("basic", "construction", "2 delays"))])
D3 = ((0, 3), (1, 2), (2, 2), (3, 1))
CHECKS["C11"] = dict(files=["C11.cc"], harnesses=[H("c11_%s%d" % (h, n), w, budget=12, bounds="%d actions, delays up to %d step 2^-19" % (n, m)) for h, w in (("region", "fromTimedWord"), ("succ", "continuous successor"), ("disc", "discrete successor"), ("prefixes", "prefixes"), ("suffix", "suffix")) for n, m in D3])
CHECKS["C12"] = dict(files=["C12.cc"], harnesses=[H("c12_%s%d" % (h, n), w, budget=12, bounds="%d actions, delays up to %d step 2^-19" % (n, m)) for h, w in (("region", "fromTimedWord"), ("pred", "continuous predecessor"), ("disc", "discrete predecessor")) for n, m in D3])
CHECKS["C13"] = dict(files=["C13.cc"], harnesses=[H("c13_jux11", "juxtaposition", "1+1 clocks, bounds up to 2 or absent", 15), H("c13_ren11", "one equality", "1+1", 15), H("c13_jux21", "juxtaposition", "2+1 clocks, bounds up to 1", 15), H("c13_ren21", "one equality", "2+1", 15), H("c13_ren12", "one equality", "1+2", 15), H("c13_ren21x2", "two equalities", "2+1", 15), H("c13_ren22x1", "one equality", "2+2, regions", 15), H("c13_ren22x2", "two equalities", "2+2, regions", 15)]
  + [H("c13_common" + n, "shared trailing clocks", b, 15) for n, b in (("11", "1 of 1+1"), ("21", "1 of 2+1"), ("12", "1 of 1+2"), ("22x1", "1 of 2+2"), ("22x2", "2 of 2+2"))] + [H("c13_" + n, "independence of earlier calls", "1+1 clocks, three conditions", 15) for n in ("memo", "memocommon", "memocommon0")] + [H("c13_memosizes" + n, "the same conditions with several numbers of common clocks", n + " clocks, regions", 10) for n in ("11", "22", "32")] + [H("c13_sets1", "sets of juxtaposed zones", "sets of up to 3 regions, 1 clock", 15), H("c13_setscommon", "same, shared clock", "same", 15)])
CHECKS["C14"] = dict(files=["C14.cc"], harnesses=[H("c14_maps%d%dx%d" % (n, m, k), "morphism", "%d -> %d clocks, %d renamed, delays up to %d" % (n, m, k, b), 15) for n, m, k, b in ((1, 1, 0, 2), (1, 1, 1, 2), (2, 1, 1, 2), (1, 2, 1, 1), (2, 2, 1, 1), (2, 2, 2, 1))] + [H("c14_domain%d" % n, "domain", "%d clocks" % n, 15) for n in (1, 2)]
  + [H("c14_reset%d%d" % (n, m), "toReset, toValuation, relations", "%d -> %d clocks" % (n, m), 15) for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (2, 3))] + [H("c14_cond%d" % n, "updates of a condition", "%d clocks, constants 0..2 step 2^-17" % n, 15) for n in (1, 2, 3)] + [H("c14_sized" + n, "updates into another number of clocks", n, 15) for n in ("11", "21", "12", "22")] + [H("c14_lang" + n, "updates of a regional language", n, 15) for n in ("11", "21", "22", "12")])
CHECKS["C15"] = dict(files=["C15.cc"], harnesses=[H("c15_" + n, w, b, 10) for n, w, b in (("guards", "guards", "2 locations, 2 clocks, guards of up to 2 comparisons, words of 1 action"), ("resets", "updates", "1 location, 2 clocks, words of 2 actions, up to 2 updates"), ("resets3", "simultaneous updates", "3 clocks, 3 updates, also to non-integers"), ("branch", "several transitions", "2 locations, 2 transitions per action, words of 1 action"), ("long", "runs", "words of 2 actions of {a, b}"), ("long3", "runs", "words of 3 actions"), ("stutter", "split delays", "two delays in a row"), ("swap", "renamings seen by a later guard", "3 clocks, 2x2 updates"), ("again1", "runner used twice", "1 clock, 1+1 actions"), ("again2", "runner used twice", "2 clocks, 1+1 actions"), ("empty", "no location", ""), ("silent1", "urgent unobservable transitions", "1 clock, closed bounds"), ("silent2", "same", "2 clocks"), ("silents1", "unobservable transitions with any closed lower and any upper bounds", "1 transition of up to 2 comparisons, 2 clocks"), ("silents2", "same", "2 transitions, 1 clock"), ("silents22", "same", "2 transitions of up to 1 comparison, 2 clocks"))])
CHECKS["C16"] = dict(files=["C16.cc"], src=["intersection.cc"], harnesses=[H("c16_" + n, w, b, 12) for n, w, b in (("clocks11", "guards and updates", "1+1 clocks, words of 2 actions"), ("clocks21", "same", "2+1 clocks"), ("clocks12", "same", "1+2 clocks"), ("renames", "updates by renaming", "2+2 clocks, words of 3 actions"), ("shape", "locations and edges", "2x2 locations, 3 possible edges each, no clocks, words of 2 actions"), ("nondet", "same, nondeterministic", "words of 2 actions"), ("initial", "several initial locations", "words of up to 1 action"), ("twice", "the product of an automaton with itself", "2 clocks, words of 2 actions"), ("silent", "unobservable moves at an exact clock value", "one per automaton, words of 1 action"), ("silent0", "same", "the word without actions"), ("silents", "several unobservable moves at exact clock values", "up to two in a row per automaton, words of 1 action"), ("silents0", "same", "the word without actions"))])
CHECKS["C17"] = dict(files=["C17.cc"], src=["timed_automaton.cc", "ta2za.cc"], harnesses=[H("c17_" + n, w, b, 10) for n, w, b in (("comp0", "complement", "no edge, words of up to 2 actions"), ("comp1", "complement", "edges with guards of 1 comparisons, 1 clocks, constants 0..2"), ("comp1x2", "complement", "edges with guards of 1 comparisons, 1 clocks, constants 0..2, words of 2 actions"), ("comp2", "complement", "edges with guards of 2 comparisons, 2 clocks, constants 0..2"), ("comp11", "complement", "edges with guards of 1, 1 comparisons, 1 clocks, constants 0..2"), ("comp11x2", "complement", "edges with guards of 1, 1 comparisons, 2 clocks, constants 0..1"), ("comp21", "complement", "edges with guards of 2, 1 comparisons, 1 clocks, constants 0..2"), ("comp10", "complement", "an edge without guard, words of 2 actions"), ("other", "complement", "2 locations, two actions"), ("nolocation", "complement", "no location"), ("total1", "completion", "edges with guards of 1 comparisons, 1 clocks, constants 0..2"), ("total2", "completion", "edges with guards of 2 comparisons, 1 clocks, constants 0..2"), ("total11", "completion", "edges with guards of 1, 1 comparisons, 1 clocks, constants 0..2"), ("total22", "completion", "edges with guards of 2, 2 comparisons, 1 clocks, constants 0..1"), ("total11x2", "completion", "edges with guards of 1, 1 comparisons, 2 clocks, constants 0..1"), ("total111", "completion", "edges with guards of 1, 1, 1 comparisons, 1 clocks, constants 0..1"), ("det11", "determinism", "edges with guards of 1, 1 comparisons, 2 clocks, constants 0..2"), ("det21", "determinism", "edges with guards of 2, 1 comparisons, 1 clocks, constants 0..3"), ("det22", "determinism", "edges with guards of 2, 2 comparisons, 1 clocks, constants 0..2"), ("det111", "determinism", "edges with guards of 1, 1, 1 comparisons, 1 clocks, constants 0..2"), ("det111split", "determinism", "over two actions"), ("det10", "determinism", "one edge without guard"), ("silent0", "complement with an urgent unobservable move", "no other edge"), ("silent0u", "same", "upper bound"), ("silent1", "same", "another edge"), ("silent1u", "same", "another edge, upper bound"))])
CHECKS["C18"] = dict(files=["C18.cc"], src=["timed_automaton.cc", "ta2za.cc"], harnesses=[H("c18_" + n, w, b, 8) for n, w, b in (("graph_unreachable", "removeTriviallyUnreachableStates", "all graphs over 3 locations with 4 possible edges, words of 2 or 3 actions, initial location not accepting"), ("graph_deadloop", "removeDeadLoop", "all graphs over 3 locations with 4 possible edges, words of 2 or 3 actions, initial location not accepting"), ("graph_dead", "removeTriviallyDeadStates", "all graphs over 3 locations with 4 possible edges, words of 2 or 3 actions, initial location not accepting"), ("graph_useless", "removeUselessTransitions", "all graphs over 3 locations with 4 possible edges, words of 2 or 3 actions, initial location not accepting"), ("graph_strong", "simplifyStrong", "all graphs over 3 locations with 4 possible edges, words of 2 or 3 actions, initial location not accepting"), ("graph_simplify", "simplify", "all graphs over 3 locations with 4 possible edges, words of 2 or 3 actions, initial location not accepting"), ("graph_zones", "simplifyWithZones", "all graphs over 3 locations with 4 possible edges, words of 2 or 3 actions, initial location not accepting"), ("pair_transitions11", "simplifyTransitions", "2 edges with guards of 1, 1, 2 clocks"), ("pair_transitions21", "simplifyTransitions", "2 edges with guards of 2, 1"), ("pair_transitions12", "simplifyTransitions", "2 edges with guards of 1, 2"), ("pair_adjacent11", "mergeAdjacentTransitions", "2 edges with guards of 1, 1"), ("pair_adjacent22", "mergeAdjacentTransitions", "2 edges with guards of 2, 2"), ("pair_adjacent21", "mergeAdjacentTransitions", "2 edges with guards of 2, 1"), ("triple_adjacent", "mergeAdjacentTransitions", "3 edges, points and unit intervals"), ("unused2", "removeUnusedClockVariables", "2 clocks"), ("unused3", "same", "3 clocks"), ("unused2strong", "simplifyStrong", "2 clocks"), ("unused2simplify", "simplify", "2 clocks"), ("timed1_zones", "simplifyWithZones", "1 clock, 3 locations, words of 2 actions"), ("timed2_zones", "same", "2 clocks"), ("timed2_strong", "simplifyStrong", "2 clocks"), ("copy", "deepCopy", "2 locations, 2 clocks, words of 2 actions"), ("constants_unreachable", "removeTriviallyUnreachableStates", "2 clocks, guards of 1, constants 0..3, one location unreachable"), ("constants_strong", "simplifyStrong", "same"), ("constants_simplify", "simplify", "same"))])
CHECKS["C19"] = dict(files=["C19.cc"], src=["ta2za.cc"], harnesses=[H("c19_" + n, w, b, 10) for n, w, b in (("chain1", "chain", "1 clock, guards of 2 comparisons, constants 0..2"), ("chain2", "same", "2 clocks, guards of 1, 2"), ("chain2r", "same", "2 clocks, 2 updates"), ("loop1", "loop", "1 clock"), ("loop2", "loop", "2 clocks"), ("merge", "state merging", "2 clocks"), ("copy", "renaming", "2 clocks"), ("copymerge", "renaming and state merging", "2 clocks"), ("initial", "initial locations, no clock", ""), ("silent", "unobservable moves", "1 clock"))])
CHECKS["C20"] = dict(files=["C20.cc"], src=["ta2za.cc", "timed_automaton.cc", "intersection.cc"], harnesses=[H("c20_" + n, w, b, 10) for n, w, b in (("guard1", "guards", "1+1 clocks, guards of 1 comparison with constants 0..3, words of up to 2 actions"), ("guard2", "same", "guards of 2 and 1"), ("guard12", "same", "guards of 1 and 2"), ("branch", "two transitions", "guards of 1"), ("shape", "locations and edges", "2x2 locations, no clocks, words of up to 3 actions"), ("chain", "updates", "3 locations, words of 2 actions, constants 0..1"), ("clocks", "another number of clocks", "1+2 clocks"), ("again", "oracle used twice", "1+1 clocks"), ("same", "equivalent automata", "1+2 clocks"))])
CHECKS["C21"] = dict(files=["C21.cc"], harnesses=[H("c21_" + n, w, b, 12) for n, w, b in (("part1", "symbolic query", "1 delay, constants up to 3, systems of 1 comparison"), ("part1x2", "same", "1 delay, constants up to 2, 2 comparisons (and, or, exclusive or)"), ("part2", "same", "2 delays, constants up to 1, 1 comparison of any sum"), ("part2x2", "same", "2 delays, 2 comparisons"), ("part3", "same", "3 delays, 1 comparison"), ("again1", "repeated queries", "1 delay, 2 conditions"), ("again2", "same", "2 delays, two words"), ("longer", "queries of several lengths", "1 and 2 delays"), ("words00", "cached membership", "no action"), ("words11", "same", "1 action"), ("words12", "same", "1 and 2 actions"), ("words11sym", "same, through the symbolic oracle", "1 action"), ("fresh", "membership through the system", "up to 3 actions"))])
CHECKS["C22"] = dict(files=["C22.cc"], harnesses=[H("c22_" + n, w, b, 6) for n, w, b in (("find110", "search for a renaming", "1 and 1 delays, suffixes of 1 delays"), ("find210", "search for a renaming", "2 and 1 delays, suffixes of 1 delays"), ("find120", "search for a renaming", "1 and 2 delays, suffixes of 1 delays"), ("find220", "search for a renaming", "2 and 2 delays, suffixes of 1 delays"), ("find111", "search for a renaming", "1 and 1 delays, suffixes of 2 delays"), ("find110x2", "search for a renaming", "1 and 1 delays, suffixes of 1 delays, two suffixes"), ("find110or", "search for a renaming", "1 and 1 delays, suffixes of 1 delays, cells of 2 comparisons"), ("find211", "search for a renaming", "2 and 1 delays, suffixes of 2 delays"), ("cut110", "search for a renaming", "1 and 1 delays, comparisons that cut the cells"), ("cut210", "search for a renaming", "2 and 1, comparisons that cut the cells"), ("cut120", "search for a renaming", "1 and 2, comparisons that cut the cells"), ("cut220", "search for a renaming", "2 and 2, comparisons that cut the cells"), ("cut111", "search for a renaming", "1 and 1, suffixes of 2, comparisons that cut the cells"), ("cut110x2", "search for a renaming", "1 and 1, two suffixes, comparisons that cut the cells"), ("cut220x2", "search for a renaming", "2 and 2, two suffixes, comparisons that cut the cells"), ("self1", "reflexivity", "1 delay"), ("self2", "reflexivity", "2 delays"), ("self11", "reflexivity", "1 delay, suffixes of 2"), ("self3", "reflexivity", "3 delays"), ("given110x0", "checking a renaming", "1 and 1 delays, empty renaming"), ("given110x1", "checking a renaming", "1 and 1, one equality"), ("given210x1", "checking a renaming", "2 and 1, one equality"), ("given220x2", "checking a renaming", "2 and 2, two equalities"), ("given111x1", "checking a renaming", "1 and 1, suffixes of 2"), ("general110", "search for any renaming", "1 and 1 delays, suffixes of 1 delay"), ("general210", "search for any renaming", "2 and 1 delays"), ("general120", "search for any renaming", "1 and 2 delays"), ("general220", "search for any renaming", "2 and 2 delays"), ("general111", "search for any renaming", "1 and 1 delays, suffixes of 2 delays"), ("generalcut220", "search for any renaming", "2 and 2 delays, comparisons that cut the cells"), ("graph", "graph of possible equalities", "up to 3 and 2 delays"), ("status", "cell status", "up to 2 delays"), ("candidates", "candidate renamings", "up to 3 and 2 delays"))])
CHECKS["C23"] = dict(files=["C23.cc"], harnesses=[H("c23_" + n, w, b, 8) for n, w, b in (("test1", "stored words", "2 locations, one word of 1 action"), ("test1x2", "same", "two words of up to 1 action"), ("test2", "same", "3 locations, words of 2 actions"), ("test3", "same", "2 locations, {a, b}, words of 3 actions"), ("none", "no stored word", ""), ("empty", "an automaton without locations", ""), ("memo", "memory", "2 locations, hypotheses in sequence"), ("memo0", "same", "any accepting locations, words of up to 1 action"), ("memo2", "same", "3 locations, words of 2 actions"), ("chain0", "chain of oracles", "none"), ("chain1", "same", "1"), ("chain2", "same", "2"), ("chain3", "same", "3"), ("random1", "random testing, arbitrary choices", "2 tests of 1 action"), ("random2", "same", "1 test of 2 actions"), ("random0", "same", "tests without actions"), ("randomsame", "same", "equal automata"))])
CHECKS["C26"] = dict(realhash=True, files=["C26.cc"], src=["observation_table.cc", "timed_automaton.cc", "ta2za.cc", "intersection.cc"], harnesses=[H("c26_" + n, "the automaton learned from exact oracles is deterministic and accepts exactly the target's words", b + "; deterministic targets, words of up to 3 actions with any delays below 4 in multiples of 2^-19", 4, path_timeout=40) for n, b in (
    ("pipeline", "as reset1, with up to 2 test words asked first, a simplified complement and remembered counterexamples"),
    ("pipechain", "as chain, with the same oracles"),
    ("pipecycle", "as cycle with constants 0..1, with the same oracles"),
    ("guard1", "two locations, one transition with one inequality on the clock, constants 0..3, any accepting locations"),
    ("guard2", "as guard1 with up to two inequalities, constants 0..2"),
    ("reset1", "as guard1 with constants 0..2 and the transition leaving the clock, resetting it or setting it to 1"),
    ("reset2", "as guard2 with the transition leaving or resetting the clock"),
    ("chain", "two guarded transitions in a row, constants 0..1, the first leaving the clock or setting it to 0 or 1"),
    ("chain2", "two guarded transitions in a row, constants 0..2, the first leaving or resetting the clock"),
    ("cycle", "a cycle of two guarded transitions, constants 0..1, each leaving or resetting the clock"),
    ("cycle3", "as cycle, each leaving the clock or setting it to 0 or 1"),
    ("branch", "two transitions with complementary guards and a third one, constants 0..2"),
    ("actions", "two actions, one guarded transition each, constants 0..1"),
    ("clocks", "two clocks, two guarded transitions in a row, constants 0..1"),
    ("clockloop", "two clocks, a cycle of two guarded transitions, constants 0..1"),
    ("two", "two clocks, two actions out of the initial location, constants 0..1"),
    ("clocks2", "two clocks, two guarded transitions in a row, constants 0..2"),
    ("three", "three guarded transitions in a row, one clock, constants 0..1"),
    ("three2", "three guarded transitions in a row, two clocks, constants 0..1"),
    ("rename", "three guarded transitions in a row, two clocks, the second transition copying clocks or setting them to constants"),
    ("loop2", "two locations, two actions, a guarded transition for each pair, constants 0..1"),
    ("cyclerename", "two clocks, a cycle of two guarded transitions that copy clocks or set them to constants"),
    ("cycle2", "as cycle with constants 0..2, each leaving the clock or setting it to 0 or 1"),
    ("branch2", "two locations with two complementary guarded transitions each, constants 0..2"))])
CHECKS["C27"] = dict(realhash=True, files=["C27.cc"], src=["observation_table.cc", "timed_automaton.cc", "ta2za.cc", "intersection.cc"], harnesses=[
    H("c27_neighbors1", "the neighbours of a condition are exactly the words that agree on the unit of every clock and, within precise and imprecise clocks, of every difference", "1 clock, delays up to 3; any set of precise clocks", 8),
    H("c27_neighbors2", "the neighbours of a condition are exactly the words that agree on the unit of every clock and, within precise and imprecise clocks, of every difference", "2 clocks, delays up to 2; any set of precise clocks", 8),
    H("c27_neighbors3", "the neighbours of a condition are exactly the words that agree on the unit of every clock and, within precise and imprecise clocks, of every difference", "3 clocks, delays up to 1; any set of precise clocks", 8),
    H("c27_relaxed1", "the relaxed guard is the hull of the conditions the imprecise clocks allow, now and after time successors", "1 clock, delays up to 2, 2 successors; any set of precise clocks", 8),
    H("c27_relaxed2", "the relaxed guard is the hull of the conditions the imprecise clocks allow, now and after time successors", "2 clocks, delays up to 1, 2 successors; any set of precise clocks", 8),
    H("c27_relaxed2b", "the relaxed guard is the hull of the conditions the imprecise clocks allow, now and after time successors", "2 clocks, delays up to 2, 1 successor; any set of precise clocks", 8),
    H("c27_relaxed3", "the relaxed guard is the hull of the conditions the imprecise clocks allow, now and after time successors", "3 clocks, delays up to 1, 1 successor; any set of precise clocks", 8),
    H("c27_action1", "an action keeps the conditions of the other clocks and starts a precise clock at zero", "1 clock, delays up to 2; any set of precise clocks", 8),
    H("c27_action2", "an action keeps the conditions of the other clocks and starts a precise clock at zero", "2 clocks, delays up to 2; any set of precise clocks", 8),
    H("c27_action3", "an action keeps the conditions of the other clocks and starts a precise clock at zero", "3 clocks, delays up to 1; any set of precise clocks", 8),
    H("c27_resets0", "a clock is precise after a transition when it is set to an integer or to a precise clock, or stays precise", "3 clocks, no update; any set of precise clocks", 8),
    H("c27_resets1", "a clock is precise after a transition when it is set to an integer or to a precise clock, or stays precise", "2 clocks, 1 update; any set of precise clocks", 8),
    H("c27_resets2", "a clock is precise after a transition when it is set to an integer or to a precise clock, or stays precise", "3 clocks, 2 updates; any set of precise clocks", 8),
    H("c27_resets3", "a clock is precise after a transition when it is set to an integer or to a precise clock, or stays precise", "3 clocks, 3 updates; any set of precise clocks", 8),
    H("c27_after11", "the condition after a transition contains the updated clocks, each in one unit", "1 clock to 1, 1 update; any set of precise clocks", 8),
    H("c27_after21", "the condition after a transition contains the updated clocks, each in one unit", "2 clocks to 1, 1 update; any set of precise clocks", 8),
    H("c27_after22", "the condition after a transition contains the updated clocks, each in one unit", "2 clocks to 2, 1 update; any set of precise clocks", 8),
    H("c27_after22b", "the condition after a transition contains the updated clocks, each in one unit", "2 clocks to 2, 2 updates; any set of precise clocks", 8),
    H("c27_after23", "the condition after a transition contains the updated clocks, each in one unit", "2 clocks to 3, 1 update; any set of precise clocks", 8),
    H("c27_after32", "the condition after a transition contains the updated clocks, each in one unit", "3 clocks to 2, 1 update; any set of precise clocks", 8),
    H("c27_after33", "the condition after a transition contains the updated clocks, each in one unit", "3 clocks to 3, 2 updates; any set of precise clocks", 8),
    H("c27_embed", "precise clocks are updated as before, the others take the given values", "3 clocks, up to 2 updates; any set of precise clocks", 8),
    H("c27_handler21", "relaxing guards keeps the given transitions, adds only relaxations of them, terminates, and lets neighbours follow the original", "2 clocks, 1 condition per location; any set of precise clocks", 8),
    H("c27_handler22", "relaxing guards keeps the given transitions, adds only relaxations of them, terminates, and lets neighbours follow the original", "2 clocks, 2 successive conditions; any set of precise clocks", 8),
    H("c27_handler23", "relaxing guards keeps the given transitions, adds only relaxations of them, terminates, and lets neighbours follow the original", "2 clocks, 3 successive conditions; any set of precise clocks", 8),
    H("c27_handler22r", "relaxing guards keeps the given transitions, adds only relaxations of them, terminates, and lets neighbours follow the original", "2 clocks, 2 successive conditions, updates, any targets; any set of precise clocks", 8),
    H("c27_handler25", "relaxing guards keeps the given transitions, adds only relaxations of them, terminates, and lets neighbours follow the original", "2 clocks, delays up to 2, 5 successive conditions; any set of precise clocks", 8),
    H("c27_handler32", "relaxing guards keeps the given transitions, adds only relaxations of them, terminates, and lets neighbours follow the original", "3 clocks, 2 successive conditions; any set of precise clocks", 8),
    H("c27_handler33", "relaxing guards keeps the given transitions, adds only relaxations of them, terminates, and lets neighbours follow the original", "3 clocks, 3 successive conditions; any set of precise clocks", 8)])
CHECKS["C25"] = dict(realhash=True, files=["C25.cc"], src=["observation_table.cc", "timed_automaton.cc", "ta2za.cc", "intersection.cc"], harnesses=[
    H("c25_split11", "a word is split exactly when a prefix of it is in a domain; the parts make up the word and are mapped by the morphism", "1 domain of 1 delay, words of 1 delay, any region up to 3; delays up to 2 (multiples of 1/4); every region", 6),
    H("c25_split12", "a word is split exactly when a prefix of it is in a domain; the parts make up the word and are mapped by the morphism", "1 domain of 1 delay, words of 2 delays; delays up to 2 (multiples of 1/4); every region", 6),
    H("c25_split22", "a word is split exactly when a prefix of it is in a domain; the parts make up the word and are mapped by the morphism", "1 domain of 2 delays, words of 2; delays up to 2 (multiples of 1/4); every region", 6),
    H("c25_split23", "a word is split exactly when a prefix of it is in a domain; the parts make up the word and are mapped by the morphism", "1 domain of 2 delays, words of 3; delays up to 2 (multiples of 1/4); every region", 6),
    H("c25_split33", "a word is split exactly when a prefix of it is in a domain; the parts make up the word and are mapped by the morphism", "1 domain of 3 delays, words of 3; delays up to 2 (multiples of 1/4); every region", 6),
    H("c25_split112", "a word is split exactly when a prefix of it is in a domain; the parts make up the word and are mapped by the morphism", "2 domains of 1 and 2 delays, words of 2; delays up to 2 (multiples of 1/4); every region", 6),
    H("c25_member11", "every word is mapped to a prefix in finitely many steps, and membership is that prefix's", "1 prefix, words of 1 delay; symbolic mapping of the successors and final prefixes; delays up to 2", 6),
    H("c25_member12", "every word is mapped to a prefix in finitely many steps, and membership is that prefix's", "1 prefix, words of 2 delays; symbolic mapping of the successors and final prefixes; delays up to 2", 6),
    H("c25_member21", "every word is mapped to a prefix in finitely many steps, and membership is that prefix's", "2 prefixes, words of 1 delay; symbolic mapping of the successors and final prefixes; delays up to 2", 6),
    H("c25_member22", "every word is mapped to a prefix in finitely many steps, and membership is that prefix's", "2 prefixes, words of 2 delays; symbolic mapping of the successors and final prefixes; delays up to 2", 6),
    H("c25_member32", "every word is mapped to a prefix in finitely many steps, and membership is that prefix's", "3 prefixes, words of 2 delays; symbolic mapping of the successors and final prefixes; delays up to 2", 6),
    H("c25_member23", "every word is mapped to a prefix in finitely many steps, and membership is that prefix's", "2 prefixes, words of 3 delays; symbolic mapping of the successors and final prefixes; delays up to 2", 6),
    H("c25_analyze11", "analysis returns a fresh suffix where membership changes, and one exists only if it is found", "1 prefix, words of 1 delay; symbolic mapping; any region-based system with one comparison per word length (two in 21s)", 6),
    H("c25_analyze12", "analysis returns a fresh suffix where membership changes, and one exists only if it is found", "1 prefix, words of 2 delays; symbolic mapping; any region-based system with one comparison per word length (two in 21s)", 6),
    H("c25_analyze22", "analysis returns a fresh suffix where membership changes, and one exists only if it is found", "2 prefixes, words of 2 delays; symbolic mapping; any region-based system with one comparison per word length (two in 21s)", 6),
    H("c25_analyze11s", "analysis returns a fresh suffix where membership changes, and one exists only if it is found", "1 prefix, words of 1 delay, a current suffix; symbolic mapping; any region-based system with one comparison per word length (two in 21s)", 6),
    H("c25_analyze12s", "analysis returns a fresh suffix where membership changes, and one exists only if it is found", "1 prefix, words of 2 delays, a current suffix; symbolic mapping; any region-based system with one comparison per word length (two in 21s)", 6),
    H("c25_analyze21s", "analysis returns a fresh suffix where membership changes, and one exists only if it is found", "2 prefixes, words of 1 delay, a current suffix; symbolic mapping; any region-based system with one comparison per word length (two in 21s)", 6),
    H("c25_analyze13", "analysis returns a fresh suffix where membership changes, and one exists only if it is found", "1 prefix, words of 3 delays; symbolic mapping; any region-based system with one comparison per word length (two in 21s)", 6)])
CHECKS["C24"] = dict(realhash=True, files=["C24.cc"], src=["observation_table.cc", "timed_automaton.cc", "ta2za.cc", "intersection.cc"], harnesses=[H("c24_" + n, "a saturated table records the target's answers, and its hypothesis is deterministic and gives every word of a prefix or successor that answer", b + "; deterministic targets, delays in multiples of 2^-19", 6, path_timeout=40) for n, b in (
    ("guard1", "two locations, one transition with one inequality on the clock, constants 0..3, any accepting locations; the first table"),
    ("guard2", "as guard1 with up to two inequalities, constants 0..2; the first table"),
    ("reset2", "as guard2 with the transition leaving the clock or setting it to 0 or 1; the first table"),
    ("chain", "two guarded transitions in a row, constants 0..2, the first leaving or resetting the clock; the first table"),
    ("cycle", "a cycle of two guarded transitions, constants 0..1, each leaving the clock or setting it to 0 or 1; the first table"),
    ("clocks", "two clocks, two guarded transitions in a row, constants 0..1; the first table"),
    ("chain_2", "two guarded transitions in a row, constants 0..1; the table after one counterexample"),
    ("cycle_2", "a cycle of two guarded transitions, constants 0..1; the table after one counterexample"),
    ("clocks_2", "two clocks, two guarded transitions in a row, constants 0..1; the table after one counterexample"),
    ("cycle_3", "a cycle of two guarded transitions, constants 0..1; the table after two counterexamples"),
    ("actions_2", "two actions, one guarded transition each, constants 0..1; the table after one counterexample"),
    ("branch", "two locations with two complementary guarded transitions each, constants 0..2; the table after one counterexample"),
    ("rename", "two clocks, the first of two transitions copying clocks or setting them to constants; the table after one counterexample"))])
CHECKS["C28"] = dict(strings=True, files=["C28.cc"], src=["timed_automaton.cc", "ta2za.cc", "intersection.cc"], harnesses=[H("c28_" + n, w, b, 12) for n, w, b in (("range", "one transition", "2 locations, any initial and accepting locations, every interval with bounds of 1-2 digits, reset or not, words of up to 1 action"), ("long", "large constants", "bounds of 1-4 digits"), ("two", "two transitions on a or b, overlapping or not", "2 locations, bounds of 1 digit, words of up to 2 actions"), ("three", "three transitions", "3 locations, bounds of 1 digit, words of up to 2 actions"), ("none", "no transition", "3 locations"), ("labels", "labels of 0-3 letters", "1 location"))])
CHECKS["C29"] = dict(files=["C29.cc"], src=["timed_automaton.cc", "ta2za.cc", "intersection.cc"], harnesses=[H("c29_implicit" + n, "completed renaming", n[0] + " -> " + n[1] + " clocks, any renaming, regions of delays up to " + b, 8) for n, b in (("11", "2"), ("21", "1"), ("12", "1"), ("22", "2"), ("33", "1"))] + [H("c29_internal" + n, "transitions to a continuation", b, 8) for n, b in (("1", "1 clock, up to 2 regions of delays up to 2, 2 targets"), ("1x3", "1 clock, 3 regions, 2 targets"), ("2", "2 clocks, up to 2 regions of delays up to 1, 2 targets"), ("2x3", "2 clocks, 3 regions, 2 targets"), ("3", "3 clocks, up to 2 regions, 2 targets"))] + [H("c29_external" + n, "transition along a morphism", n[0] + " -> " + n[1] + " clocks, any renaming, regions of delays up to " + ("2" if n in ("11", "22") else "1"), 8) for n in ("11", "21", "12", "22", "32", "23", "33")] + [H("c29_" + n, "transitions along two morphisms", b + ", regions of delays up to 1", 8) for n, b in (("two11", "1 -> 1 clocks, 2 targets, any renamings"), ("two21", "2 -> 1 clocks, 2 targets, any renamings"), ("two12", "1 -> 2 clocks, 2 targets, any renamings"), ("same11", "1 -> 1 clocks, the same renaming and target"), ("same12", "1 -> 2 clocks, the same renaming and target"), ("same21", "2 -> 1 clocks, the same renaming and target"), ("same22", "2 -> 2 clocks, the same renaming and target"))] + [H("c29_inactive12", "clocks left inactive", "1 -> 2 clocks, any renaming, regions of delays up to 2", 8), H("c29_inactive23", "clocks left inactive", "2 -> 3 clocks, up to 2 renamed, regions of delays up to 1", 8)])

NOT_APPLICABLE = {}
