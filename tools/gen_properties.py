#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [])))

p("C01", "Guard evaluation, simplification and complement are exact",
  "A guard (a conjunction of comparisons of clocks with integer constants) holds of a clock valuation exactly when each of its comparisons holds numerically. Simplifying a guard, or a list of guards, never changes the set of valuations it accepts; and the complement computed for a guard or for a disjunction of guards is satisfied by exactly the non-negative valuations that the original rejects.",
  ["inputs"], "every conjunction / small disjunction of guards over up to 2-3 clocks and every non-negative valuation",
  "the unit tests compare a handful of literal guards; boundary constants, contradictory guards and open/closed combinations are combinatorial",
  ["include/constraint.hh"],
  [("satisfy / simplify / negate of conjunctions and disjunctions", "include/constraint.hh")], ["constraint.hh free functions"])

p("C02", "Guard satisfiability, comparison and union are decided correctly",
  "A guard is reported satisfiable exactly when some non-negative valuation satisfies it, and one guard is reported weaker than another only if it accepts every valuation the other accepts (and is reported so whenever it does, for simplified satisfiable guards). The hull computed for guards is the strongest guard accepting every valuation any of them accepts. Guards reported adjacent leave no gap on any clock and, where both or neither have an upper bound on a clock, agree on it or touch without overlapping; adjacent guards that differ on one clock have exactly their union as hull. Adding upper bounds only strengthens a guard and keeps it satisfiable.",
  ["inputs"], "every pair of guards over up to 2 clocks, every constant in a small range, all comparison kinds, every non-negative valuation",
  "tests fix a few pairs; the property quantifies over all pairs of boxes and all valuations",
  ["include/constraint.hh", "include/timed_automaton.hh"],
  [("satisfiable, isWeaker, conjunction, unionHull, toBounds, adjacent", "include/constraint.hh")], ["constraint.hh free functions"])

p("C03", "Zone tightening, closure, intersection, emptiness and inclusion are exact",
  "After any sequence of difference constraints is added to a zone, the zone contains exactly the valuations satisfying all of them, whether or not it has been put in canonical form. Intersection contains exactly the common valuations, a zone is reported empty exactly when it contains no valuation, and for canonical non-empty zones (with zero diagonal) inclusion and equality are reported exactly when the sets of valuations are included or equal.",
  ["inputs"], "every zone over up to 3 clocks with bounded integer or half-integer bounds (strict or not, or absent) and every valuation",
  "tests check fixed matrices; shortest-path closure errors show only for particular combinations of bounds",
  ["include/zone.hh", "include/bounds.hh"],
  [("tighten/close1/canonize/operator&&/operator&=/includes/isSatisfiable", "include/zone.hh"), ("bound arithmetic", "include/bounds.hh")])

p("C04", "Zone delay and reset operations match the valuation semantics",
  "Letting time elapse in a zone yields exactly the valuations reachable by a delay from it, and the backward delay exactly the valuations from which it can be reached by a delay. Applying clock updates to a zone yields exactly the images of its valuations under those updates, and the backward update yields exactly the valuations whose image lies in the zone, for every list of simultaneous updates that assigns each clock at most once, to a constant or to the old value of a clock.",
  ["inputs"], "every non-empty zone over up to 3 clocks, every delay, every update of up to 2 clocks, every valuation",
  "needs all combinations of zone shapes and update lists; tests use single examples",
  ["include/zone.hh"],
  [("elapse/reverseElapse/reset/applyResets/revertResets/unconstrain", "include/zone.hh")])

p("C05", "Zone extrapolation only forgets what no guard can observe",
  "Extrapolating a canonical zone by the maximal constants of its clocks yields a zone containing the original one. Every valuation it adds agrees with some valuation of the original zone on all comparisons of clocks with constants up to those maxima, so no guard of the automaton can tell them apart.",
  ["inputs"], "every non-empty canonical zone over up to 2 clocks and all maximal constants in a small range, every valuation",
  "tests check two matrices; unsoundness shows as missed or spurious reachability only for particular zones",
  ["include/zone.hh", "include/zone_automaton.hh", "src/ta2za.cc"],
  [("extrapolate/abstractize", "include/zone.hh")])

p("C06", "Sampling a non-empty zone returns a member of it",
  "Sampling any non-empty zone of non-negative clock values returns a valuation that satisfies every bound of the zone, strict bounds included. Consequently the sample word drawn from any non-empty timed condition or elementary language belongs to it.",
  ["inputs"], "every non-empty zone over up to 3 clocks and every satisfiable timed condition with up to 3 durations",
  "strict diagonal bounds interact with earlier choices only for particular bound combinations",
  ["include/zone.hh", "include/elementary_language.hh", "include/timed_condition.hh"],
  [("sample", "include/zone.hh"), ("ElementaryLanguage::sample", "include/elementary_language.hh")])

p("C07", "Timed-word operations follow the algebra of timed words",
  "Concatenating timed words appends their actions and joins the last delay of the first with the first delay of the second, is associative, and taking the suffix after a prefix of a word inverts concatenation. Unobservable actions are absorbed into the surrounding delays without changing total durations, and accumulated durations are the exact suffix sums of the delays.",
  ["inputs"], "all timed words with up to 3 actions over a small alphabet (unobservable action included) and all delays in a range",
  "unit tests fix words and delays",
  ["include/timed_word.hh"],
  [("constructor, operator+, getSuffix, getAccumulatedDurations", "include/timed_word.hh")])

p("C08", "Regions of timed words: construction, membership, enumeration, guards",
  "The condition built from a word's delays is simple, contains those delays, and contains another delay sequence exactly when all partial delay sums fall in the same integer points or unit intervals. Enumerating a non-empty bounded timed condition yields pairwise disjoint, simple, non-empty conditions whose union is exactly the condition. The guard derived from a condition accepts exactly the clock values (measured at the end of the word) the condition allows for each clock separately.",
  ["inputs"], "every timed condition over up to 3 delays with constants in a small range and every delay sequence",
  "enumeration splits and region boundaries depend on all bound combinations; tests list a few",
  ["include/timed_condition.hh", "include/elementary_language.hh"],
  [("TimedCondition(accumulatedDurations), isSimple, enumerate, toGuard, includes", "include/timed_condition.hh"), ("contains/enumerate", "include/elementary_language.hh")])

p("C09", "Concatenation, intersection, hull and projections of timed conditions are exact",
  "The concatenation of two timed conditions contains exactly the joined delay sequences of their members; intersection contains exactly the common sequences; the convex hull contains both arguments and is contained in every timed condition that contains both. Restricting a bound, extending with a zero or unconstrained delay, and taking the part before or after a split point behave as the same operations on sets of delay sequences.",
  ["inputs"], "all pairs of satisfiable timed conditions with up to 2+2 delays and every delay sequence",
  "tests fix conditions; exactness quantifies over all members",
  ["include/timed_condition.hh"],
  [("operator+, operator&&, convexHull, restrict*, extendN, extendZero, prefix, suffix", "include/timed_condition.hh")])

p("C10", "Sets of timed conditions denote exact unions",
  "Building, simplifying or reducing a set of timed conditions never changes the union of delay sequences it denotes. The set is reported empty exactly when the union is empty, and the clocks it reports as constrained are exactly those that the union restricts further than the ambient condition.",
  ["inputs"], "every set of up to 3 adjacent or disjoint simple conditions over up to 2 delays, every delay sequence",
  "merging is order- and shape-dependent",
  ["include/timed_condition_set.hh", "include/timed_condition.hh"],
  [("reduce, getConstrainedVariables, getStrictlyConstrainedVariables", "include/timed_condition_set.hh")])

p("C11", "Forward regional languages enumerate the regions met as time passes",
  "The regional language built from a timed word contains that word and exactly the words of its region. Its continuous successor is the very next region entered when the last delay grows, its discrete successor appends an action with a zero delay, and the list of prefixes of a language is the chain of regions a run towards it passes through, each of which it can be split at into a prefix and a suffix whose concatenation contains it.",
  ["inputs", "histories"], "all words with up to 3 actions and all delays on a fine grid; all chains of successors",
  "order of fractional parts has factorially many shapes, tests cover a few",
  ["include/forward_regional_elementary_language.hh", "include/fractional_order.hh", "include/timed_condition.hh", "include/elementary_language.hh"],
  [("fromTimedWord, successor, prefixes, suffix", "include/forward_regional_elementary_language.hh"), ("successor, extendZero", "include/fractional_order.hh")])

p("C12", "Backward regional languages enumerate the regions met backwards in time",
  "The backward regional language built from a timed word contains that word and exactly the words of its region. Its continuous predecessor is the very next region met when the first delay grows, its discrete predecessor prepends an action after a zero delay, and the immediate suffix undoes the continuous predecessor; languages reached along different routes are equal when their words are.",
  ["inputs", "histories"], "all words with up to 2 actions and all delays on a fine grid; chains of predecessors",
  "same combinatorics of fractional parts as for forward languages",
  ["include/backward_regional_elementary_language.hh", "include/fractional_order.hh", "include/timed_condition.hh"],
  [("fromTimedWord, predecessor", "include/backward_regional_elementary_language.hh"), ("predecessor", "include/fractional_order.hh")])

p("C13", "Juxtaposition under renaming is the exact constrained product",
  "The juxtaposition of two timed conditions under a list of equalities between their clocks contains exactly the pairs of members whose renamed clocks agree, and sharing the trailing common clocks identifies exactly those clocks. Extracting the right component gives exactly the right members that occur in some pair, the equalities reported as implied are exactly the clock pairs equal in every pair, and results do not depend on earlier calls.",
  ["inputs", "histories"], "all pairs of satisfiable conditions with up to 2+2 clocks, all renamings of size up to 2, every pair of valuations",
  "tests list fixed pairs; memoised intermediate results make outcomes history-dependent",
  ["include/juxtaposed_zone.hh", "include/juxtaposed_zone_set.hh", "include/timed_condition.hh"],
  [("JuxtaposedZone ctor, addRenaming, getRight, makeRenaming", "include/juxtaposed_zone.hh"), ("JuxtaposedZoneSet", "include/juxtaposed_zone_set.hh")])

p("C14", "Morphisms map words of the source region into the target region",
  "Applying a morphism between two elementary languages to any word of the source returns a word of the target language whose renamed clocks have the same values as in the source word. The clock updates derived from the same renaming send any source valuation to a valuation in the target region.",
  ["inputs"], "all compatible pairs of simple languages with up to 1-2 actions, all renamings that are satisfiable, every source word on a fine grid",
  "tests use few fixed morphisms; failure needs particular fractional orders",
  ["include/single_morphism.hh", "include/renaming_relation.hh", "include/recognizable_languages.hh"],
  [("SingleMorphism::apply", "include/single_morphism.hh"), ("toReset", "include/renaming_relation.hh")])

p("C15", "Running a timed automaton computes its acceptance relation",
  "Stepping the runner through the delays and actions of a timed word reports, after every step, exactly whether the run of the deterministic automaton on the word so far is in an accepting location, where guards are evaluated on the clocks after the delay, updates are applied simultaneously, and a missing transition leads to permanent rejection. Results do not depend on words run earlier on the same runner.",
  ["inputs", "histories", "programs"], "all automata with up to 3 locations and 2 clocks from a template with symbolic guards and updates; all words with up to 3 actions",
  "tests run a few fixed automata on fixed words",
  ["include/timed_automaton_runner.hh", "include/sul.hh", "include/membership_oracle.hh"],
  [("TimedAutomatonRunner::step/pre/post", "include/timed_automaton_runner.hh")])

p("C16", "The product automaton recognises exactly the intersection",
  "The intersection of two timed automata accepts a timed word exactly when both automata accept it. The clocks of the two automata stay independent in the product, and states, initial states and acceptance are those of the synchronous product with unobservable moves interleaved.",
  ["inputs", "programs"], "pairs of template automata with up to 2 locations, 1-2 clocks each, symbolic guards, updates and acceptance; all words with up to 2-3 actions",
  "tests compare sizes or single languages",
  ["include/intersection.hh", "src/intersection.cc"],
  [("IntersectionTA / intersectionTA", "src/intersection.cc")])

p("C17", "Complementation and completion of deterministic automata are exact",
  "For a deterministic timed automaton, the complement accepts a timed word exactly when the automaton rejects it, and the original automaton's language is unchanged by the construction. An automaton is reported deterministic exactly when no two transitions on the same action from a location can be enabled together.",
  ["inputs", "programs"], "template deterministic automata with up to 2 locations, 2 transitions per action, symbolic guards/updates; all words with up to 3 actions",
  "tests check a few automata on a few words; gaps and overlaps of guards are combinatorial",
  ["include/timed_automaton.hh", "src/timed_automaton.cc", "include/constraint.hh"],
  [("complement, makeComplete, deterministic", "include/timed_automaton.hh")])

p("C18", "Automaton simplifications preserve the language",
  "Every simplification offered for timed automata (removing useless or dead locations, dropping unused clocks, merging adjacent transitions on one clock or removing redundant ones, strong and zone-based simplification) yields an automaton accepting exactly the same timed words, whose recorded maximal constants still bound the constants its guards compare the clocks with. Copying an automaton yields an automaton with the same language that shares no mutable state with the original.",
  ["inputs", "programs"], "template automata with up to 3 locations, 2 clocks, symbolic guards, updates and acceptance; all words with up to 3 actions",
  "tests check fixed outputs, not language equality",
  ["include/timed_automaton.hh", "src/timed_automaton.cc", "src/ta2za.cc"],
  [("simplify, simplifyStrong, simplifyWithZones, removeUnusedClockVariables, mergeAdjacentTransitions, deepCopy", "include/timed_automaton.hh")])

p("C19", "Reachability: samples are accepted, and non-empty languages are found",
  "Whenever the zone construction yields an accepting symbolic run, the concrete word reconstructed from it is accepted by the automaton. When the automaton accepts some word, the construction does yield one, with or without early termination.",
  ["inputs", "programs"], "template automata with up to 3 locations and 2 clocks, symbolic guards, updates; all words with up to 3 actions as witnesses",
  "tests use fixed automata; extrapolation and strict bounds interact per instance",
  ["include/ta2za.hh", "src/ta2za.cc", "include/zone_automaton.hh", "include/symbolic_run.hh"],
  [("ta2za", "src/ta2za.cc"), ("ZoneAutomaton::sample", "include/zone_automaton.hh"), ("SymbolicRun::reconstructWord", "include/symbolic_run.hh")])

p("C20", "The exact equivalence oracle is sound and complete",
  "Given a target automaton and a deterministic hypothesis, the exact equivalence oracle returns no counterexample only if the two accept the same timed words. Any counterexample it returns is a word accepted by exactly one of the two.",
  ["inputs", "programs"], "target and hypothesis automata from templates with up to 2 locations and 1-2 clocks, symbolic guards, updates and acceptance; distinguishing words with up to 3 actions",
  "tests check few pairs; a wrong 'equivalent' verdict makes the learner return a wrong automaton silently",
  ["include/timed_automata_equivalence_oracle.hh", "include/equivalence_oracle.hh"],
  [("ComplementTimedAutomataEquivalenceOracle::findCounterExample", "include/timed_automata_equivalence_oracle.hh")])

p("C21", "Symbolic membership queries return exactly the accepted part",
  "For an elementary language, the symbolic membership query returns conditions whose union is exactly the set of its words the system under learning accepts, when acceptance is uniform on regions. The answer is the same when repeated, and cached membership answers agree with fresh ones.",
  ["inputs", "histories", "programs"], "template systems with symbolic guards; all elementary languages with up to 1-2 actions and small constants; every word of the language",
  "tests compare fixed queries",
  ["include/symbolic_membership_oracle.hh", "include/membership_oracle.hh", "include/sul.hh", "include/timed_condition_set.hh"],
  [("SymbolicMembershipOracle::query", "include/symbolic_membership_oracle.hh"), ("MembershipOracleCache", "include/membership_oracle.hh")])

p("C22", "A renaming reported for two rows really makes them equivalent",
  "If the search for a renaming between two rows succeeds, then under that renaming the two rows accept exactly the same continuations: for every pair of prefix valuations related by it and every shared suffix delay, the left word is in the left cell exactly when the right one is in the right cell. Every related clock pair is consistent with both prefixes, and the relation is not vacuous.",
  ["inputs"], "pairs of simple prefixes with up to 1 action, suffixes with up to 1 action, cells chosen symbolically among unions of regions",
  "row contents and renamings are combinatorial; unsound renamings surface only as wrong learned automata",
  ["include/equivalence.hh", "include/juxtaposed_zone_set.hh", "include/renaming_relation.hh"],
  [("equivalence, findEquivalentRenaming, findDeterministicEquivalentRenaming", "include/equivalence.hh")])

p("C23", "Test-based equivalence oracles return only genuine counterexamples",
  "An oracle that tests words, whether stored or drawn at random with any random choices, alone, memoised, or chained with others, returns a word only if target and hypothesis disagree on it, and returns one whenever they disagree on some stored word or prefix it executes, or an inner oracle finds one. A counterexample obtained once is found again from the memory whenever it still distinguishes the target from a later hypothesis.",
  ["inputs", "histories", "programs"], "template automata, stored words with up to 2 actions, all delays on a grid, sequences of up to 2 hypotheses",
  "tests use one automaton pair",
  ["include/equivalence_oracle_by_test.hh", "include/equivalence_oracle_memo.hh", "include/equivalance_oracle_chain.hh"],
  [("findCounterExample", "include/equivalence_oracle_by_test.hh")])

p("C24", "Hypotheses agree with the table on the prefixes they are built from",
  "Once the observation table is closed, consistent, exterior-consistent and time-saturated, the answers it records for the words of its prefixes and of their successors are those of the system, and the generated hypothesis is deterministic and gives those words the same answers. Generating it does not change the recorded answers.",
  ["inputs", "histories", "programs"], "tables filled from template automata of up to 3 locations and 2 clocks with symbolic guards, updates, targets and accepting locations, after up to two counterexamples, and every word of up to 3 actions",
  "tests construct tables from fixed automata",
  ["include/observation_table.hh", "src/observation_table.cc", "include/internal_transition_maker.hh", "include/external_transition_maker.hh", "include/imprecise_clock_handler.hh", "include/neighbor_conditions.hh"],
  [("close/consistent/exteriorConsistent/timeSaturate/generateHypothesis", "include/observation_table.hh")])

p("C25", "Counterexample analysis returns a suffix that refines the table",
  "Given a word on which the hypothesis and the system disagree, counterexample analysis terminates and returns, if anything, a suffix of a mapped form of the word not covered by the current suffixes on which membership changes across a mapping step. The split of any word by a recognisable language reassembles to that word, with its head in a boundary region, and its mapped form accepted by the language exactly when the word is.",
  ["inputs"], "recognisable languages of up to 3 prefixes with any mapping of the successors and any final prefixes, any region-based system with one or two comparisons per word length, words of up to 3 delays",
  "tests use fixed words",
  ["include/counterexample_analyzer.hh", "include/recognizable_languages.hh", "include/single_morphism.hh"],
  [("analyzeCEX", "include/counterexample_analyzer.hh"), ("split/contains/inPrefixes", "include/recognizable_languages.hh")])

p("C26", "The learner terminates with an automaton equivalent to the target",
  "For every deterministic timed automaton target within scope, running the learner with an exact membership oracle and the exact equivalence oracle terminates and returns a deterministic automaton that accepts exactly the target's timed words.",
  ["programs", "inputs"], "one-clock targets with up to 2 locations, symbolic guard constants, comparison kinds, updates and acceptance; all words with up to 3 actions",
  "learner_test.cc is not even built, the examples are built but never run; a wrong result depends on the target's constants",
  ["include/learner.hh", "include/observation_table.hh", "include/timed_automata_equivalence_oracle.hh"],
  [("Learner::run", "include/learner.hh")])

p("C27", "Guard relaxation for imprecise clocks preserves region-level behaviour",
  "When a mapping loses the exact value of some clocks, the neighbouring conditions computed for a condition are exactly the words that agree with it on the unit of every clock and on differences within the precise and within the imprecise clocks. The relaxed guard is their hull, also after time successors, and contains the updated clocks after a transition. Relaxing a hypothesis's guards keeps its transitions, adds only weaker copies of them, terminates, and lets every neighbour follow the original.",
  ["inputs"], "all simple conditions with up to 2 actions and every subset of precise clocks",
  "tests check fixed neighbourhoods",
  ["include/neighbor_conditions.hh", "include/imprecise_clock_handler.hh", "include/timed_automaton.hh"],
  [("NeighborConditions", "include/neighbor_conditions.hh"), ("ImpreciseClockHandler", "include/imprecise_clock_handler.hh")])
p("C28", "Reading an automaton from JSON yields the automaton the document describes",
  "Parsing a JSON description of a one-clock automaton yields an automaton over the document's alphabet whose language is the described one: every listed location exists, the initial and accepting locations are the listed ones, each transition connects its two locations on its action, its guard is exactly the written interval (open, closed or unbounded ends) and its reset is the written one. Documents with an action that is not a single letter, or with two overlapping transitions, are refused.",
  ["inputs"], "all documents within the stated number of locations, transitions and digits",
  "tests read a few files",
  ["examples/ota_json_parser.hh"],
  [("OtaJsonParser", "examples/ota_json_parser.hh")])
p("C29", "Hypothesis transitions have exactly the guards and updates of their morphisms",
  "The transitions generated for a location lead to a target exactly under the clock bounds of the source conditions added for it. A transition to a continuation resets the clock of the new action to zero and nothing else. A transition along a morphism sends every valuation of its source condition into its target condition and keeps the value of every renamed clock; if some target clocks are neither renamed nor fixed, each clock alone stays within the target's bounds. The completed renaming contains a source for exactly the target clocks whose equality with a source clock is implied.",
  ["inputs"], "all regional source and target conditions and renamings within the stated sizes, every valuation",
  "tests build single transitions",
  ["include/internal_transition_maker.hh", "include/external_transition_maker.hh", "include/renaming_relation.hh", "include/timed_condition_set.hh"],
  [("InternalTransitionMaker", "include/internal_transition_maker.hh"), ("ExternalTransitionMaker", "include/external_transition_maker.hh"), ("addImplicitConstraints, toReset", "include/renaming_relation.hh")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P))
