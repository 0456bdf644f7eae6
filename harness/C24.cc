// The observation table and the hypotheses generated from it.
#include "conds.hh"
#include "targets.hh"
#include "observation_table.hh"
#include "timed_automata_equivalence_oracle.hh"
using namespace sv;
typedef ObservationTable Table;
static void saturate(Table &t) { int k = 0; while (!(t.close() && t.consistent() && t.exteriorConsistent() && t.timeSaturate())) if (++k > 200) { sv_assert(false, "the table is closed and consistent after finitely many refinements"); break; }
  sv_assert(t.close(), "the table stays closed"); sv_assert(t.consistent(), "the table stays consistent"); sv_assert(t.exteriorConsistent(), "the table stays exterior-consistent"); }
// the answers of the table: one word in a prefix or in the domain of a morphism, what it is mapped to
static bool same(const TimedWord &a, const TimedWord &b) { if (a.getWord() != b.getWord()) return false; bool r = true; for (size_t i = 0; i < a.getDurations().size(); i++) r = r & (a.getDurations()[i] == b.getDurations()[i]); return r; }
static void table(const Spec &t, const std::vector<Alphabet> &al, const std::vector<std::string> &words, int maxd, int rounds) { sv_assume(deterministic(t)); TimedAutomaton a = bounded(t);
  Table tab(al, std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(a))); ComplementTimedAutomataEquivalenceOracle eq(a, a.complement(al), al);
  saturate(tab);
  for (int i = 1; i < rounds; i++) { auto c = eq.findCounterExample(tab.generateHypothesis().simplify()); if (!c) { sv_reach("equivalent"); return; } sv_reach("refined"); tab.handleCEX(*c); saturate(tab); }
  auto rl = tab.toRecognizable(); TimedAutomaton h = tab.generateHypothesis(); auto rl2 = tab.toRecognizable();
  sv_assert(h.deterministic(), "the hypothesis is deterministic");
  const std::string &w = words[sv_choose("word", words.size())]; Delays d = mkDelays("d", w.size() + 1, maxd, 3); TimedWord tw{w, d}; bool x = refAccepts(t, w, d);
  sv_assert(rl2.contains(tw) == rl.contains(tw), "generating a hypothesis does not change the recorded answers");
  if (rl.inPrefixes(tw)) { sv_reach("prefix"); sv_assert(rl.isFinal(tw) == x, "the answer recorded for a prefix is the target's"); sv_assert(taAccepts(h, w, d) == x, "the hypothesis gives the words of a prefix the recorded answer"); return; }
  auto s = rl.split(tw); sv_assert(s.has_value(), "every word outside the prefixes can be split"); if (!s) return;
  bool whole = s->suffix.getWord().empty() && s->suffix.getDurations()[0] == 0; if (!whole) { sv_reach("other"); return; }
  sv_reach("successor"); sv_assert(rl.contains(tw) == x, "the answer recorded for a successor is the target's"); sv_assert(taAccepts(h, w, d) == x, "the hypothesis gives the words of a successor the recorded answer"); }
SV_HARNESS(c24_guard1) { SvMode fm(1); table(two(1, 3, 1), A, {"", "a", "aa"}, 4, 1); }
SV_HARNESS(c24_guard2) { SvMode fm(1); table(two(2, 2, 1), A, {"a", "aa"}, 3, 1); }
SV_HARNESS(c24_reset2) { SvMode fm(1); table(two(2, 2, 3), A, {"a", "aa", "aaa"}, 3, 1); }
SV_HARNESS(c24_chain) { SvMode fm(1); table(chain(2, 2), A, {"a", "aa"}, 3, 1); }
SV_HARNESS(c24_cycle) { SvMode fm(1); table(cycle(1, 3), A, {"aa", "aaa"}, 2, 1); }
SV_HARNESS(c24_clocks) { SvMode fm(1); table(clocks(1), A, {"a", "aa"}, 2, 1); }
SV_HARNESS(c24_chain_2) { SvMode fm(1); table(chain(1, 3), A, {"a", "aa"}, 2, 2); }
SV_HARNESS(c24_cycle_2) { SvMode fm(1); table(cycle(1, 2), A, {"a", "aa", "aaa"}, 2, 2); }
SV_HARNESS(c24_clocks_2) { SvMode fm(1); table(clocks(1), A, {"a", "aa"}, 2, 2); }
SV_HARNESS(c24_cycle_3) { SvMode fm(1); table(cycle(1, 3), A, {"a", "aa", "aaa"}, 2, 3); }
SV_HARNESS(c24_actions_2) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1), upd("r", 2), 1}); s.edges.push_back(Edge{sv_choose("s", 2), 'b', gd("h", 1, 1), upd("q", 2), sv_choose("e", 2)}); table(s, AB, {"a", "b", "ab", "ba"}, 2, 2); }
SV_HARNESS(c24_branch) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; for (int i = 0; i < 2; i++) { int c = sv_int("c", 0, 2); s.edges.push_back(Edge{i, 'a', {Constraint{0, Constraint::Order::le, c}}, upd("r", 2), sv_choose("d", 2)}); s.edges.push_back(Edge{i, 'a', {Constraint{0, Constraint::Order::gt, c}}, upd("q", 2), sv_choose("d", 2)}); } table(s, A, {"a", "aa"}, 3, 2); }
SV_HARNESS(c24_rename) { SvMode fm(1); Spec s; s.nl = 3; s.nc = 2; s.acc = {0, 0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1, 2), mkResets("m", 1 + sv_choose("k", 2), 2, 1), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, 1, 2), {}, 2}); table(s, A, {"a", "aa"}, 2, 2); }
