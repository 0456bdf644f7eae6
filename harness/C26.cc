// The learner, with an exact membership oracle and the exact equivalence oracle.
#include "targets.hh"
#include "learner.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "equivalence_oracle_by_test.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_memo.hh"
using namespace sv;
static void learn(Spec t, const std::vector<Alphabet> &al, const std::vector<std::string> &words, int maxd, bool symbolic = false) { if (!symbolic) for (auto &e : t.edges) for (auto &g : e.guard) g.c = sv_fork(g.c); sv_assume(deterministic(t)); TimedAutomaton a = bounded(t);
  Learner learner(al, std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(a)), std::make_unique<ComplementTimedAutomataEquivalenceOracle>(a, a.complement(al), al));
  TimedAutomaton h = learner.run(); sv_reach("learned"); sv_assert(h.deterministic(), "the learned automaton is deterministic"); if (learner.numEqQueries() > 1) sv_reach("refined");
  const std::string &w = words[sv_choose("word", words.size())]; Val d = mkVal("d", w.size() + 1, maxd, 3); sv_assert(taAccepts(h, w, d) == refAccepts(t, w, d), "the learned automaton accepts exactly the target's words"); }
SV_HARNESS(c26_guard1) { SvMode fm(1); learn(two(1, 3, 1), A, {"", "a", "aa"}, 4, true); }
SV_HARNESS(c26_guard2) { SvMode fm(1); learn(two(2, 2, 1), A, {"a", "aa"}, 3); }
SV_HARNESS(c26_reset1) { SvMode fm(1); learn(two(1, 2, 3), A, {"a", "aa", "aaa"}, 3, true); }
SV_HARNESS(c26_reset2) { SvMode fm(1); learn(two(2, 2, 2), A, {"a", "aa", "aaa"}, 3); }
// two guarded transitions in a row, the first may update the clock
SV_HARNESS(c26_chain) { SvMode fm(1); learn(chain(1, 3), A, {"a", "aa", "aaa"}, 2, true); }
SV_HARNESS(c26_chain2) { SvMode fm(1); learn(chain(2, 2), A, {"aa"}, 3); }
// a cycle of two guarded transitions
SV_HARNESS(c26_cycle) { SvMode fm(1); learn(cycle(1, 2), A, {"a", "aa", "aaa"}, 2, true); }
SV_HARNESS(c26_cycle3) { SvMode fm(1); learn(cycle(1, 3), A, {"aa", "aaa"}, 2); }
// a branch by disjoint guards
SV_HARNESS(c26_branch) { SvMode fm(1); Spec s; s.nl = 3; s.nc = 1; s.acc = {0, 1, 0}; int c = sv_int("c", 0, 2); s.edges.push_back(Edge{0, 'a', {Constraint{0, Constraint::Order::le, c}}, upd("r", 2), 1}); s.edges.push_back(Edge{0, 'a', {Constraint{0, Constraint::Order::gt, c}}, upd("q", 2), sv_choose("d", 3)}); s.edges.push_back(Edge{1 + sv_choose("s", 2), 'a', gd("h", 1, 1), {}, sv_choose("e", 2)}); learn(s, A, {"a", "aa", "aaa"}, 3); }
// two actions
SV_HARNESS(c26_actions) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1), upd("r", 2), 1}); s.edges.push_back(Edge{sv_choose("s", 2), 'b', gd("h", 1, 1), upd("q", 2), sv_choose("e", 2)}); learn(s, AB, {"a", "b", "ab", "ba", "bba"}, 2, true); }
// two clocks
SV_HARNESS(c26_clocks) { SvMode fm(1); learn(clocks(1), A, {"aa"}, 2, true); }
SV_HARNESS(c26_clockloop) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 2; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1, 2), upd("r", 2, 2), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, 1, 2), upd("q", 2, 2), 0}); learn(s, A, {"a", "aa", "aaa"}, 2); }
SV_HARNESS(c26_two) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 2; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1, 2), upd("r", 2, 2), sv_choose("d", 2)}); s.edges.push_back(Edge{0, 'b', gd("h", 1, 1, 2), upd("q", 2, 2), sv_choose("e", 2)}); learn(s, AB, {"a", "ab", "ba", "bb"}, 2); }
// more clocks, longer chains, renamings of clocks
SV_HARNESS(c26_clocks2) { SvMode fm(1); learn(clocks(2), A, {"aa"}, 3); }
SV_HARNESS(c26_three) { SvMode fm(1); Spec s; s.nl = 4; s.nc = 1; s.acc = {0, 0, 0, 1}; for (int i = 0; i < 3; i++) s.edges.push_back(Edge{i, 'a', gd("g", 1, 1), i < 2 ? upd("r", 2) : Resets{}, i + 1}); learn(s, A, {"aaa"}, 2); }
SV_HARNESS(c26_three2) { SvMode fm(1); Spec s; s.nl = 4; s.nc = 2; s.acc = {0, 0, 0, 1}; for (int i = 0; i < 3; i++) s.edges.push_back(Edge{i, 'a', gd("g", 1, 1, 2), i < 2 ? upd("r", 2, 2) : Resets{}, i + 1}); learn(s, A, {"aaa"}, 2); }
SV_HARNESS(c26_rename) { SvMode fm(1); Spec s; s.nl = 4; s.nc = 2; s.acc = {0, 0, 0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1, 2), upd("r", 2, 2), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, 1, 2), mkResets("m", 1 + sv_choose("k", 2), 2, 1), 2}); s.edges.push_back(Edge{2, 'a', gd("k", 1, 1, 2), {}, 3}); learn(s, A, {"aaa"}, 2); }
SV_HARNESS(c26_loop2) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; for (int i = 0; i < 2; i++) for (char c : {'a', 'b'}) if (i || c == 'a' || sv_flag("e")) s.edges.push_back(Edge{i, c, gd("g", 1, 1), upd("r", 2), sv_choose("d", 2)}); learn(s, AB, {"a", "ab", "ba", "abb", "aba"}, 2); }
SV_HARNESS(c26_cyclerename) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 2; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1, 2), mkResets("m", sv_choose("k", 3), 2, 1), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, 1, 2), mkResets("n", sv_choose("k", 3), 2, 1), 0}); learn(s, A, {"aa", "aaa"}, 2); }
SV_HARNESS(c26_cycle2) { SvMode fm(1); learn(cycle(2, 3), A, {"aa", "aaa"}, 3); }
SV_HARNESS(c26_branch2) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; for (int i = 0; i < 2; i++) { int c = sv_int("c", 0, 2); s.edges.push_back(Edge{i, 'a', {Constraint{0, Constraint::Order::le, c}}, upd("r", 2), sv_choose("d", 2)}); s.edges.push_back(Edge{i, 'a', {Constraint{0, Constraint::Order::gt, c}}, upd("q", 2), sv_choose("d", 2)}); } learn(s, A, {"aa", "aaa"}, 3); }
// the experiments' pipeline: test words first, then a comparison with the simplified complement, every counterexample remembered
static void pipeline(Spec t, const std::vector<Alphabet> &al, const std::vector<std::string> &words, int maxd) { for (auto &e : t.edges) for (auto &g : e.guard) g.c = sv_fork(g.c); sv_assume(deterministic(t)); TimedAutomaton a = bounded(t); TimedAutomaton c = a.complement(al); c.simplifyStrong(); c.simplifyWithZones();
  auto test = std::make_unique<EquivalenceOracleByTest>(a); int n = sv_choose("tests", 3); for (int i = 0; i < n; i++) { const std::string &w = words[sv_choose("tested", words.size())]; Val d; for (size_t j = 0; j <= w.size(); j++) d.push_back(0.5 * sv_choose("halves", 4)); test->push_back(TimedWord{w, d}); }
  auto all = std::make_unique<EquivalenceOracleChain>(); all->push_back(std::move(test)); all->push_back(std::make_unique<ComplementTimedAutomataEquivalenceOracle>(a, c, al));
  Learner learner(al, std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(a)), std::make_unique<EquivalenceOracleMemo>(std::move(all), a));
  TimedAutomaton h = learner.run(); sv_reach("learned"); sv_assert(h.deterministic(), "the learned automaton is deterministic"); if (learner.numEqQueries() > 1) sv_reach("refined");
  const std::string &w = words[sv_choose("word", words.size())]; Val d = mkVal("d", w.size() + 1, maxd, 3); sv_assert(taAccepts(h, w, d) == refAccepts(t, w, d), "the learned automaton accepts exactly the target's words"); }
SV_HARNESS(c26_pipeline) { SvMode fm(1); pipeline(two(1, 2, 3), A, {"a", "aa", "aaa"}, 3); }
SV_HARNESS(c26_pipechain) { SvMode fm(1); pipeline(chain(1, 3), A, {"aa", "aaa"}, 2); }
SV_HARNESS(c26_pipecycle) { SvMode fm(1); pipeline(cycle(2, 2), A, {"aa", "aaa"}, 3); }
