// Simplifications and copies of timed automata keep the language.
#include "ta.hh"
using namespace sv;
typedef void (*Op)(TimedAutomaton &);
static void oUnreachable(TimedAutomaton &a) { a.removeTriviallyUnreachableStates(); }
static void oDeadLoop(TimedAutomaton &a) { a.removeDeadLoop(); }
static void oDead(TimedAutomaton &a) { a.removeTriviallyDeadStates(); }
static void oUseless(TimedAutomaton &a) { a.removeUselessTransitions(); }
static void oUnused(TimedAutomaton &a) { a.removeUnusedClockVariables(); }
static void oTransitions(TimedAutomaton &a) { a.simplifyTransitions(); }
static void oAdjacent(TimedAutomaton &a) { a.mergeAdjacentTransitions(); }
static void oSimplify(TimedAutomaton &a) { a.simplify(); }
static void oStrong(TimedAutomaton &a) { a.simplifyStrong(); }
static void oZones(TimedAutomaton &a) { a.simplifyWithZones(); }
static bool bounded(const TimedAutomaton &a) { bool ok = true; for (auto &s : a.states) for (auto &[c, ts] : s->next) for (auto &t : ts) for (auto &g : t.guard) { if (g.x >= a.maxConstraints.size()) return false; ok = ok & (g.c <= a.maxConstraints[g.x]); } return ok; }
static void wellFormed(const TimedAutomaton &a, bool bound = true) { if (bound) sv_assert(bounded(a), "the maximal constants bound the constants of the guards"); for (auto &i : a.initialStates) sv_assert(std::find(a.states.begin(), a.states.end(), i) != a.states.end(), "initial locations are locations");
  for (auto &s : a.states) for (auto &[c, ts] : s->next) for (auto &t : ts) { bool in = false; for (auto &u : a.states) if (u.get() == t.target) in = true; sv_assert(in, "transitions lead to locations of the automaton"); for (auto &g : t.guard) sv_assert(g.x < a.clockSize(), "guards mention clocks of the automaton"); updatesInRange(t.resetVars, a.clockSize()); } }
static void check(TimedAutomaton &a, Op op, const std::string &w, int maxd) { Val d = mkVal("d", w.size() + 1, maxd, 3); bool before = sv_fork(taAccepts(a, w, d)); size_t n = a.stateSize(); std::vector<std::shared_ptr<TAState>> hold = a.states;
  op(a); wellFormed(a); sv_assert(taAccepts(a, w, d) == before, "the simplified automaton accepts the same words"); sv_reach(before ? "accepted" : "rejected"); if (a.stateSize() < n) sv_reach("a location is removed"); }
// all graphs over 3 locations with at most one edge from each of (0,a) (0,b) (1,a) (2,a)
static void graph(Op op) { SvMode fm(1); Spec s; s.nl = 3; for (int i = 0; i < 3; i++) s.acc.push_back(i ? sv_flag("acc") : 0); struct { int l; char c; } from[] = {{0, 'a'}, {0, 'b'}, {1, 'a'}, {2, 'a'}}; for (auto &f : from) { int k = sv_choose("to", 4); if (k) s.edges.push_back(Edge{f.l, f.c, {}, {}, k - 1}); }
  TimedAutomaton a = build(s, 0); std::string w = sv_flag("b") ? "b" : "a"; for (int i = 1 + sv_choose("n", 2); i > 0; i--) w += "a"; check(a, op, w, 0); }
SV_HARNESS(c18_graph_unreachable) { graph(oUnreachable); } SV_HARNESS(c18_graph_deadloop) { graph(oDeadLoop); } SV_HARNESS(c18_graph_dead) { graph(oDead); } SV_HARNESS(c18_graph_useless) { graph(oUseless); } SV_HARNESS(c18_graph_strong) { graph(oStrong); } SV_HARNESS(c18_graph_simplify) { graph(oSimplify); } SV_HARNESS(c18_graph_zones) { graph(oZones); }
// two edges with the same target and update
static Guard gd(const char *n, int len, int nc, int maxc) { return mkGuard(n, len, nc, maxc); }
static void pair(Op op, int l1, int l2, int nc, int maxc) { SvMode fm(1); Spec s; s.nl = 2; s.nc = nc; s.acc = {0, 1}; int kind = sv_choose("kind", 5 + (nc > 1)); Resets r{{(ClockVariables)0, (double)(kind == 4 ? 1 : 0)}}, q{{(ClockVariables)(kind == 5 ? 1 : 0), (double)(kind == 1 ? 1 : 0)}};
  s.edges.push_back(Edge{0, 'a', gd("g", l1, nc, maxc), r, 1}); s.edges.push_back(Edge{0, kind == 3 ? 'b' : 'a', gd("h", l2, nc, maxc), q, kind == 2 ? 0 : 1}); s.edges.push_back(Edge{1, 'a', {Constraint{0, Constraint::Order::le, 1}}, {}, 1}); TimedAutomaton a = build(s, maxc); check(a, op, "aa", maxc + 1); }
SV_HARNESS(c18_pair_transitions11) { pair(oTransitions, 1, 1, 2, 2); } SV_HARNESS(c18_pair_transitions21) { pair(oTransitions, 2, 1, 1, 2); } SV_HARNESS(c18_pair_transitions12) { pair(oTransitions, 1, 2, 1, 2); }
SV_HARNESS(c18_pair_adjacent11) { pair(oAdjacent, 1, 1, 1, 3); } SV_HARNESS(c18_pair_adjacent22) { pair(oAdjacent, 2, 2, 1, 2); } SV_HARNESS(c18_pair_adjacent21) { pair(oAdjacent, 2, 1, 1, 3); }
// three consecutive ones
SV_HARNESS(c18_triple_adjacent) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; for (int i = 0; i < 3; i++) { Guard g; int c = sv_int("c", 0, 2); if (sv_flag("point")) { g.push_back(Constraint{0, Constraint::Order::ge, c}); g.push_back(Constraint{0, Constraint::Order::le, c}); } else { g.push_back(Constraint{0, Constraint::Order::gt, c}); g.push_back(Constraint{0, Constraint::Order::lt, c + 1}); } s.edges.push_back(Edge{0, 'a', g, {}, 1}); } TimedAutomaton a = build(s, 3); check(a, oAdjacent, "a", 4); }
// unused clocks
static void unused(Op op, int nc, int rl) { SvMode fm(1); Spec s; s.nl = 2; s.nc = nc; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', sv_flag("guard") ? gd("g", 1, nc, 1) : Guard{}, mkResets("r", sv_choose("rl", rl + 1), nc), 1}); s.edges.push_back(Edge{1, 'a', {}, mkResets("r", sv_choose("rl", 2), nc), 1}); s.edges.push_back(Edge{1, 'b', sv_flag("guard") ? gd("h", 1, nc, 2) : Guard{}, {}, 1});
  TimedAutomaton a = build(s, 2); for (int i = 0; i < nc; i++) a.maxConstraints[i] = 2 + i; auto before = a.maxConstraints; check(a, op, "aab", 2); }
SV_HARNESS(c18_unused2) { unused(oUnused, 2, 1); } SV_HARNESS(c18_unused3) { unused(oUnused, 3, 1); } SV_HARNESS(c18_unused2strong) { unused(oStrong, 2, 1); } SV_HARNESS(c18_unused2simplify) { unused(oSimplify, 2, 1); }
// timed reachability
static void timed(Op op, int nc) { SvMode fm(1); Spec s; s.nl = 3; s.nc = nc; s.acc = {0, (char)sv_flag("acc"), 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, nc, 2), mkResets("r", sv_choose("rl", 2), nc, 1), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, nc, 2), {}, 2}); if (sv_flag("back")) s.edges.push_back(Edge{1, 'b', gd("k", 1, 1, 1), {}, 0}); TimedAutomaton a = build(s, 2); check(a, op, "aa", 3); }
SV_HARNESS(c18_timed1_zones) { timed(oZones, 1); } SV_HARNESS(c18_timed2_zones) { timed(oZones, 2); } SV_HARNESS(c18_timed2_strong) { timed(oStrong, 2); }
// copies
SV_HARNESS(c18_copy) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 2; s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")}; s.init = sv_choose("init", 2); s.edges.push_back(Edge{0, 'a', gd("g", 1, 2, 2), mkResets("r", sv_choose("rl", 2), 2), sv_choose("to", 2)}); s.edges.push_back(Edge{1, 'a', gd("h", 1, 2, 2), {}, sv_choose("to", 2)});
  TimedAutomaton a = build(s, 2), c; a.maxConstraints = {sv_int("m", 0, 9), sv_int("m", 0, 9)}; std::unordered_map<TAState *, std::shared_ptr<TAState>> m; Val d = mkVal("d", 3, 3, 3); std::string w = "aa"; bool before = sv_fork(taAccepts(a, w, d)); a.deepCopy(c, m); wellFormed(c, false); sv_assert(taAccepts(c, w, d) == before && taAccepts(a, w, d) == before, "the copy accepts the same words"); sv_reach(before ? "accepted" : "rejected");
  bool mx = a.maxConstraints.size() == 2 && c.maxConstraints.size() == 2; if (mx) mx = (a.maxConstraints[0] == c.maxConstraints[0]) & (a.maxConstraints[1] == c.maxConstraints[1]); sv_assert(mx, "same maximal constants"); for (auto &x : a.states) { sv_assert(m.count(x.get()) && m.at(x.get()) != x, "the map relates old and new locations"); for (auto &y : c.states) sv_assert(x != y, "no shared location"); }
  for (auto &x : c.states) { x->isMatch = !x->isMatch; x->next.clear(); } c.initialStates.clear(); sv_assert(taAccepts(a, w, d) == before, "changing the copy does not change the original"); }
// maximal constants once a location is gone
static void constants(Op op) { SvMode fm(1); Spec s; s.nl = 3; s.nc = 2; s.acc = {0, 1, 1}; int to = sv_choose("to", 2); s.edges.push_back(Edge{0, 'a', mkGuard("g", 1, 2, 3), mkResets("r", sv_choose("rl", 2), 2), 1}); s.edges.push_back(Edge{1, 'a', mkGuard("h", 1, 2, 3), {}, to}); if (sv_flag("other")) s.edges.push_back(Edge{2, 'a', mkGuard("k", 1, 2, 5), {}, 1}); TimedAutomaton a = build(s, 5); check(a, op, "aa", 4); }
SV_HARNESS(c18_constants_unreachable) { constants(oUnreachable); } SV_HARNESS(c18_constants_strong) { constants(oStrong); } SV_HARNESS(c18_constants_simplify) { constants(oSimplify); }
