// The product automaton.
#include "ta.hh"
#include "intersection.hh"
using namespace sv;
static TimedAutomaton product(const TimedAutomaton &a, const TimedAutomaton &b) { TimedAutomaton out; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m; intersectionTA(a, b, out, m); 
  if (sv_flag("update")) updateInitAccepting(a, b, out, m); return out; }
static void check(const TimedAutomaton &a, const TimedAutomaton &b, const std::string &w, int maxd) { Val d = mkVal("d", w.size() + 1, maxd, 3);
  bool before = sv_fork(taAccepts(a, w, d)), beforeB = sv_fork(taAccepts(b, w, d)); std::vector<int> mc(a.maxConstraints), mb(b.maxConstraints);
  TimedAutomaton p = product(a, b);
  sv_assert(p.clockSize() == a.clockSize() + b.clockSize(), "the clocks of both automata");
  bool mx = true; for (size_t i = 0; i < p.clockSize(); i++) mx = mx & (p.maxConstraints[i] == (i < mc.size() ? mc[i] : mb[i - mc.size()])); sv_assert(mx, "the maximal constants of both automata");
  sv_assert(p.stateSize() == a.stateSize() * b.stateSize() && p.initialStates.size() == a.initialStates.size() * b.initialStates.size(), "pairs of locations, pairs of initial locations");
  for (auto &i : p.initialStates) sv_assert(std::find(p.states.begin(), p.states.end(), i) != p.states.end(), "initial locations are locations");
  bool got = sv_fork(taAccepts(p, w, d)); sv_assert(got == (before & beforeB), "the product accepts a word exactly when both automata do");
  if (got) sv_reach("accepted by both"); else if (before) sv_reach("accepted by the first only"); else if (beforeB) sv_reach("accepted by the second only"); else sv_reach("rejected by both");
  sv_assert(taAccepts(a, w, d) == before && taAccepts(b, w, d) == beforeB, "the arguments keep their language"); }
static Constraint symConstraint(int x, int maxc) { Constraint c{(ClockVariables)x, Constraint::Order::lt, 0}; c.odr = (Constraint::Order)sv_int("o", 0, 3); c.c = sv_int("c", 0, maxc); return c; }
// one updating edge, then one edge that reads a clock
static Spec chain(int nc, int maxc) { Spec s; s.nl = 2; s.nc = nc; s.acc = {0, 1}; Resets r = mkResets("r", sv_choose("rl", 2), nc); s.edges.push_back(Edge{0, 'a', {symConstraint(sv_choose("x", nc), maxc)}, r, 1}); s.edges.push_back(Edge{1, 'a', {symConstraint(sv_choose("x", nc), maxc)}, {}, 1}); return s; }
static void clocks(int n1, int n2) { SvMode fm(1); TimedAutomaton a = build(chain(n1, 2), 2), b = build(chain(n2, 2), 3); check(a, b, "aa", 3); }
SV_HARNESS(c16_clocks11) { clocks(1, 1); } SV_HARNESS(c16_clocks21) { clocks(2, 1); } SV_HARNESS(c16_clocks12) { clocks(1, 2); }
SV_HARNESS(c16_renames) { SvMode fm(1); Spec s[2]; for (auto &t : s) { t.nl = 1; t.nc = 2; t.acc = {1}; t.edges.push_back(Edge{0, 'a', {}, {{(ClockVariables)0, 0.0}}, 0}); t.edges.push_back(Edge{0, 'b', {}, mkResets("r", sv_choose("rl", 3), 2), 0}); t.edges.push_back(Edge{0, 'c', {symConstraint(sv_choose("x", 2), 2)}, {}, 0}); } check(build(s[0], 2), build(s[1], 2), "abc", 2); }
// arbitrary edges without clocks
static Spec shape(bool nondet) { Spec s; s.nl = 2; s.acc = {(char)0, (char)sv_flag("acc")}; struct { int l; char c; } from[] = {{0, 'a'}, {0, 'b'}, {1, 'a'}}; for (auto &f : from) { int k = sv_choose("to", 3); if (k) s.edges.push_back(Edge{f.l, f.c, {}, {}, k - 1}); if (nondet && k && f.l == 0 && f.c == 'a' && sv_flag("second")) s.edges.push_back(Edge{f.l, f.c, {}, {}, 2 - k}); } return s; }
SV_HARNESS(c16_shape) { SvMode fm(1); TimedAutomaton a = build(shape(false), 0), b = build(shape(false), 0); check(a, b, mkWord("w", 2), 1); }
SV_HARNESS(c16_nondet) { SvMode fm(1); TimedAutomaton a = build(shape(true), 0), b = build(shape(true), 0); check(a, b, "aa", 1); }
SV_HARNESS(c16_initial) { SvMode fm(1); TimedAutomaton a = build(shape(false), 0), b = build(shape(false), 0); if (sv_flag("more")) a.initialStates.push_back(a.states[1]); if (sv_flag("more")) b.initialStates.insert(b.initialStates.begin(), b.states[1]); check(a, b, mkWord("w", sv_choose("n", 2)), 1); }
SV_HARNESS(c16_twice) { SvMode fm(1); Spec s = chain(2, 2); s.edges.push_back(Edge{0, 'a', {symConstraint(1, 2)}, {}, 0}); TimedAutomaton a = build(s, 2); check(a, a, "aa", 2); }
// unobservable moves of either side, interleaved
static Spec silent(int maxc) { Spec s; s.nl = 3; s.nc = 1; s.acc = {0, (char)sv_flag("acc"), 1}; if (sv_flag("silent")) { int c = sv_int("c", 0, maxc); s.edges.push_back(Edge{0, UNOBSERVABLE, {Constraint{0, Constraint::Order::ge, c}, Constraint{0, Constraint::Order::le, c}}, mkResets("r", sv_choose("rl", 2), 1, 1), 1}); }
  int from = sv_choose("from", 2); s.edges.push_back(Edge{from, 'a', {symConstraint(0, maxc)}, {}, 2}); return s; }
SV_HARNESS(c16_silent) { SvMode fm(1); TimedAutomaton a = build(silent(1), 1), b = build(silent(1), 1); check(a, b, "a", 2); }
SV_HARNESS(c16_silent0) { SvMode fm(1); TimedAutomaton a = build(silent(1), 1), b = build(silent(1), 1); check(a, b, "", 2); }
// several unobservable moves of either side
static Spec silents(int maxc) { Spec s; s.nl = 4; s.nc = 1; s.acc = {0, 0, (char)sv_flag("acc"), 1}; int n = sv_choose("silent", 3); for (int i = 0; i < n; i++) { int c = sv_int("c", 0, maxc); s.edges.push_back(Edge{i, UNOBSERVABLE, {Constraint{0, Constraint::Order::ge, c}, Constraint{0, Constraint::Order::le, c}}, i == 0 && sv_flag("r") ? Resets{{(ClockVariables)0, 0.0}} : Resets{}, i + 1}); } s.edges.push_back(Edge{sv_choose("from", n + 1), 'a', {}, {}, 3}); return s; }
SV_HARNESS(c16_silents) { SvMode fm(1); TimedAutomaton a = build(silents(2), 2), b = build(silents(2), 2); check(a, b, "a", 2); }
SV_HARNESS(c16_silents0) { SvMode fm(1); TimedAutomaton a = build(silents(2), 2), b = build(silents(2), 2); check(a, b, "", 3); }
