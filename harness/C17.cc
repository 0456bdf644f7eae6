// Complement, completion and determinism.
#include "ta.hh"
using namespace sv;
static const std::vector<Alphabet> AB{'a', 'b'};
static void note(bool in, bool out) { sv_reach(in ? "accepted by the automaton" : out ? "accepted by the complement" : "accepted by neither"); }
static void check(const Spec &s, const std::string &w, int maxd, int maxc) { TimedAutomaton a = build(s, maxc); Val d = mkVal("d", w.size() + 1, maxd, 3); bool in = refAccepts(s, w, d); size_t n = a.stateSize();
  TimedAutomaton c = a.complement(AB); bool out = taAccepts(c, w, d); sv_assert(out == !in, "the complement accepts exactly the rejected words"); note(in, out);
  sv_assert(c.clockSize() == a.clockSize() && c.initialStates.size() == 1, "same clocks, one initial location");
  sv_assert(a.stateSize() == n && taAccepts(a, w, d) == in, "the original keeps its language");
  for (auto &x : a.states) for (auto &y : c.states) sv_assert(x != y, "no shared location");
  TimedAutomatonRunner r(c); r.pre(); bool run = false; for (size_t i = 0; i < w.size(); i++) { r.step(d[i]); r.step(w[i]); } run = r.step(d.back()); sv_assert(run == out, "the runner agrees on the complement"); }
static Guard gd(const char *n, int len, int nc, int maxc) { return mkGuard(n, len, nc, maxc); }
// one location with k edges on a of the given guard lengths, another one with at most one edge
static void comp(std::vector<int> lens, int nc, int maxc, const char *w, int maxd, bool second = false) { SvMode fm(1); Spec s; s.nl = 2; s.nc = nc; s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")};
  for (size_t i = 0; i < lens.size(); i++) s.edges.push_back(Edge{0, 'a', gd("g", lens[i], nc, maxc), i ? Resets{} : mkResets("r", sv_choose("rl", 2), nc), (int)(i ? 0 : 1)});
  if (second && sv_flag("edge")) s.edges.push_back(Edge{1, 'a', gd("h", 1, nc, maxc), {}, sv_choose("dst", 2)});
  check(s, w, maxd, maxc); }
SV_HARNESS(c17_comp0) { comp({}, 1, 2, mkWord("w", sv_choose("n", 3)).c_str(), 2); }
SV_HARNESS(c17_comp1) { comp({1}, 1, 2, "a", 3); }
SV_HARNESS(c17_comp1x2) { comp({1}, 1, 2, "aa", 3, true); }
SV_HARNESS(c17_comp2) { comp({2}, 2, 2, "a", 3); }
SV_HARNESS(c17_comp11) { comp({1, 1}, 1, 2, "a", 3); }
SV_HARNESS(c17_comp11x2) { comp({1, 1}, 2, 1, "a", 2); }
SV_HARNESS(c17_comp21) { comp({2, 1}, 1, 2, "a", 3); }
SV_HARNESS(c17_comp10) { comp({0}, 1, 1, "aa", 2, true); }
// the second action of the alphabet
SV_HARNESS(c17_other) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")}; for (int l = 0; l < 2; l++) for (char c : {'a', 'b'}) { int k = sv_choose("to", 3); if (k) s.edges.push_back(Edge{l, c, l == 0 && c == 'a' ? gd("g", 1, 1, 1) : Guard{}, {}, k - 1}); } check(s, mkWord("w", 2), 1, 1); }
SV_HARNESS(c17_nolocation) { SvMode fm(1); Spec s; std::string w = mkWord("w", sv_choose("n", 2)); check(s, w, 1, 0); }
// completion: at every valuation of every location the enabled transitions of an action lead to one location
static void total(std::vector<int> lens, int nc, int maxc) { SvMode fm(1); Spec s; s.nl = 1; s.nc = nc; s.acc = {1}; for (int l : lens) s.edges.push_back(Edge{0, 'a', gd("g", l, nc, maxc), {}, 0}); TimedAutomaton a = build(s, maxc); Val v = mkVal("v", nc, maxc + 1, 1);
  int k = 0; for (auto &e : s.edges) k += sv_fork(holds(e.guard, v)); if (k > 1) sv_reject("nondeterministic"); a.makeComplete(AB); sv_assert(a.stateSize() == 2, "one sink");
  for (auto &st : a.states) for (char c : AB) { int n = 0; TAState *to = nullptr; for (auto &t : st->next[c]) if (sv_fork(holds(t.guard, v))) { n++; sv_assert(!to || to == t.target, "enabled transitions agree on the target"); to = t.target; } sv_assert(n >= 1, "some transition is enabled"); if (st == a.states[0] && c == 'a' && k) { sv_assert(to == a.states[0].get(), "enabled transitions are kept"); sv_reach("kept"); } else { sv_assert(to == a.states[1].get() && !to->isMatch, "otherwise the sink"); sv_reach("sink"); } } }
SV_HARNESS(c17_total1) { total({1}, 1, 2); } SV_HARNESS(c17_total2) { total({2}, 1, 2); } SV_HARNESS(c17_total11) { total({1, 1}, 1, 2); } SV_HARNESS(c17_total22) { total({2, 2}, 1, 1); } SV_HARNESS(c17_total11x2) { total({1, 1}, 2, 1); }
SV_HARNESS(c17_total111) { total({1, 1, 1}, 1, 1); }
// determinism
static void det(std::vector<int> lens, int nc, int maxc, bool split = false) { SvMode fm(1); TAState st(true); std::vector<Guard> gs; for (size_t i = 0; i < lens.size(); i++) { gs.push_back(gd("g", lens[i], nc, maxc)); st.next[split && i ? 'b' : 'a'].emplace_back(&st, Resets{}, gs.back()); }
  bool got = st.deterministic(), possible = false; 
  for (size_t i = 0; i < gs.size(); i++) for (size_t j = 0; j < i; j++) if (!(split && j == 0)) { Guard c = gs[i]; c.insert(c.end(), gs[j].begin(), gs[j].end()); possible = possible | nonEmpty(c, nc); }
  sv_assert(got == !possible, "deterministic exactly when no two transitions on an action can be enabled together"); sv_reach(got ? "deterministic" : "nondeterministic");
  TimedAutomaton a; a.states.push_back(std::make_shared<TAState>(false)); a.states.push_back(std::make_shared<TAState>(st)); if (sv_flag("order")) std::swap(a.states[0], a.states[1]); sv_assert(a.deterministic() == got, "the automaton is deterministic exactly when every location is"); }
SV_HARNESS(c17_det11) { det({1, 1}, 2, 2); } SV_HARNESS(c17_det21) { det({2, 1}, 1, 3); } SV_HARNESS(c17_det22) { det({2, 2}, 1, 2); } SV_HARNESS(c17_det111) { det({1, 1, 1}, 1, 2); } SV_HARNESS(c17_det111split) { det({1, 1, 1}, 1, 2, true); } SV_HARNESS(c17_det10) { det({1, 0}, 1, 2); }
// urgent unobservable moves (closed bounds); words whose delays are positive
static void silent(int obs, bool upper) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")}; int c = sv_int("c", 0, 2); Guard g{Constraint{0, Constraint::Order::ge, c}}; if (upper) g.push_back(Constraint{0, Constraint::Order::le, sv_int("u", 0, 2)}); sv_assume(!upper || g[1].c >= c); s.edges.push_back(Edge{0, UNOBSERVABLE, g, mkResets("r", sv_choose("rl", 2), 1), 1});
  if (obs) s.edges.push_back(Edge{0, 'a', {Constraint{0, (Constraint::Order)sv_choose("o", 4), sv_int("k", 0, 2)}}, {}, 0}); int e = sv_choose("to", 3); if (e) s.edges.push_back(Edge{1, 'a', {}, {}, e - 1});
  TimedAutomaton a = build(s, 2); Val d; for (int i = 0; i < 2; i++) { d.push_back(sv_real("d", 0, 3, 3)); sv_assume(d[i] > 0); }
  TimedAutomaton k = a.complement(AB); char w = sv_flag("b") ? 'b' : 'a'; TimedAutomatonRunner r(a), q(k); r.pre(); q.pre(); r.step(d[0]); q.step(d[0]); bool x = r.step(w), y = q.step(w); sv_assert(y == !x, "complement under urgent unobservable moves, after the action"); x = r.step(d[1]); y = q.step(d[1]); sv_assert(y == !x, "complement under urgent unobservable moves"); note(x, y); }
SV_HARNESS(c17_silent0) { silent(0, false); } SV_HARNESS(c17_silent0u) { silent(0, true); } SV_HARNESS(c17_silent1) { silent(1, false); } SV_HARNESS(c17_silent1u) { silent(1, true); }
