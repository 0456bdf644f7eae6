// The equivalence oracle built from an automaton and its complement.
#include "ta.hh"
#include "timed_automata_equivalence_oracle.hh"
using namespace sv;
static const std::vector<Alphabet> A{'a'}, AB{'a', 'b'};
static Guard gd(const char *n, int len, int nc, int maxc) { return mkGuard(n, len, nc, maxc); }
static TimedAutomaton bounded(const Spec &s) { TimedAutomaton a = build(s, 0); a.maxConstraints = TimedAutomaton::makeMaxConstants(a.states); a.maxConstraints.resize(s.nc); return a; }
static bool deterministic(const Spec &s) { bool r = true; for (size_t i = 0; i < s.edges.size(); i++) for (size_t j = 0; j < i; j++) if (s.edges[i].src == s.edges[j].src && s.edges[i].act == s.edges[j].act) { Guard g = s.edges[i].guard; g.insert(g.end(), s.edges[j].guard.begin(), s.edges[j].guard.end()); r = r & !nonEmpty(g, s.nc); } return r; }
static void ask(ComplementTimedAutomataEquivalenceOracle &o, const Spec &t, const Spec &h, const std::vector<std::string> &words, int maxd) { TimedAutomaton a = bounded(h); auto w = o.findCounterExample(a);
  if (w) { sv_reach("counterexample"); bool nonneg = true; for (double d : w->getDurations()) nonneg = nonneg & (d >= 0); sv_assert(nonneg && w->getDurations().size() == w->wordSize() + 1, "a timed word"); bool x = refAccepts(t, w->getWord(), w->getDurations()), y = refAccepts(h, w->getWord(), w->getDurations()); sv_assert(x != y, "the counterexample is accepted by exactly one"); sv_reach(x ? "missing word" : "extra word"); sv_assert(taAccepts(a, w->getWord(), w->getDurations()) == y, "the hypothesis is unchanged"); }
  else { sv_reach("none"); const std::string &s = words[sv_choose("word", words.size())]; Val d = mkVal("d", s.size() + 1, maxd, 3); bool x = refAccepts(t, s, d), y = refAccepts(h, s, d); sv_assert(x == y, "without a counterexample the languages agree"); sv_assert(taAccepts(a, s, d) == y, "the hypothesis is unchanged"); } }
static void run(const Spec &t, const Spec &h, const std::vector<Alphabet> &al, const std::vector<std::string> &words, int maxd) { sv_assume(deterministic(t)); sv_assume(deterministic(h)); TimedAutomaton a = bounded(t); ComplementTimedAutomataEquivalenceOracle o(a, a.complement(al), al); ask(o, t, h, words, maxd); sv_assert(o.numEqQueries() == 1, "one query is counted"); }
static Spec two(const char *n, int len, int maxc, int nc = 1) { Spec s; s.nl = 2; s.nc = nc; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', gd(n, len, nc, maxc), {}, 1}); return s; }
SV_HARNESS(c20_guard1) { SvMode fm(1); Spec t = two("t", 1, 3), h = two("h", 1, 3); run(t, h, A, {"", "a", "aa"}, 4); }
SV_HARNESS(c20_guard2) { SvMode fm(1); Spec t = two("t", 2, 2), h = two("h", 1, 2); run(t, h, A, {"a"}, 3); }
SV_HARNESS(c20_guard12) { SvMode fm(1); Spec t = two("t", 1, 2), h = two("h", 2, 2); run(t, h, A, {"a"}, 3); }
SV_HARNESS(c20_branch) { SvMode fm(1); Spec t = two("t", 1, 2), h = two("h", 1, 2); h.edges.push_back(Edge{0, 'a', gd("k", 1, 1, 2), {}, sv_choose("dst", 2)}); run(t, h, A, {"a", "aa"}, 3); }
// acceptance, alphabets, missing transitions; no clocks
static Spec shape() { Spec s; s.nl = 2; s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")}; struct { int l; char c; } from[] = {{0, 'a'}, {0, 'b'}, {1, 'a'}}; for (auto &f : from) { int k = sv_choose("to", 3); if (k) s.edges.push_back(Edge{f.l, f.c, {}, {}, k - 1}); } return s; }
SV_HARNESS(c20_shape) { SvMode fm(1); Spec t; t.nl = 2; t.acc = {0, 1}; t.edges = {Edge{0, 'a', {}, {}, 1}, Edge{1, 'a', {}, {}, 0}}; if (sv_flag("loop")) t.edges.push_back(Edge{0, 'b', {}, {}, 0}); Spec h = shape(); if (sv_flag("swap")) std::swap(t, h); run(t, h, AB, {"", "a", "b", "aa", "ab", "ba", "aaa", "aba", "baa"}, 1); }
// a second action whose guard reads a clock the first one updates
static Spec chain(const char *n, int nc, int maxc, int reset) { Spec s; s.nl = 3; s.nc = nc; s.acc = {0, 0, 1}; std::string m = n; s.edges.push_back(Edge{0, 'a', gd((m + "g").c_str(), 1, nc, maxc), reset == 1 ? mkResets((m + "r").c_str(), 1, nc, 1) : reset == 2 ? Resets{{(ClockVariables)0, 0.0}} : Resets{}, 1}); s.edges.push_back(Edge{1, 'a', gd((m + "h").c_str(), 1, nc, maxc), {}, 2}); return s; }
SV_HARNESS(c20_chain) { SvMode fm(1); Spec t = chain("t", 1, 1, sv_choose("tr", 3)), h = chain("h", 1, 1, sv_choose("hr", 3)); run(t, h, A, {"aa"}, 2); }
SV_HARNESS(c20_clocks) { SvMode fm(1); Spec t = chain("t", 1, 1, 0), h = chain("h", 2, 1, 2); run(t, h, A, {"aa"}, 2); }
// several hypotheses with one oracle
SV_HARNESS(c20_again) { SvMode fm(1); Spec t = two("t", 1, 1), h1 = two("h", 1, 1), h2 = two("k", 1, 1); h1.acc[0] = sv_flag("acc"); TimedAutomaton a = bounded(t); ComplementTimedAutomataEquivalenceOracle o(a, a.complement(A), A); TimedAutomaton x = bounded(h1); (void)o.findCounterExample(x); ask(o, t, h2, {"a"}, 2); sv_assert(o.numEqQueries() == 2, "queries are counted"); }
// same language, different form
SV_HARNESS(c20_same) { SvMode fm(1); Spec t = chain("t", 1, 2, sv_choose("tr", 2)), h; h.nl = 4; h.nc = 2; h.acc = {0, 0, 1, 1}; int c = sv_int("c", 0, 2); Edge e = t.edges[0], f = t.edges[1]; for (auto &g : e.guard) g.x = 1; for (auto &g : f.guard) g.x = 1; for (auto &r : e.resets) { r.first = 1; if (r.second.index() == 1) r.second = (ClockVariables)1; } h.edges.push_back(e); Edge p = f, q = f; p.guard.push_back(Constraint{0, Constraint::Order::le, c}); q.guard.push_back(Constraint{0, Constraint::Order::gt, c}); p.dst = 2; q.dst = 3; h.edges.push_back(p); h.edges.push_back(q); TimedAutomaton a = bounded(t), b = bounded(h); ComplementTimedAutomataEquivalenceOracle o(a, a.complement(A), A); sv_assert(!o.findCounterExample(b), "equivalent automata have no counterexample"); sv_reach("equivalent"); }
