// The zone construction: samples are accepted, non-empty languages are found.
#include "ta.hh"
#include "ta2za.hh"
using namespace sv;
static Guard gd(const char *n, int len, int nc, int maxc) { return mkGuard(n, len, nc, maxc); }
static TimedAutomaton bounded(const Spec &s) { TimedAutomaton a = build(s, 0); a.maxConstraints = TimedAutomaton::makeMaxConstants(a.states); a.maxConstraints.resize(s.nc); return a; }
// words: action sequences that are tried when nothing was found
static void check(const Spec &s, const std::vector<std::string> &words, int maxd) { TimedAutomaton a = bounded(s); bool quick = sv_flag("quick"); ZoneAutomaton z; ta2za(a, z, quick); auto w = sv_flag("memo") ? z.sampleWithMemo() : z.sample();
  if (w) { sv_reach("a word is found"); sv_assert(w->getDurations().size() == w->wordSize() + 1, "a word with a delay before and after each action"); bool nonneg = true; for (double d : w->getDurations()) nonneg = nonneg & (d >= 0); sv_assert(nonneg, "no negative delay"); sv_assert(taAccepts(a, w->getWord(), w->getDurations()), "the word found is accepted"); }
  else { sv_reach("no word is found"); const std::string &t = words[sv_choose("word", words.size())]; Val d = mkVal("d", t.size() + 1, maxd, 3); sv_assert(!taAccepts(a, t, d), "no word is accepted when none is found"); } }
static void chain(int nc, int maxc, int l1, int l2, int r1, bool loop) { SvMode fm(1); Spec s; s.nl = 3; s.nc = nc; s.acc = {0, 0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", l1, nc, maxc), mkResets("r", r1, nc, 1), 1}); 
  if (loop) s.edges.push_back(Edge{1, 'b', gd("k", 1, nc, maxc), mkResets("s", 1, nc, 0), 1}); s.edges.push_back(Edge{1, 'a', gd("h", l2, nc, maxc), {}, 2}); check(s, loop ? std::vector<std::string>{"aa", "aba", "abba"} : std::vector<std::string>{"aa"}, maxc + 1); }
SV_HARNESS(c19_chain1) { chain(1, 2, 2, 2, 1, false); }
SV_HARNESS(c19_chain2) { chain(2, 2, 1, 2, 1, false); }
SV_HARNESS(c19_chain2r) { chain(2, 1, 1, 1, 2, false); }
SV_HARNESS(c19_loop1) { chain(1, 2, 1, 1, 1, true); }
SV_HARNESS(c19_loop2) { chain(2, 1, 1, 1, 1, true); }
// two edges into the same location: zones of one location with and without inclusion
SV_HARNESS(c19_merge) { SvMode fm(1); Spec s; s.nl = 3; s.nc = 2; s.acc = {0, 0, 1}; for (int i = 0; i < 2; i++) s.edges.push_back(Edge{0, (char)('a' + i), gd("g", 1, 1, 2), Resets{{(ClockVariables)i, (double)sv_int("v", 0, 1)}}, 1}); s.edges.push_back(Edge{1, 'c', {Constraint{0, Constraint::Order::le, sv_int("h", 0, 2)}, Constraint{1, Constraint::Order::gt, sv_int("h", 0, 2)}}, {}, 2}); check(s, {"ac", "bc"}, 3); }
// a clock that is only compared after it was copied
SV_HARNESS(c19_copy) { SvMode fm(1); Spec s; s.nl = 4; s.nc = 2; s.acc = {0, 0, 0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, 1, 2), {{(ClockVariables)1, 0.0}}, 1}); s.edges.push_back(Edge{1, 'a', sv_flag("mid") ? gd("m", 1, 1, 2) : Guard{}, {{(ClockVariables)0, (ClockVariables)1}}, 2}); s.edges.push_back(Edge{2, 'a', gd("h", 1, 1, 2), {}, 3}); check(s, {"aaa"}, 3); }
SV_HARNESS(c19_copymerge) { SvMode fm(1); Spec s; s.nl = 4; s.nc = 2; s.acc = {0, 0, 0, 1}; for (int i = 0; i < 2; i++) s.edges.push_back(Edge{0, (char)('a' + i), gd("g", 1, 1, 2), {{(ClockVariables)0, 0.0}}, 1}); s.edges.push_back(Edge{1, 'a', {}, {{(ClockVariables)0, (ClockVariables)1}}, 2}); s.edges.push_back(Edge{2, 'a', gd("h", 1, 1, 2), {}, 3}); check(s, {"aaa", "baa"}, 3); }
SV_HARNESS(c19_initial) { SvMode fm(1); Spec s; s.nl = 2; s.nc = sv_choose("nc", 2); s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")}; int k = sv_choose("to", 3); if (k) s.edges.push_back(Edge{0, 'a', s.nc ? gd("g", 2, 1, 2) : Guard{}, {}, k - 1}); check(s, {"", "a", "aa"}, 3); }
SV_HARNESS(c19_silent) { SvMode fm(1); Spec s; s.nl = 3; s.nc = 1; s.acc = {0, 0, 1}; int c = sv_int("c", 0, 2); s.edges.push_back(Edge{0, UNOBSERVABLE, {Constraint{0, Constraint::Order::ge, c}, Constraint{0, Constraint::Order::le, c}}, mkResets("r", sv_choose("rl", 2), 1, 1), 1}); s.edges.push_back(Edge{sv_choose("from", 2), 'a', gd("g", 2, 1, 2), {}, 2}); check(s, {"a"}, 3); }
