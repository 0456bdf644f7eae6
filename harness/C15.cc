// The runner against the semantics of deterministic timed automata.
#include "ta.hh"
using namespace sv;
// Transitions are chosen when the run first needs them: the runner only looks at the transitions of the current
// location and action, so this covers all automata with the remaining transitions arbitrary.
struct Lazy { Spec s; TimedAutomaton a; std::vector<char> made; int guards, resets, trans, maxc; bool half; std::string alpha;
  Lazy(int nl, int nc, int trans_, int guards_, int resets_, int maxc_, bool half_ = false) : guards(guards_), resets(resets_), trans(trans_), maxc(maxc_), half(half_) {
    s.nl = nl; s.nc = nc; for (int i = 0; i < nl; i++) s.acc.push_back(sv_flag("acc")); a = build(s, maxc); made.assign(nl * 256, 0); }
  void need(int loc, char act) { if (loc < 0 || made[loc * 256 + act]) return; made[loc * 256 + act] = 1; int k = trans < 0 ? -trans : sv_choose("k", trans + 1);
    for (int i = 0; i < k; i++) { Edge e; e.src = loc; e.act = act; e.guard = mkGuard("g", guards < 0 ? -guards : sv_choose("gl", guards + 1), s.nc, maxc); e.resets = mkResets("r", resets < 0 ? -resets : sv_choose("rl", resets + 1), s.nc, maxc, half); e.dst = sv_choose("dst", s.nl);
      s.edges.push_back(e); a.states[loc]->next[act].emplace_back(a.states[e.dst].get(), e.resets, e.guard); } } };
static void check(TimedAutomatonRunner &r, RefRun &ref, bool got) { sv_assert(got == ref.accepting(), "the runner reports the acceptance of the word so far"); if (ref.loc < 0) sv_reach("rejected forever"); else if (got) sv_reach("accepted"); else sv_reach("not accepted"); }
static void word(Lazy &l, TimedAutomatonRunner &r, int n, int maxd, const char *acts, bool twice = false) { RefRun ref(l.s);
  for (int i = 0; i <= n; i++) { double d = sv_real("d", 0, maxd, 3); ref.delay(d); check(r, ref, r.step(d));
    if (twice) { double e = sv_real("e", 0, 1, 3); ref.delay(e); check(r, ref, r.step(e)); }
    if (i == n) break; char a = acts[sv_choose("a", std::string(acts).size())]; l.need(ref.loc, a); bool got = r.step(a); ref.act(a); check(r, ref, got); } }
static void one(int nl, int nc, int trans, int guards, int resets, int maxc, int n, int maxd, const char *acts, bool half = false, bool twice = false) { SvMode fm(1); Lazy l(nl, nc, trans, guards, resets, maxc, half); TimedAutomatonRunner r(l.a); r.pre(); word(l, r, n, maxd, acts, twice); r.post(); sv_assert(r.count() == 1, "one query is counted per word"); }
SV_HARNESS(c15_guards) { one(2, 2, 1, 2, 0, 2, 1, 3, "a"); }
SV_HARNESS(c15_resets) { one(1, 2, 1, -1, 2, 1, 2, 2, "a"); }
SV_HARNESS(c15_resets3) { one(1, 3, -1, 0, -3, 1, 1, 2, "a", true); }
SV_HARNESS(c15_branch) { one(2, 1, -2, -1, 1, 2, 1, 3, "a"); }
SV_HARNESS(c15_long) { one(2, 1, 1, -1, 1, 1, 2, 2, "ab"); }
SV_HARNESS(c15_long3) { one(2, 1, -1, -1, -1, 1, 3, 2, "a"); }
SV_HARNESS(c15_stutter) { one(2, 1, 1, -1, 1, 2, 1, 3, "a", false, true); }
// renamings followed by a guard that reads the renamed clocks
SV_HARNESS(c15_swap) { SvMode fm(1); Lazy l(1, 3, -1, 0, 2, 1, true); l.s.acc[0] = 1; l.a.states[0]->isMatch = true; TimedAutomatonRunner r(l.a); r.pre(); RefRun ref(l.s);
  for (int i = 0; i < 2; i++) { double d = sv_real("d", 0, 2, 3); ref.delay(d); check(r, ref, r.step(d)); l.need(0, (char)('a' + i)); bool got = r.step((char)('a' + i)); ref.act((char)('a' + i)); check(r, ref, got); }
  Guard g = mkGuard("g", 1, 3, 3); l.s.edges.push_back(Edge{0, 'z', g, {}, 0}); l.a.states[0]->next['z'].emplace_back(l.a.states[0].get(), Resets{}, g); bool got = r.step('z'); ref.act('z'); check(r, ref, got); }
// a second word on the same runner, after the first one was abandoned anywhere
static void again(int n1, int n2, int nc) { SvMode fm(1); Lazy l(2, nc, 1, -1, 1, 1); TimedAutomatonRunner r(l.a); r.pre(); word(l, r, n1, 2, "a"); if (sv_flag("post")) r.post(); r.pre(); word(l, r, n2, 2, "a"); sv_assert(r.count() == 2, "one query is counted per word"); sv_reach("reused"); }
SV_HARNESS(c15_again1) { again(1, 1, 1); } SV_HARNESS(c15_again2) { again(1, 1, 2); }
// nothing is accepted by the automaton without locations
SV_HARNESS(c15_empty) { Spec s; TimedAutomatonRunner r(build(s, 0)); r.pre(); sv_assert(!r.step(sv_real("d", 0, 2, 3)), "no location"); sv_assert(!r.step('a'), "no location"); sv_assert(!r.step(0.0), "no location"); r.post(); sv_reach("empty"); }
// unobservable transitions with closed lower bounds fire as soon as time reaches them
static void silent(int k, int nc) { SvMode fm(1); Spec s; s.nl = 3; s.nc = nc; for (int i = 0; i < 3; i++) s.acc.push_back(sv_flag("acc")); TimedAutomaton a = build(s, 3);
  struct T { int x; long c; Resets r; int dst; }; std::vector<std::vector<T>> ts(2);
  for (int l = 0; l < 2; l++) for (int i = 0; i < (l ? 1 : k); i++) { T t; t.x = sv_choose("x", nc); t.c = sv_int("c", 0, 2); t.r = mkResets("r", l ? 0 : sv_choose("rl", 2), nc); t.dst = 1 + (l ? 1 : sv_choose("dst", 2)); Guard g{Constraint{(ClockVariables)t.x, Constraint::Order::ge, (int)t.c}}; if (!l && sv_flag("eq")) g.push_back(Constraint{(ClockVariables)t.x, Constraint::Order::le, (int)t.c});
    a.states[l]->next[UNOBSERVABLE].emplace_back(a.states[t.dst].get(), t.r, g); ts[l].push_back(t);
    if (g.size() == 2) { if (l == 0) {} } ts[l].back().c = g.size() == 2 ? -t.c - 1 : t.c; } // punctual ones are marked by a negative constant
  TimedAutomatonRunner run(a); run.pre(); int loc = 0; Val v(nc, 0.0);
  for (int step = 0; step < 2; step++) { double d = sv_real("d", 0, 3, 3); double rest = d;
    if (sv_fork(d > 0)) while (loc < 2) { const T *best = nullptr; double wait = 0; for (auto &t : ts[loc]) { bool punctual = t.c < 0; long c = punctual ? -t.c - 1 : t.c; double w = c - v[t.x]; bool past = sv_fork(w < 0); if (past && punctual) { if (ts[loc].size() > 1) sv_reject("several"); continue; } if (past) w = 0;
        if (best) { if (sv_fork(w == wait)) sv_reject("nondeterministic"); if (!sv_fork(w < wait)) continue; } best = &t; wait = w; }
      if (!best || sv_fork(wait > rest)) break; v = applied(best->r, delayed(v, wait)); rest = rest - wait; loc = best->dst; sv_reach("silent move"); if (sv_fork(rest == 0)) break; }
    v = delayed(v, rest); bool got = run.step(d); sv_assert(got == (bool)s.acc[loc], "urgent unobservable transitions"); } }
SV_HARNESS(c15_silent1) { silent(1, 1); } SV_HARNESS(c15_silent2) { silent(1, 2); }
// several unobservable transitions, guards over several clocks: the one enabled first fires
static void silents(int k, int nc, int len, int maxc) { SvMode fm(1); Spec s; s.nl = 3; s.nc = nc; for (int i = 0; i < 3; i++) s.acc.push_back(sv_flag("acc")); typedef Constraint::Order O;
  for (int i = 0; i <= k; i++) { Edge e; e.src = i == k ? 1 : 0; e.act = UNOBSERVABLE; int n = i == k ? 1 : sv_choose("len", len + 1); for (int j = 0; j < n; j++) { int x = sv_choose("x", nc), o = sv_choose("o", i == k ? 1 : 3), c = sv_int("c", 0, maxc); e.guard.push_back(Constraint{(ClockVariables)x, o == 0 ? O::ge : o == 1 ? O::le : O::lt, c}); } e.resets = i == k ? Resets{} : mkResets("r", sv_choose("rl", 2), nc); e.dst = i == k ? 2 : 1 + sv_choose("dst", 2); s.edges.push_back(e); }
  TimedAutomaton a = build(s, 3); TimedAutomatonRunner run(a); run.pre(); int loc = 0; Val v(nc, 0.0);
  for (int step = 0; step < 2; step++) { double d = sv_real("d", 0, 3, 3), rest = d;
    if (sv_fork(d > 0)) while (loc < 2) { const Edge *best = nullptr; double wait = 0; for (auto &e : s.edges) if (e.src == loc) { double w = 0; for (auto &g : e.guard) { double x = g.c - v[g.x]; if (g.odr == O::ge && sv_fork(x > w)) w = x; }
        bool ok = true; for (auto &g : e.guard) { double x = v[g.x] + w; if (g.odr == O::lt) ok = ok & (x < g.c); else if (g.odr == O::le) ok = ok & (x <= g.c); } if (!sv_fork(ok)) continue;
        if (best) { if (sv_fork(w == wait)) sv_reject("nondeterministic"); sv_reach("several"); if (!sv_fork(w < wait)) continue; } best = &e; wait = w; }
      if (!best || sv_fork(wait > rest)) break; v = applied(best->resets, delayed(v, wait)); rest = rest - wait; loc = best->dst; sv_reach("silent move"); if (sv_fork(rest == 0)) break; }
    v = delayed(v, rest); bool got = run.step(d); sv_assert(got == (bool)s.acc[loc], "the unobservable transition that is enabled first is taken"); } }
SV_HARNESS(c15_silents1) { silents(1, 2, 2, 2); } SV_HARNESS(c15_silents2) { silents(2, 1, 2, 2); } SV_HARNESS(c15_silents22) { silents(2, 2, 1, 2); }
