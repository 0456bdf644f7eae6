// Neighbours of a condition when some clocks are imprecise, and the relaxation of guards for them.
#include "conds.hh"
#include "ta.hh"
#include <unordered_set>
#include <tuple>
#include "imprecise_clock_handler.hh"
using namespace sv;
typedef ForwardRegionalElementaryLanguage F; typedef std::unordered_set<ClockVariables> Set;
// the units of a region: unit(i, j) of x_i - x_j (x_n = 0), all concrete
struct Units { int n; std::vector<double> f; std::vector<char> pt; Units(const Region &r) : n(r.n), f((n + 1) * (n + 1)), pt((n + 1) * (n + 1)) { int k = 0; for (int j = n - 1; j >= 0; j--) for (int i = 0; i <= j; i++, k++) { f[i * (n + 1) + j + 1] = r.f[k]; pt[i * (n + 1) + j + 1] = r.pt[k]; } }
  void put(Ref &z, int i, int j) const { int k = i * (n + 1) + j; long lo = (long)f[k]; int c = j == n ? 0 : j + 1; z.add(c, i + 1, -lo, pt[k]); z.add(i + 1, c, pt[k] ? lo : lo + 1, pt[k]); } };
static Set mkSet(int n) { Set s; for (int i = 0; i < n; i++) if (sv_flag("precise")) s.insert(i); return s; }
struct Case { int n; std::string w; Delays t, x; Region r; F f; };
static Case mk(int n, int max, int scale) { Case c; c.n = n; c.w = std::string(n - 1, 'a'); c.t = mkDelays("t", n, max, scale); c.x = acc(c.t); c.r = regionOf(c.x); c.f = F::fromTimedWord(TimedWord{c.w, c.t}); return c; }
static void order(Ref &z, int n) { for (int i = 0; i + 1 <= n; i++) z.add(i + 1 == n ? 0 : i + 2, i + 1, 0, true); }
// neighbours before the time successors: every clock in its unit, differences kept between precise clocks and between imprecise clocks
static Ref base(const Units &u, const Set &p) { Ref z(u.n); for (int i = 0; i < u.n; i++) { u.put(z, i, u.n); for (int j = i + 1; j < u.n; j++) if (p.count(i) == p.count(j)) u.put(z, i, j); } z.close(); return z; }
static Set withPoints(const Units &u, Set p) { for (int i = 0; i < u.n; i++) if (u.pt[i * (u.n + 1) + u.n]) p.insert(i); return p; }
static Ref up(const Ref &z) { Ref r(z.n); for (int i = 0; i <= z.n; i++) for (int j = 0; j <= z.n; j++) if (i != j && !(j == 0 && i)) { Ref &q = const_cast<Ref &>(z); if (q.h(i, j)) { r.h(i, j) = 1; r.at(i, j) = q.at(i, j); } } return r; }
static Ref later(const Ref &z, const Units &to, const Set &p) { Ref r = up(z); for (int i = 0; i < to.n; i++) if (p.count(i)) to.put(r, i, to.n); r.close(); return r; }
static void sameGuard(const Guard &g, Ref z, const char *what) { for (int i = 0; i < z.n; i++) { Iv v = interval(g, i); E l = z.at(0, i + 1); long lo = -2 * l.c + (l.le ? 0 : 1), hi = INFTY; if (z.h(i + 1, 0)) { E u = z.at(i + 1, 0); hi = 2 * u.c - (u.le ? 0 : 1); } sv_assert((v.lo == lo) & (v.hi == hi), what); } }
static bool member(const std::vector<F> &v, const Delays &d) { bool r = false; for (auto &f : v) r = r | inCond(f.getTimedCondition(), d); return r; }
static Delays fromX(const Val &x) { Delays d = x; for (size_t i = 0; i + 1 < x.size(); i++) d[i] = x[i] - x[i + 1]; return d; }
// the neighbours of a condition
static void neighbors(int n, int max, int scale) { SvMode fm(1); Case c = mk(n, max, scale); Units u(c.r); Set p = mkSet(n); auto ns = NeighborConditions::makeNeighbors(c.f, p); Ref z = base(u, p);
  Delays d = mkDelays("d", n, max + 1, scale); sv_assert(member(ns, d) == z.contains(acc(d)), "the neighbours are the words that agree on every clock and within each class of clocks");
  for (auto &f : ns) { sv_assert(f.getWord() == c.w, "neighbours have the word of the original"); sv_assert(f.isSimple(), "neighbours are simple"); } sv_assert(member(ns, c.t), "the original is its own neighbour"); sv_reach(ns.size() > 1 ? "several" : "one"); NeighborConditions nc(c.f, p); sv_assert(!nc.precise() | !z.contains(acc(d)) | inCond(c.f.getTimedCondition(), d), "a precise condition has no other neighbour"); sv_assert((int)p.size() < n || nc.precise(), "a condition whose clocks are all precise is precise"); }
SV_HARNESS(c27_neighbors1) { neighbors(1, 3, 2); }
SV_HARNESS(c27_neighbors2) { neighbors(2, 2, 2); }
SV_HARNESS(c27_neighbors3) { neighbors(3, 1, 2); }
// relaxed guards along time successors
static void relaxed(int n, int max, int scale, int steps) { SvMode fm(1); Case c = mk(n, max, scale); Units u(c.r); Set p = mkSet(n); NeighborConditions nc(c.f, p); Set q = withPoints(u, p);
  Ref z = base(u, p); if (!q.empty()) z = later(z, u, q); sameGuard(nc.toRelaxedGuard(), z, "the relaxed guard is the hull of the conditions the imprecise clocks allow"); Ref o = Ref(n); for (int i = 0; i < n; i++) u.put(o, i, n); o.close(); sameGuard(nc.toOriginalGuard(), o, "the original guard is that of the condition");
  auto im = nc.impreciseClocks(); std::vector<ClockVariables> want; for (int i = 0; i < n; i++) if (!q.count(i)) want.push_back(i); sv_assert(im == want, "imprecise clocks are those neither given as precise nor at a point");
  if (q.empty()) return; // the callers never ask for successors without any precise clock
  Delays t = c.t; F f = c.f;
  for (int k = 0; k < steps; k++) { Delays s = mkDelays("s", 1, 2, scale); t.back() = t.back() + s[0]; auto g = f.successor(); Val y = acc(t); sv_assume(inCond(g.getTimedCondition(), t)); Units v(regionOf(y)); NeighborConditions m = nc.successor(), a = nc; a.successorAssign(); Ref w = later(z, v, q);    sameGuard(m.toRelaxedGuard(), w, "the successor allows what some delay of the neighbours leads to"); sv_assert(m == a, "both ways of taking the successor agree"); sv_reach("later"); nc = m; f = g; z = w; }
}
SV_HARNESS(c27_relaxed1) { relaxed(1, 2, 2, 2); }
SV_HARNESS(c27_relaxed2) { relaxed(2, 1, 2, 2); }
SV_HARNESS(c27_relaxed2b) { relaxed(2, 2, 2, 1); }
SV_HARNESS(c27_relaxed3) { relaxed(3, 1, 3, 1); }
// precise clocks after a transition to a location whose outgoing guards mention the first m clocks
static void resets(int n, int k, int maxc) { SvMode fm(1); Set p = mkSet(n); int m = 1 + sv_choose("m", n + 1); TAState q(false); TATransition out; out.target = &q; out.guard = {Constraint{(ClockVariables)(m - 1), Constraint::Order::ge, 1}}; q.next['a'] = {out};
  TATransition t; t.target = &q; t.resetVars = mkResets("r", k, n, maxc, true); Set r = NeighborConditions::preciseClocksAfterReset(p, t);
  for (int i = 0; i < n + 2; i++) { bool want = p.count(i); for (auto &e : t.resetVars) if (e.first == i) { if (e.second.index() == 1) want = p.count(std::get<ClockVariables>(e.second)); else { double d = std::get<double>(e.second); want = d == std::floor(d); } } if (i >= m) want = false; sv_assert((r.count(i) == 1) == want, "a clock is precise after a transition when it is set to an integer or to a precise clock, or stays precise"); } }
SV_HARNESS(c27_resets1) { resets(2, 1, 3); }
SV_HARNESS(c27_resets2) { resets(3, 2, 2); }
SV_HARNESS(c27_resets3) { resets(3, 3, 1); }
SV_HARNESS(c27_resets0) { resets(3, 0, 1); }
// the next action
static void action(int n, int max, int scale) { SvMode fm(1); Case c = mk(n, max, scale); Units u(c.r); Set p = mkSet(n); NeighborConditions nc(c.f, p); Set q = withPoints(u, p); Ref z = base(u, p); if (!q.empty()) z = later(z, u, q);
  NeighborConditions m = nc.successor('b'); sv_assert((int)m.getClockSize() == n + 1, "an action adds a clock"); auto cut = [&](Guard g, bool last) { Guard r; for (auto &e : g) if ((e.x == n) == last) r.push_back(e); return r; };
  sameGuard(cut(m.toRelaxedGuard(), false), z, "an action keeps the other clocks"); Iv v = interval(cut(m.toRelaxedGuard(), true), n); sv_assert((v.lo == 0) & (v.hi == 0), "the clock of an action starts at zero"); auto im = m.impreciseClocks(); sv_assert(im == nc.impreciseClocks(), "the clock of an action is precise"); sv_assert(m.toOriginalGuard() == c.f.successor('b').getTimedCondition().toGuard(), "the original condition takes the action too"); }
SV_HARNESS(c27_action1) { action(1, 2, 2); }
SV_HARNESS(c27_action2) { action(2, 2, 2); }
SV_HARNESS(c27_action3) { action(3, 1, 3); }
// the condition after a transition with updates
static void after(int n, int m, int k, int max, int maxc) { SvMode fm(1); Case c = mk(n, max, 2); Set p = mkSet(n); TAState q(false); TATransition out; out.target = &q; out.guard = {Constraint{(ClockVariables)(m - 1), Constraint::Order::ge, 1}}; q.next['a'] = {out};
  TATransition t; t.target = &q; int from = 0; for (int i = 0; i < k; i++) { int x = from + sv_choose("x", m - from - (k - 1 - i)); from = x + 1; int y = sv_choose("y", n + 2); if (y >= n) t.resetVars.emplace_back(x, sv_int("v", 0, maxc) + (y > n ? 0.5 : 0.0)); else t.resetVars.emplace_back(x, (ClockVariables)y); }
  Val y = c.x; y.resize(m, -1); for (auto &e : t.resetVars) y[e.first] = e.second.index() == 1 ? c.x[std::get<ClockVariables>(e.second)] : std::get<double>(e.second); bool ok = true; for (int i = 0; i < m; i++) ok = ok & (y[i] >= 0) & (i == 0 || y[i - 1] >= y[i]); sv_assume(ok);
  NeighborConditions nc(c.f, p); bool internal = k == 1 && (int)t.resetVars[0].first == n && t.resetVars[0].second.index() == 0; NeighborConditions r = nc.makeAfterTransition('b', t); sv_assert((int)r.getClockSize() == m, "the condition after a transition has the clocks of the target"); Guard g = r.toOriginalGuard(), h = r.toRelaxedGuard(); sv_reach(internal ? "internal" : "external");
  sv_assert(holds(g, y), "the condition after a transition contains the updated clocks"); sv_assert(holds(h, y), "the relaxed guard after a transition contains the updated clocks");
  for (int i = 0; i < m; i++) { Iv v = interval(g, i); sv_assert(v.lo == v.hi, "every clock is in one unit after a transition"); }
  Val o = r.toOriginalValuation(); for (int i = 0; i < m; i++) { Iv v = interval(g, i); sv_assert(v.lo % 2 != 0 || (long)(2 * o[i]) == v.lo, "a clock at a point is set to it"); } }
SV_HARNESS(c27_after11) { after(1, 1, 1, 2, 2); }
SV_HARNESS(c27_after21) { after(2, 1, 1, 2, 2); }
SV_HARNESS(c27_after22) { after(2, 2, 1, 2, 2); }
SV_HARNESS(c27_after22b) { after(2, 2, 2, 1, 2); }
SV_HARNESS(c27_after23) { after(2, 3, 1, 2, 0); }
SV_HARNESS(c27_after32) { after(3, 2, 1, 1, 1); }
SV_HARNESS(c27_after33) { after(3, 3, 2, 1, 1); }
// relaxing the guards of an automaton whose guards are those of the successive conditions of its locations, as in a hypothesis
static void handler(int n, int max, int regions, int kinds, bool back) { SvMode fm(1); Case c = mk(n, max, 2); Units u(c.r); RenamingRelation ren; Set p; for (int i = 0; i < n; i++) if (sv_flag("precise")) { ren.emplace_back(0, i); p.insert(i); } if (p.empty()) sv_reject("no renaming");
  TAState s(false), t(true); TAState *ls[2] = {&s, &t}; F f = c.f;
  for (int r = 0; r < regions; r++) { TATransition e; e.target = ls[sv_choose("to", 2)]; e.guard = f.getTimedCondition().toGuard(); if (r + 1 == regions) { if (f.hasEqualityN()) sv_reject("the last condition is not open"); Guard g; for (auto &q : e.guard) if (!q.isUpperBound()) g.push_back(q); e.guard = g; }
    if (kinds) for (int v = 0; v < n; v++) { int a = sv_choose("u", v + 1 == n ? kinds : 2); if (a) e.resetVars.emplace_back(v, v + 1 == n ? a - 1.0 : a + 0.5); } s.next['a'].push_back(e); f = f.successor(); }
  for (int r = 0; r < 2; r++) { TATransition e; e.target = back ? ls[sv_choose("to", 2)] : &t; int k = 1; ClockVariables x = n - 1; e.guard = {Constraint{x, r ? Constraint::Order::gt : Constraint::Order::le, k}}; t.next['a'].push_back(e); }
  std::vector<TATransition> so = s.next['a'], to = t.next['a'];
  ImpreciseClockHandler h; h.push(&s, ren, c.f); h.run(); bool imprecise = ren.hasImpreciseClocks(c.f.getTimedCondition()); sv_reach(imprecise ? "imprecise" : "precise");
  Val y = mkVal("y", n, max + 2, 2); for (int i = 0; i < 2; i++) { auto &old = i ? to : so; auto &now = ls[i]->next['a']; sv_assert(now.size() >= old.size(), "no transition is removed"); if (!imprecise) sv_assert(now.size() == old.size(), "nothing is relaxed without imprecise clocks");
    for (size_t k = 0; k < now.size(); k++) { if (k < old.size()) { sv_assert(now[k] == old[k], "the given transitions stay"); continue; } sv_reach("relaxed"); bool one = false; for (auto &o : old) one = one | ((o.target == now[k].target) & (!holds(o.guard, y) | holds(now[k].guard, y))); sv_assert(one, "an added transition goes where some given one goes"); } }
  // the original word and a neighbour let time pass until they agree on the precise clocks again
  double d = sv_real("d", 0, 2, 2), e = sv_real("f", 0, 2, 2); Set q = withPoints(u, p); Val x = delayed(c.x, d), z = delayed(y, e); bool rel = base(u, p).contains(y); for (int i = 0; i < n; i++) if (q.count(i)) rel = rel & sameUnit(x[i], z[i]); sv_assume(rel);
  for (auto &o : so) { bool some = false; for (auto &r : s.next['a']) if (r.target == o.target) { bool up = true; for (auto &v : r.resetVars) if (v.first >= (ClockVariables)n) up = false; some = some | (up & holds(r.guard, z)); } sv_assert(!imprecise | !holds(o.guard, x) | some, "a neighbour can follow the original"); } }
SV_HARNESS(c27_handler21) { handler(2, 1, 1, 0, false); }
SV_HARNESS(c27_handler22) { handler(2, 1, 2, 0, false); }
SV_HARNESS(c27_handler23) { handler(2, 1, 3, 0, false); }
SV_HARNESS(c27_handler22r) { handler(2, 1, 2, 2, true); }
SV_HARNESS(c27_handler25) { handler(2, 2, 5, 0, false); }
SV_HARNESS(c27_handler32) { handler(3, 1, 2, 0, false); }
SV_HARNESS(c27_handler33) { handler(3, 1, 3, 0, false); }
// clocks that stay imprecise are set to the values of the condition
SV_HARNESS(c27_embed) { SvMode fm(1); int n = 3; Set p = mkSet(n); Resets r = mkResets("r", sv_choose("k", 3), n, 2, true); Val v; for (int i = 0; i < n; i++) v.push_back(sv_real("v", 0, 3, 1)); Val x = mkVal("x", n, 3, 1); Val a = applied(ImpreciseClockHandler::embedIfImprecise(r, p, v), x), b = applied(r, x); for (int i = 0; i < n; i++) sv_assert(a[i] == (p.count(i) ? b[i] : v[i]), "precise clocks are updated as before, the others take the given values"); }
