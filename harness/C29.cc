// Transitions of the hypothesis: internal (to a continuation) and external (along a morphism).
#include "conds.hh"
#include "ta.hh"
#include "renaming_relation.hh"
#include "internal_transition_maker.hh"
#include "external_transition_maker.hh"
using namespace sv;
struct W { Delays t, x; Region r; TimedCondition cond() const { return TimedCondition{x}; } };
static W mk(const char *nm, int n, int max) { W w; w.t = mkDelays(nm, n, max, 2); w.x = acc(w.t); return w; }
struct P { W w, v; RenamingRelation ren; int n, m; };
static P pick(int n, int m, int k, int max, const RenamingRelation *same = nullptr) { P p; p.n = n; p.m = m; p.w = mk("w", n, max); p.v = mk("v", m, max); int last = -1;
  if (same) p.ren = *same; else for (int i = 0; i < k; i++) { int rest = m - (last + 1) - (k - i - 1); last += 1 + sv_choose("rb", rest); std::size_t a = sv_choose("ra", n); p.ren.emplace_back(a, last); }
  for (auto &q : p.ren) sv_assume(p.w.x[q.first] == p.v.x[q.second]); p.w.r = regionOf(p.w.x); p.v.r = regionOf(p.v.x); return p; }
static void addRegion(Ref &j, const Region &r, int off) { int k = 0; for (int b = r.n - 1; b >= 0; b--) for (int a = 0; a <= b; a++, k++) { int row = off + a + 1, col = b == r.n - 1 ? 0 : off + b + 2; long f = (long)r.f[k]; j.add(row, col, r.pt[k] ? f : f + 1, r.pt[k]); j.add(col, row, -f, r.pt[k]); } }
// the equalities between a source and a target clock that hold for all pairs of members related by the renaming
struct Implied { Ref j; int n; explicit Implied(const P &p) : j(p.n + p.m), n(p.n) { addRegion(j, p.w.r, 0); addRegion(j, p.v.r, p.n); for (auto &q : p.ren) { int a = q.first + 1, b = p.n + q.second + 1; j.add(a, b, 0, true); j.add(b, a, 0, true); } j.close(); }
  bool eq(int a, int b) { int r = a + 1, c = n + b + 1; return j.h(r, c) && j.h(c, r) && j.at(r, c) == E{0, true} && j.at(c, r) == E{0, true}; } };
static bool isPt(const Region &r, int c) { return r.pt[c]; } // the first sums of a region are those up to the last delay
static double lower(const Region &r, int c) { return r.f[c]; }
static bool inBox(const Region &r, const Val &x) { bool b = true; for (int c = 0; c < r.n; c++) b = b & (isPt(r, c) ? x[c] == lower(r, c) : (bool)((x[c] > lower(r, c)) & (x[c] < lower(r, c) + 1))); return b; }
// every renamed clock keeps its value; the target region is reached unless some clocks are imprecise, otherwise every clock alone is
static bool lands(const P &p, const Val &x, const Val &y, bool imprecise) { bool ok = true; for (auto &q : p.ren) ok = ok & (y[q.second] == x[q.first]); if (imprecise) return ok & inBox(p.v.r, y);
  Delays t; for (int i = 0; i < p.m; i++) t.push_back(y[i] - (i + 1 < p.m ? y[i + 1] : 0)); return ok & p.v.r.has(t); }
static bool imprecise(const P &p) { Implied im(p); bool any = false, trivial = true, full = true; for (int b = 0; b < p.m; b++) { bool e = false; for (int a = 0; a < p.n; a++) e = e || im.eq(a, b); any = any || e; if (e && !isPt(p.v.r, b)) trivial = false; if (!e && !isPt(p.v.r, b)) full = false; } return any && !trivial && !full; }
static void implicit(int n, int m, int k, int max) { SvMode fm(1); P p = pick(n, m, k, max); Implied im(p); auto s = p.w.cond(), t = p.v.cond(); RenamingRelation r = p.ren; r.addImplicitConstraints(s, t); sv_assert(r.isRightUnique(), "every target clock has at most one source");
  for (auto &q : r) sv_assert((int)q.first < n && (int)q.second < m && im.eq(q.first, q.second), "every equality of the completed renaming is implied");
  for (int b = 0; b < m; b++) { bool e = false, has = false; for (int a = 0; a < n; a++) e = e || im.eq(a, b); for (auto &q : r) has = has || (int)q.second == b; sv_assert(has == e, "every target clock equal to a source clock is renamed"); if (e && !isPt(p.v.r, b)) sv_reach("nontrivial"); } sv_reach("done"); }
SV_HARNESS(c29_implicit11) { implicit(1, 1, sv_choose("k", 2), 2); }
SV_HARNESS(c29_implicit21) { implicit(2, 1, sv_choose("k", 2), 1); }
SV_HARNESS(c29_implicit12) { implicit(1, 2, sv_choose("k", 2), 1); }
SV_HARNESS(c29_implicit22) { implicit(2, 2, sv_choose("k", 3), 2); }
SV_HARNESS(c29_implicit33) { implicit(3, 3, sv_choose("k", 4), 1); }
static std::vector<std::shared_ptr<TAState>> locations(int n) { std::vector<std::shared_ptr<TAState>> r; for (int i = 0; i < n; i++) r.push_back(std::make_shared<TAState>(false)); return r; }
static bool oneUpdate(const TATransition &t, int m) { std::vector<char> seen(m, 0); for (auto &u : t.resetVars) { if (u.first >= m || seen[u.first]) return false; seen[u.first] = 1; } return true; }
// count conditions, leading to up to nt locations
static void internal(int n, int count, int nt, int max) { SvMode fm(1); auto ls = locations(nt); InternalTransitionMaker mkr; sv_assert(mkr.empty() && mkr.make().empty(), "nothing at first"); std::vector<std::pair<int, W>> es; 
  for (int i = 0; i < count; i++) { W w = mk("w", n, max); w.r = regionOf(w.x); int t = sv_choose("t", nt); mkr.add(ls[t], w.cond()); es.emplace_back(t, w); }
  auto ts = mkr.make(); sv_assert(!mkr.empty() && (int)ts.size() <= count, "at most a transition per condition");
  Val o = mkVal("o", n, n * max + 1, 3); for (int l = 0; l < nt; l++) { bool want = false, got = false; for (auto &e : es) if (e.first == l) want = want | inBox(e.second.r, o); for (auto &t : ts) if (t.target == ls[l].get()) got = got | guardHolds(t.guard, o); sv_assert(want == got, "a location is reached exactly under the bounds of the conditions added for it"); }
  Val x = o; x.push_back(sv_real("x", 0, max, 3)); bool ok = true; for (auto &t : ts) { updatesInRange(t.resetVars, n + 1); Val y = applied(t.resetVars, x); ok = ok & (y[n] == 0); for (int i = 0; i < n; i++) ok = ok & (y[i] == x[i]); } sv_assert(ok, "only the clock of the new action is reset"); sv_reach("done"); }
SV_HARNESS(c29_internal1) { internal(1, 1 + sv_choose("count", 2), 2, 2); }
SV_HARNESS(c29_internal1x3) { internal(1, 3, 2, 1); }
SV_HARNESS(c29_internal2) { internal(2, 1 + sv_choose("count", 2), 2, 1); }
SV_HARNESS(c29_internal2x3) { internal(2, 3, 2, 1); }
SV_HARNESS(c29_internal3) { internal(3, 1 + sv_choose("count", 2), 2, 1); }
static void external(std::vector<P> ps, int nt, int max) { int n = ps[0].n, m = ps[0].m; auto ls = locations(nt); ExternalTransitionMaker mkr; std::vector<int> to; for (auto &p : ps) { int t = sv_choose("t", nt); to.push_back(t); mkr.add(ls[t], p.ren, p.w.cond(), p.v.cond()); }
  auto ts = mkr.make(); sv_assert(ts.size() <= ps.size(), "at most a transition per morphism"); bool one = true, reads = true; for (auto &t : ts) { one = one && oneUpdate(t, m); for (auto &u : t.resetVars) reads = reads && (u.second.index() == 0 || std::get<ClockVariables>(u.second) < n); } sv_assert(one, "no clock is updated twice and no clock outside the target"); sv_assert(reads, "renamings read source clocks"); if (!one || !reads) return;
  Val o = mkVal("o", n, n * max + 1, 3); for (int l = 0; l < nt; l++) { bool want = false, got = false; for (size_t i = 0; i < ps.size(); i++) if (to[i] == l) want = want | inBox(ps[i].w.r, o); for (auto &t : ts) if (t.target == ls[l].get()) got = got | guardHolds(t.guard, o); sv_assert(want == got, "a location is reached exactly under the bounds of the source conditions"); }
  for (size_t i = 0; i < ps.size(); i++) { P &p = ps[i]; bool imp = imprecise(p); if (imp) sv_reach("imprecise"); else sv_reach("precise"); Delays s = mkDelays("s", n, max, 3); sv_assume(p.w.r.has(s)); Val x = acc(s); Val in = x; while ((int)in.size() < m) in.push_back(0); bool ok = false; for (auto &t : ts) if (t.target == ls[to[i]].get()) { Val y = applied(t.resetVars, in); bool assigned = true; for (int b = n; b < m; b++) { bool h = false; for (auto &u : t.resetVars) h = h || u.first == b; assigned = assigned && h; } if (!assigned) continue; ok = ok | (guardHolds(t.guard, x) & lands(p, x, y, imp)); } sv_assert(ok, "every member of the source condition is sent into the target condition"); } }
SV_HARNESS(c29_external11) { SvMode fm(1); external({pick(1, 1, sv_choose("k", 2), 2)}, 1, 2); }
SV_HARNESS(c29_external21) { SvMode fm(1); external({pick(2, 1, sv_choose("k", 2), 1)}, 1, 1); }
SV_HARNESS(c29_external12) { SvMode fm(1); external({pick(1, 2, sv_choose("k", 3), 1)}, 1, 1); }
SV_HARNESS(c29_external22) { SvMode fm(1); external({pick(2, 2, sv_choose("k", 3), 2)}, 1, 2); }
SV_HARNESS(c29_external32) { SvMode fm(1); external({pick(3, 2, sv_choose("k", 3), 1)}, 1, 1); }
SV_HARNESS(c29_external23) { SvMode fm(1); external({pick(2, 3, sv_choose("k", 3), 1)}, 1, 1); }
SV_HARNESS(c29_external33) { SvMode fm(1); external({pick(3, 3, 1 + sv_choose("k", 3), 1)}, 1, 1); }
static void two(int n, int m, int k, int max, int nt, bool same) { SvMode fm(1); std::vector<P> ps; ps.push_back(pick(n, m, k, max)); ps.push_back(same ? pick(n, m, k, max, &ps[0].ren) : pick(n, m, sv_choose("k2", std::min(n, m) + 1), max)); external(ps, nt, max); }
SV_HARNESS(c29_two11) { two(1, 1, sv_choose("k", 2), 1, 2, false); }
SV_HARNESS(c29_same11) { two(1, 1, sv_choose("k", 2), 2, 1, true); }
SV_HARNESS(c29_same12) { two(1, 2, 1, 1, 1, true); }
SV_HARNESS(c29_same21) { two(2, 1, 1, 1, 1, true); }
SV_HARNESS(c29_two21) { two(2, 1, sv_choose("k", 2), 1, 2, false); }
SV_HARNESS(c29_two12) { two(1, 2, sv_choose("k", 2), 1, 2, false); }
SV_HARNESS(c29_same22) { two(2, 2, 1 + sv_choose("k", 2), 1, 1, true); }
static void inactive(int n, int m, int k, int max) { SvMode fm(1); P p = pick(n, m, k, max); auto r = ExternalTransitionMaker::inactiveClockVariables(p.ren, p.v.cond()); size_t want = 0; bool ok = true; for (int b = 0; b < m; b++) { bool ren = false; for (auto &q : p.ren) ren = ren || (int)q.second == b; if (ren || isPt(p.v.r, b)) continue; want++; auto it = r.find((ClockVariables)b); ok = ok && it != r.end() && (double)it->second == lower(p.v.r, b) + 1; }
  sv_assert(ok && r.size() == want, "a clock is inactive when neither the renaming nor the target condition fixes it"); Delays val = ExternalTransitionMaker::toValuation(p.v.cond()), t; for (int i = 0; i < m; i++) t.push_back(val[i] - (i + 1 < m ? val[i + 1] : 0)); sv_assert(p.v.r.has(t), "toValuation returns clock values in the region"); sv_reach("done"); }
SV_HARNESS(c29_inactive12) { inactive(1, 2, sv_choose("k", 3), 2); }
SV_HARNESS(c29_inactive23) { inactive(2, 3, sv_choose("k", 3), 1); }
