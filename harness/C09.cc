#include "conds.hh"
using namespace sv;
static void cat(int n, int m, int maxc, int upper, int ca, int cb) {
  Ref ra(n), rb(m); TC a = mkCond("a", n, maxc, upper, ra, ca), b = mkCond("b", m, maxc, upper, rb, cb); int k = n + m - 1; auto t = mkDelays("t", k, maxc + 1, 2);
  TimedCondition c = a + b; sv_assert(c.size() == (size_t)k, "size");
  // t is a joined sequence iff its middle delay can be split into e + (mid - e)
  double mid = t[n - 1]; std::vector<Bd> lo{{0, true}}, hi{{mid, true}}; bool rest = true;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { auto L = lowB(a, i, j), U = uppB(a, i, j); double s = sum(t, i, std::min(j, n - 2));
    if (j < n - 1) { rest = rest & within(s, U) & within(-s, L); } else { lo.push_back({-L.first - s, L.second}); if (!isInf(U)) hi.push_back({U.first - s, U.second}); } }
  for (int i = 0; i < m; i++) for (int j = i; j < m; j++) { auto L = lowB(b, i, j), U = uppB(b, i, j); 
    if (i > 0) { double s = sum(t, n - 1 + i, n - 1 + j); rest = rest & within(s, U) & within(-s, L); } else { double s = mid + sum(t, n, n - 1 + j); /* L <= s - e <= U */ hi.push_back({s + L.first, L.second}); if (!isInf(U)) lo.push_back({s - U.first, U.second}); } }
  sv_assert(inCond(c, t) == (rest & feasible(lo, hi)), "the concatenation contains exactly the joined sequences");
  bool closed = true; Zone z = TC::of(c); z.canonize(); auto u = mkDelays("u", k, maxc, 1); (void)closed; sv_assert(inZone(z, acc(u)) == inCond(c, u), "the result is canonical up to meaning");
}
SV_HARNESS(c09_cat11) { cat(1, 1, 3, 1, 99, 99); }
SV_HARNESS(c09_cat12) { cat(1, 2, 1, 1, 2, 2); }
SV_HARNESS(c09_cat21) { cat(2, 1, 1, 1, 2, 2); }
SV_HARNESS(c09_cat22) { cat(2, 2, 1, 0, 2, 2); }
SV_HARNESS(c09_cat13) { cat(1, 3, 1, 0, 2, 1); }
SV_HARNESS(c09_cat31) { cat(3, 1, 1, 0, 1, 2); }
static void hull(int n, int maxc, int upper, int cells, bool third) {
  Ref ra(n), rb(n), rc(n); TC a = mkCond("a", n, maxc, upper, ra, cells), b = mkCond("b", n, maxc, upper, rb, cells), d = third ? mkCond("d", n, maxc, upper, rc, cells) : a; if (!third) rc = ra; auto t = mkDelays("t", n, maxc + 1, 2);
  bool ia = inCond(a, t), ib = inCond(b, t);
  TimedCondition h = a.convexHull(b); TimedCondition h2 = a; h2.convexHullAssign(b);
  bool ih = inCond(h, t); sv_assert(!(ia | ib) | ih, "the hull contains both"); sv_assert(inCond(h2, t) == ih, "convexHullAssign agrees");
  // d contains a and b (by their closed bounds)
  bool sup = true; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j && rc.h(i, j)) sup = sup & (ra.h(i, j) ? ra.at(i, j) <= rc.at(i, j) : false) & (rb.h(i, j) ? rb.at(i, j) <= rc.at(i, j) : false);
  sv_assert(!(sup & ih) | inCond(d, t), "the hull is contained in every condition containing both");
  sv_assert(d.includes(a) == [&] { bool s = true; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j && rc.h(i, j)) s = s & (ra.h(i, j) ? ra.at(i, j) <= rc.at(i, j) : false); return s; }(), "inclusion is reported exactly");
  TimedCondition m = a && b; sv_assert(inCond(m, t) == (ia & ib), "the intersection contains exactly the common sequences"); sv_assert(!(ia & ib) | m.isSatisfiableNoCanonize(), "and is nonempty when there is one");
}
SV_HARNESS(c09_hull1) { hull(1, 1, 1, 99, true); }
SV_HARNESS(c09_hull2i) { hull(2, 1, 0, 1, true); }
SV_HARNESS(c09_hull2) { hull(2, 1, 0, 99, false); }
static void langhull(int k) { // ElementaryLanguage::convexHull of k conditions
  std::list<ElementaryLanguage> ls; auto t = mkDelays("t", 2, 3, 1); bool any = false; Ref h(2); std::vector<Ref> rs;
  for (int i = 0; i < k; i++) { Ref r(2); TC c = mkCond(i == 0 ? "a" : i == 1 ? "b" : "c", 2, 1, 0, r, k == 2 ? 99 : 1); any = any | inCond(c, t); ls.emplace_back("a", c); rs.push_back(r); }
  auto l = ElementaryLanguage::convexHull(ls); bool want = true; auto x = acc(t);
  for (int i = 0; i <= 2; i++) for (int j = 0; j <= 2; j++) if (i != j) { double d = (i ? x[i - 1] : 0) - (j ? x[j - 1] : 0); bool ok = false; for (auto &r : rs) ok = ok | holdsE(r.at(i, j), d); want = want & ok; }
  sv_assert(!any | inCond(l.getTimedCondition(), t), "the hull of languages contains all"); sv_assert((l.getWord() == "a") & (inCond(l.getTimedCondition(), t) == want), "and has the widest bound of each sum");
}
SV_HARNESS(c09_langhull2) { langhull(2); }
SV_HARNESS(c09_langhull3) { langhull(3); }
static void restr(int n, int maxc, int upper, int cells = 99) {
  Ref r(n); TC c = mkCond("c", n, maxc, upper, r, cells); auto t = mkDelays("t", n, maxc + 1, 2); bool in = inCond(c, t);
  int i = sv_choose("i", n), j = i + sv_choose("j", n - i); int b = sv_choose("b", maxc + 1); bool le = sv_flag("e"); double s = sum(t, i, j);
  TimedCondition u = c; u.restrictUpperBound(i, j, Bounds{(double)b, le}); sv_assert(inCond(u, t) == (in & within(s, Bounds{(double)b, le})), "restrictUpperBound intersects");
  TimedCondition l = c; l.restrictLowerBound(i, j, Bounds{(double)-b, le}); sv_assert(inCond(l, t) == (in & within(-s, Bounds{(double)-b, le})), "restrictLowerBound intersects");
  sv_assert((c.getUpperBound(i, j) == uppB(c, i, j)) & (c.getLowerBound(i, j) == lowB(c, i, j)), "bounds are those of the sum");
}
SV_HARNESS(c09_restrict1) { restr(1, 4, 1); }
SV_HARNESS(c09_restrict2) { restr(2, 1, 1); }
SV_HARNESS(c09_restrict3) { restr(3, 1, 0, 1); }
static void extend(int n, int maxc, int upper, int cells = 99) {
  Ref r(n); TC c = mkCond("c", n, maxc, upper, r, cells); auto t = mkDelays("t", n + 1, maxc + 1, 2);
  TimedCondition e = c.extendN(); Delays p(t.begin(), t.end() - 1), q(t.begin() + 1, t.end());
  sv_assert(e.size() == (size_t)n + 1, "size"); sv_assert(inCond(e, t) == (inCond(c, p) & (t[n] == 0)), "extendN appends a zero delay");
  TimedCondition z = c.extendZero(); sv_assert(z.size() == (size_t)n + 1, "size"); sv_assert(inCond(z, t) == (inCond(c, q) & (t[0] == 0)), "extendZero prepends a zero delay");
  TimedCondition b = e.removeN(); sv_assert(b.size() == (size_t)n, "size"); sv_assert(inCond(b, p) == inCond(c, p), "removeN undoes extendN");
  bool eq = false; for (int i = 0; i < n; i++) { auto u = uppB(c, i, n - 1); eq = eq | u.second; }  bool sim = simple(c); sv_assert(!sim | (c.hasEqualityN() == eq), "hasEqualityN on simple conditions");
  bool lz = (uppB(c, n - 1, n - 1) == Bounds{0, true}), fz = (uppB(c, 0, 0) == Bounds{0, true}); sv_assert(c.hasPrefix() == !lz, "hasPrefix: the last delay can be positive"); sv_assert(c.hasSuffix() == !fz, "hasSuffix: the first delay can be positive");
}
SV_HARNESS(c09_extend1) { extend(1, 4, 1); }
SV_HARNESS(c09_extend2) { extend(2, 2, 1, 3); }
SV_HARNESS(c09_extend3) { extend(3, 1, 0, 2); }
static void noupper(int n) { // unbounding the total durations = the condition after further delay
  Ref r(n); TC c = mkCond("c", n, 2, 0, r); auto t = mkDelays("t", n, 4, 2); ElementaryLanguage l(std::string(n - 1, 'a'), c); auto u = l.removeUpperBound(); Delays p(t);
  std::vector<Bd> lo{{0, true}}, hi; bool rest = true; // exists e >= 0: the last delay minus e is in c
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { auto L = lowB(c, i, j), U = uppB(c, i, j); double s = sum(t, i, j); if (j < n - 1) rest = rest & within(s, U) & within(-s, L); else { hi.push_back({s + L.first, L.second}); lo.push_back({s - U.first, U.second}); } }
  sv_assert((u.getWord() == l.getWord()) & (inCond(u.getTimedCondition(), t) == (rest & feasible(lo, hi) )), "removing the upper bounds allows exactly a longer last delay");
}
SV_HARNESS(c09_noupper1) { noupper(1); }
SV_HARNESS(c09_noupper2) { noupper(2); }
