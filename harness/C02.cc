#include "common.hh"
using namespace sv;
const int MC = 8, MX = 10;
static void sat(int n) {
  Guard g = mkGuard("g", n, 2, MC); auto v = mkVal("v", 2, MX, 2);
  bool s = satisfiable(g);
  sv_assert(s | !holds(g, v), "a satisfied guard is satisfiable");
  sv_assert(s == nonEmpty(g, 2), "satisfiable exactly when every clock interval is non-empty");
  auto sv_ = simpleVariables(g);
  for (int x = 0; x < 2; x++) {
    Iv i = interval(g, x); bool simple = (i.lo == i.hi);
    bool rep = std::find(sv_.begin(), sv_.end(), x) != sv_.end();
    bool mentioned = false; for (auto &c : g) mentioned = mentioned || c.x == x;
    sv_assert(rep == (simple && mentioned), "simple variables are those confined to a point or an open unit interval");
  }
}
SV_HARNESS(c02_sat1) { sat(1); }
SV_HARNESS(c02_sat2) { sat(2); }
SV_HARNESS(c02_sat3) { sat(3); }
static void weak(int na, int nb) {
  Guard a = simplify(mkGuard("a", na, 2, MC)), b = simplify(mkGuard("b", nb, 2, MC)); auto v = mkVal("v", 2, MX, 1);
  bool w = isWeaker(a, b);
  sv_assert(!w | !holds(b, v) | holds(a, v), "a weaker guard accepts all valuations of the stronger one");
  bool incl = true;
  for (int x = 0; x < 2; x++) { Iv i = interval(a, x), j = interval(b, x); incl = incl & (i.lo <= j.lo) & (j.hi <= i.hi); }
  sv_assert(w | !incl | !nonEmpty(a, 2) | !nonEmpty(b, 2), "a guard that accepts more is reported weaker");
}
SV_HARNESS(c02_weak11) { weak(1, 1); }
SV_HARNESS(c02_weak22) { weak(2, 2); }
SV_HARNESS(c02_weak12) { weak(1, 2); }
SV_HARNESS(c02_weak1) {
  Constraint a = mkConstraint("a", 2, MC), b = mkConstraint("b", 2, MC); auto v = mkVal("v", 2, MX, 1);
  bool w = a.isWeaker(b);
  sv_assert(!w | !holds(b, v[b.x]) | holds(a, v[a.x]), "a weaker constraint accepts more");
  bool up = a.isUpperBound();
  bool same = a.x == b.x && up == b.isUpperBound();
  Iv i = interval({a}, a.x), j = interval({b}, b.x);
  sv_assert(!same || w == (up ? j.hi <= i.hi : (i.lo <= j.lo)) , "constraints in the same direction are compared exactly");
  sv_assert(same || !w, "constraints in different directions are incomparable");
}
static void hull(int na, int nb, int nc) {
  std::vector<Guard> gs{mkGuard("a", na, 2, MC), mkGuard("b", nb, 2, MC)}; if (nc >= 0) gs.push_back(mkGuard("c", nc, 2, MC));
  for (auto &g : gs) sv_assume(nonEmpty(g, 2));
  auto v = mkVal("v", 2, MX, 1);
  Guard h = nc >= 0 ? unionHull(gs) : unionHull(gs[0], gs[1]);
  sv_assert(!holdsAny(gs, v) | holds(h, v), "the hull accepts what any of the guards accepts");
  for (int x = 0; x < 2; x++) { long lo = INFTY, hi = 0; for (auto &g : gs) { Iv i = interval(g, x); lo = lmin(lo, i.lo); hi = lmax(hi, i.hi); }
    Iv i = interval(h, x); sv_assert((i.lo == lo) & (i.hi == hi), "the hull is the strongest such guard"); }
}
SV_HARNESS(c02_hull11) { hull(1, 1, -1); }
SV_HARNESS(c02_hull22) { hull(2, 2, -1); }
SV_HARNESS(c02_hull111) { hull(1, 1, 1); }
SV_HARNESS(c02_hull20) { hull(2, 0, -1); }
static void adj(int na, int nb) { // guards that agree on every clock but x0
  Guard a = simplify(mkGuard("a", na, 1, MC)), b = simplify(mkGuard("b", nb, 1, MC));
  if (sv_flag("other")) { Constraint c = mkConstraint("y", 1, MC); c.x = 1; a.push_back(c); b.push_back(c); }
  sv_assume(nonEmpty(a, 2)); sv_assume(nonEmpty(b, 2));
  auto v = mkVal("v", 2, MX, 1);
  bool ad = adjacent(a, b);
  Iv i = interval(a, 0), j = interval(b, 0);
  if (ad) { sv_reach("adjacent"); Guard h = unionHull(a, b); sv_assert(holds(h, v) == (holds(a, v) | holds(b, v)), "the hull of adjacent guards is their union"); }
  bool bounded = (i.hi < INFTY) & (j.hi < INFTY);
  bool touch = (i.hi + 1 == j.lo) | (j.hi + 1 == i.lo);
  sv_assert(!bounded | !touch | ad, "guards that touch without overlapping are adjacent");
}
SV_HARNESS(c02_adj11) { adj(1, 1); }
SV_HARNESS(c02_adj21) { adj(2, 1); }
SV_HARNESS(c02_adj22) { adj(2, 2); }
SV_HARNESS(c02_upper) {
  Guard g = simplify(mkGuard("g", sv_choose("n", 3), 2, MC)); sv_assume(nonEmpty(g, 2)); auto v = mkVal("v", 2, MX, 1);
  Guard h = g; addUpperBound(h);
  sv_assert(!holds(h, v) | holds(g, v), "adding upper bounds strengthens the guard");
  for (int x = 0; x < 2; x++) { Iv i = interval(g, x), j = interval(h, x); bool m = false; for (auto &c : g) m = m || c.x == x;
    sv_assert(j.lo == i.lo, "lower bounds stay"); sv_assert((i.hi == INFTY && m) || j.hi == i.hi, "existing upper bounds stay"); sv_assert(!m || (j.hi < INFTY), "every constrained clock gets an upper bound"); sv_assert(j.lo <= j.hi, "the guard stays satisfiable"); }
}
static void adjFree(int na, int nb) { // arbitrary guards over two clocks
  Guard a = simplify(mkGuard("a", na, 2, MC)), b = simplify(mkGuard("b", nb, 2, MC));
  sv_assume(nonEmpty(a, 2)); sv_assume(nonEmpty(b, 2));
  auto v = mkVal("v", 2, MX, 1);
  if (!adjacent(a, b)) { sv_assert(true, "not reported"); return; }
  sv_reach("adjacent"); Guard h = unionHull(a, b); int differ = 0;
  for (int x = 0; x < 2; x++) { Iv i = interval(a, x), j = interval(b, x); differ = differ + ((i.lo != j.lo) | (i.hi != j.hi)); sv_assert((i.lo <= j.hi + 1) & (j.lo <= i.hi + 1), "adjacent guards leave no gap on any clock");
    bool one = (i.hi < INFTY) != (j.hi < INFTY), same = (i.lo == j.lo) & (i.hi == j.hi); sv_assert(one | same | (i.hi + 1 == j.lo) | (j.hi + 1 == i.lo), "adjacent guards with the same kind of upper bound on a clock agree there or touch without overlapping"); }
  sv_assert((differ > 1) | (holds(h, v) == (holds(a, v) | holds(b, v))), "adjacent guards that differ on one clock have their union as hull");
}
SV_HARNESS(c02_adjfree11) { adjFree(1, 1); }
SV_HARNESS(c02_adjfree12) { adjFree(1, 2); }
SV_HARNESS(c02_adjfree22) { adjFree(2, 2); }
