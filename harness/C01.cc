#include "common.hh"
using namespace sv;
const int MC = 12, MX = 16;
SV_HARNESS(c01_single) { // one comparison: evaluation, strcmp-like order, negation, DBM bound
  Constraint c = mkConstraint("g", 2, MC); auto v = mkVal("v", 2, MX, 3);
  double d = v[c.x]; bool want = holds(c, d);
  sv_assert(c.satisfy(d) == want, "satisfy(double)");
  sv_assert(c.satisfy(v) == want, "satisfy(valuation)");
  sv_assert(c.negate().satisfy(d) != want, "negation is the complement");
  sv_assert(c.negate().x == c.x, "negation keeps the clock");
  learnta::Order o = c(v);
  sv_assert((o == learnta::Order::EQ) == want, "order is EQ exactly when satisfied");
  bool up = c.odr == Constraint::Order::lt || c.odr == Constraint::Order::le;
  sv_assert(want | ((o == learnta::Order::GT) == up), "order tells on which side the value lies");
  sv_assert(learnta::toBool(o) == want, "toBool");
  sv_assert(c.isUpperBound() == up, "isUpperBound");
  Bounds b = c.toDBMBound(); double e = up ? d : -d;
  sv_assert(((e < b.first) | ((e == b.first) & b.second)) == want, "DBM bound");
  IntBounds ib = c.toBound();
  sv_assert((ib.first == c.c) & (ib.second == (c.odr == Constraint::Order::le || c.odr == Constraint::Order::ge)), "integer bound");
  ConstraintMaker m(c.x); Constraint n = c.odr == Constraint::Order::lt ? (m < c.c) : c.odr == Constraint::Order::le ? (m <= c.c) : c.odr == Constraint::Order::ge ? (m >= c.c) : (m > c.c);
  sv_assert(n == c, "constraint maker and equality");
}
static void simp(int len) {
  Guard g = mkGuard("g", len, 2, MC); auto v = mkVal("v", 2, MX, 2); bool want = holds(g, v);
  Guard s = simplify(g);
  sv_assert(holds(s, v) == want, "simplify keeps the satisfying valuations");
  Guard w = g; widen(w);
  bool wantW = true; for (auto &c : g) if (c.odr == Constraint::Order::lt || c.odr == Constraint::Order::le) wantW = wantW & holds(c, v[c.x]);
  sv_assert(holds(w, v) == wantW, "widen drops exactly the lower bounds");
  auto n = negateAll(g);
  bool any = false; for (auto &c : n) any = any | holds(c, v[c.x]);
  sv_assert(any != want, "negateAll");
  auto [ub, lb] = toBounds(g);
  bool inB = true;
  for (size_t i = 0; i < ub.size(); i++) { double d = v[i]; inB = inB & ((d < ub[i].first) | (ub[i].second & (d == ub[i].first))) & ((d > lb[i].first) | (lb[i].second & (d == lb[i].first))); }
  sv_assert(inB == want, "toBounds");
}
SV_HARNESS(c01_simplify1) { simp(1); }
SV_HARNESS(c01_simplify2) { simp(2); }
SV_HARNESS(c01_simplify3) { simp(3); }
SV_HARNESS(c01_conjunction) {
  Guard a = mkGuard("a", sv_choose("na", 3), 2, MC), b = mkGuard("b", sv_choose("nb", 2), 2, MC); auto v = mkVal("v", 2, MX, 2);
  Guard c = conjunction(a, b);
  sv_assert(holds(c, v) == (holds(a, v) & holds(b, v)), "conjunction");
}
static void neg(int n0, int n1, int n2, int clocks) {
  std::vector<Guard> d; if (n0 >= 0) d.push_back(mkGuard("a", n0, clocks, 6)); if (n1 >= 0) d.push_back(mkGuard("b", n1, clocks, 6)); if (n2 >= 0) d.push_back(mkGuard("c", n2, clocks, 6));
  auto v = mkVal("v", clocks, 8, 1);
  auto r = negate(d);
  sv_assert(holdsAny(r, v) == !holdsAny(d, v), "complement of a disjunction of guards");
}
SV_HARNESS(c01_negate_1) { neg(1, -1, -1, 2); }
SV_HARNESS(c01_negate_2) { neg(2, -1, -1, 2); }
SV_HARNESS(c01_negate_11) { neg(1, 1, -1, 2); }
SV_HARNESS(c01_negate_21) { neg(2, 1, -1, 1); }
SV_HARNESS(c01_negate_22) { neg(2, 2, -1, 1); }
SV_HARNESS(c01_negate_111) { neg(1, 1, 1, 1); }
SV_HARNESS(c01_negate_22x2) { neg(2, 2, -1, 2); }
SV_HARNESS(c01_negate_212) { neg(2, 1, 2, 1); }
SV_HARNESS(c01_negate_true) { int n = sv_choose("n", 3); int k = sv_choose("k", 3); neg(k == 0 ? 0 : 1, k == 1 ? 0 : n > 0 ? 1 : -1, k == 2 ? 0 : n > 1 ? 1 : -1, 1); }
