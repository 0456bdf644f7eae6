#include "zones.hh"
using namespace sv;
static void tighten(int n, int k, bool canon) {
  Zone z = Zone::top(n + 1); auto v = mkVal("v", n, 6, 2);
  for (auto &d : v) (void)d;
  bool in = true; Ref ref(n);
  for (int q = 0; q < k; q++) {
    int ij = sv_choose("ij", n * (n + 1)); int i = ij / n, j = ij % n; if (j >= i) j++;
    int c = sv_int("c", -3, 3); bool le = sv_int("le", 0, 1) == 1;
    z.tighten(i - 1, j - 1, Bounds{(double)c, le}); ref.add(i, j, c, le);
    double d = (i ? v[i - 1] : 0) - (j ? v[j - 1] : 0);
    in = in & ((d < c) | (le & (d == c)));
  }
  if (canon) z.canonize();
  sv_assert(inZone(z, v) == in, "the zone contains exactly the valuations satisfying the constraints");
  ref.close();
  bool ne = ref.nonEmpty();
  sv_assert(z.isSatisfiable() == ne, "emptiness is reported exactly");
  sv_assert(z.isSatisfiableNoCanonize() == ne, "emptiness of the canonical form is reported exactly");
  if (canon) for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j) {
    if (!ref.h(i, j)) sv_assert(z.value(i, j).first > 1e100, "unbounded differences stay unbounded");
    else { E e = ref.at(i, j); sv_assert(!ne | ((z.value(i, j).first == (double)e.c) & (z.value(i, j).second == e.le)), "canonical bounds are tight"); }
  }
}
SV_HARNESS(c03_tighten2x2) { tighten(2, 2, true); }
SV_HARNESS(c03_tighten2x2_raw) { tighten(2, 2, false); }
SV_HARNESS(c03_tighten2x3) { tighten(2, 3, true); }
SV_HARNESS(c03_tighten2x3_raw) { tighten(2, 3, false); }
SV_HARNESS(c03_tighten3x3) { tighten(3, 3, true); }
static void guardTighten(int len) {
  Guard g = mkGuard("g", len, 2, 5); auto v = mkVal("v", 2, 7, 2);
  Ref r(2); Zone z = mkZone("z", 2, 4, 0, r, 10, 1); bool in = inZone(z, v);
  Zone w = z; w.tighten(g);
  sv_assert(inZone(w, v) == (in & holds(g, v)), "tightening with a guard intersects with it");
}
SV_HARNESS(c03_guard1) { guardTighten(1); }
SV_HARNESS(c03_guard2) { guardTighten(2); }
SV_HARNESS(c03_point) { // the zone of one valuation, and the whole-space and origin zones
  auto u = mkVal("u", 2, 5, 2), v = mkVal("v", 2, 5, 2);
  Zone z(u, Bounds{10, true}); 
  sv_assert(inZone(z, v) == ((u[0] == v[0]) & (u[1] == v[1])), "the zone of a valuation contains just it");
  sv_assert(z.getNumOfVar() == 2, "dimension");
  Zone z0 = Zone::zero(3); sv_assert(inZone(z0, v) == ((v[0] == 0) & (v[1] == 0)), "zero zone");
  Zone z1 = Zone::zero(4); auto w = mkVal("w", 3, 5, 1); sv_assert(inZone(z1, w) == ((w[0] == 0) & (w[1] == 0) & (w[2] == 0)), "zero zone of another size");
  sv_assert(inZone(Zone::top(3), v), "top"); sv_assert(inZone(Zone::top(4), w), "top of another size"); sv_assert(inZone(Zone::top(3), v), "top again");
  Zone u1 = Zone::top(3); u1.makeUnsat(); sv_assert(!u1.isSatisfiable(), "makeUnsat");
  Zone t = Zone::top(3); t.tighten(0, 1, Bounds{0, true}); sv_assert(inZone(Zone::top(3), v), "top is not shared"); Zone s0 = Zone::zero(3); s0.elapse(); sv_assert(!inZone(Zone::zero(3), v) | ((v[0] == 0) & (v[1] == 0)), "zero is not shared");
}
static void meet(int n, int mode, int maxc) {
  Ref ra(n), rb(n), rc(n); Zone a = mkZone("a", n, maxc, 0, ra, 10, mode), b = mkZone("b", n, maxc, 0, rb, 10, mode); auto v = mkVal("v", n, 6, 1);
  bool in = inZone(a, v) & inZone(b, v);
  Zone c = a && b; sv_assert(inZone(c, v) == in, "&& is the intersection");
  Zone d = a; d &= b; sv_assert(inZone(d, v) == in, "&= is the intersection");
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) { if (ra.h(i, j)) rc.addE(i, j, ra.at(i, j)); if (rb.h(i, j)) rc.addE(i, j, rb.at(i, j)); }
  rc.close(); bool ne = rc.nonEmpty();
  sv_assert(c.isSatisfiableNoCanonize() == ne, "the intersection is empty exactly when there is no common valuation"); sv_assert(d.isSatisfiableNoCanonize() == ne, "same for &=");
  sv_assert(c.M == a.M, "the threshold is kept");
}
SV_HARNESS(c03_meet2_box) { meet(2, 1, 4); }
SV_HARNESS(c03_meet1) { meet(1, 2, 4); }
SV_HARNESS(c03_meet2) { meet(2, 0, 3); }
static void incl(int n, int mode, int maxc) {
  Ref ra(n), rb(n); Zone a = mkZone("a", n, maxc, 0, ra, 10, mode), b = mkZone("b", n, maxc, 0, rb, 10, mode); auto v = mkVal("v", n, 6, 1);
  a.canonize(); b.canonize(); ra.close(); rb.close(); sv_assume(ra.nonEmpty() & rb.nonEmpty());
  bool i = a.includes(b), e = a == b, se = a.strictEqual(b), ez = a.equalIgnoreZero(b);
  bool sub = true, eq = true;
  for (int x = 0; x <= n; x++) for (int y = 0; y <= n; y++) if (x != y) { if (ra.h(x, y)) sub = sub & (rb.h(x, y) ? rb.at(x, y) <= ra.at(x, y) : false);
    eq = eq & (ra.h(x, y) == rb.h(x, y) ? (!ra.h(x, y) | (ra.at(x, y) == rb.at(x, y))) : false); }
  sv_assert(!i | !inZone(b, v) | inZone(a, v), "an included zone has no further valuation");
  sv_assert(i == sub, "inclusion is reported exactly"); sv_assert(e == eq, "equality is reported exactly"); sv_assert(se == eq, "strict equality is reported exactly"); sv_assert(ez == eq, "equality up to the first entry");
}
SV_HARNESS(c03_incl1) { incl(1, 2, 4); }
SV_HARNESS(c03_incl2_box) { incl(2, 1, 4); }
SV_HARNESS(c03_incl2) { incl(2, 0, 3); }
