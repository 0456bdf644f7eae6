// Juxtaposed zones and renaming constraints.
#include "conds.hh"
#include "juxtaposed_zone.hh"
#include "juxtaposed_zone_set.hh"
#include "renaming_relation.hh"
using namespace sv;
typedef std::vector<std::pair<std::size_t, std::size_t>> Ren;
// concrete conditions of n delays (boxes of every sum), with their reference
struct C { Ref r; TC c; };
static C cond(const char *nm, int n, int maxc, int upper, int cells) { Ref r(n); TC c = mkCond(nm, n, maxc, upper, r, cells); return C{r, c}; }
static Ref product(Ref &a, Ref &b) { Ref r(a.n + b.n); auto ix = [&](int i, int off) { return i ? i + off : 0; };
  for (int i = 0; i <= a.n; i++) for (int j = 0; j <= a.n; j++) if (i != j && a.h(i, j)) r.addE(i, j, a.at(i, j));
  for (int i = 0; i <= b.n; i++) for (int j = 0; j <= b.n; j++) if (i != j && b.h(i, j)) r.addE(ix(i, a.n), ix(j, a.n), b.at(i, j)); return r; }
static Ren mkRen(int n, int m, int k) { Ren r; for (int i = 0; i < k; i++) { std::size_t a = sv_choose("ra", n), b = sv_choose("rb", m); r.emplace_back(a, b); } return r; }
static std::vector<double> cat(std::vector<double> a, const std::vector<double> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void check(JuxtaposedZone j, C &a, C &b, const Ren &ren, int max) {
  int n = a.r.n, m = b.r.n; Ref p = product(a.r, b.r); for (auto &pr : ren) { p.add(pr.first + 1, n + pr.second + 1, 0, true); p.add(n + pr.second + 1, pr.first + 1, 0, true); } p.close(); bool ne = p.nonEmpty();
  auto v = mkVal("v", n + m, max, 1); bool in = inZone(j, v), ref = inZone(TC::of(a.c), std::vector<double>(v.begin(), v.begin() + n)) & inZone(TC::of(b.c), std::vector<double>(v.begin() + n, v.end()));
  for (auto &pr : ren) ref = ref & (v[pr.first] == v[n + pr.second]);
  sv_assert(in == ref, "the juxtaposition contains exactly the matching pairs of members");
  sv_assert(j.isSatisfiableNoCanonize() == ne, "emptiness is reported exactly without canonizing"); sv_assert(j.getLeftSize() == n, "left size");
  if (!ne) return; sv_reach("nonempty");
  Zone right = j.getRight(); std::vector<double> y(v.begin() + n, v.end()); bool pin = true;
  for (int x = 0; x <= m; x++) for (int z = 0; z <= m; z++) if (x != z) { int gx = x ? n + x : 0, gz = z ? n + z : 0; if (p.h(gx, gz)) pin = pin & holdsE(p.at(gx, gz), (x ? y[x - 1] : 0) - (z ? y[z - 1] : 0)); }
  sv_assert(inZone(right, y) == pin, "the right component contains exactly the right members of some pair"); sv_assert((int)right.getNumOfVar() == m, "size of the right component");
  Ren got = j.makeRenaming(), want; for (int x = 1; x <= n; x++) for (int z = 1; z <= m; z++) if (p.h(x, n + z) && p.h(n + z, x) && p.at(x, n + z) == E{0, true} && p.at(n + z, x) == E{0, true}) want.emplace_back(x - 1, z - 1);
  sv_assert(got == want, "the implied equalities are exactly those that hold in every pair");
  RenamingRelation rr; for (auto &q : ren) rr.push_back(q); rr.addImplicitConstraints(a.c, b.c); bool ok = rr.isRightUnique();
  for (auto &q : rr) ok = ok && std::find(want.begin(), want.end(), q) != want.end();
  for (auto &q : want) { bool f = false; for (auto &s : rr) f = f || s.second == q.second; ok = ok && f; }
  sv_assert(ok, "the completed renaming has exactly one implied equality per related right clock");
}
static void jux(int n, int m, int k, int maxc, int upper, int cells = 99) { SvMode fm(1);
  C a = cond("a", n, maxc, upper, cells), b = cond("b", m, maxc, upper, cells); Ren r = mkRen(n, m, k); JuxtaposedZone j = a.c ^ b.c; j.addRenaming(r); check(j, a, b, r, maxc + 1); }
SV_HARNESS(c13_jux11) { jux(1, 1, 0, 2, 1); }
SV_HARNESS(c13_ren11) { jux(1, 1, 1, 2, 1); }
SV_HARNESS(c13_jux21) { jux(2, 1, 0, 1, 0, 2); }
SV_HARNESS(c13_ren21) { jux(2, 1, 1, 1, 0, 2); }
SV_HARNESS(c13_ren12) { jux(1, 2, 1, 1, 0, 2); }
SV_HARNESS(c13_ren21x2) { jux(2, 1, 2, 1, 0, 2); }
SV_HARNESS(c13_ren22x1) { jux(2, 2, 1, 1, 0, 1); }
SV_HARNESS(c13_ren22x2) { jux(2, 2, 2, 1, 0, 1); }
// with common trailing clocks
static void common(int n, int m, int l, int maxc, int upper, int cells, bool set) { SvMode fm(1);
  C a = cond("a", n, maxc, upper, cells), b = cond("b", m, maxc, upper, cells); auto v = mkVal("v", n + m - l, maxc + 1, 1);
  std::vector<double> x(v.begin(), v.begin() + n), y(v.begin() + n, v.end()); y = cat(y, std::vector<double>(v.begin() + n - l, v.begin() + n));
  JuxtaposedZone j = a.c.juxtaposeRight(b.c, l), j2 = b.c.juxtaposeLeft(a.c, l);
  bool ref = inZone(TC::of(a.c), x) & inZone(TC::of(b.c), y);
  sv_assert(inZone(j, v) == ref, "sharing the trailing clocks identifies exactly those clocks"); sv_assert(j == j2, "juxtaposing to the left and to the right agree");
  sv_assert((int)j.getNumOfVar() == n + m - l, "number of clocks");
  Ref p(n + m - l); auto ix = [&](int i) { return i == 0 ? 0 : i <= m - l ? n + i : n - m + i; };
  for (int i = 0; i <= n; i++) for (int k = 0; k <= n; k++) if (i != k && a.r.h(i, k)) p.addE(i, k, a.r.at(i, k));
  for (int i = 0; i <= m; i++) for (int k = 0; k <= m; k++) if (i != k && b.r.h(i, k)) p.addE(ix(i), ix(k), b.r.at(i, k));
  p.close(); sv_assert(j.isSatisfiableNoCanonize() == p.nonEmpty(), "emptiness is reported exactly");
}
SV_HARNESS(c13_common11) { common(1, 1, 1, 2, 1, 99, false); }
SV_HARNESS(c13_common21) { common(2, 1, 1, 1, 1, 1, false); }
SV_HARNESS(c13_common12) { common(1, 2, 1, 1, 1, 1, false); }
SV_HARNESS(c13_common22x1) { common(2, 2, 1, 1, 0, 1, false); }
SV_HARNESS(c13_common22x2) { common(2, 2, 2, 1, 0, 1, false); }
// earlier calls do not change results
static void memo(int n, int m, int l) { SvMode fm(1);
  C a = cond("a", n, 1, 1, 1), b = cond("b", m, 1, 1, 1), c = cond("c", n, 1, 1, 1); 
  JuxtaposedZone first = l < 0 ? c.c ^ b.c : c.c.juxtaposeRight(b.c, l); JuxtaposedZone other = l < 0 ? JuxtaposedZone{b.c ^ c.c} : b.c.juxtaposeRight(c.c, 0); if (l <= 0) first.addRenaming({{0, 0}}); (void)other;
  JuxtaposedZone j = l < 0 ? a.c ^ b.c : a.c.juxtaposeRight(b.c, l); auto v = mkVal("v", n + m - (l < 0 ? 0 : l), 2, 1);
  std::vector<double> x(v.begin(), v.begin() + n), y(v.begin() + n, v.end()); if (l > 0) y = cat(y, std::vector<double>(v.begin() + n - l, v.begin() + n));
  sv_assert(inZone(j, v) == (inZone(TC::of(a.c), x) & inZone(TC::of(b.c), y)), "the result does not depend on earlier juxtapositions"); sv_assert(j.getLeftSize() == n, "left size");
  JuxtaposedZone again = l < 0 ? a.c ^ b.c : a.c.juxtaposeRight(b.c, l); sv_assert(again == j, "repeating a call gives the same result");
}
// the same conditions with other numbers of common clocks first
static void memoSizes(int n, int m) { SvMode fm(1); C a = cond("a", n, 1, 0, 1), b = cond("b", m, 1, 0, 1); int q = std::min(n, m);
  auto make = [&](int l) { return l < 0 ? a.c ^ b.c : a.c.juxtaposeRight(b.c, l); }; JuxtaposedZone first = make(sv_choose("l1", q + 2) - 1); (void)first; if (sv_flag("left")) { JuxtaposedZone o = b.c.juxtaposeLeft(a.c, sv_choose("l3", q + 1)); (void)o; }
  int l = sv_choose("l2", q + 2) - 1, k = l < 0 ? 0 : l; JuxtaposedZone j = make(l); sv_assert((int)j.getNumOfVar() == n + m - k, "the number of clocks does not depend on earlier juxtapositions"); if ((int)j.getNumOfVar() != n + m - k) return; auto v = mkVal("v", n + m - k, 2, 1);
  std::vector<double> x(v.begin(), v.begin() + n), y(v.begin() + n, v.end()); y = cat(y, std::vector<double>(v.begin() + n - k, v.begin() + n)); sv_assert(inZone(j, v) == (inZone(TC::of(a.c), x) & inZone(TC::of(b.c), y)), "the result does not depend on earlier juxtapositions with other common clocks"); }
SV_HARNESS(c13_memosizes11) { memoSizes(1, 1); }
SV_HARNESS(c13_memosizes22) { memoSizes(2, 2); }
SV_HARNESS(c13_memosizes32) { memoSizes(3, 2); }
SV_HARNESS(c13_memo) { memo(1, 1, -1); }
SV_HARNESS(c13_memocommon) { memo(1, 1, 1); }
SV_HARNESS(c13_memocommon0) { memo(1, 1, 0); }
// sets
static bool inAny(const TimedConditionSet &s, const std::vector<double> &x) { bool r = false; for (auto &c : s.getConditions()) r = r | inZone(TC::of(c), x); return r; }
static TimedConditionSet regionSet(const char *nm, int maxc) { TimedConditionSet s; for (int i = 0; i <= 2 * maxc; i++) if (sv_choose(nm, 2)) s.push_back(TimedCondition(std::vector<double>{i * 0.5})); return s; }
static void sets(int n, int m, int l, int maxc) { SvMode fm(1); // n, m clocks of the plain conditions, paired with sets of one-clock conditions
  TimedConditionSet s1 = regionSet("s1", maxc), s2 = regionSet("s2", maxc); C b = cond("b", m, 1, 1, 1), a = cond("a", n, 1, 1, 1);
  auto v = mkVal("v", 1 + m - l, 2, 1); // left set (1 clock) against b; the right-hand side: left condition a against the set needs the same dimensions
  JuxtaposedZoneSet p(s1, b.c, l), q(s2, b.c, l), p0 = p; Ren r; if (l == 0 && sv_flag("ren")) r = mkRen(1, m, 1); p.addRenaming(r); q.addRenaming(r);
  std::vector<double> x{v[0]}, y(v.begin() + 1, v.end()); if (l) y.push_back(v[0]); bool rr = true; for (auto &e : r) rr = rr & (v[e.first] == v[1 + e.second]);
  bool in1 = inAny(s1, x) & inZone(TC::of(b.c), y) & rr, in2 = inAny(s2, x) & inZone(TC::of(b.c), y) & rr;
  if (p == q) { sv_reach("equal"); sv_assert(in1 == in2, "sets reported equal contain the same pairs"); sv_assert(!(p != q), "inequality negates equality"); } else { sv_reach("different"); sv_assert(p != q, "inequality negates equality"); }
  sv_assert(p == p, "a set equals itself");
  JuxtaposedZoneSet t(a.c, s2, l); bool dims = n + 1 == 1 + m; if (dims) { t.addRenaming(r); bool eq = p == t;
    std::vector<double> x2(v.begin(), v.begin() + n), y2(v.begin() + n, v.end()); if (l) y2 = cat(y2, std::vector<double>(v.begin() + n - l, v.begin() + n));
    bool rr2 = true; for (auto &e : r) rr2 = rr2 & (v[e.first] == v[n + e.second]); bool in3 = inZone(TC::of(a.c), x2) & inAny(s2, y2) & rr2;
    sv_assert(!eq | (in1 == in3), "sets reported equal contain the same pairs (left set, right set)"); }
}
SV_HARNESS(c13_sets1) { sets(1, 1, 0, 1); }
SV_HARNESS(c13_setscommon) { sets(1, 1, 1, 1); }
