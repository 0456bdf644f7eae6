#include "zones.hh"
using namespace sv;
typedef std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> Resets;
// can lower <= d <= upper be met by some d? pairwise comparison of encoded bounds
struct B { double c; bool le; };
static bool feasible(const std::vector<B> &lo, const std::vector<B> &hi) { bool r = true; for (auto &l : lo) for (auto &h : hi) r = r & ((l.c < h.c) | (l.le & h.le & (l.c == h.c))); return r; }
static bool diffs(const Zone &z, const std::vector<double> &v) { bool r = true; int n = v.size(); for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) if (i != j) r = r & within(v[i - 1] - v[j - 1], z.value(i, j)); return r; }
static void delay(int n, int mode, int maxc) {
  Ref ref(n); Zone z = mkZone("z", n, maxc, 0, ref, 10, mode); auto v = mkVal("v", n, 7, 2); ref.close(); sv_assume(ref.nonEmpty());
  z.canonize(); Zone up = z, dn = z; up.elapse(); dn.reverseElapse();
  // d in [0, ...): v - d in z
  std::vector<B> lo{{0, true}}, hi; 
  for (int i = 0; i < n; i++) { hi.push_back({v[i] + z.value(0, i + 1).first, z.value(0, i + 1).second}); auto b = z.value(i + 1, 0); if (b.first < 1e100) lo.push_back({v[i] - b.first, b.second}); }
  bool want = feasible(lo, hi) & diffs(z, v);
  sv_assert(inZone(up, v) == want, "elapse: exactly the valuations reachable by a delay");
  std::vector<B> lo2{{0, true}}, hi2;
  for (int i = 0; i < n; i++) { lo2.push_back({-z.value(0, i + 1).first - v[i], z.value(0, i + 1).second}); auto b = z.value(i + 1, 0); if (b.first < 1e100) hi2.push_back({b.first - v[i], b.second}); }
  if (hi2.empty()) hi2.push_back({1000, true});
  bool want2 = feasible(lo2, hi2) & diffs(z, v);
  sv_assert(inZone(dn, v) == want2, "reverseElapse: exactly the valuations from which the zone is reached by a delay");
  double d = sv_real("d", 0, 3, 2); auto w = v; for (auto &x : w) x += d;
  sv_assert(!inZone(z, v) | inZone(up, w), "a delayed member is in the elapsed zone"); sv_assert(!inZone(z, w) | inZone(dn, v), "an earlier valuation is in the backward zone");
  up.canonize(); sv_assert(inZone(up, v) == want, "canonizing keeps the elapsed zone"); dn.canonize(); sv_assert(inZone(dn, v) == want2, "canonizing keeps the backward zone");
}
SV_HARNESS(c04_delay1) { delay(1, 2, 5); }
SV_HARNESS(c04_delay2_box) { delay(2, 1, 4); }
SV_HARNESS(c04_delay2) { delay(2, 2, 3); }
SV_HARNESS(c04_delay3_box) { delay(3, 1, 3); }
// simultaneous updates: every assigned clock gets a constant or the previous value of a clock
static Resets mkResets(int n, int k, int maxc) {
  Resets r; std::vector<int> assigned;
  unsigned mask = 0; for (int q = 0; q < k; q++) { int x = sv_choose("rx", n); if (mask >> x & 1) sv_reject("clock assigned twice"); mask |= 1u << x; assigned.push_back(x); }
  for (int x : assigned) { int src = sv_choose("rs", n + 1); if (src < n) r.emplace_back(x, ClockVariables(src)); else r.emplace_back(x, sv_int("rc", 0, 2 * maxc) * 0.5); }
  return r;
}
static std::vector<double> update(const Resets &r, const std::vector<double> &v) { auto w = v; for (auto &p : r) w[p.first] = p.second.index() ? v[std::get<ClockVariables>(p.second)] : std::get<double>(p.second); return w; }
static void resets(int n, int k, int mode, int maxc) {
  Ref ref(n); Zone z = mkZone("z", n, maxc, 0, ref, 10, mode); auto v = mkVal("v", n, maxc + 2, 1), u = mkVal("u", n, maxc + 2, 1); Resets r = mkResets(n, k, 2);
  ref.close(); sv_assume(ref.nonEmpty()); z.canonize();
  Zone a = z; a.applyResets(r);
  sv_assert(!inZone(z, v) | inZone(a, update(r, v)), "the image of a member is in the updated zone");
  // u is an image iff its entries that come from clocks of z extend to a member: differences of z between the sources
  std::vector<int> src(n + 1); std::vector<char> cst(n + 1, 0); bool fixed = true, ext = true;
  for (int i = 0; i <= n; i++) src[i] = i;
  for (auto &p : r) if (p.second.index()) src[p.first + 1] = std::get<ClockVariables>(p.second) + 1; else { cst[p.first + 1] = 1; fixed = fixed & (u[p.first] == std::get<double>(p.second)); }
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j && !cst[i] && !cst[j]) { double d = (i ? u[i - 1] : 0) - (j ? u[j - 1] : 0); if (src[i] == src[j]) fixed = fixed & (d == 0); else ext = ext & within(d, z.value(src[i], src[j])); }
  sv_assert(inZone(a, u) == (fixed & ext), "the updated zone contains exactly the images");
}
static void revert(int n, int k, int mode, int maxc) {
  Ref ref(n); Zone z = mkZone("z", n, maxc, 0, ref, 10, mode); auto v = mkVal("v", n, maxc + 2, 1); Resets r = mkResets(n, k, 2);
  bool want = inZone(z, update(r, v));
  z.revertResets(r);
  sv_assert(inZone(z, v) == want, "the backward update contains exactly the valuations whose image is in the zone");
  sv_assert(!want | z.isSatisfiable(), "and is reported nonempty when it is");
}
SV_HARNESS(c04_reset1) { resets(1, 1, 2, 4); }
SV_HARNESS(c04_reset2x1) { resets(2, 1, 0, 2); }
SV_HARNESS(c04_reset2x1_unb) { resets(2, 1, 2, 2); }
SV_HARNESS(c04_reset2x2) { resets(2, 2, 0, 2); }
SV_HARNESS(c04_reset3x2) { resets(3, 2, 1, 2); }
SV_HARNESS(c04_revert1) { revert(1, 1, 2, 4); }
SV_HARNESS(c04_revert2x1) { revert(2, 1, 0, 2); }
SV_HARNESS(c04_revert2x1_unb) { revert(2, 1, 2, 2); }
SV_HARNESS(c04_revert2x2) { revert(2, 2, 0, 2); }
SV_HARNESS(c04_revert3x2) { revert(3, 2, 1, 2); }
SV_HARNESS(c04_resetzero) { // Zone::reset: one clock to zero
  Ref ref(2); Zone z = mkZone("z", 2, 3, 0, ref); auto v = mkVal("v", 2, 6, 2), u = mkVal("u", 2, 6, 2); ref.close(); sv_assume(ref.nonEmpty()); z.canonize();
  int x = sv_choose("x", 2); Zone a = z; a.reset(x);
  auto w = v; w[x] = 0; sv_assert(!inZone(z, v) | inZone(a, w), "image of a member");
  int y = 1 - x; bool ext = within(u[y], z.value(y + 1, 0)) & within(-u[y], z.value(0, y + 1));
  sv_assert(inZone(a, u) == ((u[x] == 0) & ext), "reset contains exactly the images");
  Zone c = z; c.unconstrain(x); auto t = u; t[x] = sv_real("t", 0, 6, 2); c.canonize(); sv_assert(inZone(c, t) == ext, "unconstrain forgets exactly this clock");
}
