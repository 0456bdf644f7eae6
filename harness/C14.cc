// Morphisms, the updates derived from renamings, and updates of timed conditions.
#include "conds.hh"
#include "single_morphism.hh"
#include "forward_regional_elementary_language.hh"
using namespace sv;
typedef std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> Resets;
static std::string letters(int n) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 2); return s; }
struct W { Delays t, x; Region r; std::string word; ElementaryLanguage lang() const { return ElementaryLanguage{word, TimedCondition{x}}; } };
static W mk(const char *nm, int n, int max, int scale = 2) { W w; w.word = letters(n - 1); w.t = mkDelays(nm, n, max, scale); w.x = acc(w.t); return w; }
static std::vector<double> post(const Resets &rs, const std::vector<double> &x, int m) { // simultaneous update; clocks that are not assigned keep their value
  std::vector<double> y; for (int i = 0; i < m; i++) { double v = i < (int)x.size() ? x[i] : 0; for (auto &r : rs) if ((int)r.first == i) v = r.second.index() ? x[std::get<ClockVariables>(r.second)] : std::get<double>(r.second); y.push_back(v); } return y; }
// source word w, target word v whose renamed clocks agree
struct P { W w, v; RenamingRelation ren; };
static P pick(int n, int m, int k, int max) { P p; p.w = mk("w", n, max); p.v = mk("v", m, max);
  int last = -1; for (int i = 0; i < k; i++) { int rest = m - (last + 1) - (k - i - 1); last += 1 + sv_choose("rb", rest); std::size_t a = sv_choose("ra", n); p.ren.emplace_back(a, last); sv_assume(p.w.x[a] == p.v.x[last]); }
  p.w.r = regionOf(p.w.x); p.v.r = regionOf(p.v.x); return p; }
static void maps(int n, int m, int k, int max) { SvMode fm(1); P p = pick(n, m, k, max);
  SingleMorphism f{p.w.lang(), p.v.lang(), p.ren};
  Delays o = mkDelays("o", n, max, 3); sv_assume(p.w.r.has(o)); auto ox = acc(o); TimedWord ow{p.w.word, o};
  TimedWord r = f.maps(ow); sv_assert(r.getWord() == p.v.word, "the image has the actions of the target"); auto rt = r.getDurations(); sv_assert((int)rt.size() == m, "the image has the right number of delays"); if ((int)rt.size() != m) return;
  auto rx = acc(rt); sv_assert(p.v.r.has(rt), "the image lies in the target region"); bool eq = true; for (auto &q : p.ren) eq = eq & (rx[q.second] == ox[q.first]);
  sv_assert(eq, "renamed clocks keep their value"); sv_assert(f.isDomain(p.w.lang()) && f.getDomain() == p.w.lang(), "domain"); 
}
SV_HARNESS(c14_maps11x0) { maps(1, 1, 0, 2); }
SV_HARNESS(c14_maps11x1) { maps(1, 1, 1, 2); }
SV_HARNESS(c14_maps21x1) { maps(2, 1, 1, 2); }
SV_HARNESS(c14_maps12x1) { maps(1, 2, 1, 1); }
SV_HARNESS(c14_maps22x1) { maps(2, 2, 1, 1); }
SV_HARNESS(c14_maps22x2) { maps(2, 2, 2, 1); }
static void domain(int n) { SvMode fm(1); W w = mk("w", n, 2); w.r = regionOf(w.x); SingleMorphism f{w.lang(), w.lang(), {}}; Delays o = mkDelays("o", n, 2, 2); sv_assert(f.inDomain(TimedWord{w.word, o}) == w.r.has(o), "inDomain"); }
SV_HARNESS(c14_domain1) { domain(1); }
SV_HARNESS(c14_domain2) { domain(2); }
static void resets(int n, int m, int k, int max) { SvMode fm(1); P p = pick(n, m, k, max); auto sc = p.w.lang().getTimedCondition(), tc = p.v.lang().getTimedCondition();
  auto isPt = [&](const Region &r, int c) { int i = 0; for (int j = r.n - 1; j >= 0; j--) for (int q = 0; q <= j; q++, i++) if (j == r.n - 1 && q == c) return (bool)r.pt[i]; return false; };
  auto renamed = [&](int c) { for (auto &q : p.ren) if ((int)q.second == c) return true; return false; };
  bool full = true, trivial = true; std::vector<ClockVariables> imp; for (int c = 0; c < m; c++) { full = full && (isPt(p.v.r, c) || renamed(c)); if (!isPt(p.v.r, c) && !renamed(c)) imp.push_back(c); } for (auto &q : p.ren) trivial = trivial && isPt(p.v.r, q.second);
  bool imprecise = !p.ren.empty() && !full && !trivial; if (!imprecise) imp.clear();
  sv_assert(p.ren.full(tc) == full, "full"); sv_assert(p.ren.onlyTrivial(tc) == trivial, "onlyTrivial"); sv_assert(p.ren.hasImpreciseClocks(tc) == imprecise, "hasImpreciseClocks"); sv_assert(p.ren.impreciseClocks(tc) == imp, "impreciseClocks");
  bool all = true; for (int c = 0; c < m; c++) if (isPt(p.v.r, c) && !renamed(c)) for (int d = 0; d < n; d++) if (isPt(p.w.r, d)) all = all && !sv_fork(p.w.x[d] == p.v.x[c]);
  sv_assert(p.ren.containsAllTrivial(sc, tc) == all, "containsAllTrivial");
  Delays val = RenamingRelation::toValuation(tc), vt; for (int i = 0; i < m; i++) vt.push_back(val[i] - (i + 1 < m ? val[i + 1] : 0)); sv_assert(p.v.r.has(vt), "toValuation returns clock values in the region");
  Resets rs = p.ren.toReset(sc, tc); std::vector<char> seen(m, 0); bool once = true; for (auto &r : rs) { once = once && (int)r.first < m && !seen[r.first]; if ((int)r.first < m) seen[r.first] = 1; } for (int i = 0; i < m; i++) once = once && seen[i];
  sv_assert(once, "every target clock is updated exactly once"); if (!once) return;
  Delays o = mkDelays("o", n, max, 3); sv_assume(p.w.r.has(o)); auto y = post(rs, acc(o), m); Delays yt; for (int i = 0; i < m; i++) yt.push_back(y[i] - (i + 1 < m ? y[i + 1] : 0));
  if (!imprecise) { sv_reach("precise"); sv_assert(p.v.r.has(yt), "the updates send every source valuation into the target region"); }
  else { sv_reach("imprecise"); bool eq = true; for (auto &q : p.ren) eq = eq & (y[q.second] == acc(o)[q.first]); sv_assert(eq, "renamed clocks keep their value"); for (int i = 0; i < m; i++) sv_assert(within(y[i], uppB(tc, i, m - 1)) & within(-y[i], lowB(tc, i, m - 1)), "every clock alone is within the target region"); }
}
SV_HARNESS(c14_reset11) { resets(1, 1, sv_choose("k", 2), 2); }
SV_HARNESS(c14_reset21) { resets(2, 1, sv_choose("k", 2), 1); }
SV_HARNESS(c14_reset12) { resets(1, 2, sv_choose("k", 3), 1); }
SV_HARNESS(c14_reset22) { resets(2, 2, sv_choose("k", 3), 1); }
SV_HARNESS(c14_reset23) { resets(2, 3, 1, 1); }
// updates of timed conditions; consts are multiples of 1/2
static Resets mkResets(int n, int m, int kinds, int maxc) { Resets r; for (int i = 0; i < m; i++) { int k = i < n ? sv_choose("kind", kinds) : sv_choose("kind", kinds - 1) + 1; if (k == 1) r.emplace_back(i, sv_choose("c", 2 * maxc + 1) * 0.5); else if (k == 2) r.emplace_back(i, (ClockVariables)sv_choose("src", n)); } return r; }
static bool integral(const Resets &rs) { bool i = true; for (auto &r : rs) if (!r.second.index()) { double d = std::get<double>(r.second); i = i && d == std::floor(d); } return i; }
static void condResets(int n, int max, bool sized, int m) { SvMode fm(1); W w = mk("w", n, max); w.r = regionOf(w.x); TimedCondition c{w.x}; Resets rs = mkResets(n, m, sized ? 3 : 2, 2);
  auto y = post(rs, w.x, m); auto got = sized ? c.applyResets(rs, m) : c.applyResets(rs); sv_assert((int)got.size() == m, "number of clocks");
  sv_assert(inZone(TC::of(got), y), "the image of every member is in the updated condition");
  std::vector<double> z = mkVal("z", m, max + 1, 2); if (!integral(rs)) return; sv_reach("integral");
  // z is an image iff its assigned clocks have their values and the others come from a member
  Ref p(n + m); int k = 0; for (int j = n - 1; j >= 0; j--) for (int i = 0; i <= j; i++, k++) { int hi = i + 1, lo = j == n - 1 ? 0 : j + 2; long f = (long)w.r.f[k]; bool pt = w.r.pt[k]; p.add(hi, lo, pt ? f : f + 1, pt); p.add(lo, hi, -f, pt); }
  for (int i = 0; i < m; i++) { int src = i + 1; long cst = -1; for (auto &r : rs) if ((int)r.first == i) { if (r.second.index()) src = std::get<ClockVariables>(r.second) + 1; else cst = (long)std::get<double>(r.second); }
    int a = n + i + 1, b = cst >= 0 ? 0 : src; long o = cst >= 0 ? cst : 0; p.add(a, b, o, true); p.add(b, a, -o, true); }
  p.close(); bool im = true; for (int i = 0; i <= m; i++) for (int j = 0; j <= m; j++) if (i != j) { int a = i ? n + i : 0, b = j ? n + j : 0; if (p.h(a, b)) im = im & holdsE(p.at(a, b), (i ? z[i - 1] : 0) - (j ? z[j - 1] : 0)); }
  sv_assert(inZone(TC::of(got), z) == im, "with integer constants the updated condition is exactly the image");
}
SV_HARNESS(c14_cond1) { condResets(1, 2, false, 1); }
SV_HARNESS(c14_cond2) { condResets(2, 1, false, 2); }
SV_HARNESS(c14_cond3) { condResets(3, 1, false, 3); }
SV_HARNESS(c14_sized11) { condResets(1, 2, true, 1); }
SV_HARNESS(c14_sized21) { condResets(2, 1, true, 1); }
SV_HARNESS(c14_sized12) { condResets(1, 1, true, 2); }
SV_HARNESS(c14_sized22) { condResets(2, 1, true, 2); }
static void langResets(int n, int max, int m) { SvMode fm(1); W w = mk("w", n, max); w.r = regionOf(w.x); Resets rs = mkResets(n, m, 3, 1); auto y = post(rs, w.x, m); Delays yt; bool mono = true; for (int i = 0; i < m; i++) { double d = y[i] - (i + 1 < m ? y[i + 1] : 0); mono = mono & (d >= 0); yt.push_back(d); } sv_assume(mono); if (!integral(rs)) sv_reject("non-integral constants");
  auto f = ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.word, w.t}); auto g = f.applyResets(letters(m - 1), rs, m);
  sv_assert(g.getWord() == letters(m - 1) && g.isSimple(), "the updated language is a region of the new word"); sv_assert(inCond(g.getTimedCondition(), yt), "the updated language contains the image of every word of the region");
  sv_assert(g == ForwardRegionalElementaryLanguage::fromTimedWord(g.sample()), "it is the language of a word");
}
SV_HARNESS(c14_lang11) { langResets(1, 2, 1); }
SV_HARNESS(c14_lang21) { langResets(2, 1, 1); }
SV_HARNESS(c14_lang22) { langResets(2, 1, 2); }
SV_HARNESS(c14_lang12) { langResets(1, 1, 2); }
