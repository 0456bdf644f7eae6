#include "conds.hh"
using namespace sv;
static void region(int n, int max, int sc, bool lang) {
  auto t = mkDelays("t", n, max, sc), u = mkDelays("u", n, max, sc); SvMode fm(1); auto a = acc(t); forkRegion(a);
  TimedCondition c(a);
  sv_assert(c.size() == (size_t)n, "size"); sv_assert(inCond(c, t), "the region of a word contains the word"); sv_assert(c.isSimple(), "it is simple"); sv_assert(simple(c), "it is simple indeed");
  sv_assert(inCond(c, u) == sameRegion(t, u), "it contains exactly the words of the same region");
  if (!lang) return;
  ElementaryLanguage l(std::string(n - 1, 'a'), c); 
  sv_assert(l.contains(TimedWord(std::string(n - 1, 'a'), u)) == sameRegion(t, u), "membership in the elementary language");
}
SV_HARNESS(c08_region1) { region(1, 4, 3, true); }
SV_HARNESS(c08_region2) { region(2, 3, 2, true); }
SV_HARNESS(c08_region3) { region(3, 2, 2, false); }
static void exact(int n) {
  SvMode fm(1);
  auto t = mkDelays("t", n, 3, 2), u = mkDelays("u", n, 3, 2); TimedCondition c = TimedCondition::makeExact(acc(t));
  bool eq = true; for (int i = 0; i < n; i++) eq = eq & (t[i] == u[i]); sv_assert(inCond(c, u) == eq, "makeExact contains exactly one word");
}
SV_HARNESS(c08_exact1) { exact(1); }
SV_HARNESS(c08_exact2) { exact(2); }
SV_HARNESS(c08_exact3) { exact(3); }
static void members(int n, int maxc, int upper, int cells = 99) { // contains, simple, toGuard, includes
  SvMode fm(1);
  Ref r(n); TC c = mkCond("c", n, maxc, upper, r, cells); auto t = mkDelays("t", n, maxc + 1, 2);
  std::string w(n - 1, 'a'); ElementaryLanguage l(w, c); bool in = inCond(c, t);
  sv_assert(in == r.contains(acc(t)), "canonizing keeps the condition"); 
  sv_assert(l.contains(TimedWord(w, t)) == in, "an elementary language contains exactly the words meeting its condition");
  sv_assert(c.isSimple() == simple(c), "simplicity is reported exactly");
  auto g = c.toGuard(); auto x = acc(t); bool box = true; for (int i = 0; i < n; i++) box = box & within(x[i], uppB(c, i, n - 1)) & within(-x[i], lowB(c, i, n - 1));
  sv_assert(holds(g, x) == box, "the guard accepts exactly the clock values within the bounds of the condition"); sv_assert(!in | holds(g, x), "the guard accepts every member");
  bool pt = true; for (int i = 0; i < n; i++) { auto u = uppB(c, i, n - 1), lo = lowB(c, i, n - 1); pt = (u.first == -lo.first) & u.second & lo.second; sv_assert(c.isPoint(i) == pt, "isPoint"); }
}
SV_HARNESS(c08_members1) { members(1, 4, 1); }
SV_HARNESS(c08_members2) { members(2, 1, 1); }
SV_HARNESS(c08_members3) { members(3, 1, 0, 2); }
static void enumer(int n, int maxc, int cells = 99) {
  SvMode fm(1);
  Ref r(n); TC c = mkCond("c", n, maxc, 0, r, cells); auto t = mkDelays("t", n, maxc + 1, 2); std::string w(n - 1, 'a');
  auto all = c.enumerate(); int cnt = 0; bool simp = true;
  sv_assert(!all.empty(), "a non-empty condition has a simple part");
  for (auto &s : all) { cnt += inCond(s, t) ? 1 : 0; simp = simp & simple(s) & s.isSatisfiableNoCanonize(); }
  sv_assert(cnt == (inCond(c, t) ? 1 : 0), "the simple parts partition the condition"); sv_assert(simp, "every part is simple and non-empty");
  auto ls = ElementaryLanguage(w, c).enumerate(); int k = 0; for (auto &l : ls) k += (l.getWord() == w) & inCond(l.getTimedCondition(), t) ? 1 : 0; sv_assert(k == (inCond(c, t) ? 1 : 0), "same for languages");
}
SV_HARNESS(c08_enum1) { enumer(1, 4); }
SV_HARNESS(c08_enum2) { enumer(2, 2, 3); }
SV_HARNESS(c08_enum3) { enumer(3, 1, 2); }
static void samp(int n, int maxc, int cells = 99) {
  SvMode fm(1);
  Ref r(n); TC c = mkCond("c", n, maxc, 0, r, cells); std::string w(n - 1, 'a'); ElementaryLanguage l(w, c);
  auto s = l.sample(); sv_assert(s.getWord() == w, "the sampled word has the actions of the language"); sv_assert(r.contains(acc(s.getDurations())), "the sampled word is a member");
  bool nn = true; for (auto d : s.getDurations()) nn = nn & (d >= 0); sv_assert(nn, "delays are non-negative");
}
SV_HARNESS(c08_sample1) { samp(1, 4); }
SV_HARNESS(c08_sample2) { samp(2, 2); }
SV_HARNESS(c08_sample3) { samp(3, 1, 3); }
static void constrain(int n, int k) { // fix the delays of a proper prefix
  SvMode fm(1);
  Ref r(n); TC c = mkCond("c", n, n == 2 ? 2 : 1, 0, r, 2); auto t = mkDelays("t", n, 3, 1), p = mkDelays("p", k + 1, 2, 1); std::string w(n - 1, 'a'); ElementaryLanguage l(w, c);
  const long K = 2L << SV_GRID; // the prefix must be a prefix of some member
  Ref q(n); for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j && r.h(i, j)) q.add(i, j, K * r.at(i, j).c, r.at(i, j).le);
  for (int i = 0; i < k; i++) { long h = (long)(p[i] * K); q.add(i + 1, i + 2, h, true); q.add(i + 2, i + 1, -h, true); } { long h = (long)(p[k] * K); if (k + 1 < n) q.add(k + 2, k + 1, -h, true); else q.add(0, k + 1, -h, true); }
  q.close(); sv_assume(q.nonEmpty());
  auto m = l.constrain(TimedWord(w.substr(0, k), p)); bool want = inCond(c, t); for (int i = 0; i < k; i++) want = want & (t[i] == p[i]);
  sv_assert((m.getWord() == w) & (inCond(m.getTimedCondition(), t) == want), "constrain keeps exactly the words with the given first delays");
}
SV_HARNESS(c08_constrain1) { constrain(2, 1); }
SV_HARNESS(c08_constrain2) { constrain(3, 2); }
