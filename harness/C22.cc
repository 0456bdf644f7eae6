// Renamings between rows of the observation table.
#include "suls.hh"
#include "equivalence.hh"
using namespace sv;
typedef BackwardRegionalElementaryLanguage B; typedef std::vector<TimedConditionSet> Row; typedef std::vector<TimedCondition> Concs;
struct P { std::string word; Delays t, x; Region r; ElementaryLanguage l; };
static P mk(const char *nm, int n, int max, int scale) { P p; p.word = std::string(n - 1, 'a'); p.t = mkDelays(nm, n, max, scale); p.x = acc(p.t); p.r = regionOf(p.x); p.l = ElementaryLanguage(p.word, TimedCondition{p.x}); return p; }
static Delays joined(const Delays &a, const Delays &s) { Delays d = a; d.back() += s[0]; d.insert(d.end(), s.begin() + 1, s.end()); return d; }
// the cell of a prefix and a suffix: the accepted part
static TimedConditionSet cellOf(const TimedCondition &conc, const std::string &w, const Pred &p) { Lang l; l.words.emplace_back(w, p); SulLog g; SymbolicMembershipOracle o(std::make_unique<StubSul>(l, g)); return o.query(ElementaryLanguage(w, conc)); }
static Pred mixedPred(const char *nm, const TimedCondition &c) { std::string s = nm; int n = c.size(); Cmp p; p.i = sv_choose((s + "i").c_str(), n); p.j = n - 1; p.o = sv_choose((s + "o").c_str(), 3); double lo = -lowB(c, p.i, p.j).first, hi = uppB(c, p.i, p.j).first; if (hi - lo < 2) sv_reject("uniform"); p.c = (int)lo + 1 + sv_choose((s + "c").c_str(), (int)(hi - lo) - 1); Pred r; r.cs.push_back(p); return r; }
static Pred mkCellPred(const char *nm, int n, int k, int maxc) { std::string s = nm; Pred p; for (int i = 0; i < k; i++) { Cmp c; c.i = sv_choose((s + "i").c_str(), n); c.j = n - 1 - (n > 2 ? sv_choose((s + "j").c_str(), 2) : 0); if (c.j < c.i) sv_reject("order"); c.o = sv_choose((s + "o").c_str(), 3); c.c = sv_int((s + "c").c_str(), 0, maxc); p.cs.push_back(c); } if (k > 1) p.how = sv_choose((s + "how").c_str(), 3); return p; }
struct T { P l, r; std::vector<P> s; std::vector<B> sb; Row lr, rr; Concs lc, rc; };
// every suffix has k+1 delays; ns suffixes; the cells come from comparisons, or are empty
static T mkT(int n, int m, int k, int ns, int max, int scale, int np, int maxc) { T t; t.l = mk("l", n, max, scale); t.r = mk("r", m, max, scale);
  for (int i = 0; i < ns; i++) { P s = mk("s", k + 1, max, scale); B b = B::fromTimedWord(TimedWord{s.word, s.t}); t.sb.push_back(b); auto lc = t.l.l.getTimedCondition() + b.getTimedCondition(), rc = t.r.l.getTimedCondition() + b.getTimedCondition(); t.lc.push_back(lc); t.rc.push_back(rc);
    t.lr.push_back(cellOf(lc, t.l.word + s.word, np ? mkCellPred("p", n + k, np, maxc) : mixedPred("p", lc))); t.rr.push_back(cellOf(rc, t.r.word + s.word, np ? mkCellPred("q", m + k, np, maxc) : mixedPred("q", rc))); t.s.push_back(s); }
  return t; }
// related prefixes and a shared suffix
static void sound(const T &t, const RenamingRelation &ren, int max, int scale) {
  size_t i = t.s.size() > 1 ? sv_choose("suffix", t.s.size()) : 0; int n = t.l.t.size(), m = t.r.t.size();
  auto jz = t.l.l.getTimedCondition() ^ t.r.l.getTimedCondition(); jz.addRenaming(ren); sv_assert(jz.isSatisfiableNoCanonize(), "some pair of prefixes is related");
  for (auto &q : ren) if ((int)q.first >= n || (int)q.second >= m) { sv_assert(false, "the renaming relates clocks of the prefixes"); return; }
  Delays a = mkDelays("a", n, max, scale), b = mkDelays("b", m, max, scale), s = mkDelays("e", t.s[i].t.size(), max, scale); Delays ax = acc(a), bx = acc(b); bool rel = t.l.r.has(a) & t.r.r.has(b) & t.s[i].r.has(s); for (auto &q : ren) rel = rel & (ax[q.first] == bx[q.second]);
  sv_assume(rel); sv_reach(ren.empty() ? "empty renaming" : "renaming"); sv_assert(inSet(t.lr[i], joined(a, s)) == inSet(t.rr[i], joined(b, s)), "related prefixes accept the same continuations"); }
static void find(int n, int m, int k, int ns, int max, int np, int maxc, int scale = 2) { SvMode fm(1); T t = mkT(n, m, k, ns, max, scale, np, maxc);
  auto r = findDeterministicEquivalentRenaming(t.l.l, t.lr, t.r.l, t.rr, t.sb); auto q = findDeterministicEquivalentRenaming(t.l.l, t.lr, t.lc, t.r.l, t.rr, t.rc, t.sb); sv_assert(r == q, "both searches agree");
  if (!r) { sv_reach("none"); return; } sv_assert(r->isRightUnique(), "at most one source per clock"); sv_assert(!r->hasImpreciseClocks(t.r.l.getTimedCondition()), "the renaming is deterministic"); sound(t, *r, max + 1, scale); }
SV_HARNESS(c22_find110) { find(1, 1, 0, 1, 2, 1, 3); }
SV_HARNESS(c22_find210) { find(2, 1, 0, 1, 1, 1, 2); }
SV_HARNESS(c22_find120) { find(1, 2, 0, 1, 1, 1, 2); }
SV_HARNESS(c22_find220) { find(2, 2, 0, 1, 1, 1, 2); }
SV_HARNESS(c22_find111) { find(1, 1, 1, 1, 1, 1, 2); }
SV_HARNESS(c22_find110x2) { find(1, 1, 0, 2, 1, 1, 2); }
SV_HARNESS(c22_find110or) { find(1, 1, 0, 1, 2, 2, 3); }
SV_HARNESS(c22_find211) { find(2, 1, 1, 1, 1, 1, 2); }
// comparisons that cut the cells
SV_HARNESS(c22_cut110) { find(1, 1, 0, 1, 2, 0, 0); }
SV_HARNESS(c22_cut210) { find(2, 1, 0, 1, 1, 0, 0); }
SV_HARNESS(c22_cut120) { find(1, 2, 0, 1, 1, 0, 0); }
SV_HARNESS(c22_cut220) { find(2, 2, 0, 1, 1, 0, 0); }
SV_HARNESS(c22_cut111) { find(1, 1, 1, 1, 1, 0, 0); }
SV_HARNESS(c22_cut110x2) { find(1, 1, 0, 2, 1, 0, 0); }
SV_HARNESS(c22_cut220x2) { find(2, 2, 0, 2, 1, 0, 0); }
// a row is equivalent to itself
static void self(int n, int k, int max, int np, int maxc) { SvMode fm(1); T t; t.l = mk("l", n, max, 2); P s = mk("s", k + 1, max, 2); B b = B::fromTimedWord(TimedWord{s.word, s.t}); t.sb.push_back(b); auto c = t.l.l.getTimedCondition() + b.getTimedCondition(); t.lc.push_back(c); t.lr.push_back(cellOf(c, t.l.word + s.word, mkCellPred("p", n + k, np, maxc))); t.s.push_back(s); t.r = t.l; t.rc = t.lc; t.rr = t.lr;
  auto r = findDeterministicEquivalentRenaming(t.l.l, t.lr, t.lc, t.r.l, t.rr, t.rc, t.sb); sv_assert(r.has_value(), "every row is equivalent to itself"); if (r) sound(t, *r, max + 1, 2); }
SV_HARNESS(c22_self1) { self(1, 0, 2, 1, 3); }
SV_HARNESS(c22_self2) { self(2, 0, 1, 1, 2); }
SV_HARNESS(c22_self11) { self(1, 1, 1, 1, 2); }
SV_HARNESS(c22_self3) { self(3, 0, 1, 1, 2); }
// checking a given renaming, all overloads
static void given(int n, int m, int k, int max, int np, int maxc, int kr) { SvMode fm(1); T t = mkT(n, m, k, 1, max, 2, np, maxc); RenamingRelation ren; for (int i = 0; i < kr; i++) ren.emplace_back(sv_choose("ra", n), sv_choose("rb", m));
  bool e = equivalence(t.l.l, t.lr, t.r.l, t.rr, t.sb, ren), f = equivalence(t.l.l, t.lr, t.lc, t.r.l, t.rr, t.rc, t.sb, ren); std::vector<JuxtaposedZoneSet> lj, rj; lj.emplace_back(t.lr[0], t.rc[0], t.sb[0].wordSize()); rj.emplace_back(t.lc[0], t.rr[0], t.sb[0].wordSize()); bool g = equivalence(t.l.l.getTimedCondition() ^ t.r.l.getTimedCondition(), lj, rj, ren);
  sv_assert(e == f, "precomputed concatenations do not change the verdict");
  auto all = [](const TimedConditionSet &s, const TimedCondition &c) { return s.size() == 1 && s.getConditions().front() == c; }; bool top = all(t.lr[0], t.lc[0]) && all(t.rr[0], t.rc[0]), bottom = t.lr[0].empty() && t.rr[0].empty();
  auto jz = t.l.l.getTimedCondition() ^ t.r.l.getTimedCondition(); jz.addRenaming(ren); bool sat = jz.isSatisfiableNoCanonize();
  if (top || bottom) { sv_reach("uniform"); sv_assert(e == sat && g == sat, "uniform rows are equivalent when some pair of prefixes is related"); }
  if (!e && !g) { sv_reach("no"); return; } sound(t, ren, max + 1, 2); }
SV_HARNESS(c22_given110x0) { given(1, 1, 0, 2, 1, 3, 0); }
SV_HARNESS(c22_given110x1) { given(1, 1, 0, 2, 1, 3, 1); }
SV_HARNESS(c22_given210x1) { given(2, 1, 0, 1, 1, 2, 1); }
SV_HARNESS(c22_given220x2) { given(2, 2, 0, 1, 1, 2, 2); }
SV_HARNESS(c22_given111x1) { given(1, 1, 1, 1, 1, 2, 1); }
// the graph of possible equalities, candidates, cells
SV_HARNESS(c22_graph) { SvMode fm(1); int n = 1 + sv_choose("n", 3), m = 1 + sv_choose("m", 2); P a = mk("l", n, 1, 3), b = mk("r", m, 1, 2); auto g = toGraph(a.l.getTimedCondition(), b.l.getTimedCondition()); sv_assert((int)g.first.size() == n && (int)g.second.size() == m, "sizes");
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { bool same = sv_fork(sameUnit(a.x[i], b.x[j])); auto in = [](const std::vector<size_t> &v, int k) { return std::count(v.begin(), v.end(), (size_t)k); }; sv_assert(in(g.first[i], j) == same && in(g.second[j], i) == same, "clocks are connected exactly if they lie in the same unit"); } }
SV_HARNESS(c22_status) { SvMode fm(1); P l = mk("l", 1 + sv_choose("n", 2), 1, 2), s = mk("s", 1, 1, 2); auto c = l.l.getTimedCondition() + TimedCondition{s.x}; Pred p = mkCellPred("p", c.size(), 1, 3); auto cell = cellOf(c, l.word, p); CellStatus st = decideStatus(c, cell); Delays d = mkDelays("d", c.size(), 3, 2); sv_assume(inCond(c, d)); bool in = p.holds(d);
  sv_assert((st != CellStatus::bottom || !in) && (st != CellStatus::top || in), "the status of a uniform cell"); sv_reach(st == CellStatus::top ? "top" : st == CellStatus::bottom ? "bottom" : "middle"); if (st == CellStatus::middle) { bool some = false, every = true; for (auto &x : c.enumerate()) { ElementaryLanguage e(l.word, x); bool h = sv_fork(p.holds(e.sample().getDurations())); some = some || h; every = every && h; } sv_assert(some && !every, "a mixed cell is mixed"); } }
SV_HARNESS(c22_candidates) { SvMode fm(1); int n = 1 + sv_choose("n", 3), m = 1 + sv_choose("m", 2); P a = mk("l", n, 1, 3), b = mk("r", m, 1, 2); auto lt = a.l.getTimedCondition(), rt = b.l.getTimedCondition(); auto g = toGraph(lt, rt); std::vector<size_t> lc, rc; for (int i = 0; i < n; i++) if (sv_flag("lc")) lc.push_back(i); for (int j = 0; j < m; j++) if (sv_flag("rc")) rc.push_back(j);
  auto cs = generateDeterministicCandidates(lt, rt, lc, rc, g); bool empty = false; for (auto &c : cs) { empty = empty || c.empty(); sv_assert(!c.hasImpreciseClocks(rt), "candidates are deterministic"); sv_assert(c.isRightUnique(), "one source per clock"); for (auto &q : c) sv_assert((bool)sv_fork(sameUnit(a.x[q.first], b.x[q.second])), "a candidate relates clocks of the same unit"); } sv_assert(empty, "the empty renaming is a candidate"); for (size_t i = 0; i < cs.size(); i++) for (size_t j = 0; j < i; j++) sv_assert(cs[i] != cs[j], "candidates are distinct"); }
// the search that does not ask for deterministic renamings
static void general(int n, int m, int k, int ns, int max, int np, int maxc) { SvMode fm(1); T t = mkT(n, m, k, ns, max, 2, np, maxc); auto r = findEquivalentRenaming(t.l.l, t.lr, t.r.l, t.rr, t.sb); if (!r) { sv_reach("none"); return; } sound(t, *r, max + 1, 2); }
SV_HARNESS(c22_general110) { general(1, 1, 0, 1, 2, 1, 3); }
SV_HARNESS(c22_general210) { general(2, 1, 0, 1, 1, 1, 2); }
SV_HARNESS(c22_general120) { general(1, 2, 0, 1, 1, 1, 2); }
SV_HARNESS(c22_general220) { general(2, 2, 0, 1, 1, 1, 2); }
SV_HARNESS(c22_general111) { general(1, 1, 1, 1, 1, 1, 2); }
SV_HARNESS(c22_generalcut220) { general(2, 2, 0, 1, 1, 0, 0); }
