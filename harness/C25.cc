// Recognizable languages and the analysis of counterexamples.
#include "suls.hh"
#include "recognizable_languages.hh"
#include "counterexample_analyzer.hh"
using namespace sv;
typedef ElementaryLanguage L; typedef ForwardRegionalElementaryLanguage F;
static const L EPS0{"", TimedCondition{std::vector<double>{0}}};
static bool eqWord(const TimedWord &a, const TimedWord &b) { if (a.getWord() != b.getWord()) return false; bool r = true; for (size_t i = 0; i < a.getDurations().size(); i++) r = r & (a.getDurations()[i] == b.getDurations()[i]); return r; }
// is some prefix of the word in the region? (n delays, the last one up to the word's own)
static bool hasPrefix(const Region &r, const std::string &rw, const std::string &w, const Delays &d) { int n = r.n; if (w.compare(0, n - 1, rw) != 0 || (int)d.size() < n) return false; bool ok = true; std::vector<Bd> lo{{0, true}}, hi{{d[n - 1], true}}; int k = 0;
  for (int j = n - 1; j >= 0; j--) for (int i = 0; i <= j; i++, k++) { double s = sum(d, i, n - 2); if (j < n - 1) { double t = sum(d, i, j); ok = ok & (r.pt[k] ? t == r.f[k] : (bool)((t > r.f[k]) & (t < r.f[k] + 1))); } else { lo.push_back({r.f[k] - s, (bool)r.pt[k]}); hi.push_back({r.f[k] + (r.pt[k] ? 0 : 1) - s, (bool)r.pt[k]}); } }
  return ok & feasible(lo, hi); }
struct D { std::string w; Delays t; Region r; L l; };
static D mkD(const char *nm, int n, int max, int scale) { D d; d.w = std::string(n - 1, 'a'); d.t = mkDelays(nm, n, max, scale); d.r = regionOf(acc(d.t)); d.l = L(d.w, TimedCondition{acc(d.t)}); return d; }
// regionOf lists the sums by their last delay, from the last one: sum(i, j) for j = n-1 .. 0 is x_i - x_{j+1}
static void split(std::vector<int> ns, int m, int dmax, int max, int scale) { SvMode fm(1); std::vector<D> ds; std::vector<SingleMorphism> ms; for (int n : ns) { D d = mkD("u", n, dmax, scale); ds.push_back(d); ms.emplace_back(d.l, EPS0, RenamingRelation{}); } RecognizableLanguage rl({}, {}, ms);
  Delays t = mkDelays("w", m, max, scale); std::string w(m - 1, 'a'); forkRegion(acc(t)); auto r = rl.split(TimedWord{w, t}); bool any = false; for (auto &d : ds) any = any | hasPrefix(d.r, d.w, w, t);
  sv_assert(r.has_value() == any, "a word is split exactly when one of its prefixes is in a domain"); if (!r) { sv_reach("none"); return; } sv_reach("split");
  sv_assert(eqWord(r->prefix + r->suffix, TimedWord{w, t}), "the parts of a split make up the word"); sv_assert(r->morphism.inDomain(r->prefix), "the first part of a split is in the domain of its morphism");
  for (double d : r->prefix.getDurations()) sv_assert(d >= 0, "no negative delay in the first part"); for (double d : r->suffix.getDurations()) sv_assert(d >= 0, "no negative delay in the second part");
  sv_assert(eqWord(r->apply(), r->suffix), "the mapped word is the image of the first part followed by the second part"); }
SV_HARNESS(c25_split11) { split({1}, 1, 3, 4, 2); }
SV_HARNESS(c25_split12) { split({1}, 2, 2, 2, 2); }
SV_HARNESS(c25_split22) { split({2}, 2, 1, 2, 2); }
SV_HARNESS(c25_split23) { split({2}, 3, 1, 1, 2); }
SV_HARNESS(c25_split33) { split({3}, 3, 1, 1, 3); }
SV_HARNESS(c25_split112) { split({1, 2}, 2, 1, 2, 2); }
// A hand-made recognizable language: the prefixes are 0 and (0,1); their successors are mapped to one of them.
struct Made { std::vector<L> P, fin; std::vector<SingleMorphism> ms; RecognizableLanguage rl() const { return {P, fin, ms}; } };
static L reg(const std::string &w, const Delays &t) { return L(w, TimedCondition{acc(t)}); }
static Made make(int ps) { Made m; for (int i = 0; i < ps; i++) { m.P.push_back(reg("", {i * 0.5})); if (sv_flag("final")) m.fin.push_back(m.P.back()); }
  m.ms.emplace_back(reg("", {ps * 0.5}), m.P[ps - 1], RenamingRelation{});
  for (int i = 0; i < ps; i++) { int to = sv_choose("to", ps + 1); RenamingRelation r; if (to == ps) { to = i; r.emplace_back(0, 0); } else if (to == 0 && ps > 0) r = {}; m.ms.emplace_back(reg("a", {i * 0.5, 0}), m.P[to], r); }
  return m; }
struct Chain { std::vector<TimedWord> words, suffixes; };
static Chain chainOf(const RecognizableLanguage &rl, const TimedWord &w, int limit) { Chain c; c.words.push_back(w); c.suffixes.push_back(TimedWord{}); while (!rl.inPrefixes(c.words.back())) { if ((int)c.words.size() > limit) sv_assert(false, "a word is mapped to a prefix in finitely many steps"); auto t = rl.split(c.words.back()); if (!t) { sv_assert(false, "every word outside the prefixes can be split"); break; } c.suffixes.push_back(t->suffix); c.words.push_back(t->apply()); } return c; }
static bool inAny(const std::vector<L> &ls, const TimedWord &w) { bool r = false; for (auto &l : ls) if (l.getWord() == w.getWord()) r = r | inCond(l.getTimedCondition(), w.getDurations()); return r; }
static void member(int ps, int m, int max, int limit) { SvMode fm(1); Made a = make(ps); auto rl = a.rl(); Delays t = mkDelays("w", m, max, 2); TimedWord w{std::string(m - 1, 'a'), t}; forkRegion(acc(t));
  sv_assert(rl.inPrefixes(w) == inAny(a.P, w), "inPrefixes is membership in a prefix"); sv_assert(rl.isFinal(w) == inAny(a.fin, w), "isFinal is membership in a final prefix");
  Chain c = chainOf(rl, w, limit); sv_assert(rl.contains(w) == inAny(a.fin, c.words.back()), "membership is that of the prefix the word is mapped to"); for (auto &v : c.words) sv_assert(rl.contains(v) == rl.contains(w), "mapping a word does not change its membership"); sv_reach("member"); }
SV_HARNESS(c25_member11) { member(1, 1, 2, 8); }
SV_HARNESS(c25_member12) { member(1, 2, 2, 12); }
SV_HARNESS(c25_member21) { member(2, 1, 2, 8); }
SV_HARNESS(c25_member22) { member(2, 2, 1, 12); }
SV_HARNESS(c25_member32) { member(3, 2, 1, 12); }
SV_HARNESS(c25_member23) { member(2, 3, 1, 20); }
// Counterexample analysis with an arbitrary region-based system.
static void analyze(int ps, int m, int max, int k, int maxc, int nsuf) { SvMode fm(1); Made a = make(ps); auto rl = a.rl(); Delays t = mkDelays("w", m, max, 2); TimedWord w{std::string(m - 1, 'a'), t}; forkRegion(acc(t));
  Lang lang; for (int i = 1; i <= m; i++) lang.words.emplace_back(std::string(i - 1, 'a'), mkPred("p", i, k, maxc, 3)); SulLog log; SULMembershipOracle o(std::make_unique<StubSul>(lang, log)); auto sul = [&](const TimedWord &v) { return lang.accepts(v.getWord(), v.getDurations()); };
  Chain c = chainOf(rl, w, 20); bool h = rl.contains(w); sv_assume(sul(w) != h); sv_assume(sul(c.words.back()) == h); sv_reach("counterexample");
  std::vector<BackwardRegionalElementaryLanguage> suf; for (int i = 0; i < nsuf; i++) { int n = 1 + sv_choose("sn", m); Delays s = mkDelays("s", n, max, 2); regionOf(acc(s)); suf.push_back(BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{std::string(n - 1, 'a'), s})); }
  auto r = analyzeCEX(w, o, rl, suf); sv_assert(!log.open, "every query is finished");
  bool some = false, hit = false; for (size_t i = 0; i + 1 < c.words.size(); i++) { bool fresh = true; for (auto &s : suf) if (s.getWord() == c.suffixes[i + 1].getWord()) fresh = fresh & !inCond(s.getTimedCondition(), c.suffixes[i + 1].getDurations()); bool change = (sul(c.words[i]) != sul(c.words[i + 1])) & fresh; some = some | change; if (r && r->getWord() == c.suffixes[i + 1].getWord()) hit = hit | (change & eqWord(*r, c.suffixes[i + 1])); }
  if (r) { sv_reach("suffix"); sv_assert(hit, "the returned suffix is fresh and membership changes where it is split off"); } else { sv_reach("nothing"); sv_assert(!some, "a fresh suffix at a change of membership is found"); } }
SV_HARNESS(c25_analyze11) { analyze(1, 1, 2, 1, 2, 0); }
SV_HARNESS(c25_analyze12) { analyze(1, 2, 1, 1, 2, 0); }
SV_HARNESS(c25_analyze22) { analyze(2, 2, 1, 1, 2, 0); }
SV_HARNESS(c25_analyze11s) { analyze(1, 1, 2, 1, 2, 1); }
SV_HARNESS(c25_analyze12s) { analyze(1, 2, 1, 1, 1, 1); }
SV_HARNESS(c25_analyze21s) { analyze(2, 1, 3, 2, 3, 1); }
SV_HARNESS(c25_analyze13) { analyze(1, 3, 1, 1, 1, 0); }
