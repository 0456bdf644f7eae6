// Backward regional elementary languages.
#include "conds.hh"
#include "backward_regional_elementary_language.hh"
using namespace sv;
static std::string letters(int n) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 2); return s; }
typedef BackwardRegionalElementaryLanguage B;
struct W { std::string word; Delays t, x; Region r; TimedWord tw() const { return TimedWord{word, t}; } };
static W mk(int n, int max, int scale = 3) { W w; w.word = letters(n); w.t = mkDelays("t", n + 1, max, scale); w.x = acc(w.t); w.r = regionOf(w.x); return w; }
static Delays front(const W &w) { Delays y; double s = 0; for (double d : w.t) { s += d; y.push_back(s); } return y; }
static void region(int n, int max) {
  SvMode fm(1); W w = mk(n, max); B f = B::fromTimedWord(w.tw());
  sv_assert(f.getWord() == w.word, "the language has the word"); sv_assert(f.isSimple(), "the language is simple"); sv_assert(inCond(f.getTimedCondition(), w.t), "the language contains the word");
  Delays u = mkDelays("u", n + 1, max + 1, 3); sv_assert(inCond(f.getTimedCondition(), u) == w.r.has(u), "the language contains exactly the words of the region");
}
SV_HARNESS(c12_region0) { region(0, 3); }
SV_HARNESS(c12_region1) { region(1, 2); }
SV_HARNESS(c12_region2) { region(2, 2); }
SV_HARNESS(c12_region3) { region(3, 1); }
static double next(const Delays &y) {
  bool eq = false; double m = 1; for (double d : y) { double f = std::floor(d); sv_forkd(f); eq = eq || sv_fork(f == d); double r = f + 1 - d; m = r < m ? r : m; }
  return eq ? std::ldexp(1, -4 - SV_GRID) : m;
}
static void pred(int n, int max) {
  SvMode fm(1); W w = mk(n, max); B f = B::fromTimedWord(w.tw()); double d = next(front(w));
  B s = f.predecessor(); W v = w; v.t.front() += d; v.x.front() += d; v.r = regionOf(v.x);
  sv_assert(s.getWord() == w.word, "time does not change the word");
  sv_assert(inCond(s.getTimedCondition(), v.t), "the continuous predecessor contains the word started earlier"); sv_assert(s.isSimple(), "the continuous predecessor is simple");
  Delays u = mkDelays("u", n + 1, max + 1, 4); sv_assert(inCond(s.getTimedCondition(), u) == v.r.has(u), "the continuous predecessor is the very next region");
  B r = B::fromTimedWord(v.tw()); sv_assert(s == r, "the continuous predecessor is the language of the word started earlier");
  sv_assert(s.predecessor() == r.predecessor(), "predecessors of equal languages are equal");
  auto p = s.immediateSuffix(); sv_assert(p.has_value(), "a predecessor has a suffix"); if (p) sv_assert(*p == f, "the immediate suffix inverts the continuous predecessor");
}
SV_HARNESS(c12_pred0) { pred(0, 3); }
SV_HARNESS(c12_pred1) { pred(1, 2); }
SV_HARNESS(c12_pred2) { pred(2, 2); }
SV_HARNESS(c12_pred3) { pred(3, 1); }
static void disc(int n, int max) {
  SvMode fm(1); W w = mk(n, max); B f = B::fromTimedWord(w.tw()); B s = f.predecessor('c'); Delays t{0}; t.insert(t.end(), w.t.begin(), w.t.end());
  sv_assert(s == B::fromTimedWord(TimedWord{"c" + w.word, t}), "the discrete predecessor is the language of the word with an action prepended after a zero delay");
  sv_assert(inCond(s.getTimedCondition(), t), "it contains that word");
  Delays u = mkDelays("u", n + 2, max + 1, 3); sv_assert(inCond(s.getTimedCondition(), u) == regionOf(acc(t)).has(u), "it contains exactly the words of that region");
}
SV_HARNESS(c12_disc0) { disc(0, 3); }
SV_HARNESS(c12_disc1) { disc(1, 2); }
SV_HARNESS(c12_disc2) { disc(2, 2); }
SV_HARNESS(c12_disc3) { disc(3, 1); }
