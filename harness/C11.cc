// Forward regional elementary languages.
#include "conds.hh"
#include "forward_regional_elementary_language.hh"
using namespace sv;
static std::string letters(int n) { std::string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 2); return s; }
struct W { std::string word; Delays t, x; Region r; TimedWord tw() const { return TimedWord{word, t}; } };
// a word with n events whose region is fixed on the path
static W mk(int n, int max, int scale = 3) { W w; w.word = letters(n); w.t = mkDelays("t", n + 1, max, scale); w.x = acc(w.t); w.r = regionOf(w.x); return w; }
typedef ForwardRegionalElementaryLanguage F;
static void region(int n, int max) {
  SvMode fm(1); W w = mk(n, max); F f = F::fromTimedWord(w.tw());
  sv_assert(f.getWord() == w.word, "the language has the word"); sv_assert(f.isSimple(), "the language is simple"); sv_assert(inCond(f.getTimedCondition(), w.t), "the language contains the word");
  Delays u = mkDelays("u", n + 1, max + 1, 3); sv_assert(inCond(f.getTimedCondition(), u) == w.r.has(u), "the language contains exactly the words of the region");
  bool eq = false; for (double d : w.x) eq = eq | (d == std::floor(d)); sv_assert(f.hasEqualityN() == eq, "hasEqualityN tells whether some clock is an integer");
}
SV_HARNESS(c11_region0) { region(0, 3); }
SV_HARNESS(c11_region1) { region(1, 2); }
SV_HARNESS(c11_region2) { region(2, 2); }
SV_HARNESS(c11_region3) { region(3, 1); }
// the smallest delay that leads into the next region (twice as fine as the grid of the values)
static double next(const Delays &x) {
  bool eq = false; double m = 1; for (double d : x) { double f = std::floor(d); eq = eq || sv_fork(f == d); double r = f + 1 - d; m = r < m ? r : m; }
  return eq ? std::ldexp(1, -4 - SV_GRID) : m;
}
static void succ(int n, int max) {
  SvMode fm(1); W w = mk(n, max); F f = F::fromTimedWord(w.tw()); double d = next(w.x); bool eq = f.hasEqualityN();
  F s = f.successor(); TimedWord tw = w.tw(); W v = w; v.t.back() += d; for (double &c : v.x) c += d; v.r = regionOf(v.x);
  sv_assert(s.getWord() == w.word, "time does not change the word");
  sv_assert(inCond(s.getTimedCondition(), v.t), "the continuous successor contains the delayed word"); sv_assert(s.isSimple(), "the continuous successor is simple");
  Delays u = mkDelays("u", n + 1, max + 1, 4); sv_assert(inCond(s.getTimedCondition(), u) == v.r.has(u), "the continuous successor is the very next region");
  F r = F::fromTimedWord(v.tw()); sv_assert(s == r, "the continuous successor is the language of the delayed word"); sv_assert(s.hasEqualityN() != eq, "regions with and without integer clocks alternate");
  F a = f; a.successorAssign(); sv_assert(a == s, "successorAssign agrees with successor");
  auto p = s.immediatePrefix(); sv_assert(p.has_value(), "a successor has a prefix"); if (p) sv_assert(*p == f, "the immediate prefix inverts the successor");
  (void)tw; F s2 = s.successor(), s3 = r.successor(); sv_assert(s2 == s3, "successors of equal languages are equal");
}
SV_HARNESS(c11_succ0) { succ(0, 3); }
SV_HARNESS(c11_succ1) { succ(1, 2); }
SV_HARNESS(c11_succ2) { succ(2, 2); }
SV_HARNESS(c11_succ3) { succ(3, 1); }
static void disc(int n, int max) {
  SvMode fm(1); W w = mk(n, max); F f = F::fromTimedWord(w.tw()); F s = f.successor('c'); Delays t = w.t; t.push_back(0);
  sv_assert(s == F::fromTimedWord(TimedWord{w.word + "c", t}), "the discrete successor is the language of the word extended with an action and a zero delay");
  sv_assert(inCond(s.getTimedCondition(), t), "it contains that word");
  Delays u = mkDelays("u", n + 2, max + 1, 3); sv_assert(inCond(s.getTimedCondition(), u) == (regionOf(acc(t)).has(u)), "it contains exactly the words of that region");
  auto p = s.immediatePrefix(); sv_assert(p.has_value(), "a successor has a prefix"); if (p) sv_assert(*p == f, "the immediate prefix inverts the discrete successor");
  F s2 = s.successor(); for (double &c : w.x) c += 0; Delays x = w.x; x.push_back(0); double d = next(x); t.back() += d; sv_assert(inCond(s2.getTimedCondition(), t) & s2.isSimple(), "time passes after the action");
}
SV_HARNESS(c11_disc0) { disc(0, 3); }
SV_HARNESS(c11_disc1) { disc(1, 2); }
SV_HARNESS(c11_disc2) { disc(2, 2); }
SV_HARNESS(c11_disc3) { disc(3, 1); }
static void prefixes(int n, int max) {
  SvMode fm(1); W w = mk(n, max); F f = F::fromTimedWord(w.tw()); auto ps = f.prefixes();
  sv_assert(!ps.empty(), "there are prefixes"); if (ps.empty()) return;
  sv_assert(ps.front() == F::fromTimedWord(TimedWord{"", {0}}), "the first prefix is the empty word"); sv_assert(ps.back() == f, "the last prefix is the language itself");
  for (std::size_t i = 0; i + 1 < ps.size(); i++) { int k = ps[i + 1].getWord().size();
    if (ps[i].getWord().size() == ps[i + 1].getWord().size()) sv_assert(ps[i + 1] == ps[i].successor(), "consecutive prefixes are continuous successors");
    else { sv_assert(k == (int)ps[i].getWord().size() + 1 && k <= n, "prefixes grow by one action"); sv_assert(ps[i + 1] == ps[i].successor(w.word[k - 1]), "consecutive prefixes are discrete successors"); } }
  int k = sv_choose("cut", n + 1); double u = sv_real("u", 0, max, 3); sv_assume(u <= w.t[k]); Delays c(w.t.begin(), w.t.begin() + k); c.push_back(u); int in = 0;
  for (auto &p : ps) if ((int)p.getWord().size() == k) in = in + inCond(p.getTimedCondition(), c);
  sv_assert(in == 1, "every prefix of the word lies in exactly one prefix of the language");
}
SV_HARNESS(c11_prefixes0) { prefixes(0, 3); }
SV_HARNESS(c11_prefixes1) { prefixes(1, 2); }
SV_HARNESS(c11_prefixes2) { prefixes(2, 2); }
SV_HARNESS(c11_prefixes3) { prefixes(3, 1); }
static void suffixes(int n, int max) {
  SvMode fm(1); W w = mk(n, max); F f = F::fromTimedWord(w.tw());
  for (auto &p : f.prefixes()) { auto s = f.suffix(p); sv_assert(s.getWord() == w.word.substr(p.getWord().size()), "the suffix has the remaining actions"); sv_assert(s.isSimple(), "the suffix is simple");
    ElementaryLanguage c = p + s; sv_assert(c.getWord() == w.word, "prefix and suffix reassemble the actions"); sv_assert(inCond(c.getTimedCondition(), w.t), "the concatenation of prefix and suffix contains the word");
    sv_assert(s == BackwardRegionalElementaryLanguage::fromTimedWord(s.sample()), "the suffix is the language of a word"); }
}
SV_HARNESS(c11_suffix0) { suffixes(0, 3); }
SV_HARNESS(c11_suffix1) { suffixes(1, 2); }
SV_HARNESS(c11_suffix2) { suffixes(2, 2); }
SV_HARNESS(c11_suffix3) { suffixes(3, 1); }
