// A system under learning whose answer depends on the region of the word only: comparisons of sums of consecutive delays
// with integers, combined by and / or / exclusive or. Indices are counted from both ends of the word.
#pragma once
#include "conds.hh"
#include "sul.hh"
#include "symbolic_membership_oracle.hh"
namespace sv {
struct Cmp { int i, j, o; int c; bool holds(const Delays &d) const { double s = sum(d, i, j); return ((o == 0) & (s < c)) | ((o == 1) & (s <= c)) | ((o == 2) & (s >= c)) | ((o == 3) & (s > c)) | ((o == 4) & (s == c)); } };
struct Pred { std::vector<Cmp> cs; int how = 0; // 0 and, 1 or, 2 xor
  bool holds(const Delays &d) const { bool r = how == 0; for (auto &c : cs) { bool h = c.holds(d); r = how == 0 ? r & h : how == 1 ? r | h : r != h; } return r; } };
inline Pred mkPred(const char *nm, int n, int k, int maxc, int ops = 4) { std::string s = nm; Pred p; for (int i = 0; i < k; i++) { Cmp c; c.i = sv_choose((s + "i").c_str(), n); c.j = c.i + sv_choose((s + "j").c_str(), n - c.i); c.o = sv_choose((s + "o").c_str(), ops); c.c = sv_int((s + "c").c_str(), 0, maxc); p.cs.push_back(c); } if (k > 1) p.how = sv_choose((s + "how").c_str(), 3); return p; }
// the words with a predicate; other words are rejected
struct Lang { std::vector<std::pair<std::string, Pred>> words; bool accepts(const std::string &w, const Delays &d) const { for (auto &p : words) if (p.first == w) return p.second.holds(d); return false; } };
struct SulLog { int words = 0; bool open = false; };
struct StubSul : SUL { const Lang &l; SulLog &log; std::string w; Delays d; StubSul(const Lang &l_, SulLog &g) : l(l_), log(g) {}
  void pre() override { sv_assert(!log.open, "the system is started once per word"); log.open = true; w.clear(); d.assign(1, 0.0); }
  void post() override { sv_assert(log.open, "the system is stopped once per word"); log.open = false; log.words++; }
  bool now() const { return l.accepts(w, d); }
  bool step(char a) override { sv_assert(log.open, "steps happen between start and stop"); w.push_back(a); d.push_back(0.0); return now(); }
  bool step(double t) override { sv_assert(log.open, "steps happen between start and stop"); d.back() += t; return now(); }
  size_t count() const override { return log.words; } };
inline bool inSet(const TimedConditionSet &s, const Delays &d) { bool r = false; for (auto &c : s.getConditions()) r = r | inCond(c, d); return r; }
}
