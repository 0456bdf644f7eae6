// Membership queries: fresh, cached and symbolic.
#include "suls.hh"
using namespace sv;
static void check(SymbolicMembershipOracle &o, const Lang &l, const std::string &w, const TimedCondition &c, int maxd, const char *nm = "d") {
  auto s = o.query(ElementaryLanguage(w, c)); Delays d = mkDelays(nm, w.size() + 1, maxd, 2); bool in = inCond(c, d), acc = l.accepts(w, d), out = inSet(s, d);
  sv_assert(out == (in & acc), "the answer is the accepted part of the language"); for (auto &x : s.getConditions()) sv_assert(x.isSatisfiableNoCanonize(), "no empty part");
  sv_reach(s.empty() ? "none" : s.size() == 1 ? "one part" : "several parts"); }
static void whole(int n, int k, int maxc, int cells, int ops = 4) { SvMode fm(1); Ref r(n); TC c = mkCond("c", n, maxc, 0, r, cells); std::string w(n - 1, 'a'); Lang l; l.words.emplace_back(w, mkPred("p", n, k, maxc, ops)); SulLog g; SymbolicMembershipOracle o(std::make_unique<StubSul>(l, g)); check(o, l, w, c, maxc + 1); }
SV_HARNESS(c21_part1) { whole(1, 1, 3, 99, 5); }
SV_HARNESS(c21_part1x2) { whole(1, 2, 2, 99, 5); }
SV_HARNESS(c21_part2) { whole(2, 1, 1, 3); }
SV_HARNESS(c21_part2x2) { whole(2, 2, 1, 2); }
SV_HARNESS(c21_part3) { whole(3, 1, 1, 2, 2); }
// a query after others over the same word, and the same query again
SV_HARNESS(c21_again1) { SvMode fm(1); Lang l; l.words.emplace_back("", mkPred("p", 1, 1, 2, 5)); SulLog g; SymbolicMembershipOracle o(std::make_unique<StubSul>(l, g)); Ref r(1), q(1); TC c = mkCond("c", 1, 2, 0, r), e = mkCond("e", 1, 2, 0, q);
  check(o, l, "", c, 3); check(o, l, "", e, 3, "f"); int n = g.words; auto s = o.query(ElementaryLanguage("", c)), t = o.query(ElementaryLanguage("", e)); sv_assert(n == g.words, "a repeated query asks nothing"); Delays d = mkDelays("g", 1, 3, 2); sv_assert(inSet(s, d) == (inCond(c, d) & l.accepts("", d)) && inSet(t, d) == (inCond(e, d) & l.accepts("", d)), "a repeated query has the same answer"); }
SV_HARNESS(c21_again2) { SvMode fm(1); static const char *ws[] = {"a", "b"}; Lang l; for (auto w : ws) l.words.emplace_back(w, mkPred("p", 2, 1, 1, 2)); SulLog g; SymbolicMembershipOracle o(std::make_unique<StubSul>(l, g)); Ref r(2); TC c = mkCond("c", 2, 1, 0, r, 2); check(o, l, "a", c, 2); check(o, l, "b", c, 2, "f"); check(o, l, "a", c, 2, "g"); }
SV_HARNESS(c21_longer) { SvMode fm(1); Lang l; l.words.emplace_back("", mkPred("p", 1, 1, 2, 4)); l.words.emplace_back("a", mkPred("q", 2, 1, 1, 2)); SulLog g; SymbolicMembershipOracle o(std::make_unique<StubSul>(l, g)); Ref r(1), q(2); TC c = mkCond("c", 1, 1, 0, r), e = mkCond("e", 2, 1, 0, q, 2); check(o, l, "a", e, 2, "f"); check(o, l, "", c, 2); }
// single words: fresh and cached answers
static void words(int n, int m, int k, bool sym) { SvMode fm(1); std::string u(n, 'a'), v(m, sv_flag("b") ? 'b' : 'a'); Lang l; l.words.emplace_back(u, mkPred("p", n + 1, k, 2, 4)); if (u != v) l.words.emplace_back(v, mkPred("q", m + 1, k, 2, 4)); SulLog g; std::unique_ptr<MembershipOracle> o; if (sym) o = std::make_unique<SymbolicMembershipOracle>(std::make_unique<StubSul>(l, g)); else o = std::make_unique<MembershipOracleCache>(std::make_unique<SULMembershipOracle>(std::make_unique<StubSul>(l, g)));
  Delays d = mkDelays("d", n + 1, 3, 3), e = mkDelays("e", m + 1, 3, 3); bool x = l.accepts(u, d), y = l.accepts(v, e); sv_assert(o->answerQuery(TimedWord{u, d}) == x, "the first answer is right"); sv_assert(o->answerQuery(TimedWord{v, e}) == y, "the second answer is right"); int c = g.words; sv_assert(o->answerQuery(TimedWord{u, d}) == x && o->answerQuery(TimedWord{v, e}) == y, "cached answers are right"); sv_assert(c == g.words && o->count() == (size_t)c, "cached words are not asked again"); }
SV_HARNESS(c21_words00) { words(0, 0, 1, false); }
SV_HARNESS(c21_words11) { words(1, 1, 1, false); }
SV_HARNESS(c21_words12) { words(1, 2, 1, false); }
SV_HARNESS(c21_words11sym) { words(1, 1, 1, true); }
SV_HARNESS(c21_fresh) { SvMode fm(1); int n = sv_choose("n", 4); std::string u = ""; for (int i = 0; i < n; i++) u.push_back(sv_flag("b") ? 'b' : 'a'); Lang l; l.words.emplace_back(u, mkPred("p", n + 1, 1, 3)); if (n) l.words.emplace_back(u.substr(0, n - 1), mkPred("q", n, 1, 3, 1)); SulLog g; SULMembershipOracle o(std::make_unique<StubSul>(l, g)); Delays d = mkDelays("d", n + 1, 3, 3); sv_assert(o.answerQuery(TimedWord{u, d}) == l.accepts(u, d), "the answer of the system after the last delay"); sv_assert(!g.open && g.words == 1, "started and stopped"); }
