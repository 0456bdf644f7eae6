#include "conds.hh"
#include "timed_condition_set.hh"
using namespace sv;
static void red(int k, int n, int max, int sc) { // k regions
  std::list<ElementaryLanguage> ls; std::string w(n - 1, 'a'); auto t = mkDelays("t", n, max + 1, 2); bool in = false;
  static const char *nm[] = {"a", "b", "c", "d"};
  for (int i = 0; i < k; i++) { auto p = mkDelays(nm[i], n, max, sc); SvMode fm(1); auto a = acc(p); forkRegion(a); TimedCondition c(a); in = in | inCond(c, t); ls.emplace_back(w, c); }
  auto s = TimedConditionSet::reduce(ls); bool out = false; for (auto &c : s.getConditions()) out = out | inCond(c, t);
  sv_assert(out == in, "reducing keeps the union"); sv_assert(s.empty() == (k == 0), "emptiness"); sv_assert(s.size() <= (size_t)k, "no more parts than given");
  for (auto &c : s) sv_assert(c.isSatisfiableNoCanonize(), "no empty part");
}
SV_HARNESS(c10_reduce0) { red(0, 1, 1, 1); }
SV_HARNESS(c10_reduce2x1) { red(2, 1, 3, 1); }
SV_HARNESS(c10_reduce3x1) { red(3, 1, 3, 1); }
SV_HARNESS(c10_reduce2x2) { red(2, 2, 1, 2); }
SV_HARNESS(c10_reduce3x2) { red(3, 2, 1, 2); }
SV_HARNESS(c10_reduce4x1) { red(4, 1, 2, 1); }
static void strict(int n, int maxc) { // which clocks does a subset restrict?
  Ref r(n), q(n); TC c = mkCond("c", n, maxc, 1, r), d = mkCond("d", n, maxc, 1, q); int k = 1 + sv_choose("k", n);
  TimedConditionSet s(c); bool two = sv_flag("two"); if (two) s.push_back(d); 
  Ref o(n); TC e = mkCond("o", n, maxc, 1, o);
  auto v = s.getStrictlyConstrainedVariables(e, k);
  for (int i = 1; i <= n; i++) {
    auto diff = [&](Ref &x) { bool f = false; for (int j = 0; j <= n; j++) if (j != i) for (int side = 0; side < 2; side++) { int a = side ? i : j, b = side ? j : i; f = f | (x.h(a, b) == o.h(a, b) ? x.h(a, b) && x.at(a, b) != o.at(a, b) : true); } return f; };
    bool want = i <= k && (diff(r) | (two && diff(q)));
    sv_assert((std::find(v.begin(), v.end(), (size_t)i - 1) != v.end()) == want, "exactly the clocks with a different bound are reported");
  }
}
SV_HARNESS(c10_strict1) { strict(1, 1); }
SV_HARNESS(c10_strict2) { strict(2, 1); }
SV_HARNESS(c10_basic) {
  Ref r(2); TC c = mkCond("c", 2, 2, 0, r); TimedConditionSet s; sv_assert(s.empty() & (s.size() == 0), "empty set"); sv_assert(TimedConditionSet::bottom().empty(), "bottom"); s.push_back(c); sv_assert(!s.empty() & (s.size() == 1), "one"); sv_assert((s.front() == c) & (s.back() == c) & (s.at(0) == c), "access");
}
