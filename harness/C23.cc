// Equivalence oracles by testing. Random choices are replaced by arbitrary ones.
#include "ta.hh"
#include <random>
namespace std { struct sv_device { unsigned operator()() { return 1; } }; struct sv_engine { explicit sv_engine(unsigned) {} };
template <class T> struct sv_uint { T a, b; sv_uint(T x, T y) : a(x), b(y) {} template <class E> T operator()(E &) { return a + (T)sv_choose("random", (int)(b - a) + 1); } };
template <class T = double> struct sv_ureal { T a, b; sv_ureal(T x, T y) : a(x), b(y) {} template <class E> T operator()(E &) { T r = sv_real("random", (int)a, (int)b, 1); sv_assume(r < b); return r; } }; }
#define random_device sv_device
#define mt19937 sv_engine
#define uniform_int_distribution sv_uint
#define uniform_real_distribution sv_ureal
#include "equivalence_oracle_by_random_test.hh"
#undef random_device
#undef mt19937
#undef uniform_int_distribution
#undef uniform_real_distribution
#include "equivalence_oracle_by_test.hh"
#include "equivalence_oracle_memo.hh"
#include "equivalance_oracle_chain.hh"
using namespace sv;
static bool deterministic(const Spec &s) { bool r = true; for (size_t i = 0; i < s.edges.size(); i++) for (size_t j = 0; j < i; j++) if (s.edges[i].src == s.edges[j].src && s.edges[i].act == s.edges[j].act) { Guard g = s.edges[i].guard; g.insert(g.end(), s.edges[j].guard.begin(), s.edges[j].guard.end()); r = r & !nonEmpty(g, s.nc); } return r; }
struct W { std::string w; Val d; TimedWord tw() const { return TimedWord{w, d}; } };
static W mkW(const char *nm, int n, int max, const char *acts = "a", int scale = 1) { std::string s = nm; W w; w.w = mkWord((s + "w").c_str(), n, acts); w.d = mkVal(nm, n + 1, max, scale); return w; }
static bool differ(const Spec &a, const Spec &b, const std::string &w, const Val &d) { return refAccepts(a, w, d) != refAccepts(b, w, d); }
static bool isPrefix(const TimedWord &p, const W &w) { size_t n = p.wordSize(); if (n > w.w.size() || w.w.compare(0, n, p.getWord()) || p.getDurations().size() != n + 1) return false; bool r = true; for (size_t i = 0; i < n; i++) r = r & (p.getDurations()[i] == w.d[i]); return r & ((p.getDurations()[n] == w.d[n]) | (p.getDurations()[n] == 0)); }
// some prefix of the word, up to a delay or up to an action, is a disagreement
static bool anyDiffer(const Spec &a, const Spec &b, const W &w) { RefRun x(a), y(b); for (size_t i = 0; i <= w.w.size(); i++) { x.delay(w.d[i]); y.delay(w.d[i]); if (x.accepting() != y.accepting()) return true; if (i < w.w.size()) { x.act(w.w[i]); y.act(w.w[i]); if (x.accepting() != y.accepting()) return true; } } return false; }
static void verdict(const std::optional<TimedWord> &r, const Spec &t, const Spec &h, const std::vector<W> &ws) {
  if (r) { sv_reach("counterexample"); bool pre = false; for (auto &w : ws) pre = pre | isPrefix(*r, w); sv_assert(pre, "a counterexample is a prefix of a word"); if (r->getDurations().size() == r->wordSize() + 1) sv_assert(differ(t, h, r->getWord(), r->getDurations()), "target and hypothesis disagree on the counterexample"); }
  else { sv_reach("none"); for (auto &w : ws) sv_assert(!anyDiffer(t, h, w), "without a counterexample they agree on every word and prefix"); } }
static Spec two(const char *n, int len, int maxc, int nc = 1) { Spec s; s.nl = 2; s.nc = nc; s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")}; s.edges.push_back(Edge{0, 'a', mkGuard(n, len, nc, maxc), {}, 1}); return s; }
static Spec chain(const char *n, int maxc) { Spec s; std::string m = n; s.nl = 3; s.nc = 1; s.acc = {(char)sv_flag("acc"), 0, 1}; s.edges.push_back(Edge{0, 'a', mkGuard((m + "g").c_str(), 1, 1, maxc), sv_flag("r") ? Resets{{(ClockVariables)0, (double)sv_int("v", 0, 1)}} : Resets{}, 1}); s.edges.push_back(Edge{1, 'a', mkGuard((m + "h").c_str(), 1, 1, maxc), {}, 2}); return s; }
static Spec loop(const char *n, int maxc) { Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', mkGuard(n, 1, 1, maxc), {}, 1}); s.edges.push_back(Edge{1, 'a', mkGuard(n, 1, 1, maxc), {}, sv_choose("dst", 2)}); if (sv_flag("b")) s.edges.push_back(Edge{sv_choose("src", 2), 'b', {}, {}, sv_choose("dst", 2)}); return s; }
static void test(const Spec &t, const Spec &h, const std::vector<W> &ws) { sv_assume(deterministic(t)); sv_assume(deterministic(h)); EquivalenceOracleByTest o(build(t, 5)); for (auto &w : ws) o.push_back(w.tw()); verdict(o.findCounterExample(build(h, 5)), t, h, ws); sv_assert(o.numEqQueries() == 1, "queries are counted"); }
SV_HARNESS(c23_test1) { SvMode fm(1); Spec t = two("t", 1, 2), h = two("h", 1, 2); test(t, h, {mkW("d", 1, 3)}); }
SV_HARNESS(c23_test1x2) { SvMode fm(1); Spec t = two("t", 1, 2), h = two("h", 1, 2); test(t, h, {mkW("d", sv_choose("n", 2), 3), mkW("e", sv_choose("n", 2), 3)}); }
SV_HARNESS(c23_test2) { SvMode fm(1); Spec t = chain("t", 1), h = chain("h", 1); test(t, h, {mkW("d", 2, 2)}); }
SV_HARNESS(c23_test3) { SvMode fm(1); Spec t = loop("t", 1), h = loop("h", 1); test(t, h, {mkW("d", 3, 2, "ab")}); }
SV_HARNESS(c23_none) { SvMode fm(1); Spec t = two("t", 1, 2), h = two("h", 1, 2); test(t, h, {}); }
SV_HARNESS(c23_empty) { SvMode fm(1); Spec t = two("t", 1, 2), h; if (sv_flag("swap")) std::swap(t, h); test(t, h, {mkW("d", 1, 3)}); }
// an inner oracle that knows one word per query and answers honestly
struct Inner : EquivalenceOracle { const Spec &t; std::vector<const Spec *> hs; std::vector<W> ws; size_t asked = 0; Inner(const Spec &t_, std::vector<const Spec *> h, std::vector<W> w) : t(t_), hs(std::move(h)), ws(std::move(w)) {}
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &) override { ++eqQueryCount; size_t k = asked++; if (k >= ws.size()) return std::nullopt; if (differ(t, *hs[k], ws[k].w, ws[k].d)) return ws[k].tw(); return std::nullopt; } };
static void memo(const Spec &t, const Spec &h1, const Spec &h2, const W &w1, const W &w2) { for (auto *s : {&t, &h1, &h2}) sv_assume(deterministic(*s)); 
  // the inner oracle is asked about the first hypothesis first, and about the second only if the memory has no answer
  auto in = std::make_unique<Inner>(t, std::vector<const Spec *>{&h1, &h2}, std::vector<W>{w1, w2}); Inner &inner = *in; EquivalenceOracleMemo o(std::move(in), build(t, 5)); auto r1 = o.findCounterExample(build(h1, 5)); bool d1 = differ(t, h1, w1.w, w1.d); sv_assert(r1.has_value() == d1, "the answer of the inner oracle is passed on"); if (r1) sv_assert(differ(t, h1, r1->getWord(), r1->getDurations()), "a disagreement"); sv_assert(inner.asked == 1, "the inner oracle is asked");
  auto r2 = o.findCounterExample(build(h2, 5)); std::vector<W> known; if (d1) known.push_back(w1);
  bool mem = false; for (auto &w : known) mem = mem || anyDiffer(t, h2, w); if (mem) { sv_reach("from the memory"); sv_assert(r2.has_value(), "the memory is consulted"); }
  else sv_assert(r2.has_value() == differ(t, h2, w2.w, w2.d), "otherwise the inner oracle decides"); if (r2) sv_assert(differ(t, h2, r2->getWord(), r2->getDurations()), "a disagreement with the later hypothesis"); sv_assert(o.numEqQueries() == 2, "queries are counted"); sv_reach(r2 ? "second" : "no second");
  auto r3 = o.findCounterExample(build(h2, 5)); sv_assert(r3.has_value() == r2.has_value(), "a counterexample is found again"); if (r3) sv_assert(differ(t, h2, r3->getWord(), r3->getDurations()), "a disagreement again"); }
static Spec fixed(const char *n, int maxc) { Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; s.edges.push_back(Edge{0, 'a', Guard{Constraint{0, (Constraint::Order)sv_choose(n, 4), sv_int(n, 0, maxc)}}, {}, 1}); return s; }
SV_HARNESS(c23_memo) { SvMode fm(1); Spec t = fixed("t", 2), h1 = fixed("h", 2), h2 = fixed("k", 2); W d = mkW("d", 1, 3), e = mkW("e", 1, 3); memo(t, h1, h2, d, e); }
SV_HARNESS(c23_memo0) { SvMode fm(1); Spec t = two("t", 1, 2), h1 = two("h", 1, 2), h2 = two("k", 1, 2); int n = sv_choose("n", 2), m = sv_choose("m", 2); W d = mkW("d", n, 3), e = mkW("e", m, 3); memo(t, h1, h2, d, e); }
SV_HARNESS(c23_memo2) { SvMode fm(1); Spec t = chain("t", 1), h1 = t, h2 = t; h1.edges[1].guard = mkGuard("h", 1, 1, 1); h2.edges[0].guard = mkGuard("k", 1, 1, 1); h2.acc[0] = sv_flag("acc"); W d = mkW("d", 2, 2), e = mkW("e", 2, 2); memo(t, h1, h2, d, e); }
static void chained(int k) { SvMode fm(1); Spec t = fixed("t", 2), h = fixed("h", 2); h.acc[0] = sv_flag("acc"); EquivalenceOracleChain o; std::vector<W> ws; bool stub = false; for (int i = 0; i < k; i++) { W w = mkW("d", 1, 3); if (sv_flag("stub")) { o.push_back(std::make_unique<Inner>(t, std::vector<const Spec *>{&h, &h}, std::vector<W>{w, w})); stub = true; } else { auto e = std::make_unique<EquivalenceOracleByTest>(build(t, 5)); e->push_back(w.tw()); o.push_back(std::move(e)); } ws.push_back(w); }
  for (int i = 0; i < 2; i++) { auto r = o.findCounterExample(build(h, 5)); if (r || !stub) verdict(r, t, h, ws); else for (auto &w : ws) sv_assert(!differ(t, h, w.w, w.d), "without a counterexample every oracle of the chain has none"); } sv_assert(o.numEqQueries() == 2, "queries are counted"); }
SV_HARNESS(c23_chain0) { chained(0); }
SV_HARNESS(c23_chain1) { chained(1); }
SV_HARNESS(c23_chain2) { chained(2); }
SV_HARNESS(c23_chain3) { chained(3); }
// random testing, for every sequence of random choices
static void random(const Spec &t, const Spec &h, const std::vector<Alphabet> &al, int tests, int len, int maxd) { sv_assume(deterministic(t)); sv_assume(deterministic(h)); EquivalenceOracleByRandomTest o(al, build(t, 5), tests, len, maxd); auto r = o.findCounterExample(build(h, 5)); if (r) { sv_reach("counterexample"); bool nn = true; for (double d : r->getDurations()) nn = nn & (d >= 0) & (d <= maxd); sv_assert(nn, "delays within range"); sv_assert(r->wordSize() <= (size_t)len && r->getDurations().size() == r->wordSize() + 1, "length within range"); sv_assert(differ(t, h, r->getWord(), r->getDurations()), "target and hypothesis disagree on the counterexample"); } else sv_reach("none"); sv_assert(o.numEqQueries() == 1, "queries are counted"); }
SV_HARNESS(c23_random1) { SvMode fm(1); Spec t = two("t", 1, 2), h = two("h", 1, 2); random(t, h, {'a', 'b'}, 2, 1, 3); }
SV_HARNESS(c23_random2) { SvMode fm(1); Spec t = chain("t", 1), h = chain("h", 1); random(t, h, {'a'}, 1, 2, 2); }
SV_HARNESS(c23_random0) { SvMode fm(1); Spec t = two("t", 1, 2), h = two("h", 1, 2); random(t, h, {'a'}, sv_choose("tests", 3), 0, 3); }
SV_HARNESS(c23_randomsame) { SvMode fm(1); Spec t = loop("t", 1); random(t, t, {'a', 'b'}, 1, 2, 2); }
