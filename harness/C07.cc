#include "conds.hh"
using namespace sv;
static const char AB[3] = {'a', 'b', UNOBSERVABLE};
struct W { std::string w; Delays d; };
static W mk(const char *n, int len, bool unobs) { W r; r.d = mkDelays(n, len + 1, 4, 3); for (int i = 0; i < len; i++) r.w += AB[sv_choose((std::string(n) + "c").c_str(), unobs ? 3 : 2)]; return r; }
static W absorb(const W &x) { W r; r.d.push_back(x.d[0]); for (size_t i = 0; i < x.w.size(); i++) if (x.w[i] == UNOBSERVABLE) r.d.back() += x.d[i + 1]; else { r.w += x.w[i]; r.d.push_back(x.d[i + 1]); } return r; }
static bool same(const TimedWord &a, const W &b) { bool r = (a.getWord() == b.w) & (a.getDurations().size() == b.d.size()); if (!r) return false; for (size_t i = 0; i < b.d.size(); i++) r = r & (a.getDurations()[i] == b.d[i]); return r; }
static W cat(const W &a, const W &b) { W r = a; r.w += b.w; r.d.back() += b.d[0]; for (size_t i = 1; i < b.d.size(); i++) r.d.push_back(b.d[i]); return r; }
SV_HARNESS(c07_construct) {
  W x = mk("x", sv_choose("n", 4), true); TimedWord t(x.w, x.d); W e = absorb(x);
  sv_assert(same(t, e), "unobservable actions are absorbed into the delays"); sv_assert(t.wordSize() == e.w.size(), "size");
  auto a = t.getAccumulatedDurations(); auto r = acc(e.d); sv_assert(a.size() == r.size(), "accumulated size"); bool ok = true; for (size_t i = 0; i < r.size(); i++) ok = ok & (a[i] == r[i]);
  sv_assert(ok, "accumulated durations are suffix sums"); sv_assert(a[0] == sum(x.d, 0, x.d.size() - 1), "the total duration is kept");
  sv_assert(TimedWord(x.w, x.d) == t, "construction is deterministic"); sv_assert(same(TimedWord(), W{"", {0}}), "the empty word");
}
SV_HARNESS(c07_concat) {
  W x = mk("x", sv_choose("n", 3), true), y = mk("y", sv_choose("m", 3), true), z = mk("z", sv_choose("k", 2), false); TimedWord a(x.w, x.d), b(y.w, y.d), c(z.w, z.d);
  W ex = absorb(x), ey = absorb(y); TimedWord ab = a + b;
  sv_assert(same(ab, cat(ex, ey)), "concatenation"); sv_assert(same(ab + c, cat(cat(ex, ey), z)), "left associated"); sv_assert((ab + c) == (a + (b + c)), "associativity");
  sv_assert(same(ab.getSuffix(a), ey), "the suffix after a prefix inverts concatenation");
  W whole = x; whole = cat(x, y); sv_assert(TimedWord(whole.w, whole.d) == ab, "absorbing commutes with concatenation");
  sv_assert(same(a, ex) & same(b, ey), "operands are unchanged");
}
SV_HARNESS(c07_extend) {
  W x = mk("x", sv_choose("n", 3), true); TimedWord a(x.w, x.d); W e = absorb(x); double d = sv_real("d", 0, 4, 3); char c = AB[sv_choose("c", 2)];
  W f = e; f.w += c; f.d.push_back(0); sv_assert(same(a + c, f), "appending an action");
  W g = e; g.d.back() += d; sv_assert(same(a + d, g), "appending a delay");
}
SV_HARNESS(c07_equal) {
  W x = mk("x", sv_choose("n", 3), false), y = mk("y", sv_choose("m", 3), false); TimedWord a(x.w, x.d), b(y.w, y.d); bool eq = x.w == y.w; if (eq) for (size_t i = 0; i < x.d.size(); i++) eq = eq & (x.d[i] == y.d[i]);
  sv_assert((a == b) == eq, "equality is equality of actions and delays");
}
