// Symbolic timed conditions: delays tau_0..tau_{n-1}; clock x_i of the zone is tau_i + ... + tau_{n-1}.
#pragma once
#include "zones.hh"
#include "timed_condition.hh"
#include "timed_word.hh"
#include "elementary_language.hh"
namespace sv {
struct TC : TimedCondition { explicit TC(Zone z) : TimedCondition(std::move(z)) {} static const Zone &of(const TimedCondition &c) { return c.*(&TC::zone); } };
typedef std::vector<double> Delays;
inline double sum(const Delays &t, int i, int j) { double s = 0; for (int k = i; k <= j; k++) s += t[k]; return s; }
inline std::vector<double> acc(const Delays &t) { std::vector<double> r(t.size()); double s = 0; for (int i = (int)t.size() - 1; i >= 0; i--) { s += t[i]; r[i] = s; } return r; }
inline bool inCond(const TimedCondition &c, const Delays &t) { return inZone(TC::of(c), acc(t)); }
inline Delays mkDelays(const char *n, int k, int max, int scale) { return mkVal(n, k, max, scale); }
// Conditions by case distinction: for every sum of consecutive delays (single delays first) the paths split over the
// intervals [lo, hi] of points and open unit intervals that the sums chosen before leave possible.
// upper: 0 every delay is at most maxc; 1 upper bounds may also be absent. cells: at most so many points/units per interval
inline TC mkCond(const char *nm, int n, int maxc, int upper, Ref &ref, int cells = 99) {
  std::string s = nm; Zone z = Zone::top(n + 1); z.M = Bounds{10, true};
  for (int i = 0; i <= n; i++) z.value(i, i) = Bounds{0, true};
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) ref.add(j == n - 1 ? 0 : j + 2, i + 1, 0, true);
  for (int len = 1; len <= n; len++) for (int i = 0; i + len <= n; i++) {
    int j = i + len - 1, r = i + 1, c = j == n - 1 ? 0 : j + 2;
    E l = ref.at(c, r); int lo = (int)(-2 * l.c + (l.le ? 0 : 1)), hi; bool unb = !ref.h(r, c);
    if (unb) hi = std::max(lo, 2 * maxc); else { E u = ref.at(r, c); hi = (int)(2 * u.c - (u.le ? 0 : 1)); }
    if (unb && upper == 0 && len == 1) unb = false;
    int a = lo + sv_choose((s + "l").c_str(), hi - lo + 1); int k = std::min(hi - a + 1, cells), b = sv_choose((s + "u").c_str(), k + (unb ? 1 : 0));
    ref.add(c, r, -(a / 2), a % 2 == 0); if (b < k) { b += a; ref.add(r, c, (b + 1) / 2, b % 2 == 0); }
    ref.close(); 
  }
  if (!ref.nonEmpty()) sv_reject("no such condition");
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j && ref.h(i, j)) z.value(i, j) = Bounds{(double)ref.at(i, j).c, ref.at(i, j).le};
  return TC(z);
}
inline bool sameUnit(double a, double b) { double fa = std::floor(a), fb = std::floor(b); return (fa == fb) & ((a == fa) == (b == fb)); }
// do two delay sequences agree on the integer point or unit interval of every sum?
inline bool sameRegion(const Delays &a, const Delays &b) { bool r = true; int n = a.size(); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) r = r & sameUnit(sum(a, i, j), sum(b, i, j)); return r; }
inline bool simple(const TimedCondition &c) { const Zone &z = TC::of(c); int n = c.size(); bool r = true; for (int i = 0; i <= n; i++) for (int j = i + 1; j <= n; j++) { auto u = z.value(i, j), l = z.value(j, i);
  r = r & (((-l.first == u.first) & u.second & l.second) | ((-l.first + 1 == u.first) & !u.second & !l.second)); } return r; }
// splits the paths by region of the accumulated delays: afterwards every sum has a known unit (callers keep using the same vector)
inline void forkRegion(const Delays &a) { int n = a.size(); for (int j = n - 1; j >= 0; j--) for (int i = 0; i <= j; i++) { double d = a[i] - (j + 1 < n ? a[j + 1] : 0); double f = std::floor(d); sv_forkd(f); sv_fork(f == d); } }
// the same, recording the (then concrete) units of all sums; membership of another sequence is then linear
struct Region { int n; std::vector<double> f; std::vector<char> pt;
  bool has(const Delays &u) const { bool r = true; int k = 0; Delays x = acc(u); for (int j = n - 1; j >= 0; j--) for (int i = 0; i <= j; i++, k++) { double d = x[i] - (j + 1 < n ? x[j + 1] : 0); r = r & (pt[k] ? d == f[k] : (bool)((d > f[k]) & (d < f[k] + 1))); } return r; } };
inline Region regionOf(const Delays &a) { Region r; r.n = a.size(); for (int j = r.n - 1; j >= 0; j--) for (int i = 0; i <= j; i++) { double d = a[i] - (j + 1 < r.n ? a[j + 1] : 0); double f = std::floor(d); r.f.push_back(sv_forkd(f)); r.pt.push_back(sv_fork(f == d)); } return r; }
// two non-negative bounds make an interval of reals
struct Bd { double c; bool le; };
inline bool feasible(const std::vector<Bd> &lo, const std::vector<Bd> &hi) { bool r = true; for (auto &l : lo) for (auto &h : hi) r = r & ((l.c < h.c) | (l.le & h.le & (l.c == h.c))); return r; }
inline Bounds lowB(const TimedCondition &c, int i, int j) { return TC::of(c).value(j == (int)c.size() - 1 ? 0 : j + 2, i + 1); }
inline Bounds uppB(const TimedCondition &c, int i, int j) { return TC::of(c).value(i + 1, j == (int)c.size() - 1 ? 0 : j + 2); }
inline bool isInf(const Bounds &b) { return b.first > 1e100; }
}
