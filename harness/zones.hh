// Symbolic zones and an independent integer reference for difference-bound sets.
#pragma once
#include "common.hh"
#include <variant>
#include "zone.hh"
namespace sv {
inline Bounds inf() { return Bounds{std::numeric_limits<double>::max(), false}; }
inline bool within(double d, const Bounds &b) { return (d < b.first) | (b.second & (d == b.first)); }
inline bool inZone(const Zone &z, const std::vector<double> &v) { // the meaning of the matrix
  bool r = true; int n = v.size();
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j) { double a = i ? v[i - 1] : 0, b = j ? v[j - 1] : 0; r = r & within(a - b, z.value(i, j)); }
  else r = r & within(0, z.value(i, j));
  return r;
}
struct E { long c; bool le; }; // an upper bound: <= c or < c
inline bool operator<(const E &a, const E &b) { return (a.c < b.c) | ((a.c == b.c) & !a.le & b.le); }
inline bool operator<=(const E &a, const E &b) { return !(b < a); }
inline bool operator==(const E &a, const E &b) { return (a.c == b.c) & (a.le == b.le); }
inline bool operator!=(const E &a, const E &b) { return !(a == b); }
inline E operator+(const E &a, const E &b) { return {a.c + b.c, (bool)(a.le & b.le)}; }
inline E emin(const E &a, const E &b) { bool s = b < a; return {s ? b.c : a.c, (bool)((s & b.le) | (!s & a.le))}; }
inline bool holdsE(const E &e, double d, double unit = 1) { double c = (double)e.c * unit; return (d < c) | (e.le & (d == c)); }
struct Ref { // reference closure; has[] says whether the entry is finite (known at harness level)
  int n; std::vector<E> b; std::vector<char> has;
  explicit Ref(int n_) : n(n_), b((n_ + 1) * (n_ + 1), E{0, false}), has((n_ + 1) * (n_ + 1), 0) { for (int i = 0; i <= n; i++) { at(i, i) = E{0, true}; h(i, i) = 1; } }
  E &at(int i, int j) { return b[i * (n + 1) + j]; }
  char &h(int i, int j) { return has[i * (n + 1) + j]; }
  void add(int i, int j, long c, bool le) { addE(i, j, E{c, le}); }
  void addE(int i, int j, const E &e) { if (h(i, j)) at(i, j) = emin(at(i, j), e); else { at(i, j) = e; h(i, j) = 1; } }
  void close() { SvMode m(0); for (int k = 0; k <= n; k++) for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != k && j != k && h(i, k) && h(k, j)) addE(i, j, at(i, k) + at(k, j)); }
  bool nonEmpty() { bool r = true; for (int i = 0; i <= n; i++) r = r & (E{0, true} <= at(i, i)); return r; } // after close()
  bool contains(const std::vector<double> &v, double unit = 1) { bool r = true;
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j && h(i, j)) r = r & holdsE(at(i, j), (i ? v[i - 1] : 0) - (j ? v[j - 1] : 0), unit);
    return r & nonEmpty(); }
};
// A zone over n clocks with non-negative lower bounds; entries c * 2^-scale, c integer
inline Zone mkZone(const char *nm, int n, int maxc, int scale, Ref &ref, double M = 10, int infDiag = 2) {
  std::string s = nm; Zone z; double unit = std::ldexp(1.0, -scale);
  z.value.resize(n + 1, n + 1); z.M = Bounds{M, true};
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) {
    if (i == j) { z.value(i, j) = Bounds{0.0, true}; continue; }
    bool lower = i == 0;
    bool isInf = !lower && (infDiag == 2 || j == 0) && sv_flag((s + "I").c_str());
    if (!lower && j != 0 && infDiag == 1) isInf = true;
    if (isInf) { z.value(i, j) = inf(); continue; }
    int c = lower ? -sv_int((s + "b").c_str(), 0, maxc << scale) : j == 0 ? sv_int((s + "b").c_str(), 0, maxc << scale) : sv_int((s + "b").c_str(), -(maxc << scale), maxc << scale);
    bool le = sv_int((s + "e").c_str(), 0, 1) == 1;
    z.value(i, j) = Bounds{c * unit, le}; ref.add(i, j, c, le);
  }
  return z;
}
}
