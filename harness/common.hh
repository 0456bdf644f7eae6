// Shared generators and reference semantics (branch-free, so that the reference does not fork paths).
#pragma once
#include "sv.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <map>
#include <utility>
#include <memory>
#include <optional>
#include "constraint.hh"
namespace sv {
using namespace learnta;
typedef std::vector<Constraint> Guard;
inline bool holds(const Constraint &c, double d) {
  switch (c.odr) { // the operator of a constraint is concrete in every harness
  case Constraint::Order::lt: return d < c.c;
  case Constraint::Order::le: return d <= c.c;
  case Constraint::Order::ge: return d >= c.c;
  case Constraint::Order::gt: return d > c.c;
  }
  return false;
}
inline bool holds(const Guard &g, const std::vector<double> &v) {
  bool r = true; for (const auto &c : g) r = r & holds(c, v[c.x]); return r;
}
inline bool holdsAny(const std::vector<Guard> &gs, const std::vector<double> &v) {
  bool r = false; for (const auto &g : gs) r = r | holds(g, v); return r;
}
inline Constraint mkConstraint(const char *n, int clocks, int maxc) {
  std::string s = n;
  int x = sv_choose((s + "x").c_str(), clocks), o = sv_choose((s + "o").c_str(), 4); int c = sv_int((s + "c").c_str(), 0, maxc);
  return Constraint{static_cast<ClockVariables>(x), static_cast<Constraint::Order>(o), c};
}
inline Guard mkGuard(const char *n, int len, int clocks, int maxc) {
  Guard g; for (int i = 0; i < len; i++) g.push_back(mkConstraint(n, clocks, maxc)); return g;
}
// the interval of a clock in half units: [lo, hi], strict bounds move by one
struct Iv { long lo, hi; };
const long INFTY = 1L << 24;
inline long lmax(long a, long b) { return a < b ? b : a; }
inline long lmin(long a, long b) { return b < a ? b : a; }
inline Iv interval(const Guard &g, int x) {
  Iv r{0, INFTY};
  for (const auto &c : g) if (c.x == x) switch (c.odr) {
    case Constraint::Order::lt: r.hi = lmin(r.hi, 2L * c.c - 1); break;
    case Constraint::Order::le: r.hi = lmin(r.hi, 2L * c.c); break;
    case Constraint::Order::ge: r.lo = lmax(r.lo, 2L * c.c); break;
    case Constraint::Order::gt: r.lo = lmax(r.lo, 2L * c.c + 1); break;
  }
  return r;
}
inline bool nonEmpty(const Guard &g, int clocks) { bool r = true; for (int i = 0; i < clocks; i++) { Iv v = interval(g, i); r = r & (v.lo <= v.hi); } return r; }
inline std::vector<double> mkVal(const char *n, int clocks, int max, int scale) {
  std::vector<double> v; for (int i = 0; i < clocks; i++) v.push_back(sv_real(n, 0, max, scale)); return v;
}
}
