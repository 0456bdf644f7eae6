// Targets of the learner.
#pragma once
#include "ta.hh"
namespace sv {
static const std::vector<Alphabet> A{'a'}, AB{'a', 'b'};
static bool deterministic(const Spec &s) { bool r = true; for (size_t i = 0; i < s.edges.size(); i++) for (size_t j = 0; j < i; j++) if (s.edges[i].src == s.edges[j].src && s.edges[i].act == s.edges[j].act) { Guard g = s.edges[i].guard; g.insert(g.end(), s.edges[j].guard.begin(), s.edges[j].guard.end()); r = r & !nonEmpty(g, s.nc); } return r; }
static TimedAutomaton bounded(const Spec &s) { TimedAutomaton a = build(s, 0); a.maxConstraints = TimedAutomaton::makeMaxConstants(a.states); a.maxConstraints.resize(s.nc); return a; }
static Guard gd(const char *n, int len, int maxc, int nc = 1) { return mkGuard(n, len, nc, maxc); }
static Resets upd(const char *n, int kinds, int nc = 1) { std::string s = n; Resets r; for (int i = 0; i < nc; i++) { int k = sv_choose((s + "u").c_str(), kinds); if (k) r.emplace_back((ClockVariables)i, (double)(k - 1)); } return r; }
static Spec two(int len, int maxc, int kinds) { Spec s; s.nl = 2; s.nc = 1; s.acc = {(char)sv_flag("acc"), (char)sv_flag("acc")}; s.edges.push_back(Edge{0, 'a', gd("g", len, maxc), upd("r", kinds), sv_choose("dst", 2)}); return s; }
static Spec chain(int maxc, int kinds, int len = 1) { Spec s; s.nl = 3; s.nc = 1; s.acc = {0, (char)sv_flag("acc"), 1}; s.edges.push_back(Edge{0, 'a', gd("g", len, maxc), upd("r", kinds), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, maxc), {}, 2}); return s; }
static Spec cycle(int maxc, int kinds) { Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; if (sv_flag("swap")) std::swap(s.acc[0], s.acc[1]); s.edges.push_back(Edge{0, 'a', gd("g", 1, maxc), upd("r", kinds), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, maxc), upd("q", kinds), 0}); return s; }
static Spec clocks(int maxc) { Spec s; s.nl = 3; s.nc = 2; s.acc = {0, 0, 1}; s.edges.push_back(Edge{0, 'a', gd("g", 1, maxc, 2), upd("r", 2, 2), 1}); s.edges.push_back(Edge{1, 'a', gd("h", 1, maxc, 2), {}, 2}); return s; }
}
