// Symbolic timed automata: the structure is split over paths, constants and delays stay symbolic.
#pragma once
#include "zones.hh"
#include "timed_automaton.hh"
#include "timed_automaton_runner.hh"
#include "timed_word.hh"
namespace sv {
typedef TATransition::Resets Resets;
typedef std::vector<double> Val;
struct Edge { int src; char act; Guard guard; Resets resets; int dst; };
struct Spec { int nl = 0, nc = 0; std::vector<char> acc; std::vector<Edge> edges; int init = 0; };
inline Val applied(const Resets &rs, const Val &v) { Val r = v; for (auto &p : rs) r[p.first] = p.second.index() == 1 ? v[std::get<ClockVariables>(p.second)] : std::get<double>(p.second); return r; }
inline Val delayed(const Val &v, double d) { Val r = v; for (auto &x : r) x = x + d; return r; }
inline Guard guardOf(const char *nm, int len, int nc, int maxc) { return mkGuard(nm, len, nc, maxc); }
// k updates of distinct clocks in ascending order: to a small constant or to the old value of a clock
inline Resets mkResets(const char *nm, int k, int nc, int maxc = 1, bool half = false) { std::string s = nm; Resets r; int from = 0;
  for (int i = 0; i < k; i++) { int x = from + sv_choose((s + "x").c_str(), nc - from - (k - 1 - i)); from = x + 1; int y = sv_choose((s + "y").c_str(), nc + (half ? 2 : 1));
    if (y == nc) r.emplace_back(x, (double)sv_int((s + "v").c_str(), 0, maxc)); else if (y > nc) r.emplace_back(x, sv_real((s + "v").c_str(), 0, maxc, 1)); else r.emplace_back(x, (ClockVariables)y); }
  return r; }
inline TimedAutomaton build(const Spec &s, int maxc) { TimedAutomaton a; for (int i = 0; i < s.nl; i++) a.states.push_back(std::make_shared<TAState>((bool)s.acc[i]));
  if (s.nl) a.initialStates.push_back(a.states[s.init]); a.maxConstraints.assign(s.nc, maxc);
  for (auto &e : s.edges) a.states[e.src]->next[e.act].emplace_back(a.states[e.dst].get(), e.resets, e.guard);
  return a; }
// The meaning of a specification on a word of delays d_0 .. d_n and actions a_1 .. a_n (d.size() == w.size() + 1).
// Deterministic; without unobservable transitions. The path splits on the guards met.
struct RefRun { const Spec &s; int loc; Val v; 
  explicit RefRun(const Spec &s_) : s(s_), loc(s_.nl ? s_.init : -1), v(s_.nc, 0.0) {}
  bool accepting() const { return loc >= 0 && s.acc[loc]; }
  void delay(double d) { v = delayed(v, d); }
  // exclusive: only consider automata where at most one transition is enabled
  void act(char a, bool exclusive = true) { if (loc < 0) return; const Edge *hit = nullptr; for (auto &e : s.edges) if (e.src == loc && e.act == a) { bool en = sv_fork(holds(e.guard, v)); if (en) { if (hit && exclusive) sv_reject("nondeterministic"); if (!hit) hit = &e; } }
    if (!hit) { loc = -1; return; } v = applied(hit->resets, v); loc = hit->dst; } };
inline bool refAccepts(const Spec &s, const std::string &w, const Val &d) { RefRun r(s); for (size_t i = 0; i < w.size(); i++) { r.delay(d[i]); r.act(w[i]); } r.delay(d.back()); return r.accepting(); }
// Branch-free: the operator may be symbolic
inline bool holdsSym(const Constraint &c, double d) { int o = (int)c.odr; double k = c.c; return ((o == (int)Constraint::Order::lt) & (d < k)) | ((o == (int)Constraint::Order::le) & (d <= k)) | ((o == (int)Constraint::Order::ge) & (d >= k)) | ((o == (int)Constraint::Order::gt) & (d > k)); }
inline bool guardHolds(const Guard &g, const Val &v) { bool en = true; for (auto &c : g) { if (c.x >= v.size()) sv_assert(false, "a guard mentions a clock the automaton does not have"); en = en & holdsSym(c, v[c.x]); } return en; }
inline void updatesInRange(const Resets &r, size_t n) { for (auto &p : r) if (p.first >= n || (p.second.index() == 1 && std::get<ClockVariables>(p.second) >= n)) sv_assert(false, "an update mentions a clock the automaton does not have"); }
// The same for an automaton data structure: some run over the word ends in an accepting location. Unobservable
// transitions may be taken at any time; those of the inputs are punctual (x == c) so that this time is determined.
struct TaRun { const TimedAutomaton &a; const std::string &w; const Val &d;
  bool from(const TAState *s, const Val &v, size_t i, double rest, int depth) {
    if (depth > 8) sv_reject("too many moves");
    auto e = s->next.find(UNOBSERVABLE);
    if (e != s->next.end()) for (auto &t : e->second) { if (t.guard.empty()) { updatesInRange(t.resetVars, v.size()); if (from(t.target, applied(t.resetVars, v), i, rest, depth + 1)) return true; continue; }
        int x = -1; double c = 0; for (auto &g : t.guard) if (g.odr == Constraint::Order::ge) { x = g.x; c = g.c; } if (x < 0) continue; double wait = c - v[x]; Val u = delayed(v, wait);
        if (sv_fork((wait >= 0) & (wait <= rest) & guardHolds(t.guard, u))) { updatesInRange(t.resetVars, v.size()); if (from(t.target, applied(t.resetVars, u), i, rest - wait, depth + 1)) return true; } }
    Val u = delayed(v, rest); if (i == w.size()) return s->isMatch;
    auto it = s->next.find(w[i]); if (it == s->next.end()) return false;
    for (auto &t : it->second) if (t.target && sv_fork(guardHolds(t.guard, u))) { updatesInRange(t.resetVars, v.size()); if (from(t.target, applied(t.resetVars, u), i + 1, d[i + 1], depth + 1)) return true; }
    return false; } };
inline bool taAccepts(const TimedAutomaton &a, const std::string &w, const Val &d) { TaRun r{a, w, d}; for (auto &s : a.initialStates) if (r.from(s.get(), Val(a.clockSize(), 0.0), 0, d[0], 0)) return true; return false; }
inline std::string mkWord(const char *nm, int n, const char *acts = "ab") { std::string r; int k = std::string(acts).size(); for (int i = 0; i < n; i++) r.push_back(acts[sv_choose(nm, k)]); return r; }
}
