// Reading targets in the JSON format of OTALearning. The symbolic build gets the document as a tree, the native one as a file.
#include "ta.hh"
#include "conds.hh"
#include <stdexcept>
#include <cstdlib>
#include <unistd.h>
#ifdef SV_SYM
#include <boost/property_tree/json_parser.hpp>
boost::property_tree::ptree *boost::property_tree::sv_document = nullptr;
// the C library's conversions, on symbolic characters
static long sv_strtol(const char *s, int base) { (void)base; while (*s == ' ' || (*s >= '\t' && *s <= '\r')) s++; bool neg = *s == '-'; if (*s == '-' || *s == '+') s++; long r = 0; for (; *s >= '0' && *s <= '9'; s++) r = 10 * r + (*s - '0'); return neg ? -r : r; }
static int sv_atoi(const char *s) { return (int)sv_strtol(s, 10); }
namespace std { static int sv_stoi(const std::string &s) { const char *c = s.c_str(); while (*c == ' ') c++; if (*c == '-' || *c == '+') c++; if (*c < '0' || *c > '9') throw std::invalid_argument("stoi"); return ::sv_atoi(s.c_str()); } static int sv_atoi(const char *s) { return ::sv_atoi(s); } static long sv_strtol(const char *s, char **e, int) { long r = ::sv_strtol(s, 10); if (e) { while (*s == ' ') s++; if (*s == '-' || *s == '+') s++; while (*s >= '0' && *s <= '9') s++; *e = (char *)s; } return r; } }
static long sv_strtol(const char *s, char **e, int b) { return std::sv_strtol(s, e, b); }
using std::sv_stoi;
#define atoi sv_atoi
#define stoi sv_stoi
#define strtol sv_strtol
#endif
#include "../examples/ota_json_parser.hh"
using namespace sv;
// a document: strings, arrays and objects
struct J { int kind = 0; std::string s; std::vector<std::pair<std::string, J>> c; // 0 string, 1 array, 2 object
  static J str(std::string t) { J j; j.s = std::move(t); return j; } static J arr() { J j; j.kind = 1; return j; } static J obj() { J j; j.kind = 2; return j; }
  J &add(J v, std::string k = "") { c.emplace_back(std::move(k), std::move(v)); return *this; }
  void text(std::string &o) const { if (kind == 0) { o += '"'; o += s; o += '"'; return; } o += kind == 1 ? '[' : '{'; bool first = true; for (auto &p : c) { if (!first) o += ", "; first = false; if (kind == 2) { o += '"'; o += p.first; o += "\": "; } p.second.text(o); } o += kind == 1 ? ']' : '}'; }
#ifdef SV_SYM
  boost::property_tree::ptree tree() const { boost::property_tree::ptree t(s); for (auto &p : c) t.add(p.first, p.second.tree()); return t; }
#endif
};
struct Parsed { bool invalid = false; std::vector<Alphabet> al; TimedAutomaton a; };
static Parsed parse(const J &j) { Parsed r; std::string path = "/nonexistent";
#ifdef SV_SYM
  boost::property_tree::ptree t = j.tree(); boost::property_tree::sv_document = &t;
#else
  char f[] = "/tmp/sv-json-XXXXXX"; int fd = mkstemp(f); std::string o; j.text(o); if (fd < 0 || write(fd, o.data(), o.size()) != (ssize_t)o.size()) sv_reject("no file"); close(fd); path = f;
#endif
  try { OtaJsonParser p(path); r.al = p.getAlphabet(); r.a = p.getTarget(); } catch (std::invalid_argument &) { r.invalid = true; }
#ifndef SV_SYM
  unlink(f);
#endif
  return r; }
static std::string number(const char *nm, int digits, int &value) { std::string s; value = 0; for (int i = 0; i < digits; i++) { int d = sv_int(nm, i == 0 && digits > 1 ? 1 : 0, 9); value = 10 * value + d; s.push_back((char)('0' + d)); } return s; }
// an interval and its meaning
static std::string range(const char *nm, Guard &g, int digits) { std::string n = nm; bool lo = sv_flag((n + "lo").c_str()); int c; std::string s = lo ? "(" : "["; s += number((n + "l").c_str(), 1 + sv_choose((n + "ld").c_str(), digits), c); g.push_back(Constraint{0, lo ? Constraint::Order::gt : Constraint::Order::ge, c}); s += ",";
  int k = sv_choose((n + "hi").c_str(), 3); if (k == 2) { s += "+)"; return s; } s += number((n + "u").c_str(), 1 + sv_choose((n + "ud").c_str(), digits), c); s += k ? ")" : "]"; g.push_back(Constraint{0, k ? Constraint::Order::lt : Constraint::Order::le, c}); return s; }
static const char *NAMES[] = {"1", "2", "10", "q"};
static J document(const Spec &s, const std::vector<std::string> &sigma, const std::vector<std::string> &ranges, const std::vector<std::string> &labels) { J d = J::obj(); d.add(J::str("target"), "name"); J l = J::arr(), sg = J::arr(), ac = J::arr(), tr = J::obj(); for (int i = 0; i < s.nl; i++) { l.add(J::str(NAMES[i])); if (s.acc[i]) ac.add(J::str(NAMES[i])); } for (auto &x : sigma) sg.add(J::str(x));
  for (size_t i = 0; i < s.edges.size(); i++) { auto &e = s.edges[i]; J t = J::arr(); t.add(J::str(NAMES[e.src])).add(J::str(labels[i])).add(J::str(ranges[i])).add(J::str(e.resets.empty() ? "n" : "r")).add(J::str(NAMES[e.dst])); tr.add(t, std::string(1, (char)('0' + i))); }
  d.add(l, "l").add(sg, "sigma").add(tr, "tran").add(J::str(NAMES[s.init]), "init").add(ac, "accept"); return d; }
static bool overlap(const Spec &s) { bool r = false; for (size_t i = 0; i < s.edges.size(); i++) for (size_t j = 0; j < i; j++) if (s.edges[i].src == s.edges[j].src && s.edges[i].act == s.edges[j].act) { Guard g = s.edges[i].guard; g.insert(g.end(), s.edges[j].guard.begin(), s.edges[j].guard.end()); r = r | nonEmpty(g, 1); } return r; }
static void check(Spec s, const std::vector<std::string> &ranges, const char *acts, int len, int maxd) { std::vector<std::string> sigma, labels; for (const char *a = acts; *a; a++) sigma.push_back(std::string(1, *a)); for (auto &e : s.edges) labels.push_back(std::string(1, e.act)); 
  Parsed p = parse(document(s, sigma, ranges, labels)); bool bad = overlap(s); sv_assert(p.invalid == bad, "a document is refused exactly when its transitions overlap"); if (p.invalid) { sv_reach("refused"); return; } sv_reach("accepted");
  sv_assert(std::string(p.al.begin(), p.al.end()) == acts, "the alphabet is that of the document"); sv_assert((int)p.a.states.size() == s.nl && p.a.initialStates.size() == 1 && p.a.clockSize() == 1, "locations and clock"); int m = 0; bool top = true, hit = false; for (auto &e : s.edges) for (auto &c : e.guard) { top = top & (c.c <= p.a.maxConstraints.at(0)); hit = hit | (c.c == p.a.maxConstraints.at(0)); } (void)m; sv_assert(top & (hit | s.edges.empty()), "the maximal constant is that of the document");
  std::string w = mkWord("w", sv_choose("n", len + 1), acts); Val d = mkVal("d", w.size() + 1, maxd, 3); sv_assert(taAccepts(p.a, w, d) == refAccepts(s, w, d), "the automaton accepts exactly the words of the document"); }
static Spec locs(int n) { Spec s; s.nl = n; s.nc = 1; for (int i = 0; i < n; i++) s.acc.push_back((char)sv_flag("acc")); s.init = sv_choose("init", n); return s; }
static Resets rst() { return sv_flag("r") ? Resets{{(ClockVariables)0, 0.0}} : Resets{}; }
SV_HARNESS(c28_range) { SvMode fm(1); Spec s = locs(2); Guard g; std::string r = range("g", g, 2); s.edges.push_back(Edge{0, 'a', g, rst(), 1}); check(s, {r}, "a", 1, 128); }
SV_HARNESS(c28_long) { SvMode fm(1); Spec s; s.nl = 2; s.nc = 1; s.acc = {0, 1}; Guard g; std::string r = range("g", g, 4); s.edges.push_back(Edge{0, 'a', g, {}, 1}); Parsed p = parse(document(s, {"a"}, {r}, {"a"})); sv_assert(!p.invalid, "accepted"); double d = sv_int("d", 0, 10001) + (sv_flag("half") ? 0.5 : 0); sv_assert(taAccepts(p.a, "a", {d, 0}) == refAccepts(s, "a", {d, 0}), "the automaton accepts exactly the words of the document"); }
SV_HARNESS(c28_two) { SvMode fm(1); Spec s = locs(2); Guard g, h; std::string r = range("g", g, 1), q = range("h", h, 1); s.edges.push_back(Edge{0, 'a', g, rst(), 1}); char b = sv_flag("b") ? 'b' : 'a'; int src = sv_choose("src", 2), dst = sv_choose("dst", 2); s.edges.push_back(Edge{src, b, h, rst(), dst}); check(s, {r, q}, "ab", 2, 12); }
SV_HARNESS(c28_three) { SvMode fm(1); Spec s; s.nl = 3; s.nc = 1; s.acc = {0, 0, 1}; std::vector<std::string> rs; for (int i = 0; i < 3; i++) { Guard g; rs.push_back(range("g", g, 1)); Resets r = rst(); int dst = sv_choose("dst", 3); s.edges.push_back(Edge{i == 0 ? 0 : i - 1, 'a', g, r, dst}); } check(s, rs, "a", 2, 12); }
SV_HARNESS(c28_none) { SvMode fm(1); Spec s = locs(3); check(s, {}, "ab", 1, 4); }
SV_HARNESS(c28_labels) { SvMode fm(1); Spec s = locs(1); Guard g; std::string r = range("g", g, 1); s.edges.push_back(Edge{0, 'a', g, {}, 0}); const char *ls[] = {"a", "ab", "", "tau"}; std::string x = ls[sv_choose("sigma", 4)], y = ls[sv_choose("label", 4)]; Parsed p = parse(document(s, {"b", x}, {r}, {y})); sv_assert(p.invalid == (x.size() != 1 || y.size() != 1), "actions of several letters are refused"); if (!p.invalid) sv_assert(p.al.size() == 2 && p.al[0] == 'b' && p.al[1] == 'a', "the alphabet keeps its order"); }
