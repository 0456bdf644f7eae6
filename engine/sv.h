// Harness API. Implemented by rt.cc (symbolic execution) and native.cc (concrete replay).
#pragma once
#include <cstddef>
struct Harness { const char *name; void (*fn)(); Harness *next; };
extern "C" {
int sv_int(const char *name, int lo, int hi);                    // an arbitrary integer in [lo, hi]
int sv_choose(const char *name, int n);                          // 0..n-1, forked: concrete afterwards
double sv_real_(const char *name, int lo, int hi, int scaleBits); // an arbitrary multiple of 2^-scaleBits in [lo, hi]
void sv_assume(bool c);
void sv_assert(bool c, const char *what);
void sv_reach(const char *label);
void sv_obs(long v); // contributes to the trace digest that is compared with the native replay
int sv_mode(int m);    // 1: selections between numbers fork the path instead of building a merged value; returns the old mode
long sv_fork(long v);  // forks the path on the value, which is concrete afterwards
double sv_forkd(double v);
[[noreturn]] void sv_reject(const char *why);
bool sv_symbolic();
void sv_register(Harness *h);
}
// The grids of the harnesses are refined: symbolic reasoning costs the same, and a change that depends on small distances
// (a tolerance instead of an exact comparison) becomes visible.
#ifndef SV_GRID
#define SV_GRID 16
#endif
static inline double sv_real(const char *name, int lo, int hi, int scaleBits) { return sv_real_(name, lo, hi, scaleBits + SV_GRID); }
#define SV_HARNESS(id) \
  static void sv_h_##id(); \
  static Harness sv_s_##id{#id, sv_h_##id, nullptr}; \
  static struct sv_r_##id { sv_r_##id() { sv_register(&sv_s_##id); } } sv_i_##id; \
  static void sv_h_##id()
struct SvMode { int o; explicit SvMode(int m) : o(sv_mode(m)) {} ~SvMode() { sv_mode(o); } };
static inline bool sv_flag(const char *name) { return sv_choose(name, 2) == 1; }
